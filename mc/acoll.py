"""The collector world for asynchronous environments: the completion schedule is chosen by a Chooser."""
import logging

from mc import coll
from mc.coll import CLOCK, World
from mc.envs import CtlWorker


class AWorld(World):
    def __init__(self, ch, wait_num=1, timeout=None, **kw):
        CtlWorker.delivered = None
        super().__init__(async_=(wait_num, timeout), ch=ch, **kw)
        CtlWorker.delivered = self.on_delivery
        self.sticky = True
        self.workers = (self.venv if not hasattr(self.venv, "venv") else self.venv.venv).workers

    def on_delivery(self, env):
        h = env.hist[-1]
        if h["kind"] == "step":
            h["clk"] = next(CLOCK)
            h["batch"] = len(CtlWorker.waits)

    def inflight(self, i):
        return self.workers[i].busy == "step"

    def hend(self, i):
        return len(self.envs[i].hist) - (1 if self.inflight(i) else 0)

    def drop_inflight(self):
        """A reset is about to discard the steps which are still running."""
        for i in range(self.E):
            if self.inflight(i):
                self.hpos[i] += 1
                self.hlen[i] = self.hpos[i]
            self.pending[i] = []

    def stop_condition(self, kw, steps, done, h0):
        st = self.st
        last = max((t["batch"] for t in self.executed_steps), default=None)
        st.check(last is not None, "stop", f"nothing collected for {kw}")
        n_last = sum(t["batch"] == last for t in self.executed_steps)
        d_last = sum((t["te"] or t["tr"]) for t in self.executed_steps if t["batch"] == last)
        if "n_step" in kw:
            st.check(steps >= kw["n_step"], "stop-steps", lambda: f"{steps} steps for {kw}")
            st.check(steps - n_last < kw["n_step"], "stop-late", lambda: f"continued after {kw} was reached: {steps} steps, {n_last} of them in the last delivery")
        else:
            st.check(len(done) >= kw["n_episode"], "stop-episodes", lambda: f"{len(done)} episodes for {kw}")
            st.check(len(done) - d_last < kw["n_episode"], "stop-late", lambda: f"continued after {kw} was reached: {len(done)} episodes, {d_last} of them in the last delivery")
