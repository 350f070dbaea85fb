"""C24: mode flags in every phase, and after every phase however it ended."""
import itertools
from unittest import mock

import gymnasium as gym
import numpy as np
import torch

from mc import pols
from mc.coll import CEnv
from mc.train import Injected, TCol, TPolicy, TWorld
from tianshou.data import Batch, Collector, ReplayBuffer, VectorReplayBuffer
from tianshou.env import DummyVectorEnv
from tianshou.trainer import OffpolicyTrainer, OnpolicyTrainer
from tianshou.utils.torch_utils import policy_within_training_step

PROPERTY = "C24"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive fault injection: every call-out point (environment reset/step, policy forward, process/learn/post-process, schedule, callbacks, hooks, logging, checkpointing) of small training runs is made to fail in turn, from every initial combination of flags; flags are recorded at every point and after the run"
NOTE = "The flags are policy.training (and that of its modules), is_within_training_step, updating, and the trainer's is_run."
ASSUMPTIONS = ["errors are exceptions raised in the trainer's own process"]


def BOUNDS(tier):
    q = tier == "quick"
    return (f"off-policy, on-policy and offline trainers, {1 if q else 2} epochs of 1-3 collections, with/without hooks, schedules, in-training evaluation, early stop; all call-out points x 4 initial flag combinations; plain collect() and update() calls; "
            f"every network module of all {len(pols.ALL)} policies in a rollout and in updates; {len(POL)} stochastic policies with deterministic evaluation, recording which phase sampled its actions")


POL = ["pg", "pg:c", "a2c", "ppo:c", "sac", "redq", "dsac", "npg"]


def configs(tier):
    q = tier == "quick"
    n = 1 if q else 2
    out = []
    for kind, p in (("off", dict(step_per_collect=2, batch_size=2)), ("on", dict(step_per_collect=2, batch_size=1, repeat_per_collect=2)), ("offline", dict(batch_size=2))):
        for more in (dict(), dict(hooks=True, lr=True), dict(stop=2.0, test_in_train=True, train_alpha=[2.0], test_alpha=[0.5]), dict(stop=2.0, test_in_train=True, train_alpha=[2.0], test_alpha=[2.5], metric=True), dict(test=False, E=2), dict(metric=True, T=2, n_test=2, resume=True, saved=[0, 5, 5])):
            if kind == "offline" and (more.get("test_in_train") or more.get("E")):
                continue
            out.append(dict(kind=kind, lens=[(2,), (1, 3)], p=dict(max_epoch=n, step_per_epoch=3, **p), **more))
    return out


def jobs(tier):
    js = [["fault", tier, c, t, w] for c in configs(tier) for t in (False, True) for w in (False, True)]
    js += [["direct"]] + [["pol", n, tier] for n in POL] + [["modules", n] for n in pols.ALL] + [["wrapped", n] for n in ("icm", "ma")]
    return js


class One:
    def choose(self, n, p=None):
        return 0


def flags(p):
    return (p.training, p.is_within_training_step, p.updating, p.lin.training)


def run(job, st):
    if job[0] == "direct":
        return direct(st)
    if job[0] == "wrapped":
        return wrapped(job[1], st)
    if job[0] == "modules":
        return modules(job[1], st)
    if job[0] == "pol":
        return real(job[1], st)
    _, tier, cfg, training, within = job
    i, n = None, None
    while n is None or i < n:
        for how in ("run", "iter"):
            if how == "iter" and i is not None and i % 3:
                continue
            w = TWorld(cfg, st, One(), fail_at=None if i is None else w0 + i, training=training, within=within)
            w0 = 1 if w.kind == "offline" else 0      # the buffer pre-processing happens in the constructor
            if i is not None:
                w.rec.fail_at = w0 + i
            st.ctx = {"config": cfg, "initial flags": w.flags0, "fail at": i, "how": how}
            raised = False
            try:
                if how == "run":
                    w.trainer.run()
                else:
                    for _ in w.trainer:
                        pass
            except Injected:
                raised = True
            st.check(raised == (i is not None), "swallowed", f"the injected error at {getattr(w.rec, 'failed', None)} did not reach the caller")
            st.step(len(w.rec.flags))
            st.check(flags(w.pol) == w.flags0, "restore", lambda: f"flags (training, within step, updating, module) {flags(w.pol)} after a run {'failing at ' + w.rec.failed if raised else 'without errors'}, {w.flags0} before")
            st.check(not w.trainer.is_run, "is-run", "trainer still marked as running")
            phases(w, st, within)
            st.trace(st.ctx)
            st.state((repr(cfg), training, within, i, how))
            if raised:
                st.outcome(("fail", w.rec.failed))
        if i is None:
            n, i = w.rec.n - w0, 0
        else:
            i += 1


def phases(w, st, within):
    phase = None
    evs = iter(w.rec.ev)
    for what, tr, ws, up, mod in w.rec.flags:
        where = lambda: f"at {what} ({phase}): training={tr} within_training_step={ws} updating={up}"
        if what in ("collect", "learn", "train_fn", "test_fn", "save_best", "stop_fn", "checkpoint", "save_data") or what.startswith("log"):
            e = next(evs)
            while e[0] != what:
                e = next(evs)
            phase = e[1] if what == "collect" else what
        if what in ("forward", "step_hook", "episode_hook") or (what.endswith("env.step")):
            st.check(phase in ("train", "test"), "phase", where)
            st.check(tr is False and mod is False and up is False, "rollout-mode", where)
            if phase == "train":
                st.check(ws is True, "train-rollout", where)
            elif not within:
                st.check(ws is False, "test-rollout", where)
        if what == "learn":
            st.check(tr is True and mod is True and ws is True and up is True, "learn-mode", where)
        if what in ("process", "post"):
            st.check(ws is True and up is True, "update-mode", where)


def direct(st):
    """collect() and update() called by the user, from every flag combination, with a failure at every point."""
    for training, within, fail in itertools.product((False, True), (False, True), (None, *range(12))):
        for call in ("collect_s", "collect_e", "random", "update", "async"):
            cfg = dict(kind="off", lens=[(2,)], hooks=True, lr=True, test=False, p=dict(max_epoch=1, step_per_epoch=2, step_per_collect=2, batch_size=2))
            w = TWorld(cfg, st, One(), None, training, within)
            c = w.train_c
            if call == "async":
                from mc.train import TEnv
                from mc.envs import make_ctl
                from tianshou.data import AsyncCollector
                c = AsyncCollector(w.pol, make_ctl(w.train_envs, One(), 1, 0.5, max_empty=0))
            c.reset()
            if call == "update":
                with policy_within_training_step(w.pol):
                    c.collect(n_step=3)
            w.rec.n = 0
            w.rec.fail_at = fail
            st.ctx = {"call": call, "flags": flags(w.pol), "fail at": fail}
            before = pols.params(w.pol)
            raised = refused = False
            try:
                if call == "update":
                    w.pol.update(2, c.buffer)
                else:
                    c.collect(**({"n_episode": 2} if call == "collect_e" else {"n_step": 2}), random=call == "random")
            except Injected:
                raised = True
            except RuntimeError as e:
                if call != "update" or within or "outside of a training step" not in str(e):
                    raise
                refused = True
            if call == "update":
                st.check(refused == (not within), "update-outside", f"update() outside a training step {'refused' if refused else 'accepted'}")
                st.check(not refused or w.rec.n == 0, "update-outside", "a refused update called the policy")
            st.check(flags(w.pol) == w.flags0, "restore", lambda: f"flags {flags(w.pol)} after {call}{' failing at ' + w.rec.failed if raised else ''}, {w.flags0} before")
            st.step()
            st.trace(st.ctx)
            st.state((call, training, within, fail, raised))


def modules(name, st):
    """Every network module of every algorithm: its mode whenever it is called, in rollouts and in updates."""
    base = name.split(":")[0]
    cont = name.endswith(":c") or base in pols.CONT
    for training in (False, True):
        pol = pols.build(name)
        calls, phase = [], ["none"]
        for n, m in pol.named_modules():
            if m is not pol and n != "policy":
                m.register_forward_pre_hook(lambda m, a, n=n: calls.append((phase[0], n, m.training)))
        sp = gym.spaces.MultiDiscrete([3, 3]) if base == "bdq" else pols.box() if cont else pols.disc()

        def env():
            e = CEnv(0, (2, 3), (), "same", act_space=sp)
            e.observation_space.dtype = np.dtype(np.float32)
            e.obs = lambda: np.array([e.eid, e.ep % 2, e.t], dtype=np.float32)
            return e
        pol.train(training)
        modes = {n: m.training for n, m in pol.named_modules()}
        st.ctx = {"policy": name, "training": training}
        c = Collector(pol, DummyVectorEnv([env]), VectorReplayBuffer(16, 1))
        phase[0] = "rollout"
        c.reset()
        c.collect(n_step=5)
        phase[0] = "none"
        buf = pols.fill(ReplayBuffer(16), name, 8)
        learn = pol.learn

        def rec_learn(*a, **k):
            phase[0] = "update"
            try:
                return learn(*a, **k)
            finally:
                phase[0] = "none"
        with mock.patch.object(pol, "learn", rec_learn):
            for _ in range(3):
                pols.do_update(pol, name, buf)
        seen = {ph: {n for p, n, _ in calls if p == ph} for ph in ("rollout", "update")}
        st.check(base in ("psrl",) or (seen["rollout"] and seen["update"]), "modules-called", f"{name}: no network module was called")
        for ph, n, tr in calls:
            if base == "rainbow" or ph == "none":
                continue        # noisy networks choose their mode themselves
            target = "_old" in n.split(".")[0 if base != "icm" else -1] or any(x.endswith(("_old", "_target")) for x in n.split("."))
            st.check(tr == (ph == "update" and not target), "module-mode", lambda: f"{name}: module {n} called in {'training' if tr else 'evaluation'} mode in {ph}")
        if base != "rainbow":
            now = {n: m.training for n, m in pol.named_modules()}
            st.check(now == modes, "module-restore", lambda: f"{name}: modes changed by rollout and update: {[n for n in now if now[n] != modes[n]]}")
        st.step(len(calls))
        st.trace(st.ctx)
        st.state((name, training))


def wrapped(kind, st):
    """Policies that delegate: the inner policies know the phase as the outer one does, also after errors."""
    from tianshou.policy import ICMPolicy, MultiAgentPolicyManager
    from tianshou.utils.torch_utils import torch_train_mode
    for start, within, fail in itertools.product((False, True), (False, True), (None, "forward", "learn")):
        if kind == "icm":
            pol = pols.build("icm")
            inner = [pol.policy]
        else:
            inner = [pols.build("pg", deterministic_eval=True, seed=k) for k in range(2)]

            class E:
                agents, agent_idx, action_space, observation_space = ["p0", "p1"], {"p0": 0, "p1": 1}, pols.disc(), gym.spaces.Discrete(2)
            pol = MultiAgentPolicyManager(policies=inner, env=E())
        pol.train(start)
        st.ctx = {"kind": kind, "training": start, "within": within, "fail": fail}
        st.check(pol.training == start and all(p.training == start for p in inner), "mode-set", f"train({start}) sets {pol.training, [p.training for p in inner]}")
        with policy_within_training_step(pol, within):
            def now():
                return (pol.training, pol.is_within_training_step, [(p.training, p.is_within_training_step) for p in inner])
            before = now()
            st.check(before == (start, within, [(start, within)] * len(inner)), "wrapped-flags", f"flags {before} within_training_step({within}), train({start})")
            for w2, m2 in itertools.product((False, True), repeat=2):
                try:
                    with policy_within_training_step(pol, w2), torch_train_mode(pol, m2):
                        st.check(now() == (m2, w2, [(m2, w2)] * len(inner)), "wrapped-flags", f"flags {now()} in within_training_step({w2}), train mode {m2}")
                        if fail:
                            raise Injected(fail)
                except Injected:
                    pass
                st.step()
                st.check(now() == before, "wrapped-restore", f"flags {now()} afterwards, {before} before")
            if kind == "ma":
                D = torch.distributions.Categorical
                n = []
                old = D.sample
                with mock.patch.object(D, "sample", lambda self, *a, **k: (n.append(1), old(self, *a, **k))[1]):
                    pol(Batch(obs=Batch(agent_id=np.array(["p0", "p1"]), obs=np.zeros((2, 3), dtype=np.float32)), info=Batch()))
                st.check(len(n) == (2 if within else 0), "wrapped-exploration", f"{len(n)} of 2 inner policies sampled their action {'in' if within else 'outside'} training")
        st.trace(st.ctx)
        st.state((kind, start, within, fail))


def real(name, st):
    """Deterministic evaluation: actions are drawn only in training rollouts and updates; modules are in the right mode."""
    cont = name.endswith(":c") or name in ("sac", "redq")
    onp = name.split(":")[0] in pols.ONPOLICY
    for training in (False, True):
        pol = pols.build(name, deterministic_eval=True) if name != "dsac" else pols.build(name)
        if name == "dsac":
            pol.deterministic_eval = True
        log = []
        D = torch.distributions
        phase = ["none"]

        class Col(Collector):
            def collect(self, **kw):
                phase.append("train" if self is tc else "test")
                try:
                    return super().collect(**kw)
                finally:
                    phase.pop()

        def env(i):
            e = CEnv(i, (2, 3), (), "same", act_space=pols.box() if cont else pols.disc())
            e.observation_space.dtype = np.dtype(np.float32)
            e.obs = lambda e=e: np.array([e.eid, e.ep % 2, e.t], dtype=np.float32)
            return e
        tc = Col(pol, DummyVectorEnv([lambda: env(0)]), VectorReplayBuffer(64, 1))
        ec = Col(pol, DummyVectorEnv([lambda: env(1)]))
        old = {}

        def wrap(cls, meth):
            f = getattr(cls, meth)

            def g(self, *a, **k):
                log.append((phase[-1], "sample"))
                return f(self, *a, **k)
            return mock.patch.object(cls, meth, g)
        fwd = pol.actor.forward

        def actor(*a, **k):
            log.append((phase[-1], "forward", pol.actor.training, pol.is_within_training_step))
            return fwd(*a, **k)
        ups = []
        learn = pol.learn

        def rec_learn(*a, **k):
            ups.append((pol.training, pol.actor.training, pol.is_within_training_step))
            phase.append("update")
            try:
                return learn(*a, **k)
            finally:
                phase.pop()
        pol.train(training)
        st.ctx = {"policy": name, "training": training}
        with wrap(D.Categorical, "sample"), wrap(D.Normal, "sample"), wrap(D.Normal, "rsample"), wrap(D.Independent, "sample") if cont else mock.patch.object(pol, "updating", False), \
                mock.patch.object(pol.actor, "forward", actor), mock.patch.object(pol, "learn", rec_learn):
            kw = dict(policy=pol, train_collector=tc, test_collector=ec, max_epoch=2, step_per_epoch=4, step_per_collect=4, episode_per_test=2, batch_size=4, verbose=False, show_progress=False)
            if onp:
                OnpolicyTrainer(repeat_per_collect=1, **kw).run()
            else:
                OffpolicyTrainer(update_per_step=0.5, **kw).run()
        st.step(len(log))
        fw = {ph: [x for x in log if x[0] == ph and x[1] == "forward"] for ph in ("train", "test")}
        sa = {ph: sum(1 for x in log if x[0] == ph and x[1] == "sample") for ph in ("train", "test")}
        st.check(fw["train"] and fw["test"] and all(not x[2] for ph in fw for x in fw[ph]), "rollout-mode", f"{name}: actor in training mode during a rollout")
        st.check(all(x[3] for x in fw["train"]) and not any(x[3] for x in fw["test"]), "train-rollout", f"{name}: is_within_training_step wrong in a rollout")
        st.check(sa["train"] >= len(fw["train"]) and sa["test"] == 0, "exploration", lambda: f"{name}: {sa['train']} draws for {len(fw['train'])} training decisions, {sa['test']} draws in deterministic evaluation ({len(fw['test'])} decisions)")
        st.check(ups and all(t and a and w for t, a, w in ups), "learn-mode", f"{name}: flags (training, actor training, within) in learn(): {ups}")
        st.check(pol.training == training and not pol.is_within_training_step and not pol.updating, "restore", f"{name}: flags after training")
        st.trace(st.ctx)
        st.state((name, training, len(log)))
