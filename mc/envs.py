"""Scripted environments that log everything that is done to them, and a worker whose completion
schedule is decided by a Chooser (the real BaseVectorEnv code runs on top of it)."""
import gymnasium as gym
import numpy as np

from tianshou.env.venvs import BaseVectorEnv
from tianshou.env.worker import EnvWorker


class LogEnv(gym.Env):
    """Deterministic; episode lengths cycle through `lens`; every call is logged in self.log."""

    def __init__(self, eid, lens=(3,), trunc=(), act_space=None, rew=None):
        self.eid, self.lens, self.trunc = eid, tuple(lens), tuple(trunc)
        self.observation_space = gym.spaces.Box(-1e6, 1e6, (3,), np.float64)
        self.action_space = act_space or gym.spaces.Discrete(100)
        self.log = []
        self.ep, self.t, self.k = -1, 0, 0
        self.tag = ("tag", eid)
        self.closed = 0
        self.rew = rew
        self.need_reset = True

    def obs(self):
        return np.array([self.eid, self.ep, self.t], dtype=np.float64)

    def reset(self, seed=None, options=None):
        self.ep += 1
        self.t = 0
        self.need_reset = False
        self.log.append(("reset", seed, repr(options), self.ep))
        return self.obs(), {"k": self.k, "e": self.eid, "r": True}

    def reward(self):
        if self.rew is not None:
            return self.rew(self.eid, self.ep, self.t)
        return self.eid * 64.0 + self.ep * 8.0 + self.t

    def step(self, action):
        a = np.asarray(action).tolist()
        self.t += 1
        self.k += 1
        L = self.lens[self.ep % len(self.lens)] if self.ep >= 0 else 10 ** 9
        end = self.t >= L
        tr = end and (self.ep in self.trunc)
        self.log.append(("step", a, self.ep, self.t, end, self.need_reset))
        if end:
            self.need_reset = True
        return self.obs(), self.reward(), bool(end and not tr), bool(tr), {"k": self.k, "e": self.eid, "a": a}

    def render(self, **kw):
        self.log.append(("render",))
        return ("frame", self.eid, self.k)

    def close(self):
        self.closed += 1


class Misuse(Exception):
    pass


class CtlWorker(EnvWorker):
    """Executes the environment step immediately but makes its completion visible only when the
    Chooser says so. Misuse of the worker protocol raises Misuse."""
    chooser = None
    max_empty = 1
    waits = None
    order = True

    def __init__(self, env_fn):
        self.env = env_fn()
        self.busy = None          # None | "step" | "reset"
        self.visible = False
        super().__init__(env_fn)

    def get_env_attr(self, key):
        if self.busy:
            raise Misuse(f"attribute read from environment {self.env.eid} which is still working")
        return getattr(self.env, key)

    def set_env_attr(self, key, value):
        if self.busy:
            raise Misuse(f"attribute set on environment {self.env.eid} which is still working")
        setattr(self.env.unwrapped, key, value)

    def send(self, action, **kw):
        if self.busy:
            raise Misuse(f"environment {self.env.eid} was given a second command while still working")
        if action is None:
            self.result, self.busy, self.visible = self.env.reset(**kw), "reset", True
        else:
            self.result, self.busy, self.visible = self.env.step(action), "step", CtlWorker.sync

    sync = False

    def recv(self):
        if not self.busy:
            raise Misuse(f"result of environment {self.env.eid} fetched twice")
        if not self.visible:
            raise Misuse(f"result of environment {self.env.eid} fetched before it was finished")
        self.busy, r = None, self.result
        if CtlWorker.delivered is not None:
            CtlWorker.delivered(self.env)
        return r

    delivered = None

    def reset(self, **kw):
        self.send(None, **kw)
        return self.recv()

    @staticmethod
    def wait(workers, wait_num, timeout=None):
        """All admissible answers: any ordered selection of at least wait_num of the given workers
        (all of them if there are fewer); with a time limit also fewer, and (boundedly) none."""
        if not workers:
            raise Misuse("waiting for no environment at all (would hang)")
        alts = wait_alts(len(workers), wait_num, timeout is not None and CtlWorker.empty < CtlWorker.max_empty,
                         timeout is not None, CtlWorker.order)
        sel = alts[CtlWorker.chooser.choose(len(alts))]
        if not sel:
            CtlWorker.empty += 1
        if CtlWorker.waits is not None:
            CtlWorker.waits.append((wait_num, timeout, len(workers), sel))
        for i in sel:
            workers[i].visible = True
        return [workers[i] for i in sel]

    empty = 0

    def seed(self, seed=None):
        if self.busy:
            raise Misuse(f"environment {self.env.eid} seeded while still working")
        self.env.log.append(("seed", seed))
        return [seed, self.env.eid]

    def render(self, **kw):
        if self.busy:
            raise Misuse(f"environment {self.env.eid} rendered while still working")
        return self.env.render(**kw)

    def close_env(self):
        self.env.close()


_cache = {}


def wait_alts(n, wait_num, allow_empty, timed, order=True):
    from itertools import combinations, permutations
    key = (n, wait_num, allow_empty, timed, order)
    if key not in _cache:
        out = []
        lo = min(wait_num, n) if not timed else 1
        for r in range(n, lo - 1, -1):
            for c in (permutations(range(n), r) if order else combinations(range(n), r)):
                out.append(c)
        if allow_empty:
            out.append(())
        _cache[key] = out
    return _cache[key]


def make_ctl(envs, ch, wait_num=None, timeout=None, max_empty=1, order=True):
    CtlWorker.chooser, CtlWorker.empty, CtlWorker.max_empty, CtlWorker.order = ch, 0, max_empty, order
    CtlWorker.sync = (wait_num in (None, len(envs))) and timeout is None
    CtlWorker.waits = []
    return BaseVectorEnv([lambda e=e: e for e in envs], CtlWorker, wait_num, timeout)
