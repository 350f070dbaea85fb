"""Controlled world for the collectors: scripted logging environments, a recording policy stub, and
checkers that recompute from the environments' and the policy's own logs what must have been stored
and reported."""
import itertools
import math
import warnings

import gymnasium as gym
import numpy as np
import torch

from mc.envs import LogEnv, make_ctl
from tianshou.data import (AsyncCollector, Batch, CachedReplayBuffer, Collector, PrioritizedVectorReplayBuffer, ReplayBuffer, VectorReplayBuffer)
from tianshou.env import DummyVectorEnv
from tianshou.policy import BasePolicy

warnings.simplefilter("ignore")
import logging

logging.disable(logging.CRITICAL)


CLOCK = itertools.count()


class CEnv(LogEnv):
    """Reset/step infos may have the same keys, different keys, or be empty; all results are logged."""

    def __init__(self, eid, lens, trunc=(), infos="same", **kw):
        super().__init__(eid, lens, trunc, **kw)
        self.infos = infos
        self.hist = []      # one record per step / reset as produced by this environment
        self.invalid = 0

    def info(self, reset):
        d = {"k": self.k, "e": self.eid}
        if self.infos == "same":
            return {**d, "r": reset}
        if self.infos == "diff":
            return {**d, "onreset": 1.5} if reset else {**d, "onstep": 2.5}
        return {} if reset else d

    def reset(self, seed=None, options=None):
        o, _ = super().reset(seed=seed, options=options)
        i = self.info(True)
        self.hist.append({"kind": "reset", "obs": o.copy(), "info": dict(i), "options": options, "ep": self.ep})
        return o, i

    def step(self, action):
        if not self.action_space.contains(np.asarray(action, dtype=self.action_space.dtype) if isinstance(self.action_space, gym.spaces.Box) else action):
            self.invalid += 1
        if self.need_reset:
            raise RuntimeError(f"environment {self.eid} stepped without reset after its episode ended")
        a = np.array(action, copy=True)
        o, r, te, tr, _ = super().step(action)
        i = self.info(False)
        self.hist.append({"kind": "step", "obs": o.copy(), "rew": r, "te": te, "tr": tr, "info": dict(i), "act": a, "ep": self.ep, "t": self.t, "clk": next(CLOCK)})
        return o, r, te, tr, i


class Stub(BasePolicy):
    """Returns unique actions and unique recurrent states, and records everything it is shown."""

    def __init__(self, space, state="none", dist=None, aux=False, scaling=False, bound="clip", noise=0.0):
        super().__init__(action_space=space, observation_space=None, action_scaling=scaling, action_bound_method=bound)
        self.state_kind, self.dist_kind, self.aux, self.noise = state, dist, aux, noise
        self.ctr = 0
        self.calls = []
        self.noise_calls = 0
        self.lin = torch.nn.Linear(1, 1)

    def forward(self, batch, state=None, **kw):
        n = len(batch.obs)
        acts, rows, fresh = [], [], []
        cont = isinstance(self.action_space, gym.spaces.Box)
        obs = np.array(batch.obs, dtype=float)
        given = [state_row(state, j) for j in range(n)]
        infos = [info_row(batch.info, j, n) for j in range(n)]
        for j in range(n):
            self.ctr += 1
            c = self.ctr
            acts.append([((c % 32) - 16) / 16.0, ((c // 32) % 32 - 16) / 16.0] if cont else (c % 97))
            rows.append([c, *obs[j]])
        st = make_state(self.state_kind, rows)
        act = np.array(acts, dtype=np.float64 if cont else int)
        if self.ctr % 2:
            act_out = torch.from_numpy(act.copy())
        else:
            act_out = act.copy()
        self.calls.append({"obs": obs, "info": infos, "state": given, "act": act, "out": [tuple(float(x) for x in r) for r in rows], "training": self.training})
        res = Batch(act=act_out)
        if st is not None:
            res.state = st
        if self.aux:
            res.policy = Batch(aux=np.array([r[0] for r in rows], dtype=float), z=torch.tensor([[r[0] * 2.0] for r in rows]))
        if self.dist_kind == "cat":
            p = torch.tensor([[1.0, 1.0 + r[0] % 3, 2.0] for r in rows])
            res.dist = torch.distributions.Categorical(probs=p / p.sum(1, keepdim=True))
        elif self.dist_kind == "normal":
            res.dist = torch.distributions.Independent(torch.distributions.Normal(torch.zeros(n, 2), torch.tensor([[1.0 + r[0] % 4, 0.5] for r in rows])), 1)
        if self.dist_kind:
            self.calls[-1]["std"] = std_of(self.dist_kind, rows)
        return res

    def exploration_noise(self, act, batch):
        self.noise_calls += 1
        self.calls[-1]["noise"] = True
        if isinstance(self.action_space, gym.spaces.Box):
            return np.clip(act + self.noise, -1, 1)
        return (act + 3) % 97

    def learn(self, batch, **kw):
        raise NotImplementedError


class HObj:
    """A recurrent state that is an arbitrary object."""

    def __init__(self, h):
        self.h = h


def std_of(kind, rows):
    out = []
    for r in rows:
        if kind == "cat":
            p = np.array([1.0, 1.0 + r[0] % 3, 2.0])
            p /= p.sum()
            m = (p * np.arange(3)).sum()
            out.append([math.sqrt((p * (np.arange(3) - m) ** 2).sum())])
        else:
            out.append([1.0 + r[0] % 4, 0.5])
    return out


def make_state(kind, rows):
    a = np.array(rows, dtype=np.float64)
    if kind == "none":
        return None
    if kind == "np":
        return a
    if kind == "torch":
        return torch.from_numpy(a)
    if kind == "torch3":
        return torch.from_numpy(a)[:, None, :].clone()
    if kind == "obj":
        o = np.empty(len(rows), dtype=object)
        for j in range(len(rows)):
            o[j] = HObj(tuple(a[j].tolist()))
        return o
    if kind == "batch":
        return Batch(h=a.copy(), c=torch.from_numpy(a.copy()))
    if kind == "nested":
        return Batch(x=Batch(h=a[:, :2].copy()), c=torch.from_numpy(a[:, 2:].copy()))
    raise ValueError(kind)


def state_row(state, j):
    """Canonical row j of a recurrent state: None if absent, tuple of floats otherwise."""
    if state is None or (isinstance(state, Batch) and not state.get_keys()):
        return None
    if isinstance(state, Batch):
        if "x" in state.get_keys():
            return tuple(float(v) for v in [*np.asarray(state.x.h)[j].ravel(), *np.asarray(state.c)[j].ravel()])
        h, c = np.asarray(state.h)[j], np.asarray(state.c)[j]
        if not np.array_equal(h, c):
            return ("mixed", tuple(h.tolist()), tuple(c.tolist()))
        return tuple(float(v) for v in h.ravel())
    if isinstance(state, np.ndarray) and state.dtype == object:
        return None if state[j] is None else tuple(state[j].h)
    return tuple(float(v) for v in np.asarray(state)[j].ravel())


def info_row(info, j, n):
    if isinstance(info, Batch):
        if not info.get_keys():
            return {}
        return {k: np.asarray(info[k])[j].item() for k in info.get_keys()}
    return dict(info[j])


BUFS = ["vec", "small", "cached", "prio", "single", "iob", "stack"]


def make_buffer(kind, E, cap=None):
    if kind == "vec":
        return VectorReplayBuffer((cap or 40) * E, E)
    if kind == "small":
        return VectorReplayBuffer((cap or 4) * E, E)
    if kind == "cached":
        return CachedReplayBuffer(ReplayBuffer(cap or 60), E, 12)
    if kind == "prio":
        return PrioritizedVectorReplayBuffer((cap or 40) * E, E, alpha=0.5, beta=0.5)
    if kind == "single":
        assert E == 1
        return ReplayBuffer(cap or 40)
    if kind == "more":
        return VectorReplayBuffer((cap or 40) * (E + 1), E + 1)
    raise ValueError(kind)


class World:
    def __init__(self, E, lens, trunc=((),), buf="vec", cap=None, state="none", dist=None, aux=False, noise=None, space="disc", scaling=False, bound="clip",
                 infos="same", step_hook=False, ep_hook=False, st=None, async_=None, ch=None, max_empty=0, rew=None, raise_nan=True, wrap=None, order=True, record_dangling=False):
        self.record_dangling = record_dangling
        self.E, self.st, self.async_ = E, st, async_
        if space == "disc":
            mk = lambda: gym.spaces.Discrete(97)
        else:
            mk = lambda: gym.spaces.Box(np.array([-2.0, 0.0]), np.array([2.0, 4.0]), dtype=np.float64)
        self.space = mk()
        self.envs = [CEnv(i, lens[i % len(lens)], trunc[i % len(trunc)], infos, act_space=mk(), rew=rew) for i in range(E)]
        for e in self.envs:
            e.action_space.seed(e.eid)
        if async_ is None:
            self.venv = DummyVectorEnv([lambda e=e: e for e in self.envs])
        else:
            self.venv = make_ctl(self.envs, ch, async_[0], async_[1], max_empty=max_empty, order=order)
        if wrap:
            self.venv = wrap(self.venv)
        self.buf_kind = buf
        self.buffer = make_buffer(buf, E, cap)
        self.policy = Stub(self.space, state, dist, aux, scaling, bound, noise or 0.0)
        self.state_kind, self.dist_kind = state, dist
        self.noise, self.scaling, self.bound = noise, scaling, bound
        self.steps_seen, self.eps_seen = [], []
        hooks = {}
        if step_hook:
            hooks["on_step_hook"] = self.on_step
        if ep_hook:
            hooks["on_episode_done_hook"] = ep_hook if callable(ep_hook) else self.on_episode
        self.step_hook, self.ep_hook = step_hook, ep_hook
        cls = Collector if async_ is None else AsyncCollector
        self.c = cls(self.policy, self.venv, self.buffer, exploration_noise=noise is not None, raise_on_nan_in_buffer=raise_nan, **hooks)
        self.tot_steps = self.tot_eps = self.tot_time = 0
        self.decisions = [[] for _ in range(E)]     # per environment: what was decided for each executed step (None = random)
        self.sticky = False          # recurrent states survive random steps (not zeroed)
        self.pending = [[] for _ in range(E)]       # decisions whose step is still in flight
        self.hlen = [0] * E
        self.hpos = [0] * E          # processed part of each environment's history
        self.expected = [[] for _ in range(E)]      # transitions since the last buffer reset
        self.finish_order = []       # (env, [transitions]) in order of completion since the last buffer reset
        self.open = [[] for _ in range(E)]          # transitions of the episode the buffer regards as open
        self.dangling = [False] * E
        self.prev_state = [None] * E
        self.cur = [None] * E        # last observation/info shown by the environment
        self.loose = [False] * E     # random steps since the last decision
        self.dead = [True] * E
        self.ops = []
        self.epoch = 0               # number of storage resets

    def held(self, ep):
        ep = [t for t in ep if t["epoch"] == self.epoch]
        cap = self.buffer.buffers[0].maxsize if hasattr(self.buffer, "buffers") and not isinstance(self.buffer, CachedReplayBuffer) else self.buffer.maxsize
        return ep[-cap:]

    # hooks -----------------------------------------------------------------------------------
    def on_step(self, action_batch, rollout_batch):
        n = len(rollout_batch.obs)
        mark = []
        for j in range(n):
            self.steps_seen.append((np.asarray(rollout_batch.obs[j]).tolist(), np.asarray(rollout_batch.act[j]).tolist(), float(np.sum(rollout_batch.rew[j])), np.asarray(rollout_batch.obs_next[j]).tolist(),
                                    bool(rollout_batch.terminated[j]), bool(rollout_batch.truncated[j]), np.asarray(action_batch.act[j]).tolist(), np.asarray(action_batch.act_normalized[j]).tolist()))
            mark.append(float(np.asarray(rollout_batch.obs_next[j]) @ [100.0, 10.0, 1.0]))
        rollout_batch.info["hk"] = np.array(mark)
        rollout_batch.policy = Batch(rollout_batch.policy, hk2=np.array(mark) * 2)

    def on_episode(self, batch):
        self.eps_seen.append([(np.asarray(batch.obs[j]).tolist(), np.asarray(batch.obs_next[j]).tolist(), bool(batch.done[j])) for j in range(len(batch))])
        if self.ep_hook == "add":
            return {"eh": np.arange(len(batch)) + 1000.0 * batch.obs[0][1] + 1e5 * batch.obs[0][0], "tot": np.full(len(batch), float(np.sum(batch.rew)))}
        return None

    # expectations ------------------------------------------------------------------------------
    def absorb(self, call_from, random, n_forward_from):
        """Pairs the policy's decisions with the environments' executed steps of this call."""
        st = self.st
        dec = [list(self.pending[i]) for i in range(self.E)]
        if random:
            st.check(len(self.policy.calls) == n_forward_from, "random-consults", "random collection consulted the policy")
            for i, e in enumerate(self.envs):
                dec[i] += ["random"] * sum(1 for h in e.hist[self.hlen[i]:] if h["kind"] == "step")
        for call in self.policy.calls[n_forward_from:]:
            ids = [int(o[0]) for o in call["obs"]]
            st.check(all(0 <= i < self.E for i in ids), "decision-obs", lambda: f"the policy was shown an observation of no environment: {call['obs']}")
            st.check(len(set(ids)) == len(ids), "decision-dup", lambda: f"one decision for environments {ids}")
            for j, i in enumerate(ids):
                dec[i].append({"obs": call["obs"][j], "info": call["info"][j], "state": call["state"][j], "act": call["act"][j], "out": call["out"][j],
                               "noise": call.get("noise", False), "std": call["std"][j] if "std" in call else None, "training": call["training"]})
        return dec

    def executed(self, raw, noise):
        a = raw
        if noise:
            a = np.clip(a + self.policy.noise, -1, 1) if not isinstance(self.space, gym.spaces.Discrete) else (a + 3) % 97
        stored = a
        if isinstance(self.space, gym.spaces.Box):
            x = np.clip(a, -1, 1) if self.bound == "clip" else np.tanh(a) if self.bound == "tanh" else a
            if self.scaling:
                x = self.space.low + (self.space.high - self.space.low) * (x + 1) / 2
            return stored, x
        return stored, a

    def drop_inflight(self):
        pass

    def inflight(self, i):
        return False

    def hend(self, i):
        """End of the part of an environment's history whose results were delivered."""
        return len(self.envs[i].hist)

    def digest(self, random, dec, ctx):
        """Walk through each environment's new history; check decisions; extend expectations.
        Returns (steps, finished episodes [(env, true_return, true_len, merged?)], std rows)."""
        st = self.st
        steps, done, stds, finished = 0, [], [], []
        executed_steps = []
        for i, e in enumerate(self.envs):
            d = list(dec[i])
            for h in e.hist[self.hpos[i]:self.hend(i)]:
                if h["kind"] == "reset":
                    if not self.dead[i] and self.cur[i] is not None and self.open[i]:
                        self.dangling[i] = True        # abandoned in mid-episode; the buffer is not told
                    self.cur[i] = h
                    self.prev_state[i] = None
                    self.dead[i] = False
                    continue
                steps += 1
                st.check(bool(d), "undecided", lambda: f"environment {i} was stepped without a decision of the policy")
                x = d.pop(0)
                if x == "random":
                    x = None
                    self.loose[i] = True
                    if not self.sticky:
                        self.prev_state[i] = None
                else:
                    st.check(np.array_equal(x["obs"], self.cur[i]["obs"]), "decision-obs", lambda: f"environment {i}: the policy was shown {x['obs']}, latest observation {self.cur[i]['obs']}")
                    ii = {k: v for k, v in x["info"].items()}
                    want = self.cur[i]["info"]
                    st.check(all(k in ii and float(ii[k]) == float(v) for k, v in want.items()), "decision-info", lambda: f"environment {i}: the policy was shown info {ii}, latest info {want}")
                    s = x["state"]
                    if self.prev_state[i] is not None and self.loose[i] and (s is None or all(v == 0 for v in s)):
                        pass        # memory dropped by the random steps in between
                    elif self.prev_state[i] is None:
                        st.check(s is None or all(v == 0 for v in s), "state-fresh", lambda: f"environment {i}: recurrent state {s} in the first step of an episode")
                    else:
                        st.check(x["state"] == self.prev_state[i], "state", lambda: f"environment {i}: recurrent state {x['state']}, returned for it before: {self.prev_state[i]}")
                    self.prev_state[i] = x["out"] if self.state_kind != "none" else None
                    self.loose[i] = False
                    st.check(bool(x["noise"]) == (self.noise is not None), "exploration", "exploration noise requested but not applied, or the reverse")
                    st.check(not x["training"], "train-mode", "policy in training mode during collection")
                    if self.dist_kind:
                        stds.append(x["std"])
                if x is not None:
                    stored, ex = self.executed(x["act"], x["noise"])
                    st.check(np.allclose(np.asarray(h["act"], dtype=float), ex, atol=1e-12, rtol=0), "executed", lambda: f"environment {i} executed {h['act']}, the policy chose {x['act']} (mapped: {ex})")
                else:
                    ex = np.asarray(h["act"], dtype=float)
                    stored = None
                tr = {"env": i, "obs": self.cur[i]["obs"], "act": stored, "exec": np.asarray(h["act"], dtype=float), "rew": h["rew"], "te": h["te"], "tr": h["tr"], "obs_next": h["obs"], "info": h["info"],
                      "state": None if x is None else x["out"], "ctr": None if x is None else x["out"][0], "adds": {}, "epoch": self.epoch, "batch": h.get("batch")}
                self.expected[i].append(tr)
                self.open[i].append(tr)
                executed_steps.append(tr)
                self.cur[i] = h
                if h["te"] or h["tr"]:
                    own = [t for t in self.open[i] if t["obs"][1] == h["ep"]]
                    done.append((i, float(sum(t["rew"] for t in own)), len(own), list(self.open[i]), self.dangling[i]))
                    finished.append((h["clk"], i, list(self.open[i])))
                    self.open[i] = []
                    self.dangling[i] = False
                    self.prev_state[i] = None
                    self.dead[i] = True
            st.check(len(d) == (1 if self.inflight(i) else 0), "lost-decision", lambda: f"{len(d)} decisions for environment {i} were never executed")
            self.pending[i] = d
            self.hpos[i], self.hlen[i] = self.hend(i), len(e.hist)
        self.executed_steps = executed_steps
        self.finish_order += [(i, ep) for _, i, ep in sorted(finished, key=lambda x: x[0])]
        return steps, done, stds

    # storage -----------------------------------------------------------------------------------
    def same(self, i, slot, tr, where):
        st, b = self.st, self.buffer
        st.step()
        g = b[np.array([slot])]
        ok = (np.array_equal(np.asarray(g.obs)[0], tr["obs"]) and np.array_equal(np.asarray(g.obs_next)[0], tr["obs_next"]) and float(g.rew[0]) == float(tr["rew"])
              and bool(g.terminated[0]) == tr["te"] and bool(g.truncated[0]) == tr["tr"] and bool(g.done[0]) == (tr["te"] or tr["tr"]))
        st.check(ok, "stored", lambda: f"{where}: slot {slot} holds obs={g.obs[0]} act={g.act[0]} rew={g.rew[0]} te={g.terminated[0]} tr={g.truncated[0]} next={g.obs_next[0]}, executed {short(tr)}")
        act = np.asarray(g.act)[0]
        st.check(not isinstance(self.space, gym.spaces.Discrete) or np.asarray(g.act).dtype.kind in "iu", "stored-act-type", lambda: f"{where}: discrete action stored as {np.asarray(g.act).dtype}")
        if tr["act"] is not None:
            st.check(np.allclose(np.asarray(act, dtype=float), np.asarray(tr["act"], dtype=float), atol=1e-6), "stored-act", lambda: f"{where}: slot {slot} holds action {act}, chosen {tr['act']}")
        else:   # random: the stored action is what the policy would map to the executed one
            _, ex = self.executed(np.asarray(act, dtype=float), False)
            st.check(np.allclose(ex, tr["exec"], atol=1e-5), "stored-act", lambda: f"{where}: random action stored as {act}, which maps to {ex}, executed {tr['exec']}")
        info = {k: np.asarray(g.info[k])[0] for k in tr["info"]} if isinstance(g.info, Batch) and g.info.get_keys() else {}
        st.check(all(k in info and float(info[k]) == float(v) for k, v in tr["info"].items()), "stored-info", lambda: f"{where}: info {info}, expected {tr['info']}")
        if tr["state"] is not None and self.state_kind != "none":
            s = state_row(g.policy.hidden_state, 0)
            st.check(s == tr["state"], "stored-state", lambda: f"{where}: stored recurrent state {s}, expected {tr['state']}")
        if self.policy.aux and tr["ctr"] is not None:
            st.check(float(g.policy.aux[0]) == tr["ctr"] and float(np.asarray(g.policy.z)[0, 0]) == 2 * tr["ctr"], "stored-policy", lambda: f"{where}: stored policy output {g.policy}, expected {tr['ctr']}")
        if self.step_hook:
            m = float(tr["obs_next"] @ [100.0, 10.0, 1.0])
            st.check(float(g.info.hk[0]) == m and float(g.policy.hk2[0]) == 2 * m, "stored-hook", lambda: f"{where}: step hook values {g.info.hk[0]}, {g.policy.hk2[0]}")
        for k, v in tr["adds"].items():
            st.check(abs(float(np.asarray(g[k])[0]) - v) < 1e-9, "stored-eph", lambda: f"{where}: episode hook field {k} = {g[k][0]}, expected {v}")

    def check_storage_adds(self, tol):
        """Entries added by episode callbacks, for every finished episode that is still stored (large storage only)."""
        for i in range(self.E):
            sub = self.buffer.buffers[i]
            done = [t for k, ep in self.finish_order if k == i for t in ep]
            idx = np.asarray(sub.sample_indices(0))[:len(done)]
            g = self.buffer[idx + sum(x.maxsize for x in self.buffer.buffers[:i])] if len(done) else None
            for j, t in enumerate(done):
                self.st.step()
                for k, v in t["adds"].items():
                    self.st.check(abs(float(np.asarray(g[k])[j]) - v) <= tol, "stored-eph", lambda: f"environment {i}, step {j}: {k} = {g[k][j]}, expected {v}")

    def check_storage(self):
        b, st = self.buffer, self.st
        if self.buf_kind == "cached":
            main_cap = b.buffers[0].maxsize
            exp = [(i, t) for i, ep in self.finish_order for t in self.held(ep)][-main_cap:]
            groups = [exp] + [[(i, t) for t in self.held(self.open[i])] for i in range(self.E)]
            bufs = list(b.buffers)
        elif self.buf_kind == "single":
            groups, bufs = [[(0, t) for t in self.expected[0][-b.maxsize:]]], [b]
        else:
            bufs = list(b.buffers)
            groups = [[(i, t) for t in self.expected[i][-bufs[i].maxsize:]] for i in range(self.E)] + [[] for _ in bufs[self.E:]]
        off = 0
        total = 0
        for bi, (sub, exp) in enumerate(zip(bufs, groups, strict=True)):
            st.check(len(sub) == len(exp), "count", lambda: f"storage {bi} holds {len(sub)} transitions, expected {len(exp)}")
            total += len(exp)
            order = np.asarray(sub.sample_indices(0)) + off
            # ties: episodes finished in the same step may come in any order in the main storage of a cached buffer
            for s, (i, t) in zip(order, exp, strict=True):
                self.same(i, int(s), t, f"storage {bi}")
            off += sub.maxsize
        st.check(len(b) == total, "len", f"buffer length {len(b)}, expected {total}")

    # operations ----------------------------------------------------------------------------------
    def op(self, op):
        name, *a = op
        self.ops.append(list(op))
        getattr(self, "op_" + name)(*a)

    def op_R(self, **kw):
        self.c.reset(**kw)
        self.buffer_reset()
        self.tot_steps = self.tot_eps = self.tot_time = 0
        self.after_reset()

    def op_Rk(self):
        self.c.reset(gym_reset_kwargs={"options": {"x": 1}})
        self.buffer_reset()
        self.tot_steps = self.tot_eps = self.tot_time = 0
        self.after_reset({"x": 1})

    def op_Re(self):
        self.c.reset_env()
        self.after_reset()

    def op_Rnb(self):
        self.c.reset(reset_buffer=False)
        self.tot_steps = self.tot_eps = self.tot_time = 0
        self.after_reset()

    def op_Rns(self):
        self.c.reset(reset_stats=False)
        self.buffer_reset()
        self.after_reset()

    def op_Rs(self):
        self.c.reset_stat()
        self.tot_steps = self.tot_eps = self.tot_time = 0
        self.counters()

    def op_Rb(self):
        """Only the storage is reset: a running episode's earlier steps are forgotten, its statistics kept on request."""
        self.c.reset_buffer(keep_statistics=True)
        self.expected = [[] for _ in range(self.E)]
        self.finish_order = []
        self.epoch += 1

    def buffer_reset(self):
        self.expected = [[] for _ in range(self.E)]
        self.finish_order = []
        self.open = [[] for _ in range(self.E)]
        self.dangling = [False] * self.E

    def after_reset(self, options=None):
        st = self.st
        for i, e in enumerate(self.envs):
            new = e.hist[self.hpos[i]:]
            new = [h for h in new if not (self.async_ and h["kind"] == "step")]
            st.check([h["kind"] for h in new] == ["reset"], "reset-env", lambda: f"reset: environment {i} was driven by {[h['kind'] for h in new]}")
            st.check(new[0]["options"] == options, "reset-kwargs", lambda: f"environment {i} was reset with options {new[0]['options']}, requested {options}")
            if self.open[i]:
                self.dangling[i] = True
            self.cur[i], self.prev_state[i], self.dead[i] = new[0], None, False
            self.hpos[i] = self.hlen[i] = len(e.hist)
            self.pending[i] = []
        self.counters()
        self.check_storage()

    def counters(self):
        self.st.check(int(self.c.collect_step) == self.tot_steps and int(self.c.collect_episode) == self.tot_eps, "counters",
                      lambda: f"cumulative counters {self.c.collect_step}/{self.c.collect_episode}, executed {self.tot_steps} steps and {self.tot_eps} episodes")

    def op_s(self, n, random=False, rb=False, options=None):
        self.collect(dict(n_step=n), random, rb, options)

    def op_e(self, n, random=False, rb=False, options=None):
        self.collect(dict(n_episode=n), random, rb, options)

    def op_bad(self, kw):
        """An invalid request must be refused and must not step any environment."""
        before = [len(e.hist) for e in self.envs]
        try:
            self.c.collect(**kw)
        except (ValueError, AssertionError, TypeError):
            self.st.check(before == [len(e.hist) for e in self.envs], "bad-effect", f"refused request {kw} had effects")
            return
        self.st.check(False, "bad-accepted", f"collect({kw}) was accepted")

    def stop_condition(self, kw, steps, done, h0):
        st, E = self.st, self.E
        if "n_step" in kw:
            n = kw["n_step"]
            st.check(steps == -(-n // E) * E, "stop-steps", lambda: f"{steps} steps executed for n_step={n} with {E} environments")
            st.check(all(sum(1 for h in e.hist[h0[i]:] if h["kind"] == "step") * E == steps for i, e in enumerate(self.envs)), "uneven", "environments were not stepped equally often")
        else:
            n = kw["n_episode"]
            st.check(len(done) == n, "stop-episodes", lambda: f"{len(done)} episodes finished for n_episode={n}")
            extra = [i for i in range(E) if any(h["kind"] == "step" for h in e_tail(self.envs[i], h0[i]))]
            st.check(not extra, "biased", lambda: f"environments {extra} were started but their episodes not counted")

    def collect(self, kw, random, rb, options):
        st, E = self.st, self.E
        if rb:
            self.tot_steps = self.tot_eps = self.tot_time = 0
            self.drop_inflight()
        nf, ns, ne = len(self.policy.calls), len(self.steps_seen), len(self.eps_seen)
        nc, tr_before = self.policy.noise_calls, self.policy.training
        res = self.c.collect(**kw, random=random, reset_before_collect=rb, gym_reset_kwargs={"options": options} if options else None)
        st.check(self.policy.training == tr_before, "mode-after", "training flag changed by collect()")
        h0 = list(self.hpos)
        dec = self.absorb(None, random, nf)
        steps, done, stds = self.digest(random, dec, kw)
        if options:
            for i, e in enumerate(self.envs):
                for h in e.hist[h0[i]:]:
                    if h["kind"] == "reset":
                        st.check(h["options"] == options, "reset-kwargs", lambda: f"environment {i} was reset with {h['options']}")
        st.step(steps)
        self.last = (res, steps, done)
        self.stop_condition(kw, steps, done, h0)
        # counts and statistics
        st.check(int(res.n_collected_steps) == steps and int(res.n_collected_episodes) == len(done), "stats-count",
                 lambda: f"reported {res.n_collected_steps} steps/{res.n_collected_episodes} episodes, executed {steps}/{len(done)}")
        got = sorted((float(r), int(l)) for r, l in zip(res.returns, res.lens, strict=True))
        true = sorted((r, l) for _, r, l, _, _ in done)
        merged = sorted((float(sum(t["rew"] for t in ep)), len(ep)) for _, _, _, ep, _ in done)
        if got != true and got == merged and any(d for *_, d in done):
            if self.record_dangling:
                st.record("dangling-episode", f"after resetting environments in mid-episode the next episode's statistics include the abandoned steps: reported {got}, true {true}")
        else:
            st.check(got == true, "stats-episodes", lambda: f"reported (return, length) {got}, from the environments' logs {true}")
        for arr, s in ((np.asarray(res.returns), res.returns_stat), (np.asarray(res.lens), res.lens_stat)):
            if len(arr) == 0:
                st.check(s is None, "summary", f"summary {s} of no episode")
            else:
                v = [float(x) for x in arr]
                m = sum(v) / len(v)
                sd = math.sqrt(sum((x - m) ** 2 for x in v) / len(v))
                st.check(s is not None and abs(s.mean - m) < 1e-9 and abs(s.std - sd) < 1e-9 and s.max == max(v) and s.min == min(v), "summary", lambda: f"summary {s} of {v}")
        if self.dist_kind and not random:
            a = np.asarray(res.pred_dist_std_array, dtype=float)
            st.check(a.shape == np.array(stds).shape and sorted(map(tuple, np.round(a, 5).tolist())) == sorted(map(tuple, np.round(np.array(stds), 5).tolist())), "stats-std",
                     lambda: f"recorded action deviations {a.tolist()}, from the policy's distributions {stds}")
            S = np.array(stds)
            for d in range(S.shape[1]):
                s = res.pred_dist_std_array_stat[d]
                st.check(abs(s.mean - S[:, d].mean()) < 1e-5 and abs(s.std - S[:, d].std()) < 1e-5 and abs(s.max - S[:, d].max()) < 1e-5 and abs(s.min - S[:, d].min()) < 1e-5, "stats-std", f"summary {s}")
        st.check(res.collect_time >= 0 and (res.collect_time == 0 or abs(res.collect_speed - steps / res.collect_time) < 1e-6 * max(1.0, res.collect_speed)), "speed", lambda: f"speed {res.collect_speed} for {steps} steps in {res.collect_time}s")
        self.tot_steps += steps
        self.tot_eps += len(done)
        self.tot_time = (0.0 if rb else self.tot_time) + res.collect_time
        st.check(abs(self.c.collect_time - self.tot_time) < 1e-6, "collect-time", lambda: f"cumulative collect_time {self.c.collect_time}, the calls took {self.tot_time}")
        self.counters()
        # hooks
        if self.step_hook:
            seen = sorted(self.steps_seen[ns:], key=repr)
            exp = sorted(((t["obs"].tolist(), None, float(t["rew"]), t["obs_next"].tolist(), t["te"], t["tr"]) for t in self.executed_steps), key=repr)
            st.check(sorted(((s[0], None, *s[2:6]) for s in seen), key=repr) == exp, "step-hook", lambda: f"the step hook saw {len(seen)} steps, executed {len(exp)}")
            ex = {(tuple(t["obs"]),): t for t in self.executed_steps}
            for s in seen:
                t = ex[(tuple(s[0]),)]
                st.check(np.allclose(np.asarray(s[7], dtype=float), t["exec"]) and s[1] == s[6], "step-hook-act", lambda: f"the step hook saw action {s[6]}/{s[7]}, executed {t['exec']}")
        if self.ep_hook and not callable(self.ep_hook):
            exp = sorted(([(t["obs"].tolist(), t["obs_next"].tolist(), bool(t["te"] or t["tr"])) for t in self.held(ep)] for _, _, _, ep, _ in done), key=repr)
            st.check(sorted(self.eps_seen[ne:], key=repr) == exp, "episode-hook", lambda: f"the episode hook saw {self.eps_seen[ne:]}, finished {exp}")
            if self.ep_hook == "add":
                for _, _, _, ep, _ in done:
                    ep = self.held(ep)
                    for j, t in enumerate(ep):
                        t["adds"] = {"eh": j + 1000.0 * ep[0]["obs"][1] + 1e5 * ep[0]["obs"][0], "tot": float(sum(u["rew"] for u in ep))}
        self.check_storage()
        st.check(not any(e.invalid for e in self.envs), "invalid-action", "an action outside the action space was executed")
        st.outcome((kw, random, steps, tuple(true)))


def e_tail(env, h0):
    """History of a call after the last finished episode, ignoring resets at its end."""
    h = env.hist[h0:]
    while h and h[-1]["kind"] == "reset":
        h = h[:-1]
    last = max((k for k, x in enumerate(h) if x["kind"] == "step" and (x["te"] or x["tr"])), default=-1)
    return h[last + 1:]


def short(t):
    return {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in t.items() if k in ("obs", "act", "rew", "te", "tr", "obs_next")}
