"""C20: what the policy and the callbacks see during collection."""
import itertools

import gymnasium as gym
import numpy as np
import torch

from mc.coll import CEnv, Stub, World, make_buffer
from tianshou.data import Batch, Collector, ReplayBuffer, VectorReplayBuffer
from tianshou.data.collector import EpisodeRolloutHookMCReturn, EpisodeRolloutHookMerged, StepHookAddActionDistribution
from tianshou.env import DummyVectorEnv

PROPERTY = "C20"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive call sequences on the real Collector over scripted environments with a recording policy (unique actions, unique recurrent states per environment and step) and recording callbacks; every decision and callback reconciled with the environments' own logs"
NOTE = "Recurrent states are unique per environment and step, so any mix-up, stale or unreset state is visible."
ASSUMPTIONS = ["synchronous vectorised environments (asynchronous: C21)", "policies that return the same kind of recurrent state in every step"]

STATES = ["np", "torch", "torch3", "batch", "nested", "obj"]
INFOS = ["same", "diff", "empty"]
CALLS = [("s", 1), ("s", 2), ("s", 4), ("e", 1), ("e", 2), ("e", 4), ("s", 2, True), ("e", 2, True), ("s", 3, False, False, {"x": 2}), ("e", 3, False, True, {"x": 3})]
RESETS = [("R",), ("Rnb",), ("Re",), ("Rk",), ("Rb",)]
LENS = [(1,), (2,), (3,), (1, 3)]


def BOUNDS(tier):
    q = tier == "quick"
    return (f"1-3 environments, {len(LENS)} episode-length scripts in all pairs, {len(STATES)} kinds of recurrent state x {len(INFOS)} kinds of info x exploration x callbacks; sequences of {2 if q else 3} calls from {len(CALLS)} collections and {len(RESETS)} resets; "
            "all pairs/triples of episode callbacks; random collection over all action-space kinds")


def jobs(tier):
    q = tier == "quick"
    d = 2 if q else 3
    out = []
    for i, (s, LL) in enumerate(itertools.product(STATES, itertools.product(LENS, repeat=2))):
        if q and (i % 2 or LL[0] == LL[1]):
            continue
        out.append(["seq", dict(E=2, lens=list(LL), trunc=[(0,), ()], state=s, infos=INFOS[i % 3], noise=[None, 0.5][i % 5 == 0], aux=i % 4 == 0), d])
    for s in STATES:
        out.append(["seq", dict(E=3, lens=[(1,), (3,), (2, 1)], trunc=[(), (0,), (1,)], state=s, infos="same", step_hook=True), 2])
        out.append(["seq", dict(E=3, lens=[(2,), (1,), (4,)], buf="cached", trunc=[(0,)], state=s, infos="diff"), 2])
        out.append(["seq", dict(E=1, lens=[(2, 1)], buf="single", trunc=[(0,)], state=s, infos="diff", ep_hook="see", step_hook=True), d])
    for kw in (dict(ep_hook="see", step_hook=True, infos="diff"), dict(step_hook=True, noise=0.5, space="box", scaling=True), dict(ep_hook="see", buf="small", cap=13), dict(ep_hook="see", buf="cached"), dict(infos="empty", state="none"),
               dict(state="np", space="box", scaling=True, bound="tanh", noise=0.25, step_hook=True), dict(dist="cat", step_hook=True, state="batch"), dict(buf="prio", ep_hook="see", state="torch")):
        out.append(["seq", dict(E=2, lens=[(2, 1), (3,)], trunc=[(0,), (1,)], **kw), d])
        out.append(["seq", dict(E=3, lens=[(3,), (1,), (2,)], trunc=[(0,), (1,)], **kw), 2])
    for b, (E, L) in itertools.product(("vec", "cached", "single"), ((1, [(2,)]), (2, [(1, 2), (3,)]), (3, [(2,), (1,), (3, 1)]))):
        if b == "single" and E > 1:
            continue
        out.append(["ephook", dict(E=E, lens=L, trunc=[(0,), ()], buf=b, step_hook=E == 2), 3 if q else 4])
    for cap in (2, 3):      # episodes that fill their ring
        out.append(["ephook", dict(E=2, lens=[(3, 1, 5), (2, 4)], trunc=[(0,), ()], buf="small", cap=cap), 3])
    out += [["merged", 2 if q else 3], ["mc"], ["random"], ["dist"], ["midswitch"]]
    return out


def run(job, st):
    globals()["run_" + job[0]](job, st)


def cfg_of(c):
    return {**c, "lens": [tuple(x) for x in c["lens"]], "trunc": [tuple(x) for x in c["trunc"]]}


def run_seq(job, st):
    _, cfg, depth = job
    cfg = cfg_of(cfg)
    ops = CALLS + RESETS
    for seq in itertools.product(ops, repeat=depth):
        if seq[-1][0].startswith("R") and depth == 3:
            continue
        if cfg.get("state") == "obj" and any(len(o) > 2 and o[2] for o in seq):
            continue    # random steps store no state, which the check for missing entries refuses for objects
        st.ctx = {"config": cfg, "calls": seq}
        w = World(st=st, **cfg)
        w.op(("R",))
        for o in seq:
            w.op(o)
        if seq[-1][0].startswith("R"):
            w.op(("s", 2 * cfg["E"]))
        st.trace(st.ctx)
        st.state((repr(cfg), tuple(tuple(e.log[-1]) for e in w.envs), tuple(map(repr, w.prev_state))))


def run_ephook(job, st):
    """Episode callbacks that add entries: only allowed with episode-based collection, stored with the episode."""
    _, cfg, depth = job
    cfg = cfg_of(cfg)
    for seq in itertools.product([("e", 1), ("e", 2), ("e", 3), ("R",), ("e", 2, False, True), ("s", 4)], repeat=depth):
        st.ctx = {"config": cfg, "calls": seq}
        w = World(st=st, ep_hook="add", **cfg)
        w.op(("R",))
        for o in seq:
            if o[0] == "s":
                before = [len(e.hist) for e in w.envs]
                try:
                    w.c.collect(n_step=12)
                except ValueError as e:
                    st.check("not supported for n_step" in str(e), "ephook-nstep", lambda: f"{e}")
                    break
                st.check(not any(h["kind"] == "step" and (h["te"] or h["tr"]) for e, k in zip(w.envs, before) for h in e.hist[k:]), "ephook-nstep", "an episode callback's entries were accepted in step-based collection")
            else:
                w.op(o)
        st.trace(st.ctx)
        st.state((repr(cfg), seq, w.tot_steps))


def run_merged(job, st):
    """Merging episode callbacks: union of their entries, None if all None, overlap refused (unless disabled)."""
    def hook(keys, log):
        def f(batch):
            log.append(batch)
            return None if keys is None else {k: np.arange(len(batch)) + 10.0 * i for i, k in enumerate(keys)}
        return f
    KINDS = [None, (), ("a",), ("b",), ("a", "b"), ("c",)]
    for n in range(0, job[1] + 2):
        for ks in itertools.product(KINDS, repeat=n):
            for checked in (True, False):
                st.step()
                st.ctx = {"hooks": ks, "check_overlapping_keys": checked}
                logs = [[] for _ in ks]
                m = EpisodeRolloutHookMerged(*[hook(k, l) for k, l in zip(ks, logs)], check_overlapping_keys=checked)
                b = Batch(obs=np.arange(3.0), rew=np.arange(3.0))
                flat = [k for kk in ks if kk for k in kk]
                overlap = len(set(flat)) < len(flat)
                try:
                    r = m(b)
                except KeyError:
                    st.check(checked and overlap, "merged-refused", f"callbacks adding {ks} refused although their entries do not overlap")
                    continue
                st.check(not (checked and overlap), "merged-accepted", f"callbacks adding {ks} overlap but were accepted")
                exp = {}
                for kk in ks:
                    for i, k in enumerate(kk or ()):
                        exp[k] = (np.arange(3) + 10.0 * i).tolist()
                st.check((r is None and not exp) or (r is not None and {k: v.tolist() for k, v in r.items()} == exp), "merged", lambda: f"merged entries {r}, expected {exp}")
                st.check(all(len(l) == 1 and l[0] is b for l in logs), "merged-calls", "not every callback was called exactly once")
                st.state((ks, checked))
    # through the collector, together with the Monte Carlo return callback
    for gamma, LL in itertools.product((0.0, 0.5, 0.9, 1.0), ([(1,), (3,)], [(2, 1), (1, 2)], [(4,), (2,)])):
        seen = []

        def tag(batch):
            seen.append(len(batch))
            return {"eh": np.full(len(batch), 7.0)}
        rew = lambda i, ep, t: ((i * 5 + ep * 3 + t * 7) % 11 - 4) * 0.25
        hooks = EpisodeRolloutHookMerged(EpisodeRolloutHookMCReturn(gamma), tag, lambda b: None)
        w = World(2, [tuple(x) for x in LL], trunc=((0,), ()), st=st, ep_hook=hooks, rew=rew)
        st.ctx = {"gamma": gamma, "lens": LL}
        w.op(("R",))
        for n in (2, 1, 3):
            w.op(("e", n))
            for i, ep in w.finish_order:
                g, out = 0.0, []
                for t in reversed(ep):
                    g = t["rew"] + gamma * g
                    out.append(g)
                for t, v in zip(ep, reversed(out)):
                    t["adds"] = {"eh": 7.0, "mc_return_to_go": v, "full_episode_mc_return": out[-1]}
            w.check_storage_adds(1e-9)
        st.check(sorted(seen) == sorted(len(ep) for _, ep in w.finish_order), "merged-calls", f"{seen}")
        st.trace()


def run_mc(job, st):
    h = {g: EpisodeRolloutHookMCReturn(g) for g in (0.0, 0.5, 1.0)}
    for n in range(1, 6):
        for rew in itertools.product((-1.0, 0.0, 2.0), repeat=n):
            for g, f in h.items():
                st.step()
                st.ctx = {"rewards": rew, "gamma": g}
                r = f(Batch(rew=np.array(rew), obs=np.zeros(n)))
                exp = [sum(g ** (k - j) * rew[k] for k in range(j, n)) for j in range(n)]
                st.check(np.allclose(r["mc_return_to_go"], exp) and np.allclose(r["full_episode_mc_return"], exp[0]) and len(r["full_episode_mc_return"]) == n, "mc", lambda: f"{r}, expected {exp}")
    for g in (-0.1, 1.1):
        try:
            EpisodeRolloutHookMCReturn(g)
        except ValueError:
            continue
        st.check(False, "mc-gamma", f"gamma={g} accepted")
    st.trace()


SPACES = {
    "discrete": lambda: gym.spaces.Discrete(3), "discrete-start": lambda: gym.spaces.Discrete(3, start=5), "multi": lambda: gym.spaces.MultiDiscrete([2, 3]), "binary": lambda: gym.spaces.MultiBinary(3),
    "box": lambda: gym.spaces.Box(np.array([-2.0, 0.0]), np.array([2.0, 4.0]), dtype=np.float64), "box32": lambda: gym.spaces.Box(-3.0, 5.0, (2, 2), dtype=np.float32), "box-unit": lambda: gym.spaces.Box(-1.0, 1.0, (2,), dtype=np.float64), "box-unbounded": lambda: gym.spaces.Box(-np.inf, np.inf, (2,), dtype=np.float64),
}


class SpaceEnv(gym.Env):
    """Records actions; refuses those outside its own action space."""

    def __init__(self, eid, space, L):
        self.action_space, self.eid, self.L = space, eid, L
        self.observation_space = gym.spaces.Box(-np.inf, np.inf, (1,))
        self.acts, self.t = [], 0

    def reset(self, seed=None, options=None):
        self.t = 0
        return np.array([float(self.eid)]), {}

    def step(self, a):
        self.t += 1
        self.acts.append(np.array(a, copy=True))
        return np.array([float(self.eid)]), 0.0, self.t >= self.L, False, {}


def run_random(job, st):
    """Random collection: only valid actions of that environment's own space, policy never consulted."""
    cases = [(k, [k] * E) for k in SPACES for E in (1, 2, 3)] + [("two boxes", ["box", "box-b"])] + [("two discrete", ["discrete", "discrete-2"])]
    mk = {**SPACES, "box-b": lambda: gym.spaces.Box(np.array([10.0, -6.0]), np.array([12.0, -4.0]), dtype=np.float64), "discrete-2": lambda: gym.spaces.Discrete(2, start=50)}
    for (name, kinds), (scaling, bound), call, dtype in itertools.product(cases, ((False, "clip"), (True, "clip"), (True, "tanh"), (False, None)), (("n_step", 6), ("n_episode", 3)), (None,)):
        cont = name.startswith(("box", "two boxes"))
        if not cont and scaling or (scaling and name == "box-unbounded") or name == "two boxes" and (scaling or bound == "tanh") or (cont and bound == "tanh" and name == "box-unbounded"):
            continue    # scaling needs one bounded space
        st.step()
        st.ctx = {"space": name, "scaling": scaling, "bound": bound, "call": call}
        envs = [SpaceEnv(i, mk[k](), 2 + i) for i, k in enumerate(kinds)]
        for i, e in enumerate(envs):
            e.action_space.seed(i)

        class P(Stub):
            def forward(self, batch, state=None, **kw):
                raise AssertionError("random collection consulted the policy")

            def exploration_noise(self, act, batch):
                raise AssertionError("random collection added exploration noise")
        c = Collector(P(mk[kinds[0]](), scaling=scaling, bound=bound), DummyVectorEnv([lambda e=e: e for e in envs]), VectorReplayBuffer(60, len(envs)), exploration_noise=True)
        c.reset()
        for _ in range(2):
            c.collect(**{call[0]: call[1]}, random=True)
        for e in envs:
            for a in e.acts:
                ok = e.action_space.contains(a.astype(e.action_space.dtype) if a.shape else int(a))
                st.check(ok, "invalid-action", lambda: f"environment {e.eid} ({e.action_space}) was given {a!r}")
        # stored action maps to the executed one
        for i, sub in enumerate(c.buffer.buffers):
            idx = sub.sample_indices(0)
            st.check(len(idx) == len(envs[i].acts), "random-count", f"{len(idx)} steps stored, {len(envs[i].acts)} executed")
            if len(idx) and (not cont or scaling or bound is None or name == "box-unit"):   # else the policy is not configured for this space
                ex = c.policy.map_action(np.asarray(sub[idx].act)) if cont else np.asarray(sub[idx].act)
                st.check(np.allclose(np.asarray(ex, dtype=float), np.array(envs[i].acts, dtype=float), atol=1e-4), "random-stored", lambda: f"stored {sub[idx].act}, executed {envs[i].acts}")
        st.trace()
        st.outcome((name, scaling, tuple(tuple(map(float, np.ravel(a))) for a in envs[0].acts)))


def run_dist(job, st):
    """The action-distribution callback puts every step's own distribution into the stored step (plain buffer)."""
    for kind, L in itertools.product(("cat", "normal"), ((1,), (2,), (1, 3))):
        seen = []
        hook = StepHookAddActionDistribution()

        def both(a, b):
            hook(a, b)
            seen.append((a.dist, b.action_dist, len(b.obs)))
        E = 2
        envs = [CEnv(i, L, act_space=gym.spaces.Discrete(97)) for i in range(E)]
        p = Stub(gym.spaces.Discrete(97), dist=kind)
        c = Collector(p, DummyVectorEnv([lambda e=e: e for e in envs]), VectorReplayBuffer(80, E), on_step_hook=both)
        c.reset()
        st.ctx = {"dist": kind, "lens": L}
        for kw in (dict(n_step=4), dict(n_episode=3), dict(n_step=2)):
            c.collect(**kw)
        st.check(len(seen) == len(p.calls), "dist-calls", f"{len(seen)} callbacks for {len(p.calls)} decisions")
        for (d, bd, n), call in zip(seen, p.calls):
            st.step()
            st.check(d is not None and d.batch_shape[0] == n == len(call["obs"]) and bd.batch_shape == d.batch_shape, "dist", "distribution of another size")
            sd = np.asarray(bd.stddev) if kind == "normal" else None
            if sd is not None:
                st.check(np.allclose(sd, call["std"]), "dist", "distribution of another step")
            else:
                st.check(torch.allclose(bd.probs, d.probs), "dist", "distribution of another step")
        st.trace()


def run_midswitch(job, st):
    """Callbacks can be exchanged between calls; each sees exactly the steps/episodes of its own time."""
    for LL, b in itertools.product(([(1,), (2,)], [(3,), (1, 2)]), ("vec", "cached")):
        w = World(2, LL, st=st, buf=b)
        st.ctx = {"lens": LL, "buf": b}
        w.op(("R",))
        for on, n in ((True, 4), (False, 3), (True, 2), (False, 4), (True, 6)):
            w.c.set_on_step_hook(None)
            got, eps = [], []
            w.c.set_on_step_hook((lambda a, r: got.append(np.asarray(r.obs).tolist())) if on else None)
            w.c.set_on_episode_done_hook((lambda e: eps.append(len(e))) if on else None)
            st.check((w.c.get_on_step_hook() is not None) == on and (w.c.get_on_episode_done_hook() is not None) == on, "getter", "callback not set")
            w.op(("s", n))
            exp = sorted(t["obs"].tolist() for t in w.executed_steps)
            st.check(sorted(o for g in got for o in g) == (exp if on else []), "midswitch", lambda: f"callback saw {got}, executed {exp}")
            st.check(sorted(eps) == (sorted(l for _, _, l, _, _ in w.last[2]) if on else []), "midswitch", f"{eps}")
        st.trace()
