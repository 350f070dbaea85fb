"""C11: hindsight relabelling."""
import copy
import itertools
import os
import pickle
import shutil
import tempfile

import numpy as np

from mc.bufmodel import Model, Tr, done_flags, same
from mc.explore import explore
from mc.rng import patched
from tianshou.data import Batch, HERReplayBuffer, HERVectorReplayBuffer, ReplayBuffer

PROPERTY = "C11"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive add/sample/save/copy/reset histories on the real hindsight buffers with every random answer enumerated; episode-list oracle in every state"
NOTE = "Index draws and the choice of relabelled episodes are enumerated completely, the future offset over a grid that reaches every step of the horizon."
ASSUMPTIONS = ["rewards are representable in float32 (relabelled rewards are written in that precision)", "goals are constant within an episode when data is added"]
UNIT = (0.0, 0.4, 0.7, 1 - 2.0 ** -20)


def BOUNDS(tier):
    q = tier == "quick"
    return (f"single capacities 2-5 and two-environment vectorised rings of size 2-3, horizon 1-4, future_k in (2, 4, inf), with and without stored next observations; all end-flag "
            f"histories of {5 if q else 8} additions (capacity/horizon pairs thinned in quick); request sizes 0-2 (3); draws beyond one transition: all up to 2-3 non-default answers; then every second operation in add/sample/HDF5/pickle/deep copy/merge/reset")


def reward(ag, g):
    return (ag[:, 0] * 64 + g[:, 0]).astype(np.float64)


GOAL = 1000


def obs_d(i, ep, nxt):
    return {"observation": np.array([i + nxt, -i], float), "achieved_goal": np.array([i + nxt + 0.0]), "desired_goal": np.array([GOAL + ep + 0.0])}


def mk_batch(trs, eps, vec):
    def one(t, e):
        return Batch(obs=obs_d(t.id, e, 0), act=t.id, rew=t.rew, terminated=t.term, truncated=t.trunc, obs_next=obs_d(t.id, e, 0.5), info={"k": t.id})
    bs = [one(t, e) for t, e in zip(trs, eps)]
    return Batch.stack(bs) if vec else bs[0]


class Sys:
    """Real buffer plus the list of what was added."""

    def __init__(self, vec, cap, horizon, k, ign):
        kw = dict(compute_reward_fn=reward, horizon=horizon, future_k=k, ignore_obs_next=ign)
        self.vec, self.horizon, self.k, self.ign = vec, horizon, k, ign
        self.b = HERVectorReplayBuffer(cap * 2, 2, **kw) if vec else HERReplayBuffer(cap, **kw)
        self.m = Model([cap] * (2 if vec else 1))
        self.t, self.ep, self.eps = 0, [0] * (2 if vec else 1), {}

    def add(self, ids, flags):
        trs, eps = [], []
        for e, c in zip(ids, flags):
            tr = Tr(self.t, *done_flags(c), rew=float(self.t % 7) / 4)
            self.t += 1
            trs.append(tr)
            ep = 10 * self.ep[e] + e
            eps.append(ep)
            self.eps[tr.id] = ep
            if tr.done:
                self.ep[e] += 1
        self.b.add(mk_batch(trs, eps, self.vec), list(ids) if self.vec else None)
        self.m.add(ids, trs)

    def ag_next(self, s):
        if self.ign:
            return float(self.m.tr(self.m.next(s)).id)
        return self.m.tr(s).id + 0.5

    def orig(self, s):
        return GOAL + self.eps[self.m.tr(s).id], self.m.tr(s).rew

    def horizon_of(self, s):
        out = [s]
        for _ in range(self.horizon - 1):
            out.append(self.m.next(out[-1]))
        return list(dict.fromkeys(out))

    def read(self):
        idx = np.array([s for s, _ in self.m.stored()])
        raw = self.b._meta if False else self.b[idx]
        return idx, raw

    def check_untouched_fields(self, idx, d, st, what):
        ids = np.array([self.m.tr(int(s)).id for s in idx], float)
        ok = (same(d.obs.observation, np.stack([ids, -ids], 1)) and same(d.obs.achieved_goal, ids[:, None]) and same(d.act, ids.astype(int)) and same(d.info.k, ids.astype(int))
              and same(d.terminated, np.array([self.m.tr(int(s)).term for s in idx])) and same(d.truncated, np.array([self.m.tr(int(s)).trunc for s in idx])))
        st.check(ok, "other-fields", lambda: f"{what}: fields other than goal and reward changed: {d}")
        if not self.ign:
            st.check(same(d.obs_next.observation, np.stack([ids + 0.5, -ids], 1)) and same(d.obs_next.achieved_goal, ids[:, None] + 0.5), "other-fields", lambda: f"{what}: obs_next changed: {d.obs_next}")

    def check_original(self, st, what, b=None):
        b = self.b if b is None else b
        st.check(len(b) == len(self.m.stored()), "length", lambda: f"{what}: len {len(b)}")
        if not self.m.stored():
            return
        idx = np.array([s for s, _ in self.m.stored()])
        d = b[idx]
        self.check_untouched_fields(idx, d, st, what)
        g = np.array([self.orig(int(s))[0] for s in idx], float)
        r = np.array([self.orig(int(s))[1] for s in idx])
        st.check(same(d.obs.desired_goal[:, 0], g), "not-restored", lambda: f"{what}: goals at {idx.tolist()} are {d.obs.desired_goal[:, 0].tolist()}, originally {g.tolist()}")
        st.check(same(d.rew, r), "not-restored", lambda: f"{what}: rewards at {idx.tolist()} are {d.rew.tolist()}, originally {r.tolist()}")
        if not self.ign:
            st.check(same(d.obs_next.desired_goal[:, 0], g), "not-restored", lambda: f"{what}: next goals {d.obs_next.desired_goal[:, 0].tolist()}, originally {g.tolist()}")

    def check_relabelled(self, drawn, data, st):
        """Property of the stored state and of the returned sample right after a sample."""
        idx = np.array([s for s, _ in self.m.stored()])
        d = self.b[idx]
        self.check_untouched_fields(idx, d, st, "after sample")
        reach = set()
        for s in drawn:
            reach |= set(self.horizon_of(s))
        goals = {}
        for j, s in enumerate(map(int, idx)):
            g, r = float(d.obs.desired_goal[j, 0]), float(d.rew[j])
            og, orr = self.orig(s)
            if not self.ign:
                st.check(float(d.obs_next.desired_goal[j, 0]) == g, "goal-mismatch", lambda: f"slot {s}: obs goal {g}, obs_next goal {d.obs_next.desired_goal[j, 0]}")
            goals[s] = g
            if g == og:
                st.check(r == orr, "reward-unrelabelled", lambda: f"slot {s} keeps its goal but its reward is {r}, originally {orr}")
                continue
            st.check(s in reach, "outside", lambda: f"slot {s} was relabelled but does not follow a drawn step within the horizon (drawn {drawn})")
            # the goal must be achieved in the same episode at a step not before some drawn step that reaches s
            cand = set()
            for q in drawn:
                if s in self.horizon_of(q):
                    t = q
                    while True:
                        cand.add(self.ag_next(t))
                        if self.m.next(t) == t:
                            break
                        t = self.m.next(t)
            st.check(g in cand, "goal-source", lambda: f"slot {s}: new goal {g} is not achieved at/after a drawn step of its episode {sorted(cand)}")
            if s in drawn:
                fut, t = set(), s
                while True:
                    fut.add(self.ag_next(t))
                    if self.m.next(t) == t:
                        break
                    t = self.m.next(t)
                st.check(g in fut, "goal-past", lambda: f"drawn slot {s}: new goal {g} is not achieved at the same or a later step {sorted(fut)}")
            e = self.ag_next(s) * 64 + g
            st.check(r == e, "reward", lambda: f"slot {s}: reward {r} for goal {g}, recomputed {e}")
        for j, s in enumerate(drawn):
            k = list(map(int, idx)).index(s)
            st.check(float(data.obs.desired_goal[j, 0]) == goals[s] and float(data.rew[j]) == float(d.rew[k]), "sample-data", lambda: f"sample row {j} (slot {s}) differs from the stored relabelled data")
            if self.k == float("inf"):
                st.check(goals[s] != self.orig(s)[0], "not-relabelled", lambda: f"slot {s} drawn with future_k=inf keeps its goal")
        return goals


def histories(vec, n):
    if not vec:
        for f in itertools.product("cT", repeat=n):
            yield [([0], c) for c in f]
    else:
        for f in itertools.product([([0, 1], "cc"), ([0], "c"), ([1], "T"), ([1, 0], "Tc")], repeat=n):
            yield list(f)


def jobs(tier):
    q = tier == "quick"
    out = []
    for cap in (2, 3, 4, 5):
        for h in (1, 2, 3, 4):
            for k in (2, 4, "inf"):
                for ign in (0, 1):
                    if q and ((cap, h) not in ((2, 2), (3, 1), (3, 2), (3, 3), (4, 2), (4, 3), (5, 4)) or (cap == 5 and (k != "inf" or ign)) or k == 4 and cap != 4):
                        continue
                    out.append(["single", cap, h, k, ign, 5 if q else 8, int(q)])
    for cap in (2, 3):
        for h in (1, 2, 3):
            for k in (2, "inf"):
                for ign in (0, 1):
                    if q and (h == 1 or (cap == 3) != (h == 3)):
                        continue
                    out.append(["vec", cap, h, k, ign, 2 if q else 4, int(q)])
    return out


def run(job, st):
    kind, cap, h, k, ign, n, quick = job
    k = float("inf") if k == "inf" else k
    vec = kind == "vec"
    seen = set()
    tmp = tempfile.mkdtemp(prefix="c11-")
    try:
        for ln in range(1, n + 1):
            for hist in histories(vec, ln):
                base = Sys(vec, cap, h, k, bool(ign))
                for ids, fl in hist:
                    base.add(ids, fl)
                key = (base.m.key(), tuple(base.t - t.id for _, t in base.m.stored()) if vec else base.t > cap)
                if key in seen:
                    continue
                seen.add(key)
                st.state(key)
                st.ctx = {"job": job, "history": hist}
                base.check_original(st, "after adding")
                explore_samples(base, hist, job, st, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def explore_samples(base, hist, job, st, tmp):
    """From one stored state: every sample, then every follow-up operation."""
    quick = job[-1]
    pristine = pickle.dumps(base.b)
    nstored = len(base.m.stored())
    for n in (0, 1, 2, 3):
        if n == 3 and (nstored > 3 or quick) or n == 2 and nstored > 4:
            continue
        firstgoals, follow = {}, 0

        def body(ch):
            s = copy.copy(base)
            s.b = pickle.loads(pristine)
            with patched(ch, unit=UNIT if n == 1 or not quick else UNIT[1::2]):
                data, ind = s.b.sample(n)
            return s, data, [int(x) for x in ind]
        dev = None if (n == 1 or nstored <= 2 or (n == 2 and nstored <= 3)) else (2 if quick else 3)
        for ch, (s, data, drawn) in explore(body, deviations=dev):
            st.ctx = {"job": job, "history": hist, "sample": n, "choices": [c for c, _ in ch.log], "drawn": drawn}
            st.step()
            if n:
                st.check(len(drawn) == n, "count", lambda: f"sample({n}) returned {len(drawn)} slots")
            goals = s.check_relabelled(drawn, data, st)
            altered = tuple(sorted((x, g) for x, g in goals.items() if g < GOAL))
            st.outcome((n, altered))
            if n == 1:
                firstgoals.setdefault(drawn[0], set()).add(goals[drawn[0]])
            if follow < 2 or altered and follow < (7 if quick else 40):
                follow += 1
                follow_up(s, n, hist, st, tmp, follow)
            st.trace(st.ctx)
        if n == 1 and base.k == float("inf"):
            for d, gs in firstgoals.items():
                exp = {base.ag_next(t) for t in base.horizon_of(d)}
                st.check(gs == exp, "future-reach", lambda: f"slot {d}: over all random answers the goals {sorted(gs)} occur, the horizon allows {sorted(exp)}")
            st.check(set(firstgoals) == {x for x, _ in base.m.stored()}, "draw-reach", "not every stored slot is drawn")


def follow_up(s, n, hist, st, tmp, i):
    """The next operation must start from the original data."""
    ctx = dict(st.ctx)
    ops = ["add", "sample", "pickle-add", "hdf5", "deepcopy-sample", "reset", "merge-out"] + ["merge-in"] * (not s.vec)
    for op in ops if i <= 3 else [ops[i % len(ops)], "add"]:
        w = copy.copy(s)
        w.b = copy.deepcopy(s.b) if op != "pickle-add" else pickle.loads(pickle.dumps(s.b))
        w.m, w.ep, w.eps = copy.deepcopy(s.m), list(s.ep), dict(s.eps)
        st.ctx = {**ctx, "then": op}
        st.step()
        if op in ("add", "pickle-add"):
            w.add([0], "c")
            w.check_original(st, "after sample and " + op)
        elif op in ("sample", "deepcopy-sample"):
            for _, (data, drawn) in explore(lambda ch: _sample(w, ch), deviations=1):
                w.check_relabelled(drawn, data, st)
            if op == "sample":
                w.add([0], "T")
                w.check_original(st, "after two samples and add")
        elif op == "hdf5":
            p = os.path.join(tmp, "h.h5")
            w.b.save_hdf5(p)
            new = type(w.b).load_hdf5(p)
            os.unlink(p)
            w.check_original(st, "loaded from HDF5", new)
            w.check_original(st, "after saving")
        elif op == "merge-out":
            # what is moved into another buffer is the original data, in order
            src = [x for x, _ in w.m.stored()]
            for her in (False, True):
                d = HERReplayBuffer(len(src) + 1, compute_reward_fn=reward, horizon=s.horizon, future_k=s.k, ignore_obs_next=s.ign) if her else ReplayBuffer(len(src) + 1, ignore_obs_next=s.ign)
                d.update(w.b)
                rows = d[np.arange(len(d))]
                g, r = [w.orig(x)[0] for x in src], [w.orig(x)[1] for x in src]
                st.check(len(d) == len(src) and same(rows.obs.desired_goal[:, 0], np.array(g, float)) and same(rows.rew, np.array(r)), "merged-relabelled",
                         lambda: f"merging the hindsight buffer copied goals {rows.obs.desired_goal[:, 0].tolist()} and rewards {rows.rew.tolist()}, originally {g}, {r}")
        elif op == "merge-in":
            src = ReplayBuffer(2, ignore_obs_next=s.ign)
            for c in "cT":
                tr = Tr(w.t, *done_flags(c), rew=float(w.t % 7) / 4)
                w.t += 1
                src.add(mk_batch([tr], [990], False))
                w.eps[tr.id] = 990
                w.m.subs[0].write(tr)
            w.b.update(src)
            w.check_original(st, "after sample and merge")
        elif op == "reset":
            w.b.reset()
            w.m.reset()
            w.ep = [e + 1 for e in w.ep]
            w.check_original(st, "after reset")
            w.add([0], "c")
            w.check_original(st, "after reset and add")
    st.ctx = ctx


def _sample(w, ch):
    with patched(ch, unit=UNIT):
        data, ind = w.b.sample(1)
    return data, [int(x) for x in ind]
