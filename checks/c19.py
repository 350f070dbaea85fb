"""C19: collection statistics and stop conditions against the environments' own logs."""
import itertools

import numpy as np

from mc.coll import World
from tianshou.data import CollectStats, SequenceSummaryStats
from tianshou.data.stats import compute_dim_to_summary_stats

PROPERTY = "C19"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive call sequences (steps, episodes, resets of environments/statistics/storage) on the real Collector over scripted environments; every reported number recomputed from the environments' own logs"
NOTE = "Known finding dangling-episode is recognised by the exact merged value; anything else is reported."
ASSUMPTIONS = ["synchronous vectorised environments (asynchronous: C21)", "scalar rewards"]

CALLS = [("s", 1), ("s", 3), ("s", 4), ("e", 1), ("e", 2), ("e", 3), ("e", 5), ("s", 2, True), ("e", 2, False, True), ("s", 2, False, True)]
RESETS = [("R",), ("Rnb",), ("Re",), ("Rns",), ("Rs",), ("Rb",)]
BAD = [dict(), dict(n_step=0), dict(n_episode=0), dict(n_step=0, n_episode=0), dict(n_step=-1), dict(n_episode=-1), dict(n_step=2, n_episode=2), dict(n_step=-3, n_episode=2)]
LENS = [(1,), (2,), (3,), (5,), (1, 4), (3, 1, 2)]


def BOUNDS(tier):
    q = tier == "quick"
    return (f"1-4 environments, {len(LENS)} episode-length scripts in all combinations (2 environments) and selected ones (1, 3, 4); sequences of {2 if q else 3} calls from {len(CALLS)} collections and {len(RESETS)} resets, "
            "plus all three-call sequences of a smaller alphabet; categorical/normal action distributions; all invalid requests after every call; storage that overwrites running episodes; a NaN reward at every step with and without raise_on_nan_in_buffer; summary statistics on all short sequences over a grid")


def rewf(i, ep, t):
    return ((i * 5 + ep * 3 + t * 7) % 11 - 4) * 0.25


def jobs(tier):
    q = tier == "quick"
    out = []
    for LL in itertools.product(LENS, repeat=2):
        out.append(["seq", dict(E=2, lens=list(LL), buf="vec", trunc=[(1,), ()], dist="cat" if LL[0] == (2,) else None), 2 if q else 3, 0])
    for L in LENS:
        for b in ("single", "small", "cached"):
            out.append(["seq", dict(E=1, lens=[L], buf=b, trunc=[(0,)], cap=4 if b == "small" else None), 2, 0])
        out.append(["seq", dict(E=1, lens=[L], buf="small", trunc=[(0,)], cap=2), 2, 0])     # storage shorter than the episode
    for E, LL in ((3, [(1,), (3,), (2, 4)]), (3, [(5,), (1,), (2,)]), (4, [(1,), (2,), (3,), (4,)]), (4, [(4, 1), (1,), (2, 2, 3), (3,)]), (3, [(2,), (2,), (2,)]), (4, [(2,)] * 4)):
        for kw in (dict(buf="vec"), dict(buf="cached"), dict(buf="small", cap=3), dict(buf="vec", dist="cat"), dict(buf="vec", dist="normal", space="box", scaling=True), dict(buf="prio")):
            out.append(["seq", dict(E=E, lens=LL, trunc=[(0,), (), (1,)], **kw), 2, 0])
    for LL in itertools.product([(1,), (3,), (2, 5)], repeat=2):
        out.append(["seq", dict(E=2, lens=list(LL), buf="vec", trunc=[(), (0,)]), 3, 1])
    out += [["bad"], ["summary", 4 if q else 6], ["update", 3 if q else 4], ["ctor"], ["nan", 2 if q else 3]]
    return out


SMALL = [("s", 1), ("s", 3), ("e", 1), ("e", 3), ("Rb",), ("Re",), ("e", 2, False, True)]


def run(job, st):
    globals()["run_" + job[0]](job, st)


def cfg_of(c):
    return {**c, "lens": [tuple(x) for x in c["lens"]], "trunc": [tuple(x) for x in c["trunc"]]}


def run_seq(job, st):
    _, cfg, depth, alpha = job
    cfg = cfg_of(cfg)
    ops = SMALL if alpha else CALLS + RESETS
    for seq in itertools.product(ops, repeat=depth):
        if depth == 3 and not alpha and seq[0][0].startswith("R"):
            continue
        st.ctx = {"config": cfg, "calls": seq}
        w = World(st=st, rew=rewf, record_dangling=True, **cfg)
        try:
            w.op(("R",))
            for o in seq:
                w.op(o)
            if seq[-1][0].startswith("R"):
                w.op(("e", cfg["E"]))
        except ValueError as e:
            # documented refusal: an episode (or what the buffer takes for one) of exactly the storage's size
            cap = cfg.get("cap")
            if cap is None or "completely filled a subbuffer" not in str(e):
                raise
            longest = max(sum(1 for h in e_.hist if h["kind"] == "step") for e_ in w.envs)
            st.check(longest >= cap, "refused", f"episode refused for lack of storage after {longest} steps in {cap} slots")
        st.trace(st.ctx)
        st.state((repr(cfg), w.tot_steps, w.tot_eps, tuple(len(e.log) for e in w.envs)))


def run_bad(job, st):
    for cfg in (dict(E=1, lens=[(2,)], buf="single"), dict(E=2, lens=[(2,), (3,)], buf="vec"), dict(E=3, lens=[(1,), (2,)], buf="cached")):
        for pre in ([], [("s", 1)], [("e", 2)], [("s", 4), ("R",)]):
            for kw in BAD:
                st.ctx = {"config": cfg, "before": pre, "request": kw}
                w = World(st=st, **cfg)
                w.op(("R",))
                for o in pre:
                    w.op(o)
                w.op(("bad", kw))
                w.counters()
                w.op(("s", 2))
                st.trace()
    # never reset: there is nothing to start from
    for cfg in (dict(E=1, lens=[(2,)], buf="single"), dict(E=2, lens=[(2,), (3,)], buf="vec")):
        for kw in (dict(n_step=2), dict(n_episode=2)):
            w = World(st=st, **cfg)
            st.ctx = {"never reset": cfg, "request": kw}
            w.op(("bad", kw))
            w.op(("R",))
            w.op(("s", 1))
            st.trace()


def run_nan(job, st):
    """A NaN in what is stored makes collect() raise, unless raise_on_nan_in_buffer=False; then everything is collected as usual."""
    from mc.coll import CEnv, Stub, make_buffer
    from tianshou.data import Collector
    from tianshou.data.collector import MalformedBufferError
    from tianshou.env import DummyVectorEnv
    calls = [dict(n_step=1), dict(n_step=3), dict(n_episode=1), dict(n_episode=2)]
    for E, buf in ((1, "single"), (1, "vec"), (2, "vec"), (2, "cached"), (2, "small")):
        for at in [None] + [(e, k) for e in range(E) for k in range(4)]:
            for flag in (True, False):
                for seq in itertools.product(calls, repeat=job[1]):
                    st.ctx = {"environments": E, "buffer": buf, "NaN reward of (environment, step)": at, "raise_on_nan_in_buffer": flag, "calls": seq}
                    n = [0] * E
                    nan = [0]

                    def rew(i, ep, t):
                        n[i] += 1
                        if at == (i, n[i] - 1):
                            nan[0] += 1
                            return float("nan")
                        return 1.0
                    envs = [CEnv(i, ((2,), (3, 1))[i % 2], rew=rew) for i in range(E)]
                    c = Collector(Stub(envs[0].action_space), DummyVectorEnv([lambda e=e: e for e in envs]), make_buffer(buf, E, 12 if buf == "small" else None), raise_on_nan_in_buffer=flag)
                    c.reset()
                    for kw in seq:
                        before = sum(n)
                        try:
                            r, raised = c.collect(**kw), False
                        except MalformedBufferError:
                            raised = True
                        st.step()
                        st.check(raised == bool(flag and nan[0]), "nan", lambda: f"collect({kw}) {'raised' if raised else 'did not raise'} with {nan[0]} NaN rewards stored")
                        if raised:
                            break
                        st.check(r.n_collected_steps == sum(n) - before, "nan-steps", lambda: f"{r.n_collected_steps} steps reported, {sum(n) - before} taken")
                    st.trace(st.ctx)
                    st.state(("nan", E, buf, at, flag, tuple(n)))


def run_summary(job, st):
    for n in range(0, job[1] + 1):
        for v in itertools.product((-1.5, 0.0, 2.0, 3.25), repeat=n):
            st.step()
            st.ctx = {"sequence": v}
            for seq in (list(v), np.array(v, dtype=float)):
                s = SequenceSummaryStats.from_sequence(seq)
                if not v:
                    ok = (s.mean, s.std, s.max, s.min) == (0, 0, 0, 0)
                else:
                    m = sum(v) / n
                    sd = (sum((x - m) ** 2 for x in v) / n) ** 0.5
                    ok = abs(s.mean - m) < 1e-12 and abs(s.std - sd) < 1e-9 and s.max == max(v) and s.min == min(v)
                st.check(ok, "summary", lambda: f"summary of {v}: {s}")
            st.state(v)
    for n, d in itertools.product((1, 2, 3), (1, 2)):
        for v in itertools.product((0.5, 2.0), repeat=n * d):
            a = np.array(v).reshape(d, n)
            s = compute_dim_to_summary_stats(a)
            st.check(set(s) == set(range(d)) and all(abs(s[i].mean - a[i].mean()) < 1e-12 and abs(s[i].std - a[i].std()) < 1e-12 and s[i].max == a[i].max() and s[i].min == a[i].min() for i in range(d)), "dims", lambda: f"{s} of {a}")
    st.trace()


class FakeEp:
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n


def run_update(job, st):
    """CollectStats on its own: any order of step and episode updates and refreshes."""
    from tianshou.data import Batch
    depth = job[1]
    ops = [("st", 1), ("st", 3), ("ep", 2, 1.5), ("ep", 1, -2.0), ("ref",), ("stR", 2), ("epR", 4, 0.25)]
    for seq in itertools.product(ops, repeat=depth):
        st.ctx = {"updates": seq}
        s = CollectStats()
        lens, rets, steps = [], [], 0
        refreshed = ([], [])
        for o in seq:
            if o[0] in ("st", "stR"):
                s.update_at_step_batch(Batch(obs=np.zeros(o[1]), dist=None), refresh_sequence_stats=o[0] == "stR")
                steps += o[1]
            elif o[0] in ("ep", "epR"):
                s.update_at_episode_done(FakeEp(o[1]), o[2], refresh_sequence_stats=o[0] == "epR")
                lens.append(o[1])
                rets.append(o[2])
                if o[0] == "epR":
                    refreshed = (list(rets), list(lens))
            else:
                s.refresh_all_sequence_stats()
                refreshed = (list(rets), list(lens))
            st.step()
            st.check(s.n_collected_steps == steps and s.n_collected_episodes == len(lens) and s.lens.tolist() == lens and s.returns.tolist() == rets, "update", lambda: f"{s}")
            for stat, v in ((s.returns_stat, refreshed[0]), (s.lens_stat, refreshed[1])):
                st.check((stat is None) == (not v) and (not v or (abs(stat.mean - np.mean(v)) < 1e-12 and stat.max == max(v) and stat.min == min(v) and abs(stat.std - np.std(v)) < 1e-12)), "refresh", lambda: f"{stat} of {v}")
        for t in (0.5, 2.0):
            s.set_collect_time(t)
            st.check(s.collect_time == t and abs(s.collect_speed - steps / t) < 1e-12, "speed", lambda: f"{s.collect_speed}")
        for t in (-1.0,):
            try:
                s.set_collect_time(t)
            except ValueError:
                continue
            st.check(False, "negative-time", "negative time accepted")
        st.trace()
        st.state(seq)
    for r, l in itertools.product([[], [1.5], [1.0, 3.0]], repeat=2):
        s = CollectStats.with_autogenerated_stats(np.array(r), np.array(l), n_collected_episodes=len(r), n_collected_steps=7)
        st.check((s.returns_stat is None) == (not r) and (s.lens_stat is None) == (not l) and (not r or s.returns_stat.mean == np.mean(r)) and s.n_collected_steps == 7 and s.n_collected_episodes == len(r), "auto", f"{s}")


def run_ctor(job, st):
    """Collectors over storage that cannot hold the environments are refused."""
    from tianshou.data import CachedReplayBuffer, Collector, ReplayBuffer, VectorReplayBuffer
    from mc.coll import CEnv, Stub
    from tianshou.env import DummyVectorEnv
    import gymnasium as gym
    for E in (1, 2, 3):
        for name, mk, ok in [("single", lambda: ReplayBuffer(5), E == 1), ("zero", lambda: ReplayBuffer(0), False)] + [(f"vec{k}", lambda k=k: VectorReplayBuffer(5 * k, k), k >= E) for k in (1, 2, 3)] + [
                (f"cached{k}", lambda k=k: CachedReplayBuffer(ReplayBuffer(9), k, 5), k >= E) for k in (1, 2, 3)]:
            st.step()
            st.ctx = {"environments": E, "storage": name}
            envs = DummyVectorEnv([lambda i=i: CEnv(i, (2,), act_space=gym.spaces.Discrete(97)) for i in range(E)])
            try:
                c = Collector(Stub(gym.spaces.Discrete(97)), envs, mk())
            except ValueError:
                st.check(not ok, "ctor-refused", f"{name} refused for {E} environments")
                continue
            st.check(ok, "ctor-accepted", f"{name} accepted for {E} environments")
            st.check(c.env_num == E and len(c.action_space) == E, "ctor", "environment number")
    st.trace()
