"""C18: what the collector stores, over all call sequences and episode-length patterns."""
import itertools

from mc.coll import World

PROPERTY = "C18"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive call sequences on the real Collector over scripted environments (all episode-length/truncation patterns up to a bound); stored data reconciled with the environments' and the policy's own logs"
NOTE = "Every observation identifies environment, episode and time; every action is unique, so a dropped, duplicated or misattributed step cannot cancel out."
ASSUMPTIONS = ["synchronous vectorised environments (asynchronous: C21)"]

LENS1 = [(1,), (2,), (3,), (1, 3), (3, 1, 2)]
LENS2 = [(1,), (2,), (3,), (1, 3)]
CALLS = [("s", 1), ("s", 2), ("s", 3), ("s", 5), ("e", 1), ("e", 2), ("e", 3), ("e", 4), ("s", 2, True), ("e", 2, True)]
MORE = [("R",), ("Rnb",), ("Re",), ("Rns",), ("Rb",)]


def BOUNDS(tier):
    q = tier == "quick"
    return (f"1-3 environments with every assignment of {len(LENS2)} episode-length scripts (1 environment: {len(LENS1)}), truncated/terminated ends; sequences of {2 if q else 3} calls from {len(CALLS)} "
            f"(steps/episodes/random) and {len(MORE)} resets; large, wrapping, cached, prioritised and single buffers; with/without policy outputs, recurrent state, hooks, action scaling; rings shorter than an episode")


def configs(tier):
    q = tier == "quick"
    out = []
    for L in LENS1:
        for b in ("single", "vec", "small", "cached"):
            out.append(dict(E=1, lens=[L], buf=b, trunc=[(1,)]))
    for LL in itertools.product(LENS2, repeat=2):
        for b in ("vec", "small", "cached") if not q else ("vec", "cached"):
            out.append(dict(E=2, lens=list(LL), buf=b, trunc=[(0,), (1,)]))
    for LL in itertools.product([(1,), (2,), (3, 1)], repeat=3):
        out.append(dict(E=3, lens=list(LL), buf="vec", trunc=[(), (0, 1), (2,)]))
    for b in ("small", "prio", "more", "cached"):
        out.append(dict(E=3, lens=[(2, 1), (3,), (1, 2)], buf=b, trunc=[(0,), (), (1,)]))
    for kw in (dict(space="box", scaling=True), dict(space="box", scaling=True, noise=0.25, bound="clip"), dict(space="box", bound="tanh", scaling=True), dict(noise=1.0), dict(state="np", aux=True), dict(state="batch"), dict(state="torch", infos="diff"), dict(infos="empty"),
               dict(step_hook=True, ep_hook="see"), dict(step_hook=True, aux=True, infos="diff")):
        out.append(dict(E=2, lens=[(2, 1), (3,)], buf="vec", trunc=[(0,), (1,)], **kw))
        out.append(dict(E=3, lens=[(2,), (1, 3), (3,)], buf="small", trunc=[(0,), (1,)], **kw))
    for cap in (2, 3):      # episodes that fill their ring exactly, once or several times, or not
        for b in ("small", "single"):
            out.append(dict(E=1, lens=[(3, 2, 5, 4, 6)], buf=b, trunc=[(1,)], cap=cap, ep_hook="see"))
        out.append(dict(E=2, lens=[(3, 2, 1, 5), (4, 2, 6)], buf="small", trunc=[(1,), (0,)], cap=cap, ep_hook="see", aux=True))
    return out


def jobs(tier):
    return [[c, 2 if tier == "quick" else 3] for c in configs(tier)]


def run(job, st):
    cfg, depth = job
    cfg = {**cfg, "lens": [tuple(x) for x in cfg["lens"]], "trunc": [tuple(x) for x in cfg["trunc"]]}
    ops = CALLS + MORE
    for seq in itertools.product(range(len(ops)), repeat=depth):
        tail = [("s", cfg["E"])] if seq[-1] >= len(CALLS) else []
        st.ctx = {"config": cfg, "calls": [ops[o] for o in seq]}
        w = World(st=st, **cfg)
        w.op(("R",))
        for o in seq:
            w.op(ops[o])
        for o in tail:
            w.op(o)
        st.trace(st.ctx)
        st.state((repr(cfg), tuple(tuple(len(x) for x in w.expected)), tuple(tuple(e.log[-1]) for e in w.envs)))
