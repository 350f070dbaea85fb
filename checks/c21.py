"""C21: AsyncCollector under every completion schedule of a controlled worker."""
import itertools

from mc.acoll import AWorld
from mc.explore import explore
from tianshou.env import VectorEnvWrapper

PROPERTY = "C21"
LEVEL = "model_checking"
TECHNIQUE = "stateless exploration of the real AsyncCollector and BaseVectorEnv: a controlled worker lets the explorer choose, at every wait, which environments have finished and in which order; storage, statistics and policy inputs are reconciled with the environments' logs on every schedule"
NOTE = "The worker refuses to hand out a result twice, before it was announced, or to accept a second command while busy, so protocol misuse is a violation as well. Abandoned steps (in flight when the environments are reset) must be discarded and never stored later."
ASSUMPTIONS = ["a step's effect on the environment happens when it is sent; only its completion time is chosen", "per-environment results are independent"]

CALLS = [("s", 1), ("s", 2), ("s", 3), ("e", 1), ("e", 2), ("s", 2, True), ("e", 1, True)]
RESETS = [("R",), ("Rnb",), ("Re",), ("s", 2, False, True), ("Rb",), ("Rs",)]


def BOUNDS(tier):
    q = tier == "quick"
    return (f"2 environments: every schedule (ordered subsets at each wait) of call pairs requesting up to 3 steps/episodes ({'2 configurations' if q else 'all configurations'}), otherwise schedules with at most {1 if q else '2-3'} deviations from 'all in order'; "
            f"3 environments: at most {1 if q else 2} deviations; wait_num 1-3, with and without time limit; pairs of {len(CALLS)} calls with an optional reset of {len(RESETS)} between{' (a third of the resets per configuration)' if q else ''}; scalar and vector actions, recurrent state as array/tensor/nested batch/objects or none, policy outputs, exploration noise; vector, wrapping, cached, prioritised storage; wrapped and bare environments")


def configs(tier):
    q = tier == "quick"
    L = [(2, 1), (1, 3)]
    out = []
    for kw in (dict(state="np", aux=True), dict(), dict(state="torch"), dict(state="nested"), dict(state="obj"), dict(aux=True), dict(space="box", scaling=True), dict(space="box", state="batch", aux=True, noise=0.25, scaling=True),
               dict(buf="small", state="np"), dict(buf="cached", aux=True), dict(buf="prio"), dict(wrap=True, state="np"), dict(infos="diff"), dict(timeout=0.5, state="np"), dict(timeout=0.5, wait_num=2)):
        out.append((dict(E=2, lens=L, trunc=[(0,), (1,)], **kw), None))
    for kw in (dict(state="np", aux=True), dict(wait_num=2, space="box", scaling=True), dict(wait_num=2, buf="small", state="torch"), dict(wait_num=1, timeout=0.5, buf="cached", aux=True), dict(wait_num=3, timeout=0.5)):
        out.append((dict(E=3, lens=[(2, 1), (1, 3), (3,)], trunc=[(0,), (1,), ()], **kw), 1 if q else 2))
    return out


def jobs(tier):
    return [[c, dev, first, tier, k] for k, (c, dev) in enumerate(configs(tier)) for first in range(len(CALLS))]


def sequences(first, tier, k, small):
    """Pairs of calls, and pairs with a reset between; the quick tier spreads the resets over the configurations."""
    for j, second in enumerate(CALLS):
        if tier == "thorough" or small or (j + first + k) % 2 == 0 or second[:2] == ("s", 2):
            yield [CALLS[first], second]
        for i, r in enumerate(RESETS):
            if tier == "thorough" or (second in (("s", 2), ("e", 1)) and ((i + first + k) % 3 == 0)):
                yield [CALLS[first], r, second]


def run(job, st):
    cfg, dev, first, tier, k = job
    small = k < 2
    cfg = {**cfg, "lens": [tuple(x) for x in cfg["lens"]], "trunc": [tuple(x) for x in cfg["trunc"]]}
    if cfg.get("wrap"):
        cfg["wrap"] = VectorEnvWrapper
    for seq in sequences(first, tier, k, small):
        if cfg.get("state") == "obj" and any(o[0] in "se" and len(o) > 2 and o[2] for o in seq):
            continue
        seq = [tuple(o) for o in seq]
        big = sum(o[1] for o in seq if o[0] in "se")
        if dev is not None:
            d = dev
        elif tier == "thorough":
            d = None if big <= 3 else 3 if big <= 4 else 2
        else:
            d = (None if big <= 3 else 2) if small and len(seq) == 2 else 1

        def one(ch):
            st.ctx = {"config": str(cfg), "calls": seq, "schedule": ch.log}
            w = AWorld(ch, st=st, **cfg)
            w.op(("R",))
            for o in seq:
                w.op(o)
            st.trace()
            st.state((str(cfg), seq, tuple(tuple(len(x) for x in w.expected)), tuple(len(e.hist) for e in w.envs), tuple(w.inflight(i) for i in range(w.E))))

        for _ in explore(one, deviations=d):
            pass
