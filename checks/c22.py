"""C22: the schedule of epochs, collections, updates and evaluations of the three trainers."""
import itertools

from mc.train import TWorld, drive

PROPERTY = "C22"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of small trainer configurations; the real trainers run on real collectors and buffers with scripted environments and a recording policy, and the recorded sequence of all call-outs is compared event by event with a reference model"
NOTE = "For on-policy training the gradient counter counts the mini-batches of one pass (as the code documents), independent of how often the pass is repeated."
ASSUMPTIONS = ["what a collection returns is judged by C18-C20", "the policy's learn() is a stub: what the algorithms do inside an update is C28"]


def BOUNDS(tier):
    q = tier == "quick"
    return (f"off-policy, on-policy and offline trainers; 1-{2 if q else 3} training environments with episode lengths 1-3, epochs 0-{3 if q else 4}, steps per epoch 1-{5 if q else 7}, portions of 1-{3 if q else 4} steps or 1-3 episodes, "
            "update ratios 0.25-3, batch sizes None/1/2/4, repeats 1-2, evaluation with 1-3 episodes on 1-2 environments or none, run() and iteration, a second run of the same trainer, vector rewards with a metric")


def configs(tier):
    q = tier == "quick"
    out = []
    L = [[(2,), (1, 3)], [(1,), (1,)], [(3,), (2, 1)]]
    eps = (0, 1, 2, 3) if q else (0, 1, 2, 3, 4)
    sizes = (1, 2, 3, 5) if q else (1, 2, 3, 4, 5, 7)
    for E, ep, spe, (c, n) in itertools.product((1, 2) if q else (1, 2, 3), eps, sizes, [("step_per_collect", 1), ("step_per_collect", 2), ("step_per_collect", 3), ("episode_per_collect", 1), ("episode_per_collect", 2), ("episode_per_collect", 3)]):
        if ep in (0, 3) and spe > 2 and q:
            continue
        k = ep + spe + n + E
        base = dict(E=E, lens=L[k % 3] + [(2, 2)], T=1 + k % 2, n_test=1 + k % 3, test=k % 5 != 0, checkpoint=k % 3 != 0)
        for bs in (None, 1, 2, 4):
            rep = 1 + (k + (bs or 0)) % 2
            out.append(dict(kind="on", **base, p=dict(max_epoch=ep, step_per_epoch=spe, **{c: n}, batch_size=bs, repeat_per_collect=rep)))
        for ups in (0.25, 0.5, 1, 1.5, 3):
            out.append(dict(kind="off", **base, p=dict(max_epoch=ep, step_per_epoch=spe, **{c: n}, batch_size=[None, 1, 2, 4][(k + int(4 * ups)) % 4], update_per_step=ups)))
    for ep, spe, bs, data, n_test, test in itertools.product(eps, sizes, (None, 1, 4), (1, 5), (1, 2), (True, False)):
        out.append(dict(kind="offline", data=data, n_test=n_test, T=n_test, test=test, p=dict(max_epoch=ep, step_per_epoch=spe, batch_size=bs)))
    return out


def jobs(tier):
    cs = configs(tier)
    n = 96
    return [[tier, k, n] for k in range(n)]


def run(job, st):
    tier, k, n = job
    cs = configs(tier)
    for j in range(k, len(cs), n):
        cfg = cs[j]
        variants = [("iter", {}), ("run", {})]
        if j % 3 == 0:
            variants.append(("iter", dict(again=True)))
        if j % 4 == 0 and cfg.get("test", True):
            variants.append(("run", dict(metric=True)))
        for how, extra in variants:
            extra = dict(extra)
            again = extra.pop("again", False)
            c = {**cfg, **extra}
            st.ctx = {"config": c, "how": how, "again": again}
            w = TWorld(c, st)
            try:
                m = drive(w, st, how, again)
            except ValueError as e:
                if "n_gradient_steps is 0" not in str(e):
                    raise
                last = w.train_c.results[-1][0]
                st.check(round(cfg["p"].get("update_per_step", 1.0) * last) == 0, "refused", f"refused although {last} steps were collected")
                st.outcome("refused")
                continue
            if cfg["kind"] == "off":
                st.check(all(round(cfg["p"].get("update_per_step", 1.0) * r[0]) > 0 for r in w.train_c.results), "not-refused", "no update after a portion")
            st.trace(st.ctx)
            st.state((repr(c), how, again))
            st.outcome((len(m.out), m.gs, m.train_step, m.test_step))
