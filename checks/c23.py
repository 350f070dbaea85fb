"""C23: best results, early stopping, best-policy callback, resuming: every sequence of evaluation outcomes."""
import itertools
import os
import shutil
import tempfile

from mc.explore import explore
from mc.train import Model, TWorld, compare, drive

PROPERTY = "C23"
LEVEL = "model_checking"
TECHNIQUE = "choice-point exploration of the real trainers: every evaluation outcome and every training return is chosen from a small ordered alphabet and all sequences are enumerated; best values, callbacks, stopping and resumption are compared with a reference model at every event"
NOTE = "The stop function is a threshold. After an evaluation it is applied to the best evaluated reward (which is the current one unless a custom score or the initial evaluation differs), as the trainer documents."
ASSUMPTIONS = ["threshold stop functions (others need not be monotone and the trainer does not define what happens then)"]


def BOUNDS(tier):
    q = tier == "quick"
    return (f"all sequences of up to {4 if q else 5} evaluation outcomes over 4 values and of training returns over 2 values; 3 trainers, 1-{2 if q else 3} epochs with in-training evaluation, {3 if q else 4} without; stop threshold reachable/unreachable/absent; "
            "vector rewards with metric, custom score, two evaluation environments; every interruption epoch x resume point, also through the real TensorBoard logger")


def configs(tier):
    q = tier == "quick"
    out = []
    A = [-1.0, 0.5, 2.0, 3.0]
    n = 3 if q else 4
    for kind, extra in (("off", dict(step_per_collect=2)), ("on", dict(step_per_collect=2, batch_size=2)), ("offline", dict(batch_size=2))):
        p = dict(batch_size=1, **{k: v for k, v in extra.items() if k != "batch_size"})
        p.update(extra)
        for stop in (None, 2.0, 99.0):
            for more in (dict(), dict(metric=True), dict(score=True), dict(T=2, n_test=2), dict(save_best=False), dict(test=False)):
                if more.get("test") is False and stop is not None:
                    continue
                out.append(dict(kind=kind, lens=[(2,)], test_alpha=A if not more or stop == 2.0 else A[:3], stop=stop, p=dict(max_epoch=n if not more else 2, step_per_epoch=2, **p), **more))
                if kind != "offline" and stop is not None:
                    out.append(dict(kind=kind, lens=[(2,)], test_alpha=A[1:], train_alpha=[0.0, 2.0], test_in_train=True, stop=stop, p=dict(max_epoch=2, step_per_epoch=2 if more or q else 3, **p), **more))
    out.append(dict(kind="off", lens=[(1,)], test_alpha=A[1:3], train_alpha=[0.0, 2.0], test_in_train=True, stop=2.0, p=dict(max_epoch=2 if q else 3, step_per_epoch=2, batch_size=1, step_per_collect=1)))
    out.append(dict(kind="off", lens=[(1,), (2,)], E=2, test_alpha=A[1:3], train_alpha=[0.0, 3.0], test_in_train=True, stop=1.5, p=dict(max_epoch=2, step_per_epoch=3, batch_size=1, step_per_collect=2)))
    # resuming: restored counters (epoch, env_step, gradient_step) before, at and after the end
    for kind, p in (("off", dict(step_per_collect=2, batch_size=1)), ("on", dict(step_per_collect=2, batch_size=2)), ("offline", dict(batch_size=2))):
        for saved in ((0, 0, 0), (1, 10, 7), (2, 4, 4), (3, 50, 20), (4, 8, 8)):
            for stop in (None, 2.0):
                out.append(dict(kind=kind, lens=[(2,)], test_alpha=[0.5, 2.0], stop=stop, resume=True, saved=list(saved), p=dict(max_epoch=3, step_per_epoch=2, **p)))
    return out


def jobs(tier):
    js = [[tier, c] for c in configs(tier)]
    for kind in ("off", "on", "offline"):
        js.append([tier, dict(tb=kind)])
    return js


def run(job, st):
    tier, cfg = job
    if "tb" in cfg:
        return tensorboard(cfg["tb"], tier, st)
    for how in ("iter", "run"):
        def one(ch):
            w = TWorld(cfg, st, ch)
            st.ctx = {"config": cfg, "how": how, "evaluations": w.outcomes, "training returns": w.train_outcomes}
            m = drive(w, st, how)
            st.trace()
            st.state((repr(cfg), how, tuple(w.outcomes), tuple(w.train_outcomes)))
            st.outcome((m.best, m.stopped, m.epoch))
        for _ in explore(one):
            pass


def tensorboard(kind, tier, st):
    """Interrupt after each epoch, restart with a fresh trainer on the same log: epochs and steps continue."""
    from torch.utils.tensorboard import SummaryWriter

    from tianshou.utils import TensorboardLogger
    p = {"off": dict(step_per_collect=2, batch_size=1), "on": dict(step_per_collect=2, batch_size=2), "offline": dict(batch_size=2)}[kind]
    n = 3
    for cuts in [c for r in (1, 2) for c in itertools.combinations(range(0, n + 1), r)] if tier == "thorough" else [(0,), (1,), (2,), (3,), (1, 2)]:
        d = tempfile.mkdtemp(prefix="c23_")
        try:
            cfg = dict(kind=kind, lens=[(2,)], p=dict(max_epoch=n, step_per_epoch=2, **p))
            st.ctx = {"kind": kind, "interrupted after epochs": cuts}
            saves, last = [], (0, 0, 0)
            for part, cut in enumerate([*cuts, None]):
                w = TWorld(cfg, st)
                lg = TensorboardLogger(SummaryWriter(d), train_interval=1, test_interval=1, update_interval=1, info_interval=1)
                w.trainer.logger = lg
                w.trainer.resume_from_log = part > 0
                got = []
                w.trainer.save_checkpoint_fn = lambda e, s, g: got.append((e, s, g)) or ""
                it = iter(w.trainer)
                st.check((w.trainer.start_epoch, w.trainer.env_step) == last[:2], "resumed", lambda: f"resumed at {(w.trainer.start_epoch, w.trainer.env_step)}, saved {last}")
                while cut is None or w.trainer.epoch < cut:
                    try:
                        next(it)
                    except StopIteration:
                        break
                lg.writer.close()
                saves += got
                if got:
                    last = got[-1]
                st.step(len(got))
            k = {"off": 2, "on": 1, "offline": 2}[kind]
            want = [(e, 2 * e if kind != "offline" else 2 * 2 * e, k * e) for e in range(1, n + 1)]
            st.check(saves == want, "resume-counters", lambda: f"checkpoints (epoch, env_step, gradient_step) {saves}, expected {want}")
            st.trace(st.ctx)
            st.state((kind, cuts))
        finally:
            shutil.rmtree(d)
