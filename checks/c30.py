"""C30: loggers write at the configured intervals and restore what they saved."""
import importlib
import itertools
import os
import shutil
import sys
import tempfile
import types

import numpy as np
from torch.utils.tensorboard import SummaryWriter

from mc import pols
from tianshou.utils import LazyLogger, TensorboardLogger

PROPERTY = "C30"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all histories of log/save calls with step increments on the real loggers against an interval model (last written step per kind), restoration through real event files after every save history and with every interruption point"
NOTE = "The interval histories run on the real logger with a recording writer; save/restore histories use real event files in a scratch directory, read back by a second logger that then continues the same history. The Weights & Biases logger runs against a stand-in of the wandb package (absent here) that stores artifacts in memory."
ASSUMPTIONS = ["steps of one kind do not decrease", "the first record of a kind is due when its step is at least the interval minus one (documented initial value -1)", "values restored from event files agree to float32"]
KINDS = ("train", "test", "update", "info")
STEP = {"train": "env_step", "test": "env_step", "update": "gradient_step", "info": "epoch"}


def BOUNDS(tier):
    q = tier == "quick"
    return (f"intervals: all histories of up to {4 if q else 6} log calls (beyond 3: of every pair of kinds) of 4 kinds and saves with increments 0-3 on two loggers; restore: all histories of up to {3 if q else 4} epochs with increments, save intervals 1-3, interrupted after each, for event files and artifacts, then continued; "
            "restored data: nested dictionaries of all value kinds, repeated keys over 1-4 steps, a log of 10050 records, and the records of real training runs (on/off-policy, offline)")


def jobs(tier):
    q = tier == "quick"
    js = [["intervals", which, a, b, 4 if q else 6] for which in ("tb", "wandb") for a in range(5) for b in range(4)]
    js += [["restore", which, si, 3 if q else 4, inc] for which in ("tb", "wandb") for si in (1, 2, 3) for inc in range(3)]
    js += [["data", k] for k in range(4)] + [["long"], ["lazy"], ["flatten"]]
    js += [["trained", k] for k in ("off", "on", "offline")]
    return js


class Recorder:
    """In place of a SummaryWriter: what was written."""

    def __init__(self):
        self.log, self.flushed, self.closed, self.log_dir = [], 0, 0, "none"

    def add_scalar(self, tag, value, global_step=None):
        self.log.append((tag, value, global_step))

    def add_histogram(self, tag, value, global_step=None, bins=None):
        self.log.append((tag, "histogram", global_step))

    def flush(self):
        self.flushed += 1

    def close(self):
        self.closed += 1


STORE: dict = {}


def wandb_module():
    """The real WandbLogger on a stand-in for the absent package."""
    m = types.ModuleType("wandb")

    class Artifact:
        def __init__(self, name, type=None, metadata=None):
            self.name, self.metadata, self.files = name, dict(metadata), []

        def add_file(self, p):
            with open(p) as f:
                self.files.append((p, f.read()))

        def download(self, d):
            for p, t in self.files:
                with open(os.path.join(d, os.path.basename(p)), "w") as f:
                    f.write(t)

    class Run:
        def __init__(self, rid):
            self.id, self.finished = rid, 0

        def _label(self, repo):
            pass

        def log_artifact(self, a):
            STORE.setdefault(a.name, []).append(a)

        def use_artifact(self, name):
            return STORE[name.removesuffix(":latest")][-1]

        def finish(self):
            self.finished += 1
    m.Artifact, m.run, m.Settings = Artifact, None, lambda **k: None
    m.init = lambda id=None, **k: Run(id or "r")
    sys.modules["wandb"] = m
    import tianshou.utils.logger.wandb as w
    w = importlib.reload(w) if getattr(w, "wandb", None) is not m else w
    return w


def make(which, writer, **kw):
    if which == "tb":
        return TensorboardLogger(writer, **kw)
    lg = wandb_module().WandbLogger(run_id="run", **kw)
    lg.load(writer)
    return lg


class Model:
    def __init__(self, iv):
        self.iv = iv
        self.last = dict.fromkeys(iv, -1)

    def due(self, kind, step):
        if step - self.last[kind] >= self.iv[kind]:
            self.last[kind] = step
            return True
        return False


def intervals(which, a, b, depth, st):
    for k, iv in enumerate(({"train": 2, "test": 1, "update": 3, "info": 1, "save": 2}, {"train": 3, "test": 2, "update": 1, "info": 2, "save": 1}, {"train": 1, "test": 5, "update": 2, "info": 3, "save": 3})):
        ops = list(itertools.product((*KINDS, "save"), (0, 1, 2, 3)))
        first = [((*KINDS, "save")[a], b)]
        # longer histories concentrate on a pair of kinds (they must be independent); all kinds mix at depth 3
        pools = [(ops, 3)] + [([o for o in ops if o[0] in pair], depth) for pair in itertools.combinations((*KINDS, "save"), 2) if first[0][0] in pair and (k or sorted(pair) == ["test", "train"])]
        for pool, d in pools:
            if d > 3:
                pool = [o for o in pool if o[1] in (0, 1, 2)] if d > 4 else pool
            if d > 3 and b == 3:
                continue
            for seq in itertools.product(pool, repeat=d - 1):
                if d > 3 and len({o[0] for o in seq} | {first[0][0]}) < 2:
                    continue
                rec = Recorder()
                lg = make(which, rec, train_interval=iv["train"], test_interval=iv["test"], update_interval=iv["update"], info_interval=iv["info"], save_interval=iv["save"])
                mod = Model(iv)
                now = dict.fromkeys(iv, 0)
                saved = []
                tmp = None
                for j, (kind, inc) in enumerate(first + list(seq)):
                    now[kind] += inc
                    s, n0 = now[kind], len(rec.log)
                    st.ctx = {"logger": which, "intervals": iv, "history": first + list(seq[:j])}
                    if kind == "save":
                        m0 = len(saved)
                        lg.save_data(s, s * 10, s * 7, lambda e, en, g: saved.append((e, en, g)) or __file__)
                        due = mod.due("save", s)
                        st.check(saved[m0:] == ([(s, s * 10, s * 7)] if due else []), "checkpoint", lambda: f"checkpoints {saved[m0:]} at epoch {s}, interval {iv['save']}, due {due}")
                        if which == "tb":
                            tags = {t: (v, g) for t, v, g in rec.log[n0:]}
                            st.check((tags.get("save/epoch"), tags.get("save/env_step"), tags.get("save/gradient_step")) == (((s, s), (s * 10, s * 10), (s * 7, s * 7)) if due else (None,) * 3), "progress", lambda: f"progress {tags} written for epoch {s}")
                    else:
                        getattr(lg, f"log_{kind}_data")({"x": j, "n": {"y": 0.5 * j}}, s)
                        due = mod.due(kind, s)
                        want = [(f"{kind}/{STEP[kind]}", s, s), (f"{kind}/x", j, s), (f"{kind}/n/y", 0.5 * j, s)] if due else []
                        st.check(rec.log[n0:] == want, f"interval:{kind}", lambda: f"{kind} data at step {s} (interval {iv[kind]}, last {mod.last}): written {rec.log[n0:]}, expected {want}")
                    st.step()
                    st.state((which, k, tuple(s - mod.last[x] for x, s in now.items())))
                lg.finalize()
                st.check(rec.closed == 1, "finalize", f"writer closed {rec.closed} times")
                st.trace(st.ctx)


def restore(which, si, n, inc0, st):
    incs = [(1, 3, 2), (2, 5, 0), (1, 0, 4)]
    for ln in range(0, n + 1):
        for seq in itertools.product(range(3), repeat=ln):
            if ln and seq[0] != inc0 or not ln and inc0:
                continue
            for fn in (True, False):
                if not fn and ln > 2:
                    continue
                root = tempfile.mkdtemp(prefix="c30_")
                try:
                    STORE.clear()
                    iv = dict(train_interval=4, test_interval=5, update_interval=3, info_interval=2, save_interval=si)
                    w = SummaryWriter(root)
                    lg = make(which, w, **iv)
                    cp = os.path.join(root, "ck.pth")

                    def save(e, en, g):
                        saved.append((e, en, g))
                        with open(cp, "w") as f:
                            f.write(repr((e, en, g)))
                        return cp
                    saved = []
                    mod = Model({"save": si})
                    e = en = g = 0
                    for i in seq:
                        de, den, dg = incs[i]
                        e, en, g = e + de, en + den, g + dg
                        lg.log_train_data({"r": float(e)}, en)
                        lg.log_update_data({"l": float(g)}, g)
                        lg.save_data(e, en, g, save if fn else None)
                        if fn:
                            mod.due("save", e)
                        lg.log_test_data({"r": 1.0}, en)
                        lg.log_info_data({"r": 1.0}, e)
                        st.step()
                    st.ctx = {"logger": which, "save interval": si, "history": seq, "checkpoint function": fn}
                    w.close()
                    if which == "wandb" and not saved:
                        continue       # nothing to download: the package raises
                    w2 = SummaryWriter(root)
                    lg2 = make(which, w2, **iv)
                    if which == "wandb":
                        os.remove(cp)
                    got = lg2.restore_data()
                    want = saved[-1] if saved else (0, 0, 0)
                    st.check(tuple(int(x) for x in got) == want, "restored-progress", lambda: f"restored {got}, last saved {want}")
                    if saved and which == "wandb":
                        st.check(open(cp).read() == repr(want), "restored-checkpoint", "the downloaded checkpoint is not the last one saved")
                    # the intervals continue
                    rec = Recorder()
                    rec.log_dir = root
                    if which == "tb":
                        lg2.writer = rec
                    else:
                        lg2.tensorboard_logger.writer = rec
                    base = dict(zip(("info", "train", "update"), want, strict=True)) if saved else dict.fromkeys(("info", "train", "update"), -1)
                    base["test"] = base["train"]
                    for kind in KINDS:
                        ivl = iv[f"{kind}_interval"]
                        lo = max(base[kind], 0)
                        for s in range(lo, lo + ivl + 1):
                            n0 = len(rec.log)
                            getattr(lg2, f"log_{kind}_data")({"x": 1.0}, s)
                            due = s - base[kind] >= ivl
                            if due:
                                base[kind] = s
                            st.check((len(rec.log) > n0) == due, f"resumed-interval:{kind}", lambda: f"after restoring {want}: {kind} data at step {s} {'not ' if due else ''}written; last {base[kind]}, interval {ivl}")
                            st.step()
                    calls = []
                    last = want[0] if saved else -1
                    for e2 in range(max(last, 0), max(last, 0) + si + 1):
                        lg2.save_data(e2, e2, e2, lambda *x: calls.append(x) or cp)
                    exp = [x for x in range(max(last, 0), max(last, 0) + si + 1) if x - last >= si][:1]
                    if saved or which == "tb":
                        if not os.path.exists(cp):
                            pass
                        st.check([c[0] for c in calls][:1] == exp[:1], "resumed-interval:save", lambda: f"after restoring epoch {last}, interval {si}: checkpoints at {calls}, expected first at {exp}")
                    w2.close()
                    st.state((which, si, seq, fn))
                    st.trace(st.ctx)
                finally:
                    shutil.rmtree(root)


VALUES = {"int": 3, "float": 0.1, "neg": -7.5, "np32": np.float32(2.5), "np64": np.float64(1e-3), "npint": np.int64(12), "bool": True, "zero": 0, "big": 1e6}
DROPPED = {"str": "text", "none": None, "list": [1, 2], "arr": np.arange(3)}


def unnest(d, pre=""):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            out.update(unnest(v, pre + k + "/"))
        else:
            out[pre + k] = v
    return out


def data(variant, st):
    shapes = [lambda vs: vs, lambda vs: {"a": vs}, lambda vs: {"a": {"b": vs}, "c": dict(list(vs.items())[:2])}, lambda vs: {"top": 1.5, "x": vs, "y": {"x": vs}}]
    names = list(VALUES) + list(DROPPED)
    for r in (1, 2, 3):
        for pick in itertools.combinations(names, r):
            if r == 3 and (names.index(pick[0]) + names.index(pick[2])) % 4 != variant:
                continue
            vs = {k: {**VALUES, **DROPPED}[k] for k in pick}
            for steps in ((2,), (2, 5), (1, 2, 9)):
                if r > 1 and len(steps) == 3:
                    continue
                root = tempfile.mkdtemp(prefix="c30_")
                try:
                    lg = TensorboardLogger(SummaryWriter(root), train_interval=1, write_flush=variant != 1)
                    want = {}
                    for i, s in enumerate(steps):
                        rec = {k: (v * (i + 1) if k in VALUES and k != "bool" else v) for k, v in vs.items()}
                        d = shapes[variant](rec)
                        lg.log_train_data(d, s)
                        for k, v in unnest(d).items():
                            if k.split("/")[-1] not in DROPPED:
                                want.setdefault("train/" + k, []).append(float(v))
                        want.setdefault("train/env_step", []).append(float(s))
                    lg.finalize()
                    st.step()
                    st.ctx = {"values": pick, "steps": steps, "nesting": variant}
                    got = unnest(TensorboardLogger.restore_logged_data(root))
                    st.check(set(got) == set(want) and all(np.allclose(got[k], want[k], rtol=1e-6) and len(got[k]) == len(want[k]) for k in want), "restored-data", lambda: f"restored {got}, written {want}")
                    st.state((variant, pick, steps))
                    st.trace(st.ctx)
                finally:
                    shutil.rmtree(root)


def long(st):
    root = tempfile.mkdtemp(prefix="c30_")
    try:
        lg = TensorboardLogger(SummaryWriter(root), train_interval=1, write_flush=False)
        for i in range(10050):
            lg.log_train_data({"x": i}, i)
        lg.finalize()
        got = TensorboardLogger.restore_logged_data(root)["train"]["x"]
        st.ctx = {"records": 10050}
        st.step(10050)
        st.check(np.array_equal(got, np.arange(10050)), "restored-data", f"{len(got)} of 10050 records restored")
        st.trace(st.ctx)
        st.state("long")
    finally:
        shutil.rmtree(root)


def lazy(st):
    lg = LazyLogger()
    for seq in itertools.product(range(6), repeat=3):
        for o in seq:
            calls = []
            if o < 4:
                getattr(lg, f"log_{KINDS[o]}_data")({"x": 1}, 10000 * (o + 1))
            elif o == 4:
                lg.save_data(1, 2, 3, lambda *a: calls.append(a) or "")
            else:
                lg.finalize()
            st.step()
            st.check(not calls and lg.restore_data() == (0, 0, 0) and LazyLogger.restore_logged_data("nowhere") == {}, "lazy", "the logger that does nothing did something")
        st.state(seq)
        st.trace()


def flatten(st):
    lg = TensorboardLogger(Recorder())
    leaves = [1, 2.5, np.float32(3.0), "s", None, np.array([1.0]), {"u": 4}, {}]
    for a, b, c in itertools.product(leaves, repeat=3):
        for d in ({"p": a, "q": {"r": b, "s": {"t": c}}}, {"p/q": a, "r": {"s/t": b}, "u": c}):
            for ex in (True, False):
                for delim in ("/", "|", "."):
                    got = lg.prepare_dict_for_logging(d, "", delim, ex)
                    want = {}

                    def walk(x, pre):
                        for k, v in x.items():
                            if isinstance(v, dict):
                                walk(v, [*pre, k])
                            elif isinstance(v, (int, float, np.number)) or isinstance(v, np.ndarray) and not ex:
                                want[delim.join([*pre, k])] = v
                    walk(d, [])
                    st.ctx = {"data": d, "delimiter": delim, "exclude_arrays": ex}
                    st.check(list(got) == list(want) and all(got[k] is want[k] for k in want), "flatten", lambda: f"flattened to {got}, expected {want}")
                    st.step()
            st.state(repr(d))
        st.trace()


def trained(kind, st):
    """The records a real training run writes come back from its event files; checkpoints follow the epochs."""
    import gymnasium as gym
    from tianshou.data import Collector, ReplayBuffer, VectorReplayBuffer
    from tianshou.env import DummyVectorEnv
    from tianshou.trainer import OffpolicyTrainer, OfflineTrainer, OnpolicyTrainer

    class Env(gym.Env):
        observation_space = gym.spaces.Box(-9, 9, (3,))
        action_space = gym.spaces.Discrete(3)

        def reset(self, seed=None, options=None):
            self.t = 0
            return np.zeros(3, dtype=np.float32), {}

        def step(self, a):
            self.t += 1
            return np.full(3, self.t, dtype=np.float32), float(a), self.t >= 3, False, {}
    for si, ti, ui in itertools.product((1, 2), (1, 3), (1, 2)):
        root = tempfile.mkdtemp(prefix="c30_")
        try:
            rec = []

            class W(SummaryWriter):
                def add_scalar(self, tag, value, global_step=None, **k):
                    rec.append((tag, float(value), global_step))
                    return super().add_scalar(tag, value, global_step, **k)
            w = W(root)
            lg = TensorboardLogger(w, train_interval=ti, update_interval=ui, save_interval=si)
            pol = pols.build("pg" if kind == "on" else "dqn")
            test = Collector(pol, DummyVectorEnv([Env]))
            saves = []
            common = dict(policy=pol, max_epoch=3, step_per_epoch=4, episode_per_test=2, batch_size=4, logger=lg, save_checkpoint_fn=lambda *a: saves.append(a) or "", verbose=False, show_progress=False, test_collector=test)
            if kind == "offline":
                tr = OfflineTrainer(buffer=pols.fill(ReplayBuffer(8), "dqn", 6, dones=(2,)), **common)
            else:
                c = Collector(pol, DummyVectorEnv([Env, Env]), VectorReplayBuffer(20, 2))
                tr = OnpolicyTrainer(train_collector=c, repeat_per_collect=1, step_per_collect=4, **common) if kind == "on" else OffpolicyTrainer(train_collector=c, step_per_collect=2, update_per_step=0.5, **common)
            tr.run()
            lg.finalize()
            st.ctx = {"trainer": kind, "save_interval": si, "train_interval": ti, "update_interval": ui}
            want = {}
            for t, v, _ in rec:
                want.setdefault(t, []).append(v)
            got = unnest(TensorboardLogger.restore_logged_data(root))
            st.check(set(got) == set(want) and all(np.allclose(got[k], want[k], rtol=1e-5, equal_nan=True) for k in want), "restored-data", lambda: f"restored keys {sorted(set(got) ^ set(want))} differ, or values")
            st.check([s[0] for s in saves] == ([1, 2, 3] if si == 1 else [1, 3]), "checkpoint", f"checkpoints {saves}, interval {si}")
            w2 = SummaryWriter(root)
            back = TensorboardLogger(w2).restore_data()
            w2.close()
            st.check(tuple(back) == saves[-1], "restored-progress", f"restored {back}, saved {saves[-1]}")
            for scope, iv in (("train", ti), ("update", ui)):
                xs = [g for t, _, g in rec if t == f"{scope}/{STEP[scope]}"]
                st.check(bool(xs) == (scope == "update" or kind != "offline") and all(b - a >= iv for a, b in itertools.pairwise(xs)), f"interval:{scope}", f"{scope} records at {xs}, interval {iv}")
            st.step(len(rec))
            st.state((kind, si, ti, ui))
            st.trace(st.ctx)
        finally:
            shutil.rmtree(root)


def run(job, st):
    globals()[job[0]](*job[1:], st)
