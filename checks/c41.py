"""C41: launching several experiments runs each once and apart; finished runs are read back and evaluated as logged."""
import contextlib
import io
import itertools
import os
import shutil
import tempfile

os.environ["MPLBACKEND"] = "Agg"
import numpy as np
from torch.utils.tensorboard import SummaryWriter

from checks import c37
from tianshou.evaluation.launcher import JoblibConfig, JoblibExpLauncher, RegisteredExpLauncher, SequentialExpLauncher
from tianshou.highlevel.experiment import ExperimentCollection
from tianshou.highlevel.logger import LoggerFactoryDefault
from tianshou.utils import TensorboardLogger
from tianshou.utils.logger.base import DataScope

PROPERTY = "C41"
LEVEL = "model_checking"
TECHNIQUE = "enumeration of all outcome assignments of the launched experiments and of all orders/subsets of real experiments launched together, each result compared with the experiment run alone; exhaustive enumeration of run directories (all tuples of recorded runs x directory layouts x step limits) loaded and evaluated by the real code against what the loggers were given"
NOTE = "The interval estimates and drawing are the plotting library's; only what they are given (and whether plots are shown or saved) is judged."
ASSUMPTIONS = ["runs of one directory evaluate at the same environment steps as far as they go", "an evaluation exactly at the step limit may or may not be counted", "order of rows in a loaded result is free"]
RUNS = {    # name -> (builder, kind, epochs, logs training data)
    "dqn3": ("dqn", "d", 3, True), "dqn2": ("dqn", "d", 2, True), "sac3": ("sac", "c", 3, True), "ppo2": ("ppo", "c", 2, True), "pg1": ("pg", "c", 1, True), "quiet2": ("dqn", "d", 2, False),
}
EXPS = [("dqn", "d"), ("sac", "c"), ("ppo", "c"), ("td3", "c")]


def BOUNDS(tier):
    q = tier == "quick"
    return (f"all assignments of 6 outcomes to 0-{4 if q else 5} experiments, launched sequentially, and of 3 outcomes to {2 if q else 3} experiments in parallel processes; all ordered selections of {2 if q else 3} real experiments of {len(EXPS)} algorithms, one of them failing at every possible position; "
            f"all multisets of 1-{2 if q else 3} of {len(RUNS)} recorded runs x 4 directory layouts x 8 step limits; both scopes x showing x saving of plots")


def jobs(tier):
    q = tier == "quick"
    js = [["outcomes", n, first] for n in range(5 if q else 6) for first in (range(6) if n == 4 else ["any"] if n < 5 else range(6))]
    js += [["parallel", 2 if q else 3], ["real", 2 if q else 3, "all"]] if q else [["parallel", 3]] + [["real", 3, i] for i in range(len(EXPS))]
    js += [["load", n, lay] for n in range(1, 3 if q else 4) for lay in LAYOUTS] + [["bad"], ["eval"]]
    return js


# ------------------------------------------------------------------------------------------------ launching
class Odd:
    """A result that is neither a statistic nor None."""

    def __init__(self, i):
        self.i = i

    def __eq__(self, other):
        return isinstance(other, Odd) and self.i == other.i

    __hash__ = None


class Interrupt(BaseException):
    pass


def result_of(kind, i):
    return {"ok": ("result", i), "none": None, "odd": Odd(i), "text": f"result {i}"}[kind]


class Runner:
    """The experiments' given outcomes; counts how often each was started."""

    def __init__(self, kinds):
        self.kinds, self.calls = kinds, []

    def __call__(self, exp):
        self.calls.append(exp)
        k = self.kinds[exp[1]]
        if k == "raise":
            raise ValueError("outcome")
        if k == "exit":
            raise SystemExit(1)
        return result_of(k, exp[1])


def judge(st, launcher, runner, kinds):
    exps = [("exp", i) for i in range(len(kinds))]
    ok = [result_of(k, i) for i, k in enumerate(kinds) if k not in ("raise", "exit")]
    try:
        got = launcher.launch(exps)
    except BaseException as e:  # noqa: BLE001
        got = e
    if ok:
        st.check(isinstance(got, list) and len(got) == len(ok) and all(type(a) is type(b) and a == b for a, b in zip(got, ok)), "results", lambda: f"launch returned {got!r}, the successful experiments' results in order are {ok}")
    else:
        st.check(isinstance(got, BaseException), "all-failed", lambda: f"no experiment succeeded, but launch returned {got!r}")
        if len(kinds) > 1:
            st.check(isinstance(got, RuntimeError), "all-failed", lambda: f"all of several experiments failed: {got!r} instead of a RuntimeError")
    if runner is not None:
        st.check(sorted(runner.calls) == exps and (runner.calls == exps or not isinstance(launcher, SequentialExpLauncher)), "runs", lambda: f"experiments run: {runner.calls}, launched: {exps}")
    st.step()


def outcomes(n, first, st):
    for kinds in itertools.product(("ok", "raise", "none", "odd", "text", "exit"), repeat=n):
        if first != "any" and kinds[0] != ("ok", "raise", "none", "odd", "text", "exit")[first]:
            continue
        r = Runner(kinds)
        st.ctx = {"launcher": "sequential", "outcomes": kinds}
        judge(st, SequentialExpLauncher(experiment_runner=r), r, kinds)
        st.state(kinds)
        st.trace(st.ctx)


def parallel(n, st):
    """In worker processes the calls leave a file each."""
    d = tempfile.mkdtemp(prefix="c41-")
    try:
        for k, kinds in enumerate(itertools.product(("ok", "raise", "none"), repeat=n)):
            st.ctx = {"launcher": "joblib", "outcomes": kinds}
            sub = os.path.join(d, str(k))
            os.mkdir(sub)
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                judge(st, JoblibExpLauncher(JoblibConfig(n_jobs=2, verbose=0), experiment_runner=filer(sub, kinds)), None, kinds)
            runs = sorted(f.split("-")[0] for f in os.listdir(sub))
            st.check(runs == sorted(str(i) for i in range(n)), "runs", lambda: f"experiments run: {runs} of {n}")
            st.state(("joblib", kinds))
            st.trace(st.ctx)
        for e in RegisteredExpLauncher:
            st.check(type(e.create_launcher()) is {"joblib": JoblibExpLauncher, "sequential": SequentialExpLauncher}[e.value], "registered", f"{e}")
    finally:
        from joblib.externals.loky import get_reusable_executor
        get_reusable_executor().shutdown(wait=True)
        shutil.rmtree(d, ignore_errors=True)


def filer(d, kinds):
    def run(exp):       # sent to the workers by value
        import os
        import uuid
        open(os.path.join(d, f"{exp[1]}-{uuid.uuid4()}"), "w").close()
        if kinds[exp[1]] == "raise":
            raise ValueError("outcome")
        return ("result", exp[1]) if kinds[exp[1]] == "ok" else None
    return run


class SeededFactory(c37.Factory):
    def __init__(self, cont, fail_at=None):
        super().__init__(cont)
        self.fail_at = fail_at

    def create_env(self, mode):
        e = super().create_env(mode)
        e.np_random = np.random.default_rng(1)
        e.action_space.seed(1)
        if self.fail_at is not None:
            real, left = e.step, [self.fail_at]

            def step(a):
                left[0] -= 1
                if left[0] < 0:
                    raise RuntimeError("the environment failed")
                return real(a)
            e.step = step
        return e


def experiment(which, fail_at=None):
    name, kind = EXPS[which]
    return c37.builder(name, kind, sc=c37.small(num_epochs=1 + which, start_timesteps=4), cfg=c37.config(seed=which + 3), factory=SeededFactory(kind == "c", fail_at)).build()


def digest(r):
    return None if r is None else (r.gradient_step, r.train_step, r.train_episode, r.test_step, r.test_episode, float(r.best_reward), float(r.best_reward_std))


def weights(world):
    return {k: v.numpy().tobytes() for k, v in world.policy.state_dict().items() if hasattr(v, "numpy")}


def real(n, first, st):
    """Each experiment's result and trained policy are what they are when it runs alone."""
    alone = []
    for i in range(len(EXPS)):
        r = experiment(i).run()
        alone.append((digest(r.trainer_result), weights(r.world)))
    for order in itertools.permutations(range(len(EXPS)), n):
        if first != "all" and order[0] != first:
            continue
        for bad in (None, *range(n)):
            seen = {}

            def runner(exp):
                r = exp.run()
                seen[id(exp)] = weights(r.world)
                return r.trainer_result
            exps = [experiment(k, fail_at=2 if j == bad else None) for j, k in enumerate(order)]
            st.ctx = {"launched together": [EXPS[k][0] for k in order], "failing": bad}
            with contextlib.redirect_stderr(io.StringIO()):
                got = ExperimentCollection(exps).run(SequentialExpLauncher(experiment_runner=runner))
            want = [alone[k][0] for j, k in enumerate(order) if j != bad]
            st.check([digest(r) for r in got] == want, "launched-results", lambda: f"results {[digest(r) for r in got]}; alone {want}")
            for j, k in enumerate(order):
                if j != bad:
                    st.check(seen.get(id(exps[j])) == alone[k][1], "launched-weights", lambda: f"experiment {j} trained other weights than when it runs alone")
            st.step(n)
            st.state((order, bad))
            st.trace(st.ctx)


# ------------------------------------------------------------------------------------------------ loading
class RunLogger(TensorboardLogger):
    def log_train_data(self, log_data, step):
        super().log_train_data(log_data, step)
        if self.train_interval == 1:
            self.given["train"].append((step, float(log_data["returns_stat"]["mean"])))

    def log_test_data(self, log_data, step):
        super().log_test_data(log_data, step)
        self.given["test"].append((step, float(log_data["returns_stat"]["mean"])))


class RunLoggerFactory(LoggerFactoryDefault):
    def __init__(self, train):
        super().__init__()
        self.train, self.given = train, {"train": [], "test": []}

    def create_logger(self, log_dir, *a, **k):
        lg = RunLogger(SummaryWriter(log_dir), train_interval=1 if self.train else 10**6, update_interval=1)
        lg.given = GIVEN[log_dir] = {"train": [], "test": []}
        return lg


GIVEN = {}


class BonusEnv(c37.Env):
    """Rewards differ between runs and episodes."""
    BONUS = 0.0

    def step(self, a):
        o, r, *rest = super().step(a)
        return o, r + self.bonus + self.episodes * 0.25, *rest


class BonusFactory(c37.Factory):
    def __init__(self, cont, bonus):
        super().__init__(cont)
        self.bonus = bonus

    def create_env(self, mode):
        e = BonusEnv(mode, self.cont)
        e.bonus = self.bonus
        return e


def record(root, names):
    """Run the experiments for real; returns name -> what its logger was given."""
    out = {}
    for i, name in enumerate(names):
        algo, kind, epochs, train = RUNS[name]
        b = c37.builder(algo, kind, sc=c37.small(num_epochs=epochs, step_per_epoch=8), cfg=c37.config(persistence_enabled=True, persistence_base_dir=root), factory=BonusFactory(kind == "c", 0.5 * i)).with_logger_factory(RunLoggerFactory(train))
        b.with_name(name).build().run()
        out[name] = GIVEN[os.path.join(root, name)]
    return out


LAYOUTS = ("plain", "low-level", "nested", "clutter")
LIMITS = (None, 1, 4, 5, 9, 12, 20, 1000)


def arrange(root, pick, layout, d):
    """Copies of the recorded runs as one directory of runs."""
    for j, name in enumerate(pick):
        dst = os.path.join(d, f"run{j}")
        if layout == "nested":      # low-level runs below one further directory
            dst = os.path.join(dst, "inner")
        shutil.copytree(os.path.join(root, name), dst)
        if layout in ("low-level", "nested"):
            os.remove(os.path.join(dst, "experiment.pkl"))
    if layout == "clutter":
        shutil.copytree(os.path.join(root, "dqn3"), os.path.join(d, ".hidden"))
        open(os.path.join(d, "notes.txt"), "w").close()


def expected(runs, limit):
    """Steps and rows, cut to the shortest run and the limit; an entry at the limit itself is optional."""
    runs = [r for r in runs if r]
    if not runs:
        return [([], [])]
    n = min(map(len, runs))
    out = []
    for incl in (False, True):
        k = n if limit is None else sum(s < limit or incl and s == limit for s, _ in runs[0][:n])
        out.append(([s for s, _ in runs[0][:k]], sorted([v for _, v in r[:k]] for r in runs)))
    return out


def load(n, layout, st):
    from tianshou.evaluation.rliable_evaluation_hl import RLiableExperimentResult
    root = tempfile.mkdtemp(prefix="c41-")
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            given = record(root, RUNS)
        for k, pick in enumerate(itertools.combinations_with_replacement(RUNS, n)):
            d = os.path.join(root, f"set{k}")
            os.mkdir(d)
            arrange(root, pick, layout, d)
            for limit in LIMITS:
                st.ctx = {"runs": pick, "layout": layout, "max_env_step": limit}
                r = RLiableExperimentResult.load_from_disk(d, max_env_step=limit)
                for what, steps, rows in (("test", r.env_steps_E, r.test_episode_returns_RE), ("train", r.env_steps_train_E, r.train_episode_returns_RE)):
                    got = ([int(s) for s in np.atleast_1d(steps)], sorted([float(v) for v in row] for row in rows))
                    want = expected([given[p][what] for p in pick], limit)
                    st.check(any(got[0] == w[0] and np.shape(got[1]) == np.shape(w[1]) and np.allclose(got[1], w[1], rtol=1e-5) for w in want), f"loaded-{what}", lambda: f"loaded {got}, logged {want}")
                st.step()
                st.state((pick, layout, limit))
            st.trace(st.ctx)
            shutil.rmtree(d)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def bad(st):
    """A directory without any run, or without a unique one, is refused rather than evaluated."""
    from tianshou.evaluation.rliable_evaluation_hl import RLiableExperimentResult
    root = tempfile.mkdtemp(prefix="c41-")
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            record(root, ["dqn2"])
        for what in ("empty", "empty run", "two inner runs", "hidden only"):
            d = os.path.join(root, what)
            os.makedirs(os.path.join(d, "run0") if what != "empty" else d)
            if what == "two inner runs":
                for j in range(2):
                    shutil.copytree(os.path.join(root, "dqn2"), os.path.join(d, "run0", str(j)))
            if what == "hidden only":
                os.rmdir(os.path.join(d, "run0"))
                shutil.copytree(os.path.join(root, "dqn2"), os.path.join(d, ".run0"))
            st.ctx = {"directory": what}
            try:
                r = RLiableExperimentResult.load_from_disk(d)
            except Exception:  # noqa: BLE001
                r = None
            st.check(r is None, "refused", lambda: f"loaded {r}")
            st.step()
            st.state(what)
            st.trace(st.ctx)
    finally:
        shutil.rmtree(root, ignore_errors=True)


# ------------------------------------------------------------------------------------------------ evaluating
def evaluate(st):
    import matplotlib.pyplot as plt
    import rliable.library as lib
    from tianshou.evaluation.rliable_evaluation_hl import RLiableExperimentResult, load_and_eval_experiments
    for f in (lib.get_interval_estimates, lib.create_performance_profile):      # fewer bootstrap repetitions; the estimates themselves do not change
        f.__defaults__ = tuple(20 if isinstance(v, int) and not isinstance(v, bool) and v >= 100 else v for v in f.__defaults__)
    root = tempfile.mkdtemp(prefix="c41-")
    shown = []
    plt.show = lambda *a, **k: shown.append(1)
    try:
        test = np.array([[0.0, 2.0, 8.0], [1.0, 5.0, 4.0], [2.0, 11.0, 0.0], [9.0, 0.0, 6.0]])
        train = test[:, :2] * 3 + 1
        for scope, rows, steps in ((DataScope.TEST, test, [0, 8, 16]), (DataScope.TRAIN, train, [4, 12])):
            for show, save in itertools.product((False, True), repeat=2):
                for n in (1, 2, 4):
                    d = tempfile.mkdtemp(dir=root)
                    r = RLiableExperimentResult(exp_dir=d, test_episode_returns_RE=test[:n], train_episode_returns_RE=train[:n], env_steps_E=np.array([0, 8, 16]), env_steps_train_E=np.array([4, 12]))
                    st.ctx = {"scope": str(scope), "show": show, "save": save, "runs": n}
                    shown.clear()
                    _, ax, _, axp = r.eval_results(show_plots=show, save_plots=save, scope=scope)
                    xy = ax.lines[0].get_xydata()
                    s = np.sort(rows[:n], axis=0)
                    k = n // 4
                    want = np.stack([steps, s[k:n - k].mean(0)], 1)
                    st.check(np.shape(xy) == want.shape and np.allclose(xy, want), "iqm", lambda: f"curve {xy.tolist()}, interquartile means of the returns are {want.tolist()}")
                    x, y = axp.lines[0].get_xdata(), axp.lines[0].get_ydata()
                    frac = [float(np.mean(rows[:n, -1] > t)) for t in x]
                    frac2 = [float(np.mean(rows[:n, -1] >= t)) for t in x]
                    st.check(all(min(a, b) - 1e-9 <= v <= max(a, b) + 1e-9 for v, a, b in zip(y, frac, frac2)), "profile", lambda: f"profile {list(zip(x, y))[:8]}, final returns {rows[:n, -1].tolist()}")
                    st.check(bool(shown) == show and any(f.endswith(".png") for f in os.listdir(d)) == save, "plots", lambda: f"plots shown: {len(shown)}, files {os.listdir(d)}")
                    plt.close("all")
                    st.step()
                    st.state((str(scope), show, save, n))
                    st.trace(st.ctx)
        with contextlib.redirect_stderr(io.StringIO()):
            given = record(os.path.join(root), ["dqn2", "dqn3"])
        for scope, show, save in itertools.product((DataScope.TEST, DataScope.TRAIN, "both"), (False, True), (False, True)):
            d = tempfile.mkdtemp(dir=root)
            arrange(root, ["dqn2", "dqn3"], "plain", d)
            st.ctx = {"load and evaluate": str(scope), "show": show, "save": save}
            shown.clear()
            r = load_and_eval_experiments(d, show_plots=show, save_plots=save, scope=scope)
            plt.close("all")
            pngs = [f for f in os.listdir(d) if f.endswith(".png")]
            st.check(bool(shown) == show and bool(pngs) == save, "plots", lambda: f"plots shown: {len(shown)}, saved {pngs}")
            want = expected([given["dqn2"]["test"], given["dqn3"]["test"]], None)[0][1]
            st.check(np.allclose(sorted(map(list, r.test_episode_returns_RE)), want), "loaded-test", lambda: f"{r.test_episode_returns_RE}, logged {want}")
            st.step()
            st.state((str(scope), show, save))
            st.trace(st.ctx)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run(job, st):
    {"outcomes": outcomes, "parallel": parallel, "real": real, "load": load, "bad": lambda s: bad(s), "eval": lambda s: evaluate(s)}[job[0]](*job[1:], st)
