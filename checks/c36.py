"""C36: learning-rate schedules, optimiser construction and exploration noise follow their rule."""
import copy
import itertools
import warnings

import gymnasium as gym
import numpy as np
import torch
from torch.optim import lr_scheduler as L

from mc import pols
from mc.explore import explore
from mc.rng import patched
from tianshou.data import Batch, ReplayBuffer
from tianshou.exploration import GaussianNoise, OUNoise
from tianshou.highlevel.config import SamplingConfig
from tianshou.highlevel.params.lr_scheduler import LRSchedulerFactoryLinear
from tianshou.highlevel.trainer import EpochTestCallbackDQNSetEps, EpochTrainCallbackDQNEpsLinearDecay, EpochTrainCallbackDQNSetEps, TrainingContext
from tianshou.utils import MultipleLRSchedulers
from tianshou.utils.optim import clone_optimizer, optim_step
from tianshou.utils.torch_utils import policy_within_training_step

PROPERTY = "C36"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of operation histories (update/failed update/step/save/load/reset/clone/noise draw) on the real policies, schedulers, optimisers and noise processes against individually driven torch objects or a closed-form recurrence; numpy's random answers enumerated from a grid"
NOTE = "Schedules: every policy class with a recording scheduler and with real torch schedulers; groups of schedulers against the same schedulers kept apart; noise against the recurrence with all draws enumerated."
ASSUMPTIONS = ["schedulers whose step() takes no argument", "clone of an optimiser whose settings were all given to its constructor", "sub-policies' own schedulers inside a manager or wrapper are not judged"]
warnings.simplefilter("ignore")


def BOUNDS(tier):
    q = tier == "quick"
    return (f"all sequences of {3 if q else 4} operations (update, update without buffer, failing update, update outside a training step) x every policy; all groups of 1-2 of 9 scheduler kinds x all sequences of {4 if q else 5} operations (step, save, load, load elsewhere); "
            f"all optimiser kinds x settings x gradient sequences; clipping grids; all noise operation sequences of length {3 if q else 4} x all draws from a {2 if q else 3}-point grid; epsilon schedules and the linear learning-rate rule on grids")


POLICIES = [*pols.ALL, "psrl", "ma"]


def jobs(tier):
    q = tier == "quick"
    js = [["updates", p, 3 if q else 4] for p in POLICIES]
    js += [["group", k, 4 if q else 5, a] for k in range(len(SCHEDS)) for a in ([None] if q else range(4))]
    js += [["clone", k] for k in range(len(OPTS))] + [["clip"], ["linear", 4 if q else 7], ["epsilon"], ["greedy", "dqn"], ["greedy", "bdq"]]
    return js + [["noise", d, k, g] for d, g in (((3, [-1.0, 1.5]),) if q else ((3, [0.0, -1.0, 1.5]), (4, [-1.0, 1.5]))) for k in range(len(NOISES))] + [["polnoise", p] for p in ("ddpg", "td3", "td3bc", "sac", "redq", "cql")]


# ---------------------------------------------------------------------- updates
class Rec:
    """Counts steps; stands in for a scheduler."""

    def __init__(self):
        self.n = 0

    def step(self):
        self.n += 1


class Bad(ReplayBuffer):
    def sample(self, n):
        raise KeyError("no data")


class LearnFails(Exception):
    pass


def make(name, sch):
    if name == "psrl":
        return pols.build("psrl", lr_scheduler=sch)
    if name == "icm":
        import tianshou.policy as P
        from tianshou.utils.net import discrete as D
        from tianshou.utils.net.common import MLP
        icm = D.IntrinsicCuriosityModule(MLP(3, 4, pols.H), 4, pols.NA, hidden_sizes=pols.H)
        return P.ICMPolicy(policy=pols.mk_dqn(), model=icm, optim=pols.adam(icm), lr_scale=1.0, reward_scale=0.01, forward_loss_weight=0.2, action_space=pols.disc(), lr_scheduler=sch)
    return pols.build(name, lr_scheduler=sch)


def ma(sch):
    from mc.games import Game
    from tianshou.env import PettingZooEnv
    from tianshou.policy import MARLRandomPolicy as RandomPolicy, MultiAgentPolicyManager
    env = PettingZooEnv(Game(2, (0, 1), [[1, 2]] * 3, 3))
    subs = [RandomPolicy(action_space=gym.spaces.Discrete(pols.NA)) for _ in range(2)]
    return MultiAgentPolicyManager(policies=subs, env=env, lr_scheduler=sch)


def buffer_for(name):
    b = ReplayBuffer(12)
    if name == "psrl":
        for k in range(9):
            b.add(Batch(obs=k % 3, act=k % 2, rew=float(k % 2), terminated=k in (3, 7), truncated=False, obs_next=(k + 1) % 3, info=Batch()))
        return b
    if name == "ma":
        for k in range(8):
            o = Batch(agent_id=f"p{k % 2}", obs=np.ones(3) * k, mask=np.ones(pols.NA, bool))
            b.add(Batch(obs=o, act=0, rew=np.array([1.0, 0.0]), terminated=k in (3, 7), truncated=False, obs_next=o, info=Batch()))
        return b
    return pols.fill(b, name, 9)


def updates(name, depth, st):
    base = name.split(":")[0]
    buf = buffer_for(name)
    kw = dict(batch_size=4, repeat=1) if base in pols.ONPOLICY or base == "psrl" else {}
    size = 0 if base in pols.ONPOLICY or base in ("psrl",) else 4
    ops = ("update", "nobuffer", "nodata", "outside", "learnfails")
    for seq in itertools.product(ops, repeat=depth):
        r = Rec()
        pol = ma(r) if name == "ma" else make(name, r)
        n = 0
        for op in seq:
            st.ctx = {"policy": name, "ops": seq, "at": op}
            if op == "outside":
                try:
                    pol.update(size, buf, **kw)
                    ok = False
                except RuntimeError:
                    ok = True
                st.check(ok, "outside", "update() outside a training step went ahead")
            else:
                with policy_within_training_step(pol):
                    if op == "update":
                        pol.update(size, buf, **kw)
                        n += 1
                    elif op == "nobuffer":
                        pol.update(size, None, **kw)
                    elif op == "nodata":
                        try:
                            pol.update(size, Bad(3), **kw)
                        except KeyError:
                            pass
                    else:
                        def fail(*a, **k):
                            raise LearnFails
                        pol.learn = fail
                        try:
                            pol.update(size, buf, **kw)
                        except LearnFails:
                            pass
                        del pol.learn
            st.step()
            st.check(r.n == n, f"schedule-steps:{base}", lambda: f"{r.n} schedule steps after {n} updates")
        st.state((name, seq))
        st.trace(st.ctx)


# ---------------------------------------------------------------------- groups of schedulers
SCHEDS = [lambda o: L.ConstantLR(o, factor=0.5, total_iters=2), lambda o: L.ExponentialLR(o, gamma=0.5), lambda o: L.StepLR(o, 2, 0.1), lambda o: L.MultiStepLR(o, [1, 3], 0.5),
          lambda o: L.LambdaLR(o, lambda k: 1.0 / (1 + k)), lambda o: L.CosineAnnealingLR(o, 3), lambda o: L.SequentialLR(o, [L.ConstantLR(o, 0.1, 2), L.ExponentialLR(o, 0.5)], [2]),
          lambda o: L.ChainedScheduler([L.ConstantLR(o, 0.1, 2), L.ExponentialLR(o, 0.9)]), lambda o: L.LinearLR(o, 0.5, total_iters=3)]


def _opt(lr):
    p = torch.nn.Parameter(torch.ones(1))
    p.grad = torch.zeros(1)
    o = torch.optim.SGD([p], lr=lr)
    return o


class Side:
    def __init__(self, kinds, group):
        self.o = [_opt(0.5 * (i + 1)) for i in range(len(kinds))]
        self.s = [SCHEDS[k](o) for k, o in zip(kinds, self.o, strict=True)]
        self.m = MultipleLRSchedulers(*self.s) if group else None

    def step(self):
        for o in self.o:
            o.step()
        if self.m:
            self.m.step()
        else:
            [s.step() for s in self.s]

    def save(self):
        sd = self.m.state_dict() if self.m else [s.state_dict() for s in self.s]
        return copy.deepcopy((sd, [o.state_dict() for o in self.o]))

    def load(self, x):
        sd, os_ = copy.deepcopy(x)
        if self.m:
            self.m.load_state_dict(sd)
        else:
            [s.load_state_dict(d) for s, d in zip(self.s, sd, strict=True)]
        [o.load_state_dict(d) for o, d in zip(self.o, os_, strict=True)]

    def lrs(self):
        return [o.param_groups[0]["lr"] for o in self.o] + [tuple(s.get_last_lr()) for s in self.s]


def group(k, depth, a, st):
    ops = ("step", "save", "load", "fresh")
    for kinds in [(k,)] + [(k, j) for j in range(len(SCHEDS))]:
        for seq in itertools.product(ops, repeat=depth):
            if a is not None and seq[0] != ops[a]:
                continue
            g, r = Side(kinds, True), Side(kinds, False)
            sg = sr = None
            for op in (*seq, "step", "step"):
                st.ctx = {"kinds": kinds, "ops": seq}
                if op == "step":
                    g.step()
                    r.step()
                elif op == "save":
                    sg, sr = g.save(), r.save()
                elif sg is not None:
                    if op == "fresh":
                        g, r = Side(kinds, True), Side(kinds, False)
                    g.load(sg)
                    r.load(sr)
                else:
                    break
                st.step()
                st.check(g.lrs() == r.lrs(), "group-of-schedulers", lambda: f"group {g.lrs()}, the same schedulers on their own {r.lrs()}")
            st.state((kinds, seq))
        st.trace(st.ctx)


# ---------------------------------------------------------------------- optimisers
O = torch.optim
OPTS = [(O.Adam, [{}, dict(lr=0.3), dict(lr=0.2, betas=(0.5, 0.7), eps=0.1, weight_decay=0.3), dict(lr=0.1, amsgrad=True, maximize=True)]),
        (O.SGD, [dict(lr=0.3), dict(lr=0.1, momentum=0.5), dict(lr=0.1, momentum=0.5, nesterov=True, weight_decay=0.2), dict(lr=0.1, momentum=0.9, dampening=0.5, maximize=True)]),
        (O.RMSprop, [{}, dict(lr=0.2, alpha=0.5, eps=0.1), dict(lr=0.2, centered=True, momentum=0.4, weight_decay=0.1)]),
        (O.Adadelta, [{}, dict(lr=0.4, rho=0.5, eps=0.1, weight_decay=0.2)]), (O.AdamW, [{}, dict(lr=0.1, betas=(0.3, 0.4), weight_decay=0.5)]), (O.Adamax, [{}, dict(lr=0.1, betas=(0.3, 0.4), weight_decay=0.5)]),
        (O.NAdam, [{}, dict(lr=0.1, momentum_decay=0.2)]), (O.SparseAdam, [{}, dict(lr=0.2, betas=(0.5, 0.5))]), (O.LBFGS, [{}, dict(lr=0.5, max_iter=2, history_size=3)])]


def _run(opt, p, g):
    if isinstance(opt, O.LBFGS):
        def closure():
            p.grad = g * p.detach()
            return (g * p.detach() ** 2).sum()
        return opt.step(closure)
    p.grad = g.to_sparse() if isinstance(opt, O.SparseAdam) else g.clone()
    opt.step()


def clone(k, st):
    cls, settings = OPTS[k]
    vals = (0.0, 1.0, -2.0)
    for s, pre, gs in itertools.product(settings, (0, 1, 2), itertools.product(vals, repeat=2)):
        st.ctx = {"optimizer": cls.__name__, "settings": s, "original_steps": pre, "gradients": gs}
        p0, p1, p2 = (torch.nn.Parameter(torch.tensor([1.0, 2.0])) for _ in range(3))
        o0 = cls([p0], **s)
        for i in range(pre):
            _run(o0, p0, torch.tensor([1.0, -1.0 - i]))
        before = repr(p0), copy.deepcopy(o0.state_dict())
        o1, o2 = clone_optimizer(o0, iter([p1])), cls([p2], **s)
        st.check(type(o1) is cls and o1 is not o0 and not o1.state, "clone-fresh", "the clone is not a fresh optimiser of the same class")
        for g in gs:
            g = torch.tensor([g, 0.5 - g])
            _run(o1, p1, g)
            _run(o2, p2, g)
            st.step()
            st.check(torch.allclose(p1, p2, rtol=0, atol=0, equal_nan=True), "clone-settings", lambda: f"clone moved its parameters to {p1.tolist()}, an optimiser with these settings to {p2.tolist()}")
        st.check(repr(p0) == before[0] and repr(o0.state_dict()) == repr(before[1]), "clone-shares-state", "stepping the clone affected the original")
        a, b = repr(p1), repr(o1.state_dict())
        _run(o0, p0, torch.tensor([3.0, 1.0]))
        st.check(repr(p1) == a and repr(o1.state_dict()) == b, "clone-shares-state", "stepping the original affected the clone")
        st.state((cls.__name__, repr(s), pre, repr(gs)))
        st.trace(st.ctx)
    if k == 0:
        for bad in (O.Rprop, O.ASGD):
            try:
                clone_optimizer(bad([torch.nn.Parameter(torch.ones(1))], lr=0.1), [torch.nn.Parameter(torch.ones(1))])
                st.check(False, "clone-unsupported", f"{bad.__name__} is documented as not supported")
            except ValueError:
                pass


def clip(st):
    vals = (0.0, 0.5, -3.0, 4.0)
    for ga, gb, stale, mx in itertools.product(vals, vals, (None, 7.0), (None, 0.0, 0.5, 1.0, 10.0)):
        m = torch.nn.Module()
        m.a, m.b = torch.nn.Parameter(torch.tensor([1.0])), torch.nn.Parameter(torch.tensor([[2.0]]))
        o = O.SGD(m.parameters(), lr=1.0)
        if stale is not None:
            m.a.grad, m.b.grad = torch.tensor([stale]), torch.tensor([[stale]])
        st.ctx = {"gradients": (ga, gb), "left_over_gradient": stale, "max_norm": mx}
        optim_step((m.a * ga).sum() + (m.b * gb).sum(), o, m if mx is not None else None, mx)
        nrm = float(np.hypot(ga, gb))
        f = min(1.0, mx / (nrm + 1e-6)) if mx else 1.0
        st.step()
        st.check(abs(m.a.item() - (1 - f * ga)) < 1e-4 and abs(m.b.item() - (2 - f * gb)) < 1e-4, "clip", lambda: f"parameters moved by {1 - m.a.item()}, {2 - m.b.item()}; gradient {ga}, {gb} limited to norm {mx}")
        st.state(repr(st.ctx))
        st.trace(st.ctx)
        if mx:
            try:
                optim_step(m.a.sum(), o, None, mx)
                st.check(False, "clip-needs-module", "a gradient limit without a module was accepted")
            except ValueError:
                pass


# ---------------------------------------------------------------------- schedules of the high-level API
def linear(n, st):
    for spe, spc, ne in itertools.product(range(1, n + 1), range(1, n + 1), range(1, 4)):
        cfg = SamplingConfig(num_epochs=ne, step_per_epoch=spe, step_per_collect=spc)
        total = -(-spe // spc) * ne
        o = _opt(0.8)
        s = LRSchedulerFactoryLinear(cfg).create_scheduler(o)
        for k in range(total + 3):
            st.ctx = {"step_per_epoch": spe, "step_per_collect": spc, "epochs": ne, "updates": k}
            lr = o.param_groups[0]["lr"]
            want = 0.8 * max(0.0, 1 - k / total)
            st.step()
            st.check(abs(lr - want) < 1e-9, "linear-rule" if k <= total else "linear-negative", lambda: f"learning rate {lr} after {k} of {total} collect/update rounds, linear decrease to zero gives {want}")
            o.step()
            s.step()
        st.state((spe, spc, ne))
        st.trace(st.ctx)


class WLog:
    def __init__(self):
        self.w = []

    def write(self, *a):
        self.w.append(a)


def epsilon(st):
    for a, b, d in itertools.product((1.0, 0.5, 0.0), (0.0, 0.5, 0.05), (1, 3, 10)):
        pol, lg = pols.build("dqn"), WLog()
        cb = EpochTrainCallbackDQNEpsLinearDecay(a, b, d)
        fn = cb.get_trainer_fn(TrainingContext(pol, None, lg))
        test = EpochTestCallbackDQNSetEps(0.3).get_trainer_fn(TrainingContext(pol, None, lg))
        tr = EpochTrainCallbackDQNSetEps(0.7).get_trainer_fn(TrainingContext(pol, None, lg))
        for ep, step in itertools.product((0, 1, 5), range(2 * d + 2)):
            want = a + (b - a) * min(1.0, step / d)
            st.ctx = {"from": a, "to": b, "decay_steps": d, "epoch": ep, "env_step": step}
            lg.w.clear()
            fn(ep, step)
            st.step()
            st.check(abs(pol.eps - want) < 1e-12, "eps-decay", lambda: f"epsilon {pol.eps}, linear decay gives {want}")
            st.check(len(lg.w) == 1 and lg.w[0][1] == step and abs(lg.w[0][2]["train/eps"] - want) < 1e-12, "eps-log", lambda: f"logged {lg.w}")
            test(ep, step)
            st.check(pol.eps == 0.3, "eps-test", f"epsilon {pol.eps} for evaluation, configured 0.3")
            tr(ep, step)
            st.check(pol.eps == 0.7, "eps-train", f"epsilon {pol.eps} for training, configured 0.7")
        st.state((a, b, d))
        st.trace(st.ctx)


def greedy(name, st):
    """With probability epsilon, and only then, the greedy action is replaced by a uniformly drawn legal one."""
    pol = pols.build(name)
    pol(Batch(obs=np.zeros((1, 3)), info=Batch()))
    for eps in (0.0, 0.3, 1.0):
        pol.set_eps(eps)
        for mask in ((None, (1, 1, 1), (1, 0, 1), (0, 0, 1)) if name == "dqn" else (None,)):
            for n in (1, 2):
                if name == "dqn":
                    g = np.array([2, 2][:n])
                    b = Batch(obs=Batch(obs=np.zeros((n, 3)), mask=np.array([mask] * n, bool)) if mask else np.zeros((n, 3)), info=Batch())
                else:
                    g = np.array([[2, 0], [1, 1]][:n])
                    b = Batch(obs=np.zeros((n, 3)), info=Batch())
                seen = set()

                def run(ch):
                    a0 = g.copy()
                    draws = []
                    with patched(ch, unit=(0.0, 0.15, 0.3, 0.999) if n == 1 else (0.15, 0.999)) as r:
                        real = r._u

                        def u():
                            v = real()
                            draws.append(v)
                            return v
                        r._u = u
                        got = np.asarray(pol.exploration_noise(a0, b))
                    st.ctx = {"policy": name, "eps": eps, "mask": mask, "rows": n, "draws": draws, "greedy": g, "got": got.copy()}
                    st.step()
                    st.check(got.shape == g.shape, "greedy-shape", "shape of actions changed")
                    for i in range(n):
                        if eps == 0.0:
                            st.check(np.array_equal(got[i], g[i]), "explores-at-zero", "greedy action replaced with epsilon zero")
                        elif draws and draws[i] >= eps:
                            st.check(np.array_equal(got[i], g[i]), "explores-too-often", lambda: f"row {i}: draw {draws[i]} is not below epsilon {eps} but the action was replaced")
                        if name == "dqn" and mask:
                            st.check(mask[int(got[i])], "illegal", "replaced by a masked action")
                        if draws and draws[i] < eps:
                            seen.add((i, tuple(np.atleast_1d(got[i]).tolist())))
                    st.state((name, eps, mask, n, repr(draws), repr(got)))
                for _ in explore(run):
                    pass
                if eps > 0:
                    legal = 9 if name == "bdq" else sum(mask) if mask else 3
                    for i in range(n):
                        k = len([1 for s in seen if s[0] == i])
                        st.check(k == legal, "exploration-support", lambda: f"{k} different actions reached by exploration in row {i}, {legal} are legal")
                st.trace(st.ctx)


# ---------------------------------------------------------------------- noise
NOISES = [("g", dict(mu=0.0, sigma=1.0)), ("g", dict(mu=2.0, sigma=0.0)), ("g", dict(mu=-1.0, sigma=0.5)),
          ("ou", {}), ("ou", dict(mu=1.0, sigma=0.5, theta=0.3, dt=0.25)), ("ou", dict(x0=2.0)), ("ou", dict(x0="array", sigma=1.0, dt=1.0, theta=0.5)), ("ou", dict(sigma=0.0, theta=1.0, dt=0.5, mu=3.0, x0=-1.0))]

def noise(depth, k, grid, st):
    kind, kw = NOISES[k]
    ops = [("call", (2,)), ("call", (1, 2)), ("list", (2,)), ("reset",)] + ([("mu", (2,))] if kind == "ou" else [])
    for seq in itertools.product(ops, repeat=depth):
        def run(ch):
            kws = dict(kw)
            x0 = kws.get("x0")
            if isinstance(x0, str):
                x0 = kws["x0"] = np.array([1.0, -1.0])
            keep = copy.deepcopy(x0)
            nz = GaussianNoise(**kws) if kind == "g" else OUNoise(**kws)
            mu, sig = kws.get("mu", 0.0), kws.get("sigma", 1.0 if kind == "g" else 0.3)
            th, dt = kws.get("theta", 0.15), kws.get("dt", 1e-2)
            x = x0
            draws = []
            for i, op in enumerate(seq):
                st.ctx = {"noise": kind, "settings": kws, "ops": seq, "draws": list(draws)}
                if op[0] == "reset":
                    nz.reset()
                    x = x0
                    continue
                size = list(op[1]) if op[0] == "list" else op[1]
                with patched(ch, normal=grid) as r:
                    real = r._n

                    def n1():
                        v = real()
                        draws.append(v)
                        return v
                    r._n = n1
                    c0 = len(draws)
                    m = (4.0, 0.0)[i % 2] if op[0] == "mu" else mu
                    got = nz(size, m) if op[0] == "mu" else nz(size)
                e = np.array(draws[c0:]).reshape(op[1])
                if kind == "g":
                    want = mu + sig * e
                else:
                    if x is None or (isinstance(x, np.ndarray) and x.shape != tuple(op[1])):
                        x = 0.0
                    x = want = x + th * dt * (m - x) + sig * np.sqrt(dt) * e
                st.step()
                st.check(np.shape(got) == tuple(op[1]), "noise-shape", lambda: f"noise of shape {np.shape(got)}, requested {op[1]}")
                st.check(np.allclose(got, want, rtol=1e-12, atol=1e-12), "noise-recurrence", lambda: f"noise {got}, the recurrence gives {want}")
            st.check(repr(keep) == repr(x0), "noise-start", "the given start value was changed")
            st.state((k, seq, tuple(draws)))
        for _ in explore(run):
            pass
        st.trace(st.ctx)


def polnoise(name, st):
    """Off-policy continuous policies: the explored action is the action plus the next value of their process."""
    for kind, changes in itertools.product(("g", "ou", "none"), itertools.product(("act", "reset", "swap"), repeat=3)):
        def mk(kind):
            return None if kind == "none" else GaussianNoise(0.5, 0.25) if kind == "g" else OUNoise(0.5, 0.5, 0.5, 0.25)

        def run(ch):
            a, b = mk(kind), mk(kind)
            pol = pols.build(name, exploration_noise=a)
            for c in (*changes, "act"):
                st.ctx = {"policy": name, "noise": kind, "ops": changes}
                if c == "reset" and a is not None:
                    a.reset()
                    b.reset()
                elif c == "swap":
                    a, b = mk("ou"), mk("ou")
                    pol.set_exp_noise(a)
                elif c == "act":
                    act = np.array([[0.25, -0.5]])
                    keep = act.copy()
                    path = []
                    with patched(ch) as r:
                        first = (0.0, 1.0)[ch.choose(2)]

                        def n1():
                            path.append(first - 0.5 * len(path))
                            return path[-1]
                        r._n = n1
                        got = pol.exploration_noise(act, Batch(obs=np.zeros((1, 3))))
                        it = iter(list(path))
                        r._n = lambda: next(it)
                        want = keep if b is None else keep + b(act.shape)
                    st.step()
                    st.check(np.allclose(got, want) and got.shape == keep.shape, "policy-noise", lambda: f"explored action {got}, action plus noise {want}")
                    st.check(np.array_equal(act, keep), "policy-noise-in-place", "the given actions were changed")
            st.state((name, kind, changes))
        for _ in explore(run):
            pass
        st.trace(st.ctx)


def run(job, st):
    globals()[job[0]](*job[1:], st=st)
