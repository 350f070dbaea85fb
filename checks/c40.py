"""C40: independently built or copied objects do not influence each other or the arguments they were built from."""
import copy
import io
import itertools
import pickle
import random
import zlib

import gymnasium as gym
import numpy as np
import torch

from mc import pols
from mc.coll import CEnv
from mc.core import Stats
from mc.train import TWorld
from tianshou.data import (
    Batch, CachedReplayBuffer, Collector, HERReplayBuffer, HERVectorReplayBuffer, PrioritizedReplayBuffer,
    PrioritizedVectorReplayBuffer, ReplayBuffer, SegmentTree, VectorReplayBuffer,
)
from tianshou.env import DummyVectorEnv, VectorEnvNormObs
from tianshou.exploration import GaussianNoise, OUNoise
from tianshou.utils import MovAvg, MultipleLRSchedulers, RunningMeanStd

PROPERTY = "C40"
LEVEL = "model_checking"
TECHNIQUE = "enumeration of all interleavings of the operation sequences of two instances on the real classes (both built anew from the same arguments, or the second deep-copied, pickled or torch-saved from the first at every point of its history); every answer and the final state of each instance are compared with a run in which it is alone"
NOTE = "The global random sources are set before each operation from the instance's own position, so that legitimate use of a shared generator cannot be mistaken for influence."
ASSUMPTIONS = ["single thread", "sharing that the documentation asks for (a Batch made with copy=False, statistics passed in as an object) is not judged"]


def BOUNDS(tier):
    q = tier == "quick"
    n, m = (3, 2) if q else (4, 3)
    return (f"{len(KINDS)} kinds of objects with {n} operations per instance and {len(pols.ALL) + 1} policies with {m} operations per instance: all interleavings of construction and operations of two instances; clones (deepcopy, pickle; policies also torch.save) after every prefix, all interleavings of what both do afterwards")


def jobs(tier):
    q = tier == "quick"
    n, m = (3, 2) if q else (4, 3)
    js = [["twin", k, 2 if q and k.startswith("exp") else min(n, 3) if k.startswith(("exp", "trainer")) else n] for k in KINDS] + [["clone", k, n, how] for k in KINDS if KINDS[k].clone for how in ("deepcopy", "pickle") if how not in KINDS[k].skip]
    for p in [*pols.ALL, "psrl"]:
        js += [["twin", "pol:" + p, m]] + [["clone", "pol:" + p, m, how] for how in ("deepcopy", "torch")]
    return js


def freeze(x):
    """A comparable deep copy of plain data."""
    if isinstance(x, torch.Tensor):
        return ("t", x.detach().numpy().tobytes(), tuple(x.shape))
    if isinstance(x, np.ndarray):
        return ("o", tuple(freeze(i) for i in x.ravel()), x.shape) if x.dtype == object else ("a", x.dtype.str, x.tobytes(), x.shape)
    if isinstance(x, Batch):
        return ("b", tuple((k, freeze(x[k])) for k in sorted(x.get_keys())))
    if isinstance(x, dict):
        return ("d", tuple((k, freeze(v)) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))))
    if isinstance(x, (list, tuple)):
        return tuple(freeze(i) for i in x)
    if isinstance(x, (np.generic, int, float, str, bool, type(None))):
        return repr(x)
    if hasattr(x, "__dict__"):
        return (type(x).__name__, freeze(vars(x)))
    return repr(type(x))


class Kind:
    """args(): what both instances are built from; make(args); ops(obj, k, who) the k-th operation; see(obj) all observable state."""
    clone = True
    skip = ()

    def args(self):
        return {}


def row(k, who, ends=(1,)):
    return dict(obs=np.array([k, who, 0.5], dtype=np.float32), act=k % 3, rew=k + 0.25 * who, terminated=k in ends, truncated=False, obs_next=np.array([k + 1, who, 0.5], dtype=np.float32), info={"x": k})


class Buf(Kind):
    def __init__(self, how, vec=False, prio=False):
        self.how, self.vec, self.prio = how, vec, prio

    def make(self, a):
        return self.how()

    def op(self, b, k, who):
        if k == 2 and who and not self.prio:
            b.reset()
            return None
        r = row(k, who)
        if self.vec:
            r = Batch({key: np.array([v, v]) if not isinstance(v, dict) else Batch(x=np.array([k, k + 1])) for key, v in r.items()})
            out = [freeze(x) for x in b.add(r)]
        else:
            r["info"] = Batch(x=k)
            out = [freeze(x) for x in b.add(Batch(r))]
        if self.prio:
            batch, ix = b.sample(2)
            out += [freeze(ix), freeze(batch.weight)]
            b.update_weight(ix, np.array([0.5 + k + who, 2.0]))
        else:
            batch, ix = b.sample(2)
            out += [freeze(ix), freeze(batch)]
        return out

    def see(self, b):
        ix = b.sample_indices(0)
        return [len(b), freeze(ix), freeze(b[ix]) if len(b) else None, freeze(b.prev(ix)) if len(b) else None, freeze(b.next(ix)) if len(b) else None, freeze(b.unfinished_index()), freeze(np.asarray(b.last_index))] + ([freeze(b.weight[np.arange(len(b.obs))])] if self.prio and len(b) else [])


def her_reward(a, g):
    return (np.asarray(a) == np.asarray(g)).all(axis=-1).astype(float)


class Her(Buf):
    """Goal observations."""

    def op(self, b, k, who):
        o = lambda j: Batch(observation=np.array([[j, who]] * (2 if self.vec else 1), dtype=np.float32), achieved_goal=np.array([[j]] * (2 if self.vec else 1), dtype=np.float32), desired_goal=np.array([[9 + who]] * (2 if self.vec else 1), dtype=np.float32))
        n = 2 if self.vec else 1
        r = Batch(obs=o(k), obs_next=o(k + 1), act=np.full(n, k), rew=np.full(n, 0.0), terminated=np.full(n, k == 1), truncated=np.full(n, False), info=Batch(x=np.full(n, k)))
        out = [freeze(x) for x in (b.add(r) if self.vec else b.add(r, buffer_ids=[0]))]
        batch, ix = b.sample(2)
        return [*out, freeze(ix), freeze(batch)]

    def see(self, b):
        return [len(b), freeze(b.sample_indices(0)), freeze(np.asarray(b.last_index))]


class BatchKind(Kind):
    def args(self):
        return {"d": {"a": np.arange(3.0), "b": {"c": np.arange(6).reshape(3, 2), "d": torch.ones(3)}}}

    def make(self, a):
        return Batch(a["d"], copy=True)

    def op(self, b, k, who):
        if k == 0:
            b.a[who] = 7 + who
            b.b.d[who] = 5.0
        elif k == 1:
            b.b.c += 1 + who
            b[0] = {"a": -1.0, "b": {"c": np.array([who, who]), "d": torch.tensor(2.0)}}
        elif k == 2:
            b.new = np.arange(3) + who
            b.b.pop("d")
        else:
            b.cat_(copy.deepcopy(b))
        return freeze(b)

    def see(self, b):
        return freeze(b)


class Noise(Kind):
    def __init__(self, cls):
        self.cls = cls

    def args(self):
        return {"x0": np.array([0.5, -0.5]), "mu": np.array([0.1, 0.2])}

    def make(self, a):
        return OUNoise(mu=0.3, sigma=0.4, theta=0.5, dt=0.1, x0=a["x0"]) if self.cls == "ou" else GaussianNoise(0.3, 0.4)

    def op(self, n, k, who):
        if k == 2:
            n.reset()
        x = n((2,)) if self.cls == "ou" else n((2,))
        out = freeze(np.asarray(x).copy())
        return out

    def see(self, n):
        return freeze(np.asarray(n((2,))))


class Stat(Kind):
    def args(self):
        return {"mean": np.array([0.5, 1.0]), "std": np.array([1.0, 2.0])}

    def make(self, a):
        return RunningMeanStd(mean=a["mean"], std=a["std"])

    def op(self, r, k, who):
        x = np.array([[k, who], [2.0 * k, 1.0 - who], [1, 1]])
        r.update(x)
        keep = x.copy()
        out = r.norm(x)
        assert np.array_equal(x, keep)
        return freeze(out)

    def see(self, r):
        return freeze([r.mean, r.var, r.count])


class Mov(Kind):
    def make(self, a):
        return MovAvg(2)

    def op(self, m, k, who):
        return m.add(k + 10 * who) if k != 1 else m.add([1.0, 2.0 + who, np.inf])

    def see(self, m):
        return freeze([m.get(), m.mean(), m.std()])


class Tree(Kind):
    def make(self, a):
        return SegmentTree(5)

    def op(self, t, k, who):
        t[k] = 1.0 + who + k
        t[np.array([3, 4])] = np.array([0.5 * who, 2.0])
        return freeze([t.reduce(), t.reduce(0, 3), t.get_prefix_sum_idx(0.7)])

    def see(self, t):
        return freeze([t[i] for i in range(5)])


class ConstPolicy(pols.P.BasePolicy):
    def __init__(self, space):
        super().__init__(action_space=space)
        self.n = 0

    def forward(self, batch, state=None, **kw):
        return Batch(act=(np.asarray(batch.obs)[:, 1].astype(int) + np.random.randint(0, 3)) % 5, state=None)

    def learn(self, batch, *a, **k):
        return None


class Coll(Kind):
    """Two collectors with their own environments; `share` lets them use the same policy, as trainers do."""
    clone = False

    def __init__(self, share, buf):
        self.share, self.buf = share, buf

    def args(self):
        return {"policy": ConstPolicy(gym.spaces.Discrete(5)), "fns": [lambda i=i: CEnv(i, (2, 3), act_space=gym.spaces.Discrete(5)) for i in range(2)]}

    def make(self, a):
        pol = a["policy"] if self.share else ConstPolicy(gym.spaces.Discrete(5))
        return Collector(pol, DummyVectorEnv(a["fns"]), VectorReplayBuffer(12, 2) if self.buf else None)

    def op(self, c, k, who):
        if k == 0:
            c.reset(gym_reset_kwargs={"options": {"k": who}})
        with pols_within(c.policy):
            r = c.collect(n_step=2 + 2 * who) if k != 1 else c.collect(n_episode=2)
        return freeze([r.n_collected_steps, r.n_collected_episodes, np.asarray(r.returns, dtype=float), np.asarray(r.lens)])

    def see(self, c):
        envs = [[h["obs"].tolist() for h in w.env.hist] for w in c.env.workers]
        return [envs, freeze(c.buffer[c.buffer.sample_indices(0)]), c.collect_step, c.collect_episode, [w.env.invalid for w in c.env.workers]]


def pols_within(p):
    from tianshou.utils.torch_utils import policy_within_training_step
    return policy_within_training_step(p)


class Norm(Kind):
    clone = False

    def args(self):
        return {"fns": [lambda i=i: CEnv(i, (2, 3), act_space=gym.spaces.Discrete(5)) for i in range(2)]}

    def make(self, a):
        return VectorEnvNormObs(DummyVectorEnv(a["fns"]))

    def op(self, v, k, who):
        if k == 0:
            return freeze(v.reset()[0])
        if k == 3:
            return freeze(v.reset(env_id=[who])[0])
        return freeze(v.step(np.array([k, who]))[0])

    def see(self, v):
        r = v.get_obs_rms()
        return freeze([r.mean, r.var, r.count])


class Lr(Kind):
    def make(self, a):
        p = [torch.nn.Parameter(torch.zeros(1)) for _ in range(2)]
        o = [torch.optim.SGD([x], lr=1.0) for x in p]
        m = MultipleLRSchedulers(*[torch.optim.lr_scheduler.ExponentialLR(x, 0.5 + 0.25 * i) for i, x in enumerate(o)])
        m.opts = o
        return m

    def op(self, m, k, who):
        for _ in range(1 + who):
            for o in m.opts:
                o.step()
            m.step()
        return freeze([o.param_groups[0]["lr"] for o in m.opts])

    def see(self, m):
        return freeze([o.param_groups[0]["lr"] for o in m.opts])


class Pol(Kind):
    """A policy and its buffer; operations: update, act, update ..."""

    def __init__(self, name):
        self.name = name

    def args(self):
        return {"trans_count_prior": np.ones((3, 2, 3)) * 0.5, "rew_mean_prior": np.zeros((3, 2)), "rew_std_prior": np.ones((3, 2))} if self.name == "psrl" else {}

    def make(self, a):
        p = pols.build(self.name, **a)
        if self.name == "psrl":
            b = ReplayBuffer(6)
            for k in range(5):
                b.add(Batch(obs=k % 3, act=k % 2, rew=float(k), terminated=k == 3, truncated=False, obs_next=(k + 1) % 3, info=Batch()))
        else:
            b = pols.fill(ReplayBuffer(8), self.name, 8)
        return [p, b]

    def op(self, o, k, who):
        p, b = o
        out = []
        if k == 1 and who:
            if self.name != "psrl":
                b.add(Batch(obs=np.ones(3, dtype=np.float32), act=b.act[0], rew=5.0, terminated=True, truncated=False, obs_next=np.zeros(3, dtype=np.float32), info=Batch(), **({"calibration_returns": 0.0} if self.name == "cql" else {})))
        p.train()
        if self.name == "psrl":
            with pols_within(p):
                s = p.update(0, b)
        else:
            s = pols.do_update(p, self.name, b)
        out.append({k: v for k, v in s.get_loss_stats_dict().items() if "time" not in k})
        p.eval()
        obs = np.array([0, 1, 2]) if self.name == "psrl" else np.linspace(-1, 1, 6).reshape(2, 3).astype(np.float32)
        with torch.no_grad():
            act = p(Batch(obs=obs, info=Batch())).act
        if k == 0 and hasattr(p, "set_eps"):
            p.set_eps(0.1 + 0.2 * who)
        a = np.asarray(act.detach() if isinstance(act, torch.Tensor) else act)
        noisy = p.exploration_noise(a.copy(), Batch(obs=obs, info=Batch())) if self.name not in ("psrl",) else None
        return freeze([out, a, noisy])

    def see(self, o):
        p, b = o
        st = {k: v for k, v in p.state_dict().items()}
        ops = [v for k, v in sorted(vars(p).items()) if isinstance(v, torch.optim.Optimizer)]
        return freeze([st, [[g["lr"] for g in x.param_groups] for x in ops], [getattr(p.model, k) for k in ("trans_count", "rew_mean", "rew_std", "rew_count")] if self.name == "psrl" else None, b[:]])


class Train(Kind):
    """A trainer with its policy, collectors and environments, consumed epoch by epoch."""
    clone = False

    def __init__(self, **cfg):
        self.cfg = cfg

    def make(self, a):
        return TWorld({"test_alpha": [1.0], **self.cfg}, Stats())

    def op(self, w, k, who):
        if k == 0:
            iter(w.trainer)
            return len(w.rec.ev)
        e = next(w.trainer)
        return freeze([e.epoch, e.info_stat.gradient_step, e.info_stat.train_step, e.info_stat.best_reward, e.training_stat.get_loss_stats_dict(), e.training_stat.smoothed_loss])

    def see(self, w):
        return freeze([w.rec.ev, w.trainer.env_step, w.pol.losses])


class Exper(Kind):
    """Experiments built from one builder."""
    clone = False

    def __init__(self, name, kind):
        self.name, self.kind = name, kind

    def args(self):
        from checks import c37
        class Seeded(c37.Factory):
            def create_env(self, mode):
                e = super().create_env(mode)
                e.np_random = np.random.default_rng(1)
                e.action_space.seed(1)
                return e

        return {"fns": c37.builder(self.name, self.kind, sc=c37.small(num_epochs=3, start_timesteps=4), factory=Seeded(self.kind == "c"))}

    def make(self, a):
        return a["fns"].build().create_experiment_world()

    def op(self, w, k, who):
        if k == 0:
            iter(w.trainer)
            return None
        e = next(w.trainer)
        return freeze([e.epoch, e.info_stat.gradient_step, e.info_stat.train_step, float(e.info_stat.best_reward), e.training_stat.get_loss_stats_dict()])

    def see(self, w):
        b = w.train_collector.buffer
        return freeze([dict(w.policy.state_dict()), b[b.sample_indices(0)]])


KINDS = {
    "buffer": Buf(lambda: ReplayBuffer(3)), "buffer-stack": Buf(lambda: ReplayBuffer(4, stack_num=2, ignore_obs_next=True)),
    "prio": Buf(lambda: PrioritizedReplayBuffer(3, 0.6, 0.4), prio=True), "vector": Buf(lambda: VectorReplayBuffer(6, 2), vec=True),
    "prio-vector": Buf(lambda: PrioritizedVectorReplayBuffer(6, 2, alpha=0.6, beta=0.4), vec=True, prio=True),
    "cached": Buf(lambda: CachedReplayBuffer(ReplayBuffer(6), 2, 3), vec=True),
    "her": Her(lambda: HERReplayBuffer(6, compute_reward_fn=her_reward, horizon=3, future_k=2.0)),
    "her-vector": Her(lambda: HERVectorReplayBuffer(8, 2, compute_reward_fn=her_reward, horizon=3, future_k=2.0), vec=True),
    "batch": BatchKind(), "ou": Noise("ou"), "gaussian": Noise("g"), "rms": Stat(), "movavg": Mov(), "tree": Tree(),
    "collector": Coll(False, True), "collector-shared-policy": Coll(True, True), "collector-no-buffer": Coll(True, False), "normobs": Norm(), "lr": Lr(),
    "trainer-off": Train(kind="off", lens=[(2,)], p=dict(max_epoch=3, step_per_epoch=4, step_per_collect=2, batch_size=2)), "trainer-on": Train(kind="on", lens=[(2,)], p=dict(max_epoch=3, step_per_epoch=4, step_per_collect=2, batch_size=2)),
    "trainer-offline": Train(kind="offline", p=dict(max_epoch=3, step_per_epoch=2, batch_size=2)),
    "experiment-dqn": Exper("dqn", "d"), "experiment-ppo": Exper("ppo", "c"), "experiment-sac": Exper("sac", "c"),
}


def kind_of(k):
    return Pol(k[4:]) if k.startswith("pol:") else KINDS[k]


def seeded(*key):
    s = zlib.crc32(repr(key).encode())
    np.random.seed(s)
    torch.manual_seed(s)
    random.seed(s)


def act(kind, o, k, who):
    seeded("op", k, who)
    return kind.op(o, k, who)


def look(kind, o):
    seeded("see")
    return kind.see(o)


def build(kind, a):
    seeded("make")
    return kind.make(a)


def interleavings(n, m):
    for c in itertools.combinations(range(n + m), n):
        yield [0 if i in c else 1 for i in range(n + m)]


def twin(key, n, st):
    kind = kind_of(key)
    alone = []
    for who in (0, 1):
        o = build(kind, kind.args())
        alone.append(([act(kind, o, k, who) for k in range(n)], look(kind, o)))
    for order in interleavings(n + 1, n + 1):
        a = kind.args()
        before = freeze({k: v for k, v in a.items() if k not in ("policy", "fns")})
        obj, pos, log = [None, None], [0, 0], []
        for w in order:
            log.append(f"{'AB'[w]}:{'build' if not pos[w] else pos[w]}")
            st.ctx = {"kind": key, "schedule": list(log)}
            if pos[w] == 0:
                obj[w] = build(kind, a)
            else:
                got = act(kind, obj[w], pos[w] - 1, w)
                st.check(got == alone[w][0][pos[w] - 1], "answer", lambda: f"operation {pos[w]} of instance {'AB'[w]} answers differently than when alone: {str(got)[:300]}; alone: {str(alone[w][0][pos[w] - 1])[:300]}")
            pos[w] += 1
            st.step()
        for w in (0, 1):
            st.check(look(kind, obj[w]) == alone[w][1], "state", lambda: f"final state of instance {'AB'[w]} differs from when it is alone")
        st.check(freeze({k: v for k, v in a.items() if k not in ("policy", "fns")}) == before, "arguments", "the arguments of construction were changed")
        st.state((key, tuple(order)))
        st.trace({"kind": key, "schedule": log})


def copy_of(o, how):
    if how == "deepcopy":
        return copy.deepcopy(o)
    if how == "pickle":
        return pickle.loads(pickle.dumps(o))
    f = io.BytesIO()
    torch.save(o, f)
    f.seek(0)
    return torch.load(f)


def clone(key, n, how, st):
    """B is copied from A after each prefix; then both continue in every interleaving, as if each were alone."""
    kind = kind_of(key)
    for p in range(n):
        rest = n - p
        alone = []
        for who in (0, 1):
            o = build(kind, kind.args())
            for k in range(p):
                act(kind, o, k, 0)
            alone.append(([act(kind, o, p + k, who) for k in range(rest)], look(kind, o)))
        for order in interleavings(rest, rest):
            a = build(kind, kind.args())
            for k in range(p):
                act(kind, a, k, 0)
            obj, pos, log = [a, copy_of(a, how)], [0, 0], [f"A x {p}", how]
            for w in order:
                log.append(f"{'AB'[w]}:{p + pos[w] + 1}")
                st.ctx = {"kind": key, "schedule": list(log)}
                got = act(kind, obj[w], p + pos[w], w)
                st.check(got == alone[w][0][pos[w]], "copy-answer", lambda: f"the {'original' if w == 0 else 'copy'} answers differently than an object that is alone: {str(got)[:300]}; alone: {str(alone[w][0][pos[w]])[:300]}")
                pos[w] += 1
                st.step()
            for w in (0, 1):
                st.check(look(kind, obj[w]) == alone[w][1], "copy-state", lambda: f"final state of the {'original' if w == 0 else 'copy'} differs from when it is alone")
            st.state((key, how, p, tuple(order)))
            st.trace({"kind": key, "schedule": log})


def run(job, st):
    twin(*job[1:], st) if job[0] == "twin" else clone(*job[1:], st)
