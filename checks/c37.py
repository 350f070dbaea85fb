"""C37: high-level experiments realise exactly their configuration."""
import copy
import inspect
import itertools
import os
import pickle
import shutil
import tempfile
import warnings
from contextlib import contextmanager

import gymnasium as gym
import numpy as np
import torch

import mc.pols  # noqa: F401  (single-threaded torch)
import tianshou.data as TD
import tianshou.highlevel.experiment as X
import tianshou.highlevel.params.policy_params as PP
import tianshou.policy as P
from mc.explore import explore
from mc.rng import patched
from tianshou.data import Batch, Collector, ReplayBuffer
from tianshou.exploration import BaseNoise, GaussianNoise
from tianshou.highlevel.config import SamplingConfig
from tianshou.highlevel.env import ContinuousEnvironments, DiscreteEnvironments, EnvFactory, EnvFactoryRegistered, Environments, EnvMode, EnvType, VectorEnvType
from tianshou.highlevel.optim import OptimizerFactoryAdam, OptimizerFactoryRMSprop, OptimizerFactoryTorch
from tianshou.highlevel.params.alpha import AutoAlphaFactoryDefault
from tianshou.highlevel.params.dist_fn import DistributionFunctionFactoryCategorical, DistributionFunctionFactoryIndependentGaussians
from tianshou.highlevel.params.env_param import MaxActionScaled
from tianshou.highlevel.params.lr_scheduler import LRSchedulerFactory, LRSchedulerFactoryLinear
from tianshou.highlevel.params.noise import MaxActionScaledGaussian
from tianshou.highlevel.module.intermediate import IntermediateModule, IntermediateModuleFactory
from tianshou.highlevel.params.policy_wrapper import PolicyWrapperFactoryIntrinsicCuriosity
from tianshou.highlevel.trainer import EpochTestCallbackDQNSetEps, EpochTrainCallbackDQNEpsLinearDecay, EpochTrainCallbackDQNSetEps
from tianshou.highlevel.trainer import EpochStopCallback, EpochStopCallbackRewardThreshold, EpochTestCallback, EpochTrainCallback
from tianshou.policy.base import BasePolicy

PROPERTY = "C37"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of a bounded configuration space: every builder, every parameter one at a time (thorough: in pairs), grids of sampling configurations, network factories, callbacks and flags, run through the real experiment API on recording environments; oracle: the documented meaning of each setting"
NOTE = "The recorded constructor arguments of policies, collectors and buffers, the optimisers' parameter groups, the environments' own logs and the updates requested are compared with what the configuration says; parameters are judged by the public constructor arguments of the policy classes."
ASSUMPTIONS = ["step-based collection unless episodes are configured", "two small environments (continuous with bound 2, discrete with 3 actions)", "dummy vector environments except for the back-end mapping"]
warnings.simplefilter("ignore")
E = EnvType


def BOUNDS(tier):
    q = tier == "quick"
    return (f"13 builders x discrete/continuous; every parameter of every algorithm at each listed non-default value {'singly' if q else 'singly and in all pairs'}; 6 optimiser factories; {'2' if q else '3'} epochs x steps per epoch x steps or episodes per collection x 1-3 training and 1-2 test environments x repeats/updates x start steps x batch sizes; "
            "all combinations of the train/watch/persistence/log flags; all network factories incl. parameter sharing, fresh, copied, pickled and restored; all callback schedules")


# ---------------------------------------------------------------------- recording environments
class Env(gym.Env):
    LOG = []

    def __init__(self, mode, cont, log=None, **kw):
        self.mode, self.cont, self.kw = mode, cont, kw
        self.observation_space = gym.spaces.Box(-10, 10, (2,), dtype=np.float32)
        self.action_space = gym.spaces.Box(-2, 2, (2,), dtype=np.float32) if cont else gym.spaces.Discrete(3)
        self.steps = self.episodes = self.resets = 0
        self.seeds, self.acts = [], []
        self.render_mode = kw.get("render_mode")
        Env.LOG.append(self)

    def reset(self, seed=None, options=None):
        super().reset(seed=seed)
        self.resets += 1
        if seed is not None:
            self.seeds.append(seed)
        self.t = 0
        return self.np_random.uniform(-1, 1, 2).astype(np.float32), {}

    def step(self, a):
        self.steps += 1
        self.acts.append(np.array(a))
        self.t += 1
        done = self.t >= 2 + self.episodes % 2
        if done:
            self.episodes += 1
        return np.array([self.t, self.episodes % 3], dtype=np.float32), float(self.t), done, False, {}


class Factory(EnvFactory):
    def __init__(self, cont, venv=VectorEnvType.DUMMY):
        super().__init__(venv)
        self.cont = cont

    def create_env(self, mode):
        return Env(mode, self.cont)


gym.register("MCReg-v0", entry_point="checks.c37:regenv")


def regenv(**kw):
    return Env("registered", False, **kw)


# name -> (builder, with_params, params class, policy class, env kinds, single/ac/twin)
B = {
    "pg": (X.PGExperimentBuilder, "with_pg_params", PP.PGParams, P.PGPolicy, "dc", "actor"),
    "a2c": (X.A2CExperimentBuilder, "with_a2c_params", PP.A2CParams, P.A2CPolicy, "dc", "onac"),
    "ppo": (X.PPOExperimentBuilder, "with_ppo_params", PP.PPOParams, P.PPOPolicy, "dc", "onac"),
    "npg": (X.NPGExperimentBuilder, "with_npg_params", PP.NPGParams, P.NPGPolicy, "dc", "onac"),
    "trpo": (X.TRPOExperimentBuilder, "with_trpo_params", PP.TRPOParams, P.TRPOPolicy, "dc", "onac"),
    "dqn": (X.DQNExperimentBuilder, "with_dqn_params", PP.DQNParams, P.DQNPolicy, "d", "model"),
    "iqn": (X.IQNExperimentBuilder, "with_iqn_params", PP.IQNParams, P.IQNPolicy, "d", "model"),
    "ddpg": (X.DDPGExperimentBuilder, "with_ddpg_params", PP.DDPGParams, P.DDPGPolicy, "c", "ac"),
    "redq": (X.REDQExperimentBuilder, "with_redq_params", PP.REDQParams, P.REDQPolicy, "c", "ac"),
    "sac": (X.SACExperimentBuilder, "with_sac_params", PP.SACParams, P.SACPolicy, "c", "twin"),
    "dsac": (X.DiscreteSACExperimentBuilder, "with_sac_params", PP.DiscreteSACParams, P.DiscreteSACPolicy, "d", "twin"),
    "td3": (X.TD3ExperimentBuilder, "with_td3_params", PP.TD3Params, P.TD3Policy, "c", "twin"),
}
PAIRS = [(n, k) for n in B for k in B[n][4]]
ONPOLICY = ("pg", "a2c", "ppo", "npg", "trpo")


class Sched:
    def __init__(self, optim):
        self.optim, self.n = optim, 0

    def step(self):
        self.n += 1


class SchedF(LRSchedulerFactory):
    """Not copied by asdict's deep copy: a registry of what was created."""
    MADE = []

    def __init__(self, tag="s"):
        self.tag = tag

    def create_scheduler(self, optim):
        s = Sched(optim)
        s.tag = self.tag
        SchedF.MADE.append(s)
        return s


class Noise(BaseNoise):
    def __init__(self, k=0):
        self.k = k

    def reset(self):
        pass

    def __call__(self, size):
        return np.full(size, 0.125 * self.k)


# parameter -> values to try (the documented type of the field decides which apply)
VALUES = {
    "lr": [0.5], "actor_lr": [0.25], "critic_lr": [0.125], "critic1_lr": [0.125], "critic2_lr": [0.0625],
    "lr_scheduler_factory": [SchedF("one")], "actor_lr_scheduler_factory": [SchedF("actor")], "critic_lr_scheduler_factory": [SchedF("critic")],
    "critic1_lr_scheduler_factory": [SchedF("critic1")], "critic2_lr_scheduler_factory": [SchedF("critic2")],
    "discount_factor": [0.5, 0.0], "gamma": [0.5, 1.0], "reward_normalization": [True], "deterministic_eval": [True, False], "action_scaling": [True, False, "default"], "action_bound_method": ["tanh", None],
    "exploration_noise": ["default", Noise(3), MaxActionScaledGaussian(0.25)], "gae_lambda": [0.3], "max_batchsize": [7], "vf_coef": [0.125], "ent_coef": [0.375], "max_grad_norm": [0.75],
    "eps_clip": [0.4], "dual_clip": [3.0], "value_clip": [True], "advantage_normalization": [False], "recompute_advantage": [True], "optim_critic_iters": [2], "actor_step_size": [0.2],
    "max_kl": [0.5], "backtrack_coeff": [0.3], "max_backtracks": [3], "tau": [0.5], "alpha": [0.7, AutoAlphaFactoryDefault(0.015)], "estimation_step": [3], "target_update_freq": [2], "is_double": [False], "clip_loss_grad": [True],
    "sample_size": [5], "online_sample_size": [3], "target_sample_size": [6], "num_quantiles": [11], "hidden_sizes": [(5,)], "num_cosines": [9], "ensemble_size": [3], "subset_size": [1], "actor_delay": [2], "target_mode": ["mean"],
    "policy_noise": [0.3, MaxActionScaled(0.25)], "noise_clip": [0.9, MaxActionScaled(0.125)], "update_actor_freq": [3],
}


def jobs(tier):
    q = tier == "quick"
    js = [["params", n, k, 1, None] for n, k in PAIRS]
    if not q:
        js += [["params", n, k, 2, i] for n, k in PAIRS for i in range(6)]
    js += [["optims", n, k] for n, k in PAIRS]
    js += [["sampling", n, e, q] for n in ("ppo", "dqn", "pg", "sac") + (() if q else ("ddpg", "dsac", "trpo", "td3")) for e in range(4)]
    js += [["modules", n, k] for n, k in PAIRS]
    js += [["flags", n] for n in (("pg", "dqn") if q else ("pg", "dqn", "ppo", "sac"))] + [["random"]]
    js += [["callbacks", n] for n in ("ppo", "dqn")] + [["repeat", n, k] for n, k in PAIRS] + [["wrap", n] for n, k in PAIRS if k == "d"] + [["wrap", "sac"], ["eps", "dqn"], ["eps", "iqn"], ["eps", "icm"]] + [["collection"], ["venvs"], ["registered"], ["dists"], ["noisefactory"]]
    return js


# ---------------------------------------------------------------------- recording constructors and updates
@contextmanager
def recording(*classes):
    """Records the outermost constructor call of the given classes: class -> list of bound arguments."""
    rec, saved, busy = [], [], set()

    def wrap(cls):
        orig = cls.__dict__["__init__"]
        sig = inspect.signature(orig)

        def init(self, *a, **k):
            outer = id(self) not in busy
            if outer:
                busy.add(id(self))
                b = sig.bind(self, *a, **k)
                b.apply_defaults()
                args = dict(b.arguments)
                args.pop("self", None)
                for p in sig.parameters.values():
                    if p.kind is p.VAR_KEYWORD:
                        args.update(args.pop(p.name, {}))
                rec.append((type(self), args, self))
            try:
                orig(self, *a, **k)
            finally:
                if outer:
                    busy.discard(id(self))
        saved.append((cls, orig))
        cls.__init__ = init
    for c in classes:
        if "__init__" in c.__dict__:
            wrap(c)
    try:
        yield rec
    finally:
        for c, o in saved:
            c.__init__ = o


POLS = [P.PGPolicy, P.A2CPolicy, P.PPOPolicy, P.NPGPolicy, P.TRPOPolicy, P.DQNPolicy, P.IQNPolicy, P.QRDQNPolicy, P.DDPGPolicy, P.REDQPolicy, P.SACPolicy, P.DiscreteSACPolicy, P.TD3Policy]


@contextmanager
def updates():
    """Records the arguments of every update() of any policy."""
    rec = []
    orig = BasePolicy.update

    def update(self, sample_size, buffer, *a, **k):
        rec.append((sample_size, k.get("batch_size"), k.get("repeat"), len(buffer)))
        return orig(self, sample_size, buffer, *a, **k)
    BasePolicy.update = update
    saved = []
    for c in POLS:
        if "update" in c.__dict__:
            saved.append(c)
    try:
        yield rec
    finally:
        BasePolicy.update = orig


def small(**kw):
    return SamplingConfig(**{**dict(num_epochs=1, step_per_epoch=4, batch_size=4, num_train_envs=2, num_test_envs=1, num_test_episodes=1, buffer_size=20, step_per_collect=4), **kw})


def config(**kw):
    return X.ExperimentConfig(**{**dict(seed=1, device="cpu", watch=False, persistence_enabled=False), **kw})


def builder(name, kind, sc=None, cfg=None, params=None, hidden=True, factory=None):
    b = B[name][0](factory or Factory(kind == "c"), cfg or config(), sc or small())
    if params is not None:
        getattr(b, B[name][1])(params)
    if hidden:
        shape(b, name, (4,), torch.nn.Tanh)
    return b.with_name("exp")


def shape(b, name, hs, act):
    if name == "dqn":
        b.with_model_factory_default(hs, act)
    elif name != "iqn":
        b.with_actor_factory_default(hs, hidden_activation=act)
    if B[name][5] == "onac" or name == "ddpg":
        b.with_critic_factory_default(hs, act)
    elif B[name][5] == "twin":
        b.with_common_critic_factory_default(hs, act)
    elif name == "redq":
        b.with_critic_ensemble_factory_default(hs)


def close(w):
    for v in (w.envs.train_envs, w.envs.test_envs, w.envs.watch_env):
        if v is not None:
            v.close()


def nets(name, args):
    """(tag, optimiser, modules it must optimise)"""
    s = B[name][5]
    if s == "model":
        return [("one", args["optim"], [args["model"]])]
    if s == "actor":
        return [("one", args["optim"], [args["actor"]])]
    if s == "onac":
        return [("one", args["optim"], [args["actor"], args["critic"]])]
    if s == "ac":
        return [("actor", args["actor_optim"], [args["actor"]]), ("critic", args["critic_optim"], [args["critic"]])]
    return [("actor", args["actor_optim"], [args["actor"]]), ("critic1", args["critic_optim"], [args["critic"]]), ("critic2", args["critic2_optim"], [args["critic2"]])]


LRKEY = {"one": "lr", "actor": "actor_lr", "critic": "critic_lr", "critic1": "critic1_lr", "critic2": "critic2_lr"}


def optimised(opt):
    return {id(p) for g in opt.param_groups for p in g["params"]}


def judge(name, kind, pv, args, pol, st):
    """pv: the parameter object; args: the policy's constructor arguments."""
    cont = kind == "c"
    fields = {f: getattr(pv, f) for f in pv.__dataclass_fields__}
    for f, v in fields.items():
        if f in LRKEY.values() or f.endswith("lr_scheduler_factory") or name == "iqn" and f in ("hidden_sizes", "num_cosines"):
            continue
        got = args.get(f, "missing")
        if f == "action_scaling":
            v = cont if v == "default" else v
        elif f == "exploration_noise" and isinstance(v, Noise):
            st.check(isinstance(got, Noise) and got.k == v.k, f"param:{f}", lambda: f"noise given to the policy: {got}")
            continue
        elif isinstance(v, MaxActionScaledGaussian):
            for z in (-1.0, 2.0):
                with patched(None) as r:
                    r._n = lambda z=z: z
                    x = got((2,))
                st.check(isinstance(got, GaussianNoise) and np.allclose(x, z * 0.25 * 2.0), f"param:{f}", lambda: f"noise {x} for standard-normal draw {z}: standard deviation is to be 0.25 of the bound 2")
            continue
        elif isinstance(v, AutoAlphaFactoryDefault):
            te, la, op = got
            st.check(abs(te - (-2.0 if cont else -3.0)) < 1e-9 and la.requires_grad and la.tolist() == [0.0] and optimised(op) == {id(la)} and op.param_groups[0]["lr"] == 0.015, f"param:{f}", lambda: f"automatic alpha {got}")
            continue
        elif isinstance(v, MaxActionScaled):
            v = 2.0 * v.value
        st.check(type(got) is type(v) and got == v or (isinstance(v, float) and got == v), f"param:{f}", lambda: f"parameter {f}={v} reached the policy as {got}")
    made = list(SchedF.MADE)
    want = set()
    for tag, opt, mods in nets(name, args):
        lr = fields[LRKEY[tag]]
        st.check(all(g["lr"] == lr for g in opt.param_groups), f"lr:{tag}", lambda: f"optimiser of {tag} has learning rate {[g['lr'] for g in opt.param_groups]}, configured {lr}")
        ids = {id(p) for m in mods for p in m.parameters()}
        st.check(optimised(opt) == ids, f"optimised:{tag}", "the optimiser does not cover exactly the parameters of its network")
        key = "lr_scheduler_factory" if tag == "one" else f"{tag}_lr_scheduler_factory"
        if fields[key] is not None:
            want.add((tag, id(opt)))
    st.check({(s.tag, id(s.optim)) for s in made} == want and len(made) == len(want), "schedulers", lambda: f"schedulers made for {[s.tag for s in made]}, configured {sorted(w[0] for w in want)} or wrong optimisers")
    sch = args.get("lr_scheduler")
    st.check((sch is None) == (not want), "schedulers", f"scheduler of the policy {sch}")
    if sch is not None:
        before = [s.n for s in made]
        sch.step()
        st.check([s.n for s in made] == [x + 1 for x in before], "schedulers", "stepping the policy's scheduler does not step each configured scheduler once")


def options(name, kind):
    cls = B[name][2]
    out = []
    for f in cls.__dataclass_fields__:
        for v in VALUES[f]:
            if kind == "d" and f == "action_scaling" and v is True:
                continue
            if kind == "d" and (isinstance(v, (MaxActionScaled, MaxActionScaledGaussian)) or f == "exploration_noise"):
                continue
            if f == "action_bound_method" and v == "tanh" and name not in ONPOLICY:
                continue      # refused by the policies that squash their actions themselves
            out.append((f, v))
    return out


def params(name, kind, width, part, st):
    opts = options(name, kind)
    combos = [()] + [(o,) for o in opts] if width == 1 else [c for i, c in enumerate(c for c in itertools.combinations(opts, 2) if c[0][0] != c[1][0]) if i % 6 == part]
    for c in combos:
        pv = B[name][2](**dict(c))
        if name == "redq" and "ensemble_size" not in dict(c):
            pv.ensemble_size = 2
        st.ctx = {"algorithm": name, "actions": "continuous" if kind == "c" else "discrete", "parameters": {k: repr(v) if not isinstance(v, (int, float, str, tuple)) else v for k, v in c}}
        SchedF.MADE.clear()
        given = copy.deepcopy(pv)
        with recording(*POLS) as rec:
            b = builder(name, kind, params=pv)
            ex = b.build()
            if width == 1:
                w = ex.create_experiment_world()
            else:
                w = ex.create_experiment_world(reset_collectors=False)
        made = [(c_, a) for c_, a, o in rec if o is w.policy]
        st.check(len(made) == 1 and made[0][0] is B[name][3], "policy-class", lambda: f"policies built: {[m[0].__name__ for m in made]}")
        st.step()
        judge(name, kind, pv, made[0][1], w.policy, st)
        st.check(made[0][1]["action_space"] == w.envs.env.action_space, "spaces", "the policy has another action space")
        st.check({k: type(v) for k, v in vars(given).items()} == {k: type(v) for k, v in vars(pv).items()} and {k: v for k, v in vars(given).items() if isinstance(v, int | float | tuple)} == {k: v for k, v in vars(pv).items() if isinstance(v, int | float | tuple)}, "params-changed", "building changed the parameter object")
        if name == "iqn":
            sh = [tuple(p.shape) for p in made[0][1]["model"].parameters()]
            st.check((64 if not pv.hidden_sizes else 5) and any(pv.num_cosines in s for s in sh) and (not pv.hidden_sizes or any(5 in s for s in sh)), "iqn-network", lambda: f"network shapes {sh} for {pv.num_cosines} cosines and hidden sizes {pv.hidden_sizes}")
        close(w)
        st.state((name, kind, repr(st.ctx)))
        refused = name in ("dqn", "iqn") and ("reward_normalization", True) in c or kind == "c" and ("action_bound_method", None) in c     # n-step returns; scaling of unbounded actions
        if width == 1 and not refused:
            pv = copy.deepcopy(pv)
            if name == "redq" and "actor_delay" not in dict(c):
                pv.actor_delay = 1      # (so that the actor and the temperature are updated at all)
            r = builder(name, kind, params=pv).build().run()
            st.check(r.trainer_result is not None, "no-result", "a finished training reports no result")
            close(r.world)
            st.step()
        st.trace(st.ctx)


# ---------------------------------------------------------------------- optimisers
def optims(name, kind, st):
    facs = [("default", None, torch.optim.Adam, dict(betas=(0.9, 0.999), eps=1e-8, weight_decay=0)), ("with_default", dict(betas=(0.5, 0.6), eps=1e-3, weight_decay=0.25), torch.optim.Adam, dict(betas=(0.5, 0.6), eps=1e-3, weight_decay=0.25)),
            ("adam", OptimizerFactoryAdam((0.1, 0.2), 1e-2, 0.5), torch.optim.Adam, dict(betas=(0.1, 0.2), eps=1e-2, weight_decay=0.5)),
            ("rmsprop", OptimizerFactoryRMSprop(0.3, 1e-2, 0.5, 0.7, True), torch.optim.RMSprop, dict(alpha=0.3, eps=1e-2, weight_decay=0.5, momentum=0.7, centered=True)),
            ("rmsprop-default", OptimizerFactoryRMSprop(), torch.optim.RMSprop, dict(alpha=0.99, eps=1e-8, weight_decay=0, momentum=0, centered=False)),
            ("sgd", OptimizerFactoryTorch(torch.optim.SGD, momentum=0.5, nesterov=True), torch.optim.SGD, dict(momentum=0.5, nesterov=True))]
    for tag, f, cls, want in facs:
        st.ctx = {"algorithm": name, "optimiser": tag}
        alpha = "alpha" in B[name][2].__dataclass_fields__
        pv = B[name][2](alpha=AutoAlphaFactoryDefault(0.3)) if alpha else B[name][2]()
        b = builder(name, kind, params=pv)
        if tag == "with_default":
            b.with_optim_factory_default(**f)
        elif f is not None:
            b.with_optim_factory(f)
        with recording(*POLS) as rec:
            w = b.build().create_experiment_world()
        args = [a for c, a, o in rec if o is w.policy][0]
        all_ = [(t, o) for t, o, _ in nets(name, args)] + ([("alpha", args["alpha"][2])] if alpha else [])
        for t, o in all_:
            g = o.param_groups[0]
            st.step()
            st.check(type(o) is cls and all(g[k] == v for k, v in want.items()), f"optimiser:{t}", lambda: f"{t}: {type(o).__name__} { {k: g.get(k) for k in want} }, configured {cls.__name__} {want}")
        close(w)
        st.state((name, kind, tag))
        st.trace(st.ctx)


# ---------------------------------------------------------------------- sampling configuration
def sampling(name, e, q, st):
    on = name in ONPOLICY
    kind = "d" if "d" in B[name][4] else "c"
    grid = dict(ntr=(1, 3) if q else (1, 2, 3), nte=(1, 2), ep=(1, 2) if q else (1, 3), spe=(3, 6), coll=(("s", 2), ("s", 5), ("e", 1), ("e", 4)), test=(1, 2), start=((0, False), (4, True)) if q else ((0, False), (3, False), (4, True)),
                bs=(3, None) if on else (3,), rep=(1, 2) if on else (1.0, 0.5) if q else (1.0, 0.5, 0.25), buf=(20, 31))
    buf_extra = [dict(), dict(replay_buffer_stack_num=2), dict(replay_buffer_ignore_obs_next=True), dict(replay_buffer_save_only_last_obs=True)]
    keys = list(grid)
    for i, vals in enumerate(itertools.product(*grid.values())):
        v = dict(zip(keys, vals, strict=True))
        if (v["coll"] != grid["coll"][e]) or (v["test"] % v["nte"]):
            continue
        if q and ((i // 3) % 2 and v["buf"] == 31 or on and (v["bs"] is None) == (v["rep"] == 2) and v["buf"] == 20):
            continue
        unit, c0 = v["coll"]
        extra = buf_extra[i % 4] if v["buf"] == 31 and not v["start"][0] else {}
        if extra.get("replay_buffer_stack_num"):
            extra = dict(extra)
        sc = SamplingConfig(num_epochs=v["ep"], step_per_epoch=v["spe"], batch_size=v["bs"], num_train_envs=v["ntr"], num_test_envs=v["nte"], num_test_episodes=v["test"], buffer_size=v["buf"],
                            step_per_collect=c0 if unit == "s" else None, episode_per_collect=c0 if unit == "e" else None, start_timesteps=v["start"][0], start_timesteps_random=v["start"][1],
                            **({"repeat_per_collect": v["rep"]} if on else {"update_per_step": v["rep"]}))
        runnable = True
        if extra:     # buffer layout is judged without training (the networks do not take stacked input)
            for k, x in extra.items():
                setattr(sc, k, x)
            runnable = False
        if not on and unit == "e":
            continue      # off-policy algorithms collect steps
        st.ctx = {"algorithm": name, **{k: x for k, x in v.items()}, **extra}
        Env.LOG.clear()
        with recording(TD.Collector, TD.ReplayBuffer, TD.VectorReplayBuffer, TD.ReplayBufferManager) as rec, updates() as ups:
            ex = builder(name, kind, sc=sc).build()
            if runnable:
                r = ex.run()
                w, res = r.world, r.trainer_result
            else:
                w = ex.create_experiment_world()
        envs = list(Env.LOG)
        tr = [x for x in envs if x.mode == EnvMode.TRAIN and x.resets]
        te = [x for x in envs if x.mode == EnvMode.TEST]
        st.check(len(w.envs.train_envs) == v["ntr"] == len(tr) and len(w.envs.test_envs) == v["nte"] == len(te), "env-count", lambda: f"{len(tr)} training and {len(te)} test environments, configured {v['ntr']} and {v['nte']}")
        cols = [(a, o) for c, a, o in rec if isinstance(o, Collector)]
        st.check([a["exploration_noise"] for a, o in cols if o is w.train_collector] == [True] and [a["exploration_noise"] for a, o in cols if o is w.test_collector] == [False], "exploration", "exploration noise must be on for training and off for testing")
        ba = [a for c, a, o in rec if o is w.train_collector.buffer][0]
        buf = w.train_collector.buffer
        size = -(-v["buf"] // v["ntr"]) * v["ntr"]
        st.check(buf.maxsize == size, "buffer-size", lambda: f"buffer of {buf.maxsize}, configured {v['buf']} for {v['ntr']} environments")
        st.check(getattr(buf, "stack_num", None) == extra.get("replay_buffer_stack_num", 1) and {**ba, **ba.get("kwargs", {})}.get("ignore_obs_next", False) == extra.get("replay_buffer_ignore_obs_next", False) and {**ba, **ba.get("kwargs", {})}.get("save_only_last_obs", False) == extra.get("replay_buffer_save_only_last_obs", False), "buffer-layout", lambda: f"buffer built with {ba}")
        st.check(w.test_collector.buffer is not buf, "shared-buffer", "test data goes to the training buffer")
        st.step()
        if runnable:
            m = v["ntr"]
            pre = -(-v["start"][0] // m) * m
            total = sum(x.steps for x in tr)
            st.check(res is not None, "no-result", "a finished training reports no result")
            if unit == "s":
                c = -(-c0 // m) * m
                ncol = -(-v["spe"] // c) * v["ep"]
                st.check(total == pre + ncol * c, "train-steps", lambda: f"{total} training environment steps, configuration gives {pre} + {ncol} x {c}")
                st.check(all(x.steps == total // m for x in tr), "train-steps", "training environments stepped unevenly")
                st.check(on or len(buf) == min(total, size), "buffer-content", lambda: f"{len(buf)} transitions in the buffer of {size} after {total} steps")
            else:
                ncol = len(ups)
                st.check(sum(x.episodes for x in tr) >= ncol * c0 and res.train_episode == ncol * c0, "train-episodes", lambda: f"{res.train_episode} training episodes in {ncol} collections of {c0}")
                st.check(total - pre >= v["spe"] * v["ep"], "train-steps", f"{total} steps in all epochs")
            st.check(sum(x.episodes for x in te) == (v["ep"] + 1) * v["test"], "test-episodes", lambda: f"{sum(x.episodes for x in te)} test episodes, {v['ep'] + 1} evaluations of {v['test']} configured")
            if on:
                st.check(len(ups) == ncol and all(u[1] == v["bs"] and u[2] == v["rep"] for u in ups), "updates", lambda: f"updates {ups[:3]} ({len(ups)}), configured batch size {v['bs']}, repeat {v['rep']}, {ncol} collections")
            else:
                per = round(v["rep"] * c)
                st.check(len(ups) == per * ncol and all(u[0] == v["bs"] for u in ups), "updates", lambda: f"{len(ups)} updates, configured {per} after each of {ncol} collections, sample size {v['bs']} (was {ups[:1]})")
                st.check(res.gradient_step == per * ncol, "result", lambda: f"result reports {res.gradient_step} gradient steps")
            if unit == "s":
                st.check(res.train_step - pre == ncol * c or res.train_step == ncol * c, "result", lambda: f"result reports {res.train_step} training steps")
            st.check(res.test_episode == (v["ep"] + 1) * v["test"], "result", lambda: f"result reports {res.test_episode} test episodes")
            if not v["start"][0]:
                st.check(all(x.resets >= 1 for x in tr), "reset", "not all environments were reset")
        close(w)
        st.state(repr(st.ctx))
        st.trace(st.ctx)


# ---------------------------------------------------------------------- networks
def linears(m):
    return [(l.in_features, l.out_features) for l in m.modules() if isinstance(l, torch.nn.Linear)]


def acts(m):
    return {type(x) for x in m.modules() if type(x) in (torch.nn.ReLU, torch.nn.Tanh, torch.nn.ELU)}


VIA = ("fresh", "copy", "pickle", "restored")


def world(b, via, root):
    ex = b.build()
    if via == "copy":
        ex = copy.deepcopy(ex)
    elif via == "pickle":
        ex = pickle.loads(pickle.dumps(ex))
    elif via == "restored":
        d = os.path.join(root, "saved")
        os.makedirs(d, exist_ok=True)
        ex.save(d)
        ex = X.Experiment.from_directory(d, restore_policy=False)
    with recording(*POLS) as rec:
        w = ex.create_experiment_world()
    return ex, w, [a for c, a, o in rec if o is w.policy][0]


def modules(name, kind, st):
    s = B[name][5]
    root = tempfile.mkdtemp(prefix="mc37")
    try:
        for hs, act, via in itertools.product(((5,), (6, 7), ()), (torch.nn.ReLU, torch.nn.Tanh, torch.nn.ELU), VIA):
            if not hs and act is not torch.nn.ReLU or name == "iqn":
                continue
            st.ctx = {"algorithm": name, "actions": kind, "hidden_sizes": hs, "activation": act.__name__, "via": via}
            b = builder(name, kind, hidden=False)
            shape(b, name, hs, act)
            ex, w, a = world(b, via, root)
            chain = [2, *hs]
            st.step()
            main = a["model"] if s == "model" else a["actor"]
            lin = linears(main)
            st.check(lin[:len(hs)] == list(zip(chain[:-1], chain[1:], strict=True)) and all(i == chain[-1] for i, o in lin[len(hs):]), "actor-shape", lambda: f"layers {lin}, hidden sizes {hs} configured")
            st.check(not hs or acts(main) == {act}, "actor-activation", lambda: f"activations {acts(main)}, configured {act}")
            for c in ("critic", "critic2"):
                if c in a and a[c] is not None and name != "redq":
                    lin = linears(a[c])
                    first = 2 + (2 if s in ("ac", "twin") and kind == "c" else 0)
                    ch = [first, *hs]
                    st.check(lin[:len(hs)] == list(zip(ch[:-1], ch[1:], strict=True)) and lin[-1][0] == ch[-1], "critic-shape", lambda: f"layers of {c} {lin}, hidden sizes {hs} configured")
                    st.check(not hs or acts(a[c]) == {act}, "critic-activation", lambda: f"activations {acts(a[c])}, configured {act}")
            close(w)
            st.state((name, kind, hs, act.__name__, via))
            st.trace(st.ctx)
        if name == "redq":
            for n, hs in itertools.product((2, 3), ((5,), (4, 3))):
                b = builder(name, kind, params=PP.REDQParams(ensemble_size=n))
                b.with_critic_ensemble_factory_default(hs)
                ex, w, a = world(b, "fresh", root)
                sh = [tuple(p.shape) for k, p in a["critic"].named_parameters() if p.dim() == 3 and k.endswith("weight")]
                ch = [4, *hs, 1]
                st.step()
                st.check([x for x in sh if x[0] == n] == sh and [x[1:] for x in sh] == list(zip(ch[:-1], ch[1:], strict=True)), "ensemble-shape", lambda: f"ensemble weights {sh} for {n} members and hidden sizes {hs}")
                close(w)
        # defaults of the actor's distribution
        if "with_actor_factory_default" in dir(B[name][0]) and kind == "c" and name in ("pg", "a2c", "ppo", "npg", "trpo", "sac"):
            for unb, cond in itertools.product((True, False), repeat=2):
                st.ctx = {"algorithm": name, "continuous_unbounded": unb, "continuous_conditioned_sigma": cond}
                b = builder(name, kind)
                b.with_actor_factory_default((4,), continuous_unbounded=unb, continuous_conditioned_sigma=cond)
                ex, w, a = world(b, "fresh", root)
                act = a["actor"]
                for p in act.parameters():
                    if p.dim() == 2:
                        torch.nn.init.constant_(p.data, 3.0)
                (mu, s1), _ = act(np.array([[5.0, 5.0]], dtype=np.float32))
                (_, s2), _ = act(np.array([[0.01, -0.3]], dtype=np.float32))
                st.step()
                st.check((mu.abs().max() > 1.0001) == unb, "unbounded", lambda: f"mean {mu.tolist()}: unbounded={unb}")
                st.check((not torch.allclose(s1, s2)) == cond, "conditioned-sigma", lambda: f"standard deviations {s1.tolist()} and {s2.tolist()} for two observations: conditioned={cond}")
                close(w)
        # sharing
        share = []
        if s == "onac":
            share = [(("with_critic_factory_use_actor",), ("critic",))]
        elif s == "twin":
            share = [(("with_critic1_factory_use_actor",), ("critic",)), (("with_critic2_factory_use_actor",), ("critic2",)), (("with_common_critic_factory_use_actor",), ("critic", "critic2"))]
        elif name == "ddpg":
            share = [(("with_critic_factory_use_actor",), ("critic",))]
        for (meths, which), via in itertools.product(share, VIA):
            st.ctx = {"algorithm": name, "actions": kind, "sharing": meths, "via": via}
            b = builder(name, kind)
            for m in meths:
                getattr(b, m)()
            ex, w, a = world(b, via, root)
            ap = {id(p) for p in a["actor"].parameters()}
            for c in ("critic", "critic2"):
                if c in a and a[c] is not None:
                    shared = bool(ap & {id(p) for p in a[c].parameters()})
                    st.step()
                    st.check(shared == (c in which), "sharing", lambda: f"{c} shares parameters with the actor: {shared}; configured for {which}")
            close(w)
            st.state((name, kind, meths, via))
            st.trace(st.ctx)
    finally:
        shutil.rmtree(root, ignore_errors=True)


# ---------------------------------------------------------------------- flags
def flags(name, st):
    kind = "d"
    for train, watch, pers, logf, wn in itertools.product((True, False), (True, False), (True, False), (True, False), (1, 3)):
        root = tempfile.mkdtemp(prefix="mc37")
        try:
            st.ctx = {"algorithm": name, "train": train, "watch": watch, "persistence": pers, "log_file": logf, "watch_episodes": wn}
            cfg = config(train=train, watch=watch, watch_num_episodes=wn, persistence_enabled=pers, log_file_enabled=logf, persistence_base_dir=os.path.join(root, "base"))
            Env.LOG.clear()
            r = builder(name, kind, cfg=cfg).build().run(run_name=os.path.join("a", "run"))
            we = [e for e in Env.LOG if e.mode == EnvMode.WATCH]
            tr = sum(e.steps for e in Env.LOG if e.mode == EnvMode.TRAIN)
            st.step()
            st.check((r.trainer_result is not None) == train and (r.world.trainer is not None) == train and (tr > 0) == train, "train-flag", lambda: f"train={train}: {tr} training steps, result {r.trainer_result}")
            st.check(len(we) == int(watch) and sum(e.episodes for e in we) == (wn if watch else 0), "watch-flag", lambda: f"watch={watch}, {wn} episodes: {[e.episodes for e in we]} watched")
            d = os.path.join(root, "base", "a", "run")
            files = set(os.listdir(d)) if os.path.isdir(d) else set()
            st.check(os.path.exists(os.path.join(root, "base")) == pers and ("experiment.pkl" in files) == pers and ("log.txt" in files) == (pers and logf), "persistence-flag", lambda: f"files {files}")
            st.check(not train or not pers or any(f.endswith(".pt") for f in files), "persistence-flag", lambda: f"no policy among {files}")
            if pers:
                try:
                    builder(name, kind, cfg=cfg).build().run(run_name=os.path.join("a", "run"))
                    st.check(False, "collision", "an existing run directory was overwritten")
                except FileExistsError:
                    pass
                close(builder(name, kind, cfg=cfg).build().run(run_name=os.path.join("a", "run"), raise_error_on_dirname_collision=False).world)
            close(r.world)
            st.state(repr(st.ctx))
            st.trace(st.ctx)
        finally:
            shutil.rmtree(root, ignore_errors=True)


def random(st):
    for kind, n in itertools.product("dc", (1, 2)):
        Env.LOG.clear()
        b = X.RandomActionExperimentBuilder(Factory(kind == "c"), config(watch=True, watch_num_episodes=2, train=False), small(num_train_envs=n))
        st.ctx = {"builder": "random", "actions": kind, "envs": n}
        r = b.build().run()
        st.step()
        we = [e for e in Env.LOG if e.mode == EnvMode.WATCH]
        st.check(len(we) == 1 and we[0].episodes == 2 and all(we[0].action_space.contains(a if kind == "c" else int(a)) for a in we[0].acts), "random-agent", lambda: f"{[e.acts for e in we]}")
        close(r.world)
        st.state((kind, n))
        st.trace(st.ctx)


# ---------------------------------------------------------------------- callbacks
class TrainCB(EpochTrainCallback):
    def __init__(self, log):
        self.log = log

    def callback(self, epoch, env_step, context):
        self.log.append(("train", epoch, env_step, context))


class TestCB(EpochTestCallback):
    def __init__(self, log):
        self.log = log

    def callback(self, epoch, env_step, context):
        self.log.append(("test", epoch, env_step, context))


class StopCB(EpochStopCallback):
    def __init__(self, log, at):
        self.log, self.at, self.n = log, at, 0

    def should_stop(self, mean_rewards, context):
        self.log.append(("stop", mean_rewards, None, context))
        self.n += 1
        return self.n > self.at


def callbacks(name, st):
    for ep, at, use in itertools.product((1, 2, 3), (0, 1, 2, 9), itertools.product((True, False), repeat=3)):
        log = []
        st.ctx = {"algorithm": name, "epochs": ep, "stop_after": at, "callbacks": use}
        b = builder(name, "d", sc=small(num_epochs=ep))
        if use[0]:
            b.with_epoch_train_callback(TrainCB(log))
        if use[1]:
            b.with_epoch_test_callback(TestCB(log))
        if use[2]:
            b.with_epoch_stop_callback(StopCB(log, at))
        ex = b.build()
        r = ex.run()
        st.step()
        ran = ep
        if use[2]:
            ran = min(ep, at) if at else 0
        kinds = [x[0] for x in log]
        # the initial evaluation, then per epoch: training callback(s), test callback, stop question
        epochs_tr = sorted({x[1] for x in log if x[0] == "train"})
        tests = [x[1] for x in log if x[0] == "test"]
        st.check(not use[0] or epochs_tr == list(range(1, len(epochs_tr) + 1)), "train-callback", lambda: f"training callback for epochs {epochs_tr}")
        if not use[2]:
            st.check(not use[0] or epochs_tr == list(range(1, ep + 1)), "train-callback", lambda: f"training callback for epochs {epochs_tr} of {ep}")
            st.check(not use[1] or tests == list(range(ep + 1)), "test-callback", lambda: f"test callback for evaluations {tests}, {ep} epochs")
        else:
            st.check(kinds.count("stop") <= at + 1 + 1, "stop-callback", lambda: f"training went on after being told to stop: {kinds}")
            st.check(at < 9 or (not use[0] or epochs_tr == list(range(1, ep + 1))), "stop-callback", "stopped without being told to")
            if 0 < at <= ep and use[0]:
                st.check(len(epochs_tr) <= at + 1, "stop-callback", lambda: f"{len(epochs_tr)} epochs trained, told to stop at question {at + 1}")
        st.check(all(x[3].policy is r.world.policy and x[3].envs is r.world.envs and x[3].logger is r.world.logger for x in log), "callback-context", "callbacks see another policy, environment set or logger")
        close(r.world)
        st.state(repr(st.ctx))
        st.trace(st.ctx)
    for thr, rew in itertools.product((1.0, 5.0), (0.5, 1.0, 4.9, 5.0, 6.0)):
        cb = EpochStopCallbackRewardThreshold(thr)
        st.step()
        st.check(bool(cb.get_trainer_fn(None)(rew)) == (rew >= thr), "threshold", f"threshold {thr}, reward {rew}")


# ---------------------------------------------------------------------- policy wrappers and exploration callbacks
class Features(IntermediateModuleFactory):
    def create_intermediate_module(self, envs, device):
        torch.manual_seed(3)
        return IntermediateModule(torch.nn.Sequential(torch.nn.Linear(2, 5), torch.nn.Tanh()), 5)


def wrap(name, st):
    """Intrinsic curiosity around every algorithm: the configured one around exactly the configured policy, trained and persisted."""
    kind = "d" if "d" in B[name][4] else "c"
    for hs, lr, ls, rs, fw in (((), 0.5, 1.0, 0.0, 0.2), ((3,), 1e-3, 2.0, 0.75, 0.9), ((4, 6), 0.25, 0.5, 1.5, 0.0)):
        st.ctx = {"algorithm": name, "hidden": hs, "lr": lr, "lr_scale": ls, "reward_scale": rs, "forward_loss_weight": fw}
        root = tempfile.mkdtemp(prefix="mc37-")
        try:
            b = builder(name, kind, cfg=config(persistence_enabled=True, persistence_base_dir=root)).with_optim_factory(OptimizerFactoryTorch(torch.optim.SGD, momentum=0.3))
            b.with_policy_wrapper_factory(PolicyWrapperFactoryIntrinsicCuriosity(feature_net_factory=Features(), hidden_sizes=hs, lr=lr, lr_scale=ls, reward_scale=rs, forward_loss_weight=fw))
            st.step()
            if kind == "c":
                try:
                    b.build().create_experiment_world()
                    st.violate("icm-continuous", "curiosity of continuous actions was accepted")
                except ValueError:
                    pass
                continue
            w = b.build().create_experiment_world()
            p = w.policy
            st.check(isinstance(p, P.ICMPolicy) and type(p.policy) is B[name][3], "wrapped", lambda: f"{type(p)} around {type(getattr(p, 'policy', None))}")
            st.check((p.lr_scale, p.reward_scale, p.forward_loss_weight) == (ls, rs, fw), "wrapper-parameters", lambda: f"{(p.lr_scale, p.reward_scale, p.forward_loss_weight)}")
            g = p.optim.param_groups
            st.check(isinstance(p.optim, torch.optim.SGD) and all(x["lr"] == lr and x["momentum"] == 0.3 for x in g) and optimised(p.optim) == {id(x) for x in p.model.parameters()}, "wrapper-optimiser", lambda: f"{p.optim}")
            dims = [5 + 3, *hs, 5], [5 + 5, *hs, 3]
            got = linears(p.model.forward_model), linears(p.model.inverse_model)
            st.check(got == tuple(list(zip(d, d[1:])) for d in dims), "wrapper-networks", lambda: f"layers {got}, widths {dims}")
            st.check(w.train_collector.policy is p and w.test_collector.policy is p and w.trainer.policy is p, "wrapper-used", "training does not use the wrapped policy")
            st.check(p.action_space == p.policy.action_space, "wrapper-space", "action spaces differ")
            close(w)
            r = b.with_name("run").build().run()
            q = X.Experiment.from_directory(os.path.join(root, "run")).create_experiment_world(raise_error_on_dirname_collision=False)
            st.check(isinstance(q.policy, P.ICMPolicy) and all(torch.equal(v, q.policy.state_dict()[k]) for k, v in r.world.policy.state_dict().items()), "wrapper-restored", "the restored policy differs from the trained one")
            moved = any(not torch.equal(v, p.state_dict()[k]) for k, v in r.world.policy.state_dict().items() if k.startswith("model."))
            st.check(moved, "wrapper-trained", "the curiosity model was not trained")
            close(r.world)
            close(q)
        finally:
            shutil.rmtree(root, ignore_errors=True)
        st.state((name, hs))
        st.trace(st.ctx)


def eps(which, st):
    """Exploration rates at every training and evaluation stage, read where the policy acts."""
    for tr, te, ep in itertools.product((None, ("set", 0.7), ("decay", 0.9, 0.1, 10), ("decay", 0.9, 0.1, 4), ("decay", 1.0, 0.0, 1000)), (None, 0.0, 0.05), (1, 3)):
        st.ctx = {"policy": which, "training": tr, "test": te, "epochs": ep}
        log, seen, written, testing = [], [], [], []
        b = builder("iqn" if which == "iqn" else "dqn", "d", sc=small(num_epochs=ep, step_per_epoch=8), cfg=config())
        if tr:
            b.with_epoch_train_callback(EpochTrainCallbackDQNSetEps(tr[1]) if tr[0] == "set" else EpochTrainCallbackDQNEpsLinearDecay(*tr[1:]))
        if te is not None:
            b.with_epoch_test_callback(EpochTestCallbackDQNSetEps(te))
        if which == "icm":
            b.with_policy_wrapper_factory(PolicyWrapperFactoryIntrinsicCuriosity(feature_net_factory=Features(), hidden_sizes=(), lr=0.1, lr_scale=1.0, reward_scale=0.0, forward_loss_weight=0.2))
        w = b.build().create_experiment_world()
        pol = w.policy.policy if which == "icm" else w.policy
        start = pol.eps
        orig, steps = pol.exploration_noise, [0]

        def noise(act, batch, pol=pol):
            seen.append((len(w.train_collector.buffer), pol.training, pol.eps))
            return orig(act, batch)
        pol.exploration_noise = noise
        real = type(pol).forward

        def forward(batch, *a, pol=pol, **k):
            if testing:
                log.append(pol.eps)
            return real(pol, batch, *a, **k)
        pol.forward = forward
        lw, tc = w.logger.write, w.test_collector.collect

        def collect(*a, tc=tc, **k):
            testing.append(1)
            try:
                return tc(*a, **k)
            finally:
                testing.clear()
        w.test_collector.collect = collect

        def write(kind, step, data):
            written.extend((step, v) for k, v in data.items() if k.split("/")[-1] == "eps")
            return lw(kind, step, data)
        w.logger.write = write
        w.trainer.run()
        st.step()

        def due(step):
            return tr[1] if tr[0] == "set" else tr[1] + (tr[2] - tr[1]) * min(step / tr[3], 1)
        if tr:       # collections of 4 steps, 2 environments at a time: the rate is that of the collection's start
            st.check(bool(seen) and all(abs(e - due(n // 4 * 4)) < 1e-9 for n, t, e in seen), "train-eps", lambda: f"(steps collected, in training mode, rate): {seen}")
        else:
            st.check(all(e == (start if te is None else te) for _, _, e in seen), "train-eps", lambda: f"{seen}, rate at the start {start}")
        if te is not None:
            st.check(bool(log) and all(e == te for e in log), "test-eps", lambda: f"rates while testing {log}")
        if tr and tr[0] == "decay":
            st.check(written == [(n, due(n)) for n in range(0, 8 * ep, 4)] or [(n, round(v, 9)) for n, v in written] == [(n, round(due(n), 9)) for n in range(0, 8 * ep, 4)], "eps-log", lambda: f"logged rates {written}")
        close(w)
        st.state(repr(st.ctx))
        st.trace(st.ctx)


# ---------------------------------------------------------------------- reproducibility and seeded collections
def repeat(name, kind, st):
    outs = []
    root = tempfile.mkdtemp(prefix="mc37-")
    flags = ({}, {}, dict(persistence_enabled=True, persistence_base_dir=root), dict(watch=True, watch_num_episodes=1, watch_render=0.0))     # where results are kept or shown does not change them
    for k, fl in enumerate(flags):
        np.random.seed(100 + k)
        torch.manual_seed(200 + k)
        Env.LOG.clear()
        pv = B[name][2]()
        if name == "redq":
            pv.ensemble_size = 2
        r = builder(name, kind, params=pv, sc=small(num_epochs=2, start_timesteps=4), cfg=config(seed=7, **fl)).build()
        r.env_factory = Seeded(kind == "c")
        r = r.run()
        outs.append(({k_: v.clone() for k_, v in r.world.policy.state_dict().items()}, [np.array(e.acts).tolist() for e in Env.LOG if e.mode != EnvMode.WATCH], [e.seeds for e in Env.LOG if e.mode != EnvMode.WATCH], r.trainer_result.best_reward))
        close(r.world)
        st.step()
    shutil.rmtree(root, ignore_errors=True)
    for fl, o in zip(flags[1:], outs[1:]):
        st.ctx = {"algorithm": name, "actions": kind, "flags": fl}
        st.check(outs[0][1:] == o[1:], "not-reproducible", "the same experiment with the same seeds took other actions")
        st.check(all(torch.equal(v, o[0][k]) for k, v in outs[0][0].items()), "not-reproducible", "the same experiment with the same seeds trained another policy")
    st.state((name, kind))
    st.trace(st.ctx)


class Seeded(Factory):
    def create_venv(self, num_envs, mode):
        v = super().create_venv(num_envs, mode)
        v.seed(5)
        return v


def collection(st):
    for n, m, seed, tseed in itertools.product((1, 2, 3), (1, 3), (0, 7), (42, 5)):
        sc = small(num_train_envs=m, train_seed=tseed, num_test_envs=2, num_test_episodes=2)
        ef = EnvFactoryRegistered(task="MCReg-v0", train_seed=sc.train_seed, test_seed=sc.test_seed, venv_type=VectorEnvType.DUMMY)
        b = X.PGExperimentBuilder(ef, config(seed=seed), sc).with_name("exp")
        st.ctx = {"experiments": n, "train_envs": m, "seed": seed, "train_seed": tseed}
        col = b.build_seeded_collection(n)
        st.check(len(col.experiments) == n and len({e.name for e in col.experiments}) == n, "collection", "wrong number of experiments or names not unique")
        used = []
        for i, e in enumerate(col.experiments):
            Env.LOG.clear()
            w = e.create_experiment_world()
            seeds = sorted({s for x in w.train_collector.env.workers for s in x.env.unwrapped.seeds})
            used.append(seeds)
            st.step()
            st.check(e.config.seed == seed + i, "collection-seed", lambda: f"experiment {i} has seed {e.config.seed}")
            st.check(len(seeds) == m, "collection-env-seeds", lambda: f"{m} training environments seeded with {seeds}")
            st.check(f"train_seed={min(seeds)}" in e.name, "collection-env-seeds", lambda: f"experiment {e.name!r} seeded its training environments with {seeds}")
            close(w)
        flat = [s for u in used for s in u]
        st.check(len(flat) == len(set(flat)), "collection-env-seeds", lambda: f"training environments of the experiments share seeds: {used}")
        st.check(b.experiment_config.seed == seed and b.sampling_config.train_seed == tseed and ef.train_seed == tseed, "collection-builder", "building a collection changed the builder")
        st.state((n, m, seed, tseed))
        st.trace(st.ctx)


# ---------------------------------------------------------------------- environments
def venvs(st):
    from tianshou.env import DummyVectorEnv, SubprocVectorEnv
    for vt in (VectorEnvType.DUMMY, VectorEnvType.SUBPROC, VectorEnvType.SUBPROC_SHARED_MEM_DEFAULT_CONTEXT, VectorEnvType.SUBPROC_SHARED_MEM_FORK_CONTEXT, VectorEnvType.SUBPROC_SHARED_MEM_AUTO):
        for n, m, watch, cont in ((1, 2, True, True), (2, 1, False, False), (3, 2, True, False)):
            st.ctx = {"venv": vt.name, "train": n, "test": m, "watch": watch, "continuous": cont}
            made = [Factory(cont, vt).create_envs(n, m, watch), Environments.from_factory_and_type(lambda mode: Env(mode, cont), E.CONTINUOUS if cont else E.DISCRETE, vt, n, m, watch)]
            made.append((ContinuousEnvironments if cont else DiscreteEnvironments).from_factory(lambda mode: Env(mode, cont), vt, n, m, watch))
            for es in made:
                cls = DummyVectorEnv if vt is VectorEnvType.DUMMY else SubprocVectorEnv
                st.step()
                st.check(type(es) is (ContinuousEnvironments if cont else DiscreteEnvironments) and es.get_type() is (E.CONTINUOUS if cont else E.DISCRETE), "envs-type", f"{type(es)}")
                st.check(len(es.train_envs) == n and len(es.test_envs) == m and type(es.train_envs) is cls and type(es.test_envs) is cls, "envs-count", lambda: f"{es.train_envs}, {es.test_envs}")
                st.check((es.watch_env is not None) == watch and (not watch or type(es.watch_env) is DummyVectorEnv and len(es.watch_env) == 1), "envs-watch", f"{es.watch_env}")
                st.check([m_.name for m_ in es.train_envs.get_env_attr("mode")] == ["TRAIN"] * n and [m_.name for m_ in es.test_envs.get_env_attr("mode")] == ["TEST"] * m and (not watch or es.watch_env.get_env_attr("mode")[0] == EnvMode.WATCH), "envs-mode", "environments of the wrong mode")
                st.check(es.get_action_shape() == ((2,) if cont else 3) and es.get_observation_shape() == (2,) and (not cont or es.max_action == 2.0), "envs-shape", f"{es.info()}")
                for v in (es.train_envs, es.test_envs, es.watch_env):
                    if v is not None:
                        v.close()
            st.state(repr(st.ctx))
            st.trace(st.ctx)


def registered(st):
    for n, m, a, b, modes, kw in itertools.product((1, 3), (1, 2), (0, 11), (3, 40), ((None, "rgb_array", "human"), ("ansi", None, "rgb_array")), ({}, {"flavour": 4})):
        Env.LOG.clear()
        f = EnvFactoryRegistered(task="MCReg-v0", train_seed=a, test_seed=b, venv_type=VectorEnvType.DUMMY, render_mode_train=modes[0], render_mode_test=modes[1], render_mode_watch=modes[2], **kw)
        st.ctx = {"train": n, "test": m, "seeds": (a, b), "render": modes, "kwargs": kw}
        es = f.create_envs(n, m, True)
        for v in (es.train_envs, es.test_envs, es.watch_env):
            v.reset()
        for v, k, s, r in ((es.train_envs, n, a, modes[0]), (es.test_envs, m, b, modes[1]), (es.watch_env, 1, b, modes[2])):
            us = [w.env.unwrapped for w in v.workers]
            st.step()
            st.check([u.seeds[:1] for u in us] == [[s + i] for i in range(k)], "registered-seeds", lambda: f"seeds {[u.seeds for u in us]}, configured {s}")
            st.check(all(u.kw == {**kw, "render_mode": r} or (r is None and u.kw == kw) for u in us), "registered-kwargs", lambda: f"environment arguments {[u.kw for u in us]}, configured {kw}, {r}")
        st.state(repr(st.ctx))
        st.trace(st.ctx)


def dists(st):
    """The distribution over actions is the one the network's output stands for."""
    es = DiscreteEnvironments.from_factory(lambda mode: Env(mode, False), VectorEnvType.DUMMY, 1, 1)
    cs = ContinuousEnvironments.from_factory(lambda mode: Env(mode, True), VectorEnvType.DUMMY, 1, 1)
    for lg in itertools.product((-2.0, 0.0, 1.0, 30.0), repeat=3):
        x = torch.tensor([lg])
        p = torch.softmax(x, -1)
        for probs in (True, False):
            d = DistributionFunctionFactoryCategorical(probs).create_dist_fn(es)(p if probs else x)
            st.step()
            st.check(torch.allclose(d.probs, p, atol=1e-6), "categorical", lambda: f"{d.probs} instead of {p} (probabilities given: {probs})")
    for mu, sg in itertools.product((-1.0, 0.5), (0.1, 2.0)):
        d = DistributionFunctionFactoryIndependentGaussians().create_dist_fn(cs)((torch.full((1, 2), mu), torch.full((1, 2), sg)))
        a = torch.tensor([[0.3, -0.7]])
        want = sum(-0.5 * ((v - mu) / sg) ** 2 - np.log(sg) - 0.5 * np.log(2 * np.pi) for v in (0.3, -0.7))
        st.step()
        st.check(d.log_prob(a).shape == (1,) and abs(d.log_prob(a).item() - want) < 1e-4, "gaussian", "density")
    for name in ("pg", "a2c", "ppo", "npg", "trpo", "dsac"):
        for scale in (1.0, 50.0):
            w = builder(name, "d").build().create_experiment_world()
            lin = [m for m in w.policy.actor.modules() if isinstance(m, torch.nn.Linear)][-1]
            with torch.no_grad():
                lin.weight.zero_()
                lin.bias.copy_(torch.tensor([scale, 0.0, -scale]))
            d = w.policy(Batch(obs=np.zeros((1, 2), dtype=np.float32), info=Batch())).dist
            p = torch.softmax(torch.tensor([[scale, 0.0, -scale]]), -1)
            st.ctx = {"algorithm": name, "logits": (scale, 0, -scale)}
            st.step()
            st.check(torch.allclose(d.probs, p, atol=1e-5), f"policy-distribution:{name}", lambda: f"action probabilities {d.probs.tolist()}, the network's last layer gives {p.tolist()}")
            st.state((name, scale))
            st.trace(st.ctx)
            close(w)


def noisefactory(st):
    cs = ContinuousEnvironments.from_factory(lambda mode: Env(mode, True), VectorEnvType.DUMMY, 1, 1)
    es = DiscreteEnvironments.from_factory(lambda mode: Env(mode, False), VectorEnvType.DUMMY, 1, 1)
    for v in (0.0, 0.1, 1.0):
        st.step()
        st.check(MaxActionScaled(v).create_value(cs) == 2.0 * v, "scaled-value", "value not scaled by the action bound")
        for f, m in ((MaxActionScaled(v), "create_value"), (MaxActionScaledGaussian(v), "create_noise")):
            try:
                getattr(f, m)(es)
                st.check(False, "scaled-discrete", "accepted a discrete environment")
            except Exception as e:
                st.check("continuous" in str(e).lower() or isinstance(e, (AssertionError, ValueError)), "scaled-discrete", f"{e!r}")
        te, la, op = AutoAlphaFactoryDefault(0.5).create_auto_alpha(cs, OptimizerFactoryAdam(), "cpu")
        st.check(te == -2.0 and la.tolist() == [0.0], "auto-alpha", f"{te}, {la}")
        st.trace({"value": v})
        st.state(v)


def run(job, st):
    globals()[job[0]](*job[1:], st=st)
