"""C32: saved policies, checkpoints and experiment state restore to the same behaviour."""
import copy
import itertools
import os
import pickle
import shutil
import tempfile
from types import SimpleNamespace

import gymnasium as gym
import numpy as np
import torch

from mc import pols
from tianshou.data import Batch, PrioritizedReplayBuffer, ReplayBuffer
from tianshou.env import DummyVectorEnv, VectorEnvNormObs
from tianshou.highlevel.config import SamplingConfig
from tianshou.highlevel.env import DiscreteEnvironments, EnvFactory, EnvMode, EnvType, VectorEnvType
from tianshou.highlevel.experiment import DQNExperimentBuilder, Experiment, ExperimentConfig, PGExperimentBuilder, PPOExperimentBuilder
from tianshou.highlevel.persistence import Persistence, PersistenceGroup, PersistEvent, PolicyPersistence, RestoreEvent
from tianshou.highlevel.world import World
from tianshou.policy import MultiAgentPolicyManager, PSRLPolicy
from tianshou.utils import RunningMeanStd

PROPERTY = "C32"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all histories of training/best/checkpoint/restore events on the real persistence objects and real files against a model of what every file holds; every policy class saved and restored in every mode after every training stage; real high-level experiments over their persistence options, restored from their directory"
NOTE = "Files live in a scratch directory created and removed by the check. Actions are compared on a fixed set of observations in evaluation mode and, with equal seeds, in training mode."
ASSUMPTIONS = ["policies are picklable where whole policies are stored (documented)", "optimiser state, update counters and automatically tuned temperatures are not part of a saved policy's behaviour"]
os.environ["TQDM_DISABLE"] = "1"
MODES = list(PolicyPersistence.Mode)


def BOUNDS(tier):
    q = tier == "quick"
    return (f"all {len(pols.ALL) + 3} policies x 2 modes x after 0-{2 if q else 3} updates; all histories of up to {4 if q else 5} events (train, new best, checkpoint of epochs 1 and 11, restore) x 2 modes x persistence enabled/disabled x statistics enabled/disabled; "
            "experiments: 3 algorithms x 2 modes x persistence on/off, 2 epochs, restored and continued")


def jobs(tier):
    q = tier == "quick"
    js = [["experiment", a, m, e] for a in range(3) for m in range(2) for e in (True, False)]
    js += [["policies", p, 2 if q else 3] for p in [*pols.ALL, "psrl", "ma", "marl:icm"]]
    js += [["events", m, e, g, a, 4 if q else 5] for m in range(2) for e in (True, False) for g in (True, False) for a in range(4)]
    return js


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="c32_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def build(name, seed):
    if name in ("ma", "marl:icm"):
        env = SimpleNamespace(agents=["a", "b"], agent_idx={"a": 0, "b": 1}, action_space=gym.spaces.Discrete(3), observation_space=None)
        return MultiAgentPolicyManager(policies=[pols.build("dqn", seed), pols.build("qrdqn", seed + 7)] if name == "ma" else [pols.build("icm", seed), pols.build("dqn", seed + 7)], env=env)
    if name == "psrl":
        return pols.build(name, seed)
    return pols.build(name, seed)


def train(pol, name, k):
    """k real updates."""
    if name == "psrl":
        buf = ReplayBuffer(10)
        for i in range(8):
            buf.add(Batch(obs=i % 3, act=i % 2, rew=float(i), terminated=i % 4 == 3, truncated=False, obs_next=(i + 1) % 3, info={}))
        for _ in range(k):
            pols.do_update(pol, name, buf)
        return
    if name in ("ma", "marl:icm"):
        for i, p in enumerate(pol.policies.values()):
            train(p, ("dqn", "qrdqn")[i] if name == "ma" else ("icm", "dqn")[i], k)
        return
    buf = pols.fill(ReplayBuffer(10), name, 8)
    for _ in range(k):
        pols.do_update(pol, name, buf)


def flatten(x, pre=""):
    """All tensors/arrays of a policy's output."""
    if isinstance(x, Batch):
        return {k2: v for k in x.get_keys() for k2, v in flatten(x[k], f"{pre}{k}.").items()}
    if isinstance(x, torch.Tensor):
        return {pre: x.detach().numpy()}
    return {pre: np.asarray(x)} if isinstance(x, np.ndarray) else {}


def act(pol, name, training):
    rng = np.random.default_rng(3)
    obs = rng.normal(size=(6, 3)).astype(np.float32)
    if name == "psrl":
        b = Batch(obs=np.arange(3), info=Batch())
    elif name in ("ma", "marl:icm"):
        b = Batch(obs=Batch(obs=obs, agent_id=np.array(["a", "b"] * 3), mask=np.ones((6, 3), dtype=bool)), info=Batch())
    else:
        b = Batch(obs=obs, info=Batch())
    pol.train(training)
    pol.is_within_training_step = False
    torch.manual_seed(5)
    np.random.seed(5)
    with torch.no_grad():
        r = pol(b)
    return flatten(Batch({k: r[k] for k in r.get_keys() if k in ("act", "logits", "state", "out")}))


def same_out(a, b):
    return set(a) == set(b) and all(np.array_equal(a[k], b[k]) for k in a)


def same_state(a, b):
    a, b = a.state_dict(), b.state_dict()
    return list(a) == list(b) and all(torch.equal(a[k], b[k]) for k in a)


def mkworld(policy, d, restore=None, envs=None):
    return World(envs=envs, policy=policy, logger=None, persist_directory=d, restore_directory=restore)


def policies(name, n, st):
    for k in range(n + 1):
        for mode in MODES:
            with Scratch() as d:
                pol = build(name, 0)
                train(pol, name, k)
                st.ctx = {"policy": name, "updates": k, "mode": mode.value}
                keep = copy.deepcopy(pol)
                pers = PolicyPersistence(mode=mode)
                w = mkworld(pol, d)
                pers.persist(pol, w)
                st.check(same_state(pol, keep), "saved-policy-changed", f"{name}: saving changed the policy")
                st.check(os.listdir(d) == [mode.get_filename()], "files", f"files {os.listdir(d)}")
                train(pol, name, 1)          # training goes on; the file must not follow
                new = build(name, 11)
                differs = not same_out(act(new, name, False), act(keep, name, False)) or name in ("psrl",)
                pers.restore(new, mkworld(new, os.path.join(d, "other"), restore=d), "cpu")
                st.step()
                st.check(same_state(new, keep), "restored-parameters", f"{name}: parameters differ after restoring")
                for tr in (False, True):
                    ok = same_out(act(new, name, tr), act(keep, name, tr))
                    if not ok and name in ("ma", "marl:icm", "psrl"):
                        st.record(f"not-in-state-dict:{'psrl' if name == 'psrl' else 'ma'}", f"{type(pol).__name__} saved as {mode.value} and restored acts differently: what it has learned is not part of its state_dict()")
                    else:
                        st.check(ok, "restored-actions", f"{name}: actions {'in training' if tr else 'in evaluation'} differ after restoring")
                if mode is PolicyPersistence.Mode.POLICY:
                    obj = torch.load(os.path.join(d, mode.get_filename()))
                    for tr in (False, True):
                        st.check(same_out(act(obj, name, tr), act(keep, name, tr)), "loaded-actions", f"{name}: the loaded policy object acts differently")
                st.check(differs or k == 0, "harness", "fresh policy equal to the saved one: nothing was tested")
                st.state((name, k, mode.value))
                st.trace(st.ctx)


class StatsPersistence(Persistence):
    """Environment statistics, as environment factories persist them."""

    def persist(self, event, world):
        assert event == PersistEvent.PERSIST_POLICY
        with open(world.persist_path("env_stats.pkl"), "wb") as f:
            pickle.dump(world.envs.train_envs.get_obs_rms(), f)

    def restore(self, event, world):
        assert event == RestoreEvent.RESTORE_POLICY
        with open(world.restore_path("env_stats.pkl"), "rb") as f:
            r = pickle.load(f)
        world.envs.train_envs.set_obs_rms(r)
        world.envs.test_envs.set_obs_rms(r)


class E0(gym.Env):
    observation_space = gym.spaces.Box(-9, 9, (3,))
    action_space = gym.spaces.Discrete(3)

    def __init__(self):
        self.t = 0

    def reset(self, seed=None, options=None):
        self.t = 0
        return np.zeros(3, dtype=np.float32), {}

    def step(self, a):
        self.t += 1
        return np.array([self.t, a, -self.t], dtype=np.float32), float(a), self.t >= 4, False, {}


def mkenvs():
    v = VectorEnvNormObs(DummyVectorEnv([E0]))
    t = VectorEnvNormObs(DummyVectorEnv([E0]), update_obs_rms=False)
    t.set_obs_rms(v.get_obs_rms())
    return SimpleNamespace(train_envs=v, test_envs=t, watch_env=None)


class Versioned(torch.nn.Module):
    def __init__(self, v=0.0):
        super().__init__()
        self.p = torch.nn.Parameter(torch.tensor([v]))
        self.register_buffer("b", torch.tensor([v]))


def events(m, enabled, group_enabled, first, depth, st):
    mode = MODES[m]
    ops = ["train", "best", "ckpt1", "ckpt2", "restore"]
    for ln in range(1, depth + 1):
        for seq in itertools.product(ops, repeat=ln):
            if seq[0] != ops[first] or "restore" in seq[:-2]:
                continue
            with Scratch() as root:
                d = os.path.join(root, "run")
                os.makedirs(d)
                envs = mkenvs()
                world = mkworld(Versioned(), d, restore=d, envs=envs)
                pers = PolicyPersistence(PersistenceGroup(StatsPersistence(), enabled=group_enabled), enabled=enabled, mode=mode)
                best, ckpt = pers.get_save_best_fn(world), pers.get_save_checkpoint_fn(world)
                st.check((ckpt is None) == (not enabled), "checkpoint-function", "a checkpoint function exists although persistence is disabled, or not although enabled")
                files, stats_at_best, stats_last = {}, None, None
                v = 0
                for i, op in enumerate(seq):
                    st.ctx = {"mode": mode.value, "enabled": enabled, "statistics_enabled": group_enabled, "history": seq[:i + 1]}
                    st.step()
                    if op == "train":
                        v += 1
                        with torch.no_grad():
                            world.policy.p.fill_(v)
                            world.policy.b.fill_(v)
                        envs.train_envs.get_obs_rms().update(np.full((2, 3), float(v)))
                    elif op == "best":
                        best(world.policy)
                        if enabled:
                            files[mode.get_filename()] = v
                            if group_enabled:
                                stats_at_best = stats_last = v
                    elif op.startswith("ckpt"):
                        e = {1: 1, 2: 11}[int(op[-1])]
                        if ckpt is not None:
                            p = ckpt(e, 10, 20)
                            name = f"{mode.value}_epoch_{e}.pt"
                            st.check(os.path.abspath(p) == os.path.join(d, name), "checkpoint-path", f"checkpoint of epoch {e} in {p}")
                            files[name] = v
                            if group_enabled:
                                stats_last = v
                    else:
                        if mode.get_filename() not in files or group_enabled and stats_last is None or not group_enabled:
                            continue
                        new = mkworld(Versioned(-1.0), os.path.join(root, "elsewhere"), restore=d, envs=mkenvs())
                        off = PolicyPersistence(PersistenceGroup(StatsPersistence(), enabled=False), enabled=False, mode=mode)
                        off.restore(new.policy, new, "cpu")
                        want = files[mode.get_filename()]
                        st.check(float(new.policy.p) == want and float(new.policy.b) == want, "restored-policy", f"restored parameter {float(new.policy.p)}, the best policy had {want}")
                        got = new.envs.train_envs.get_obs_rms()
                        st.check(new.envs.test_envs.get_obs_rms() is got, "restored-statistics", "test environments do not share the restored statistics")
                        n = got.count // 2
                        ref = RunningMeanStd()
                        for x in range(1, n + 1):
                            ref.update(np.full((2, 3), float(x)))
                        st.check(np.array_equal(got.mean, ref.mean) and np.array_equal(got.var, ref.var), "restored-statistics", "restored statistics are none that were ever current")
                        if n != stats_at_best:
                            st.check(n == stats_last, "restored-statistics", f"statistics of version {n}, saved with the policy: {stats_at_best}, last saved: {stats_last}")
                            st.record("stats-of-later-checkpoint", f"best policy saved with statistics of version {stats_at_best} is restored with those of version {n}, written by a later per-epoch checkpoint")
                        st.check(not os.path.exists(os.path.join(root, "elsewhere")), "restore-writes", "restoring wrote files")
                    on_disk = set(os.listdir(d))
                    want_files = set(files) | ({"env_stats.pkl"} if stats_last is not None else set())
                    st.check(on_disk == want_files and set(os.listdir(root)) == {"run"}, "files", lambda: f"files {on_disk}, expected {want_files}")
                    for f, ver in files.items():
                        x = torch.load(os.path.join(d, f))
                        x = x if isinstance(x, dict) else x.state_dict()
                        st.check(float(x["p"]) == ver and float(x["b"]) == ver, "file-content", f"{f} holds parameter {float(x['p'])}, expected {ver}")
                    if stats_last is not None:
                        with open(os.path.join(d, "env_stats.pkl"), "rb") as f:
                            st.check(pickle.load(f).count == 2 * stats_last, "statistics-file", "the statistics file does not hold the statistics of the last save")
                    st.state((m, enabled, group_enabled, tuple(sorted(files.items())), v, stats_last))
                st.trace(st.ctx)


class Factory(EnvFactory):
    def __init__(self):
        super().__init__(VectorEnvType.DUMMY)

    def create_env(self, mode: EnvMode):
        return E0()

    def create_venv(self, num_envs, mode):
        return VectorEnvNormObs(super().create_venv(num_envs, mode), update_obs_rms=mode == EnvMode.TRAIN)

    def create_envs(self, num_training_envs, num_test_envs, create_watch_env=False):
        e = super().create_envs(num_training_envs, num_test_envs, create_watch_env)
        e.test_envs.set_obs_rms(e.train_envs.get_obs_rms())
        e.set_persistence(StatsPersistence())
        return e


BUILDERS = (DQNExperimentBuilder, PPOExperimentBuilder, PGExperimentBuilder)


def experiment(ai, m, enabled, st):
    mode = MODES[m]
    with Scratch() as root:
        sc = SamplingConfig(num_epochs=2, step_per_epoch=8, step_per_collect=4, num_train_envs=2, num_test_envs=1, num_test_episodes=1, buffer_size=20, batch_size=4, start_timesteps=4)
        cfg = ExperimentConfig(persistence_enabled=enabled, policy_persistence_mode=mode, persistence_base_dir=root, watch=False, seed=3)
        ex = BUILDERS[ai](Factory(), cfg, sc).build()
        saved, order = [], []
        orig = PolicyPersistence.persist

        def persist(self, policy, world):
            saved.append(({k: v.clone() for k, v in policy.state_dict().items()}, copy.deepcopy(world.envs.train_envs.get_obs_rms())))
            return orig(self, policy, world)
        PolicyPersistence.persist = persist
        try:
            res = ex.run(run_name="run")
        finally:
            PolicyPersistence.persist = orig
        st.ctx = {"experiment": BUILDERS[ai].__name__, "mode": mode.value, "enabled": enabled}
        st.step()
        d = os.path.join(root, "run")
        if not enabled:
            st.check(os.listdir(root) == [], "files", f"persistence is disabled, but {[x for x in os.walk(root)]} was written")
            st.trace(st.ctx)
            return
        names = set(os.listdir(d))
        stem = mode.value
        st.check({f"{stem}.pt", "env_stats.pkl", Experiment.EXPERIMENT_PICKLE_FILENAME} <= names, "files", f"files {names}")
        if ai:         # on-policy experiments also keep a checkpoint per epoch
            st.check({f"{stem}_epoch_1.pt", f"{stem}_epoch_2.pt"} <= names, "files", f"files {names}")
        last = res.world.policy if not ai else torch.load(os.path.join(d, f"{stem}_epoch_2.pt"))
        last = last if ai == 0 or isinstance(last, dict) else last.state_dict()
        st.check(not ai or all(torch.equal(last[k], v) for k, v in res.world.policy.state_dict().items()), "last-checkpoint", "the last checkpoint does not hold the final policy")
        for tr in (True, False):
            back = Experiment.from_directory(d)
            st.check(back.config.policy_restore_directory == d and repr(back.sampling_config) == repr(sc), "restored-experiment", "restored configuration differs")
            back.config.persistence_base_dir = os.path.join(root, "second")
            back.config.persistence_enabled = False
            back.config.train = tr
            w = back.create_experiment_world()
            sd = w.policy.state_dict()
            st.check(list(sd) == list(saved[-1][0]) and all(torch.equal(sd[k], v) for k, v in saved[-1][0].items()), "restored-policy", "the restored policy is not the best one saved")
            st.check(not os.path.exists(os.path.join(root, "second")), "files", "restoring with persistence disabled wrote files")
            r = w.envs.train_envs.get_obs_rms()
            with open(os.path.join(d, "env_stats.pkl"), "rb") as f:
                onfile = pickle.load(f)
            st.check(r.count == onfile.count and np.array_equal(r.mean, onfile.mean) and np.array_equal(r.var, onfile.var), "restored-statistics", "environment statistics differ from the saved file")
            fresh = Experiment.from_directory(d, restore_policy=False)
            st.check(fresh.config.policy_restore_directory is None, "restored-experiment", "restore_policy=False is ignored")
            st.step()
        st.state((ai, m, enabled))
        st.trace(st.ctx)


def run(job, st):
    globals()[job[0]](*job[1:], st)
