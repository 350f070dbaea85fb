"""Controlled world for the trainers: real trainers, collectors and buffers over scripted environments,
a recording policy, a recording logger and scripted evaluation outcomes; every call-out is an event."""
import logging
import warnings
from dataclasses import dataclass

import gymnasium as gym
import numpy as np
import torch

from mc.coll import CEnv, Stub
from tianshou.data import Batch, Collector, ReplayBuffer, VectorReplayBuffer
from tianshou.env import DummyVectorEnv
from tianshou.policy.base import TrainingStats
from tianshou.trainer import OfflineTrainer, OffpolicyTrainer, OnpolicyTrainer
from tianshou.utils import BaseLogger

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)


@dataclass(kw_only=True)
class TStats(TrainingStats):
    loss: float = 0.0
    n_rows: int = 0


class Injected(Exception):
    pass


class Rec:
    """Event log; optionally fails at the n-th call-out."""

    def __init__(self, fail_at=None):
        self.ev, self.n, self.fail_at, self.flags, self.policy = [], 0, fail_at, [], None

    def point(self, what, *data, log=True):
        if log:
            self.ev.append((what, *data))
        p = self.policy
        if p is not None:
            self.flags.append((what, p.training, p.is_within_training_step, p.updating, p.lin.training))
        self.n += 1
        if self.fail_at is not None and self.n - 1 == self.fail_at:
            self.failed = what
            raise Injected(what)


class TEnv(CEnv):
    def __init__(self, rec, name, *a, **kw):
        super().__init__(*a, **kw)
        self.rec, self.name = rec, name

    def reset(self, seed=None, options=None):
        self.rec.point(self.name + ".env.reset", log=False)
        return super().reset(seed, options)

    def step(self, action):
        self.rec.point(self.name + ".env.step", log=False)
        return super().step(action)


class TPolicy(Stub):
    def __init__(self, rec, space, **kw):
        super().__init__(space, **kw)
        self.rec = rec
        self.losses = []
        self.lr_scheduler = None

    def forward(self, batch, state=None, **kw):
        self.rec.point("forward", log=False)
        return super().forward(batch, state, **kw)

    def process_buffer(self, buffer):
        self.rec.point("process_buffer")
        return buffer

    def process_fn(self, batch, buffer, indices):
        self.rec.point("process", log=False)
        return batch

    def post_process_fn(self, batch, buffer, indices):
        self.rec.point("post", log=False)

    def learn(self, batch, batch_size="-", repeat="-"):
        rows = tuple(sorted(tuple(np.asarray(o, dtype=float).tolist()) for o in batch.obs))
        self.rec.point("learn", len(batch), rows, batch_size, repeat)
        self.losses.append(float(len(self.losses) * 2 + 1))
        return TStats(loss=self.losses[-1], n_rows=len(batch))


class Sched:
    def __init__(self, rec):
        self.rec = rec

    def step(self):
        self.rec.point("lr", log=False)


class RecLogger(BaseLogger):
    def __init__(self, rec, saved=(0, 0, 0)):
        super().__init__(1, 1, 1, 1)
        self.rec, self.saved = rec, saved

    def prepare_dict_for_logging(self, d):
        return d

    def write(self, step_type, step, data):
        pass

    def log_train_data(self, d, step):
        self.rec.point("log_train", step, d["n_collected_steps"])

    def log_test_data(self, d, step):
        self.rec.point("log_test", step, d["n_collected_episodes"], d["returns_stat"]["mean"])

    def log_update_data(self, d, step):
        self.rec.point("log_update", step, d["loss"], d["smoothed_loss"]["loss"])

    def log_info_data(self, d, step):
        self.rec.point("log_info", step, d["gradient_step"], d["train_step"], d["train_episode"], d["test_step"], d["test_episode"], d["best_reward"], d["best_reward_std"], d["best_score"])

    def save_data(self, epoch, env_step, gradient_step, fn=None):
        self.rec.point("save_data", epoch, env_step, gradient_step)
        if fn:
            fn(epoch, env_step, gradient_step)

    def restore_data(self):
        self.rec.point("restore")
        return self.saved

    def finalize(self):
        pass

    @staticmethod
    def restore_logged_data(path):
        return {}


class TCol(Collector):
    """The real collector; announces each call and keeps its results."""

    def announce(self, rec, name, envs):
        self.rec, self.name, self.results, self.envs = rec, name, [], envs

    def collect(self, **kw):
        self.rec.point("collect", self.name, kw.get("n_step"), kw.get("n_episode"))
        h0 = [len(e.hist) for e in self.envs]
        r = super().collect(**kw)
        rows = [tuple(e.hist[k - 1]["obs"].tolist()) for e, h in zip(self.envs, h0, strict=True) for k in range(h, len(e.hist)) if e.hist[k]["kind"] == "step"]
        self.results.append((int(r.n_collected_steps), int(r.n_collected_episodes), None if not r.n_collected_episodes else float(np.mean(np.asarray(r.returns, dtype=float)[..., -1] if np.ndim(r.returns) > 1 else r.returns)),
                             np.asarray(r.returns, dtype=float).copy(), rows))
        return r


class TWorld:
    """cfg: kind off/on/offline; E, lens (training); T, n_test (evaluation environments, episodes); trainer parameters."""

    def __init__(self, cfg, st, ch=None, fail_at=None, training=False, within=False):
        self.cfg, self.st, self.ch = cfg, st, ch
        rec = self.rec = Rec(fail_at)
        E, T = cfg.get("E", 1), cfg.get("T", 1)
        space = gym.spaces.Discrete(97)
        self.kind = cfg["kind"]
        vec = cfg.get("metric", False)
        self.outcomes, self.train_outcomes = [], []
        mk = lambda: gym.spaces.Discrete(97)
        lens = [tuple(x) for x in cfg.get("lens", [(2,), (1, 3)])]
        self.pol = TPolicy(rec, space, state="none")
        if cfg.get("lr"):
            self.pol.lr_scheduler = Sched(rec)
        alpha = cfg.get("train_alpha")

        def train_rew(eid, ep, t):
            v = float(t)
            if alpha is not None:
                L = lens[eid % len(lens)]
                v = 0.0
                if t >= L[ep % len(L)]:
                    v = alpha[self.ch.choose(len(alpha))]
                    self.train_outcomes.append(v)
            return np.array([77.0, v]) if vec else v

        def test_rew(eid, ep, t):
            v = 0.0
            if t >= 2:
                v = self.outcomes[-1] + (self.spread(len(self.outcomes)) if eid == 1 else 0.0)
            return np.array([55.0 * t, v]) if vec else v

        self.train_envs = [TEnv(rec, "train", i, lens[i % len(lens)], (), "same", act_space=mk(), rew=train_rew) for i in range(E)]
        self.test_envs = [TEnv(rec, "test", i, (2,), (), "same", act_space=mk(), rew=test_rew) for i in range(T)]
        self.train_c = self.test_c = None
        cap = cfg.get("cap", 64)
        hooks = {}
        if cfg.get("hooks"):
            hooks = dict(on_step_hook=lambda a, r: rec.point("step_hook", log=False), on_episode_done_hook=lambda b: rec.point("episode_hook", log=False))
        if self.kind != "offline":
            self.train_c = TCol(self.pol, DummyVectorEnv([lambda e=e: e for e in self.train_envs]), VectorReplayBuffer(cap * E, E), **hooks)
            self.train_c.announce(rec, "train", self.train_envs)
        if cfg.get("test", True):
            self.test_c = TCol(self.pol, DummyVectorEnv([lambda e=e: e for e in self.test_envs]), **hooks)
            self.test_c.announce(rec, "test", self.test_envs)
        self.buffer = None
        if self.kind == "offline":
            self.buffer = ReplayBuffer(16)
            for k in range(cfg.get("data", 5)):
                self.buffer.add(Batch(obs=np.array([9.0, 0, k]), act=k, rew=1.0, terminated=k % 3 == 2, truncated=False, obs_next=np.array([9.0, 0, k + 1]), info={}))
        self.threshold = cfg.get("stop")
        p = cfg.get("p", {})
        kw = dict(policy=self.pol, test_collector=self.test_c, episode_per_test=cfg.get("n_test", 1), logger=RecLogger(rec, tuple(cfg.get("saved", (0, 0, 0)))), verbose=False, show_progress=False,
                  resume_from_log=cfg.get("resume", False), test_in_train=cfg.get("test_in_train", False), **p)
        kw["train_fn"] = lambda e, s: rec.point("train_fn", e, s)
        kw["test_fn"] = self.test_fn
        if self.threshold is not None:
            kw["stop_fn"] = self.stop_fn
        if cfg.get("save_best", True):
            kw["save_best_fn"] = lambda pol: rec.point("save_best", pol is self.pol, len(self.pol.losses))
        if cfg.get("checkpoint", True):
            kw["save_checkpoint_fn"] = lambda e, s, g: rec.point("checkpoint", e, s, g) or ""
        if vec:
            kw["reward_metric"] = lambda r: r[:, 1]
        if cfg.get("score"):
            kw["compute_score_fn"] = lambda s: -float(s.returns_stat.mean)
        if self.kind == "offline":
            kw["buffer"] = self.buffer
            cls = OfflineTrainer
        else:
            kw["train_collector"] = self.train_c
            cls = OffpolicyTrainer if self.kind == "off" else OnpolicyTrainer
        self.kw = kw
        self.trainer = cls(**kw)
        rec.policy = self.pol
        self.pol.train(training)
        self.pol.is_within_training_step = within
        self.flags0 = (training, within, False, training)

    @staticmethod
    def spread(k):
        """How much more the second evaluation environment returns in the k-th evaluation."""
        return 0.25 + 0.25 * (k % 2)

    def test_fn(self, epoch, step):
        alpha = self.cfg.get("test_alpha", [1.0])
        self.outcomes.append(alpha[self.ch.choose(len(alpha))] if len(alpha) > 1 else alpha[0])
        self.rec.point("test_fn", epoch, step)

    def stop_fn(self, r):
        self.rec.point("stop_fn", float(r))
        return r >= self.threshold


class Model:
    """Predicts the event sequence of a trainer from its configuration and the collectors' results."""

    def __init__(self, w):
        self.w, self.cfg, self.out = w, w.cfg, []
        self.ti = self.xi = 0
        self.gs = self.env_step = 0
        self.losses = 0
        self.train_step = self.train_ep = self.test_step = self.test_ep = 0
        self.best = (0.0, 0.0, 0.0, None)     # reward, std, score, epoch
        self.epochs = []
        self.seen = []          # observations of all training transitions so far

    def e(self, *x):
        self.out.append(x)

    def evaluate(self, epoch):
        w, cfg = self.w, self.cfg
        self.e("test_fn", epoch, self.env_step)
        self.e("collect", "test", None, cfg.get("n_test", 1))
        s, n, mean, ret, _ = w.test_c.results[self.xi]
        self.xi += 1
        self.test_step += s
        self.test_ep += n
        r = ret[:, 1] if cfg.get("metric") else ret
        v = w.outcomes[self.xi - 1]
        w.st.check(n == cfg.get("n_test", 1) and len(r) == n and all(x - v in (0.0, w.spread(self.xi)) for x in r), "evaluation", lambda: f"evaluation returned {r}, the environments gave {v}")
        self.e("log_test", self.env_step, n, float(np.mean(r)))
        return float(np.mean(r)), float(np.std(r))

    def score(self, mean):
        return -mean if self.cfg.get("score") else mean

    def reset(self, new=True):
        cfg, w = self.cfg, self.w
        if new:
            self.gs = 0
        self.env_step, start = 0, 0
        self.train_step = self.train_ep = self.test_step = self.test_ep = 0
        if cfg.get("resume"):
            self.e("restore")
            start, self.env_step, self.gs = cfg["saved"]
        if w.test_c is not None:
            m, sd = self.evaluate(start)
            self.best = (m, sd, self.score(m), start)
        if cfg.get("save_best", True):
            self.e("save_best", True, self.losses)
        self.epoch = start

    def update_best(self, m, sd):
        if self.score(m) > self.best[2]:
            self.best = (m, sd, self.score(m), self.epoch)
            if self.cfg.get("save_best", True):
                self.e("save_best", True, self.losses)

    def learn(self, n, rows, bs, rep):
        self.losses += 1
        self.e("learn", n, rows, bs, rep)

    def log_update(self):
        l = [2.0 * k + 1 for k in range(self.losses)][-100:]
        self.e("log_update", self.gs, 2.0 * (self.losses - 1) + 1, sum(l) / len(l))

    def run_epochs(self):
        cfg, w, p = self.cfg, self.w, self.cfg["p"]
        bs = p.get("batch_size")
        stopped = False
        while self.epoch < p["max_epoch"] and not stopped:
            self.epoch += 1
            done = 0
            self.in_train = False
            while done < p["step_per_epoch"] and not stopped:
                if w.kind != "offline":
                    self.e("train_fn", self.epoch, self.env_step)
                    self.e("collect", "train", p.get("step_per_collect"), p.get("episode_per_collect"))
                    n, eps, _, ret, rows = w.train_c.results[self.ti]
                    self.seen += rows
                    self.ti += 1
                    done += n
                    self.env_step += n
                    self.train_step += n
                    self.train_ep += eps
                    if eps:
                        self.e("log_train", self.env_step, n)
                        if cfg.get("test_in_train") and w.threshold is not None and w.test_c is not None:
                            m = float(np.mean(ret[:, 1] if cfg.get("metric") else ret))
                            self.e("stop_fn", m)
                            if m >= w.threshold:
                                tm, tsd = self.evaluate(self.epoch)
                                self.update_best(tm, tsd)
                                self.e("stop_fn", tm)
                                if tm >= w.threshold:
                                    stopped = self.in_train = True
                                    break
                else:
                    done += 1
                if w.kind == "off":
                    k = round(p.get("update_per_step", 1.0) * n)
                    for _ in range(k):
                        self.gs += 1
                        self.learn(bs if bs is not None else len(self.seen), self.seen, "-", "-")
                        self.log_update()
                elif w.kind == "offline":
                    self.gs += 1
                    self.learn(bs if bs is not None else len(w.buffer), [(9.0, 0.0, float(k)) for k in range(len(w.buffer))], "-", "-")
                    self.log_update()
                else:
                    self.learn(n, rows, bs, p.get("repeat_per_collect"))
                    self.gs += 1 if bs is None else -(-n // bs)
                    self.log_update()
            if w.kind == "offline":
                self.env_step = self.gs * (bs if bs is not None else len(w.buffer))
            if not stopped:
                self.e("save_data", self.epoch, self.env_step, self.gs)
                if cfg.get("checkpoint", True):
                    self.e("checkpoint", self.epoch, self.env_step, self.gs)
                if w.test_c is not None:
                    m, sd = self.evaluate(self.epoch)
                    self.update_best(m, sd)
                    if w.threshold is not None:
                        self.e("stop_fn", self.best[0])
                        if self.best[0] >= w.threshold:
                            stopped = True
            self.e("log_info", self.epoch, self.gs, self.train_step, self.train_ep, self.test_step, self.test_ep, *self.best[:3])
            self.epochs.append(dict(epoch=self.epoch, gs=self.gs, best=self.best, steps=(self.train_step, self.train_ep, self.test_step, self.test_ep), n_train=n if w.kind != "offline" else len(w.buffer),
                                    loss=2.0 * (self.losses - 1) + 1, in_train_stop=self.in_train))
        self.stopped = stopped


def compare(w, m, got, st):
    """Compares the recorded events with the predicted ones."""
    for k in range(max(len(got), len(m.out))):
        st.step()
        g = got[k] if k < len(got) else None
        x = m.out[k] if k < len(m.out) else None
        where = lambda: f"event {k}: {g} happened, expected {x} (before: {[e[:1] + e[1:4] if e[0] != 'learn' else e[:2] for e in got[max(0, k - 6):k]]})"
        st.check(g is not None and x is not None and g[0] == x[0], "order", where)
        if g[0] == "learn":
            st.check(g[1] == x[1] and g[3:] == x[3:], "update", where)
            pool = set(x[2])
            st.check(all(r in pool for r in g[2]) and (w.kind != "on" or sorted(g[2]) == sorted(x[2])), "update-data", where)
        else:
            st.check(len(g) == len(x) and all(a == b or (isinstance(a, float) and isinstance(b, float) and abs(a - b) < 1e-9) for a, b in zip(g[1:], x[1:], strict=True)), f"values-{g[0]}", where)


def check_info(st, i, e, where, w):
    b, t = e["best"], i.timing
    if w.test_c is not None:
        st.check(t.test_time > 0, "info-time", lambda: f"{where}: {t} although evaluations were run")
    if w.train_c is not None and w.train_c.results and i.train_step:
        st.check(t.train_time_collect > 0, "info-time", lambda: f"{where}: {t} although training steps were collected")
    st.check(abs(t.train_time - (t.total_time - t.test_time)) < 1e-6 and t.train_time_collect + t.test_time <= t.total_time + 1e-3, "info-time", lambda: f"{where}: {t}")
    st.check(i.gradient_step == e["gs"] and (i.train_step, i.train_episode, i.test_step, i.test_episode) == e["steps"], "info-counts", lambda: f"{where}: {i}, expected {e}")
    st.check(abs(i.best_reward - b[0]) < 1e-9 and abs(i.best_reward_std - b[1]) < 1e-9 and abs(i.best_score - b[2]) < 1e-9, "info-best", lambda: f"{where}: reported best {i.best_reward} +- {i.best_reward_std} (score {i.best_score}), evaluations gave {b}")


def drive(w, st, how="run", again=False):
    """Runs the trainer to its end and checks everything observable."""
    m = Model(w)
    if w.kind == "offline":
        m.e("process_buffer")
    got = w.rec.ev
    for rnd in range(2 if again else 1):
        n0 = len(m.epochs)
        if how == "run":
            infos = [w.trainer.run()]
        else:
            stats, infos, bests = [], [], []
            for es in w.trainer:
                stats.append(es)
                bests.append((w.trainer.best_reward, w.trainer.best_epoch, w.trainer.best_reward_std))
        try:
            m.reset()
            m.run_epochs()
        except IndexError:      # the trainer did less than predicted: the comparison shows where
            compare(w, m, got, st)
            raise
        compare(w, m, got, st)
        exp = m.epochs[n0:]
        if how == "run":
            last = dict(gs=m.gs, best=m.best, steps=(m.train_step, m.train_ep, m.test_step, m.test_ep))
            check_info(st, infos[0], last, "run()", w)
        else:
            st.check([s.epoch for s in stats] == [e["epoch"] for e in exp], "epochs", lambda: f"epochs {[s.epoch for s in stats]}, expected {[e['epoch'] for e in exp]}")
            for s, e, b in zip(stats, exp, bests, strict=True):
                check_info(st, s.info_stat, e, f"epoch {s.epoch}", w)
                st.check((s.training_stat is None) == e["in_train_stop"] and (s.training_stat is None or s.training_stat.loss == e["loss"]), "epoch-training-stat", lambda: f"epoch {s.epoch}: training statistics {s.training_stat}, expected loss {e['loss']}")
                st.check((s.test_collect_stat is not None) == (w.test_c is not None and not e["in_train_stop"]), "epoch-test-stat", lambda: f"epoch {s.epoch}: test statistics {s.test_collect_stat}")
                st.check(s.train_collect_stat.n_collected_steps == e["n_train"], "epoch-train-stat", lambda: f"epoch {s.epoch}: {s.train_collect_stat.n_collected_steps} training steps, {e['n_train']} in the last collection")
                if w.test_c is not None:
                    st.check((b[0], b[1], b[2]) == (e["best"][0], e["best"][3], e["best"][1]), "best", lambda: f"epoch {s.epoch}: best reward/epoch/deviation {b}, evaluations gave {e['best']}")
        st.check(not w.trainer.is_run, "is-run", "trainer still marked as running")
    ev_train = sum(1 for e in w.train_envs for h in e.hist if h["kind"] == "step")
    st.check(ev_train == sum(r[0] for r in (w.train_c.results if w.train_c else [])), "steps-executed", "training steps reported differ from the environments' logs")
    return m
