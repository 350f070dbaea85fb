"""C27: multi-agent management against one policy per agent handled alone."""
import copy
import itertools

import gymnasium as gym
import numpy as np
import torch

import tianshou.policy as P
from mc import pols
from mc.games import Game
from tianshou.data import Batch, Collector, PrioritizedReplayBuffer, PrioritizedVectorReplayBuffer, ReplayBuffer, VectorReplayBuffer, to_numpy
from tianshou.env import DummyVectorEnv, PettingZooEnv
from tianshou.policy import BasePolicy, MultiAgentPolicyManager
from tianshou.utils.torch_utils import policy_within_training_step

PROPERTY = "C27"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive assignments of agents to rows and of storage contents, through the real MultiAgentPolicyManager with recording policies (call-by-call comparison) and with real PG/A2C/PPO/DQN/C51/SAC policies (bitwise comparison with a copy of the policy that handles that agent's data alone)"
NOTE = "Handled alone means: the agent's own rows, a buffer holding that agent's reward only, same random numbers."
ASSUMPTIONS = ["policies of different agents do not share parameters", "recurrent state follows the documented per-agent format"]


def BOUNDS(tier):
    q = tier == "quick"
    return (f"1-3 agents, up to {4 if q else 5} rows: all assignments (agents without rows included) x mask/no mask x state forms x scalar/vector actions x rewards; "
            f"update: all assignments of agents to {3 if q else 4} stored transitions in plain, vectorised and prioritised storage, all index vectors of length 2 and the whole storage; errors raised in each agent's processing; collection in 1-2 scripted games")


class Rec(BasePolicy):
    """Acts by a rule on the observation and records everything it is given."""

    def __init__(self, k, vec=False, stateful=False, tensor=False):
        super().__init__(action_space=gym.spaces.Box(-1, 1, (2,)) if vec else gym.spaces.Discrete(1000))
        self.k, self.vec, self.stateful, self.tensor = k, vec, stateful, tensor
        self.calls = []
        self.fail = False

    def act_of(self, o):
        a = 100 * (self.k + 1) + int(o)
        return [a, -a] if self.vec else a

    def forward(self, batch, state=None, **kw):
        o = batch.obs.obs if isinstance(batch.obs, Batch) else batch.obs
        self.calls.append(("forward", copy.deepcopy(batch), copy.deepcopy(state), kw))
        a = np.array([self.act_of(x[0]) for x in o])
        out = Batch(act=torch.as_tensor(a) if self.tensor else a, tag=np.array([f"{self.k}:{int(x[0])}" for x in o]))
        out.state = Batch(h=np.array([[self.k, int(x[0]), 1 if state is None else 2] for x in o])) if self.stateful else None
        return out

    def exploration_noise(self, act, batch):
        self.calls.append(("noise", np.array(act), copy.deepcopy(batch)))
        return act + 1000 * (self.k + 1)

    def process_fn(self, batch, buffer, indices):
        if self.fail:
            raise ZeroDivisionError(f"agent {self.k}")
        self.calls.append(("process", copy.deepcopy(batch), np.array(buffer.rew), np.array(indices)))
        batch.mine = np.array([self.k] * len(indices))
        return batch

    def learn(self, batch, *args, **kw):
        self.calls.append(("learn", copy.deepcopy(batch), kw))
        from tianshou.policy.base import TrainingStats
        s = TrainingStats()
        s.who = self.k
        return s


class FakeEnv:
    def __init__(self, n, space):
        self.agents = [f"p{i}" for i in range(n)]
        self.agent_idx = {a: i for i, a in enumerate(self.agents)}
        self.action_space = space
        self.observation_space = gym.spaces.Box(-1, 1, (3,))


def manager(n, replaced=None, **kw):
    ps = [Rec(k, **kw) for k in range(n)]
    given = [Rec(k + 50, **kw) if k == replaced else p for k, p in enumerate(ps)]
    m = MultiAgentPolicyManager(policies=given, env=FakeEnv(n, ps[0].action_space))
    if replaced is not None:
        m.replace_policy(ps[replaced], f"p{replaced}")
    return m, ps


QUICK = {"c51": ("priovec",), "rainbow": ("prio",), "sac": ("plain", "priovec"), "dsac": ("vec",), "a2c": ("vec",), "pg": ("plain",)}


def jobs(tier):
    q = tier == "quick"
    js = [["forward", n, r] for n in (1, 2, 3) for r in range(1, (4 if q else 5) + 1)]
    js += [["record", n, m, kind] for n in (1, 2, 3) for m in range(1, (3 if q else 4) + 1) for kind in ("plain", "vec")]
    js += [["alone", p, kind, m, 2] for m in ((3,) if q else (3, 4)) for p in ("pg", "a2c", "ppo", "dqn", "c51", "sac", "dqn+pg", "rainbow", "dsac") for kind in ("plain", "vec", "prio", "priovec") if not (kind.startswith("prio") and p in ("pg", "a2c", "ppo", "dqn+pg")) and not (q and kind not in QUICK.get(p, (kind,)))]
    js += [["collect", n, e] for n in (2, 3) for e in (1, 2)]
    return js


def eq(a, b):
    if isinstance(a, Batch) or isinstance(b, Batch):
        return isinstance(a, Batch) and isinstance(b, Batch) and set(a.get_keys()) == set(b.get_keys()) and all(eq(a[k], b[k]) for k in a.get_keys())
    if a is None or b is None:
        return a is b
    if isinstance(a, torch.distributions.Distribution):
        return type(a) is type(b)
    a, b = to_numpy(a), to_numpy(b)
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(eq(a[k], b[k]) for k in a)
    return np.array_equal(a, b) and np.asarray(a).dtype == np.asarray(b).dtype


def forward(n, rows, st):
    for who in itertools.product(range(n), repeat=rows):
        for mask, vec, stateful, tensor, rew in ((1, 0, 0, 0, 0), (0, 0, 0, 0, 1), (1, 1, 1, 0, 1), (0, 1, 1, 1, 0), (1, 0, 1, 1, 1), (1, 0, 0, 1, 0), (0, 0, 1, 0, 2)):
            m, ps = manager(n, (None, *range(n))[(rows + mask + stateful) % (n + 1)], vec=bool(vec), stateful=bool(stateful), tensor=bool(tensor))
            st.check([p.agent_id for p in ps] == [f"p{k}" for k in range(n)], "agent-id", lambda: f"{[p.agent_id for p in ps]}")
            obs = np.array([[10 + r, 0.0, 0.0] for r in range(rows)])
            b = Batch(obs=Batch(agent_id=np.array([f"p{w}" for w in who]), obs=obs.copy()), info=Batch(x=np.arange(rows)))
            if mask:
                b.obs.mask = np.array([[(r >> k) & 1 == 0 for k in range(3)] for r in range(rows)])
            if rew == 1:
                b.rew = np.array([[100.0 * r + k for k in range(n)] for r in range(rows)])
                b.obs_next = copy.deepcopy(b.obs)
            elif rew == 2:
                b.rew = Batch()
                b.obs_next = Batch()
            keep = copy.deepcopy(b)
            for given in ((None,) if not stateful else (None, "dict", "batch")):
                state = None if given is None else {f"p{k}": Batch(h=np.full((sum(w == k for w in who), 3), k)) for k in range(n)}
                if given == "batch":
                    state = Batch(state)
                st.ctx = {"agents": n, "rows": who, "mask": mask, "vector action": vec, "state": given, "tensor": tensor, "rew": rew}
                for p in ps:
                    p.calls.clear()
                out = m(b, state=state, flag=3)
                st.step()
                st.check(eq(b, keep), "batch-changed", "forward() changed the batch")
                for k, p in enumerate(ps):
                    rs = [r for r in range(rows) if who[r] == k]
                    st.check(len(p.calls) == (1 if rs else 0), "calls", lambda: f"policy {k} was called {len(p.calls)} times for rows {rs}")
                    if not rs:
                        st.check(len(out.out[f"p{k}"].get_keys()) == 0 and len(out.state[f"p{k}"].get_keys()) == 0, "absent", "output for an agent without rows")
                        continue
                    _, got, s, kw = p.calls[0]
                    o = got.obs
                    st.check(isinstance(o, Batch) == bool(mask), "obs-form", f"observation form {type(o)}")
                    st.check(np.array_equal(o.obs if mask else o, obs[rs]), "rows", lambda: f"policy {k} got observations {o}, its rows are {rs}")
                    st.check(not mask or np.array_equal(o.mask, keep.obs.mask[rs]), "mask-rows", "mask rows mixed up")
                    st.check(np.array_equal(got.info.x, rs), "info-rows", "info rows mixed up")
                    st.check(rew != 1 or np.array_equal(got.rew, keep.rew[rs][:, k]), "rew-column", lambda: f"policy {k} got rewards {got.rew}")
                    st.check(kw == {"flag": 3}, "kwargs", f"{kw}")
                    st.check((s is None) == (given is None) and (s is None or np.array_equal(s.h, np.full((len(rs), 3), k))), "state-in", lambda: f"policy {k} got state {s}")
                    want = np.array([p.act_of(obs[r][0]) for r in rs])
                    st.check(np.array_equal(to_numpy(out.act)[rs], want), "act", lambda: f"rows {rs} of agent {k} got actions {to_numpy(out.act)[rs].tolist()}, expected {want.tolist()}")
                    st.check(list(out.out[f"p{k}"].tag) == [f"{k}:{int(obs[r][0])}" for r in rs], "out", "policy output mixed up")
                    if stateful:
                        st.check(np.array_equal(out.state[f"p{k}"].h, [[k, obs[r][0], 1 if given is None else 2] for r in rs]), "state-out", "state mixed up")
                st.check(len(out.act) == rows, "act", f"{len(out.act)} actions for {rows} rows")
                if not tensor:
                    act = np.array(out.act)
                    for p in ps:
                        p.calls.clear()
                    noisy = m.exploration_noise(act.copy(), b)
                    for k, p in enumerate(ps):
                        rs = [r for r in range(rows) if who[r] == k]
                        st.check(len(p.calls) == (1 if rs else 0), "noise-calls", f"noise of policy {k} called {len(p.calls)} times for rows {rs}")
                        if rs:
                            _, a, bb = p.calls[0]
                            st.check(np.array_equal(a, act[rs]) and np.array_equal(bb.obs.obs, obs[rs]), "noise-rows", "noise got the wrong rows")
                            st.check(np.array_equal(noisy[rs], act[rs] + 1000 * (k + 1)), "noise", "noise mixed up")
            st.state((n, who, mask, vec, stateful, tensor, rew))
    st.trace(st.ctx)


def mkbuf(kind, size):
    return {"plain": lambda: ReplayBuffer(size), "vec": lambda: VectorReplayBuffer(size, 2), "prio": lambda: PrioritizedReplayBuffer(size, alpha=0.6, beta=0.4),
            "priovec": lambda: PrioritizedVectorReplayBuffer(size, 2, alpha=0.6, beta=0.4)}[kind]()


def fill(kind, who, n, mask=True, cont=False, box_obs=True, dones=(2,)):
    buf = mkbuf(kind, 2 * max(2, len(who)))
    rng = np.random.default_rng(3)
    for i, w in enumerate(who):
        o = Batch(agent_id=f"p{w}", obs=rng.normal(size=3).astype(np.float32) if box_obs else np.array([10.0 + i, 0, 0]))
        o2 = Batch(agent_id=f"p{who[(i + 1) % len(who)]}", obs=rng.normal(size=3).astype(np.float32))
        if mask:
            o.mask, o2.mask = np.array([True] * 3), np.array([True] * 3)
        act = rng.uniform(-1, 1, 2).astype(np.float32) if cont else int(rng.integers(0, 3))
        b = Batch(obs=o, act=act, rew=np.round(rng.normal(size=n), 2), terminated=i in dones, truncated=False, obs_next=o2, info=Batch(i=i))
        if kind.endswith("vec"):
            b = Batch.stack([b])
            buf.add(b, buffer_ids=[i % 2])
        else:
            buf.add(b)
    return buf


def snapshot(buf):
    keys = [k for k in buf._meta.get_keys()] if hasattr(buf, "_meta") else []
    return {k: copy.deepcopy(buf._meta[k]) for k in keys}


def unchanged(buf, snap):
    now = snapshot(buf)
    return now.keys() == snap.keys() and all(eq(now[k], snap[k]) for k in snap)


def index_vectors(buf, ln):
    idx = buf.sample_indices(0)
    yield np.array(idx)
    for v in itertools.product(idx, repeat=ln):
        yield np.array(v)


def record(n, m, kind, st):
    """Recording policies: what process_fn and learn of each agent are given."""
    for who in itertools.product(range(n), repeat=m):
        for mask in (True, False):
            buf = fill(kind, who, n, mask=mask, box_obs=False)
            snap = snapshot(buf)
            rew0 = buf.rew
            for idx in index_vectors(buf, 2):
                mgr, ps = manager(n)
                for failing in (None, *range(n)):
                    for k, p in enumerate(ps):
                        p.calls.clear()
                        p.fail = k == failing
                    st.ctx = {"agents": n, "stored": who, "storage": kind, "mask": mask, "indices": idx.tolist(), "failing": failing}
                    sampled = buf[idx]
                    keep = copy.deepcopy(sampled)
                    ids = [str(x) for x in keep.obs.agent_id]
                    raised = False
                    try:
                        res = mgr.process_fn(sampled, buf, idx)
                    except ZeroDivisionError:
                        raised = True
                    st.step()
                    st.check(raised == (failing is not None and f"p{failing}" in ids), "error", "an error of an agent was swallowed")
                    st.check(unchanged(buf, snap) and buf.rew is rew0, "buffer-changed", lambda: f"the shared buffer changed{' after an error' if raised else ''}")
                    st.check(eq(sampled, keep), "batch-changed", "process_fn changed the batch")
                    if raised:
                        continue
                    for k, p in enumerate(ps):
                        rs = [r for r, x in enumerate(ids) if x == f"p{k}"]
                        st.check(len(p.calls) == (1 if rs else 0), "process-calls", f"process_fn of agent {k} called {len(p.calls)} times for rows {rs}")
                        if not rs:
                            st.check(len(res[f"p{k}"].get_keys()) == 0, "absent", f"data for absent agent {k}")
                            continue
                        _, b, rew, ind = p.calls[0]
                        own = keep[rs]
                        st.check(np.array_equal(ind, idx[rs]), "process-indices", lambda: f"agent {k} got slots {ind}, its rows are {idx[rs]}")
                        st.check(np.array_equal(rew, rew0[:, k]), "process-rew", lambda: f"agent {k} saw buffer rewards {rew.tolist()}")
                        st.check(np.array_equal(b.rew, own.rew[:, k]), "process-rew", lambda: f"agent {k} got rewards {b.rew}")
                        wo, wn = (own.obs, own.obs_next) if mask else (own.obs.obs, own.obs_next.obs)
                        st.check(eq(b.obs, wo) and eq(b.obs_next, wn) and eq(b.act, own.act) and eq(b.done, own.done) and eq(b.info, own.info) and eq(b.terminated, own.terminated) and eq(b.truncated, own.truncated), "process-rows", lambda: f"agent {k} got other transitions than its own: {b}")
                        p.calls.clear()
                    stats = mgr.learn(res, batch_size=2, repeat=1)
                    for k, p in enumerate(ps):
                        rs = [r for r, x in enumerate(ids) if x == f"p{k}"]
                        st.check(len(p.calls) == (1 if rs else 0), "learn-calls", f"learn of agent {k} called {len(p.calls)} times for rows {rs}")
                        if rs:
                            _, b, kw = p.calls[0]
                            st.check(np.array_equal(b.mine, [k] * len(rs)) and np.array_equal(b.rew, keep.rew[rs][:, k]) and kw == {"batch_size": 2, "repeat": 1}, "learn-data", lambda: f"agent {k} learned from {b} with {kw}")
                            st.check(stats.get_loss_stats_dict().get(f"p{k}/who") == k, "learn-stats", "training statistics of the wrong agent")
                st.state((n, who, kind, mask, idx.tolist()))
    st.trace(st.ctx)


def strip(module, args, kwargs):
    """Networks of policies that read next observations from the storage get its multi-agent form."""
    f = lambda x: x.obs if isinstance(x, Batch) and "obs" in x.get_keys() else x
    return tuple(f(a) for a in args), {k: f(v) for k, v in kwargs.items()}


def alone(pname, kind, m, ln, st):
    names = pname.split("+") if "+" in pname else [pname, pname]
    cont = names[0] in pols.CONT
    mask = all(x in ("dqn", "c51", "rainbow") for x in names)      # the others take plain observations only
    for who in itertools.product((0, 1), repeat=m):
        buf = fill(kind, who, 2, mask=mask, cont=cont)
        for idx in index_vectors(buf, ln):
            st.ctx = {"policies": names, "stored": who, "storage": kind, "indices": idx.tolist()}
            subs = [pols.build(nm, seed=k) for k, nm in enumerate(names)]
            for s in subs:
                for x in ("actor", "critic", "critic2", "critic_old", "critic2_old"):
                    if hasattr(s, x):
                        getattr(s, x).register_forward_pre_hook(strip, with_kwargs=True)
                s.action_space = subs[0].action_space
            mgr = MultiAgentPolicyManager(policies=subs, env=FakeEnv(2, subs[0].action_space))
            refs = [copy.deepcopy(s) for s in subs]
            b1, b2 = copy.deepcopy(buf), copy.deepcopy(buf)
            before = snapshot(b1)
            sampled = b1[idx]
            kw = dict(batch_size=2, repeat=1) if set(names) & {"pg", "a2c", "ppo"} else {}
            np.random.seed(0)
            torch.manual_seed(0)
            with policy_within_training_step(mgr):
                got = mgr.process_fn(sampled, b1, idx)
            st.check(unchanged(b1, before), "buffer-changed", "process_fn changed the shared buffer")
            np.random.seed(0)
            torch.manual_seed(0)
            data = b2[idx]
            rew = b2.rew
            want = []
            ids = [str(x) for x in data.obs.agent_id]
            for k, r in enumerate(refs):
                rs = [i for i, x in enumerate(ids) if x == f"p{k}"]
                if not rs:
                    want.append(None)
                    continue
                part = data[rs]
                part.rew = part.rew[:, k]
                if not mask:
                    part.obs, part.obs_next = part.obs.obs, part.obs_next.obs
                b2._meta.rew = rew[:, k].copy()
                with policy_within_training_step(r):
                    want.append(r.process_fn(part, b2, idx[rs]))
            b2._meta.rew = rew
            st.step()
            for k in range(2):
                if want[k] is not None:
                    st.check(eq(got[f"p{k}"], want[k]), "processed", lambda: f"agent {k}: processed data differ from handling it alone: {got[f'p{k}']} / {want[k]}")
            np.random.seed(1)
            torch.manual_seed(1)
            with policy_within_training_step(mgr):
                mgr.train()
                mgr.learn(got, **kw)
            mgr.post_process_fn(got, b1, idx)
            np.random.seed(1)
            torch.manual_seed(1)
            for k, r in enumerate(refs):
                if want[k] is not None:
                    rs = [i for i, x in enumerate(ids) if x == f"p{k}"]
                    with policy_within_training_step(r):
                        r.train()
                        r.learn(want[k], **kw)
                    r.post_process_fn(want[k], b2, idx[rs])
            for k in range(2):
                a, b = pols.params(subs[k]), pols.params(refs[k])
                st.check(all(torch.equal(torch.nan_to_num(a[x]), torch.nan_to_num(b[x])) for x in a), "learned", lambda: f"agent {k} learned something else than alone (its rows: {[i for i, x in enumerate(ids) if x == f'p{k}']})")
            if kind.startswith("prio"):
                w1, w2 = b1.weight[np.arange(b1.maxsize)], b2.weight[np.arange(b2.maxsize)]
                st.check(np.array_equal(w1, w2), "priorities", lambda: f"priorities {w1.tolist()} after the update, alone {w2.tolist()}")
            after = snapshot(b1)
            st.check(all(eq(after[k], before[k]) for k in before), "buffer-changed", "the update changed the shared buffer")
            st.state((pname, kind, who, idx.tolist()))
    st.trace(st.ctx)


def collect(n, envs, st):
    """The whole loop: scripted games, the real collector and buffer."""
    for order in [tuple(range(n)), (0, 0, n - 1), (n - 1, 0), (1, 1, 0)]:
        for form in ("mask", "plain", "box"):
            for lens in itertools.product((1, 2, 3), repeat=envs):
                vec = form == "box"
                games = [Game(n, order, [[10 * t + p + 1 + 100 * g for p in range(n)] for t in range(3)], lens[g], form=form, gid=g, na=3) for g in range(envs)]
                mgr, ps = manager(n, vec=vec)
                if not vec:
                    for p in ps:
                        p.act_of = lambda o, p=p: (p.k + int(o)) % 3
                        p.exploration_noise = lambda a, b: a
                buf = VectorReplayBuffer(40 * envs, envs)
                c = Collector(mgr, DummyVectorEnv([lambda g=g: PettingZooEnv(g) for g in games]), buf)
                c.reset()
                for g in games:
                    g.calls.clear()
                starts = [g.episode for g in games]
                c.collect(n_step=6 * envs)
                st.ctx = {"players": n, "order": order, "form": form, "lengths": lens}
                for e in range(envs):
                    sub = buf.buffers[e]
                    d = sub[sub.sample_indices(0)]
                    ep, t = starts[e], 0
                    st.check(len(d) == 6, "collected", f"{len(d)} transitions")
                    played = [x for x in games[e].calls if x[0] == "step"]
                    for i in range(6):
                        st.step()
                        who = order[t % len(order)]
                        o = np.array([100 * e + ep, t, who], dtype=np.float32)
                        st.check(d.obs.agent_id[i] == f"p{who}" and np.array_equal(d.obs.obs[i], o), "stored-obs", lambda: f"row {i}: {d.obs[i]}, expected {o} of p{who}")
                        a = ps[who].act_of(o[0])
                        st.check(np.array_equal(d.act[i], a), "stored-act", lambda: f"row {i}: action {d.act[i]}, policy {who} chose {a}")
                        st.check(played[i][1] == f"p{who}" and np.array_equal(played[i][2], mgr.map_action(np.array(a))), "played", lambda: f"the game got {played[i]}, policy {who} chose {a}")
                        st.check(np.array_equal(d.rew[i], [10 * (t % 3) + p + 1 + 100 * e for p in range(n)]), "stored-rew", lambda: f"row {i}: reward {d.rew[i]} at turn {t}")
                        t += 1
                        over = t >= lens[e]
                        nxt = order[t % len(order)]
                        st.check(np.array_equal(d.obs_next.obs[i], [100 * e + ep, t, nxt]) and d.obs_next.agent_id[i] == f"p{nxt}", "stored-next", lambda: f"row {i}: next observation {d.obs_next[i]}")
                        st.check(bool(d.done[i]) == over, "stored-done", f"row {i}: done {d.done[i]}")
                        if over:
                            ep, t = ep + 1, 0
                st.trace(st.ctx)
                st.state((n, envs, order, form, lens))


def run(job, st):
    globals()[job[0]](*job[1:], st)
