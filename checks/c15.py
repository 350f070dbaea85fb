"""C15: n-step targets against their definition, for every buffer history."""
import numpy as np
import torch
from torch import nn
import gymnasium as gym
import copy

from mc.bufmodel import OPS1, PRELUDES2, cache_fits, drive, kind, sequences, vec_alphabet
from tianshou.data import Batch, HERReplayBuffer
from tianshou.policy import BasePolicy, DDPGPolicy, DQNPolicy

PROPERTY = "C15"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive buffer histories on the real buffers x n x all stored index vectors; targets recomputed from the explicit sum over the model's successor chain"
NOTE = "The bootstrap function is a stub that records the slots it is asked for and answers a value unique to the transition."
ASSUMPTIONS = ["scalar rewards", "overwritten or never filled slots are not asked for"]


def BOUNDS(tier):
    q = tier == "quick"
    return (f"n in 1..4 (and 6); gamma in 0.5, 1, 0; single rings 1-5: all add(c/T/U/B)/reset histories to depth {5 if q else 7}; prioritised single; vectorised, prioritised vectorised, cached and stacked "
            f"({2 if q else 3}-op histories from 5 preludes, 2-3 environments, rings 1-3); index vectors: all stored in order, reversed, duplicated, single; bootstrap shapes (I,), (I,1), (I,3), f32/f64; DQN/DDPG wrappers")


OPS = [("a", [0], "c"), ("a", [0], "T"), ("a", [0], "U"), ("a", [0], "B")]


def jobs(tier):
    q = tier == "quick"
    out = []
    for cap in (1, 2, 3, 4, 5):
        for a in range(4):
            out.append(["single", cap, 5 if q else 7, [a]])
    for a in range(4):
        out.append(["prio", 3, 5 if q else 6, [a]])
    for cap in (1, 2, 3):
        for pi in range(len(PRELUDES2)):
            out.append(["vector", cap, 2 if q else 3, pi])
    out.append(["priovec", 3, 2, 2])
    out.append(["priovec", 2, 2, 4])
    for pi in range(2):
        out.append(["cached", 3, 3 if q else 4, pi])
    for i in range(4):
        out.append(["three", 2, 2 if q else 3, i])
    for a in range(4):
        out.append(["policy", 3, 4 if q else 5, [a]])
    return out


Q = lambda i: ((i * 3) % 7 - 3) * 0.25 + 0.125


def rew_of(i):
    return ((i * 5) % 9 - 4) * 0.5


def chain(m, s, n):
    out = [s]
    while len(out) < n and m.next(out[-1]) != out[-1]:
        out.append(m.next(out[-1]))
    return out


def definition(m, s, n, g):
    c = chain(m, s, n)
    last = m.tr(c[-1])
    return sum(g ** l * m.tr(q).rew for l, q in enumerate(c)) , (0.0 if last.term else g ** len(c)), c[-1]


def check(d, st):
    m, b = d.model, d.buf
    if not len(m):
        return
    slots = [s for s, _ in m.stored()]
    rew0, term0, done0 = b.rew.copy(), b.terminated.copy(), b.done.copy()
    vectors = [slots, slots[::-1], slots + slots[:1], slots[-1:], slots[:1]]
    for n in (1, 2, 3, 4, 6):
        for k, vec in enumerate(vectors):
            if n in (4, 6) and k > 1:
                continue
            g = (0.5, 1.0, 0.0)[(k + n) % 3] if k else 0.5
            A = (1, 3)[(k + n) % 2]
            flat = (n + k) % 3 == 0 and A == 1
            dt = torch.float32 if (n + k) % 2 else torch.float64
            asked = []

            def tq(buf, idx):
                asked.append((buf is b, [int(i) for i in idx]))
                v = torch.tensor([[Q(m.tr(int(i)).id) + 10 * a for a in range(A)] for i in idx], dtype=dt)
                return v[:, 0] if flat else v
            idx = np.array(vec)
            keep = idx.copy()
            batch = b[idx]
            batch.weight = np.arange(len(vec)) * 0.25 + 0.5
            out = BasePolicy.compute_nstep_return(batch, b, idx, tq, g, n)
            exp = np.zeros((len(vec), A))
            lasts = []
            for r, s in enumerate(vec):
                rs, f, last = definition(m, s, n, g)
                lasts.append(last)
                exp[r] = [rs + f * (Q(m.tr(last).id) + 10 * a) if f else rs for a in range(A)]
            got = out.returns
            st.ctx["n"], st.ctx["slots"], st.ctx["gamma"] = n, vec, g
            st.check(asked == [(True, lasts)], "bootstrap-slots", lambda: f"bootstrap asked for {asked}, the last steps used are {lasts}")
            st.check(isinstance(got, torch.Tensor) and got.dtype == dt and got.numel() == exp.size and np.allclose(got.numpy().reshape(exp.shape), exp, rtol=1e-5, atol=1e-5),
                     "target", lambda: f"n={n} gamma={g} slots {vec}: targets {got.reshape(-1).tolist()}, definition {exp.reshape(-1).tolist()}")
            st.check(np.array_equal(keep, idx), "indices-changed", "index argument changed")
            st.check(isinstance(out.weight, torch.Tensor) and out.weight.tolist() == [0.25 * i + 0.5 for i in range(len(vec))], "weight", "importance weights changed")
            st.outcome((n, tuple(np.round(exp.ravel(), 5))))
    st.check(np.array_equal(rew0, b.rew) and np.array_equal(term0, b.terminated) and np.array_equal(done0, b.done) and len(b) == len(m), "buffer-changed", "computing targets changed the buffer")


class Net(nn.Module):
    """Q-values: row r, action a: Q(id of the transition whose next observation this is) + a."""
    max_action = 1.0

    def __init__(self, n_out):
        super().__init__()
        self.w = nn.Parameter(torch.ones(1, dtype=torch.float64))
        self.n_out = n_out

    def forward(self, obs, act=None, state=None, info=None):
        o = np.asarray(obs).reshape(len(obs))
        assert all(x % 10 == 7 for x in o), f"bootstrap uses observations {o} that are no next observations"
        q = torch.tensor([[Q(int(x) // 10) - a for a in range(self.n_out)] for x in o], dtype=torch.float64) * self.w
        if self.n_out == 1:
            return q if act is not None else (torch.zeros(len(o), 1), state)
        return q, state


def make_policies(n):
    out = []
    for freq, dbl in ((0, False), (0, True), (2, False), (2, True)):
        net = Net(3)
        out.append((f"DQN(target_update_freq={freq}, is_double={dbl})", DQNPolicy(model=net, optim=torch.optim.SGD(net.parameters(), 0.1), action_space=gym.spaces.Discrete(3),
                    discount_factor=0.5, estimation_step=n, target_update_freq=freq, is_double=dbl)))

    class Actor(nn.Module):
        max_action = 1.0

        def __init__(self):
            super().__init__()
            self.w = nn.Parameter(torch.zeros(1))

        def forward(self, obs, state=None, info=None):
            return torch.zeros(len(obs), 1), state

    class Critic(Net):
        def forward(self, obs, act=None, info=None):
            return Net.forward(self, obs, act=act)
    a, c = Actor(), Critic(1)
    out.append(("DDPG", DDPGPolicy(actor=a, actor_optim=torch.optim.SGD(a.parameters(), 0.1), critic=c, critic_optim=torch.optim.SGD(c.parameters(), 0.1), tau=0.5, gamma=0.5,
                                   action_space=gym.spaces.Box(-1, 1, (1,)), estimation_step=n, exploration_noise=None)))
    return out


POL = {}


def policy_check(d, st):
    m, b = d.model, d.buf
    slots = [s for s, _ in m.stored()]
    for n in (1, 2, 3):
        if n not in POL:
            POL[n] = make_policies(n)
        for name, p in POL[n]:
            idx = np.array(slots)
            out = p.process_fn(b[idx], b, idx)
            exp = []
            for s in slots:
                rs, f, last = definition(m, s, n, 0.5)
                exp.append(rs + f * Q(m.tr(last).id))
            st.ctx["policy"] = [name, n]
            st.check(np.allclose(out.returns.numpy().reshape(-1), exp, atol=1e-5) and out.returns.numel() == len(exp), "policy-target", lambda: f"{name} n={n}: {out.returns.reshape(-1).tolist()}, definition {exp}")
            st.step()


def setup(tier):
    import warnings
    warnings.simplefilter("ignore")
    getattr(BasePolicy, "_compile", lambda: None)()      # only warms the compiled functions up before the jobs are forked


def run(job, st):
    k, cap, depth, extra = job
    if k in ("single", "prio"):
        for pre in ([], [("a", [0], "c")] * 3 + [("r", 0)], [("a", [0], "T"), ("a", [0], "c"), ("a", [0], "c"), ("a", [0], "c")]):
            dd = depth - (1 if pre else 0)
            drive(kind(k, cap), "scalar", pre, sequences(OPS, dd, [OPS[i] for i in extra]), st, check, rew=rew_of)
    elif k in ("vector", "priovec"):
        alpha = vec_alphabet(2, "cTU") + [("r", 0)]
        drive(kind(k, cap), "scalar", PRELUDES2[extra], sequences(alpha, depth), st, check, rew=rew_of)
    elif k == "three":
        alpha = vec_alphabet(3, "cTU", [(0,), (2, 0), (0, 1, 2), (1, 2)]) + [("r", 0)]
        n = len(alpha)
        for a in alpha[extra * n // 4:(extra + 1) * n // 4]:
            drive(kind("vector", cap, 3), "scalar", [("a", [1], "c")], sequences(alpha, depth, [a]), st, check, rew=rew_of)
    elif k == "cached":
        pre = [[], [("a", [0, 1], "cT"), ("a", [1, 0], "TT"), ("a", [1], "T")]][extra]
        drive(kind("cached", cap, 2, 3), "scalar", pre, sequences(vec_alphabet(2), depth), st, check, rew=rew_of, legal=cache_fits)
    elif k == "policy":
        drive(kind("single", cap), "scalar", [], sequences(OPS, depth, [OPS[i] for i in extra]), st, policy_check, rew=rew_of, every=False)
