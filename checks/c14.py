"""C14: episodic returns and advantages against their definition, for every buffer history."""
import warnings

import gymnasium as gym
import numpy as np
import torch
from torch import nn

from mc.bufmodel import OPS1, PRELUDES2, cache_fits, drive, kind, sequences, vec_alphabet
from tianshou.data import Batch
from tianshou.policy import A2CPolicy, BasePolicy, CQLPolicy, PGPolicy, PPOPolicy
from tianshou.policy.base import episode_mc_return_to_go

PROPERTY = "C14"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive buffer histories (all fill/wrap/open-episode states) on the real buffers; returns/advantages recomputed per episode from the explicit sum definition on a list model"
NOTE = "Values are dyadic; the oracle evaluates sum_l (gamma*lambda)^l delta_{t+l} over the model's successor chain, not the code's backward recursion."
ASSUMPTIONS = ["the batch is the whole buffer, or a suffix of it, in storage order (documented requirement)", "rewards are scalar"]
GL = [(0.5, 0.5), (1.0, 1.0), (0.75, 0.0), (0.0, 0.5), (0.5, 1.0)]


def BOUNDS(tier):
    q = tier == "quick"
    return (f"single rings 1-5: all add(continue/terminate/truncate/both)/reset histories to depth {5 if q else 7}; vectorised (2-3 environments, rings 1-3) and cached buffers to depth {2 if q else 3} from 5 preludes; "
            f"{len(GL)} (gamma, lambda) pairs; value kinds none/given/next only, (n,) and (n,1), torch/numpy; A2C, PG, PPO, calibrated CQL wrappers (splitting and not splitting into minibatches) with reward normalisation; "
            f"reward-to-go of all reward sequences over a grid to length {5 if q else 7}")


OPS = [("a", [0], "c"), ("a", [0], "T"), ("a", [0], "U"), ("a", [0], "B")]


def jobs(tier):
    q = tier == "quick"
    out = []
    for cap in (1, 2, 3, 4, 5):
        for a in range(4):
            out.append(["single", cap, 5 if q else 7, [a]])
    for cap in (1, 2, 3):
        for pi in range(len(PRELUDES2)):
            out.append(["vector", cap, 2 if q else 3, pi])
    for pi in range(2):
        out.append(["cached", 3, 3 if q else 4, pi])
    for i in range(4):
        out.append(["three", 2, 2 if q else 3, i])
    out.append(["priovec", 2, 2, 2])
    for a in range(3):
        for a2 in range(3):
            out.append(["policy", 3, 4 if q else 6, [a, a2]])
    for pi in (2, 4):
        out.append(["policyvec", 3, 2, pi])
    out.append(["mc", 5 if q else 7])
    return out


V = lambda i: ((i * 7) % 5 - 2) * 0.5
VN = lambda i: ((i * 3) % 7 - 3) * 0.25 + 0.125


def rew_of(i):
    return ((i * 5) % 9 - 4) * 0.5


def chain(m, s):
    out = [s]
    while m.next(out[-1]) != out[-1]:
        out.append(m.next(out[-1]))
    return out


def expected(m, slots, v, vn, g, lam):
    adv = []
    for s in slots:
        a = 0.0
        for l, q in enumerate(chain(m, s)):
            t = m.tr(q)
            a += (g * lam) ** l * (t.rew + g * (0.0 if t.term else vn(t.id)) - v(t.id))
        adv.append(a)
    return np.array(adv)


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol)


def check(d, st):
    m, b = d.model, d.buf
    if not len(m):
        return
    batch, idx = b.sample(0)
    slots = [s for s, _ in m.stored()]
    st.check([int(i) for i in idx] == slots, "order", lambda: f"sample(0) indices {list(idx)}, stored {slots}")
    ids = [m.tr(s).id for s in slots]
    v, vn = np.array([V(i) for i in ids]), np.array([VN(i) for i in ids])
    rew0, term0 = b.rew.copy(), b.terminated.copy()
    shift = 0
    for k, (g, lam) in enumerate(GL):
        e = expected(m, slots, V, VN, g, lam)
        form = k % 4
        a_v, a_vn = (v, vn) if form == 0 else (torch.tensor(v), torch.tensor(vn)) if form == 1 else (torch.tensor(v).reshape(-1, 1), torch.tensor(vn).reshape(-1, 1)) if form == 2 else (v.reshape(-1, 1).copy(), vn.reshape(-1, 1).copy())
        ret, adv = BasePolicy.compute_episodic_return(batch, b, idx, v_s_=a_vn, v_s=a_v, gamma=g, gae_lambda=lam)
        st.check(close(adv, e), "advantage", lambda: f"gamma={g} lambda={lam}: advantages {list(adv)}, definition {list(e)}; rewards {list(batch.rew)}")
        st.check(close(ret, e + v), "return", lambda: f"gamma={g} lambda={lam}: returns {list(ret)}, advantage+value {list(e + v)}")
        st.check(close(np.asarray(a_v).reshape(-1), v) and close(np.asarray(a_vn).reshape(-1), vn), "values-changed", "the value arrays passed in were changed")
    # suffixes of the storage order
    for cut in range(1, len(slots)):
        g, lam = GL[0]
        e = expected(m, slots[cut:], V, VN, g, lam)
        ret, adv = BasePolicy.compute_episodic_return(batch[cut:], b, idx[cut:], v_s_=vn[cut:], v_s=v[cut:], gamma=g, gae_lambda=lam)
        st.check(close(adv, e), "advantage-suffix", lambda: f"suffix from {cut}: {list(adv)}, definition {list(e)}")
    for g in (0.5, 1.0):
        e = expected(m, slots, lambda i: 0.0, lambda i: 0.0, g, 1.0)
        ret, adv = BasePolicy.compute_episodic_return(batch, b, idx, gamma=g, gae_lambda=1.0)
        st.check(close(ret, e) and close(adv, e), "reward-to-go", lambda: f"gamma={g}: {list(ret)}, definition {list(e)}")
        # next values only: with lambda = 1 the result is the bootstrapped reward-to-go
        e = np.array([sum(g ** l * m.tr(q).rew for l, q in enumerate(c)) + g ** len(c) * (0.0 if m.tr(c[-1]).term else VN(m.tr(c[-1]).id)) for c in (chain(m, s) for s in slots)])
        ret, _ = BasePolicy.compute_episodic_return(batch, b, idx, v_s_=vn, gamma=g, gae_lambda=1.0)
        st.check(close(ret, e), "bootstrapped-reward-to-go", lambda: f"gamma={g}: {list(ret)}, definition {list(e)}")
        st.outcome(tuple(np.round(ret, 6)))
    mask = BasePolicy.value_mask(b, idx)
    st.check([bool(x) for x in mask] == [not m.tr(s).term for s in slots], "value-mask", lambda: f"value mask {list(mask)}")
    st.check(np.array_equal(rew0, b.rew) and np.array_equal(term0, b.terminated) and len(b) == len(m), "buffer-changed", "computing returns changed the buffer")


class Val(nn.Module):
    """Value of an observation: the scalar observation 10*i+1 (next: 10*i+7) identifies the transition."""

    def __init__(self):
        super().__init__()
        self.w = nn.Parameter(torch.ones(1))
        self.calls = []

    def forward(self, obs, *a, **k):
        o = np.asarray(obs).reshape(len(obs))
        self.calls.append(len(o))
        out = [V(x // 10) if x % 10 == 1 else VN(x // 10) for x in o]
        return torch.tensor(out, dtype=torch.float64).reshape(-1, 1)


class Act(nn.Module):
    max_action = 1.0

    def __init__(self):
        super().__init__()
        self.w = nn.Parameter(torch.zeros(1))

    def forward(self, obs, state=None, info=None):
        return torch.ones(len(obs), 5, dtype=torch.float64) / 5, state


def policy_check(d, st):
    m, b = d.model, d.buf
    if not len(m):
        return
    slots = [s for s, _ in m.stored()]
    ids = [m.tr(s).id for s in slots]
    v = np.array([V(i) for i in ids])
    n = len(slots)
    deep = st.traces % 5 == 0 or TIER == "thorough"
    space = gym.spaces.Discrete(5)
    dist = torch.distributions.Categorical
    g, lam = 0.5, 0.5
    for cls in (A2CPolicy, PPOPolicy):
        for size in {2, n + 1} | ({1, n} if deep else set()):
            for norm in (False, True):
                crit, act = Val(), Act()
                kw = dict(actor=act, critic=crit, optim=torch.optim.SGD(act.parameters(), 0.1), dist_fn=lambda p: dist(p), action_space=space, action_scaling=False, action_bound_method=None,
                          max_batchsize=size, discount_factor=g, gae_lambda=lam, reward_normalization=norm)
                p = cls(**kw)
                scale = 1.0
                for _ in range(2 if norm else 1):
                    batch, idx = b.sample(0)
                    if norm:
                        scale = float(np.sqrt(p.ret_rms.var + p._eps))
                    out = p.process_fn(batch, b, idx)
                    e = expected(m, slots, lambda i: V(i) * scale, lambda i: VN(i) * scale, g, lam)
                    ret = e + v * scale
                    st.ctx["policy"] = [cls.__name__, size, norm]
                    st.check(close(out.adv, e, 1e-6), "policy-advantage", lambda: f"{cls.__name__}: advantages {list(out.adv.numpy())}, definition {list(e)}")
                    st.check(close(out.returns, ret / scale, 1e-6), "policy-return", lambda: f"{cls.__name__}: returns {list(out.returns.numpy())}, definition {list(ret / scale)}")
                    st.check(close(out.v_s, v), "policy-values", lambda: f"{cls.__name__}: old values {list(out.v_s.numpy())}")
                    if cls is PPOPolicy:
                        st.check(close(out.logp_old, np.log(np.full(n, 0.2)), 1e-6), "policy-logp", "old log probabilities wrong")
                    st.step()
    for norm in (False, True):
        act = Act()
        p = PGPolicy(actor=act, optim=torch.optim.SGD(act.parameters(), 0.1), dist_fn=lambda q: dist(q), action_space=space, action_scaling=False, action_bound_method=None, discount_factor=g, reward_normalization=norm)
        for _ in range(2 if norm else 1):
            batch, idx = b.sample(0)
            mean, var = float(p.ret_rms.mean), float(p.ret_rms.var)
            out = p.process_fn(batch, b, idx)
            e = []
            for s in slots:
                c = chain(m, s)
                e.append(sum(g ** l * m.tr(q).rew for l, q in enumerate(c)) + g ** len(c) * (0.0 if m.tr(c[-1]).term else mean))
            e = np.array(e)
            if norm:
                e = (e - mean) / np.sqrt(var + p._eps)
            st.ctx["policy"] = ["PG", norm]
            st.check(close(out.returns, e, 1e-6), "pg-return", lambda: f"PG returns {list(out.returns)}, definition {list(e)}")
            st.step()
    # calibrated CQL stores the discounted reward-to-go with every transition of the buffer
    p = cql(g)
    e = expected(m, slots, lambda i: 0.0, lambda i: 0.0, g, 1.0)
    for _ in range(2):
        p.process_buffer(b)
        got = b[np.array(slots)].calibration_returns
        st.ctx["policy"] = ["CQL"]
        st.check(close(got, e, 1e-6), "cql-calibration", lambda: f"calibration returns of slots {slots}: {list(got)}, definition {list(e)}")
        st.step()
    st.check(len(b) == n and [int(x) for x in b.sample_indices(0)] == slots, "cql-buffer", "process_buffer changed the buffer's content")


def cql(g):
    class C(nn.Module):
        max_action = 1.0

        def __init__(self):
            super().__init__()
            self.w = nn.Parameter(torch.zeros(1))

        def forward(self, *a, **k):
            return self.w
    a, c = C(), C()
    opt = lambda x: torch.optim.SGD(x.parameters(), 0.1)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return CQLPolicy(actor=a, actor_optim=opt(a), critic=c, critic_optim=opt(c), action_space=gym.spaces.Box(-1, 1, (1,)), gamma=g, calibrated=True)


TIER = None


def setup(tier):
    global TIER
    TIER = tier
    getattr(BasePolicy, "_compile", lambda: None)()      # only warms the compiled functions up before the jobs are forked
    episode_mc_return_to_go(np.zeros(2), 0.5)
    episode_mc_return_to_go(np.zeros(2, dtype=np.float32), 0.5)


def run(job, st):
    k = job[0]
    if k == "mc":
        import itertools
        for n in range(1, job[1] + 1):
            for rew in itertools.product((-1.0, 0.0, 2.5), repeat=n):
                r = np.array(rew)
                for g in (0.0, 0.5, 1.0):
                    got = episode_mc_return_to_go(r, g)
                    e = [sum(g ** (j - i) * rew[j] for j in range(i, n)) for i in range(n)]
                    st.ctx = {"rewards": rew, "gamma": g}
                    st.check(close(got, e), "mc-return", lambda: f"reward-to-go {list(got)}, definition {e}")
                    st.check(np.array_equal(r, rew), "mc-mutates", "rewards changed")
                    st.step()
                st.state(rew)
        st.trace()
        return
    _, cap, depth, extra = job
    if k == "single":
        drive(kind("single", cap), "scalar", [], sequences(OPS, depth, [OPS[i] for i in extra]), st, check, rew=rew_of)
        for pre in ([("a", [0], "c")] * 3 + [("r", 0)],):
            drive(kind("single", cap), "scalar", pre, sequences(OPS, depth - 2, [OPS[i] for i in extra]), st, check, rew=rew_of)
    elif k in ("vector", "priovec"):
        alpha = vec_alphabet(2, "cTU" if k == "vector" and depth > 2 else "cTU") + [("r", 0)]
        drive(kind(k, cap), "scalar", PRELUDES2[extra], sequences(alpha, depth), st, check, rew=rew_of)
    elif k == "three":
        alpha = vec_alphabet(3, "cTU", [(0,), (2, 0), (0, 1, 2), (1, 2)]) + [("r", 0)]
        n = len(alpha)
        for a in alpha[extra * n // 4:(extra + 1) * n // 4]:
            drive(kind("vector", cap, 3), "scalar", [("a", [1], "c")], sequences(alpha, depth, [a]), st, check, rew=rew_of)
    elif k == "cached":
        pre = [[], [("a", [0, 1], "cT"), ("a", [1, 0], "TT"), ("a", [1], "T")]][extra]
        drive(kind("cached", cap, 2, 3), "scalar", pre, sequences(vec_alphabet(2), depth), st, check, rew=rew_of, legal=cache_fits)
    elif k == "policy":
        drive(kind("single", cap), "scalar", [], sequences(OPS[:3], depth, [OPS[i] for i in extra]), st, policy_check, rew=rew_of, every=False)
    elif k == "policyvec":
        drive(kind("vector", cap), "scalar", PRELUDES2[extra], sequences(vec_alphabet(2, "cTU" if TIER == "thorough" else "cT"), depth), st, policy_check, rew=rew_of, every=False)
