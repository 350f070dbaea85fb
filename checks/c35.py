"""C35: Bayesian tabular model counts equal the observed data."""
import itertools
from unittest import mock

import numpy as np
import torch

from mc import pols
from tianshou.data import Batch, ReplayBuffer, VectorReplayBuffer
from tianshou.utils.torch_utils import policy_within_training_step

PROPERTY = "C35"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all histories of real updates (every small data set of transitions) and action requests on the real policy, against exact counts; the sampled model is recorded at the random number generators and solved independently"
NOTE = "Draws of the transition model and of the rewards are recorded (and, for greedy actions, chosen from a grid) at the generators; tie-breaking noise is set to zero."
ASSUMPTIONS = ["discount below 1", "greedy up to the convergence tolerance of value iteration (eps relative)", "priors are floating point arrays"]
NS, NA_ = 3, 2


def BOUNDS(tier):
    q = tier == "quick"
    return (f"3 states, 2 actions, 3 priors: all single transitions and {'one in 3 of all' if q else 'all'} pairs of transitions (state, action, next state, 3 rewards, continuing/ended) in one or two updates, with and without self-loops of ended states, plain and vectorised storage; "
            f"all sequences of up to {4 if q else 6} of act/update/act twice; greedy actions for all sampled models on a grid ({'256' if q else '1296'} reward tables x 3 transition models x 3 discounts)")


def jobs(tier):
    q = tier == "quick"
    return [["counts", pi, loop, s, q] for pi in range(3) for loop in (False, True) for s in range(NS)] + [["histories", loop, 4 if q else 6] for loop in (False, True)] + [["greedy", g, q] for g in range(3)]


def priors(i):
    tc = [np.full((NS, NA_, NS), 0.5), np.arange(1, NS * NA_ * NS + 1).reshape(NS, NA_, NS) / 4.0, np.ones((NS, NA_, NS))][i]
    rm = [np.zeros((NS, NA_)), np.array([[0.05, -1.0], [3.0, 0.5], [10.0, 0.0]]), np.full((NS, NA_), -0.1)][i]
    rs = [np.ones((NS, NA_)), np.array([[1.0, 2.0], [0.5, 1.0], [3.0, 1.0]]), np.full((NS, NA_), 0.1)][i]
    return tc, rm, rs


class Draws:
    """Record (or choose) what the generators return."""

    def __init__(self, rew=None, trans=None):
        self.rew, self.trans, self.n_rew, self.n_trans = rew, trans, 0, 0
        self.last = {}

    def __enter__(self):
        o_normal, o_sample = np.random.normal, torch.distributions.Dirichlet.sample
        me = self

        def normal(mean, std, *a, **k):
            me.n_rew += 1
            r = o_normal(mean, std, *a, **k) if me.rew is None else me.rew
            if not np.isfinite(r).all():
                raise FloatingPointError(f"sampled rewards {r} (mean {mean}, standard deviation {std})")
            me.last["rew"] = np.array(r)
            me.last["std"] = np.array(std)
            return r

        def sample(self, *a, **k):
            me.n_trans += 1
            t = o_sample(self, *a, **k) if me.trans is None else torch.as_tensor(me.trans)
            me.last["trans"] = t.numpy().copy()
            me.last["conc"] = self.concentration.numpy().copy()
            return t
        self.p = [mock.patch.object(np.random, "normal", normal), mock.patch.object(torch.distributions.Dirichlet, "sample", sample), mock.patch.object(np.random, "randn", lambda *s: np.zeros(s))]
        for x in self.p:
            x.start()
        return self

    def __exit__(self, *a):
        for x in self.p:
            x.stop()


def mk(pi, loop, **kw):
    tc, rm, rs = priors(pi)
    return pols.build("psrl", trans_count_prior=tc, rew_mean_prior=rm, rew_std_prior=rs, add_done_loop=loop, **{"discount_factor": 0.5, **kw}), (tc, rm, rs)


def update(pol, data, kind="plain"):
    buf = ReplayBuffer(len(data) + 1) if kind == "plain" else VectorReplayBuffer(2 * (len(data) + 1), 2)
    for i, (s, a, s2, r, d) in enumerate(data):
        b = Batch(obs=s, act=a, rew=r, terminated=d, truncated=False, obs_next=s2, info={})
        if kind == "plain":
            buf.add(b)
        else:
            buf.add(Batch.stack([b]), buffer_ids=[i % 2])
    with policy_within_training_step(pol):
        return pol.update(0, buf, batch_size=1, repeat=1)


class Model:
    def __init__(self, pi, loop, eps=0.01):
        tc, rm, rs = priors(pi)
        self.tc, self.rsum, self.rc = tc.copy(), rm * eps, np.full(rm.shape, eps)
        self.loop = loop

    def observe(self, data):
        for s, a, s2, r, d in data:
            self.tc[s, a, s2] += 1
            self.rsum[s, a] += r
            self.rc[s, a] += 1
            if self.loop and d:
                for x in range(NA_):
                    self.tc[s2, x, s2] += 1
                    self.rc[s2, x] += 1     # the self-loop earns nothing
        return self


TRANS = [(s, a, s2, r, d) for s in range(NS) for a in range(NA_) for s2 in range(NS) for r in (0.0, 1.0, -2.5) for d in (False, True)]


def judge(pol, m, keep, arrs, st):
    x = pol.model
    st.check(np.allclose(x.trans_count, m.tc), "transition-counts", lambda: f"transition counts {x.trans_count.tolist()}, prior plus observed {m.tc.tolist()}")
    st.check(np.allclose(x.rew_mean, m.rsum / m.rc), "reward-mean", lambda: f"reward means {x.rew_mean.tolist()}, weighted mean of observed {(m.rsum / m.rc).tolist()}")
    st.check(np.all(np.isfinite(x.rew_std)) and np.all(x.rew_std > 0), "reward-std", lambda: f"reward standard deviations {x.rew_std.tolist()}")
    st.check(all(np.array_equal(a, b) for a, b in zip(keep, arrs, strict=True)), "prior-changed", "the caller's prior arrays were changed")


def counts(pi, loop, s, q, st):
    singles = [t for t in TRANS if t[0] == s]
    cases = [[[t]] for t in singles]
    for i, (t, u) in enumerate(itertools.product(singles, TRANS)):
        if q and i % 3 != pi:
            continue
        cases.append([[t, u]] if i % 2 else [[t], [u]])
    for k, ups in enumerate(cases):
        pol, arrs = mk(pi, loop)
        keep = [a.copy() for a in arrs]
        m = Model(pi, loop)
        for j, data in enumerate(ups):
            st.ctx = {"prior": pi, "self_loops": loop, "updates": ups[:j + 1]}
            stats = update(pol, data, "plain" if k % 3 else "vector")
            m.observe(data)
            st.step()
            judge(pol, m, keep, arrs, st)
            st.check(np.isclose(stats.psrl_rew_mean, (m.rsum / m.rc).mean()), "reported-mean", "reported mean reward differs")
        with Draws() as d:
            pol(Batch(obs=np.arange(NS), info=Batch()))
            st.check(d.n_trans >= 1 and np.allclose(d.last["conc"], m.tc), "sampled-from", "transitions are not sampled from the counts")
        st.state((pi, loop, tuple(map(tuple, ups))))
        st.trace(st.ctx)


def solve(trans, rew, gamma):
    v = np.zeros(NS)
    for _ in range(400):
        v = (rew + gamma * trans @ v).max(1)
    return rew + gamma * trans @ v, v


def check_greedy(act, obs, trans, rew, gamma, st, eps=0.01):
    q, v = solve(trans, rew, gamma)
    tol = 2 * gamma / (1 - gamma) * (eps * np.abs(v).max() + 1e-8) + 1e-9
    for o, a in zip(obs, act, strict=True):
        st.check(q[o][a] >= q[o].max() - tol, "greedy", lambda: f"action {a} in state {o}: values {q[o]} under the sampled model")


SETS = ([(0, 0, 1, 1.0, False)], [(0, 1, 2, -2.0, True), (1, 0, 0, 3.0, False)], [(2, 1, 2, 5.0, True)])


def histories(loop, depth, st):
    ops = ["act", "act2", 0, 1, 2]
    for pi in range(3):
        for ln in range(1, depth + 1):
            for seq in itertools.product(ops, repeat=ln):
                if ln > 3 and pi != sum(map(str(seq).count, "02")) % 3:
                    continue
                pol, arrs = mk(pi, loop)
                keep = [a.copy() for a in arrs]
                m, fresh, cur, upd = Model(pi, loop), True, None, 0
                for i, op in enumerate(seq):
                    st.ctx = {"prior": pi, "self_loops": loop, "history": seq[:i + 1]}
                    if isinstance(op, int):
                        update(pol, SETS[op])
                        m.observe(SETS[op])
                        fresh = True
                    else:
                        obs = np.arange(NS) if op == "act" else np.array([2, 2, 0])
                        with Draws() as d:
                            act = pol(Batch(obs=obs, info=Batch())).act
                        st.check((d.n_trans, d.n_rew) == ((1, 1) if fresh else (0, 0)), "redraw", f"{d.n_trans} transition models and {d.n_rew} reward tables drawn; {'new observations' if fresh else 'nothing new'} since the last draw")
                        if fresh:
                            cur, fresh = (d.last["trans"], d.last["rew"]), False
                        check_greedy(act, obs, *cur, 0.5, st)
                    judge(pol, m, keep, arrs, st)
                    st.step()
                st.state((loop, pi, seq))
                st.trace(st.ctx)


def greedy(gi, q, st):
    gamma = (0.0, 0.5, 0.9)[gi]
    vals = (-1.0, 0.0, 1.0, 4.0) if q else (-3.0, -1.0, 0.0, 0.5, 1.0, 4.0)
    eye = np.tile(np.eye(NS)[:, None, :], (1, NA_, 1))
    T = [eye, np.full((NS, NA_, NS), 1 / NS), np.array([[[0, 1, 0], [0, 0, 1]], [[0, 0, 1], [1, 0, 0]], [[0, 0, 1], [0.5, 0.5, 0]]], dtype=float)]
    for ti, t in enumerate(T):
        for r in itertools.product(vals, repeat=4):
            rew = np.array([[r[0], r[1]], [r[2], 0.25], [0.1, r[3]]])
            pol, _ = mk(2, False, discount_factor=gamma)
            st.ctx = {"transitions": t.tolist(), "rewards": rew.tolist(), "discount": gamma}
            with Draws(rew, t):
                act = pol(Batch(obs=np.arange(NS), info=Batch())).act
            check_greedy(act, range(NS), t, rew, gamma, st)
            st.step()
            st.state((gi, ti, r))
        st.trace(st.ctx)


def run(job, st):
    globals()[job[0]](*job[1:], st)
