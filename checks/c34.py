"""C34: trust-region updates stay in the trust region or leave the policy unchanged."""
import copy
import itertools
from unittest import mock

import numpy as np
import torch
from torch.distributions import kl_divergence

from mc import pols, rng
from mc.explore import explore
from tianshou.data import Batch, ReplayBuffer, to_numpy
from tianshou.utils.torch_utils import policy_within_training_step

PROPERTY = "C34"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive small data sets (all action/reward sequences over a grid) x line search settings x minibatch permutations through the real update(); after every actor step the divergence and the surrogate objective are recomputed from the parameters before and after it"
NOTE = "Actor steps are observed from outside: parameters at the first optimiser step of the value network of every minibatch, rows from its input. A failed line search is reached for many settings (counted in the evidence)."
ASSUMPTIONS = ["actor and value network share no parameters", "at least one backtracking step is allowed", "divergence and objective recomputed to 1e-5 relative"]


def BOUNDS(tier):
    q = tier == "quick"
    return (f"discrete and continuous actors; all reward sequences over {{-1, 0, 2}} and (discrete) action sequences of 1-{3 if q else 4} transitions with three endings (of length 3: one in 12, of 4: one in 20); bounds 1e-3, 0.05, 2 x 1, 2, 6 backtracking steps (5 of these pairs in the quick tier) x factors 0.3, 0.9; advantages normalised or not; "
            f"minibatches of 1-2 rows in all orders, {'1' if q else '1-2'} passes; plain natural-gradient steps (NPG) of given size against a dense solve (quick: one in 3 / 13)")


def jobs(tier):
    q = tier == "quick"
    return [["npg", p, m, q] for p in ("npg", "npg:c") for m in (3, 2)] + [[p, kl, bt, m, q] for p in ("trpo", "trpo:c") for kl in (1e-3, 0.05, 2.0) for bt in (1, 2, 6) for m in (range(1, 4) if q else range(1, 5)) if not q or (kl, bt) in ((1e-3, 6), (0.05, 1), (0.05, 2), (2.0, 1), (2.0, 2))]


def fillbuf(name, m, acts, rews, end):
    r = np.random.default_rng(2)
    buf = ReplayBuffer(m + 1)
    o = np.array([0.5, -1, 0.2], dtype=np.float32)
    for k in range(m):
        o2 = r.normal(size=3).astype(np.float32)
        a = acts[k] if ":c" not in name else np.array([[0.1, -0.4], [0.9, 0.9], [-0.7, 0.2]][acts[k]], dtype=np.float32)
        buf.add(Batch(obs=o, act=a, rew=rews[k], terminated=bool(end >> k & 1), truncated=k == m - 1, obs_next=o2, info={}))
        o = o2
    return buf


def observe(pol, go):
    """Run go(), returning per actor step (params before, params after, rows), plus learn()'s batch and result."""
    theta = lambda: torch.cat([p.detach().reshape(-1).clone() for p in pol.actor.parameters()])
    steps, cur = [], {"before": theta(), "crit": 0, "rows": None, "critic_before": None}
    cap = {}
    old_learn, old_step = pol.learn, pol.optim.step
    crit = lambda: torch.cat([p.detach().reshape(-1).clone() for p in pol.critic.parameters()])

    def pre(mod, args):
        cur["rows"] = to_numpy(args[0]).copy()

    def step(*a, **k):
        if cur["crit"] == 0:
            steps.append([cur["before"], theta(), cur["rows"], crit()])
        cur["crit"] = (cur["crit"] + 1) % pol.optim_critic_iters
        r = old_step(*a, **k)
        cur["before"] = theta()
        cap["critic"] = crit()
        return r

    def learn(batch, *a, **k):
        cap["batch"] = copy.deepcopy(batch)
        cap["critic0"] = crit()
        h = pol.critic.register_forward_pre_hook(pre)
        try:
            cap["stats"] = old_learn(batch, *a, **k)
        finally:
            h.remove()
        return cap["stats"]
    with mock.patch.object(pol, "learn", learn), mock.patch.object(pol.optim, "step", step):
        go()
    return steps, cap


def setp(actor, flat):
    k = 0
    with torch.no_grad():
        for p in actor.parameters():
            p.copy_(flat[k:k + p.numel()].view(p.shape))
            k += p.numel()


def surrogate(pol, flat, b):
    setp(pol.actor, flat)
    with torch.no_grad():
        d = pol(b).dist
        lp = d.log_prob(b.act)
        ratio = (lp - b.logp_old).exp().reshape(len(b), -1).transpose(0, 1)
        return d, float((ratio * b.adv).mean())


def judge(name, pol, steps, cap, max_kl, st, nsteps):
    st.check(len(steps) == nsteps, "steps", f"{len(steps)} actor steps, expected {nsteps}")
    full = cap["batch"]
    key = {tuple(np.round(np.asarray(o), 5)): i for i, o in enumerate(to_numpy(full.obs))}
    failed = []
    twin = copy.deepcopy(pol)
    for before, after, rows, _ in steps:
        idx = [key[tuple(np.round(o, 5))] for o in rows]
        b = full[idx]
        d0, s0 = surrogate(twin, before, b)
        d1, s1 = surrogate(twin, after, b) if torch.isfinite(after).all() else (None, float("nan"))
        same = torch.equal(before, after)
        kl = float(kl_divergence(d0, d1).mean()) if d1 is not None else float("nan")
        failed.append(same)
        st.check(bool(torch.isfinite(after).all()), "non-finite", f"{name}: actor parameters are not finite after the step")
        st.check(same or kl <= max_kl * (1 + 1e-3) + 1e-6, "divergence", f"{name}: divergence {kl} after the step, bound {max_kl}")
        st.check(same or s1 >= s0 - 1e-5 * (1 + abs(s0)), "objective", f"{name}: surrogate objective {s0} became {s1}")
    ss = cap["stats"].step_size
    n = len(steps)
    st.check((ss.min == 0) == any(failed) and (ss.max == 0) == all(failed), "step-size", f"{name}: steps rejected {failed}; reported step sizes between {ss.min} and {ss.max}")
    st.check(n != 1 or (ss.mean == 0) == failed[0], "step-size", f"{name}: step rejected {failed}, reported step size {ss.mean}")
    return failed


def trust(name, max_kl, bt, m, q, st):
    import warnings
    warnings.simplefilter("ignore")
    base = {}
    for coeff, norm in ((0.3, True), (0.9, False)):
        for iters in (1, 2):
            base[coeff, iters] = pols.build(name, max_kl=max_kl, max_backtracks=bt, backtrack_coeff=coeff, advantage_normalization=norm, optim_critic_iters=iters)
    acts_all = list(itertools.product(range(3), repeat=m))
    rews_all = list(itertools.product((-1.0, 0.0, 2.0), repeat=m))
    for ai, acts in enumerate(acts_all):
        for ri, rews in enumerate(rews_all):
            if m >= 3 and (ai + ri + m) % (12 if q else 2 if m == 3 else 20):
                continue
            for end in (0, 1 << (m - 1), 1):
                coeff = 0.3 if (ai + ri + end) % 2 else 0.9
                iters = 1 + (ai + end) % 2
                p = copy.deepcopy(base[coeff, iters])
                buf = fillbuf(name, m, acts, rews, end)
                st.ctx = {"policy": name, "max_kl": max_kl, "max_backtracks": bt, "factor": coeff, "actions": acts, "rewards": rews, "ends": end}

                def go():
                    with policy_within_training_step(p):
                        p.update(0, buf, batch_size=None, repeat=1)
                steps, cap = observe(p, go)
                f = judge(name, p, steps, cap, max_kl, st, 1)
                st.check(torch.equal(steps[0][3], cap["critic0"]), "value-network", "the line search changed the value network")
                st.step()
                st.outcome(("rejected", f[0]))
                st.state((name, max_kl, bt, acts, rews, end))
        st.trace(st.ctx)
    # minibatches in every order
    for bs, repeat in itertools.product((1, 2), (1,) if q else (1, 2)):
        if m > 3 or m == 3 and repeat > 1 or bs > m:
            continue
        for rews in rews_all[:: 1 if m < 3 else 5]:
            def run1(ch):
                p = copy.deepcopy(base[0.9, 1])
                buf = fillbuf(name, m, acts_all[(len(acts_all) * 2) // 3], rews, 1)
                with rng.patched(ch, maxperm=4):
                    def go():
                        with policy_within_training_step(p):
                            p.update(0, buf, batch_size=bs, repeat=repeat)
                    return (p, *observe(p, go))
            for ch, (p, steps, cap) in explore(run1):
                st.ctx = {"policy": name, "max_kl": max_kl, "max_backtracks": bt, "rewards": rews, "batch_size": bs, "repeat": repeat, "order": [c for c, _ in ch.log]}
                per = max(1, m // bs)
                judge(name, p, steps, cap, max_kl, st, per * repeat)
                st.step()
                st.trace(st.ctx)
                st.state((name, max_kl, bt, m, rews, bs, repeat, tuple(c for c, _ in ch.log)))


def npg(name, m, q, st):
    """Natural-gradient steps move along (F + 0.1)^-1 g: the dense system is solved directly."""
    for acts in itertools.product(range(3), repeat=m):
        for rews in itertools.product((-1.0, 0.0, 2.0), repeat=m):
            for size in (0.1, 0.5):
                if q and (sum(acts) + sum(rews) * 3 + sum((i + 1) * a for i, a in enumerate(acts)) + size * 10) % (3 if m == 2 else 13):
                    continue
                p = pols.build(name, actor_step_size=size, optim_critic_iters=1, advantage_normalization=False)
                p0 = copy.deepcopy(p)
                buf = fillbuf(name, m, acts, rews, 1)

                def go():
                    with policy_within_training_step(p):
                        p.update(0, buf, batch_size=None, repeat=1)
                steps, cap = observe(p, go)
                before, after, rows, crit = steps[0]
                b = cap["batch"]
                params = list(p0.actor.parameters())
                d = p0(b).dist
                obj = (d.log_prob(b.act).reshape(m, -1).transpose(0, 1) * b.adv).mean()
                cat = lambda gs: torch.cat([x.reshape(-1) for x in gs])
                g = cat(torch.autograd.grad(obj, params, retain_graph=True)).double()
                with torch.no_grad():
                    old = p0(b).dist
                kg = cat(torch.autograd.grad(kl_divergence(old, d).mean(), params, create_graph=True))
                F = torch.stack([cat([x if x is not None else torch.zeros_like(w) for x, w in zip(torch.autograd.grad(kg[i], params, retain_graph=True, allow_unused=True), params, strict=True)]) for i in range(len(kg))]).double()
                want = size * torch.linalg.solve(F + 0.1 * torch.eye(len(kg)), g)
                got = (after - before).double()
                st.ctx = {"policy": name, "actions": acts, "rewards": rews, "step": size}
                st.check(float((got - want).norm()) <= 2e-2 * float(want.norm()) + 1e-5, "natural-gradient", lambda: f"{name}: step {got[:4]}..., natural gradient step {want[:4]}...")
                st.check(torch.equal(crit, cap["critic0"]), "value-network", "the actor step changed the value network")
                st.step()
                st.state((name, m, acts, rews, size))
        st.trace(st.ctx)


def run(job, st):
    npg(*job[1:], st) if job[0] == "npg" else trust(*job, st)
