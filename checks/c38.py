"""C38: every update is one optimiser step on the algorithm's documented objective."""
import copy
import itertools
from contextlib import ExitStack, contextmanager
from unittest import mock

import numpy as np
import torch
import torch.nn.functional as F

from mc import pols
from tianshou.data import Batch, PrioritizedReplayBuffer, ReplayBuffer
from tianshou.utils.torch_utils import policy_within_training_step

PROPERTY = "C38"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of small stored histories (all rewards x endings over a grid) x algorithm options, run through consecutive real updates in lock-step with an independent implementation of the published objective that performs the same plain gradient steps on copies of the networks; all parameters and reported losses are compared after every update"
NOTE = "Optimisers are plain gradient descent, so the parameters reveal size and direction of every gradient; random draws inside an update are fixed patterns. Two or three consecutive updates make delays, target networks, running statistics and temperatures count."
ASSUMPTIONS = ["networks are deterministic functions of their input (dropout and batch normalisation are not used)", "agreement to 2e-3 relative in float32", "constant factors of the quantile losses are those of equal numbers of quantiles", "the gradient through the exponential weight of critic-regularised regression is not judged, its value is"]
LR = 0.05
OBSV = torch.tensor([[0.9, -0.4, 0.3], [-0.7, 0.8, 0.1], [0.2, 0.5, -1.1], [1.2, 0.6, 0.7], [-0.3, -0.9, 0.4]]).numpy()
ZN = (0.3, -0.7, 1.1)     # standard normal pattern along the last dimension
ZU = (0.35, 0.8, 0.1, 0.6)     # uniform pattern


def BOUNDS(tier):
    q = tier == "quick"
    return (f"21 algorithms with {sum(len(v) for v in OPTS.values())} option sets; histories of {'2' if q else '2 and 3'} transitions: all rewards from (-1, 0, 2) x all endings (continues, terminated, truncated) per transition, {'two alternating' if q else '4'} action assignments{'' if q else ' (of length 3: one in four)'}; {'2' if q else '2-3'} consecutive updates; plain and prioritised storage; "
            "on-policy: 1-2 passes, whole data or single rows")


# ---------------------------------------------------------------------- fixed random answers
def pattern(size, base):
    size = tuple(size)
    if not size:
        return torch.tensor(base[0])
    row = torch.tensor([base[i % len(base)] for i in range(size[-1])])
    return row.expand(size).clone()


@contextmanager
def fixed(subset):
    def f(base):
        def g(*size, **kw):
            if len(size) == 1 and isinstance(size[0], tuple | list | torch.Size):
                size = tuple(size[0])
            return pattern(kw.pop("size", size), base)
        return g

    def normal(mean, std=1.0, *a, **k):
        if isinstance(mean, torch.Tensor):
            return mean + pattern(mean.shape, ZN) * std
        return float(mean) + float(std) * pattern(a[0] if a else k["size"], ZN)

    def choice(a, size=None, replace=True, p=None):
        arr = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        if not replace and subset is not None and size == len(subset):
            return np.array(subset)
        return arr[0] if size is None else arr[: int(np.prod(size))].reshape(size)
    with ExitStack() as s:
        for o, n, v in ((torch, "randn", f(ZN)), (torch, "rand", f(ZU)), (torch, "normal", normal), (torch, "randn_like", lambda t, **k: pattern(t.shape, ZN)), (torch, "rand_like", lambda t, **k: pattern(t.shape, ZU)),
                        (torch.distributions.normal, "_standard_normal", lambda shape, dtype, device: pattern(shape, ZN).to(dtype)),
                        (torch.Tensor, "uniform_", lambda self, a=0, b=1: self.copy_(a + pattern(self.shape, ZU) * (b - a))), (torch.Tensor, "normal_", lambda self, m=0, sd=1: self.copy_(m + sd * pattern(self.shape, ZN))),
                        (np.random, "choice", choice), (np.random, "permutation", lambda n: np.arange(n) if np.ndim(n) == 0 else np.array(n))):
            s.enter_context(mock.patch.object(o, n, v))
        yield


def build(name, **o):
    with mock.patch.object(pols, "adam", lambda *ms, lr=0: torch.optim.SGD([p for m in ms for p in m.parameters()], lr=LR)):
        if o.pop("auto", False):
            la = torch.full((1,), -0.5, requires_grad=True)
            o["alpha"] = (-1.5, la, torch.optim.SGD([la], lr=LR))
        pol = pols.build(name, **o)
    if name == "fqf":
        pol.fraction_optim = torch.optim.SGD(pol.fraction_model.parameters(), lr=LR)
        with torch.no_grad():
            pol.fraction_model.net.weight.mul_(50)
    with torch.no_grad():      # larger weights: the objective's branches are all reached
        for m in pol.modules():
            if isinstance(m, torch.nn.Linear):
                m.weight.mul_(2.0)
    for k, m in list(pol._modules.items()):      # targets start equal
        for suf in ("_old", "_target"):
            if k + suf in pol._modules and pol._modules[k + suf] is not m:
                pol._modules[k + suf].load_state_dict(m.state_dict())
    pol.train()
    return pol


# ---------------------------------------------------------------------- reference tools
def step(loss, *ms, clip=None, retain=False):
    ps = [p for m in ms for p in (m.parameters() if isinstance(m, torch.nn.Module) else [m])]
    gs = torch.autograd.grad(loss, ps, allow_unused=True, retain_graph=True)
    gs = [torch.zeros_like(p) if g is None else g for g, p in zip(gs, ps, strict=True)]
    if clip:
        n = torch.sqrt(sum((g ** 2).sum() for g in gs))
        gs = [g * min(1.0, float(clip / (n + 1e-6))) for g in gs]
    with torch.no_grad():
        for p, g in zip(ps, gs, strict=True):
            p -= LR * g


def soft(t, s, tau):
    with torch.no_grad():
        for a, b in zip(t.parameters(), s.parameters(), strict=True):
            a.copy_(tau * b + (1 - tau) * a)


class D:
    """The stored history, oldest first."""

    def __init__(self, rows, w):
        self.rows = rows
        self.n = len(rows)
        self.obs = torch.tensor(np.array([r["obs"] for r in rows]))
        self.nxt = torch.tensor(np.array([r["obs_next"] for r in rows]))
        self.act = torch.tensor(np.array([r["act"] for r in rows]))
        self.rew = torch.tensor([r["rew"] for r in rows], dtype=torch.float32)
        self.term = torch.tensor([float(r["terminated"]) for r in rows])
        self.w = torch.tensor(np.asarray(w), dtype=torch.float32) if w is not None else torch.ones(self.n)

    def end(self, j):
        return self.rows[j]["terminated"] or self.rows[j]["truncated"] or j == self.n - 1

    def nstep(self, q, n, gamma):
        """q(obs batch) -> value(s) of the state after the last transition used."""
        out = []
        with torch.no_grad():
            for i in range(self.n):
                acc, g, j = 0.0, 1.0, i
                for k in range(n):
                    acc += g * float(self.rew[j])
                    g *= gamma
                    if self.end(j) or k == n - 1:
                        break
                    j += 1
                v = q(self.nxt[j:j + 1])[0]
                out.append(acc + g * (0.0 if self.rows[j]["terminated"] else 1.0) * v)
        return torch.stack([torch.as_tensor(x) for x in out])

    def gae(self, v, vn, gamma, lam, rew=None):
        rew = self.rew if rew is None else rew
        adv = torch.zeros(self.n)
        last = 0.0
        for i in reversed(range(self.n)):
            delta = float(rew[i]) + gamma * float(vn[i]) * (1 - float(self.term[i])) - float(v[i])
            last = delta + (0.0 if self.end(i) else gamma * lam * last)
            adv[i] = last
        return adv, adv + v

    def one(self):
        return F.one_hot(self.act.long(), 3).float()


class Rms:
    mean, var, n = 0.0, 1.0, 0

    def add(self, x):
        x = np.asarray(x, dtype=float)
        m, v, c = x.mean(), x.var(), len(x)
        tot = self.n + c
        d = m - self.mean
        self.var = (self.var * self.n + v * c + d * d * self.n * c / tot) / tot
        self.mean += d * c / tot
        self.n = tot


class Ref:
    def __init__(self, name, pol, o, nets):
        self.name, self.o, self.k = name, o, 0
        for a in nets:
            setattr(self, a, copy.deepcopy(getattr(pol, a)))
        self.nets = nets
        self.old = {a: copy.deepcopy(getattr(self, a)) for a in nets}
        if o.get("auto"):
            self.la = torch.full((1,), -0.5, requires_grad=True)
            self.alpha = float(self.la.exp())
        else:
            self.alpha = o.get("alpha", 0.2)
        self.rms = Rms()
        self.last = 0.0

    def g(self, k, d):
        return self.o.get(k, d)

    def hard(self, freq):
        if freq and self.k % freq == 0:
            for a in self.nets:
                self.old[a].load_state_dict(getattr(self, a).state_dict())

    def temper(self, logp):
        if not self.o.get("auto"):
            return None
        loss = -(self.la * (logp.detach() - 1.5)).mean()
        step(loss, self.la)
        self.alpha = float(self.la.exp())
        return float(loss)


def model(m, obs, **k):
    return m(obs, **k)[0]


# ---------------------------------------------------------------------- value-based
def dqn(R, d):
    fr = R.g("target_update_freq", 0)
    tgt = R.old["model"] if fr else R.model

    def q(o):
        t = model(tgt, o)
        a = (model(R.model, o) if R.g("is_double", True) else t).argmax(-1, keepdim=True)
        return t.gather(-1, a)[:, 0]
    y = d.nstep(q, R.g("estimation_step", 1), R.g("discount_factor", 0.99))
    R.hard(fr)
    x = (model(R.model, d.obs) * d.one()).sum(-1)
    e = x - y
    if R.g("clip_loss_grad", False):
        per = torch.where(e.abs() <= 1, 0.5 * e ** 2, e.abs() - 0.5)
    else:
        per = e ** 2
    loss = (d.w * per).mean()
    step(loss, R.model)
    return {"loss": loss}


def bdq(R, d):
    fr = R.g("target_update_freq", 0)
    tgt = R.old["model"] if fr else R.model
    with torch.no_grad():
        t = model(tgt, d.nxt)
        a = (model(R.model, d.nxt) if R.g("is_double", True) else t).argmax(-1, keepdim=True)
        y = d.rew + R.g("discount_factor", 0.99) * (1 - d.term) * t.gather(-1, a)[..., 0].mean(-1)
    R.hard(fr)
    x = model(R.model, d.obs).gather(-1, d.act.long()[..., None])[..., 0]
    loss = (d.w * ((x - y[:, None]) ** 2).mean(-1)).mean()
    step(loss, R.model)
    return {"loss": loss}


def quantile(x, y, tau, w):
    """x: quantiles (B,N), y: targets (B,M), tau (B or 1,N)."""
    e = y[:, None, :] - x[:, :, None]
    h = torch.where(e.abs() <= 1, 0.5 * e ** 2, e.abs() - 0.5)
    rho = (tau[:, :, None] - (e.detach() <= 0).float()).abs() * h
    return (w * rho.mean(1).sum(1)).mean()


def of(t, act):
    return t[torch.arange(len(act)), act.long()]


def qrdqn(R, d):
    fr = R.g("target_update_freq", 0)
    tgt = R.old["model"] if fr else R.model
    y = d.nstep(lambda o: of(model(tgt, o), model(R.model, o).mean(-1).argmax(-1)), R.g("estimation_step", 1), R.g("discount_factor", 0.99))
    R.hard(fr)
    all_ = model(R.model, d.obs)
    n = all_.shape[-1]
    loss = ql = quantile(of(all_, d.act), y, ((torch.arange(n) + 0.5) / n)[None], d.w)
    out = {}
    if R.name == "dcql":
        q = all_.mean(-1)
        c = (torch.log(q.exp().sum(-1)) - of(q, d.act)).mean()
        loss = ql + R.g("min_q_weight", 1.0) * c
        out = {"qr_loss": ql, "cql_loss": c}
    step(loss, R.model)
    return {"loss": loss, **out}


def iqn(R, d):
    fr = R.g("target_update_freq", 0)
    tgt = R.old["model"] if fr else R.model
    n = 3
    y = d.nstep(lambda o: of(tgt(o, sample_size=n)[0][0], R.model(o, sample_size=n)[0][0].mean(-1).argmax(-1)), R.g("estimation_step", 1), R.g("discount_factor", 0.99))
    R.hard(fr)
    (all_, tau), _ = R.model(d.obs, sample_size=n)
    loss = quantile(of(all_, d.act), y, tau, d.w)
    step(loss, R.model)
    return {"loss": loss}


def fqf(R, d):
    fr = R.g("target_update_freq", 0)
    tgt = R.old["model"] if fr else R.model

    def fractions(h):
        p = torch.softmax(R.fraction_model.net(h), -1)
        t = torch.cat([torch.zeros(len(h), 1), torch.cumsum(p, -1)], -1)
        return p, t, (t[:, 1:] + t[:, :-1]).detach() / 2

    def quant(m, h, tau):
        b, n = tau.shape
        return m.last((h[:, None] * m.embed_model(tau)).view(b * n, -1)).view(b, n, -1).transpose(1, 2)

    def q(o):
        h = R.model.preprocess(o)[0]
        p, t, th = fractions(h)
        v = quant(R.model, h, th)
        a = (v * p[:, None]).sum(-1).argmax(-1)
        return of(quant(tgt, tgt.preprocess(o)[0], th), a)
    y = d.nstep(q, R.g("estimation_step", 1), R.g("discount_factor", 0.99))
    R.hard(fr)
    h = R.model.preprocess(d.obs)[0]
    p, t, th = fractions(h.detach())
    x = of(quant(R.model, h, th), d.act)
    ql = quantile(x, y, th, d.w)
    with torch.no_grad():
        xt = of(quant(R.model, h, t[:, 1:-1]), d.act)
        # dW/dtau_i = 2 F^-1(tau_i) - F^-1(tau^_i) - F^-1(tau^_{i-1})  (monotone quantiles; signs otherwise)
        lo = torch.cat([x[:, :1], xt[:, :-1]], 1)
        hi = torch.cat([xt[:, 1:], x[:, -1:]], 1)
        g = torch.where(xt > lo, 1.0, -1.0) * (xt - x[:, :-1]) + torch.where(xt < hi, 1.0, -1.0) * (xt - x[:, 1:])
    fl = (g * t[:, 1:-1]).sum(1).mean()
    ent = -(p * torch.log(p)).sum(-1).mean()
    step(fl - R.g("ent_coef", 0.0) * ent, R.fraction_model)
    step(ql, R.model)
    return {"quantile_loss": ql, "fraction_loss": fl, "entropy_loss": ent, "loss": ql + fl - R.g("ent_coef", 0.0) * ent}


def dbcq(R, d):
    fr = R.g("target_update_freq", 8)
    thr = R.g("unlikely_action_threshold", 0.3)

    def q(o):
        v = model(R.model, o)
        p = torch.softmax(model(R.imitator, o), -1)
        ok = p / p.max(-1, keepdim=True).values >= thr
        a = torch.where(ok, v, torch.tensor(-1e9)).argmax(-1)
        return of(model(R.old["model"], o), a)
    y = d.nstep(q, R.g("estimation_step", 1), R.g("discount_factor", 0.99))
    R.hard(fr)
    e = of(model(R.model, d.obs), d.act) - y
    ql = torch.where(e.abs() < 1, 0.5 * e ** 2, e.abs() - 0.5).mean()
    lg = model(R.imitator, d.obs)
    il = -of(torch.log_softmax(lg, -1), d.act).mean()
    rl = (lg ** 2).mean()
    loss = ql + il + R.g("imitation_logits_penalty", 1e-2) * rl
    step(loss, R.model, R.imitator)
    return {"loss": loss, "q_loss": ql, "i_loss": il, "reg_loss": rl}


def dcrr(R, d):
    fr = R.g("target_update_freq", 0)
    R.hard(fr)
    ta, tc = (R.old["actor"], R.old["critic"]) if fr else (R.actor, R.critic)
    with torch.no_grad():
        y = d.rew + R.g("discount_factor", 0.99) * (1 - d.term) * (tc(d.nxt) * torch.softmax(model(ta, d.nxt), -1)).sum(-1)
    qs = R.critic(d.obs)
    qa = of(qs, d.act)
    cl = 0.5 * ((qa - y) ** 2).mean()
    lp = torch.log_softmax(model(R.actor, d.obs), -1)
    adv = qa - (qs * lp.exp()).sum(-1)
    m = R.g("policy_improvement_mode", "exp")
    c = (adv > 0).float() if m == "binary" else (adv / R.g("beta", 1.0)).exp().clamp(0, R.g("ratio_upper_bound", 20.0)) if m == "exp" else torch.ones(d.n)
    al = (-of(lp, d.act) * c).mean()
    ml = (torch.logsumexp(qs, -1) - qa).mean()
    loss = al + cl + R.g("min_q_weight", 10.0) * ml
    step(loss, R.actor, R.critic)
    return {"loss": loss, "actor_loss": al, "critic_loss": cl, "cql_loss": ml}


# ---------------------------------------------------------------------- actor-critic
def det(a, o):
    return model(a, o)


def gauss(R, o, a=None):
    (mu, sg), _ = (a or R.actor)(o)
    u = mu + sg * pattern(mu.shape, ZN)
    act = torch.tanh(u)
    lp = (-0.5 * ((u - mu) / sg) ** 2 - torch.log(sg) - 0.5 * np.log(2 * np.pi)).sum(-1)
    return act, lp - torch.log(1 - act ** 2 + 1.1920929e-07).sum(-1)


def mse(R, c, d, y):
    loss = (d.w * (c(d.obs, d.act).flatten() - y) ** 2).mean()
    step(loss, c)
    return loss


def ddpg(R, d):
    tau = R.g("tau", 0.005)
    y = d.nstep(lambda o: R.old["critic"](o, det(R.old["actor"], o)).flatten(), R.g("estimation_step", 1), R.g("gamma", 0.99))
    cl = mse(R, R.critic, d, y)
    al = -R.critic(d.obs, det(R.actor, d.obs)).mean()
    step(al, R.actor)
    for a in R.nets:
        soft(R.old[a], getattr(R, a), tau)
    return {"critic_loss": cl, "actor_loss": al}


def td3(R, d):
    nz, nc = R.g("policy_noise", 0.2), R.g("noise_clip", 0.5)

    def q(o):
        a = det(R.old["actor"], o)
        e = nz * pattern(a.shape, ZN)
        if nc > 0:
            e = e.clamp(-nc, nc)
        return torch.minimum(R.old["critic"](o, a + e), R.old["critic2"](o, a + e)).flatten()
    y = d.nstep(q, R.g("estimation_step", 1), R.g("gamma", 0.99))
    c1, c2 = mse(R, R.critic, d, y), mse(R, R.critic2, d, y)
    if R.k % R.g("update_actor_freq", 2) == 0:
        a = det(R.actor, d.obs)
        v = R.critic(d.obs, a)
        al = -v.mean()
        if R.name == "td3bc":
            al = R.g("alpha", 2.5) / v.abs().mean().detach() * al + ((a - d.act) ** 2).mean()
        step(al, R.actor)
        R.last = al
        for n in R.nets:
            soft(R.old[n], getattr(R, n), R.g("tau", 0.005))
    return {"critic1_loss": c1, "critic2_loss": c2, "actor_loss": R.last}


def sac(R, d):
    def q(o):
        a, lp = gauss(R, o)
        return torch.minimum(R.old["critic"](o, a), R.old["critic2"](o, a)).flatten() - R.alpha * lp
    y = d.nstep(q, R.g("estimation_step", 1), R.g("gamma", 0.99))
    c1, c2 = mse(R, R.critic, d, y), mse(R, R.critic2, d, y)
    a, lp = gauss(R, d.obs)
    al = (R.alpha * lp - torch.minimum(R.critic(d.obs, a), R.critic2(d.obs, a)).flatten()).mean()
    step(al, R.actor)
    tl = R.temper(lp)
    for n in ("critic", "critic2"):
        soft(R.old[n], getattr(R, n), R.g("tau", 0.005))
    return {"critic1_loss": c1, "critic2_loss": c2, "actor_loss": al, "alpha": R.alpha, "alpha_loss": tl}


def dsac(R, d):
    def probs(o):
        return torch.softmax(model(R.actor, o), -1)

    def q(o):
        p = probs(o)
        return (p * torch.minimum(R.old["critic"](o), R.old["critic2"](o))).sum(-1) - R.alpha * (p * torch.log(p)).sum(-1)
    y = d.nstep(q, R.g("estimation_step", 1), R.g("gamma", 0.99))
    ls = []
    for c in (R.critic, R.critic2):
        loss = (d.w * (of(c(d.obs), d.act) - y) ** 2).mean()
        step(loss, c)
        ls.append(loss)
    p = probs(d.obs)
    h = -(p * torch.log(p)).sum(-1)
    al = -(R.alpha * h + (p * torch.minimum(R.critic(d.obs), R.critic2(d.obs)).detach()).sum(-1)).mean()
    step(al, R.actor)
    tl = R.temper(-h)
    for n in ("critic", "critic2"):
        soft(R.old[n], getattr(R, n), R.g("tau", 0.005))
    return {"critic1_loss": ls[0], "critic2_loss": ls[1], "actor_loss": al, "alpha": R.alpha, "alpha_loss": tl}


def redq(R, d):
    def q(o):
        a, lp = gauss(R, o)
        qs = R.old["critic"](o, a)[list(R.o["subset"])][..., 0]
        return (qs.min(0).values if R.g("target_mode", "min") == "min" else qs.mean(0)) - R.alpha * lp
    y = d.nstep(q, R.g("estimation_step", 1), R.g("gamma", 0.99))
    cl = (d.w * (R.critic(d.obs, d.act)[..., 0] - y) ** 2).mean()
    step(cl, R.critic)
    tl = None
    if (R.k + 1) % R.g("actor_delay", 2) == 0:
        a, lp = gauss(R, d.obs)
        R.last = (R.alpha * lp - R.critic(d.obs, a)[..., 0].mean(0)).mean()
        step(R.last, R.actor)
        tl = R.temper(lp)
    soft(R.old["critic"], R.critic, R.g("tau", 0.005))
    return {"critic_loss": cl, "actor_loss": R.last, "alpha": R.alpha, "alpha_loss": tl}


def cql(R, d):
    n = 2
    a, lp = gauss(R, d.obs)
    al = (R.alpha * lp - torch.minimum(R.critic(d.obs, a), R.critic2(d.obs, a)).flatten()).mean()
    step(al, R.actor)
    tl = R.temper(lp)
    with torch.no_grad():
        a, lp = gauss(R, d.nxt)
        y = d.rew + R.g("gamma", 0.99) * (1 - d.term) * (torch.minimum(R.old["critic"](d.nxt, a), R.old["critic2"](d.nxt, a)).flatten() - R.alpha * lp)
    lo, hi = R.g("min_action", -1.0), R.g("max_action", 1.0)
    T, wt = R.g("temperature", 1.0), R.g("cql_weight", 1.0)
    cal = d.gae(torch.zeros(d.n), torch.zeros(d.n), R.g("gamma", 0.99), 1.0)[1] if R.g("calibrated", False) else None
    rnd = lo + pattern((d.n, 2), ZU) * (hi - lo)
    out, losses, pen = {"actor_loss": al, "alpha": R.alpha, "alpha_loss": tl}, [], []
    for c in (R.critic, R.critic2):
        q = c(d.obs, d.act).flatten()
        vals = [c(d.obs, rnd).flatten() - np.log(0.5 ** 2)]
        for o in (d.obs, d.nxt):
            with torch.no_grad():
                a, lp = gauss(R, o)
            vals.append(c(d.obs, a).flatten() - lp)
        if cal is not None:
            vals = [torch.maximum(v, cal) for v in vals]
        # n samples of each kind (all equal here, as the random answers are a fixed pattern)
        lse = torch.logsumexp(torch.stack([v / T for v in vals for _ in range(n)], 1), 1)
        pen.append((wt * T * lse - wt * q).mean())
        losses.append(((q - y) ** 2).mean())
    if R.g("with_lagrange", True):
        ca = min(max(float(np.exp(R.cla)), R.g("alpha_min", 0.0)), R.g("alpha_max", 1e6))
        pen = [ca * (p - R.g("lagrange_threshold", 10.0)) for p in pen]
        inside = R.g("alpha_min", 0.0) < ca < R.g("alpha_max", 1e6)
        out["cql_alpha"] = ca
        out["cql_alpha_loss"] = -0.5 * float(pen[0] + pen[1])
        R.pen, R.inside = float(pen[0] + pen[1]), inside
    for c, lo_, p in zip((R.critic, R.critic2), losses, pen, strict=True):
        step(lo_ + p, c, clip=R.g("clip_grad", 1.0))
    for m in ("critic", "critic2"):
        soft(R.old[m], getattr(R, m), R.g("tau", 0.005))
    out.update(critic1_loss=losses[0] + pen[0], critic2_loss=losses[1] + pen[1])
    return out


def bcq(R, d):
    v = R.vae
    h = v.encoder(torch.cat([d.obs, d.act], -1))
    mu, sd = v.mean(h), v.log_std(h).clamp(-4, 15).exp()
    z = mu + sd * pattern(mu.shape, ZN)
    rec = torch.tanh(v.decoder(torch.cat([d.obs, z], -1)))
    loss = ((rec - d.act) ** 2).mean() + 0.5 * (0.5 * (sd ** 2 + mu ** 2 - 1) - torch.log(sd)).mean()
    step(loss, v)

    def decode(o):
        return torch.tanh(v.decoder(torch.cat([o, pattern((len(o), 2), ZN).clamp(-0.5, 0.5)], -1)))

    def perturb(p, o, a):
        return (a + p.phi * torch.tanh(p.preprocess_net(torch.cat([o, a], -1)))).clamp(-1, 1)
    lam = R.g("lmbda", 0.75)
    with torch.no_grad():
        a = perturb(R.old["actor_perturbation"], d.nxt, decode(d.nxt))
        q1, q2 = R.old["critic"](d.nxt, a).flatten(), R.old["critic2"](d.nxt, a).flatten()
        y = d.rew + R.g("gamma", 0.99) * (1 - d.term) * (lam * torch.minimum(q1, q2) + (1 - lam) * torch.maximum(q1, q2))
    c1, c2 = mse(R, R.critic, d, y), mse(R, R.critic2, d, y)
    al = -R.critic(d.obs, perturb(R.actor_perturbation, d.obs, decode(d.obs).detach())).mean()
    step(al, R.actor_perturbation)
    for m in ("critic", "critic2", "actor_perturbation"):
        soft(R.old[m], getattr(R, m), R.g("tau", 0.005))
    return {"vae_loss": loss, "critic1_loss": c1, "critic2_loss": c2, "actor_loss": al}


# ---------------------------------------------------------------------- imitation, curiosity
def il(R, d):
    loss = -of(torch.log_softmax(model(R.actor, d.obs), -1), d.act).mean()
    step(loss, R.actor)
    return {"loss": loss}


def ilc(R, d):
    loss = ((model(R.actor, d.obs) - d.act) ** 2).mean()
    step(loss, R.actor)
    return {"loss": loss}


def icm(R, d):
    m = R.model
    p1, p2 = m.feature_net(d.obs), m.feature_net(d.nxt)
    f = 0.5 * ((m.forward_model(torch.cat([p1, d.one()], 1)) - p2) ** 2).sum(1)
    lg = m.inverse_model(torch.cat([p1, p2], 1))
    # the extra reward enters the inner policy's first reward only (n-step returns read the stored rewards)
    inv = -of(torch.log_softmax(lg, -1), d.act).mean()
    loss = 0.2 * f.mean() + 0.8 * inv
    step(loss, m)
    return {"icm_loss": loss, "icm_forward_loss": f.mean(), "icm_inverse_loss": inv}


# ---------------------------------------------------------------------- on-policy
def dist(R, o, act):
    """log-probabilities of the actions and entropies."""
    if R.name.endswith(":c"):
        (mu, sg), _ = R.actor(o)
        lp = (-0.5 * ((act - mu) / sg) ** 2 - torch.log(sg) - 0.5 * np.log(2 * np.pi)).sum(-1)
        return lp, (0.5 + 0.5 * np.log(2 * np.pi) + torch.log(sg)).sum(-1).expand(len(o))
    l_ = torch.log_softmax(model(R.actor, o), -1)
    return of(l_, act), -(l_.exp() * l_).sum(-1)


def parts(R, d):
    bs = R.o["_bs"]
    return [list(range(d.n))] if bs is None else [[i] for i in range(d.n)]


def pg(R, d):
    _, ret = d.gae(torch.zeros(d.n), torch.full((d.n,), R.rms.mean), R.g("discount_factor", 0.99), 1.0)
    if R.g("reward_normalization", False):
        raw = ret
        ret = (raw - R.rms.mean) / np.sqrt(R.rms.var + 1e-8)
        R.rms.add(raw)
    ls = []
    for _ in range(R.o["_rep"]):
        for ix in parts(R, d):
            lp, _ = dist(R, d.obs[ix], d.act[ix])
            loss = -(lp * ret[ix].float()).mean()
            step(loss, R.actor)
            ls.append(loss)
    return {"loss": ls}


def returns(R, d, rew=None):
    with torch.no_grad():
        v, vn = R.critic(d.obs).flatten(), R.critic(d.nxt).flatten()
    norm = R.g("reward_normalization", False)
    s = float(np.sqrt(R.rms.var + 1e-8)) if norm else 1.0
    adv, ret = d.gae(v * s, vn * s, R.g("discount_factor", 0.99), R.g("gae_lambda", 0.95), rew)
    if norm:
        R.rms.add(ret)
        ret = ret / s
    return v, adv, ret


def a2c(R, d):
    _, adv, ret = returns(R, d)
    out = {"loss": [], "actor_loss": [], "vf_loss": [], "ent_loss": []}
    for _ in range(R.o["_rep"]):
        for ix in parts(R, d):
            lp, ent = dist(R, d.obs[ix], d.act[ix])
            al = -(lp * adv[ix]).mean()
            vl = ((R.critic(d.obs[ix]).flatten() - ret[ix]) ** 2).mean()
            loss = al + R.g("vf_coef", 0.5) * vl - R.g("ent_coef", 0.01) * ent.mean()
            step(loss, R.actor, R.critic, clip=R.g("max_grad_norm", None))
            for k, x in zip(out, (loss, al, vl, ent.mean()), strict=True):
                out[k].append(x)
    return out


def ppo(R, d, rew=None):
    v, adv, ret = returns(R, d, rew)
    with torch.no_grad():
        old = dist(R, d.obs, d.act)[0]
    out = {"loss": [], "clip_loss": [], "vf_loss": [], "ent_loss": []}
    eps = R.g("eps_clip", 0.2)
    for rep in range(R.o["_rep"]):
        if rep and R.g("recompute_advantage", False):
            v, adv, ret = returns(R, d, rew)
        for ix in parts(R, d):
            A = adv[ix]
            if R.g("advantage_normalization", True) and len(ix) > 1:
                A = (A - A.mean()) / (A.std() + 1e-8)
            lp, ent = dist(R, d.obs[ix], d.act[ix])
            r = (lp - old[ix]).exp()
            s = torch.minimum(r * A, r.clamp(1 - eps, 1 + eps) * A)
            if R.g("dual_clip", None):
                s = torch.where(A < 0, torch.maximum(s, R.o["dual_clip"] * A), s)
            cl = -s.mean()
            x = R.critic(d.obs[ix]).flatten()
            vl = (x - ret[ix]) ** 2
            if R.g("value_clip", False):
                vl = torch.maximum(vl, (v[ix] + (x - v[ix]).clamp(-eps, eps) - ret[ix]) ** 2)
            loss = cl + R.g("vf_coef", 0.5) * vl.mean() - R.g("ent_coef", 0.01) * ent.mean()
            step(loss, R.actor, R.critic, clip=R.g("max_grad_norm", None))
            for k, y in zip(out, (loss, cl, vl.mean(), ent.mean()), strict=True):
                out[k].append(y)
    return out


def npg(R, d):
    """Only the value network (the actor's step: C34)."""
    _, _, ret = returns(R, d)
    last = []
    for _ in range(R.o["_rep"]):
        for ix in parts(R, d):
            for _ in range(R.g("optim_critic_iters", 5)):
                loss = ((R.critic(d.obs[ix]).flatten() - ret[ix]) ** 2).mean()
                step(loss, R.critic)
            last.append(loss)
    return {"vf_loss": last}


def gail(R, d):
    D_ = R.disc_net

    def dnet(o, a):
        return D_(torch.cat([o, a], 1)).flatten()
    with torch.no_grad():
        rew = F.softplus(dnet(d.obs, d.act))      # -log(1 - sigmoid(D))
    num = R.g("disc_update_num", 2)
    b = d.n // num
    ls, ap, ae = [], [], []
    lo = 0
    while lo < d.n:
        hi = lo + b if d.n - lo >= 2 * b else d.n
        x, y = dnet(d.obs[lo:hi], d.act[lo:hi]), dnet(R.expert[0][:b], R.expert[1][:b])
        loss = F.softplus(x).mean() + F.softplus(-y).mean()
        ls.append(loss)
        ap.append((x < 0).float().mean())
        ae.append((y > 0).float().mean())
        lo = hi
        step(loss, D_)
    # the policy's data (values, old log-probabilities) come from before, which the discriminator does not change
    out = ppo(R, d, rew)
    return {**out, "disc_loss": ls, "acc_pi": ap, "acc_exp": ae}


REF = {"dqn": dqn, "bdq": bdq, "qrdqn": qrdqn, "dcql": qrdqn, "iqn": iqn, "fqf": fqf, "dbcq": dbcq, "dcrr": dcrr, "ddpg": ddpg, "td3": td3, "td3bc": td3, "sac": sac, "dsac": dsac, "redq": redq, "cql": cql, "bcq": bcq, "il": il, "ilc": ilc, "icm": icm,
       "pg": pg, "a2c": a2c, "ppo": ppo, "npg": npg, "trpo": npg, "gail": gail}
NETS = {"dbcq": ["model", "imitator"], "dcrr": ["actor", "critic"], "fqf": ["model", "fraction_model"], "ddpg": ["actor", "critic"], "redq": ["actor", "critic"], "bcq": ["critic", "critic2", "actor_perturbation", "vae"], "il": ["actor"], "ilc": ["actor"],
        "pg": ["actor"], "a2c": ["actor", "critic"], "ppo": ["actor", "critic"], "npg": ["critic"], "trpo": ["critic"], "gail": ["actor", "critic", "disc_net"], **{n: ["actor", "critic", "critic2"] for n in ("td3", "td3bc", "sac", "dsac", "cql")}}
PRIO = {"_prio": True}
VB = [dict(), dict(target_update_freq=2, discount_factor=0.7), dict(target_update_freq=1, estimation_step=2), PRIO]
AC = [dict(), dict(tau=0.5, gamma=0.6), dict(tau=1.0, estimation_step=2), PRIO]
AUTO = [dict(auto=True, tau=0.3), dict(alpha=1.5)]
ON = [dict(_rep=2), dict(_bs=1), dict(_rep=2, _bs=1, discount_factor=0.8)]
ONC = [*ON, dict(vf_coef=2.0, ent_coef=0.5, gae_lambda=0.3, _rep=2), dict(max_grad_norm=0.1, _rep=2), dict(reward_normalization=True, _rep=2)]
OPTS = {
    "dqn": [*VB, dict(is_double=False, target_update_freq=2), dict(clip_loss_grad=True), dict(clip_loss_grad=True, **PRIO)], "bdq": [dict(), dict(target_update_freq=2, discount_factor=0.7), dict(is_double=False, target_update_freq=2), PRIO],
    "qrdqn": VB, "dcql": [*VB, dict(min_q_weight=0.3)], "iqn": VB, "fqf": [*VB, dict(ent_coef=0.5)],
    "dbcq": [dict(target_update_freq=2), dict(target_update_freq=1, estimation_step=2, discount_factor=0.7), dict(unlikely_action_threshold=0.9), dict(unlikely_action_threshold=0.6, imitation_logits_penalty=0.5)],
    "dcrr": [dict(policy_improvement_mode="binary"), dict(policy_improvement_mode="all", target_update_freq=2, discount_factor=0.7), dict(policy_improvement_mode="binary", min_q_weight=0.5, target_update_freq=1), dict(policy_improvement_mode="exp", _values=True), dict(policy_improvement_mode="exp", beta=0.3, ratio_upper_bound=1.5, _values=True)],
    "ddpg": AC, "td3": [*AC, dict(update_actor_freq=1, policy_noise=0.6), dict(noise_clip=0.1, update_actor_freq=3), dict(noise_clip=0.0, policy_noise=0.5)], "td3bc": [*AC, dict(alpha=0.7, update_actor_freq=1)],
    "sac": [*AC, *AUTO], "dsac": [*AC, *AUTO], "redq": [dict(subset=(0, 1)), dict(subset=(1, 2), target_mode="mean", actor_delay=1), dict(subset=(2, 0), auto=True, tau=0.5), dict(subset=(1,), subset_size=1, estimation_step=2, actor_delay=3), dict(subset=(0, 2), **PRIO)],
    "cql": [dict(with_lagrange=False), dict(), dict(with_lagrange=False, temperature=2.0, cql_weight=0.3, clip_grad=100.0, tau=0.5), dict(with_lagrange=False, clip_grad=100.0, auto=True), dict(lagrange_threshold=0.5, clip_grad=100.0), dict(calibrated=True, with_lagrange=False, clip_grad=100.0), dict(alpha_max=0.4, clip_grad=100.0)],
    "bcq": [dict(), dict(lmbda=0.2, tau=0.5, gamma=0.6)], "il": [dict()], "ilc": [dict()], "icm": [dict()],
    "pg": [*ON, dict(reward_normalization=True, _rep=2, _ends="t")], "a2c": ONC,
    "ppo": [*ONC, dict(advantage_normalization=False, eps_clip=0.02, _rep=2), dict(advantage_normalization=False, eps_clip=0.02, dual_clip=1.01, _rep=3), dict(value_clip=True, eps_clip=0.05, _rep=3), dict(recompute_advantage=True, _rep=2)],
    "npg": [dict(_rep=2), dict(_bs=1, optim_critic_iters=2, discount_factor=0.8, gae_lambda=0.3)], "trpo": [dict(_rep=2, optim_critic_iters=3)], "gail": [dict(disc_update_num=1), dict(disc_update_num=2, _rep=2)],
}
CONTOO = ("pg", "a2c", "ppo", "npg", "trpo")


def jobs(tier):
    q = tier == "quick"
    js = []
    for n, os in OPTS.items():
        for i in range(len(os)):
            for nm in ([n, n + ":c"] if n in CONTOO else ["gail:c"] if n == "gail" else [n]):
                js += [[nm, i, 2, s, q] for s in range(1 if q else 2)]
                if not q:
                    js += [[nm, i, 3, s, q] for s in range(6)]
    return js


def actions(name, j):
    """The j-th action assignment for row k."""
    base = name.split(":")[0]
    if name.endswith(":c") or base in pols.CONT:
        tab = [(0.5, -0.25), (-0.8, 0.1), (0.0, 0.9), (0.3, 0.3)]
        return lambda k: np.array(tab[(j + k * (1 + j // 2)) % 4], dtype=np.float32)
    if base == "bdq":
        return lambda k: np.array([(j + k) % 3, (j * 2 + k * 2 + 1) % 3])
    return lambda k: (j + k * (1 + j // 2)) % 3


def val(x):
    return None if x is None else float(x.detach()) if isinstance(x, torch.Tensor) else float(x)


def agree(a, b):
    return abs(a - b) <= 2e-3 * max(abs(a), abs(b)) + 3e-5


def run(job, st):
    name, oi, n, sh, q = job
    base = name.split(":")[0]
    full = OPTS[base][oi]
    o = {k: v for k, v in full.items() if k[0] != "_" and k != "subset"}
    on = base in pols.ONPOLICY
    ends = {"c": (False, False), "t": (True, False), "x": (False, True)}
    kinds = full.get("_ends", "ctx")
    if base == "gail" and n < 2:
        return
    extra = {"iqn": dict(sample_size=3, online_sample_size=3, target_sample_size=3)}.get(base, {})
    grid = itertools.product(itertools.product((-1.0, 0.0, 2.0), repeat=n), itertools.product(kinds, repeat=n), range(2 if q else 4))
    K = 2 if q or n == 3 else 3
    for gi, (rews, es, aj) in enumerate(grid):
        if gi % {2: 2 if not q else 1, 3: 6}[n] != sh % {2: 2 if not q else 1, 3: 6}[n]:
            continue
        if q and aj != (gi // 2 + gi // 18) % 2:      # quick: the action assignments alternate
            continue
        if n == 3 and (gi // 6) % 4:      # histories of three: one in four of them
            continue
        if kinds == "t" and es[-1] != "t":
            continue
        st.ctx = {"algorithm": name, "options": {k: str(v) for k, v in full.items()}, "rewards": rews, "endings": "".join(es), "actions": aj, "updates": K}
        af = actions(name, aj)
        rows = [dict(obs=OBSV[k], act=af(k), rew=rews[k], terminated=ends[es[k]][0], truncated=ends[es[k]][1], obs_next=OBSV[(k + 1 + (es[k] != "c") * 2) % 5]) for k in range(n)]
        pol = build(name, **o) if base != "iqn" else build_iqn(o, extra)
        buf = (PrioritizedReplayBuffer(n + 1, alpha=0.7, beta=0.5) if full.get("_prio") else ReplayBuffer(n + 1))
        for r in rows:
            buf.add(Batch(**r, info=Batch()))
        if base == "cql" and full.get("calibrated"):
            buf = pol.process_buffer(buf)
        R = Ref(name, pol, {**full, "_rep": full.get("_rep", 1), "_bs": full.get("_bs")}, NETS.get(base, ["model"]))
        if base == "cql":
            R.cla = float(getattr(pol, "cql_log_alpha", torch.zeros(1)))
        if base == "gail":
            e = pol.expert_buffer
            R.expert = torch.tensor(e.obs[:len(e)]), torch.tensor(e.act[:len(e)])
        inner = None
        if base == "icm":
            inner = Ref("dqn", pol.policy, {}, ["model"])
        with fixed(full.get("subset")):
            for k in range(K):
                w = np.array(buf[np.arange(n)].weight) if full.get("_prio") else None
                d = D(rows, w)
                with policy_within_training_step(pol):
                    s = pol.update(0, buf, batch_size=full.get("_bs"), repeat=full.get("_rep", 1)) if on else pol.update(0, buf)
                if inner is not None:
                    m = R.model
                    with torch.no_grad():
                        f = 0.5 * ((m.forward_model(torch.cat([m.feature_net(d.obs), d.one()], 1)) - m.feature_net(d.nxt)) ** 2).sum(1)
                    di = D(rows, None)
                    di.rew = d.rew + 0.01 * f
                    inner.k = k
                    want0 = dqn(inner, d)
                    same(st, inner, pol.policy, k, "inner-")
                R.k = k
                want = REF[base](R, d)
                st.step()
                same(st, R, pol, k, "")
                for f_, x in want.items():
                    got = getattr(s, f_)
                    if isinstance(x, list):
                        xs = [val(y) for y in x]
                        st.check(agree(got.mean, np.mean(xs)) and agree(got.max, max(xs)) and agree(got.min, min(xs)) and agree(got.std, np.std(xs)), f"reported:{base}:{f_}", lambda: f"update {k + 1} reports {f_} = {got}, the objective's values are {xs}")
                    else:
                        x = val(x)
                        st.check((got is None) == (x is None) and (x is None or agree(float(got), x)), f"reported:{base}:{f_}", lambda: f"update {k + 1} reports {f_} = {got}, the objective gives {x}")
                if base == "cql" and full.get("with_lagrange", True):
                    R.cla = float(pol.cql_log_alpha)      # its own Adam step: direction only
                if full.get("_values"):
                    R = Ref(name, pol, R.o, R.nets)      # values only: continue from the real networks
        st.state((name, oi, gi))
        st.trace(st.ctx)


def build_iqn(o, extra):
    import tianshou.policy as P
    from tianshou.utils.net import discrete as DN
    torch.manual_seed(0)
    m = DN.ImplicitQuantileNetwork(pols.net(), pols.NA, num_cosines=4, preprocess_net_output_dim=4)
    with torch.no_grad():
        for x in m.modules():
            if isinstance(x, torch.nn.Linear):
                x.weight.mul_(2.0)
    p = P.IQNPolicy(model=m, optim=torch.optim.SGD(m.parameters(), lr=LR), action_space=pols.disc(), **extra, **o)
    return p.train()


def same(st, R, pol, k, tag):
    if R.o.get("_values"):
        return
    for a in R.nets:
        for (n, p), r in zip(getattr(pol, a).named_parameters(), getattr(R, a).parameters(), strict=True):
            if not torch.allclose(p, r, rtol=2e-3, atol=2e-5):
                i = int((p - r).abs().argmax())
                st.check(False, f"step:{tag}{R.name.split(':')[0]}:{a}", lambda: f"after update {k + 1} parameter {a}.{n}[{i}] is {float(p.flatten()[i]):.6f}, a step on the objective gives {float(r.flatten()[i]):.6f}")
    st.check(True, "", "")
