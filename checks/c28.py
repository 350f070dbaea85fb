"""C28: every update uses exactly the sampled transitions; priorities return to their own slots."""
import copy
import itertools
from contextlib import ExitStack, contextmanager
from unittest import mock

import numpy as np
import torch

from mc import pols, rng
from mc.explore import explore
from tianshou.data import Batch, PrioritizedReplayBuffer, PrioritizedVectorReplayBuffer, ReplayBuffer, VectorReplayBuffer, to_numpy
from tianshou.utils.torch_utils import policy_within_training_step

PROPERTY = "C28"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive index draws and permutations over every small stored history, through the real update() of every policy on tiny real networks; oracle: the gradient of an update is the importance-weighted mean of the gradients of updates on its rows one at a time, its priorities are those of these single-row updates, and the rows entering each gradient step are recorded and compared with the passes required"
NOTE = "Random numbers drawn inside an update (action noise, quantile fractions) are replaced by constants and learning rates by 0, so that updates on one row and on many are comparable."
ASSUMPTIONS = ["importance weights are used by the algorithms that document prioritised replay (value-based, DDPG/TD3/SAC families); the others are only judged on the rows they use, on stored data and on leaving priorities alone",
               "the last piece of a pass may be shorter, or take up the rest"]

WEIGHTED = ["dqn", "dqn:clip", "bdq", "c51", "rainbow", "qrdqn", "iqn", "fqf", "dcql", "icm", "ddpg", "td3", "td3bc", "sac", "redq", "dsac"]
PLAIN = ["dbcq", "cql", "bcq", "dcrr", "il", "ilc"]
OPTS = {"dcql": dict(min_q_weight=0.0), "cql": dict(clip_grad=1e9), "td3": dict(update_actor_freq=1), "td3bc": dict(update_actor_freq=1), "redq": dict(actor_delay=1), "dqn:clip": dict(clip_loss_grad=True)}


def BOUNDS(tier):
    q = tier == "quick"
    return (f"{len(WEIGHTED)} weighted and {len(PLAIN)} unweighted off-policy algorithms x all index vectors of length 1-{3 if q else 4} over {4 if q else 5} stored transitions x plain/vectorised prioritised storage; "
            f"{len(pols.ONP)} on-policy algorithms (and option variants): 1-{4 if q else 5} transitions x batch sizes 1-5/none x 1-{2 if q else 3} passes x all permutations")


def jobs(tier):
    q = tier == "quick"
    js = [["rows", p, k, 3 if q else 4, 4 if q else 5] for p in WEIGHTED + PLAIN for k in ("prio", "priovec")]
    js += [["passes", p, i, m, q] for p in pols.ONP for i in range(len(variants(p))) for m in (range(1, 5) if q else range(1, 6))]
    js += [["align", p, m] for p in ("pg", "pg:c", "a2c", "a2c:c", "ppo", "ppo:c") for m in (2, 3, 4)]
    js += [["icm"]]
    return js


def fname(name):
    """The policy whose data fits: options are dropped, continuous variants kept."""
    return "dqn" if name == "dqn:clip" else "gail" if name.startswith("gail") else name


def build(name, **kw):
    return pols.build("dqn" if name == "dqn:clip" else name, **{**OPTS.get(name, {}), **kw})


@contextmanager
def constant():
    """All random numbers of torch (and numpy's subset choice) become constants."""
    def full(v):
        def f(*size, **kw):
            if len(size) == 1 and isinstance(size[0], (tuple, list, torch.Size)):
                size = tuple(size[0])
            size = kw.pop("size", size)
            return torch.full(tuple(size), v)
        return f

    def normal(mean, std=1.0, *a, **k):
        if isinstance(mean, torch.Tensor):
            return mean + 0.3 * std
        return torch.full(tuple(a[0] if a else k["size"]), float(mean) + 0.3 * float(std))

    def choice(a, size=None, replace=True, p=None):
        arr = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        return arr[0] if size is None else arr[: int(np.prod(size))].reshape(size)
    with ExitStack() as s:
        for o, n, v in ((torch, "randn", full(0.3)), (torch, "rand", full(0.4)), (torch, "normal", normal), (torch, "randn_like", lambda t, **k: torch.full_like(t, 0.3)), (torch, "rand_like", lambda t, **k: torch.full_like(t, 0.4)),
                        (torch.distributions.normal, "_standard_normal", lambda shape, dtype, device: torch.full(tuple(shape), 0.3, dtype=dtype)),
                        (torch.Tensor, "uniform_", lambda self, a=0, b=1: self.fill_(a + 0.4 * (b - a))), (torch.Tensor, "normal_", lambda self, m=0, sd=1: self.fill_(m + 0.3 * sd)),
                        (np.random, "choice", choice)):
            s.enter_context(mock.patch.object(o, n, v))
        yield


def optimisers(pol):
    out, seen = [], set()

    def walk(o, pre):
        for k, v in list(vars(o).items()):
            if isinstance(v, torch.optim.Optimizer) and id(v) not in seen:
                seen.add(id(v))
                out.append((pre + k, v))
            elif isinstance(v, torch.nn.Module) and k == "policy":
                walk(v, pre + k + ".")
        for k, v in o._modules.items():
            if k == "policy":
                walk(v, k + ".")
    walk(pol, "")
    return out


def mkbuf(kind, name, m, dones):
    n = fname(name)
    if kind == "prio":
        b = PrioritizedReplayBuffer(m + 1, alpha=0.7, beta=0.5)
        return pols.fill(b, n, m, dones=dones)
    if kind == "priovec":
        b = PrioritizedVectorReplayBuffer(2 * m, 2, alpha=0.7, beta=0.5)
        src = pols.fill(ReplayBuffer(m + 1), n, m, dones=dones)
        for i in range(m):
            t = src[[i]]
            b.add(Batch({k: t[k] for k in t.get_keys() if k != "done"}), buffer_ids=[i % 2])
        return b
    b = pols.fill(ReplayBuffer(m + 1), n, m, dones=dones) if kind == "plain" else None
    return b


def meta(buf):
    return {k: copy.deepcopy(buf._meta[k]) for k in buf._meta.get_keys()}


def same(a, b):
    if isinstance(a, Batch):
        return set(a.get_keys()) == set(b.get_keys()) and all(same(a[k], b[k]) for k in a.get_keys())
    return np.array_equal(to_numpy(a), to_numpy(b), equal_nan=np.asarray(to_numpy(a)).dtype.kind == "f")


def update(pol, buf, vec, w):
    """One real update on chosen slots with chosen importance weights; returns the gradients per optimiser."""
    grads = {}
    with ExitStack() as s:
        s.enter_context(constant())
        for n, o in optimisers(pol):
            for g in o.param_groups:
                g["lr"] = 0.0
            old = o.step

            def step(*a, n=n, o=o, old=old, **k):
                grads.setdefault(n, []).append([None if p.grad is None else p.grad.clone() for g in o.param_groups for p in g["params"]])
                return old(*a, **k)
            s.enter_context(mock.patch.object(o, "step", step))
        s.enter_context(mock.patch.object(buf, "sample_indices", lambda n: np.array(vec)))
        if w is not None:
            s.enter_context(mock.patch.object(buf, "get_weight", lambda idx: np.array(w)))
        with policy_within_training_step(pol):
            pol.update(len(vec), buf)
    return grads


def flat(gs):
    return torch.cat([torch.zeros(1) if g is None else g.reshape(-1) for step in gs for g in step]) if gs else torch.zeros(0)


WPAT = (1.0, 0.5, 0.25, 0.125)
# optimisers whose loss is weighted, and those whose loss couples rows on purpose
COUPLED = {"td3bc": ("actor_optim",), "cql": ("cql_alpha_optim",)}


def rows(name, kind, ln, m, st):
    weighted = name in WEIGHTED
    for dones in ((2,), (m,), ()):
        base_buf = mkbuf(kind, name, m, dones)
        slots = [int(i) for i in base_buf.sample_indices(0)]
        pol0 = build(name)
        base_w = np.array([base_buf.weight[i] for i in range(base_buf.maxsize)])
        single = {}
        for s in slots:
            p, b = copy.deepcopy(pol0), copy.deepcopy(base_buf)
            st.ctx = {"policy": name, "storage": kind, "dones": dones, "indices": [s]}
            g = update(p, b, [s], [1.0])
            single[s] = ({k: flat(v) for k, v in g.items()}, float(b.weight[s]))
        st.check(any(float(v.abs().sum()) > 0 for s in slots for v in single[s][0].values()), "no-gradient", f"{name}: an update has no gradient at all")
        for k in range(1, ln + 1):
            for vec in itertools.product(slots, repeat=k):
                if k == ln and ln > 2 and dones and dones != (2,):
                    continue
                p, b = copy.deepcopy(pol0), copy.deepcopy(base_buf)
                before = meta(b)
                w = WPAT[:k]
                st.ctx = {"policy": name, "storage": kind, "dones": dones, "indices": vec, "weights": w}
                g = update(p, b, vec, w)
                st.step()
                st.check(all(same(before[x], b._meta[x]) for x in before) and set(before) == set(b._meta.get_keys()), "stored-data", f"{name}: the update changed stored data")
                for n, gs in g.items():
                    if n.split(".")[-1] in COUPLED.get(name, ()):
                        continue
                    uses = weighted and ("critic" in n or n.split(".")[-1] == "optim") and not (name == "icm" and n == "optim")
                    ws = w if uses else (1.0,) * k
                    want = sum(x * single[s][0][n] for x, s in zip(ws, vec, strict=True)) / k
                    got = flat(gs)
                    tol = 1e-5 + 1e-4 * float(torch.stack([single[s][0][n].abs().max() for s in vec]).max())
                    st.check(bool((got - want).abs().max() <= tol), f"gradient:{name}", lambda: f"{name}: gradient of {n} on rows {vec} with weights {ws} is not the weighted mean of the rows' gradients (difference {float((got - want).abs().max()):.3g}, size {float(want.abs().max()):.3g})")
                for i in range(b.maxsize):
                    now = float(b.weight[i])
                    if i not in vec:
                        st.check(now == base_w[i], "other-priority", f"{name}: priority of slot {i}, not sampled, changed from {base_w[i]} to {now}")
                    elif weighted:
                        st.check(abs(now - single[i][1]) <= 1e-4 * max(1, single[i][1]), f"priority:{name}", lambda: f"{name}: slot {i} of sampled {vec} got priority {now}, its own error gives {single[i][1]}")
                    elif now != base_w[i]:
                        st.record(f"priority-overwritten:{name}", f"{name} computes no errors, but slot {i} of sampled {vec} got priority {now} (its importance weight raised to alpha), was {base_w[i]}")
                st.state((name, kind, dones, vec))
        st.trace(st.ctx)


def variants(p):
    b = p.split(":")[0]
    if b == "ppo":
        return [dict(), dict(recompute_advantage=True, value_clip=True), dict(advantage_normalization=False, dual_clip=2.0), dict(reward_normalization=True, max_grad_norm=0.5)]
    if b in ("a2c", "gail"):
        return [dict(), dict(max_grad_norm=0.5, reward_normalization=True)] if b == "a2c" else [dict(disc_update_num=1)]
    if b in ("npg", "trpo"):
        return [dict(optim_critic_iters=1)]
    return [dict()]


def passes(name, vi, m, q, st):
    kw = variants(name)[vi]
    for bs in (*range(1, m + 2), None):
        for repeat in (1, 2) if q else (1, 2, 3):
            if m >= 4 and repeat > 1 or m >= 3 and repeat > 2 or q and (bs is None or bs > m) and m > 3:
                continue

            def go(ch):
                buf = pols.fill(ReplayBuffer(m + 1), fname(name), m, dones=(2,))
                for i in range(m):
                    buf._meta.obs[i][0] = i + 1      # recognisable rows
                pol = build(name, **kw)
                log, cur = [], []
                old_learn = pol.learn

                def learn(*a, **k):
                    hs = []
                    for net in (pol.actor, *((pol.critic,) if hasattr(pol, "critic") else ())):
                        hs.append(net.register_forward_pre_hook(lambda mod, args: cur.append((mod is pol.actor, [int(round(float(o[0]))) for o in to_numpy(args[0])]))))
                    try:
                        return old_learn(*a, **k)
                    finally:
                        for h in hs:
                            h.remove()
                with ExitStack() as s:
                    for n, o in optimisers(pol):
                        if n == "disc_optim":
                            continue
                        old = o.step

                        def step(*a, old=old, **k):
                            log.append(list(cur))
                            cur.clear()
                            return old(*a, **k)
                        s.enter_context(mock.patch.object(o, "step", step))
                    s.enter_context(mock.patch.object(pol, "learn", learn))
                    before = meta(buf)
                    torch.manual_seed(0)
                    with rng.patched(ch, maxperm=4), policy_within_training_step(pol):
                        pol.update(0, buf, batch_size=bs, repeat=repeat)
                return log, list(cur), all(same(before[x], buf._meta[x]) for x in before)
            for ch, (log, rest, kept) in explore(go, limit=700 if name.startswith("gail") else None) if not name.startswith("gail") else one(go):
                st.ctx = {"policy": name, "options": kw, "transitions": m, "batch_size": bs, "repeat": repeat, "permutations": [c for c, _ in ch.log]}
                st.step()
                st.check(kept, "stored-data", f"{name}: the update changed stored data")
                n = bs or m
                k = max(1, m // n)          # whole pieces; a rest may form its own piece or join the last
                steps = [[r for a, r in g if a] for g in log]
                st.check(all(len(s) and all(r == s[0] for r in s) for s in steps), "piece-rows", lambda: f"{name}: gradient steps mixing or missing rows: {steps}")
                pieces = [s[0] for s in steps]
                st.check(len(pieces) % repeat == 0 and len(pieces) // repeat in (k, -(-m // n)), "pieces", lambda: f"{name}: {len(pieces)} gradient steps for {m} transitions in pieces of {bs}, {repeat} passes: {pieces}")
                per = len(pieces) // repeat
                for r in range(repeat):
                    ps = pieces[r * per:(r + 1) * per]
                    st.check(sorted(x for p in ps for x in p) == list(range(1, m + 1)), "pass-rows", lambda: f"{name}: pass {r} uses rows {ps} of {m} sampled transitions")
                    st.check(all(len(p) == min(n, m) for p in ps[:-1]) and len(ps[-1]) < 2 * n, "piece-size", lambda: f"{name}: pieces {ps}, configured size {bs}")
                for g in log:
                    for a, r in g:
                        st.check(a or sorted(r) == sorted([x for b, x in g if b][0]) or len(r) >= m and kw.get("recompute_advantage"), "critic-rows", lambda: f"{name}: value network and policy used different rows in a step: {g}")
                st.trace(st.ctx)
                st.state((name, vi, m, bs, repeat, tuple(c for c, _ in ch.log)))


def one(go):
    from mc.explore import Chooser
    ch = Chooser()
    yield ch, go(ch)


def align(name, m, st):
    """Without learning rate the mean of the gradients of single-row pieces is the gradient of the whole pass."""
    kw = {"ppo": dict(advantage_normalization=False, max_grad_norm=None), "a2c": dict(max_grad_norm=None)}.get(name.split(":")[0], {})
    for dones in ((), (2,), (1, m)):
        res = {}
        for bs in (1, None):
            buf = pols.fill(ReplayBuffer(m + 1), fname(name), m, dones=dones)
            pol = build(name, **kw)
            grads = []
            with ExitStack() as s:
                s.enter_context(constant())
                for n, o in optimisers(pol):
                    for g in o.param_groups:
                        g["lr"] = 0.0
                    old = o.step

                    def step(*a, o=o, old=old, **k):
                        grads.append(flat([[p.grad for g in o.param_groups for p in g["params"]]]).clone())
                        return old(*a, **k)
                    s.enter_context(mock.patch.object(o, "step", step))
                with policy_within_training_step(pol):
                    pol.update(0, buf, batch_size=bs, repeat=1)
            res[bs] = grads
            st.step()
        st.ctx = {"policy": name, "transitions": m, "dones": dones}
        st.check(len(res[1]) == m and len(res[None]) == 1, "align-steps", f"{len(res[1])} and {len(res[None])} steps")
        d = float((torch.stack(res[1]).mean(0) - res[None][0]).abs().max())
        st.check(d <= 1e-5 + 1e-4 * float(res[None][0].abs().max()), "align", f"{name}: gradient of the pass differs from the mean of its rows' gradients by {d:.3g}")
        st.trace(st.ctx)
        st.state((name, m, dones))


def icm(st):
    """Curiosity: the intrinsic reward is added to the processed data only and taken back afterwards."""
    for vec in itertools.product(range(4), repeat=2):
        pol = pols.build("icm")
        buf = pols.fill(ReplayBuffer(5), "icm", 4, dones=(2,))
        before = meta(buf)
        st.ctx = {"indices": vec}
        batch = buf[np.array(vec)]
        rew = batch.rew.copy()
        with policy_within_training_step(pol):
            done = pol.process_fn(batch, buf, np.array(vec))
            mse = to_numpy(done.policy.mse_loss)
            st.check(np.allclose(done.rew, rew + 0.01 * mse, atol=1e-6), "icm-reward", f"reward {done.rew} for {rew} and curiosity {mse}")
            pol.post_process_fn(done, buf, np.array(vec))
        st.check(np.allclose(done.rew, rew), "icm-restore", f"after the update the rewards are {done.rew}, sampled were {rew}")
        st.check(all(same(before[x], buf._meta[x]) for x in before), "stored-data", "the update changed stored data")
        st.step()
        st.trace(st.ctx)
        st.state(vec)


def run(job, st):
    globals()[job[0]](*job[1:], st)
