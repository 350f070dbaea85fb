"""C26: masked choice, exploration, action mapping and discretising wrappers, on the real classes."""
import itertools
from fractions import Fraction

import gymnasium as gym
import numpy as np
import torch
from torch import nn

import tianshou.policy as P
from mc import pols, rng
from mc.coll import CEnv
from mc.explore import explore
from tianshou.data import Batch, Collector, VectorReplayBuffer
from tianshou.env import ContinuousToDiscrete, DummyVectorEnv, MultiDiscreteToDiscrete, TruncatedAsTerminated
from tianshou.exploration import GaussianNoise
from tianshou.policy import MARLRandomPolicy, MultiAgentPolicyManager
from tianshou.utils.torch_utils import policy_within_training_step

PROPERTY = "C26"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration on the real code of masks x value assignments x every answer of the exploration's random source; of raw actions x bounds x bounding methods against exact rational arithmetic; of every action of small wrapped spaces"
NOTE = "Values are finite; between equally good unmasked actions any is accepted. Random numbers in [0,1) come from a grid that contains both ends and separates every order of up to three draws; integer draws are enumerated completely."
ASSUMPTIONS = ["masks follow the documented format (one boolean or 0/1 entry per action, at least one allowed)", "action values and spaces are finite", "branching DQN documents no mask format and is only judged without masks"]

MASKED = ["dqn", "c51", "rainbow", "qrdqn", "dcql", "iqn", "fqf", "icm", "ma"]


def BOUNDS(tier):
    q = tier == "quick"
    return (f"greedy: {len(MASKED)} value-based policies (also through ICM and multi-agent management), 1-{3 if q else 4} actions x all masks x all assignments of values from a 3-value grid at 7 scales, 1-2 rows; exploration: all draws for 1-2 rows; "
            f"mapping: {len(bounds(tier))} bounds x shapes (1,),(2,),(2,2) x clip/tanh/none x scaling x raw-action grid x numpy/torch; wrappers: every action of all spaces with up to {3 if q else 4} dimensions of size 1-{3 if q else 4}; compute_action and collection with every noise answer")


def bounds(tier):
    v = [-1.0, -0.1, 0.3, 0.7, 2.0, -3.3, 1e-3, 1e6] + ([-1e6, 0.1, 1 / 3, 7.7] if tier != "quick" else [])
    return [(a, b) for a in v for b in v if a < b] + [(0.5, 0.5), (1.0, float(np.nextafter(np.float32(1), np.float32(2))))]


def jobs(tier):
    q = tier == "quick"
    js = [["greedy", p, n, s] for p in MASKED for n in (1, 2, 3) + (() if q else (4,)) for s in range(len(SCALES))]
    js += [["explore", p, n, b] for p in ("dqn", "qrdqn", "icm", "ma", "random") for n, b in ((1, 1), (2, 1), (3, 1), (2, 2)) + (() if q else ((4, 1), (3, 2)))]
    js += [["explore_bdq", br, n, b] for br, n, b in ((1, 2, 1), (2, 2, 1), (2, 3, 1), (1, 3, 2)) + (() if q else ((3, 2, 1), (2, 2, 2)))]
    bs = bounds(tier)
    js += [["map", i, min(i + 6, len(bs)), tier] for i in range(0, len(bs), 6)]
    js += [["c2d", d, tier] for d in (1, 2, 3) + (() if q else (4,))] + [["md2d", d, tier] for d in (1, 2, 3) + (() if q else (4,))] + [["trunc"]]
    js += [["compute", n] for n in pols.VALUE + ["ddpg", "td3", "sac", "redq", "dsac", "pg", "pg:c", "ppo:c", "ilc", "il", "bcq"]]
    js += [["collect", m, s] for m in ("clip", None) for s in (True, False)]
    return js


SCALES = ((1.0, 0.0), (1e-6, 0.0), (1.0, 1000.0), (1e9, 0.0), (1e30, 0.0), (1.0, -1e8), (5e8, 5e8))


class Out(nn.Module):
    """Stands in for the network: answers with preset numbers."""

    def __init__(self, kind):
        super().__init__()
        self.kind = kind
        self.dummy = nn.Parameter(torch.zeros(1))
        self.v = None

    def forward(self, obs, state=None, info=None, **kw):
        assert not isinstance(obs, Batch), "the network was given the batch with the mask"
        v = torch.as_tensor(np.asarray(self.v), dtype=torch.float32)[[int(o) for o in np.asarray(obs).reshape(len(obs), -1)[:, 0]]]
        if self.kind in ("c51", "rainbow"):
            # distribution on the support -2..2 whose mean is the value
            x = v.clamp(-2, 2) + 2
            lo = x.floor().clamp(0, 3)
            p = torch.zeros(*v.shape, 5)
            p.scatter_(2, lo.long().unsqueeze(2), (1 - (x - lo)).unsqueeze(2))
            p.scatter_(2, lo.long().unsqueeze(2) + 1, (x - lo).unsqueeze(2))
            return p, state
        if self.kind in ("qrdqn", "dcql", "iqn", "fqf"):
            lg = torch.stack([v, v, v, v], 2)
            if self.kind == "iqn":
                return (lg, torch.full((len(v), 4), 0.5)), state
            if self.kind == "fqf":
                taus = torch.tensor([[0.0, 0.25, 0.5, 0.75, 1.0]]).repeat(len(v), 1)
                return (lg, Batch(taus=taus, tau_hats=taus[:, :-1], entropies=taus[:, :1]), taus), state
            return lg, state
        return v, state


def build(kind, n):
    m = Out(kind if kind not in ("icm", "ma") else "dqn")
    o = dict(model=m, optim=torch.optim.SGD(m.parameters(), lr=0.1), action_space=gym.spaces.Discrete(n))
    if kind in ("dqn", "icm", "ma"):
        p = P.DQNPolicy(**o)
    elif kind == "c51":
        p = P.C51Policy(num_atoms=5, v_min=-2.0, v_max=2.0, **o)
    elif kind == "rainbow":
        p = P.RainbowPolicy(num_atoms=5, v_min=-2.0, v_max=2.0, **o)
    elif kind == "qrdqn":
        p = P.QRDQNPolicy(num_quantiles=4, **o)
    elif kind == "dcql":
        p = P.DiscreteCQLPolicy(num_quantiles=4, **o)
    elif kind == "iqn":
        p = P.IQNPolicy(sample_size=4, online_sample_size=4, target_sample_size=4, **o)
    elif kind == "fqf":
        f = nn.Linear(1, 1)
        p = P.FQFPolicy(fraction_model=f, fraction_optim=torch.optim.SGD(f.parameters(), lr=0.1), num_fractions=4, **o)
    inner = p
    if kind == "icm":
        p = P.ICMPolicy(policy=p, model=Out("dqn"), optim=o["optim"], lr_scale=1.0, reward_scale=0.1, forward_loss_weight=0.2, action_space=o["action_space"])
    if kind == "ma":
        class Env:
            agents = ["a", "b"]
            agent_idx = {"a": 0, "b": 1}
            action_space = gym.spaces.Discrete(n)
            observation_space = gym.spaces.Discrete(2)
        p = MultiAgentPolicyManager(policies=[p, build("dqn", n)[0]], env=Env())
    p.eval()
    return p, m, inner


def obs_batch(kind, rows, mask):
    o = Batch(obs=np.array(rows).reshape(-1, 1))
    if mask is not None:
        o.mask = np.array(mask)
    if kind == "ma":
        o.agent_id = np.array(["a"] * len(rows))
    return Batch(obs=o, info=Batch())


def masks(n):
    return [m for m in itertools.product((False, True), repeat=n) if any(m)]


def greedy(kind, n, si, st):
    scale, off = SCALES[si]
    p, m, _ = build(kind, n)
    if kind in ("c51", "rainbow") and scale > 1:
        return
    if kind in ("c51", "rainbow"):
        off = 0.0
    vals = [tuple(np.float32(np.float64(x) * scale + off) for x in v) for v in itertools.product((-1.0, 0.0, 1.0), repeat=n)]

    def expect(v, mk):
        best = max(x for x, a in zip(v, mk) if a)
        return [i for i, a in enumerate(mk) if a and v[i] == best]

    def one(rows, mks, as_int=False):
        m.v = rows
        mk = np.array(mks) if mks is not None else None
        if as_int:
            mk = mk.astype(np.int8)
        st.ctx = {"policy": kind, "values": [[float(x) for x in r] for r in rows], "mask": mks}
        keep = None if mk is None else mk.copy()
        out = p(obs_batch(kind, range(len(rows)), mk))
        act = out.act
        st.step()
        st.check(mk is None or np.array_equal(mk, keep), "mask-mutated", "the mask was changed")
        st.check(isinstance(act, np.ndarray) and act.shape == (len(rows),), "act-shape", f"act {act!r}")
        for r, a in enumerate(act):
            q = qvals(kind, rows[r])
            w = mks[r] if mks is not None else [True] * n
            st.check(w[a], "masked-chosen", lambda: f"{kind}: masked action {a} chosen for values {q}, mask {w}")
            st.check(a in expect(q, w), "not-greedy", lambda: f"{kind}: action {a} chosen for values {q}, mask {w}")
    for v in vals:
        one([v], None)
        for mk in masks(n):
            one([v], [mk])
            if si == 0:
                one([v], [mk], True)
            st.state((kind, v, mk))
    if n <= 2 or si == 0:
        seconds = list(itertools.product(vals, masks(n))) if n <= 2 else [(vals[5], masks(n)[2]), (tuple(x * 100 for x in vals[7]), masks(n)[-1])]
        for v in vals:
            for mk in masks(n):
                for v2, mk2 in seconds:
                    one([v, v2], [mk, mk2])
    st.trace(st.ctx)


def qvals(kind, v):
    if kind in ("c51", "rainbow"):
        return [float(min(max(x, -2), 2)) for x in v]
    return [float(np.float32(x)) for x in v]


def explore_(kind, n, b, st):
    """b rows; the action must be allowed whatever the random source answers; all allowed ones are reachable."""
    unit = (0.0, 0.4, 1 - 2.0 ** -20) if b * n > 3 else (0.0, 0.25, 0.5, 1 - 2.0 ** -20)
    if kind != "random":
        p, m, inner = build(kind, n)
    else:
        p, m = MARLRandomPolicy(action_space=gym.spaces.Discrete(n)), None
    allm = masks(n)
    for mk in itertools.product(allm, repeat=b):
        for nomask in (False, True) if kind != "random" and mk[0] == allm[0] else (False,):
            for g in itertools.product(range(n), repeat=b) if b == 1 else [tuple(m_.index(True) for m_ in mk)]:
                if not nomask and not all(mk[r][g[r]] for r in range(b)):
                    continue
                for eps in (0.0, 0.3, 1.0) if kind != "random" else (1.0,):
                    bat = obs_batch(kind, range(b), None if nomask else mk)
                    if m is not None:
                        m.v = [[1.0 if a == g[r] else 0.0 for a in range(n)] for r in range(b)]
                        inner.set_eps(eps)
                    reach = [set() for _ in range(b)]

                    def go(ch):
                        with rng.patched(ch, unit=unit):
                            out = p(bat)
                            act = out.act
                            if kind != "random":
                                act = p.exploration_noise(act, bat)
                            return np.array(act)
                    st.ctx = {"policy": kind, "mask": None if nomask else mk, "greedy": g, "eps": eps}
                    for ch, act in explore(go):
                        st.step()
                        for r in range(b):
                            ok = nomask or mk[r][act[r]]
                            st.check(0 <= act[r] < n and ok, "masked-explored", lambda: f"{kind}: masked or invalid action {act[r]} explored, mask {mk[r]}, draws {[c for c, _ in ch.log]}")
                            st.check(eps > 0 or act[r] == g[r], "explored-without-eps", f"{kind}: exploration with eps 0")
                            reach[r].add(int(act[r]))
                        st.traces += 1
                    for r in range(b):
                        want = {g[r]} if eps == 0 else set(range(n)) if nomask else {a for a in range(n) if mk[r][a]}
                        st.check(reach[r] == want, "explore-reach", lambda: f"{kind}: exploration reaches {sorted(reach[r])}, allowed {sorted(want)} (eps {eps})")
                    st.state((kind, mk, g, eps, nomask))
    st.trace(st.ctx)


def explore_bdq(br, n, b, st):
    m = Out("dqn")
    m.num_branches, m.action_per_branch = br, n
    p = P.BranchingDQNPolicy(model=m, optim=torch.optim.SGD(m.parameters(), lr=0.1), action_space=gym.spaces.MultiDiscrete([n] * br))
    p.eval()
    for vals in itertools.product(itertools.permutations(range(n)), repeat=br):
        m.v = [np.array(vals, dtype=float)] * b
        want = [int(np.argmax(v)) for v in vals]
        for eps in (0.0, 0.5, 1.0):
            p.set_eps(eps)
            bat = Batch(obs=np.arange(b).reshape(-1, 1), info=Batch())
            st.ctx = {"branches": br, "actions": n, "values": vals, "eps": eps}
            reach = set()

            def go(ch):
                with rng.patched(ch, unit=(0.0, 0.6)):
                    return p.exploration_noise(p(bat).act, bat)
            for ch, act in explore(go):
                st.step()
                st.check(act.shape == (b, br) and all(p.action_space.contains(a) for a in act), "bdq-invalid", f"branching DQN action {act.tolist()} not in the action space")
                st.check(eps > 0 or act.tolist() == [want] * b, "bdq-greedy", f"branching DQN chose {act.tolist()}, best are {want}")
                reach.add(tuple(act.ravel().tolist()))
                st.traces += 1
            if eps == 1.0:
                st.check(len(reach) == n ** (br * b), "bdq-reach", f"only {len(reach)} of {n ** (br * b)} action combinations reachable")
            if eps == 0.5:
                st.check(len(reach) == n ** (br * b), "bdq-reach", f"only {len(reach)} of {n ** (br * b)} action combinations reachable")
            st.state((br, n, b, vals, eps))
    st.trace(st.ctx)


class Fix(P.BasePolicy):
    def __init__(self, out=None, **kw):
        super().__init__(**kw)
        self.out = out

    def forward(self, batch, state=None, **kw):
        return Batch(act=np.stack([self.out] * len(batch.obs)), state=None)

    def learn(self, *a, **k):
        pass


RAW = (-1e9, -5.0, -1.0000001, -1.0, -0.99999994, -0.5, -1 / 3, -1e-8, 0.0, 0.1, 0.5, 2 / 3, 0.99999994, 1.0, 1.0000001, 3.0, 1e9)


def mapping(i, j, tier, st):
    for lo, hi in bounds(tier)[i:j]:
        flo, fhi = np.float32(lo), np.float32(hi)
        for shape in ((1,), (2,), (2, 2)):
            lows = np.full(shape, flo)
            highs = np.full(shape, fhi)
            if shape == (2,):
                lows[1], highs[1] = -2.5, 0.1
            sp = gym.spaces.Box(lows, highs, dtype=np.float32)
            for method in ("clip", "tanh", None):
                for scaling in (True, False):
                    p = Fix(action_space=sp, action_scaling=scaling, action_bound_method=method)
                    for kind in ("f32", "f64", "torch"):
                        for n, x in enumerate(RAW):
                            rows = 3 if n % 2 else 1 + n % 4
                            raw = np.full((rows, *shape), x, dtype=np.float64 if kind == "f64" else np.float32)
                            raw[1:2] = 0.25
                            act = torch.from_numpy(raw.copy()) if kind == "torch" else raw.copy()
                            st.ctx = {"low": lows.tolist(), "high": highs.tolist(), "method": method, "scaling": scaling, "raw": x, "type": kind}
                            st.step()
                            b = np.clip(raw, -1, 1) if method == "clip" else np.tanh(raw) if method == "tanh" else raw
                            if scaling and method is None and np.abs(raw).max() > 1:
                                try:
                                    got = p.map_action(act)
                                except (AssertionError, ValueError):
                                    continue
                            else:
                                got = p.map_action(act)
                            st.check(isinstance(got, np.ndarray) and got.shape == raw.shape, "map-type", f"map_action returned {got!r}")
                            st.check(np.array_equal(np.asarray(act), raw), "map-mutates", "map_action changed its argument")
                            if not scaling:
                                st.check(np.allclose(got, b, rtol=1e-6, atol=0), "bounding", lambda: f"bounded action {got.tolist()}, expected {b.tolist()}")
                                continue
                            st.check(bool(np.all(got >= lows) and np.all(got <= highs)), "out-of-space", lambda: f"action {x} is mapped to {[repr(float(v)) for v in got.ravel()]}, outside {lows.tolist()}..{highs.tolist()}")
                            for g, e, l, h in zip(got.ravel(), b.ravel(), np.tile(lows.ravel(), rows), np.tile(highs.ravel(), rows), strict=True):
                                L, H = Fraction(float(l)), Fraction(float(h))
                                want = L + (H - L) * (Fraction(float(e)) + 1) / 2
                                tol = Fraction(1, 2 ** 20) * max(abs(L), abs(H), H - L)
                                st.check(abs(Fraction(float(g)) - want) <= tol, "affine", lambda: f"raw action {float(e)} is mapped to {float(g)}, expected {float(want)}")
                    # inverse on actions of the space
                    if scaling:
                        for f in (0.0, 0.25, 0.5, 0.9, 1.0):
                            for dt in (np.float32,):     # actions of the space have its data type
                                a = (lows.astype(np.float64) + (highs.astype(np.float64) - lows) * f).astype(dt)
                                a = np.clip(a, lows, highs)
                                keep = a.copy()
                                with np.errstate(all="ignore"):
                                    inv = p.map_action_inverse(a[None])
                                st.check(np.array_equal(a, keep), "map-mutates", "map_action_inverse changed its argument")
                                with np.errstate(all="ignore"):
                                    back = p.map_action(inv)
                                st.step()
                                tol = 2e-6 * np.maximum(np.maximum(abs(lows), abs(highs)), highs - lows)
                                if method == "tanh":
                                    tol = tol * 4
                                st.check(not np.isnan(back).any() and np.all(np.abs(back[0] - a) <= tol), "inverse", lambda: f"{a.tolist()} -> inverse {inv.tolist()} -> {back.tolist()} (low {lows.tolist()}, high {highs.tolist()}, {method})")
                        st.check(np.array_equal(sp.low, lows) and np.array_equal(sp.high, highs), "space-mutated", "the action space was changed")
                    st.state((lo, hi, shape, method, scaling))
    st.trace(st.ctx)


class Sink(gym.Env):
    observation_space = gym.spaces.Discrete(2)

    def __init__(self, space):
        self.action_space = space
        self.got = []
        self.ret = (0, 0.5, False, False, {"k": 1})

    def step(self, a):
        self.got.append(a)
        return self.ret

    def reset(self, **kw):
        return 0, {}


def c2d(d, tier, st):
    top = 3 if tier == "quick" else 4
    bd = [(-1.0, 1.0), (0.1, 0.7), (-3.3, 0.3), (0.0, 1e6)]
    for sizes in itertools.product(range(1, top + 1), repeat=d):
        for rot in range(len(bd)):
            bs = [bd[(rot + i) % len(bd)] for i in range(d)]
            sp = gym.spaces.Box(np.array([b[0] for b in bs], dtype=np.float32), np.array([b[1] for b in bs], dtype=np.float32))
            for per in ([list(sizes)] + ([sizes[0]] if len(set(sizes)) == 1 else [])):
                env = Sink(sp)
                w = ContinuousToDiscrete(env, per)
                st.ctx = {"low": sp.low.tolist(), "high": sp.high.tolist(), "action_per_dim": per}
                st.check(isinstance(w.action_space, gym.spaces.MultiDiscrete) and w.action_space.nvec.tolist() == list(sizes), "c2d-space", f"action space {w.action_space}")
                seen = set()
                acts = list(itertools.product(*[range(s) for s in sizes]))
                for a in acts:
                    w.step(np.array(a))
                    got = np.asarray(env.got[-1], dtype=float)
                    st.step()
                    st.check(got.shape == (d,), "c2d-shape", f"{got!r}")
                    for k, g in enumerate(got):
                        L, H = float(sp.low[k]), float(sp.high[k])
                        want = L if sizes[k] == 1 else L + (H - L) * a[k] / (sizes[k] - 1)
                        st.check(abs(g - want) <= 1e-6 * max(abs(L), abs(H)) and L <= g <= H, "c2d-grid", f"action {a} gives {got.tolist()}, dimension {k} should be {want}")
                    seen.add(tuple(got))
                st.check(len(seen) == len(acts), "c2d-one-to-one", f"{len(acts)} actions give {len(seen)} different ones")
                many = np.asarray(w.action(np.array(acts)), dtype=float)
                st.check(many.tolist() == [np.asarray(g, dtype=float).tolist() for g in env.got], "c2d-batch", "converting several actions differs from one at a time")
                st.state((sizes, rot, repr(per)))
    st.trace(st.ctx)


def md2d(d, tier, st):
    top = 4 if tier == "quick" else 5
    for nvec in itertools.product(range(1, top + 1), repeat=d):
        env = Sink(gym.spaces.MultiDiscrete(list(nvec)))
        w = MultiDiscreteToDiscrete(env)
        n = int(np.prod(nvec))
        st.ctx = {"nvec": nvec}
        st.check(isinstance(w.action_space, gym.spaces.Discrete) and int(w.action_space.n) == n, "md2d-space", f"action space {w.action_space}")
        for a in range(n):
            w.step(np.int64(a))
            st.step()
            st.check(env.action_space.contains(np.asarray(env.got[-1])), "md2d-invalid", f"action {a} gives {env.got[-1]!r}, not in {env.action_space}")
        seen = {tuple(np.asarray(g).tolist()) for g in env.got}
        st.check(len(seen) == n, "md2d-one-to-one", f"{n} actions give {len(seen)} different ones")
        many = w.action(np.arange(n))
        st.check(np.asarray(many).tolist() == [np.asarray(g).tolist() for g in env.got], "md2d-batch", "converting several actions differs from one at a time")
        st.state(nvec)
    st.trace(st.ctx)


def trunc(st):
    for te, tr in itertools.product((False, True), repeat=2):
        env = Sink(gym.spaces.Discrete(2))
        env.ret = (1, 0.25, te, tr, {"x": 3})
        r = TruncatedAsTerminated(env).step(1)
        st.ctx = {"flags": (te, tr)}
        st.check(r[0] == 1 and r[1] == 0.25 and r[2] == (te or tr) and r[3] == tr and r[4] == {"x": 3} and env.got == [1], "trunc", f"returned {r}")
        st.step()
        st.state((te, tr))
    st.trace(st.ctx)


def compute(name, st):
    base = name.split(":")[0]
    cont = name.endswith(":c") or base in pols.CONT
    pol = pols.build(name)
    pol.eval()
    if hasattr(pol, "deterministic_eval"):
        pol.deterministic_eval = True
    for k in range(6):
        obs = np.random.default_rng(k).normal(size=3).astype(np.float32)
        st.ctx = {"policy": name, "obs": obs.tolist()}
        for form in (obs, obs.tolist()):
            torch.manual_seed(k)
            got = pol.compute_action(form)
            torch.manual_seed(k)
            want = pol(Batch(obs=np.array(form)[None], info=Batch())).act
            want = want.detach().numpy() if isinstance(want, torch.Tensor) else want
            want = pol.map_action(want)[0]
            st.step()
            st.check(np.array_equal(np.asarray(got), want), "compute-action", lambda: f"{name}: compute_action gives {got!r}, the policy {want!r}")
            st.check(pol.action_space.contains(got if not cont else np.asarray(got, dtype=np.float32)), "compute-invalid", f"{name}: compute_action gives {got!r}, not in {pol.action_space}")
        st.state((name, k))
    if base == "dqn":
        for shape in ((1,), (2,), (1, 2), (2, 1)):
            sp = gym.spaces.Box(-1.0, 1.0, shape)
            for scaling in (True, False):
                p = Fix(out=np.full(shape, 0.5, dtype=np.float32), action_space=sp, action_scaling=scaling)
                got = p.compute_action(np.zeros(3))
                st.ctx = {"space": str(sp), "scaling": scaling}
                st.check(np.asarray(got).shape == shape and sp.contains(np.asarray(got, dtype=np.float32)), "compute-shape", f"compute_action gives shape {np.asarray(got).shape} for {sp}")
                st.step()
        for sp, a in ((gym.spaces.Discrete(1), 0), (gym.spaces.Discrete(3), 2), (gym.spaces.MultiDiscrete([2]), [1]), (gym.spaces.MultiDiscrete([2, 3]), [1, 2]), (gym.spaces.MultiBinary(1), [1])):
            p = Fix(out=np.array(a, dtype=sp.dtype), action_space=sp)
            got = p.compute_action(np.zeros(3))
            st.ctx = {"space": str(sp)}
            st.check(sp.contains(got) and (isinstance(got, int) or sp.shape != ()), "compute-shape", f"compute_action gives {got!r} for {sp}")
            st.step()
    st.trace(st.ctx)


def collect(method, scaling, st):
    """Noise of any size through the collector: the environment is only given actions of its space."""
    sp = gym.spaces.Box(np.array([-0.1, 2.0], dtype=np.float32), np.array([0.7, 3.3], dtype=np.float32))
    if method is None and scaling:
        return
    for sigma in (0.1, 10.0):
        def go(ch):
            a = pols.K.Actor(pols.net(), (2,))
            torch.manual_seed(0)
            for q in a.parameters():
                torch.nn.init.normal_(q)
            c = pols.qcritic()
            pol = P.DDPGPolicy(actor=a, actor_optim=pols.adam(a), critic=c, critic_optim=pols.adam(c), action_space=sp, exploration_noise=GaussianNoise(sigma=sigma), action_scaling=scaling, action_bound_method=method)
            env = CEnv(0, (2,), (), "same", act_space=sp)
            env.observation_space.dtype = np.dtype(np.float32)
            env.obs = lambda: np.array([env.eid, env.ep % 2, env.t], dtype=np.float32)
            got = []
            step = env.step
            env.step = lambda x: (got.append(np.array(x)), step(x))[1]
            col = Collector(pol, DummyVectorEnv([lambda: env]), VectorReplayBuffer(8, 1), exploration_noise=True)
            col.reset()
            with policy_within_training_step(pol), rng.patched(ch, normal=(0.0, -1.0, 1.5)):
                col.collect(n_step=2)
            return got, col.buffer[:].act
        for ch, (got, stored) in explore(go):
            st.ctx = {"method": method, "scaling": scaling, "sigma": sigma, "draws": [c for c, _ in ch.log]}
            st.step(len(got))
            st.check(len(got) == 2, "collect-steps", f"{len(got)} steps")
            for g, s in zip(got, stored, strict=True):
                b = np.clip(s, -1, 1) if method == "clip" else np.tanh(s) if method == "tanh" else s
                e = sp.low + (sp.high - sp.low) * (b + 1) / 2 if scaling else b
                st.check(np.allclose(g, e, atol=1e-5), "collect-map", lambda: f"environment got {g.tolist()} for policy action {s.tolist()}")
                st.check(not scaling or bool(np.all(g >= sp.low) and np.all(g <= sp.high)), "collect-outside", lambda: f"environment got {g.tolist()}")
            st.trace(st.ctx)
            st.state((method, scaling, sigma, repr(st.ctx["draws"])))


def run(job, st):
    k = job[0]
    if k == "greedy":
        greedy(*job[1:], st)
    elif k == "explore":
        explore_(*job[1:], st)
    elif k == "explore_bdq":
        explore_bdq(*job[1:], st)
    elif k == "map":
        mapping(*job[1:], st)
    else:
        globals()[k](*job[1:], st)
