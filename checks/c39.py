"""C39: networks compute their documented function row by row, and memory makes chunks equal the whole."""
import contextlib
import copy
import itertools
import weakref

import gymnasium as gym
import numpy as np
import torch
from torch import nn

from mc import pols  # noqa: F401  (registers nothing; keeps torch single-threaded)
from tianshou.data import Batch
from tianshou.policy import A2CPolicy, DDPGPolicy, DiscreteBCQPolicy, DiscreteSACPolicy, DQNPolicy, FQFPolicy, ImitationPolicy, IQNPolicy, NPGPolicy, PGPolicy, PPOPolicy, REDQPolicy, SACPolicy, TD3Policy
from tianshou.utils.net import continuous as C
from tianshou.utils.net import discrete as D
from tianshou.utils.net.common import MLP, BranchingNet, EnsembleLinear, Net, Recurrent, get_dict_state_decorator

PROPERTY = "C39"
LEVEL = "model_checking"
TECHNIQUE = "depth-first enumeration of all schedules of which environments step together (in every order) and which are reset, through the real recurrent networks, actors and policies, each answer compared with an independent LSTM over the environment's own history; exhaustive grids of network configurations x all ordered sub-batches x input forms against an independent evaluation of the same weights"
NOTE = "The oracle reads the weights from the modules and evaluates the published formulas (LSTM cell, dueling aggregation, noisy layer, cosine embedding, ...) in float64 numpy."
ASSUMPTIONS = ["CPU tensors", "BatchNorm is not row-wise and not judged", "agreement to 1e-4 (float32)"]
DIM, ACT = 3, 2


def BOUNDS(tier):
    q = tier == "quick"
    return (f"all schedules of {3 if q else 4} operations over 2 environments (ordered subsets stepping, resets) for {len(MEM)} recurrent networks/actors/policies x 1-2 layers x 3 input forms, and all chunkings of sequences of {4 if q else 6} steps; "
            "networks: all configurations of the grid x all 15 ordered sub-batches of 3 rows x array/tensor inputs; dict observations: all key orders x 3 shape layouts x with/without batch dimension")


def jobs(tier):
    q = tier == "quick"
    return ([["mem", k, n, 3 if q else 4] for k in MEM for n in (1, 2)] + [["chunk", k, n, 4 if q else 6] for k in MEM if not k.startswith("pol") for n in (1, 2)]
            + [["rows", k] for k in GRID] + [["dict"], ["dim"]])


# ---------------------------------------------------------------- oracles
def arr(x):
    return x.detach().numpy().astype(float) if isinstance(x, torch.Tensor) else np.asarray(x, dtype=float)


def sig(x):
    return 1 / (1 + np.exp(-x))


def lin(m, x):
    return x @ arr(m.weight).T + (0 if m.bias is None else arr(m.bias))


def lstm(m, xs):
    """Output of the top layer after the sequence xs [T, in] and the final (hidden, cell) of every layer."""
    hs, cs = [], []
    for k in range(m.num_layers):
        wi, wh, bi, bh = (arr(getattr(m, f"{n}_l{k}")) for n in ("weight_ih", "weight_hh", "bias_ih", "bias_hh"))
        h, c, out = np.zeros(m.hidden_size), np.zeros(m.hidden_size), []
        for x in xs:
            i, f, g, o = np.split(wi @ x + bi + wh @ h + bh, 4)
            c = sig(f) * c + sig(i) * np.tanh(g)
            h = sig(o) * np.tanh(c)
            out.append(h)
        xs = out
        hs.append(h)
        cs.append(c)
    return xs[-1], np.array(hs), np.array(cs)


def softmax(x):
    e = np.exp(x - x.max(-1, keepdims=True))
    return e / e.sum(-1, keepdims=True)


def seq(mods, x):
    """The layers of an MLP, one after the other."""
    for m in mods:
        if isinstance(m, nn.Linear):
            x = lin(m, x)
        elif isinstance(m, nn.ReLU):
            x = np.maximum(x, 0)
        elif isinstance(m, nn.Tanh):
            x = np.tanh(x)
        elif isinstance(m, nn.LeakyReLU):
            x = np.where(x > 0, x, m.negative_slope * x)
        elif isinstance(m, nn.LayerNorm):
            x = (x - x.mean(-1, keepdims=True)) / np.sqrt(x.var(-1, keepdims=True) + m.eps)
            if m.weight is not None:
                x = x * arr(m.weight) + arr(m.bias)
        elif isinstance(m, EnsembleLinear):
            x = np.stack([x[i] @ arr(m.weight)[i] + (0 if m.bias_weights is None else arr(m.bias_weights)[i]) for i in range(len(m.weight))])
        else:
            raise AssertionError(m)
    return x


def linears(m):
    return [k for k in m.modules() if isinstance(k, nn.Linear)]


def recurrent(m, xs):
    top, h, c = lstm(m.nn, [lin(m.fc1, x) for x in xs])
    return lin(m.fc2, top), h, c


UNBOUNDED = weakref.WeakKeyDictionary()


def unbounded(yes, a):
    UNBOUNDED[a] = yes
    return a


def sigma(a, logits):
    return np.exp(np.clip(seq(a.sigma.model if isinstance(a.sigma, MLP) else [a.sigma], logits), -20, 2)) if hasattr(a, "sigma") else np.exp(arr(a.sigma_param)).reshape(-1)


# ---------------------------------------------------------------- recurrent modules and policies
def rec(n, out=4):
    return Recurrent(n, (DIM,), (out,), hidden_layer_size=5)


def wake(m):
    """Weights large enough for the memory to matter."""
    with torch.no_grad():
        for p in m.parameters():
            p.add_(0.4 * torch.randn_like(p))
    return m


def o_actor(a, xs):
    z, h, c = recurrent(a.preprocess, xs)
    return a.max_action * np.tanh(seq(a.last.model, z)), h, c


def o_prob(a, xs):
    z, h, c = recurrent(a.preprocess, xs)
    mu = seq(a.mu.model, z)
    return (mu if UNBOUNDED.get(a, False) else a.max_action * np.tanh(mu), sigma(a, z)), h, c


def o_rprob(a, xs):
    z, h, c = lstm(a.nn, xs)
    mu = lin(a.mu, z)
    return (mu if UNBOUNDED.get(a, False) else a.max_action * np.tanh(mu), sigma(a, z)), h, c


def o_dactor(a, xs):
    z, h, c = recurrent(a.preprocess, xs)
    y = seq(a.last.model, z)
    return softmax(y) if a.softmax_output else y, h, c


def tau_out(a, z, taus):
    """Quantile network on one row: features z, fractions taus."""
    cos = np.cos(taus[:, None] * np.pi * np.arange(1, a.embed_model.num_cosines + 1))
    e = seq(a.embed_model.net, cos)
    return seq(a.last.model, z * e).T


TAUS = np.array([0.1, 0.45, 0.8])


def o_iqn(a, xs):
    z, h, c = recurrent(a.preprocess, xs)
    return tau_out(a, z, TAUS), h, c


def fractions(f, z):
    p = softmax(lin(f.net, z))
    t = np.concatenate([[0.0], np.cumsum(p)])
    return t, (t[1:] + t[:-1]) / 2, -(p * np.log(p)).sum()


def o_fqf(a, f, xs):
    z, h, c = recurrent(a.preprocess, xs)
    return tau_out(a, z, fractions(f, z)[1]), h, c


def box():
    return gym.spaces.Box(-1.0, 1.0, (ACT,))


def adam(*ms):
    return torch.optim.Adam([p for m in ms for p in m.parameters()])


def normal(x):
    return torch.distributions.Independent(torch.distributions.Normal(*x), 1)


def probs(x):
    return torch.distributions.Categorical(probs=x)


def prob_actor(n, k=0):
    return unbounded(k == 2, C.ActorProb(rec(n), (ACT,), conditioned_sigma=k == 1, unbounded=k == 2, max_action=1.0 if k == 2 else 1.5, preprocess_net_output_dim=4))


def net_fn(m, orc, pick=lambda r: r):
    def call(obs, state):
        out, s = m(obs, state=state)
        return pick(out), s
    return m, call, lambda xs: orc(m, xs)


def pol_fn(p, a, orc, field="logits"):
    p.eval()

    def call(obs, state):
        r = p(Batch(obs=obs, info=Batch()), state=state)
        return getattr(r, field), r.state
    return p, call, lambda xs: orc(a, xs)


def critic(*a):
    return C.Critic(Net(DIM, ACT, hidden_sizes=[4], concat=True))


def m_pg(cls, n, **kw):
    a = D.Actor(rec(n), ACT, softmax_output=True, preprocess_net_output_dim=4)
    return pol_fn(cls(actor=a, optim=adam(a), dist_fn=probs, action_space=gym.spaces.Discrete(ACT), action_scaling=False, **kw), a, o_dactor)


def m_pgc(cls, n, k, **kw):
    a = prob_actor(n, k)
    return pol_fn(cls(actor=a, optim=adam(a), dist_fn=normal, action_space=box(), **kw), a, o_prob)


def m_sac(n, a, orc):
    q = critic()
    return pol_fn(SACPolicy(actor=a, actor_optim=adam(a), critic=q, critic_optim=adam(q), action_space=box()), a, orc)


def m_redq(n):
    a = prob_actor(n, 1)
    q = C.Critic(Net(DIM, ACT, hidden_sizes=[4], concat=True, linear_layer=lambda i, o: EnsembleLinear(2, i, o)), linear_layer=lambda i, o: EnsembleLinear(2, i, o), flatten_input=False)
    return pol_fn(REDQPolicy(actor=a, actor_optim=adam(a), critic=q, critic_optim=adam(q), ensemble_size=2, action_space=box()), a, o_prob)


def m_det(cls, n):
    a, q = C.Actor(rec(n), (ACT,), max_action=1.5, preprocess_net_output_dim=4), critic()
    return pol_fn(cls(actor=a, actor_optim=adam(a), critic=q, critic_optim=adam(q), action_space=box()), a, o_actor, "act")


def m_dqn(n):
    m = rec(n, ACT)
    return pol_fn(DQNPolicy(model=m, optim=adam(m), action_space=gym.spaces.Discrete(ACT)), m, recurrent)


def m_dsac(n):
    a = D.Actor(rec(n), ACT, softmax_output=False, preprocess_net_output_dim=4)
    q = D.Critic(Net(DIM, hidden_sizes=[4]), last_size=ACT)
    return pol_fn(DiscreteSACPolicy(actor=a, actor_optim=adam(a), critic=q, critic_optim=adam(q), action_space=gym.spaces.Discrete(ACT)), a, o_dactor)


def m_il(n, cont):
    a = C.Actor(rec(n), (ACT,), preprocess_net_output_dim=4) if cont else rec(n, ACT)
    return pol_fn(ImitationPolicy(actor=a, optim=adam(a), action_space=box() if cont else gym.spaces.Discrete(ACT)), a, o_actor if cont else recurrent)


def m_dbcq(n):
    f = rec(n)
    a, b = (D.Actor(f, ACT, softmax_output=False, preprocess_net_output_dim=4) for _ in range(2))
    return pol_fn(DiscreteBCQPolicy(model=a, imitator=b, optim=adam(a, b), action_space=gym.spaces.Discrete(ACT), target_update_freq=0 or 1), a, o_dactor, "q_value")


def m_iqn(n):
    a = D.ImplicitQuantileNetwork(rec(n), ACT, num_cosines=3, preprocess_net_output_dim=4)
    return pol_fn(IQNPolicy(model=a, optim=adam(a), action_space=gym.spaces.Discrete(ACT), sample_size=3, online_sample_size=3, target_sample_size=3), a, o_iqn)


def m_fqf(n):
    a, f = D.FullQuantileFunction(rec(n), ACT, num_cosines=3, preprocess_net_output_dim=4), D.FractionProposalNetwork(3, 4)
    return pol_fn(FQFPolicy(model=a, optim=adam(a), fraction_model=f, fraction_optim=adam(f), action_space=gym.spaces.Discrete(ACT), num_fractions=3), a, lambda a, xs: o_fqf(a, f, xs))


def m_fqfnet(n):
    a, f = D.FullQuantileFunction(rec(n), ACT, num_cosines=3, preprocess_net_output_dim=4), D.FractionProposalNetwork(3, 4)
    a.eval()
    a.f = f

    def call(obs, state):
        (q, _, _), s = a(obs, f, state=state)
        return q, s
    return a, call, lambda xs: o_fqf(a, f, xs)


def m_iqnnet(n):
    a = D.ImplicitQuantileNetwork(rec(n), ACT, num_cosines=3, preprocess_net_output_dim=4)

    def call(obs, state):
        (q, _), s = a(obs, 3, state=state)
        return q, s
    return a, call, lambda xs: o_iqn(a, xs)


def m_dcritic(n):
    """A value function whose preprocessing network has memory: the state passed to it counts."""
    c = D.Critic(rec(n), preprocess_net_output_dim=4)

    def call(obs, state):
        with torch.no_grad():
            _, s = c.preprocess(obs, state=state)
            return c(obs, state=state), s

    def orc(xs):
        z, h, cell = recurrent(c.preprocess, xs)
        return seq(c.last.model, z), h, cell
    return c, call, orc


def crit(n):
    return D.Critic(Net(DIM, hidden_sizes=[4]))


def m_ac(cls, n, k, **kw):
    a, q = prob_actor(n, k), crit(n)
    return pol_fn(cls(actor=a, critic=q, optim=adam(a, q), dist_fn=normal, action_space=box(), **kw), a, o_prob)


MEM = {
    "recurrent": lambda n: net_fn(rec(n), recurrent),
    "actor": lambda n: net_fn(C.Actor(rec(n), (ACT,), hidden_sizes=(3,), max_action=1.5, preprocess_net_output_dim=4), o_actor),
    "actorprob": lambda n: net_fn(prob_actor(n), o_prob),
    "actorprob-sigma": lambda n: net_fn(prob_actor(n, 1), o_prob),
    "actorprob-unbounded": lambda n: net_fn(prob_actor(n, 2), o_prob),
    "ractorprob": lambda n: net_fn(C.RecurrentActorProb(n, (DIM,), (ACT,), 5, max_action=1.5), o_rprob),
    "ractorprob-sigma": lambda n: net_fn(C.RecurrentActorProb(n, (DIM,), (ACT,), 5, conditioned_sigma=True), o_rprob),
    "ractorprob-unbounded": lambda n: net_fn(unbounded(True, C.RecurrentActorProb(n, (DIM,), (ACT,), 5, unbounded=True)), o_rprob),
    "dactor": lambda n: net_fn(D.Actor(rec(n), ACT, hidden_sizes=(3,), preprocess_net_output_dim=4), o_dactor),
    "dactor-raw": lambda n: net_fn(D.Actor(rec(n), ACT, softmax_output=False, preprocess_net_output_dim=4), o_dactor),
    "iqn": m_iqnnet, "fqf": m_fqfnet, "dcritic": m_dcritic,
    "pol-dqn": m_dqn, "pol-pg": lambda n: m_pg(PGPolicy, n), "pol-pgc": lambda n: m_pgc(PGPolicy, n, 0),
    "pol-a2c": lambda n: m_ac(A2CPolicy, n, 0), "pol-ppo": lambda n: m_ac(PPOPolicy, n, 1), "pol-npg": lambda n: m_ac(NPGPolicy, n, 2),
    "pol-sac": lambda n: m_sac(n, prob_actor(n, 1), o_prob), "pol-sac-r": lambda n: m_sac(n, C.RecurrentActorProb(n, (DIM,), (ACT,), 5, conditioned_sigma=True), o_rprob),
    "pol-redq": m_redq, "pol-ddpg": lambda n: m_det(DDPGPolicy, n), "pol-td3": lambda n: m_det(TD3Policy, n),
    "pol-dsac": m_dsac, "pol-il": lambda n: m_il(n, False), "pol-ilc": lambda n: m_il(n, True), "pol-dbcq": m_dbcq, "pol-iqn": m_iqn, "pol-fqf": m_fqf,
}


class fixed_taus:
    """torch.rand answers the fixed fractions (only the quantile networks ask)."""

    def __enter__(self):
        self.old = torch.rand
        torch.rand = lambda *size, **kw: torch.as_tensor(np.resize(TAUS, size), dtype=kw.get("dtype"))

    def __exit__(self, *a):
        torch.rand = self.old


def same(got, want, tol=1e-4):
    if isinstance(want, tuple):
        return isinstance(got, tuple) and len(got) == len(want) and all(same(g, w, tol) for g, w in zip(got, want, strict=True))
    g = arr(got)
    return g.shape == want.shape and bool(np.all(np.abs(g - want) <= tol * (1 + np.abs(want))))


def row(out, i):
    return tuple(row(o, i) for o in out) if isinstance(out, tuple) else out[i]


def leaf(s, k):
    return s[k]


FORMS = {"float32 array": lambda x: x.astype(np.float32), "float64 array": lambda x: x, "tensor": lambda x: torch.as_tensor(x, dtype=torch.float32)}
E_ = 2


def obs_of(e, ep, k):
    return np.round(np.sin(np.arange(DIM) * 1.7 + 2.3 * e + 5.1 * ep + 1.9 * k) * 1.5, 3)


def mem(kind, layers, depth, st):
    torch.manual_seed(7)
    m, call, orc = MEM[kind](layers)
    wake(m)
    steps = [s for k in (1, 2) for s in itertools.permutations(range(E_), k)]
    cache = {}

    def want(e, ep, k):
        if (e, ep, k) not in cache:
            cache[e, ep, k] = orc([obs_of(e, ep, j) for j in range(k)])
        return cache[e, ep, k]

    for form, conv in FORMS.items():
        def go(hist, memory, pos):
            if len(hist) == depth:
                st.trace({"module": kind, "layers": layers, "input": form, "schedule": list(hist)})
                return
            for s in steps:
                obs = np.stack([obs_of(e, *pos[e]) for e in s])
                state = None
                if memory is not None:
                    state = Batch(hidden=memory[0][list(s)], cell=memory[1][list(s)])
                with torch.no_grad():
                    out, new = call(conv(obs), state)
                p2 = [(ep, k + 1) if e in s else (ep, k) for e, (ep, k) in enumerate(pos)]
                st.ctx = {"module": kind, "layers": layers, "input": form, "schedule": [*hist, s]}
                st.check(new is not None and len(new.keys()) > 0, "memory-lost", "the memory after the step is missing")
                mem2 = [torch.zeros(E_, *new[k].shape[1:]) for k in ("hidden", "cell")] if memory is None else [x.clone() for x in memory]
                for j, e in enumerate(s):
                    o, h, c = want(e, *p2[e])
                    if isinstance(o, tuple) and isinstance(out, torch.Tensor):
                        out = tuple(out)      # a Batch holds a pair of tensors as one
                    st.check(same(row(out, j), o), "output", lambda: f"environment {e} after {p2[e][1]} steps of its episode: {row(out, j)}, its own history gives {o}")
                    st.check(same(new["hidden"][j], h) and same(new["cell"][j], c), "memory", lambda: f"environment {e}: memory is not that of its own history")
                    mem2[0][e], mem2[1][e] = new["hidden"][j], new["cell"][j]
                st.step()
                st.state((form, tuple(p2)))
                go((*hist, s), mem2, p2)
            if memory is not None and hist and not isinstance(hist[-1], str):
                for e in range(E_):
                    mem2 = [x.clone() for x in memory]
                    for x in mem2:
                        x[e] = 0
                    p2 = [(ep + 1, 0) if e == i else (ep, k) for i, (ep, k) in enumerate(pos)]
                    go((*hist, f"reset {e}"), mem2, p2)
        with fixed_taus():
            go((), None, [(0, 0)] * E_)


def compositions(n):
    for cut in itertools.product((0, 1), repeat=n - 1):
        out, last = [], 0
        for i, c in enumerate(cut, 1):
            if c:
                out.append((last, i))
                last = i
        yield [*out, (last, n)]


def chunk(kind, layers, T, st):
    """Feeding [batch, len, dim] pieces and carrying the memory equals feeding the whole sequence."""
    torch.manual_seed(9)
    m, call, orc = MEM[kind](layers)
    wake(m)
    xs = np.stack([[obs_of(e, 0, k) for k in range(T)] for e in range(2)])
    wants = {(e, n): orc(list(xs[e, :n])) for e in range(2) for n in range(1, T + 1)}
    for form, conv in FORMS.items():
        for parts in compositions(T):
            for flat in (False, True):      # pieces of length one may also come without the time axis
                state = None
                for a, b in parts:
                    piece = xs[:, a] if flat and b == a + 1 else xs[:, a:b]
                    with torch.no_grad(), fixed_taus():
                        out, state = call(conv(piece), state)
                    st.ctx = {"module": kind, "layers": layers, "input": form, "pieces": parts, "flat": flat, "upto": b}
                    st.check(state is not None and len(state.keys()) > 0, "memory-lost", "the memory after the piece is missing")
                    for e in range(2):
                        o, h, c = wants[e, b]
                        st.check(same(row(out, e), o), "chunk-output", lambda: f"row {e}: {row(out, e)}, the whole sequence gives {o}")
                        st.check(same(state["hidden"][e], h) and same(state["cell"][e], c), "chunk-memory", f"row {e}: memory differs from that of the whole sequence")
                    st.step()
                st.state((form, tuple(parts), flat))
            st.trace({"module": kind, "layers": layers, "pieces": parts})


# ---------------------------------------------------------------- feed-forward networks, row by row
LAYERS = {
    "linear": dict(),
    "relu": dict(hidden_sizes=[4, 3]),
    "lists": dict(hidden_sizes=[4, 3], activation=[nn.LeakyReLU, nn.Tanh], act_args=[(0.3,), ()], norm_layer=[nn.LayerNorm, nn.LayerNorm], norm_args=[dict(eps=1e-2), (1e-1,)]),
    "no-activation": dict(hidden_sizes=[4], activation=None),
    "norm": dict(hidden_sizes=[4], norm_layer=nn.LayerNorm, norm_args=dict(eps=1e-1), activation=nn.LeakyReLU, act_args=dict(negative_slope=0.5)),
}
LAYER_KINDS = {"linear": [], "relu": [nn.ReLU] * 2, "lists": [nn.LayerNorm, nn.LeakyReLU, nn.LayerNorm, nn.Tanh], "no-activation": [], "norm": [nn.LayerNorm, nn.LeakyReLU]}
LAYER_ARGS = {"lists": {("LayerNorm", 0): ("eps", 1e-2), ("LayerNorm", 1): ("eps", 1e-1), ("LeakyReLU", 0): ("negative_slope", 0.3)}, "norm": {("LayerNorm", 0): ("eps", 1e-1), ("LeakyReLU", 0): ("negative_slope", 0.5)}}


def g_net():
    for name, kw in LAYERS.items():
        for shape in (DIM, (DIM,), (3, 2)):
            for atoms in (1, 3):
                for sm in (False, True):
                    for duel in (False, True):
                        dp = (dict(hidden_sizes=[3]), dict(hidden_sizes=[2, 2])) if duel else None
                        keep = copy.deepcopy(dp)
                        n = Net(shape, ACT, softmax=sm, num_atoms=atoms, dueling_param=dp, **kw)
                        assert dp == keep

                        def orc(x, n=n, atoms=atoms, sm=sm, duel=duel):
                            z = seq(n.model.model, x.reshape(-1))
                            if duel:
                                q, v = seq(n.Q.model, z).reshape(ACT, atoms), seq(n.V.model, z).reshape(1, atoms)
                                z = (v + q - q.mean(0, keepdims=True)).reshape(-1)
                            if atoms > 1:
                                z = z.reshape(ACT, atoms)
                            return softmax(z) if sm else z
                        yield {"layers": name, "shape": shape, "atoms": atoms, "softmax": sm, "dueling": duel}, n, lambda o, n=n: n(o)[0], orc, (shape,), name


def g_actor():
    for name, kw in LAYERS.items():
        for hid in ((), (3,)):
            for sm in (False, True):
                a = D.Actor(Net(DIM, hidden_sizes=kw.get("hidden_sizes", ()), **{k: v for k, v in kw.items() if k != "hidden_sizes"}), ACT, hidden_sizes=hid, softmax_output=sm)
                yield {"discrete actor": name, "hidden": hid, "softmax": sm}, a, lambda o, a=a: a(o)[0], lambda x, a=a, sm=sm: (softmax if sm else (lambda v: v))(seq(a.last.model, seq(a.preprocess.model.model, x))), (DIM,), None
            c = D.Critic(Net(DIM, **kw), hidden_sizes=hid, last_size=2)
            yield {"discrete critic": name, "hidden": hid}, c, lambda o, c=c: c(o), lambda x, c=c: seq(c.last.model, seq(c.preprocess.model.model, x)), (DIM,), None
            a = C.Actor(Net(DIM, **kw), (ACT,), hidden_sizes=hid, max_action=2.5)
            yield {"actor": name, "hidden": hid}, a, lambda o, a=a: a(o)[0], lambda x, a=a: 2.5 * np.tanh(seq(a.last.model, seq(a.preprocess.model.model, x))), (DIM,), None
            for k in range(4):
                a = C.ActorProb(Net(DIM, **kw), (ACT,), hidden_sizes=hid, max_action=1.0 if k & 2 else 2.5, unbounded=bool(k & 2), conditioned_sigma=bool(k & 1))

                def orc(x, a=a, k=k):
                    z = seq(a.preprocess.model.model, x)
                    mu = seq(a.mu.model, z)
                    return (mu if k & 2 else 2.5 * np.tanh(mu), sigma(a, z))
                yield {"probabilistic actor": name, "hidden": hid, "variant": k}, a, lambda o, a=a: a(o)[0], orc, (DIM,), None


def g_critic():
    for name, kw in LAYERS.items():
        for hid in ((), (3,)):
            for only in (False, True):
                c = C.Critic(Net(DIM, **kw) if only else Net(DIM, ACT, concat=True, **kw), hidden_sizes=hid, apply_preprocess_net_to_obs_only=only, preprocess_net_output_dim=None) if not only else None
                if only:
                    p = Net(DIM, **kw)
                    p2 = Net(DIM, **kw)
                    c = C.Critic(p, hidden_sizes=hid, apply_preprocess_net_to_obs_only=True)
                    c.last = type(c.last)(p2.output_dim + ACT, 1, hid)

                def orc(x, a, c=c, only=only):
                    if only:
                        return seq(c.last.model, np.concatenate([seq(c.preprocess.model.model, x), a]))
                    return seq(c.last.model, seq(c.preprocess.model.model, np.concatenate([x, a])))
                yield {"critic": name, "hidden": hid, "obs-only": only}, c, lambda o, a, c=c: c(o, a), orc, (DIM, ACT), None
            v = C.Critic(Net(DIM, **kw), hidden_sizes=hid)
            yield {"value critic": name, "hidden": hid}, v, lambda o, v=v: v(o), lambda x, v=v: seq(v.last.model, seq(v.preprocess.model.model, x)), (DIM,), None
    for n in (1, 2):
        rc = C.RecurrentCritic(n, (DIM,), (ACT,), hidden_layer_size=5)
        yield {"recurrent critic": n}, rc, lambda o, a, rc=rc: rc(o, a), lambda x, a, rc=rc: lin(rc.fc2, np.concatenate([lstm(rc.nn, x)[0], a])), ((3, DIM), ACT), None
        rv = C.RecurrentCritic(n, (DIM,), hidden_layer_size=5)
        yield {"recurrent value critic": n}, rv, lambda o, rv=rv: rv(o), lambda x, rv=rv: lin(rv.fc2, lstm(rv.nn, x)[0]), ((2, DIM),), None


def g_other():
    for ch, vh, ah in (([4], None, None), ([4, 3], [2], [3]), ([4], [3, 2], None)):
        for act in (nn.ReLU, nn.Tanh):
            b = BranchingNet(DIM, 2, 3, ch, vh, ah, activation=act)

            def orc(x, b=b):
                z = seq(b.common.model, x)
                v = seq(b.value.model, z)
                return np.stack([(lambda q: v + q - q.mean())(seq(k.model, z)) for k in b.branches])
            yield {"branching": (ch, vh, ah)}, b, lambda o, b=b: b(o)[0], orc, (DIM,), None
    for train in (False, True):
        n = D.NoisyLinear(DIM, ACT)
        n.train(train)

        def orc(x, n=n, train=train):
            w, c = arr(n.mu_W), arr(n.mu_bias)
            if train:
                p, q = arr(n.eps_p), arr(n.eps_q)
                w, c = w + arr(n.sigma_W) * np.outer(q, p), c + arr(n.sigma_bias) * q
            return w @ x + c
        yield {"noisy layer": train}, n, lambda o, n=n: n(torch.as_tensor(o, dtype=torch.float32)), orc, (DIM,), None
    for bias in (True, False):
        e = EnsembleLinear(2, DIM, ACT, bias)
        yield {"ensemble layer": bias}, e, lambda o, e=e: e(torch.as_tensor(o, dtype=torch.float32)).transpose(0, 1), lambda x, e=e: np.stack([x @ arr(e.weight)[i] + (0 if e.bias_weights is None else arr(e.bias_weights)[i, 0]) for i in range(2)]), (DIM,), None
    for draw in ((4.0, -0.25, 0.0, 1.0, -9.0), (-1.0, 0.49, 2.25, 0.0, -0.01)):     # factorised noise: sign(x) * sqrt|x| of standard normals
        n = D.NoisyLinear(DIM, ACT)
        with scripted_normals(draw):
            n.sample()
        f = sorted(np.sign(v) * np.sqrt(abs(v)) for v in draw)

        def orc(x, n=n, f=f):
            p, q = arr(n.eps_p), arr(n.eps_q)
            assert np.allclose(sorted([*p, *q]), f, atol=1e-5), f"noise {sorted([*p, *q])} for draws {draw}, expected {f}"
            return (arr(n.mu_W) + arr(n.sigma_W) * np.outer(q, p)) @ x + arr(n.mu_bias) + arr(n.sigma_bias) * q
        yield {"noisy layer, draws": draw}, n, lambda o, n=n: n(torch.as_tensor(o, dtype=torch.float32)), orc, (DIM,), None
    for name, kw in LAYERS.items():
        p = C.Perturbation(Net(DIM + ACT, ACT, **kw), max_action=0.7, phi=0.3)
        yield {"perturbation": name}, p, lambda o, a, p=p: p(torch.as_tensor(o, dtype=torch.float32), torch.as_tensor(a, dtype=torch.float32)), lambda x, a, p=p: np.clip(a + 0.3 * 0.7 * np.tanh(seq(p.preprocess_net.model.model, np.concatenate([x, a]))), -0.7, 0.7), (DIM, ACT), None
        from tianshou.utils.net.common import MLP
        v = C.VAE(MLP(DIM + ACT, 4, **kw), MLP(DIM + 2, ACT, **kw), 4, 2, 0.7)
        yield {"decoder": name}, v, lambda o, a, v=v: v.decode(torch.as_tensor(o, dtype=torch.float32), torch.as_tensor(a, dtype=torch.float32)), lambda x, z, v=v: 0.7 * np.tanh(seq(v.decoder.model, np.concatenate([x, z]))), (DIM, 2), None

        def enc(o, a, v=v):
            old = torch.randn_like
            torch.randn_like = lambda t, **k: torch.full_like(t, 0.6)
            try:
                return v(torch.as_tensor(o, dtype=torch.float32), torch.as_tensor(a, dtype=torch.float32))
            finally:
                torch.randn_like = old

        def orc(x, a, v=v):
            h = seq(v.encoder.model, np.concatenate([x, a]))
            mean, std = lin(v.mean, h), np.exp(np.clip(lin(v.log_std, h), -4, 15))
            return 0.7 * np.tanh(seq(v.decoder.model, np.concatenate([x, mean + 0.6 * std]))), mean, std
        yield {"auto-encoder": name}, v, enc, orc, (DIM, ACT), None
        i = D.IntrinsicCuriosityModule(MLP(DIM, 4, **kw), 4, 3, hidden_sizes=(3,))

        def icm(o, o2, i=i):
            return i(o, np.arange(len(o)) * 0 + 1, o2)

        def orc2(x, y, i=i):
            f, g = seq(i.feature_net.model, x), seq(i.feature_net.model, y)
            return 0.5 * ((seq(i.forward_model.model, np.concatenate([f, np.eye(3)[1]])) - g) ** 2).sum(), seq(i.inverse_model.model, np.concatenate([f, g]))
        yield {"curiosity": name}, i, icm, orc2, (DIM, DIM), None
        q = D.ImplicitQuantileNetwork(Net(DIM, **kw), ACT, hidden_sizes=(3,), num_cosines=3)

        def iq(o, q=q):
            with fixed_taus():
                (out, taus), _ = q(o, 3)
            return out, taus
        yield {"implicit quantiles": name}, q, iq, lambda x, q=q: (tau_out(q, seq(q.preprocess.model.model, x), TAUS), TAUS), (DIM,), None
        for train in (False, True):
            fq = D.FullQuantileFunction(Net(DIM, **kw), ACT, hidden_sizes=(3,), num_cosines=3)
            f = D.FractionProposalNetwork(4, fq.input_dim)
            fq.f = f
            fq.train(train)

            def run_(o, fq=fq, f=f, train=train):
                (z, fr, zt), _ = fq(o, f)
                given = Batch(taus=fr.taus * 0.5, tau_hats=fr.tau_hats * 0.5 + 0.1, entropies=fr.entropies)     # another network's
                (z2, _, zt2), _ = fq(o, f, fractions=given)
                return (z, fr.taus, fr.tau_hats, fr.entropies, z2, *((zt, zt2) if train else ()))

            def orc3(x, fq=fq, f=f, train=train):
                z = seq(fq.preprocess.model.model, x)
                t, th, en = fractions(f, z)
                q, qt = tau_out(fq, z, th), tau_out(fq, z, t[1:-1])
                q2, qt2 = tau_out(fq, z, th * 0.5 + 0.1), tau_out(fq, z, t[1:-1] * 0.5)
                return (q, t, th, np.asarray(en), q2, *((qt, qt2) if train else ()))
            yield {"full quantiles": name, "training": train}, fq, run_, orc3, (DIM,), None


GRID = {"net": g_net, "actor": g_actor, "critic": g_critic, "other": g_other}


@contextlib.contextmanager
def scripted_normals(draws):
    it = iter(draws)

    def take(shape):
        return torch.tensor([next(it) for _ in range(int(np.prod(shape)))], dtype=torch.float32).reshape(shape)
    sub = {(torch, "randn"): lambda *size, **kw: take(tuple(size[0]) if len(size) == 1 and not isinstance(size[0], int) else size), (torch, "randn_like"): lambda x, **kw: take(tuple(x.shape)),
           (torch, "normal"): lambda m=0.0, s=1.0, size=None, **kw: m + s * take(tuple(size if size is not None else torch.as_tensor(m).shape or torch.as_tensor(s).shape)),
           (torch.Tensor, "normal_"): lambda self, mean=0.0, std=1.0, **kw: self.copy_(mean + std * take(tuple(self.shape)))}
    real = {k: getattr(*k) for k in sub}
    for k, v in sub.items():
        setattr(*k, v)
    try:
        yield
    finally:
        for k, v in real.items():
            setattr(*k, v)


def rows(kind, st):
    torch.manual_seed(3)
    rng = np.random.default_rng(5)
    subs = [s for k in (1, 2, 3) for s in itertools.permutations(range(3), k)]
    for cfg, m, call, orc, shapes, layers in GRID[kind]():
        wake(m)
        st.ctx = cfg
        if layers is not None:      # the requested layers are there, in order, with their own arguments
            found = [x for x in m.model.model if not isinstance(x, nn.Linear)]
            st.check([type(x) for x in found] == LAYER_KINDS[layers], "layers", lambda: f"{found}")
            cnt = {}
            for x in found:
                n = type(x).__name__
                k = (n, cnt.setdefault(n, 0))
                cnt[n] += 1
                if k in LAYER_ARGS.get(layers, {}):
                    a, v = LAYER_ARGS[layers][k]
                    st.check(getattr(x, a) == v, "layer-arguments", lambda: f"{k}: {a} = {getattr(x, a)}, requested {v}")
        xs = [np.round(rng.normal(size=(3, *((s,) if isinstance(s, int) else s))), 3) for s in shapes]
        wants = [orc(*[x[i] for x in xs]) for i in range(3)]
        for form, conv in FORMS.items():
            for s in subs:
                with torch.no_grad():
                    out = call(*[conv(x[list(s)]) for x in xs])
                st.ctx = {**cfg, "rows": s, "input": form}
                for j, i in enumerate(s):
                    st.check(same(row(out, j), wants[i]), "row", lambda: f"row {i}: {row(out, j)}, expected {wants[i]}")
                st.check(len(out[0] if isinstance(out, tuple) else out) == len(s), "rows", "number of rows")
                st.step()
            st.state((kind, str(cfg), form))
        st.trace(cfg)


def dicts(st):
    """Dict observations: flattened and concatenated in key order, batch dimension kept when present."""
    vals = {"a": 3, "b": (2, 2), "c": (1,)}
    layouts = ({"a": (2,), "b": (2,), "c": (2,)}, {"a": (3,), "b": (2, 2), "c": (1,)}, {"a": 3, "b": 2, "c": 1}, vals)
    rng = np.random.default_rng(1)
    for shapes in layouts:
        for keys in [k for n in (1, 2, 3) for k in itertools.permutations("abc", n)]:
            deco, flat = get_dict_state_decorator(shapes, list(keys))
            tup = {k: (s,) if isinstance(s, int) else s for k, s in shapes.items()}
            st.ctx = {"shapes": shapes, "keys": keys}
            st.check(flat == sum(int(np.prod(tup[k])) for k in keys), "dict-shape", lambda: f"{flat}")
            got = []

            class Probe(nn.Module):
                def forward(self, obs, *a, **kw):
                    got.append((obs, a, kw))
                    return obs
            net = deco(Probe)()
            for n in (None, 1, 2, 3):
                data = {k: rng.normal(size=(() if n is None else (n,)) + tup[k]).astype(np.float32) for k in "abc"}
                want = np.concatenate([data[k].reshape((-1,) if n is None else (n, -1)) for k in keys], axis=-1)
                for form in ("dict", "batch", "torch", "plain"):
                    if form == "batch" and n is None:
                        continue     # a Batch of unbatched leaves has no rows
                    o = {k: torch.as_tensor(v) for k, v in data.items()} if form == "torch" else Batch(data) if form == "batch" else want if form == "plain" else data
                    st.ctx = {"shapes": shapes, "keys": keys, "rows": n, "form": form}
                    out = net(o, 5, state=6)
                    st.check(same(out, want.astype(float)), "dict-observation", lambda: f"{out}, expected {want}")
                    st.check(got[-1][1:] == ((5,), {"state": 6}), "dict-arguments", "the other arguments were not passed on")
                    st.step()
                st.state((str(shapes), keys, n))
            st.trace(st.ctx)


def dims(st):
    """The width of a preprocessing network: its own, or the stated one if it has none; a contradiction is refused."""
    class Plain(nn.Module):
        def forward(self, obs, state=None, info=None):
            return torch.as_tensor(obs, dtype=torch.float32), state
    for own in ("missing", None, 4):
        for alt in (None, 4, 5):
            p = Plain()
            if own != "missing":
                p.output_dim = own
            for name, make in (("actor", lambda p, a: C.Actor(p, (ACT,), preprocess_net_output_dim=a)), ("critic", lambda p, a: C.Critic(p, preprocess_net_output_dim=a)), ("probabilistic actor", lambda p, a: C.ActorProb(p, (ACT,), preprocess_net_output_dim=a, conditioned_sigma=True)),
                               ("discrete actor", lambda p, a: D.Actor(p, ACT, preprocess_net_output_dim=a)), ("discrete critic", lambda p, a: D.Critic(p, preprocess_net_output_dim=a)), ("quantile network", lambda p, a: D.ImplicitQuantileNetwork(p, ACT, preprocess_net_output_dim=a))):
                st.ctx = {"network": name, "own width": own, "stated": alt}
                w = own if own not in ("missing", None) else alt
                bad = w is None or (alt is not None and alt != w)
                try:
                    m = make(p, alt)
                except Exception as e:  # noqa: BLE001
                    st.check(bad, "width-refused", lambda: f"{e!r}")
                    m = None
                st.check(m is None or not bad, "width-accepted", "an undefined or contradictory width was accepted")
                if m is not None:
                    first = linears(m)[0]
                    st.check(first.in_features == w, "width", lambda: f"first layer takes {first.in_features}, expected {w}")
                st.step()
            st.state((own, alt))
    st.trace(st.ctx)


def run(job, st):
    {"mem": mem, "chunk": chunk, "rows": rows}[job[0]](*job[1:], st) if job[0] in ("mem", "chunk", "rows") else dicts(st) if job[0] == "dict" else dims(st)
