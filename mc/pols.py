"""Every policy of the library on tiny networks, and a deterministic replay buffer to train it on."""
import copy
import warnings

import gymnasium as gym
import numpy as np
import torch
from torch import nn

import tianshou.policy as P
from tianshou.data import Batch, PrioritizedReplayBuffer, ReplayBuffer, VectorReplayBuffer
from tianshou.exploration import GaussianNoise
from tianshou.utils.net.common import ActorCritic, BranchingNet, EnsembleLinear, Net
from tianshou.utils.net import continuous as K
from tianshou.utils.net import discrete as D

warnings.simplefilter("ignore")
OBS = (3,)
NA = 3
H = [4]


def net(out=0, **kw):
    return Net(OBS, out, hidden_sizes=H, **kw)


def adam(*ms, lr=1e-2):
    return torch.optim.Adam([p for m in ms for p in m.parameters()], lr=lr)


class NetC51(nn.Module):
    def __init__(self, atoms=5, noisy=False):
        super().__init__()
        if noisy:
            self.n = Net(OBS, NA, hidden_sizes=H, softmax=True, num_atoms=atoms, linear_layer=D.NoisyLinear)
        else:
            self.n = Net(OBS, NA, hidden_sizes=H, softmax=True, num_atoms=atoms)

    def forward(self, obs, state=None, info={}):
        return self.n(obs, state)


def box():
    return gym.spaces.Box(np.array([-1.0, -1.0], dtype=np.float32), np.array([1.0, 1.0], dtype=np.float32), dtype=np.float32)


def disc():
    return gym.spaces.Discrete(NA)


def normal(loc_scale):
    loc, scale = loc_scale
    return torch.distributions.Independent(torch.distributions.Normal(loc, scale), 1)


def cat(logits):
    return torch.distributions.Categorical(logits=logits)


def qcritic(out_model=True):
    return K.Critic(Net(OBS, (2,), hidden_sizes=H, concat=True))


def pg_nets(cont):
    if cont:
        actor = K.ActorProb(net(), (2,), unbounded=True)
        critic = K.Critic(net())
    else:
        actor = D.Actor(net(), NA, softmax_output=False)
        critic = D.Critic(net())
    return actor, critic


def build(name, seed=0, **o):
    """name may end with ':c' for the continuous version of on-policy algorithms."""
    torch.manual_seed(seed)
    base, _, v = name.partition(":")
    cont = v == "c"
    f = globals()["mk_" + base]
    pol = f(cont, **o) if base in ONPOLICY else f(**o)
    return pol


ONPOLICY = ("pg", "a2c", "ppo", "npg", "trpo", "gail")


def mk_dqn(**o):
    m = net(NA)
    return P.DQNPolicy(model=m, optim=adam(m), action_space=disc(), **o)


def mk_bdq(**o):
    m = BranchingNet(OBS, 2, 3, [4], [4], [4])
    return P.BranchingDQNPolicy(model=m, optim=adam(m), action_space=gym.spaces.MultiDiscrete([3, 3]), **o)


def mk_c51(**o):
    m = NetC51()
    return P.C51Policy(model=m, optim=adam(m), action_space=disc(), num_atoms=5, v_min=-2.0, v_max=2.0, **o)


def mk_rainbow(**o):
    m = NetC51(noisy=True)
    return P.RainbowPolicy(model=m, optim=adam(m), action_space=disc(), num_atoms=5, v_min=-2.0, v_max=2.0, **o)


def mk_qrdqn(**o):
    m = Net(OBS, NA, hidden_sizes=H, num_atoms=4)
    return P.QRDQNPolicy(model=m, optim=adam(m), action_space=disc(), num_quantiles=4, **o)


def mk_iqn(**o):
    m = D.ImplicitQuantileNetwork(net(), NA, num_cosines=4, preprocess_net_output_dim=4)
    return P.IQNPolicy(model=m, optim=adam(m), action_space=disc(), sample_size=4, online_sample_size=3, target_sample_size=3, **o)


def mk_fqf(**o):
    m = D.FullQuantileFunction(net(), NA, num_cosines=4, preprocess_net_output_dim=4)
    fm = D.FractionProposalNetwork(4, 4)
    return P.FQFPolicy(model=m, optim=adam(m), fraction_model=fm, fraction_optim=torch.optim.RMSprop(fm.parameters(), lr=1e-3), action_space=disc(), num_fractions=4, **o)


def mk_dcql(**o):
    m = Net(OBS, NA, hidden_sizes=H, num_atoms=4)
    return P.DiscreteCQLPolicy(model=m, optim=adam(m), action_space=disc(), num_quantiles=4, **{"min_q_weight": 1.0, **o})


def mk_dbcq(**o):
    m, i = D.Actor(net(), NA, softmax_output=False), D.Actor(net(), NA, softmax_output=False)
    return P.DiscreteBCQPolicy(model=m, imitator=i, optim=adam(m, i), action_space=disc(), **{"target_update_freq": 8, **o})


def mk_dcrr(**o):
    a, c = D.Actor(net(), NA, softmax_output=False), D.Critic(net(), last_size=NA)
    return P.DiscreteCRRPolicy(actor=a, critic=c, optim=adam(a, c), action_space=disc(), **o)


def mk_pg(cont, **o):
    a, _ = pg_nets(cont)
    return P.PGPolicy(actor=a, optim=adam(a), dist_fn=normal if cont else cat, action_space=box() if cont else disc(), action_scaling=cont, **o)


def _ac(cls, cont, **o):
    a, c = pg_nets(cont)
    opt = adam(c) if cls in (P.NPGPolicy, P.TRPOPolicy) else adam(ActorCritic(a, c))
    return cls(actor=a, critic=c, optim=opt, dist_fn=normal if cont else cat, action_space=box() if cont else disc(), action_scaling=cont, **o)


def mk_a2c(cont, **o):
    return _ac(P.A2CPolicy, cont, **o)


def mk_ppo(cont, **o):
    return _ac(P.PPOPolicy, cont, **o)


def mk_npg(cont, **o):
    return _ac(P.NPGPolicy, cont, **o)


def mk_trpo(cont, **o):
    return _ac(P.TRPOPolicy, cont, **o)


def mk_gail(cont, **o):
    a, c = pg_nets(True)
    d = K.Critic(Net((5,), hidden_sizes=H))
    eb = fill(ReplayBuffer(12), "gail", 9, seed=5)
    return P.GAILPolicy(actor=a, critic=c, optim=adam(ActorCritic(a, c)), dist_fn=normal, action_space=box(), expert_buffer=eb, disc_net=d, disc_optim=adam(d), **{"disc_update_num": 2, **o})


def mk_ddpg(**o):
    a = K.Actor(net(), (2,))
    c = qcritic()
    return P.DDPGPolicy(actor=a, actor_optim=adam(a), critic=c, critic_optim=adam(c), action_space=box(), **o)


def _twin(cls, a, **o):
    c1, c2 = qcritic(), qcritic()
    return cls(actor=a, actor_optim=adam(a), critic=c1, critic_optim=adam(c1), critic2=c2, critic2_optim=adam(c2), action_space=box(), **o)


def mk_td3(**o):
    return _twin(P.TD3Policy, K.Actor(net(), (2,)), **o)


def mk_td3bc(**o):
    return _twin(P.TD3BCPolicy, K.Actor(net(), (2,)), **o)


def _alpha(o):
    if o.get("alpha") == "auto":
        la = torch.zeros(1, requires_grad=True)
        o["alpha"] = (-2.0, la, torch.optim.Adam([la], lr=1e-2))
    return o


def mk_sac(**o):
    return _twin(P.SACPolicy, K.ActorProb(net(), (2,), unbounded=True, conditioned_sigma=True), **_alpha(o))


def mk_cql(**o):
    return _twin(P.CQLPolicy, K.ActorProb(net(), (2,), unbounded=True, conditioned_sigma=True), **{"num_repeat_actions": 2, "calibrated": False, **_alpha(o)})


def mk_redq(**o):
    n = 3
    lin = lambda x, y: EnsembleLinear(n, x, y)
    c = K.Critic(Net(OBS, (2,), hidden_sizes=H, concat=True, linear_layer=lin), linear_layer=lin, flatten_input=False)
    a = K.ActorProb(net(), (2,), unbounded=True, conditioned_sigma=True)
    return P.REDQPolicy(actor=a, actor_optim=adam(a), critic=c, critic_optim=adam(c), action_space=box(), ensemble_size=n, **{"actor_delay": 2, **_alpha(o)})


def mk_dsac(**o):
    a = D.Actor(net(), NA, softmax_output=False)
    c1, c2 = D.Critic(net(), last_size=NA), D.Critic(net(), last_size=NA)
    return P.DiscreteSACPolicy(actor=a, actor_optim=adam(a), critic=c1, critic_optim=adam(c1), critic2=c2, critic2_optim=adam(c2), action_space=disc(), **_alpha(o))


def mk_bcq(**o):
    from tianshou.utils.net.common import MLP
    pert = K.Perturbation(MLP(5, 2, H), max_action=1.0, phi=0.05)
    c1, c2 = qcritic(), qcritic()
    vae = K.VAE(encoder=MLP(5, hidden_sizes=H), decoder=MLP(3 + 2, 2, H), hidden_dim=4, latent_dim=2, max_action=1.0)
    return P.BCQPolicy(actor_perturbation=pert, actor_perturbation_optim=adam(pert), critic=c1, critic_optim=adam(c1), critic2=c2, critic2_optim=adam(c2), vae=vae, vae_optim=adam(vae), action_space=box(),
                       **{"forward_sampled_times": 3, "num_sampled_action": 2, **o})


def mk_il(**o):
    a = D.Actor(net(), NA, softmax_output=False)
    return P.ImitationPolicy(actor=a, optim=adam(a), action_space=disc(), **o)


def mk_ilc(**o):
    a = K.Actor(net(), (2,))
    return P.ImitationPolicy(actor=a, optim=adam(a), action_space=box(), **o)


def mk_icm(**o):
    from tianshou.utils.net.common import MLP
    inner = mk_dqn(**o)
    icm = D.IntrinsicCuriosityModule(MLP(3, 4, H), 4, NA, hidden_sizes=H)
    return P.ICMPolicy(policy=inner, model=icm, optim=adam(icm), lr_scale=1.0, reward_scale=0.01, forward_loss_weight=0.2, action_space=disc())


def mk_psrl(**o):
    return P.PSRLPolicy(**{"trans_count_prior": np.ones((3, 2, 3)) * 0.5, "rew_mean_prior": np.zeros((3, 2)), "rew_std_prior": np.ones((3, 2)), "action_space": gym.spaces.Discrete(2), "discount_factor": 0.9, **o})


VALUE = ["dqn", "bdq", "c51", "rainbow", "qrdqn", "iqn", "fqf", "dcql", "dbcq", "icm"]
ACTORCRITIC = ["ddpg", "td3", "td3bc", "sac", "cql", "redq", "dsac", "bcq"]
ONP = ["pg", "pg:c", "a2c", "a2c:c", "ppo", "ppo:c", "npg", "npg:c", "trpo", "trpo:c", "gail:c"]
OTHER = ["dcrr", "il", "ilc"]
ALL = VALUE + ACTORCRITIC + ONP + OTHER
CONT = {"ddpg", "td3", "td3bc", "sac", "cql", "redq", "bcq", "ilc"}


def act_of(name, rng):
    base, _, v = name.partition(":")
    if v == "c" or base in CONT or base == "gail":
        return rng.uniform(-1, 1, 2).astype(np.float32)
    if base == "bdq":
        return rng.integers(0, 3, 2)
    return int(rng.integers(0, NA))


def fill(buf, name, n, seed=0, dones=(3, 6), scale=1.0):
    rng = np.random.default_rng(seed)
    o = rng.normal(size=3).astype(np.float32)
    for k in range(n):
        o2 = rng.normal(size=3).astype(np.float32)
        te = (k + 1) in dones
        b = Batch(obs=o, act=act_of(name, rng), rew=float(np.round(rng.normal() * scale, 3)), terminated=te, truncated=False, obs_next=o2, info=Batch())
        if name == "cql":
            b.calibration_returns = 0.0
        buf.add(b)
        o = rng.normal(size=3).astype(np.float32) if te else o2
    return buf


def params(pol):
    return {k: v.detach().clone() for k, v in pol.state_dict().items()}


def do_update(pol, name, buf, bs=4, repeat=1):
    from tianshou.utils.torch_utils import policy_within_training_step
    with policy_within_training_step(pol):
        if name.split(":")[0] in ONPOLICY:
            return pol.update(0, buf, batch_size=bs, repeat=repeat)
        return pol.update(bs, buf)
