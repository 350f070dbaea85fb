"""C25: target networks and delayed updates over all short histories, for every algorithm with targets."""
import copy
import itertools

import numpy as np
import torch

from mc import pols
from tianshou.data import Batch, ReplayBuffer
from tianshou.utils.net.discrete import NoisyLinear

PROPERTY = "C25"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive histories of update / train / eval / load on every real algorithm with target networks (tiny networks); after every operation all parameters of the target networks, their mode and the current networks are compared with a reference model of the schedule"
NOTE = "The number of an update is counted per policy object from 0 and is not part of the saved state. In value-based algorithms the targets of an update are computed before the replacement."
ASSUMPTIONS = ["network buffers (e.g. batch-norm statistics) of softly updated targets are not judged"]

VAL = ["dqn", "bdq", "c51", "rainbow", "qrdqn", "iqn", "fqf", "dcql", "dbcq", "icm"]
AC = {"ddpg": [("actor", "actor_old"), ("critic", "critic_old")], "td3": [("actor", "actor_old"), ("critic", "critic_old"), ("critic2", "critic2_old")], "td3bc": [("actor", "actor_old"), ("critic", "critic_old"), ("critic2", "critic2_old")],
      "sac": [("critic", "critic_old"), ("critic2", "critic2_old")], "cql": [("critic", "critic_old"), ("critic2", "critic2_old")], "dsac": [("critic", "critic_old"), ("critic2", "critic2_old")], "redq": [("critic", "critic_old")],
      "bcq": [("critic", "critic_target"), ("critic2", "critic2_target"), ("actor_perturbation", "actor_perturbation_target")]}


def BOUNDS(tier):
    q = tier == "quick"
    return (f"{len(VAL)} value-based algorithms x frequencies 1-{3 if q else 4} (and none), DiscreteCRR, {len(AC)} actor-critic algorithms x fractions 1, 0.5, 0.005 x delays 1-3: every history of {3 if q else 5} operations update/train/eval/load, followed by 4 updates")


def jobs(tier):
    n = 3 if tier == "quick" else 5
    js = [["val", p, f, n] for p in VAL for f in ((0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4)) if not (p == "dbcq" and f == 0)]
    js += [["crr", "dcrr", f, n] for f in (0, 1, 2, 3)]
    for p in AC:
        for tau in (1.0, 0.5, 0.005):
            for d in (1, 2, 3) if p in ("td3", "td3bc", "redq") else (1,):
                js.append(["ac", p, (tau, d), n])
    return js


def same(a, b, tol=0.0):
    return all(torch.equal(x, y) if tol == 0 else torch.allclose(x, y, atol=tol, rtol=0) for x, y in zip(a, b, strict=True))


def state(m):
    return [v.detach().clone() for v in m.state_dict().values()]


def par(m):
    return [v.detach().clone() for v in m.parameters()]


def run(job, st):
    kind, name, arg, n = job
    kw = {}
    pairs = [("model", "model_old")]
    if kind in ("val", "crr"):
        kw["target_update_freq"] = arg
        if kind == "crr":
            pairs = [("actor", "actor_old"), ("critic", "critic_old")]
    else:
        tau, delay = arg
        kw["tau"] = tau
        if name in ("td3", "td3bc"):
            kw["update_actor_freq"] = delay
        if name == "redq":
            kw["actor_delay"] = delay
        pairs = AC[name]
    buf = pols.fill(ReplayBuffer(16), name, 8)
    for seq in itertools.product("UTEL", repeat=n):
        ops = "".join(seq) + "UUUU"
        np.random.seed(0)
        pol = pols.build(name, **kw)
        torch.manual_seed(1)
        inner = pol.policy if name == "icm" else pol
        st.ctx = {"algorithm": name, **kw, "operations": ops}
        T = {t: state(getattr(inner, t)) for _, t in pairs if hasattr(inner, t)}
        has = bool(T) and (kind == "ac" or arg > 0)
        if kind != "ac" and arg == 0:
            if kind == "val":
                st.check(not hasattr(inner, "model_old"), "no-target", f"{name} has a target network although none is configured")
            if n > 2 and seq.count("U") < 2:
                continue
        if has:
            for c, t in pairs:
                cm, tm = getattr(inner, c), getattr(inner, t)
                st.check(same(state(cm), state(tm)), "initial-copy", f"{name}: {t} does not start as a copy of {c}")
                ids = {p.data_ptr() for p in cm.parameters()}
                st.check(all(p.data_ptr() not in ids for p in tm.parameters()), "initial-alias", f"{name}: {t} shares parameters with {c}")
        saved = copy.deepcopy(pol.state_dict())
        k = 0
        for i, o in enumerate(ops):
            before = {c: state(getattr(inner, c)) for c, _ in pairs}
            actor_before = par(pol.actor) if hasattr(pol, "actor") else None
            if o == "U":
                pols.do_update(pol, name, buf)
            elif o == "T":
                pol.train()
            elif o == "E":
                pol.eval()
            else:
                pol.load_state_dict(copy.deepcopy(saved))
            st.step()
            where = f"{name} {kw}: operation {i} ({o}) of {ops}"
            if o == "U":
                if has and kind != "ac" and k % arg == 0:
                    for c, t in pairs:
                        T[t] = before[c]
                elif has and kind == "ac" and (name not in ("td3", "td3bc") or k % delay == 0):
                    for c, t in pairs:
                        tm = getattr(inner, t)
                        keys = [x for x, _ in tm.named_parameters()]
                        cur = dict(getattr(inner, c).named_parameters())
                        old = dict(zip(tm.state_dict().keys(), T[t], strict=True))
                        for key in keys:
                            old[key] = (1 - tau) * old[key] + tau * cur[key].detach()
                        T[t] = [old[x] for x in tm.state_dict()]
                k += 1
                for c, _ in pairs:
                    if c in ("critic", "critic2", "model"):
                        st.check(not same(before[c], state(getattr(inner, c))), "no-step", f"{where}: {c} was not changed by the update")
                if actor_before is not None and name in ("td3", "td3bc", "redq"):
                    due = (k - 1) % delay == 0 if name != "redq" else k % delay == 0
                    st.check((not same(actor_before, par(pol.actor))) == due, "delay", f"{where}: actor {'not ' if due else ''}updated in update {k - 1} with delay {delay}")
            elif o == "L":
                for key in T:
                    m = getattr(inner, key)
                    pre = [a for a, b in pol.named_modules() if b is m][0]
                    T[key] = [saved[f"{pre}.{x}"] for x in m.state_dict()]
            if i == 1 and o == "U":
                saved = copy.deepcopy(pol.state_dict())
            if has:
                for c, t in pairs:
                    tm = getattr(inner, t)
                    got = state(tm)
                    exp = T[t]
                    if name == "rainbow":      # the noise itself is re-drawn, only parameters are scheduled
                        keys = list(tm.state_dict())
                        sel = [j for j, x in enumerate(keys) if "eps" not in x]
                        got, exp = [got[j] for j in sel], [exp[j] for j in sel]
                    st.check(same(got, exp, 0.0 if kind != "ac" else 2e-7), "target", lambda: f"{where}: {t} is not what the schedule gives (largest difference {max(float((a - b).abs().max()) for a, b in zip(got, exp, strict=True))})")
                    T[t] = state(tm)
                    st.check(name == "rainbow" or not any(m.training for m in tm.modules()), "target-mode", f"{where}: {t} is in training mode")
                    st.check(all(p.grad is None or not p.grad.abs().sum() for p in tm.parameters()), "target-grad", f"{where}: {t} received gradients")
            if o in "TE":
                for c, _ in pairs:
                    st.check(getattr(inner, c).training == (o == "T"), "mode", f"{where}: {c}.training = {getattr(inner, c).training}")
        st.trace(st.ctx)
        st.state((name, repr(arg), ops))
