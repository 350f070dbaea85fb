"""C31: categorical value-distribution targets conserve probability and mean."""
import itertools

import gymnasium as gym
import numpy as np
import torch
from torch import nn

from mc import pols  # noqa: F401  (registers nothing; keeps torch single-threaded)
from tianshou.data import Batch, ReplayBuffer
from tianshou.policy import C51Policy, RainbowPolicy
from tianshou.utils.torch_utils import policy_within_training_step

PROPERTY = "C31"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive grids of next-state distributions x rewards x endings x supports through the real update() on a network whose outputs are a table, so that the projected target of every row is read off the gradient; oracle: floor/ceil mass splitting per atom over the n-step reward of the list model"
NOTE = "With p = a free table entry, d(cross entropy)/dp = -target/(p+1e-8): the whole target distribution is observed through the public update, not through a private method."
ASSUMPTIONS = ["no action masks in next states", "agreement to 1e-4 (float32)"]
SUPPORTS = ((-1.0, 1.0), (0.0, 3.0), (-10.0, 10.0), (-0.5, 0.25))
REW = (-12.0, -0.8, 0.0, 0.35, 1.0, 20.0)


def BOUNDS(tier):
    q = tier == "quick"
    return (f"{'2-4' if q else '2-6 and 51'} atoms x 4 supports x all next-state distributions with denominator {2 if q else 4} for each of two actions (online) and the target network x 6 rewards inside and outside the support x continue/terminate/truncate x discount 1, 0.9, 0 x 1-3 steps x with/without target network x C51/Rainbow; "
            "values and greedy actions for all pairs of distributions and all masks")


def jobs(tier):
    q = tier == "quick"
    js = [[a, n, s, d] for a in ("c51", "rainbow") for n in ((2, 3, 4) if q else (2, 3, 4, 5, 6, 51)) for s in range(4) for d in (2 if q else 4,)]
    return js + [["value", n, 3 if q else 4] for n in ((2, 3, 4) if q else (2, 3, 4, 5))]


def simplex(n, d):
    if n > 6:      # a few shapes only
        out = [np.eye(n)[0], np.eye(n)[n // 2], np.ones(n) / n, np.linspace(1, 3, n) / np.linspace(1, 3, n).sum(), np.eye(n)[-1]]
        return [np.asarray(x) for x in out]
    return [np.diff([-1, *c, n + d - 1]).astype(float) - 1 for c in itertools.combinations(range(n + d - 1), n - 1)]


def dists(n, d):
    return [x / x.sum() for x in simplex(n, d)]


class Table(nn.Module):
    """The network: row `obs` of a free table."""

    def __init__(self, t):
        super().__init__()
        self.t = nn.Parameter(torch.as_tensor(t, dtype=torch.float32))

    def forward(self, obs, state=None, info=None):
        obs = obs.obs if hasattr(obs, "obs") else obs
        return self.t[torch.as_tensor(np.asarray(obs), dtype=torch.long).reshape(-1)], state


def project(p, z, zs):
    """Mass of every (shifted, clamped) atom to its two neighbours in proportion to distance."""
    out = np.zeros(len(z))
    dz = (z[-1] - z[0]) / (len(z) - 1)
    for m, x in zip(p, zs, strict=True):
        b = (min(max(x, z[0]), z[-1]) - z[0]) / dz
        lo = min(int(np.floor(b + 1e-9)), len(z) - 1)
        hi = min(lo + 1, len(z) - 1)
        f = min(max(b - lo, 0.0), 1.0)
        out[lo] += m * (1 - f)
        out[hi] += m * f
    return out


def build(kind, table, sup, n, gamma, steps, freq):
    m = Table(table)
    o = torch.optim.SGD(m.parameters(), lr=0.0)
    cls = C51Policy if kind == "c51" else RainbowPolicy
    return m, cls(model=m, optim=o, action_space=gym.spaces.Discrete(2), discount_factor=gamma, num_atoms=n, v_min=sup[0], v_max=sup[1], estimation_step=steps, target_update_freq=freq)


def explore(kind, n, si, d, st):
    sup = SUPPORTS[si]
    z = np.linspace(*sup, n)
    ds = dists(n, d)
    base = 0.9 * np.eye(n)[0] + 0.1 / n
    rng = np.random.default_rng(n)
    for gamma, steps, freq in itertools.product((1.0, 0.9, 0.0), (1, 2, 3), (0, 3)):
        if steps > 1 and gamma == 0.0:
            continue
        combos = list(itertools.product(range(len(ds)), range(len(ds)), REW[::1 if steps == 1 else 2], range(3)))
        combos = combos[:: 1 if len(combos) < 6000 else len(combos) // 6000 + 1]
        for part in range(0, len(combos), 3000):
            rows = combos[part:part + 3000]
            k = len(rows)
            # observation j < k: current states; k + j: the state after row j
            tab = np.zeros((2 * k, 2, n))
            tab[:k] = base
            old = tab.copy()
            for j, (a, b, _, _) in enumerate(rows):
                tab[k + j] = ds[a], ds[b]
                perm = rng.permutation(2)
                old[k + j] = np.stack([ds[b][::-1], ds[a]])[perm]
            m, pol = build(kind, old if freq else tab, sup, n, gamma, steps, freq)
            buf = ReplayBuffer(k + 1)
            for j, (_, _, r, e) in enumerate(rows):
                buf.add(Batch(obs=np.array([j]), act=j % 2, rew=r, terminated=e == 1, truncated=e == 2, obs_next=np.array([k + j]), info={}))
            idx = np.arange(k)
            buf.sample_indices = lambda size: idx

            def step():
                with policy_within_training_step(pol):
                    s = pol.update(k, buf)
                return m.t.grad.detach().numpy().astype(np.float64).copy(), s.loss
            if freq:
                step()                  # synchronises the target network with `old`
                with torch.no_grad():
                    m.t.copy_(torch.as_tensor(tab))
            g, loss = step()
            target_t = old if freq else tab
            p_now = tab[np.arange(k), [j % 2 for j in range(k)]]
            got = -g[np.arange(k), [j % 2 for j in range(k)]] * k * (p_now + 1e-8)
            ce = 0.0
            for j in range(k):
                R, disc, last = 0.0, 1.0, j
                for t in range(steps):
                    last = j + t
                    R += disc * rows[last][2]
                    disc *= gamma
                    if rows[last][3] or last == k - 1:
                        break
                cont = 0.0 if rows[last][3] == 1 else disc if last - j == steps - 1 or rows[last][3] == 2 or last == k - 1 else disc
                q = tab[k + last] @ z
                acts = [i for i in (0, 1) if q[i] >= q.max() - 1e-4]
                wants = [project(target_t[k + last][i], z, R + cont * z) for i in acts]
                st.ctx = {"algorithm": kind, "support": (*sup, n), "gamma": gamma, "steps": steps, "target_network": bool(freq), "reward": R, "continues_with": cont, "online": tab[k + last].tolist(), "target": target_t[k + last].tolist()}
                x = got[j]
                ok = [np.abs(x - w).max() < 2e-4 for w in wants]
                st.check(x.min() > -1e-5 and abs(x.sum() - 1) < 1e-3, "not-a-distribution", lambda: f"target {x.round(4)} sums to {x.sum():.4f}")
                st.check(any(ok), "projection", lambda: f"target {x.round(4)}, expected {wants[0].round(4)}")
                w = wants[ok.index(True)]
                st.check(abs(x @ z - np.clip(R + cont * z, *sup) @ target_t[k + last][acts[ok.index(True)]]) < 2e-3 * (1 + abs(z).max()), "mean", "the mean of the target is not the mean of the shifted, clamped distribution")
                ce += -(w * np.log(p_now[j] + 1e-8)).sum() / k
            st.check(abs(ce - loss) < 1e-3 * (1 + abs(ce)), "loss", f"loss {loss}, mean cross entropy {ce}")
            st.step(k)
            st.state((kind, n, si, gamma, steps, freq, part))
            st.trace({**st.ctx, "rows": k})


def value(n, d, st):
    ds = dists(n, d)
    for sup in SUPPORTS:
        z = np.linspace(*sup, n)
        pairs = list(itertools.product(range(len(ds)), repeat=2))
        tab = np.array([[ds[a], ds[b]] for a, b in pairs])
        for kind in ("c51", "rainbow"):
            m, pol = build(kind, tab, sup, n, 0.9, 1, 0)
            q = tab @ z
            for mask in (None, (1, 1), (1, 0), (0, 1)):
                obs = np.arange(len(pairs))[:, None]
                b = Batch(obs=obs, info=Batch()) if mask is None else Batch(obs=Batch(obs=obs, mask=np.tile(np.array(mask, dtype=bool), (len(pairs), 1))), info=Batch())
                with torch.no_grad():
                    r = pol(b)
                    v = pol.compute_q_value(r.logits, None).numpy()
                st.check(np.allclose(v, q, atol=1e-4 * (1 + abs(z).max())), "value", "the value of an action is not the mean of its distribution")
                qq = q if mask is None else np.where(np.array(mask, dtype=bool), q, -np.inf)
                for i, a in enumerate(r.act):
                    st.ctx = {"algorithm": kind, "support": (*sup, n), "distributions": tab[i].tolist(), "mask": mask}
                    st.check(qq[i][a] >= qq[i].max() - 1e-4, "greedy", lambda: f"action {a} with values {q[i]}")
                st.step(len(pairs))
                st.state((kind, sup, mask))
            st.trace(st.ctx)


def run(job, st):
    value(*job[1:], st) if job[0] == "value" else explore(*job, st)
