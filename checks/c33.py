"""C33: PettingZooEnv over scripted turn-based games, all action sequences and scripts."""
import copy
import itertools

import gymnasium as gym
import numpy as np

from mc.games import Game
from tianshou.env import PettingZooEnv

PROPERTY = "C33"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive operation sequences (reset, seeded reset, every action) on the real wrapper over every small scripted game; each answer is compared with the script, and all earlier answers are compared with copies taken when they were returned"
NOTE = "A script fixes turn order, rewards, masks, length, kind of ending and players leaving. The rewards reported for players that have left the game are 0."
ASSUMPTIONS = ["the game hands out fresh observation and info objects and, as in the AEC interface, keeps its rewards in a dictionary of the players still in the game"]


def BOUNDS(tier):
    q = tier == "quick"
    return f"1-3 players, all turn orders of period {2 if q else 3} (and round robin; a selection of them for 3 players in quick), {len(rews(2))} reward scripts, games of 1-{3 if q else 4} steps x term/trunc/both x observation forms x players leaving; all sequences of {4 if q else 5} operations out of reset, seeded reset and every action"


def rews(n):
    return [[[10 * t + p + 1 for p in range(n)] for t in range(4)], [[0.0] * n, [(-1.0) ** p for p in range(n)]], [[0.5 if p == t % n else 0 for p in range(n)] for t in range(n)]]


def jobs(tier):
    q = tier == "quick"
    js = []
    for n in (1, 2, 3):
        per = 2 if q else 3
        orders = [o for o in itertools.product(range(n), repeat=per)] + [tuple(range(n))]
        if q and n == 3:
            orders = [(0, 1, 2), (2, 0), (1, 1), (1, 2)]
        for o in sorted(set(orders)):
            js += [[n, list(o), ln, 4 if q else 5] for ln in range(1, 4 if q else 5)]
    return js


def run(job, st):
    n, order, length, depth = job
    for ri, rew in enumerate(rews(n)):
        for end in ("term", "trunc", "both"):
            for form in ("mask", "plain", "box"):
                for leave in ((),) + (tuple(((t, p),) for t in range(length - 1) for p in range(n) if p not in order) if n == 3 else ()):
                    if (ri or form != "mask") and end != "term" or ri and form == "box":
                        continue
                    g = dict(n=n, order=order, rew=rew, length=length, end=end, leave=leave, form=form)
                    seqs(g, depth, st)


def seqs(g, depth, st):
    acts = [np.array([0.5, -1.0], dtype=np.float32)] if g["form"] == "box" else [0, 1, 2][: 3 if depth <= 4 and g["length"] <= 2 else 2]
    ops = ["R", "S", *range(len(acts))]

    def rec(prefix, t):
        if len(prefix) == depth:
            play(g, prefix, acts, st)
            return
        for o in ops:
            if o in ("R", "S"):
                if len(prefix) < depth - 1:
                    rec([*prefix, o], 0)
            elif t < g["length"]:
                rec([*prefix, o], t + 1)
        if t >= g["length"] and len(prefix) == depth - 1:
            play(g, prefix, acts, st)
    rec([], 0)


def play(g, ops, acts, st):
    game = Game(**g)
    env = PettingZooEnv(game)
    st.ctx = {"game": {k: v for k, v in g.items()}, "operations": ["construct", *ops]}
    n = g["n"]
    st.check(list(env.agents) == game.possible_agents and env.agent_idx == {f"p{i}": i for i in range(n)}, "players", f"agents {env.agents}, {env.agent_idx}")
    ref = Game(**g)
    ref.reset()
    given = []
    over = False
    game.calls.clear()
    for k, o in enumerate(ops):
        if o in ("R", "S"):
            kw = {} if o == "R" else {"seed": (7, 0)[k % 2], "options": {"a": 1}}
            ret = env.reset(**kw)
            ref.reset()
            want_calls = [("reset", kw.get("seed"), kw.get("options"))]
            st.check(isinstance(ret, tuple) and len(ret) == 2, "reset-form", f"reset returned {ret!r}")
            obs, info = ret
            over = False
        else:
            a = acts[o]
            ret = env.step(a)
            who = ref.agent_selection
            ref.step(a)
            want_calls = [("step", who, a)]
            st.check(isinstance(ret, tuple) and len(ret) == 5, "step-form", f"step returned {ret!r}")
            obs, rew, term, trunc, info = ret
            want = [ref.rewards.get(f"p{i}", 0) for i in range(n)]
            st.check(list(rew) == want, "rewards", lambda: f"rewards {rew} after operation {k}, script says {want}")
            nxt = ref.agent_selection
            st.check(bool(term) == ref.terminations[nxt] and bool(trunc) == ref.truncations[nxt], "flags", lambda: f"flags {term, trunc}, script says {ref.terminations[nxt], ref.truncations[nxt]}")
            over = bool(term or trunc)
        nxt = ref.agent_selection
        st.check(len(game.calls) == 1 and game.calls[0][:2] == want_calls[0][:2] and all(np.array_equal(x, y) for x, y in zip(game.calls[0][2:], want_calls[0][2:])), "forwarded", lambda: f"the game got {game.calls}, expected {want_calls}")
        game.calls.clear()
        st.check(obs["agent_id"] == nxt, "turn", lambda: f"agent_id {obs['agent_id']}, the turn is {nxt}'s")
        st.check(np.array_equal(obs["obs"], ref.obs_of(ref.episode, ref.t, nxt)), "observation", lambda: f"observation {obs['obs']}, {nxt} sees {ref.obs_of(ref.episode, ref.t, nxt)}")
        if g["form"] == "box":
            st.check("mask" not in obs, "mask", "mask for a continuous action space")
        else:
            wm = ref.mask_of(ref.episode, ref.t) if g["form"] == "mask" else [True] * 3
            st.check([bool(x) for x in obs["mask"]] == wm and np.array(obs["mask"]).dtype == bool, "mask", lambda: f"mask {obs['mask']}, expected {wm}")
        st.check(info == {"ep": ref.episode, "t": ref.t, "who": nxt}, "info", f"info {info}")
        given.append((ret, copy.deepcopy(ret)))
        st.step()
    for s in (0, 5):
        env.seed(s)
        st.check(game.calls[-1][:2] == ("reset", s), "seed", lambda: f"seed({s}) reached the game as {game.calls}")
    for i, (r, c) in enumerate(given):
        st.check(same(r, c), "earlier-changed", lambda: f"what operation {i} returned ({c}) has become {r}")
    st.traces += 1
    st.state((repr(g), tuple(ops)))
    if not st.samples:
        st.samples.append(st.ctx)
    return over


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return np.array_equal(a, b)
