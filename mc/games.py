"""Small scripted turn-based games (pettingzoo AEC) whose every answer is known to the checker."""
import gymnasium as gym
import numpy as np
from pettingzoo import AECEnv


class Game(AECEnv):
    """order: player index whose turn it is at turn t (cyclic); rew[t][p]: reward of p for step t; length: number of
    steps of a game; end: which flag ends it; leave: (t, player) players removed from the game after step t;
    form: 'mask' (observation dict with a mask), 'plain' (array), 'box' (array observations and continuous actions)."""
    metadata = {"name": "scripted"}

    def __init__(self, n, order, rew, length, end="term", leave=(), form="mask", na=3, gid=0):
        super().__init__()
        self.n, self.order, self.rew, self.length, self.end, self.leave, self.form, self.na, self.gid = n, order, rew, length, end, leave, form, na, gid
        self.possible_agents = [f"p{i}" for i in range(n)]
        self.episode = -1
        self.calls = []
        self.live = False

    def observation_space(self, agent):
        b = gym.spaces.Box(-np.inf, np.inf, (3,), dtype=np.float32)
        if self.form == "mask":
            return gym.spaces.Dict({"observation": b, "action_mask": gym.spaces.Box(0, 1, (self.na,), dtype=np.int8)})
        return b

    def action_space(self, agent):
        return gym.spaces.Box(-1, 1, (2,)) if self.form == "box" else gym.spaces.Discrete(self.na)

    def who(self, t=None):
        return f"p{self.order[(self.t if t is None else t) % len(self.order)]}"

    def obs_of(self, ep, t, agent):
        return np.array([100 * self.gid + ep, t, int(agent[1:])], dtype=np.float32)

    def mask_of(self, ep, t):
        return [(t + a + ep + self.gid) % 3 != 0 or a == t % self.na for a in range(self.na)]

    def observe(self, agent):
        o = self.obs_of(self.episode, self.t, agent)
        if self.form == "mask":
            return {"observation": o, "action_mask": np.array(self.mask_of(self.episode, self.t), dtype=np.int8)}
        return o

    def reset(self, seed=None, options=None):
        self.calls.append(("reset", seed, options))
        self.episode += 1
        self.t = 0
        self.agents = list(self.possible_agents)
        self.rewards = {a: 0 for a in self.agents}
        self._cumulative_rewards = {a: 0 for a in self.agents}
        self.terminations = {a: False for a in self.agents}
        self.truncations = {a: False for a in self.agents}
        self.infos = {a: {"ep": self.episode, "t": 0, "who": a} for a in self.agents}
        self.agent_selection = self.who()

    def step(self, action):
        self.calls.append(("step", self.agent_selection, action))
        t = self.t
        self.t += 1
        for lt, p in self.leave:
            if lt == t and f"p{p}" in self.agents:
                self.agents.remove(f"p{p}")
        self.rewards = {a: self.rew[t % len(self.rew)][int(a[1:])] for a in self.agents}
        over = self.t >= self.length
        both = self.end == "both"
        self.terminations = {a: over and (self.end == "term" or both) for a in self.agents}
        self.truncations = {a: over and (self.end == "trunc" or both) for a in self.agents}
        self._cumulative_rewards = {a: self.rewards[a] for a in self.agents}
        self.infos = {a: {"ep": self.episode, "t": self.t, "who": a} for a in self.agents}
        self.agent_selection = self.who()

    def close(self):
        self.calls.append(("close",))

    def render(self):
        return "frame"
