"""Writes /verif/properties.jsonl (the list is kept here so that it can be edited comfortably)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": ["tianshou/" + f for f in files],
         "mechanism": [{"name": n, "where": "tianshou/" + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": "tianshou/" + w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

B = "data/buffer/"
prop("C01", "A replay buffer holds exactly the newest transitions, in order",
 "After any sequence of additions and resets, a replay buffer of capacity N contains exactly the last N transitions added since the last reset, and every field reads back the value it was given (in the data type of the field's first value). Requesting all stored data returns them from oldest to newest, and length, indexing by slot and field access agree with that. Adding never alters other stored transitions, and data the caller handed in or sampled can be changed afterwards without affecting the buffer.",
 ["histories", "inputs"], "All sequences of add/reset over all done-flag patterns, for every small capacity and several observation layouts (scalar, array, nested dict).",
 "Tests add a few fixed patterns to one or two capacities; wrap-around errors need a particular fill level, episode layout and reset history.",
 [B+"base.py", B+"manager.py", B+"vecbuf.py"], [("ring write", B+"base.py:ReplayBuffer.add"), ("chronological order", B+"base.py:ReplayBuffer.sample_indices"), ("item access", B+"base.py:ReplayBuffer.__getitem__"), ("reset", B+"base.py:ReplayBuffer.reset")],
 [("insertion cursor, size, last index", "where the next transition goes, how many are held, which is newest", B+"base.py")])
prop("C02", "Adding a transition reports its slot and its episode's return, length, start",
 "Every addition reports the storage slot the transition was written to; when it ends an episode it also reports that episode's total reward, its number of steps and the slot of its first step, and zeros (for return and length) otherwise. This holds per environment for vectorised and cached buffers, for any interleaving of environments, wrap-around, vector-valued rewards, and across resets that keep or drop episode statistics. Asking for the slots of an episode from its start to its end yields exactly its transitions in order as long as it fits into the storage.",
 ["histories", "inputs"], "All add/reset sequences up to the bound, all subsets of environments per addition, all done patterns, small capacities.",
 "The collector trusts these values for its episode statistics; tests check a handful of sequences, not every wrap-around/interleaving.",
 [B+"base.py", B+"manager.py", B+"cached.py"], [("episode accumulators", B+"base.py:ReplayBuffer._add_index"), ("per-environment routing", B+"manager.py:ReplayBufferManager.add"), ("cached routing", B+"cached.py:CachedReplayBuffer.add"), ("episode slots", B+"base.py:ReplayBuffer.get_buffer_indices")],
 [("episode return/length/start", "running statistics of the open episode", B+"base.py")])
prop("C03", "Stepping to the previous/next transition never leaves the episode",
 "For every stored transition, its successor is the transition added next to the same environment's storage if both belong to the same episode and it is still stored, and itself otherwise; the predecessor is defined symmetrically. The slots reported as ends of unfinished episodes are exactly the newest stored transitions of environments whose newest transition is not terminal. This holds in single, vectorised and cached buffers for every fill level.",
 ["histories", "inputs"], "All add/reset histories up to the bound over all done patterns; every stored slot and slot vectors.",
 "Frame stacks, n-step returns and episodic returns silently mix episodes when this fails; only fixed histories are tested.",
 [B+"base.py", B+"manager.py"], [("prev", B+"base.py:ReplayBuffer.prev"), ("next", B+"base.py:ReplayBuffer.next"), ("vectorised prev/next", B+"manager.py:_prev_index,_next_index"), ("unfinished", B+"base.py:ReplayBuffer.unfinished_index")])
prop("C04", "Stacked frames and reduced storage reproduce what full storage would give",
 "With frame stacking, the observation of a stored step is the observations of the last k steps of its own episode that are still stored, the earliest one repeated when fewer exist, oldest first. Storing only the newest frame or omitting next observations changes memory use only: observations read back are the same stack, and the next observation of a step is the observation of its successor in the same episode (its own observation if there is none). When restricted to full stacks, sampling offers exactly the steps that have k stored steps of their own episode.",
 ["histories", "configurations"], "All histories up to the bound x all combinations of stack depth, newest-frame-only, no-next-observation, sampling restriction, single and vectorised storage.",
 "Tests use one environment and a few configurations; the option product with wrap-around and episode layouts is not covered.",
 [B+"base.py", B+"manager.py"], [("stack lookup", B+"base.py:ReplayBuffer.get"), ("reduced storage", B+"base.py:ReplayBuffer.add"), ("restricted sampling", B+"base.py:ReplayBuffer.sample_indices")])
prop("C05", "Sampling returns stored transitions only, in the requested number",
 "Whatever the random source answers, sampling n > 0 transitions from a non-empty buffer returns exactly n slots, each holding a stored transition, together with exactly the data stored there, and every stored (eligible) transition can be drawn. Requesting zero returns every stored transition once, requesting an unspecified number returns a permutation of all, and an empty buffer yields none. In vectorised and cached buffers every stored transition has the same chance of being drawn.",
 ["histories", "inputs"], "All fill states up to the bound x all random answers of the index draw (enumerated, with their exact probabilities) x request sizes including 0 and unspecified.",
 "Sampling is random: tests see a few draws, and cannot tell an unreachable or doubly weighted slot from bad luck.",
 [B+"base.py", B+"manager.py", B+"cached.py"], [("index draw", B+"base.py:ReplayBuffer.sample_indices"), ("across sub-buffers", B+"manager.py:ReplayBufferManager.sample_indices"), ("data", B+"base.py:ReplayBuffer.sample")])
prop("C06", "A vectorised buffer behaves as independent per-environment buffers",
 "Storing transitions of several environments in a vectorised buffer is indistinguishable from keeping one separate buffer per environment at fixed consecutive slot ranges: contents, order, lengths, slots reported, episode statistics, neighbours and open episodes of one environment never depend on what was added for another. Any subset of environments, in any order, may be added to at a time.",
 ["histories", "inputs"], "All sequences of (environment subset, order, done flags) additions and resets up to the bound for several (total size, environment count) pairs, including sizes not divisible by the count.",
 "The existing tests add to a few id lists; cross-talk needs specific wrap-around positions of two environments.",
 [B+"manager.py", B+"vecbuf.py"], [("routing", B+"manager.py:ReplayBufferManager.add"), ("shared storage", B+"manager.py:_set_batch_for_children"), ("size rounding", B+"vecbuf.py:VectorReplayBuffer.__init__")])
prop("C07", "A cached buffer's main storage only ever holds whole finished episodes",
 "In a cached buffer the main storage contains only complete episodes (up to overwriting of the oldest), each contiguous and in order, appended in the order in which the episodes finished; unfinished episodes live only in their environment's cache, which is empty again once its episode ended. Additions report slots and episode statistics of the storage where the transition finally ended up.",
 ["histories"], "All sequences of additions over environment subsets and done flags up to the bound, for several main/cache sizes, episodes no longer than the cache.",
 "Needs interleavings of several environments finishing in the same and different steps at wrap-around.",
 [B+"cached.py", B+"manager.py"], [("flush on done", B+"cached.py:CachedReplayBuffer.add"), ("copy", B+"base.py:ReplayBuffer.update")])
prop("C08", "Merging, exporting, importing and reloading buffers loses or invents nothing",
 "Copying one buffer's content into another appends exactly its stored transitions in order, under the usual capacity rule, and reports the slots used. A buffer saved to disk (HDF5 or pickle) and loaded again, and a buffer built from data arrays, hold the same transitions, and every later operation on them gives the same results as on the original. The source of a copy is never changed.",
 ["histories", "inputs"], "All histories up to the bound before and after the copy/save/load for all pairs of small capacities and buffer kinds.",
 "Tests round-trip one state and do not continue using the reloaded object at every fill level.",
 [B+"base.py", B+"manager.py", "data/utils/converter.py"], [("merge", B+"base.py:ReplayBuffer.update"), ("HDF5", B+"base.py:save_hdf5,load_hdf5"), ("pickle", B+"base.py:__setstate__"), ("from arrays", B+"base.py:ReplayBuffer.from_data"), ("conversion", "data/utils/converter.py:to_hdf5,from_hdf5")])
prop("C09", "Prioritised sampling follows the stored priorities exactly",
 "In a prioritised buffer each stored transition is drawn with probability proportional to its priority raised to alpha, where a new transition gets the largest priority seen so far and an update replaces exactly the priorities of the given slots (absolute value plus a tiny constant). Sampled data carries importance weights proportional to (draw probability)^(-beta), scaled to a maximum of one within the returned batch if so configured, with beta as last set. This holds for single and vectorised prioritised buffers.",
 ["histories", "inputs"], "All sequences of additions, priority updates, samplings and beta changes up to the bound; all random scalars on a grid that separates every cumulative boundary.",
 "Random draws only sample the distribution; stale tree nodes, lost updates or a wrong boundary need a specific sequence and scalar.",
 [B+"prio.py", B+"vecbuf.py", "data/utils/segtree.py"], [("sum tree", "data/utils/segtree.py"), ("init/update weight", B+"prio.py:init_weight,update_weight"), ("importance weight", B+"prio.py:get_weight"), ("beta", B+"vecbuf.py:PrioritizedVectorReplayBuffer.set_beta")])
prop("C10", "The cumulative-sum tree agrees with plain arithmetic on its leaves",
 "After any sequence of scalar and vectorised assignments, every leaf of the sum tree reads back the last value assigned to it, every interval query equals the sum of the leaves in that interval, and looking up a cumulative value v returns the first leaf up to and including which the leaves sum to at least v. Queries change neither the tree nor the caller's arrays.",
 ["histories", "inputs"], "All assignment sequences up to the bound over a value grid including zeros, all sizes 1..N including non-powers of two, all intervals, all boundary and mid-interval values.",
 "Tests use random trees and random queries.",
 ["data/utils/segtree.py"], [("setitem", "data/utils/segtree.py:_setitem"), ("reduce", "data/utils/segtree.py:_reduce"), ("prefix index", "data/utils/segtree.py:_get_prefix_sum_idx")])
prop("C11", "Hindsight relabelling uses future goals of the same episode and restores data",
 "Each hindsight sample replaces, for a chosen subset of the drawn transitions, the desired goal by a goal achieved at the same or a later step of the same episode and recomputes the reward with that goal, for the drawn step and the steps that follow it in its episode; all other fields and transitions are untouched. Relabelling is transient: before the next sample, addition, save, reset or merging into another buffer takes effect the stored data equal what was originally added. This holds for single and vectorised buffers and for every random choice.",
 ["histories", "inputs"], "All histories up to the bound interleaving additions, samples and other operations; all random choices of indices, horizon and future offsets enumerated.",
 "Random sampling only shows some choices; corruption of stored data only shows in later samples of a particular sequence.",
 [B+"her.py", B+"manager.py", B+"vecbuf.py"], [("rewrite", B+"her.py:rewrite_transitions"), ("restore", B+"her.py:_restore_cache")])
prop("C12", "Batch structural operations act as the same operation on every leaf",
 "Indexing, slicing, iterating, assigning to positions, arithmetic, concatenating, stacking and splitting a (nested) batch give on every leaf the result of that operation on the leaf, with missing entries filled by zeros/None where documented, and fail instead of giving inconsistent leaves. Splitting yields disjoint pieces that cover every row exactly once (in order unless shuffled) with the requested size, merging a short tail only if requested. Length and shape describe the common leading dimensions.",
 ["inputs", "programs"], "All batches over a small grammar of structures, leaf kinds and lengths x all index expressions of a small grammar; all pairs/triples for cat and stack; all lengths and sizes for split with every permutation.",
 "Tests are examples; the product of structures, reserved (empty) entries and index kinds is not explored.",
 ["data/batch.py"], [("indexing", "data/batch.py:Batch.__getitem__,__setitem__"), ("cat", "data/batch.py:Batch.cat_"), ("stack", "data/batch.py:Batch.stack_"), ("split", "data/batch.py:Batch.split")])
prop("C13", "Batch conversion, copying, comparison and serialisation preserve content",
 "Converting a batch to a dictionary and back, deep copying, pickling, and converting between numpy and torch (requested dtype and device included) preserve keys, nesting, shapes and values; the copying variants share no memory with the original and leave it unchanged, the in-place variants change only the object itself. Two batches compare equal exactly when their structure and leaf values are equal.",
 ["inputs"], "All batches over a small grammar of structures and leaf kinds (numpy, torch, scalars, strings, None, nested and empty batches) x every conversion and every pair for equality.",
 "Tests convert a few examples.",
 ["data/batch.py", "data/utils/converter.py"], [("conversion", "data/batch.py:to_numpy,to_torch,to_dict"), ("equality", "data/batch.py:Batch.__eq__"), ("pickle/copy", "data/batch.py:__getstate__,__setstate__,__deepcopy__"), ("converters", "data/utils/converter.py")])
prop("C14", "Episodic returns and advantages equal their definition, per episode",
 "For every batch drawn in storage order from a buffer, the advantage of each step equals the discounted sum of temporal-difference errors of the rest of its own episode, cut at terminal, truncated and still-open episode ends, with the next state's value ignored exactly after termination; the return is advantage plus value. With no values given it is the discounted reward-to-go of the stored part of the episode.",
 ["histories", "inputs"], "All buffer histories up to the bound (single and vectorised) x reward/value/gamma/lambda grid x termination/truncation patterns.",
 "Tests compare a few hand-computed arrays.",
 ["policy/base.py", "policy/modelfree/a2c.py", "policy/modelfree/pg.py"], [("GAE", "policy/base.py:_gae_return"), ("cut points", "policy/base.py:compute_episodic_return"), ("value mask", "policy/base.py:value_mask"), ("A2C returns", "policy/modelfree/a2c.py:_compute_returns"), ("reward-to-go", "policy/base.py:episode_mc_return_to_go")])
prop("C15", "n-step targets equal their definition and never look past an episode",
 "For every stored transition the n-step target is the discounted sum of up to n rewards of its own episode plus the discounted bootstrap value of the state after the last step used, where the bootstrap is dropped exactly when that last step terminated the episode and kept when the episode was truncated or is still open. Rewards of other episodes or environments, and overwritten steps, never contribute. This holds for any buffer kind, fill level, n, and shape of the bootstrap value.",
 ["histories", "inputs"], "All histories up to the bound (single, vectorised, prioritised, wrapped) x n in 1..4 x all stored index vectors.",
 "Tests compare a few fixed buffers; wrap-around combined with open episodes in several environments is not covered.",
 ["policy/base.py"], [("stacked successors", "policy/base.py:compute_nstep_return"), ("accumulation", "policy/base.py:_nstep_return")])
E="env/"
prop("C16", "Vectorised stepping returns each environment's own results, exactly once",
 "For every mixture of synchronous and asynchronous stepping and every order in which environments finish, each submitted action is applied exactly once to the environment it was addressed to, and its observation, reward, flags and info come back exactly once, labelled with that environment. Resets, attribute access and seeding touch exactly the addressed environments, results come in the order requested, an environment still working is never given a second action, and no waiting call returns before the requested minimum number (or the time limit) is reached.",
 ["schedules", "histories", "inputs"], "All completion orders/time-outs of up to 3 environments under a controlled worker, all sequences of step/reset/attribute operations up to the bound over all id lists.",
 "Completion order of real workers is up to the operating system; tests see a few schedules.",
 [E+"venvs.py", E+"worker/base.py"], [("step", E+"venvs.py:BaseVectorEnv.step"), ("wait", E+"worker/*.py:wait"), ("async bookkeeping", E+"venvs.py:_assert_id,waiting_conn,ready_id")])
prop("C17", "All vectorised-environment back-ends are observationally equivalent",
 "Running the same environments and the same call sequence through the in-process, subprocess and shared-memory back-ends yields identical observations, rewards, flags, infos, attributes, seeds and refusals, for every supported observation space (boxes, discrete, dict, tuple, nested). What was returned is never changed by later calls, and closing ends every worker exactly once and makes further use fail.",
 ["programs", "configurations"], "All call sequences up to the bound over reset/step/attribute/seed/close on id subsets x observation-space kinds x back-ends.",
 "Tests compare one environment class for a few steps; aliasing of shared memory only shows when earlier results are kept.",
 [E+"worker/subproc.py", E+"worker/dummy.py", E+"venvs.py"], [("shared memory encode/decode", E+"worker/subproc.py:_encode_obs,_decode_obs,ShArray"), ("command loop", E+"worker/subproc.py:_worker"), ("close", E+"worker/base.py:close")])
prop("C18", "The collector stores exactly what happened, once, per environment and in order",
 "Over any sequence of collection calls, the buffer receives, for every environment step taken, exactly one transition with the observation the policy saw, the action it chose, and the reward, flags, info and next observation that the environment produced for the executed action; per environment they are in order and each observation is the next observation of the previous step, or the reset observation after an episode end. Steps are never dropped, duplicated or attributed to another environment, whatever the episode lengths, number of environments, buffer kind and mixture of step- and episode-based calls.",
 ["histories", "inputs"], "All assignments of episode lengths/termination kinds to up to 3 environments x all sequences of collect calls (n_step/n_episode values, with and without reset) up to the bound x buffer kinds.",
 "Tests run a few fixed episode lengths; surplus-environment removal and boundary steps depend on the exact interleaving of episode ends.",
 ["data/collector.py", B+"manager.py"], [("rollout loop", "data/collector.py:Collector._collect"), ("surplus envs", "data/collector.py:Collector._collect"), ("reset", "data/collector.py:_reset_env_with_ids_get_obs")])
prop("C19", "Collection statistics and stop conditions agree with what happened",
 "A collection of n episodes returns after exactly n finished episodes, one of n steps after the smallest multiple of the environment count not below n; invalid requests are refused. The reported counts, per-episode returns, lengths and their summaries equal those recomputed from the environments' own logs, for episodes that span several calls, and cumulative counters equal the sums since the last reset of statistics. In episode-based collection no episode is favoured for being short: every environment that is started is run to completion only if its episode is counted. Missing numbers in the buffer are reported exactly when asked for.",
 ["histories", "inputs"], "All episode-length patterns for up to 3 environments x all call sequences up to the bound.",
 "As for C18; tests use patterns with equal or fixed lengths.",
 ["data/collector.py", "data/stats.py"], [("counters", "data/collector.py:Collector._collect"), ("stats", "data/collector.py:CollectStats"), ("summaries", "data/stats.py")])
prop("C20", "During collection the policy sees its own environments' data and memory",
 "At every decision the policy receives, for each running environment, that environment's latest observation, info and the recurrent state it returned for that same environment at the previous step, and a fresh (zeroed) recurrent state in the first step of every episode. Step and episode callbacks see each executed step and each finished episode exactly once with its data; the changes a step callback makes to the stored fields and the entries an episode callback adds are stored with it. Random collection uses only valid actions and never consults the policy.",
 ["histories", "inputs"], "All episode-length patterns for up to 3 environments x state kinds (numpy, torch, nested) x call sequences up to the bound.",
 "Leakage of recurrent state between episodes or environments changes only learning quality, so tests do not notice.",
 ["data/collector.py"], [("hidden state", "data/collector.py:_reset_hidden_state_based_on_type"), ("action", "data/collector.py:_compute_action_policy_hidden"), ("hooks", "data/collector.py:StepHook,EpisodeRolloutHook")])
prop("C21", "Asynchronous collection is faithful under every completion schedule",
 "With environments that finish steps at different times, asynchronous collection stores, for every schedule, each completed environment step exactly once with the observation and action that belong to it, in order within each environment; episode statistics equal the environments' own logs, and at least the requested number of steps or episodes is collected. Repeated calls neither lose nor duplicate steps still in flight, a reset in between discards the steps it abandons so that none of them is stored later, and all of this holds for scalar and vector actions with and without policy state.",
 ["schedules", "histories"], "All completion schedules of 2-3 environments under a controlled worker x episode lengths x call sequences.",
 "Real completion times are not controllable in tests, which therefore check one schedule.",
 ["data/collector.py", E+"venvs.py"], [("async loop", "data/collector.py:AsyncCollector._collect"), ("reset", "data/collector.py:AsyncCollector.reset_env")])
T="trainer/"
prop("C22", "Training runs exactly the configured epochs, steps, updates and evaluations",
 "For every configuration the trainer performs the configured number of epochs, collects at least the configured steps per epoch in portions of the configured size, performs for each portion the configured number of policy updates (rounded ratio of steps, or one multi-pass update for on-policy training, or the configured number for offline training), and evaluates once before the first and once after every epoch. Step, gradient and epoch counters passed to user callbacks, loggers and reported results equal the numbers that actually happened, and callbacks come in the documented order.",
 ["configurations", "histories"], "All small configurations of the three trainers (epochs, step sizes, update ratios, episodes, test settings) run with counting stubs.",
 "Tests train a few long runs to a reward threshold and do not look at the schedule.",
 [T+"base.py", T+"utils.py"], [("epoch loop", T+"base.py:BaseTrainer.__next__"), ("train step", T+"base.py:_training_step,_collect_training_data,_sample_and_update"), ("update counts", T+"base.py:policy_update_fn")])
prop("C23", "Best-result tracking, early stopping, saving and resuming are consistent",
 "At every point the reported best reward is the best evaluation result so far together with the epoch and deviation it came from, and the best-policy callback has been called exactly when a new best was evaluated, with the policy that achieved it. Training stops as soon as an evaluation result meets the stop condition and not before. A run resumed from its saved progress continues with the saved epoch, step and gradient counts.",
 ["histories", "configurations"], "All sequences of evaluation outcomes over a small ordered alphabet, for all trainer kinds, with and without in-training tests, stop functions and resume points.",
 "Which evaluation is best and when is data dependent; tests have one trajectory each.",
 [T+"base.py", T+"utils.py", "utils/logger/base.py"], [("best tracking", T+"base.py:test_step"), ("in-training stop", T+"base.py:_collect_training_data"), ("resume", T+"base.py:reset")])
prop("C24", "Training/evaluation mode flags are right in every phase and restored after it",
 "Rollouts for training and evaluation run with the networks in evaluation mode, gradient updates in training mode; exploration is active exactly in training rollouts, and updating outside a training step is refused. When a phase ends, normally or by an error raised anywhere in environments, policy, callbacks or logging, the flags have the values they had before it.",
 ["fault_sequences", "configurations"], "All small training configurations x every call-out point (environment step/reset, policy forward/learn, hooks, callbacks) at which an exception is injected.",
 "Tests never inject errors, and mode mistakes only degrade learning.",
 ["utils/torch_utils.py", "data/collector.py", T+"base.py", "policy/base.py"], [("context managers", "utils/torch_utils.py"), ("rollout", "data/collector.py:BaseCollector.collect"), ("update", "policy/base.py:BasePolicy.update")])
M="policy/modelfree/"
prop("C25", "Target networks change only by their documented schedule",
 "Target networks start as copies, are never changed by gradient steps, and stay in evaluation mode whatever mode the policy is put in (noisy networks excepted). In value-based algorithms with a target they are replaced by the current network exactly before every update whose number is a multiple of the configured frequency; in actor-critic algorithms they move by exactly the configured fraction towards the current networks, once per (delayed) update. Delayed actor updates happen exactly at the configured frequency.",
 ["histories", "configurations"], "All interleavings of updates, mode switches and save/load up to the bound, for every algorithm with target networks and several frequencies.",
 "An off-by-one in a schedule still learns; tests only look at final reward.",
 [M+"dqn.py", M+"ddpg.py", M+"td3.py", M+"sac.py", M+"redq.py", "policy/imitation/*", "policy/base.py"], [("hard sync", M+"dqn.py:sync_weight"), ("soft sync", "policy/base.py:soft_update"), ("delay", M+"td3.py:learn")])
prop("C26", "Actions sent to an environment are always valid for its action space",
 "With masked discrete actions, neither greedy choice nor exploration ever selects a masked action, for any values, and with zero exploration the unmasked action of highest value is chosen. Bounded continuous actions are mapped affinely from [-1, 1] (after clipping or squashing) onto the action space, never outside it, and the inverse mapping undoes the mapping. Discretising wrappers for continuous or multi-dimensional discrete spaces cover exactly their documented grid, one to one.",
 ["inputs", "configurations"], "All masks and value orderings for up to 4 actions x all exploration draws; action grids x space bounds x bounding methods; all actions of small wrapped spaces.",
 "Random exploration only samples; an illegal action needs a particular mask and draw.",
 [M+"dqn.py", "policy/base.py", E+"gym_wrappers.py", M+"bdq.py"], [("mask", M+"dqn.py:compute_q_value,exploration_noise"), ("mapping", "policy/base.py:map_action,map_action_inverse"), ("wrappers", E+"gym_wrappers.py")])
prop("C27", "Multi-agent management routes every transition to exactly its own agent",
 "In multi-agent play each observation is acted on by the policy of the agent it belongs to and by no other, and the action, policy output and recurrent state come back in the original order; in learning each agent's policy is given exactly the sampled transitions of that agent with that agent's own reward, and results and shared storage are as if each agent had been handled alone. The shared buffer is unchanged afterwards.",
 ["inputs", "histories"], "All assignments of agents to up to 4 rows (including absent agents), state/no-state policies, reward shapes, buffer histories.",
 "Tests play one game and look at the reward.",
 ["policy/multiagent/mapolicy.py"], [("forward dispatch", "policy/multiagent/mapolicy.py:forward"), ("process", "policy/multiagent/mapolicy.py:process_fn,post_process_fn"), ("learn", "policy/multiagent/mapolicy.py:learn")])
prop("C28", "Each update learns from exactly the sampled data and feeds priorities back",
 "A policy update processes exactly the transitions sampled for it: multi-pass algorithms use every transition exactly once per pass in pieces of the configured size, and value-based algorithms use all sampled transitions with their importance weights. With prioritised storage the priority written back to each sampled slot is that slot's own error from this update, and all other priorities are unchanged. Stored data are not modified by an update.",
 ["histories", "inputs"], "All small buffers and batch sizes x all index draws (enumerated) x every algorithm family, with counting networks.",
 "Weights or priorities attached to the wrong row only slow down learning.",
 ["policy/base.py", M+"dqn.py", M+"c51.py", M+"ppo.py", M+"a2c.py"], [("update", "policy/base.py:BasePolicy.update"), ("post process", "policy/base.py:post_process_fn"), ("minibatches", "data/batch.py:Batch.split")])
prop("C29", "Running statistics equal the statistics of everything seen",
 "After any sequence of batches the running mean and variance equal the population mean and variance of all data seen, independent of how they were split into batches, and normalisation uses exactly these with the documented clipping. An observation-normalising environment wrapper updates them with every observation it returns exactly once (only if updating is enabled), returns otherwise unchanged results, and shares statistics when told to. Moving averages equal the mean of the last finite values.",
 ["histories", "inputs"], "All sequences of batches over a value grid and all ways of splitting them; all call sequences of the wrapper; all value sequences including non-finite ones.",
 "Tests compare one random stream.",
 ["utils/statistics.py", E+"venv_wrappers.py"], [("update", "utils/statistics.py:RunningMeanStd.update"), ("moving average", "utils/statistics.py:MovAvg"), ("wrapper", E+"venv_wrappers.py:VectorEnvNormObs")])
prop("C30", "Loggers write at the configured intervals and restore what they saved",
 "A logger writes a record exactly when at least the configured interval of steps has passed since the last record of that kind, independent of other kinds, and a checkpoint exactly when the save interval has passed since the last one. Progress restored from a log equals the last saved epoch, step and gradient counts, logged data restored from disk equal what was written, and after restoring the intervals continue from the restored progress.",
 ["histories"], "All sequences of log/save calls with step increments over a small alphabet x intervals, with restore at every point.",
 "Tests log a few steps with default intervals.",
 ["utils/logger/base.py", "utils/logger/tensorboard.py"], [("intervals", "utils/logger/base.py:log_*_data"), ("checkpoint", "utils/logger/tensorboard.py:save_data"), ("restore", "utils/logger/tensorboard.py:restore_data,restore_logged_data")])
prop("C31", "Categorical value-distribution targets conserve probability and mean",
 "The projected target of a categorical value distribution is a probability distribution on the fixed support: non-negative, summing to one, with mean equal to the mean of the shifted distribution clamped to the support, each atom's mass split between its two neighbouring support points in proportion to distance. The value of an action is the mean of its distribution.",
 ["inputs"], "All reward/termination/discount combinations on a grid (including exactly on and between support points and outside it) x atom counts x next-state distributions from a grid.",
 "Tests only train with it; a biased projection still learns.",
 [M+"c51.py"], [("projection", M+"c51.py:_target_dist"), ("value", M+"c51.py:compute_q_value")])
prop("C32", "Saved policies, checkpoints and experiment state restore to the same behaviour",
 "Saving a policy and restoring it, in either storage mode, gives a policy with identical parameters and actions; best-policy and per-epoch checkpoints go to distinct files under the configured directory and contain the policy as it was at that moment; disabled persistence writes nothing but still restores. Environment normalisation statistics are saved and restored together with the policy.",
 ["histories", "configurations"], "All sequences of train-step/save/checkpoint/restore operations up to the bound x storage modes x enabled flags.",
 "Tests save once and do not restore at every point.",
 ["highlevel/persistence.py", "highlevel/world.py", "highlevel/env.py"], [("policy persistence", "highlevel/persistence.py:PolicyPersistence"), ("group", "highlevel/persistence.py:PersistenceGroup")])
prop("C33", "Turn-based multi-player environments present each turn faithfully",
 "Wrapping a turn-based multi-player game, each reset and step returns the observation, legal-action mask and identity of the player whose turn is next, the rewards of all players for that step in fixed player order, and the end flags of that player. Actions are applied to the player whose turn it is. What was returned earlier is not changed by later calls.",
 ["programs", "inputs"], "All action sequences up to the bound of small scripted games with all reward/termination scripts.",
 "Tests play one game.",
 [E+"pettingzoo_env.py"], [("step", E+"pettingzoo_env.py:PettingZooEnv.step"), ("reset", E+"pettingzoo_env.py:PettingZooEnv.reset")])
prop("C34", "Trust-region updates stay in the trust region or leave the policy unchanged",
 "After each trust-region policy step either the new policy lies within the configured divergence bound of the old one and improves the surrogate objective, or the actor is exactly what it was before; the reported step size is zero exactly in the latter case. The value network is not affected by the line search.",
 ["inputs", "configurations"], "Grid of tiny policies, batches, advantages and line-search settings, so that every accept/reject outcome of every backtracking step occurs.",
 "Failure of the whole line search hardly occurs in the training tests.",
 [M+"trpo.py", M+"npg.py"], [("line search", M+"trpo.py:learn")])
prop("C35", "Bayesian tabular model counts equal the observed data",
 "After any sequence of updates the transition counts of the tabular Bayesian model equal prior plus observed transitions, reward means equal the (prior-weighted) mean of observed rewards, and actions are greedy for a sampled model that is re-drawn after new observations. The caller's prior arrays are not changed.",
 ["histories", "inputs"], "All sequences of observed transitions up to the bound over 2-3 states and 2 actions split into updates in every way.",
 "Tests only train with it.",
 ["policy/modelbased/psrl.py"], [("observe", "policy/modelbased/psrl.py:PSRLModel.observe"), ("learn", "policy/modelbased/psrl.py:PSRLPolicy.learn"), ("value iteration", "policy/modelbased/psrl.py:value_iteration")])
prop("C36", "Schedules for learning rates, optimisers and exploration noise follow their rule",
 "Every policy update advances the learning-rate schedule exactly once, and saving and loading a group of schedules restores every member's position. Cloned optimisers have the same settings on the new parameters and share no state. Exploration noise processes start over exactly when reset and otherwise follow their recurrence.",
 ["histories"], "All sequences of update/save/load/reset/clone up to the bound.",
 "Tests do not look at schedules.",
 ["utils/lr_scheduler.py", "utils/optim.py", "exploration/random.py", "highlevel/params/lr_scheduler.py"], [("schedules", "utils/lr_scheduler.py"), ("clone", "utils/optim.py"), ("noise", "exploration/random.py")])
prop("C37", "High-level experiments realise exactly their configuration",
 "An experiment built by any of the experiment builders realises exactly its configuration: each algorithm parameter, optimiser setting, learning rate, scheduler, network shape, distribution, noise and temperature setting reaches the policy it belongs to; the numbers of environments, epochs, steps, episodes, updates and evaluations are the configured ones; training, test and watching environments are created in their own mode; callbacks are called at the documented times; persistence, loading and watching happen exactly when enabled; a run returns its result; equal seeds give equal runs, the experiments of a seeded collection use different ones, and building an experiment does not alter the parameter object.",
 ["configurations"], "All builders x every parameter one at a time (pairs in the thorough tier), grids of sampling configurations, network factories, flags and callback schedules run on small recording environments.",
 "Tests only check that one configuration per builder runs.",
 ["highlevel/experiment.py", "highlevel/agent.py", "highlevel/config.py", "highlevel/params/policy_params.py", "highlevel/module/actor.py", "highlevel/module/critic.py", "highlevel/optim.py", "highlevel/env.py", "highlevel/trainer.py"],
 [("building", "highlevel/experiment.py:ExperimentBuilder.build"), ("running", "highlevel/experiment.py:Experiment.run"), ("agents", "highlevel/agent.py"), ("parameters", "highlevel/params/policy_params.py"), ("networks", "highlevel/module/actor.py")])
prop("C38", "Every update is a gradient step on the algorithm's published objective",
 "For every algorithm, each update moves the networks by exactly the optimiser steps on the objective the algorithm is published and documented with, under every option: temporal-difference, quantile, clipped-surrogate, entropy, conservative, behaviour-cloning and discriminator losses, delayed and target-network updates, temperatures and gradient clipping. States after a terminated transition contribute no value, states after one that was only cut off do. The reported losses are the values of these objectives.",
 ["inputs", "configurations", "histories"], "All small stored histories (rewards x endings x actions on a grid) x option sets of 25 algorithms, over two or three consecutive updates.",
 "Tests train to a reward threshold, which many wrong objectives also reach; the offline and branching algorithms are only smoke-tested.",
 [M+"dqn.py", M+"bdq.py", M+"qrdqn.py", M+"iqn.py", M+"fqf.py", M+"ddpg.py", M+"td3.py", M+"sac.py", M+"discrete_sac.py", M+"redq.py", M+"pg.py", M+"a2c.py", M+"ppo.py", "policy/imitation/cql.py", "policy/imitation/bcq.py", "policy/imitation/discrete_bcq.py", "policy/imitation/discrete_cql.py", "policy/imitation/discrete_crr.py", "policy/imitation/td3_bc.py", "policy/imitation/gail.py", "policy/imitation/base.py", "policy/modelbased/icm.py"],
 [("updates", "policy/base.py:BasePolicy.update"), ("value-based", M+"dqn.py:learn"), ("actor-critic", M+"sac.py:learn"), ("surrogate", M+"ppo.py:learn"), ("offline", "policy/imitation/cql.py:learn")])
prop("C39", "Networks compute their documented function for each row, memory included",
 "Every network maps each row of a batch to its documented function of that row alone: the same answer whether rows come one at a time, in any order or together, as arrays or tensors, for every architecture option (layers, norms, activations, dueling heads, softmax, noisy layers, quantile and cosine embeddings, branches, ensembles, dictionary observations in any key order, action masks and state-dependent deviations). A recurrent network's answer for an environment depends on that environment's own history only: acting step by step for any subset and order of environments equals evaluating the whole sequence, and resetting one memory leaves the others alone.",
 ["inputs", "histories", "configurations"], "All schedules of partial steps and resets of two environments, all chunkings of short sequences, grids of network options x all ordered sub-batches.",
 "Tests check that networks run and have output of the right shape; they never compare the values, and never step parts of the environments.",
 ["utils/net/common.py", "utils/net/discrete.py", "utils/net/continuous.py"], [("networks", "utils/net/common.py:Net.forward"), ("recurrent", "utils/net/common.py:Recurrent.forward"), ("actors and critics", "utils/net/continuous.py"), ("discrete", "utils/net/discrete.py")])
prop("C40", "Independent and copied objects never influence each other or their arguments",
 "Two objects built from the same arguments, or one copied from the other (deepcopy, pickle, torch.save), are independent: every answer and the final state of each are what they would be if the other did not exist, however their operations interleave, and the arguments they were built from are unchanged. This holds for buffers, batches, collectors, normalising environments, noise, statistics, schedules, segment trees, trainers, policies and experiments built from one builder.",
 ["histories", "schedules"], "All interleavings of construction and up to 3-4 operations of two instances; copies taken after every prefix.",
 "Tests use one instance at a time; state shared through default arguments, class attributes or aliased arrays does not show.",
 ["data/buffer/base.py", "data/buffer/vecbuf.py", "data/buffer/her.py", "data/batch.py", "data/collector.py", "policy/base.py", "env/venv_wrappers.py", "exploration/random.py", "utils/statistics.py", "highlevel/experiment.py"],
 [("buffers", "data/buffer/base.py:ReplayBuffer.__init__"), ("batches", "data/batch.py:Batch.__init__"), ("policies", "policy/base.py:BasePolicy"), ("collectors", "data/collector.py:BaseCollector.__init__"), ("experiments", "highlevel/experiment.py:ExperimentBuilder.build")])
prop("C41", "Experiments launched together run once each, apart, and are evaluated as logged",
 "Launching several experiments runs every one exactly once; a failing one changes neither the others' results nor their trained weights; the results of the successful ones come back in the order of the experiments, and only if all fail there is an error. Loading a directory of finished runs yields, for every run of any algorithm and in every supported directory layout, exactly the mean returns given to its logger at its evaluations and training collections, with their environment steps, cut to the shortest run and the requested maximum. The evaluation computes its curve and profile from exactly these, and plots are shown and saved only if asked for.",
 ["configurations", "histories", "faults"], "All assignments of outcomes to small sets of experiments; all orders and failing positions of real experiments; all small multisets of recorded runs x layouts x step limits.",
 "Tests launch one kind of experiment that succeeds and never load or evaluate logged runs.",
 ["evaluation/launcher.py", "evaluation/rliable_evaluation_hl.py", "highlevel/experiment.py", "utils/logger/tensorboard.py"], [("launchers", "evaluation/launcher.py:ExpLauncher.launch"), ("loading", "evaluation/rliable_evaluation_hl.py:RLiableExperimentResult.load_from_disk"), ("evaluation", "evaluation/rliable_evaluation_hl.py:RLiableExperimentResult.eval_results")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
