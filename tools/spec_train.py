AG, EV, MET = B + 'agents/', B + 'eval/', B + 'metrics/'

P('P32', 'Station-keeping winds are those whose hull contains the origin',
  'A column of three or more winds is declared station-keeping exactly when the origin lies in the convex hull of its wind vectors (no direction leaves a gap of half a turn or more), whatever the order or number of levels. Wind-field statistics give the norm of each wind vector and the mean and extremes over the field. Arguments are not modified. An array that is changed between two calls is judged by its content.',
  'inputs', 'every wind column and wind field',
  T_SAMPLE + 'tests use a few hand-made columns.',
  [UT + 'wind.py'], 'convex hull test @ wind.is_station_keeping_winds; speeds @ wind.wind_field_speeds',
  'The largest gap between wind bearings decides, independently of the hull code, over random, one-sided, fan, spiral and minimal columns and their permutations; degenerate columns (within 1e-4 of a half turn or collinear) are skipped.',
  'Exploration; degenerate columns are excluded.', ['wind.is_station_keeping_winds'],
  'runtime monitor: independent geometric oracle')

P('P33', 'StationSeeker steers to the best-scoring reachable wind level',
  'At each step StationSeeker scores every reachable level of the observed wind column by the published formula (certainty-weighted blend of wind bearing and speed by distance from the station, an exploration bonus for uncertain levels, and a small preference for staying close) and goes up, down or stays according to where the best level lies. Unreachable levels are never chosen. The action depends on the observation alone, not on rewards or earlier steps. Also when one array, changed in place, carries all observations.',
  'inputs histories', 'every observation with at least one reachable level',
  T_SAMPLE + 'tests use a few synthetic columns.',
  [AG + 'station_seeker_agent.py', ENV + 'features.py'],
  'level scores @ StationSeekerAgent.find_best_pressure_level; direction @ StationSeekerAgent.pick_action',
  'A float64 implementation of the score judges every decision on synthetic columns (uniform, smooth, constant, certain/uncertain; near 250 and 500 km) and on real observations in flight.',
  'Exploration; decisions within 2e-5 of a tie are not judged.', ['StationSeekerAgent.begin_episode', 'StationSeekerAgent.step'],
  'runtime monitor: shadow scoring of every decision')

P('P34', 'Exploration and random baselines follow their documented schedules',
  'MarcoPolo passes the agent\'s action through, except that in an exploratory episode (drawn with the configured probability at the start of the episode) phases of four hours (80 steps) of the agent alternate with two hours (40 steps) of the exploratory agent, which is told of the episode start and of each transition it acts on. The random-walk agent draws a target pressure per episode, steers to it with 100 Pa hysteresis and at each step adds a normal with standard deviation 0.1666 Pa per second since the episode start. The random agent is uniform over the actions, the default exploration changes nothing, and the same seed gives the same behaviour, none another each time.',
  'histories inputs', 'every seed, probability, episode length and observation sequence',
  T_SAMPLE + 'tests follow single phases with fixed seeds.',
  [AG + 'marco_polo_exploration.py', AG + 'random_walk_agent.py', AG + 'agent.py', AG + 'exploration.py'],
  'phase schedule @ MarcoPoloExploration.step; walk @ RandomWalkAgent.step',
  'A recording exploratory agent shows what it is told and when it acts, over episodes around the phase boundaries; the random walk\'s target is reconstructed from its seed and probed from both sides.',
  'Exploration; the JAX generator is trusted.', ['MarcoPoloExploration.step', 'RandomWalkAgent.step', 'RandomAgent.step'],
  'runtime monitor: schedule and trace checker')

P('P35', 'Learning agents learn in training only, from what really happened',
  'In training mode a DQN or quantile agent counts one step per action, stores each transition exactly once with the action really executed, makes one optimiser step on the sampled batch whenever an update is due, synchronises the target network at its period, and (quantile) consults its exploration wrapper once per action and sets priorities to the square root of the loss; the MLP agent makes one SARSA gradient step per step (learning rate 0.001, discount 0.9). In evaluation mode nothing is learnt or stored and actions are greedy. The networks compute the stack of dense layers they are configured with, the same seed and history give the same agent (no seed another each time), and unknown modes are a ValueError. The loss of an update is given to the summary writer at the configured period.',
  'histories inputs', 'every mode switching, episode length, configuration and seed',
  T_SAMPLE + 'tests call single steps on mocks.',
  [AG + 'dqn_agent.py', AG + 'quantile_agent.py', AG + 'mlp_agent.py', AG + 'networks.py', AG + 'agent.py'],
  'training step @ QuantileAgent._train_step; transitions @ DQNAgent.step; mode @ Agent.set_mode; sarsa @ MLPAgent.step; networks @ networks.MLPNetwork, networks.QuantileNetwork',
  'Random configurations and histories of episodes in both modes; around every single call the monitor compares parameters, optimiser state, target network, replay additions, priorities, log and exploration calls with what is due, recomputing each update from the sampled batch and each MLP step by hand-written backpropagation.',
  'Exploration; dopamine\'s update functions serve as the shadow update and its buffers are trusted.',
  ['Agent.begin_episode', 'Agent.step', 'Agent.end_episode'], 'runtime monitor: per-call shadow of the learner')

P('P36', 'Checkpoints restore the learner and the latest complete one is found',
  'Saving and loading a checkpoint (DQN and quantile agents; the others keep none and report -1) restores parameters, target, optimiser state, training step and replay content, so that continued training goes on exactly as without the restart. reload_latest_checkpoint and get_latest_checkpoint find the largest iteration present (any directory name, any iteration number, stray files ignored), or -1 when there is none or it cannot be understood; cleaning up removes only the files of checkpoints older than the configured duration and leaves foreign files alone. A save never damages earlier checkpoints, whatever point it is interrupted at.',
  'histories crash_points inputs', 'every training history, directory content and crash point during a save',
  T_SAMPLE + 'tests save one checkpoint into an empty directory and never crash.',
  [AG + 'dopamine_utils.py', AG + 'dqn_agent.py', AG + 'quantile_agent.py', AG + 'agent.py'],
  'save and load @ dopamine_utils.save_checkpoint, dopamine_utils.load_checkpoint; discovery @ dopamine_utils.get_latest_checkpoint; clean-up @ dopamine_utils.clean_up_old_checkpoints',
  'Twin learners, one restarted from disk at random moments, must stay identical; directories with random contents and names judge discovery and clean-up; a save is cut short (exception, truncated file) at every file operation and the state found afterwards is judged.',
  'Exploration; crash points are the Python-level file operations. Known finding torn-latest-checkpoint.',
  ['Agent.save_checkpoint', 'Agent.reload_latest_checkpoint', 'dopamine_utils.get_latest_checkpoint'],
  'runtime monitor: differential twins and injected crashes')

P('P38', 'The training loop runs each iteration once and drives everything faithfully',
  'In each episode the agent starts from the reset observation, the environment receives exactly the agent\'s actions, the agent is told each resulting reward and observation in order, and the episode ends at the terminal state or after max_episode_length steps, with the last reward and terminal flag handed over once by end_episode. Every collector sees each transition once in order and each episode once, numbered from the first episode of the starting iteration, and the environment is rendered every render_period steps. A checkpoint is saved once after each iteration\'s episodes, and a restarted run resumes after the last saved iteration, so across crashes every iteration counts exactly once.',
  'histories crash_points', 'every episode ending, number of iterations and crash point',
  T_SAMPLE + 'tests mock environment, agent and collectors and never crash.',
  [B + 'train_lib.py'], 'loop @ train_lib.run_training_loop; collectors @ train_lib.get_collector_data',
  'Scripted and real environments, agents and collectors log every call; a protocol checker judges the log. Crashes are injected at random calls (environment, save) and the run restarted until done; totals and record files must be those of an uninterrupted run.',
  'Exploration; crashes are exceptions at call boundaries.', ['calls of environment, agent and collectors'],
  'runtime monitor: trace checker with injected crashes')

P('P39', 'Metric collectors report each episode once, as it happened, by its number',
  'The dispatcher forwards every event once to each collector, in order, and offers the first available summary writer. Console log, pickle files and tensorboard events each report every episode once under its number with its true length and rewards (console also the share of each action), fine-grained steps are reported exactly at the configured period, by default every step (in the log and on the console, the log file only with a directory and unless switched off), and a restart continues the numbering without losing earlier reports. Invalid actions and missing directories are a ValueError.',
  'histories inputs', 'every sequence of episodes, period, set of collectors and restarts',
  T_SAMPLE + 'tests feed one short episode per collector.',
  [MET + 'collector_dispatcher.py', MET + 'console_collector.py', MET + 'pickle_collector.py', MET + 'tensorboard_collector.py', MET + 'statistics_instance.py'],
  'dispatch @ CollectorDispatcher; reports @ ConsoleCollector.end_episode, PickleCollector.end_episode, TensorboardCollector.end_episode',
  'Random episodes are fed through the dispatcher as the training loop feeds it, with restarts; the written files are read back (text, pickle, event files) and compared with the episodes fed.',
  'Exploration; event files are read with TensorFlow\'s reader. Known finding last-transition-counted-twice.',
  ['files under metrics/'], 'runtime monitor: offline checker over the written logs')

P('P40', 'Evaluation results are the facts of each seed\'s flight and survive JSON',
  'eval_agent puts the agent in evaluation mode, seeds and resets the environment once per seed in suite order, flies until the terminal state or the suite\'s maximum length, and gives one result per seed: the sum of the rewards, the share of steps within the station radius, the step count, which failure ended the flight, and (if asked) the path of simple balloon states of every step. A seed\'s result does not depend on the other seeds or their order. Results survive the JSON encoder unchanged, and unserialisable values are a TypeError.',
  'histories inputs', 'every suite, seed, flight ending and calculation option',
  T_SAMPLE + 'tests evaluate a mock on one or two seeds.',
  [EV + 'eval_lib.py'], 'evaluation @ eval_lib.eval_agent; encoding @ eval_lib.EvalResultEncoder; state @ eval_lib.SimpleBalloonState.from_balloon_state',
  'Scripted flights with every ending, positions on and around the radius, and real flights of StationSeeker are logged call by call; the results are recomputed from the log, written to JSON and read back, and re-run on permuted subsets.',
  'Exploration.', ['eval_lib.eval_agent', 'json of EvalResultEncoder'], 'runtime monitor: results recomputed from the event log')

P('P41', 'Sharded evaluation and its combination cover every seed exactly once',
  'For any number of shards the shard files of the eval binary together hold every seed of the suite exactly once, as consecutive balanced pieces, with the same result per seed as the unsharded run; the file is output_dir/suite/<name>[_checkpoint_idx][_shard].json (name_override replaces name and checkpoint) and the requested checkpoint is loaded (nothing unless both directory and number are given). combine_eval_shards writes for each named model, and for no other, <model>.json with the union of exactly its shards sorted by seed, keeping flight paths only if asked and leaving all other files alone. pretty_json spreads the same content over lines.',
  'inputs schedules', 'every shard count, index, order of running, model name and directory content',
  T_SAMPLE + 'no test runs the binaries.',
  [EV + 'eval.py', EV + 'combine_eval_shards.py'], 'shards @ eval.main; union @ combine_eval_shards.main',
  'The binaries\' main functions run in a driver process: shards in random order (more shards than seeds too) are compared with the unsharded file; combinations run over directories with similar model names (prefixes, regular-expression and glob characters), stale and foreign files, and end to end on the real shards.',
  'Exploration; short suites replace the real ones.', ['files in output_dir'], 'runtime monitor: exactly-once checker over result files')

P('P46', 'The Acme entry points score, explore and act as the rest of the environment does',
  'create_env gives a balloon environment whose episodes end at a failure (discount 0) or after max_episode_length steps (discount 1); its training reward is the documented reward, its evaluation reward is 1/max_episode_length for every step inside the 50 km radius and 0 outside, so that the return is the share of time within the radius. Observations and rewards are single precision, and with the wrapper carry the last action and reward. Collecting actors explore as MarcoPoloExploration does when asked to (the actor is still told everything), evaluating actors never; the DQN behaviour policy is epsilon-greedy and the evaluation policy and AcmeEvalAgent are greedy on the network\'s values, the agent refusing any mode but evaluation and acting on the checkpoint asked for, not the latest. Batched values are those of the network row by row; network size and hyperparameters are the shipped ones. The name acme_eval_agent gives that agent when Acme is available.',
  'histories inputs', 'every flight, mode, episode length, network size and observation',
  T_SAMPLE + 'no test covers these files.',
  [B + 'acme_utils.py', AG + 'acme_eval_agent.py'],
  'environments @ acme_utils.create_env; exploration @ acme_utils.CombinedActor, acme_utils.marco_polo_actor; policies @ acme_utils.create_dqn; agent @ acme_eval_agent.AcmeEvalAgent',
  'acme, dm_env, haiku and rlax are not installed, so small stand-ins written after their documentation run in their place; flights through the built environments are judged step by step, logged actors judge the exploration, and values and actions are recomputed from the parameters.',
  'Exploration against stand-ins; learners, replay, the checkpoint files, the recurrent network and the distributed binaries are outside.',
  ['acme_utils.create_env', 'actors', 'AcmeEvalAgent.step'], 'runtime monitor: trace checker and recomputed values')

P('P47', 'Gym and every plugged-in component get each event once, as it is',
  'Whatever is imported first, the environment is registered with gym exactly once, and gym.make with or without the module prefix gives the balloon environment, flying exactly as one constructed directly. Each reset resets the wind field once, starting when the balloon does, with a key that is a function of the seed and new in every episode, then builds one feature constructor from that wind field and the atmosphere in use, shows it the start and returns its features; each step shows it the resulting state with the true wind at the balloon once, returns its features, and returns the reward function\'s value for that state unchanged. A given arena replaces wind field and features altogether: it gets one reset or step per call, with a key that is a function of the seed and with the action as a command, and its observation and its balloon\'s status are what the environment reports. There is no time limit; the context manager hides no exception.',
  'histories configurations', 'every sequence of resets and steps, plugged-in component and order of imports',
  T_SAMPLE + 'no test goes through gym.make, and mocks are checked for single calls.',
  [B + 'env/balloon_env.py', B + 'env/balloon_arena.py', B + 'env/gym.py'],
  'registration @ env/gym.register_env; plugging in @ BalloonEnv.__init__, BalloonEnv.reset, BalloonEnv.step, BalloonArena.reset, BalloonArena.step',
  'Logging wind fields, feature constructors, reward functions and arenas are plugged into environments made directly and through gym, and an online protocol checker judges each call\'s events against the state read afterwards; a driver process makes the environment after scripted import orders, with and without the gym plug-in.',
  'Exploration. Vector environments of this gym do not run on this Python and are outside.',
  ['calls into plugged-in components', 'BalloonEnv.reset/step outputs', 'gym registry'],
  'runtime monitor: online protocol checker')

P('P37', 'Names and configurations select exactly the agent and run asked for',
  'Each registered agent name gives its class and default configuration (dqn, quantile, finetune_perciatelli and mlp with the shipped hyperparameters, the others none), the names simple and generative give their wind fields, and unknown names are a ValueError. An own gin file replaces the default one, additional files and then bindings override it, from any working directory. The train binary trains the named agent with that configuration under base_dir/agent/run_number with the chosen collectors and renderer, apart from other run numbers, and run again it continues after the last finished iteration (and does nothing when all are finished).',
  'inputs histories', 'every name, configuration source and sequence of training runs',
  T_SAMPLE + 'tests bind one file; no test runs the binary.',
  [AG + 'agent_registry.py', AG + 'configs/dqn.gin', AG + 'configs/quantile.gin', AG + 'configs/finetune_perciatelli.gin', AG + 'configs/mlp.gin', UT + 'run_helpers.py', B + 'train.py'],
  'names @ agent_registry.agent_constructor, run_helpers.get_wind_field_factory; configuration @ run_helpers.bind_gin_variables; binary @ train.main',
  'Random stacks of own file, additional files and bindings are bound and every parameter is queried back; default agents are built and their networks and hyperparameters read off; the train binary\'s main runs repeatedly in a driver process and the directories, records, step counts and pictures are judged.',
  'Exploration.', ['gin.query_parameter', 'files under base_dir'], 'runtime monitor: configuration and file-layout checker')

P('P42', 'Evaluation suites are fixed benchmarks no caller can change',
  'The eleven named suites always hold the same distinct seeds (big, medium, small, tiny and micro: 0 up to 10000, 1000, 100, 10, 1; five strata of 2000 fixed seeds; all_strata: the strata from hardest to easiest) and episodes of 960 steps. What a caller does to a suite it got never reaches another caller. Unknown names are a ValueError.',
  'histories', 'every sequence of retrievals and mutations by callers',
  T_SAMPLE + 'tests look at sizes of some suites once.',
  [EV + 'suites.py', EV + 'strata_seeds.py'], 'retrieval @ suites.get_eval_suite',
  'All suites are retrieved over and over while the callers mutate what they got; contents are compared with recorded digests.',
  'Exploration; the strata are pinned by digest.', ['suites.get_eval_suite'], 'runtime monitor: aliasing checker with reference digests')

P('P43', 'The wind dataset keeps training and evaluation fields apart',
  'The evaluation batch is always the last eval_batch_size (default 10) fields of the dataset; training batches hold distinct fields drawn uniformly without replacement from all the others, never an evaluation field. Batches depend only on the seed and the sequence of requests, and differ from request to request. A directory gives the concatenation of batch0000.pickle to batch0199.pickle in order; a missing file or asking for more fields than there are is an error.',
  'inputs histories', 'every dataset, evaluation size (positive), seed and sequence of batches',
  T_SAMPLE + 'tests draw one full batch of identical fields.',
  [B + 'generative/dataset_wind_field_reservoir.py'], 'sampling @ DatasetWindFieldReservoir.get_batch; hold-out @ DatasetWindFieldReservoir.get_eval_batch',
  'Fields carry their index, so every batch shows which fields it holds; twins, full batches and counts decide reproducibility, coverage and uniformity; shards of random sizes are written in random order.',
  'Exploration; uniformity up to 6.5 sigma.', ['DatasetWindFieldReservoir.get_batch', 'DatasetWindFieldReservoir.get_eval_batch'],
  'runtime monitor: hold-out and distribution checker')

P('P44', 'Model files come from the documented place and frozen weights act as built',
  'load_offlineskies22 and load_perciatelli44 return the present bytes of the given (or gin-bound) path, else of the file packaged beside models.py, else of the one under the working directory; a given path that is missing is a ValueError, no file anywhere a RuntimeError. The Perciatelli44 agent (3 actions and 1099 features only, else ValueError) takes the action its own loaded network values most, in every mode and step, whatever other networks are loaded in the process. The finetune_perciatelli agent starts with exactly the file\'s weights in both networks and trains on from there; the quantile agent does not read them.',
  'inputs histories', 'every combination of places and requests, every network and observation',
  T_SAMPLE + 'the tests of these agents need files that are not shipped.',
  [B + 'models/models.py', AG + 'perciatelli44.py', AG + 'quantile_agent.py'],
  'places @ models.load_offlineskies22, models.load_perciatelli44; frozen network @ perciatelli44.load_perciatelli_session; weights @ QuantileAgent.load_perciatelli_weights',
  'The loaders run in a driver process inside trees of links to the working tree with data files present or absent at each place; synthetic frozen graphs give known networks whose values are computed by hand, several alive at once.',
  'Exploration; synthetic model files stand in for the missing ones.', ['models.load_*', 'Perciatelli44.step'],
  'runtime monitor: differential network and precedence checker')

P('P45', 'Rendering shows the flight since the last reset and changes nothing',
  'The environment tells its renderer of each reset and then of every simulator state once, in order, passes render modes through, and without renderer returns None. Rendering at any time in any mode never changes observations, rewards or the flight. The matplotlib renderer draws exactly the positions, altitudes and battery charge (percent) since the last reset, marks the balloon\'s last position, the station and the 50 km round it in the three-dimensional view and (balloon and 50 km) on the map, and keeps one scale for the whole flight, with room for the 50 km and for 0 to 100 percent; rgb_array returns an independent uint8 RGB frame, human None, tensorboard writes one picture per given writer and iteration, other modes are a ValueError, and several renderers do not disturb each other.',
  'histories inputs', 'every interleaving of steps, resets and renderings of one or more renderers',
  T_SAMPLE + 'tests mock the renderer; the matplotlib renderer is not tested.',
  [ENV + 'rendering/matplotlib_renderer.py', ENV + 'balloon_env.py'], 'protocol @ BalloonEnv.step, BalloonEnv.reset, BalloonEnv.render; drawing @ MatplotlibRenderer.render',
  'A recording renderer decides the protocol; a twin environment without renderer decides passivity; after each frame the lines in the figure are compared with the recorded flight, over interleavings of two live renderers.',
  'Exploration; matplotlib\'s rasteriser is trusted.', ['MatplotlibRenderer.render', 'figure artists'],
  'runtime monitor: protocol and artist checker with twin environment')
