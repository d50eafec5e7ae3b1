T_SAMPLE = 'The unit tests try one or a few hand-picked cases; '

P('P01', 'A seeded environment is reproducible and isolated',
  'An episode (observations, rewards, terminal flags and balloon states) is a function of the environment\'s seed, its configuration and the actions alone: it is the same after a reset with that seed, in a freshly constructed environment, in another process, and whatever other environments, observers or global random generators do in between. An environment or arena given no seed flies an episode of its own. Resetting an environment without a seed continues a sequence of different episodes that is itself determined by the last seed. An observation array already handed out is not changed by later steps.',
  'inputs histories', 'every seed, action sequence, prior history of the object and interleaving with other work',
  T_SAMPLE + 'one test compares a single seed; none interleaves other work, re-uses an environment with a past, or compares processes.',
  [ENV + 'balloon_env.py', ENV + 'balloon_arena.py', UT + 'sampling.py', ENV + 'wind_field.py'],
  'key splitting per reset and step @ BalloonEnv.reset; seeded sampling of start conditions @ BalloonArena.reset; per-episode noise keys @ WindField.reset',
  'Differential replay monitor: each episode is recorded and replayed five ways (used object, constructor seed, interleaved with foreign environments and reseeded global generators, integer seed against PRNG key, another process with another hash seed and time zone); every step of every replay is compared field by field (states 1e-9, observations 1e-5). Static and grid wind fields.',
  'Exploration: random seeds and action sequences on two wind fields; observations compared to 1e-5, states to 1e-9.',
  ['BalloonEnv.reset/step outputs', 'BalloonEnv.get_simulator_state()'], 'runtime monitor: differential replay of recorded episodes')

P('P02', 'Observations, rewards and actions honour the declared gym spaces',
  'Every observation from reset and step is a finite float32 vector of 1099 entries inside the declared observation space, whose bounds are [0,1] except [-1,1] for the four sine/cosine entries and [1,inf) for the pressure ratio. The two sine/cosine pairs lie on the unit circle, the last command is one-hot, navigation paused and enabled are complementary flags and excess energy is a flag. The action space is Discrete(3), rewards lie in the declared range [0,1] and the terminal flag is a boolean. An observation that was handed out does not change afterwards.',
  'inputs histories', 'every reachable balloon state on every episode, including far from the station, at the station itself, and at extreme altitudes',
  T_SAMPLE + 'the tests look at a few observations near a fixed start state.',
  [ENV + 'balloon_env.py', ENV + 'features.py', UT + 'transforms.py'],
  'saturation and squashing of features @ PerciatelliFeatureConstructor.get_features; declared spaces @ PerciatelliFeatureConstructor.observation_space',
  'Online monitor on every reset/step: space membership, finiteness, structure of flags and unit-circle pairs, reward range. Flights of random seeds with sticky random actions on static and grid winds, then the balloon is placed far away (3000 km), at the station, and from 4.2 to 17.5 kPa.',
  'Exploration of flown and placed states; physical states only (positive superpressure).',
  ['BalloonEnv.reset/step outputs'], 'runtime monitor: online space/shape assertions on every step')

P('P03', 'The sixteen ambient features encode the balloon state as documented',
  'The first sixteen observation entries are, in order: pressure on [5,14] kPa and battery charge clipped to [0,1], solar elevation rescaled from [-90,90] deg, sine and cosine of the solar cycle angle (0 at sunrise, pi at sunset), sine and cosine of the bearing to the station, distance d/(d+250 km), one-hot last command (up, stay, down), navigation paused, navigation enabled, the excess-energy flag, the tabulated descent power rescaled from [100,300] W, and the superpressure ratio. The excess-energy flag is set exactly when the panels deliver more than the daytime load and the battery is more than 99% full. NamedPerciatelliFeatures reads back each of these from the vector.',
  'inputs', 'every balloon state: position, time of day, battery, pressure, layer state and last command',
  T_SAMPLE + 'tests check a handful of features on one state; the angle conventions, thresholds and table edges are not exercised over their domain.',
  [ENV + 'features.py', BAL + 'power_table.py', BAL + 'solar.py', UT + 'transforms.py'],
  'named feature writing @ PerciatelliFeatureConstructor; decoding @ NamedPerciatelliFeatures; excess energy @ BalloonState.excess_energy',
  'Every observation is decoded by an independent model (own NOAA sun, own tables, own angles) from the balloon state observed beside it; flown states and states placed at every corner of the encoding (paused layers, full batteries with and without sun, station itself, axes). NamedPerciatelliFeatures is compared as the inverse.',
  'Exploration; tolerance 2e-6 (float32); states within rounding of the excess-energy or table thresholds skipped.',
  ['PerciatelliFeatureConstructor.get_features()', 'NamedPerciatelliFeatures'], 'runtime monitor: independent decoder of every observation')

P('P04', 'The wind column encodes the posterior wind at every reachable level',
  'Entries 16 onwards are 361 triples (uncertainty, bearing, magnitude) for pressure levels centred on the balloon\'s own level: levels outside the accessible pressure range or outside 5-14 kPa hold exactly (0,1,1). Every reachable level holds the posterior variance of the wind there as a fraction of its prior variance, the angle between that wind and the direction to the station divided by pi (0 when at the station, 1 in still air elsewhere), and the speed s/(s+30 m/s), where the wind is the forecast corrected by a Gaussian process over this episode\'s wind measurements of the last six hours. NamedPerciatelliFeatures and the documented conversion to a real wind read these values back, and a level outside the column is refused. Exactly the triple (0,1,1) stands for no wind.',
  'inputs histories', 'every balloon level, wind field and measurement history',
  T_SAMPLE + 'tests use a static wind and one position; the interplay of level offset, reachable range and measurement history is not covered.',
  [ENV + 'features.py', ENV + 'wind_gp.py', UT + 'transforms.py', BAL + 'pressure_range_builder.py'],
  'column construction @ PerciatelliFeatureConstructor; posterior @ WindGP.query_batch; reader @ NamedPerciatelliFeatures.wind_at',
  'A shadow float64 Gaussian process is fed the same measurements; every triple of every observed column is recomputed and compared (361 per observation). Long episodes make measurements go stale; placements at the station and at range edges.',
  'Exploration; variance 1e-4, wind 1e-5; levels within 1e-6 Pa of a range end skipped. The accessible range itself is P18.',
  ['PerciatelliFeatureConstructor.get_features()'], 'runtime monitor: shadow Gaussian process compared per observation')

P('P05', 'The reward is the documented station-keeping function of the state',
  'The reward of a step is 1 when the balloon ends it within 50 km of the station (boundary included) and 0.4 * 2^(-(d-50 km)/100 km) otherwise. It is multiplied by 0.95 - 0.3*clip((compressor power - 100 W)/200 W, 0, 1) when the last command was down and there is no excess energy. Radius, drop-off and half-life are configurable arguments (the environment tells its radius), and a user-supplied reward function is evaluated exactly once per step, on the state after the step, and its value is returned.',
  'inputs', 'every state (distance, command, compressor power, battery, sun) and reward parameters',
  T_SAMPLE + 'tests check a few distances and powers.',
  [ENV + 'balloon_env.py'],
  'reward @ perciatelli_reward_function; use of the reward function @ BalloonEnv.step',
  'Every reward (direct calls over random states with exact boundary placements, custom parameters, and rewards handed out by live environments) is recomputed by an independent model; monotonicity in distance; a counting reward function checks call count and state.',
  'Exploration; 1e-8 relative; states within rounding of the excess-energy thresholds skipped.',
  ['perciatelli_reward_function', 'BalloonEnv.step'])

P('P06', 'Episodes end exactly at balloon failures, and only a reset revives them',
  'A step is terminal exactly when the balloon has failed; info says which of out_of_power, envelope_burst or zeropressure it was and the elapsed time, and a non-failing step advances the clock by exactly three minutes. A failed episode and an action outside the action space are refused with an exception that leaves the balloon unmoved, and reset then starts the very episode a fresh environment with that seed would (clock at zero, status OK, last command stay). Actions 0, 1, 2 mean down, stay, up.',
  'histories inputs', 'every seed, action sequence, failure cause and moment of failure',
  T_SAMPLE + 'the tests never fly into each failure through the environment and never touch the environment afterwards.',
  [ENV + 'balloon_env.py', ENV + 'balloon_arena.py', BAL + 'balloon.py', BAL + 'control.py'],
  'terminal and info @ BalloonEnv.step; refusal @ Balloon.simulate_step; action decoding @ AltitudeControlCommand',
  'Trace monitor over environment steps: status, terminal flag, info and clock are compared after every step; each failure cause is provoked at random moments, after which stepping must be refused (state compared before/after) and reset must reproduce the fresh episode; bad actions; the direction air moves for each action.',
  'Exploration; the refused command may be recorded as last command.',
  ['BalloonEnv.reset/step'], 'runtime monitor: trace checker with injected failures')

P('P07', 'A saved simulator state resumes the same flight',
  'A simulator state that is deep-copied or pickled and set into another arena, whatever that arena did before, continues with the same winds, atmosphere, safety-layer states and balloon, so that the resumed flight equals the original step for step under the same actions. Saving does not disturb the live balloon and the two flights do not influence each other.',
  'histories inputs', 'every moment of saving, both ways of saving, every continuation',
  T_SAMPLE + 'tests restore a fresh state at best and do not compare continuations.',
  [ENV + 'balloon_arena.py', ENV + 'simulator_data.py', BAL + 'balloon.py', ENV + 'wind_field.py'],
  'state bundle @ SimulatorState; restore @ BalloonArena.set_simulator_state; safety layer pickling @ BalloonState',
  'Cut-and-resume monitor: random cut points, layers in non-initial states, deepcopy and pickle; the original and resumed flights are advanced in lock step and all state fields compared to 1e-9, plus winds and atmosphere at random points.',
  'Exploration; observations are not compared since the wind history is documented not to be part of the simulator state.',
  ['BalloonArena.get/set_simulator_state'], 'runtime monitor: lock-step comparison of original and resumed runs')
