PH = T_SAMPLE + 'the numerical behaviour over the domain is only sampled, often with regression values taken from the code itself.'

P('P08', 'The balloon drifts with the wind and its clocks agree',
  'Over a step the balloon\'s x and y change by exactly the wind velocity times the time simulated, and the date-time and the elapsed time advance by that same amount. The time simulated is the whole requested duration, or, when the balloon fails, ends with the stride in which it failed; durations that are not a whole number of strides are refused without changing the state. The arena flies the balloon for three minutes in the ground-truth (noisy) wind at its position, pressure and elapsed time at the start of the step.',
  'inputs histories', 'every state, wind, duration, stride and failure moment', PH,
  [BAL + 'balloon.py', ENV + 'balloon_arena.py'],
  'stride loop @ Balloon.simulate_step; arena step @ BalloonArena.step',
  'Every simulated step (random flights, many durations and strides, provoked failures in mid-step) is compared with drift = wind x elapsed time and an independent prediction of the stride of failure; an analytic wind field that depends on all coordinates and separates forecast from truth probes the arena.',
  'Exploration; 1e-9.', ['Balloon.simulate_step', 'BalloonArena.step'])

P('P09', 'Battery energy is accounted for exactly and stays within capacity',
  'In every stride the battery charge changes by (solar power - load) x time and is clipped to [0, capacity]. The load is the daytime load when the sun is above the horizon limit and the nighttime load otherwise, plus the compressor power while descending; solar power and compressor power are reported in the state as used.',
  'inputs histories', 'every state, time of day, command and parameter choice', PH,
  [BAL + 'balloon.py', BAL + 'solar.py', UT + 'units.py'],
  'power section @ Balloon.simulate_step; panel power @ solar.solar_power',
  'Conservation monitor: every stride of random and boundary flights (full at noon, empty at night) is recomputed by an independent float64 model of the sun and loads; charge bounds asserted always.',
  'Exploration; strides within 1e-7 deg of a sun threshold are compared through invariants only.', ['Balloon.simulate_step'],
  'runtime monitor: conservation check per stride')

P('P10', 'Gas law, envelope elasticity and ballonet air are conserved',
  'Volume and superpressure always satisfy the ideal gas law for all gas inside: below the limp limit the volume follows the gas and the superpressure is zero, beyond it the volume grows linearly with the superpressure. Ballonet air changes only by the mass flow: rises by efficiency x power while compressing, falls by the square-root valve law while venting, stays otherwise and is never negative; the helium never changes.',
  'inputs histories', 'every amount of gas, temperature, pressure, envelope and command', PH,
  [BAL + 'balloon.py', BAL + 'acs.py'],
  'gas state @ calculate_superpressure_and_volume; mass flow @ Balloon.simulate_step',
  'The gas-state function is compared with a float64 solution over random inputs and around the limp/taut boundary, its monotonicity asserted, and each stride of many flights is checked for conservation of air and helium, including venting an almost empty ballonet.',
  'Exploration; the efficiency table itself is P23.', ['calculate_superpressure_and_volume', 'Balloon.simulate_step'],
  'runtime monitor: conservation check per stride')

P('P11', 'Vertical motion and heat balance follow the physical model',
  'Each stride the balloon rises exactly when it displaces more air mass than it weighs, at the terminal velocity where drag balances net buoyancy, with pressure following the atmosphere\'s density, and its ambient temperature is the atmosphere\'s. The internal temperature follows the documented heat balance (sun, earth infrared, own radiation, convection) by one explicit Euler step per stride. Envelope mass, payload mass, drag coefficient and upwelling infrared never change during flight and black-body flux and temperature are inverse. A film whose total absorptivity is outside [0,1] is refused.',
  'inputs histories', 'every state, sun position, pressure, infrared and command', PH,
  [BAL + 'balloon.py', BAL + 'thermal.py', BAL + 'standard_atmosphere.py'],
  'buoyancy and drag @ Balloon.simulate_step; heat balance @ thermal.d_balloon_temperature_dt',
  'An independent stride model (own atmosphere, own thermal model) predicts pressure and temperatures for every stride; direct thermal calls over random inputs.',
  'Exploration; 1e-8.', ['Balloon.simulate_step', 'thermal.d_balloon_temperature_dt'])

P('P12', 'Failures are reported exactly when they occur, and are final',
  'After each stride the status is burst exactly when superpressure exceeds the envelope limit, zero-pressure exactly when it is not positive, and out of power exactly when the battery is empty; otherwise it stays OK. The simulation of a step stops with that stride, and a failed balloon refuses to be stepped, leaving its state unchanged.',
  'inputs histories fault_sequences', 'every failure cause, combination of causes and stride', PH,
  [BAL + 'balloon.py'], 'status update @ Balloon.simulate_step',
  'Fault injection: heat, cold, a weak envelope, an empty battery and combinations are set up at random; the status after every step is compared with the independent stride model.',
  'Exploration; superpressures within 1e-6 Pa of a limit skipped.', ['Balloon.simulate_step'],
  'runtime monitor: status oracle under injected faults')

P('P13', 'The altitude safety layer keeps the balloon above 50,000 ft',
  'For any history of altitudes and commands: below 50,000 ft the layer commands up, below 50,500 ft it never lets down through (it becomes stay), having been in the buffer it keeps that restriction until 51,000 ft is reached, and otherwise commands pass unchanged. The paused flag is set exactly while the layer is restricting, and different layers share nothing.',
  'histories', 'every sequence of altitudes, atmospheres and commands', T_SAMPLE + 'the hysteresis makes the answer depend on the whole history.',
  [BAL + 'altitude_safety.py'], 'state machine with hysteresis @ AltitudeSafetyLayer.get_action',
  'A model state machine shadows the layer over random walks and jumps around every band edge (both sides to 1e-3 ft); safety assertions independent of the model are evaluated on every query.',
  'Exploration of histories; coverage of (band, band, state, command) recorded.', ['AltitudeSafetyLayer.get_action'],
  'runtime monitor: shadow state machine + safety assertions')

P('P14', 'The envelope safety layer protects the superpressure limits',
  'For any history of superpressures and commands: within 150 Pa of zero or of the envelope limit the layer commands up, within 250 Pa it never lets down through (it becomes stay), having been inside those buffers it keeps the restriction until 300 Pa away from that limit, and otherwise commands pass unchanged. The paused flag is set exactly while the layer is restricting, and different layers share nothing.',
  'histories', 'every sequence of superpressures, envelope strengths and commands', T_SAMPLE + 'the hysteresis makes the answer depend on the whole history.',
  [BAL + 'envelope_safety.py'], 'state machine with hysteresis @ EnvelopeSafetyLayer.get_action',
  'As P13, with six band edges and random envelope strengths.',
  'Exploration of histories; coverage of (band, band, state, command) recorded.', ['EnvelopeSafetyLayer.get_action'],
  'runtime monitor: shadow state machine + safety assertions')

P('P15', 'The power safety layer saves the battery for the night',
  'At night, once the charge left 30 minutes after the next sunrise at the given nighttime load would be below 2.5% of capacity, the layer turns down into stay and reports itself paused; the pause lasts through the night and, by day, until the charge reaches 5%. Otherwise every command passes, and up and stay always do. Day (from 30 minutes after sunrise to sunset) and night follow the sunrise and sunset computed at construction, advanced by whole days as they pass.',
  'histories', 'every sequence of times, charges, loads and commands', T_SAMPLE + 'the answer depends on the history across day/night changes.',
  [BAL + 'power_safety.py', BAL + 'solar.py'], 'state machine with day clock @ PowerSafetyLayer.get_action',
  'A model shadows the layer over multi-day histories with charges steered around the threshold; an assertion independent of the layer\'s clock forbids descending in deep night on a charge that cannot last.',
  'Exploration of histories; queries within 1e-9 of the threshold skipped; sunrise times themselves are P21.', ['PowerSafetyLayer.get_action'],
  'runtime monitor: shadow state machine + safety assertions')

P('P16', 'The safety layers compose, and the state says what happened',
  'The command a balloon executes in a step is the agent\'s command passed through the power layer (when enabled), then the envelope layer, then the altitude layer, evaluated on the state at the start of the step. The state\'s last command is the agent\'s command, navigation is reported as paused exactly when some layer is restricting, and when none is, the agent\'s command is executed.',
  'histories inputs', 'every flight history, command and configuration of layers', T_SAMPLE + 'layers are tested one at a time.',
  [BAL + 'balloon.py', BAL + 'power_safety.py', BAL + 'envelope_safety.py', BAL + 'altitude_safety.py'],
  'layer chain @ Balloon.simulate_step; paused flag @ BalloonState.navigation_is_paused',
  'Three model layers shadow every flight; the effective command is read off its physical footprint (compressor power, venting flow). Flights start near each limit, with and without the power layer.',
  'Exploration; flights stop being compared at rounding-close layer inputs.', ['Balloon.simulate_step', 'BalloonState'],
  'runtime monitor: shadow composition of three state machines')

P('P17', 'Cold-started balloons float in thermal and buoyant equilibrium',
  'Cold start sets the ambient temperature to the atmosphere\'s, the internal temperature to where the heat balance is zero, the ballonet air to what makes the displaced air (at base volume) weigh as much as the balloon (zero if already too heavy), and volume and superpressure to the gas law, and changes nothing else. Every episode starts from such a balloon, with clock zero, status OK, 95% charge, within 200 km of the station, at 6,500 Pa up to the pressure of 50,000 ft, with start time, position and infrared from the documented domain: over seeds the direction from the station and the pressure are uniform and the distance is 200 km times a Beta(1.2, 2) draw. The vehicle is always the documented one (volume 1804 m3 + 0.0199 m3/Pa, envelope 68.5 kg, payload 92.5 kg, drag 0.25, limit 2380 Pa, 6830 mol helium, loads 183.7/120.4 W, battery 3058.56 Wh). What was cold-started before does not matter.',
  'inputs', 'every pressure, position, time, infrared and balloon parameters; every seed', PH,
  [BAL + 'stable_init.py', ENV + 'balloon_arena.py', UT + 'sampling.py'],
  'equilibrium search @ stable_init.calculate_stable_params_for_pressure; start state @ BalloonArena.reset',
  'Archimedes, gas law and heat balance are re-derived independently for each initialised balloon, and all other fields compared before/after; arena resets over many seeds are checked against the documented start domain.',
  'Exploration; internal temperature to 2e-4 K (the code\'s stopping rule).', ['stable_init.cold_start_to_stable_params', 'BalloonArena.reset'])

P('P18', 'The accessible pressure range is where the balloon can safely float',
  'The reported range lies between the pressure where the balloon floats with an empty ballonet and the pressure at 50,000 ft, its ends are in order and each is safe to float at (floating superpressure at least 250 Pa from zero and from the envelope limit). An end lies at that physical limit if the limit is safe and otherwise at a crossing of a 250 Pa margin, and an error is raised only when no safe level exists. The answer depends on the balloon and the atmosphere alone, not on earlier questions.',
  'inputs', 'every balloon, atmosphere, infrared and sun', PH,
  [BAL + 'pressure_range_builder.py', BAL + 'stable_init.py'],
  'level table and interpolation @ pressure_range_builder.get_pressure_range',
  'The floating superpressure is recomputed by bisection on the independent stable model at and around the reported ends.',
  'Exploration; ends to 40 Pa of superpressure / 25 Pa of pressure (20-level table interpolation).', ['pressure_range_builder.get_pressure_range'])

P('P19', 'The standard atmosphere is a consistent hydrostatic column',
  'For every random key, height to pressure, temperature and density follows piecewise linear lapse rates mixed from the two documented profiles in one proportion, in hydrostatic balance and obeying the gas law; pressure strictly falls with height and lookup by pressure inverts lookup by height. Heights and pressures outside the column are refused. The same key gives the same atmosphere, different keys vary it. Answers do not depend on earlier questions or on the atmosphere before a reset.',
  'inputs', 'every key, height and pressure', PH,
  [BAL + 'standard_atmosphere.py'], 'layer tables @ Atmosphere.reset; lookups @ Atmosphere.at_height / at_pressure',
  'The lapse mix is identified from one probe and the entire column is then recomputed independently; boundaries of every layer, hydrostatic balance by finite differences, refusals.',
  'Exploration; 1e-9.', ['Atmosphere.at_height', 'Atmosphere.at_pressure'])

P('P20', 'The sun is where astronomy says, at every place and instant',
  'The elevation, azimuth and solar flux for any valid position and instant agree with the NOAA equations, and elevation and azimuth with the independent almanac within 0.1 deg. They depend on the instant and not on the time zone it is written in, vary continuously, and are finite and right even with the sun exactly overhead. Invalid positions and times without a zone are refused. Answers do not depend on earlier questions.',
  'inputs', 'every latitude, longitude and instant', PH,
  [BAL + 'solar.py'], 'solar position @ solar.solar_calculator',
  'Two independent oracles (transcribed NOAA equations; Astronomical Almanac formula), metamorphic time-zone and continuity checks, subsolar-point search.',
  'Exploration; NOAA 1e-6 deg, almanac 0.05-0.1 deg.', ['solar.solar_calculator'])

P('P21', 'Sunrise, sunset, solar noon and midnight are the next ones',
  'For any instant and place (up to 60 deg latitude) the reported sunrise and sunset are where the sun next crosses the horizon limit, and solar noon and midnight where its elevation next peaks and bottoms, within a search step and a minute (a few minutes beyond 30 deg latitude), in the next 24 hours, with the elevation at that instant. The steps to sunrise are zero by day and the rounded-up wait at night, and it is afternoon exactly from noon to midnight. Latitudes beyond 60 deg are refused. Answers do not depend on earlier questions.',
  'inputs', 'every place, instant and search step', PH,
  [BAL + 'solar.py'], 'extremum and crossing search @ solar.get_next_sunrise_sunset',
  'The truth is a scan and bisection on the independent NOAA transcription; queries are concentrated around the events.',
  'Exploration; tolerance one search step + 60 s (150 s beyond 30, 390 s beyond 50 deg).', ['solar.get_next_sunrise_sunset', 'solar.get_next_solar_noon', 'solar.get_next_solar_midnight', 'solar.calculate_steps_to_sunrise', 'solar.is_solar_afternoon'])

P('P22', 'Solar power follows air mass, horizon and panel geometry',
  'Atmospheric attenuation follows the air-mass model, lies in [0,1], is zero below the horizon limit and never falls with a higher sun or thinner air. The balloon shadows the panels exactly within the documented geometric range of elevations, and panel power is flux x attenuation x shadow through the documented two-panel geometry, zero without sun. Elevations outside [-90,90] deg and pressures outside [0,101325] Pa are refused.',
  'inputs', 'every elevation, pressure and panel distance', PH,
  [BAL + 'solar.py'], 'attenuation, shadow and power @ solar.py',
  'Each value is recomputed independently; bounds, monotonicity and refusals asserted; elevations concentrated at the horizon and shadow limits.',
  'Exploration; 1e-9.', ['solar.solar_power', 'solar.solar_atmospheric_attenuation', 'solar.balloon_shadow'])

P('P23', 'Compressor power, fan efficiency, air flow and descent table are right',
  'The compressor runs at the most efficient power for the pressure ratio (piecewise linear 100-400 W, non-decreasing), its efficiency is the bilinear interpolation of the documented ratio x power table, the mass flow is efficiency x power / 3600, and in flight all three follow the state at the start of the stride, with no compressor power without a descent. The descent power lookup is the documented step table in pressure ratio and charge, non-decreasing in charge, and refuses ratios outside [0.99, 5]. The pressure ratio is 1 + superpressure / pressure, and exactly 1 for an envelope without superpressure.',
  'inputs histories', 'every pressure ratio, power and charge; every descending stride', PH,
  [BAL + 'acs.py', BAL + 'power_table.py', BAL + 'balloon.py'], 'interpolations @ acs.py; step table @ power_table.lookup',
  'All lookups recomputed independently, concentrated at knots and edges; descents in flight are checked stride by stride. Known finding: the efficiency table is read transposed (identified by equality with the transposed interpolation; any other deviation is a violation).',
  'Exploration; one known finding (transposed efficiency table).', ['acs.get_fan_efficiency', 'acs.get_most_efficient_power', 'acs.get_mass_flow', 'power_table.lookup'])
