P('P24', 'Grid forecasts are the clamped, time-reflected interpolation of samples',
  'After a reset with a key and date, the forecast of a grid wind field at any point is the multilinear interpolation in x, y, pressure and time of the samples drawn once for that key and date. Outside the grid the boundary values hold in x, y and pressure, and time reflects at the horizon (after 48 h the field runs backwards, then forwards again). A column of forecasts equals the pointwise forecasts, asking before a reset raises RuntimeError, the deprecated generative field gives the same winds as the grid field over the generative sampler, and the static field blows 10 m/s east, north, west, south below 8, 10, 12 kPa and above. Answers do not depend on earlier questions or on fields used before a reset.',
  'inputs', 'every sampled field and grid geometry, position (far outside too), pressure and elapsed time',
  T_SAMPLE + 'tests probe a few points of one field and never the reflection and clamping over the domain.',
  [ENV + 'grid_based_wind_field.py', ENV + 'generative_wind_field.py', ENV + 'grid_wind_field_sampler.py', ENV + 'wind_field.py', B + 'generative/vae.py'],
  'interpolation, clamping and boomerang @ GridBasedWindField.get_forecast; static winds @ SimpleStaticWindField.get_forecast',
  'Own float64 interpolation over random uncorrelated fields of three grid geometries, smooth fields and generated fields (synthetic decoder weights); points inside, on knots, clamped on either side, and over six time legs; metamorphic reflection/period checks.',
  'Exploration; float32 query rounding: 2e-4 of the field\'s range.', ['WindField.get_forecast', 'WindField.get_forecast_column'],
  'runtime monitor: shadow interpolation of every forecast')

P('P25', 'The true wind is the forecast plus seeded simplex noise',
  'The ground truth at any point is the forecast there plus a noise vector that is continuous, about unit variance per component, and a function of the reset key and the point only: the weighted, variance-corrected sum of the five documented simplex harmonics per component. The same key gives the same noise on any field, whatever was reset or asked before, and different keys give different noise. Noise before a reset raises ValueError, unknown components raise RuntimeError, and wind vectors add component-wise and only to each other. Answers do not depend on earlier questions.',
  'inputs histories', 'every key, point and history of resets',
  T_SAMPLE + 'tests check a few shapes and signs of the noise.',
  [ENV + 'wind_field.py', ENV + 'simplex_wind_noise.py'],
  'noise composition @ WindField.get_ground_truth; harmonics @ NoisyWindComponent.get_noise; key derivation @ WindField.reset',
  'The noise is reconstructed independently from the reset key (own harmonic table, own combination) and compared with ground truth minus forecast on two kinds of field; repeated keys, interleaved resets, continuity, statistics.',
  'Exploration; opensimplex and the JAX generator are trusted.', ['WindField.get_ground_truth', 'NoisyWindComponent.get_noise'],
  'runtime monitor: independent noise reconstruction')

P('P26', 'The wind posterior combines forecast and fresh measurements',
  'A query returns the forecast plus the Gaussian-process correction from all measurements less than six hours from the query time, and as uncertainty the posterior variance as a fraction of the prior: in (0,1], never increased by another measurement, 1 (and the bare forecast) when every measurement is stale. Without any measurement it returns the forecast. The answer does not depend on the order of measurements or on other queries, single and batch queries agree, and a reset forgets every measurement and takes the new forecast.',
  'histories inputs', 'every measurement history, query point and reset',
  T_SAMPLE + 'tests look at one or two measurements and qualitative relations.',
  [ENV + 'wind_gp.py'],
  'posterior @ WindGP.query_batch; six-hour filter @ WindGP.query_batch; forgetting @ WindGP.reset',
  'A float64 Gaussian process (exponential kernel, documented scales) shadows each process over random histories with repeated, stale, future and distant measurements; permutations, other-time queries, past queries, resets.',
  'Exploration; 2e-5 m/s, 1e-6 in uncertainty.', ['WindGP.query', 'WindGP.query_batch'],
  'runtime monitor: shadow Gaussian process')

P('P27', 'Generated wind fields are incompressible, finite and a function of the key',
  'A field sampled from the generative model is a finite array of the declared shape (21,21,10,9,2), the decoding of a 64-dimensional standard normal drawn from the key, the same for the same key whatever the date or sampler object, and different for different keys. Each pressure-time slice of any decoded field derives from one stream function, so it is incompressible on its grid. The autoencoder reconstructs by decoding mean + exp(logvar/2) x normal noise from its key (or the mean itself when reparameterisation is off), and the grid geometry follows the field-shape parameters. Decoder and encoder are the documented networks (three hidden layers of 1000, 7x7 stream functions grown linearly and differenced; winds squashed by x/(50+|x|)) in the packaged weight layout. Nor does the field depend on fields generated before for similar keys.',
  'inputs', 'every key, latent, decoder weights and field-shape parameters',
  T_SAMPLE + 'tests check shapes only.',
  [B + 'generative/vae.py', ENV + 'generative_wind_field.py'],
  'stream function differences @ vae.Decoder; sampling @ GenerativeWindFieldSampler.sample_field; reparameterisation @ vae.WindFieldVAE',
  'Every decoded field has its mixed second differences summed (they must cancel); sampled fields are compared across dates, objects and with own decoding of the latent; grid sizes and points recomputed for random geometries.',
  'Exploration with synthetic decoder weights (trained weights are not in the repository).', ['vae.Decoder', 'GenerativeWindFieldSampler.sample_field', 'vae.WindFieldVAE'],
  'runtime monitor: differential-identity assertion on each field')

P('P28', 'Units convert, combine and compare like physical quantities',
  'Distances, velocities, energies and powers built from any documented unit read back consistently in every other, add, subtract, scale and divide like real numbers without changing their operands, and distance/time, velocity x time, power x time give velocity, distance and energy. Comparisons agree with the numbers (distances and velocities equal within 1e-9), mixing different quantities is refused with an exception, and constructors take no bare numbers. Time helpers convert exactly and give UTC datetimes unless told otherwise.',
  'inputs', 'all values and pairs of quantities', T_SAMPLE + 'some operators and refusals are not tested at all.',
  [UT + 'units.py'], 'operator overloads @ units.py; datetimes @ units.datetime',
  'Algebraic laws on random values over ten decades; all mixed pairs for refusal; datetimes with and without zones.',
  'Exploration; 1e-12.', ['units.Distance', 'units.Velocity', 'units.Energy', 'units.Power'])

P('P29', 'Feature transforms are bounded, monotone and invertible',
  'Linear rescaling maps [vmin,vmax] onto [0,1] and extrapolates linearly, its saturating form clips to [0,1], and squashing maps x >= 0 to x/(x+constant) in [0,1), increasing in x; the undo functions are their inverses. Scalars and arrays are treated alike and arguments are not changed. Empty or reversed intervals, non-positive squash constants, negative inputs (any entry of an array) and undo inputs outside [0,1) raise ValueError.',
  'inputs', 'all inputs, intervals and constants', T_SAMPLE + 'inverses are sampled at a few points.',
  [UT + 'transforms.py'], 'transforms and inverses @ transforms.py',
  'Round trips, bounds, monotonicity and refusals on random inputs over many decades.',
  'Exploration; 1e-9.', ['transforms.*'])

P('P30', 'Positions follow great circles on the sphere and survive copying',
  'An offset (x east, y north) from a centre leads to the point at distance hypot(x,y) along the great circle of that heading on a sphere of 6371 km, as a valid normalised position, across the date line and up to the poles. The balloon\'s latitude and longitude are its station\'s offset by its x and y. Positions survive pickling and copying.',
  'inputs', 'every centre and offset', T_SAMPLE + 'tests use a handful of offsets.',
  [UT + 'spherical_geometry.py', BAL + 'balloon.py'], 'offset formula @ spherical_geometry.calculate_latlng_from_offset; copyreg @ spherical_geometry.pickle_latlng',
  'An independent three-dimensional vector formulation; distances by chord; date line, axis headings, exact pole hits, zero offsets.',
  'Exploration; 0.5 m.', ['spherical_geometry.calculate_latlng_from_offset'])

P('P31', 'Episode conditions are sampled inside their documented domains',
  'Sampled locations lie within 10 deg of the equator and 175 deg of Greenwich, times in [2011-01-01, 2014-12-31) UTC or the given range, pressures between 6500 Pa and the pressure of 50,000 ft (11,400 Pa without an atmosphere), and infrared in [225, 315] (225 to 301 for inverse_lognormal); unknown distributions raise ValueError. Each is a function of its key alone, and over keys locations, times and pressures spread uniformly over their domains and infrared varies.',
  'inputs', 'every key, time range and atmosphere', T_SAMPLE + 'tests look at a few keys.',
  [UT + 'sampling.py'], 'seeded samplers @ sampling.py',
  'Bounds and repeatability for every sample, decile histograms within six standard errors. Known finding: the logit-normal infrared is all but constant (scale 315).',
  'Exploration; spread limits at six standard errors.', ['sampling.*'])
