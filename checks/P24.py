"""P24: forecasts from a grid are the multilinear interpolation of its samples."""
import datetime as dt

import gin
import jax
import numpy as np
from balloon_learning_environment.env import generative_wind_field
from balloon_learning_environment.env import grid_based_wind_field
from balloon_learning_environment.env import grid_wind_field_sampler
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.generative import vae
from balloon_learning_environment.utils import units
from vp import envs, sim

RULE = ('one evaluation = one forecast compared with own interpolation; distinct '
        'by (sampler, clamped axes, time leg, on-knot axes)')
ASSUMPTIONS = ['queries are rounded to float32 by design: tolerance 2e-4 of the '
               'field\'s range']


class RandomSampler(grid_wind_field_sampler.GridWindFieldSampler):
  """Uncorrelated values at every grid point; remembers how it was called."""

  def __init__(self, shape):
    self.shape = shape
    self.calls = []

  @property
  def field_shape(self):
    return self.shape

  def sample_field(self, key, date_time):
    self.calls.append((np.asarray(key).tolist(), date_time))
    r = np.random.default_rng([int(jax.random.randint(key, (), 0, 2**31 - 1)), int(date_time.timestamp())])
    return r.uniform(-20, 20, self.shape.grid_shape()).astype(np.float32)


def interp(grid, field, pt):
  """Multilinear interpolation in float64."""
  out = np.zeros(2)
  corners = [(1.0, ())]
  for g, v in zip(grid, pt):
    i = int(np.clip(np.searchsorted(g, v, side='right') - 1, 0, len(g) - 2))
    f = (v - g[i]) / (g[i + 1] - g[i])
    corners = [(w * (1 - f), c + (i,)) for w, c in corners] + [(w * f, c + (i + 1,)) for w, c in corners]
  for w, c in corners:
    out += w * field[c].astype(float)
  return out


def fold(h, horizon):
  m = h % (2 * horizon)
  return m if m <= horizon else 2 * horizon - m


def uv(w):
  return np.array([w.u.mps, w.v.mps], dtype=float)


def hours(h):
  return dt.timedelta(microseconds=round(h * 3.6e9))


def query(rng, fs, grid):
  """A point: inside, outside, on knots; and its labels."""
  D, T = fs.latlng_displacement_km, fs.time_horizon_hours
  pt, label = [], []
  for ax, (lo, hi) in enumerate(((-D, D), (-D, D), (fs.min_pressure_pa, fs.max_pressure_pa))):
    k = rng.random()
    if k < 0.6:
      v, l = float(rng.uniform(lo, hi)), 'in'
    elif k < 0.75:
      v, l = float(rng.choice(grid[ax])), 'knot'
    elif k < 0.87:
      v, l = lo - float(rng.choice([1e-6, 1, 50, 3000])), 'below'
      if ax == 2:
        v = max(v, 100.0)
    else:
      v, l = hi + float(rng.choice([1e-6, 1, 50, 3000])), 'above'
    pt.append(v)
    label.append(l)
  k = rng.random()
  if k < 0.5:
    t = float(rng.uniform(0, T))
  elif k < 0.8:
    t = float(rng.uniform(T, 6 * T))
  elif k < 0.88:  # Weeks later.
    t = float(rng.uniform(6 * T, 60 * T))
  else:
    t = float(T * rng.integers(0, 6) + rng.choice([-1e-3, 0, 1e-3, 0.5]))
  t = max(0.0, t)
  label.append(int(t / T))
  return pt, t, tuple(label)


def value(wf, pt, t):
  return uv(wf.get_forecast(units.Distance(km=pt[0]), units.Distance(km=pt[1]), pt[2], hours(t)))


def probe(ctx, rng, name, wf, n):
  fs = wf.field_shape
  grid = [np.asarray(g, dtype=float) for g in
          (fs.latlng_grid_points(), fs.latlng_grid_points(), fs.pressure_grid_points(), fs.time_grid_points())]
  D, T = fs.latlng_displacement_km, fs.time_horizon_hours
  field = np.array(wf.field)
  span = float(field.max() - field.min()) + 1e-6
  tol = 2e-4 * span
  for _ in range(n):
    pt, t, label = query(rng, fs, grid)
    got = value(wf, pt, t)
    c = [min(max(pt[0], -D), D), min(max(pt[1], -D), D),
         min(max(pt[2], fs.min_pressure_pa), fs.max_pressure_pa), fold(t, T)]
    want = interp(grid, field, c)
    info = dict(sampler=name, point=pt, hours=t, label=label)
    ctx.close(got, want, 'forecast is not the interpolation of the grid', 0, tol, **info)
    ctx.check(np.all(got <= field.max(axis=(0, 1, 2, 3)) + tol) and np.all(got >= field.min(axis=(0, 1, 2, 3)) - tol),
              'forecast outside the range of the samples', got=got, **info)
    # Beyond 48 h the field runs backwards, then forwards again.
    if t <= T:
      ctx.close(value(wf, pt, 2 * T - t), got, 'time does not reflect at the horizon', 0, tol, **info)
      ctx.close(value(wf, pt, 2 * T + t), got, 'time does not repeat after two horizons', 0, tol, **info)
    # The column is the pointwise forecast.
    ps = [pt[2]] + [float(p) for p in rng.uniform(fs.min_pressure_pa * .8, fs.max_pressure_pa * 1.2, int(rng.integers(0, 5)) if rng.random() < .9 else int(rng.choice([200, 450])))]
    arg = ps if rng.random() < .5 else np.array(ps)
    col = wf.get_forecast_column(units.Distance(km=pt[0]), units.Distance(km=pt[1]), arg, hours(t))
    ctx.check(len(col) == len(ps), 'the column has another length than the pressures', **info)
    for p, w in zip(ps, col):
      ctx.close(uv(w), value(wf, [pt[0], pt[1], p], t), 'column differs from pointwise forecast', 0, tol / 100, p=p, **info)
    ctx.check(np.array_equal(np.array(wf.field), field) if _ % 50 == 0 else True, 'queries change the field')
    ctx.count(name)
    if t >= T:
      ctx.count('beyond_horizon')
    if 'below' in label or 'above' in label:
      ctx.count('clamped')
    ctx.ev((name, label))
  # One thing about a question changed at a time, by little, and back.
  for _ in range(max(8, n // 15)):
    pt, t, _l = query(rng, fs, grid)
    pt = [float(rng.uniform(-D, D)), float(rng.uniform(-D, D)), pt[2]]
    ps = np.sort(rng.uniform(fs.min_pressure_pa, fs.max_pressure_pa, int(rng.integers(3, 7))))

    def ask(x, y, p, h):
      arg = p if rng.random() < .5 else [float(v) for v in p]
      col = wf.get_forecast_column(units.Distance(km=x), units.Distance(km=y), arg, hours(h))
      for q, w in zip(p, col):
        c = [min(max(x, -D), D), min(max(y, -D), D), min(max(q, fs.min_pressure_pa), fs.max_pressure_pa), fold(h, T)]
        ctx.close(uv(w), interp(grid, field, c), 'the column is not the interpolation of the grid', 0, tol, sampler=name, point=(x, y, q), hours=h)
      ctx.close(value(wf, [x, y, float(p[0])], h), uv(col[0]), 'column differs from pointwise forecast', 0, tol / 100)
      ctx.check(len(col) == len(p), 'length of the column')
    inner = ps.copy()
    inner[1:-1] = np.sort(rng.uniform(ps[0], ps[-1], len(ps) - 2))
    base = (pt[0], pt[1], ps, t)
    moved = [(pt[0], pt[1], inner, t), (pt[0], pt[1], ps[::-1], t), (pt[0], pt[1], ps + .02 * (fs.max_pressure_pa - ps), t), (pt[0] * .9 + 1, pt[1], ps, t),
             (pt[0], pt[1] * .9 - 1, ps, t), (pt[1], pt[0], ps, t), (-pt[0], pt[1], ps, t), (pt[0], pt[1], ps, t + .4), (pt[0], pt[1], ps, t + 24.), (pt[0], pt[1], ps[1:], t)]
    for i in rng.permutation(len(moved))[:4]:
      ask(*base)
      ask(*moved[i])
    ask(*base)
    buf = ps.copy()
    wf.get_forecast_column(units.Distance(km=pt[0]), units.Distance(km=pt[1]), buf, hours(t))
    buf[:] = inner  # The caller's array, filled anew.
    ask(pt[0], pt[1], buf, t)
    ctx.count('neighbours')
  # Grid points return the samples themselves.
  for _ in range(20):
    i = [int(rng.integers(len(g))) for g in grid]
    got = value(wf, [g[j] for g, j in zip(grid[:3], i)], float(grid[3][i[3]]))
    ctx.close(got, field[tuple(i)], 'a grid point does not return its sample', 0, tol, index=i, sampler=name)
    ctx.count('knots')


def run(ctx):
  rng = ctx.rng
  when = dt.datetime(2012, 3, 4, 5, tzinfo=dt.timezone.utc)
  shapes = [vae.FieldShape(),
            vae.FieldShape(latlng_slices=5, pressure_slices=4, time_slices=3, latlng_displacement_km=120.,
                           max_pressure_pa=11000., min_pressure_pa=6000., time_horizon_hours=12),
            vae.FieldShape(latlng_slices=3, pressure_slices=7, time_slices=7, latlng_displacement_km=900.,
                           time_horizon_hours=24)]
  for s, shape in enumerate(shapes):
    sampler = RandomSampler(shape)
    wf = grid_based_wind_field.GridBasedWindField(sampler)
    q = (units.Distance(km=1), units.Distance(km=1))
    ctx.raises(lambda: wf.get_forecast(*q, 9000.0, hours(1)), RuntimeError, 'forecast before reset')
    ctx.raises(lambda: wf.get_forecast_column(*q, [9000.0], hours(1)), RuntimeError, 'column before reset')
    key = None
    for k in range(ctx.n(4, 12)):
      # New keys on new dates; now and then the same key, or the same date.
      if k % 4 != 2:
        key = jax.random.PRNGKey(int(rng.integers(2**31)))
      if k % 4 != 3:
        when = dt.datetime(2012, 3, 4, 5, tzinfo=dt.timezone.utc) + dt.timedelta(days=int(rng.integers(-400, 400)), seconds=k)
      ask = [value(wf, [x, y, 8765.0], 5.5) for x, y in ((1, 2), (30, -40))] if k else None
      wf.reset_forecast(key, when)
      ctx.check(sampler.calls[-1] == (np.asarray(key).tolist(), when) and len(sampler.calls) == k + 1,
                'the sampler was not asked once for the given key and date', calls=sampler.calls[-2:])
      ref_field = RandomSampler(shape).sample_field(key, when)
      ctx.check(np.array_equal(np.asarray(wf.field), ref_field), 'the field in use is not the sampled one')
      g = [np.asarray(v, dtype=float) for v in (shape.latlng_grid_points(), shape.latlng_grid_points(), shape.pressure_grid_points(), shape.time_grid_points())]
      for x, y in ((30, -40), (1, 2)):  # Last asked before the reset.
        ctx.close(value(wf, [x, y, 8765.0], 5.5), interp(g, ref_field, [x, y, 8765.0, fold(5.5, shape.time_horizon_hours)]), 'a forecast from before the reset', 0, 0.01)
      probe(ctx, rng, f'random{s}', wf, ctx.n(150, 1500))
  wf = envs.grid_field()
  for _ in range(ctx.n(2, 8)):
    wf.reset(jax.random.PRNGKey(int(rng.integers(2**31))), when)
    probe(ctx, rng, 'smooth', wf, ctx.n(150, 1500))
    # Close points have close winds, also across the horizon.
    for _ in range(60):
      pt, t, _l = query(rng, wf.field_shape, [np.array([0.])] * 4)
      a, b = value(wf, pt, t), value(wf, [pt[0] + .01, pt[1] - .01, pt[2] + .1], t + .001)
      ctx.close(a, b, 'the forecast jumps', 0, 0.5, point=pt, hours=t)
  # The deprecated field is the grid field over the generative sampler.
  gin.bind_parameter('load_offlineskies22.path', envs.decoder_file(ctx.scratch, 3))
  import absl.logging
  absl.logging.set_verbosity(absl.logging.FATAL)
  a = generative_wind_field.generative_wind_field_factory()
  b = generative_wind_field.GenerativeWindField()
  ctx.check(isinstance(a, grid_based_wind_field.GridBasedWindField), 'factory')
  ctx.raises(lambda: b.get_forecast(*q, 9000.0, hours(1)), RuntimeError, 'deprecated field before reset')
  for _ in range(ctx.n(2, 6)):
    key = jax.random.PRNGKey(int(rng.integers(2**31)))
    a.reset(key, when)
    b.reset(key, when)
    ctx.close(np.asarray(a.field), np.asarray(b.field), 'the two generative fields differ', 1e-5, 1e-5)
    ctx.check(np.asarray(a.field).shape == a.field_shape.grid_shape(), 'shape of the sampled field')
    probe(ctx, rng, 'generative', a, ctx.n(80, 600))
    probe(ctx, rng, 'deprecated', b, ctx.n(80, 600))
    for _ in range(20):
      pt, t, _l = query(rng, a.field_shape, [np.array([0.])] * 4)
      x, y = (f.get_ground_truth(units.Distance(km=pt[0]), units.Distance(km=pt[1]), pt[2], hours(t)) for f in (a, b))
      ctx.close(uv(x), uv(y), 'the two generative fields differ', 1e-5, 1e-5)
  # The static field: four winds by pressure, everywhere and always.
  st = wind_field.SimpleStaticWindField()
  for k in range(400):
    p = float(rng.uniform(3000, 16000)) if k % 4 else float(rng.choice([8000, 10000, 12000])) - float(rng.choice([0, 1e-6]))
    pt = [float(rng.uniform(-900, 900)), float(rng.uniform(-900, 900)), p]
    want = [(10, 0), (0, 10), (-10, 0), (0, -10)][(p >= 8000) + (p >= 10000) + (p >= 12000)]
    ctx.close(value(st, pt, float(rng.uniform(0, 99))), want, 'static wind', 0, 1e-12, p=p)
    col = st.get_forecast_column(units.Distance(km=0), units.Distance(km=0), [p, 9000.0], hours(1))
    ctx.close(uv(col[0]), want, 'static column', 0, 1e-12, p=p)
    ctx.close(uv(col[1]), (0, 10), 'static column', 0, 1e-12)
    ctx.ev(('static', want))
  for c in ('random0', 'random1', 'random2', 'smooth', 'generative', 'deprecated'):
    ctx.require(c, 100)
  ctx.require('beyond_horizon', 100)
  ctx.require('clamped', 100)
  ctx.require('neighbours', 60)
