"""P25: the true wind is the forecast plus seeded simplex noise."""
import datetime as dt
import math

import jax
import numpy as np
import opensimplex
from balloon_learning_environment.env import simplex_wind_noise
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.utils import units
from vp import envs

RULE = ('one evaluation = one noise or ground-truth value compared with an '
        'independent reconstruction from the key; distinct by (field, key, '
        'distance bucket, pressure bucket, time bucket)')
ASSUMPTIONS = ['opensimplex.noise4d and the JAX generator are trusted',
               'derivation of harmonic seeds from the key is part of the documented reproducibility']

U = [(0.1445, 702.269, 2116.987, 2587.802, 245.0), (0.2766, 1483.570, 752.124, 646.208, 16.39),
     (0.2627, 276.810, 147.040, 587.702, 3.836), (0.2137, 10214.525, 1512.216, 965.629, 41.780),
     (0.1025, 181.286, 420.942, 8500.0, 245.0)]
V = [(0.2716, 1974.228, 2028.814, 713.697, 26.435), (0.2684, 699.738, 541.845, 632.116, 9.530),
     (0.2348, 217.750, 196.522, 686.825, 3.546), (0.1186, 47.500, 43.048, 66.553, 8.424),
     (0.1066, 3663.291, 232.023, 7499.741, 225.0)]


class Component:

  def __init__(self, key, params):
    self.h = []
    for k, p in zip(jax.random.split(key, num=len(params)), params):
      gen = opensimplex.OpenSimplex(seed=int(jax.random.choice(k, 1634753849)))
      self.h.append((gen, np.asarray(jax.random.uniform(k, (4,)) * 2.0 - 1.0, dtype=float), p))

  def __call__(self, x, y, p, h):
    n = w1 = w2 = 0.0
    for gen, o, (w, sx, sy, sp, stt) in self.h:
      n += w * gen.noise4d(x / sx + o[0], y / sy + o[1], p / sp + o[2], h / stt + o[3])
      w1, w2 = w1 + w, w2 + w * w
    return math.sqrt(1.02 / 0.0569) * n / w1 * math.sqrt(w1 / w2)


def where(rng):
  s = float(rng.choice([1, 50, 500, 3000]))
  return (float(rng.normal(0, s)), float(rng.normal(0, s)), float(rng.choice([rng.uniform(4000, 16000), rng.uniform(1000, 100000)])),
          float(rng.choice([rng.uniform(0, 48), rng.uniform(48, 400), rng.uniform(400, 3000)])))


def args(q):
  return units.Distance(km=q[0]), units.Distance(km=q[1]), q[2], dt.timedelta(hours=q[3])


def uv(w):
  return np.array([w.u.mps, w.v.mps], dtype=float)


def run(ctx):
  rng = ctx.rng
  when = dt.datetime(2013, 5, 6, tzinfo=dt.timezone.utc)
  fields = [('static', wind_field.SimpleStaticWindField()), ('grid', envs.grid_field())]
  pool, seen = [], {}
  for k in range(ctx.n(24, 240)):
    name, wf = fields[k % 2]
    if k < 2:
      q = where(rng)
      if k == 0:
        ctx.raises(lambda: wf.get_ground_truth(*args(q)), ValueError, 'noise before reset')
    seed = int(rng.integers(2**31))
    key = jax.random.PRNGKey(seed)
    wf.reset(key, when)
    nk, fk = jax.random.split(key)
    uk, vk = jax.random.split(nk)
    model = Component(uk, U), Component(vk, V)
    if name == 'grid':
      ctx.check(np.array_equal(np.asarray(wf.field), envs.SmoothSampler().sample_field(fk, when)),
                'the forecast does not follow from the second half of the key')
    prev = None
    for i in range(ctx.n(30, 60)):
      q = where(rng)
      truth, fc = uv(wf.get_ground_truth(*args(q))), uv(wf.get_forecast(*args(q)))
      noise = np.array([c(*q) for c in model])
      info = dict(field=name, seed=seed, q=q)
      ctx.close(truth - fc, noise, 'ground truth is not forecast plus the seeded noise', 1e-7, 1e-6, **info)
      ctx.close(uv(wf.get_ground_truth(*args(q))), truth, 'asking twice gives two winds', 0, 0, **info)
      # Continuity: two close points have close noise.
      r = tuple(a + b for a, b in zip(q, (1e-3, -1e-3, 1e-2, 1e-4)))
      n2 = uv(wf.get_ground_truth(*args(r))) - uv(wf.get_forecast(*args(r)))
      ctx.close(n2, truth - fc, 'the noise jumps', 0, 0.05, **info)
      pool.append(noise)
      ctx.count(name)
      ctx.ev((name, seed, int(q[0] // 100), int(q[2] // 1000), int(q[3] // 12)))
    # One thing about a question changed at a time, and back.
    for _ in range(ctx.n(2, 6)):
      q = where(rng)
      moves = [(0, 0, 0, 24.), (0, 0, 0, 48.), (0, 0, 0, 24 * 7.), (0, 0, 0, .05), (0, 0, 0, 1.), (1e-2, 0, 0, 0), (0, 5., 0, 0), (-2 * q[0], 0, 0, 0), (0, -2 * q[1], 0, 0),
               (q[1] - q[0], q[0] - q[1], 0, 0), (0, 0, 1., 0), (0, 0, 300., 0)]
      for i in rng.permutation(len(moves))[:6]:
        for r in (q, tuple(a + b for a, b in zip(q, moves[i])), q) if i % 2 else (q, tuple(a + b for a, b in zip(q, moves[i]))):
          got = uv(wf.get_ground_truth(*args(r))) - uv(wf.get_forecast(*args(r)))
          ctx.close(got, [c(*r) for c in model], 'ground truth is not forecast plus the seeded noise', 1e-7, 1e-6, field=name, seed=seed, q=r, after=q)
        ctx.count('neighbours')
    # Same key again, after another; the two fields share the noise of a key.
    probe = [where(rng) for _ in range(3)]
    a = [uv(wf.get_ground_truth(*args(p))) - uv(wf.get_forecast(*args(p))) for p in probe]
    wf.reset(jax.random.PRNGKey(seed + 1), when)
    b = [uv(wf.get_ground_truth(*args(p))) - uv(wf.get_forecast(*args(p))) for p in probe]
    ctx.check(not np.allclose(a, b), 'another key gives the same noise', seed=seed)
    wf.reset(key, when)
    c = [uv(wf.get_ground_truth(*args(p))) - uv(wf.get_forecast(*args(p))) for p in probe]
    ctx.close(c, a, 'the same key gives another noise after other use', 1e-7, 1e-6, seed=seed)
    other = fields[1 - k % 2][1]
    other.reset(key, when)
    d = [uv(other.get_ground_truth(*args(p))) - uv(other.get_forecast(*args(p))) for p in probe]
    ctx.close(d, a, 'the noise depends on the kind of forecast', 1e-6, 1e-5, seed=seed)
  # Two live fields do not share noise.
  f1, f2 = wind_field.SimpleStaticWindField(), wind_field.SimpleStaticWindField()
  f1.reset(jax.random.PRNGKey(1), when)
  keep = uv(f1.get_ground_truth(*args(probe[0])))
  f2.reset(jax.random.PRNGKey(2), when)
  ctx.check(np.array_equal(uv(f1.get_ground_truth(*args(probe[0]))), keep), 'fields share their noise')
  pool = np.array(pool)
  var = pool.var(axis=0)
  ctx.sample(dict(noise_variance=var.tolist(), mean=pool.mean(axis=0).tolist(), max=np.abs(pool).max(axis=0).tolist()))
  ctx.check(np.all(np.abs(pool.mean(axis=0)) < 0.6) and np.all(var > 0.3) and np.all(var < 3.0),
            'noise mean/variance implausible', mean=pool.mean(axis=0), var=var)
  # Components on their own.
  for which, params in (('u', U), ('v', V)):
    c = simplex_wind_noise.NoisyWindComponent(which=which)
    ctx.raises(lambda: c.get_noise(*args(probe[0])), ValueError, 'component before reset')
    for _ in range(ctx.n(4, 30)):
      key = jax.random.PRNGKey(int(rng.integers(2**31)))
      c.reset(key)
      m = Component(key, params)
      for j in range(10):
        if j % 3:
          q = q[:3] + (q[3] + float(rng.choice([24, 48, .1, 240])),) if j % 3 == 1 else (q[0], q[1], q[2] + 50., q[3])
        else:
          q = where(rng)
        ctx.close(c.get_noise(*args(q)), m(*q), 'component noise', 1e-7, 1e-7, which=which, q=q)
        ctx.ev((which, int(q[2] // 1000), int(q[3] // 12), int(q[0] // 100)))
        ctx.count('component')
  for bad in ('w', '', 'U', None):
    ctx.raises(lambda: simplex_wind_noise.NoisyWindComponent(which=bad), RuntimeError, 'bad component accepted', which=bad)
  # Wind vectors add component-wise; the rest is refused.
  for _ in range(100):
    a, b = rng.normal(0, 20, 2), rng.normal(0, 20, 2)
    va, vb = (wind_field.WindVector(units.Velocity(mps=float(x[0])), units.Velocity(mps=float(x[1]))) for x in (a, b))
    ctx.close(uv(va.add(vb)), a + b, 'wind vectors do not add', 1e-12)
  ctx.raises(lambda: va.add((1, 2)), NotImplementedError, 'adding a tuple to a wind vector')
  ctx.raises(lambda: va.add(3.0), NotImplementedError, 'adding a number to a wind vector')
  for c in ('static', 'grid', 'component', 'neighbours'):
    ctx.require(c, 60)
