"""P19: the standard atmosphere is a consistent hydrostatic column."""
import jax
import numpy as np
from balloon_learning_environment.env.balloon import standard_atmosphere
from balloon_learning_environment.utils import units
from vp import ref, sim

RULE = ('one evaluation = one height or pressure lookup; distinct by (layer, '
        'lapse mix decile, direction)')
ASSUMPTIONS = ['the layer table (heights, two lapse-rate columns, base state) '
               'is the documented model']


def vals(v):
  return (v.height.meters, float(v.temperature), float(v.pressure), float(v.density))


def resets(ctx, rng):
  """The same levels, asked before and after each reset and of two atmospheres in turn."""
  atms = [standard_atmosphere.Atmosphere(jax.random.PRNGKey(int(rng.integers(2**31)))) for _ in range(2)]
  refs = [ref.Atm.like(a) for a in atms]
  for k in range(ctx.n(60, 800)):
    p, h = float(np.exp(rng.uniform(np.log(500.), np.log(100000.)))), float(rng.uniform(-600, 40000))
    e = float(rng.choice([0, 1e-6, 1e-3, .3, 1, 40]))
    asks = [('p', p), ('p', p + e), ('h', h), ('h', h + e), ('p', p), ('h', h)]
    for r in range(3):
      for w, v in asks[:int(rng.integers(1, 7))] if r else asks:
        for a, m in ((atms[0], refs[0]), (atms[1], refs[1])):
          got, want = (vals(a.at_pressure(v)), m.at_pressure(v)) if w == 'p' else (vals(a.at_height(units.Distance(meters=v))), m.at_height(v))
          ctx.close(got, want, 'the column depends on earlier questions or resets', 1e-9, 1e-6, kind=w, value=v, resets=k)
          ctx.count('interleaved')
      i = int(rng.integers(2))
      key = jax.random.PRNGKey(int(rng.integers(2**31)))
      atms[i].reset(key)
      # Not read off this one: whatever it remembers must not reach the reference.
      refs[i] = ref.Atm.like(standard_atmosphere.Atmosphere(key))
      ctx.close(vals(atms[i].at_height(units.Distance(meters=h))), refs[i].at_height(h), 'a reset atmosphere is not the one of its key', 1e-9, 1e-6, h=h)
    ctx.ev(('reset', k))


def run(ctx):
  rng = ctx.rng
  resets(ctx, ctx.sub_rng('resets'))
  alphas = []
  for k in range(ctx.n(60, 800)):
    key = jax.random.PRNGKey(int(rng.integers(2**31)))
    if k % 2:
      atm = standard_atmosphere.Atmosphere(jax.random.PRNGKey(k))
      for j in range(k % 3):
        atm.reset(jax.random.PRNGKey(1000 * k + j))
        vals(atm.at_height(units.Distance(meters=15000.0)))
      atm.reset(key)
    else:
      atm = standard_atmosphere.Atmosphere(key)
    twin = standard_atmosphere.Atmosphere(key)
    a = ref.Atm.like(atm)
    alphas.append(a.alpha)
    ctx.check(-1e-9 <= a.alpha <= 1 + 1e-9, 'lapse rates outside the two profiles',
              alpha=a.alpha)
    last = None
    hs = sorted([float(rng.uniform(-610, 84999)) for _ in range(25)] +
                [float(rng.uniform(14000, 22000)) for _ in range(10)] +
                [h + e for h in ref.Atm.H[1:-1] for e in (-1e-3, 0.0, 1e-3)] +
                [-610.0])
    for h in hs:
      v = vals(atm.at_height(units.Distance(meters=h)))
      info = dict(h=h, alpha=a.alpha, got=v)
      ctx.close(v, a.at_height(h), 'at_height differs from the model', 1e-9, 1e-9, **info)
      ctx.check(v == vals(twin.at_height(units.Distance(meters=h))),
                'the same key gives a different atmosphere', **info)
      ctx.close(v[3] * ref.RS_AIR * v[1], v[2], 'density is not p/(R T)', 1e-9, **info)
      ctx.check(v[1] > 100 and v[2] > 0, 'non-physical values', **info)
      if last is not None and h > last[0]:
        ctx.check(v[2] < last[2], 'pressure does not fall with height', last=last, **info)
      last = v
      layer = sum(h >= x for x in ref.Atm.H)
      if v[2] > a.P[-1] and v[2] <= 108870.8213:
        w = vals(atm.at_pressure(v[2]))
        ctx.close(w[0], h, 'at_pressure is not the inverse of at_height', 1e-7, 1e-3, **info)
        ctx.close(w[1:], v[1:], 'at_pressure values differ from at_height', 1e-7, 1e-9, **info)
        ctx.close(w, a.at_pressure(v[2]), 'at_pressure differs from the model', 1e-9, 1e-6, **info)
        ctx.count('inverse')
      ctx.count(f'layer{layer}')
      ctx.ev((layer, int(a.alpha * 10), 'h'))
    for _ in range(20):
      p = float(np.exp(rng.uniform(np.log(a.P[-1] * 1.01), np.log(108870))))
      w = vals(atm.at_pressure(p))
      ctx.close(w, a.at_pressure(p), 'at_pressure differs from the model', 1e-9, 1e-6, p=p)
      ctx.ev((sum(p <= x for x in a.P), int(a.alpha * 10), 'p'))
    # Hydrostatic balance, numerically.
    h = float(rng.uniform(100, 80000))
    if min(abs(h - x) for x in ref.Atm.H) > 2:
      p0, p1 = (vals(atm.at_height(units.Distance(meters=h + d)))[2] for d in (-0.5, 0.5))
      rho = vals(atm.at_height(units.Distance(meters=h)))[3]
      ctx.close((p0 - p1), rho * ref.G, 'not in hydrostatic balance', 1e-5, 1e-9, h=h)
    for bad in (-610.1, 85000.0, 90000.0, -5000.0):
      ctx.raises(lambda: atm.at_height(units.Distance(meters=bad)),
                 (AssertionError, ValueError), 'height outside the column accepted', h=bad)
    for bad in (108870.9, 2e5, a.P[-1] * 0.999, 0.0):
      ctx.raises(lambda: atm.at_pressure(bad), (AssertionError, ValueError),
                 'pressure outside the column accepted', p=bad)
      ctx.count('rejected')
  # Different keys, different columns (a float32 draw may repeat, but rarely).
  tops = [vals(standard_atmosphere.Atmosphere(jax.random.PRNGKey(int(rng.integers(2**31)))).at_height(units.Distance(meters=16000.0)))[1]
          for _ in range(ctx.n(400, 1500))]
  ctx.check(len(tops) - len(set(tops)) <= 3, 'different keys give the same atmosphere', keys=len(tops), distinct=len(set(tops)))
  ctx.check(max(alphas) - min(alphas) > 0.5, 'atmospheres do not vary with the key',
            alphas=alphas[:10])
  for i in range(1, 8):
    ctx.require(f'layer{i}', 20)
  ctx.require('inverse', 500)
  ctx.require('interleaved', 500)
