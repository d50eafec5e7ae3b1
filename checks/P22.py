"""P22: what the sun delivers to the panels."""
import math

import numpy as np
from balloon_learning_environment.env.balloon import solar
from vp import ref

RULE = ('one evaluation = one attenuation/shadow/power evaluation; distinct by '
        '(elevation degree, pressure bucket)')
ASSUMPTIONS = ['elevations within 1e-9 deg of a shadow limit or the horizon '
               'limit are not generated, apart from the limits themselves']


def one(ctx, el, p, h):
  a = float(solar.solar_atmospheric_attenuation(el, p))
  s = float(solar.balloon_shadow(el, h))
  w = float(solar.solar_power(el, p).watts)
  info = dict(el=el, pressure=p, height=h, attenuation=a, shadow=s, watts=w)
  ctx.check(0.0 <= a <= 1.0, 'attenuation outside [0, 1]', **info)
  ctx.check(0.0 <= s <= 1.0, 'shadow outside [0, 1]', **info)
  ctx.close(a, ref.attenuation(el, p), 'attenuation differs from the air-mass model', 1e-9, 1e-12, **info)
  ctx.close(s, ref.shadow(el, h), 'shadow differs from the geometry', 0, 1e-12, **info)
  ctx.close(w, ref.solar_power(el, p), 'panel power differs from the model', 1e-9, 1e-9, **info)
  if el < ref.MIN_EL:
    ctx.check(a == 0.0 and w == 0.0, 'power from a sun below the horizon', **info)
    ctx.count('dark')
  else:
    ctx.check(a > 0.0 and 0.0 < w <= 6 * 210.0, 'impossible power from a visible sun', **info)
    ctx.count('lit')
  ctx.count('shadowed' if s < 1 else 'unshadowed')
  ctx.ev((int(el), int(p / 2500)))
  return a


def run(ctx):
  rng = ctx.rng
  for _ in range(ctx.n(12000, 200000)):
    k = rng.random()
    el = (float(rng.uniform(-90, 90)) if k < 0.5 else float(rng.uniform(-6, 3)) if k < 0.75 else
          float(rng.uniform(30, 42)))
    p = float(rng.choice([rng.uniform(3000, 20000), rng.uniform(0, 101325)]))
    a = one(ctx, el, p, float(rng.choice([2.7, 3.3, rng.uniform(0.1, 10)])))
    # Higher sun or thinner air never absorbs more.
    if el > ref.MIN_EL:
      e2, p2 = min(90.0, el + float(rng.uniform(0, 5))), p * float(rng.uniform(0.3, 1))
      ctx.check(float(solar.solar_atmospheric_attenuation(e2, p)) >= a - 1e-12 and
                float(solar.solar_atmospheric_attenuation(el, p2)) >= a - 1e-12,
                'attenuation is not monotone', el=el, p=p, e2=e2, p2=p2)
  # One argument changed at a time, and back.
  for _ in range(ctx.n(400, 6000)):
    el, p, h = float(rng.uniform(-5, 90)), float(rng.uniform(3000, 90000)), 3.3
    for _ in range(4):
      one(ctx, el, p, h)
      de, dp = float(rng.choice([0, 1e-3, .02, .3, -1])), float(rng.choice([0, .3, 20, 900]))
      one(ctx, *(((min(90., el + de)), p, h) if rng.random() < .5 else (el, p + dp, h) if rng.random() < .7 else (el, p, 2.7)))
    one(ctx, -el, p, h)
  for el in (90.0, -90.0, 0.0, ref.MIN_EL, ref.MIN_EL - 1e-6, ref.MIN_EL + 1e-6):
    for p in (0.0, 101325.0, 8000.0):
      one(ctx, el, p, 3.3)
  for bad in (90.01, -90.5, 200.0):
    ctx.raises(lambda: solar.solar_atmospheric_attenuation(bad, 8000.0), ValueError, 'elevation accepted', el=bad)
    ctx.raises(lambda: solar.solar_power(bad, 8000.0), ValueError, 'elevation accepted', el=bad)
  for bad in (-1.0, 101325.5, 2e5):
    ctx.raises(lambda: solar.solar_atmospheric_attenuation(20.0, bad), ValueError, 'pressure accepted', p=bad)
    ctx.raises(lambda: solar.solar_power(20.0, bad), ValueError, 'pressure accepted', p=bad)
  for c in ('dark', 'lit', 'shadowed', 'unshadowed'):
    ctx.require(c, 500)
