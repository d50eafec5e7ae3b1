"""P18: the accessible pressure range is what the balloon can float at."""
import copy
import dataclasses
import datetime as dt

import numpy as np
import s2sphere as s2
from balloon_learning_environment.env.balloon import pressure_range_builder
from balloon_learning_environment.utils import units
from vp import flight, ref, sim

RULE = ('one evaluation = one computed range; distinct by (which limit set each '
        'end, max superpressure bucket, IR bucket, hour)')
ASSUMPTIONS = [
    'safe means a floating superpressure at least 250 Pa from both limits',
    'ends found by interpolation are accurate to 40 Pa of superpressure (6 Pa below '
    'the low margin, where interpolation errs on the safe side); the '
    'no-ballonet-air limit to 25 Pa of pressure (20-level table interpolation)']
SP_TOL, LOW_TOL, P_TOL = 40.0, 6.0, 25.0


def judge(ctx, rng, b, atm, a=None, s=None, f=None, k=None):
  if s is None:
    a, s = ref.Atm.like(atm), ref.S(b.state)
    ll = s.latlng()
    f = lambda p: ref.stable(p, s.v0, s.dv, s.m_env, s.m_pay, s.n_he, *ll, s.t, s.ir, a)[4]
  target = (s.m_pay + s.m_env + s.n_he * ref.M_HE) * ref.R / (ref.M_AIR * s.v0)
  lo, hi = 500.0, 40000.0
  for _ in range(80):
    mid = 0.5 * (lo + hi)
    if mid / a.at_pressure(mid)[1] < target:
      lo = mid
    else:
      hi = mid
  pmin, pmax = lo, a.at_height(50000 * ref.FT)[2]
  if k is not None and k % 5 in (0, 2):
    # Put a safety margin inside the column, so that a stretch of several
    # search levels is unsafe and an end has to be interpolated.
    cut = f(float(rng.uniform(pmin, pmax)))
    if cut > 300:
      b.state.envelope_max_superpressure = s.sp_max = cut + 250.0
  top = s.sp_max - 250.0
  safe = lambda p, tol=0.0, low=None: 250.0 - (tol if low is None else low) <= f(p) <= top + tol
  info = dict(pmin=pmin, pmax=pmax, sp_max=s.sp_max, ir=s.ir, time=str(s.t),
              n_he=s.n_he)
  before = copy.copy(b.state)
  try:
    r = pressure_range_builder.get_pressure_range(b.state, atm)
  except ValueError as e:
    levels = [p for p in np.linspace(1000.0, pmax, 20) if pmin <= p]
    ctx.check(not any(safe(p, -1.0) for p in levels),
              'no range reported although a safe pressure level exists',
              error=str(e), **info)
    ctx.count('none_safe')
    ctx.ev(('none', int(s.sp_max / 100)))
    return
  for fld in dataclasses.fields(before):
    old, new = getattr(before, fld.name), getattr(b.state, fld.name)
    ctx.check(old is new or old == new, f'computing the range changed {fld.name}', **info)
  if s.v0 != 1804 or s.dv != 0.0199 or s.m_env != 68.5 or s.m_pay != 92.5:
    ctx.count('other_envelopes')
  pl, ph = r.min_pressure, r.max_pressure
  info.update(got=(pl, ph), sp=(f(pl), f(ph)))
  ctx.check(isinstance(pl, float) and isinstance(ph, float), 'not floats', **info)
  ctx.check(pmin - P_TOL <= pl <= ph <= pmax * (1 + 1e-9), 'range out of order or bounds', **info)
  ctx.check(safe(pl, SP_TOL, LOW_TOL) and safe(ph, SP_TOL, LOW_TOL),
            'an end of the range is not safe to float at', **info)
  at_min, at_max = abs(pl - pmin) < P_TOL, abs(ph - pmax) < 1e-3
  if not at_min:
    ctx.check(min(abs(f(pl) - 250), abs(f(pl) - top)) < SP_TOL,
              'min_pressure is neither the float limit nor a safety crossing', **info)
    for q in np.linspace(pmin, pl, 7)[1:-1]:
      ctx.check(not safe(q, -SP_TOL) or pl - q < 600, 'safe pressures below min_pressure', q=q, **info)
  if not at_max:
    ctx.check(min(abs(f(ph) - 250), abs(f(ph) - top)) < SP_TOL,
              'max_pressure is neither the altitude floor nor a safety crossing', **info)
    for q in np.linspace(ph, pmax, 7)[1:-1]:
      ctx.check(not safe(q, -SP_TOL) or q - ph < 600, 'safe pressures above max_pressure', q=q, **info)
  if safe(pmin, -SP_TOL):
    ctx.check(at_min, 'the float limit is safe but not the minimum', **info)
  if safe(pmax, -1e-3):
    ctx.check(at_max, 'the altitude floor is safe but not the maximum', **info)
  ctx.count('min_limit' if at_min else 'min_crossing')
  ctx.count('max_limit' if at_max else 'max_crossing')
  ctx.sample(dict(got=(pl, ph), limits=(pmin, pmax), sp=(f(pl), f(ph))))
  ctx.ev((at_min, at_max, int(s.sp_max / 100), int(s.ir / 10), s.t.hour))
  return pl, ph


def neighbours(ctx, rng, b, atm):
  """One thing about the balloon changed at a time, asked before and after."""
  other = sim.atmosphere(rng)
  s = b.state
  first = judge(ctx, rng, b, atm)
  sets = [('envelope_max_superpressure', float(rng.uniform(1500, 2600))),
          ('mols_lift_gas', s.mols_lift_gas * float(rng.uniform(.985, 1.015))),
          ('envelope_volume_base', s.envelope_volume_base * float(rng.uniform(.99, 1.01))),
          ('envelope_volume_dv_pressure', s.envelope_volume_dv_pressure * float(rng.uniform(.7, 1.3))),
          ('payload_mass', s.payload_mass + float(rng.uniform(-4, 4))),
          ('upwelling_infrared', float(rng.uniform(225, 315))),
          ('date_time', s.date_time + dt.timedelta(hours=float(rng.choice([1, 6, 12])))),
          ('x', s.x + units.Distance(km=float(rng.uniform(300, 3000)))),
          ('center_latlng', s2.LatLng.from_degrees(-s.center_latlng.lat().degrees, s.center_latlng.lng().degrees + 1)),
          (None, None)]
  for i in rng.permutation(len(sets))[:4]:
    name, v = sets[i]
    c = copy.copy(b)
    c.state = copy.copy(s)
    if name:
      setattr(c.state, name, v)
    judge(ctx, rng, c, atm if name else other)
    ctx.check(judge(ctx, rng, b, atm) == first, 'the range depends on earlier questions', changed=name)
    ctx.count('neighbours')


def run(ctx):
  rng = ctx.rng
  for k in range(ctx.n(260, 3000)):
    atm = sim.atmosphere(rng)
    a = ref.Atm.like(atm)
    kw = {}
    if k % 3 == 0:
      kw['envelope_max_superpressure'] = float(rng.uniform(900, 2400))
    if k % 5 == 0:
      kw['mols_lift_gas'] = float(rng.uniform(6300, 7200))
    b = flight.new_balloon(rng, atm, perturb=bool(k % 2), vary=k % 4 == 3,
                           upwelling_infrared=float(rng.uniform(200, 315)), **kw)
    s = ref.S(b.state)
    ll = s.latlng()
    f = lambda p: ref.stable(p, s.v0, s.dv, s.m_env, s.m_pay, s.n_he, *ll, s.t,
                             s.ir, a)[4]
    if k % 5 == 1:
      # So little gas that the superpressure is too low, or zero, over a stretch.
      q, n0, n1 = float(rng.uniform(6000, 11000)), 3000.0, 9000.0
      for _ in range(40):
        s.n_he = 0.5 * (n0 + n1)
        if f(q) < 250:
          n0 = s.n_he
        else:
          n1 = s.n_he
      b.state.mols_lift_gas = s.n_he
    judge(ctx, rng, b, atm, a, s, f, k)
    if k % 3 == 1:
      neighbours(ctx, rng, b, atm)
  ctx.require('min_limit', 50)
  ctx.require('max_limit', 50)
  ctx.require('other_envelopes', 15)
  ctx.require('max_crossing', 15)
  ctx.require('min_crossing', 10)
  ctx.require('neighbours', 50)
