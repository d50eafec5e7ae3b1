"""P10: gas law, elastic envelope and ballonet air conservation."""
import math

import numpy as np
from balloon_learning_environment.env.balloon import acs
from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.utils import units
from vp import flight, ref, sim

RULE = ('one evaluation = one gas-state call or one observed stride; distinct '
        'by (effective command, limp/taut, air decile, pressure bucket)')
ASSUMPTIONS = ['mass flow on descent is checked against the acs module\'s own '
               'efficiency lookup; the lookup table itself belongs to P23']


def gas(ctx, n_he, n_air, t, p, v0, dv):
  vol, sp = balloon.calculate_superpressure_and_volume(n_he, n_air, t, p, v0, dv)
  vol, sp = float(vol), float(sp)
  info = dict(n_he=n_he, n_air=n_air, t=t, p=p, v0=v0, dv=dv, vol=vol, sp=sp)
  nrt = (n_he + n_air) * ref.R * t
  ctx.check(sp >= 0.0, 'negative superpressure', **info)
  ctx.close((p + sp) * vol, nrt, 'the gas law does not hold', 1e-10, 1e-6, **info)
  if nrt / p <= v0:
    ctx.check(sp == 0.0, 'a limp envelope carries superpressure', **info)
    ctx.count('limp')
  else:
    ctx.close(vol, v0 + dv * sp, 'the envelope does not stretch linearly',
              1e-10, 1e-7, **info)
    ctx.count('taut')
  ctx.ev((sp > 0, int(p / 500), int(t / 5), int(n_air / 500)))
  return sp


def oracle(ctx, r, strict):
  b, a, w = r.before, r.after, r.want
  info = dict(eff=r.eff, action=r.action.name, n_air0=b.n_air, n_air1=a.n_air,
              flow=a.flow, sp=a.sp, vol=a.vol, pressure=a.pressure)
  ctx.check(a.n_he == b.n_he, 'helium is not conserved', **info)
  ctx.check((a.v0, a.dv, a.sp_max, a.hole_m) == (b.v0, b.dv, b.sp_max, b.hole_m),
            'a step changed an envelope constant', **info)
  ctx.check(a.n_air >= 0.0, 'negative air in the ballonet', **info)
  eps = 1e-9
  if r.eff == 'UP':
    ctx.check(a.n_air <= b.n_air + eps, 'venting added air', **info)
  elif r.eff == 'DOWN':
    ctx.check(a.n_air >= b.n_air - eps, 'compressing removed air', **info)
  else:
    ctx.check(a.n_air == b.n_air and a.flow == 0,
              'air moved without a command', **info)
  if strict:
    ctx.close(a.n_air, max(0.0, b.n_air + a.flow / ref.M_AIR * r.total),
              'ballonet air did not change by mass flow x time', 1e-10, 1e-8, **info)
    if r.eff == 'DOWN':
      p = acs.get_most_efficient_power(b.ratio())
      want = acs.get_mass_flow(p, acs.get_fan_efficiency(b.ratio(), p))
      ctx.close(a.flow, want, 'compressor flow does not match the ACS tables',
                1e-9, 1e-12, **info)
    # Volume/superpressure follow from the gas state the stride started from.
    vol, sp = ref.volume_superpressure(b.n_he, b.n_air, b.internal, b.pressure,
                                       b.v0, b.dv)
    ctx.close([a.vol, a.sp], [vol, sp],
              'volume/superpressure do not solve the gas law', 1e-9, 1e-5, **info)
  if not r.fuzzy:
    d = a.diff(w, ['n_air', 'vol', 'sp', 'flow'], 1e-8)
    ctx.check(not d, 'gas state differs from the model', diff=d, **info)
  ctx.count('eff_' + r.eff)
  ctx.count('tight', b.sp > 0.9 * b.sp_max)
  if a.n_air == 0 and b.n_air > 0:
    ctx.count('emptied')
  ctx.ev((r.eff, strict, int(b.n_air / 500), int(b.pressure / 500)))


def run(ctx):
  rng = ctx.rng
  for _ in range(ctx.n(3000, 40000)):
    p = float(np.exp(rng.uniform(np.log(2000), np.log(20000))))
    gas(ctx, float(rng.uniform(6000, 8000)), float(rng.uniform(0, 8000)),
        float(rng.uniform(170, 300)), p, float(rng.uniform(1500, 2200)),
        float(rng.choice([0.0199, rng.uniform(1e-4, 0.1)])))
  # One argument changed at a time, and back; and two at a time such that the
  # unconfined volume stays as it was.
  for _ in range(ctx.n(200, 2000)):
    n_he, n_air = 6830. + float(rng.uniform(-300, 300)), float(rng.uniform(1000, 6000))
    t, p = float(rng.uniform(195, 225)), float(rng.uniform(6000, 11000))
    q = (n_he, n_air, t, p, 1804., 0.0199)
    moves = [(n_he + 50, n_air, *q[2:]), (n_he, n_air + 50, *q[2:]), (n_he, n_air, t + 3, *q[3:]), (n_he, n_air, t, p * .9, *q[4:]),
             (*q[:4], 1700., .0199), (*q[:5], .03), (n_he, n_air, t / 2, p / 2, *q[4:]), (n_he * 2, n_air * 2, t, p * 2, *q[4:]),
             (n_air, n_he, *q[2:]), (n_he, n_air, t * 2, p * 2, 1804., .05)]
    for m in moves:
      gas(ctx, *q)
      gas(ctx, *m)
    gas(ctx, *q)
  # Around the limp/taut boundary.
  for _ in range(ctx.n(300, 3000)):
    p, t, v0 = float(rng.uniform(5000, 12000)), float(rng.uniform(190, 230)), 1804.0
    n = p * v0 / (ref.R * t) * (1 + float(rng.normal(0, 1e-3)))
    gas(ctx, n, 0.0, t, p, v0, 0.0199)
  # Superpressure grows with temperature and with air, falls with volume.
  for _ in range(ctx.n(200, 2000)):
    n_air, t, p = float(rng.uniform(0, 6000)), float(rng.uniform(190, 225)), float(rng.uniform(6000, 12000))
    base = gas(ctx, 6830., n_air, t, p, 1804., 0.0199)
    ctx.check(gas(ctx, 6830., n_air, t + 1, p, 1804., 0.0199) >= base and
              gas(ctx, 6830., n_air + 10, t, p, 1804., 0.0199) >= base,
              'superpressure is not monotone', n_air=n_air, t=t, p=p)
  for r in flight.flights(rng, ctx.n(25, 250), 30):
    oracle(ctx, r, r.total == r.stride)
  for r in flight.flights(rng, ctx.n(30, 250), 60, stride_mode=True):
    oracle(ctx, r, True)
  for r in flight.flights(rng, ctx.n(25, 200), 10, stride_mode=True, tight=1.0):
    oracle(ctx, r, True)
  # Venting an almost empty ballonet.
  for _ in range(ctx.n(10, 60)):
    atm = sim.atmosphere(rng)
    b = flight.new_balloon(rng, atm, pressure=float(rng.uniform(6500, 7500)))
    b.state.mols_air = float(rng.uniform(0.01, 20 if rng.random() < .5 else 60))
    for _ in range(3):
      if b.state.status.name != 'OK':
        break
      oracle(ctx, flight.observe(b, 0., 0., atm, ref.Atm.like(atm), sim.Cmd.UP, 10), True)
  # The deprecated entry point is the same function.
  args = (6830., 1200., 208., 8000., 1804., 0.0199)
  ctx.close(balloon.Balloon.calculate_superpressure_and_volume(*args),
            balloon.calculate_superpressure_and_volume(*args), 'deprecated alias')
  for c in ('limp', 'taut', 'eff_UP', 'eff_DOWN', 'eff_STAY', 'emptied'):
    ctx.require(c, 3)
  ctx.require('tight', 20)
