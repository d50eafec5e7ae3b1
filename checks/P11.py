"""P11: vertical motion and heat balance follow the physical model."""
import numpy as np
from balloon_learning_environment.env.balloon import thermal
from vp import flight, ref, sim

RULE = ('one evaluation = one observed stride/step or one thermal call; '
        'distinct by (command, rising/sinking, day/night, pressure bucket, IR)')
ASSUMPTIONS = ['explicit Euler at the stride length is part of the model '
               '(documented step function); parameters are physical']


def thermal_call(ctx, rng):
  a = dict(volume=float(rng.uniform(1200, 2200)), mass=float(rng.uniform(40, 100)),
           tb=float(rng.uniform(170, 280)), ta=float(rng.uniform(170, 290)),
           p=float(rng.uniform(1000, 30000)), el=float(rng.uniform(-90, 90)),
           flux=float(rng.uniform(1200, 1450)), ir=float(rng.uniform(100, 400)))
  got = float(thermal.d_balloon_temperature_dt(*a.values()))
  want = ref.dtemp_dt(*a.values())
  ctx.close(got, want, 'heat balance differs from the model', 1e-8, 1e-13, **a)
  # More sun, more infrared or warmer air never cools the balloon faster.
  b = dict(a, ir=a['ir'] + 20)
  ctx.check(float(thermal.d_balloon_temperature_dt(*b.values())) > got,
            'more upwelling infrared cools the balloon', **a)
  b = dict(a, tb=a['tb'] + 5)
  ctx.check(float(thermal.d_balloon_temperature_dt(*b.values())) < got,
            'a hotter balloon heats up faster', **a)
  ctx.count('thermal')
  ctx.ev(('thermal', int(a['tb'] / 5), int(a['ta'] / 5), int(a['el'] / 10)))


def run(ctx):
  rng = ctx.rng
  for _ in range(ctx.n(2000, 20000)):
    thermal_call(ctx, rng)
  for _ in range(200):
    t = float(rng.uniform(150, 320))
    ctx.close(thermal.black_body_flux_to_temperature(
        thermal.black_body_temperature_to_flux(t)), t, 'black body inverse', 1e-10)
    ctx.close(thermal.black_body_temperature_to_flux(t), ref.SB * t**4, 'Stefan-Boltzmann')
  # The film absorbs a share between nothing and all of the radiation.
  for _ in range(ctx.n(500, 5000)):
    a, r = float(rng.uniform(-0.5, 1.2)), float(rng.choice([rng.uniform(-0.5, 0.99), rng.uniform(1.01, 2.5)]))
    want = a * (1 + (1 - a - r) / (1 - r))
    info = dict(absorptivity=a, reflectivity=r, total=want)
    if -1e-9 <= want <= 0 or 1 <= want <= 1 + 1e-9:
      continue
    if 0 < want < 1:
      ctx.close(thermal.total_absorptivity(a, r), want, 'total absorptivity', 1e-12, 1e-12, **info)
    else:
      ctx.raises(lambda: thermal.total_absorptivity(a, r), ValueError, 'a film absorbs more than all or less than nothing', **info)
    ctx.count('film valid' if 0 < want < 1 else 'film refused')
  for stride_mode, n, steps in ((False, ctx.n(50, 400), 30), (True, ctx.n(30, 250), 60)):
    for r in flight.flights(rng, n, steps, stride_mode=stride_mode):
      b, a, w = r.before, r.after, r.want
      info = dict(eff=r.eff, total=r.total, stride=r.stride, p0=b.pressure,
                  p1=a.pressure, t0=b.internal, t1=a.internal, time=str(b.t))
      ctx.check((a.m_env, a.m_pay, a.cod, a.ir) == (b.m_env, b.m_pay, b.cod, b.ir),
                'a step changed a mass, the drag or the infrared', **info)
      ctx.check(all(np.isfinite([a.pressure, a.ambient, a.internal])),
                'non-finite state', **info)
      if stride_mode:
        rho = b.pressure * ref.M_AIR / (ref.R * b.ambient)
        lift = rho * b.vol - (ref.M_HE * b.n_he + ref.M_AIR * b.n_air + b.m_env + b.m_pay)
        if abs(lift) > 1e-6:
          ctx.check((a.pressure < b.pressure) == (lift > 0),
                    'a buoyant balloon sank (or a heavy one rose)', lift=lift, **info)
        ctx.close(a.ambient, r.aref.at_pressure(b.pressure)[1],
                  'ambient temperature is not the atmosphere\'s', 1e-9, **info)
      if not r.fuzzy:
        d = a.diff(w, ['pressure', 'ambient', 'internal'], 1e-8)
        ctx.check(not d, 'vertical/thermal state differs from the model',
                  diff=d, **info)
        ctx.count('compared')
      ctx.count('rising' if a.pressure < b.pressure else 'sinking')
      ctx.count('day' if r.want.solar_w > 0 else 'night')
      ctx.ev((r.eff, a.pressure < b.pressure, r.want.solar_w > 0,
              int(b.pressure / 250), int(b.ir / 10), r.total, r.stride))
  for c in ('rising', 'sinking', 'day', 'night'):
    ctx.require(c, 50)
  ctx.require('compared', 1000)
