"""P12: failures are reported exactly when they occur, and are final."""
import datetime as dt

from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.utils import units
from vp import envs, flight, ref, sim

RULE = ('one evaluation = one observed step; distinct by (cause, command, '
        'stride of failure, layer on/off)')
ASSUMPTIONS = ['steps with superpressure within 1e-6 Pa of a limit or the sun '
               'within 1e-7 deg of the horizon threshold are skipped']


def oracle(ctx, r):
  a, b = r.after, r.before
  if r.fuzzy:
    ctx.count('skipped_fuzzy')
    return
  info = dict(status=a.status, want=r.want.status, sp=a.sp, sp_max=a.sp_max,
              batt=a.batt_wh, gone=(a.elapsed - b.elapsed).total_seconds(),
              stride=r.stride, strides=r.strides, cmd=r.action.name)
  ctx.check(a.status == r.want.status, 'wrong balloon status', **info)
  ctx.check((a.elapsed - b.elapsed).total_seconds() == r.strides * r.stride,
            'the failure was not detected in the stride it occurred', **info)
  # Independent reading of the final state.
  if a.status == 'OK':
    ctx.check(0 < a.sp <= a.sp_max and a.batt_wh > 0,
              'status OK in a failed state', **info)
  elif a.status == 'BURST':
    ctx.check(a.sp > a.sp_max, 'burst below the limit', **info)
  elif a.status == 'ZEROPRESSURE':
    ctx.check(a.sp <= 0, 'zeropressure with pressure', **info)
  else:
    ctx.check(a.batt_wh <= 0, 'out of power with charge left', **info)
  ctx.count(a.status)
  ctx.ev((a.status, r.action.name, r.strides, r.stride,
          r.b.state.power_safety_layer_enabled))
  if a.status != 'OK':
    snap = envs.state_vec(r.b.state)
    for act in sim.ACTIONS:
      ctx.raises(lambda: r.b.simulate_step(sim.wind(1, 1), r.atm, act,
                                           dt.timedelta(minutes=3)),
                 AssertionError, 'a failed balloon could be stepped', **info)
      diff = envs.vec_diff(envs.state_vec(r.b.state), snap)
      ctx.check(not diff, 'stepping a failed balloon changed its state', diff=diff, **info)
    ctx.count('refused')


def run(ctx):
  rng = ctx.rng
  for r in flight.flights(rng, ctx.n(25, 250), 25):
    oracle(ctx, r)
  for k in range(ctx.n(120, 900)):
    atm = sim.atmosphere(rng)
    aref = ref.Atm.like(atm)
    b = flight.new_balloon(rng, atm, perturb=False, power_layer=bool(k % 2))
    s = b.state
    kind = k % 5
    if kind in (0, 4):  # Out of power.
      lat, lng = s.latlng.lat().degrees, s.latlng.lng().degrees
      if k % 3 == 0:  # By day, too.
        s.daytime_power_load = units.Power(watts=float(rng.uniform(2000, 6000)))
        s.nighttime_power_load = units.Power(watts=float(rng.uniform(2000, 6000)))
      else:
        while ref.solar(lat, lng, s.date_time)[0] > -10:
          s.date_time += dt.timedelta(minutes=20)
      s.battery_charge = units.Energy(watt_hours=float(rng.uniform(0.05, 25)))
    if kind in (1, 4):  # Over pressure.
      s.internal_temperature += float(rng.uniform(5, 40))
    elif kind == 2:  # Limp: too cold or too little gas.
      s.internal_temperature -= float(rng.uniform(5, 40))
    elif kind == 3:  # Drive a limit by shrinking the envelope's strength.
      s.envelope_max_superpressure = s.superpressure + float(rng.uniform(-5, 40))
    if k % 4 == 1:  # What the superpressure was before the stride does not matter.
      s.superpressure = float(rng.choice([0.0, 1e-9, s.envelope_max_superpressure + 50, 5000.0]))
      ctx.count('stale_superpressure')
    for i in range(6):
      r = flight.observe(b, 1., 0., atm, aref, sim.ACTIONS[int(rng.integers(3))],
                         *((180, 10) if k % 3 else (60, 5)))
      oracle(ctx, r)
      if r.after.status != 'OK':
        break
  ctx.require('stale_superpressure', 20)
  for c in ('OK', 'BURST', 'ZEROPRESSURE', 'OUT_OF_POWER', 'refused'):
    ctx.require(c, 5)
