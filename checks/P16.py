"""P16: the layers compose, and the state says what happened."""
import dataclasses
import datetime as dt

from balloon_learning_environment.env.balloon import solar
from balloon_learning_environment.utils import units
from vp import flight, ref, sim

RULE = ('one evaluation = one step of a flight whose three layers are shadowed '
        'by models; distinct by (command, effective command, three paused bits)')
ASSUMPTIONS = [
    'the effective command is read from its footprint: compressor power for '
    'DOWN, negative mass flow for UP, neither for STAY',
    'a flight stops being compared when a layer input is within rounding of a '
    'threshold']


def near(x, edges, eps):
  return min(abs(x - e) for e in edges) < eps


def run(ctx):
  rng = ctx.rng
  for f in range(ctx.n(200, 1500)):
    atm = sim.atmosphere(rng)
    aref = ref.Atm.like(atm)
    kind = f % 6
    kw = {}
    if kind == 1:    # near the altitude floor
      p = aref.at_height(float(rng.uniform(49300, 51200)) * ref.FT)[2]
      kw['pressure'] = p
    if kind == 2:    # at the top of the range: little air, low superpressure
      kw['pressure'] = float(rng.uniform(6300, 6900))
    b = flight.new_balloon(rng, atm, perturb=(kind == 0), power_layer=f % 5 != 0, **kw)
    s = b.state
    if kind == 3:
      # The same balloon with an envelope whose limit is close above.
      s = b.state = dataclasses.replace(
          s, envelope_max_superpressure=float(s.superpressure + rng.uniform(120, 450)))
    if kind == 4:
      s.battery_charge = float(rng.uniform(0.02, 0.5)) * s.battery_capacity
    if kind == 5:
      s.superpressure = float(rng.uniform(10, 300))
    pm = ref.PowerSafety(*solar.get_next_sunrise_sunset(s.latlng, s.date_time))
    em, am = ref.EnvelopeSafety(s.envelope_max_superpressure), ref.AltitudeSafety()
    sp_edges = [150, 250, 300] + [s.envelope_max_superpressure - d for d in (300, 250, 150)]
    act = sim.ACTIONS[int(rng.integers(3))]
    for i in range(ctx.n(30, 60)):
      if rng.random() < 0.25:
        act = sim.ACTIONS[int(rng.integers(3))]
      if kind in (1, 4) and rng.random() < 0.5:
        act = sim.Cmd.DOWN
      s = b.state
      alt_ft = aref.at_pressure(float(s.pressure))[0] / ref.FT
      sp = float(s.superpressure)
      e = act.name
      if s.power_safety_layer_enabled:
        e = pm.step(e, s.date_time, s.nighttime_power_load.watts,
                    float(s.battery_charge.watt_hours), s.battery_capacity.watt_hours)
        if pm.margin is not None and abs(pm.margin) < 1e-9:
          break
      e = em.step(e, sp)
      e = am.step(e, alt_ft * ref.FT)
      if near(sp, sp_edges, 1e-6) or near(alt_ft, [5e4, 5.05e4, 5.1e4], 1e-4):
        break
      total = int(rng.choice([10, 60, 180]))
      sp0 = sp
      b.simulate_step(sim.wind(1, 1), atm, act, dt.timedelta(seconds=total))
      s = b.state
      got = sim.effective(s)
      info = dict(command=act.name, want=e, got=got, superpressure=sp, alt_ft=alt_ft,
                  soc=float(s.battery_soc), time=str(s.date_time),
                  power_layer=s.power_safety_layer_enabled,
                  paused=(pm.paused, em.state, am.state), step=i)
      ctx.check(s.last_command == act, 'last_command is not the commanded action',
                last=str(s.last_command), **info)
      if not (got == 'STAY' and e == 'UP' and sp0 <= 0):
        ctx.check(got == e, 'the safety layers did not compose as documented', **info)
      ctx.check(bool(s.navigation_is_paused) == (pm.paused or em.paused or am.paused),
                'navigation_is_paused does not reflect the layers', **info)
      if not (pm.paused or em.paused or am.paused):
        ctx.check(got == act.name, 'a safe command did not pass through', **info)
        ctx.count('passed')
      ctx.count(f'{act.name}->{e}')
      for nm, m in (('power', pm), ('envelope', em), ('altitude', am)):
        if m.paused:
          ctx.count('paused_' + nm)
      ctx.ev((act.name, e, pm.paused, em.state, am.state, s.power_safety_layer_enabled))
      if s.status.name != 'OK':
        break
  for c in ('passed', 'DOWN->STAY', 'DOWN->UP', 'STAY->UP', 'paused_power',
            'paused_envelope', 'paused_altitude'):
    ctx.require(c, 4)
