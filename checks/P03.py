"""P03: the sixteen ambient features encode the balloon's state."""
import dataclasses
import datetime as dt
import math

import numpy as np
from balloon_learning_environment.env import features
from balloon_learning_environment.env import simulator_data
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.balloon import control
from balloon_learning_environment.env.balloon import solar
from balloon_learning_environment.utils import units
from vp import envs, flight, ref, sim

RULE = ('one evaluation = one observation decoded feature by feature; distinct '
        'by (last command, paused, excess energy, quadrant, day/night, '
        'pressure-ratio bin, soc decile)')
ASSUMPTIONS = [
    'float32 rounding: 2e-6; sunrise and sunset times are those of '
    'solar.get_next_sunrise_sunset (P21 decides them)',
    'excess energy is skipped within rounding of its two thresholds; the descent '
    'power within rounding of a table edge']
PR = [1.08, 1.11, 1.14, 1.17, 1.2, 1.23, 1.26]
SOC = [([.3, .4, .5], [0, 150, 175, 200]), ([.3, .4, .7], [0, 200, 200, 225]),
       ([.3, .4, .6], [0, 225, 225, 250]), ([.3, .4, .5], [0, 200, 225, 250]),
       ([.3, .4, .5], [0, 225, 250, 275]), ([.4, .5], [0, 275, 300]),
       ([.5, .6], [0, 300, 325]), ([.5, .6], [0, 325, 350])]


def table(ratio, soc):
  edges, vals = SOC[sum(ratio >= e for e in PR)]
  return vals[sum(soc >= e for e in edges)]


def oracle(ctx, obs, st, src):
  s = ref.S(st)
  la, lo = s.latlng()
  el, _, _ = ref.solar(la, lo, s.t)
  soc = s.batt_wh / s.cap_wh
  d_km = math.hypot(s.x, s.y) / 1e3
  head = math.atan2(-s.x, -s.y)
  rise, sset = solar.get_next_sunrise_sunset(st.latlng, s.t)
  day = dt.timedelta(days=1)
  ang = (math.pi * ((s.t - (rise - day)) / (sset - (rise - day))) if sset < rise else
         math.pi * (1 + (s.t - (sset - day)) / (rise - (sset - day))))
  sat = lambda v, a, b: min(1.0, max(0.0, (v - a) / (b - a)))
  cmd = st.last_command.name
  paused = bool(st.navigation_is_paused)
  ratio = s.ratio()
  want = [sat(s.pressure, 5000, 14000), soc, sat(el, -90, 90), math.sin(ang), math.cos(ang),
          math.sin(head), math.cos(head), d_km / (d_km + 250),
          cmd == 'UP', cmd == 'STAY', cmd == 'DOWN', paused, not paused]
  names = ['pressure', 'battery', 'solar elevation', 'sin solar cycle', 'cos solar cycle',
           'sin heading', 'cos heading', 'distance', 'last command up', 'last command stay',
           'last command down', 'navigation paused', 'navigation enabled']
  info = dict(src=src, pressure=s.pressure, soc=soc, el=el, x=s.x, y=s.y, cmd=cmd,
              ratio=ratio, time=str(s.t))
  for i, (n, w) in enumerate(zip(names, want)):
    ctx.close(obs[i], float(w), f'feature {i} ({n}) does not encode the state', 2e-6, 2e-6, **info)
  power = ref.solar_power(el, s.pressure)
  near = (abs(soc - 0.99) < 1e-9 or abs(power - s.day_w) < 1e-6 or flight.near_threshold(s))
  excess = power > s.day_w and soc > 0.99
  if not near:
    ctx.close(obs[13], float(excess), 'feature 13 (excess energy) is wrong', 0, 0, power=power, **info)
    ctx.count('excess' if excess else 'no_excess')
    if soc > 0.99 and not excess:
      ctx.count('full_but_dark')
  if min(abs(ratio - e) for e in PR) > 1e-9 and min(abs(soc - e) for e in (.3, .4, .5, .6, .7)) > 1e-9:
    ctx.close(obs[14], sat(table(ratio, soc), 100, 300), 'feature 14 (descent power) is wrong', 2e-6, 2e-6, **info)
  ctx.close(obs[15], ratio, 'feature 15 (pressure ratio) is wrong', 2e-6, 2e-6, **info)
  # The reader decodes what the writer wrote.
  n = features.NamedPerciatelliFeatures(obs)
  C = control.AltitudeControlCommand
  ctx.close(n.balloon_pressure, 5000 + 9000 * want[0], 'named balloon_pressure', 2e-6, 1e-2, **info)
  got = [n.battery_charge, n.solar_elevation, n.sin_normalized_solar_cycle, n.cos_normalized_solar_cycle,
         n.sin_heading_to_station, n.cos_heading_to_station, n.distance_to_station]
  ctx.close(got, want[1:8], 'NamedPerciatelliFeatures misreads the vector', 2e-6, 2e-6, **info)
  ctx.check(n.last_command == C[cmd], 'named last_command', named=str(n.last_command), **info)
  ctx.check(bool(n.navigation_paused) == paused and bool(n.navigation_enabled) != paused,
            'named navigation flags', **info)
  ctx.check(n.has_excess_energy == obs[13] and n.descent_cost == obs[14] and
            n.internal_pressure_ratio == obs[15], 'named energy features', **info)
  ctx.check(n.num_pressure_levels == 361 and n.wind_column_center() == 180, 'named column shape')
  for lv in (0, 179, 180, 181, 360, int(ctx.rng.integers(361))):
    at = n.wind_at(lv)
    w = [float(q) for q in np.asarray(obs)[16 + 3 * lv:19 + 3 * lv]]
    ctx.check([at.uncertainty, at.bearing, at.magnitude] == w and [n.uncertainty(lv), n.bearing(lv), n.magnitude(lv)] == w,
              'a wind entry is misread', level=lv, **info)
  ctx.count('cmd_' + cmd)
  ctx.count('paused' if paused else 'free')
  ctx.count('day' if el > 0 else 'night')
  ctx.ev((cmd, paused, excess, s.x > 0, s.y > 0, el > 0, sum(ratio >= e for e in PR), int(soc * 10), src))


def neighbours(ctx, rng):
  """One field of a state changed at a time, and back; judged one right after
  the other, by one constructor or by one for each."""
  env = envs.make_env(4, wind_field.SimpleStaticWindField)
  wf = env.get_simulator_state().wind_field
  for k in range(ctx.n(25, 250)):
    atm = sim.atmosphere(rng)
    base = sim.make_balloon(rng, atm, pressure=float(rng.uniform(6000, 11000)), last_command=sim.ACTIONS[k % 3],
                            **envs.km(rng, 0, 300)).state
    base.battery_charge = units.Energy(watt_hours=3058.56 * float(rng.uniform(0.3, 1.0)))
    minutes = lambda m: dict(date_time=base.date_time + dt.timedelta(minutes=m))
    moves = [dict(x=base.x + units.Distance(km=2500.)), dict(y=base.y - units.Distance(km=1500.)), dict(x=-1 * base.x),
             dict(battery_charge=base.battery_charge * 0.5), dict(battery_capacity=base.battery_capacity * 1.3),
             dict(superpressure=base.superpressure * 0.5), dict(last_command=sim.ACTIONS[(k + 1) % 3]),
             dict(daytime_power_load=units.Power(watts=base.daytime_power_load.watts * 4.)), dict(pressure=base.pressure + 7.),
             minutes(3), minutes(40), minutes(600), minutes(-1440),
             dict(center_latlng=type(base.center_latlng).from_degrees(-base.center_latlng.lat().degrees + 5, base.center_latlng.lng().degrees + 90))]
    states = [base]
    for m in moves:
      states += [dataclasses.replace(base, **m)] + [base] * (rng.random() < .4)
    shared = features.PerciatelliFeatureConstructor(wf, atm)
    for i, s in enumerate(states):
      fc = shared if k % 2 else features.PerciatelliFeatureConstructor(wf, atm)
      fc.observe(simulator_data.SimulatorObservation(balloon_observation=s, wind_at_balloon=sim.wind(1, 1)))
      try:
        obs = fc.get_features()
      except ValueError:  # No safe level (P18).
        continue
      oracle(ctx, obs, s, 'neighbour')
      ctx.count('neighbours')


def run(ctx):
  rng = ctx.rng
  neighbours(ctx, rng)
  ctx.require('neighbours', 200)
  # Flown states.
  env = envs.make_env(3, wind_field.SimpleStaticWindField)
  for ep in range(ctx.n(6, 60)):
    obs = env.reset(seed=int(rng.integers(2**31)))
    oracle(ctx, obs, env.get_simulator_state().balloon_state, 'reset')
    a = int(rng.integers(3))
    for i in range(ctx.n(20, 200)):
      if rng.random() < 0.2:
        a = int(rng.integers(3))
      obs, _, d, _ = env.step(a)
      oracle(ctx, obs, env.get_simulator_state().balloon_state, 'step')
      if d:
        break
  # Placed states: every corner of the encoding.
  wf = env.get_simulator_state().wind_field
  for k in range(ctx.n(400, 5000)):
    atm = sim.atmosphere(rng)
    kw = envs.km(rng, 0, float(rng.choice([1, 100, 1000, 4000])))
    if k % 4 == 0:
      kw['battery_charge'] = units.Energy(watt_hours=3058.56 * float(rng.uniform(0.985, 1.0)))
    if k % 11 == 1:  # Nearly (or wholly) empty.
      kw['battery_charge'] = units.Energy(watt_hours=3058.56 * float(rng.choice([0., 1e-4, .003, .008, .02])))
    if k % 7 == 0:
      kw['daytime_power_load'] = units.Power(watts=float(rng.uniform(300, 1300)))
    if k % 10 == 0:  # On an axis, in every direction; and at the station.
      kw['x'], kw['y'] = [(units.Distance(km=a), units.Distance(km=b)) for a, b in
                          ((50, 0), (-50, 0), (0, 70), (0, -70), (0, 0))][(k // 10) % 5]
    pr = float(rng.uniform(4600, 15500)) if k % 3 == 0 else None
    b = sim.make_balloon(rng, atm, pressure=pr, last_command=sim.ACTIONS[k % 3], **kw)
    s = b.state
    if k % 3 == 1:
      s.superpressure = float(s.pressure * rng.uniform(0, 0.35))
    if k % 6 == 2:  # Make a layer speak.
      s.envelope_safety_layer.get_action(sim.Cmd.STAY, float(rng.choice([100, 200, 1000, 2200])))
    if k % 6 == 4 and rng.random() < .5:
      s.altitude_safety_layer.get_action(sim.Cmd.STAY, atm, float(rng.uniform(10000, 14000)))
      ctx.count('altitude_paused', s.navigation_is_paused)
    if k % 6 == 5:
      s.power_safety_layer.get_action(sim.Cmd.STAY, s.date_time, s.nighttime_power_load,
                                      units.Energy(watt_hours=float(rng.uniform(0, 3000))),
                                      s.battery_capacity)
    fc = features.PerciatelliFeatureConstructor(wf, atm)
    fc.observe(simulator_data.SimulatorObservation(
        balloon_observation=s, wind_at_balloon=sim.wind(1, 1)))
    q = float(rng.choice([5000.0, 14000.0, np.nextafter(5000.0, 0), np.nextafter(14000.0, 2e4), rng.uniform(3000, 16000)]))
    ctx.check(bool(fc.is_valid_pressure(q)) == (5000.0 <= q <= 14000.0), 'the range of the pressure feature', pressure=q)
    try:
      obs = fc.get_features()
    except ValueError as e:
      # No safe pressure level: documented refusal of the range builder (P18).
      ctx.check('safe' in str(e) or 'pressure' in str(e).lower(), 'unexpected refusal', error=str(e))
      ctx.count('refused')
      continue
    oracle(ctx, obs, s, 'placed')
  ctx.check(ctx.counters.get('refused', 0) < ctx.n(40, 500), 'too many states refused')
  ctx.require('altitude_paused', 3)
  for c in ('cmd_UP', 'cmd_STAY', 'cmd_DOWN', 'paused', 'free', 'day', 'night', 'excess',
            'no_excess', 'full_but_dark'):
    ctx.require(c, 5)
