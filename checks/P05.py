"""P05: the station-keeping reward."""
import dataclasses
import datetime as dt
import math

from balloon_learning_environment.env import balloon_env
from balloon_learning_environment.env import simulator_data
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.utils import units
from vp import envs, flight, ref, sim

RULE = ('one evaluation = one reward; distinct by (inside/outside, command, '
        'excess energy, compressor-power bucket, distance bucket, custom parameters)')
ASSUMPTIONS = ['states within rounding of the excess-energy thresholds are skipped; '
               'distances within 1e-6 m of the radius are taken exactly on it or skipped']


def expected(st, radius=50.0, drop=0.4, half=100.0):
  s = ref.S(st)
  d = math.hypot(s.x, s.y) / 1000.0
  r = 1.0 if d <= radius else drop * 2.0**(-(d - radius) / half)
  la, lo = s.latlng()
  el = ref.solar(la, lo, s.t)[0]
  power = ref.solar_power(el, s.pressure)
  soc = s.batt_wh / s.cap_wh
  excess = power > s.day_w and soc > 0.99
  near = abs(power - s.day_w) < 1e-6 or abs(soc - 0.99) < 1e-9 or flight.near_threshold(s)
  if st.last_command.name == 'DOWN' and not excess:
    r *= 0.95 - 0.3 * min(1.0, max(0.0, (s.acs_w - 100.0) / 200.0))
  elif st.last_command.name != 'DOWN':
    near = False
  return r, excess, near, d


def oracle(ctx, got, st, src, **kw):
  want, excess, near, d = expected(st, **kw)
  radius = kw.get('radius', 50.0)
  if near or (0 < abs(d - radius) < 1e-9):
    return
  info = dict(src=src, d_km=d, cmd=st.last_command.name, excess=excess,
              acs_w=st.acs_power.watts, soc=st.battery_soc, **kw)
  ctx.close(got, want, 'wrong reward', 1e-8, 1e-12, **info)
  ctx.check(got >= 0.0 and (got <= 1.0 or kw.get('drop', 0) > 1), 'reward out of range', **info)
  ctx.count('inside' if d <= radius else 'outside')
  ctx.count('cmd_' + st.last_command.name)
  if st.last_command.name == 'DOWN':
    ctx.count('down_excess' if excess else 'down_penalised')
  ctx.ev((src, d <= radius, st.last_command.name, excess, int(st.acs_power.watts / 25), int(d / 20), bool(kw)))


def neighbours(ctx, rng):
  """At one place and time: other commands, charges, loads, parameters; and back."""
  wf = wind_field.SimpleStaticWindField()
  for k in range(ctx.n(60, 800)):
    atm = sim.atmosphere(rng)
    base = sim.make_balloon(rng, atm, stable=False, last_command=sim.Cmd.DOWN, **envs.km(rng, 0, 120)).state
    base.acs_power = units.Power(watts=float(rng.uniform(120, 290)))
    base.battery_charge = units.Energy(watt_hours=3058.56 * float(rng.uniform(0.992, 1)))
    moves = [dict(last_command=sim.Cmd.STAY), dict(last_command=sim.Cmd.UP), dict(acs_power=units.Power(watts=300.)),
             dict(acs_power=units.Power(watts=0.)), dict(battery_charge=base.battery_charge * 0.5), dict(battery_capacity=base.battery_capacity * 2.),
             dict(daytime_power_load=units.Power(watts=base.daytime_power_load.watts * 30.)), dict(daytime_power_load=units.Power(watts=base.daytime_power_load.watts * 0.)),
             dict(x=base.x + units.Distance(km=40.)), dict(y=-2 * base.y), dict(pressure=base.pressure * 0.9),
             dict(date_time=base.date_time + dt.timedelta(hours=11)), dict(time_elapsed=base.time_elapsed + dt.timedelta(minutes=3))]
    params = [{}, dict(radius=float(rng.uniform(1, 40))), dict(drop=float(rng.uniform(0, 1))), dict(half=float(rng.uniform(5, 500)))]
    for m in moves:
      for st in (base, dataclasses.replace(base, **m), base):
        p = dict(dict(radius=50.0, drop=0.4, half=100.0), **params[int(rng.integers(4))])
        kw = dict(station_keeping_radius_km=p['radius'], reward_dropoff=p['drop'], reward_halflife=p['half'])
        if p['radius'] == 50.0 and rng.random() < .5:
          kw.pop('station_keeping_radius_km')
        ss = simulator_data.SimulatorState(st, wf, atm)
        for _ in range(int(rng.integers(1, 3))):
          oracle(ctx, balloon_env.perciatelli_reward_function(ss, **kw), st, 'neighbour', **p)
        ctx.count('neighbours')


def run(ctx):
  rng = ctx.rng
  neighbours(ctx, rng)
  ctx.require('neighbours', 1000)
  atm = sim.atmosphere(rng)
  wf = wind_field.SimpleStaticWindField()
  for k in range(ctx.n(1500, 20000)):
    kw = envs.km(rng, 0, float(rng.choice([40, 120, 1000])))
    if k % 7 == 3:  # Thousands of kilometres astray (and not near a pole).
      kw = dict(x=units.Distance(km=float(rng.choice([-1, 1]) * rng.uniform(1500, 9000))), y=units.Distance(km=float(rng.uniform(-900, 900))))
    if k % 9 == 0:
      kw = dict(zip(('x', 'y'), [(units.Distance(km=50.0), units.Distance(km=0.0)),
                                 (units.Distance(km=0.0), units.Distance(km=-50.0)),
                                 (units.Distance(km=30.0), units.Distance(km=-40.0)),
                                 (units.Distance(m=50000.01), units.Distance(m=0.0)),
                                 (units.Distance(m=0.0), units.Distance(m=0.0))][(k // 9) % 5]))
    if k % 3 == 0:
      kw['battery_charge'] = units.Energy(watt_hours=3058.56 * float(rng.uniform(0.985, 1)))
    b = sim.make_balloon(rng, atm, stable=False, last_command=sim.ACTIONS[int(rng.integers(3))], **kw)
    b.state.acs_power = units.Power(watts=float(rng.choice([0, 100, 300, rng.uniform(0, 450)])))
    # Nothing else in the state matters.
    if rng.random() < 0.4:
      b.state.power_safety_layer.navigation_is_paused = True
    if rng.random() < 0.3:
      b.state.envelope_safety_layer.get_action(sim.Cmd.STAY, float(rng.choice([100.0, 200.0, 2200.0])))
    if rng.random() < 0.3:
      b.state.altitude_safety_layer.get_action(sim.Cmd.STAY, atm, float(rng.uniform(11000, 14000)))
    b.state.superpressure = float(rng.uniform(0, 2400))
    b.state.mols_air = float(rng.uniform(0, 3000))
    b.state.power_load = units.Power(watts=float(rng.uniform(100, 500)))
    b.state.solar_charging = units.Power(watts=float(rng.uniform(0, 600)))
    if rng.random() < 0.2:
      b.state.status = list(type(b.state.status))[int(rng.integers(4))]
    ctx.count('paused', b.state.navigation_is_paused)
    ss = simulator_data.SimulatorState(b.state, wf, atm)
    oracle(ctx, balloon_env.perciatelli_reward_function(ss), b.state, 'direct')
    if k % 4 == 0:
      p = dict(radius=float(rng.uniform(1, 300)), drop=float(rng.uniform(0, 1)), half=float(rng.uniform(5, 500)))
      oracle(ctx, balloon_env.perciatelli_reward_function(
          ss, station_keeping_radius_km=p['radius'], reward_dropoff=p['drop'],
          reward_halflife=p['half']), b.state, 'custom', **p)
  # Monotone in distance: closer is never worse.
  for _ in range(ctx.n(100, 1000)):
    b = sim.make_balloon(rng, atm, stable=False)
    r = []
    for d in sorted(rng.uniform(0, 800, 6)):
      b.state.x, b.state.y = units.Distance(km=float(d)), units.Distance(km=0.0)
      r.append(balloon_env.perciatelli_reward_function(simulator_data.SimulatorState(b.state, wf, atm)))
    ctx.check(all(x >= y for x, y in zip(r, r[1:])), 'the reward is not monotone in distance', rewards=r)
  # The environment hands out this very reward, for the state after the step.
  env = envs.make_env(11)
  for ep in range(ctx.n(8, 60)):
    env.reset(seed=int(rng.integers(2**31)))
    envs.place(env, rng, **envs.km(rng, 0, 120),
               battery_charge=units.Energy(watt_hours=float(rng.uniform(1500, 3058))))
    a = int(rng.integers(3))
    fail = int(rng.integers(3, 15))
    for i in range(ctx.n(20, 150)):
      if i == fail:  # The reward of the step that ends in failure is no other.
        env.get_simulator_state().balloon_state.internal_temperature += float(rng.choice([40, -40]))
      if rng.random() < 0.3:
        a = int(rng.integers(3))
      _, r, d, _ = env.step(a)
      oracle(ctx, r, env.get_simulator_state().balloon_state, 'env')
      if d:
        ctx.count('terminal')
        break
  # A custom reward function is the one that is used, once per step.
  calls = []
  def custom(state):
    calls.append(state.balloon_state.time_elapsed.total_seconds())
    return 0.125 * len(calls)
  env = envs.make_env(5, reward_function=custom)
  calls.clear()
  for i in range(6):
    if i == 5:
      env.get_simulator_state().balloon_state.internal_temperature += 40
    _, r, d, info = env.step(1)
    ctx.check(d == (i == 5), 'the last step should fail')
    ctx.check(r == 0.125 * (i + 1) and len(calls) == i + 1 and calls[-1] == info['time_elapsed'].total_seconds() and (d or calls[-1] == 180 * (i + 1)),
              'the supplied reward function was not evaluated once on the new state', calls=calls, r=r)
    ctx.ev(('custom_fn', i))
  # The environment's own radius.
  for r in (None, 50.0, float(rng.uniform(5, 300))):
    e = envs.make_env(5, **({} if r is None else dict(station_keeping_radius_km=r)))
    ctx.close(e.radius.km, 50.0 if r is None else r, 'the station keeping radius is not the one configured', 1e-12)
    ctx.ev(('radius', r is None))
  ctx.require('terminal', 4)
  ctx.require('paused', 100)
  for c in ('inside', 'outside', 'cmd_UP', 'cmd_STAY', 'down_excess', 'down_penalised'):
    ctx.require(c, 20)
