"""P04: the wind column tells the balloon what it knows about the winds."""
import dataclasses
import datetime as dt
import math

import numpy as np
from balloon_learning_environment.env import features
from balloon_learning_environment.env import simulator_data
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.balloon import pressure_range_builder
from balloon_learning_environment.utils import units
from vp import envs, ref, sim

RULE = ('one evaluation = one observation, 361 triples decoded; distinct by '
        '(wind field, balloon level, reachable count, observations)')
ASSUMPTIONS = [
    'Gaussian-process reference: exponential kernel 3.6^2, noise 0.05, length '
    'scales 357 km, 357 km, 326 Pa, 34560 s, measurements younger than 6 h',
    'the accessible range is pressure_range_builder\'s (P18 decides it); levels '
    'within 1e-6 Pa of an end are skipped',
    'angles are compared through their cosine (float32; the code regularises both '
    'norms by 1e-5)']
LEVELS = [5000.0 + 50.0 * i for i in range(181)]
SCALE = np.array([357000.0, 357000.0, 326.0, 34560.0])


class Reference:
  """Own Gaussian process over (measured - forecast)."""

  def __init__(self, wf):
    self.wf, self.X, self.E = wf, [], []

  def observe(self, st, m=None):
    m = m or self.wf.get_ground_truth(st.x, st.y, st.pressure, st.time_elapsed)
    f = self.wf.get_forecast(st.x, st.y, st.pressure, st.time_elapsed)
    self.X.append([st.x.meters, st.y.meters, float(st.pressure), st.time_elapsed.total_seconds()])
    self.E.append([(m.u - f.u).mps, (m.v - f.v).mps])

  def column(self, st):
    q = np.array([[st.x.meters, st.y.meters, p, st.time_elapsed.total_seconds()] for p in LEVELS])
    X, E = np.array(self.X), np.array(self.E)
    keep = np.abs(X[:, 3] - q[0, 3]) < 6 * 3600
    X, E = X[keep] / SCALE, E[keep]
    q = q / SCALE
    d = lambda a, b: np.sqrt(((a[:, None, :] - b[None, :, :])**2).sum(-1))
    K = 12.96 * np.exp(-d(X, X)) + 0.05 * np.eye(len(X))
    ks = 12.96 * np.exp(-d(q, X))
    mean = ks @ np.linalg.solve(K, E)
    var = 12.96 - np.einsum('ij,ji->i', ks, np.linalg.solve(K, ks.T))
    fc = [self.wf.get_forecast(st.x, st.y, p, st.time_elapsed) for p in LEVELS]
    return mean + np.array([[w.u.mps, w.v.mps] for w in fc]), var / 12.96


def oracle(ctx, obs, st, atm, gp, name):
  n = features.NamedPerciatelliFeatures(obs)
  rng_ = pressure_range_builder.get_pressure_range(st, atm)
  p = min(max(float(st.pressure), 5000.0), 14000.0)
  lev = (p - 5000.0) / 50.0
  level = round(lev)
  info = dict(field=name, pressure=float(st.pressure), level=level, x=st.x.km, y=st.y.km,
              rng=(rng_.min_pressure, rng_.max_pressure), obs=len(gp.X))
  if abs(lev - math.floor(lev) - 0.5) < 1e-7:
    return
  means, var = gp.column(st)
  d = math.hypot(st.x.meters, st.y.meters)
  col = obs[16:].reshape(361, 3)
  reach = 0
  for slot in range(361):
    i = slot - 180 + level  # index in the absolute grid of 181 levels
    got = col[slot]
    w = n.wind_at(slot)
    ctx.check((w.uncertainty, w.bearing, w.magnitude) == tuple(got), 'wind_at misreads the column', slot=slot, **info)
    inside = 0 <= i <= 180
    if inside and min(abs(LEVELS[i] - rng_.min_pressure), abs(LEVELS[i] - rng_.max_pressure)) < 1e-6:
      continue
    ok = inside and rng_.min_pressure <= LEVELS[i] <= rng_.max_pressure
    ctx.check(n.level_is_valid(slot) == ok,
              'a reachable level is marked unreachable' if ok else 'an unreachable level is marked reachable',
              slot=slot, got=got, **info)
    if not ok:
      ctx.check(tuple(got) == (0.0, 1.0, 1.0), 'unreachable level is not (0, 1, 1)', slot=slot, got=got, **info)
      continue
    reach += 1
    u, v = means[i]
    mag = math.hypot(u, v)
    ctx.close(got[0], var[i], 'uncertainty is not the posterior variance fraction', 1e-4, 2e-5, slot=slot, **info)
    ctx.close(got[2], mag / (mag + 30.0), 'magnitude is wrong', 1e-5, 1e-5, slot=slot, **info)
    if d < 1e-5:
      ctx.check(got[1] == 0.0, 'bearing at the station is not 0', slot=slot, **info)
    elif mag < 1e-4:
      if mag < 1e-6:
        ctx.close(got[1], 1.0, 'bearing of still air is not pi', 0, 1e-6, **info)
    else:
      c = -(u * st.x.meters + v * st.y.meters) / (mag * d)
      ctx.close(math.cos(math.pi * got[1]), max(-1.0, min(1.0, c)),
                'bearing error is not the angle between the wind and the station', 1e-5, 3e-5 + 1.5e-5 * (1 / mag + 1 / d), slot=slot, **info)
      ctx.check(0.0 <= got[1] <= 1.0 + 1e-6, 'bearing outside [0, 1]', slot=slot, **info)
      real = features.convert_wind_feature_to_real_wind(w)
      ctx.close(real.magnitude, mag, 'convert_wind_feature_to_real_wind magnitude', 1e-3, 1e-3, **info)
      ctx.close(real.bearing, math.pi * got[1], 'convert_wind_feature_to_real_wind bearing', 1e-6, 1e-6, **info)
  for bad in (-1, 361, 400):
    ctx.raises(lambda: n.wind_at(bad), Exception, 'wind level outside the column accepted', level=bad)
  ctx.count('reachable', reach)
  ctx.count('columns')
  ctx.ev((name, level, reach, len(gp.X)))


def triples(ctx):
  """Only the triple (0, 1, 1) stands for no wind."""
  for u in (0.0, 0.3, 1.0):
    for b in (0.0, 0.5, 1.0):
      for m in (0.0, 0.4, 1.0):
        ctx.check(bool(features.PerciatelliWindFeature(u, b, m).is_valid_wind()) == ((u, b, m) != (0.0, 1.0, 1.0)),
                  'validity of a wind triple', uncertainty=u, bearing=b, magnitude=m)
        ctx.ev(('triple', u, b, m))


class Line(wind_field.WindField):
  """Air that moves along one line, the same way or the other at every height."""

  def __init__(self, u, v):
    super().__init__()
    self.u, self.v = u, v

  def reset_forecast(self, unused_key, unused_date_time):
    pass

  def get_forecast(self, x, y, pressure, elapsed_time):
    k = 1.0 + (float(pressure) - 5000.0) / 9000.0
    if int(float(pressure) // 1000) % 2:
      k = -k
    return wind_field.WindVector(units.Velocity(mps=k * self.u), units.Velocity(mps=k * self.v))


def in_line(ctx):
  """Wind straight towards or away from the station: the angle is 0 or pi, up
  to rounding, and is a number."""
  rng = ctx.rng
  from balloon_learning_environment.env.balloon import standard_atmosphere
  import jax
  for k in range(ctx.n(12, 80)):
    th = float(rng.uniform(0, 2 * math.pi)) if k % 3 else math.pi / 4 + k * math.pi / 2
    mps, r = float(rng.uniform(60, 200) if k % 4 == 1 else rng.uniform(0.5, 40)), float(10 ** rng.uniform(2, 6))
    wf = Line(mps * math.cos(th), mps * math.sin(th))
    atm = standard_atmosphere.Atmosphere(jax.random.PRNGKey(int(rng.integers(2**31))))
    wf.reset(jax.random.PRNGKey(0), dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc))
    b = sim.make_balloon(rng, atm, pressure=float(rng.uniform(6000, 11000)),
                         x=units.Distance(m=r * math.cos(th)), y=units.Distance(m=r * math.sin(th)))
    try:
      reach = pressure_range_builder.get_pressure_range(b.state, atm)
    except ValueError:
      continue
    st = b.state
    fc = features.PerciatelliFeatureConstructor(wf, atm)
    # Measured as forecast: the posterior mean stays on the line.
    fc.observe(simulator_data.SimulatorObservation(st, wf.get_forecast(st.x, st.y, st.pressure, st.time_elapsed)))
    n = features.NamedPerciatelliFeatures(fc.get_features())
    level = round((st.pressure - 5000.0) / 50.0)
    for slot in range(361):
      if not n.level_is_valid(slot):
        continue
      w = n.wind_at(slot)
      away = wf.get_forecast(st.x, st.y, LEVELS[slot - 180 + level], st.time_elapsed).u.mps * math.cos(th) > 0 \
          if abs(math.cos(th)) > .5 else wf.get_forecast(st.x, st.y, LEVELS[slot - 180 + level], st.time_elapsed).v.mps * math.sin(th) > 0
      info = dict(slot=slot, angle=th, r=r, mps=mps, rng=(reach.min_pressure, reach.max_pressure))
      ctx.check(bool(np.all(np.isfinite((w.uncertainty, w.bearing, w.magnitude)))), 'the wind straight along the line to the station is not a number', got=w, **info)
      f = wf.get_forecast(st.x, st.y, LEVELS[slot - 180 + level], st.time_elapsed)
      speed = math.hypot(f.u.mps, f.v.mps)
      ctx.close(w.magnitude, speed / (speed + 30.0), 'magnitude of wind along the line to the station', 1e-5, 1e-5, speed=speed, **info)
      ctx.count('storm', speed > 90)
      ctx.close(math.cos(math.pi * w.bearing), -1.0 if away else 1.0, 'bearing of wind along the line to the station', 0, 1e-3, **info)
      ctx.check(0.0 <= w.bearing <= 1.0 + 1e-6, 'bearing outside [0, 1]', got=w.bearing, **info)
      ctx.count('in_line')
    ctx.ev(('line', k))


def still(ctx, rng):
  """Still air has no direction: the worst bearing, except at the station."""
  atm = sim.atmosphere(rng)
  for k in range(ctx.n(6, 40)):
    wf = Line(0.0, 0.0)
    r = [0.0, 5.0, 3e4, 4e5][k % 4]
    st = sim.make_balloon(rng, atm, pressure=float(rng.uniform(6500, 10500)), x=units.Distance(m=r), y=units.Distance(m=-r)).state
    fc = features.PerciatelliFeatureConstructor(wf, atm)
    fc.observe(simulator_data.SimulatorObservation(st, sim.wind(0, 0)))
    try:
      n = features.NamedPerciatelliFeatures(fc.get_features())
    except ValueError:
      continue
    for slot in range(361):
      w = n.wind_at(slot)
      if w.uncertainty == 0.0:  # (0, 1, 1): out of reach.
        continue
      ctx.close((w.bearing, w.magnitude), (float(r > 0), 0.0), 'still air', 0, 1e-6, slot=slot, r=r)
      ctx.count('still')
    ctx.ev(('still', k))


def in_place(ctx, rng):
  """One constructor, one place and time: other measurements, other balloons."""
  for name, wf in (('static', wind_field.SimpleStaticWindField), ('grid', envs.grid_field)):
    env = envs.make_env(int(rng.integers(2**31)), wf)
    for k in range(ctx.n(5, 40)):
      env.reset(seed=int(rng.integers(2**31)))
      ss = env.get_simulator_state()
      wf_, atm = ss.wind_field, ss.atmosphere
      base = sim.make_balloon(rng, atm, pressure=float(rng.uniform(6500, 10500)), **envs.km(rng, 0, 200)).state
      base.time_elapsed = dt.timedelta(minutes=3 * int(rng.integers(0, 900)))
      fc, gp = features.PerciatelliFeatureConstructor(wf_, atm), Reference(wf_)
      moves = [{}, {}, dict(envelope_max_superpressure=base.envelope_max_superpressure * 0.5), {},
               dict(envelope_max_superpressure=base.envelope_max_superpressure * 0.7), dict(pressure=base.pressure + 60.),
               dict(pressure=base.pressure - 600.), dict(mols_lift_gas=base.mols_lift_gas * 0.99), dict(x=base.x + units.Distance(km=1.)),
               dict(y=-1 * base.y), dict(time_elapsed=base.time_elapsed + dt.timedelta(minutes=3)), {}]
      for m in moves:
        s = dataclasses.replace(base, **m)
        w = wf_.get_ground_truth(s.x, s.y, s.pressure, s.time_elapsed)
        if rng.random() < .7:
          w = sim.wind(w.u.mps + float(rng.normal(0, 6)), w.v.mps + float(rng.normal(0, 6)))
        fc.observe(simulator_data.SimulatorObservation(s, w))
        gp.observe(s, w)
        try:
          pressure_range_builder.get_pressure_range(s, atm)
        except ValueError:
          continue
        obs = fc.get_features()
        keep = obs.copy()
        oracle(ctx, obs, s, atm, gp, name)
        again = fc.get_features()
        ctx.check(np.array_equal(again, keep) and np.array_equal(obs, keep), 'the features asked for twice are not the same')
        ctx.count('in_place')


def run(ctx):
  rng = ctx.rng
  in_place(ctx, rng)
  still(ctx, ctx.sub_rng('still'))
  ctx.require('still', 100)
  ctx.require('in_place', 60)
  triples(ctx)
  in_line(ctx)
  for name, wf in (('static', wind_field.SimpleStaticWindField), ('grid', envs.grid_field)):
    env = envs.make_env(int(rng.integers(2**31)), wf)
    for ep in range(ctx.n(4, 30)):
      obs = env.reset(seed=int(rng.integers(2**31)))
      long = ep % 4 == 3
      steps = ctx.n(150, 400) if long else ctx.n(18, 60)
      gp = Reference(env.get_simulator_state().wind_field)
      a = int(rng.integers(3))
      for i in range(steps + 1):
        ss = env.get_simulator_state()
        gp.observe(ss.balloon_state)
        if not long or i % 10 == 0 or i > steps - 5:
          oracle(ctx, obs, ss.balloon_state, ss.atmosphere, gp, name)
        if rng.random() < 0.1:
          a = int(rng.integers(3))
        obs, _, dn, _ = env.step(a)
        if dn:
          break
      if long and len(gp.X) > 125:
        ctx.count('stale_dropped')
    # At the station; just beside it; out of the encoded pressure range.
    for k in range(ctx.n(30, 150)):
      env.reset(seed=int(rng.integers(2**31)))
      ss = env.get_simulator_state()
      r = [0.0, 0.0, 1e-6, 1.0, float(rng.uniform(1e5, 9e5)), float(rng.uniform(5e5, 4e6))][k % 6]
      th = float(rng.uniform(0, 6.28)) if k % 6 > 2 else 0.0
      if k % 12 > 9:
        th = float(rng.choice([0, 1, 2, 3])) * math.pi / 2
      mid = 5025.0 + 50.0 * int(rng.integers(30, 130)) + float(rng.choice([-.02, -1e-4, 1e-4, .02, .5]))  # Where one level ends and the next begins.
      b = sim.make_balloon(rng, ss.atmosphere, pressure=mid if k >= 18 else float(rng.choice([4900, 5600, 7000, 9000, 11000, 14500])),
                           x=units.Distance(m=r * math.cos(th)), y=units.Distance(m=r * math.sin(th)))
      b.state.time_elapsed = dt.timedelta(minutes=3 * int(rng.integers(0, 3000)))
      try:
        pressure_range_builder.get_pressure_range(b.state, ss.atmosphere)
      except ValueError:
        continue
      fc = features.PerciatelliFeatureConstructor(ss.wind_field, ss.atmosphere)
      gp = Reference(ss.wind_field)
      st = b.state
      for j in range(int(rng.integers(1, 5))):
        s = dataclasses.replace(
            st, x=st.x + units.Distance(m=float(rng.normal() * 2e4)) * bool(j), y=st.y + units.Distance(m=float(rng.normal() * 2e4)) * bool(j),
            pressure=st.pressure + float(rng.normal() * 200) * bool(j))
        if j == 0:
          last = s
          continue
        fc.observe(simulator_data.SimulatorObservation(
            s, ss.wind_field.get_ground_truth(s.x, s.y, s.pressure, s.time_elapsed)))
        gp.observe(s)
      fc.observe(simulator_data.SimulatorObservation(
          last, ss.wind_field.get_ground_truth(last.x, last.y, last.pressure, last.time_elapsed)))
      gp.observe(last)
      oracle(ctx, fc.get_features(), last, ss.atmosphere, gp, name)
      ctx.count('far', r > 5e5)
      ctx.count('placed')
  ctx.require('storm', 10)
  ctx.require('columns', 60)
  ctx.require('in_line', 300)
  ctx.require('reachable', 2000)
  ctx.require('stale_dropped', 2)
  ctx.require('placed', 12)
  ctx.require('far', 3)
