"""P08: the balloon drifts with the wind and the clocks agree."""
import datetime as dt
import math

from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.utils import units
from vp import envs, flight, ref, sim

RULE = ('one evaluation = one observed simulate_step/arena.step; distinct by '
        '(action, duration, stride, status, strides run, wind octant, hour)')
LEVEL = 'exploration'


class ProbeField(wind_field.WindField):
  """An analytic wind that depends on every coordinate; records queries."""

  def __init__(self):
    super().__init__()
    self.noisy = 0.0

  def reset_forecast(self, key, date_time):
    self.noisy = 0.0

  def wind(self, x, y, p, t):
    h = t.total_seconds() / 3600.0
    return (9 * math.sin(x.km / 37 + h / 5) + p / 2500.0 - 3,
            7 * math.cos(y.km / 23 - h / 7) + 4 * math.sin(p / 900.0))

  def get_forecast(self, x, y, pressure, elapsed_time):
    u, v = self.wind(x, y, pressure, elapsed_time)
    return wind_field.WindVector(units.Velocity(mps=u), units.Velocity(mps=v))

  def get_ground_truth(self, x, y, pressure, elapsed_time):
    u, v = self.wind(x, y, pressure, elapsed_time)
    return wind_field.WindVector(units.Velocity(mps=1.25 * u + 0.5),
                                 units.Velocity(mps=0.75 * v - 0.25))


def run(ctx):
  rng = ctx.rng
  for r in flight.flights(rng, ctx.n(45, 400), 30):
    b, a = r.before, r.after
    gone = (a.t - b.t).total_seconds()
    info = dict(action=r.action.name, total=r.total, stride=r.stride,
                status=a.status, u=r.u, v=r.v, elapsed_s=gone)
    ctx.check(a.elapsed - b.elapsed == a.t - b.t,
              'date_time and time_elapsed advanced by different amounts',
              d_elapsed=str(a.elapsed - b.elapsed), d_time=str(a.t - b.t), **info)
    ctx.check(r.b.state.date_time.utcoffset() == dt.timedelta(0),
              'the clock lost its timezone', **info)
    if a.status == 'OK':
      ctx.check(gone == r.total, 'a step did not take its full duration', **info)
    else:
      ctx.check(0 < gone <= r.total and gone % r.stride == 0,
                'a failing step did not end on a stride boundary', **info)
      if not r.fuzzy:
        ctx.check(gone == r.strides * r.stride,
                  'the failing step ran on past (or stopped before) the stride '
                  'in which the failure occurred', want=r.strides * r.stride, **info)
      ctx.count('early_end' if gone < r.total else 'failed_at_end')
    ctx.close(a.x - b.x, r.u * gone, 'x drift is not wind x time', 1e-9, 1e-6, **info)
    ctx.close(a.y - b.y, r.v * gone, 'y drift is not wind x time', 1e-9, 1e-6, **info)
    ctx.count('steps')
    ctx.ev((r.action.name, r.total, r.stride, a.status, r.strides,
            int(math.atan2(r.v, r.u) * 4 / math.pi), b.t.hour))
  # Failures in the middle of a step, so that early ends are always seen.
  for k in range(ctx.n(12, 80)):
    atm = sim.atmosphere(rng)
    bal = flight.new_balloon(rng, atm, perturb=False, power_layer=False)
    s = bal.state
    if k % 2:
      s.battery_charge = units.Energy(watt_hours=float(rng.uniform(0.3, 8)))
      s.date_time = night(s)
    else:
      s.internal_temperature += float(rng.uniform(25, 60))
    r = flight.observe(bal, 11.0 + k, -7.5, atm, ref.Atm.like(atm), sim.Cmd.STAY)
    gone = (r.after.t - r.before.t).total_seconds()
    if r.after.status != 'OK':
      ctx.check(r.after.elapsed - r.before.elapsed == r.after.t - r.before.t,
                'clocks disagree after a failure')
      if not r.fuzzy:
        ctx.check(gone == r.strides * 10, 'wrong end time of a failing step',
                  got=gone, want=r.strides * 10, status=r.after.status)
      ctx.close([r.after.x - r.before.x, r.after.y - r.before.y],
                [(11.0 + k) * gone, -7.5 * gone], 'drift after failure', 1e-9, 1e-6)
      if gone < 180:
        ctx.count('early_end')
      ctx.ev(('fail', r.after.status, gone))
  # Strides and durations with fractions of a second.
  for k in range(ctx.n(16, 120)):
    stride = float(rng.choice([0.25, 0.5, 1.5, 2.25, 7.75]))
    n = int(rng.integers(1, 30))
    atm = sim.atmosphere(rng)
    bal = flight.new_balloon(rng, atm, perturb=False)
    u, v = (float(x) for x in rng.normal(0, 15, 2))
    r = flight.observe(bal, u, v, atm, ref.Atm.like(atm), sim.ACTIONS[k % 3], n * stride, stride)
    gone = r.after.elapsed - r.before.elapsed
    ctx.check(gone == r.after.t - r.before.t, 'clocks disagree after a fractional step')
    if r.after.status == 'OK':
      ctx.check(gone == dt.timedelta(seconds=n * stride), 'a step of fractional strides did not take its full duration',
                got=str(gone), stride=stride, n=n)
    ctx.close([r.after.x - r.before.x, r.after.y - r.before.y],
              [u * gone.total_seconds(), v * gone.total_seconds()], 'drift over fractional strides', 1e-9, 1e-6)
    ctx.count('fractional')
    ctx.ev(('fraction', stride, n))
  # Long steps: hundreds or thousands of strides.
  for k in range(ctx.n(8, 40)):
    atm = sim.atmosphere(rng)
    bal = flight.new_balloon(rng, atm, perturb=False)
    u, v = (float(x) for x in rng.normal(0, 15, 2))
    stride = float(rng.choice([1, 5, 10, 10]))
    n = int(rng.choice([361, 480, 800, 1500]))
    r = flight.observe(bal, u, v, atm, ref.Atm.like(atm), sim.ACTIONS[1 + k % 2], n * stride, stride)
    gone = (r.after.elapsed - r.before.elapsed).total_seconds()
    ctx.check(r.after.elapsed - r.before.elapsed == r.after.t - r.before.t, 'clocks disagree after a long step')
    if r.after.status == 'OK':
      ctx.close(gone, n * stride, 'a long step did not take its full duration', 1e-12, n=n, stride=stride)
      ctx.count('long_steps')
    ctx.close([r.after.x - r.before.x, r.after.y - r.before.y], [u * gone, v * gone], 'drift over a long step', 1e-9, 1e-5)
    ctx.ev(('long', stride, n))
  # Durations that are not whole numbers of strides.
  for k in range(ctx.n(18, 90)):
    atm = sim.atmosphere(rng)
    bal = flight.new_balloon(rng, atm)
    stride = int(rng.integers(2, 40))
    total = stride * int(rng.integers(0, 9)) + int(rng.integers(1, stride))
    if k % 3 == 0:  # A fraction of a second over (or under) whole strides.
      total = stride * int(rng.integers(1, 9)) + float(rng.choice([0.25, 0.5, 0.999]))
    elif k % 3 == 1:
      bal.state.superpressure = 200.0  # A layer about to restrict.
    act = sim.ACTIONS[k % 3]
    bal.state.last_command = sim.ACTIONS[(k + 1) % 3]
    before = envs.state_vec(bal.state)
    ctx.raises(lambda: bal.simulate_step(
        sim.wind(3, 4), atm, act, dt.timedelta(seconds=total),
        dt.timedelta(seconds=stride)), (AssertionError, ValueError),
               'a duration that is not a multiple of the stride was accepted',
               total=total, stride=stride)
    diff = envs.vec_diff(envs.state_vec(bal.state), before)
    ctx.check(not diff, 'a rejected step changed the state', total=total, stride=stride, diff=diff)
    ctx.count('rejected')
    ctx.ev(('reject', total, stride))
  # The arena flies the balloon in the ground-truth wind at the step's start.
  wf = ProbeField()
  for f in range(ctx.n(3, 12)):
    arena = sim.arena(rng, wf)
    if f != 1:  # Later, and farther away.
      s = arena.get_balloon_state()
      late = dt.timedelta(minutes=3 * int(rng.integers(480, 5000)))
      s.time_elapsed += late
      s.date_time += late
      far = envs.km(rng, 100, 2500)
      s.x, s.y = far['x'], far['y']
      ctx.count('late_flights')
    for i in range(ctx.n(25, 120)):
      b = ref.S(arena.get_balloon_state())
      if b.status != 'OK':
        break
      u, v = wf.wind(units.Distance(m=b.x), units.Distance(m=b.y), b.pressure,
                     b.elapsed)
      u, v = 1.25 * u + 0.5, 0.75 * v - 0.25
      arena.step(sim.ACTIONS[int(rng.integers(3))])
      a = ref.S(arena.get_balloon_state())
      gone = (a.elapsed - b.elapsed).total_seconds()
      if a.status == 'OK':
        ctx.check(gone == 180, 'an arena step is not three minutes', got=gone)
      ctx.close([a.x - b.x, a.y - b.y], [u * gone, v * gone],
                'the arena did not move the balloon with the ground-truth wind '
                'at the start of the step', 1e-9, 1e-6, flight=f, step=i)
      ctx.check((a.t - b.t).total_seconds() == gone, 'arena clocks disagree')
      ctx.count('arena_steps')
      ctx.ev(('arena', f, i))
  ctx.require('steps', 500)
  ctx.require('arena_steps', 40)
  ctx.require('late_flights', 1)
  ctx.require('early_end', 3)
  ctx.require('rejected', 5)
  ctx.require('fractional', 10)
  ctx.require('long_steps', 2)


def night(s):
  t = s.date_time
  lat, lng = s.latlng.lat().degrees, s.latlng.lng().degrees
  while ref.solar(lat, lng, t)[0] > -20:
    t += dt.timedelta(minutes=20)
  return t
