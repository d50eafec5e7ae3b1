"""P06: episodes end exactly at failures, and only a reset revives them."""
import datetime as dt

import numpy as np
from balloon_learning_environment.env import balloon_arena
from balloon_learning_environment.env import balloon_env
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.env.balloon import pressure_range_builder
from balloon_learning_environment.utils import units
from vp import envs, ref, sim

RULE = ('one evaluation = one env step or API probe; distinct by (cause, seed '
        'bucket, step, action)')
FLAGS = {'OUT_OF_POWER': 'out_of_power', 'BURST': 'envelope_burst', 'ZEROPRESSURE': 'zeropressure'}


def oracle(ctx, env, before, out, a, timed=True):
  obs, r, d, info = out
  s = env.get_simulator_state().balloon_state
  case = dict(status=s.status.name, info=info, done=d)
  ctx.check(set(info) >= {'out_of_power', 'envelope_burst', 'zeropressure', 'time_elapsed'},
            'info lacks a documented key', **case)
  ctx.check(bool(d) == (s.status.name != 'OK'), 'terminal does not mean the balloon failed', **case)
  for st, f in FLAGS.items():
    ctx.check(bool(info[f]) == (s.status.name == st), f'info[{f}] is wrong', **case)
  ctx.check(info['time_elapsed'] == s.time_elapsed, 'info time_elapsed is not the clock', **case)
  gone = s.time_elapsed - before
  if not timed:
    ctx.count('aged')
    return
  if d:
    ctx.check(dt.timedelta(0) < gone <= dt.timedelta(minutes=3), 'terminal step time', gone=str(gone), **case)
  else:
    ctx.check(gone == dt.timedelta(minutes=3), 'a step is not three minutes', gone=str(gone), **case)
  ctx.check(s.last_command == sim.Cmd(a), 'the action is not the command', action=a, **case)
  ctx.count('terminal_' + s.status.name if d else 'ongoing')


def run(ctx):
  rng = ctx.rng
  env = envs.make_env(int(rng.integers(2**31)))
  for ep in range(ctx.n(24, 200)):
    obs0, info = env.reset(seed=ep, return_info=True)
    s = env.get_simulator_state().balloon_state
    ctx.check(s.time_elapsed == dt.timedelta(0) and s.status.name == 'OK' and
              s.last_command.name == 'STAY' and info['time_elapsed'] == dt.timedelta(0) and
              not (info['out_of_power'] or info['envelope_burst'] or info['zeropressure']),
              'a reset does not start a fresh episode', info=info)
    plain = env.reset(seed=ep)
    ctx.check(isinstance(plain, np.ndarray), 'reset without return_info is not an observation')
    ctx.close(plain, obs0, 'return_info changed the episode', 1e-5, 1e-5)
    ctx.check(env.render() is None, 'render without a renderer returns something')
    # Steer the episode into a failure.
    kind = ep % 4
    lead = int(rng.integers(0, 5))
    done = False
    for i in range(lead + 40):
      if i == lead:
        late = dt.timedelta(minutes=3 * int(rng.integers(0, 2500))) * (ep % 3 != 0)
        s = env.get_simulator_state().balloon_state
        s.time_elapsed += late
        s.date_time += late
        if kind == 0:
          lat, lng, t = s.latlng.lat().degrees, s.latlng.lng().degrees, s.date_time
          while ref.solar(lat, lng, t)[0] > -10:
            t += dt.timedelta(minutes=20)
          s.date_time = t
          s.battery_charge = units.Energy(watt_hours=float(rng.uniform(1, 30)))
        elif kind == 1:
          s.internal_temperature += 40
        elif kind == 2:
          s.internal_temperature -= 40
        else:
          limit = s.envelope_max_superpressure
          s.envelope_max_superpressure = max(1.0, float(s.superpressure) - float(rng.uniform(-20, 60)))
          try:  # Without any safe level left there is no observation, either.
            pressure_range_builder.get_pressure_range(s, env.get_simulator_state().atmosphere)
          except ValueError:
            s.envelope_max_superpressure = limit
            s.internal_temperature += 40
      a = int(rng.integers(3))
      before = env.get_simulator_state().balloon_state.time_elapsed
      out = env.step(a)
      oracle(ctx, env, before, out, a)
      ctx.ev((kind, ep % 5, i, a, out[2]))
      if out[2]:
        done = True
        break
    if not done:
      continue
    snap = envs.state_vec(env.get_simulator_state().balloon_state)
    for a in (0, 1, 2):
      ctx.raises(lambda: env.step(a), Exception, 'a terminated episode could be stepped', **snap)
      now = envs.state_vec(env.get_simulator_state().balloon_state)
      diff = envs.vec_diff(snap, now)
      ctx.check(not diff, 'stepping a terminated episode changed the balloon', diff=diff)
    ctx.count('refused')
    # Reset revives it with the same episode a fresh environment has.
    ctx.close(env.reset(seed=ep), obs0, 'a reset after a failure is not a fresh episode', 1e-5, 1e-5)
    _, _, d, _ = env.step(1)
    ctx.check(not d, 'the revived episode is terminal at once')
  # However long an environment has lived, a reset starts a fresh episode.
  old = envs.make_env(int(rng.integers(2**31)), feature_constructor_factory=envs.Plain)
  for n in range(ctx.n(1100, 8000)):
    if old.step(int(rng.integers(3)))[2] or n % 50 == 49:
      seed = int(rng.integers(2**31))
      old.reset(seed=seed)
      s = old.get_simulator_state().balloon_state
      ctx.check(s.time_elapsed == dt.timedelta(0) and s.status.name == 'OK' and s.last_command.name == 'STAY' and
                not s.navigation_is_paused, 'a reset of a long-lived environment is not a fresh episode', n=n)
      if n % 7 == 0 or n > 1000:
        fresh = envs.make_env(seed, feature_constructor_factory=envs.Plain)
        diff = envs.vec_diff(envs.state_vec(s), envs.state_vec(fresh.get_simulator_state().balloon_state))
        ctx.check(not diff, 'a reset of a long-lived environment is not the fresh episode', n=n, diff=diff)
      ctx.count('old_resets')
      ctx.ev(('old', seed))
  # The same after thousands of steps, whatever the arena reports.
  class Arena(balloon_arena.BalloonArenaInterface):
    feature_constructor = env.arena.feature_constructor
    def reset(self, seed=None):
      self.now.balloon_state.status = balloon.BalloonStatus.OK
      return np.zeros(3, np.float32)
    def step(self, action):
      s = self.now.balloon_state
      s.status = list(balloon.BalloonStatus)[int(rng.integers(4)) if self.always is None else self.always]
      s.last_command = action
      s.time_elapsed += dt.timedelta(minutes=3)
      return np.zeros(3, np.float32)
    def get_simulator_state(self):
      return self.now
    def set_simulator_state(self, new_state):
      self.now = new_state
    def get_balloon_state(self):
      return self.now.balloon_state
    def set_balloon_state(self, new_state):
      self.now.balloon_state = new_state
    def get_measurements(self):
      raise NotImplementedError
  arena = Arena()
  arena.now = env.get_simulator_state()
  per = ctx.n(2100, 12000)
  for n in range(5 * per):
    if n % per == 0:
      arena.always = n // per if n < 4 * per else None
      aged = balloon_env.BalloonEnv(arena=arena, seed=1)
    a = int(rng.integers(3))
    before = arena.now.balloon_state.time_elapsed
    oracle(ctx, aged, before, aged.step(a), a, False)
    if n % 100 == 99:
      aged.reset(seed=n)
    ctx.ev(('aged', n // 500, arena.now.balloon_state.status.name))
  # Actions outside the space are refused, and change nothing.
  for bad in (3, -1, 7, 100, 1.5, 2.7, 0.2, -0.5, float('nan'), None, '1'):
    env.reset(seed=3)
    snap = envs.state_vec(env.get_simulator_state().balloon_state)
    ctx.raises(lambda: env.step(bad), Exception, 'an action outside the space was accepted', action=bad)
    ctx.check(not envs.vec_diff(snap, envs.state_vec(env.get_simulator_state().balloon_state)),
              'a refused action changed the balloon', action=bad)
    ctx.ev(('bad', bad))
    ctx.count('bad_action')
  # Actions mean what the documentation says: 0 down, 1 stay, 2 up.
  for a, sign in ((0, 1), (1, 0), (2, -1)):
    n = 0
    for seed in range(ctx.n(6, 30)):
      env.reset(seed=1000 + seed)
      m0 = env.get_simulator_state().balloon_state.mols_air
      for _ in range(3):
        env.step(a)
      s = env.get_simulator_state().balloon_state
      if s.navigation_is_paused or m0 == 0:
        continue
      dm = float(s.mols_air - m0)
      ctx.check((dm > 0) - (dm < 0) == sign or (a == 0 and dm == 0), 'the action moved the air the wrong way', action=a, dm=dm)
      n += 1
      ctx.count(f'meaning_{a}')
  with envs.make_env(1) as e:
    e.step(1)
    ctx.check(e.unwrapped is e, 'unwrapped')
  ctx.require('old_resets', 15)
  ctx.require('aged', 5000)
  for st in FLAGS:
    ctx.require('terminal_' + st, 2)
  for c in ('ongoing', 'refused', 'bad_action', 'meaning_0', 'meaning_1', 'meaning_2'):
    ctx.require(c, 2)
