"""P47: gym and every plugged-in component get each event once, as it is."""
import datetime as dt

import gym
import jax
import numpy as np
import s2sphere as s2
import balloon_learning_environment  # pylint: disable=unused-import
from balloon_learning_environment.env import balloon_arena
from balloon_learning_environment.env import balloon_env
from balloon_learning_environment.env import features
from balloon_learning_environment.env import simulator_data
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.env.balloon import control
from balloon_learning_environment.env.balloon import standard_atmosphere
from balloon_learning_environment.utils import units
from vp import drivers
from vp import envs
from vp import sim

RULE = ('one evaluation = one event between environment and plugged-in component; distinct by (part, action, kind of '
        'wind or ending, position in the episode)')
ASSUMPTIONS = ['gym 0.25 with its default wrappers; its vector environments do not run on this Python and are outside']
ID = 'BalloonLearningEnvironment-v0'


class Winds(wind_field.WindField):
  """Analytic winds that log their resets."""

  def __init__(self, log):
    super().__init__()
    self.log, self.shift = log, 0.0

  def reset(self, key, date_time):
    self.log.append(('wind', np.asarray(key).tolist(), date_time))
    super().reset(key, date_time)

  def reset_forecast(self, key, date_time):
    self.shift = float(jax.random.uniform(key)) * 10

  def get_forecast(self, x, y, pressure, elapsed_time):
    t = elapsed_time.total_seconds() / 3600
    return sim.wind(8 * np.sin(x.km / 40 + self.shift) + pressure / 2000, 8 * np.cos(y.km / 30 + t))


def logged(log):

  class Log(features.FeatureConstructor):

    def __init__(self, forecast, atmosphere):
      self.n = 0
      log.append(('built', forecast, atmosphere))

    def observe(self, o):
      self.n += 1
      log.append(('observe', o, envs.state_vec(o.balloon_observation), (o.wind_at_balloon.u.mps, o.wind_at_balloon.v.mps)))

    def get_features(self):
      out = np.array([self.n, len(log)], dtype=np.float32)
      log.append(('features', out))
      return out

    @property
    def observation_space(self):
      return gym.spaces.Box(-np.inf, np.inf, (2,))
  return Log


def truth(env):
  s = env.get_simulator_state()
  b = s.balloon_state
  w = s.wind_field.get_ground_truth(b.x, b.y, b.pressure, b.time_elapsed)
  return w.u.mps, w.v.mps


def plugged(ctx):
  rng = ctx.rng
  for k in range(ctx.n(16, 160)):
    log, rewards = [], []
    made = []

    def factory(log=log, made=made):
      made.append(Winds(log))
      return made[-1]

    def reward(state, log=log, rewards=rewards):
      out = float(rng.normal()) if rng.random() < .9 else float(rng.choice([0, -7, 1e9]))
      rewards.append(out)
      log.append(('reward', envs.state_vec(state.balloon_state), state.wind_field, state.atmosphere))
      return out
    seed = int(rng.integers(2**31))
    kw = dict(wind_field_factory=factory, feature_constructor_factory=logged(log), reward_function=reward, seed=seed)
    use_gym = bool(k % 2)
    env = gym.make(ID, **kw) if use_gym else balloon_env.BalloonEnv(**kw)
    raw = env.unwrapped
    info = dict(seed=seed, gym=use_gym)
    ctx.check(len(made) == 1, 'the wind field factory is not called once', calls=len(made), **info)
    ctx.check(env.observation_space.shape == (2,), 'the observation space is not the feature constructor\'s', **info)
    keys, path = {}, ('new',)
    for ep in range(int(rng.integers(2, 5))):
      del log[:]
      s = int(rng.integers(3)) if rng.random() < .6 else None
      flag = bool(rng.random() < .3)
      out = env.reset(**({} if s is None else dict(seed=s)), **(dict(return_info=True) if flag else {}))
      obs = out[0] if flag else out
      kinds = [e[0] for e in log]
      ctx.check(kinds == ['wind', 'built', 'observe', 'features'], 'a reset does not prepare winds, features and observation once, in order',
                got=kinds, **info)
      st = raw.get_simulator_state()
      ctx.check(log[1][1] is made[0] and st.wind_field is made[0], 'the feature constructor gets another wind field', **info)
      ctx.check(log[1][2] is st.atmosphere, 'the feature constructor gets another atmosphere', **info)
      ctx.check(log[0][2] == st.balloon_state.date_time, 'the winds start at another time than the balloon', **info)
      ctx.check(st.balloon_state.time_elapsed == dt.timedelta(0), 'an episode does not start at time zero', **info)
      path = (s,) if s is not None else path + ('next',)
      ctx.check(keys.setdefault(path, log[0][1]) == log[0][1], 'the winds\' key is not a function of the seed', path=path, **info)
      ctx.check(list(keys.values()).count(log[0][1]) == 1, 'two episodes share their winds', path=path, **info)
      ctx.check(obs is log[3][1] or np.array_equal(obs, log[3][1]), 'the observation is not the constructor\'s features', **info)
      ctx.check(log[2][2] == envs.state_vec(st.balloon_state), 'the first observation is not the start', **info)
      ctx.close(log[2][3], truth(raw), 'the measured wind is not the one at the balloon', 1e-9, 1e-9, **info)
      if flag:
        ctx.check(out[1]['time_elapsed'] == dt.timedelta(0) and not any(v for n, v in out[1].items() if n != 'time_elapsed'),
                  'reset info', got=str(out[1]), **info)
      ctx.ev(('reset', use_gym, s is None, flag))
      ctx.count('resets')
      clock = 0.0
      for t in range(int(rng.integers(1, ctx.n(12, 30)))):
        if rng.random() < .2:  # Something else moves the balloon.
          b = raw.arena.get_balloon_state()
          b.x, b.y = units.Distance(km=float(rng.normal() * 80)), units.Distance(km=float(rng.normal() * 80))
        if rng.random() < .12:  # Burst, or the opposite.
          b = raw.arena.get_balloon_state()
          b.internal_temperature = float(b.internal_temperature) + float(rng.choice([-60, 60]))
        before = envs.state_vec(raw.get_simulator_state().balloon_state)
        w = truth(raw)
        del log[:], rewards[:]
        a = int(rng.integers(3))
        obs, r, done, inf = env.step([a, np.int64(a), np.int32(a)][int(rng.integers(3))])
        kinds = [e[0] for e in log]
        ctx.check(sorted(kinds) == ['features', 'observe', 'reward'] and kinds.index('observe') < kinds.index('features'),
                  'a step does not observe, construct features and reward once', got=kinds, **info)
        ev = {e[0]: e for e in log}
        st = raw.get_simulator_state()
        after = envs.state_vec(st.balloon_state)
        ctx.check(ev['observe'][2] == after, 'the constructor observes another state', **info)
        ctx.close(ev['observe'][3], truth(raw), 'the measured wind is not the one at the balloon', 1e-9, 1e-9, **info)
        ctx.check(ev['reward'][1] == after and ev['reward'][2] is made[0] and ev['reward'][3] is st.atmosphere,
                  'the reward is of another state', **info)
        ctx.check(r == rewards[0], 'the reward is not the function\'s', got=r, want=rewards[0], **info)
        ctx.check(np.array_equal(obs, ev['features'][1]), 'the observation is not the constructor\'s features', **info)
        ctx.check(ev['features'][1][0] == t + 2, 'the constructor is not kept for the episode', **info)
        now = st.balloon_state.time_elapsed.total_seconds()
        secs, clock = now - clock, now
        ctx.close([after['x'] - before['x'], after['y'] - before['y']], [w[0] * secs, w[1] * secs],
                  'the balloon does not drift with the wind at its place', 1e-6, 1e-3, seconds=secs, **info)
        ctx.check(done == (after['status'] != 'OK'), 'terminal flag', **info)
        ctx.check(inf['time_elapsed'] == st.balloon_state.time_elapsed, 'info of another time', **info)
        ctx.ev(('step', use_gym, a, done, t > 5))
        ctx.count('steps')
        if done:
          ctx.count('failures')
          break
    ctx.check(len(made) == 1, 'later resets make other wind fields', **info)


class FakeArena(balloon_arena.BalloonArenaInterface):
  """Scripted states; logs what the environment asks for."""

  fails = .03

  def __init__(self, rng):
    self.rng, self.log = rng, []
    self.state = balloon.BalloonState(center_latlng=s2.LatLng.from_degrees(1, 2), date_time=sim.rand_time(rng))
    self.wf, self.atm = wind_field.SimpleStaticWindField(), standard_atmosphere.Atmosphere(jax.random.PRNGKey(0))
    self.feature_constructor = type('F', (), dict(observation_space=gym.spaces.Box(-np.inf, np.inf, (3,))))()

  def _roll(self):
    b = self.state
    b.x, b.y = units.Distance(km=float(self.rng.normal() * 70)), units.Distance(km=float(self.rng.normal() * 70))
    b.status = balloon.BalloonStatus.OK if self.rng.random() >= self.fails else list(balloon.BalloonStatus)[int(self.rng.integers(1, 4))]
    return self.rng.normal(size=3).astype(np.float32)

  def reset(self, key):
    out = self._roll()
    self.state.status = balloon.BalloonStatus.OK
    self.state.time_elapsed = dt.timedelta(0)
    self.log.append(('reset', np.asarray(key).tolist(), out))
    return out

  def step(self, action):
    out = self._roll()
    self.state.time_elapsed += dt.timedelta(minutes=3)
    self.log.append(('step', action, out))
    return out

  def get_simulator_state(self):
    return simulator_data.SimulatorState(self.state, self.wf, self.atm)

  def set_simulator_state(self, new_state):
    self.state = new_state.balloon_state

  def get_balloon_state(self):
    return self.state

  def set_balloon_state(self, new_state):
    self.state = new_state

  def get_measurements(self):
    return simulator_data.SimulatorObservation(self.state, self.wf.get_ground_truth(None, None, 1.0, None))


class EmptyArena(FakeArena):
  """Has a length, which is 0."""

  def __len__(self):
    return 0


def never(*a, **kw):
  raise AssertionError('a component that was replaced is used')


def arenas(ctx):
  rng = ctx.rng
  keys = {}
  for k in range(ctx.n(12, 100)):
    arena = FakeArena(rng) if k % 3 else EmptyArena(rng)
    seed = int(rng.integers(4))
    kw = dict(arena=arena, wind_field_factory=never, feature_constructor_factory=never, seed=seed)
    use_gym = bool(k % 2)
    env = gym.make(ID, **kw) if use_gym else balloon_env.BalloonEnv(**kw)
    info = dict(seed=seed, gym=use_gym)
    resets = [e for e in arena.log if e[0] == 'reset']
    ctx.check(len(resets) == 1 and len(arena.log) == 1, 'a new environment does not reset its arena once', log=str(arena.log), **info)
    ctx.check(keys.setdefault(('new', seed), resets[0][1]) == resets[0][1], 'the arena\'s key is not a function of the seed', **info)
    ctx.check(env.observation_space is arena.feature_constructor.observation_space or env.observation_space == arena.feature_constructor.observation_space,
              'another observation space', **info)
    limit = int(rng.integers(20, 60)) if k > 1 else ctx.n(1300, 3000)
    arena.fails = .15 if k > 1 else 0.0
    path, n = (), 0
    for ep in range(40):
      del arena.log[:]
      s = int(rng.integers(4)) if rng.random() < .5 else None
      obs = env.reset(**({} if s is None else dict(seed=s)))
      ctx.check([e[0] for e in arena.log] == ['reset'] and np.array_equal(obs, arena.log[0][2]), 'a reset is not one reset of the arena', **info)
      if s is not None:
        ctx.check(keys.setdefault(('new', s), arena.log[0][1]) == arena.log[0][1], 'the arena\'s key is not a function of the seed', seed2=s, **info)
        path = (s,)
      else:
        path += ('next',)
        if len(path) and path[0] != 'next':
          ctx.check(keys.setdefault(path, arena.log[0][1]) == arena.log[0][1], 'a later key is not a function of the seed', path=path, **info)
      while n < limit:
        del arena.log[:]
        a = int(rng.integers(3))
        obs, r, done, inf = env.step(a)
        n += 1
        ctx.check(len(arena.log) == 1 and arena.log[0][0] == 'step' and arena.log[0][1] is control.AltitudeControlCommand(a),
                  'a step is not one step of the arena with that command', action=a, log=str(arena.log), **info)
        ctx.check(np.array_equal(obs, arena.log[0][2]), 'the observation is not the arena\'s', **info)
        st = arena.state.status
        want = dict(out_of_power=st == balloon.BalloonStatus.OUT_OF_POWER, envelope_burst=st == balloon.BalloonStatus.BURST,
                    zeropressure=st == balloon.BalloonStatus.ZEROPRESSURE, time_elapsed=arena.state.time_elapsed)
        ctx.check({q: inf.get(q) for q in want} == want, 'info is not about the arena\'s balloon', got=str(inf), want=str(want), **info)
        ctx.check(done == (st != balloon.BalloonStatus.OK), 'an episode ends otherwise than by failure', steps=n, **info)
        ctx.close(r, balloon_env.perciatelli_reward_function(arena.get_simulator_state()), 'the default reward is another', 1e-12, 0, **info)
        ctx.ev(('arena', use_gym, a, st.name))
        ctx.count('arena_steps')
        if done:
          break
      if n >= limit:
        break
  used = [v for q, v in keys.items()]
  ctx.check(len({str(v) for v in used}) == len(used), 'different seeds or episodes share a key', keys=len(used))
  ctx.count('keys', len(used))
  # Two environments without a seed are not the same.
  a, b = FakeArena(rng), FakeArena(rng)
  balloon_env.BalloonEnv(arena=a)
  balloon_env.BalloonEnv(arena=b)
  ctx.check(a.log[0][1] != b.log[0][1], 'two unseeded environments share their key')
  with balloon_env.BalloonEnv(arena=a) as e:
    ctx.check(isinstance(e, balloon_env.BalloonEnv), 'the environment is no context')
  for exc in (KeyError, ValueError, RuntimeError, AssertionError, StopIteration, GeneratorExit, KeyboardInterrupt,
              SystemExit, type('Own', (Exception,), {})):
    ctx.raises(lambda: _leave(a, exc), exc, 'leaving the context hides an exception', kind=exc.__name__)
    ctx.ev(('exit', exc.__name__))


def _leave(arena, exc):
  with balloon_env.BalloonEnv(arena=arena):
    raise exc('x')


def registered(ctx):
  ble = 'import balloon_learning_environment'
  cases = [(True, [], [ID]), (False, [], [f'balloon_learning_environment:{ID}']),
           (False, [ble], [ID, f'balloon_learning_environment:{ID}']),
           (False, ['import balloon_learning_environment.env.balloon_env'], [ID]),
           (True, ['import gym', ble], [ID, f'balloon_learning_environment:{ID}', ID]),
           (True, ['from balloon_learning_environment.env import gym as g', 'g.register_env()', 'g.register_env()'], [ID])]
  pick = cases if ctx.thorough else [cases[i] for i in ctx.rng.choice(len(cases), 3, replace=False)]
  for plugin, before, ids in pick:
    out = drivers.call('gym_driver', dict(plugin=plugin, before=before, ids=ids))
    info = dict(plugin=plugin, before=before, ids=ids)
    ctx.check(out['registered'] == [ID], 'the environment is not registered once', got=out['registered'], **info)
    ctx.check(not out['said'], 'registering again overrides the environment', said=out['said'], **info)
    for m in out['made']:
      ctx.check('error' not in m, 'the environment cannot be made', error=m.get('error'), **info)
      ctx.check(m['type'] == 'balloon_learning_environment.env.balloon_env.BalloonEnv' and m['spec'] == ID and m['actions'] == 3,
                'another environment was made', got=m['type'], **info)
      ctx.check(m['flight'] == out['direct'], 'made through gym the flight is another', got=m['flight'], want=out['direct'], **info)
      ctx.count('made')
    ctx.ev(('made', plugin, len(before), len(ids)))


def run(ctx):
  plugged(ctx)
  arenas(ctx)
  registered(ctx)
  for n, m in (('resets', 20), ('steps', 80), ('failures', 1), ('arena_steps', 1000), ('keys', 8), ('made', 3)):
    ctx.require(n, m)
