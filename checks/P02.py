"""P02: every observation and reward honours the declared spaces."""
import gym
import numpy as np
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.utils import units
from vp import envs, sim

RULE = ('one evaluation = one observation; distinct by (wind field, source, '
        'distance bucket, pressure bucket, hour)')
ASSUMPTIONS = ['states are reached by flying, or by placing the balloon at '
               'altitudes inside the standard atmosphere with positive superpressure']


class Calm(wind_field.WindField):
  """No wind at all: a balloon placed at the station stays exactly there."""

  def reset_forecast(self, key, date_time):
    pass

  def get_forecast(self, x, y, pressure, elapsed_time):
    return sim.wind(0, 0)

  def get_ground_truth(self, x, y, pressure, elapsed_time):
    return sim.wind(0, 0)


def oracle(ctx, env, obs, src, reward=None):
  s = env.get_simulator_state().balloon_state
  info = dict(src=src, pressure=float(s.pressure), x=s.x.km, y=s.y.km,
              time=str(s.date_time), sp=float(s.superpressure))
  ctx.check(isinstance(obs, np.ndarray) and obs.dtype == np.float32 and obs.shape == (1099,),
            'the observation is not a float32 vector of 1099', **info)
  ctx.check(np.isfinite(obs).all(), 'non-finite observation',
            where=np.flatnonzero(~np.isfinite(obs))[:5], **info)
  space = env.observation_space
  if not space.contains(obs):
    bad = np.flatnonzero((obs < space.low) | (obs > space.high))
    ctx.check(False, 'the observation is outside observation_space',
              where=bad[:5], values=obs[bad[:5]], **info)
  # The declared space is the documented one, not a widened one.
  ctx.check(space.shape == (1099,) and space.dtype == np.float32, 'space shape/type')
  low, high = np.zeros(1099), np.ones(1099)
  low[[3, 4, 5, 6]], low[15], high[15] = -1, 1, np.inf
  ctx.check(np.array_equal(space.low, low) and np.array_equal(space.high, high),
            'observation_space bounds are not the documented ones')
  ctx.close(obs[3]**2 + obs[4]**2, 1, 'solar cycle features are off the unit circle', 0, 1e-5, **info)
  ctx.close(obs[5]**2 + obs[6]**2, 1, 'heading features are off the unit circle', 0, 1e-5, **info)
  ctx.check(obs[8:11].sum() == 1 and set(obs[8:11]) <= {0.0, 1.0}, 'last command is not one-hot', **info)
  ctx.check(obs[11] + obs[12] == 1 and obs[11] in (0, 1), 'paused/enabled are not complementary', **info)
  ctx.check(obs[13] in (0, 1), 'excess energy is not a flag', **info)
  if reward is not None:
    ctx.check(0.0 <= reward <= 1.0 and np.ndim(reward) == 0, 'reward outside reward_range', reward=reward, **info)
  ctx.count(src)
  ctx.ev((src, int(s.x.km / 100), int(s.y.km / 100), int(s.pressure / 500), s.date_time.hour))


class Kept:
  """Observations that were handed out, and what they said at the time."""

  def __init__(self, ctx):
    self.ctx, self.pairs = ctx, []

  def add(self, obs):
    self.pairs.append((obs, np.array(obs, copy=True)))
    return obs

  def judge(self):
    for i, (obs, copy) in enumerate(self.pairs):
      self.ctx.check(np.array_equal(obs, copy), 'an observation handed out earlier changed later', index=i, of=len(self.pairs),
                     where=np.flatnonzero(obs != copy)[:5])
      self.ctx.count('kept')


def run(ctx):
  rng = ctx.rng
  for name, wf in (('static', wind_field.SimpleStaticWindField), ('grid', envs.grid_field), ('calm', Calm)):
    env = envs.make_env(int(rng.integers(2**31)), wf)
    ctx.check(env.action_space == gym.spaces.Discrete(3), 'action space is not Discrete(3)')
    ctx.check(tuple(env.reward_range) == (0.0, 1.0), 'reward range')
    for ep in range(ctx.n(8 if name != 'calm' else 4, 60)):
      kept = Kept(ctx)
      obs = kept.add(env.reset(seed=int(rng.integers(2**31))))
      oracle(ctx, env, obs, 'reset_' + name, None)
      a = int(rng.integers(3))
      for i in range(ctx.n(25, 200)):
        if rng.random() < 0.15:
          a = int(rng.integers(3))
        obs, r, d, info = env.step(a)
        kept.add(obs)
        oracle(ctx, env, obs, 'step_' + name, r)
        ctx.check(isinstance(d, (bool, np.bool_)), 'terminal is not a bool')
        if d:
          break
      # Teleport: far away, exactly at the station, high and low.
      for k in range(ctx.n(6, 20)):
        atm = env.get_simulator_state().atmosphere
        p = float(rng.choice([rng.uniform(4200, 6500), rng.uniform(6500, 11000), rng.uniform(11000, 17500)]))
        pos = envs.km(rng, 0, float(rng.choice([1, 300, 3000])))
        if k == 0:
          pos = dict(x=units.Distance(m=0), y=units.Distance(m=0))
        b = sim.make_balloon(rng, atm, pressure=p, **pos)
        if not 0 < b.state.superpressure < 2300:
          continue
        env.arena.set_balloon_state(b.state)
        obs, r, d, info = env.step(int(rng.integers(3)))
        kept.add(obs)
        oracle(ctx, env, obs, 'teleport_' + name, r)
        if k == 0 and name == 'calm':
          s = env.get_simulator_state().balloon_state
          ctx.check(s.x.m == 0 and s.y.m == 0, 'a balloon drifted without wind')
          ctx.count('at_station')
        if d:
          break
      kept.add(env.reset(seed=int(rng.integers(2**31))))
      kept.judge()
  ctx.require('kept', 200)
  ctx.require('at_station', 2)
  for n in ('static', 'grid'):
    ctx.require('step_' + n, 100)
    ctx.require('teleport_' + n, 10)
