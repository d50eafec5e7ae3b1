"""P33: StationSeeker flies to the best-scoring reachable level."""
import numpy as np
from balloon_learning_environment.agents import station_seeker_agent
from balloon_learning_environment.env import features
from vp import envs

RULE = ('one evaluation = one decision; distinct by (source, action, distance '
        'bucket, valid levels bucket, level chosen)')
ASSUMPTIONS = ['decisions within 2e-5 of a tie between levels on different '
               'sides of the balloon are not judged']
MID = 180


def scores(obs):
  """Score per level, computed in float64 from the published formula; NaN where unreachable."""
  o = np.asarray(obs, dtype=np.float64)
  f7 = o[7]
  d = 250.0 * f7 / (1.0 - f7)
  w = o[16:].reshape(-1, 3)
  unc, ang, mag = w[:, 0], w[:, 1] * np.pi, w[:, 2]
  valid = ~((w[:, 0] == 0) & (w[:, 1] == 1) & (w[:, 2] == 1))
  mag = 30.0 * mag / np.where(mag < 1, 1 - mag, np.nan)
  a = np.exp(-d / 35.0)
  ramp = 0.6 + np.clip((d - 250.0) / 250.0, 0, 1) * (0.45 - 0.6)
  wind = (1 - a) * np.exp(-ramp * ang) + a * np.exp(-0.07 * mag)
  lv = np.abs(np.arange(len(w)) - MID)
  s = (1 - unc + 0.01) * wind + unc * 0.5 + 0.05 * np.exp(-0.001 * lv)
  return np.where(valid, s, np.nan)


def judge(ctx, agent, obs, how, info):
  s = scores(obs)
  before = obs.copy()
  act = agent.begin_episode(obs) if how == 'begin' else agent.step(0.3, obs)
  ctx.check(np.array_equal(before, obs), 'the observation was modified', **info)
  act = int(act)
  lv = np.arange(len(s))
  best = np.nanmax(s)
  near = lv[s >= best - 2e-5]
  want = {2 if l < MID else 0 if l > MID else 1 for l in near}
  ctx.check(act in want, 'not the direction of the best level', action=act,
            want=sorted(want), best_levels=near, best=best, **info)
  ctx.count('unique' if len(want) == 1 else 'near_tie')
  ctx.count(f'action_{act}')
  named = features.NamedPerciatelliFeatures(obs)
  if not hasattr(agent, 'find_best_pressure_level'):
    return act, int(near[0])
  level, got = agent.find_best_pressure_level(named)
  ctx.check(level in near, 'best level is not the best-scoring level', level=level,
            best_levels=near, **info)
  v = ~np.isnan(s)
  ctx.close(np.asarray(got)[v], s[v], 'level scores differ from the formula', 5e-6, 5e-6, **info)
  ctx.check(bool(v[level]), 'an unreachable level was chosen', level=level, **info)
  return act, int(near[0])


def synthetic(rng):
  o = np.zeros(1099, dtype=np.float32)
  o[:16] = rng.uniform(0, 1, 16)
  d = float(rng.choice([rng.uniform(0, 60), rng.uniform(0, 700), rng.uniform(200, 520), 250.0, 500.0, 35.0, 0.0]))
  o[7] = d / (d + 250)
  w = np.zeros((361, 3), dtype=np.float32)
  w[:, 1:] = 1.0
  lo = int(rng.integers(0, 181))
  hi = int(rng.integers(max(lo, 180), 361)) if rng.random() < .8 else int(rng.integers(lo, 361))
  idx = np.arange(lo, hi + 1)
  if rng.random() < 0.3 and len(idx) > 2:
    idx = rng.choice(idx, size=int(rng.integers(1, len(idx))), replace=False)
  n = len(idx)
  kind = rng.integers(4)
  if kind == 0:
    w[idx, 0] = rng.uniform(0, 1, n)
    w[idx, 1] = rng.uniform(0, 1, n)
    w[idx, 2] = rng.uniform(0, 0.9, n)
  elif kind == 1:  # Smooth column.
    t = np.linspace(0, 1, n)
    w[idx, 0] = np.clip(0.5 + 0.5 * np.cos(rng.uniform(0, 6) + rng.uniform(1, 5) * t), 0, 1)
    w[idx, 1] = np.clip(0.5 + 0.5 * np.cos(rng.uniform(0, 6) + rng.uniform(1, 5) * t), 0, 1)
    w[idx, 2] = np.clip(0.4 + 0.4 * np.cos(rng.uniform(0, 6) + rng.uniform(1, 5) * t), 0, 0.95)
  elif kind == 2:  # All the same wind: hysteresis decides.
    w[idx] = [rng.uniform(0, 1), rng.uniform(0, 1), rng.uniform(0, 0.9)]
  else:  # Almost certain, speeds differ / directions differ only.
    w[idx, 0] = rng.choice([0.05, 0.95])
    w[idx, 1] = rng.uniform(0, 1) if rng.random() < 0.5 else rng.uniform(0, 1, n)
    w[idx, 2] = rng.uniform(0, 0.9) if rng.random() < 0.5 else rng.uniform(0, 0.9, n)
  o[16:] = w.ravel()
  return o, d, n, int(kind)


def run(ctx):
  rng = ctx.rng
  agent = station_seeker_agent.StationSeekerAgent(3, [1099])
  for k in range(ctx.n(900, 20000)):
    o, d, n, kind = synthetic(rng)
    info = dict(distance=d, levels=n, kind=kind)
    ctx.current = info
    act, lev = judge(ctx, agent, o, 'begin' if rng.random() < 0.3 else 'step', info)
    ctx.ev(('synthetic', kind, act, int(d // 25), n // 10, lev // 5))
    ctx.count('synthetic')
    if k % 50 == 0:
      # The decision is a function of the observation alone.
      other = station_seeker_agent.StationSeekerAgent(3, (1099,))
      a1 = int(other.begin_episode(o))
      agent.end_episode(0.0, True)
      ctx.check(int(agent.step(-5.0, o)) == a1 == int(other.step(1.0, o)), 'the decision depends on history', **info)
  # One array for all observations, changed in place; and equal arrays.
  buf = np.zeros(1099, dtype=np.float32)
  for k in range(ctx.n(300, 3000)):
    if k % 4 == 0:
      buf[:] = synthetic(rng)[0]
      if rng.random() < .3:
        agent = station_seeker_agent.StationSeekerAgent(3, [1099])
    elif k % 4 == 1:  # Only the bearings.
      v = ~((buf[16::3] == 0) & (buf[17::3] == 1) & (buf[18::3] == 1))
      buf[17::3][v] = rng.uniform(0, 1, int(v.sum()))
    elif k % 4 == 2:  # Only the distance.
      buf[7] = float(rng.choice([0.0, 0.02, .3, .55, .8]))
    else:  # The column upside down.
      buf[16:] = buf[16:].reshape(-1, 3)[::-1].ravel()
    judge(ctx, agent, buf, 'begin' if rng.random() < .1 else 'step', dict(reused=k))
    ctx.count('reused_array')
  # In flight, on real observations.
  for ep in range(ctx.n(3, 20)):
    env = envs.make_env(int(rng.integers(2**31)), wf=envs.grid_field if ep % 2 else envs.wind_field.SimpleStaticWindField)
    obs = env.reset()
    agent = station_seeker_agent.StationSeekerAgent(env.action_space.n, env.observation_space.shape)
    how = 'begin'
    for t in range(ctx.n(60, 300)):
      act, lev = judge(ctx, agent, obs, how, dict(episode=ep, t=t))
      how = 'step'
      ctx.ev(('flight', act, int(obs[7] * 20), lev // 5))
      ctx.count('flight')
      obs, _, done, _ = env.step(act)
      if done:
        break
  for n, m in (('synthetic', 300), ('flight', 60), ('reused_array', 200), ('unique', 500), ('action_0', 50), ('action_1', 10), ('action_2', 50)):
    ctx.require(n, m)
