"""P01: a seeded environment is reproducible and isolated."""
import hashlib
import os
import random
import subprocess
import sys

import jax
import numpy as np
from balloon_learning_environment.env import wind_field
from vp import envs, sim

RULE = ('one evaluation = one replayed step compared field by field; distinct by '
        '(seed, step, wind field, replay mode)')
ASSUMPTIONS = ['observations may differ by 1e-5 (BLAS reduction order); balloon '
               'states by 1e-9 relative']


def record(env, actions, first, between=None):
  out = [(np.array(first, copy=True), 0.0, False, envs.state_vec(env.get_simulator_state().balloon_state))]
  for a in actions:
    if between:
      between()
    obs, r, d, info = env.step(a)
    out.append((np.array(obs, copy=True), r, d, envs.state_vec(env.get_simulator_state().balloon_state)))
    if d:
      break
  return out


def same(ctx, a, b, why, **info):
  ctx.check(len(a) == len(b), f'{why}: episode lengths differ', la=len(a), lb=len(b), **info)
  for i, (x, y) in enumerate(zip(a, b)):
    d = envs.vec_diff(x[3], y[3], 1e-9)
    ctx.check(not d, f'{why}: balloon states differ', step=i, diff=d, **info)
    ctx.close(x[0], y[0], f'{why}: observations differ', 1e-5, 1e-5, step=i,
              where=np.flatnonzero(~np.isclose(x[0], y[0], 1e-5, 1e-5))[:5], **info)
    ctx.close(x[1], y[1], f'{why}: rewards differ', 1e-9, 1e-12, step=i, **info)
    ctx.check(x[2] == y[2], f'{why}: terminal flags differ', step=i, **info)
    ctx.ev((info.get('seed'), i, info.get('wf'), why))


CHILD = r'''
import sys, json, random
import numpy as np
random.seed(99); np.random.seed(98)
from vp import envs
from balloon_learning_environment.env import wind_field
seed = int(sys.argv[1]); actions = json.loads(sys.argv[2])
env = envs.make_env(seed)
out = [envs.state_vec(env.get_simulator_state().balloon_state)]
for a in actions:
  obs, r, d, _ = env.step(a)
  s = envs.state_vec(env.get_simulator_state().balloon_state)
  s['reward'] = float(r); s['obs'] = [float(v) for v in obs[:40]]
  out.append(s)
  if d: break
print('@@' + json.dumps(out))
'''


def run(ctx):
  import json
  rng = ctx.rng
  fields = [('static', wind_field.SimpleStaticWindField), ('grid', envs.grid_field)]
  shared = {n: envs.make_env(7, f) for n, f in fields}
  other = envs.make_env(1, wind_field.SimpleStaticWindField)
  firsts = {}
  for k in range(ctx.n(8, 80)):
    name, wf = fields[k % 2]
    seed = int(rng.integers(2**31))
    actions = [int(a) for a in rng.integers(0, 3, ctx.n(14, 60))]
    env = shared[name]
    base = record(env, actions, env.reset(seed=seed))
    info = dict(seed=seed, wf=name)
    # 1. The same environment object, after other use.
    env.reset(seed=seed + 1)
    env.step(1)
    same(ctx, base, record(env, actions, env.reset(seed=seed)), 'reset with the same seed', **info)
    # 2. A new object seeded through its constructor.
    fresh = envs.make_env(seed, wf)
    first = fresh.arena.feature_constructor.get_features()
    same(ctx, base, record(fresh, actions, first), 'constructor seed', **info)
    # 3. With global PRNGs, other environments and observers in between.
    def noise():
      random.seed(int(rng.integers(1000)))
      np.random.seed(int(rng.integers(1000)))
      np.random.rand(3)
      if rng.random() < 0.3:
        other.step(int(rng.integers(3)))
        if rng.random() < 0.1:
          other.reset()
      env.get_simulator_state()
      env.arena.get_measurements()
      env.arena.feature_constructor.get_features()
      env.render()
      str(env)
    same(ctx, base, record(env, actions, env.reset(seed=seed), noise), 'interleaved with other work', **info)
    # 4. Unseeded resets follow from the seed, too.
    env.reset(seed=seed)
    second = np.array(env.reset(), copy=True)
    fresh.reset(seed=seed)
    fresh.step(0)
    ctx.close(second, fresh.reset(), 'the second episode is not a function of the seed', 1e-5, 1e-5, **info)
    fresh.reset(seed=seed)
    env.reset(seed=seed)
    for e in range(3):
      got = []
      for one in (env, fresh):
        for _ in range(int(rng.integers(4))):
          if one.step(int(rng.integers(3)))[2]:
            break
        flag = [{}, dict(return_info=True), dict(return_info=False)][int(rng.integers(3))]
        out = one.reset(**flag)
        out = out[0] if flag.get('return_info') else out
        got.append((np.array(out), envs.state_vec(one.get_simulator_state().balloon_state)))
      ctx.close(got[0][0], got[1][0], 'a later episode is not a function of the seed', 1e-5, 1e-5, episode=e + 1, **info)
      ctx.check(not envs.vec_diff(got[0][1], got[1][1]), 'a later episode starts from another balloon', episode=e + 1, **info)
      ctx.count('later')
    ctx.check(not np.allclose(second, base[0][0]), 'two episodes of one environment are identical', **info)
    # 5. The arena's own seed.
    if name == 'static':
      s = int(rng.integers(2**31))
      a1, a2 = sim.arena(rng), sim.arena(rng)
      o1, o2 = a1.reset(s), a2.reset(jax.random.PRNGKey(s))
      ctx.close(o1, o2, 'an integer seed and its PRNG key differ', 1e-5, 1e-5, **info)
      ctx.check(not envs.vec_diff(envs.state_vec(a1.get_balloon_state()),
                                  envs.state_vec(a2.get_balloon_state())),
                'arena seeding is not reproducible', **info)
      ctx.ev(('arena', s))
    # Steps advance an object: observations do not alias earlier ones.
    env.reset(seed=seed)
    o, *_ = env.step(actions[0])
    keep = np.array(o, copy=True)
    env.step(actions[1])
    ctx.check(np.array_equal(o, keep), 'a later step rewrote an earlier observation', **info)
    h = hashlib.sha1(np.round(base[0][0], 5).tobytes()).hexdigest()
    st = base[0][3]
    ident = (st['x'], st['y'], st['pressure'], st['date_time'])
    ctx.check(ident not in firsts, 'different seeds give the same episode', **info)
    firsts[ident] = h
    ctx.count('episodes')
    ctx.sample(dict(seed=seed, wf=name, start=ident, steps=len(base)))
  # Small and neighbouring integers are different seeds, too, and 0 is one of them.
  some, env = {}, envs.make_env(1, feature_constructor_factory=envs.Plain)
  arena = env.arena
  for s in list(range(12)) + [2**16, 2**16 + 1, 2**31 - 1, 2**31 - 2]:
    for who in ('env', 'arena'):
      if who == 'env':
        env.reset(seed=s)
        st = envs.state_vec(env.get_simulator_state().balloon_state)
      else:
        arena.reset(s)
        st = envs.state_vec(arena.get_balloon_state())
        arena.reset(jax.random.PRNGKey(s))
        ctx.check(not envs.vec_diff(st, envs.state_vec(arena.get_balloon_state())), 'an integer seed and its PRNG key give different balloons', seed=s)
      ident = (st['x'], st['y'], st['pressure'], st['date_time'])
      ctx.check(ident not in some, 'different seeds give the same episode', seed=s, who=who, other=some.get(ident))
      some[ident] = (who, s)
      ctx.ev(('small', who, s))
      ctx.count('small_seeds')
  ctx.require('small_seeds', 30)
  # Without a seed, every environment and every arena flies its own episode.
  starts = []
  for k in range(3):
    e = envs.make_env(None)
    starts.append(envs.state_vec(e.get_simulator_state().balloon_state))
    a = sim.arena(rng)
    for _ in range(2):
      a.reset()
      starts.append(envs.state_vec(a.get_balloon_state()))
    ctx.ev(('unseeded', k))
  for i, x in enumerate(starts):
    for y in starts[:i]:
      ctx.check((x['x'], x['y'], x['date_time']) != (y['x'], y['y'], y['date_time']),
                'two unseeded episodes are identical', a=x, b=y)
  # An environment with a long past (many steps, many resets) is no different.
  env = envs.make_env(3, feature_constructor_factory=envs.Plain)
  for n in range(ctx.n(1100, 8000)):
    if env.step(int(rng.integers(1, 3)))[2] or n % 60 == 59:
      env.reset(seed=int(rng.integers(2**31)) if n % 2 else None)
  for k in range(3):
    seed = int(rng.integers(2**31))
    actions = [int(a) for a in rng.integers(0, 3, 12)]
    fresh = envs.make_env(seed, feature_constructor_factory=envs.Plain)
    first = fresh.arena.feature_constructor.get_features()
    same(ctx, record(fresh, actions, first), record(env, actions, env.reset(seed=seed)),
         'long-lived environment', seed=seed, wf='static')
    ctx.count('long_lived')
  # Episodes of several days.
  for k in range(ctx.n(3, 12)):
    seed = int(rng.integers(2**31))
    actions = [int(a) for a in rng.choice([0, 1, 1, 2], ctx.n(1000, 3000))]
    name, wf = fields[k % 2]
    one, two = (envs.make_env(s, wf, feature_constructor_factory=envs.Plain) for s in (seed, seed + 1))
    first = one.arena.feature_constructor.get_features()
    base = record(one, actions, first)
    for _ in range(int(rng.integers(5))):
      two.step(1)
    same(ctx, base, record(two, actions, two.reset(seed=seed), lambda: (np.random.rand(), random.random())),
         'episode of several days', seed=seed, wf=name)
    ctx.count('days', len(base) // 480)
  # 6. Another process, with another hash seed and another time zone.
  for k in range(ctx.n(1, 4)):
    seed = int(rng.integers(2**31))
    actions = [int(a) for a in rng.integers(0, 3, 10)]
    env = shared['static']
    env.reset(seed=seed)
    base = [envs.state_vec(env.get_simulator_state().balloon_state)]
    for a in actions:
      obs, r, d, _ = env.step(a)
      s = envs.state_vec(env.get_simulator_state().balloon_state)
      s['reward'], s['obs'] = float(r), [float(v) for v in obs[:40]]
      base.append(s)
      if d:
        break
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', CHILD, str(seed), json.dumps(actions)],
                       env=dict(os.environ, PYTHONHASHSEED='4711', TZ='Asia/Tokyo'),
                       capture_output=True, text=True, timeout=300)
    lines = [l for l in p.stdout.splitlines() if l.startswith('@@')]
    ctx.check(p.returncode == 0 and lines, 'the episode failed in another process',
              stderr=p.stderr[-500:])
    got = json.loads(lines[-1][2:])
    ctx.check(len(got) == len(base), 'episode length differs across processes', seed=seed)
    for i, (x, y) in enumerate(zip(json.loads(json.dumps(base)), got)):
      ox, oy = x.pop('obs', []), y.pop('obs', [])
      d = envs.vec_diff(x, y, 1e-9)
      ctx.check(not d, 'the episode differs in another process', step=i, diff=d, seed=seed)
      ctx.close(ox, oy, 'observations differ in another process', 1e-5, 1e-5, step=i)
      ctx.ev(('process', seed, i))
    ctx.count('processes')
  ctx.require('episodes', 6)
  ctx.require('processes', 1)
  ctx.require('long_lived', 3)
  ctx.require('days', 2)
