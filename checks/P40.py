"""P40: evaluation results are the facts of each seed's flight, and survive JSON."""
import datetime as dt
import json
import types

import jax.numpy as jnp
import numpy as np
from balloon_learning_environment.agents import agent as agent_lib
from balloon_learning_environment.agents import station_seeker_agent
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.eval import eval_lib
from balloon_learning_environment.eval import suites
from balloon_learning_environment.utils import units
from vp import envs

RULE = ('one evaluation = one evaluated seed; distinct by (environment, length, way it ended, '
        'radius share bucket, flight path kept)')
FLAGS = ('out_of_power', 'envelope_burst', 'zeropressure')


class World:
  """Scripted flights, a function of the last seed only."""

  def __init__(self, log, radius):
    self.log, self.radius = log, units.Distance(km=radius)
    self.s = None

  def seed(self, s=None):
    self.log.append(('seed', s))
    self.s = s
    return [s]

  def reset(self, **kw):
    self.rng = np.random.default_rng(self.s)
    self.t = 0
    self.end = int(self.rng.integers(1, 30)) if self.rng.random() < 0.7 else 10**9
    self.how = (FLAGS + (None,))[int(self.rng.integers(4))]
    self.elapsed = dt.timedelta()
    self.pace = dt.timedelta(seconds=float(self.rng.choice([180.0, 10.5, 7200.0, 100000.0])))
    self._move()
    self.obs = self.rng.normal(size=4)
    self.log.append(('reset', self.obs))
    return self.obs

  def _move(self):
    r, th = self.radius.kilometers * self.rng.uniform(0.2, 1.8), self.rng.uniform(0, 2 * np.pi)
    if self.rng.random() < 0.1:
      r, th = self.radius.kilometers, 0.0  # Exactly on the circle.
    self.state = types.SimpleNamespace(
        x=units.Distance(km=float(r * np.cos(th))), y=units.Distance(km=float(r * np.sin(th))),
        pressure=float(self.rng.uniform(5000, 14000)), superpressure=float(self.rng.uniform(0, 2000)),
        time_elapsed=self.elapsed, battery_soc=float(self.rng.uniform(0, 1)))

  def step(self, action):
    self.t += 1
    self.elapsed += self.pace
    self._move()
    self.obs = self.rng.normal(size=4)
    r = float(self.rng.normal())
    done = self.t >= self.end
    info = {f: done and f == self.how for f in FLAGS} if self.rng.random() < .8 or done else {}
    if done and self.rng.random() < 0.2:
      info = {self.how: True} if self.how else {}
    self.log.append(('env', int(action), r, self.obs, done, dict(info), self.state))
    return self.obs, r, done, info

  def get_simulator_state(self):
    return types.SimpleNamespace(balloon_state=self.state)

  def render(self, *a, **k):
    self.log.append(('render', self.t))


class Pilot(agent_lib.Agent):
  """Acts on the observation; logs."""

  def __init__(self, log):
    self.log = log
    super().__init__(3, (4,))

  def begin_episode(self, o):
    a = int(abs(float(np.asarray(o).ravel()[0])) * 1000) % 3
    self.log.append(('begin', o, a))
    return a

  def step(self, r, o):
    a = int(abs(float(np.asarray(o).ravel()[0])) * 1000) % 3
    self.log.append(('step', r, o, a))
    return a

  def end_episode(self, r, terminal=True):
    self.log.append(('end', r, terminal))

  def set_mode(self, m):
    self.log.append(('mode', agent_lib.AgentMode(m)))


def path_of(p):
  return (p.x.kilometers, p.y.kilometers, p.pressure, p.superpressure, p.time_elapsed, p.battery_soc)


def judge(ctx, log, suite, results, radius, path, period, info):
  modes = [i for i, e in enumerate(log) if e[0] == 'mode']
  seeds = [i for i, e in enumerate(log) if e[0] == 'seed']
  ctx.check(modes and log[modes[-1]][1] == agent_lib.AgentMode.EVAL and modes[-1] < seeds[0],
            'the agent is not in evaluation mode', **info)
  ctx.check([log[i][1] for i in seeds] == list(suite.seeds), 'the environment is not seeded once per seed, in order',
            got=[log[i][1] for i in seeds], **info)
  ctx.check([r.seed for r in results] == list(suite.seeds), 'not one result per seed, in order', **info)
  for k, i in enumerate(seeds):
    ev = log[i:seeds[k + 1] if k + 1 < len(seeds) else len(log)]
    inf = dict(seed=log[i][1], index=k, **info)
    core = [e for e in ev if e[0] != 'render']
    ctx.check([e[0] for e in core[:3]] == ['seed', 'reset', 'begin'] and np.array_equal(core[2][1], core[1][1]),
              'a flight does not start with seed, reset and the first observation', order=[e[0] for e in core[:4]], **inf)
    steps = [e for e in core if e[0] == 'env']
    told = [e for e in core if e[0] == 'step']
    n = len(steps)
    acts = [core[2][2]] + [e[3] for e in told]
    ctx.check([e[1] for e in steps] == acts[:n] and len(told) in (n - 1, n), 'the environment does not get the agent\'s actions', **inf)
    for e, t in zip(steps, told):
      ctx.check(t[1] == e[2] and np.array_equal(t[2], e[3]), 'the agent is told another reward or observation', **inf)
    ends = [e for e in core if e[0] == 'end']
    last = steps[-1]
    ctx.check(ends == [('end', last[2], last[4])] and core[-1][0] == 'end', 'the agent is not told the end of the flight', got=ends, **inf)
    ctx.check(n == suite.max_episode_length or last[4], 'the flight stopped early', n=n, **inf)
    ctx.check(n <= suite.max_episode_length and not any(e[4] for e in steps[:-1]), 'the flight went on too long', n=n, **inf)
    ctx.check([e[1] for e in ev if e[0] == 'render'] == [j + 1 for j in range(n) if j % period == 0],
              'not rendered once per period', **inf)
    r = results[k]
    ctx.close(r.cumulative_reward, sum(e[2] for e in steps), 'the cumulative reward is not the sum of the rewards', 1e-9, 1e-9, **inf)
    d2 = [(np.hypot(e[6].x.kilometers, e[6].y.kilometers)) for e in steps]
    lo, hi = (np.mean([d <= radius * s for d in d2]) for s in (1 - 1e-9, 1 + 1e-9))
    ctx.check(lo - 1e-12 <= r.time_within_radius <= hi + 1e-12, 'time within radius is not the share of steps inside',
              got=r.time_within_radius, want=(lo, hi), **inf)
    ctx.check(0 <= r.time_within_radius <= 1, 'time within radius is no proportion', **inf)
    for f in FLAGS:
      want = bool(last[4] and last[5].get(f, False))
      ctx.check(bool(getattr(r, f)) == want, 'a termination flag is wrong', flag=f, got=getattr(r, f), want=want, **inf)
    ctx.check(r.final_timestep == n, 'the final time step is wrong', got=r.final_timestep, want=n, **inf)
    got, want = [path_of(p) for p in r.flight_path], [path_of(e[6]) for e in steps] if path else []
    ctx.check(got == want, 'the flight path is not the states flown through', got=len(got), want=len(want), **inf)
    how = next((f for f in FLAGS if getattr(r, f)), 'end' if last[4] else 'timeout')
    ctx.count(how)
    ctx.count('long', n > 960 and path)
    ctx.ev((info['env'], n, how, int(r.time_within_radius * 10), path))


def as_dict(r):
  return dict(seed=r.seed, cumulative_reward=float(r.cumulative_reward), time_within_radius=float(r.time_within_radius),
              out_of_power=bool(r.out_of_power), envelope_burst=bool(r.envelope_burst), zeropressure=bool(r.zeropressure),
              final_timestep=int(r.final_timestep),
              flight_path=[dict(x=p.x.kilometers, y=p.y.kilometers, pressure=float(p.pressure),
                                superpressure=float(p.superpressure), elapsed_seconds=p.time_elapsed.total_seconds(),
                                power=float(p.battery_soc)) for p in r.flight_path])


def through_json(ctx, results, info):
  for indent in (None, 2):
    back = json.loads(json.dumps(results, cls=eval_lib.EvalResultEncoder, indent=indent))
    ctx.check(back == [as_dict(r) for r in results], 'a result does not survive JSON', **info)
  ctx.count('json', len(results))


def scripted(ctx):
  rng = ctx.rng
  for k in range(ctx.n(80, 1000)):
    log = []
    radius = float(rng.choice([50.0, 10.0, 123.4]))
    world, pilot = World(log, radius), Pilot(log)
    nseeds = int(rng.integers(1, 6))
    if k % 3 == 0:  # A run of neighbouring seeds, as in the suites offered.
      first = int(rng.integers(0, 3) if rng.random() < .5 else rng.integers(10**6))
      seeds = list(range(first, first + nseeds))[::1 if rng.random() < .8 else -1]
      ctx.count('neighbours', nseeds > 1)
    else:
      seeds = [int(s) for s in rng.choice(10**6, nseeds, replace=False)]
      if k % 3 == 1:  # Any integer is a seed.
        seeds = [s * int(rng.choice([1, 10**4, 2**33])) for s in seeds]
    suite = suites.EvaluationSuite(seeds, int(rng.integers(1, 26)))
    path, period = bool(rng.random() < .6), int(rng.choice([1, 4, 10]))
    if k % 16 == 5:  # Flights of many days.
      suite, path = suites.EvaluationSuite(seeds, int(rng.integers(961, 2500)) if k > 8 else 6000), True
    info = dict(env='scripted', nseeds=len(suite.seeds), max_len=suite.max_episode_length, path=path, period=period)
    ctx.current = dict(seeds=suite.seeds, **info)
    kw = {} if path and rng.random() < .3 else dict(calculate_flight_path=path)
    if period != 10:
      kw['render_period'] = period
    seeds0 = list(suite.seeds)
    results = eval_lib.eval_agent(pilot, world, suite, **kw)
    ctx.check(list(suite.seeds) == seeds0, 'the suite was modified', **info)
    judge(ctx, log, suite, results, radius, path, period, info)
    through_json(ctx, results, info)
    ctx.count('days', any(p.time_elapsed >= dt.timedelta(days=1) for r in results for p in r.flight_path))
    # A subset in another order gives the same results.
    sub = [int(s) for s in rng.permutation(suite.seeds)[:int(rng.integers(1, len(suite.seeds) + 1))]]
    again = eval_lib.eval_agent(Pilot([]), World([], radius), suites.EvaluationSuite(sub, suite.max_episode_length), **kw)
    by = {r.seed: as_dict(r) for r in results}
    ctx.check([as_dict(r) for r in again] == [by[s] for s in sub], 'a seed\'s result depends on the other seeds', **info)
  for bad in (0, -3):
    ctx.raises(lambda: eval_lib.eval_agent(Pilot([]), World([], 50.0), suites.EvaluationSuite([1], bad)), AssertionError,
               'an empty episode is evaluated', max_len=bad)


class Spy:
  """Logs the calls into a real environment."""

  def __init__(self, env, log):
    self._env, self._log = env, log

  def __getattr__(self, n):
    return getattr(self._env, n)

  def seed(self, s=None):
    self._log.append(('seed', s))
    return self._env.seed(s)

  def reset(self, *a, **k):
    o = self._env.reset(*a, **k)
    self._log.append(('reset', o))
    return o

  def step(self, a):
    o, r, d, i = self._env.step(a)
    s = self._env.get_simulator_state().balloon_state
    c = types.SimpleNamespace(x=s.x, y=s.y, pressure=s.pressure, superpressure=s.superpressure,
                              time_elapsed=s.time_elapsed, battery_soc=s.battery_soc)
    self._log.append(('env', int(a), r, o, d, dict(i), c))
    return o, r, d, i

  def render(self, *a, **k):
    self._log.append(('render', sum(1 for _ in reversed_until_seed(self._log))))


def reversed_until_seed(log):
  for e in reversed(log):
    if e[0] == 'seed':
      return
    if e[0] == 'env':
      yield e


class SeekerSpy(station_seeker_agent.StationSeekerAgent):
  def __init__(self, log, *a):
    self.log = log
    super().__init__(*a)

  def begin_episode(self, o):
    a = super().begin_episode(o)
    self.log.append(('begin', o, int(a)))
    return a

  def step(self, r, o):
    a = super().step(r, o)
    self.log.append(('step', r, o, int(a)))
    return a

  def end_episode(self, r, terminal=True):
    self.log.append(('end', r, terminal))
    super().end_episode(r, terminal)

  def set_mode(self, m):
    self.log.append(('mode', agent_lib.AgentMode(m)))
    super().set_mode(m)


def real(ctx):
  rng = ctx.rng
  for wf, name in ((wind_field.SimpleStaticWindField, 'static'), (envs.grid_field, 'grid')):
    seeds = [int(s) for s in rng.choice(10000, 3, replace=False)]
    length = ctx.n(12, 60)
    out = []
    for rep in range(2):
      log = []
      env = envs.make_env(int(rng.integers(2**31)), wf=wf)
      order = seeds if rep == 0 else seeds[::-1][:2]
      pilot = SeekerSpy(log, 3, (1099,))
      suite = suites.EvaluationSuite(list(order), length)
      res = eval_lib.eval_agent(pilot, Spy(env, log), suite, render_period=5)
      info = dict(env=name, max_len=length)
      judge(ctx, log, suite, res, 50.0, True, 5, info)
      through_json(ctx, res, info)
      out.append({r.seed: as_dict(r) for r in res})
    for s in out[1]:
      ctx.check(out[0][s] == out[1][s], 'the same seed gives another result in another order or environment object',
                seed=s, env=name)
    ctx.count('real')


def encoder(ctx):
  rng = ctx.rng
  for _ in range(ctx.n(60, 600)):
    v = float(rng.normal())
    for x in (np.array(v), np.array([v]), np.array([[v]]), jnp.array(v), jnp.array([v])):
      ctx.check(json.loads(json.dumps(dict(a=[x]), cls=eval_lib.EvalResultEncoder)) == dict(a=[np.asarray(x).item()]),
                'a one-element array is not written as its number')
    for x in (np.array([v, v]), object(), {1, 2}):
      ctx.raises(lambda: json.dumps(x, cls=eval_lib.EvalResultEncoder), TypeError, 'something unserialisable is written')
  for _ in range(3):
    env = envs.make_env(int(rng.integers(2**31)))
    env.reset()
    s = env.get_simulator_state().balloon_state
    ctx.check(path_of(eval_lib.SimpleBalloonState.from_balloon_state(s)) == path_of(s), 'a simple state is not its balloon\'s state')


def run(ctx):
  encoder(ctx)
  scripted(ctx)
  real(ctx)
  for n, m in (('timeout', 20), ('out_of_power', 5), ('envelope_burst', 5), ('zeropressure', 5), ('end', 5), ('json', 100), ('real', 2),
               ('days', 3), ('long', 1), ('neighbours', 3)):
    ctx.require(n, m)
