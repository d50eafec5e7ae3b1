"""P34: exploration phases, random walk and random actions."""
import copy

import jax
import numpy as np
from balloon_learning_environment.agents import agent as agent_lib
from balloon_learning_environment.agents import exploration
from balloon_learning_environment.agents import marco_polo_exploration
from balloon_learning_environment.agents import random_walk_agent
from balloon_learning_environment.utils import sampling

RULE = ('one evaluation = one step of an explorer or random-walk agent; '
        'distinct by (agent, episode kind, phase, step bucket, action)')
ASSUMPTIONS = ['the JAX generator is trusted']
NA, SHAPE = 3, (1099,)


class Probe(agent_lib.Agent):
  """An exploratory agent that records how it is driven."""

  def __init__(self, num_actions, observation_shape):
    super().__init__(num_actions, observation_shape)
    self.args = (num_actions, observation_shape)
    self.log = []

  def begin_episode(self, observation):
    self.log.append(('begin', float(observation[0])))
    return 7

  def step(self, reward, observation):
    self.log.append(('step', float(reward), float(observation[0])))
    return 100 + len(self.log)

  def end_episode(self, reward, terminal=True):
    self.log.append(('end',))


def episode(ex, rng, steps):
  """Drives one episode; returns per-step 'did the explorer take over'."""
  probe = ex_probe(ex)
  o = rng.normal(size=SHAPE)
  n0 = len(probe.log)
  a = ex.begin_episode(o, 2)
  out = [(a, 2, probe.log[n0:], o[0], None)]
  for _ in range(steps):
    o = rng.normal(size=SHAPE)
    r = float(rng.normal())
    want = int(rng.integers(3))
    n0 = len(probe.log)
    a = ex.step(r, o, want)
    out.append((a, want, probe.log[n0:], o[0], r))
  return out


PROBES = {}


def ex_probe(ex):
  return PROBES[id(ex)]


def make(p, seed):
  made = []

  def ctor(n, shape):
    made.append(Probe(n, shape))
    return made[-1]
  ex = marco_polo_exploration.MarcoPoloExploration(
      NA, SHAPE, exploratory_episode_probability=p,
      exploratory_agent_constructor=ctor, seed=seed)
  PROBES[id(ex)] = made[0]
  return ex, made


def marco_polo(ctx):
  rng = ctx.rng
  for k in range(ctx.n(60, 600)):
    p = float(rng.choice([0.0, 0.25, 0.5, 0.8, 1.0]))
    seed = int(rng.integers(2**31)) if k > 1 else (0, 2**31 - 1)[k]
    p = p if k > 1 else 0.5
    ex, made = make(p, seed)
    ctx.check(len(made) == 1 and made[0].args[0] == NA and tuple(made[0].args[1]) == SHAPE,
              'the exploratory agent is not constructed once with the given sizes', made=len(made))
    twin, _ = make(p, seed)
    for ep in range(int(rng.integers(1, 4)) if k > 1 else 12):
      steps = int(rng.choice([int(rng.integers(1, 90)), 79, 80, 81, 119, 120, 121, 260, 400]))
      if k < 2:
        steps = 85
      if k == 2:
        steps = 1100
      drng = int(rng.integers(2**31))
      out = episode(ex, np.random.default_rng(drng), steps)
      out2 = episode(twin, np.random.default_rng(drng), steps)
      ctx.check([x[0] for x in out] == [x[0] for x in out2],
                'the same seed explores differently', seed=seed, p=p)
      a, want, log, o0, _ = out[0]
      ctx.check(a == want, 'an episode does not start with the agent\'s action', p=p, ep=ep)
      ctx.check(log == [('begin', o0)], 'the exploratory agent is not told of the new episode', log=log)
      taken = [bool(x[2]) for x in out[1:]]
      kinds = set()
      # Which of the two documented schedules is it?
      explore = [((i + 0) % 120) >= 80 for i in range(1, steps + 1)]
      if steps >= 80 and any(taken):
        kinds.add('exploratory')
        ctx.check(taken == explore, 'phases are not 4 h RL / 2 h exploration',
                  first=next(i for i in range(steps) if taken[i] != explore[i]) if taken != explore else None,
                  steps=steps, p=p, ep=ep)
        ctx.count('exploratory_episodes')
      else:
        ctx.check(not any(taken), 'exploration before four hours', steps=steps, p=p)
        if steps >= 80:
          ctx.count('rl_episodes')
      if steps >= 80:
        ctx.check(p not in (0.0, 1.0) or any(taken) == (p == 1.0),
                  'episode kind contradicts its probability', p=p, any=any(taken))
      for i, (a, want, log, o0, r) in enumerate(out[1:], 1):
        if log:
          ctx.check(log == [('step', r, o0)], 'the exploratory agent does not get the transition', log=log, i=i)
          ctx.check(a == 100 + _index(ex, log[0]), 'the exploratory action is not used', i=i, a=a)
        else:
          ctx.check(a == want, 'the agent\'s action is not passed through', i=i, a=a, want=want)
        ctx.ev(('marco', bool(any(taken)), bool(log), i // 20))
  # The probability of an exploratory episode.
  for p in (0.3, 0.8):
    n = ctx.n(400, 3000)
    ex, made = make(p, int(rng.integers(2**31)))
    kinds = []
    z = np.zeros(SHAPE)
    for _ in range(n):
      ex.begin_episode(z, 0)
      n0 = len(made[0].log)
      for _ in range(85):
        ex.step(0.0, z, 0)
      kinds.append(len(made[0].log) > n0)
    kinds = np.array(kinds)
    for got, q, what in ((kinds, p, 'exploratory episodes do not have their probability'),
                         (kinds[1:] & kinds[:-1], p * p, 'exploratory episodes are not drawn independently')):
      # Neighbouring pairs overlap, which at most doubles the variance.
      sd = np.sqrt(2 * q * (1 - q) / len(got))
      ctx.check(abs(got.mean() - q) < 5 * sd, what, p=p, got=got.mean(), want=q, n=n)
    ctx.count('prob_episodes', n)
  base = exploration.Exploration(NA, SHAPE)
  for _ in range(20):
    a = int(rng.integers(3))
    o = rng.normal(size=SHAPE)
    ctx.check(base.begin_episode(o, a) == a and base.step(1.0, o, a) == a, 'the no-op exploration changes the action')



def _index(ex, entry):
  return ex_probe(ex).log.index(entry) + 1


def obs_at(pressure):
  o = np.zeros(SHAPE, dtype=np.float32)
  o[0] = (pressure - 5000.0) / 9000.0
  return o


def random_walk(ctx):
  rng = ctx.rng
  zs = []
  for k in range(ctx.n(40, 400)):
    seed = int(rng.integers(2**31)) if k > 1 else (0, 2**31 - 1)[k]
    ag = random_walk_agent.RandomWalkAgent(NA, SHAPE, seed=seed)
    key = jax.random.PRNGKey(seed)
    key, sub = jax.random.split(key)  # Constructor draws a first target.
    for ep in range(int(rng.integers(1, 4))):
      key, sub = jax.random.split(key)
      target = sampling.sample_pressure(sub)
      ctx.check(6500.0 <= target <= 11400.0, 'target outside the sampling range', target=target)
      steps = int(rng.integers(500, 600)) if k % 20 == 2 and ep == 0 else int(rng.integers(60, 200)) if k % 5 == 0 and ep == 0 else int(rng.integers(1, 40))
      for t in range(steps + 1):
        if t:
          key, sub = jax.random.split(key)
          z = float(jax.random.normal(sub))
          target = target + t * 180.0 * 0.1666 * z
          zs.append(z)
          if not 0 < target < 101325:
            ctx.count('walk_far')  # No physical pressure, but the walk goes on.
        d = float(rng.choice([rng.normal(0, 80), rng.normal(0, 400), 97.0, -97.0, 103.0, -103.0, 0.0]))
        tol = 0.3 + 1e-6 * abs(target)
        want = 2 if d > 100 else 0 if d < -100 else 1
        o = obs_at(target + d)
        probe = copy.deepcopy(ag)
        a = int(ag.begin_episode(o) if t == 0 else ag.step(float(rng.normal()), o))
        if abs(abs(d) - 100) > tol:
          ctx.check(a == want, 'the random walk does not steer to its target with 100 Pa hysteresis',
                    seed=seed, episode=ep, step=t, above_target=d, action=a, want=want)
          ctx.count(f'walk_{a}')
        # The history of observations must not matter for the target.
        a2 = int(probe.begin_episode(obs_at(target + 500.0)) if t == 0 else probe.step(0.0, obs_at(target + 500.0)))
        ctx.check(a2 == 2, 'a balloon 500 Pa below its target altitude does not ascend', seed=seed, step=t)
        ctx.ev(('walk', min(ep, 2), t // 4, a, int(np.clip(d // 50, -6, 6))))
      ag.end_episode(0.0, True)
    if k % 10 == 0:
      for shape in ((1098,), (1, 1099), (16,)):
        ctx.raises(lambda: copy.deepcopy(ag).step(0.0, np.zeros(shape, dtype=np.float32)), AssertionError,
                   'an observation of the wrong shape is accepted', shape=shape)


def unseeded(ctx):
  """Without a seed, no two explorers are alike."""
  scan = [obs_at(p) for p in np.arange(6400.0, 11500.0, 25.0)]
  walks = []
  for _ in range(4):
    ag = random_walk_agent.RandomWalkAgent(NA, SHAPE)
    walks.append(tuple(int(copy.deepcopy(ag).begin_episode(o)) for o in scan))
    ctx.ev(('unseeded', 'walk'))
  ctx.check(len(set(walks)) > 1, 'random-walk agents without a seed are all alike')
  plans = []
  for _ in range(2):
    ex, _ = make(0.5, None)
    # Past the first four hours the exploratory agent acts, or never does.
    plans.append([any(x[0] != x[1] for x in episode(ex, ctx.rng, 84)) for _ in range(40)])
    ctx.ev(('unseeded', 'marco polo'))
  ctx.check(5 < sum(plans[0]) < 35, 'without a seed the episodes are not drawn', plan=plans[0])
  ctx.check(plans[0] != plans[1], 'explorers without a seed are all alike')


def random_agent(ctx):
  rng = ctx.rng
  for n in (1, 2, 3, 7):
    ag = agent_lib.RandomAgent(n, SHAPE)
    acts = [int(ag.begin_episode(np.zeros(SHAPE)))]
    acts += [int(ag.step(0.0, np.zeros(SHAPE))) for _ in range(ctx.n(600, 6000))]
    ctx.check(set(acts) == set(range(n)), 'random actions do not cover the action range', n=n, got=sorted(set(acts)))
    freq = np.bincount(acts, minlength=n) / len(acts)
    sd = np.sqrt((1 / n) * (1 - 1 / n) / len(acts))
    ctx.check(np.abs(freq - 1 / n).max() <= 6 * sd + 1e-12, 'random actions are not uniform', n=n, freq=freq)
    ctx.check(ag.get_name() == 'RandomAgent', 'the agent does not know its name')
    ctx.ev(('random', n), n=len(acts))


def run(ctx):
  marco_polo(ctx)
  random_walk(ctx)
  random_agent(ctx)
  unseeded(ctx)
  for n, m in (('exploratory_episodes', 15), ('rl_episodes', 8), ('walk_0', 50), ('walk_1', 50), ('walk_2', 50), ('walk_far', 30)):
    ctx.require(n, m)
