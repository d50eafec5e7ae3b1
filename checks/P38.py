"""P38: the training loop runs every iteration once and drives agent and metrics faithfully."""
import os
import pickle
import shutil

import numpy as np
from balloon_learning_environment import train_lib
from balloon_learning_environment.agents import agent as agent_lib
from balloon_learning_environment.agents import dopamine_utils
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.metrics import collector as collector_lib
from balloon_learning_environment.metrics import pickle_collector
from vp import envs
from vp import learn

RULE = ('one evaluation = one training run segment (until done or crashed); distinct by (environment, start, '
        'iterations, episodes per iteration, episode endings seen, crash place)')
ASSUMPTIONS = ['crashes are exceptions at calls into the environment, agent or file system']


class Crash(BaseException):
  pass


class Space:
  n = 3


class World:
  """An environment with scripted episode lengths that logs what it is asked."""

  def __init__(self, seed, log, crash_at=None):
    self.rng = np.random.default_rng(seed)
    self.log, self.crash_at, self.calls = log, crash_at, 0
    self.action_space = Space()
    self.ep = -1
    self.radius = None

  def tick(self):
    self.calls += 1
    if self.calls == self.crash_at:
      raise Crash('env')

  def reset(self):
    self.tick()
    self.ep += 1
    self.t = 0
    self.end = int(self.rng.integers(1, 14)) if self.rng.random() < 0.6 else 10**9
    self.obs = self.rng.normal(size=3)
    self.log.append(('reset', self.obs))
    return self.obs

  def step(self, action):
    self.tick()
    self.t += 1
    self.obs = self.rng.normal(size=3)
    r = float(self.rng.normal())
    done = self.t >= self.end
    self.log.append(('env', action, r, self.obs, done))
    return self.obs, r, done, {}

  def render(self, *a, **k):
    self.log.append(('render', self.t))


class Learner(agent_lib.Agent):
  """Returns scripted actions, logs what it is told, and checkpoints a counter."""

  def __init__(self, seed, log, crash_save=None):
    self.log = log
    self.rng = np.random.default_rng(seed)
    self.episodes = 0
    self.crash_save, self.saves = crash_save, 0
    super().__init__(3, (3,))

  def begin_episode(self, observation):
    a = int(self.rng.integers(3))
    self.log.append(('begin', observation, a))
    return a

  def step(self, reward, observation):
    a = int(self.rng.integers(3))
    self.log.append(('step', reward, observation, a))
    return a

  def end_episode(self, reward, terminal=True):
    self.episodes += 1
    self.log.append(('end', reward, terminal))

  def set_mode(self, mode):
    self.log.append(('mode', agent_lib.AgentMode(mode)))

  def set_summary_writer(self, w):
    self.log.append(('writer', w))

  def save_checkpoint(self, d, n):
    self.log.append(('save', d, n))
    self.saves += 1
    if self.saves == self.crash_save:
      raise Crash('save')
    dopamine_utils.save_checkpoint(d, n, lambda *_: dict(episodes=self.episodes))

  def load_checkpoint(self, d, n):
    def load(_, __, b):
      self.episodes = b['episodes']
      return True
    dopamine_utils.load_checkpoint(d, n, load)

  def reload_latest_checkpoint(self, d):
    self.log.append(('reload', d))
    n = dopamine_utils.get_latest_checkpoint(d)
    if n >= 0:
      self.load_checkpoint(d, n)
    return n


class Tap(collector_lib.Collector):
  def __init__(self, log, base_dir, na, ep, writer=None):
    self.log = log
    log.append(('collector', base_dir, na, ep))
    self.summary_writer = writer

  def get_name(self):
    return 'tap'

  def pre_training(self):
    self.log.append(('pre',))

  def begin_episode(self):
    self.log.append(('cbegin',))

  def step(self, s):
    self.log.append(('cstep', s.step, s.action, s.reward, s.terminal))

  def end_episode(self, s):
    self.log.append(('cend', s.step, s.action, s.reward, s.terminal))

  def end_training(self):
    self.log.append(('post',))


def parse_episode(ctx, ev, max_len, period, info):
  """One episode's events (environment, agent, two taps): the full protocol."""
  by = lambda *names: [e for e in ev if e[0] in names]
  ctx.check(len(by('reset')) == 1 and len(by('begin')) == 1 and len(by('end')) == 1
            and len(by('cbegin')) == 2 and len(by('cend')) == 2, 'an episode does not begin and end once',
            events=[e[0] for e in ev], **info)
  core = by('reset', 'begin', 'env', 'step', 'end')
  ctx.check(core[0][0] == 'reset' and core[1][0] == 'begin' and np.array_equal(core[1][1], core[0][1]),
            'the agent does not start from the reset observation', order=[e[0] for e in core[:3]], **info)
  steps = by('env')
  n = len(steps)
  ctx.check([e[0] for e in core[2:]] == ['env', 'step'] * (n - 1) + ['env', 'end'],
            'environment and agent do not alternate', order=[e[0] for e in core], **info)
  acts = [by('begin')[0][2]] + [e[3] for e in by('step')]
  ctx.check([e[1] for e in steps] == acts, 'the environment does not get the agent\'s action', **info)
  for e, s in zip(steps, by('step')):
    ctx.check(s[1] == e[2] and np.array_equal(s[2], e[3]), 'the agent is told another reward or observation', **info)
  last = steps[-1]
  ctx.check(by('end')[0][1:] == (last[2], last[4]), 'the episode ends with another reward or terminal flag',
            got=by('end')[0], last=(last[2], last[4]), **info)
  ctx.check(not any(e[4] for e in steps[:-1]), 'the episode went on after a terminal state', **info)
  ctx.check(last[4] or n == max_len, 'the episode stopped early', n=n, max_len=max_len, **info)
  ctx.check(n <= max_len, 'the episode is longer than allowed', n=n, max_len=max_len, **info)
  cs = by('cstep')
  want = [('cstep', i, e[1], e[2], e[4]) for i, e in enumerate(steps) for _ in range(2)]
  ctx.check(cs == want, 'the collectors do not get every transition once, in order', got=cs[:6], want=want[:6], **info)
  ce = by('cend')
  ctx.check(ce[0] == ce[1] == ('cend', n, last[1], last[2], last[4]), 'the collectors get another episode end',
            got=ce, want=(n, last[1], last[2], last[4]), **info)
  want = [i + 1 for i in range(n) if i % period == 0]
  ctx.check([e[1] for e in by('render')] == want, 'not rendered once per render period', got=by('render')[:5], want=want[:5], **info)
  return last[4]


def parse(ctx, log, cfg, crashed, info):
  base, ep_per, iters, max_len, period, start, writer = cfg
  heads = [e for e in log if e[0] in ('reload', 'collector', 'writer', 'mode', 'pre')]
  ck = os.path.join(base, 'checkpoints')
  ctx.check([e for e in log if e[0] == 'reload'] == [('reload', ck)], 'the latest checkpoint is not looked up once', **info)
  cols = [e for e in log if e[0] == 'collector']
  ctx.check(cols == [('collector', base, 3, start * ep_per)] * 2, 'collectors do not start at the first episode to come',
            got=cols, start=start, **info)
  ctx.check([e for e in log if e[0] == 'writer'] == [('writer', writer)], 'the agent does not get the summary writer', **info)
  modes = [e for e in heads if e[0] == 'mode' and e is not heads[0]]
  ctx.check(modes and modes[-1][1] == agent_lib.AgentMode.TRAIN, 'the agent is not in training mode', **info)
  first = next((i for i, e in enumerate(log) if e[0] == 'cbegin'), len(log))
  ctx.check(all(log.index(h) < first for h in heads), 'set-up happens after the first episode started', **info)
  ctx.check(log.count(('pre',)) == 2, 'pre_training is not called once', **info)
  ctx.check(log.count(('post',)) == (0 if crashed else 2) and (crashed or log[-1] == ('post',)),
            'end_training is not called once at the end', **info)
  body = [e for e in log[first:] if e[0] != 'post']
  # Split at the second collector's episode begin.
  eps, i = [], 0
  saves = []
  cur = []
  ends = set()
  for e in body:
    if e[0] == 'cbegin' and (not cur or cur[-1][0] != 'cbegin'):
      if cur:
        eps.append(cur)
      cur = []
    if e[0] == 'save':
      eps.append(cur)
      cur = []
      saves.append((len(eps), e))
      continue
    cur.append(e)
  tail = cur
  if not crashed and tail:
    eps.append(tail)
  for ev in eps:
    ends.add(parse_episode(ctx, ev, max_len, period, info))
    ctx.count('episodes')
  want = [((k + 1) * ep_per, ('save', ck, start + k)) for k in range(len(saves))]
  ctx.check(saves == want, 'checkpoints are not saved once per iteration, after its episodes', got=saves, want=want, **info)
  if not crashed:
    ctx.check(len(saves) == max(iters - start, 0) and len(eps) == max(iters - start, 0) * ep_per,
              'not every remaining iteration was run', saves=len(saves), episodes=len(eps), start=start, iters=iters, **info)
  return ends, len(eps), saves


def scripted(ctx):
  rng = ctx.rng
  for k in range(ctx.n(120, 1500)):
    base = os.path.join(ctx.scratch, f'run{k}')
    ep_per, iters, max_len, period = (int(v) for v in (rng.integers(1, 5), rng.integers(1, 6), rng.integers(1, 13), rng.choice([1, 2, 3, 10, 10, 2000])))
    if k % 60 == 11:  # Few, long episodes.
      ep_per, iters, max_len, period = 2, 1, int(rng.integers(10001, 13000)), int(rng.choice([7, 5000]))
      ctx.count('long')
    info = dict(episodes_per_iteration=ep_per, iterations=iters, max_episode_length=max_len, render_period=period)
    ctx.current = info
    writer = object() if rng.random() < .5 else None
    done = -1
    finished = False
    stats = {}
    for attempt in range(40):
      log = []
      crash_env = int(rng.integers(1, 120)) if rng.random() < 0.5 and attempt < 20 else None
      crash_save = int(rng.integers(1, 4)) if rng.random() < 0.3 and attempt < 20 else None
      world = World(int(rng.integers(2**31)), log, crash_env)
      ag = Learner(int(rng.integers(2**31)), log, crash_save)
      cons = [lambda b, n, e: Tap(log, b, n, e), lambda b, n, e: Tap(log, b, n, e, writer)]
      if rng.random() < .5:
        cons.append(pickle_collector.PickleCollector)
        piped = True
      else:
        piped = False
      crashed = None
      kw = {} if (ep_per == 50 and period == 10) else dict(render_period=period, episodes_per_iteration=ep_per)
      try:
        train_lib.run_training_loop(base, world, ag, iters, max_len, cons, **kw)
      except Crash as c:
        crashed = c.args[0]
      start = done + 1
      ends, n, saves = parse(ctx, log, (base, ep_per, iters, max_len, period, start, writer), crashed, dict(attempt=attempt, **info))
      if piped:
        for j in range(n):  # Complete episodes have their file.
          p = os.path.join(base, 'metrics', 'pickle', f'pickle_{start * ep_per + j}.pkl')
          ctx.check(os.path.exists(p), 'an episode of the run has no record under its number', path=p, **info)
        ctx.count('pickled', n)
      ok = len(saves) - (1 if crashed == 'save' else 0)
      done += ok
      ctx.check(dopamine_utils.get_latest_checkpoint(os.path.join(base, 'checkpoints')) == done,
                'the saved progress is not the finished iterations', done=done, **info)
      if not crashed:
        ctx.check(ag.episodes == max(iters, done + 1) * ep_per, 'across restarts, iterations were lost or repeated',
                  episodes=ag.episodes, **info)
      ctx.ev(('scripted', start, iters, ep_per, tuple(sorted(ends)), crashed))
      ctx.count('resumed' if start else 'fresh')
      if crashed:
        ctx.count('crashes')
      else:
        if finished:
          break
        finished = True
        if rng.random() < .5:
          iters += int(rng.integers(0, 3))  # Run again, perhaps for longer.
          info['iterations'] = iters
    shutil.rmtree(base, ignore_errors=True)


def real(ctx):
  """The real environment, agents and collectors, interrupted and resumed."""
  rng = ctx.rng
  for k in range(ctx.n(1, 4)):
    base = os.path.join(ctx.scratch, f'real{k}')
    kind = ('dqn', 'quantile')[k % 2]
    total = 0
    for iters in (1, 3):
      env = envs.make_env(int(rng.integers(2**31)), wf=wind_field.SimpleStaticWindField)
      ag = learn.make(kind, 1099, int(rng.integers(2**31)), hidden=6, layers=2, capacity=300, batch=4, history=10, eps=0.0)
      steps0 = ag.training_steps
      train_lib.run_training_loop(base, env, ag, iters, 9, [pickle_collector.PickleCollector],
                                  render_period=5, episodes_per_iteration=2)
      total += (iters - total) if iters > total else 0
      ctx.check(ag.training_steps == iters * 2 * 9, 'training steps are lost or repeated across a restart',
                steps=ag.training_steps, want=iters * 18, agent=kind)
      ctx.check(ag._replay.add_count == iters * 18, 'transitions are lost or repeated across a restart',
                count=int(ag._replay.add_count), want=iters * 18, agent=kind)
      d = os.path.join(base, 'metrics', 'pickle')
      ctx.check(sorted(os.listdir(d)) == sorted(f'pickle_{i}.pkl' for i in range(iters * 2)), 'episode records are not 0..n-1',
                files=sorted(os.listdir(d)))
      for i in range(iters * 2):
        with open(os.path.join(d, f'pickle_{i}.pkl'), 'rb') as f:
          s = pickle.load(f)
        ctx.check([x.step for x in s[:9]] == list(range(9)), 'an episode record does not hold its transitions')
      ctx.ev(('real', kind, iters))
    shutil.rmtree(base)


def constructors(ctx):
  names = ['console', 'pickle', 'tensorboard']
  for pick in (['pickle'], names, names[::-1], [], ['console', 'nonsense', 'pickle']):
    got = [c.__name__.lower() for c in train_lib.get_collector_data(pick)]
    ctx.check(got == [n + 'collector' for n in pick if n in names], 'the named collectors are not chosen in order', pick=pick, got=got)


def run(ctx):
  constructors(ctx)
  scripted(ctx)
  real(ctx)
  for n, m in (('long', 1), ('episodes', 300), ('crashes', 40), ('resumed', 40), ('fresh', 40), ('pickled', 100)):
    ctx.require(n, m)
