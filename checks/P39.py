"""P39: metric collectors report each episode as it happened, once, under its number."""
import glob
import logging
import os
import pickle
import re
import shutil

import numpy as np
import tensorflow as tf
from absl import logging as absl_logging
from balloon_learning_environment.metrics import collector as collector_lib
from balloon_learning_environment.metrics import collector_dispatcher
from balloon_learning_environment.metrics import console_collector
from balloon_learning_environment.metrics import pickle_collector
from balloon_learning_environment.metrics import statistics_instance
from balloon_learning_environment.metrics import tensorboard_collector

RULE = ('one evaluation = one reported episode; distinct by (collectors, fine-grained period, '
        'episode length, terminal, restarts so far)')
ASSUMPTIONS = ['TensorFlow\'s event files are written and read correctly']
S = statistics_instance.StatisticsInstance
KNOWN = 'last-transition-counted-twice'


def episode_data(rng, na):
  n = int(rng.choice([1, int(rng.integers(1, 30)), int(rng.integers(1, 30)), int(rng.integers(300, 1000))]))
  if rng.random() < .05:
    n = int(rng.integers(1001, 2600))
  scale = 10.0 ** int(rng.integers(-1, 5))
  stuck = int(rng.integers(na)) if rng.random() < .3 else None  # One action all along.
  return [(int(rng.integers(na)) if stuck is None else stuck, float(rng.normal() * scale), False) for _ in range(n - 1)] + [
      (int(rng.integers(na)), float(rng.normal() * scale), bool(rng.random() < .5))]


def feed(d, ep):
  """Drives a dispatcher as the training loop does."""
  d.begin_episode()
  for i, (a, r, t) in enumerate(ep):
    d.step(S(step=i, action=a, reward=r, terminal=t))
  a, r, t = ep[-1]
  d.end_episode(S(step=len(ep), action=a, reward=r, terminal=t))


def read_events(d):
  out = []
  for f in sorted(glob.glob(os.path.join(glob.escape(d), 'events*')), key=os.path.getmtime):
    for e in tf.compat.v1.train.summary_iterator(f):
      for v in e.summary.value:
        out.append((v.tag, e.step, float(tf.make_ndarray(v.tensor)) if v.HasField('tensor') else v.simple_value))
  return out


EP = re.compile(r'Episode (\d+): reward: (\S+), episode length: (\d+), action distribution: \[([^\]]*)\]', re.S)
STEP = re.compile(r'Step: (\d+), action: (\d+), reward: (\S+), terminal: (True|False)\n')


def judge_total(ctx, got, ep, tol, what, **info):
  rs = [r for _, r, _ in ep]
  total = sum(rs)
  if abs(got - total) <= tol:
    return
  if abs(got - (total + rs[-1])) <= tol:
    ctx.known(KNOWN, f'{what}: the reported reward counts the last transition twice', got=got, want=total, **info)
    return
  ctx.check(False, f'{what}: the reported reward is not the sum of the rewards', got=got, want=total, **info)


def judge_console(ctx, text, eps, first, na, fine, info):
  found = EP.findall(text)
  ctx.check([int(f[0]) for f in found] == list(range(first, first + len(eps))),
            'console: not every episode is reported once under its number', got=[f[0] for f in found],
            first=first, n=len(eps), **info)
  for f, ep in zip(found, eps):
    ctx.check(re.fullmatch(r'-?\d{4,}\.\d\d|-\d{3}\.\d\d', f[1]) is not None, 'console: reward format', got=f[1])
    judge_total(ctx, float(f[1]), ep, 0.0051, 'console', episode=f[0], **info)
    ctx.check(int(f[2]) == len(ep), 'console: wrong episode length', got=f[2], want=len(ep), **info)
    got = np.array([float(x) for x in f[3].split()])
    cnt = np.bincount([a for a, _, _ in ep], minlength=na).astype(float)
    twice = cnt.copy()
    twice[ep[-1][0]] += 1
    ctx.check(got.shape == (na,), 'console: wrong action distribution size', got=got, **info)
    if np.allclose(got, cnt / cnt.sum(), atol=1e-6):
      pass
    elif np.allclose(got, twice / twice.sum(), atol=1e-6):
      ctx.known(KNOWN, 'console: the action distribution counts the last action twice', got=got, **info)
    else:
      ctx.check(False, 'console: wrong action distribution', got=got, want=cnt / cnt.sum(), **info)
  steps = STEP.findall(text)
  want = [(i, a, r, t) for ep in eps for i, (a, r, t) in enumerate(ep) if fine and i % fine == 0]
  got = [(int(i), int(a), float(r), t == 'True') for i, a, r, t in steps]
  ctx.check(got == want, 'console: fine-grained steps are not those of the period', got=got[:4], want=want[:4], **info)


def judge_pickle(ctx, d, eps, first, info):
  names = sorted(os.listdir(d))
  ctx.check(names == sorted(f'pickle_{first + i}.pkl' for i in range(len(eps))),
            'pickle: not one file per episode number', got=names, first=first, n=len(eps), **info)
  for i, ep in enumerate(eps):
    with open(os.path.join(d, f'pickle_{first + i}.pkl'), 'rb') as f:
      got = pickle.load(f)
    want = [S(step=k, action=a, reward=r, terminal=t) for k, (a, r, t) in enumerate(ep)]
    a, r, t = ep[-1]
    want.append(S(step=len(ep), action=a, reward=r, terminal=t))
    ctx.check(got == want, 'pickle: the record is not the transitions and the end of the episode',
              episode=first + i, got=len(got), want=len(want), **info)


def judge_tensorboard(ctx, events, segments, first, fine, info):
  by = lambda tag: [(s, v) for t, s, v in events if t == tag]
  eps = [e for seg in segments for e in seg]
  rew, length = by('Train/EpisodeReward'), by('Train/EpisodeLength')
  nums = list(range(first, first + len(eps)))
  ctx.check([s for s, _ in rew] == nums and [s for s, _ in length] == nums,
            'tensorboard: not every episode is reported once under its number', got=[s for s, _ in rew], want=nums, **info)
  for (_, v), (_, l), ep in zip(rew, length, eps):
    ctx.check(l == len(ep), 'tensorboard: wrong episode length', got=l, want=len(ep), **info)
    scale = sum(abs(r) for _, r, _ in ep)
    judge_total(ctx, v, ep, 1e-6 * (1 + 2 * scale), 'tensorboard', **info)
  got = by('Train/FineGrainedReward')
  if not fine:
    ctx.check(not got, 'tensorboard: fine-grained rewards although switched off', **info)
    return
  want = []
  for seg in segments:  # The step count restarts with the process.
    g = 0
    for ep in seg:
      for _, r, _ in ep:
        if g % fine == 0:
          want.append((g, r))
        g += 1
      want.append((g, ep[-1][1]))  # Documented: the end of the episode is logged always.
      g += 1
  ctx.check([s for s, _ in got] == [s for s, _ in want] and np.allclose([v for _, v in got], [v for _, v in want], rtol=1e-6, atol=1e-9),
            'tensorboard: fine-grained rewards are not those of the period', got=got[:5], want=want[:5], **info)


def plain(rng, kw, fine):
  """Leaves out what is the default anyway."""
  if fine < 2 and rng.random() < .6:
    del kw['fine_grained_frequency']
    if not fine:
      del kw['fine_grained_logging']


def full(ctx):
  rng = ctx.rng
  for k in range(ctx.n(40, 500)):
    na = int(rng.integers(1, 6))
    fine = int(rng.choice([0, 1, 3, 10, 613]))
    first = int(rng.choice([0, 0, 50, 1234, 99999, 1234567]))
    base = os.path.join(ctx.scratch, f'c{k}')
    info = dict(period=fine, start=first, actions=na)
    ctx.current = info
    kw = dict(fine_grained_logging=bool(fine), fine_grained_frequency=fine or 1)
    plain(rng, kw, fine)
    cons = [lambda b, n, e: console_collector.ConsoleCollector(b, n, e, **kw), pickle_collector.PickleCollector,
            lambda b, n, e: tensorboard_collector.TensorboardCollector(b, n, e, **kw)]
    which = [0, 1, 2] if k % 3 == 0 else [int(rng.integers(2))] if k % 3 == 1 else [0, 1]
    at = first
    segments = []
    restarts = int(rng.integers(0, 3))
    for seg in range(restarts + 1):
      d = collector_dispatcher.CollectorDispatcher(base, na, [cons[i] for i in which], at)
      w = d.get_summary_writer()
      ctx.check((w is not None) == (2 in which), 'the summary writer is not the one of tensorboard', **info)
      d.pre_training()
      eps = [episode_data(rng, na) for _ in range(int(rng.integers(1, 5)))]
      for ep in eps:
        feed(d, ep)
        ctx.ev((tuple(which), fine, len(ep), ep[-1][2], seg))
      d.end_training()
      if w is not None:
        w.close()
      at += len(eps)
      segments.append(eps)
    eps = [e for s in segments for e in s]
    m = os.path.join(base, 'metrics')
    ctx.check(sorted(os.listdir(m)) == sorted(['console', 'pickle', 'tensorboard'][i] for i in which), 'wrong output directories', **info)
    info['restarts'] = restarts
    if 0 in which:
      log = os.path.join(m, 'console', 'console.log')
      ctx.check(os.path.exists(log), 'console: no log file', have=os.listdir(os.path.join(m, 'console')), **info)
      text = open(log).read()
      judge_console(ctx, text, eps, first, na, fine, info)
    if 1 in which:
      judge_pickle(ctx, os.path.join(m, 'pickle'), eps, first, info)
    if 2 in which:
      judge_tensorboard(ctx, read_events(os.path.join(m, 'tensorboard')), segments, first, fine, info)
    ctx.count('runs')
    ctx.count('restarted', restarts)
    if first == 0 and 0 in which and k % 2:  # A new run from scratch overwrites the log.
      d = collector_dispatcher.CollectorDispatcher(base, na, [cons[0]], 0)
      d.pre_training()
      ep = episode_data(rng, na)
      feed(d, ep)
      d.end_training()
      judge_console(ctx, open(os.path.join(m, 'console', 'console.log')).read(), [ep], 0, na, fine, info)
    shutil.rmtree(base)


class Lines(logging.Handler):
  """What is logged while it is open."""

  def __enter__(self):
    self.lines, self.log = [], absl_logging.get_absl_logger()
    self.propagate, self.log.propagate = self.log.propagate, False
    self.verbosity = absl_logging.get_verbosity()
    absl_logging.set_verbosity(absl_logging.INFO)
    self.log.addHandler(self)
    return self

  def emit(self, record):
    self.lines.append((record.levelname, record.getMessage()))

  def __exit__(self, *a):
    self.log.removeHandler(self)
    self.log.propagate = self.propagate
    absl_logging.set_verbosity(self.verbosity)


def console_only(ctx):
  """The console itself: what is logged, with a file and without."""
  rng = ctx.rng
  for k in range(ctx.n(24, 200)):
    na, fine, first = int(rng.integers(1, 6)), int(rng.choice([0, 1, 3, 500])), int(rng.choice([0, 7, 100001]))
    kind = ('file', 'no directory', 'no file')[k % 3]
    base = None if kind == 'no directory' else os.path.join(ctx.scratch, f'o{k}')
    kw = dict(fine_grained_logging=bool(fine), fine_grained_frequency=fine or 1)
    plain(rng, kw, fine)
    if kind != 'file' or rng.random() < .5:
      kw['save_to_file'] = kind != 'no file'
      if kind == 'no directory' and rng.random() < .5:
        del kw['save_to_file']
    info = dict(kind=kind, period=fine, start=first, actions=na)
    ctx.current = info
    eps = [episode_data(rng, na) for _ in range(int(rng.integers(1, 4)))]
    with Lines() as log:
      d = collector_dispatcher.CollectorDispatcher(base, na, [lambda b, n, e: console_collector.ConsoleCollector(b, n, e, **kw)], first)
      d.pre_training()
      for ep in eps:
        feed(d, ep)
      d.end_training()
    text = ''.join(m if m.endswith('\n') else m + '\n' for l, m in log.lines if l == 'INFO')
    judge_console(ctx, text, eps, first, na, fine, info)
    have = [os.path.join(p, f) for p, _, fs in os.walk(base) for f in fs] if base else []
    want = [os.path.join(base, 'metrics', 'console', 'console.log')] if kind == 'file' else []
    ctx.check(have == want, 'console: not exactly the log file asked for', have=have, want=want, **info)
    if want:
      judge_console(ctx, open(want[0]).read(), eps, first, na, fine, info)
    ctx.ev(('console', kind, fine, first, len(eps)))
    ctx.count('console ' + kind)


class Tap(collector_lib.Collector):
  def __init__(self, name, log, base, na, ep, writer=None):
    self.name, self.log = name, log
    super().__init__(base, na, ep)
    self.summary_writer = writer

  def get_name(self):
    return self.name

  def _rec(self, *e):
    self.log.append((self.name,) + e)

  def pre_training(self):
    self._rec('pre')

  def begin_episode(self):
    self._rec('begin')

  def step(self, s):
    self._rec('step', s)

  def end_episode(self, s):
    self._rec('end', s)

  def end_training(self):
    self._rec('post')


def dispatch(ctx):
  rng = ctx.rng
  for k in range(ctx.n(60, 600)):
    log = []
    n = int(rng.integers(0, 4))
    writers = [object() if rng.random() < .4 else None for _ in range(n)]
    base = os.path.join(ctx.scratch, f'd{k}') if rng.random() < .5 else None
    d = collector_dispatcher.CollectorDispatcher(
        base, 3, [lambda b, a, e, i=i: Tap(f't{i}', log, b, a, e, writers[i]) for i in range(n)], 5)
    ctx.check(d.get_summary_writer() is next((w for w in writers if w is not None), None), 'not the first summary writer')
    want = []
    for _ in range(int(rng.integers(1, 12))):
      name = ('pre', 'begin', 'step', 'end', 'post')[int(rng.integers(5))]
      s = S(int(rng.integers(9)), 1, 0.5, False)
      if name == 'pre':
        d.pre_training()
      elif name == 'post':
        d.end_training()
      else:
        dict(begin=d.begin_episode, step=lambda: d.step(s), end=lambda: d.end_episode(s))[name]()
      want += [(f't{i}', name) + ((s,) if name in ('step', 'end') else ()) for i in range(n)]
    ctx.check(log == want, 'a collector was not told of every event once', got=log[:5], want=want[:5])
    ctx.count('dispatches')
  for na in (1, 2, 3, 7):
    for bad in (-1, -na, na, na + 1, 17, -100):
      c = console_collector.ConsoleCollector(None, na, 0)
      c.pre_training()
      c.begin_episode()
      ctx.raises(lambda: c.step(S(0, bad, 0.0, False)), ValueError, 'an invalid action is counted', action=bad, actions=na)
  ctx.raises(lambda: pickle_collector.PickleCollector(None, 3, 0), ValueError, 'a pickle collector without directory')
  ctx.raises(lambda: tensorboard_collector.TensorboardCollector(None, 3, 0), ValueError, 'a tensorboard collector without directory')


def run(ctx):
  absl_logging.set_verbosity(absl_logging.ERROR)
  dispatch(ctx)
  console_only(ctx)
  full(ctx)
  for n, m in (('console no file', 6), ('console no directory', 6), ('runs', 30), ('restarted', 15), ('dispatches', 40)):
    ctx.require(n, m)
