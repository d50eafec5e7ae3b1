"""P36: checkpoints restore the agent; discovery, clean-up and crash points."""
import os
import random
import shutil

import numpy as np
import tensorflow as tf
from balloon_learning_environment.agents import dopamine_utils
from balloon_learning_environment.utils import run_helpers
from vp import learn

RULE = ('one evaluation = one save, restore, discovery, clean-up or crash point; distinct by '
        '(kind, agent, what happened)')
ASSUMPTIONS = ['a crash loses at most the unwritten tail of the file open at that moment',
               'dopamine\'s replay buffer files are written and read correctly']


class Crash(BaseException):
  pass


def drive(ag, rng, n, train=True):
  """A few episodes; returns the actions."""
  acts = []
  dim = ag.observation_shape[0]
  while n > 0:
    acts.append(int(ag.begin_episode(rng.normal(size=dim).astype(np.float32))))
    k = int(rng.integers(1, 12))
    for _ in range(k):
      acts.append(int(ag.step(float(np.float32(rng.normal())), rng.normal(size=dim).astype(np.float32))))
    ag.end_episode(float(np.float32(rng.normal())), bool(rng.random() < .5))
    n -= k + 1
  return acts


def replay_state(ag):
  r = ag._replay
  # Only the rows written so far: the buffer beyond them is uninitialised memory.
  out = {f'store:{k}': np.array(v[:int(r.add_count)]) for k, v in r._store.items()}
  out['count'] = np.array(r.add_count)
  out['ends'] = np.array(sorted(getattr(r, 'episode_end_indices', ())))
  if hasattr(r, 'sum_tree'):
    out['tree'] = np.concatenate([np.asarray(n, np.float64) for n in r.sum_tree.nodes])
  return out


def state(ag):
  return dict(online=learn.leaves(ag.online_params), target=learn.leaves(ag.target_network_params),
              opt=learn.leaves(ag.optimizer_state), steps=ag.training_steps, replay=replay_state(ag),
              frame=np.array(ag.state))


def differs(a, b):
  for k in ('online', 'target', 'opt'):
    if not learn.same(a[k], b[k]):
      return k
  if a['steps'] != b['steps']:
    return 'steps'
  if not np.array_equal(a['frame'], b['frame']):
    return 'frame'
  for k in a['replay']:
    x, y = a['replay'][k], b['replay'].get(k)
    if y is None or x.shape != y.shape or not np.array_equal(x, y):
      return 'replay ' + k
  return None


def fresh(kind, seed, duration=5, **kw):
  args = dict(dim=4, hidden=5, layers=2, history=12, capacity=60, batch=4, update=3, sync=8, eps=0.0)
  args.update(kw)
  dim = args.pop('dim')
  return learn.make(kind, dim, seed, duration=duration, **args)


def seed_global(s):
  np.random.seed(s)
  random.seed(s)


def listing(d):
  return sorted(n for n in os.listdir(d) if n.startswith('checkpoint_') and n.endswith('.pkl'))


JUNK = ['checkpoint_best.pkl', 'checkpoint_00001.pkl.bak', 'checkpoint_00001_old.pkl', 'notes.txt',
        'mycheckpoint_99999.pkl', 'checkpoint_-0001.pkl', 'checkpoint_00099.txt']


def runs(ctx):
  """Long histories of train / save / restart."""
  rng = ctx.rng
  for k in range(ctx.n(4, 16)):
    kind = ('dqn', 'quantile')[k % 2]
    dur = [5, 2, 1, 'None', 0][int(rng.integers(5))]
    d = os.path.join(ctx.scratch, f'run[{k}] *', 'deep', 'checkpoints')
    ag = fresh(kind, int(rng.integers(2**31)), duration=dur)
    info = dict(agent=kind, duration=dur)
    ctx.current = info
    r = np.random.default_rng(int(rng.integers(2**31)))
    ctx.check(ag.reload_latest_checkpoint(d) == -1, 'something was restored from nowhere', **info)
    saved, states = [], {}
    it = int(rng.choice([0, 0, 7, 99996]))
    junk = {}
    for _ in range(ctx.n(7, 12)):
      drive(ag, r, int(r.integers(5, 40)))
      before = state(ag)
      ag.save_checkpoint(d, it)
      ctx.check(differs(before, state(ag)) is None, 'saving changed the agent', what=differs(before, state(ag)), **info)
      saved.append(it)
      states[it] = before
      keep = saved if dur == 'None' else [i for i in saved if i >= it - dur]
      got = [n for n in listing(d) if n not in junk]
      ctx.check(got == sorted(f'checkpoint_{i:05d}.pkl' for i in keep),
                'the checkpoints kept are not those of the configured duration', got=got, keep=keep, **info)
      for n, c in junk.items():
        p = os.path.join(d, n)
        ctx.check(os.path.exists(p) and open(p).read() == c, 'a file that is no checkpoint was changed or removed', name=n, **info)
      if not junk and r.random() < 0.5:
        for n in JUNK:
          junk[n] = f'junk {n}'
          open(os.path.join(d, n), 'w').write(junk[n])
      ctx.ev(('save', kind, str(dur), len(keep), it >= 99999, bool(junk)))
      if r.random() < 0.6:  # Restart in a new agent.
        nxt = fresh(kind, int(rng.integers(2**31)), duration=dur)
        if r.random() < 0.5:
          drive(nxt, r, 20)  # Restoring over a used agent.
        got = nxt.reload_latest_checkpoint(d)
        ctx.check(got == it, 'the latest checkpoint is not found', got=got, want=it, files=os.listdir(d), **info)
        ctx.check(differs(before, state(nxt)) is None, 'the restored agent is not the saved one',
                  what=differs(before, state(nxt)), **info)
        # Both continue alike.
        s, e = int(rng.integers(2**31)), int(rng.integers(2**31))
        seed_global(s)
        a1 = drive(ag, np.random.default_rng(e), 25)
        seed_global(s)
        a2 = drive(nxt, np.random.default_rng(e), 25)
        ctx.check(a1 == a2 and differs(state(ag), state(nxt)) is None, 'the restored agent does not train like the saved one',
                  what=differs(state(ag), state(nxt)), **info)
        ctx.count('restarts')
        ctx.ev(('restart', kind, str(dur), it >= 99999, bool(junk)))
        ag = nxt
      it += int(r.choice([1, 1, 1, 2]))
    # A specific, older checkpoint.
    old = [i for i in saved if os.path.exists(os.path.join(d, f'checkpoint_{i:05d}.pkl'))
           and i > saved[-1] - 4][0]  # Dopamine keeps four replay buffers.
    other = fresh(kind, 3, duration=dur)
    other.load_checkpoint(d, old)
    ctx.check(differs(states[old], state(other)) is None, 'an older checkpoint is not restored as saved',
              what=differs(states[old], state(other)), old=old, **info)
    # Back to the latest, again after training on, and to the older one again.
    for j in range(3):
      ctx.check(other.reload_latest_checkpoint(d) == saved[-1], 'the latest checkpoint is not found', files=os.listdir(d), **info)
      ctx.check(differs(states[saved[-1]], state(other)) is None, 'the latest checkpoint restored again is not as saved',
                what=differs(states[saved[-1]], state(other)), reload=j, **info)
      drive(other, r, 20)
      if j:
        other.load_checkpoint(d, old)
        ctx.check(differs(states[old], state(other)) is None, 'an older checkpoint restored again is not as saved',
                  what=differs(states[old], state(other)), old=old, **info)
      ctx.count('again')
    b = state(other)
    other.load_checkpoint(d, 55555)
    ctx.check(differs(b, state(other)) is None, 'restoring a missing checkpoint changed the agent', **info)
    ctx.count('older')
    shutil.rmtree(os.path.join(ctx.scratch, f'run[{k}] *'))


class FaultyFiles:
  """Counts file operations below a directory and crashes at the k-th."""

  def __init__(self, crash_at, rng):
    self.n, self.at, self.rng, self.open = 0, crash_at, rng, None
    self.ops = []

  def tick(self, name):
    self.ops.append(name)
    self.n += 1
    if self.n == self.at:
      raise Crash(name)

  def __enter__(self):
    f = self
    g = tf.io.gfile
    self.saved = {n: getattr(g, n) for n in ('GFile', 'makedirs', 'remove', 'rename')}
    real = self.saved['GFile']

    class File:
      def __init__(self, name, mode='r', *a, **k):
        f.tick(('open', name))
        self.name = name
        self.f = real(name, mode, *a, **k)
        if 'w' in mode:
          f.open = name

      def write(self, data):
        self.f.write(data)
        f.tick(('write', self.name))

      def close(self):
        self.f.close()
        f.tick(('close', self.name))
        if f.open == self.name:
          f.open = None

      def __enter__(self):
        return self

      def __exit__(self, *exc):
        if exc[0] is None:
          self.close()
        else:
          self.f.close()

      def __getattr__(self, n):
        return getattr(self.f, n)
    g.GFile = File
    for n in ('makedirs', 'remove', 'rename'):
      def op(*a, _n=n, **k):
        f.tick((_n, a[0]))
        return f.saved[_n](*a, **k)
      setattr(g, n, op)
    return self

  def __exit__(self, *exc):
    for n, v in self.saved.items():
      setattr(tf.io.gfile, n, v)

  def tear(self):
    """The tail of the file open at the crash never reached the disk."""
    if self.open and os.path.exists(self.open):
      size = os.path.getsize(self.open)
      with open(self.open, 'r+b') as fh:
        fh.truncate(int(self.rng.integers(0, size)) if size else 0)


def crashes(ctx):
  rng = ctx.rng
  for k in range(ctx.n(2, 8)):
    kind = ('dqn', 'quantile')[k % 2]
    base = os.path.join(ctx.scratch, f'crash{k}')
    d = os.path.join(base, 'ck')
    ag = fresh(kind, int(rng.integers(2**31)), duration=2)
    r = np.random.default_rng(int(rng.integers(2**31)))
    states = {}
    n0 = int(rng.integers(3, 6))
    for it in range(n0):
      drive(ag, r, 15)
      ag.save_checkpoint(d, it)
      states[it] = state(ag)
    drive(ag, r, 15)
    states[n0] = state(ag)
    with FaultyFiles(0, rng) as ff:
      work = os.path.join(base, 'count')
      shutil.copytree(d, work)
      ag.save_checkpoint(work, n0)
    total = ff.n
    kinds = sorted({o[0] for o in ff.ops})
    ctx.check('open' in kinds and 'write' in kinds, 'the save was not observed', kinds=kinds)
    reader = fresh(kind, 5, duration=2)
    points = list(range(1, total + 1))
    if not ctx.thorough and len(points) > 45:
      final = [i + 1 for i, o in enumerate(ff.ops) if o[1].endswith('.pkl')]
      points = sorted(set(final) | {int(i) for i in rng.choice(points, 30, replace=False)})
    for at in points:
      work = os.path.join(base, f'w{at}')
      shutil.copytree(d, work)
      hit = None
      with FaultyFiles(at, rng) as ff:
        try:
          ag.save_checkpoint(work, n0)
        except Crash as c:
          hit = c.args[0]
      if hit is None:  # Fewer operations this time.
        shutil.rmtree(work)
        continue
      opened = ff.open
      ff.tear()
      info = dict(agent=kind, op=hit[0], file=os.path.basename(hit[1]), iteration=n0, at=at)
      ctx.current = info
      try:
        got = reader.reload_latest_checkpoint(work)
      except Exception as e:  # pylint: disable=broad-except
        if opened and os.path.basename(opened) == f'checkpoint_{n0:05d}.pkl':
          ctx.known('torn-latest-checkpoint', 'a crash while the checkpoint file is written makes the restart fail: '
                    + type(e).__name__, **info)
          ctx.ev(('crash', kind, hit[0], 'torn'))
          ctx.count('torn')
        else:
          ctx.check(False, 'after a crash during a save the restart fails', error=repr(e), **info)
      else:
        ctx.check(got in (n0 - 1, n0), 'after a crash the restart finds neither the last nor the new checkpoint', got=got, **info)
        ctx.check(differs(states[got], state(reader)) is None, 'after a crash another state is restored',
                  what=differs(states[got], state(reader)), got=got, **info)
        ctx.ev(('crash', kind, hit[0], n0 - got, os.path.basename(hit[1]).split('_')[0]))
        ctx.count('recovered')
      # The next save must succeed from here.
      shutil.rmtree(work)
      ctx.count('crash_points')
    shutil.rmtree(base)


def discovery(ctx):
  """Names only: discovery and clean-up over arbitrary directories."""
  rng = ctx.rng
  for k in range(ctx.n(150, 2000)):
    d = os.path.join(ctx.scratch, 'disc', f'{k}[a]')
    os.makedirs(d)
    its = sorted({int(rng.choice([rng.integers(0, 20), rng.integers(0, 1000), rng.integers(90000, 120000), rng.integers(9e8, 11e8)]))
                  for _ in range(int(rng.integers(0, 12)))})
    junk = [n for n in JUNK if rng.random() < 0.3]
    for n in junk + [f'checkpoint_{i:05d}.pkl' for i in its]:
      open(os.path.join(d, n), 'w').close()
    got = dopamine_utils.get_latest_checkpoint(d if rng.random() < .5 else d + '/')
    want = its[-1] if its else -1
    ctx.check(got == want, 'the latest checkpoint is not found', got=got, want=want, files=os.listdir(d))
    cur, dur = (its[-1] if its else 5) + int(rng.integers(0, 3)), int(rng.choice([0, 1, 5, 50, 5000]))
    if its and k % 3 == 0:  # Started again from an earlier iteration.
      cur = int(rng.choice(its))
    if rng.random() < 0.2:
      dur = 50
      dopamine_utils.clean_up_old_checkpoints(d, cur)
    else:
      dopamine_utils.clean_up_old_checkpoints(d, cur, checkpoint_duration=dur)
    left = sorted(os.listdir(d))
    ctx.check(left == sorted(junk + [f'checkpoint_{i:05d}.pkl' for i in its if i >= cur - dur]),
              'clean-up removed the wrong files', left=left, iterations=its, now=cur, duration=dur)
    ctx.ev(('discovery', len(its), len(junk), dur, want > 99999))
    shutil.rmtree(d)
  # save/load with plain bundling functions.
  for k in range(ctx.n(20, 100)):
    d = os.path.join(ctx.scratch, f'plain{k}', 'x')
    it = int(rng.integers(0, 200000))
    bundle = dict(a=rng.normal(size=5), b=[1, 'x', None])
    seen = []
    dopamine_utils.save_checkpoint(d, it, lambda *a: seen.append(a) or bundle)
    dopamine_utils.load_checkpoint(d, it, lambda *a: seen.append(a) or bool(rng.random() < .5))
    ctx.check(len(seen) == 2 and seen[0] == (d, it) and seen[1][:2] == (d, it)
              and np.array_equal(seen[1][2]['a'], bundle['a']) and seen[1][2]['b'] == bundle['b'],
              'a bundle is not handed back as it was', iteration=it)
    dopamine_utils.save_checkpoint(d, it + 1, lambda *a: None)
    ctx.check(dopamine_utils.get_latest_checkpoint(d) == it, 'a refused bundle left a checkpoint')
    dopamine_utils.load_checkpoint(d, it + 1, lambda *a: ctx.check(False, 'a missing checkpoint was unbundled'))
    ctx.ev(('plain', it > 99999))


def without(ctx):
  """Agents that keep no checkpoints say so, and start from nothing."""
  rng = ctx.rng
  for kind in ('random', 'random_walk', 'station_seeker', 'mlp'):
    d = os.path.join(ctx.scratch, f'none_{kind}')
    for k in range(3):
      ag = learn.make('mlp', 4, 1, layers=2, hidden=5) if kind == 'mlp' else run_helpers.create_agent(kind, 3, (1099,))
      ctx.check(ag.reload_latest_checkpoint(d) == -1, 'an agent without checkpoints restored one', agent=kind)
      if k:
        ag.save_checkpoint(d, int(rng.integers(0, 9)))
        ctx.check(ag.reload_latest_checkpoint(d) == -1, 'an agent without checkpoints restored one', agent=kind)
      ag.load_checkpoint(d, k)
      ctx.check(not os.path.exists(d) or not os.listdir(d), 'an agent without checkpoints wrote one', agent=kind)
      ctx.ev(('without', kind))
    ctx.count('without')


def first_and_broken(ctx):
  """A checkpoint of iteration 0 counts; one that cannot be understood is none."""
  rng = ctx.rng
  for kind in ('dqn', 'quantile'):
    d = os.path.join(ctx.scratch, f'first_{kind}')
    a = fresh(kind, int(rng.integers(2**31)))
    drive(a, np.random.default_rng(1), 30)
    a.save_checkpoint(d, 0)
    b = fresh(kind, int(rng.integers(2**31)))
    ctx.check(b.reload_latest_checkpoint(d) == 0, 'a checkpoint of iteration 0 is not found', agent=kind)
    ctx.check(differs(state(a), state(b)) is None, 'a checkpoint of iteration 0 is not restored', what=differs(state(a), state(b)), agent=kind)
    with open(os.path.join(d, 'checkpoint_00007.pkl'), 'wb') as f:
      f.write(b'\x80\x63.')  # An unknown pickle protocol.
    c = fresh(kind, int(rng.integers(2**31)))
    s = state(c)
    got = c.reload_latest_checkpoint(d)
    ctx.check(got in (-1, 0), 'a checkpoint that cannot be understood was restored', got=got, agent=kind)
    if got == 0:  # The one before it, whole.
      s = state(a)
    ctx.check(differs(s, state(c)) is None, 'a checkpoint that cannot be understood changed the agent', what=differs(s, state(c)), agent=kind)
    ctx.ev(('first', kind))
    ctx.count('first')


def run(ctx):
  first_and_broken(ctx)
  without(ctx)
  discovery(ctx)
  runs(ctx)
  crashes(ctx)
  for n, m in (('restarts', 5), ('older', 3), ('crash_points', 40), ('recovered', 20)):
    ctx.require(n, m)
