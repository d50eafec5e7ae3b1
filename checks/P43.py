"""P43: the dataset reservoir keeps training and evaluation fields apart."""
import os
import pickle

import jax.numpy as jnp
import numpy as np
from balloon_learning_environment.generative import dataset_wind_field_reservoir
from balloon_learning_environment.generative import wind_field_reservoir

RULE = ('one evaluation = one batch; distinct by (number of fields, eval batch size, batch size, number of the batch)')
ASSUMPTIONS = ['the JAX generator is trusted']
D = dataset_wind_field_reservoir.DatasetWindFieldReservoir


def dataset(rng, n):
  shape = (n,) + tuple(int(x) for x in rng.integers(1, 4, size=int(rng.integers(0, 4))))
  a = rng.normal(size=shape).astype(np.float32)
  a.reshape(n, -1)[:, 0] = np.arange(n)  # Every field carries its index.
  return a


def index(b):
  return np.asarray(b).reshape(b.shape[0], -1)[:, 0].astype(int)


def batches(ctx):
  rng = ctx.rng
  for k in range(ctx.n(16, 250)):
    n = int(rng.integers(2, 60)) if k % 4 else int(rng.integers(250, 400))
    e = int(rng.integers(1, n))
    if k % 8 == 4:
      e = int(rng.integers(150, 240))
    seed = int(rng.integers(2**31))
    a = dataset(rng, n)
    info = dict(fields=n, eval_batch_size=e, seed=seed)
    ctx.current = info
    given = jnp.asarray(a) if k % 2 else a.copy()
    r, r2 = D(given, e, seed), D(a.copy(), eval_batch_size=e, rng_seed=seed)
    ctx.check(isinstance(r, wind_field_reservoir.WindFieldReservoir), 'not a reservoir')
    sizes = [int(rng.integers(1, n - e + 1)) for _ in range(5)] + [n - e]
    twin_a = a[::-1].copy()  # Another dataset of the same shape, in use at the same time.
    twin, twin2 = D(twin_a, e, seed + 1), D(twin_a, e, seed + 1)
    other = [twin2.get_batch(s) for s in sizes]
    seen = set()
    for i, s in enumerate(sizes):
      b, b2 = r.get_batch(s), r2.get_batch(s)
      ctx.check(np.array_equal(np.asarray(twin.get_batch(s)), np.asarray(other[i])), 'another reservoir in use changes the batches', batch=i, **info)
      if rng.random() < .5:
        ctx.check(np.array_equal(np.asarray(twin.get_eval_batch()), twin_a[n - e:]), 'the evaluation batch is not that of its own dataset', batch=i, **info)
        ctx.count('twin')
      if rng.random() < .6:
        v = r.get_eval_batch()
        ctx.check(np.array_equal(np.asarray(v), a[n - e:]), 'the evaluation batch is not the last fields', batch=i, **info)
      ix = index(b)
      ctx.check(b.shape == (s,) + a.shape[1:], 'wrong batch shape', got=b.shape, size=s, **info)
      ctx.check(np.array_equal(np.asarray(b), a[ix]), 'a batch does not hold fields of the dataset', batch=i, **info)
      ctx.check(ix.max() < n - e, 'an evaluation field was used for training', batch=i, got=ix, **info)
      ctx.check(len(set(ix.tolist())) == s, 'a field comes twice in one batch', batch=i, got=ix, **info)
      ctx.check(np.array_equal(np.asarray(b), np.asarray(b2)), 'the same seed gives other batches', batch=i, **info)
      seen |= set(ix.tolist())
      ctx.ev((n, e, s, i))
      ctx.count('batches')
    ctx.check(seen == set(range(n - e)), 'some training field is never used', missing=sorted(set(range(n - e)) - seen), **info)
    ctx.check(np.array_equal(np.asarray(given), a), 'the dataset was modified', **info)
    ctx.raises(lambda: r.get_batch(n - e + 1), ValueError, 'more fields than there are', **info)
  # Defaults, variety and uniformity.
  a = dataset(rng, 40)
  r, o = D(a), D(a, rng_seed=1)
  ctx.check(r.get_eval_batch().shape[0] == 10, 'the default evaluation batch is not 10 fields')
  x, y = [[tuple(index(q.get_batch(10))) for _ in range(40)] for q in (r, o)]
  ctx.check(len(set(x)) == 40 and x != y, 'batches repeat or ignore the seed')
  m = 400
  cnt = np.zeros(30)
  for _ in range(m):
    cnt[index(r.get_batch(6))] += 1
  p = 6 / 30
  ctx.check(np.all(np.abs(cnt - m * p) < 6.5 * np.sqrt(m * p * (1 - p))), 'training fields are not equally likely', counts=cnt)
  ctx.count('uniform')


def files(ctx):
  rng = ctx.rng
  for k in range(ctx.n(2, 8)):
    d = os.path.join(ctx.scratch, f'data{k}')
    os.makedirs(d)
    parts = []
    n = 0
    shape = (2, 3)
    for i in range(200):
      m = int(rng.integers(1, 4))
      a = rng.normal(size=(m,) + shape).astype(np.float32)
      a[:, 0, 0] = np.arange(n, n + m)
      n += m
      parts.append(a)
    for i in rng.permutation(200):
      with open(os.path.join(d, f'batch{i:04d}.pickle'), 'wb') as f:
        pickle.dump(parts[i], f)
    a = np.concatenate(parts)
    e = int(rng.integers(1, 20))
    r, mem = D(d, e, 5), D(a, e, 5)
    ctx.check(np.array_equal(np.asarray(r.get_eval_batch()), a[-e:]), 'the files are not read in order')
    ix = np.sort(index(r.get_batch(n - e)))
    ctx.check(np.array_equal(ix, np.arange(n - e)), 'not every field of every file is used')
    mem.get_batch(n - e)
    for _ in range(3):
      s = int(rng.integers(1, n - e))
      ctx.check(np.array_equal(np.asarray(r.get_batch(s)), np.asarray(mem.get_batch(s))), 'files and memory give other batches')
    ctx.ev(('files', n, e))
    os.remove(os.path.join(d, f'batch{int(rng.integers(200)):04d}.pickle'))
    try:
      D(d, e)
    except Exception:  # pylint: disable=broad-except
      pass
    else:
      ctx.check(False, 'a missing file goes unnoticed')
    ctx.count('directories')


def run(ctx):
  batches(ctx)
  files(ctx)
  ctx.require('twin', 20)
  ctx.require('batches', 90)
  ctx.require('directories', 2)
