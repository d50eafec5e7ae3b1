"""P32: wind-column and wind-field statistics."""
import numpy as np
from balloon_learning_environment.utils import wind

RULE = ('one evaluation = one wind column or field; distinct by (kind, number '
        'of levels, origin inside, magnitude bucket)')


def inside(col):
  """(origin in hull?, margin): by the largest gap between bearings."""
  a = np.sort(np.arctan2(col[:, 1], col[:, 0]))
  gaps = np.diff(np.concatenate([a, [a[0] + 2 * np.pi]]))
  return gaps.max() < np.pi, abs(gaps.max() - np.pi)


def column(rng):
  n = int(rng.integers(3, 182))
  kind = rng.integers(5)
  if kind == 0:
    c = rng.normal(0, 10, (n, 2))
  elif kind == 1:  # One prevailing direction.
    c = rng.normal(0, 4, (n, 2)) + rng.normal(0, 10, 2)
  elif kind == 2:  # All within a half plane, wide fan.
    th0, w = rng.uniform(0, 2 * np.pi), rng.uniform(0.1, 1.9) * np.pi
    th = th0 + rng.uniform(0, w, n)
    c = np.stack([np.cos(th), np.sin(th)], 1) * rng.uniform(0.1, 30, (n, 1))
  elif kind == 3:  # A smooth spiral over the levels.
    th = rng.uniform(0, 7) + np.linspace(0, rng.uniform(0.5, 7), n)
    c = np.stack([np.cos(th), np.sin(th)], 1) * np.linspace(rng.uniform(1, 20), rng.uniform(1, 20), n)[:, None]
  else:  # Exactly three or four levels.
    n = int(rng.integers(3, 5))
    c = rng.normal(0, 10, (n, 2))
  return int(kind), c * 10.0 ** rng.uniform(-1, 1)


def clear_calm(c):
  """Is the calm level clearly a corner of the hull, or clearly inside?"""
  r = np.hypot(c[:, 0], c[:, 1])
  o = c[r > 0]
  if len(o) < 2 or r[r > 0].min() < 0.03 * r.max():
    return False
  a = np.sort(np.arctan2(o[:, 1], o[:, 0]))
  fan = 2 * np.pi - np.diff(np.concatenate([a, [a[0] + 2 * np.pi]])).max()
  return 0.2 < fan < np.pi - 0.2 or fan > np.pi + 0.2


def run(ctx):
  rng = ctx.rng
  for _ in range(ctx.n(3000, 60000)):
    kind, c = column(rng)
    want, margin = inside(c)
    area = np.linalg.svd(c - c.mean(0), compute_uv=False)[-1]
    if margin < 1e-4 or area < 1e-3 * np.abs(c).max():
      ctx.count('skipped_degenerate')
      continue
    ctx.current = dict(kind=kind, column=c)
    before = c.copy()
    got = wind.is_station_keeping_winds(c)
    ctx.check(bool(got) == bool(want), 'wrong station-keeping verdict', kind=kind,
              n=len(c), want=want, got=bool(got), column=c)
    ctx.check(np.array_equal(c, before), 'the column was modified')
    perm = rng.permutation(len(c))
    ctx.check(bool(wind.is_station_keeping_winds(c[perm])) == bool(want),
              'the verdict depends on the order of the levels', n=len(c), column=c)
    ctx.count('yes' if want else 'no')
    ctx.ev(('column', kind, len(c), bool(want), int(np.log2(np.abs(c).max()))))
  # One array, changed in place.
  buf = np.zeros((181, 2))
  for _ in range(ctx.n(600, 8000)):
    kind, c = column(rng)
    m = int(rng.integers(3, 20))
    c = c[:m] if len(c) >= m else np.concatenate([c, rng.normal(0, 5, (m - len(c), 2))])
    want, margin = inside(c)
    if margin < 1e-4 or np.linalg.svd(c - c.mean(0), compute_uv=False)[-1] < 1e-3 * np.abs(c).max():
      continue
    view = buf[:m]
    view[:] = c
    ctx.check(bool(wind.is_station_keeping_winds(view)) == bool(want), 'wrong verdict on an array used before', want=want, column=c)
    view[:] = c + np.abs(c).max() * 4  # Same array, all winds on one side.
    ctx.check(not wind.is_station_keeping_winds(view), 'wrong verdict on an array used before', column=view.copy())
    ctx.count('reused')
  # A calm level among the others: the origin is one of the winds.
  for _ in range(ctx.n(400, 6000)):
    kind, c = column(rng)
    c[int(rng.integers(len(c)))] = 0.0
    if rng.random() < .3:
      c = np.abs(c) * rng.choice([-1.0, 1.0], 2)  # All others on one side.
    if kind == 3 or not clear_calm(c):  # Slivers of smooth spirals: point location is up to rounding there.
      continue
    ctx.check(bool(wind.is_station_keeping_winds(c)), 'a calm level, yet the origin is outside', kind=kind, n=len(c), column=c)
    ctx.count('calm')
    ctx.ev(('calm', kind, len(c)))
  for _ in range(ctx.n(60, 600)):
    shape = tuple(int(k) for k in rng.integers(1, 8, 4)) + (2,)
    f = rng.normal(0, 10.0 ** rng.uniform(-1, 4 if rng.random() < .3 else 1.5), shape)
    if rng.random() < 0.3:
      f[rng.random(shape) < 0.3] = 0.0
    want = np.hypot(f[..., 0], f[..., 1])
    f32 = f.astype(np.float32)
    got = np.asarray(wind.wind_field_speeds(f32))
    ctx.check(got.shape == shape[:4], 'speeds have the wrong shape', shape=shape, got=got.shape)
    ctx.close(got, want, 'wrong wind speed', 3e-6, 1e-6, shape=shape)
    ctx.close(float(wind.mean_speed_in_wind_field(f32)), want.mean(), 'wrong mean speed', 1e-5, 1e-6, shape=shape)
    ctx.count('field')
    ctx.ev(('field', shape))
  ctx.require('yes', 300)
  ctx.require('no', 300)
  ctx.require('field', 20)
  ctx.require('calm', 50)
  ctx.require('reused', 50)
