"""P29: feature transforms are bounded, monotone and invertible."""
import numpy as np
from balloon_learning_environment.utils import transforms as tr

RULE = ('one evaluation = one transform of a scalar or array; distinct by '
        '(transform, region, interval magnitude, kind)')


def run(ctx):
  rng = ctx.rng
  for k in range(ctx.n(8000, 100000)):
    lo = float(rng.normal(0, 10**rng.uniform(-2, 4)))
    w = float(10**rng.uniform(-2, 4))
    hi = lo + w
    w = hi - lo
    if w <= 0:
      continue
    y = float(rng.choice([rng.uniform(0, 1), rng.uniform(-3, 4), 0.0, 1.0]))
    x = lo + y * w
    info = dict(x=x, lo=lo, hi=hi)
    tol = 1e-9 + 1e-12 * (abs(lo) + abs(x)) / w
    got = tr.linear_rescale_with_extrapolation(x, lo, hi)
    ctx.close(got, y, 'linear rescale', 1e-9, tol, **info)
    ctx.close(tr.undo_linear_rescale_with_extrapolation(got, lo, hi), x, 'undo of linear rescale', 1e-9, 1e-9 * (w + abs(lo)), **info)
    s = tr.linear_rescale_with_saturation(x, lo, hi)
    ctx.check(isinstance(s, float) and 0.0 <= s <= 1.0, 'saturated value outside [0, 1]', got=s, **info)
    ctx.close(s, min(1.0, max(0.0, y)), 'saturating rescale', 1e-9, tol, **info)
    ctx.close([tr.linear_rescale_with_saturation(v, lo, hi) for v in (lo, hi, lo - w, hi + w)], [0, 1, 0, 1], 'ends of the interval', 0, 1e-12, **info)
    arr = lo + w * rng.uniform(-2, 3, int(rng.integers(1, 6)))
    keep = arr.copy()
    ctx.close(tr.linear_rescale_with_extrapolation(arr, lo, hi), (arr - lo) / w, 'linear rescale of an array', 1e-9, tol, **info)
    ctx.check(np.array_equal(arr, keep), 'the argument was changed')
    # Squash.
    c = float(10**rng.uniform(-2, 4))
    x = float(rng.choice([0.0, c, c * 10**rng.uniform(-8, 4), c * 10**rng.uniform(4, 12)]))
    q = tr.squash_to_unit_interval(x, c)
    ctx.check(0.0 <= q < 1.0, 'squash outside [0, 1)', x=x, c=c, q=q)
    ctx.close(q, x / (x + c), 'squash', 1e-12, 0, x=x, c=c)
    tiny = c * float(10**rng.uniform(-30, -8))
    qq = [tr.squash_to_unit_interval(v, c) for v in (tiny, tiny * (1 + 1e-6))]
    ctx.close(qq, [tiny / (tiny + c), tiny * (1 + 1e-6) / (tiny * (1 + 1e-6) + c)], 'squash of a tiny value', 1e-12, 0, x=tiny, c=c)
    ctx.check(0 < qq[0] < qq[1], 'squash is not increasing near zero', x=tiny, c=c)
    ctx.close(tr.undo_squash_to_unit_interval(q, c), x, 'undo of squash',
              1e-9 + 1e-15 * x / c, 1e-15 * c, x=x, c=c)  # q is 1 - c/x rounded.
    ctx.check(tr.squash_to_unit_interval(x * 1.01 + c * 1e-9, c) > q, 'squash is not increasing', x=x, c=c)
    arr = np.abs(rng.normal(0, c, int(rng.integers(1, 6))))
    ctx.close(tr.squash_to_unit_interval(arr, c), arr / (arr + c), 'squash of an array', 1e-12, 0)
    # Refusals.
    if k % 10 == 0:
      neg = -float(10**rng.uniform(-9, 3))
      for f in (tr.linear_rescale_with_extrapolation, tr.undo_linear_rescale_with_extrapolation, tr.linear_rescale_with_saturation):
        ctx.raises(lambda: f(x, hi, lo), ValueError, 'reversed interval accepted', f=f.__name__, lo=hi, hi=lo)
        ctx.raises(lambda: f(x, lo, lo), ValueError, 'empty interval accepted', f=f.__name__, lo=lo)
      ctx.raises(lambda: tr.squash_to_unit_interval(neg, c), ValueError, 'negative value squashed', x=neg)
      mixed = np.append(arr, neg)
      rng.shuffle(mixed)
      ctx.raises(lambda: tr.squash_to_unit_interval(mixed, c), ValueError, 'array with a negative value squashed', x=mixed)
      for cc in (0, 0.0, neg):
        ctx.raises(lambda: tr.squash_to_unit_interval(x, cc), ValueError, 'bad squash constant accepted', c=cc)
        ctx.raises(lambda: tr.undo_squash_to_unit_interval(q, cc), ValueError, 'bad squash constant accepted', c=cc)
      for v in (neg, 1.0, 1.0 - neg):
        ctx.raises(lambda: tr.undo_squash_to_unit_interval(v, c), ValueError, 'value outside [0, 1) unsquashed', x=v)
      ctx.count('refused')
    ctx.ev(('t', y < 0, y > 1, int(np.log10(w)), int(np.log10(c)), x == 0, x > 1e4 * c))
  # Arrays of every size and shape, as they came; what is given is not touched.
  for k in range(ctx.n(120, 1200)):
    shape = [(1,), (7,), (63,), (64,), (65,), (361,), (1099,), (181, 2), (5, 7, 9), (300, 300), (0,)][k % 11]
    dtype = [np.float64, np.float32][(k // 11) % 2]
    lo, w, c = float(rng.normal(0, 100)), float(10**rng.uniform(-1, 3)), float(10**rng.uniform(-2, 4))
    x = (lo + w * rng.uniform(-2, 3, shape)).astype(dtype)
    y = np.abs(rng.normal(0, c, shape)).astype(dtype)
    if k % 5 == 0:
      x, y = x[::-1], np.asfortranarray(y)
    keep = x.copy(), y.copy()
    rt = 1e-9 if dtype is np.float64 else 1e-4 * (1 + abs(lo) / w)
    for rep in range(2):
      a = tr.linear_rescale_with_extrapolation(x, lo, lo + w)
      b = tr.squash_to_unit_interval(y, c)
      back = tr.undo_linear_rescale_with_extrapolation(a, lo, lo + w)
      info = dict(shape=shape, dtype=dtype.__name__, repeat=rep)
      ctx.check(np.array_equal(x, keep[0]) and np.array_equal(y, keep[1]), 'the argument was changed', **info)
      ctx.check(not (np.shares_memory(a, x) or np.shares_memory(b, y)), 'the result lies in the argument', **info)
      ctx.check(a.shape == b.shape == back.shape == shape, 'the shape of the result', **info)
      f = lambda v: v.astype(np.float64)
      ctx.close(a, (f(keep[0]) - lo) / w, 'linear rescale of an array', rt, rt, **info)
      ctx.close(back, f(keep[0]), 'undo of linear rescale of an array', rt, rt * (w + abs(lo)), **info)
      ctx.close(b, f(keep[1]) / (f(keep[1]) + c), 'squash of an array', max(1e-12, rt if dtype is np.float32 else 0), 1e-300, **info)
    ctx.ev(('array', shape, dtype.__name__))
    ctx.count('arrays')
  ctx.require('arrays', 100)
  ctx.require('refused', 100)
