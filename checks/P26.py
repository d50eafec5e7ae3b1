"""P26: the Gaussian process corrects the forecast by the measurements."""
import datetime as dt

import jax
import numpy as np
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env import wind_gp
from balloon_learning_environment.utils import units
from vp import envs, sim

RULE = ('one evaluation = one query; distinct by (measurement count bucket, '
        'stale share, how close the nearest measurement is, forecast)')
ASSUMPTIONS = ['a query before any measurement returns the forecast; its '
               'uncertainty value is not claimed',
               'no measurements within 1 s of the six-hour limit, except exactly on it']
SCALE = np.array([357000.0, 357000.0, 326.0, 34560.0])
H6 = 6 * 3600.0


def uv(w):
  return np.array([w.u.mps, w.v.mps], dtype=float)


def args(q):
  return units.Distance(m=float(q[0])), units.Distance(m=float(q[1])), float(q[2]), dt.timedelta(seconds=float(q[3]))


def posterior(X, E, q):
  """Exponential-kernel regression in float64, for points of one time."""
  if not len(X):
    return np.zeros((len(q), 2)), np.ones(len(q))
  X, E = np.array(X), np.array(E)
  keep = np.abs(X[:, 3] - q[0, 3]) < H6
  X, E = X[keep] / SCALE, E[keep]
  if not len(X):
    return np.zeros((len(q), 2)), np.ones(len(q))
  q = q / SCALE
  d = lambda a, b: np.sqrt(((a[:, None, :] - b[None, :, :])**2).sum(-1))
  K = 12.96 * np.exp(-d(X, X)) + 0.05 * np.eye(len(X))
  ks = 12.96 * np.exp(-d(q, X))
  return ks @ np.linalg.solve(K, E), 1 - np.einsum('ij,ji->i', ks, np.linalg.solve(K, ks.T)) / 12.96


def marathon(ctx, rng):
  """Thousands of measurements, one per step; each still counts in its time."""
  wf = wind_field.SimpleStaticWindField()
  gp, X, E = wind_gp.WindGP(wf), [], []
  for i in range(ctx.n(2200, 4000)):
    x = np.array([rng.normal(0, 3e4), rng.normal(0, 3e4), rng.uniform(6000, 13000), 180.0 * i])
    e = rng.normal(0, 4, 2)
    gp.observe(*args(x), sim.wind(*(uv(wf.get_forecast(*args(x))) + e)))
    X.append(x)
    E.append(e)
  for j in (len(X) - 1, 5, len(X) // 2, 130, 1000, int(rng.integers(len(X)))):
    # The oldest (and newest) are exactly six hours away: no longer counted.
    q = np.array([rng.normal(0, 3e4), rng.normal(0, 3e4), rng.uniform(6000, 13000), 180.0 * j])
    if j % 2:
      q[:3] = X[max(j - 120, 0)][:3]
    m, u = gp.query(*args(q))
    w, wu = posterior(X, E, q[None])
    ctx.close(m, w[0] + uv(wf.get_forecast(*args(q))), 'a wind of a long history', 1e-6, 2e-5, step=j)
    ctx.close(u, wu[0], 'an uncertainty of a long history', 1e-6, 1e-6, step=j)
    ctx.count('marathon')
    ctx.ev(('marathon', j))


def run(ctx):
  rng = ctx.rng
  marathon(ctx, ctx.sub_rng('marathon'))
  ctx.require('marathon', 6)
  grid = envs.grid_field()
  static = wind_field.SimpleStaticWindField()
  for k in range(ctx.n(60, 600)):
    name, wf = (('static', static), ('grid', grid))[k % 2]
    wf.reset(jax.random.PRNGKey(int(rng.integers(2**31))), dt.datetime(2012, 1, 1, tzinfo=dt.timezone.utc))
    gp = wind_gp.WindGP(wf)
    if k % 5 == 4:  # A process with a past.
      for _ in range(4):
        gp.observe(*args([0, 0, 9000, 3600 * rng.random()]), sim.wind(30, -30))
      gp.query(*args([0, 0, 9000, 60]))
      gp.reset(wf)
      ctx.count('reset')
    X, E, M = [], [], []
    t0 = float(rng.uniform(0, 40 if k % 3 else 2000) * 3600)
    q0 = np.array([rng.normal(0, 2e5), rng.normal(0, 2e5), rng.uniform(5500, 13500), t0])
    f = uv(wf.get_forecast(*args(q0)))
    m, _u = gp.query(*args(q0))
    ctx.close(m, f, 'no measurements, but not the forecast', 1e-6, 1e-5, field=name)
    n = 300 if k % 12 == 7 else int(rng.choice([1, 2, 5, 20, 90]))
    if n == 300:
      ctx.count('long_history')
    last_u = None
    for i in range(n):
      kind = rng.random()
      if kind < 0.2 and X:  # repeated location
        x = np.array(X[int(rng.integers(len(X)))])
      elif kind < 0.6:
        x = q0 + np.array([rng.normal(0, 3e4), rng.normal(0, 3e4), rng.normal(0, 150), 0])
        x[3] = t0 - rng.uniform(0, H6 - 2)
      elif kind < 0.8:
        x = q0 + np.array([rng.normal(0, 4e5), rng.normal(0, 4e5), rng.normal(0, 2000), 0])
        x[3] = max(0, t0 + rng.choice([-1, 1]) * (H6 + rng.uniform(-600, 600)))
      else:
        x = q0 + np.array([rng.normal(0, 3e5), rng.normal(0, 3e5), rng.normal(0, 1500), 0])
        x[3] = max(0.0, t0 + rng.uniform(-30, 30) * 3600)
      x[2] = min(max(x[2], 4500), 14500)
      x[3] = max(0.0, x[3])
      if abs(abs(x[3] - t0) - H6) < 1:
        continue
      fc = uv(wf.get_forecast(*args(x)))
      e = rng.normal(0, 40 if k % 6 == 3 else 4, 2)
      gp.observe(*args(x), sim.wind(*(fc + e)))
      X.append(x)
      E.append(e)
      if i < 6 or i == n - 1:
        qs = np.repeat(q0[None], 7, 0)
        qs[1:, 2] = rng.uniform(5000, 14000, 6)
        before = qs.copy()
        means, us = gp.query_batch(qs)
        ctx.check(np.array_equal(qs, before), 'a query changed its argument')
        ctx.check(means.shape == (7, 2) and us.shape == (7,), 'shape of the answer', means=means.shape, u=us.shape)
        want, wu = posterior(X, E, qs)
        fcs = np.array([uv(wf.get_forecast(*args(q))) for q in qs])
        stale = float(np.mean([abs(x[3] - t0) >= H6 for x in X]))
        near = float(min(np.sqrt((((x - q0) / SCALE)**2).sum()) for x in X))
        info = dict(field=name, n=len(X), stale=stale, nearest=near)
        ctx.close(means, want + fcs, 'the wind is not forecast plus posterior correction', 1e-6, 2e-5, **info)
        ctx.close(us, wu, 'the uncertainty is not the posterior variance fraction', 1e-6, 1e-6, **info)
        ctx.check(np.all(us > 0) and np.all(us <= 1 + 1e-9), 'uncertainty outside (0, 1]', u=us, **info)
        m1, u1 = gp.query(*args(q0))
        ctx.close(m1, means[0], 'query differs from query_batch', 1e-9, 1e-6, **info)
        ctx.close(u1, us[0], 'query differs from query_batch', 1e-9, 1e-9, **info)
        # One coordinate of the question changed at a time, and back.
        for mv in ([0, 0, 400., 0], [5e4, 0, 0, 0], [0, -5e4, 0, 0], [0, 0, 0, 1800.], [0, 0, 0, 86400.])[i % 2::2]:
          r = q0 + np.array(mv)
          if len(X) and min(abs(abs(x_[3] - r[3]) - H6) for x_ in X) < 1:
            continue
          m2, u2 = gp.query(*args(r))
          w2, wu2 = posterior(X, E, r[None])
          ctx.close(m2, w2[0] + uv(wf.get_forecast(*args(r))), 'a question like the one before', 1e-6, 2e-5, moved=mv, **info)
          ctx.close(u2, wu2[0], 'a question like the one before', 1e-6, 1e-6, moved=mv, **info)
          qs2 = qs.copy()
          qs2[:, :2] += np.array(mv[:2])
          qs2[:, 3] += mv[3]
          m2, u2 = gp.query_batch(qs2)
          w2, wu2 = posterior(X, E, qs2)
          ctx.close(m2, w2 + np.array([uv(wf.get_forecast(*args(q))) for q in qs2]), 'a column like the one before', 1e-6, 2e-5, moved=mv, **info)
          ctx.close(u2, wu2, 'a column like the one before', 1e-6, 1e-6, moved=mv, **info)
          ctx.count('neighbours')
        if stale == 1.0:
          ctx.close(means, fcs, 'stale measurements still count', 1e-6, 1e-5, **info)
          ctx.close(us, np.ones(7), 'stale measurements reduce uncertainty', 0, 1e-9, **info)
          ctx.count('all_stale')
        if last_u is not None:
          ctx.check(us[0] <= last_u + 1e-9, 'a measurement made the wind less certain', before=last_u, u=us[0], **info)
        last_u = us[0]
        ctx.count(name)
        if 0 < stale < 1:
          ctx.count('some_stale')
        if near < 0.3:
          ctx.count('near')
        ctx.ev((name, len(X), int(stale * 4), int(near * 10)))
    if not X:
      continue
    # The order of measurements does not matter.
    gp2 = wind_gp.WindGP(wf)
    for i in rng.permutation(len(X)):
      gp2.observe(*args(X[i]), sim.wind(*(uv(wf.get_forecast(*args(X[i]))) + E[i])))
    a, b = gp.query(*args(q0)), gp2.query(*args(q0))
    ctx.close(b[0], a[0], 'the order of measurements matters', 1e-6, 2e-5)
    ctx.close(b[1], a[1], 'the order of measurements matters', 1e-6, 1e-7)
    # Asking about another time and coming back changes nothing.
    gp.query(*args(q0 + np.array([0, 0, 0, 50 * 3600.0])))
    c = gp.query(*args(q0))
    ctx.close(c[0], a[0], 'a query about another time disturbs later queries', 1e-9, 1e-9)
    ctx.close(c[1], a[1], 'a query about another time disturbs later queries', 1e-9, 1e-9)
    # Ask in the past: those measurements count again.
    back = q0.copy()
    back[3] = X[0][3]
    m, u = gp.query(*args(back))
    w, wu = posterior(X, E, back[None])
    ctx.close(m, w[0] + uv(wf.get_forecast(*args(back))), 'a query into the past', 1e-6, 2e-5)
    ctx.close(u, wu[0], 'a query into the past', 1e-6, 1e-6)
    # Reset forgets, also when it is given the forecast it has (which the next
    # episode may have reset in place).
    again = wind_gp.WindGP(wf)
    for x, e in list(zip(X, E))[:3]:
      again.observe(*args(x), sim.wind(*(uv(wf.get_forecast(*args(x))) + e)))
    again.reset(wf)
    m, u = again.query(*args(q0))
    ctx.close(m, uv(wf.get_forecast(*args(q0))), 'reset with the same forecast does not forget', 1e-6, 1e-5)
    # Reset forgets, and takes the new forecast.
    other = static if wf is grid else grid
    other.reset(jax.random.PRNGKey(5), dt.datetime(2012, 1, 1, tzinfo=dt.timezone.utc))
    gp.reset(other)
    m, _u = gp.query(*args(q0))
    ctx.close(m, uv(other.get_forecast(*args(q0))), 'reset does not forget', 1e-6, 1e-5)
    gp.observe(*args(q0), sim.wind(*(uv(other.get_forecast(*args(q0))) + 3)))
    m, u = gp.query(*args(q0))
    w, wu = posterior([q0], [np.array([3., 3.])], q0[None])
    ctx.close(m, w[0] + uv(other.get_forecast(*args(q0))), 'reset does not forget', 1e-6, 2e-5)
    ctx.close(u, wu[0], 'reset does not forget', 1e-6, 1e-6)
    ctx.ev((name, 'episode', k))
  for c in ('static', 'grid', 'some_stale', 'all_stale', 'near', 'reset', 'neighbours'):
    ctx.require(c, 8)
