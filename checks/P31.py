"""P31: episode conditions are sampled inside their documented domains."""
import datetime as dt

import jax
import numpy as np
from balloon_learning_environment.env.balloon import standard_atmosphere
from balloon_learning_environment.utils import sampling
from balloon_learning_environment.utils import units
from vp import sim

RULE = 'one evaluation = one sample; distinct by (quantity, value bucket)'
ASSUMPTIONS = ['spread checks are deterministic for a given VERIF_SEED; their '
               'limits are 5 standard errors or more wide']

# Lengths, in seconds, of the time ranges asked for.
RANGES = (1, 2, 60, 3600, 86399, 86400, 155520, 10**6, 40 * 86400 + 80000)


def run(ctx):
  rng = ctx.rng
  n = ctx.n(1200, 6000)
  t0, t1 = dt.datetime(2011, 1, 1, tzinfo=dt.timezone.utc), dt.datetime(2014, 12, 31, tzinfo=dt.timezone.utc)
  lats, lngs, times, ps, pq, irs, ivs = [], [], [], [], [], [], []
  parts = {w: [] for w in RANGES}
  atms = [sim.atmosphere(rng) for _ in range(5)]
  floors = [float(a.at_height(units.Distance(feet=50_000)).pressure) for a in atms]
  for i in range(n):
    key = jax.random.PRNGKey(int(rng.integers(2**31)))
    ll = sampling.sample_location(key)
    la, lo = ll.lat().degrees, ll.lng().degrees
    ctx.check(-10 - 1e-6 <= la <= 10 + 1e-6 and -175 - 1e-6 <= lo <= 175 + 1e-6, 'location outside the domain', lat=la, lng=lo)
    t = sampling.sample_time(key)
    ctx.check(t0 <= t < t1 and t.utcoffset() == dt.timedelta(0), 'time outside the domain', t=str(t))
    p = sampling.sample_pressure(key)
    ctx.check(6500 <= p <= 11400 and isinstance(p, float), 'pressure outside the domain', p=p)
    a = i % 5
    q = sampling.sample_pressure(key, atms[a])
    ctx.check(6500 <= q <= floors[a] * (1 + 1e-6) and isinstance(q, float), 'pressure below the altitude floor', p=q, floor=floors[a])
    lats.append(la), lngs.append(lo), times.append((t - t0).total_seconds()), ps.append(p), pq.append((q - 6500) / (floors[a] - 6500))
    if i % 2 == 0:
      b = t0 + dt.timedelta(seconds=int(rng.integers(10**9)))
      w = int(RANGES[(i // 2) % len(RANGES)])
      e = b + dt.timedelta(seconds=w)
      u = sampling.sample_time(key, b, e)
      parts[w].append((u - b).total_seconds())
      ctx.check(b <= u < e, 'time outside the given range', t=str(u), begin=str(b), end=str(e))
    if i % 3 == 0:
      ir = sampling.sample_upwelling_infrared(key)
      ctx.check(225.0 <= ir <= 315.0 and isinstance(ir, float), 'infrared outside [225, 315]', ir=ir)
      ctx.check(ir == sampling.sample_upwelling_infrared(key, 'logit_normal'), 'logit_normal is not the default')
      irs.append(ir)
    if i % 3 == 1:
      iv = sampling.sample_upwelling_infrared(key, 'inverse_lognormal')
      ctx.check(225.0 <= iv <= 301.0 and isinstance(iv, float), 'inverse_lognormal infrared outside [225, 301]', ir=iv)
      ivs.append(iv)
    if i % 10 == 0:
      # Functions of the key alone.
      l2 = sampling.sample_location(key)
      ctx.check((l2.lat().degrees, l2.lng().degrees) == (la, lo) and sampling.sample_time(key) == t and
                sampling.sample_pressure(key) == p and sampling.sample_pressure(key, atms[a]) == q, 'a sample is not a function of its key')
      if i % 30 == 0:
        ctx.check(sampling.sample_upwelling_infrared(key) == ir, 'infrared is not a function of its key')
      ctx.count('repeated')
    ctx.ev(('loc', int(la), int(lo // 20)))
    ctx.ev(('time', t.year, t.month))
    ctx.ev(('p', int(p // 200)))
  # An atmosphere that was set anew is another one: the floor is its floor as
  # it is now.
  for _ in range(ctx.n(30, 300)):
    k1, k2, key = (jax.random.PRNGKey(int(rng.integers(2**31))) for _ in range(3))
    a = standard_atmosphere.Atmosphere(k1)
    first = sampling.sample_pressure(key, a)
    a.reset(k2)
    got = sampling.sample_pressure(key, a)
    want = sampling.sample_pressure(key, standard_atmosphere.Atmosphere(k2))
    ctx.check(got == want, 'the pressure sampled in an atmosphere that was reset is not the one of that atmosphere', got=got, want=want, before=first)
    a.reset(k1)
    ctx.check(sampling.sample_pressure(key, a) == first, 'the pressure sampled is not a function of key and atmosphere', want=first)
    ctx.count('atmosphere_reset', first != want)
  ctx.require('atmosphere_reset', 10)
  # They cover their domains evenly (chi-square-like bounds on deciles).
  for name, v, lo, hi in (('latitude', lats, -10, 10), ('longitude', lngs, -175, 175),
                          ('time', times, 0, (t1 - t0).total_seconds()), ('pressure', ps, 6500, 11400),
                          ('pressure above the floor', pq, 0, 1)):
    h = np.histogram((np.array(v) - lo) / (hi - lo), 10, (0, 1))[0] / len(v)
    ctx.check(np.all(np.abs(h - 0.1) < 6 * np.sqrt(0.09 / len(v))), f'{name} is not uniform', deciles=h)
  # Given ranges, whole days or not, are covered from end to end. The limits
  # are those of samples on whole seconds.
  for w, v in parts.items():
    b = t0 + dt.timedelta(seconds=int(rng.integers(10**8)))
    while len(v) < ctx.n(400, 2000):
      u = sampling.sample_time(jax.random.PRNGKey(int(rng.integers(2**31))), b, b + dt.timedelta(seconds=w))
      v.append((u - b).total_seconds())
      ctx.check(0 <= v[-1] < w, 'time outside the given range', t=str(u), begin=str(b), seconds=w)
    v = np.array(v) / w
    k = min(w, 4)
    h = np.histogram(v, k, (0, 1))[0] / len(v)
    ctx.check(np.all(np.abs(h - 1 / k) < 0.01 + 6 * np.sqrt((k - 1) / len(v)) / k),
              'a given time range is not covered evenly', seconds=w, quarters=h)
    ctx.ev(('range', w))
  ctx.check(abs(np.corrcoef(lats, lngs)[0, 1]) < 0.2, 'latitude and longitude are correlated')
  irs, ivs = np.array(irs), np.array(ivs)
  ctx.sample({'logit_normal': [irs.mean(), irs.std(), irs.min(), irs.max()],
              'inverse_lognormal': [ivs.mean(), ivs.std(), ivs.min(), ivs.max()]})
  ctx.check(len(np.unique(ivs)) > 0.98 * len(ivs) and ivs.std() > 3, 'inverse_lognormal infrared does not vary', std=ivs.std())
  ctx.check(len(np.unique(irs)) > 1, 'logit_normal infrared is constant')
  top = float((irs > 314.9).mean())
  if irs.std() < 5 or top > 0.5:
    # The scale of the logit-normal is 315, so all but a few samples are 315.
    if top < 0.9:
      ctx.check(False, 'logit_normal infrared does not vary', std=irs.std(), top=top)
    ctx.known('infrared-all-but-constant', 'logit_normal infrared is all but constant', std=irs.std(), at_upper_end=top)
  for bad in ('normal', '', 'lognormal', None):
    ctx.raises(lambda: sampling.sample_upwelling_infrared(jax.random.PRNGKey(1), bad), ValueError, 'bad distribution accepted', name=bad)
  ctx.count('samples', n)
  ctx.require('repeated', 50)
