"""P28: units convert, combine and compare like physical quantities."""
import datetime as dt
import math

import numpy as np
from balloon_learning_environment.utils import units

RULE = ('one evaluation = one law evaluated on random values; distinct by (law, '
        'magnitude buckets)')
D, V, E, W = units.Distance, units.Velocity, units.Energy, units.Power
MAKE = {'Distance': lambda v: D(m=v), 'Velocity': lambda v: V(mps=v),
        'Energy': lambda v: E(watt_hours=v), 'Power': lambda v: W(watts=v)}
GET = {'Distance': lambda q: q.meters, 'Velocity': lambda q: q.mps,
       'Energy': lambda q: q.watt_hours, 'Power': lambda q: q.watts}
T = 1e-12


def val(rng):
  return float(rng.choice([-1, 1]) * 10**rng.uniform(-3, 7)) if rng.random() < .95 else 0.0


def mag(v):
  return (v > 0) - (v < 0), int(math.log10(abs(v))) if v else None


def run(ctx):
  rng = ctx.rng
  for i in range(ctx.n(3000, 40000)):
    a, b, k = val(rng), val(rng), val(rng) or 1.0
    if i % 4 == 0:  # Nearly equal values.
      b = float(a + rng.choice([0, np.spacing(a), -np.spacing(a), 1e-12, -1e-10, 1e-10, -1e-7]))
      ctx.count('near_equal')
    for name in MAKE:
      mk, get = MAKE[name], GET[name]
      x, y = mk(a), mk(b)
      ctx.close(get(x + y), a + b, f'{name} sum', T, T, a=a, b=b)
      ctx.close(get(x - y), a - b, f'{name} difference', T, T, a=a, b=b)
      ctx.check(type(x + y) is type(x) and type(x - y) is type(x), f'{name} sum has another unit')
      ctx.check(get(x) == a and get(y) == b, f'{name}: arithmetic changed an operand')
      if name != 'Distance' and name != 'Velocity':
        ctx.check((x == y) == (a == b) and (x > y) == (a > b), f'{name} comparison', a=a, b=b)
      elif abs(a - b) > 1e-8:
        ctx.check(not x == y, f'{name} equality', a=a, b=b)
      eps = float(rng.choice([-1, 1])) * 1e-10
      if name in ('Distance', 'Velocity') and abs(a) < 1e4:
        ctx.check(x == mk(a + eps), f'{name}s within 1e-9 are not equal', a=a)
        ctx.check(not x == mk(a + 1e-8), f'{name}s 1e-8 apart are equal', a=a)
        ctx.check(not x != mk(a + eps) and x != mk(a + 1e-8), f'{name} != is not the opposite of ==', a=a)
      ctx.check(x == mk(a), f'{name} does not equal itself')
      ctx.ev((name, mag(a), mag(b)))
    # Distance.
    x, y = D(m=a), D(m=b)
    ctx.check((x < y, x <= y, x > y, x >= y) == (a < b, a <= b, a > b, a >= b), 'Distance order', a=a, b=b)
    ctx.check(x <= D(m=a) and x >= D(m=a) and not x < D(m=a) and not x > D(m=a), 'Distance order of equals', a=a)
    ctx.close([(x * k).m, (k * x).m, (x / k).m], [a * k, a * k, a / k], 'Distance scaling', T, T, a=a, k=k)
    n = int(rng.integers(1, 50))
    ctx.close([(x * n).m, (n * x).m, (x / n).m], [a * n, a * n, a / n], 'Distance scaling by an integer', T, T, a=a)
    if b:
      ctx.close(x / y, a / b, 'Distance ratio', T, T, a=a, b=b)
    ctx.close([x.m, x.meters, x.km, x.kilometers, x.feet], [a, a, a / 1000, a / 1000, a / 0.3048], 'Distance readout', T, T, a=a)
    ctx.close([D(m=a).m, D(meters=a).m, D(km=a).m, D(kilometers=a).m, D(feet=a).m],
              [a, a, a * 1000, a * 1000, a * 0.3048], 'Distance constructors', T, T, a=a)
    ctx.close(D(km=a, feet=b, m=k).m, a * 1000 + b * .3048 + k, 'Distance parts do not add', T, 1e-6, a=a, b=b)
    # Velocity and time.
    secs = int(rng.integers(1, 10**6)) * int(rng.choice([-1, 1, 1]))
    t = dt.timedelta(seconds=secs, microseconds=int(rng.integers(10**6)))
    s = t.total_seconds()
    if s:
      ctx.close((x / t).mps, a / s, 'velocity = distance / time', T, T, a=a, s=s)
      ctx.check(isinstance(x / t, V), 'distance / time is no velocity')
      ctx.close(((x / t) * t).m, a, 'distance / time * time', 1e-11, T, a=a, s=s)
    v = V(mps=a)
    ctx.close([(v * t).m, (t * v).m], [a * s, a * s], 'distance = velocity * time', T, T, a=a, s=s)
    ctx.check(isinstance(v * t, D), 'velocity * time is no distance')
    ctx.close((v / k).mps, a / k, 'Velocity scaling', T, T)
    ctx.close([v.mps, v.meters_per_second, v.kmph, v.kilometers_per_hour], [a, a, a * 3.6, a * 3.6], 'Velocity readout', T, T, a=a)
    ctx.close([V(mps=a).mps, V(meters_per_second=a).mps, V(kmph=a).mps, V(kilometers_per_hour=a).mps],
              [a, a, a / 3.6, a / 3.6], 'Velocity constructors', T, T, a=a)
    # Energy and power.
    e, w = E(watt_hours=a), W(watts=a)
    if b:
      ctx.close(e / E(watt_hours=b), a / b, 'Energy ratio', T, T)
    ctx.close([(e * k).watt_hours, (k * e).watt_hours], [a * k, a * k], 'Energy scaling', T, T)
    ctx.close([(w * t).watt_hours, (t * w).watt_hours], [a * s / 3600] * 2, 'energy = power * time', T, T, a=a, s=s)
    ctx.check(isinstance(w * t, E), 'power * time is no energy')
    ctx.check((e >= E(watt_hours=b)) == (a >= b) and e >= E(watt_hours=a), 'Energy >=', a=a, b=b)
    # Helpers.
    ctx.close(units.distance_to_degrees(x), a / 1000 / 111.0, 'distance_to_degrees', T, T)
    r = units.relative_distance(x, y)
    ctx.close(r.m, math.hypot(a, b), 'relative_distance', 1e-12, T, a=a, b=b)
    ctx.check(isinstance(r, D), 'relative_distance is no distance')
    ctx.close(units.timedelta_to_hours(t), s / 3600, 'timedelta_to_hours', T, T, s=s)
    ctx.close(units.seconds_to_hours(a), a / 3600, 'seconds_to_hours', T, T)
    ctx.ev(('time', mag(a), mag(s)))
  ctx.close([D().m, V().mps, E().watt_hours, W().watts], [0, 0, 0, 0], 'default quantity is not zero')
  # Mixed units are refused.
  qs = {n: MAKE[n](float(rng.uniform(1, 9))) for n in MAKE}
  for n, x in qs.items():
    for m, y in list(qs.items()) + [('float', 2.0), ('int', 3), ('str', 'x'), ('None', None)]:
      if m == n:
        continue
      ctx.raises(lambda: x + y, (NotImplementedError, TypeError), 'mixed sum', a=n, b=m)
      ctx.raises(lambda: x - y, (NotImplementedError, TypeError), 'mixed difference', a=n, b=m)
      if n != 'Distance':
        ctx.raises(lambda: x == y, ValueError, 'mixed comparison', a=n, b=m)
      if n in ('Energy', 'Power'):
        ctx.raises(lambda: x > y, ValueError, 'mixed comparison', a=n, b=m)
      if n == 'Energy':
        ctx.raises(lambda: x >= y, ValueError, 'mixed comparison', a=n, b=m)
      if m not in ('float', 'int'):
        ctx.raises(lambda: x * y, (NotImplementedError, TypeError), 'product of quantities', a=n, b=m)
        ctx.raises(lambda: x / y, (NotImplementedError, TypeError), 'quotient of quantities', a=n, b=m)
      ctx.count('refused')
      ctx.ev(('mixed', n, m))
  ctx.raises(lambda: qs['Velocity'] * 2.0, NotImplementedError, 'velocity times number')
  ctx.raises(lambda: qs['Power'] * 2.0, NotImplementedError, 'power times number')
  for c in MAKE:
    cls = type(MAKE[c](1.0))
    ctx.raises(lambda: cls(1.0), TypeError, 'a bare number was accepted as a quantity', unit=c)
  # Times carry UTC unless told otherwise.
  for _ in range(ctx.n(500, 5000)):
    ts = int(rng.integers(0, 2**32))
    u = units.datetime_from_timestamp(ts)
    ctx.check(u.tzinfo is not None and u.utcoffset() == dt.timedelta(0) and u.timestamp() == ts, 'datetime_from_timestamp', ts=ts)
    parts = (u.year, u.month, u.day, u.hour, u.minute, u.second)
    mus = int(rng.integers(10**6))
    w = units.datetime(*parts, mus)
    ctx.check(w.utcoffset() == dt.timedelta(0) and w == dt.datetime(*parts, mus, tzinfo=dt.timezone.utc), 'datetime', parts=parts)
    n = int(rng.integers(3, 6))
    ctx.check(units.datetime(*parts[:n]) == dt.datetime(*parts[:n], tzinfo=dt.timezone.utc), 'datetime defaults', parts=parts, n=n)
    z = dt.timezone(dt.timedelta(minutes=int(rng.integers(-700, 700))))
    f = int(rng.integers(2))
    w = units.datetime(*parts, tzinfo=z, fold=f)
    ctx.check(w.utcoffset() == z.utcoffset(None) and w.fold == f and w.replace(tzinfo=dt.timezone.utc, fold=0) == dt.datetime(*parts, tzinfo=dt.timezone.utc), 'datetime with a zone')
    ctx.ev(('when', u.year))
  ctx.require('refused', 20)
  ctx.require('near_equal', 100)
