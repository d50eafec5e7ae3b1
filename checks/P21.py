"""P21: sunrise, sunset, noon and midnight."""
import datetime as dt
import math

import s2sphere as s2
from balloon_learning_environment.env.balloon import solar
from vp import ref, sim

RULE = ('one evaluation = one query instant; distinct by (latitude band, '
        'month, quadrant of the solar day, search step)')
ASSUMPTIONS = [
    'the truth is a scan and bisection of the independent NOAA transcription',
    'allowed error: one search step plus 60 s (a result may be carried over '
    'from yesterday), 150 s beyond 30 and 390 s beyond 50 degrees; events within that margin of the query or of 24 h later '
    'may be reported on either side']
DAY = 86400.0


def secs(a, b):
  return (a - b).total_seconds()


def cyc(x):
  return abs((x + DAY / 2) % DAY - DAY / 2)


def truth(la, lo, t):
  """Seconds from t to the next sunrise, sunset, noon, midnight."""
  e = lambda s: ref.solar(la, lo, t + dt.timedelta(seconds=s))[0]
  step = 900
  el = [e(k * step) for k in range(97 + 2)] + [e(-step)]  # el[-1] is before t
  out = {}
  for k in range(98):
    a, b = el[k] - ref.MIN_EL, el[k + 1] - ref.MIN_EL
    if (a < 0) != (b < 0):
      lo_s, hi_s = k * step, (k + 1) * step
      while hi_s - lo_s > 1:
        m = (lo_s + hi_s) // 2
        if (e(m) - ref.MIN_EL < 0) == (a < 0):
          lo_s = m
        else:
          hi_s = m
      out.setdefault('rise' if a < 0 else 'set', hi_s)
    for name, sg in (('noon', 1), ('mid', -1)):
      if sg * el[k] >= sg * el[k - 1] and sg * el[k] > sg * el[k + 1] and name not in out:
        # Parabola through three points.
        y0, y1, y2 = el[k - 1], el[k], el[k + 1]
        when = k * step + step * 0.5 * (y0 - y2) / (y0 - 2 * y1 + y2)
        lo_s, hi_s = when - 300, when + 300
        while hi_s - lo_s > 3:
          m = (hi_s - lo_s) / 3
          if sg * e(lo_s + m) < sg * e(hi_s - m):
            lo_s += m
          else:
            hi_s -= m
        when = (lo_s + hi_s) / 2
        if when >= 0:
          out[name] = when
  for name in ('noon', 'mid'):
    out.setdefault(name, 0.0)
  return out, e


def judge(ctx, la, lo, t, step, w=None, e=None):
  if w is None:
    w, e = truth(la, lo, t)
  ll = s2.LatLng.from_degrees(la, lo)
  args = () if step == 180 else (dt.timedelta(seconds=step),)
  tol = step + 60 + (90 if abs(la) > 30 else 0) + (240 if abs(la) > 50 else 0)
  rise, sset = solar.get_next_sunrise_sunset(ll, t, *args)
  noon, noon_el = solar.get_next_solar_noon(ll, t, *args)
  mid, mid_el = solar.get_next_solar_midnight(ll, t, *args)
  got = dict(rise=secs(rise, t), set=secs(sset, t), noon=secs(noon, t), mid=secs(mid, t))
  info = dict(lat=la, lng=lo, time=str(t), step=step, got=got, want=w)
  for n, g in got.items():
    ctx.check(0 <= g <= DAY + tol, f'{n} is not in the next 24 hours', **info)
    ctx.check(cyc(g - w[n]) <= tol, f'{n} is at the wrong time', event=n, error_s=cyc(g - w[n]), **info)
    if tol < w[n] < DAY - tol:
      ctx.check(abs(g - w[n]) <= tol, f'{n} is not the next one', event=n, **info)
  ctx.close(noon_el, e(got['noon']), 'the elevation reported for noon is not that of the instant', 0, 2e-3, **info)
  ctx.close(mid_el, e(got['mid']), 'the elevation reported for midnight is not that of the instant', 0, 2e-3, **info)
  ctx.check(noon_el > mid_el, 'noon is darker than midnight', **info)
  el = e(0)
  day = el >= ref.MIN_EL
  clear = min(w['rise'], w['set'], DAY - w['rise'], DAY - w['set']) > tol
  if clear:
    ctx.check((sset < rise) == day, 'the order of sunrise and sunset contradicts daylight', el=el, **info)
  if abs(el - ref.MIN_EL) > 1e-6:
    n = solar.calculate_steps_to_sunrise(ll, t, *args)
    if day:
      ctx.check(n == 0, 'steps to sunrise during the day', n=n, **info)
      ctx.count('day')
    else:
      ctx.check(n == math.ceil(got['rise'] / step), 'steps to sunrise is not the rounded-up wait', n=n, **info)
      if clear:
        ctx.check(abs(n * step - w['rise']) <= tol + step, 'steps to sunrise is wrong', n=n, **info)
      ctx.count('night')
  if min(cyc(w['noon']), cyc(w['mid'])) > 300:
    after = w['mid'] < w['noon']
    ctx.check(solar.is_solar_afternoon(ll, t) == after, 'is_solar_afternoon is wrong', **info)
    ctx.count('afternoon' if after else 'morning')
  ctx.ev((int(la // 10), t.month, day, w['mid'] < w['noon'], step))
  return got


def run(ctx):
  rng = ctx.rng
  for k in range(ctx.n(900, 12000)):
    la = float(rng.uniform(-15, 15)) if k % 3 else float(rng.uniform(-60, 60))
    lo, t = float(rng.uniform(-180, 180)), sim.rand_time(rng)
    if k % 7 == 0:
      t = sim.rand_time(rng, 2001, 2040)
    if k % 6 == 0:  # The same instant, written in another zone.
      t = t.astimezone(dt.timezone(dt.timedelta(minutes=15 * int(rng.integers(-48, 57)))))
      ctx.count('zones')
    w, e = truth(la, lo, t)
    if k % 4 == 0:
      # Just around one of the events.
      ev = ('rise', 'set', 'noon', 'mid')[(k // 4) % 4]
      t += dt.timedelta(seconds=int(w[ev] + rng.normal(0, 400)))
      w, e = truth(la, lo, t)
    step = 180 if k % 5 else int(rng.choice([30, 60, 600]))
    got = judge(ctx, la, lo, t, step, w, e)
    if k % 12 == 5:
      step = 30
      got = judge(ctx, la, lo, t, step, w, e)
      # One argument changed at a time, and the same question again.
      moves = [(0, 0, 60, 0), (0, 0, 86400, 0), (0, 0, -43200, 0), (.45, 0, 0, 0), (0, .45, 0, 0), (0, 8, 0, 0), (-2 * la, 0, 0, 0), (0, 0, 0, 60)]
      for i in rng.permutation(len(moves))[:2]:
        m = moves[i]
        there = (max(-59., min(59., la + m[0])), (lo + m[1] + 180) % 360 - 180, t + dt.timedelta(seconds=m[2]), 60 if m[3] else step)
        got2 = judge(ctx, *there)
        # Each function on its own, alternating between the two questions.
        for n, fn in (('noon', lambda *a: solar.get_next_solar_noon(*a)[0]), ('mid', lambda *a: solar.get_next_solar_midnight(*a)[0]),
                      ('rise', lambda *a: solar.get_next_sunrise_sunset(*a)[0]), ('set', lambda *a: solar.get_next_sunrise_sunset(*a)[1])):
          for q, want in (((la, lo, t, step), got), (there, got2)):
            g = secs(fn(s2.LatLng.from_degrees(*q[:2]), q[2], dt.timedelta(seconds=q[3])), q[2])
            ctx.check(g == want[n], 'the answers depend on earlier questions', event=n, query=str(q), got=g, want=want[n])
        again = judge(ctx, la, lo, t, step, w, e)
        ctx.check(again == got, 'the answers depend on earlier questions', lat=la, lng=lo, time=str(t), got=got, again=again)
        ctx.count('neighbours')
  for la in (60.01, -60.5, 75.0, -89.0):
    ctx.raises(lambda: solar.get_next_sunrise_sunset(s2.LatLng.from_degrees(la, 5.0), sim.rand_time(rng)),
               (AssertionError, ValueError), 'a polar latitude was accepted', lat=la)
  for c in ('day', 'night', 'morning', 'afternoon', 'zones', 'neighbours'):
    ctx.require(c, 100)
