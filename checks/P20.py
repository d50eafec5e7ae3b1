"""P20: the position and strength of the sun."""
import datetime as dt
import math

import s2sphere as s2
from balloon_learning_environment.env.balloon import solar
from vp import ref, sim

RULE = ('one evaluation = one solar_calculator call; distinct by (latitude '
        'band, longitude band, year, month, hour, elevation band)')
ASSUMPTIONS = [
    'two oracles: an independent transcription of the NOAA equations (1e-7 '
    'deg), and the Astronomical Almanac formula (0.05 deg)',
    'azimuth is not compared within 0.5 deg of the zenith/nadir or 0.5 deg of '
    'the poles; elevations within 1e-6 deg of a refraction branch are skipped']


def angdiff(a, b):
  return abs((a - b + 180.0) % 360.0 - 180.0)


def point(ctx, la, lo, t, el_min=-91):
  ll = s2.LatLng.from_degrees(la, lo)
  el, az, flux = (float(v) for v in solar.solar_calculator(ll, t))
  rel, raz, rflux = ref.solar(la, lo, t)
  info = dict(lat=la, lng=lo, time=t.isoformat(), got=(el, az, flux), want=(rel, raz, rflux))
  ctx.check(math.isfinite(el) and math.isfinite(flux), 'non-finite sun', **info)
  gel, gaz = ref.almanac(la, lo, t)
  edge = min(abs(gel - e) for e in (85.0, 5.0, -0.575)) < 0.05 and \
      min(abs(rel - e) for e in (85.0, 5.0 + 0.16, -0.575 + 0.575)) < 0.2
  ctx.close(el, rel, 'elevation differs from the NOAA equations', 0, 0.002 if edge else 1e-6, **info)
  ctx.close(flux, rflux, 'solar flux differs from the NOAA equations', 1e-9, 1e-6, **info)
  ctx.check(1300 < flux < 1430, 'impossible solar flux', **info)
  lift = 0.0
  if gel > -60:
    lift = ref.refraction(gel)
  ctx.close(el, gel + lift, 'elevation differs from the almanac', 0, 0.05 if abs(gel) > 1.5 else 0.1, almanac=gel, **info)
  ctx.check(-90.01 <= el <= 90.01 and (0.0 <= az <= 360.0 or math.isnan(az)), 'angles out of range', **info)
  if abs(gel) < 89.5 and abs(la) < 89.5:
    ctx.close(angdiff(az, raz), 0, 'azimuth differs from the NOAA equations', 0, 2e-4 if abs(gel) < 89 else 1e-2, **info)
    ctx.close(angdiff(az, gaz), 0, 'azimuth differs from the almanac', 0,
              0.1 / max(0.02, math.cos(math.radians(gel))), almanac=gaz, **info)
    ctx.count('azimuth')
  ctx.count('up' if el > 0 else 'down')
  ctx.ev((int(la // 10), int(lo // 30), t.astimezone(ref.UTC).year, t.astimezone(ref.UTC).month,
          t.astimezone(ref.UTC).hour, int(el // 10)))
  return el, az, flux


def neighbours(ctx, rng):
  """One argument changed at a time, by little or by whole periods, and back."""
  sec = lambda s: dt.timedelta(seconds=s)
  for _ in range(ctx.n(60, 800)):
    la, lo, t = float(rng.uniform(-60, 60)), float(rng.uniform(-178, 178)), sim.rand_time(rng)
    if rng.random() < .5:
      t = t.replace(second=int(rng.integers(8)), microsecond=0)
    base = point(ctx, la, lo, t)
    moves = [(0, 0, sec(s)) for s in (1, 8, 50, -1, 60, 3600, 43200, 86400, -86400, 7 * 86400, 365 * 86400, 366 * 86400)]
    moves += [(d, 0, sec(0)) for d in (1e-4, .003, .03, -.3, 1., -2 * la)]
    moves += [(0, d, sec(0)) for d in (1e-4, -.003, .03, .3, 1., -2 * lo)]
    for i in rng.permutation(len(moves)):
      d = moves[i]
      point(ctx, la + d[0], lo + d[1], t + d[2])
      if rng.random() < .5:
        again = point(ctx, la, lo, t)
        ctx.check(again == base, 'the sun depends on earlier questions', lat=la, lng=lo, time=str(t), first=base, again=again)
      ctx.count('neighbours')


def run(ctx):
  rng = ctx.rng
  neighbours(ctx, ctx.sub_rng('near'))
  for k in range(ctx.n(6000, 80000)):
    la = float(rng.uniform(-12, 12)) if k % 2 else float(rng.uniform(-89.9, 89.9))
    lo = float(rng.uniform(-180, 180))
    t = sim.rand_time(rng) if k % 3 else sim.rand_time(rng, 1972, 2049)
    point(ctx, la, lo, t)
    if k % 5 == 0:
      # The instant matters, not the zone it is written in; nor microseconds.
      off = dt.timezone(dt.timedelta(minutes=int(rng.integers(-14 * 60, 14 * 60))))
      ll = s2.LatLng.from_degrees(la, lo)
      a = [float(v) for v in solar.solar_calculator(ll, t)]
      b = [float(v) for v in solar.solar_calculator(ll, t.astimezone(off))]
      ctx.close(b, a, 'the sun depends on the time zone the instant is written in', 1e-12, 1e-12,
                lat=la, lng=lo, time=t.isoformat(), zone=str(off))
      ctx.count('zones')
  # Special instants: midnights, month ends, leap days.
  for y in range(2008, 2017):
    for m, d in ((1, 1), (2, 28), (2, 29), (3, 1), (6, 21), (9, 30), (12, 31)):
      try:
        t = dt.datetime(y, m, d, tzinfo=ref.UTC)
      except ValueError:
        continue
      for h in (0, 11, 12, 23):
        for s in (0, 3599):
          point(ctx, float(rng.uniform(-60, 60)), float(rng.choice([-180, -90, 0, 90, 180])),
                t + dt.timedelta(hours=h, seconds=s))
  # Around the local noon and midnight the azimuth changes sides.
  for _ in range(ctx.n(60, 800)):
    la, lo, t = float(rng.uniform(-60, 60)), float(rng.uniform(-178, 178)), sim.rand_time(rng).replace(microsecond=0)
    side = lambda q: (ref.solar(la, lo, q)[1] % 360) < 180
    q = t
    while side(q) == side(q + dt.timedelta(hours=1)):
      q += dt.timedelta(hours=1)
    a, b = q, q + dt.timedelta(hours=1)
    while (b - a) > dt.timedelta(seconds=1):
      m = a + dt.timedelta(seconds=round((b - a).total_seconds() / 2))
      a, b = (m, b) if side(m) == side(a) else (a, m)
    for s in (-60, -20, -9, -4, -2, -1, 1, 2, 4, 9, 20, 60):
      point(ctx, la, lo, b + dt.timedelta(seconds=s))
    ctx.count('culmination')
  # Continuous in time and space.
  for _ in range(ctx.n(800, 8000)):
    la, lo, t = float(rng.uniform(-60, 60)), float(rng.uniform(-179.9, 179.9)), sim.rand_time(rng)
    e0 = float(solar.solar_calculator(s2.LatLng.from_degrees(la, lo), t)[0])
    e1 = float(solar.solar_calculator(s2.LatLng.from_degrees(la, lo), t + dt.timedelta(seconds=10))[0])
    ctx.check(abs(e1 - e0) < 0.1, 'the sun jumps', lat=la, lng=lo, time=str(t), e=(e0, e1))
  # Where the sun is exactly overhead (or underfoot): finite, and extreme.
  for k in range(ctx.n(300, 3000)):
    t = sim.rand_time(rng)
    # Invert: the subsolar point from two azimuth-free iterations.
    la, lo = 0.0, 0.0
    best = max(((ref.solar(a, o, t)[0], a, o) for a in range(-20, 21, 20) for o in range(-180, 180, 40)))
    la, lo, stepd = best[1], best[2], 20.0
    while stepd > 1e-7:
      moved = False
      for dla, dlo in ((stepd, 0), (-stepd, 0), (0, stepd), (0, -stepd)):
        e = ref.solar(la + dla, lo + dlo, t)[0] if abs(la + dla) < 90 else -90
        if e > ref.solar(la, lo, t)[0]:
          la, lo, moved = la + dla, lo + dlo, True
          break
      if not moved:
        stepd /= 2
    lo = (lo + 180) % 360 - 180
    for a, o, sign in ((la, lo, 1), (-la, (lo + 360) % 360 - 180, -1)):
      el, _, _ = solar.solar_calculator(s2.LatLng.from_degrees(a, o), t)
      ctx.check(math.isfinite(el) and abs(el - sign * 90) < 0.01, 'wrong elevation with the sun overhead',
                lat=a, lng=o, time=str(t), el=float(el))
    ctx.count('overhead')
    ctx.ev(('overhead', k))
  # Refusals.
  t = sim.rand_time(rng)
  for la, lo in ((90.1, 0), (-91, 0), (0, 181), (100, 200)):
    ctx.raises(lambda: solar.solar_calculator(s2.LatLng.from_degrees(la, lo), t), ValueError,
               'an invalid position was accepted', lat=la, lng=lo)
  ctx.raises(lambda: solar.solar_calculator(s2.LatLng.from_degrees(1, 2), t.replace(tzinfo=None)), ValueError,
             'a time without a zone was accepted')
  ctx.require('culmination', 50)
  for c in ('azimuth', 'up', 'down', 'zones', 'overhead', 'neighbours'):
    ctx.require(c, 100)
