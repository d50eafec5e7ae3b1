"""P30: positions follow great circles on the sphere."""
import copy
import math
import pickle

import s2sphere as s2
from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.utils import spherical_geometry as sg
from balloon_learning_environment.utils import units
from vp import ref, sim

RULE = ('one evaluation = one offset; distinct by (latitude band, longitude '
        'band, heading octant, distance decade)')
ASSUMPTIONS = ['from within 0.01 deg of a pole only the length of the offset is compared', 'positions to 0.5 m']
R = 6371.0


def unit(la, lo):
  la, lo = math.radians(la), math.radians(lo)
  return math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)


def separation(a, b):
  """Kilometres along the sphere, accurate for small angles."""
  d = math.dist(a, b)
  return R * 2 * math.asin(min(1.0, d / 2))


def run(ctx):
  rng = ctx.rng
  for k in range(ctx.n(12000, 150000)):
    la = float(rng.uniform(-90, 90)) if k % 3 == 0 else float(rng.uniform(-12, 12))
    if k % 97 == 0:
      la = float(rng.choice([0.0, 90.0, -90.0]))
    lo = float(rng.choice([rng.uniform(-180, 180), 180 - 10**rng.uniform(-6, 0), -180 + 10**rng.uniform(-6, 0), 0.0]))
    r, th = float(10**rng.uniform(-6, 4.2)), float(rng.uniform(-math.pi, math.pi))
    if k % 11 == 0:
      th = float(rng.integers(-2, 3)) * math.pi / 2
    x, y = r * math.cos(th), r * math.sin(th)
    if k % 11 == 0:
      x, y = (round(x, 9), round(y, 9))
    if k % 50 == 0:
      x = y = 0.0
    if k % 23 == 0:  # Exactly to (and just across) a pole.
      x, y = 0.0, math.radians(90 - la) * R * float(rng.choice([1, 1, 1 - 1e-7, 1 + 1e-7]))
      r = y
    c = s2.LatLng.from_degrees(la, lo)
    g = sg.calculate_latlng_from_offset(c, units.Distance(km=x), units.Distance(km=y))
    gla, glo = g.lat().degrees, g.lng().degrees
    info = dict(lat=la, lng=lo, x=x, y=y, got=(gla, glo))
    ctx.check(g.is_valid() and -90 <= gla <= 90 and -180 <= glo <= 180, 'the result is not a valid position', **info)
    ctx.check((c.lat().degrees, c.lng().degrees) == (s2.LatLng.from_degrees(la, lo).lat().degrees, s2.LatLng.from_degrees(la, lo).lng().degrees), 'the centre moved')
    a, b = unit(la, lo), unit(gla, glo)
    d = math.hypot(x, y)
    arc = d % (2 * math.pi * R)
    arc = min(arc, 2 * math.pi * R - arc)
    ctx.close(separation(a, b), arc, 'the offset has the wrong length', 1e-7 if abs(la) < 89 else 1e-3, 5e-4, **info)
    wla, wlo = ref.offset_latlng(la, lo, x * 1e3, y * 1e3)
    if abs(la) < 89.99:  # at a pole the heading itself is ill-conditioned
      ctx.close(separation(unit(wla, wlo), b), 0.0, 'the position is not on the great circle', 0, 5e-4, want=(wla, wlo), **info)
    if d == 0:
      ctx.close(separation(a, b), 0.0, 'no offset, but it moved', 0, 1e-6, **info)
      ctx.count('zero')
    elif abs(la) < 60 and d < 500:
      # Plainly: north is up, east is right.
      if y > 10 * abs(x):
        ctx.check(gla > la, 'positive y is not north', **info)
        ctx.count('north')
      if x > 10 * abs(y):
        ctx.check((glo - la * 0 - lo + 180) % 360 - 180 > 0, 'positive x is not east', **info)
        ctx.count('east')
      if la == 0 and y == 0:
        ctx.close(gla, 0.0, 'moving along the equator leaves it', 0, 1e-9, **info)
    if abs(glo - lo) > 180:
      ctx.count('dateline')
    if abs(la) == 90 or abs(gla) > 89.999:
      ctx.count('pole')
    ctx.ev((int(la // 10), int(lo // 30), int(th * 4 / math.pi), int(math.log10(r)) if r > 0 else None))
    if k % 4 == 0:
      for mode, q in (('pickle', pickle.loads(pickle.dumps(g))), ('copy', copy.deepcopy(g)), ('shallow', copy.copy(g))):
        ctx.close([q.lat().degrees, q.lng().degrees], [gla, glo], f'{mode} moved the position', 1e-14, 1e-13, **info)
      ctx.count('pickled')
  # One argument changed at a time, and back.
  for k in range(ctx.n(200, 2500)):
    q = [float(rng.uniform(-12, 12)), float(rng.uniform(-170, 170)), float(rng.normal(0, 200)), float(rng.normal(0, 200))]
    moves = [q, [q[0], q[1] + 40, *q[2:]], [q[0] + 5, *q[1:]], [-q[0], *q[1:]], [q[0], -q[1], *q[2:]], [*q[:2], -q[2], q[3]],
             [*q[:3], -q[3]], [*q[:2], q[3], q[2]], [*q[:2], q[2] + 1e-3, q[3]], [q[0] + 1e-5, *q[1:]], [q[0], q[1] + 1e-5, *q[2:]]]
    for m in [x for y in moves for x in (y, q)]:
      g = sg.calculate_latlng_from_offset(s2.LatLng.from_degrees(*m[:2]), units.Distance(km=m[2]), units.Distance(km=m[3]))
      w = ref.offset_latlng(m[0], m[1], m[2] * 1e3, m[3] * 1e3)
      ctx.close(separation(unit(*w), unit(g.lat().degrees, g.lng().degrees)), 0, 'the position is not the offset from this centre', 0, 5e-4,
                lat=m[0], lng=m[1], x=m[2], y=m[3], want=w)
    ctx.count('neighbours')
  ctx.require('neighbours', 100)
  # The balloon's own position is this offset from its station.
  for k in range(ctx.n(150, 1500)):
    b = sim.make_balloon(rng, sim.atmosphere(rng) if k % 20 == 0 or k == 0 else atm, stable=False)
    if k % 20 == 0:
      atm = sim.atmosphere(rng)
    s = b.state
    w = ref.offset_latlng(s.center_latlng.lat().degrees, s.center_latlng.lng().degrees, s.x.meters, s.y.meters)
    ll = s.latlng
    ctx.close(separation(unit(*w), unit(ll.lat().degrees, ll.lng().degrees)), 0, 'the balloon\'s position is not its offset from the station', 0, 1e-4)
    ctx.ev(('balloon', k))
  for c in ('zero', 'north', 'east', 'dateline', 'pole', 'pickled'):
    ctx.require(c, 20)
