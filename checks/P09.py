"""P09: battery energy accounting."""
import datetime as dt

from balloon_learning_environment.utils import units
from vp import flight, ref, sim

RULE = ('one evaluation = one observed stride (or 3-minute step); distinct by '
        '(effective command, day/night, clipped, solar decile, params varied)')
ASSUMPTIONS = ['steps whose solar elevation is within 1e-7 deg of a threshold '
               'are compared only through the invariants']


def oracle(ctx, r, single):
  b, a, w = r.before, r.after, r.want
  info = dict(eff=r.eff, before_wh=b.batt_wh, after_wh=a.batt_wh, cap=b.cap_wh,
              solar_w=a.solar_w, load_w=a.load_w, time=str(b.t), status=a.status)
  ctx.check(0.0 <= a.batt_wh <= b.cap_wh * (1 + 1e-12),
            'battery charge outside [0, capacity]', **info)
  ctx.check(a.cap_wh == b.cap_wh and a.day_w == b.day_w and a.night_w == b.night_w,
            'a step changed the battery capacity or the hotel loads', **info)
  soc = r.b.state.battery_soc
  ctx.close(soc, a.batt_wh / a.cap_wh, 'battery_soc is not charge/capacity', **info)
  ctx.check(a.acs_w >= 0 and (a.acs_w == 0 or r.eff == 'DOWN'),
            'the compressor draws power without descending', **info)
  hotel = a.load_w - a.acs_w
  ctx.check(min(abs(hotel - a.day_w), abs(hotel - a.night_w)) < 1e-6,
            'the load is not a hotel load plus the compressor', hotel=hotel, **info)
  if single:
    e = b.batt_wh + (a.solar_w - a.load_w) * r.total / 3600.0
    ctx.close(a.batt_wh, min(max(e, 0.0), a.cap_wh),
              'charge did not change by (solar - load) x time, clipped',
              1e-9, 1e-6, **info)
  if r.fuzzy:
    return
  d = a.diff(w, ['batt_wh', 'solar_w', 'load_w', 'acs_w'], 1e-8)
  ctx.check(not d, 'battery flow differs from the energy model', diff=d, **info)
  day = w.el > ref.MIN_EL
  ctx.check(day or a.solar_w == 0, 'solar power at night', el=w.el, **info)
  clip = 'full' if a.batt_wh >= a.cap_wh else 'empty' if a.batt_wh <= 0 else 'no'
  ctx.count('day' if day else 'night')
  ctx.count('clip_' + clip)
  ctx.count('eff_' + r.eff)
  if a.status == 'OK' and b.batt_wh < a.batt_wh:
    ctx.count('charging')
  ctx.ev((r.eff, day, clip, int(a.solar_w / 50), round(a.cap_wh), single,
          b.t.hour))


def run(ctx):
  rng = ctx.rng
  for r in flight.flights(rng, ctx.n(45, 400), 30):
    oracle(ctx, r, r.total == r.stride)
  for r in flight.flights(rng, ctx.n(25, 250), 60, stride_mode=True):
    oracle(ctx, r, True)
  # Full batteries at noon; nearly empty ones at night.
  for k in range(ctx.n(30, 200)):
    atm = sim.atmosphere(rng)
    b = flight.new_balloon(rng, atm, power_layer=bool(k % 3))
    s = b.state
    lat, lng = s.latlng.lat().degrees, s.latlng.lng().degrees
    want_day = k % 2 == 0
    while (ref.solar(lat, lng, s.date_time)[0] > 30) != want_day:
      s.date_time += dt.timedelta(minutes=30)
    if want_day:
      s.battery_charge = units.Energy(
          watt_hours=s.battery_capacity.watt_hours - float(rng.uniform(0, 3)))
    else:
      s.battery_charge = units.Energy(watt_hours=float(rng.uniform(0, 20 if k % 4 == 1 else 5)))
    for _ in range(4):
      r = flight.observe(b, 1.0, 2.0, atm, ref.Atm.like(atm),
                         sim.ACTIONS[int(rng.integers(3))],
                         int(rng.choice([10, 30, 180])))
      oracle(ctx, r, r.total == 10)
      if r.after.status != 'OK':
        break
  for c in ('day', 'night', 'clip_full', 'clip_empty', 'eff_DOWN', 'eff_UP',
            'eff_STAY', 'charging'):
    ctx.require(c, 3)
