"""P15: the power safety layer saves the battery for the night."""
import datetime as dt

import s2sphere as s2
from balloon_learning_environment.env.balloon import power_safety
from balloon_learning_environment.env.balloon import solar
from balloon_learning_environment.utils import units
from vp import ref, sim

RULE = ('one evaluation = one layer query; distinct by (day/night, paused '
        'before/after, command, soc decile, hour to sunrise)')
ASSUMPTIONS = [
    'sunrise and sunset as reported by solar.get_next_sunrise_sunset at '
    'construction (P21 checks those), advanced by whole days as documented',
    'queries whose energy margin is within 1e-9 of the threshold are skipped']


def run(ctx):
  rng = ctx.rng
  for h in range(ctx.n(60, 500)):
    lat, lng = float(rng.uniform(-25, 25) if h % 4 else rng.uniform(30, 52) * rng.choice([-1, 1])), float(rng.uniform(-179, 179))
    ll = s2.LatLng.from_degrees(lat, lng)
    t = sim.rand_time(rng)
    layer = power_safety.PowerSafetyLayer(ll, t)
    model = ref.PowerSafety(*solar.get_next_sunrise_sunset(ll, t))
    ctx.check(not layer.navigation_is_paused, 'a fresh layer is paused')
    cap = float(rng.choice([3058.56, rng.uniform(1000, 6000)]))
    load = float(rng.choice([183.7, rng.uniform(50, 400)]))
    soc, hist = float(rng.uniform(0, 1)), []
    for i in range(3000 if h == 0 else ctx.n(250, 500)):
      if h % 3 == 1 and rng.random() < .1:  # The load and the capacity are those of the question.
        load = float(rng.uniform(50, 400))
        cap = float(rng.uniform(1000, 6000)) if rng.random() < .3 else cap
        ctx.count('other_load')
      t += dt.timedelta(minutes=float(rng.choice([3, 3, 3, 3, 3, 30, 30, 240, 240, 7 * 60, 7 * 60, 26 * 60, 26 * 60, 100 * 60])))
      if rng.random() < .15:  # Seconds around the instants that part day and night.
        q = (model.rise if rng.random() < .5 else model.set) + dt.timedelta(days=int(rng.integers(2)), seconds=float(rng.choice([-20, -1, 0, 1, 5, 20, 50])))
        if q > t:
          t = q
          ctx.count('edges')
      act = sim.ACTIONS[int(rng.integers(3))]
      k = rng.random()
      if k < 0.3 and model.rise > t:
        # Near the threshold the documented rule implies.
        hrs = (model.rise - t).total_seconds() / 3600.0
        soc = (load * hrs) / cap + 0.025 + float(rng.choice([-1, 1])) * 10**float(rng.uniform(-5, -1))
      elif k < 0.45:
        soc = 0.05 + float(rng.choice([-1, 1])) * 10**float(rng.uniform(-5, -1.4))
      elif k < 0.7:
        soc = float(rng.uniform(0, 1))
      soc = min(max(soc, 0.0), 1.0)
      wh = soc * cap
      was = model.paused
      want = model.step(act.name, t, load, wh, cap)
      if model.margin is not None and abs(model.margin) < 1e-9:
        break
      got = layer.get_action(act, t, units.Power(watts=load),
                             units.Energy(watt_hours=wh),
                             units.Energy(watt_hours=cap))
      el = ref.solar(lat, lng, t)[0]
      hist = (hist + [(str(t), round(soc, 6), act.name, got.name)])[-6:]
      info = dict(lat=lat, lng=lng, time=str(t), soc=soc, cap=cap, load=load,
                  command=act.name, got=got.name, is_day=model.is_day,
                  paused=model.paused, elevation=el, history=hist)
      if act.name != 'DOWN':
        ctx.check(got == act, 'a free command was overridden', **info)
      else:
        ctx.check(got.name in ('DOWN', 'STAY'), 'DOWN became an ascent', **info)
      ctx.check(got.name == want, 'wrong command from the power layer', want=want, **info)
      ctx.check(bool(layer.navigation_is_paused) == model.paused,
                'navigation_is_paused is wrong', **info)
      # Independent of the layer's own clock: in deep night with a charge that
      # cannot carry even the hotel load to the sun, DOWN must not pass.
      if act.name == 'DOWN' and el < -25 and abs(lat) < 26:
        need = 0.0
        q = t
        while ref.solar(lat, lng, q)[0] < -10:
          q += dt.timedelta(minutes=10)
        need = load * (q - t).total_seconds() / 3600.0
        if wh < need:
          ctx.check(got.name == 'STAY',
                    'descending at night on a battery that will not last', **info)
          ctx.count('deep_night_blocked')
      ctx.count('day' if model.is_day else 'night')
      ctx.count('paused' if model.paused else 'free')
      if was and not model.paused:
        ctx.count('resumed')
      ctx.ev((model.is_day, was, model.paused, act.name, int(soc * 10), t.hour))
  ctx.require('other_load', 100)
  ctx.require('edges', 100)
  for c in ('day', 'night', 'paused', 'free', 'resumed', 'deep_night_blocked'):
    ctx.require(c, 20)
