"""P13: the altitude safety layer keeps the balloon above 50,000 ft."""
import jax
from balloon_learning_environment.env.balloon import altitude_safety
from balloon_learning_environment.utils import units
from vp import ref, sim

RULE = ('one evaluation = one layer query; distinct by (band before, band now, '
        'hysteresis state, command)')
ASSUMPTIONS = ['altitudes within 1e-4 ft of a band edge are not generated']
EDGES = [50000.0, 50500.0, 51000.0]


def altitude(rng, prev):
  k = rng.random()
  if k < 0.35:
    e = EDGES[int(rng.integers(3))]
    return e + float(rng.choice([-1, 1])) * float(10**rng.uniform(-3, 2))
  if k < 0.7:
    return prev + float(rng.normal(0, 300))
  if k < 0.9:
    return float(rng.uniform(49000, 52000))
  return float(rng.uniform(20000, 75000))


def band(ft):
  return sum(ft >= e for e in EDGES)


def run(ctx):
  rng = ctx.rng
  for h in range(ctx.n(40, 400)):
    atm = sim.atmosphere(rng)
    layer, model = altitude_safety.AltitudeSafetyLayer(), ref.AltitudeSafety()
    other = altitude_safety.AltitudeSafetyLayer()  # must stay untouched
    ctx.check(not layer.navigation_is_paused, 'a fresh layer is paused')
    ft, hist = float(rng.uniform(49500, 60000)), []
    for i in range(3000 if h == 0 else ctx.n(150, 300)):
      prev = band(ft)
      ft = min(max(altitude(rng, ft), 5000.0), 120000.0)
      if min(abs(ft - e) for e in EDGES) < 1e-4:
        continue
      p = float(atm.at_height(units.Distance(feet=ft)).pressure)
      act = sim.ACTIONS[int(rng.integers(3))]
      state0 = model.state
      got = layer.get_action(act, atm, p)
      want = model.step(act.name, ft * ref.FT)
      hist = (hist + [(round(ft, 3), act.name, got.name)])[-8:]
      info = dict(altitude_ft=ft, command=act.name, got=got.name, history=hist)
      if ft < 50000:
        ctx.check(got.name == 'UP', 'below the floor but not ascending', **info)
      if ft < 50500:
        ctx.check(got.name != 'DOWN', 'descending inside the buffer', **info)
      if ft >= 51000:
        ctx.check(got == act, 'a high balloon was overridden', **info)
      if act.name != 'DOWN' and ft >= 50000:
        ctx.check(got == act, 'a harmless command was overridden', **info)
      ctx.check(got.name == want, 'wrong command from the altitude layer',
                want=want, **info)
      ctx.check(bool(layer.navigation_is_paused) == model.paused,
                'navigation_is_paused is wrong', state=model.state, **info)
      ctx.count(model.state)
      ctx.count('hysteresis' if 50500 <= ft < 51000 else 'plain')
      ctx.ev((prev, band(ft), state0, model.state, act.name))
    ctx.check(not other.navigation_is_paused, 'layers share state')
  # The atmosphere is the one given with each question: two of them in turn,
  # one of them set anew in between.
  for h in range(ctx.n(25, 250)):
    atms = [sim.atmosphere(rng) for _ in range(2)]
    layer, model = altitude_safety.AltitudeSafetyLayer(), ref.AltitudeSafety()
    p = float(atms[0].at_height(units.Distance(feet=float(rng.uniform(49500, 51500)))).pressure)
    for i in range(12):
      a = atms[int(rng.integers(2))]
      if rng.random() < .2:
        a.reset(jax.random.PRNGKey(int(rng.integers(2**31))))
      if rng.random() < .15:
        p = float(a.at_height(units.Distance(feet=float(rng.uniform(49500, 51500)))).pressure)
      ft = a.at_pressure(p).height.feet
      if min(abs(ft - e) for e in EDGES) < 1e-4:
        break
      act = sim.ACTIONS[int(rng.integers(3))]
      was = model.state
      want = model.step(act.name, ft * ref.FT)
      got = layer.get_action(act, a, p)
      ctx.check(got.name == want and bool(layer.navigation_is_paused) == model.paused,
                'wrong command from the altitude layer in another atmosphere', altitude_ft=ft, pressure=p, command=act.name, got=got.name, want=want)
      ctx.count('atm_changed', was != model.state)
      ctx.ev(('atm', band(ft), was, model.state, act.name))
  ctx.require('atm_changed', 10)
  for c in ('NOMINAL', 'LOW', 'VERY_LOW', 'hysteresis'):
    ctx.require(c, 100)
