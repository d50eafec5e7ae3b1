"""P14: the envelope safety layer protects the superpressure limits."""
from balloon_learning_environment.env.balloon import envelope_safety
from vp import ref, sim

RULE = ('one evaluation = one layer query; distinct by (band before, band now, '
        'state before/after, command)')
ASSUMPTIONS = ['superpressures within 1e-6 Pa of a band edge are not generated']


def run(ctx):
  rng = ctx.rng
  for h in range(ctx.n(60, 600)):
    m = float(rng.choice([2380.0, rng.uniform(900, 4000)]))
    layer, model = envelope_safety.EnvelopeSafetyLayer(m), ref.EnvelopeSafety(m)
    other = envelope_safety.EnvelopeSafetyLayer(m)
    edges = [150, 250, 300, m - 300, m - 250, m - 150]
    ctx.check(not layer.navigation_is_paused, 'a fresh layer is paused')
    sp, hist = float(rng.uniform(100, m)), []
    for _ in range(5000 if h == 0 else ctx.n(150, 300)):
      prev = sum(sp >= e for e in edges)
      k = rng.random()
      if k < 0.35:
        sp = edges[int(rng.integers(6))] + float(rng.choice([-1, 1])) * float(10**rng.uniform(-3, 2))
      elif k < 0.75:
        sp += float(rng.normal(0, 60))
      else:
        sp = float(rng.uniform(-50, m + 100))
      sp = min(max(sp, 0.0), m + 300)
      if min(abs(sp - e) for e in edges) < 1e-6:
        continue
      act = sim.ACTIONS[int(rng.integers(3))]
      s0 = model.state
      got = layer.get_action(act, sp)
      want = model.step(act.name, sp)
      hist = (hist + [(round(sp, 4), act.name, got.name)])[-8:]
      info = dict(superpressure=sp, max=m, command=act.name, got=got.name, history=hist)
      if sp < 150 or sp >= m - 150:
        ctx.check(got.name == 'UP', 'critical superpressure but not venting', **info)
      if sp < 250 or sp >= m - 250:
        ctx.check(got.name != 'DOWN', 'compressing inside the buffer', **info)
      if 300 <= sp < m - 300:
        ctx.check(got == act, 'a safe balloon was overridden', **info)
      if act.name != 'DOWN' and 150 <= sp < m - 150:
        ctx.check(got == act, 'a harmless command was overridden', **info)
      ctx.check(got.name == want, 'wrong command from the envelope layer', want=want, **info)
      ctx.check(bool(layer.navigation_is_paused) == model.paused,
                'navigation_is_paused is wrong', state=model.state, **info)
      ctx.count(model.state)
      ctx.ev((prev, sum(sp >= e for e in edges), s0, model.state, act.name))
    ctx.check(not other.navigation_is_paused, 'layers share state')
  for c in ('NOMINAL', 'LOW', 'LOW_CRITICAL', 'HIGH', 'HIGH_CRITICAL'):
    ctx.require(c, 100)
