"""P23: the altitude control system's power, efficiency and flow."""
import numpy as np
from balloon_learning_environment.env.balloon import acs
from balloon_learning_environment.env.balloon import power_table
from balloon_learning_environment.utils import units
from vp import flight, ref, sim

RULE = ('one evaluation = one table lookup or one descending step; distinct by '
        '(table, ratio bin, power/soc bin)')
ASSUMPTIONS = [
    'power: linear in the ratio through (1.05,100) (1.2,300) (1.25,400), flat '
    'at 100 W below and at 400 W between 1.25 and 1.35',
    'efficiency: bilinear in the 13x4 table, held constant outside it',
    'power-table lookups within 1e-9 of a table edge are skipped, except on it']
PR = [1.08, 1.11, 1.14, 1.17, 1.2, 1.23, 1.26]
SOC = [([.3, .4, .5], [0, 150, 175, 200]), ([.3, .4, .7], [0, 200, 200, 225]),
       ([.3, .4, .6], [0, 225, 225, 250]), ([.3, .4, .5], [0, 200, 225, 250]),
       ([.3, .4, .5], [0, 225, 250, 275]), ([.4, .5], [0, 275, 300]),
       ([.5, .6], [0, 300, 325]), ([.5, .6], [0, 325, 350])]


def efficiency(ctx, ratio, watts):
  got = float(acs.get_fan_efficiency(ratio, units.Power(watts=watts)))
  want = ref.fan_efficiency(ratio, watts)
  info = dict(ratio=ratio, watts=watts, got=got, documented=want)
  ctx.check(0.0 <= got <= 0.4 + 1e-12, 'efficiency outside the table\'s range', **info)
  if abs(got - want) > 1e-9:
    tr = ref.fan_efficiency_transposed(ratio, watts)
    if abs(got - tr) <= 1e-9:
      ctx.known('fan-efficiency-table-transposed', 'the efficiency table is read transposed', **info)
    else:
      ctx.check(False, 'efficiency is not an interpolation of the table', transposed=tr, **info)
  ctx.count('efficiency')
  ctx.ev(('eff', int(ratio * 40), int(watts / 25)))
  return got


def run(ctx):
  rng = ctx.rng
  for _ in range(ctx.n(4000, 60000)):
    r = float(rng.uniform(1.0, 1.35))
    p = acs.get_most_efficient_power(r)
    ctx.close(float(p.watts), ref.acs_power(r), 'operating power is not the tabulated curve', 1e-9, 1e-7, ratio=r)
    ctx.check(100.0 - 1e-9 <= p.watts <= 400.0 + 1e-9, 'operating power outside [100, 400] W', ratio=r, watts=float(p.watts))
    ctx.ev(('power', int(r * 200)))
  rs = sorted(float(x) for x in rng.uniform(1.0, 1.35, 400))
  ws = [float(acs.get_most_efficient_power(r).watts) for r in rs]
  ctx.check(all(a <= b + 1e-9 for a, b in zip(ws, ws[1:])), 'power falls with rising pressure ratio')
  for _ in range(ctx.n(4000, 60000)):
    efficiency(ctx, float(rng.uniform(0.98, 1.45)), float(rng.uniform(80, 430)))
  for i in range(13):
    for j in range(4):
      efficiency(ctx, ref.EFF_R[i], ref.EFF_P[j])
  for _ in range(ctx.n(1000, 10000)):
    w, e = float(rng.uniform(0, 500)), float(rng.uniform(0, 1))
    ctx.close(acs.get_mass_flow(units.Power(watts=w), e), e * w / 3600.0, 'mass flow', 1e-12, 1e-15, watts=w, e=e)
    ctx.ev(('flow', int(w / 20), int(e * 10)))
  # An envelope without superpressure has the ratio one: there is nothing to push against.
  for _ in range(ctx.n(60, 600)):
    b = sim.make_balloon(rng, sim.atmosphere(rng))
    st = b.state
    st.superpressure = float(rng.choice([0.0, -rng.uniform(0, 5), -rng.uniform(0, 500)]))
    ctx.check(st.pressure_ratio == 1.0, 'the pressure ratio of a slack envelope', superpressure=st.superpressure, got=st.pressure_ratio)
    st.superpressure = float(rng.choice([rng.uniform(0, 1), rng.uniform(0, 2500)]))
    ctx.close(st.pressure_ratio, 1 + st.superpressure / st.pressure, 'the pressure ratio', 1e-12, 0, superpressure=st.superpressure)
    ctx.count('ratios')
  # The power table that tells the agent what a descent costs.
  for k in range(ctx.n(6000, 60000)):
    r = float(rng.uniform(0.99, 1.4)) if k % 5 else float(rng.uniform(1.2, 5))
    s = float(rng.uniform(0, 1))
    if k % 9 == 0:
      r = float(rng.choice(PR + [0.99, 5.0]))
    if k % 11 == 0:
      s = float(rng.choice([0, 1, .3, .4, .5, .6, .7]))
    edges, vals = SOC[sum(r >= e for e in PR)]
    want = vals[sum(s >= e for e in edges)]
    got = power_table.lookup(r, s)
    ctx.check(got == want, 'power table lookup is wrong', ratio=r, soc=s, got=got, want=want)
    if s < 1:
      ctx.check(power_table.lookup(r, min(1.0, s + 0.1)) >= got, 'a fuller battery lowers the power', ratio=r, soc=s)
    ctx.ev(('table', sum(r >= e for e in PR), sum(s >= e for e in edges)))
    ctx.count('table')
  for bad in (0.98, 5.01, -1.0, 0.0):
    ctx.raises(lambda: power_table.lookup(bad, 0.5), (AssertionError, ValueError), 'ratio outside the table accepted', ratio=bad)
  # In flight: power, flow and air follow the curves at the stride's start.
  n = 0
  for r in flight.flights(rng, ctx.n(20, 150), 60, stride_mode=True, power_layer=False):
    if r.eff != 'DOWN':
      ctx.check(r.after.acs_w == 0, 'the compressor runs without a descent')
      continue
    q = r.before.ratio()
    if not 1.0 <= q <= 1.35:
      continue
    ctx.close(r.after.acs_w, ref.acs_power(q), 'flight compressor power is not the curve\'s', 1e-9, 1e-7, ratio=q)
    e = efficiency(ctx, q, r.after.acs_w)
    ctx.close(r.after.flow, e * r.after.acs_w / 3600.0, 'flight mass flow is not efficiency x power', 1e-9, 1e-12, ratio=q)
    ctx.count('descents')
  ctx.require('descents', 50)
  ctx.require('table', 1000)
  ctx.require('efficiency', 1000)
