"""P17: cold-started balloons float in equilibrium."""
import copy
import dataclasses
import datetime as dt

import numpy as np
from scipy import stats
from balloon_learning_environment.env.balloon import stable_init
from balloon_learning_environment.utils import units
from vp import flight, ref, sim

RULE = ('one evaluation = one initialised balloon; distinct by (pressure '
        'bucket, sun up, IR bucket, ballonet empty, params varied)')
ASSUMPTIONS = ['thermal equilibrium is found to the code\'s own stopping rule '
               '(|dT/dt| < 1e-5 K/s), compared with 2e-4 K tolerance']

VEHICLE = dict(volume=1804, slope=0.0199, envelope=68.5, limit=2380, drag=0.25, payload=92.5, night=183.7, day=120.4, valve=0.04,
               capacity=3058.56, charge=2905.6, gas=6830, compressor=0, flow=0, solar=0, load=0)


def run(ctx):
  rng = ctx.rng
  prev = None
  for k in range(ctx.n(500, 6000)):
    atm = sim.atmosphere(rng)
    aref = ref.Atm.like(atm)
    kw = {}
    if k % 7 == 0:
      kw['pressure'] = float(rng.uniform(4500, 6600))
    if k % 11 == 0:
      kw['pressure'] = float(rng.uniform(11000, 20000))
    b = flight.new_balloon(rng, atm, perturb=False, stable=False, **kw)
    if prev is not None and rng.random() < 0.4:
      # The balloon before, with at most one thing about it changed.
      b.state = copy.copy(prev[0])
      n, ps = int(rng.integers(8)), b.state
      if n == 0:
        ps.pressure += float(rng.choice([0.1, 3.0, -200.0]))
      elif n == 1:
        ps.upwelling_infrared = float(rng.uniform(225, 315))
      elif n == 2:
        ps.date_time += dt.timedelta(seconds=int(rng.choice([1, 60, 3600, 43200, 86400])))
      elif n == 3:
        ps.mols_lift_gas += float(rng.choice([1e-3, 5.0]))
      elif n == 4:
        ps.payload_mass += float(rng.choice([1e-3, 2.0]))
      elif n == 5:
        ps.envelope_volume_base += float(rng.choice([0.01, 7.0]))
      elif n == 6:
        ps.x += units.Distance(km=float(rng.choice([0.5, 40, 600])))
      if n != 7:  # Else another atmosphere.
        atm, aref = prev[1:]
      ctx.count('twins')
    before = copy.copy(b.state)
    prev = before, atm, aref
    s0 = ref.S(b.state)
    ta, ti, n_air, vol, sp = ref.stable(
        s0.pressure, s0.v0, s0.dv, s0.m_env, s0.m_pay, s0.n_he, *s0.latlng(),
        s0.t, s0.ir, aref)
    p = stable_init.calculate_stable_params_for_pressure(
        s0.pressure, s0.v0, s0.dv, s0.m_env, s0.m_pay, s0.n_he,
        b.state.latlng, s0.t, s0.ir, atm)
    stable_init.cold_start_to_stable_params(b.state, atm)
    s = ref.S(b.state)
    info = dict(pressure=s0.pressure, time=str(s0.t), latlng=s0.latlng(), ir=s0.ir,
                got=dataclasses.asdict(p), want=(ta, ti, n_air, vol, sp))
    ctx.close([s.ambient, s.internal, s.n_air, s.vol, s.sp],
              [p.ambient_temperature, p.internal_temperature, p.mols_air,
               p.envelope_volume, p.superpressure],
              'cold_start_to_stable_params does not store the stable params',
              1e-12, 1e-12, **info)
    ctx.close(s.ambient, ta, 'ambient temperature is not the atmosphere\'s', 1e-9, **info)
    ctx.close(s.internal, ti, 'internal temperature is not in equilibrium', 0, 2e-4, **info)
    ctx.close(s.n_air, n_air, 'ballonet air does not balance the weight', 1e-9, 1e-6, **info)
    ctx.close([s.vol, s.sp], ref.volume_superpressure(
        s.n_he, s.n_air, s.internal, s.pressure, s.v0, s.dv),
              'volume/superpressure do not fit the gas', 1e-9, 1e-5, **info)
    ctx.check(s.n_air >= 0, 'negative ballonet air', **info)
    if s.n_air > 0:
      # Archimedes: displaced air at base volume weighs what the system weighs.
      rho = s.pressure * ref.M_AIR / (ref.R * s.ambient)
      ctx.close(rho * s.v0, s.m_env + s.m_pay + ref.M_HE * s.n_he + ref.M_AIR * s.n_air,
                'the balloon is not neutrally buoyant', 1e-9, 1e-7, **info)
      ctx.count('ballasted')
    else:
      ctx.count('empty_ballonet')
    # Nothing else moved.
    for f in dataclasses.fields(before):
      if f.name in ('ambient_temperature', 'internal_temperature', 'mols_air',
                    'envelope_volume', 'superpressure'):
        continue
      ctx.check(getattr(b.state, f.name) is getattr(before, f.name) or
                getattr(b.state, f.name) == getattr(before, f.name),
                f'cold start changed {f.name}', **info)
    el = ref.solar(*s0.latlng(), s0.t)[0]
    ctx.count('day' if el > 0 else 'night')
    ctx.sample(dict(pressure=s.pressure, internal=s.internal, sp=s.sp, n_air=s.n_air))
    ctx.ev((int(s0.pressure / 250), el > 0, int(s0.ir / 10), s.n_air > 0,
            s0.m_env == 68.5))
  # Every episode starts from such a balloon, inside its documented envelope.
  arena = sim.arena(rng)
  starts = []
  for k in range(ctx.n(40, 400)):
    arena.reset(int(rng.integers(2**31)))
    st = arena.get_simulator_state()
    s = ref.S(st.balloon_state)
    aref = ref.Atm.like(st.atmosphere)
    ta, ti, n_air, vol, sp = ref.stable(
        s.pressure, s.v0, s.dv, s.m_env, s.m_pay, s.n_he, *s.latlng(), s.t, s.ir, aref)
    info = dict(pressure=s.pressure, time=str(s.t), ir=s.ir, x=s.x, y=s.y, sp=s.sp)
    ctx.close([s.ambient, s.internal, s.n_air, s.sp], [ta, ti, n_air, sp],
              'an episode does not start in equilibrium', 1e-7, 2e-2, **info)
    ctx.check(np.hypot(s.x, s.y) <= 200e3 * (1 + 1e-6), 'start beyond 200 km', **info)
    ctx.check(6500 - 1e-2 <= s.pressure <= aref.at_height(15240.0)[2] * (1 + 1e-6),
              'start outside the pressure range', **info)
    ctx.check(s.status == 'OK' and s.elapsed.total_seconds() == 0 and
              0.94 < s.batt_wh / s.cap_wh < 0.96, 'bad initial condition', **info)
    ctx.check(abs(s.lat0) <= 10 and abs(s.lng0) <= 175 and 225 <= s.ir <= 315 and
              2011 <= s.t.year <= 2014, 'start outside the sampled domain', **info)
    # The documented vehicle: nothing but the start of the flight differs between episodes.
    bs = st.balloon_state
    got = dict(volume=s.v0, slope=s.dv, envelope=s.m_env, limit=bs.envelope_max_superpressure, drag=s.cod, payload=s.m_pay,
               night=bs.nighttime_power_load.watts, day=bs.daytime_power_load.watts, valve=bs.acs_valve_hole_diameter.meters,
               capacity=s.cap_wh, charge=s.batt_wh, gas=s.n_he, compressor=s.acs_w, flow=s.flow,
               solar=bs.solar_charging.watts, load=bs.power_load.watts)
    for n, v in VEHICLE.items():
      ctx.close(got[n], v, f'an episode starts with another vehicle: {n}', 1e-12, 0, **info)
    ctx.check(bs.last_command.name == 'STAY' and bs.power_safety_layer_enabled is True and not bs.navigation_is_paused,
              'an episode starts in the middle of something', command=bs.last_command.name, **info)
    starts.append((s.x, s.y, s.pressure, aref.at_height(15240.0)[2]))
    ctx.count('episodes')
    ctx.ev(('episode', round(s.pressure, 3)))
  # Where the flights start, over seeds: any direction alike, the distance a
  # Beta(1.2, 2) share of 200 km, any pressure of the range alike.
  for k in range(ctx.n(110, 1200)):
    arena.reset(int(rng.integers(2**31)))
    st = arena.get_simulator_state()
    b = st.balloon_state
    starts.append((b.x.meters, b.y.meters, b.pressure, ref.Atm.like(st.atmosphere).at_height(15240.0)[2]))
  x, y, p, top = np.array(starts).T
  for what, v, cdf in (('direction', np.arctan2(y, x), stats.uniform(-np.pi, 2 * np.pi).cdf),
                       ('distance', np.hypot(x, y) / 200e3, stats.beta(1.2, 2.0).cdf),
                       ('pressure', (p - 6500) / (top - 6500), stats.uniform(0, 1).cdf)):
    pv = float(stats.kstest(v, cdf).pvalue)
    ctx.check(pv > 1e-6, f'the {what} of the start is not distributed as documented', pvalue=pv, n=len(v),
              deciles=np.quantile(v, np.linspace(0, 1, 11)).tolist())
    ctx.ev(('spread', what))
  # Direction and distance say nothing about each other or the pressure.
  for what, v in (('distance', np.hypot(x, y)), ('pressure', p)):
    for f in (np.cos, np.sin):
      r = stats.spearmanr(f(np.arctan2(y, x)), v)
      ctx.check(float(r.pvalue) > 1e-6, f'the direction of the start depends on the {what}', pvalue=float(r.pvalue))
  for c in ('day', 'night', 'empty_ballonet', 'ballasted', 'episodes', 'twins'):
    ctx.require(c, 10)
