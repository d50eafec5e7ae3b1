"""Flights under an online reference monitor.

Each simulate_step call of the real code is shadowed by the reference model in
vp.ref started from the very state the code was in; the caller's oracle then
compares the fields its property is about.
"""

import copy
import datetime as dt

import numpy as np
import s2sphere as s2
from balloon_learning_environment.env.balloon import acs
from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.utils import units
from vp import ref
from vp import sim


def _lookup(ratio, watts):
  return acs.get_fan_efficiency(ratio, units.Power(watts=watts))


ref.efficiency_fn = _lookup


class Step:
  """One observed call: state before, state after, reference after."""
  __slots__ = ('b', 'before', 'after', 'want', 'eff', 'action', 'u', 'v', 'atm',
               'aref', 'total', 'stride', 'strides', 'fuzzy', 'trace')


def near_threshold(s, eps=1e-7):
  """True if a rounding error could flip a branch of the model."""
  la, lo = s.latlng()
  el = ref.solar(la, lo, s.t)[0]
  if abs(el - ref.MIN_EL) < eps:
    return True
  for h in (3.3, 2.7):
    import math
    lim = math.degrees(math.atan2(math.sqrt(h * (10.41603 + h)), 8.69275))
    if abs(el - lim) < eps:
      return True
  for lim in (85.0, 5.0, -0.575):
    if abs(el - lim) < 1e-4:
      return True
  return abs(s.sp - s.sp_max) < 1e-6 or (0 < s.sp < 1e-6)


def observe(b, u, v, atm, aref, action, total=180, stride=10, wind=None):
  """Runs one real simulate_step and the reference next to it."""
  r = Step()
  r.b, r.action, r.u, r.v, r.atm, r.aref = b, action, u, v, atm, aref
  r.total, r.stride = total, stride
  r.before = ref.S(b.state)
  kw = {} if stride == 10 else {'stride': dt.timedelta(seconds=stride)}
  b.simulate_step(wind or sim.wind(u, v), atm, action,
                  dt.timedelta(seconds=total), **kw)
  r.after = ref.S(b.state)
  r.eff = sim.effective(b.state)
  # Where the compressor moves no power/flow (UP at zero superpressure) the
  # footprint cannot tell UP from STAY, and they coincide.
  r.want, r.fuzzy, r.trace = r.before, False, []
  r.strides = 0
  for _ in range(int(round(total / stride))):
    r.fuzzy = r.fuzzy or near_threshold(r.want)
    r.want = ref.sub_step(r.want, u, v, aref, r.eff, stride)
    r.strides += 1
    r.trace.append(r.want)
    if r.want.status != 'OK':
      break
  r.fuzzy = r.fuzzy or near_threshold(r.want)
  return r


def _vary(rng):
  """Occasional non-default flight-system parameters."""
  kw = {}
  if rng.random() < 0.3:
    kw['battery_capacity'] = units.Energy(watt_hours=float(rng.uniform(1500, 5000)))
    kw['battery_charge'] = units.Energy(
        watt_hours=float(rng.uniform(0.02, 1)) * kw['battery_capacity'].watt_hours)
  if rng.random() < 0.3:
    kw['nighttime_power_load'] = units.Power(watts=float(rng.uniform(80, 300)))
    kw['daytime_power_load'] = units.Power(watts=float(rng.uniform(80, 300)))
  if rng.random() < 0.2:
    kw['acs_valve_hole_diameter'] = units.Distance(m=float(rng.uniform(0.02, 0.08)))
  if rng.random() < 0.2:
    kw['envelope_cod'] = float(rng.uniform(0.15, 0.4))
  if rng.random() < 0.2:
    kw['payload_mass'] = float(rng.uniform(85, 100))
  if rng.random() < 0.2:
    kw['envelope_mass'] = float(rng.uniform(65, 72))
  if rng.random() < 0.2:
    kw['mols_lift_gas'] = float(rng.uniform(6700, 7000))
  if rng.random() < 0.2:
    kw['envelope_volume_base'] = float(rng.uniform(1780, 1830))
  if rng.random() < 0.2:
    kw['envelope_volume_dv_pressure'] = float(rng.uniform(0.01, 0.03))
  if rng.random() < 0.2:
    kw['envelope_max_superpressure'] = float(rng.uniform(2000, 2600))
  return kw


def sun_time(rng, b_latlng=None):
  """A start time; half of them within an hour of a local sunrise/sunset."""
  t = sim.rand_time(rng)
  if b_latlng is None or rng.random() < 0.5:
    return t
  lat, lng = b_latlng
  best = min((t + dt.timedelta(minutes=10 * k) for k in range(144)),
             key=lambda q: abs(ref.solar(lat, lng, q)[0] - ref.MIN_EL))
  return best - dt.timedelta(minutes=float(rng.integers(0, 60)))


def new_balloon(rng, atm, perturb=True, vary=True, tight=0.18, **kw):
  lat, lng = float(rng.uniform(-10, 10)), float(rng.uniform(-175, 175))
  p = dict(center_latlng=s2.LatLng.from_degrees(lat, lng),
           time=sun_time(rng, (lat, lng)))
  if vary:
    p.update(_vary(rng))
  if rng.random() < 0.12:  # Far from the station, long after the start.
    r, th = rng.uniform(400e3, 3000e3), rng.uniform(0, 2 * np.pi)
    p.update(x=units.Distance(m=float(r * np.cos(th))), y=units.Distance(m=float(r * np.sin(th))),
             time_elapsed=dt.timedelta(seconds=int(rng.integers(0, 86400 * 40))))
  p.update(kw)
  b = sim.make_balloon(rng, atm, **p)
  if perturb and rng.random() < 0.6:
    s = b.state
    s.internal_temperature += float(rng.normal(0, 3))
    s.ambient_temperature += float(rng.normal(0, 1))
    s.mols_air = max(0.0, s.mols_air + float(rng.normal(0, 150)))
    s.envelope_volume += float(rng.normal(0, 5))
    s.superpressure = max(1.0, s.superpressure + float(rng.normal(0, 100)))
  if rng.random() < 0.15:
    b.state.mols_air = float(rng.uniform(0, 3))
  elif rng.random() < tight:  # Just short of bursting, or of going limp.
    s = b.state
    sp = float(rng.uniform(0.85, 1.005) * s.envelope_max_superpressure if rng.random() < 0.7 else rng.uniform(0.0, 120.0))
    n = ((s.pressure + sp) * (s.envelope_volume_base + s.envelope_volume_dv_pressure * sp) / (ref.R * s.internal_temperature)
         - s.mols_lift_gas)
    if n > 0:
      s.mols_air, s.superpressure = n, sp
      s.envelope_volume = s.envelope_volume_base + s.envelope_volume_dv_pressure * sp
  return b


def flights(rng, n, steps, stride_mode=False, **kw):
  """Yields Step records over n flights of up to `steps` calls each."""
  for f in range(n):
    atm = sim.atmosphere(rng)
    aref = ref.Atm.like(atm)
    b = new_balloon(rng, atm, **kw)
    action = sim.ACTIONS[int(rng.integers(3))]
    u, v = rng.normal(0, 12, 2)
    for _ in range(steps):
      if rng.random() < 0.3:
        action = sim.ACTIONS[int(rng.integers(3))]
      if rng.random() < 0.3:
        u, v = rng.normal(0, 12, 2)
      if stride_mode:
        total, stride = 10, 10
      else:
        k = rng.random()
        total, stride = ((180, 10) if k < 0.8 else
                         (int(rng.integers(1, 13)) * 10, 10) if k < 0.9 else
                         (int(rng.integers(1, 10)) * 5, 5))
      if not 2000.0 < b.state.pressure < 25000.0:
        break
      twin = copy.deepcopy(b) if rng.random() < 0.1 else None
      yield observe(b, float(u), float(v), atm, aref, action, total, stride)
      if twin is not None:
        # The same balloon again, with one thing about it changed: what was
        # computed for the first must not serve the second.
        s, n, atm2, act2 = twin.state, int(rng.integers(10)), atm, action
        if n == 0:
          s.pressure += float(rng.choice([0.1, 5.0, -300.0]))
        elif n == 1:
          s.upwelling_infrared = float(rng.uniform(225, 315))
        elif n == 2:
          s.internal_temperature += float(rng.normal(0, 1))
        elif n == 3:
          s.date_time += dt.timedelta(seconds=int(rng.choice([1, 40, 600, 43200, 86400])))
        elif n == 4:
          s.center_latlng = s2.LatLng.from_degrees(-s.center_latlng.lat().degrees,
                                                   s.center_latlng.lng().degrees + float(rng.choice([0, 1e-2, 40])))
        elif n == 5:
          s.mols_air += float(rng.choice([0.5, 40.0]))
        elif n == 6:
          s.envelope_volume_base *= float(rng.uniform(0.99, 1.01))
        elif n == 7:
          s.x += units.Distance(km=float(rng.choice([1, 600])))
        elif n == 8:
          atm2 = sim.atmosphere(rng)
        else:
          act2 = sim.ACTIONS[(sim.ACTIONS.index(action) + 1) % 3]
        yield observe(twin, float(u), float(v), atm2, aref if atm2 is atm else ref.Atm.like(atm2), act2, total, stride)
      if b.state.status != balloon.BalloonStatus.OK:
        break
