"""Independent reference models, in plain Python floats.

Nothing here imports the code under test: every formula is restated from the
documented model (U.S. Standard Atmosphere layers, NOAA solar position, the
PE01 film heat balance, the elastic-envelope gas law, the compressor tables),
so a monitor can compare what the simulator did with what the model says.
"""

import bisect
import datetime as dt
import math

R = 8.3144621
G = 9.80665
M_AIR = 0.028964922481160
M_HE = 0.004002602
RS_AIR = R / M_AIR
EARTH_M = 6371000.0
MIN_EL = -4.242
FT = 0.3048
UTC = dt.timezone.utc


# ---------------------------------------------------------------- atmosphere
class Atm:
  H = [-610.0, 17000.0, 21000.0, 32000.0, 47000.0, 51000.0, 71000.0, 85000.0]
  LOW = [-0.007, 0.006, 0.001, 0.0028, 0.0, -0.0028, -0.002]
  HIGH = [-0.0058, 0.005, 0.001, 0.0028, 0.0, -0.0028, -0.002]

  def __init__(self, alpha):
    self.alpha = alpha
    self.L = [(1 - alpha) * a + alpha * b for a, b in zip(self.LOW, self.HIGH)]
    self.T = [300.0]
    self.P = [108870.8213]
    for i, l in enumerate(self.L):
      dh = self.H[i + 1] - self.H[i]
      t = self.T[-1] + l * dh
      if l == 0.0:
        p = self.P[-1] * math.exp(-G * dh / (RS_AIR * t))
      else:
        p = self.P[-1] * (t / self.T[-1])**(-G / (RS_AIR * l))
      self.T.append(t)
      self.P.append(p)

  @classmethod
  def like(cls, atmosphere):
    """The reference atmosphere with the same lapse mix as `atmosphere`."""
    from balloon_learning_environment.utils import units
    t0 = atmosphere.at_height(units.Distance(meters=0.0)).temperature
    return cls(((t0 - 300.0) / 610.0 + 0.007) / 0.0012)

  def at_height(self, h):
    i = next(k for k in range(7) if h < self.H[k + 1])
    t = self.T[i] + self.L[i] * (h - self.H[i])
    if self.L[i] == 0.0:
      p = self.P[i] * math.exp(-G * (h - self.H[i]) / (RS_AIR * t))
    else:
      p = self.P[i] * (t / self.T[i])**(-G / (RS_AIR * self.L[i]))
    return h, t, p, p / (RS_AIR * t)

  def at_pressure(self, p):
    i = next(k for k in range(7) if p > self.P[k + 1])
    if self.L[i] == 0.0:
      h = -RS_AIR * self.T[i] / G * math.log(p / self.P[i]) + self.H[i]
    else:
      h = ((p / self.P[i])**(-RS_AIR * self.L[i] / G) -
           1) * self.T[i] / self.L[i] + self.H[i]
    t = self.T[i] + self.L[i] * (h - self.H[i])
    return h, t, p, p / (RS_AIR * t)


# --------------------------------------------------------------------- solar
def _julian_day_0h(d):
  # Proleptic Gregorian ordinal -> Julian day at 0h UT.
  return d.toordinal() + 1721424.5


def solar(lat_deg, lng_deg, time):
  """(elevation deg, azimuth deg, flux W/m2): the NOAA solar calculator."""
  time = time.astimezone(UTC)
  sec = time.hour * 3600 + time.minute * 60 + time.second
  frac = sec / 86400.0
  T = (_julian_day_0h(time.date()) + frac - 2451545.0) / 36525.0
  L0 = math.radians(280.46646 + T * (36000.76983 + T * 0.0003032))
  M = math.radians(357.52911 + T * (35999.05029 - 0.0001537 * T))
  e = 0.016708634 - T * (0.000042037 + 0.0000001267 * T)
  eps0 = math.radians(
      23.0 + (26.0 + (21.448 - T * (46.815 + T * (0.00059 - T * 0.001813)))
              / 60.0) / 60.0)
  om = math.radians(125.04 - 1934.136 * T)
  eps = eps0 + math.radians(0.00256 * math.cos(om))
  y = math.tan(eps / 2)**2
  eqt = 4.0 * (y * math.sin(2 * L0) - 2 * e * math.sin(M) +
               4 * e * y * math.sin(M) * math.cos(2 * L0) -
               0.5 * y * y * math.sin(4 * L0) - 1.25 * e * e * math.sin(2 * M))
  # eqt is in (radians*4); minutes of time = degrees(eqt).
  tst = (1440.0 * frac + math.degrees(eqt) + 4.0 * lng_deg) % 1440.0
  ha = math.radians(tst / 4.0 - 180.0)
  c = math.radians(math.sin(M) * (1.914602 - T * (0.004817 + 0.000014 * T)) +
                   math.sin(2 * M) * (0.019993 - 0.000101 * T) +
                   math.sin(3 * M) * 0.000289)
  lam = L0 + c - math.radians(0.00569 - 0.00478 * math.sin(om))
  dec = math.asin(math.sin(eps) * math.sin(lam))
  la = math.radians(lat_deg)
  cz = math.sin(la) * math.sin(dec) + math.cos(la) * math.cos(dec) * math.cos(ha)
  z = math.acos(min(1.0, max(-1.0, cz)))
  el0 = 90.0 - math.degrees(z)
  el = el0 + refraction(el0)
  # Azimuth clockwise from north, from the sun's horizontal components.
  east = -math.cos(dec) * math.sin(ha)
  north = (math.sin(dec) * math.cos(la) -
           math.cos(dec) * math.cos(ha) * math.sin(la))
  az = math.degrees(math.atan2(east, north)) % 360.0
  flux = 1366.0 * (1 + 0.5 * (((1 + e) / (1 - e))**2 - 1) * math.cos(M))
  return el, az, flux


def refraction(el):
  """Atmospheric refraction in degrees for an uncorrected elevation (deg)."""
  if el > 85.0:
    return 0.0
  if el > 5.0:
    t = math.tan(math.radians(el))
    r = 58.1 / t - 0.07 / t**3 + 0.000086 / t**5
  elif el > -0.575:
    r = 1735.0 + el * (-518.2 + el * (103.4 + el * (-12.79 + el * 0.711)))
  else:
    r = -20.772 / math.tan(math.radians(el))
  return r / 3600.0


def almanac(lat_deg, lng_deg, time):
  """Geometric (elevation, azimuth) from the Astronomical Almanac's
  low-precision formula -- a second, unrelated model good to ~0.02 deg."""
  time = time.astimezone(UTC)
  n = (time - dt.datetime(2000, 1, 1, 12, tzinfo=UTC)).total_seconds() / 86400
  L = math.radians((280.460 + 0.9856474 * n) % 360)
  g = math.radians((357.528 + 0.9856003 * n) % 360)
  lam = L + math.radians(1.915 * math.sin(g) + 0.020 * math.sin(2 * g))
  eps = math.radians(23.439 - 0.0000004 * n)
  ra = math.atan2(math.cos(eps) * math.sin(lam), math.cos(lam))
  dec = math.asin(math.sin(eps) * math.sin(lam))
  gmst = math.radians((280.46061837 + 360.98564736629 * n) % 360)
  ha = gmst + math.radians(lng_deg) - ra
  la = math.radians(lat_deg)
  up = math.sin(la) * math.sin(dec) + math.cos(la) * math.cos(dec) * math.cos(ha)
  el = math.degrees(math.asin(max(-1.0, min(1.0, up))))
  east = -math.cos(dec) * math.sin(ha)
  north = math.sin(dec) * math.cos(la) - math.cos(dec) * math.cos(ha) * math.sin(la)
  return el, math.degrees(math.atan2(east, north)) % 360.0


def attenuation(el, pressure):
  if el < MIN_EL:
    return 0.0
  s = 614.0 * math.sin(math.radians(el))
  airmass = 0.34764 * (pressure / 101325.0) * (math.sqrt(1229.0 + s * s) - s)
  return 0.5 * (math.exp(-0.65 * airmass) + math.exp(-0.95 * airmass))


def shadow(el, h):
  lim = math.degrees(math.atan2(math.sqrt(h * (10.41603 + h)), 8.69275))
  return 0.4392 if el >= lim else 1.0


def solar_power(el, pressure):
  return 210.0 * attenuation(el, pressure) * (
      4 * math.cos(math.radians(el - 35)) * shadow(el, 3.3) +
      2 * math.cos(math.radians(el - 65)) * shadow(el, 2.7))


# ------------------------------------------------------------------ geometry
def offset_latlng(lat_deg, lng_deg, x_m, y_m):
  """Great-circle offset: walk hypot(x,y) along heading atan2(x,y)."""
  d = math.hypot(x_m, y_m) / EARTH_M
  # 3-D vector form, unlike the trigonometric form used by the code.
  la, lo = math.radians(lat_deg), math.radians(lng_deg)
  up = (math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la))
  east = (-math.sin(lo), math.cos(lo), 0.0)
  north = (-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo),
           math.cos(la))
  if x_m == 0 and y_m == 0:
    return lat_deg, lng_deg
  h = math.hypot(x_m, y_m)
  v = [math.cos(d) * u + math.sin(d) * (x_m / h * e + y_m / h * n)
       for u, e, n in zip(up, east, north)]
  return (math.degrees(math.atan2(v[2], math.hypot(v[0], v[1]))),
          math.degrees(math.atan2(v[1], v[0])))


# ------------------------------------------------------------------- thermal
SB = 5.6704e-8
REFL = 0.0291


def _total_abs(a):
  return a * (1.0 + (1.0 - a - REFL) / (1.0 - REFL))


def _abs_ir(t):
  return 0.04587 + 0.000232 * (t - 210.0)


def dtemp_dt(volume, mass, tb, ta, p, el, flux, ir):
  r = (3.0 * volume / (4.0 * math.pi))**(1.0 / 3.0)
  area = 4.0 * math.pi * r * r
  q_sun = flux * attenuation(el, p) * 0.25 * _total_abs(0.01435)
  q_ir = ir * 0.4605 * _total_abs(_abs_ir((ir / SB)**0.25))
  q_out = SB * tb**4 * _total_abs(_abs_ir(tb))
  mu = 1.458e-6 * ta**1.5 / (ta + 110.4)
  k = 0.0241 * (ta / 273.15)**0.9
  pr = 0.804 - 3.25e-4 * ta
  rho = p * M_AIR / (R * ta)
  gr = G * rho**2 * (2 * r)**3 / (ta * mu**2) * abs(ta - tb)
  ra = pr * gr
  nu = 2.0 + 0.457 * ra**0.25 + (1.0 + 2.69e-8 * ra)**(1.0 / 12.0)
  q_conv = nu * k / (2 * r) * (ta - tb)
  return area * (q_sun + q_ir + q_conv - q_out) / (1500.0 * mass)


# ----------------------------------------------------------------- gas / ACS
def volume_superpressure(n_he, n_air, t, p, v0, dv):
  """Elastic envelope: V = v0 + dv*sp and (p+sp) V = nRT, else limp."""
  vu = (n_he + n_air) * R * t / p
  if vu <= v0:
    return vu, 0.0
  # dv*sp^2 + (v0 + dv*p)*sp - (nRT - p*v0) = 0, positive root, stable form.
  b = v0 + dv * p
  c = (n_he + n_air) * R * t - p * v0
  sp = 2.0 * c / (b + math.sqrt(b * b + 4.0 * dv * c))
  return v0 + dv * sp, sp


def _interp(xs, ys, x):
  i = min(max(bisect.bisect_right(xs, x) - 1, 0), len(xs) - 2)
  f = (x - xs[i]) / (xs[i + 1] - xs[i])
  return ys[i] + f * (ys[i + 1] - ys[i])


def acs_power(ratio):
  return _interp([1.0, 1.05, 1.2, 1.25, 1.35], [100., 100., 300., 400., 400.],
                 ratio)


EFF_R = [1.05 + 0.025 * i for i in range(13)]
EFF_P = [100., 200., 300., 400.]
# 13 pressure ratios for each of four power levels.
EFF_FLAT = [0.4, 0.4, 0.3, 0.2, 0.2, 0, 0, 0, 0, 0, 0, 0, 0,
            0.4, 0.3, 0.3, 0.30, 0.25, 0.23, 0.20, 0.15, 0.12, 0.10, 0, 0, 0,
            0, 0.3, 0.25, 0.25, 0.25, 0.20, 0.20, 0.20, 0.2, 0.15, 0.13, 0.12,
            0.11, 0, 0.23, 0.23, 0.23, 0.23, 0.23, 0.20, 0.20, 0.20, 0.18, 0.16,
            0.15, 0.13]


def fan_efficiency(ratio, watts):
  """Bilinear in (pressure ratio, power); clamped at the table's edges."""
  r = min(max(ratio, EFF_R[0]), EFF_R[-1])
  w = min(max(watts, EFF_P[0]), EFF_P[-1])
  rows = [_interp(EFF_R, EFF_FLAT[13 * k:13 * k + 13], r) for k in range(4)]
  return _interp(EFF_P, rows, w)


def fan_efficiency_transposed(ratio, watts):
  """The same 52 numbers read ratio-major (known finding, see DESIGN.md)."""
  r = min(max(ratio, EFF_R[0]), EFF_R[-1])
  w = min(max(watts, EFF_P[0]), EFF_P[-1])
  cols = [_interp(EFF_P, EFF_FLAT[4 * k:4 * k + 4], w) for k in range(13)]
  return _interp(EFF_R, cols, r)


# Which efficiency the stepping reference uses.  The stepping monitors replace
# it with the code's own lookup: the lookup itself is P23's business.
efficiency_fn = fan_efficiency_transposed


def mass_flow(watts, efficiency):
  return efficiency * watts / 3600.0


# ------------------------------------------------------------ balloon stepping
class S:
  """A plain copy of the balloon state variables, SI units."""

  FIELDS = ('x y pressure ambient internal vol sp n_air n_he acs_w flow solar_w '
            'load_w batt_wh t elapsed status').split()

  def __init__(self, b):
    self.lat0 = b.center_latlng.lat().degrees
    self.lng0 = b.center_latlng.lng().degrees
    self.x, self.y = b.x.meters, b.y.meters
    self.pressure = float(b.pressure)
    self.ambient = float(b.ambient_temperature)
    self.internal = float(b.internal_temperature)
    self.vol = float(b.envelope_volume)
    self.sp = float(b.superpressure)
    self.n_air, self.n_he = float(b.mols_air), float(b.mols_lift_gas)
    self.acs_w = float(b.acs_power.watts)
    self.flow = float(b.acs_mass_flow)
    self.solar_w = float(b.solar_charging.watts)
    self.load_w = float(b.power_load.watts)
    self.batt_wh = float(b.battery_charge.watt_hours)
    self.cap_wh = float(b.battery_capacity.watt_hours)
    self.day_w = float(b.daytime_power_load.watts)
    self.night_w = float(b.nighttime_power_load.watts)
    self.v0, self.dv = b.envelope_volume_base, b.envelope_volume_dv_pressure
    self.m_env, self.m_pay = b.envelope_mass, b.payload_mass
    self.sp_max, self.cod = b.envelope_max_superpressure, b.envelope_cod
    self.hole_m = b.acs_valve_hole_diameter.meters
    self.ir = float(b.upwelling_infrared)
    self.t, self.elapsed = b.date_time, b.time_elapsed
    self.status = b.status.name

  def latlng(self):
    return offset_latlng(self.lat0, self.lng0, self.x, self.y)

  def ratio(self):
    return (self.pressure + max(self.sp, 0.0)) / self.pressure

  def diff(self, other, fields=None, rtol=1e-9):
    """Fields on which two states disagree beyond rounding."""
    out = {}
    for f in fields or self.FIELDS:
      a, b = getattr(self, f), getattr(other, f)
      if isinstance(a, float):
        scale = {'n_air': 5000.0, 'sp': 2380.0, 'x': 1e3, 'y': 1e3,
                 'batt_wh': 3058.0, 'solar_w': 100.0, 'flow': 1e-2,
                 'acs_w': 100.0}.get(f, 0.0)
        if not abs(a - b) <= rtol * max(abs(a), abs(b), scale):
          out[f] = (a, b)
      elif a != b:
        out[f] = (str(a), str(b))
    return out


def sub_step(s, u, v, atm, action, dt_s):
  """One explicit-Euler stride: returns a new S. action in DOWN/STAY/UP."""
  import copy
  n = copy.copy(s)
  n.x, n.y = s.x + u * dt_s, s.y + v * dt_s
  # Vertical: terminal velocity where buoyancy balances drag.
  rho = s.pressure * M_AIR / (R * s.ambient)
  mass = M_HE * s.n_he + M_AIR * s.n_air + s.m_env + s.m_pay
  lift = rho * s.vol - mass
  sign = 1.0 if lift >= 0 else -1.0
  w = sign * math.sqrt(abs(2 * lift * G / (rho * s.cod * s.vol**(2 / 3))))
  h0 = atm.at_pressure(s.pressure)[0]
  h1 = atm.at_pressure(s.pressure + sign)[0]
  n.pressure = s.pressure + (sign / (h1 - h0)) * w * dt_s
  # Thermal.
  la, lo = s.latlng()
  el, _, flux = solar(la, lo, s.t)
  n.ambient = atm.at_pressure(s.pressure)[1]
  n.internal = s.internal + dt_s * dtemp_dt(
      s.vol, s.m_env, s.internal, s.ambient, s.pressure, el, flux, s.ir)
  # Gas.
  n.vol, n.sp = volume_superpressure(s.n_he, s.n_air, s.internal, s.pressure,
                                     s.v0, s.dv)
  if n.sp > s.sp_max:
    n.status = 'BURST'
  if n.sp <= 0.0:
    n.status = 'ZEROPRESSURE'
  # Altitude control.
  n.acs_w, n.flow = 0.0, 0.0
  if action == 'UP':
    area = math.pi * s.hole_m**2 / 4
    rho_gas = (s.sp + s.pressure) * M_AIR / (R * s.internal)
    n.flow = -0.62 * area * math.sqrt(2.0 * s.sp * rho_gas)
  elif action == 'DOWN':
    n.acs_w = acs_power(s.ratio())
    n.flow = mass_flow(n.acs_w, efficiency_fn(s.ratio(), n.acs_w))
  n.n_air = max(0.0, s.n_air + n.flow / M_AIR * dt_s)
  # Energy.
  day = el > MIN_EL
  n.solar_w = solar_power(el, s.pressure) if day else 0.0
  n.load_w = (s.day_w if day else s.night_w) + n.acs_w
  n.batt_wh = min(s.cap_wh, max(
      0.0, s.batt_wh + (n.solar_w - n.load_w) * dt_s / 3600.0))
  if n.batt_wh <= 0.0:
    n.status = 'OUT_OF_POWER'
  d = dt.timedelta(seconds=dt_s)
  n.t, n.elapsed = s.t + d, s.elapsed + d
  n.el = el
  return n


def agent_step(s, u, v, atm, action, total_s=180, stride_s=10):
  for _ in range(total_s // stride_s):
    s = sub_step(s, u, v, atm, action, stride_s)
    if s.status != 'OK':
      break
  return s


def stable(pressure, v0, dv, m_env, m_pay, n_he, lat, lng, t, ir, atm):
  """Float equilibrium: (ambient, internal, n_air, vol, sp)."""
  ta = atm.at_pressure(pressure)[1]
  n_air = max(0.0, (pressure * M_AIR * v0 / (R * ta) - m_env - m_pay -
                    M_HE * n_he) / M_AIR)
  el, _, flux = solar(lat, lng, t)
  f = lambda x: dtemp_dt(v0, m_env, x, ta, pressure, el, flux, ir)
  lo, hi = 100.0, 400.0
  for _ in range(200):
    mid = 0.5 * (lo + hi)
    if f(mid) > 0:
      lo = mid
    else:
      hi = mid
  ti = 0.5 * (lo + hi)
  vol, sp = volume_superpressure(n_he, n_air, ti, pressure, v0, dv)
  return ta, ti, n_air, vol, sp


# -------------------------------------------------------------- safety layers
class AltitudeSafety:
  """50,000 ft floor with a 500 ft buffer and 500 ft restart hysteresis."""

  def __init__(self):
    self.state = 'NOMINAL'

  def step(self, action, altitude_m):
    ft = altitude_m / FT
    if ft < 50000.0:
      self.state = 'VERY_LOW'
    elif ft < 50500.0:
      self.state = 'LOW'
    elif ft < 51000.0:
      self.state = 'NOMINAL' if self.state == 'NOMINAL' else 'LOW'
    else:
      self.state = 'NOMINAL'
    if self.state == 'VERY_LOW':
      return 'UP'
    if self.state == 'LOW' and action == 'DOWN':
      return 'STAY'
    return action

  @property
  def paused(self):
    return self.state != 'NOMINAL'


class EnvelopeSafety:

  def __init__(self, sp_max):
    self.sp_max = sp_max
    self.state = 'NOMINAL'

  def step(self, action, sp):
    m = self.sp_max
    if sp < 150:
      self.state = 'LOW_CRITICAL'
    elif sp < 250:
      self.state = 'LOW'
    elif sp < 300:
      self.state = 'LOW' if self.state.startswith('LOW') else 'NOMINAL'
    elif sp < m - 300:
      self.state = 'NOMINAL'
    elif sp < m - 250:
      self.state = 'HIGH' if self.state.startswith('HIGH') else 'NOMINAL'
    elif sp < m - 150:
      self.state = 'HIGH'
    else:
      self.state = 'HIGH_CRITICAL'
    if self.state.endswith('CRITICAL'):
      return 'UP'
    if self.state != 'NOMINAL' and action == 'DOWN':
      return 'STAY'
    return action

  @property
  def paused(self):
    return self.state != 'NOMINAL'


class PowerSafety:
  """Pause descent at night when the battery would not last until 30 min
  after sunrise with 2.5% to spare; by day resume once SOC reaches 5%."""

  def __init__(self, sunrise, sunset):
    self.rise, self.set = sunrise + dt.timedelta(minutes=30), sunset
    self.paused = False
    self.margin = None

  def step(self, action, t, night_w, batt_wh, cap_wh):
    day = dt.timedelta(days=1)
    while t > self.rise:
      self.rise += day
    while t > self.set:
      self.set += day
    self.is_day = self.set < self.rise
    self.margin = None
    if self.is_day:
      self.margin = batt_wh / cap_wh - 0.05
      if self.paused and self.margin >= 0:
        self.paused = False
    elif not self.paused:
      need = night_w * (self.rise - t).total_seconds() / 3600.0
      self.margin = (batt_wh - need) / cap_wh - 0.025
      self.paused = self.margin < 0
    if self.paused and action == 'DOWN':
      return 'STAY'
    return action
