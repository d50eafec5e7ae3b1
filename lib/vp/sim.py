"""Workload helpers for the simulator monitors: balloons, atmospheres, states."""

import datetime as dt
import math

import jax
import numpy as np
import s2sphere as s2

from balloon_learning_environment.env import balloon_arena
from balloon_learning_environment.env import features
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.env.balloon import control
from balloon_learning_environment.env.balloon import stable_init
from balloon_learning_environment.env.balloon import standard_atmosphere
from balloon_learning_environment.utils import units
from vp import ref

Cmd = control.AltitudeControlCommand
ACTIONS = [Cmd.DOWN, Cmd.STAY, Cmd.UP]
UTC = dt.timezone.utc


def atmosphere(rng):
  return standard_atmosphere.Atmosphere(
      jax.random.PRNGKey(int(rng.integers(2**31))))


def rand_time(rng, lo=2011, hi=2015):
  t0 = dt.datetime(lo, 1, 1, tzinfo=UTC)
  span = int((dt.datetime(hi, 1, 1, tzinfo=UTC) - t0).total_seconds())
  return t0 + dt.timedelta(seconds=int(rng.integers(span)))


def wind(u, v):
  return wind_field.WindVector(units.Velocity(mps=float(u)),
                               units.Velocity(mps=float(v)))


def make_balloon(rng, atm, stable=True, power_layer=True, pressure=None,
                 time=None, **kw):
  """A balloon in a random but physically plausible flight condition."""
  if pressure is None:
    top = atm.at_height(units.Distance(feet=50_000.0)).pressure
    pressure = float(rng.uniform(6500.0, top))
  far = rng.random() < .15  # Further away, longer aloft, in other years.
  r, th = rng.uniform(0, 3e6 if far else 400e3), rng.uniform(0, 2 * math.pi)
  state = dict(
      center_latlng=s2.LatLng.from_degrees(
          float(rng.uniform(-10, 10) * (4 if far else 1)), float(rng.uniform(-175, 175))),
      date_time=time if time is not None else rand_time(rng, 1995, 2035) if far else rand_time(rng),
      time_elapsed=dt.timedelta(seconds=int(rng.integers(0, 86400 * (90 if far else 3)))),
      x=units.Distance(m=float(r * math.cos(th))),
      y=units.Distance(m=float(r * math.sin(th))),
      pressure=pressure,
      upwelling_infrared=float(rng.uniform(225, 315)),
      power_safety_layer_enabled=power_layer)
  state.update(kw)
  if 'battery_charge' not in state:
    state['battery_charge'] = units.Energy(
        watt_hours=float(rng.uniform(0.05, 1.0)) * 3058.56)
  b = balloon.Balloon(balloon.BalloonState(**state))
  if stable:
    stable_init.cold_start_to_stable_params(b.state, atm)
  return b


def effective(state):
  """The command that took effect in the last stride, from its ACS footprint."""
  if float(state.acs_power.watts) > 0:
    return 'DOWN'
  if float(state.acs_mass_flow) < 0:
    return 'UP'
  return 'STAY'


def arena(rng, wf=None, factory=features.PerciatelliFeatureConstructor):
  return balloon_arena.BalloonArena(
      factory,
      wf or wind_field.SimpleStaticWindField(), seed=int(rng.integers(2**31)))
