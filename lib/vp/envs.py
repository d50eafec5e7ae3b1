"""Environment-level workload helpers."""

import dataclasses
import functools
import os

import gym
import jax
import numpy as np

from balloon_learning_environment.env import balloon_env
from balloon_learning_environment.env import features
from balloon_learning_environment.env import grid_based_wind_field
from balloon_learning_environment.env import grid_wind_field_sampler
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.generative import vae
from balloon_learning_environment.utils import units
from vp import ref


class SmoothSampler(grid_wind_field_sampler.GridWindFieldSampler):
  """Random smooth grid winds from the key alone: stands in for the VAE
  weights, which are not shipped."""

  @property
  def field_shape(self):
    return vae.FieldShape()

  def sample_field(self, key, date_time):
    s = self.field_shape.grid_shape()
    r = np.random.default_rng(int(jax.random.randint(key, (), 0, 2**31 - 1)))
    a = [np.linspace(0, 1, n) for n in s[:4]]
    out = np.zeros(s, dtype=np.float32)
    g = np.meshgrid(*a, indexing='ij')
    for c in range(2):
      for _ in range(5):
        w = r.normal(0, 4, 4)
        out[..., c] += r.normal(0, 5) * np.cos(
            sum(wi * gi for wi, gi in zip(w, g)) + r.uniform(0, 6.28))
    return out


class Plain(features.FeatureConstructor):
  """A small observation, for flying many steps."""

  def __init__(self, forecast, atmosphere):
    pass

  def observe(self, observation):
    self.last = observation

  def get_features(self):
    s, w = self.last.balloon_observation, self.last.wind_at_balloon
    return np.array([s.x.m, s.y.m, s.pressure, w.u.mps, w.v.mps], dtype=np.float32)

  @property
  def observation_space(self):
    return gym.spaces.Box(-np.inf, np.inf, (5,))


def grid_field():
  return grid_based_wind_field.GridBasedWindField(SmoothSampler())


def make_env(seed, wf=wind_field.SimpleStaticWindField, **kw):
  return balloon_env.BalloonEnv(wind_field_factory=wf, seed=seed, **kw)


def decoder_file(scratch, seed=0, scale=1.0):
  """A synthetic decoder weight file, so that the generative wind field runs."""
  import flax.serialization
  z = np.zeros(64, dtype=np.float32)
  p = vae.Decoder().init(jax.random.PRNGKey(seed), z)
  if scale != 1.0:
    p = jax.tree_util.tree_map(lambda a: a * scale, p)
  path = os.path.join(scratch, f'decoder_{seed}_{scale}.msgpack')
  with open(path, 'wb') as f:
    f.write(flax.serialization.msgpack_serialize(
        jax.tree_util.tree_map(np.asarray, jax.device_get(p))))
  return path


def state_vec(s):
  """All scalars of a balloon state, for exact comparison."""
  out = {}
  for f in dataclasses.fields(s):
    v = getattr(s, f.name)
    if f.name.endswith('_safety_layer'):
      v = bool(v.navigation_is_paused)
    elif hasattr(v, 'meters'):
      v = float(v.meters)
    elif hasattr(v, 'watts'):
      v = float(v.watts)
    elif hasattr(v, 'watt_hours'):
      v = float(v.watt_hours)
    elif hasattr(v, 'lat') and hasattr(v, 'lng'):
      v = (v.lat().degrees, v.lng().degrees)
    elif hasattr(v, 'name'):
      v = v.name
    elif isinstance(v, (int, float, np.generic)):
      v = float(v)
    elif hasattr(v, 'item'):
      v = float(v)
    else:
      v = str(v)
    out[f.name] = v
  return out


def vec_diff(a, b, rtol=0.0):
  out = {}
  for k in a:
    x, y = a[k], b[k]
    if isinstance(x, float) and isinstance(y, float):
      if not (x == y or abs(x - y) <= rtol * max(1.0, abs(x), abs(y))):
        out[k] = (x, y)
    elif x != y:
      out[k] = (x, y)
  return out


def place(env, rng, **changes):
  """Replaces fields of the balloon state in a live environment."""
  s = env.arena.get_balloon_state()
  env.arena.set_balloon_state(dataclasses.replace(s, **changes))


def km(rng, lo=0.0, hi=600.0):
  r, th = rng.uniform(lo, hi), rng.uniform(0, 2 * np.pi)
  return dict(x=units.Distance(km=float(r * np.cos(th))),
              y=units.Distance(km=float(r * np.sin(th))))
