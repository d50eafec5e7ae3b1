"""Small stand-ins for acme, dm_env, haiku and rlax, which are not installed.

Only what balloon_learning_environment's Acme entry points call is modelled,
after those libraries' documentation; everything else resolves to an empty
class, so that modules import and annotations evaluate. `install()` puts them
in sys.modules unless the real packages are there.
"""

import importlib.util
import sys
import types

import jax
import jax.numpy as jnp
import numpy as np


class Auto(types.ModuleType):
  """A module in which any capitalised name is an empty class."""

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    full = f'{self.__name__}.{name}'
    if full in sys.modules:
      return sys.modules[full]
    if name[0].isupper():
      cls = type(name, (), {})
      setattr(self, name, cls)
      return cls
    return module(full)


def module(name, **attrs):
  m = sys.modules.get(name)
  if m is None:
    m = Auto(name)
    m.__path__ = []
    sys.modules[name] = m
    if '.' in name:
      parent, leaf = name.rsplit('.', 1)
      module(parent).__dict__[leaf] = m
  m.__dict__.update(attrs)
  return m


class TimeStep:
  """As dm_env.TimeStep."""

  def __init__(self, step_type, reward, discount, observation):
    self.step_type, self.reward = step_type, reward
    self.discount, self.observation = discount, observation

  def first(self):
    return self.step_type == 0

  def last(self):
    return self.step_type == 2

  def _replace(self, **kw):
    d = dict(step_type=self.step_type, reward=self.reward, discount=self.discount,
             observation=self.observation)
    d.update(kw)
    return TimeStep(**d)


class Wrapper:
  """As acme.wrappers.EnvironmentWrapper."""

  def __init__(self, environment):
    self._environment = environment

  @property
  def environment(self):
    return self._environment

  def __getattr__(self, name):
    if name.startswith('__') or name == '_environment':
      raise AttributeError(name)
    return getattr(self._environment, name)

  def reset(self):
    return self._environment.reset()

  def step(self, action):
    return self._environment.step(action)


class GymWrapper(Wrapper):
  """gym API to dm_env API."""
  _over = True

  def reset(self):
    self._over = False
    return TimeStep(0, None, None, self._environment.reset())

  def step(self, action):
    if self._over:
      return self.reset()
    obs, reward, done, info = self._environment.step(action)
    self._over = done
    if done:
      cut = info.get('TimeLimit.truncated', False)
      return TimeStep(2, reward, 1.0 if cut else 0.0, obs)
    return TimeStep(1, reward, 1.0, obs)


class StepLimitWrapper(Wrapper):

  def __init__(self, environment, step_limit=None):
    super().__init__(environment)
    self._step_limit, self._n = step_limit, 0

  def reset(self):
    self._n = 0
    return self._environment.reset()

  def step(self, action):
    if self._step_limit is not None and self._n == -1:
      return self.reset()
    t = self._environment.step(action)
    self._n += 1
    if t.first():
      self._n = 0
    if self._step_limit is not None and self._n >= self._step_limit and not t.last():
      t = t._replace(step_type=2)
    if t.last():
      self._n = -1
    return t


def _single(x):
  if x is None:
    return None
  a = np.asarray(x)
  to = {np.dtype(np.float64): np.float32, np.dtype(np.int64): np.int32}.get(a.dtype, a.dtype)
  return a.astype(to) if isinstance(x, np.ndarray) else a.astype(to)[()]


class SinglePrecisionWrapper(Wrapper):

  def _cast(self, t):
    return t._replace(reward=_single(t.reward), discount=_single(t.discount),
                      observation=_single(t.observation))

  def reset(self):
    return self._cast(self._environment.reset())

  def step(self, action):
    return self._cast(self._environment.step(action))


class OAR:

  def __init__(self, observation, action, reward):
    self.observation, self.action, self.reward = observation, action, reward


class ObservationActionRewardWrapper(Wrapper):

  def reset(self):
    t = self._environment.reset()
    return t._replace(observation=OAR(t.observation, np.int32(0), np.float32(0)))

  def step(self, action):
    t = self._environment.step(action)
    return t._replace(observation=OAR(t.observation, action, t.reward))


def wrap_all(environment, wrappers):
  for w in wrappers:
    environment = w(environment)
  return environment


class DQNConfig:

  def __init__(self, **kw):
    self.__dict__.update(kw)


class QrDqn:

  def __init__(self, num_atoms=51, huber_param=1.0):
    self.num_atoms, self.huber_param = num_atoms, huber_param


class Builder:
  """Records what it is asked to make."""

  def __init__(self, config=None, loss_fn=None, **unused):
    self.config, self.loss_fn, self.made = config, loss_fn, []

  def make_learner(self, *args, **kw):
    self.made.append(('learner', args, kw))
    return self.learner_factory(*args, **kw) if hasattr(self, 'learner_factory') else object()

  def make_actor(self, random_key, policy, environment_spec=None, variable_source=None, adder=None):
    self.made.append(('actor', policy, variable_source, adder))
    return Actor(random_key, policy, variable_source, adder)


class Checkpointer:
  """Restores learners' parameters from `disk`: {checkpoint path: parameters}."""
  disk = {}

  def __init__(self, objects_to_save, directory='~/acme', subdirectory='default', **unused):
    root = f'{directory}/checkpoints/{subdirectory}'
    have = sorted((int(p.rsplit('-', 1)[1]), p) for p in self.disk if p.startswith(root + '/'))

    def restore(path):
      params = self.disk[path]
      for v in objects_to_save.values():
        v.params = params
      return types.SimpleNamespace(expect_partial=lambda: None)
    self._checkpoint = types.SimpleNamespace(restore=restore)
    self._checkpoint_manager = types.SimpleNamespace(latest_checkpoint=have[-1][1] if have else None)
    self.restore()

  def restore(self):
    if self._checkpoint_manager.latest_checkpoint:
      self._checkpoint.restore(self._checkpoint_manager.latest_checkpoint)


class Actor:
  """A feed-forward actor with the learner's parameters."""

  def __init__(self, key, policy, source, adder):
    self.key, self.policy, self.source, self.adder = key, policy, source, adder
    self.log = []
    self._state = None

  def select_action(self, observation):
    self.log.append(('select', observation))
    self.key, k = jax.random.split(self.key)
    eps = self._state.epsilon if self._state is not None else 0.0
    return self.policy(self.source.params, k, jnp.asarray(observation), eps)

  def observe_first(self, timestep):
    self.log.append(('first', timestep))

  def observe(self, action, next_timestep):
    self.log.append(('observe', action, next_timestep))

  def update(self, wait=False):
    self.log.append(('update', wait))


class FeedForwardNetwork:

  def __init__(self, init, apply):
    self.init, self.apply = init, apply


class Array:

  def __init__(self, shape, dtype, name=None):
    self.shape, self.dtype, self.name = tuple(shape), np.dtype(dtype), name


class BoundedArray(Array):

  def __init__(self, shape, dtype, minimum, maximum, name=None):
    super().__init__(shape, dtype, name)
    self.minimum, self.maximum = minimum, maximum


class DiscreteArray(BoundedArray):

  def __init__(self, num_values, dtype=np.int32, name=None):
    super().__init__((), dtype, 0, num_values - 1, name)
    self.num_values = num_values


class EnvironmentSpec:

  def __init__(self, observations, actions, rewards, discounts):
    self.observations, self.actions = observations, actions
    self.rewards, self.discounts = rewards, discounts


class Sampler:

  def __init__(self, epsilon):
    self.epsilon = epsilon

  def probs(self, preferences):
    p = jnp.asarray(preferences)
    best = (p == p.max(-1, keepdims=True)).astype(jnp.float32)
    best = best / best.sum(-1, keepdims=True)
    return (1 - self.epsilon) * best + self.epsilon / p.shape[-1]

  def sample(self, key, preferences):
    return jax.random.categorical(key, jnp.log(self.probs(preferences)))


def install():
  """True if the stand-ins are used."""
  missing = [n for n in ('acme', 'dm_env', 'haiku', 'rlax') if importlib.util.find_spec(n) is None]
  if len(missing) < 4:
    return False  # The real packages: this check was not built for them.
  w = dict(EnvironmentWrapper=Wrapper, GymWrapper=GymWrapper, StepLimitWrapper=StepLimitWrapper,
           SinglePrecisionWrapper=SinglePrecisionWrapper, wrap_all=wrap_all,
           ObservationActionRewardWrapper=ObservationActionRewardWrapper)
  module('dm_env', TimeStep=TimeStep)
  module('acme.wrappers', **w)
  module('acme.wrappers.gym_wrapper', GymWrapper=GymWrapper)
  module('acme.wrappers.step_limit', StepLimitWrapper=StepLimitWrapper)
  module('acme.wrappers.single_precision', SinglePrecisionWrapper=SinglePrecisionWrapper)
  module('acme.wrappers.observation_action_reward', OAR=OAR,
         ObservationActionRewardWrapper=ObservationActionRewardWrapper)
  specs = dict(Array=Array, BoundedArray=BoundedArray, DiscreteArray=DiscreteArray,
               EnvironmentSpec=EnvironmentSpec)
  module('acme.specs', **specs)
  module('acme.agents.jax.dqn', DQNConfig=DQNConfig, QrDqn=QrDqn, DQNBuilder=Builder)
  module('acme.agents.jax.r2d2')
  module('acme.core')
  module('acme.adders')
  module('acme.jax.networks', FeedForwardNetwork=FeedForwardNetwork)
  for n in ('base', 'duelling', 'embedding'):
    module(f'acme.jax.networks.{n}')
  module('acme.jax.utils',
         zeros_like=lambda s: jax.tree_util.tree_map(lambda a: jnp.zeros(a.shape, a.dtype), s),
         tile_nested=lambda t, n: jax.tree_util.tree_map(
             lambda a: jnp.tile(jnp.expand_dims(a, 0), [n] + [1] * a.ndim), t),
         add_batch_dim=lambda t: jax.tree_util.tree_map(lambda a: jnp.expand_dims(a, 0), t),
         squeeze_batch_dim=lambda t: jax.tree_util.tree_map(lambda a: jnp.squeeze(a, 0), t))
  module('acme.tf.savers', Checkpointer=Checkpointer)
  module('haiku')
  module('rlax', epsilon_greedy=lambda epsilon=None: Sampler(epsilon), greedy=lambda: Sampler(0.0))
  return True
