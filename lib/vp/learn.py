"""Learning agents, built the way the binaries build them."""
import gin
import numpy as np
from balloon_learning_environment.agents import agent as agent_lib
from balloon_learning_environment.agents import agent_registry
from balloon_learning_environment.agents import exploration
from balloon_learning_environment.utils import run_helpers

NA = 3


class Recorder(exploration.Exploration):
  """An exploration wrapper that overrides some actions and records all calls."""

  def __init__(self, num_actions, observation_shape, seed=0, rate=0.4):
    super().__init__(num_actions, observation_shape)
    self.rng = np.random.default_rng(seed)
    self.rate = rate
    self.log = []

  def _pick(self, action):
    out = int(self.rng.integers(NA)) if self.rng.random() < self.rate else action
    self.log[-1] += (int(out),)
    return out

  def begin_episode(self, observation, action):
    self.log.append(('begin', observation.copy(), int(action)))
    return self._pick(action)

  def step(self, reward, observation, action):
    self.log.append(('step', reward, observation.copy(), int(action)))
    return self._pick(action)


def bindings(kind, dim, hidden=12, layers=3, atoms=5, capacity=60, batch=8, history=20,
             horizon=1, update=2, sync=7, duration=5, eps=0.2, lr=0.01, gamma=0.97, loss=None, kappa=None, log=None):
  if kind == 'mlp':
    return [f'networks.MLPNetwork.num_layers={layers}', f'networks.MLPNetwork.hidden_units={hidden}']
  a = 'JaxDQNAgent' if kind == 'dqn' else 'JaxQuantileAgent'
  net = 'networks.MLPNetwork' if kind == 'dqn' else 'agents.networks.QuantileNetwork'
  buf = 'OutOfGraphReplayBuffer' if kind == 'dqn' else 'OutOfGraphPrioritizedReplayBuffer'
  own = ('balloon_learning_environment.agents.dqn_agent.DQNAgent' if kind == 'dqn' else 'QuantileAgent')
  out = [f'{net}.num_layers={layers}', f'{net}.hidden_units={hidden}',
         f'{a}.min_replay_history={history}', f'{a}.update_horizon={horizon}', f'{a}.gamma={gamma}',
         f'{a}.update_period={update}', f'{a}.target_update_period={sync}', f'{a}.epsilon_train={eps}',
         f'{buf}.replay_capacity={capacity}', f'{buf}.batch_size={batch}',
         f'{own}.checkpoint_duration={duration}', f'dqn_agent.create_optimizer.learning_rate={lr}']
  if log is not None:
    out.append(f'{a}.summary_writing_frequency={log}')
  if kind == 'quantile':
    out.append(f'{a}.num_atoms={atoms}')
    if kappa is not None:
      out.append(f'{a}.kappa={kappa}')
  elif loss is not None:
    out.append(f"{a}.loss_type='{loss}'")
  return out


def make(kind, dim, seed, explorer=None, extra=(), **kw):
  gin.clear_config()
  run_helpers.bind_gin_variables(kind, gin_bindings=bindings(kind, dim, **kw) + list(extra))
  args = {}
  if kind == 'quantile':
    args['exploration_wrapper_constructor'] = explorer or exploration.Exploration
  return agent_registry.agent_constructor(kind)(NA, observation_shape=(dim,), seed=seed, **args)


def dense_layers(params):
  """[(kernel, bias)] in order, as float64."""
  p = params['params'] if 'params' in params else params
  while len(p) == 1 and 'kernel' not in next(iter(p.values())):  # A module in a module.
    p = next(iter(p.values()))
  names = sorted(p, key=lambda n: int(n.rsplit('_', 1)[1]))
  return [(np.asarray(p[n]['kernel'], np.float64), np.asarray(p[n]['bias'], np.float64)) for n in names]


def forward(params, x):
  """The multi-layer perceptron, by hand."""
  h = np.asarray(x, np.float64).reshape(-1)
  layers = dense_layers(params)
  for i, (w, b) in enumerate(layers):
    h = h @ w + b
    if i < len(layers) - 1:
      h = np.maximum(h, 0.0)
  return h


def leaves(tree):
  import jax
  return [np.asarray(x).copy() for x in jax.tree_util.tree_leaves(tree)]


def same(a, b):
  return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(a, b))


def near(a, b, tol=2e-6):
  return len(a) == len(b) and all(np.allclose(x, y, rtol=1e-5, atol=tol) for x, y in zip(a, b))
