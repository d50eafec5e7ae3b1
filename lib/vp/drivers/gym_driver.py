"""Makes the registered environment after a scripted order of imports.

stdin: JSON {plugin: bool, before: [statement], ids: [gym id]}.  stdout (last
line): JSON {registered: [ids], made: [...], said: [warnings]}."""
import importlib
import json
import sys
import warnings

cfg = json.load(sys.stdin)
if not cfg['plugin']:
  import importlib.metadata
  points = importlib.metadata.entry_points
  importlib.metadata.entry_points = lambda *a, **kw: [] if kw.get('group') == 'gym.envs' else points(*a, **kw)
said = []
warnings.simplefilter('always')
warnings.showwarning = lambda m, *a, **kw: said.append(str(m))
for s in cfg['before']:
  exec(s)  # pylint: disable=exec-used
import gym  # pylint: disable=wrong-import-position
from gym import logger
import numpy as np
logger.warn = lambda m, *a, **kw: said.append(str(m))


class Features:

  def __init__(self, forecast, atmosphere):
    self.observation_space = gym.spaces.Box(-np.inf, np.inf, (2,))

  def observe(self, o):
    self.o = o

  def get_features(self):
    s = self.o.balloon_observation
    return np.array([s.x.m, s.pressure], np.float32)


def winds():
  m = importlib.import_module('balloon_learning_environment.env.wind_field')
  return m.SimpleStaticWindField()


def fly(e):
  out = [[float(v) for v in e.reset(seed=11)]]
  for a in (2, 0, 1):
    o, r, d, info = e.step(a)
    out.append([float(v) for v in o] + [float(r), bool(d), sorted(info)])
  return out

out = []
kw = dict(wind_field_factory=winds, feature_constructor_factory=Features, seed=3)
for i in cfg['ids']:
  try:
    e = gym.make(i, **kw)
    out.append(dict(type=f'{type(e.unwrapped).__module__}.{type(e.unwrapped).__name__}', spec=e.spec.id,
                    actions=int(e.action_space.n), flight=fly(e)))
  except Exception as x:  # pylint: disable=broad-except
    out.append(dict(error=f'{type(x).__name__}: {x}'))
b = importlib.import_module('balloon_learning_environment.env.balloon_env')
r = gym.envs.registration.registry
print('\n' + json.dumps(dict(registered=[i for i in r if 'alloon' in i], made=out, direct=fly(b.BalloonEnv(**kw)),
                             said=[s for s in said if 'verrid' in s])))
