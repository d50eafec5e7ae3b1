"""Runs the train (or eval) entry point several times in one process.

stdin: JSON {runs: [{main: 'train'|'eval', flags: [...], suites: {name: [seeds, length]}}]}.
stdout (last line): JSON with an error or None per run, and what was created."""
import json
import os
import sys
import warnings

os.environ['MPLBACKEND'] = 'agg'
warnings.simplefilter('ignore')
from absl import flags
from absl import logging
import gin
from balloon_learning_environment import train_lib

cfg = json.load(sys.stdin)
logging.set_verbosity(logging.FATAL)
if cfg['main'] == 'train':
  from balloon_learning_environment import train as entry
else:
  from balloon_learning_environment.eval import eval as entry
from balloon_learning_environment.eval import suites
from balloon_learning_environment.env.rendering import matplotlib_renderer
from balloon_learning_environment.utils import run_helpers

log = []
create, loop, get_suite = run_helpers.create_agent, train_lib.run_training_loop, suites.get_eval_suite


def spy_create(*a, **k):
  ag = create(*a, **k)
  e = log[-1]
  e['agent'] = type(ag).__name__
  e['network'] = getattr(getattr(ag, 'network_def', None), 'hidden_units', None)
  e['gamma'] = getattr(ag, 'gamma', None)
  e['steps_at_start'] = getattr(ag, 'training_steps', None)
  spy_create.last = ag
  return ag


def spy_loop(base_dir, env, *a, **k):
  inner = env.unwrapped
  e = log[-1]
  e['base_dir'] = base_dir
  e['wind_field'] = type(inner.get_simulator_state().wind_field).__name__
  e['renderer'] = 'MatplotlibRenderer' if inner.metadata.get('render.modes') else None
  e['renders'] = 0
  return loop(base_dir, env, *a, **k)


show = matplotlib_renderer.MatplotlibRenderer.render


def spy_render(self, mode, *a, **k):
  log[-1]['renders'] += 1
  return show(self, 'rgb_array' if mode == 'human' else mode, *a, **k)


matplotlib_renderer.MatplotlibRenderer.render = spy_render
run_helpers.create_agent = spy_create
train_lib.run_training_loop = spy_loop
suites.get_eval_suite = lambda n: suites.EvaluationSuite(list(cfg['suites'][n][0]), cfg['suites'][n][1]) if n in cfg.get('suites', {}) else get_suite(n)
F = flags.FLAGS
for run in cfg['runs']:
  log.append({})
  F.unparse_flags()
  for n in cfg['reset']:
    F[n].value = F[n].default
    F[n].present = 0
  gin.clear_config()
  try:
    F(['x'] + run)
    entry.main(['x'])
    ag = getattr(spy_create, 'last', None)
    log[-1]['steps_at_end'] = getattr(ag, 'training_steps', None)
    spy_create.last = None
  except BaseException as e:  # pylint: disable=broad-except
    log[-1]['error'] = f'{type(e).__name__}: {e}'[:300]
    if os.environ.get('DRV_TB'):
      import traceback
      traceback.print_exc()
print('\n' + json.dumps(log))
