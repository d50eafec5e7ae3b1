"""Runs the eval entry point several times in one process.

stdin: JSON {out, runs: [[flag, ...], ...], suites: {name: [seeds, length]}}.
stdout (last line): JSON with what each run's agent was told to load."""
import json
import sys

from absl import flags
from absl import logging
from balloon_learning_environment.agents import station_seeker_agent
from balloon_learning_environment.eval import eval as eval_main
from balloon_learning_environment.eval import suites
from balloon_learning_environment.utils import run_helpers
import gin

cfg = json.load(sys.stdin)
logging.set_verbosity(logging.ERROR)
log = []


class Seeker(station_seeker_agent.StationSeekerAgent):
  def load_checkpoint(self, d, n):
    log[-1]['loaded'].append([d, n])


def create(name, num_actions, observation_shape):
  log[-1]['agent'] = [name, int(num_actions), [int(x) for x in observation_shape]]
  return Seeker(num_actions, observation_shape)


def suite(name):
  log[-1]['suite'] = name
  seeds, length = cfg['suites'][name]
  return suites.EvaluationSuite(list(seeds), length)


suites.get_eval_suite = suite
run_helpers.create_agent = create
F = flags.FLAGS
for run in cfg['runs']:
  log.append(dict(loaded=[]))
  F.unparse_flags()
  for n in ('agent', 'suite', 'wind_field', 'output_dir', 'num_shards', 'shard_idx', 'pretty_json', 'checkpoint_dir',
            'checkpoint_idx', 'name_override', 'renderer', 'render_period', 'gin_bindings', 'agent_gin_file'):
    F[n].value = F[n].default
  gin.clear_config()
  F(['eval'] + run)
  try:
    eval_main.main(['eval'])
  except Exception as e:  # pylint: disable=broad-except
    log[-1]['error'] = repr(e)
print('\n' + json.dumps(log))
