"""Runs the combine_eval_shards entry point several times in one process."""
import json
import sys

from absl import flags
from balloon_learning_environment.eval import combine_eval_shards

cfg = json.load(sys.stdin)
F = flags.FLAGS
out = []
for run in cfg['runs']:
  F.unparse_flags()
  for n in ('path', 'models', 'pretty_json', 'flight_paths'):
    F[n].value = F[n].default
  F(['combine'] + run)
  try:
    combine_eval_shards.main(['combine'])
    out.append(None)
  except Exception as e:  # pylint: disable=broad-except
    out.append(repr(e))
print('\n' + json.dumps(out))
