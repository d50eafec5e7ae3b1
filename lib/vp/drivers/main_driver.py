"""Runs one module of the package as a program, as `python -m` does.

stdin: JSON {module, flags, suites: {name: [seeds, length]}}; stdout (last line): JSON with the exit code or error."""
import json
import os
import runpy
import sys
import warnings

os.environ['MPLBACKEND'] = 'agg'
warnings.simplefilter('ignore')
cfg = json.load(sys.stdin)
if cfg.get('suites'):
  from balloon_learning_environment.eval import suites
  suites.get_eval_suite = lambda n: suites.EvaluationSuite(list(cfg['suites'][n][0]), cfg['suites'][n][1])
sys.argv = [cfg['module']] + cfg['flags']
out = 'returned'
try:
  runpy.run_module(cfg['module'], run_name='__main__', alter_sys=True)
except SystemExit as e:
  out = e.code or 0
except BaseException as e:  # pylint: disable=broad-except
  out = f'{type(e).__name__}: {e}'[:300]
print('\n' + json.dumps(dict(out=out)))
