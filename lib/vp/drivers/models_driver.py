"""Asks for the model files under scripted conditions.

stdin: JSON [{which, cwd, path|null, gin|null}].  PYTHONPATH may point to a tree of symbolic links to /repo in which
data files lie next to models.py.  stdout (last line): JSON list of {hex}|{error}."""
import json
import os
import sys

import gin
from balloon_learning_environment.models import models

out = []
for q in json.load(sys.stdin):
  f = dict(offline=models.load_offlineskies22, perciatelli=models.load_perciatelli44)[q['which']]
  os.chdir(q['cwd'])
  gin.clear_config()
  if q['gin']:
    gin.bind_parameter(f'{f.__name__}.path', q['gin'])
  try:
    r = f() if q['path'] is None else f(q['path']) if q['positional'] else f(path=q['path'])
    out.append(dict(hex=r.hex() if isinstance(r, bytes) else repr(type(r))))
  except Exception as e:  # pylint: disable=broad-except
    out.append(dict(error=type(e).__name__))
print('\n' + json.dumps(out))
