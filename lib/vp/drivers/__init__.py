"""Entry points run in their own process (their flags conflict)."""
import json
import os
import re
import subprocess
import sys

from vp import core


def call(name, cfg, timeout=600, **env):
  here = os.path.dirname(os.path.abspath(__file__))
  p = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(here, name + '.py')], input=json.dumps(cfg),
                     capture_output=True, text=True, timeout=timeout, env=dict(os.environ, JAX_PLATFORMS='cpu', **env))
  if p.returncode:
    # The child's own traceback decides, as core.blame_repo does in this process.
    frames = re.findall(r'File "([^"]+)", line', p.stderr.rsplit('Traceback (most recent call last)', 1)[-1])
    if any('/balloon_learning_environment/' in f and not f.endswith('_test.py') for f in frames):
      raise core.Violation(f'{name} ends in an error of the code under test: ' + p.stderr[-2000:], cfg)
    raise RuntimeError(f'{name} failed: ' + p.stderr[-2000:])
  return json.loads(p.stdout.strip().splitlines()[-1])
