"""Entry point: python -m vp.main <PROPERTY-ID>."""

import faulthandler
import importlib.util
import os
import shutil
import signal
import sys
import tempfile
import threading
import traceback
import warnings


def main():
  prop = sys.argv[1]
  faulthandler.enable()
  warnings.simplefilter('ignore')
  scratch = tempfile.mkdtemp(prefix=f'vp_{prop}_')
  os.environ['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
  os.environ['TEST_TMPDIR'] = os.path.join(scratch, 'absl')
  os.makedirs(os.environ['MPLCONFIGDIR'])
  os.makedirs(os.environ['TEST_TMPDIR'])
  rc = 3
  try:
    rc = run(prop, scratch)
  finally:
    shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    # Skip interpreter teardown: jax/TF threads can take seconds.
    os._exit(rc)


def run(prop, scratch):
  from vp import core
  path = os.path.join(core.VERIF, 'checks', f'{prop}.py')
  if not os.path.exists(path):
    print(f'no check for {prop}', file=sys.stderr)
    return 3
  ctx = core.Ctx(prop)
  ctx.scratch = scratch
  # A generous wall-clock watchdog: its firing is inconclusive, never a verdict.
  limit = 850 if not ctx.thorough else 7200

  def fire():
    print(f'INCONCLUSIVE property={prop} watchdog after {limit}s', flush=True)
    faulthandler.dump_traceback()
    os._exit(4)
  timer = threading.Timer(limit, fire)
  timer.daemon = True
  timer.start()
  try:
    import absl.logging
    absl.logging.set_verbosity(absl.logging.FATAL)
    import logging
    logging.getLogger().setLevel(logging.CRITICAL)
  except ImportError:
    pass
  try:
    spec = importlib.util.spec_from_file_location(f'check_{prop}', path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    import balloon_learning_environment as ble
    assert ble.__file__.startswith(core.REPO + '/'), ble.__file__
    ctx.level = getattr(mod, 'LEVEL', 'exploration')
    ctx.rule = mod.RULE
    ctx.assumptions = list(getattr(mod, 'ASSUMPTIONS', []))
    warnings.simplefilter('ignore')
    mod.run(ctx)
    missing = {k: (ctx.counters.get(k, 0), v)
               for k, v in ctx.requirements.items()
               if ctx.counters.get(k, 0) < v}
    if missing:
      raise core.Inconclusive(f'monitor counters too low (have, need): {missing}')
    if ctx.evaluations == 0 or not ctx.distinct:
      raise core.Inconclusive('nothing was evaluated')
  except core.Violation as v:
    p = ctx.replay(v.message, v.case, traceback.format_exc())
    ctx.evidence(1)
    print(f'{prop}: {v.message}\n  case: {core.jsonable(v.case)}')
    print(f'VIOLATION property={prop} replay={p}', flush=True)
    return 1
  except core.Inconclusive as e:
    ctx.evidence(0)
    print(f'INCONCLUSIVE property={prop} {e}', flush=True)
    return 3
  except Exception as e:  # pylint: disable=broad-except
    tb = traceback.format_exc()
    if core.blame_repo(e.__traceback__) or core.missing_public(e):
      msg = f'unexpected {type(e).__name__} from the code under test: {str(e)[:500]}'
      p = ctx.replay(msg, getattr(ctx, 'current', None), tb)
      ctx.evidence(1)
      print(f'{prop}: {msg}\n{tb[-3000:]}')
      print(f'VIOLATION property={prop} replay={p}', flush=True)
      return 1
    if core.unreadable(e):
      msg = f'a result cannot be interpreted ({type(e).__name__}): {str(e)[:500]}'
      p = ctx.replay(msg, getattr(ctx, 'current', None), tb)
      ctx.evidence(1)
      print(f'{prop}: {msg}\n{tb[-3000:]}')
      print(f'VIOLATION property={prop} replay={p}', flush=True)
      return 1
    ctx.evidence(0)
    print(f'HARNESS-ERROR property={prop}\n{tb}', flush=True)
    return 3
  ctx.evidence(0)
  print(f'{prop}: held on {ctx.evaluations} evaluations '
        f'({len(ctx.distinct)} distinct) in {ctx.tier} tier; '
        f'counters={ctx.counters}', flush=True)
  return 0


if __name__ == '__main__':
  main()
