"""Shared monitor machinery: verdicts, counters, evidence, replay files.

Verdicts are three-valued:
  held         -> exit 0
  violated     -> exit 1 and `VIOLATION property=<id> replay=<path>` on stdout
  inconclusive -> exit 3 (the deciding monitor was not reached often enough, or
                  the harness itself failed)
"""

import hashlib
import json
import math
import os
import time
import traceback
import zlib

import numpy as np

from vp import poison

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = '/repo'
PKG_DIR = os.path.join(REPO, 'balloon_learning_environment')


class Violation(Exception):
  """The code under test broke the property."""

  def __init__(self, message, case=None):
    super().__init__(message)
    self.message = message
    self.case = case


class Inconclusive(Exception):
  """The monitor did not observe enough to decide."""


def jsonable(x, depth=0):
  if depth > 6:
    return repr(x)[:200]
  if isinstance(x, (str, int, bool)) or x is None:
    return x
  if isinstance(x, float):
    return x if math.isfinite(x) else repr(x)
  if isinstance(x, dict):
    return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
  if isinstance(x, (list, tuple, set, frozenset)):
    return [jsonable(v, depth + 1) for v in list(x)[:60]]
  if isinstance(x, np.ndarray):
    if x.size <= 32:
      return jsonable(x.tolist(), depth + 1)
    return f'ndarray shape={x.shape} dtype={x.dtype} head={x.ravel()[:6].tolist()}'
  if isinstance(x, np.generic):
    return jsonable(x.item(), depth + 1)
  return repr(x)[:300]


class Ctx:
  """One monitor run."""

  def __init__(self, prop, level='exploration', quiet=False):
    self.prop = prop
    self.level = level
    self.tier = os.environ.get('VERIF_TIER', 'quick')
    if self.tier not in ('quick', 'thorough'):
      self.tier = 'quick'
    self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    self.thorough = self.tier == 'thorough'
    self.rng = np.random.default_rng([self.seed, zlib.crc32(prop.encode())])
    self.t0 = time.time()
    self.evaluations = 0
    self.distinct = set()
    self.counters = {}
    self.samples = []
    self.rule = ''
    self.assumptions = []
    self.requirements = {}
    self.known_hits = {}
    self.scratch = None
    self._known = None

  # -- workload sizing and randomness.
  def n(self, quick, thorough):
    return thorough if self.thorough else quick

  def sub_rng(self, *key):
    return np.random.default_rng(
        [self.seed, zlib.crc32(self.prop.encode())] +
        [zlib.crc32(repr(k).encode()) for k in key])

  # -- accounting.
  def ev(self, key=None, nontrivial=True, n=1):
    """One evaluated case; `key` identifies it for the distinct count."""
    self.evaluations += n
    if nontrivial and key is not None:
      self.distinct.add(
          hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

  def count(self, name, n=1):
    self.counters[name] = self.counters.get(name, 0) + n

  def sample(self, obj, cap=6):
    if len(self.samples) < cap:
      self.samples.append(jsonable(obj))

  def require(self, name, minimum=1):
    """The run is inconclusive unless counter `name` reaches `minimum`."""
    self.requirements[name] = max(minimum, self.requirements.get(name, 0))

  # -- oracles.
  def check(self, cond, message, /, **case):
    if not cond:
      raise Violation(message, case)

  def close(self, got, want, message, rtol=1e-9, atol=1e-9, /, **case):
    g = np.asarray(got, dtype=float)
    w = np.asarray(want, dtype=float)
    ok = g.shape == w.shape and bool(
        np.all(np.abs(g - w) <= atol + rtol * np.abs(w)))
    if not ok:
      case = dict(case)
      case['got'], case['want'] = got, want
      raise Violation(message, case)

  def raises(self, fn, exc, message, /, **case):
    """fn() must raise one of `exc`."""
    try:
      r = fn()
    except exc:
      return
    except Exception as e:  # pylint: disable=broad-except
      raise Violation(f'{message}: raised {type(e).__name__}: {e}', case)
    case = dict(case)
    case['returned'] = r
    raise Violation(f'{message}: nothing raised', case)

  def known(self, key, message, /, **case):
    """A violation that known_findings.jsonl may list under `key`."""
    if self._known is None:
      self._known = {}
      path = os.path.join(VERIF, 'known_findings.jsonl')
      if os.path.exists(path):
        for line in open(path):
          line = line.strip()
          if not line:
            continue
          rec = json.loads(line)
          if rec.get('status') == 'known' and rec['property'] == self.prop:
            self._known[rec['key']] = rec['what']
    if key not in self._known:
      raise Violation(message, case)
    if key not in self.known_hits:
      print(f'KNOWN-FINDING: property={self.prop} {self._known[key]}', flush=True)
    self.known_hits[key] = self.known_hits.get(key, 0) + 1

  # -- finishing.
  def evidence(self, violations):
    cov = {
        'evaluations': int(self.evaluations),
        'distinct_nontrivial': len(self.distinct),
        'rule': self.rule,
        'samples': self.samples[:8],
        'poisoned_arrays': poison.fills,
        'monitor_counters': {k: jsonable(v) for k, v in sorted(self.counters.items())},
    }
    if self.known_hits:
      cov['known_findings_hit'] = dict(self.known_hits)
    rec = {
        'property': self.prop,
        'tier': self.tier,
        'seed': self.seed,
        'level': self.level,
        'coverage': cov,
        'assumptions': list(self.assumptions),
        'wall_s': round(time.time() - self.t0, 3),
        'violations': violations,
    }
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{self.prop}.json')
    with open(path + '.tmp', 'w') as f:
      json.dump(rec, f, indent=1, sort_keys=True)
    os.replace(path + '.tmp', path)

  def replay(self, message, case, tb):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{self.prop}_{self.tier}_{self.seed}.json')
    with open(path, 'w') as f:
      json.dump({
          'property': self.prop, 'tier': self.tier, 'seed': self.seed,
          'message': message, 'case': jsonable(case or {}), 'traceback': tb,
          'rerun': f'VERIF_SEED={self.seed} VERIF_TIER={self.tier} ./run.sh {self.prop}',
      }, f, indent=1)
    return path


def blame_repo(tb):
  """True if the exception passed through the code under test.

  Frames of the repository below the last harness frame mean that a call the
  property declares legitimate blew up inside the code under test.
  """
  frames = traceback.extract_tb(tb)
  return any(f.filename.startswith(PKG_DIR) and not f.filename.endswith('_test.py')
             for f in frames)


def missing_public(e):
  """True for an AttributeError on a public name of an object, class or module
  of the package: an API the property is stated over is gone."""
  if not isinstance(e, AttributeError) or not e.name or e.name.startswith('_'):
    return False
  obj = getattr(e, 'obj', None)
  home = (getattr(obj, '__module__', None) or
          getattr(type(obj), '__module__', None) or '')
  if type(obj).__name__ == 'module':
    home = getattr(obj, '__name__', '')
  return str(home).startswith('balloon_learning_environment')


def unreadable(e):
  """True for an error raised while a result of the package is being read.

  The workloads and oracles are deterministic code that has run to the end on
  the accepted tree, so a TypeError and the like outside the package means that
  the package handed over something of another kind or shape than documented.
  Names that are not public, the environment (files, memory, imports) and the
  harness's own undefined names are left out.
  """
  if isinstance(e, AttributeError):
    return not str(e.name or '_').startswith('_')
  return isinstance(e, (TypeError, ValueError, LookupError, ArithmeticError)) and not isinstance(e, UnicodeError)
