"""P42: evaluation suites are fixed benchmarks that no caller can change."""
import hashlib

import numpy as np
from balloon_learning_environment.eval import suites

RULE = ('one evaluation = one retrieval of a suite; distinct by (suite, mutations made before by callers)')
SIZES = dict(big_eval=10000, medium_eval=1000, small_eval=100, tiny_eval=10, micro_eval=1)
STRATA = dict(  # SHA-256 of the comma-separated seeds.
    hardest='aa3e52a92743557096a8bdf86a9e2bf52112e6bbfb73c9b4aaeea3c363735f97',
    hard='77bd17cabeb26d346f932efc204ce201bd1841f6916ba515d3e4272f62b1f927',
    mid='25bc857742ff40a48c59c21780f0535312387b618803c1a8f88877b6195003f5',
    easy='9e85d3b4b328adf3bd628437592e3aba6908679d20f168bbe27f4df4bebc3221',
    easiest='07ef4529b10fdec1a3cae4326b9e954e6d8f73d1a77828dde457464a97ca9608')


def digest(seeds):
  return hashlib.sha256(','.join(str(int(s)) for s in seeds).encode()).hexdigest()


def judge(ctx, name, s, **info):
  seeds = list(s.seeds)
  ctx.check(s.max_episode_length == 960, 'a suite does not fly two days', name=name, got=s.max_episode_length, **info)
  ctx.check(all(isinstance(x, (int, np.integer)) and x >= 0 for x in seeds) and len(set(seeds)) == len(seeds),
            'seeds are not distinct natural numbers', name=name, **info)
  if name in SIZES:
    ctx.check(seeds == list(range(SIZES[name])), 'a suite does not hold its seeds', name=name, n=len(seeds), **info)
  elif name != 'all_strata':
    ctx.check(len(seeds) == 2000 and digest(seeds) == STRATA[name[:-len('_strata')]], 'a stratum does not hold its seeds',
              name=name, n=len(seeds), **info)
  ctx.count('retrievals')


def run(ctx):
  rng = ctx.rng
  names = list(SIZES) + [f'{k}_strata' for k in STRATA] + ['all_strata']
  ctx.check(sorted(suites.available_suites()) == sorted(names), 'the available suites are not the documented ones',
            got=suites.available_suites())
  first = {}
  for k in range(ctx.n(60, 600)):
    muts = 0
    for name in rng.permutation(names):
      name = str(name)
      s = suites.get_eval_suite(name)
      judge(ctx, name, s, round=k)
      if name == 'all_strata':
        want = [x for st in STRATA for x in suites.get_eval_suite(f'{st}_strata').seeds]
        ctx.check(list(s.seeds) == want, 'all_strata is not the strata from hardest to easiest', round=k)
        ctx.check(len(set(want)) == 10000, 'strata overlap', round=k)
      ctx.ev((name, muts))
      # What callers do with a suite must not reach anyone else.
      how = int(rng.integers(6))
      if how == 0:
        s.seeds.clear()
      elif how == 1:
        s.seeds.append(-5)
      elif how == 2:
        rng.shuffle(s.seeds)
      elif how == 3:
        s.max_episode_length = 1
      elif how == 4:
        s.seeds = s.seeds[:1]
      else:
        suites.available_suites().clear()
      muts += 1
      t, u = suites.get_eval_suite(name), suites.get_eval_suite(name)
      ctx.check(t is not u and t.seeds is not u.seeds, 'two callers share a suite', name=name)
      first.setdefault(name, list(t.seeds))
      ctx.check(list(t.seeds) == first[name], 'a suite changed', name=name)
  for bad in ('', 'Big_eval', 'big', 'hardest', 'strata', 'big_eval ', None, 3):
    ctx.raises(lambda: suites.get_eval_suite(bad), ValueError, 'an unknown suite is given', name=bad)
  ctx.require('retrievals', 300)
