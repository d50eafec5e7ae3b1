"""P41: sharded evaluation and its combination cover every seed exactly once."""
import json
import os
import shutil

from vp import drivers

RULE = ('one evaluation = one shard file or combined file; distinct by (shards, index, seeds in shard, naming) '
        'or (models present, flags)')
ASSUMPTIONS = ['the suite is replaced by a short one; a real environment and StationSeeker fly it']


def read(p):
  with open(p) as f:
    return json.load(f)


def shards(ctx):
  rng = ctx.rng
  out = os.path.join(ctx.scratch, 'out[1]')
  L = int(rng.integers(5, 9))
  seeds = [int(s) for s in rng.choice(10000, L, replace=False)]
  length = 3
  suites = {'tiny_eval': [seeds, length], 'small_eval': [seeds[:3], 2], 'micro_eval': [seeds[:1], 1]}
  runs, plan = [], []

  def add(base, n, i, want_dir, want_file, extra=()):
    fl = ['--agent=station_seeker', '--wind_field=simple', f'--output_dir={out}', f'--suite={want_dir}']
    if n != 1 or rng.random() < .5:
      fl += [f'--num_shards={n}', f'--shard_idx={i}']
    runs.append(fl + list(extra))
    plan.append(dict(base=base, n=n, i=i, file=os.path.join(out, want_dir, want_file), dir=want_dir, extra=list(extra)))
  add('all', 1, 0, 'tiny_eval', 'all.json', ['--name_override=all'])
  for n in sorted({2, 3, L, L + 3, int(rng.integers(2, 12))} if ctx.thorough else {3, int(rng.choice([2, L, L + 2]))}):
    for i in rng.permutation(n):
      name = f's{n}'
      add(name, n, int(i), 'tiny_eval', f'{name}_{i}.json', [f'--name_override={name}'] + (['--pretty_json'] if rng.random() < .3 else []))
  add('agent', 1, 0, 'small_eval', 'station_seeker.json')
  add('agent', 2, 1, 'small_eval', 'station_seeker_1.json')
  add('ck', 1, 0, 'small_eval', 'station_seeker_17.json', ['--checkpoint_dir=/ck/dir', '--checkpoint_idx=17'])
  add('ck', 2, 0, 'small_eval', 'station_seeker_0_0.json', ['--checkpoint_dir=/ck/dir', '--checkpoint_idx=0'])
  add('ov', 1, 0, 'small_eval', 'mine.json', ['--checkpoint_dir=/ck/dir', '--checkpoint_idx=3', '--name_override=mine'])
  # Very many shards: most are empty, and named all the same.
  for n in (12, 150, int(rng.integers(1001, 30000))):
    i = int(rng.choice([0, 7, n - 1] if n < 1000 else [0, 7, 1000, n - 1]))
    add('many', n, i, 'small_eval', f'm{n}_{i}.json', [f'--name_override=m{n}'])
  # A single seed among so many shards that rounding could lose it.
  for n in (49,):
    for i in range(n):
      add('one', n, i, 'micro_eval', f'one{n}_{i}.json', [f'--name_override=one{n}'])
  # Without both a directory and a number there is nothing to load.
  add('half', 1, 0, 'small_eval', 'half.json', ['--name_override=half', '--checkpoint_dir=/ck/dir'])
  add('half', 1, 0, 'small_eval', 'station_seeker_4.json', ['--checkpoint_idx=4'])
  ctx.current = dict(runs=runs)
  log = drivers.call('eval_driver', dict(runs=runs, suites=suites))
  full = read(os.path.join(out, 'tiny_eval', 'all.json'))
  ctx.check([r['seed'] for r in full] == seeds, 'an unsharded evaluation does not cover its suite in order', got=[r['seed'] for r in full], want=seeds)
  by = {r['seed']: r for r in full}
  groups = {}
  for p, l in zip(plan, log):
    ctx.check('error' not in l, 'an evaluation failed', error=l.get('error'), **p)
    ctx.check(l['suite'] == p['dir'] and l['agent'] == ['station_seeker', 3, [1099]], 'another suite or agent was evaluated', log=l, **p)
    want = [['/ck/dir', int(p['extra'][1].split('=')[1])]] if p['extra'][:1] == ['--checkpoint_dir=/ck/dir'] else []
    ctx.check(l['loaded'] == want, 'not the requested checkpoint was loaded', got=l['loaded'], want=want, **p)
    ctx.check(os.path.exists(p['file']), 'the result is not in the documented file', have=sorted(os.listdir(os.path.dirname(p['file']))), **p)
    r = read(p['file'])
    if r:
      lines = open(p['file']).read().strip().count('\n')
      ctx.check((lines > 3) == ('--pretty_json' in p['extra']), 'the layout is not the one asked for', lines=lines, **p)
    if p['base'] == 'many':
      ctx.check(len(r) <= 1 and all(x['seed'] in seeds[:3] for x in r), 'a shard of many holds more than its piece', got=[x['seed'] for x in r], **p)
      ctx.count('many')
    for x in r:
      if p['dir'] == 'tiny_eval':
        ctx.check(x == by[x['seed']], 'a shard gives another result for a seed', seed=x['seed'], **p)
      ctx.check(len(x['flight_path']) == x['final_timestep'], 'the flight path is missing', **p)
    groups.setdefault((p['dir'], p['base'], p['n']), []).append((p['i'], [x['seed'] for x in r]))
    ctx.ev(('shard', p['n'], p['i'], len(r), p['base']))
  for (d, base, n), g in groups.items():
    got = [s for _, ss in sorted(g) for s in ss]
    if base == 'one':
      ctx.check(got == seeds[:1], 'shards do not cover every seed exactly once', shards=n, got=got, want=seeds[:1])
      ctx.count('one')
    if d != 'tiny_eval':
      continue
    ctx.check(sorted(got) == sorted(seeds), 'shards do not cover every seed exactly once', shards=n, got=got, want=seeds)
    ctx.check(got == seeds, 'shards are not consecutive pieces of the suite', shards=n, got=got, want=seeds)
    sizes = [len(ss) for _, ss in g]
    ctx.check(max(sizes) - min(sizes) <= 1, 'shards are unbalanced', shards=n, sizes=sizes)
    ctx.count('shardings')
  return os.path.join(out, 'tiny_eval'), full, sorted({p['n'] for p in plan if p['n'] > 1 and p['dir'] == 'tiny_eval'})


NAMES = ['random', 'random_walk', 'dqn', 'dqn_v2', 'a.b', 'a+b', 'axb', 'mlp', 'mlp_', 'exp[1]', 'run-3', 'Q', 'q*']


def result(rng, seed):
  return dict(seed=seed, cumulative_reward=float(rng.normal()), time_within_radius=float(rng.random()),
              out_of_power=bool(rng.random() < .3), final_timestep=int(rng.integers(9)),
              flight_path=[dict(x=float(rng.normal()))] * int(rng.integers(0, 3)))


def combine(ctx, shard_dir, full, ns):
  rng = ctx.rng
  runs, jobs = [], []
  for k in range(ctx.n(40, 400)):
    d = os.path.join(ctx.scratch, f'c[{k}]' if rng.random() < .3 else f'c{k}')
    os.makedirs(d)
    names = [str(n) for n in rng.choice(NAMES, int(rng.integers(1, 6)), replace=False)]
    data = {}
    for n in names:
      count = int(rng.choice([1, 3, 11, 12, 12, 104])) if k % 20 else 1003
      seeds = [int(s) for s in rng.permutation(50)[:int(rng.integers(min(count, 50), 51))]]
      if k == 7 and n == names[0]:  # More than any suite shipped.
        seeds, count = [int(s) for s in rng.permutation(40000)[:int(rng.integers(10001, 14000))]], 5
      data[n] = []
      for i in range(count):
        part = [result(rng, s) for s in seeds[len(seeds) * i // count:len(seeds) * (i + 1) // count]]
        with open(os.path.join(d, f'{n}_{i}.json'), 'w') as f:
          json.dump(part, f, indent=2 if rng.random() < .3 else None)
        data[n] += part
      if rng.random() < .4:  # A stale combined file, and files that are no shards.
        with open(os.path.join(d, f'{n}.json'), 'w') as f:
          json.dump([result(rng, 999)], f)
      for junk in (f'{n}_0.json.bak', f'{n}_x.json', f'{n}_0_notes.json', f'old_{n}_0.json'):
        if rng.random() < .2:
          with open(os.path.join(d, junk), 'w') as f:
            json.dump([result(rng, 998)], f)
    ask = [str(n) for n in rng.choice(names, int(rng.integers(1, len(names) + 1)), replace=False)]
    if k == 7 and names[0] not in ask:
      ask.append(names[0])
    paths, pretty = bool(rng.random() < .5), bool(rng.random() < .5)
    before = {n: open(os.path.join(d, n)).read() for n in os.listdir(d)}
    fl = [f'--path={d}'] + [f'--models={n}' for n in ask] + (['--flight_paths'] if paths else []) + (['--pretty_json'] if pretty else [])
    for rep in range(2 if rng.random() < .3 else 1):  # Combining again changes nothing.
      runs.append(fl)
    jobs.append((d, data, ask, paths, pretty, before))
  for n in ns:
    runs.append([f'--path={shard_dir}', f'--models=s{n}', '--flight_paths'])
  errs = drivers.call('combine_driver', dict(runs=runs))
  for fl, e in zip(runs, errs):
    ctx.check(e is None, 'combining failed', error=e, flags=fl)
  for d, data, ask, paths, pretty, before in jobs:
    info = dict(models=sorted(data), asked=ask, paths=paths, dir=os.path.basename(d))
    for n in ask:
      got = read(os.path.join(d, f'{n}.json'))
      want = sorted(data[n], key=lambda r: r['seed'])
      if not paths:
        want = [dict(r, flight_path=[]) for r in want]
      ctx.check(got == want, 'the combined file is not the union of its shards by seed', model=n,
                got=[r['seed'] for r in got], want=[r['seed'] for r in want], **info)
      if got:
        lines = open(os.path.join(d, f'{n}.json')).read().strip().count('\n')
        ctx.check((lines > 3) == pretty, 'the layout is not the one asked for', model=n, lines=lines, **info)
      ctx.ev(('combine', len(data), len(ask), paths, pretty, n))
    for n, c in before.items():
      if n not in [f'{a}.json' for a in ask]:
        ctx.check(open(os.path.join(d, n)).read() == c, 'another file was changed', name=n, **info)
    ctx.check(set(os.listdir(d)) == set(before) | {f'{a}.json' for a in ask}, 'other files appeared or vanished', **info)
    ctx.count('combined', len(ask))
    shutil.rmtree(d)
  for n in ns:
    got = read(os.path.join(shard_dir, f's{n}.json'))
    ctx.check(got == sorted(full, key=lambda r: r['seed']), 'combined shards are not the unsharded evaluation', shards=n)
    ctx.count('end_to_end')


def programs(ctx):
  """The binaries, started as programs."""
  seeds = [int(s) for s in ctx.rng.choice(10000, 3, replace=False)]
  out = os.path.join(ctx.scratch, 'prog')
  for i in range(2):
    fl = ['--agent=random_walk', '--wind_field=simple', f'--output_dir={out}', '--suite=tiny_eval', '--num_shards=2', f'--shard_idx={i}']
    r = drivers.call('main_driver', dict(module='balloon_learning_environment.eval.eval', flags=fl, suites={'tiny_eval': [seeds, 2]}))
    ctx.check(r['out'] == 0, 'the evaluation does not end well as a program', got=r['out'], flags=fl)
    f = os.path.join(out, 'tiny_eval', f'random_walk_{i}.json')
    ctx.check(os.path.exists(f), 'the evaluation leaves no result as a program', flags=fl)
    ctx.ev(('program', 'eval', i))
  r = drivers.call('main_driver', dict(module='balloon_learning_environment.eval.combine_eval_shards',
                                       flags=[f'--path={out}/tiny_eval', '--models=random_walk']))
  f = os.path.join(out, 'tiny_eval', 'random_walk.json')
  ctx.check(r['out'] == 0 and os.path.exists(f), 'combining leaves no result as a program', got=r['out'])
  ctx.check([x['seed'] for x in read(f)] == sorted(seeds), 'the combined file is not the suite', got=read(f), want=seeds)
  ctx.count('programs')


def run(ctx):
  d, full, ns = shards(ctx)
  combine(ctx, d, full, ns)
  programs(ctx)
  for n, m in (('shardings', 2), ('one', 1), ('programs', 1), ('combined', 40), ('end_to_end', 1)):
    ctx.require(n, m)
