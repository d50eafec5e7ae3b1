"""P37: names and configurations select exactly the agent, wind field and run asked for."""
import glob
import os
import pickle

import gin
import numpy as np
from PIL import Image
from balloon_learning_environment.agents import agent as agent_lib
from balloon_learning_environment.agents import agent_registry
from balloon_learning_environment.agents import dqn_agent
from balloon_learning_environment.agents import mlp_agent
from balloon_learning_environment.agents import networks
from balloon_learning_environment.agents import perciatelli44
from balloon_learning_environment.agents import quantile_agent
from balloon_learning_environment.agents import random_walk_agent
from balloon_learning_environment.agents import station_seeker_agent
from balloon_learning_environment.env import generative_wind_field
from balloon_learning_environment.env import grid_based_wind_field
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.utils import run_helpers
from vp import drivers
from vp import envs

RULE = ('one evaluation = one name resolved, one configuration bound or one run of the train binary; distinct by '
        '(kind, agent, source of the configuration, outcome)')
ASSUMPTIONS = ['gin parses its own language correctly']

CLASSES = dict(random=agent_lib.RandomAgent, mlp=mlp_agent.MLPAgent, dqn=dqn_agent.DQNAgent,
               perciatelli44=perciatelli44.Perciatelli44, quantile=quantile_agent.QuantileAgent,
               finetune_perciatelli=quantile_agent.QuantileAgent,
               station_seeker=station_seeker_agent.StationSeekerAgent, random_walk=random_walk_agent.RandomWalkAgent)
NOCFG = ('random', 'perciatelli44', 'station_seeker', 'random_walk')
DQN = {
    'networks.MLPNetwork.num_layers': 8, 'networks.MLPNetwork.hidden_units': 600, 'JaxDQNAgent.gamma': 0.993,
    'JaxDQNAgent.update_horizon': 5, 'JaxDQNAgent.min_replay_history': 500, 'JaxDQNAgent.update_period': 4,
    'JaxDQNAgent.target_update_period': 100, 'JaxDQNAgent.epsilon_train': 0.01, 'JaxDQNAgent.epsilon_eval': 0.0,
    'dqn_agent.create_optimizer.learning_rate': 2e-6, 'OutOfGraphReplayBuffer.replay_capacity': 2000000,
    'OutOfGraphReplayBuffer.batch_size': 32,
    'balloon_learning_environment.agents.dqn_agent.DQNAgent.checkpoint_duration': 5}
QUANTILE = {
    'agents.networks.QuantileNetwork.num_layers': 8, 'agents.networks.QuantileNetwork.hidden_units': 600,
    'JaxQuantileAgent.gamma': 0.993, 'JaxQuantileAgent.update_horizon': 5, 'JaxQuantileAgent.min_replay_history': 500,
    'JaxQuantileAgent.update_period': 4, 'JaxQuantileAgent.target_update_period': 100,
    'JaxQuantileAgent.epsilon_train': 0.0, 'JaxQuantileAgent.epsilon_eval': 0.0, 'JaxQuantileAgent.num_atoms': 51,
    'dqn_agent.create_optimizer.learning_rate': 2e-6, 'OutOfGraphPrioritizedReplayBuffer.replay_capacity': 2000000,
    'OutOfGraphPrioritizedReplayBuffer.batch_size': 32, 'MarcoPoloExploration.exploratory_episode_probability': 0.8,
    'balloon_learning_environment.agents.quantile_agent.QuantileAgent.checkpoint_duration': 5}
SHIPPED = dict(
    mlp={'networks.MLPNetwork.num_layers': 1, 'networks.MLPNetwork.hidden_units': 256}, dqn=DQN,
    quantile=dict(QUANTILE, **{'balloon_learning_environment.agents.quantile_agent.QuantileAgent.reload_perciatelli': False}),
    finetune_perciatelli=dict(QUANTILE, **{'balloon_learning_environment.agents.quantile_agent.QuantileAgent.reload_perciatelli': True}))


def registry(ctx):
  for name, cls in CLASSES.items():
    ctx.check(agent_registry.agent_constructor(name) is cls, 'the name does not give the documented agent', name=name)
    cfg = agent_registry.get_default_gin_config(name)
    ctx.check((cfg is None) == (name in NOCFG), 'wrong default configuration', name=name, cfg=cfg)
    ctx.check(run_helpers.get_agent_gin_file(name, None) == cfg, 'not the default configuration', name=name)
    ctx.check(run_helpers.get_agent_gin_file(name, '/x/y.gin') == '/x/y.gin', 'the given configuration does not win', name=name)
    ctx.ev(('registry', name))
  for bad in ('', 'DQN', 'dqn ', 'acme_eval_agent_', 'acme_eval_agent', 'perciatelli', 'none', 'random-walk'):
    for f in (agent_registry.agent_constructor, agent_registry.get_default_gin_config,
              lambda n: run_helpers.create_agent(n, 3, (1099,)), lambda n: run_helpers.get_agent_gin_file(n, None),
              lambda n: run_helpers.bind_gin_variables(n)):
      ctx.raises(lambda: f(bad), ValueError, 'an unknown agent is accepted', name=bad)
  for na, shape in ((3, (1099,)), (3, [1099])):
    for name in ('random', 'random_walk', 'station_seeker'):
      a = run_helpers.create_agent(name, na, shape)
      ctx.check(type(a) is CLASSES[name], 'not the named agent was created', name=name)
  got = {run_helpers.create_agent('random', 5, (7,)).begin_episode(np.zeros(7)) for _ in range(300)}
  ctx.check(got == set(range(5)), 'the agent was not created for the given actions', got=sorted(got))


def fields(ctx):
  ctx.check(type(run_helpers.get_wind_field_factory('simple')()) is wind_field.SimpleStaticWindField, 'simple: another wind field')
  f = run_helpers.get_wind_field_factory('generative')
  gin.clear_config()
  gin.bind_parameter('load_offlineskies22.path', envs.decoder_file(ctx.scratch))
  a, b = f(), f()
  ctx.check(type(a) is grid_based_wind_field.GridBasedWindField and a is not b, 'generative: another wind field, or a shared one')
  for bad in ('', 'Simple', 'generative ', 'offlineskies22', None):
    ctx.raises(lambda: run_helpers.get_wind_field_factory(bad), ValueError, 'an unknown wind field is accepted', name=bad)
  ctx.ev(('fields',))


def configs(ctx):
  rng = ctx.rng
  here = os.getcwd()
  for k in range(ctx.n(40, 300)):
    name = str(rng.choice(list(CLASSES)))
    gin.clear_config()
    elsewhere = rng.random() < .5
    if elsewhere:
      os.chdir(ctx.scratch)
    try:
      shipped = dict(SHIPPED.get(name, {}))
      want = dict(shipped)
      kw = {}
      use_file = rng.random() < .4
      num = [p for p, v in (shipped or SHIPPED['mlp']).items() if isinstance(v, int) and not isinstance(v, bool)]
      if not shipped:
        import_lines = 'import balloon_learning_environment.agents.networks\n'
      elif use_file:
        import_lines = ''.join(l for l in open(os.path.join('/repo', agent_registry.get_default_gin_config(name))) if l.startswith('import'))
      else:
        import_lines = ''
      pick = lambda: {str(p): int(rng.integers(1, 900)) for p in rng.choice(num, int(rng.integers(1, len(num) + 1)), replace=False)}
      lines = lambda d: [f'{p} = {v}' for p, v in d.items()]

      def write(d, tag):
        p = os.path.join(ctx.scratch, f'c{k}{tag}.gin')
        with open(p, 'w') as f:
          f.write(import_lines + '\n'.join(lines(d)) + '\n')
        return p
      if use_file:
        d = pick()
        kw['agent_gin_file'] = write(d, 'own')
        want = d
      more = [pick() for _ in range(int(rng.integers(0, 3)))]
      if more:
        kw['additional_gin_files'] = [write(d, f'more{i}') for i, d in enumerate(more)]
        for d in more:
          want.update(d)
      if (shipped or more or use_file) and rng.random() < .7:
        d = pick()
        kw['gin_bindings'] = lines(d)
        want.update(d)
      run_helpers.bind_gin_variables(name, **kw)
      info = dict(agent=name, kw=kw, elsewhere=elsewhere)
      for p, v in want.items():
        try:
          got = gin.query_parameter(p)
        except ValueError as e:
          got = e
        ctx.check(got == v, 'a parameter is not the one of the last source that sets it', parameter=p, got=got, want=v, **info)
      if use_file:  # Replaces, not extends, the default file.
        for p in set(shipped) - set(want):
          try:
            got = gin.query_parameter(p)
          except ValueError:
            continue
          ctx.check(False, 'a parameter of the replaced default configuration is still bound', parameter=p, got=got, **info)
      ctx.ev(('config', name, use_file, len(more), 'gin_bindings' in kw, elsewhere))
      ctx.count('configs')
    finally:
      os.chdir(here)
  gin.clear_config()
  ctx.raises(lambda: run_helpers.bind_gin_variables('mlp', gin_bindings=['networks.NoSuchThing.x = 1']), ValueError,
             'a binding of an unknown name is accepted')
  good, bad = (os.path.join(ctx.scratch, n) for n in ('good.gin', 'bad.gin'))
  open(good, 'w').write(''.join(l for l in open(os.path.join('/repo', agent_registry.get_default_gin_config('mlp')))))
  open(bad, 'w').write('networks.NoSuchThing.x = 1\n')
  for kw in (dict(additional_gin_files=[bad]), dict(agent_gin_file=bad), dict(additional_gin_files=[good, bad]),
             dict(additional_gin_files=[good], gin_bindings=['networks.NoSuchThing.x = 1']),
             dict(agent_gin_file=good, gin_bindings=['networks.NoSuchThing.x = 1']),
             dict(agent_gin_file=bad, additional_gin_files=[good])):
    gin.clear_config()
    ctx.raises(lambda: run_helpers.bind_gin_variables('mlp', **kw), ValueError, 'a binding of an unknown name is accepted', kw=kw)
  gin.clear_config()
  ctx.raises(lambda: run_helpers.bind_gin_variables('random', '/no/such/file.gin'), OSError, 'a missing configuration is accepted')
  # The default configurations really configure the agents.
  for name in ('mlp', 'dqn', 'quantile'):
    gin.clear_config()
    run_helpers.bind_gin_variables(name, gin_bindings=(
        [] if name == 'mlp' else ['OutOfGraphReplayBuffer.replay_capacity=600'] if name == 'dqn' else
        ['OutOfGraphPrioritizedReplayBuffer.replay_capacity=600']))
    a = run_helpers.create_agent(name, 3, (9,))
    p = a.network_params if name == 'mlp' else a.online_params
    shapes = [tuple(l['kernel'].shape) for _, l in sorted(p['params'].items())]
    out = 3 * (51 if name == 'quantile' else 1)
    want = [(9, 600)] + [(600, 600)] * 6 + [(600, out)] if name != 'mlp' else [(9, 3)]
    ctx.check(type(a) is CLASSES[name] and shapes == want, 'the default agent does not have the shipped network', agent=name, got=shapes, want=want)
    if name != 'mlp':
      ctx.check(isinstance(a.network_def, networks.MLPNetwork if name == 'dqn' else networks.QuantileNetwork)
                and abs(a.gamma - 0.993) < 1e-12 and a.update_horizon == 5 and a.min_replay_history == 500
                and a.update_period == 4 and a.target_update_period == 100
                and a.epsilon_train == (0.01 if name == 'dqn' else 0.0) and a.epsilon_eval == 0.0,
                'the default agent does not have the shipped hyperparameters', agent=name)
    ctx.ev(('default', name))
  gin.clear_config()


FLAGS = ['agent', 'env_name', 'num_iterations', 'max_episode_length', 'base_dir', 'run_number', 'wind_field',
         'agent_gin_file', 'collectors', 'gin_bindings', 'renderer', 'render_period', 'episodes_per_iteration']


def train(ctx):
  rng = ctx.rng
  out = os.path.join(ctx.scratch, 'train [x]')
  hidden = int(rng.integers(3, 9))
  own = os.path.join(ctx.scratch, 'mine.gin')
  with open(own, 'w') as f:
    f.write('import balloon_learning_environment.agents.networks\nnetworks.MLPNetwork.num_layers = 2\n'
            f'networks.MLPNetwork.hidden_units = {hidden + 20}\n')
  tiny = [f'--gin_bindings={b}' for b in (
      'networks.MLPNetwork.num_layers=2', f'networks.MLPNetwork.hidden_units={hidden}',
      'OutOfGraphReplayBuffer.replay_capacity=200', 'OutOfGraphReplayBuffer.batch_size=2', 'JaxDQNAgent.min_replay_history=20',
      'JaxDQNAgent.update_horizon=1')]
  E, L = int(rng.integers(1, 4)), int(rng.integers(4, 8))
  base = [f'--base_dir={out}', f'--max_episode_length={L}', '--wind_field=simple', f'--episodes_per_iteration={E}', '--collectors=pickle']
  runs, plan = [], []

  def add(agent, number, its, want_its, extra=(), **kw):
    runs.append(base + [f'--agent={agent}', f'--run_number={number}', f'--num_iterations={its}'] + list(extra))
    plan.append(dict(agent=agent, number=number, its=its, new=want_its, **kw))
  add('dqn', 1, 1, 1, tiny, cls='DQNAgent', network=hidden)
  add('dqn', 1, 3, 2, tiny, cls='DQNAgent', network=hidden)
  add('dqn', 21, 2, 2, tiny + ['--collectors=console'], cls='DQNAgent', network=hidden)
  add('dqn', 1, 3, 0, tiny, cls='DQNAgent', network=hidden)
  add('station_seeker', 1, 1, 1, ['--renderer=matplotlib', '--render_period=2', '--collectors=tensorboard'], cls='StationSeekerAgent',
      renderer=True)
  add('mlp', 7, 1, 1, [f'--agent_gin_file={own}'], cls='MLPAgent', network=hidden + 20)
  bad = [base + ['--agent=nobody'], base + ['--agent=random', '--wind_field=none'], base + ['--agent=random', '--renderer=none']]
  ctx.current = dict(runs=runs)
  log = drivers.call('train_driver', dict(main='train', reset=FLAGS, runs=runs + bad))
  total = {}
  for p, l in zip(plan, log):
    info = dict(log=l, plan=p, episodes=E, length=L)
    ctx.check('error' not in l, 'a training run failed', **info)
    d = os.path.join(out, p['agent'], str(p['number']))
    # What the spies saw, where the binary passes by them; the files in any case.
    ctx.check(l.get('agent', p['cls']) == p['cls'], 'another agent was used', **info)
    if 'base_dir' in l:
      ctx.check(l['wind_field'] == 'SimpleStaticWindField', 'another wind field was used', **info)
      ctx.check(os.path.normpath(l['base_dir']) == d, 'another directory was used', **info)
      ctx.check((l['renderer'] == 'MatplotlibRenderer') == bool(p.get('renderer')), 'another renderer was used', **info)
      ctx.count('spied')
    if 'network' in p and 'agent' in l:
      ctx.check(l['network'] == p['network'], 'the configuration of the command line is not used', **info)
    if p.get('renderer'):
      want = 1 + E * sum(1 for t in range(L) if t % 2 == 0)
      if 'renders' in l:
        ctx.check(l['renders'] == want, 'not rendered at the period asked for', want=want, **info)
      ctx.check(os.path.exists(os.path.join(out, 'balloon_path.png')), 'there is no picture of the flight', **info)
      img = np.asarray(Image.open(os.path.join(out, 'balloon_path.png')))
      ctx.check(img.ndim == 3 and img.min() < img.max(), 'the picture of the flight is missing or empty')
    key = (p['agent'], p['number'])
    total[key] = total.get(key, 0) + p['new'] * E
    if l.get('steps_at_end') is not None:
      ctx.check(l['steps_at_end'] == total[key] * L, 'a run does not continue where its last checkpoint ended', want=total[key] * L, **info)
    ctx.ev(('train', p['agent'], p['number'], p['its'], p['new']))
    ctx.count('train_runs')
  for (agent, number), n in total.items():
    d = os.path.join(out, agent, str(number))
    files = glob.glob(os.path.join(glob.escape(d), 'metrics', 'pickle', '*.pkl'))
    ctx.check({os.path.basename(f) for f in files} == {f'pickle_{i}.pkl' for i in range(n)}, 'not every episode left its record',
              files=sorted(files), want=n)
    for f in files:
      with open(f, 'rb') as g:
        s = pickle.load(g)
      ctx.check([x.step for x in s[:L]] == list(range(len(s[:L]))) and len(s) <= L + 1, 'an episode is longer than allowed', n=len(s))
    kinds = set(os.listdir(os.path.join(d, 'metrics')))
    want = {('dqn', 21): {'pickle', 'console'}, ('station_seeker', 1): {'pickle', 'tensorboard'}}.get((agent, number), {'pickle'})
    ctx.check(kinds == want, 'other collectors wrote', got=kinds, want=want)
  for l in log[len(plan):]:
    ctx.check('error' in l and l['error'].startswith(('ValueError', 'KeyError', 'IllegalFlagValueError')), 'an unknown name is accepted', log=l)
  ctx.check(sorted(os.listdir(out)) == sorted({p['agent'] for p in plan} | {'balloon_path.png'}), 'other files appeared', got=os.listdir(out))


def program(ctx):
  """The binary, started as a program."""
  out = os.path.join(ctx.scratch, 'prog')
  n = int(ctx.rng.integers(1, 4))
  r = drivers.call('main_driver', dict(module='balloon_learning_environment.train', flags=[
      f'--base_dir={out}', '--agent=random', '--wind_field=simple', f'--num_iterations={n}', '--episodes_per_iteration=1',
      '--max_episode_length=2', '--collectors=pickle']))
  files = sorted(os.path.relpath(f, out) for f in glob.glob(os.path.join(glob.escape(out), '**', '*.pkl'), recursive=True))
  ctx.check(r['out'] == 0 and files == [f'random/1/metrics/pickle/pickle_{i}.pkl' for i in range(n)],
            'the training does not run as a program', got=r['out'], files=files, want=n)
  r = drivers.call('main_driver', dict(module='balloon_learning_environment.train', flags=['--agent=random', '--wind_field=simple']))
  ctx.check(r['out'] != 0, 'the training runs without a directory', got=r['out'])
  ctx.ev(('program', n))
  ctx.count('programs')


def run(ctx):
  registry(ctx)
  fields(ctx)
  configs(ctx)
  train(ctx)
  program(ctx)
  ctx.require('programs')
  ctx.require('configs', 30)
  ctx.require('train_runs', 6)
