"""P44: model files come from the documented place, and frozen weights act as the network they are."""
import os

import gin
import numpy as np
import tensorflow as tf
from balloon_learning_environment.agents import agent as agent_lib
from balloon_learning_environment.agents import agent_registry
from balloon_learning_environment.agents import perciatelli44
from balloon_learning_environment.agents import quantile_agent
from balloon_learning_environment.models import models
from balloon_learning_environment.utils import run_helpers
from vp import core
from vp import drivers
from vp import learn

RULE = ('one evaluation = one request for a model file or one action of an agent with frozen weights; distinct by '
        '(file, places it lies in, how it is asked for) or (agent, network, action)')
ASSUMPTIONS = ['the shipped model files are absent here; synthetic files in the same format stand in']
tf1 = tf.compat.v1
FILES = dict(offline='offlineskies22_decoder.msgpack', perciatelli='perciatelli44.pb')
PKG = 'balloon_learning_environment'


def tree(root, data):
  """A package of links to the working tree, with data files beside models.py."""
  os.makedirs(os.path.join(root, PKG, 'models'))
  for n in os.listdir(core.PKG_DIR):
    if n != 'models' and n != '__pycache__':
      os.symlink(os.path.join(core.PKG_DIR, n), os.path.join(root, PKG, n))
  for n in os.listdir(os.path.join(core.PKG_DIR, 'models')):
    if n.endswith('.py'):
      os.symlink(os.path.join(core.PKG_DIR, 'models', n), os.path.join(root, PKG, 'models', n))
  for n, b in data.items():
    with open(os.path.join(root, PKG, 'models', n), 'wb') as f:
      f.write(b)


def places(ctx):
  rng = ctx.rng
  blob = lambda: bytes(rng.integers(0, 256, int(rng.integers(1, 300)), dtype=np.uint8))
  cwds = {}
  for name, have in (('none', ()), ('both', tuple(FILES)), ('one', ('perciatelli',)), ('other', ('offline',))):
    d = os.path.join(ctx.scratch, 'cwd_' + name)
    os.makedirs(os.path.join(d, PKG, 'models'))
    data = {}
    for w in have:
      data[w] = blob()
      with open(os.path.join(d, PKG, 'models', FILES[w]), 'wb') as f:
        f.write(data[w])
    cwds[name] = (d, data)
  own = {}
  for i in range(4):
    p = os.path.join(ctx.scratch, f'own{i} [x].bin')
    own[p] = blob() if i else b''
    with open(p, 'wb') as f:
      f.write(own[p])
  for setup, have in (('bare', ()), ('packaged', tuple(FILES)), ('half', ('offline',))):
    data = {FILES[w]: blob() for w in have}
    root = os.path.join(ctx.scratch, 'tree_' + setup)
    tree(root, data)
    qs, wants = [], []
    for which in FILES:
      for cname, (cwd, here) in cwds.items():
        for mode in ('none', 'path', 'positional', 'missing', 'gin', 'gin_missing', 'gin_and_path'):
          p = str(rng.choice(list(own)))
          q = dict(which=which, cwd=cwd, path=None, gin=None, positional=mode == 'positional')
          if mode in ('path', 'positional'):
            q['path'], want = p, own[p]
          elif mode == 'missing':
            q['path'], want = os.path.join(ctx.scratch, 'nowhere', 'x'), ValueError
          elif mode == 'gin':
            q['gin'], want = p, own[p]
          elif mode == 'gin_missing':
            q['gin'], want = p + '.not', ValueError
          elif mode == 'gin_and_path':
            q['gin'], q['path'] = p + '.not', p
            want = own[p]
          else:
            want = data[FILES[which]] if which in have else here.get(which, RuntimeError)
          qs.append(q)
          wants.append((want, mode, cname))
    got = drivers.call('models_driver', qs, PYTHONPATH=root)
    for q, (want, mode, cname), g in zip(qs, wants, got):
      info = dict(which=q['which'], package=setup, cwd=cname, mode=mode, request=q)
      if isinstance(want, bytes):
        ctx.check(g.get('hex') == want.hex(), 'not the bytes of the file in the documented place', got=str(g)[:80], **info)
      else:
        ctx.check(g.get('error') == want.__name__, 'a missing file is not reported', got=str(g)[:80], want=want.__name__, **info)
      ctx.ev(('file', q['which'], setup, cname, mode))
      ctx.count('requests')


def perciatelli(ctx, path, seed, hidden, atoms, dim=1099):
  """A frozen TensorFlow graph in the format of perciatelli44.pb."""
  r = np.random.default_rng(seed)
  layers = []
  g = tf.Graph()
  with g.as_default():
    o = tf1.placeholder(tf.float32, (1, dim), name='observation')
    h = o
    for i in range(8):
      n = 'Online/fully_connected' + (f'_{i}' if i else '')
      out = 3 * atoms if i == 7 else hidden
      w = r.normal(size=(int(h.shape[1]), out)).astype(np.float32) / np.sqrt(float(h.shape[1]))
      b = r.normal(size=out).astype(np.float32)
      layers.append((w, b))
      w = tf.identity(tf1.constant(w, name=n + '/weights'), name=n + '/weights/read')
      b = tf.identity(tf1.constant(b, name=n + '/biases'), name=n + '/biases/read')
      h = tf.matmul(h, w) + b
      if i < 7:
        h = tf.nn.relu(h)
    tf1.constant(np.zeros(3, np.float32), name='Target/fully_connected/weights')
    q = tf.reduce_mean(tf.reshape(h, (1, 3, atoms)), axis=2, name='q_values')
    tf.argmax(q, axis=1, name='sleepwalk_action')
  with open(path, 'wb') as f:
    f.write(g.as_graph_def().SerializeToString())
  return layers


def rewritten(ctx):
  """A file whose contents were replaced is read as it is now."""
  rng = ctx.rng
  for load in (models.load_perciatelli44, models.load_offlineskies22):
    ps = [os.path.join(ctx.scratch, f'{load.__name__}{i}.bin') for i in range(2)]
    n, now = int(rng.integers(20, 200)), {}
    for i in range(8):
      p = ps[i % 2 if i < 4 else int(rng.integers(2))]
      if i < 2 or rng.random() < .8:
        now[p] = bytes(rng.integers(0, 256, n, dtype=np.uint8))
        tmp = p + '.new' if rng.random() < .5 else p
        with open(tmp, 'wb') as f:
          f.write(now[p])
        os.replace(tmp, p)
        os.utime(p, (10**9, 10**9))
      for q in now:
        gin.clear_config()
        if rng.random() < .5:
          gin.bind_parameter(load.__name__ + '.path', q)
          got = load()
        else:
          got = load(q)
        ctx.check(got == now[q], 'not the bytes of the file as it is now', file=q, request=i)
        ctx.ev(('rewritten', load.__name__, i, q == p))
        ctx.count('rewritten')
    gin.clear_config()
    os.remove(ps[0])
    ctx.raises(lambda: load(ps[0]), ValueError, 'a file that was deleted is not reported missing')


def values(layers, x):
  h = np.asarray(x, np.float64).reshape(-1)
  for i, (w, b) in enumerate(layers):
    h = h @ np.asarray(w, np.float64) + b
    if i < len(layers) - 1:
      h = np.maximum(h, 0)
  return h.reshape(3, -1).mean(1)


def frozen(ctx):
  rng = ctx.rng
  agents = []
  for k in range(ctx.n(4, 12)):
    gin.clear_config()
    p = os.path.join(ctx.scratch, f'p{k}.pb')
    layers = perciatelli(ctx, p, int(rng.integers(2**31)), int(rng.integers(4, 20)), int(rng.integers(2, 9)))
    gin.bind_parameter('load_perciatelli44.path', p)
    ctx.check(models.load_perciatelli44() == open(p, 'rb').read(), 'not the file bound')
    for bad in (2, 4, 0):
      ctx.raises(lambda: perciatelli44.Perciatelli44(bad, (1099,)), ValueError, 'another number of actions is accepted', actions=bad)
    for bad in ((1098,), (1099, 1), (1,), ()):
      ctx.raises(lambda: perciatelli44.Perciatelli44(3, bad), ValueError, 'another observation shape is accepted', shape=bad)
    shape = (1099,) if k % 2 else [1099]
    agents.append((run_helpers.create_agent('perciatelli44', 3, shape), layers))
    # Older agents in the same process keep their own network.
    for ag, ls in agents:
      buf = np.zeros(1099, np.float32)
      for t in range(ctx.n(8, 40)):
        x = rng.normal(size=1099).astype(np.float32) * rng.choice([0.1, 1, 5])
        if t % 3:  # One array for all observations.
          buf[:] = x
          x = buf
        c = x.copy()
        if t % 5 == 4:
          ag.set_mode(agent_lib.AgentMode.TRAIN if t % 2 else agent_lib.AgentMode.EVAL)
          ag.end_episode(float(rng.normal()), bool(rng.random() < .5))
        shaped = x if t % 2 else x.reshape(1099, 1)
        a = ag.begin_episode(shaped) if t % 5 == 0 else ag.step(float(rng.normal()), shaped)
        q = values(ls, x)
        ctx.check(isinstance(a, int) and q[a] >= q.max() - 1e-4 * (1 + np.abs(q).max()), 'not the action its network values most',
                  action=a, q=q, agents=len(agents))
        ctx.check(np.array_equal(c, x), 'the observation was modified')
        ctx.ev(('perciatelli44', len(agents), a))
        ctx.count('frozen_actions')


def finetune(ctx):
  rng = ctx.rng
  for k in range(ctx.n(1, 5)):
    for name in ('finetune_perciatelli', 'quantile'):
      hidden, atoms = int(rng.integers(4, 12)), int(rng.integers(2, 7))
      p = os.path.join(ctx.scratch, f'f{k}{name}.pb')
      layers = perciatelli(ctx, p, int(rng.integers(2**31)), hidden, atoms)
      gin.clear_config()
      run_helpers.bind_gin_variables(name, gin_bindings=[
          f'load_perciatelli44.path="{p}"', f'agents.networks.QuantileNetwork.hidden_units={hidden}',
          f'JaxQuantileAgent.num_atoms={atoms}', 'JaxQuantileAgent.min_replay_history=14',
          'OutOfGraphPrioritizedReplayBuffer.replay_capacity=80', 'OutOfGraphPrioritizedReplayBuffer.batch_size=4'])
      info = dict(agent=name, hidden=hidden, atoms=atoms)
      raw = quantile_agent.QuantileAgent.load_perciatelli_weights()
      for (w, b), (gw, gb) in zip(layers, learn.dense_layers(raw)):
        ctx.check(np.array_equal(w, gw) and np.array_equal(b, gb), 'the weights read are not those of the file', **info)
      ag = agent_registry.agent_constructor(name)(3, observation_shape=(1099,), seed=int(rng.integers(2**31)))
      same = all(np.array_equal(w, gw) and np.array_equal(b, gb) for ps in (ag.online_params, ag.target_network_params)
                 for (w, b), (gw, gb) in zip(layers, learn.dense_layers(ps)))
      ctx.check(same == (name == 'finetune_perciatelli'), 'the agent does not start from the weights it should', **info)
      if not same:
        ctx.ev(('fresh', hidden, atoms))
        continue
      ag.set_mode('eval')
      for _ in range(20):
        x = rng.normal(size=1099).astype(np.float32)
        a, q = int(ag.begin_episode(x)), values(layers, x)
        ctx.check(q[a] >= q.max() - 1e-4 * (1 + np.abs(q).max()), 'before training it does not act as Perciatelli44', action=a, q=q, **info)
      ag.set_mode('train')
      before = learn.leaves(ag.online_params)
      o = rng.normal(size=1099).astype(np.float32)
      ag.begin_episode(o)
      for _ in range(26):
        ag.step(float(rng.normal()), rng.normal(size=1099).astype(np.float32))
      ag.end_episode(1.0, True)
      ctx.check(not learn.same(before, learn.leaves(ag.online_params)), 'the agent does not learn', **info)
      d = os.path.join(ctx.scratch, f'ck{k}')
      ag.save_checkpoint(d, 3)
      ag2 = agent_registry.agent_constructor(name)(3, observation_shape=(1099,), seed=1)
      ctx.check(ag2.reload_latest_checkpoint(d) == 3 and learn.same(learn.leaves(ag.online_params), learn.leaves(ag2.online_params)),
                'a checkpoint does not replace the loaded weights', **info)
      ctx.ev(('finetune', hidden, atoms))
      ctx.count('finetuned')
  gin.clear_config()


def run(ctx):
  places(ctx)
  rewritten(ctx)
  ctx.require('rewritten', 20)
  frozen(ctx)
  finetune(ctx)
  for n, m in (('requests', 150), ('frozen_actions', 50), ('finetuned', 1)):
    ctx.require(n, m)
