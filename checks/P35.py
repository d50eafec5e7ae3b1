"""P35: learning agents learn only in training, from what really happened."""
import random

import jax
import numpy as np
from balloon_learning_environment.agents import agent as agent_lib
from balloon_learning_environment.agents import networks
from dopamine.jax.agents.dqn import dqn_agent
from dopamine.jax.agents.quantile import quantile_agent
from vp import learn

RULE = ('one evaluation = one call of a learning agent; distinct by (agent, mode, call, '
        'updated, synced, explored, action)')
ASSUMPTIONS = ['dopamine\'s replay buffers and update functions, optax and the JAX generator are trusted']
AM = agent_lib.AgentMode


class Writer:
  def __init__(self):
    self.log = []

  def scalar(self, tag, value, step):
    self.log.append((tag, float(value), int(step)))

  def flush(self):
    pass


def snap(ag):
  return dict(online=learn.leaves(ag.online_params), target=learn.leaves(ag.target_network_params),
              opt=learn.leaves(ag.optimizer_state), steps=ag.training_steps)


def shadow_update(kind, ag, raw, cfg):
  e = ag.replay_elements
  args = [ag.network_def, raw['online'], raw['target'], ag.optimizer, raw['opt'], e['state'], e['action'],
          e['next_state'], e['reward'], e['terminal']]
  if kind == 'dqn':
    opt, online, loss = dqn_agent.train(*args, cfg['gamma']**cfg['horizon'], cfg['loss'])
    return opt, online, float(loss), None
  opt, online, loss, _ = quantile_agent.train(*args, cfg['kappa'], cfg['atoms'], cfg['gamma']**cfg['horizon'])
  w = 1 / np.sqrt(np.asarray(e['sampling_probabilities'], np.float64) + 1e-10)
  return opt, online, float(np.mean(w / w.max() * np.asarray(loss, np.float64))), np.asarray(loss)


def greedy(kind, ag, o):
  z = learn.forward(ag.online_params, o)
  if kind == 'quantile':
    z = z.reshape(learn.NA, -1).mean(1)
  s = np.sort(z)
  return int(np.argmax(z)), s[-1] - s[-2]


class Driver:
  """Drives one dopamine-based agent, checking every call."""

  def __init__(self, ctx, kind, cfg):
    self.ctx, self.kind, self.cfg = ctx, kind, cfg
    self.exp = None

    def explorer(n, shape):
      self.exp = learn.Recorder(n, shape, seed=cfg['seed'])
      self.exp_args = (n, tuple(shape))
      return self.exp
    np.random.seed(cfg['seed'] % 2**31)
    random.seed(cfg['seed'])
    self.ag = learn.make(kind, cfg['dim'], cfg['seed'], explorer=explorer, **cfg['kw'])
    self.stored, self.prio = [], []
    add, self_ = self.ag._replay.add, self

    def spy(*a, **k):
      self_.stored.append((np.array(a[0]), int(a[1]), float(a[2]), bool(a[3]), bool(k.get('episode_end'))))
      return add(*a, **k)
    self.ag._replay.add = spy
    if kind == 'quantile':
      setp = self.ag._replay.set_priority

      def spy2(idx, pr):
        self_.prio.append((np.array(idx), np.array(pr)))
        return setp(idx, pr)
      self.ag._replay.set_priority = spy2
      ctx.check(self.exp is not None and self.exp_args == (learn.NA, (cfg['dim'],)),
                'the exploration wrapper is not constructed with the given sizes')
    self.mode = 'train'
    self.expected = []
    self.last = None
    self.trace = []
    self.writer = Writer()
    self.ag.set_summary_writer(self.writer)
    self.ag.training_steps = cfg.get('start', 0)  # As if restored.
    self.added = 0

  def call(self, what, fn, obs=None):
    ctx, ag, kind, kw = self.ctx, self.ag, self.kind, self.cfg['kw']
    train = self.mode == 'train'
    raw = dict(online=ag.online_params, target=ag.target_network_params, opt=ag.optimizer_state)
    before = snap(ag)
    self.prio.clear()
    nlog, nexp = len(self.writer.log), len(self.exp.log) if self.exp else 0
    oc = None if obs is None else obs.copy()
    info = dict(agent=kind, mode=self.mode, call=what, config=self.cfg, step=before['steps'])
    out = fn()
    if oc is not None:
      ctx.check(np.array_equal(oc, obs), 'the observation was modified', **info)
    after = snap(ag)
    steps = what in ('begin', 'step') and train
    ctx.check(after['steps'] == before['steps'] + steps, 'training steps are not counted once per action in training',
              before=before['steps'], after=after['steps'], **info)
    full = len(self.stored) > kw['history'] and steps  # Observed additions only.
    upd = full and before['steps'] % kw['update'] == 0
    sync = full and before['steps'] % kw['sync'] == 0
    loss = None
    if upd:
      opt, online, loss, per = shadow_update(kind, ag, raw, kw)
      ctx.check(learn.near(after['online'], learn.leaves(online)), 'an update is not one optimiser step on the sampled batch',
                **info)
      ctx.check(learn.near(after['opt'], learn.leaves(opt)), 'the optimiser state does not follow the update', **info)
      ctx.check(not learn.same(after['online'], before['online']), 'an update changed no parameter', **info)
      if kind == 'quantile':
        ctx.check(len(self.prio) == 1 and np.array_equal(self.prio[0][0], np.asarray(ag.replay_elements['indices'])),
                  'priorities are not set for the sampled transitions', **info)
        ctx.close(self.prio[0][1], np.sqrt(per + 1e-10), 'the priority is not the square root of the loss', 1e-4, 1e-5, **info)
      ctx.count('updates')
    else:
      ctx.check(learn.same(after['online'], before['online']) and learn.same(after['opt'], before['opt']),
                'parameters changed outside an update', **info)
      ctx.check(not self.prio, 'priorities changed outside an update', **info)
    if sync:
      ctx.check(learn.same(after['target'], after['online']), 'the target network is not synchronised', **info)
      ctx.count('syncs')
    else:
      ctx.check(learn.same(after['target'], before['target']), 'the target network changed outside a synchronisation', **info)
    new = self.writer.log[nlog:]
    if upd and before['steps'] > 0 and before['steps'] % kw['log'] == 0:
      ctx.check(len(new) == 1 and new[0][2] == before['steps'] and new[0][0] == ('QuantileLoss' if kind == 'quantile' else 'HuberLoss'), 'the loss is not logged once per update', log=new, **info)
      ctx.close(new[0][1], loss, 'the logged loss is not the loss of the update', 1e-4, 1e-6, **info)
    else:
      ctx.check(not new, 'something was logged without an update or between the periods', log=new, **info)
    explored = False
    if self.exp:
      calls = self.exp.log[nexp:]
      ctx.check(len(calls) == int(steps), 'the exploration wrapper is consulted once per training action only',
                calls=len(calls), **info)
      if calls:
        ctx.check(calls[0][0] == what and np.array_equal(calls[0][-3], obs), 'the exploration wrapper is told of another step', **info)
        ctx.check(int(out) == calls[0][-1], 'the explored action is not the one returned', **info)
        explored = calls[0][-1] != calls[0][-2]
        if kw['eps'] == 0.0:
          g, gap = greedy(kind, ag, obs)
          ctx.check(gap < 1e-5 or calls[0][-2] == g, 'the proposed action is not greedy', **info)
    if what != 'end':
      a = int(out)
      ctx.check(0 <= a < learn.NA, 'no such action', action=a, **info)
      if not train:
        g, gap = greedy(kind, ag, obs)
        ctx.check(gap < 1e-5 or a == g, 'an evaluation action is not greedy', action=a, greedy=g, **info)
        ctx.count('eval_actions')
      elif kw['eps'] == 0.0 and not self.exp:
        g, gap = greedy(kind, ag, obs)
        ctx.check(gap < 1e-5 or a == g, 'with epsilon 0 the action is not greedy', action=a, greedy=g, **info)
      self.trace.append(a)
    ctx.ev((kind, self.mode, what, upd, sync, explored, None if what == 'end' else int(out)))
    return out

  def compare(self):
    ctx = self.ctx
    ctx.check(len(self.stored) == len(self.expected), 'not every training transition is stored exactly once',
              stored=len(self.stored), expected=len(self.expected), agent=self.kind, config=self.cfg)
    for i, (s, e) in enumerate(zip(self.stored, self.expected)):
      ctx.check(np.array_equal(s[0], e[0].astype(np.float64)) and s[1:] == e[1:], 'a stored transition is not what happened', i=i,
                stored=s[1:], expected=e[1:], agent=self.kind, config=self.cfg)
    ctx.count('transitions', len(self.expected))

  def episode(self, rng, length, terminal):
    ag = self.ag
    f = lambda: rng.normal(size=self.cfg['dim']).astype(np.float32)
    o = f()
    a = self.call('begin', lambda: ag.begin_episode(o), o)
    for _ in range(length):
      o2, r = f(), float(np.float32(rng.normal() * rng.choice([0, 1, 1, 10, 1000])))
      if self.mode == 'train':
        self.expected.append((o, int(a), r, False, False))
      a = self.call('step', lambda: ag.step(r, o2), o2)
      o = o2
    r = float(np.float32(rng.normal()))
    if self.mode == 'train':
      self.expected.append((o, int(a), r, terminal, True))
    self.call('end', lambda: ag.end_episode(r, terminal))
    self.compare()

  def set_mode(self, mode, as_str):
    self.ag.set_mode(mode.value if as_str else mode)
    self.mode = mode.value


def dopamine(ctx):
  rng = ctx.rng
  for k in range(ctx.n(6, 40)):
    kind = ('dqn', 'quantile')[k % 2]
    kw = dict(update=int(rng.integers(1, 5)) if k % 4 else int(rng.integers(5, 12)), sync=int(rng.integers(3, 12)), history=int(rng.integers(10, 30)),
              capacity=int(rng.integers(40, 90)), horizon=int(rng.choice([1, 3, 5])), eps=float(rng.choice([0.0, 0.3])),
              layers=int(rng.integers(1, 4)), hidden=int(rng.integers(4, 14)), gamma=float(rng.uniform(0.5, 0.99)), log=int(rng.choice([1, 1, 2, 3, 5])),
              atoms=int(rng.integers(2, 9)), **(dict(loss=('huber', 'mse')[k // 2 % 2]) if kind == 'dqn' else dict(kappa=float(rng.choice([0.25, 1.0])))))
    cfg = dict(seed=int(rng.integers(2**31)), dim=int(rng.integers(2, 8)), kw=kw)
    if k % 3 == 2:  # Late in a long training, with long periods.
      kw['log'], kw['sync'], kw['update'] = 2500, 3000, 4
      cfg['start'] = 10**6
      # Through thousands that are due for nothing, for one thing, for all.
      jumps = {1: 1000 * (30 * int(rng.integers(1, 100)) + int(rng.choice([2, 4, 8]))), 2: 2500 * 7 * int(rng.integers(1, 9)),
               3: 30000 * int(rng.integers(1, 100)), 4: 500 * (60 * int(rng.integers(1, 100)) + 1)}
    ctx.current = dict(kind=kind, **cfg)
    plan = [(agent_lib.AgentMode.EVAL if rng.random() < 0.35 else agent_lib.AgentMode.TRAIN, bool(rng.random() < .5),
             int(rng.integers(0, 25)), bool(rng.random() < .5)) for _ in range(8)]
    plan[0] = (AM.TRAIN, True, 22, True)
    if 'start' in cfg:
      plan[1:5] = [(AM.TRAIN, True, 22, True)] * 4
    drng = int(rng.integers(2**31))

    def play():
      d, r = Driver(ctx, kind, cfg), np.random.default_rng(drng)
      for i, (mode, s, length, term) in enumerate(plan):
        d.set_mode(mode, s)
        if 'start' in cfg and i in jumps:
          d.ag.training_steps = jumps[i] - 11
          ctx.count('late')
        d.episode(r, length, term)
      return d
    d1 = play()
    if k < 2 or ctx.thorough:
      d2 = play()
      ctx.check(d1.trace == d2.trace and learn.same(learn.leaves(d1.ag.online_params), learn.leaves(d2.ag.online_params)),
                'the same seed and history give another agent', kind=kind, config=cfg)
    modes(ctx, d1.ag)
    if k < 2:
      a, b = [learn.make(kind, cfg['dim'], 0, **kw) for _ in range(2)]
      ctx.check(learn.same(learn.leaves(a.online_params), learn.leaves(b.online_params)), 'the seed 0 is no seed', kind=kind)
      a, b = [learn.make(kind, cfg['dim'], None, **kw) for _ in range(2)]
      ctx.check(not learn.same(learn.leaves(a.online_params), learn.leaves(b.online_params)), 'agents without a seed are all alike', kind=kind)


def modes(ctx, ag):
  for bad in ('Train', 'test', '', None, 1):
    ctx.raises(lambda: ag.set_mode(bad), ValueError, 'an unknown mode is accepted', mode=bad)


def sarsa(layers, x, a, r, x2, a2, gamma, lr):
  """One plain gradient step on (Q(x,a) - r - gamma Q(x2,a2))^2, by backpropagation."""
  def fwd(x):
    acts, h = [], np.asarray(x, np.float64).reshape(-1)
    for i, (w, b) in enumerate(layers):
      acts.append(h)
      z = h @ w + b
      h = np.maximum(z, 0) if i < len(layers) - 1 else z
    return acts, h

  def bwd(acts, idx):
    g = np.zeros(layers[-1][1].shape)
    g[idx] = 1.0
    out = []
    for i in range(len(layers) - 1, -1, -1):
      w, _ = layers[i]
      out.append((np.outer(acts[i], g), g.copy()))
      if i:
        g = (w @ g) * (acts[i] > 0)
    return out[::-1]
  A, q = fwd(x)
  A2, q2 = fwd(x2)
  e = q[a] - r - gamma * q2[a2]
  g1, g2 = bwd(A, a), bwd(A2, a2)
  return [(w - lr * 2 * e * (u[0] - gamma * v[0]), b - lr * 2 * e * (u[1] - gamma * v[1]))
          for (w, b), u, v in zip(layers, g1, g2)], e * e


def mlp(ctx):
  rng = ctx.rng
  for k in range(ctx.n(4, 25)):
    dim, seed = int(rng.integers(2, 9)), int(rng.integers(2**31))
    layers, hidden = int(rng.integers(1, 4)), int(rng.integers(3, 10))
    drng = int(rng.integers(2**31))
    finals = []
    for rep in range(2 if k < 2 else 1):
      ag = learn.make('mlp', dim, seed, layers=layers, hidden=hidden)
      r = np.random.default_rng(drng)
      mode = 'train'
      trace = []
      net = learn.dense_layers(ag.network_params)
      ctx.check(len(net) == layers and net[0][0].shape[0] == dim and net[-1][0].shape[1] == learn.NA
                and all(w.shape[1] == hidden for w, _ in net[:-1]), 'the network does not have the configured size',
                shapes=[w.shape for w, _ in net], layers=layers, hidden=hidden)
      for ep in range(4):
        info = dict(seed=seed, episode=ep, layers=layers, hidden=hidden, dim=dim, mode=mode)
        x = r.normal(size=dim).astype(np.float32)
        p0 = learn.leaves(ag.network_params)
        a = int(ag.begin_episode(x))
        q = learn.forward(ag.network_params, x)
        ctx.check(np.ptp(q) < 1e-5 or q[a] >= q.max() - 1e-5, 'the first action is not greedy', **info)
        ctx.check(learn.same(p0, learn.leaves(ag.network_params)), 'starting an episode changed the parameters', **info)
        for t in range(int(r.integers(1, 12))):
          if r.random() < 0.15:
            m = AM.EVAL if mode == 'train' else AM.TRAIN
            ag.set_mode(m if r.random() < .5 else m.value)
            mode = m.value
          x2, rew = r.normal(size=dim).astype(np.float32), float(r.normal())
          if r.random() < .25:
            rew = 0.0
          before, p0 = learn.dense_layers(ag.network_params), learn.leaves(ag.network_params)
          q = learn.forward(ag.network_params, x2)
          a2 = int(ag.step(rew, x2))
          ctx.check(q[a2] >= q.max() - 1e-5, 'the action is not greedy', t=t, **info)
          if mode == 'train':
            want, loss = sarsa(before, x, a, rew, x2, a2, 0.9, 0.001)
            got = learn.dense_layers(ag.network_params)
            for (w, b), (gw, gb), (w0, b0) in zip(want, got, before):
              # Compare the change, not the parameters.
              ctx.close(gw - w0, w - w0, 'the step is not one SARSA gradient step', 2e-3, 3e-7, t=t, loss=loss, **info)
              ctx.close(gb - b0, b - b0, 'the step is not one SARSA gradient step', 2e-3, 3e-7, t=t, loss=loss, **info)
            ctx.count('sarsa_steps')
          else:
            ctx.check(learn.same(p0, learn.leaves(ag.network_params)), 'parameters changed in evaluation', t=t, **info)
            ctx.count('mlp_eval')
          ctx.ev(('mlp', mode, layers, a2, min(t, 5)))
          x, a = x2, a2
          trace.append(a)
        if ep == 3:  # A reward like no other; only the first step, as it may throw the network far off.
          ag.set_mode('train')
          rew = float(r.choice([-1, 1]) * r.uniform(150, 400))
          before = learn.dense_layers(ag.network_params)
          x2 = r.normal(size=dim).astype(np.float32)
          a2 = int(ag.step(rew, x2))
          want, loss = sarsa(before, x, a, rew, x2, a2, 0.9, 0.001)
          for (w, b), (gw, gb), (w0, b0) in zip(want, learn.dense_layers(ag.network_params), before):
            ctx.close(gw - w0, w - w0, 'the step is not one SARSA gradient step', 2e-3, 1e-5, loss=loss, **info)
            ctx.close(gb - b0, b - b0, 'the step is not one SARSA gradient step', 2e-3, 1e-5, loss=loss, **info)
          ctx.count('huge')
        p0 = learn.leaves(ag.network_params)
        ag.end_episode(float(r.normal()), bool(r.random() < .5))
        ctx.check(learn.same(p0, learn.leaves(ag.network_params)), 'ending an episode changed the parameters', **info)
      finals.append((trace, learn.leaves(ag.network_params)))
    if len(finals) == 2:
      ctx.check(finals[0][0] == finals[1][0] and learn.same(finals[0][1], finals[1][1]),
                'the same seed gives another agent', seed=seed)
    modes(ctx, ag)
  a, b = [learn.make('mlp', 5, 0, layers=2, hidden=6) for _ in range(2)]
  ctx.check(learn.same(learn.leaves(a.network_params), learn.leaves(b.network_params)), 'the seed 0 is no seed')
  # Without a seed, two agents differ.
  a, b = [learn.make('mlp', 5, None, layers=2, hidden=6) for _ in range(2)]
  ctx.check(not learn.same(learn.leaves(a.network_params), learn.leaves(b.network_params)), 'agents without a seed are all alike')


def shapes(dim, layers, hidden, out):
  w = [dim] + [hidden] * (layers - 1) + [out]
  return list(zip(w, w[1:]))


def nets(ctx):
  rng = ctx.rng
  for k in range(ctx.n(8, 80)):
    dim, layers, hidden, atoms = (int(v) for v in (rng.integers(2, 20), rng.integers(1, 5), rng.integers(2, 20), rng.integers(2, 9)))
    if k % 4 == 3:
      atoms, hidden = int(rng.integers(52, 120)), int(rng.integers(130, 400))
      layers = int(rng.integers(5, 9)) if k % 8 == 3 else layers
    acts = int(rng.integers(2, 9))
    scale = (3., 300., .01, 3.)[k % 4]
    info = dict(dim=dim, layers=layers, hidden=hidden, atoms=atoms, actions=acts, scale=scale)
    x = (rng.normal(size=(dim, 1) if k % 2 else dim) * scale).astype(np.float32)
    key = jax.random.PRNGKey(int(rng.integers(2**31)))
    m = networks.MLPNetwork(num_actions=acts, num_layers=layers, hidden_units=hidden, is_dopamine=bool(k % 2))
    p = m.init(key, x)
    q = m.apply(p, x)
    q = q.q_values if k % 2 else q
    ctx.check([w.shape for w, _ in learn.dense_layers(p)] == shapes(dim, layers, hidden, acts), 'the layers are not those configured', **info)
    want = learn.forward(p, x)
    ctx.close(np.asarray(q), want, 'the MLP is not the composition of its layers', 1e-4, 1e-4 * max(np.abs(want).max(), 1e-2), **info)
    m = networks.QuantileNetwork(num_actions=acts, num_layers=layers, hidden_units=hidden, num_atoms=atoms)
    p = m.init(key, x)
    out = m.apply(p, x)
    z = learn.forward(p, x).reshape(acts, atoms)
    tol = 1e-4 * max(np.abs(z).max(), 1e-2)
    ctx.check([w.shape for w, _ in learn.dense_layers(p)] == shapes(dim, layers, hidden, acts * atoms), 'the layers are not those configured', **info)
    ctx.close(np.asarray(out.logits), z, 'the quantiles are not the network\'s outputs', 1e-4, tol, **info)
    ctx.close(np.asarray(out.q_values), z.mean(1), 'the value is not the mean of the quantiles', 1e-4, tol, **info)
    z = np.asarray(out.logits, np.float64)
    e = np.exp(z - z.max(1, keepdims=True))
    ctx.close(np.asarray(out.probabilities), e / e.sum(1, keepdims=True), 'probabilities are not the softmax', 1e-4, 1e-4, **info)
    ctx.ev(('nets', layers, dim // 4, atoms // 2))


def run(ctx):
  nets(ctx)
  mlp(ctx)
  dopamine(ctx)
  for n, m in (('updates', 60), ('huge', 4), ('late', 1), ('syncs', 15), ('eval_actions', 60), ('transitions', 250), ('sarsa_steps', 40), ('mlp_eval', 5)):
    ctx.require(n, m)
