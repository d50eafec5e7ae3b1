"""P46: the Acme entry points fly, score, explore and act as the rest does."""
import importlib

import gin
import jax
import jax.numpy as jnp
import numpy as np
from balloon_learning_environment.agents import agent as agent_lib
from balloon_learning_environment.agents import networks
from balloon_learning_environment.env import balloon_env
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.utils import units
from vp import acme_stub
from vp import envs
from vp import learn

RULE = ('one evaluation = one environment step, one actor call or one batch of '
        'values; distinct by (part, evaluation, inside, how the episode ended, batch)')
ASSUMPTIONS = ['acme, dm_env, haiku and rlax are not installed: stand-ins after their documentation',
               'learners, replay, the recurrent network and the checkpoint files of Acme are outside']

HYPER = dict(discount=0.993, n_step=5, min_replay_size=500, target_update_period=25, adam_eps=2e-5, max_replay_size=2e6,
             batch_size=32, samples_per_insert=8, prefetch_size=0)


def environments(ctx, au):
  rng = ctx.rng
  # A small feature constructor and the static wind, by configuration.
  gin.bind_parameter('BalloonEnv.wind_field_factory', wind_field.SimpleStaticWindField)
  gin.bind_parameter('BalloonEnv.feature_constructor_factory', envs.Plain)
  for k in range(ctx.n(24, 200)):
    is_eval, length, oar = bool(k % 2), int(rng.choice([1, 2, 7, 20, 45])), bool(rng.random() < .3)
    long = k in (2, 3)
    if long:
      length = int(rng.choice([260, 500, 960]))
    radius = float(rng.choice([5.0, 20.0, 49.0, 75.0, 200.0])) if k % 4 == 1 else 50.0
    gin.bind_parameter('BalloonEnv.station_keeping_radius_km', radius)
    gin.bind_parameter('BalloonEnv.seed', int(rng.integers(2**31)))
    env = au.create_env(is_eval, length, oar_wrapper=oar) if oar or k % 3 else au.create_env(is_eval, length)
    raw = env
    while isinstance(raw, acme_stub.Wrapper):
      raw = raw.environment
    info = dict(is_eval=is_eval, length=length, oar=oar)
    ctx.check(isinstance(raw, balloon_env.BalloonEnv), 'the environment inside is not the balloon environment', **info)
    R = raw.radius.kilometers
    ctx.check(abs(R - radius) < 1e-9, 'another station-keeping radius', got=R, **info)
    for ep in range(1 if long else int(rng.integers(1, 4))):
      t = env.reset()
      seen = lambda x: x.observation.observation if oar else x.observation
      ctx.check(t.first() and isinstance(t.observation, acme_stub.OAR) == oar, 'an episode does not start afresh', **info)
      ctx.check(np.asarray(seen(t)).dtype == np.float32, 'observations are not single precision', **info)
      total, inside, n, last_d = 0.0, 0, 0, None
      while True:
        # Put it near the circle, on either side.
        s = raw.arena.get_balloon_state()
        r, th = R * float(rng.choice([rng.uniform(0, 1), rng.uniform(0.98, 1.02), rng.uniform(1, 4)])), rng.uniform(0, 2 * np.pi)
        s.x, s.y = units.Distance(km=float(r * np.cos(th))), units.Distance(km=float(r * np.sin(th)))
        if rng.random() < (0.0 if long else 0.02):
          s.internal_temperature = float(s.internal_temperature) + float(rng.choice([-40, 40]))
        a = int(rng.integers(3))
        t = env.step(np.int32(a))
        n += 1
        s = raw.get_simulator_state().balloon_state
        d = float(np.hypot(s.x.kilometers, s.y.kilometers))
        broken = s.status.name != 'OK'
        ctx.check(isinstance(t.reward, np.floating) and t.reward.dtype == np.float32, 'rewards are not single precision', **info)
        if is_eval:
          if abs(d - R) > 1e-6:
            ctx.close(float(t.reward), (d <= R) / length, 'an evaluation reward is not the share of the episode spent inside',
                      1e-6, 0, distance=d, **info)
          inside += float(t.reward) > 0
        else:
          want = float(balloon_env.perciatelli_reward_function(raw.get_simulator_state()))
          ctx.close(float(t.reward), want, 'a training reward is not the documented one', 1e-6, 1e-9, distance=d, **info)
        total += float(t.reward)
        if oar:
          ctx.check(int(t.observation.action) == a and t.observation.reward == t.reward, 'the observation does not carry the action and reward', **info)
        ctx.check(t.last() == (broken or n == length), 'an episode does not end at its limit or a failure', n=n, broken=broken, **info)
        ctx.ev(('env', is_eval, length, d <= R, broken, oar))
        if t.last():
          ctx.check(float(t.discount) == (0.0 if broken else 1.0), 'a cut flight is reported as a failure, or the reverse', **info)
          break
      if is_eval:
        ctx.close(total, inside / length, 'the return is not the time within the radius', 1e-5, 1e-6, **info)
      ctx.count('evaluation' if is_eval else 'training')
      ctx.count('failed' if broken else 'limit')


class Empty(list):
  """An adder to which nothing was added."""


class Script:
  """An exploration that logs."""

  def __init__(self, rng):
    self.log, self.rng = [], rng

  def begin_episode(self, observation, action):
    self.log.append(('begin', observation))
    return action

  def step(self, reward, observation, action):
    out = int(self.rng.integers(3)) if self.rng.random() < .5 else int(action)
    self.log.append(('step', observation, int(action), out))
    return out


class Inner:

  def __init__(self, rng):
    self.log, self.rng = [], rng

  def select_action(self, o):
    a = np.int32(self.rng.integers(3))
    self.log.append(('select', o, int(a)))
    return a

  def observe_first(self, t):
    self.log.append(('first', t))

  def observe(self, a, t):
    self.log.append(('observe', a, t))

  def update(self, wait=False):
    self.log.append(('update', wait))


def actors(ctx, au):
  rng = ctx.rng
  for k in range(ctx.n(40, 400)):
    inner, ex = Inner(rng), Script(rng)
    c = au.CombinedActor(inner, ex)
    for ep in range(int(rng.integers(1, 4))):
      o = rng.normal(size=5)
      t = acme_stub.TimeStep(0, None, None, o)
      n0, e0 = len(inner.log), len(ex.log)
      c.observe_first(t)
      ctx.check(inner.log[n0:] == [('first', t)] and len(ex.log) == e0 + 1 and ex.log[-1][0] == 'begin' and ex.log[-1][1] is o,
                'actor and exploration are not both told of the new episode once')
      for step in range(int(rng.integers(1, 30))):
        n0, e0 = len(inner.log), len(ex.log)
        a = c.select_action(o)
        ctx.check(len(inner.log) == n0 + 1 and inner.log[-1][0] == 'select' and inner.log[-1][1] is o, 'the actor is not asked once per step')
        ctx.check(len(ex.log) == e0 + 1 and ex.log[-1][0] == 'step' and ex.log[-1][1] is o and ex.log[-1][2] == inner.log[-1][2],
                  'the exploration is not asked once per step with the actor\'s action')
        ctx.check(np.asarray(a).dtype == np.int32 and int(a) == ex.log[-1][3], 'the action is not the exploration\'s', got=a)
        o = rng.normal(size=5)
        t = acme_stub.TimeStep(1, 1.0, 1.0, o)
        n0, e0 = len(inner.log), len(ex.log)
        c.observe(a, t)
        w = bool(rng.random() < .5)
        c.update(w)
        if step % 5 == 0:
          c.update()
        ctx.check([x[0] for x in inner.log[n0:]] == ['observe', 'update'] + ['update'] * (step % 5 == 0) and inner.log[n0][1] is a
                  and inner.log[n0][2] is t and inner.log[n0 + 1] == ('update', w) and inner.log[-1] in (('update', w), ('update', False)),
                  'the actor is not told what happened')
        ctx.check(len(ex.log) == e0, 'the exploration is asked although there was no step')
        ctx.count('actor_steps')
        ctx.ev(('actor', ex.log[-1][2] != ex.log[-1][3], min(step, 10)))
    # Exploration for actors that collect, not for those that evaluate.
    made = []

    def make(key, policy, spec, source=None, adder=None):
      made.append((key, policy, spec, source, adder, Inner(rng)))
      return made[-1][-1]
    wrapped = au.marco_polo_actor(make)
    args = [object() for _ in range(4)]
    if k < ctx.n(6, 30):
      got = wrapped(*args)
      ctx.check(len(made) == 1 and got is made[0][-1] and all(x is y for x, y in zip(made[0], args)) and made[0][4] is None,
                'an evaluation actor is not the original one')
      adder = object() if k % 3 else Empty()
      got = wrapped(*args, adder) if k % 2 else wrapped(*args, adder=adder)
      ctx.check(len(made) == 2 and isinstance(got, au.CombinedActor) and all(x is y for x, y in zip(made[1], args + [adder])),
                'a collecting actor does not explore')
      # Four hours of agent, two of random walk, in four of five episodes.
      seq = []
      for _ in range(6):
        o = np.zeros(1099, np.float32)
        got.observe_first(acme_stub.TimeStep(0, None, None, o))
        same = 0
        for step in range(80):
          a = got.select_action(o)
          if step < 79:
            ctx.check(int(a) == made[1][-1].log[-1][2], 'exploration before four hours', step=step)
        taken = [int(got.select_action(o)) for _ in range(40)]
        own = [x[2] for x in made[1][-1].log[-40:]]
        seq.append(taken != own)
      ctx.count('explored', sum(seq))
      ctx.count('explorers')


def greedy(ctx, ag, params, n, loaded):
  """The agent acts greedily on these parameters."""
  rng = ctx.rng
  for _ in range(n):
    o = rng.normal(size=1099).astype(np.float32)
    z = learn.forward(params, o).reshape(3, -1).mean(1)
    s = np.sort(z)
    a = int(ag.begin_episode(o) if rng.random() < .3 else ag.step(float(rng.normal()), o))
    ctx.check(s[-1] - s[-2] < 1e-4 or a == int(np.argmax(z)), 'the evaluation agent is not greedy on its checkpoint', action=a, q=z, loaded=loaded)
    if rng.random() < .2:
      ag.end_episode(0.5, bool(rng.random() < .5))
    ctx.count('eval_agent')
    ctx.ev(('eval', a, loaded))


def policies(ctx, au, eval_agent):
  rng = ctx.rng
  # Batched values are those of the network, row by row.
  for k in range(ctx.n(8, 80)):
    n, dim, layers, hidden, atoms = (int(v) for v in (rng.integers(1, 6), rng.integers(2, 9), rng.integers(1, 4), rng.integers(3, 10), rng.integers(2, 7)))
    if k % 4 == 1:
      n, atoms = int(rng.integers(32, 70)), int(rng.integers(51, 101))
    net = au.QuantileNetwork(num_actions=3, num_layers=layers, hidden_units=hidden, num_atoms=atoms)
    x = rng.normal(size=(n, dim)).astype(np.float32)
    p = net.init(jax.random.PRNGKey(int(rng.integers(2**31))), x)
    out = net.apply(p, x)
    info = dict(rows=n, layers=layers, atoms=atoms)
    ctx.check(np.asarray(out['q_dist']).shape == (n, 3, atoms) and np.asarray(out['q_values']).shape == (n, 3), 'shapes of the batch', **info)
    ls = learn.dense_layers(p)
    ctx.check(len(ls) == layers, 'the network does not have the given size', **info)
    z = np.stack([learn.forward(p, r).reshape(3, atoms) for r in x])
    ctx.close(np.asarray(out['q_dist']), z, 'the quantiles of a batch are not those of its rows', 1e-4, 1e-4, **info)
    ctx.close(np.asarray(out['q_values']), z.mean(2), 'the values of a batch are not those of its rows', 1e-4, 1e-4, **info)
    ctx.ev(('batch', n, layers))
    ctx.count('batches')
  # The components: sizes, exploration switch, policies.
  spec = acme_stub.EnvironmentSpec(acme_stub.Array((1099,), np.float32), acme_stub.DiscreteArray(3), acme_stub.Array((), float),
                                   acme_stub.BoundedArray((), float, 0.0, 1.0))
  nets = None
  for mp in (False, True, None):
    params = {} if mp is None else dict(marco_polo_exploration=mp)
    if mp:
      params['prefetch_hint'] = 7
    builder, config, make_networks, behaviour, evaluation = au.create_dqn(params)
    # The shipped hyperparameters, whatever else was asked for.
    lr = {} if mp is None else dict(adaptive_learning_rate=True)
    cfg = au.create_dqn(dict(lr))[1]
    got = [float(getattr(cfg, n)) for n in HYPER]
    ctx.close(got, list(HYPER.values()), 'the hyperparameters are not the shipped ones', 1e-12, 0, names=list(HYPER))
    rates = [float(cfg.learning_rate(t)) if lr else float(cfg.learning_rate) for t in (0, 78125, 156250, 10**6)]
    ctx.close(rates, [2e-6, 1.2e-6, 4e-7, 4e-7] if lr else [2e-6] * 4, 'another learning rate', 1e-4, 0, adaptive=bool(lr))
    ctx.check(builder.loss_fn.num_atoms == 51 and builder.loss_fn.huber_param == 1, 'another loss')
    ctx.check(builder.config is config, 'the builder has another configuration')
    ctx.check(not mp or config.prefetch_hint == 7, 'the given parameters do not reach the configuration')
    source = type('Source', (), {})()
    for adder in (None, object(), Empty()):
      got = builder.make_actor(jax.random.PRNGKey(0), lambda *a: 1, spec, source, adder)
      ctx.check(isinstance(got, au.CombinedActor) == bool(mp and adder is not None), 'exploration does not follow the switch', switch=mp, collects=adder is not None)
    if nets is None:
      nets = make_networks(spec)
      params0 = nets.init(jax.random.PRNGKey(int(rng.integers(2**31))))
      ls = learn.dense_layers(params0)
      ctx.check([w.shape for w, _ in ls] == [(1099, 600)] + [(600, 600)] * 6 + [(600, 153)],
                'the network is not the one of the quantile agent', got=[w.shape for w, _ in ls])
  fake = type('Net', (), {})()
  for k in range(ctx.n(60, 600)):
    q = rng.normal(size=3).astype(np.float32)
    fake.apply = lambda p, o, q=q: {'q_values': jnp.asarray(q)[None] + 0 * jnp.sum(o), 'q_dist': None} if o.ndim == 2 and o.shape[0] == 1 else 1 / 0
    o = jnp.asarray(rng.normal(size=4).astype(np.float32))
    key = jax.random.PRNGKey(int(rng.integers(2**31)))
    g = int(np.argmax(q))
    ctx.check(int(behaviour(fake)({}, key, o, 0.0)) == g, 'with epsilon 0 the behaviour is not greedy', q=q)
    ctx.check(int(evaluation(fake)({}, key, o, float(rng.choice([0.0, 1.0])))) == g, 'the evaluation policy is not greedy', q=q)
    ctx.ev(('policy', g))
    ctx.count('policies')
  q = np.array([0.1, 0.9, 0.2], np.float32)
  fake.apply = lambda p, o: {'q_values': jnp.asarray(q)[None]}
  n = ctx.n(300, 1500)
  pol = jax.jit(lambda key: behaviour(fake)({}, key, jnp.zeros(4), 0.6))
  acts = np.array([int(pol(jax.random.PRNGKey(int(s)))) for s in rng.integers(2**31, size=n)])
  share = np.bincount(acts, minlength=3) / n
  ctx.check(np.all(np.abs(share - [0.2, 0.6, 0.2]) < 5 * np.sqrt(0.24 / n)), 'the behaviour does not explore with epsilon', share=share)
  # The agent of the evaluation binary.
  disk = {}
  for d in ('/ck/a', '/ck/b'):
    for n in (3, 10, 200):
      disk[f'{d}/checkpoints/learner/ckpt-{n}'] = nets.init(jax.random.PRNGKey(int(rng.integers(2**31))))
  acme_stub.Checkpointer.disk = disk
  acme_stub.Builder.learner_factory = lambda self, *a, **kw: type('Learner', (), dict(params=params0))()
  try:
    ag = eval_agent.AcmeEvalAgent(3, (1099,))
    greedy(ctx, ag, params0, ctx.n(12, 60), 'none')
    for _ in range(ctx.n(5, 20)):
      path = str(rng.choice(list(disk)))
      d, n = path.split('/checkpoints')[0], int(path.rsplit('-', 1)[1])
      ag.load_checkpoint(d, n)
      greedy(ctx, ag, disk[path], ctx.n(8, 20), path)
      ctx.count('reloaded')
    ctx.raises(lambda: ag.load_checkpoint('/ck/a', 7), KeyError, 'a checkpoint that does not exist was loaded')
  finally:
    del acme_stub.Builder.learner_factory
    acme_stub.Checkpointer.disk = {}
  ag.set_mode('eval')
  ag.set_mode(agent_lib.AgentMode.EVAL)
  for bad in ('train', agent_lib.AgentMode.TRAIN, 'x'):
    ctx.raises(lambda: ag.set_mode(bad), ValueError, 'an evaluation-only agent was put in another mode', mode=str(bad))


def run(ctx):
  if not acme_stub.install():
    raise RuntimeError('Acme is installed: this monitor was built for its stand-ins')
  from balloon_learning_environment import acme_utils
  from balloon_learning_environment.agents import acme_eval_agent
  from balloon_learning_environment.agents import agent_registry
  importlib.reload(agent_registry)  # It looks for Acme once, which was before the stand-ins.
  ctx.check(agent_registry.agent_constructor('acme_eval_agent') is acme_eval_agent.AcmeEvalAgent and
            agent_registry.get_default_gin_config('acme_eval_agent') is None, 'the name does not give the evaluation agent')
  ctx.raises(lambda: agent_registry.agent_constructor('acme_agent'), ValueError, 'an unknown agent is accepted')
  gin.clear_config()
  try:
    environments(ctx, acme_utils)
  finally:
    gin.clear_config()
  actors(ctx, acme_utils)
  policies(ctx, acme_utils, acme_eval_agent)
  for n, m in (('evaluation', 10), ('training', 10), ('failed', 1), ('limit', 10), ('actor_steps', 200), ('explorers', 4),
               ('explored', 3), ('batches', 5), ('policies', 30), ('eval_agent', 10), ('reloaded', 3)):
    ctx.require(n, m)
