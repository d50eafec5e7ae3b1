"""P45: rendering shows the flight since the last reset and changes nothing."""
import datetime as dt

import matplotlib
matplotlib.use('Agg')
from matplotlib import dates as mdates
import matplotlib.pyplot as plt
import numpy as np
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.rendering import matplotlib_renderer
from balloon_learning_environment.env.rendering import renderer as renderer_lib
from balloon_learning_environment.utils import units
from vp import envs

RULE = ('one evaluation = one frame rendered or one call into a renderer; distinct by (mode, steps flown since the '
        'reset, resets before, renderers alive)')
ASSUMPTIONS = ['matplotlib draws the artists it is given']


class Recorder(renderer_lib.Renderer):
  """Logs what the environment tells its renderer."""

  def __init__(self):
    self.log = []

  def reset(self):
    self.log.append(('reset',))

  def step(self, state):
    s = state.balloon_state
    self.log.append(('step', envs.state_vec(s)))

  def render(self, mode, summary_writer=None, iteration=None):
    out = object()
    self.log.append(('render', mode, out))
    return out

  @property
  def render_modes(self):
    return ['human', 'special']


class Writer:
  def __init__(self):
    self.log = []

  def image(self, tag, frame, step):
    self.log.append((tag, np.array(frame), step))

  def flush(self):
    self.log.append('flush')


def told(ctx):
  """The protocol between environment and renderer."""
  rng = ctx.rng
  for k in range(ctx.n(6, 60)):
    wf = wind_field.SimpleStaticWindField if k % 2 else envs.grid_field
    seed = int(rng.integers(2**31))
    r = Recorder()
    env = envs.make_env(seed, wf=wf, renderer=r)
    bare = envs.make_env(seed, wf=wf)
    ctx.check(list(env.metadata['render.modes']) == ['human', 'special'], 'the environment does not offer the renderer\'s modes')
    want = [('reset',), ('step', envs.state_vec(env.get_simulator_state().balloon_state))]
    over = False
    for t in range(ctx.n(25, 60)):
      what = 0.0 if over else rng.random()
      over = False
      if what < 0.1:
        s = int(rng.integers(2**31)) if rng.random() < .5 else None
        o, p = env.reset(seed=s), bare.reset(seed=s)
        want += [('reset',), ('step', envs.state_vec(env.get_simulator_state().balloon_state))]
        ctx.check(np.array_equal(o, p), 'the renderer changes the flight', at='reset')
      elif what < 0.3:
        mode = str(rng.choice(['human', 'special', 'odd']))
        got = env.render(mode) if rng.random() < .7 else env.render(mode=mode)
        want.append(('render', mode, got))
        ctx.check(bare.render(mode) is None, 'without renderer something is rendered')
        ctx.ev(('told', mode))
      else:
        a = int(rng.integers(3))
        if rng.random() < .2:  # A flight that ends: the gas is far too cold or hot.
          kelvin = float(env.get_simulator_state().balloon_state.internal_temperature) + float(rng.choice([-40, 40]))
          for e in (env, bare):
            envs.place(e, rng, internal_temperature=kelvin)
        x, y = env.step(a), bare.step(a)
        ctx.check(np.array_equal(x[0], y[0]) and x[1:] == y[1:], 'the renderer changes the flight', step=t)
        over = bool(x[2])
        ctx.count('ended', over)
        want.append(('step', envs.state_vec(env.get_simulator_state().balloon_state)))
      ctx.check(r.log == want, 'the renderer is not told of every state once, in order', got=[e[0] for e in r.log][-4:],
                want=[e[0] for e in want][-4:], step=t)
    ctx.check(env.render() is r.log[-1][2] and r.log[-1][1] == 'human', 'the default mode is not human')
    ctx.count('protocols')


def artist(l):
  if hasattr(l, 'get_data_3d'):
    return np.stack([np.asarray(v, float) for v in l.get_data_3d()], 1)
  x = l.get_xdata(orig=True)
  x = mdates.date2num(x) if len(x) and not isinstance(x[0], (int, float, np.number)) else np.asarray(x, float)
  return np.stack([x, np.asarray(l.get_ydata(orig=True), float)], 1)


def artists(fig):
  """All line data in the figure: lists of (n, 2) or (n, 3) arrays."""
  out = []
  for ax in fig.axes:
    out += [artist(l) for l in ax.get_lines()]
  return out


def marks(fig):
  """Per axes (three-dimensional?, points marked, circles drawn)."""
  out = []
  for ax in fig.axes:
    solid = hasattr(ax, 'get_zlim')
    pts, rings = [], []
    for c in ax.collections:
      if hasattr(c, '_offsets3d'):
        pts += [p for p in np.stack([np.ma.getdata(v).astype(float).reshape(-1) for v in c._offsets3d], 1)]
      elif not solid:
        pts += list(np.asarray(c.get_offsets(), float))
    for l in ax.get_lines():
      if l.get_marker() not in ('None', None, '', ' '):
        pts += list(artist(l))
    for q in list(ax.patches) + list(ax.collections) + list(ax.get_lines()):
      try:
        # In data coordinates; a closed curve round the station is what counts.
        if hasattr(q, '_segment3d'):
          v = np.asarray(q._segment3d, float)[:, :2]
        elif hasattr(q, 'center') and hasattr(q, 'get_patch_transform'):
          v = q.get_patch_transform().transform(q.get_path().vertices)
        else:
          v = artist(q)[:, :2]
      except AttributeError:
        continue
      if len(v) >= 8:
        rings.append(np.asarray(v, float))
    out.append((solid, pts, rings, ax))
  return out


def near(pts, want):
  return any(len(p) == len(want) and np.allclose(p, want, rtol=1e-9, atol=1e-9) for p in pts)


def ring(rings, radius):
  for v in rings:
    r = np.hypot(v[:, 0], v[:, 1])
    ang = np.arctan2(v[:, 1], v[:, 0])
    # Bezier control points lie up to 1.2 radii out; those on the curve at it.
    if abs(r.min() - radius) < 1e-6 * radius and r.max() < 1.3 * radius and ang.min() < -2.3 and ang.max() > 2.3:
      return True
  return False


def shown(data, want):
  return any(d.shape == want.shape and np.allclose(d, want, rtol=1e-9, atol=1e-9) for d in data)


def placed(ctx, l, tr, **info):
  """The balloon, the station, its 50 km and the scales."""
  ms = marks(l['fig'])
  xyz = np.array(tr[-1][:3])
  ctx.check(any(solid and near(pts, xyz) for solid, pts, _, _ in ms), 'the balloon is not marked where it is', **info)
  ctx.check(any(not solid and near(pts, xyz[:2]) for solid, pts, _, _ in ms), 'the balloon is not marked on the map', **info)
  ctx.check(any(solid and any(len(p) == 3 and p[0] == 0.0 and p[1] == 0.0 for p in pts) for solid, pts, _, _ in ms),
            'the station is not marked', **info)
  for flat in (True, False):
    ctx.check(any(solid != flat and ring(rings, 50.0) for solid, _, rings, _ in ms), 'the 50 km round the station are not drawn',
              flat=flat, **info)
  scales = []
  for solid, _, rings, ax in ms:
    if ring(rings, 50.0):
      for lo, hi in (ax.get_xlim(), ax.get_ylim()):
        ctx.check(lo <= -50.0 and hi >= 50.0, 'the station\'s 50 km do not fit the picture', got=(lo, hi), **info)
      scales.append((solid, ax.get_xlim(), ax.get_ylim(), ax.get_zlim() if solid else None))
    else:
      ctx.check(ax.get_ylim()[0] <= 0.0 and ax.get_ylim()[1] >= 100.0, 'the charge does not fit its axis', got=ax.get_ylim(), **info)
  ctx.check(l.setdefault('scales', scales) == scales, 'the scale of the picture changes during the flight', got=scales, want=l['scales'], **info)
  ctx.count('marked')


def real(ctx):
  rng = ctx.rng
  # Two renderers live in the same process and must not draw into each other.
  live = []
  for j in range(2):
    seed = int(rng.integers(2**31))
    wf = wind_field.SimpleStaticWindField if j else envs.grid_field
    before = set(plt.get_fignums())
    r = matplotlib_renderer.MatplotlibRenderer()
    new = set(plt.get_fignums()) - before
    ctx.check(len(new) == 1, 'a renderer does not have a figure of its own', new=sorted(new))
    live.append(dict(r=r, fig=plt.figure(new.pop()), env=envs.make_env(seed, wf=wf, renderer=r), bare=envs.make_env(seed, wf=wf), track=[], resets=0,
                     frames=[]))

  def note(l):
    st = l['env'].get_simulator_state()
    s = st.balloon_state
    h = st.atmosphere.at_pressure(s.pressure).height.kilometers
    l['track'].append((s.x.kilometers, s.y.kilometers, h, s.battery_soc * 100, s.date_time))
  for l in live:
    note(l)
    ctx.check(set(l['r'].render_modes) == {'human', 'rgb_array', 'tensorboard'}, 'other render modes are offered', got=list(l['r'].render_modes))
  for t in range(ctx.n(60, 500)):
    l = live[int(rng.integers(2))]
    env, bare, r = l['env'], l['bare'], l['r']
    info = dict(t=t, flown=len(l['track']), resets=l['resets'])
    what = rng.random() if t % 12 else 0.9
    if what < 0.07 or t == 30:
      s = int(rng.integers(2**31))
      ctx.check(np.array_equal(env.reset(seed=s), bare.reset(seed=s)), 'rendering changes the flight', **info)
      l['track'].clear()
      l['resets'] += 1
      note(l)
    elif what < 0.5:
      for _ in range(int(rng.integers(1, 6))):
        a = int(rng.integers(3))
        x, y = env.step(a), bare.step(a)
        ctx.check(np.array_equal(x[0], y[0]) and x[1:] == y[1:], 'rendering changes the flight', **info)
        note(l)
    else:
      mode = str(rng.choice(['human', 'rgb_array', 'tensorboard', 'rgb_array']))
      w = Writer() if rng.random() < .7 else None
      it = int(rng.integers(0, 1000)) if rng.random() < .7 else None
      if t % 12 == 0:
        mode, w, it = 'tensorboard', Writer(), t
      if w is None and it is None:
        out = env.render(mode)
      else:
        out = r.render(mode, summary_writer=w, iteration=it)
      info.update(mode=mode, writer=w is not None, iteration=it)
      if mode == 'rgb_array':
        ctx.check(isinstance(out, np.ndarray) and out.dtype == np.uint8 and out.ndim == 3 and out.shape[2] == 3
                  and out.min() < out.max(), 'a frame is not an RGB picture', got=getattr(out, 'shape', out), **info)
        again = r.render('rgb_array')
        ctx.check(np.array_equal(out, again), 'the same flight gives another picture', **info)
        seen = l.get('seen')
        if seen and seen[0] == l['resets'] and len(l['track']) - seen[1] >= 10:
          ctx.check(not np.array_equal(out, seen[2]), 'the picture does not show that the balloon has moved on', **info)
          ctx.count('moved_on')
        if not seen or seen[0] != l['resets'] or len(l['track']) - seen[1] >= 10:
          l['seen'] = (l['resets'], len(l['track']), out.copy())
        for f, c in l['frames'][-3:]:
          ctx.check(np.array_equal(f, c), 'an earlier frame changed', **info)
        l['frames'].append((out, out.copy()))
      else:
        ctx.check(out is None, 'a frame is returned although none was asked for', **info)
      if mode == 'tensorboard' and w is not None and it is not None:
        images = [e for e in w.log if e != 'flush']
        ctx.check(len(images) == 1 and images[0][2] == it and 'flush' == w.log[-1], 'not one picture is written for the iteration',
                  log=[e if e == 'flush' else (e[0], e[2]) for e in w.log], **info)
        ctx.check(np.array_equal(images[0][1], r.render('rgb_array')), 'the written picture is not the frame', **info)
        ctx.count('written')
      elif w is not None:
        ctx.check(not w.log, 'something is written without being asked for', mode_=mode, **info)
      if mode == 'tensorboard':
        r.render('rgb_array')
      tr = l['track']
      data = artists(l['fig'])
      xyz = np.array([p[:3] for p in tr])
      ctx.check(shown(data, xyz), 'the flight shown is not the flight since the reset', **info)
      ctx.check(shown(data, xyz[:, :2]), 'the map shows another flight', **info)
      ctx.check(shown(data, np.array([(mdates.date2num(p[4]), p[3]) for p in tr])), 'the battery charge shown is not that of the flight', **info)
      placed(ctx, l, tr, **info)
      ctx.ev(('frame', mode, len(tr), l['resets']))
      ctx.count('frames')
    if t % 9 == 0:
      for bad in ('ansi', 'RGB_array', '', 'rgb'):
        ctx.raises(lambda: env.render(bad), ValueError, 'an unsupported mode is rendered', mode=bad)
  ctx.count('flights', sum(l['resets'] + 1 for l in live))
  plt.close('all')


def long_flight(ctx):
  """A flight of many days is shown whole."""
  rng = ctx.rng
  for _ in range(ctx.n(1, 4)):
    before = set(plt.get_fignums())
    r = matplotlib_renderer.MatplotlibRenderer()
    fig = plt.figure((set(plt.get_fignums()) - before).pop())
    env = envs.make_env(int(rng.integers(2**31)))
    track, n = [], int(rng.integers(2000, 3000))
    pos = rng.normal(size=2) * 50
    for t in range(n):
      if t == 3:
        r.reset()
        track.clear()
      pos = pos + rng.normal(size=2) * 3
      st = env.get_simulator_state()
      s = st.balloon_state
      s.x, s.y = units.Distance(km=float(pos[0])), units.Distance(km=float(pos[1]))
      s.pressure = float(rng.uniform(5500, 13500))
      s.battery_charge = s.battery_capacity * float(rng.uniform(0.05, 1.0))
      s.date_time = s.date_time + dt.timedelta(minutes=3)
      track.append((s.x.kilometers, s.y.kilometers, st.atmosphere.at_pressure(s.pressure).height.kilometers,
                    s.battery_soc * 100, s.date_time))
      r.step(st)
    r.render('rgb_array')
    data = artists(fig)
    xyz = np.array([p[:3] for p in track])
    ctx.check(shown(data, xyz) and shown(data, xyz[:, :2]), 'a long flight is not shown whole', steps=n)
    ctx.check(shown(data, np.array([(mdates.date2num(p[4]), p[3]) for p in track])), 'the charge of a long flight is not shown whole', steps=n)
    # Off the picture and out of the ordinary: still marked where it is.
    l = dict(fig=fig)
    for x, y, p in ((-400.0, 3.0, 9000.0), (2.0, -333.0, 2500.0), (500.0, 600.0, 3500.0), (-151.0, -151.0, 14500.0), (0.0, 0.0, 5300.0)):
      s.x, s.y, s.pressure = units.Distance(km=x + float(rng.random())), units.Distance(km=y + float(rng.random())), p
      s.battery_charge = s.battery_capacity * float(rng.choice([0.0, 0.003, 1.0]))
      track.append((s.x.kilometers, s.y.kilometers, st.atmosphere.at_pressure(s.pressure).height.kilometers,
                    s.battery_soc * 100, s.date_time))
      r.step(st)
      r.render('rgb_array')
      placed(ctx, l, track, pressure=p)
      data = artists(fig)
      ctx.check(shown(data, np.array([p[:3] for p in track])), 'the flight shown is not the flight since the reset', pressure=p)
      ctx.check(shown(data, np.array([(mdates.date2num(p[4]), p[3]) for p in track])), 'the battery charge shown is not that of the flight', pressure=p)
      ctx.count('astray')
    ctx.ev(('long', n))
    ctx.count('long', n)
  plt.close('all')


def run(ctx):
  long_flight(ctx)
  told(ctx)
  real(ctx)
  for n, m in (('long', 2000), ('astray', 5), ('frames', 12), ('protocols', 5), ('written', 1), ('ended', 4)):
    ctx.require(n, m)
