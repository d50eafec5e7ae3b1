"""P07: a saved simulator state resumes the same flight."""
import copy
import dataclasses
import datetime as dt
import pickle

import numpy as np
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.balloon import solar
from balloon_learning_environment.utils import units
from vp import envs, ref, sim

RULE = ('one evaluation = one step of a resumed flight compared with the '
        'original; distinct by (wind field, save mode, cut, step)')
ASSUMPTIONS = ['the feature constructor\'s wind history is not part of the '
               'simulator state (TODO in the code), so observations are not compared']


def vec_diff_ll(a, b):
  # s2sphere copies a LatLng through degrees: one ulp.
  d = envs.vec_diff(a, b)
  if 'center_latlng' in d and max(abs(x - y) for x, y in zip(*d['center_latlng'])) < 1e-12:
    del d['center_latlng']
  return d


def winds(ss, rng_pts):
  out = []
  for x, y, p, h in rng_pts:
    w = ss.wind_field.get_ground_truth(units.Distance(km=x), units.Distance(km=y), p, dt.timedelta(hours=h))
    out += [w.u.mps, w.v.mps]
  return out


def layers(ctx, rng):
  """Each safety layer, saved in the middle of any history, goes on alike."""
  atm = sim.atmosphere(rng)
  feet = lambda f: atm.at_height(units.Distance(feet=float(f))).pressure
  for k in range(ctx.n(150, 2000)):
    b = sim.make_balloon(rng, atm, stable=False)
    s = b.state
    hours = [0.0]

    def ask(layer, r, kind):
      act = sim.ACTIONS[int(r.integers(3))]
      if kind == 0:
        f = r.uniform(49_900, 51_200) if r.random() < .7 else r.uniform(48_000, 60_000)
        return layer.get_action(act, atm, feet(f)), layer.navigation_is_paused
      if kind == 1:
        sp = float(r.choice([r.uniform(0, 400), s.envelope_max_superpressure - r.uniform(-50, 400), 1000.]))
        return layer.get_action(act, sp), layer.navigation_is_paused
      t = s.date_time + dt.timedelta(hours=float(r.uniform(0, 72)))
      return (layer.get_action(act, t, s.nighttime_power_load, units.Energy(watt_hours=float(r.uniform(20, 3000))), s.battery_capacity),
              layer.navigation_is_paused)

    for kind, layer in enumerate((s.altitude_safety_layer, s.envelope_safety_layer, s.power_safety_layer)):
      seed = int(rng.integers(2**31))
      past = np.random.default_rng(seed)
      for _ in range(int(rng.integers(1, 7))):
        ask(layer, past, kind)
      twin = copy.deepcopy(layer) if k % 2 else pickle.loads(pickle.dumps(layer))
      ctx.check(layer.navigation_is_paused == twin.navigation_is_paused, 'the saved layer is in another state', kind=kind)
      ctx.count(f'paused_{kind}', bool(layer.navigation_is_paused))
      seed = int(rng.integers(2**31))
      x, y = ([ask(l, r, kind) for _ in range(8)] for l, r in ((layer, np.random.default_rng(seed)), (twin, np.random.default_rng(seed))))
      ctx.check(x == y, 'the saved safety layer goes on differently', kind=kind, original=x, saved=y)
      ctx.ev(('layer', kind, tuple(p for _, p in x)))


def run(ctx):
  rng = ctx.rng
  layers(ctx, ctx.sub_rng('layers'))
  for k in range(ctx.n(18, 160)):
    name, wf = [('static', wind_field.SimpleStaticWindField), ('grid', envs.grid_field)][k % 2]
    # Long ones (more than a day either side of the cut) with a small observation.
    long = k % 6 == 2
    fc = dict(factory=envs.Plain) if long else {}
    a = sim.arena(rng, wf(), **fc)
    cut = int(rng.integers(0, 600 if long else 25))
    acts = [sim.ACTIONS[int(i)] for i in rng.choice([0, 1, 1, 2, 2] if long else [0, 1, 2], cut + (900 if long else ctx.n(15, 60)))]
    if k % 3 == 0:  # Make the layers speak before the cut.
      s = a.get_balloon_state()
      if k % 6 == 0:  # Fly into a night that the battery cannot last.
        for _ in range(480):
          if s.status.name != 'OK' or solar.solar_calculator(s.latlng, s.date_time)[0] < -10:
            break
          a.step(sim.ACTIONS[1])
          s = a.get_balloon_state()
        s.battery_charge = units.Energy(watt_hours=float(rng.uniform(120, 200)))
        if k % 12 == 6 and s.status.name == 'OK':  # ... and on into a morning too poor to resume.
          a.step(sim.ACTIONS[1])
          s = a.get_balloon_state()
          while s.status.name == 'OK' and not 5 < solar.solar_calculator(s.latlng, s.date_time)[0] < 30:
            s.date_time += dt.timedelta(minutes=15)
          s.battery_charge = units.Energy(watt_hours=float(rng.uniform(85, 110)))
          cut = 0
      else:
        s.battery_charge = units.Energy(watt_hours=float(rng.uniform(200, 900)))
    if k % 3 == 1:
      a.get_balloon_state().superpressure = 260.0
    for act in acts[:cut]:
      if a.get_balloon_state().status.name != 'OK':
        break
      a.step(act)
    if a.get_balloon_state().status.name != 'OK':
      continue
    mode = ('deepcopy', 'pickle')[(k // 2) % 2]
    live = a.get_simulator_state()
    before = envs.state_vec(live.balloon_state)
    saved = copy.deepcopy(live) if mode == 'deepcopy' else pickle.loads(pickle.dumps(live))
    for f in dataclasses.fields(saved.balloon_state):
      x, y = getattr(saved.balloon_state, f.name), getattr(live.balloon_state, f.name)
      ctx.check(not f.compare or f.name == 'center_latlng' or x == y, 'the saved state does not equal the live one', mode=mode, field=f.name, x=x, y=y)
    ctx.check(not vec_diff_ll(before, envs.state_vec(saved.balloon_state)), 'saving lost part of the balloon state', mode=mode)
    ctx.check(not envs.vec_diff(before, envs.state_vec(a.get_balloon_state())), 'saving changed the balloon', mode=mode)
    # Another arena, with its own past.
    b = sim.arena(rng, wf(), **fc)
    for _ in range(int(rng.integers(0, 4))):
      b.step(sim.ACTIONS[int(rng.integers(3))])
    b.set_simulator_state(saved)
    got = b.get_simulator_state()
    ctx.check(got.balloon_state is saved.balloon_state or got.balloon_state == saved.balloon_state,
              'set_simulator_state lost the balloon')
    diff = vec_diff_ll(before, envs.state_vec(b.get_balloon_state()))
    ctx.check(not diff, 'the restored balloon (or a safety layer) is not in the saved state', diff=diff, mode=mode)
    pts = [(float(rng.uniform(-600, 600)), float(rng.uniform(-600, 600)),
            float(rng.uniform(5000, 14000)), float(rng.uniform(0, 60))) for _ in range(4)]
    ctx.close(winds(got, pts), winds(live, pts), 'the restored wind differs', 1e-12, 1e-12, field=name, mode=mode)
    m = b.get_measurements()
    w = live.wind_field.get_ground_truth(got.balloon_state.x, got.balloon_state.y,
                                         got.balloon_state.pressure, got.balloon_state.time_elapsed)
    ctx.close([m.wind_at_balloon.u.mps, m.wind_at_balloon.v.mps], [w.u.mps, w.v.mps],
              'measurements do not come from the restored state', 1e-12, 1e-12)
    h = units.Distance(meters=float(rng.uniform(1000, 30000)))
    ctx.close(got.atmosphere.at_height(h).pressure, live.atmosphere.at_height(h).pressure,
              'the restored atmosphere differs')
    # Interleave the two flights: neither may disturb the other.
    for i, act in enumerate(acts[cut:]):
      if a.get_balloon_state().status.name != 'OK':
        break
      a.step(act)
      b.step(act)
      x, y = envs.state_vec(a.get_balloon_state()), envs.state_vec(b.get_balloon_state())
      x.pop('center_latlng'), y.pop('center_latlng')
      d = envs.vec_diff(x, y, 1e-9)
      ctx.check(not d, 'the resumed flight differs from the original', diff=d, field=name,
                mode=mode, cut=cut, step=i)
      if a.get_balloon_state().navigation_is_paused:
        ctx.count('paused_steps')
      if a.get_balloon_state().power_safety_layer.navigation_is_paused:
        ctx.count('power_paused_day' if k % 12 == 6 else 'power_paused')
      ctx.count('steps_' + mode)
      ctx.count('second_day', i >= 480)
      ctx.ev((name, mode, cut, i))
    # set_balloon_state / get_balloon_state are inverse, too.
    st = copy.deepcopy(a.get_balloon_state())
    b.set_balloon_state(st)
    ctx.check(not envs.vec_diff(envs.state_vec(b.get_balloon_state()), envs.state_vec(st)), 'set_balloon_state')
  ctx.require('steps_deepcopy', 40)
  ctx.require('steps_pickle', 40)
  ctx.require('paused_steps', 5)
  ctx.require('power_paused', 5)
  ctx.require('power_paused_day', 1)
  ctx.require('second_day', 100)
  for c in ('paused_0', 'paused_1', 'paused_2'):
    ctx.require(c, 10)
