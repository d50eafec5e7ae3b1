"""P27: generated wind fields are incompressible and reproducible."""
import dataclasses
import datetime as dt

import flax
import gin
import jax
import jax.numpy as jnp
import numpy as np
from balloon_learning_environment.env import generative_wind_field
from balloon_learning_environment.generative import vae
from vp import envs

RULE = ('one evaluation = one generated field (or grid-geometry probe); distinct '
        'by (weights, latent/key)')
ASSUMPTIONS = ['synthetic decoder weights (the trained ones are not shipped)',
               'incompressibility is that of the decoder\'s own grid (axis naming aside), by '
               'central differences']


def incompressible(ctx, f, **info):
  """The decoder differentiates one stream function psi per slice:
  f[...,0] = d psi/d axis0, f[...,1] = -d psi/d axis1, so the mixed second
  differences must cancel: d f0/d axis1 + d f1/d axis0 = 0."""
  f = np.asarray(f, dtype=float)
  d0 = f[1:-1, 2:, ..., 0] - f[1:-1, :-2, ..., 0]
  d1 = f[2:, 1:-1, ..., 1] - f[:-2, 1:-1, ..., 1]
  scale = max(np.abs(d0).max(), np.abs(d1).max(), 1e-9)
  ctx.check(np.abs(d0 + d1).max() <= 2e-5 * max(scale, np.abs(f).max()), 'the field is not derived from one stream function',
            worst=float(np.abs(d0 + d1).max()), scale=float(scale), **info)
  ctx.check(scale > 1e-6, 'the field is constant', **info)


def hidden(params, x):
  h = np.asarray(x, np.float64).ravel()
  for i in range(3):
    h = np.maximum(h @ np.asarray(params[f'Dense_{i}']['kernel'], np.float64) + np.asarray(params[f'Dense_{i}']['bias'], np.float64), 0)
  return h


def decode(params, z, shape):
  """The documented decoder, by hand: perceptron, small stream functions, linear growth, differences."""
  p = params['params']
  names, sizes = sorted(p), [np.shape(p[n]['kernel']) for n in sorted(p)]
  w, n = shape.flow_field_width, shape.pressure_slices * shape.time_slices
  if names != [f'Dense_{i}' for i in range(4)] or sizes != [(64, 1000), (1000, 1000), (1000, 1000), (1000, w * w * n)]:
    return None
  f = hidden(p, z) @ np.asarray(p['Dense_3']['kernel'], np.float64) + np.asarray(p['Dense_3']['bias'], np.float64)
  f = f.reshape(w, w, n)
  m = shape.latlng_slices + 2
  at = np.clip((np.arange(m) + 0.5) * w / m - 0.5, 0, w - 1)
  lo = np.minimum(at.astype(int), w - 2)
  t = at - lo
  W = np.zeros((m, w))
  W[np.arange(m), lo] = 1 - t
  W[np.arange(m), lo + 1] += t
  f = np.einsum('ai,bj,ijn->abn', W, W, f)
  grid = (shape.latlng_slices, shape.latlng_slices, shape.pressure_slices, shape.time_slices)
  u = ((f[2:, 1:-1] - f[:-2, 1:-1]) / 2).reshape(grid)
  v = ((f[1:-1, 2:] - f[1:-1, :-2]) / 2).reshape(grid)
  return np.stack([u, -v], axis=-1)


def judge_decoding(ctx, params, z, got, what, **info):
  want = decode(params, z, vae.FieldShape())
  ctx.check(want is not None, 'weights in the packaged layout do not fit the decoder', names=sorted(params['params']), **info)
  scale = np.abs(want).max()
  ctx.close(got, want, f'{what}: not the documented decoding of the latent', 2e-4, 2e-4 * scale, **info)
  ctx.count('decoded')


def run(ctx):
  rng = ctx.rng
  shape = vae.FieldShape()
  when = [dt.datetime(2011, 1, 1, tzinfo=dt.timezone.utc), dt.datetime(2014, 6, 1, 13, tzinfo=dt.timezone.utc)]
  for w in range(ctx.n(2, 6)):
    path = envs.decoder_file(ctx.scratch, int(rng.integers(1000)), float(rng.choice([1.0, 2.0])))
    gin.clear_config()
    gin.bind_parameter('load_offlineskies22.path', path)
    s = generative_wind_field.GenerativeWindFieldSampler()
    params = flax.serialization.msgpack_restore(open(path, 'rb').read())
    ctx.check(s.field_shape == shape, 'field shape of the sampler')
    prev = None
    for k in range(ctx.n(6, 30)):
      key = jax.random.PRNGKey(int(rng.integers(2**31)))
      a = s.sample_field(key, when[0])
      ctx.check(isinstance(a, np.ndarray) and a.shape == (21, 21, 10, 9, 2) and np.isfinite(a).all(),
                'not a finite numpy field of the declared shape', shape=a.shape)
      ctx.check(np.array_equal(a, s.sample_field(key, when[1])), 'the field is not a function of the key alone')
      fresh = generative_wind_field.GenerativeWindFieldSampler()
      ctx.check(np.array_equal(a, fresh.sample_field(key, when[0])), 'a new sampler gives another field')
      incompressible(ctx, a, what='sampler')
      if prev is not None:
        ctx.check(not np.allclose(a, prev), 'two keys give one field')
      # The latent is a standard normal of 64 from the key.
      z = jax.random.normal(key, shape=(64,))
      ctx.close(vae.Decoder().apply(params, z), a, 'the sampler does not decode the key\'s latent', 1e-5, 1e-6)
      judge_decoding(ctx, params, z, a, 'sampler', w=w, k=k)
      prev = a
      ctx.count('sampled')
      ctx.ev((w, k))
      # Every slice is its own flow: none repeats another.
      sl = a.reshape(21 * 21, 90, 2).transpose(1, 0, 2).reshape(90, -1)
      ctx.check(len(np.unique(np.round(sl[:, :50], 7), axis=0)) == 90, 'pressure-time slices repeat')
    # Keys that have one word, or their words, in common.
    w1, w2, w3, w4 = (int(v) for v in rng.integers(1, 2**31, 4))
    fields = {}
    for key in ((w1, w2), (w3, w2), (w1, w4), (w2, w1), (w1, w2), (0, w2), (w1, 0), (w1 ^ 1, w2), (w3, w2), (w1, w2)):
      a = np.asarray(s.sample_field(jnp.array(key, dtype=jnp.uint32), when[0]))
      z = jax.random.normal(jnp.array(key, dtype=jnp.uint32), shape=(64,))
      ctx.close(vae.Decoder().apply(params, z), a, 'the sampler does not decode the key\'s latent', 1e-5, 1e-6, key=key)
      ctx.check(key not in fields or np.array_equal(fields[key], a), 'another field for the same key', key=key)
      ctx.check(all(k == key or not np.allclose(v, a) for k, v in fields.items()), 'two keys give one field', key=key)
      fields[key] = a.copy()
      if len(fields) % 2:  # The caller does what it likes with its field.
        try:
          s.sample_field(jnp.array(key, dtype=jnp.uint32), when[0])[:] = 7.0
        except (ValueError, TypeError):
          pass  # Read-only.
      ctx.count('similar_keys')
  # The decoder as a module, over latents; jit and batching agree.
  dec = vae.Decoder()
  for k in range(ctx.n(3, 12)):
    p = dec.init(jax.random.PRNGKey(k), jnp.zeros(64))
    z = jnp.asarray(rng.normal(0, 1, (3, 64)), dtype=jnp.float32)
    batch = np.asarray(jax.vmap(lambda q: dec.apply(p, q))(z))
    for i in range(3):
      one = dec.apply(p, z[i])
      ctx.check(one.shape == shape.grid_shape(), 'decoder output shape')
      ctx.close(one, batch[i], 'batched decoding differs', 1e-3, 1e-4)
      incompressible(ctx, one, what='decoder')
      judge_decoding(ctx, p, z[i], one, 'decoder', k=k)
      ctx.ev(('decoder', k, i))
  # The autoencoder: shapes, generate == decode, reproducible noise.
  model = vae.model()
  x = jnp.asarray(rng.normal(0, 10, shape.grid_shape()), dtype=jnp.float32)
  key = jax.random.PRNGKey(int(rng.integers(2**31)))
  p = model.init(key, x, key)
  for k in range(ctx.n(4, 15)):
    x = jnp.asarray(rng.normal(0, 10, shape.grid_shape()), dtype=jnp.float32)
    k1, k2 = jax.random.split(jax.random.PRNGKey(int(rng.integers(2**31))))
    o = model.apply(p, x, k1)
    mean, logvar = o.encoder_output
    ctx.check(mean.shape == (64,) and logvar.shape == (64,) and o.reconstruction.shape == shape.grid_shape(), 'autoencoder shapes')
    incompressible(ctx, o.reconstruction, what='reconstruction')
    ctx.check(np.array_equal(o.reconstruction, model.apply(p, x, k1).reconstruction), 'same key, another reconstruction')
    ctx.check(not np.allclose(o.reconstruction, model.apply(p, x, k2).reconstruction, atol=1e-7), 'the key is ignored')
    # The encoder: squashed winds, a perceptron, mean and logarithm of the variance.
    e = p['params']['encoder']
    ctx.check(sorted(e) == ['Dense_0', 'Dense_1', 'Dense_2', 'logvar', 'mean'] and
              [np.shape(e[f'Dense_{i}']['kernel']) for i in range(3)] == [(79380, 1000), (1000, 1000), (1000, 1000)],
              'another encoder', layers=sorted(e))
    flat = np.asarray(x, np.float64).ravel()
    h = hidden(e, flat / (50 + np.abs(flat)))
    for name, got in (('mean', mean), ('logvar', logvar)):
      want = h @ np.asarray(e[name]['kernel'], np.float64) + np.asarray(e[name]['bias'], np.float64)
      ctx.close(got, want, f'the {name} of the encoding', 2e-4, 2e-4 * np.abs(want).max())
    judge_decoding(ctx, {'params': p['params']['decoder']}, mean, model.apply(p, mean, method=model.generate), 'autoencoder', k=k)
    ctx.close(o.sigma, 1.0, 'the initial sigma', 1e-6)
    z = mean + jnp.exp(0.5 * logvar) * jax.random.normal(k1, (64,))
    g = model.apply(p, z, method=model.generate)
    ctx.close(g, o.reconstruction, 'reconstruction is not the decoding of mean + std * normal', 1e-3, 1e-4)
    m2 = vae.WindFieldVAE(reparameterize_latents=False)
    o2 = m2.apply(p, x, k2)
    ctx.close(o2.reconstruction, model.apply(p, mean, method=model.generate), 'without reparameterisation: not the decoding of the mean', 1e-3, 1e-4)
    ctx.close(o2.encoder_output.mean, mean, 'the encoding depends on the key', 1e-5, 1e-5)
    # The encoder squashes: huge inputs stay finite.
    ctx.check(np.isfinite(np.asarray(model.apply(p, x * 1e6, k1).encoder_output.mean)).all(), 'encoder not finite')
    ctx.count('vae')
    ctx.ev(('vae', k))
  # Grid geometry.
  ctx.check(dataclasses.astuple(shape) == (21, 7, 10, 9, 500.0, 14000.0, 5000.0, 48), 'another default grid', got=str(shape))
  for k in range(ctx.n(30, 300)):
    n = [int(v) for v in rng.integers(2, 30, 3)]
    D, lo = float(rng.uniform(10, 2000)), float(rng.uniform(1000, 8000))
    hi, T = lo + float(rng.uniform(100, 9000)), int(rng.integers(1, 20)) * (n[2] - 1)
    if k % 3 == 0:  # Hours that do not divide evenly.
      T += int(rng.integers(1, n[2]))
    fs = vae.FieldShape(latlng_slices=n[0], pressure_slices=n[1], time_slices=n[2],
                        flow_field_width=5, latlng_displacement_km=D, max_pressure_pa=hi,
                        min_pressure_pa=lo, time_horizon_hours=T)
    pts = n[0] * n[0] * n[1] * n[2]
    ctx.check(tuple(fs.grid_shape()) == (n[0], n[0], n[1], n[2], 2) and
              tuple(fs.direction_grid_shape()) == (n[0], n[0], n[1], n[2]) and
              fs.num_grid_points() == pts and fs.output_length() == 2 * pts and
              fs.num_flow_fields() == n[1] * n[2] and fs.num_flow_field_units() == 25 * n[1] * n[2],
              'field-shape sizes', n=n)
    ctx.close(fs.latlng_grid_points(), np.linspace(-D, D, n[0]), 'lat/lng grid', 1e-5, 1e-3)
    ctx.close(fs.pressure_grid_points(), np.linspace(lo, hi, n[1]), 'pressure grid', 1e-5, 1e-3)
    ctx.close(fs.time_grid_points(), np.linspace(0, T, n[2]), 'time grid', 0, 1.0)
    ctx.ev(('shape', tuple(n)))
  ctx.require('sampled', 8)
  ctx.require('vae', 3)
  ctx.require('decoded', 10)
  ctx.require('similar_keys', 10)
