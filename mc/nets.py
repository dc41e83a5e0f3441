"""The networks of the closure model in NumPy, in double precision.

Parameters are the trees of the real modules, by name.
"""
import math

import numpy as np


def fill(shapes, seed=0., gain=1.):
  """Parameters which are all different, from a tree of shapes."""
  import jax
  flat, treedef = jax.tree_util.tree_flatten_with_path(shapes)
  out = []
  at = seed
  for path, x in flat:
    n = int(np.prod(x.shape))
    v = np.sin(1.7 * np.arange(n) + at + .3) + .5 * np.cos(
        .37 * np.arange(n)**1.5 + at)
    at += 1.1
    name = path[-1].key
    v = v.reshape(x.shape)
    if name == 'scale':
      v = 1 + .3 * v
    elif name == 'kernel':
      v = gain * v / math.sqrt(max(1, n // x.shape[-1]))
    else:
      v = .4 * v
    out.append(v.astype(np.float32))
  return treedef.unflatten(out)


def dense(p, x):
  y = x @ np.asarray(p['kernel'], np.float64)
  return y + np.asarray(p['bias'], np.float64) if 'bias' in p else y


def norm(p, x):
  m = x.mean(axis=-1, keepdims=True)
  v = ((x - m)**2).mean(axis=-1, keepdims=True)
  y = (x - m) / np.sqrt(v + 1e-6) * np.asarray(p['scale'], np.float64)
  return y + np.asarray(p['bias'], np.float64) if 'bias' in p else y


def gelu(x):
  return .5 * x * (1 + np.tanh(math.sqrt(2 / math.pi) * (x + .044715 * x**3)))


def attention(q, k, v):
  """(L, heads, dim) each; every head by itself."""
  out = np.empty(q.shape[:2] + v.shape[2:])
  for h in range(q.shape[1]):
    s = q[:, h] @ k[:, h].T / math.sqrt(q.shape[2])
    s = np.exp(s - s.max(axis=1, keepdims=True))
    out[:, h] = s / s.sum(axis=1, keepdims=True) @ v[:, h]
  return out


def heads(x, n):
  return x.reshape(x.shape[0], n, -1)


def pool(x, window, stride, mode):
  """(L, C) -> (ceil(L / stride), C), windows padded symmetrically."""
  n = -(-len(x) // stride)
  before = max((n - 1) * stride + window - len(x), 0) // 2
  out = []
  for i in range(n):
    at = range(i * stride - before, i * stride - before + window)
    rows = [x[j] for j in at if 0 <= j < len(x)]
    out.append(np.max(rows, axis=0) if mode == 'max'
               else np.sum(rows, axis=0) / window)
  return np.array(out)


def maybe_pool(x, window, stride):
  return x if window == 1 else pool(x, window, stride, 'avg')


def project(p, x):
  """(L, heads, dim) -> (L, features)"""
  return np.einsum('lhd,hdf->lf', x, np.asarray(p['kernel'], np.float64)) + (
      np.asarray(p['bias'], np.float64) if 'bias' in p else 0.)


def mlp_block(p, x, activation=gelu):
  return dense(p['Dense_1'], activation(dense(p['Dense_0'], x)))


def block_end(p, x):
  """The second half of a block of either kind."""
  normed = norm(p['LayerNorm_1'], x)
  y = mlp_block(p['MlpBlock_0'], normed)
  return y + (dense(p['project_skip'], normed) if 'project_skip' in p else x)


def encoder_block(p, x, num_heads, window_q, window_kv, stride_q, stride_kv):
  a = p['MultiScaleAttentionDownSample_0']
  y = norm(p['LayerNorm_0'], x)
  q = heads(maybe_pool(dense(a['query'], y), window_q, stride_q), num_heads)
  k = heads(maybe_pool(dense(a['key'], y), window_kv, stride_kv), num_heads)
  v = heads(maybe_pool(dense(a['value'], y), window_kv, stride_kv), num_heads)
  y = project(a['out'], attention(q, k, v) + q)
  return block_end(p, y + (pool(x, stride_q + 1, stride_q, 'max')
                           if stride_q > 1 else x))


def decoder_block(p, x, num_heads, reps):
  a = p['MultiScaleAttentionUpsample_0']
  y = norm(p['LayerNorm_0'], x)
  q, k, v = (heads(np.concatenate([dense(a[n], y)] * reps), num_heads)
             for n in ('query', 'key', 'value'))
  y = project(a['out'], attention(q, k, v) + q)
  return block_end(p, y + np.concatenate([x] * reps))


def encoder(p, x, c):
  num_heads, skips = c['heads'], {}
  stride_kv = c['stride_kv']
  for i in range(c['depth']):
    stride_q, window_q = 1, c['window'] if c['every'] else 1
    if i in c['pooling']:
      num_heads *= 2
      stride_kv = stride_kv // 2 if stride_kv > 1 else 1
      stride_q, window_q = c['stride'], c['window']
      skips[i] = x
    x = encoder_block(p[f'block_{i}'], x, num_heads, window_q, c['window'],
                      stride_q, stride_kv)
  return norm(p['encoder_norm'], x), skips


def decoder(p, x, skips, c):
  for i in reversed(range(c['depth'])):
    x = decoder_block(p[f'decoder_block_{i}'], x, x.shape[-1] // c['width'],
                      c['stride'] if i in c['pooling'] else 1)
    if i in c['pooling'] and c['residuals']:
      x = x + skips[i]
  return norm(p['decoder_norm'], x)


def model(p, x, c, process=None):
  """(L, C) -> (L, C), of one example."""
  y = dense(p['embedding'], np.asarray(x, np.float64))
  y = y + np.asarray(p['encoder_posembed']['pos_embedding'], np.float64)[0]
  if c['depth']:
    y, skips = encoder(p['multiscale_encoder'], y, c)
    ys = [y] if process is None else process(y)
    if process is not None and not c['late']:
      ys = [np.mean(ys, axis=0)]
    y = np.mean([decoder(p['multiscale_decoder'], y, skips, c) for y in ys],
                axis=0)
  return dense(p['decoded_patches'], y)


# -- latent dynamics ----------------------------------------------------------


def mlp(p, x, activation, final):
  n = len(p)
  for i in range(n - 1):
    x = activation(dense(p[f'Dense_{i}'], x))
  return final(dense(p[f'Dense_{n - 1}'], x))


def self_attention_block(p, x):
  a = p['MultiHeadDotProductAttention_0']
  y = norm(p['LayerNorm_0'], x)
  q, k, v = (np.einsum('lc,chd->lhd', y, np.asarray(a[n]['kernel'], np.float64))
             + np.asarray(a[n]['bias'], np.float64)
             for n in ('query', 'key', 'value'))
  x = project(a['out'], attention(q, k, v)) + x
  return mlp_block(p['MlpBlock_0'], norm(p['LayerNorm_1'], x)) + x


def transformer(p, x, name, layers):
  for i in range(layers):
    x = self_attention_block(p[f'{name}_dynamics_block_{i}'], x)
  x = norm(p[f'{name}_dynamics_norm'], x)
  return dense(p[f'{name}_decoded_patches'], x)


def ratio(x, y):
  """x / y, and zero if y is (within 1e-8)."""
  return np.where(abs(y) <= 1e-8, 0., x / np.where(y == 0, 1., y))


def dynamics(p, state, t, dw, ctx, latent, layers):
  """Drift and diffusion of (latent state, KL)."""
  z = state[:-1].reshape(-1, latent)
  n = len(z)
  time = np.full((1, latent), t)
  ctx = np.asarray(ctx, np.float64).reshape(n, latent)
  post = transformer(p, np.concatenate([z, time, ctx]), 'posterior_drift',
                     layers)[:n].ravel()
  prior = transformer(p, np.concatenate([z, time]), 'prior_drift',
                      layers)[:n].ravel()
  diffusion = mlp(p['diffusion_mlp'], state[:-1, None], np.tanh,
                  np.exp).ravel()
  kl = .5 * (ratio(post - prior, diffusion)**2).sum()
  return np.append(post, kl), np.append(dw * diffusion, 0.)


def variational(p, state, dw, ctx):
  """Drift of (latent state, KL); this version has no noise."""
  z = state[:-1]
  post = mlp(p['post_drift_mlp']['mlp'], np.concatenate([z, ctx]), gelu,
             np.tanh)
  prior = mlp(p['prior_drift_mlp']['mlp'], z, gelu, np.tanh)
  diffusion = np.concatenate([
      mlp(p['diffusion_mlp'][f'mlps_{i}'], z[i:i + 1], gelu, np.exp)
      for i in range(len(z))])
  kl = .5 * (ratio(post - prior, diffusion)**2).sum()
  return np.append(post, kl), np.zeros(len(state))


def solve(f, y, dw):
  """Euler-Heun over (0, 1)."""
  dt = 1 / len(dw)
  for i, w in enumerate(dw):
    drift, diff = f(y, i * dt, w)
    _, ahead = f(y + diff, (i + 1) * dt, w)
    y = y + drift * dt + .5 * (diff + ahead)
  return y
