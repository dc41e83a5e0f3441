"""T06: the correction model maps each example by itself, in its shape."""
import itertools

import numpy as np

from mc import nets

LEVEL = 'model_checking'
RULE = ('All models within the bounds (depth, pooling layers, pooling window '
        'and strides, widths, heads, residuals and biases) with parameters '
        'which are all different are applied to all words of examples over an '
        'alphabet, and every example of the output is compared with the model '
        'in NumPy of that example alone. Newly initialised models are applied '
        'to the same words. The pooling is compared for all lengths, windows '
        'and strides within bounds, for unit vectors and ramps. Non-trivial: '
        'different examples in a batch, or pooling.')
ASSUMPTIONS = ['Single precision with a relative tolerance of 2e-4; lengths '
               'of sequences are multiples of the total stride.']


def jobs(tier):
  q = tier == 'quick'
  n = 8 if q else 24
  out = [dict(name=f'models {k}', x64=False, cost=40, args=dict(models=(k, n)))
         for k in range(n)]
  n = 3 if q else 6
  out += [dict(name=f'fresh {k}', x64=False, cost=30, args=dict(fresh=(k, n)))
          for k in range(n)]
  out += [dict(name=f'pooling {k}', x64=False, cost=20, args=dict(pooling=k))
          for k in range(2)]
  return out


def run(ctx, a):
  for kind in a:
    globals()[kind](ctx, a[kind])


def configs(quick):
  """Models without a latent process."""
  out = []
  for depth in (0, 1, 2, 3) if quick else (0, 1, 2, 3, 4):
    layers = [p for r in range(3)
              for p in itertools.combinations(range(1, depth), r)]
    for pooling, stride, window, kv, width, heads in itertools.product(
        layers, (2, 3, 4), (1, 3, 5), (1, 2, 4), (4, 6), (1, 2)):
      if not pooling and stride > 2:
        continue
      if depth == 0 and (window, kv, heads) != (3, 1, 1):
        continue
      if window == 1 and pooling:
        # a query is only pooled by a window
        continue
      out.append(dict(depth=depth, pooling=pooling, stride=stride,
                      window=window, stride_kv=kv, width=width, heads=heads))
  for i, c in enumerate(out):
    c.update(residuals=i % 3 != 0, bias=i % 5 == 1, every=i % 4 != 2,
             pair=i % 2 == 1, late=False)
  return out


def build(c, process=None):
  import ml_collections
  from swirl_fem.niles import transformer
  one = lambda k: (1, k) if c['pair'] else (k,)
  process = dict(dict(num_samples=0), **(process or {}))
  return transformer.Model(
      num_layers=1, num_heads=1, depth=c['depth'], width=c['width'],
      pooling_layers=c['pooling'], pooling_kernel=one(c['window']),
      pooling_strides_q=one(c['stride']),
      initial_kv_pooling_strides=one(c['stride_kv']),
      qkv_tile_reps=(c['stride'], 1), num_initial_heads=c['heads'],
      use_residuals=c['residuals'], use_bias=c['bias'],
      pool_q_every_layer=c['every'], mean_after_decoder=c['late'],
      processor_config=ml_collections.FrozenConfigDict(process))


def length(c, extra=1):
  return c['stride']**max(len(c['pooling']), 1) * extra * (
      1 if c['pooling'] else 2)


def letter(i, n, c):
  """Example number `i` of the alphabet."""
  return np.sin(np.arange(n * c).reshape(n, c) * (1.3 + .7 * i) + i).astype(
      np.float32) * (1 + i)


def words(quick):
  return [w for n in ((1, 3) if quick else (1, 2, 3))
          for w in itertools.product(range(2), repeat=n)]


def models(ctx, part):
  import jax
  import jax.numpy as jnp
  todo = configs(ctx.quick)
  todo = todo[::9] if ctx.quick else todo[::2]
  for number, c in list(enumerate(todo))[part[0]::part[1]]:
    extra = 1 + number % 2
    n, channels = length(c, extra), 3
    key = dict(c, length=n)
    with ctx.case(key):
      m = build(c)
      rng = jax.random.PRNGKey(0)
      shapes = jax.eval_shape(m.init, rng, jnp.zeros((1, n, channels)), rng)
      params = nets.fill(shapes['params'])
      want = [nets.model(params, letter(i, n, channels), c) for i in range(2)]
      scale = max(abs(w).max() for w in want)
      differ = abs(want[0] - want[1]).max() > 1e-2 * scale
      f = jax.jit(lambda x, rng: m.apply({'params': params}, x, rng))
      for word in words(ctx.quick):
        x = np.stack([letter(i, n, channels) for i in word])
        y, aux = f(x, rng)
        ctx.check(y.dtype == jnp.float32, 'type', y.dtype)
        ctx.close(y, np.stack([want[i] for i in word]), 2e-4 * scale, 'output')
        for name in ('kl_path', 'kl_q0', 'z0_means', 'z1_means', 'z1_stds'):
          ctx.equal(np.asarray(aux[name]), np.zeros(len(word)), name)
        ctx.state(str(key), word)
        ctx.transition(max(2 * c['depth'], 1))
        ctx.trace()
        ctx.evaluated(differ and (len(set(word)) > 1 or bool(c['pooling'])))
      ctx.sample(key)


def fresh(ctx, part):
  """A newly initialised model leaves the solver as it is."""
  import jax
  import jax.numpy as jnp
  todo = configs(ctx.quick)[5::61 if ctx.quick else 17]
  for c in todo[part[0]::part[1]]:
    n, channels = length(c), 3
    with ctx.case(dict(c, fresh=n)):
      m = build(c)
      for seed in range(2):
        rng = jax.random.PRNGKey(seed)
        init = jax.jit(m.init)({'params': rng}, jnp.ones((1, n, channels)), rng)
        f = jax.jit(lambda x: m.apply(init, x, rng)[0])
        first = None
        for word in words(ctx.quick):
          y = np.asarray(f(np.stack([letter(i, n, channels) for i in word])))
          ctx.check(abs(y).max() < 1e-4, 'correction', abs(y).max())
          first = y[:1] if first is None else first
          ctx.close(y, np.broadcast_to(first, y.shape), 1e-7,
                    'depends on the input')
          ctx.state('fresh', str(c), seed, word)
        ctx.transition()
        ctx.trace()
        ctx.evaluated(bool(c['pooling']))


def pooling(ctx, part):
  import jax.numpy as jnp
  from swirl_fem.niles import transformer
  top = 7 if ctx.quick else 12
  todo = list(itertools.product(range(1, top + 1), range(1, 6), range(1, 5),
                                ('avg', 'max', 'none')))
  for n, window, stride, mode in todo[part::2]:
    with ctx.case(dict(length=n, window=window, stride=stride, mode=mode)):
      # unit vectors as channels, and ramps of both signs
      x = np.concatenate([np.eye(n), -1 - np.eye(n), np.arange(n)[:, None],
                          -np.arange(n)[:, None] - 2], axis=1)
      want = x if mode == 'none' or window == 1 else nets.pool(
          x, window, stride, mode)
      both = np.stack([x, 3 * x + 1], axis=0)
      other = want * 3 + 1 if mode != 'avg' or window == 1 else nets.pool(
          3 * x + 1, window, stride, mode)
      for num_heads in (1, 2, x.shape[1]):
        for form in ((window,), (1, window)):
          got = transformer.attention_pooling(
              jnp.asarray(both, jnp.float32), form,
              (1,) * (len(form) - 1) + (stride,), mode, num_heads)
          for g, w in zip(got, (want, other)):
            ctx.close(g, w.reshape(len(w), num_heads, -1), 1e-5, 'pooling')
          ctx.state('pool', n, window, stride, mode, num_heads, len(form))
      ctx.transition()
      ctx.trace()
      ctx.evaluated(window > 1)
