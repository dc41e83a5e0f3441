"""T07: latent paths follow the posterior, with the KL divergence of the path."""
import itertools

import numpy as np

from mc import nets
from mc.checks import t06

LEVEL = 'model_checking'
RULE = ('Drift, diffusion and KL rate of both kinds of latent dynamics, with '
        'parameters which are all different, for all words of tokens over an '
        'alphabet as state and as context, times and increments, against NumPy '
        'in double precision. Whole latent processes for all words of examples, '
        'with paths of increments from an alphabet in place of the random '
        'ones, against the Euler-Heun recurrence of these. All random keys '
        'handed out are recorded. Non-trivial: posterior and prior differ.')
ASSUMPTIONS = ['Single precision with a relative tolerance of 2e-3 (of the '
               'largest component).', 'More than one sample with the '
               'transformer, one without, as in the program.']


def jobs(tier):
  q = tier == 'quick'
  out = []
  for kind, n in (('dynamics', 3 if q else 8), ('variational', 2 if q else 4),
                  ('processes', 4 if q else 10), ('encoded', 2 if q else 4),
                  ('whole', 2 if q else 6)):
    for k in range(n):
      out.append(dict(name=f'{kind} {k}', x64=False, cost=40,
                      args={kind: (k, n)}))
  out.append(dict(name='keys', x64=False, cost=20, args=dict(keys=1)))
  return out


def run(ctx, a):
  for kind in a:
    globals()[kind](ctx, a[kind])


def token(i, latent):
  return (np.sin(np.arange(latent) * (1.1 + .6 * i) + 2 * i) * (1 + .5 * i)
         ).astype(np.float32)


def rel(ctx, got, want, tol, msg):
  want = np.asarray(want)
  ctx.close(got, want, tol * max(abs(want).max(), 1e-6), msg)


def init(module, *args, gain=1.):
  import jax
  shapes = jax.eval_shape(module.init, jax.random.PRNGKey(0), *args)
  return nets.fill(shapes['params'], gain=gain)


def compare_pair(ctx, got, want, kl_scale):
  (drift, diff), (drift_, diff_) = got, want
  rel(ctx, drift[:-1], drift_[:-1], 2e-3, 'drift of the state')
  ctx.close(drift[-1], drift_[-1], 1e-3 * kl_scale + 1e-5, 'KL rate')
  ctx.check(drift[-1] >= 0, 'negative KL rate', drift[-1])
  ctx.close(diff, diff_, 5e-4 * max(abs(diff_).max(), 1e-6), 'diffusion')
  ctx.equal(diff[-1], np.float32(0), 'noise in the KL')


def dynamics(ctx, part):
  import jax
  import jax.numpy as jnp
  from swirl_fem.niles import transformer
  todo = list(itertools.product((1, 2, 3), (2, 4), (1, 2), (2, 3)))
  for n, latent, layers, hidden in todo[part[0]::part[1]]:
    if ctx.quick and (n + latent // 2 + layers + hidden) % 2:
      continue
    key = dict(tokens=n, latent=latent, layers=layers, hidden=hidden)
    with ctx.case(key):
      m = transformer.Dynamics(num_layers=layers, latent_size=latent,
                               hidden_size=hidden)
      size = n * latent
      p = init(m, jnp.zeros(size + 1), jnp.asarray(.5), jnp.zeros(size),
               jnp.zeros(size))
      f = jax.jit(lambda s, t, w, c, p: m.apply({'params': p}, s, t, w, c))
      # with equal parameters, but for the context, and a vanishing diffusion
      tiny = jax.tree_util.tree_map(lambda x: x, p)
      last = f'Dense_{layers}'
      tiny['diffusion_mlp'][last]['bias'] = np.full(1, -60, np.float32)
      for word in itertools.product(range(2), repeat=2 * n):
        z = np.concatenate([token(i, latent) for i in word[:n]])
        c = np.concatenate([token(i + 2, latent) for i in word[n:]])
        for t, kl in ((0., 0.), (.25, 3.), (1., -2.)):
          s = np.append(z, np.float32(kl))
          w = (np.cos(np.arange(size) + t) * .5).astype(np.float32)
          want = nets.dynamics(p, s.astype(np.float64), t, w, c, latent, layers)
          compare_pair(ctx, jax.tree_util.tree_map(
              np.asarray, f(s, np.float32(t), w, c, p)), want,
              want[0][-1] + 1)
          ctx.state('dynamics', str(key), word, t)
          ctx.transition()
          ctx.trace()
          ctx.evaluated(want[0][-1] > .01)
        got = f(s, np.float32(t), w, c, tiny)
        ctx.equal(np.asarray(got[0])[-1], np.float32(0),
                  'KL rate without diffusion')
      ctx.sample(key)


def variational(ctx, part):
  import jax
  import jax.numpy as jnp
  from swirl_fem.niles import transformer
  todo = list(itertools.product((1, 2, 3), (1, 2, 3), (1, 2)))
  for latent, context, layers in todo[part[0]::part[1]]:
    if ctx.quick and (latent + context + layers) % 2:
      continue
    key = dict(latent=latent, context=context, layers=layers)
    with ctx.case(key):
      m = transformer.VariationalDriftDiffusion(
          prior_drift_features=(3,) * layers + (latent,),
          post_drift_features=(4, latent),
          diffusion_features=(2,) * layers + (1,))
      p = init(m, jnp.zeros(latent + 1), jnp.asarray(.5), jnp.zeros(latent),
               jnp.zeros(context))
      f = jax.jit(lambda s, t, w, c: m.apply({'params': p}, s, t, w, c))
      for word in itertools.product((-1., .3, 1.2), repeat=latent):
        for letter in range(3):
          s = np.asarray(word + (.7,), np.float32)
          c = token(letter, context)
          w = np.full(latent, .5, np.float32)
          want = nets.variational(p, s.astype(np.float64), w, c)
          compare_pair(ctx, jax.tree_util.tree_map(
              np.asarray, f(s, np.float32(.5), w, c)), want, want[0][-1] + 1)
          ctx.state('variational', str(key), word, letter)
          ctx.transition()
          ctx.trace()
          ctx.evaluated(want[0][-1] > .01)
      ctx.sample(key)


class Paths:
  """Replaces the Brownian paths by given ones."""

  def __init__(self, value):
    from swirl_fem.niles import transformer
    self.t, self.value = transformer, value

  def __enter__(self):
    import jax.numpy as jnp
    self.saved = self.t.brownian_path
    self.t.brownian_path = lambda rng, n, dtype=jnp.float32: jnp.asarray(
        self.value(n), dtype)

  def __exit__(self, *_):
    self.t.brownian_path = self.saved


# Increments are independent and equally distributed, so which one is used when
# is not prescribed.
PATHS = [lambda n: np.zeros(n), lambda n: np.full(n, .2),
         lambda n: np.full(n, -.15)]


def process_config(**kw):
  import ml_collections
  return ml_collections.FrozenConfigDict(dict(dict(
      num_samples=2, use_transformer=True, data_size=6, latent_size=4,
      num_gridpoints=3, num_sde_layers=1, context_size=3, hidden_size=3,
      prior_scale=1e-6, num_layers=1), **kw))


def example(i, n, latent):
  return np.stack([token((i + j) % 3, latent) + .1 * j for j in range(n)])


def path(p, x, c, dw, latent, layers):
  """Final latent state and KL divergence of one example."""
  z = np.asarray(x, np.float64).ravel()
  y = nets.solve(
      lambda s, t, w: nets.dynamics(p, s, t, np.full(len(z), w), z, latent,
                                    layers), np.append(z, 0.), dw)
  return y[:-1], y[-1]


def processes(ctx, part):
  """With the transformer."""
  import jax
  import jax.numpy as jnp
  from swirl_fem.niles import transformer
  todo = list(itertools.product((1, 2, 4), (2, 4), (2, 3), (1, 2, 5)))
  if ctx.quick:
    todo = [t for t in todo if (sum(t)) % 2]
  for n, latent, samples, grid in todo[part[0]::part[1]]:
    key = dict(tokens=n, latent=latent, samples=samples, gridpoints=grid)
    with ctx.case(key):
      m = transformer.LatentSDE(model_config=process_config(
          num_samples=samples, latent_size=latent, num_gridpoints=grid))
      rng = jax.random.PRNGKey(0)
      p = init(m, jnp.zeros((1, n, latent)), rng, gain=.5)
      (inner,) = [v for k, v in p.items() if 'ynamics' in k]
      for number, value in enumerate(PATHS):
        with Paths(value):
          f = jax.jit(lambda x, rng: m.apply({'params': p}, x, rng))
          want = [path(inner, example(i, n, latent), None, value(grid), latent,
                       1) for i in range(2)]
          for word in itertools.product(range(2), repeat=2):
            x = np.stack([example(i, n, latent) for i in word])
            z1, aux = f(x, rng)
            ctx.check(z1.shape == (2, samples, n, latent), 'shape', z1.shape)
            aux = {k: np.asarray(v) for k, v in aux.items()}
            for b, i in enumerate(word):
              z, kl = want[i]
              for s in range(samples):
                rel(ctx, z1[b, s].ravel(), z, 1e-3, 'final state')
              ctx.close(aux['kl_path'][b], kl, 2e-3 * kl + 1e-4, 'KL of paths')
              at = np.asarray(x[b], np.float64).ravel()
              start = .5 * (at**2).sum() / 1e-12
              ctx.close(aux['kl_q0'][b], start, 1e-3 * start, 'KL of the start')
              ctx.close(aux['z0_means'][b], at.mean(), 1e-4, 'mean at 0')
              ctx.close(aux['z1_means'][b], z.mean(), 1e-3 * (abs(z).max() + 1),
                        'mean at 1')
            ctx.state('process', str(key), number, word)
            ctx.transition(2 * grid)
            ctx.trace()
            ctx.evaluated(kl > 1e-3)
      # scales of the prior
      for scale in (.1, 2.):
        m2 = transformer.LatentSDE(model_config=process_config(
            num_samples=samples, latent_size=latent, num_gridpoints=grid,
            prior_scale=scale))
        x = np.stack([example(i, n, latent) for i in range(2)])
        _, aux = jax.jit(m2.apply)({'params': p}, x, rng)
        want_q0 = .5 * (x.astype(np.float64)**2).sum(axis=(1, 2)) / scale**2
        rel(ctx, aux['kl_q0'], want_q0, 1e-4, 'KL of the start')
      ctx.sample(key)


def encoded(ctx, part):
  """Without the transformer: encoder, dynamics and decoder."""
  import jax
  import jax.numpy as jnp
  from swirl_fem.niles import transformer
  todo = list(itertools.product((2, 5), (1, 2, 3), (1, 2), (1, 3)))
  if ctx.quick:
    todo = todo[::2]
  for data, latent, layers, grid in todo[part[0]::part[1]]:
    context = 2
    key = dict(data=data, latent=latent, layers=layers, gridpoints=grid)
    with ctx.case(key):
      m = transformer.LatentSDE(model_config=process_config(
          num_samples=1, use_transformer=False, data_size=data,
          latent_size=latent, num_layers=layers, num_sde_layers=layers,
          context_size=context, num_gridpoints=grid, prior_scale=.4))
      rng = jax.random.PRNGKey(0)
      p = init(m, jnp.zeros((1, data)), rng)
      inner = p['sde_net']
      f = jax.jit(lambda x: m.apply({'params': p}, x, rng))
      for word in itertools.product(range(3), repeat=2):
        x = np.stack([token(i, data) for i in word])
        y, aux = f(x)
        ctx.check(y.shape == (2, 1, data), 'shape', y.shape)
        for b, i in enumerate(word):
          h = nets.mlp(p['sde_encoder_mlp'], x[b].astype(np.float64), nets.gelu,
                       nets.gelu)
          mean, log, c = np.split(h, [latent, 2 * latent])
          var = np.exp(2 * log)
          q0 = .5 * ((var + mean**2) / .4**2 - 1 - 2 * log
                     + 2 * np.log(.4)).sum()
          z = nets.solve(
              lambda s, t, w, c=c: nets.variational(inner, s, None, c),
              np.append(mean, 0.), np.zeros(grid))
          out = nets.mlp(p['sde_decoder_mlp'], z[:-1], nets.gelu, nets.gelu)
          rel(ctx, y[b, 0], out, 1e-3, 'output')
          ctx.close(aux['kl_q0'][b], q0, 1e-3 * abs(q0) + 1e-4, 'KL of start')
          ctx.close(aux['kl_path'][b], z[-1], 1e-3 * z[-1] + 1e-4,
                    'KL of the path')
          ctx.trace()
          ctx.evaluated(z[-1] > 1e-3)
        ctx.state('encoded', str(key), word)
        ctx.transition(2 * grid)
      ctx.sample(key)


def whole(ctx, part):
  """The process inside of the whole model."""
  import jax
  import jax.numpy as jnp
  todo = [c for c in t06.configs(ctx.quick) if c['depth'] and c['pooling']
          and c['width'] == 4][::17 if ctx.quick else 5]
  for number, c in list(enumerate(todo))[part[0]::part[1]]:
    c = dict(c, late=number % 2 == 0)
    n, channels, grid = t06.length(c), 3, 2
    latent = c['width'] * 2**len(c['pooling'])
    key = dict(c, whole=n)
    with ctx.case(key):
      m = t06.build(c, dict(process_config(
          num_samples=2, latent_size=latent, num_gridpoints=grid).items()))
      rng = jax.random.PRNGKey(0)
      p = init(m, jnp.zeros((1, n, channels)), rng, gain=.7)
      inner = p['LatentSDE_0']
      (inner,) = [v for k, v in inner.items() if 'ynamics' in k]
      value = PATHS[1]
      with Paths(value):
        f = jax.jit(lambda x: m.apply({'params': p}, x, rng))
        kls = {}
        def process(y):
          z, kl = path(inner, y, None, value(grid), latent, 1)
          kls['now'] = kl, .5 * (y**2).sum() / 1e-12, y.mean(), z.mean()
          return [z.reshape(-1, latent)] * 2
        want, terms = [], []
        for i in range(2):
          want.append(nets.model(p, t06.letter(i, n, channels), c, process))
          terms.append(kls['now'])
        for word in t06.words(ctx.quick):
          y, aux = f(np.stack([t06.letter(i, n, channels) for i in word]))
          for b, i in enumerate(word):
            rel(ctx, y[b], want[i], 2e-3, 'output')
            for name, v in zip(('kl_path', 'kl_q0', 'z0_means', 'z1_means'),
                               terms[i]):
              ctx.close(aux[name][b], v, 2e-3 * abs(v) + 1e-3, name)
          ctx.state('whole', str(key), word)
          ctx.transition(grid)
          ctx.trace()
          ctx.evaluated(len(set(word)) > 1)
      ctx.sample(key)


def drawing(f):
  """The keys which `f` draws numbers from, and those which it splits."""
  import jax
  drawn, split = [], []
  saved = {n: getattr(jax.random, n) for n in (
      'normal', 'uniform', 'truncated_normal', 'bits', 'split')}

  def recording(name):
    into = split if name == 'split' else drawn

    def note(k):
      into.append(tuple(map(int, np.ravel(k))))

    def g(key, *args, **kw):
      data = jax.random.key_data(key) if jax.numpy.issubdtype(
          key.dtype, jax.dtypes.prng_key) else key
      jax.debug.callback(note, data)
      return saved[name](key, *args, **kw)
    return g

  try:
    for n in saved:
      setattr(jax.random, n, recording(n))
    jax.block_until_ready(f())
    jax.effects_barrier()
  finally:
    for n, g in saved.items():
      setattr(jax.random, n, g)
  return drawn, split


def keys(ctx, _):
  """Different random numbers for each example, sample and coordinate."""
  import jax
  import jax.numpy as jnp
  from swirl_fem.niles import transformer
  for batch, samples, n, latent in ((1, 2, 1, 2), (2, 2, 2, 2), (3, 2, 1, 4),
                                    (2, 3, 2, 2)):
    with ctx.case(dict(batch=batch, samples=samples, tokens=n, latent=latent)):
      count = batch * samples * n * latent
      seen = []

      def record(rng, n, dtype=jnp.float32):
        jax.debug.callback(
            lambda k: seen.append(tuple(map(int, np.ravel(k)))), rng)
        return jnp.zeros(n, dtype)

      m = transformer.LatentSDE(model_config=process_config(
          num_samples=samples, latent_size=latent, num_gridpoints=2,
          prior_scale=.5))
      rng = jax.random.PRNGKey(0)
      p = init(m, jnp.zeros((1, n, latent)), rng)
      saved = transformer.brownian_path
      transformer.brownian_path = record
      try:
        for seed in range(2):
          x = np.zeros((batch, n, latent), np.float32)
          z1, _ = m.apply({'params': p}, x, jax.random.PRNGKey(seed))
          jax.effects_barrier()
          del z1
      finally:
        transformer.brownian_path = saved
      drawn, split = drawing(lambda: m.apply(
          {'params': p}, jnp.zeros((batch, n, latent)), rng)[0])
      ctx.check(len(drawn) > 0 and len(set(drawn)) == len(drawn),
                'numbers are drawn twice from a key', len(drawn),
                len(set(drawn)))
      ctx.check(not set(drawn) & set(split), 'a key is drawn from and split')
      ctx.check(len(seen) == 2 * count, 'number of paths', len(seen), count)
      ctx.check(len(set(seen)) == 2 * count, 'keys are used twice',
                len(set(seen)))
      # All examples are the same, so only the noise differs; without drift
      # and with unit diffusion the noise is all that there is.
      init_p = jax.jit(m.init)(rng, jnp.zeros((1, n, latent)), rng)
      value = lambda k: (jnp.ravel(k).sum() % 65536) / 65536. + .5
      for grid in (1, 3):
        used = []

        def number(rng, n, dtype=jnp.float32):
          w = jnp.cos(jnp.arange(n)) + value(rng)
          jax.debug.callback(lambda w: used.append(np.asarray(w)), w)
          return w.astype(dtype)

        small = transformer.LatentSDE(model_config=process_config(
            num_samples=samples, latent_size=latent, num_gridpoints=grid,
            prior_scale=1e-7))
        transformer.brownian_path = number
        try:
          z1, _ = small.apply(init_p, x, rng)
          jax.effects_barrier()
        finally:
          transformer.brownian_path = saved
        got, want = np.sort(np.ravel(z1)), np.sort(np.ravel(used))
        ctx.check(len(want) == count * grid, 'increments', len(want))
        ctx.close(got.sum(), want.sum(), 1e-4 * count * grid,
                  'every increment is used once')
        if grid == 1:
          ctx.close(got, want, 1e-4, 'every increment is used once')
      outs = []
      for seed in range(2):
        z1, _ = m.apply(init_p, x, jax.random.PRNGKey(seed))
        outs.append(np.asarray(z1).ravel())
      again, _ = m.apply(init_p, x, jax.random.PRNGKey(1))
      ctx.equal(np.asarray(again).ravel(), outs[1], 'reproducible')
      both = np.concatenate(outs)
      ctx.check(len(set(both.tolist())) == len(both), 'noise is repeated')
      ctx.state('keys', batch, samples, n, latent)
      ctx.transition(count)
      ctx.trace()
      ctx.evaluated(True)
