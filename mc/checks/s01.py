"""S01: the SDE solver applies the Euler-Heun recurrence."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

LEVEL = 'model_checking'
RULE = ('The states of the model are the states of the Euler-Heun recurrence '
        '(in numpy) after each increment, a transition is an increment of an '
        'alphabet, and a trace is a word of increments given to the real '
        'solver. All words up to a length, all divisions into equally long '
        'output intervals, several grids of output times, and all pairs of '
        'drift and diffusion of a family depending on time, state and '
        'increment; besides all pairs of a tree structure of the state and a '
        'shape of the increments, all lengths of paths up to a bound and '
        'selected longer ones (in which the time and multiplicity of each '
        'single step are visible in the result), and all ways to pass the '
        'times. Drawn paths: moments up to the fourth of every increment, '
        'their correlations and those of the sum, over all keys of a range.')
ASSUMPTIONS = ['64 bit arithmetic, 1e-10; 32 bit for the lengths of paths.']

ALPHABET = (-.75, .5, 1.25)


def coefficients(lib):
  """(drift, diffusion) as sums of terms with coefficients."""
  drifts = [lambda y, t: 1. + 0 * y, lambda y, t: t + 0 * y, lambda y, t: y,
            lambda y, t: t * y, lambda y, t: y * y / 4,
            lambda y, t: lib.sin(y + t)]
  diffs = [lambda y, t, w: w + 0 * y, lambda y, t, w: t * w + 0 * y,
           lambda y, t, w: y * w, lambda y, t, w: t * y * w,
           lambda y, t, w: lib.cos(y) * w,
           lambda y, t, w: (1 + y * y) * w / 8]
  return drifts, diffs


GRIDS = {
    1: [(0., 1.), (.25, .75), (0., .1)],
    2: [(0., .5, 1.), (0., .125, 1.), (.2, .3, .9)],
    3: [(0., 1 / 3, 2 / 3, 1.), (.1, .2, .7, .75)],
    4: [(0., .25, .5, .75, 1.)],
    5: [(0., .2, .4, .6, .8, 1.)],
    6: [tuple(i / 6 for i in range(7))],
    7: [tuple(i / 7 for i in range(8))],
    8: [tuple(i / 8 for i in range(9))],
}


def jobs(tier):
  q = tier == 'quick'
  out = []
  for n in range(1, (6 if q else 9) + 1):
    out.append(dict(name=f'words {n}', x64=True, cost=5 * n,
                    args=dict(words=n)))
  out.append(dict(name='trees', x64=True, cost=20, args=dict(trees=1)))
  for x64 in (False, True):
    for k in range(4):
      out.append(dict(name=f'lengths {64 if x64 else 32} {k}', x64=x64, cost=20,
                      args=dict(lengths=(k, 4))))
  out.append(dict(name='calls', x64=False, cost=10, args=dict(calls=1)))
  out.append(dict(name='increments', x64=False, cost=20,
                  args=dict(increments=4096 if q else 65536)))
  return out


def run(ctx, a):
  for kind in a:
    globals()[kind](ctx, a[kind])


def increments(ctx, keys):
  """The law of drawn paths, over all of a range of keys."""
  from swirl_fem.sde.sdeint import brownian_path
  rngs = jax.vmap(jax.random.PRNGKey)(jnp.arange(keys))
  for n in list(range(1, 17)) + [25, 32, 50, 64, 100, 128]:
    with ctx.case(dict(increments=n)):
      x = np.asarray(jax.jit(jax.vmap(lambda k: brownian_path(k, n)))(rngs),
                     np.float64)
      ctx.check(x.shape == (keys, n), 'shape', x.shape)
      z = x * np.sqrt(n)
      # six standard deviations of each estimate, for any normal law
      sigma = 6 / np.sqrt(keys)
      ctx.check(np.abs(z.mean(0)).max() < sigma, 'mean of an increment')
      ctx.check(np.abs((z ** 2).mean(0) - 1).max() < sigma * 2 ** .5,
                'variance of an increment', (z ** 2).mean(0))
      ctx.check(np.abs((z ** 3).mean(0)).max() < sigma * 15 ** .5,
                'third moment of an increment')
      ctx.check(np.abs((z ** 4).mean(0) - 3).max() < sigma * 96 ** .5,
                'fourth moment of an increment')
      for k in range(1, min(n, 17)):
        c = (z[:, k:] * z[:, :-k]).mean(0)
        ctx.check(np.abs(c).max() < sigma, f'increments {k} apart correlate')
      w = x.sum(1)
      ctx.check(abs((w ** 2).mean() - 1) < sigma * 2 ** .5,
                'variance at the final time', (w ** 2).mean())
      ctx.check(len(np.unique(x[:, 0])) > .99 * keys, 'repeated paths')
      ctx.evaluated(True, keys)
      ctx.transition(n * keys)
      ctx.trace()
      ctx.state('path', n)
    for dtype in (jnp.float32, jnp.float16, jnp.bfloat16, None):
      for key in range(3):
        with ctx.case(dict(increments=n, dtype=dtype and dtype.__name__,
                           key=key)):
          kw = {} if dtype is None else dict(dtype=dtype)
          rng = jax.random.PRNGKey(key)
          out = brownian_path(rng=rng, n=n, **kw)
          ctx.check(out.dtype == (dtype or jnp.float32), 'dtype', out.dtype)
          ctx.check(out.shape == (n,), 'shape', out.shape)
          if out.dtype == jnp.float32:
            ctx.close(np.asarray(out, np.float64), x[key], 1e-6,
                      'not the path of this key')
          ctx.evaluated(True)


def recurrence(f, y0, ts, dw):
  """Euler-Heun, with equally many steps between consecutive times."""
  segments = len(ts) - 1
  steps = len(dw) // segments
  y, out = y0, []
  for i in range(segments):
    dt = (ts[i + 1] - ts[i]) / steps
    for j in range(steps):
      t = ts[i] + j * dt
      w = dw[i * steps + j]
      drift, diff = f(y, t, w)
      predicted = f(y + diff, t + dt, w)[1]
      y = y + drift * dt + .5 * (diff + predicted)
    out.append(y)
  return np.stack(out)


def words(ctx, n):
  from swirl_fem.sde.sdeint import sdeint
  alphabet = ALPHABET if n < 8 or not ctx.quick else ALPHABET[:2]
  every = np.array(list(itertools.product(alphabet, repeat=n)))
  y0 = .5
  jd, js = coefficients(jnp)
  nd, ns = coefficients(np)

  def solve(ts, dw, i, j):
    f = lambda y, t, w, i, j: (
        jax.lax.switch(i, jd, y, t), jax.lax.switch(j, js, y, t, w))
    return sdeint(f, jnp.asarray(y0), ts, dw, i, j)
  for m in [m for m in range(1, n + 1) if n % m == 0]:
    real = jax.jit(jax.vmap(solve, in_axes=(None, 0, None, None)))
    single = jax.jit(solve)
    for ts in GRIDS[m]:
      for i, j in itertools.product(range(len(jd)), range(len(js))):
        if n > 6 and (i + 2 * j) % 3:
          continue
        with ctx.case(dict(length=n, times=ts, drift=i, diffusion=j)):
          got = np.asarray(real(jnp.asarray(ts), jnp.asarray(every), i, j))
          f = lambda y, t, w: (nd[i](y, t), ns[j](y, t, w))
          want = recurrence(f, np.full(len(every), y0), ts, every.T).T
          scale = 1e-10 * (1 + np.abs(want))
          ctx.close(got / (1 + np.abs(want)), want / (1 + np.abs(want)), 1e-10,
                    'solution [word, output]')
          del scale
          one = np.asarray(single(jnp.asarray(ts), jnp.asarray(every[-2]), i, j))
          ctx.close(one, want[-2], 1e-10 * (1 + np.abs(want[-2]).max()),
                    'a single path')
          # the pieces, one after the other
          if m > 1:
            y, k = None, n // m
            for p in range(m):
              g = lambda y, t, w: (jd[i](y, t), js[j](y, t, w))
              y = sdeint_piece(sdeint, g, y0 if y is None else y,
                               ts[p:p + 2], every[-2][p * k:p * k + k])
              ctx.close(y, want[-2][p], 1e-10 * (1 + abs(want[-2][p])),
                        f'piece {p}') if (i, j) in ((3, 3), (5, 4)) else None
              if (i, j) not in ((3, 3), (5, 4)):
                break
        ctx.state(n, m, ts, i, j)
        ctx.transition(len(every) * n)
        ctx.trace(len(every))
        ctx.evaluated(True, len(every))
      ctx.sample(f'all words of {n} increments, times {ts}')


def sdeint_piece(sdeint, g, y, ts, dw):
  return float(sdeint(g, jnp.asarray(y), jnp.asarray(ts), jnp.asarray(dw))[0])


def trees(ctx, _):
  """The state may be any tree, the increments may have any shape."""
  from swirl_fem.sde.sdeint import sdeint
  leaf = lambda i, *s: jnp.asarray(np.cos(np.arange(np.prod(s, dtype=int)) + i
                                          ).reshape(s))
  states = {
      'scalar': leaf(1), 'one': leaf(1, 1), 'vector': leaf(1, 3),
      'matrix': leaf(1, 2, 3), 'pair': (leaf(1), leaf(2, 2)),
      'list': [leaf(1, 2), leaf(2, 2)], 'dict': {'b': leaf(1), 'a': leaf(2, 3)},
      'nested': {'x': (leaf(1, 2), [leaf(3), {'y': leaf(4, 1, 2)}]),
                 'w': leaf(5, 2, 2)},
      'empty leaf': (leaf(1, 2), leaf(2, 0)), 'none': (leaf(1, 2), None),
      'single': (leaf(1, 2),),
      'mixed': {'a': leaf(1, 2).astype(jnp.float32), 'b': leaf(2, 2)},
  }
  for (name, y0), shape, m in itertools.product(
      states.items(), ((), (1,), (3,), (2, 2)), (1, 2, 4)):
    with ctx.case(dict(state=name, increments=shape, outputs=m)):
      dw = np.asarray(leaf(9, 4, *shape)) / 2
      ts = np.linspace(0, 1, m + 1)
      leaves, tree = jax.tree.flatten(y0)
      # each leaf has its own coefficients, coupled by the mean of the first
      def f(y, t, w, lib=jnp, pick=lambda y: jax.tree.leaves(y)[0],
            build=lambda v: jax.tree.unflatten(tree, v), leaves=jax.tree.leaves):
        c = lib.mean(pick(y))
        w = lib.sum(lib.asarray(w) * (1 + lib.arange(w.size).reshape(w.shape)))
        ls = leaves(y)
        return (build([(i + 1) * .3 * v * t + c for i, v in enumerate(ls)]),
                build([(.2 + .1 * i) * v * w + .1 * c * t * w
                       for i, v in enumerate(ls)]))
      got = jax.jit(lambda y, w: sdeint(f, y, jnp.asarray(ts), w))(
          y0, jnp.asarray(dw))
      ctx.check(jax.tree.structure(got) == tree, 'structure',
                jax.tree.structure(got))
      # the same with a list of numpy arrays
      g = lambda y, t, w: f(list(y), t, np.asarray(w), np, lambda y: y[0],
                            lambda v: arr(v), list)
      arr = lambda v: np.array([None] + list(v), object)[1:]
      want = recurrence(g, arr([np.asarray(v, np.float64) for v in leaves]), ts,
                        list(dw))
      for i, (u, v) in enumerate(zip(jax.tree.leaves(got), leaves)):
        ctx.check(u.dtype == v.dtype and u.shape == (m,) + v.shape,
                  f'type of leaf {i}', u.dtype, u.shape)
        tol = 1e-10 if name != 'mixed' else 1e-4
        for k in range(m):
          ctx.close(u[k], want[k][i], tol, f'leaf {i} at output {k}')
      ctx.state(name, shape, m)
      ctx.transition(4)
      ctx.trace()
      ctx.evaluated(True)
      ctx.sample(f'state {name}, increments of shape {shape}, {m} outputs')


def lengths(ctx, part):
  """Which steps are taken, and when."""
  from swirl_fem.sde.sdeint import sdeint
  x64 = jnp.asarray(0.).dtype == np.float64
  eps = 1e-12 if x64 else 2e-6
  small = list(range(1, 33 if ctx.quick else 97))
  k, of = part
  for n in small[k::of]:
    # increments are unit vectors, so that each step has its own component
    f = lambda y, t, w: (0 * y, t * w)
    run_ = jax.jit(lambda ts, w: sdeint(f, jnp.zeros(w.shape[1]), ts, w))
    for m in [m for m in range(1, n + 1) if n % m == 0]:
      for t0, t1 in ((0., 1.), (0., .7), (.3, .9), (.9, 1.)):
        with ctx.case(dict(steps=n, outputs=m, times=(t0, t1))):
          ts = np.linspace(t0, t1, m + 1)
          got = run_(jnp.asarray(ts, jnp.asarray(0.).dtype), jnp.eye(n))
          dt = (t1 - t0) / n
          mid = t0 + (np.arange(n) + .5) * dt
          upto = (np.arange(m) + 1) * (n // m)
          want = np.where(np.arange(n) < upto[:, None], mid, 0.)
          ctx.close(got, want, eps, 'time of each step [output, step]')
          ctx.state(n, m, t0, t1)
          ctx.transition(n)
          ctx.trace()
          ctx.evaluated(n > 1)
  more = [100, 128, 255, 300, 512, 1000, 1024, 2000, 4096, 5000, 8192, 10000]
  more += [20000, 32768, 50000] + ([] if ctx.quick else [65536, 100000, 10**6])
  for n in more[k::of]:
    f = lambda y, t, w: ((y[0] * 0, y[1] * 0 + t), (w, w * 0))
    run_ = jax.jit(lambda ts, w: sdeint(f, (jnp.zeros(()),) * 2, ts, w))
    for t0, t1 in ((0., 1.), (0., .7), (.3, .9), (.5, 1.), (.9, 1.), (0., .1)):
      with ctx.case(dict(steps=n, times=(t0, t1))):
        ts = jnp.asarray([t0, t1], jnp.asarray(0.).dtype)
        got = run_(ts, jnp.ones(n))
        ctx.equal(np.asarray(got[0]), np.asarray([float(n)]),
                  'number of steps taken')
        dt = (t1 - t0) / n
        want = dt * np.sum(t0 + np.arange(n) * dt)
        ctx.close(got[1][0], want, 1e-10 if x64 else 2e-3 * want,
                  'integral of time')
        ctx.state(n, t0, t1)
        ctx.transition(n)
        ctx.trace()
        ctx.evaluated(True)
    ctx.sample(f'{n} steps')


def calls(ctx, _):
  """The ways to pass times, paths and arguments."""
  from swirl_fem.sde.sdeint import sdeint
  dw = np.array([.25, -.5, 1., .125, -.25, .5], np.float32)
  values = (0., .25, 1.)
  np_times = np.array(values, np.float32)
  times = {'tuple': values, 'list': list(values), 'numpy': np_times,
           'jax': jnp.asarray(np_times), 'scalars': tuple(jnp.asarray(np_times)),
           'numpy scalars': list(np_times)}
  states = {'float': .5, 'numpy': np.float32(.5), 'jax': jnp.asarray(.5),
            'vector': np.full(2, .5, np.float32)}
  args = {'none': (), 'float': (2.,), 'int': (2,), 'array': (jnp.asarray(2.),),
          'int array': (jnp.asarray(2),), 'tree': ({'a': 2.},), 'two': (1., 1.),
          'absent': (2., None), 'bool': (True, True)}
  value = lambda args: sum(
      float(x) for x in jax.tree.leaves(args)) if args else 1.
  for (tn, ts), (sn, y0), (an, ar), mode in itertools.product(
      times.items(), states.items(), args.items(), ('eager', 'jit')):
    if ctx.quick and mode == 'eager' and (len(tn) + len(sn) + len(an)) % 3:
      continue
    with ctx.case(dict(times=tn, state=sn, args=an, mode=mode)):
      def f(y, t, w, *args):
        c = sum(jnp.asarray(x, jnp.float32)
                for x in jax.tree.leaves(args)) if args else 1.
        return c * y * t, y * w * c
      if mode == 'eager':
        got = sdeint(f, y0, ts, dw, *ar)
      else:
        got = jax.jit(lambda: sdeint(f, y0, ts, dw, *ar))()
      c = value(ar)
      g = lambda y, t, w: (c * y * t, y * w * c)
      want = recurrence(g, np.asarray(y0, np.float64), values, dw)
      ctx.close(got, want, 1e-5 * np.abs(want).max(), 'solution')
      ctx.state(tn, sn, an, mode)
      ctx.transition(len(dw))
      ctx.trace()
      ctx.evaluated(True)
  # lengths which can't be divided equally
  for n, m in itertools.product(range(1, 8), range(1, 8)):
    if n % m:
      with ctx.case(dict(indivisible=(n, m))):
        try:
          sdeint(lambda y, t, w: (y, y * w), 1., jnp.linspace(0., 1., m + 1),
                 jnp.ones(n))
        except Exception:  # pylint: disable=broad-except
          ctx.evaluated(True)
        else:
          ctx.fail('accepted')
