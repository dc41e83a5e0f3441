"""S02: gradients through the SDE solver."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

LEVEL = 'model_checking'
RULE = ('Words of increments of an alphabet up to a length are refined (each '
        'increment divided into equal parts) to several step sizes; for every '
        'pair of drift and diffusion of a family (depending on time, state and '
        'parameters), every number of output times and every coarse word, the '
        'complete matrix of derivatives of all outputs with respect to the '
        'initial state and all parameters is computed by reverse mode from '
        'every unit cotangent (and a combination), and compared with forward '
        'mode derivatives of the recurrence (implemented in the harness): '
        'within a constant over the number of steps, and exactly for the '
        'initial state if the equation is linear with constant coefficients. '
        'Besides, all ways to pass parameters and all kinds of arguments '
        'without derivatives. A state is an equation with a word, outputs and '
        'a step size; a transition is a derivative; a trace is a word.')
ASSUMPTIONS = ['64 bit arithmetic.', 'Derivatives with respect to times and '
               'increments are documented as not implemented.',
               'The constant of convergence is the one given in the harness: '
               'twice the error observed on the reference tree.']

ALPHABET = (-.5, .25, .75)


def equations(lib):
  """(y, t, w, p) -> drift, diffusion; y has two components, p has three."""
  def mix(a, b):
    return lib.stack([a, b])
  drifts = {
      'none': lambda y, t, p: 0 * y,
      'linear': lambda y, t, p: mix(p[0] * y[0], p[1] * y[1] - p[0] * y[0]),
      'time': lambda y, t, p: mix(p[0] * t * y[1], lib.cos(3 * t) * p[1] + 0 * y[0]),
      'square': lambda y, t, p: mix(p[0] * y[0] * y[1], lib.sin(y[0]) * p[2]),
  }
  diffs = {
      'none': lambda y, t, w, p: 0 * y,
      'additive': lambda y, t, w, p: mix(p[2] * w + 0 * y[0], p[1] * w * t + 0 * y[0]),
      'linear': lambda y, t, w, p: mix(p[2] * y[0] * w, p[1] * y[1] * w),
      'square': lambda y, t, w, p: mix(p[2] * lib.sin(y[1]) * w,
                                       p[1] * y[0] * w * (1 + t)),
  }
  return drifts, diffs


P0 = np.array([.7, -.5, .6])
Y0 = np.array([.8, -.4])
GRIDS = {1: (0., 1.), 2: (0., .3, 1.), 3: (.1, .4, .7, 1.), 4: (0., .25, .5, .75, 1.)}


def jobs(tier):
  q = tier == 'quick'
  out = []
  for n in range(1, 4 if q else 5):
    for d in ('none', 'linear', 'time', 'square'):
      out.append(dict(name=f'words {n} {d}', x64=True, cost=15 + n,
                      args=dict(words=(n, d))))
  out.append(dict(name='arguments', x64=True, cost=20, args=dict(arguments=1)))
  out.append(dict(name='complex', x64=True, cost=20,
                  args=dict(complex_values=1)))
  out.append(dict(name='states', x64=True, cost=20, args=dict(states=1)))
  return out


def run(ctx, a):
  for kind in a:
    globals()[kind](ctx, a[kind])


def recurrence(f, y0, ts, dw):
  """Euler-Heun, differentiable."""
  m = len(ts) - 1
  steps = dw.shape[0] // m
  y, out = y0, []
  for i in range(m):
    dt = (ts[i + 1] - ts[i]) / steps
    def step(y, x, t0=ts[i], dt=dt):
      j, w = x
      t = t0 + j * dt
      drift, diff = f(y, t, w)
      _, ahead = f(y + diff, t + dt, w)
      return y + drift * dt + .5 * (diff + ahead), None
    y, _ = jax.lax.scan(step, y, (jnp.arange(steps),
                                  dw[i * steps:(i + 1) * steps]))
    out.append(y)
  return jnp.stack(out)


def words(ctx, which):
  from swirl_fem.sde.sdeint import sdeint
  n, drift = which
  every = np.array(list(itertools.product(ALPHABET, repeat=n)))
  drifts, diffs = equations(jnp)
  refinements = (12, 48, 192) if ctx.quick else (12, 48, 192, 768)
  for diff, m in itertools.product(diffs, [m for m in range(1, n + 1)
                                           if n % m == 0]):
    f = lambda y, t, w, p: (drifts[drift](y, t, p), diffs[diff](y, t, w, p))
    ts = jnp.asarray(GRIDS[m])
    constant = drift in ('none', 'linear') and diff in ('none', 'linear')
    for r in refinements:
      with ctx.case(dict(length=n, drift=drift, diffusion=diff, outputs=m,
                         refinement=r)):
        dw = jnp.asarray(np.repeat(every / r, r, 1))
        real = lambda y, p, w: sdeint(f, y, ts, w, p)
        model = lambda y, p, w: recurrence(
            lambda y, t, w: f(y, t, w, p), y, ts, w)
        at = (jnp.asarray(Y0), jnp.asarray(P0))

        def reverse(w):
          out, vjp = jax.vjp(lambda y, p: real(y, p, w), *at)
          units = jnp.eye(out.size).reshape((-1,) + out.shape)
          both = jax.vmap(vjp)(units)
          mix = jnp.cos(jnp.arange(out.size) + 1.).reshape(out.shape)
          return out, both, vjp(mix)
        out, (by, bp), (my, mp) = jax.tree.map(np.asarray, jax.jit(
            jax.vmap(reverse))(dw))
        want, (wy, wp) = jax.tree.map(np.asarray, jax.jit(jax.vmap(
            lambda w: (model(*at, w), jax.jacfwd(
                lambda y, p: model(y, p, w), (0, 1))(*at))))(dw))
        k = out[0].size
        wy, wp = wy.reshape(len(dw), k, -1), wp.reshape(len(dw), k, -1)
        ctx.close(out, want, 1e-10 * (1 + np.abs(want).max()), 'solution')
        tol = CONSTANT / r * max(1, np.abs(wy).max(), np.abs(wp).max())
        ctx.close(by, wy, 1e-9 if constant else tol,
                  'derivatives by the initial state [word, output, state]')
        ctx.close(bp, wp, tol, 'derivatives by parameters')
        mix = np.cos(np.arange(k) + 1.)
        ctx.close(my, np.einsum('k,wkj->wj', mix, by), 1e-9, 'combination')
        ctx.close(mp, np.einsum('k,wkj->wj', mix, bp), 1e-9, 'combination')
        worst = max(np.abs(by - wy).max(), np.abs(bp - wp).max()) / tol
        if worst > .25:
          ctx.count('more than a quarter of the allowed error')
        for w in range(len(dw)):
          ctx.state(n, drift, diff, m, r, w)
        ctx.transition(len(dw) * k * 5)
        ctx.trace(len(dw))
        ctx.evaluated(np.abs(wy).max() > 0, len(dw))
    ctx.sample(f'all words of {n}, drift {drift}, diffusion {diff}, {m} outputs')


CONSTANT = 4.


def arguments(ctx, _):
  """How parameters are passed doesn't matter."""
  from swirl_fem.sde.sdeint import sdeint
  ts = jnp.array([0., .5, 1.])
  dw = jnp.array(np.repeat([.25, -.5, .75, .5], 8) / 8)
  y0 = jnp.asarray(Y0)
  p = jnp.asarray(P0)
  key = jax.random.PRNGKey(3)
  noise = jax.random.uniform(key, ())
  drifts, diffs = equations(jnp)
  base = lambda y, t, w, p, s=1.: (s * drifts['square'](y, t, p),
                                   diffs['square'](y, t, w, p))
  ref = jax.grad(lambda y, p: loss(sdeint(base, y, ts, dw, p)), (0, 1))
  ref2 = jax.grad(lambda y, p: loss(sdeint(
      lambda *a: base(*a, 2.), y, ts, dw, p)), (0, 1))
  refn = jax.grad(lambda y, p: loss(sdeint(
      lambda *a: base(*a, noise), y, ts, dw, p)), (0, 1))
  stack = lambda *a: jnp.stack(a)
  forms = {
      'captured': (ref, lambda y, p: sdeint(
          lambda y, t, w: base(y, t, w, p), y, ts, dw)),
      'three': (ref, lambda y, p: sdeint(
          lambda y, t, w, a, b, c: base(y, t, w, stack(a, b, c)), y, ts, dw, *p)),
      'dict': (ref, lambda y, p: sdeint(
          lambda y, t, w, a: base(y, t, w, stack(a['x'], *a['y'])), y, ts, dw,
          dict(y=(p[1], p[2]), x=p[0]))),
      'part captured': (ref, lambda y, p: sdeint(
          lambda y, t, w, a: base(y, t, w, stack(p[0], a, p[2])), y, ts, dw,
          p[1])),
      'captured twice': (ref, lambda y, p: sdeint(
          lambda y, t, w, a: base(y, t, w, .5 * a + .5 * p), y, ts, dw, p)),
      'same twice': (ref, lambda y, p: sdeint(
          lambda y, t, w, a, b: base(y, t, w, .25 * a + .75 * b), y, ts, dw, p,
          p)),
      'unused': (ref, lambda y, p: sdeint(
          lambda y, t, w, a, b: base(y, t, w, a), y, ts, dw, p, jnp.ones(4))),
      'none': (ref, lambda y, p: sdeint(
          lambda y, t, w, a, b: base(y, t, w, a), y, ts, dw, p, None)),
      'integer': (ref2, lambda y, p: sdeint(
          lambda y, t, w, a, b: base(y, t, w, a, b), y, ts, dw, p, 2)),
      'integer array': (ref2, lambda y, p: sdeint(
          lambda y, t, w, b, a: base(y, t, w, a, b[1]), y, ts, dw,
          jnp.array([1, 2]), p)),
      'integer in a tree': (ref2, lambda y, p: sdeint(
          lambda y, t, w, a: base(y, t, w, a[1]['p'], a[1]['k']), y, ts, dw,
          (3, dict(k=jnp.array(2), p=p)))),
      'bool': (ref, lambda y, p: sdeint(
          lambda y, t, w, b, a: base(y, t, w, a, jnp.where(b, 1., 5.)), y, ts,
          dw, True, p)),
      'key': (refn, lambda y, p: sdeint(
          lambda y, t, w, k, a: base(y, t, w, a, jax.random.uniform(k, ())), y,
          ts, dw, key, p)),
      'typed key': (refn, lambda y, p: sdeint(
          lambda y, t, w, k, a: base(y, t, w, a, jax.random.uniform(k, ())), y,
          ts, dw, jax.random.wrap_key_data(key), p)),
      'recomputed': (ref, jax.checkpoint(
          lambda y, p: sdeint(base, y, ts, dw, p))),
      'chained': (ref, lambda y, p: chain(sdeint, base, y, ts, dw, p)),
  }
  for name, (r, f) in forms.items():
    for mode in ('eager', 'jit', 'vmap'):
      with ctx.case(dict(arguments=name, mode=mode)):
        g = jax.grad(lambda y, p: loss(f(y, p)), (0, 1))
        if mode == 'jit':
          g = jax.jit(g)
        if mode == 'vmap':
          if name == 'captured twice':
            pass
          v = jax.vmap(g)(jnp.stack([y0, 2 * y0]), jnp.stack([p, p]))
          got = jax.tree.map(lambda x: x[0], v)
          ctx.close(v[0][1], r(2 * y0, p)[0], 1e-9, 'second of two')
        else:
          got = g(y0, p)
        want = r(y0, p)
        ctx.close(got[0], want[0], 1e-9, 'by the initial state')
        ctx.close(got[1], want[1], 1e-9, 'by parameters')
        ctx.state(name, mode)
        ctx.transition(2)
        ctx.trace()
        ctx.evaluated(True)
        ctx.sample(f'parameters {name}, {mode}')


def chain(sdeint, base, y, ts, dw, p):
  a = sdeint(base, y, ts[:2], dw[:16], p)[0]
  return jnp.stack([a, sdeint(base, a, ts[1:], dw[16:], p)[0]])


def loss(ys):
  return sum(jnp.vdot(jnp.cos(jnp.arange(x.size) + 1.).reshape(x.shape), x)
             for x in jax.tree.leaves(ys))


def states(ctx, _):
  """States which are trees; with all subsets of outputs in the loss."""
  from swirl_fem.sde.sdeint import sdeint
  ts = jnp.array([0., .25, .5, 1.])
  dw = jnp.array(np.repeat([.25, -.5, .75], 96) / 96)
  leaf = lambda i, *s: jnp.asarray(np.cos(np.arange(np.prod(s, dtype=int)) + i
                                          ).reshape(s))
  trees = {
      'scalar': leaf(1), 'vector': leaf(1, 3), 'pair': (leaf(1), leaf(2, 2)),
      'dict': {'b': leaf(1, 2), 'a': leaf(2, 1, 2)},
      'single': [leaf(1, 2)]}
  for (name, y0), theta in itertools.product(trees.items(), (.5, 1.25)):
    def f(y, t, w, p, lib=jnp):
      c = lib.mean(jax.tree.leaves(y)[0])
      return (jax.tree.map(lambda v: p * v * (1 + t) + c, y),
              jax.tree.map(lambda v: lib.sin(v) * w * p, y))
    flat, unravel = jax.flatten_util.ravel_pytree(y0)
    def g(y, t, w, p):
      drift, diff = f(unravel(y), t, w, p)
      return (jax.flatten_util.ravel_pytree(drift)[0],
              jax.flatten_util.ravel_pytree(diff)[0])
    model = lambda y, p: recurrence(lambda y, t, w: g(y, t, w, p), y, ts, dw)
    want = jax.jacfwd(model, (0, 1))(flat, theta)
    for bits in range(1, 8):
      with ctx.case(dict(state=name, parameter=theta, outputs=bits)):
        sel = jnp.array([(bits >> i) & 1 for i in range(3)], float)

        def some(y, p):
          ys = sdeint(f, y, ts, dw, p)
          rows = jax.vmap(lambda y: jax.flatten_util.ravel_pytree(y)[0])(ys)
          return sel @ rows @ jnp.cos(1. + jnp.arange(rows.shape[1]))
        gy, gp = jax.jit(jax.grad(some, (0, 1)))(y0, theta)
        weight = jnp.cos(1. + jnp.arange(len(flat)))
        wy = jnp.einsum('i,ijk,j->k', sel, want[0], weight)
        wp = jnp.einsum('i,ij,j->', sel, want[1], weight)
        ctx.check(jax.tree.structure(gy) == jax.tree.structure(y0), 'structure')
        got = jax.flatten_util.ravel_pytree(gy)[0]
        size = 1 + float(jnp.abs(wy).max()) + abs(float(wp))
        ctx.close(got, wy, CONSTANT / 96 * size, 'by the initial state')
        ctx.close(gp, wp, CONSTANT / 96 * size, 'by the parameter')
        ctx.state(name, theta, bits)
        ctx.transition(2)
        ctx.trace()
        ctx.evaluated(True)


def complex_values(ctx, _):
  """Complex states and parameters, of a real valued loss."""
  from swirl_fem.sde.sdeint import sdeint
  ts = jnp.array([0., .25, .5, 1.])
  dw = jnp.array(np.repeat([.25, -.5, .75], 96) / 96)
  y0 = jnp.asarray([.8 - .3j, -.4 + .9j])
  p = jnp.asarray([.7 + .4j, -.5 - .6j])
  f = lambda y, t, w, p: (p * jnp.sin(y) * (1 + t), (p[0] * y + p[1]) * w)
  kinds = {
      'state': lambda c: (y0, p.real), 'both': lambda c: (y0, p)}
  weight = jnp.asarray([.3 + 1j, 2. - .5j])
  todo = itertools.product(kinds, (1, 4, 6), (0, 1)) if ctx.quick else (
      itertools.product(kinds, range(1, 8), (0, 1)))
  for name, bits, captured in todo:
    with ctx.case(dict(complex=name, outputs=bits, captured=captured)):
      sel = jnp.array([(bits >> i) & 1 for i in range(3)], float)
      measure = lambda ys: (sel @ jnp.abs(ys * weight - .2)**2).sum()
      y, q = kinds[name](0)
      real = (lambda y, q: sdeint(lambda y, t, w: f(y, t, w, q), y, ts, dw)
              ) if captured else (lambda y, q: sdeint(f, y, ts, dw, q))
      model = lambda y, q: recurrence(lambda y, t, w: f(y, t, w, q), y, ts, dw)
      got = jax.jit(jax.grad(lambda *a: measure(real(*a)), (0, 1)))(y, q)
      want = jax.jit(jax.grad(lambda *a: measure(model(*a)), (0, 1)))(y, q)
      size = 1 + max(float(jnp.abs(x).max()) for x in want)
      for g, w, what in zip(got, want, ('initial state', 'parameters')):
        ctx.check(g.dtype == w.dtype, 'type', g.dtype, w.dtype)
        ctx.close(g, w, CONSTANT / 96 * size, f'by the {what}')
      ctx.state('complex', name, bits, captured)
      ctx.transition(2)
      ctx.trace()
      ctx.evaluated(True)
