"""N04: filter and vorticity are pointwise right and agree on copies of a node."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from mc import flow
from mc import isomesh

LEVEL = 'model_checking'
RULE = ('All combinations, within bounds, of mesh (1D to 3D; geometry; '
        'listing), periodic directions and order; for each the filter with '
        'every fraction of an alphabet on a complete basis of the continuous '
        'functions and on all monomials, and (2D) the vorticity of a complete '
        'basis against averages computed with numpy over all elements at a '
        'node, copies included, and of all monomial fields against their '
        'curl. A state is a configuration with a basis function, a transition '
        'applies the real operator, a trace is a configuration.')
ASSUMPTIONS = ['64 bit arithmetic, 1e-10 relative.',
               'Fields given to the filter and the vorticity are continuous: '
               'equal on all copies of a node.',
               'Vorticity: two dimensions.']
ALPHAS = (0., .05, .5, 1., -.25)


def configurations(tier):
  out = []
  q = tier == 'quick'
  for shape in ((1,), (3,), (2, 2), (3, 2), (2, 2, 1), (2, 1, 1)):
    d = len(shape)
    per = [p for k in range(d + 1)
           for p in itertools.combinations(range(d), k)
           if all(shape[i] > 1 for i in p)]
    orders = {1: (2, 3, 4, 5, 7), 2: (2, 3, 4), 3: (2, 3)}[d]
    if not q:
      orders = {1: (2, 3, 4, 5, 6, 7, 8, 9), 2: (2, 3, 4, 5, 6, 7),
                3: (2, 3, 4)}[d]
    for periodic, order, how, listing in itertools.product(
        per, orders, (0, 1, 2), (0, 1, 2, 3)):
      if (q or d == 3) and (order + how + listing + len(out)) % (
          {1: 2, 2: 3, 3: 5}[d]):
        out.append(None)
        continue
      out.append((shape, periodic, how, listing, (), order))
  return [o for o in out if o]


def jobs(tier):
  confs = configurations(tier)
  of = 12 if tier == 'quick' else 48
  return [dict(name=f'part {k}', x64=True,
               cost=sum(c[-1]**len(c[0]) for c in confs[k::of]),
               args=dict(part=(k, of))) for k in range(of)]


def run(ctx, a):
  part, of = a['part']
  for conf in configurations(ctx.tier)[part::of]:
    with ctx.case(dict(zip(('shape', 'periodic', 'geometry', 'listing',
                            'dirichlet', 'order'), conf))):
      check(ctx, flow.Case(*conf))


def check(ctx, case):
  s = flow.Flow(case, matrices=False)
  sem, n, d, order = s.sem, s.n, s.d, case.order
  p = s.glue()
  nd = s.nd
  basis = np.zeros((nd * d, n, d))
  for i in range(nd):
    for k in range(d):
      basis[i * d + k, :, k] = p[:, i]
  filt = s.filter_matrix()
  corners = np.zeros(n, bool)
  grid = np.arange((order + 1)**d).reshape((order + 1,) * d)
  corner = grid[tuple(slice(None, None, order) for _ in range(d))].reshape(-1)
  corners[s.elements[:, corner]] = True
  fn = jax.jit(jax.vmap(sem.filter, (0, None)))
  for alpha in ALPHAS:
    got = np.asarray(fn(jnp.asarray(basis), alpha))
    want = (1 - alpha) * basis + alpha * np.einsum('mn,bnk->bmk', filt, basis)
    ctx.close(got, want, 1e-10, f'filter with fraction {alpha}')
    ctx.close(got[:, corners], basis[:, corners], 1e-10, 'corner values')
    first = np.array([np.argmax(s.dof == i) for i in range(nd)])
    ctx.close(got, got[:, first[s.dof]], 1e-10, 'copies of a node')
    ctx.transition(len(basis))
    ctx.evaluated(alpha != 0, 1)
  # the default fraction
  ctx.close(np.asarray(sem.filter(jnp.asarray(basis[0]))),
            .95 * basis[0] + .05 * filt @ basis[0], 1e-10, 'default fraction')
  # polynomials: of the space, and of one degree less
  if not case.periodic:
    powers = [p for p in itertools.product(range(order), repeat=d)
              if sum(p) < order]
    f = np.stack([np.prod(s.x**np.array(p), axis=1) for p in powers])
    u = np.stack([f * (k + 1) for k in range(d)], -1)
    for alpha in (.5, 1.):
      got = np.asarray(fn(jnp.asarray(u), alpha))
      for power, g, w in zip(powers, got, u):
        ctx.close(g, w, 1e-9 * max(1, np.abs(w).max()), f'filter of x^{power}')
        ctx.evaluated(True)
  for i in range(nd):
    ctx.state(case, i)
  if d == 2:
    vorticity(ctx, case, s, basis)
  ctx.trace()
  ctx.sample(f'{case}')


def vorticity(ctx, case, s, basis):
  sem, n, order = s.sem, s.n, case.order
  pts = isomesh.points(order + 1, flow.GLL)[0]
  t = isomesh.Tables(2, pts, pts, np.ones(order + 1))
  # averages over the elements at each degree of freedom
  out = np.zeros((s.nd, n, 2))
  count = np.zeros(s.nd)
  for el in s.elements:
    _, g, _ = t.element(s.x[el])
    for q, node in enumerate(el):
      out[s.dof[node], el, 1] += g[0, q]
      out[s.dof[node], el, 0] -= g[1, q]
      count[s.dof[node]] += 1
  out /= count[:, None, None]
  want = np.einsum('mnk,bnk->bm', out, basis)[:, s.dof]
  fn = jax.jit(jax.vmap(sem.vorticity))
  got = np.asarray(fn(jnp.asarray(basis)))
  ctx.close(got, want, 1e-10 * np.abs(want).max(), 'vorticity')
  ctx.transition(len(basis))
  ctx.evaluated(True)
  if not case.periodic:
    x, y = s.x.T
    us, curls, tags = [np.stack([-y, x], -1)], [np.full(n, 2.)], [
        'counterclockwise rotation']
    for a, b in itertools.product(range(order + 1), repeat=2):
      if a + b > order:
        continue
      f = x**a * y**b
      fx = a * x**max(a - 1, 0) * y**b
      fy = b * x**a * y**max(b - 1, 0)
      for c0, c1 in ((1., 0.), (0., 1.), (-2., 3.)):
        us.append(np.stack([c0 * f, c1 * f], -1))
        curls.append(c1 * fx - c0 * fy)
        tags.append(f'curl of ({c0}, {c1}) x^{a} y^{b}')
    got = np.asarray(fn(jnp.asarray(np.stack(us))))
    for g, w, tag, u in zip(got, curls, tags, us):
      ctx.close(g, w, 1e-8 * max(1., np.abs(w).max(), np.abs(u).max()), tag)
      ctx.evaluated(True)
