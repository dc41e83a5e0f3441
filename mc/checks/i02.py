"""I02: interpolation and differentiation reproduce every polynomial."""
import fractions
import functools
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from swirl_fem.core.interpolation import BarycentricInterpolator
from swirl_fem.core.interpolation import Nodes1D, NodeType

LEVEL = 'exploration'
RULE = ('All pairs of grid points (three types, up to 8, thorough 12, points) '
        'and evaluation points (three types, up to 8 points, and single points '
        'including every grid point and its floating point neighbours), in one '
        'to three dimensions. The operators are linear, so the full matrices, '
        'obtained from all unit vectors, are compared with the exact values of '
        'the Lagrange polynomials computed in rational arithmetic. Non-trivial: '
        'the two point sets differ.')
ASSUMPTIONS = ['64 bit arithmetic; the error allowed is 1e-12 times the square '
               'of the Lebesgue constant of the points, and n^4 times as much '
               'for derivatives.']

GL, GLL, NC = (NodeType.GAUSS_LEGENDRE, NodeType.GAUSS_LOBATTO_LEGENDRE,
               NodeType.NEWTON_COTES)


def jobs(tier):
  q = tier == 'quick'
  top = 8 if q else 12
  out = []
  for t in (GL, GLL, NC):
    for n in range(1 if t == GL else 2, top + 1):
      out.append(dict(name=f'1d {t.value} {n}', x64=True, cost=n,
                      args=dict(d=1, type=t.value, n=n, top=top)))
    for n in range(1 if t == GL else 2, (6 if q else 8) + 1):
      out.append(dict(name=f'2d {t.value} {n}', x64=True, cost=n,
                      args=dict(d=2, type=t.value, n=n, top=5 if q else 8)))
    for n in range(1 if t == GL else 2, (4 if q else 5) + 1):
      out.append(dict(name=f'3d {t.value} {n}', x64=True, cost=n,
                      args=dict(d=3, type=t.value, n=n, top=3 if q else 5)))
  out.append(dict(name='equality', x64=True, args=dict(d=0)))
  return out


@functools.lru_cache(maxsize=None)
def exact(nodes, points):
  """Lagrange values and derivatives, from rational arithmetic."""
  xs = [fractions.Fraction(x) for x in nodes]
  v = np.zeros((len(points), len(xs)))
  g = np.zeros((len(points), len(xs)))
  for i, p in enumerate(points):
    y = fractions.Fraction(p)
    for j, xj in enumerate(xs):
      others = [x for k, x in enumerate(xs) if k != j]
      den = fractions.Fraction(1)
      num = fractions.Fraction(1)
      for x in others:
        den *= xj - x
        num *= y - x
      dsum = fractions.Fraction(0)
      for k in range(len(others)):
        term = fractions.Fraction(1)
        for m, x in enumerate(others):
          if m != k:
            term *= y - x
        dsum += term
      v[i, j] = float(num / den)
      g[i, j] = float(dsum / den)
  return v, g


def compare(ctx, d, grid, ev):
  n, m = grid.num_points, ev.num_points
  v, g = exact(tuple(map(float, grid.node_values)),
               tuple(map(float, ev.node_values)))
  want = functools.reduce(np.kron, [v] * d)
  want_g = np.stack([functools.reduce(np.kron, [g if k == i else v
                                                for k in range(d)])
                     for i in range(d)], -1)
  fine = np.linspace(-1, 1, 41)
  leb = np.abs(exact(tuple(map(float, grid.node_values)),
                     tuple(fine.tolist()))[0]).sum(1).max()
  tol = 1e-12 * leb ** (2 * d)
  tol_g = tol * n ** 4
  it = BarycentricInterpolator(d, grid, ev)
  with np.errstate(all='ignore'):
    mat = np.asarray(it.interpolation_matrix())
    mat_g = np.asarray(it.interpolation_matrix_grad())
    ctx.close(mat, want, tol, 'interpolation matrix')
    ctx.close(mat_g, want_g, tol_g, 'gradient matrix')
    eye = jnp.eye(n ** d)
    got = np.asarray(jax.vmap(it.interpolate)(eye)).T
    got_g = np.moveaxis(np.asarray(jax.vmap(it.interpolate_grad)(eye)), 0, 1)
    # one by one, with the plain function, for the first and last basis vector
    one = np.asarray(it.interpolate(eye[-1]))
    one_g = np.asarray(it.interpolate_grad(eye[-1]))
  ctx.check(got.shape == (m ** d, n ** d), 'shape', got.shape)
  ctx.check(got_g.shape == (m ** d, n ** d, d), 'shape of the gradient')
  ctx.close(got, want, tol, 'interpolate')
  ctx.close(got_g, want_g, tol_g, 'interpolate_grad')
  ctx.close(one, want[:, -1], tol, 'interpolate, one vector')
  ctx.close(one_g, want_g[:, -1], tol_g, 'interpolate_grad, one vector')
  # at a grid point the given value comes back
  pts = list(itertools.product(map(float, grid.node_values), repeat=d))
  evs = list(itertools.product(map(float, ev.node_values), repeat=d))
  for i, p in enumerate(evs):
    if p in pts:
      row = np.zeros(n ** d)
      row[pts.index(p)] = 1
      ctx.equal(mat[i], row, 'row of a grid point')
      ctx.equal(got[i], row, 'interpolation at a grid point')
  ctx.evaluated(grid.node_type != ev.node_type or n != m)
  ctx.sample(f'{d}d, {n} {grid.node_type.value} to {m} {ev.node_type.value}')


def run(ctx, a):
  d = a['d']
  if d == 0:
    sets = []
    for t in (GL, GLL, NC):
      for n in range(1 if t == GL else 2, 8):
        sets.append(Nodes1D.create(n, t))
    for x in (-1., 0., .5, 1., np.nextafter(.5, 1), .25):
      sets.append(Nodes1D.create_single_point(np.float64(x)))
    for p, q in itertools.product(sets, repeat=2):
      with ctx.case(dict(eq=[p.node_type.value, p.num_points,
                             p.node_values.tolist(), q.node_type.value,
                             q.num_points, q.node_values.tolist()])):
        same = (p.num_points == q.num_points
                and np.abs(p.node_values - q.node_values).max() < 1e-15)
        if p == q:
          ctx.check(same, 'different points compare equal')
        elif p is q:
          ctx.fail('points differ from themselves')
        ctx.evaluated(p is not q)
    return
  t, n = NodeType(a['type']), a['n']
  grid = Nodes1D.create(n, t)
  for et in (GL, GLL, NC):
    for m in range(1 if et == GL else 2, a['top'] + 1):
      with ctx.case(dict(d=d, grid=[t.value, n], to=[et.value, m])):
        compare(ctx, d, grid, Nodes1D.create(m, et))
  singles = [-1., -.75, 0., .3, 1.]
  if d == 1:
    for x in grid.node_values:
      singles += [float(x), float(np.nextafter(x, 2)),
                  float(np.nextafter(x, -2)), float(x) + 1e-9]
  for x in singles:
    if not -1 <= x <= 1:
      continue
    with ctx.case(dict(d=d, grid=[t.value, n], single=x)):
      compare(ctx, d, grid, Nodes1D.create_single_point(np.float64(x)))
