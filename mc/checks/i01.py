"""I01: quadrature rules are exact up to their degree."""
import functools
import itertools

import numpy as np

from swirl_fem.core.interpolation import Nodes1D, NodeType, Quadrature1D

LEVEL = 'exploration'
RULE = ('All rules with up to 16 (thorough 40) points in one direction, all '
        'monomials up to the degree of the rule; in two and three directions '
        'all tensor monomials for up to 8 and 4 (thorough 16 and 7) points. '
        'Gauss rules are determined by their moments; for uniform points each '
        'weight is compared with the integral of its hat function.')
ASSUMPTIONS = ['Rounding: 1e-13 relative to the sum of the weights.']

GL, GLL, NC = (NodeType.GAUSS_LEGENDRE, NodeType.GAUSS_LOBATTO_LEGENDRE,
               NodeType.NEWTON_COTES)


def jobs(tier):
  q = tier == 'quick'
  out = []
  for t in (GL, GLL, NC):
    out.append(dict(name=f'{t.value} 1d', args=dict(
        type=t.value, d=1, top=16 if q else 40)))
    out.append(dict(name=f'{t.value} 2d', args=dict(
        type=t.value, d=2, top=8 if q else 16)))
    out.append(dict(name=f'{t.value} 3d', args=dict(
        type=t.value, d=3, top=4 if q else 7)))
  return out


def run(ctx, a):
  t, d = NodeType(a['type']), a['d']
  for n in range(1 if t == GL else 2, a['top'] + 1):
    with ctx.case(dict(type=t.value, n=n, d=d, part='points')):
      nodes = Nodes1D.create(n, t)
      x = np.asarray(nodes.node_values)
      ctx.check(nodes.num_points == n and x.shape == (n,)
                and nodes.node_type == t, 'sizes')
      ctx.check(x.dtype == np.float64, 'dtype', str(x.dtype))
      ctx.check((np.diff(x) > 0).all(), 'increasing', x)
      ctx.check(x[0] >= -1 and x[-1] <= 1, 'inside', x)
      ctx.close(x, -x[::-1], 1e-15, 'symmetric')
      ends = bool(x[0] == -1 and x[-1] == 1)
      ctx.check(bool(nodes.is_continuous()) == ends == (t != GL), 'continuous')
      if t == NC:
        ctx.close(x, -1 + 2 * np.arange(n) / (n - 1), 1e-15, 'uniform')
      for quad in (Quadrature1D.create(n, t),
                   Quadrature1D.create_from_nodes_1d(nodes)):
        w = np.asarray(quad.weights)
        ctx.check(quad.num_points == n and quad.quadrature_type == t
                  and w.shape == (n,), 'sizes of the rule')
        ctx.close(quad.nodes.node_values, x, 0, 'points of the rule')
        ctx.check((w > 0).all(), 'positive', w)
        if t == NC:
          h = 2 / (n - 1)
          want = np.full(n, h)
          want[[0, -1]] = h / 2
          ctx.close(w, want, 1e-15, 'integrals of the hat functions')
      ctx.evaluated(True)
    degree = {GL: 2 * n - 1, GLL: 2 * n - 3, NC: 1}[t]
    quad = Quadrature1D.create(n, t)
    x = np.asarray(quad.nodes.node_values)
    wn = np.asarray(quad.weights_nd(d))
    with ctx.case(dict(type=t.value, n=n, d=d, part='weights')):
      ctx.check(wn.shape == (n ** d,), 'shape', wn.shape)
      ctx.check((wn > 0).all(), 'positive')
      ctx.close(wn.sum(), 2. ** d, 1e-13 * 2 ** d, 'volume')
      ctx.close(wn, functools.reduce(np.kron, [np.asarray(quad.weights)] * d),
                1e-15, 'tensor product')
    pts = np.array(list(itertools.product(x, repeat=d)))
    for e in itertools.product(range(degree + 1), repeat=d):
      with ctx.case(dict(type=t.value, n=n, d=d, monomial=e)):
        exact = np.prod([2 / (k + 1) if k % 2 == 0 else 0. for k in e])
        got = wn @ np.prod(pts ** np.array(e), axis=-1)
        ctx.close(got, exact, 1e-13 * 2 ** d, 'integral')
        ctx.evaluated(exact != 0)
        ctx.sample(f'{t.value} with {n} points integrates x^{list(e)} to '
                   f'{exact:.6g}')
