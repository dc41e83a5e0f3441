"""What refinement of a first order mesh must give, symbolically.

A point of the refined mesh is named by its multilinear weights with respect to
the vertices of the coarse mesh. A weight is a product of one dimensional ones,
kept as the sorted tuple of the indices of the points they belong to, so that
names are exact.
"""
import itertools

import numpy as np


def names(listing, n):
  """Names of the points of a (sub)cell listed by its vertices, in order."""
  d = int(np.log2(len(listing)))
  corners = list(itertools.product((0, 1), repeat=d))
  out = []
  for idx in itertools.product(range(n), repeat=d):
    name = {}
    for c, v in zip(corners, listing):
      w = tuple(sorted(i if b else n - 1 - i for b, i in zip(c, idx)))
      if 0 in w:
        continue
      name[int(v)] = tuple(i for i in w if i != n - 1)
    out.append(frozenset(name.items()))
  return out


def weights(points, d):
  """Multilinear weights of the tensor points (n^d, 2^d)."""
  t = (np.asarray(points) + 1) / 2
  m = np.stack([1 - t, t], 1)
  r = np.ones((1, 1))
  for _ in range(d):
    r = np.kron(r, m)
  return r


def check_refined(ctx, coarse, nodes, out):
  """Elements and coordinates. Returns the node of each name."""
  n, d = nodes.num_points, coarse.ndim
  els = np.asarray(out.elements)
  xyz = np.asarray(out.node_coords)
  ctx.check(els.shape == (len(coarse.elements), n ** d), 'shape of elements',
            els.shape)
  ctx.check(els.dtype.kind in 'iu', 'integer elements')
  ctx.check(out.gridpoints_1d == nodes and out.order == n - 1,
            'reference nodes')
  ctx.check(set(els.ravel().tolist()) == set(range(len(xyz))),
            'unused or missing nodes', sorted(
                set(els.ravel().tolist()) ^ set(range(len(xyz))))[:5])
  w = weights(nodes.node_values, d)
  scale = np.abs(coarse.coords).max()
  for e, el in enumerate(coarse.elements):
    ctx.close(xyz[els[e]], w @ coarse.coords[el], 1e-12 * scale,
              f'coordinates of element {e}')
  if not nodes.is_continuous():
    ctx.check(len(set(els.ravel().tolist())) == els.size,
              'nodes shared although the points are inside')
    return None
  ctx.equal(xyz[:len(coarse.coords)], coarse.coords, 'original nodes')
  node_of, name_of = {}, {}
  for e, el in enumerate(coarse.elements):
    for k, name in enumerate(names(el, n)):
      i = int(els[e, k])
      if node_of.setdefault(name, i) != i:
        ctx.fail(f'the point {sorted(name)} is node {node_of[name]} and, in '
                 f'element {e}, node {i}')
      if name_of.setdefault(i, name) != name:
        ctx.fail(f'node {i} is {sorted(name_of[i])} and, in element {e}, '
                 f'{sorted(name)}')
      if len(name) == 1:
        v = next(iter(name))[0]
        ctx.check(i == v, f'vertex {v} became node {i}')
  return node_of
