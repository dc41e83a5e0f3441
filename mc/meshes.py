"""Small meshes built here, independently of the repository's generators."""
import dataclasses
import itertools

import numpy as np


def symmetries(d):
  """All symmetries of the d-cube as (corner permutation, determinant).

  Corner i of the cube has coordinates given by the bits of i, first axis most
  significant. A permutation p lists for each new corner the old one.
  """
  out = []
  corners = list(itertools.product((0, 1), repeat=d))
  index = {c: i for i, c in enumerate(corners)}
  for perm in itertools.permutations(range(d)):
    for flips in itertools.product((0, 1), repeat=d):
      p = tuple(index[tuple(c[perm[k]] ^ flips[k] for k in range(d))]
                for c in corners)
      mat = np.zeros((d, d), int)
      for k in range(d):
        mat[k, perm[k]] = -1 if flips[k] else 1
      out.append((p, int(round(np.linalg.det(mat)))))
  return out


@dataclasses.dataclass
class Coarse:
  """A first order mesh."""
  coords: np.ndarray
  elements: np.ndarray
  groups: dict
  links: np.ndarray | None
  multi: list       # position of each node in the grid
  cells: list       # position of each element in the grid

  @property
  def ndim(self):
    return self.coords.shape[1]

  def premesh(self, partitions=None):
    from swirl_fem.core.interpolation import Nodes1D, NodeType
    from swirl_fem.core.premesh import Premesh
    return Premesh.create(
        node_coords=self.coords.copy(),
        elements=self.elements.copy(),
        gridpoints_1d=Nodes1D.create(2, NodeType.NEWTON_COTES),
        physical_groups={k: v.copy() for k, v in self.groups.items()},
        periodic_links=None if self.links is None else self.links.copy(),
        partitions=None if partitions is None else np.array(partitions,
                                                            np.int32))


def distort(x, shape, how):
  """Maps grid positions to coordinates."""
  x = np.asarray(x, float)
  u = x / np.array(shape)
  d = len(shape)
  if how == 0:
    return u
  if how == 1:  # affine, sheared and stretched
    m = np.eye(d) + .25 * np.triu(np.ones((d, d)), 1) + .125 * np.tril(
        np.ones((d, d)), -1)
    return (u * (1 + np.arange(d))) @ m + np.arange(1, d + 1) * .5
  # bumps which differ from node to node
  w = np.array([1., 3., 7.])[:d]
  h = np.stack([np.cos(5. * k + 2.3 * x @ w + .7 * k * x @ w[::-1])
                for k in range(d)], -1)
  return u * (1 + .5 * np.arange(d)) + h * .12 / max(shape)


def structured(shape, periodic=(), how=0, numbering=None, orient=None,
               order=None, scale=None):
  """A grid of cells.

  Args:
    shape: cells per direction.
    periodic: directions with periodic links.
    how: geometry, see `distort`.
    numbering: permutation of the node numbers.
    orient: for each element (by cell) a corner permutation.
    order: permutation of the elements.
    scale: factor for the coordinates.
  """
  d = len(shape)
  dims = [s + 1 for s in shape]
  multi = list(itertools.product(*map(range, dims)))
  n = len(multi)
  numbering = list(range(n)) if numbering is None else list(numbering)
  num = {m: numbering[k] for k, m in enumerate(multi)}
  coords = np.zeros((n, d))
  by_num = [None] * n
  for m, k in num.items():
    coords[k] = distort(m, shape, how)
    by_num[k] = m
  if scale is not None:
    coords = coords * scale
  corners = list(itertools.product((0, 1), repeat=d))
  els, cells = [], list(itertools.product(*map(range, shape)))
  for e, c in enumerate(cells):
    el = [num[tuple(np.add(c, k))] for k in corners]
    if orient is not None:
      el = [el[i] for i in orient[e]]
    els.append(el)
  if order is not None:
    els = [els[i] for i in order]
    cells = [cells[i] for i in order]
  groups, links = {}, []
  sub = list(itertools.product((0, 1), repeat=d - 1))
  for axis in range(d):
    sides = []
    rest = [range(s) for k, s in enumerate(shape) if k != axis]
    for at in (0, shape[axis]):
      facets = []
      for c in itertools.product(*rest):
        f = []
        for s in sub:
          m = list(np.add(c, s).astype(int)) if d > 1 else []
          m.insert(axis, at)
          f.append(num[tuple(m)])
        facets.append(f)
      sides.append(np.array(facets, np.int32))
    if axis in periodic:
      links.append(np.stack(sides, 1))
    else:
      groups['xyz'[axis] + '0'] = sides[0]
      groups['xyz'[axis] + '1'] = sides[1]
  return Coarse(coords, np.array(els, np.int32), groups,
                np.concatenate(links).astype(np.int32) if links else None,
                by_num, cells)


def classes(n, links):
  """Labels of the nodes, equal when a chain of links connects them."""
  label = list(range(n))

  def find(a):
    while label[a] != a:
      a = label[a]
    return a
  if links is not None:
    for f in np.asarray(links):
      for a, b in zip(f[0], f[1]):
        a, b = find(int(a)), find(int(b))
        if a != b:
          label[max(a, b)] = min(a, b)
  return np.array([find(k) for k in range(n)])
