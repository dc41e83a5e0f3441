"""Higher order meshes and finite element integrals in plain numpy."""
import dataclasses
import functools
import itertools

import numpy as np


def points(num, kind):
  """Points and weights on [-1, 1], independently of the repository."""
  if kind == 'NEWTON_COTES':
    x = np.linspace(-1, 1, num)
    w = np.full(num, 2. / (num - 1))
    w[0] = w[-1] = 1. / (num - 1)
    return x, w
  if kind == 'GAUSS_LEGENDRE':
    return np.polynomial.legendre.leggauss(num)
  if kind == 'GAUSS_LOBATTO_LEGENDRE':
    p = np.polynomial.legendre.Legendre.basis(num - 1)
    x = np.concatenate([[-1.], np.sort(p.deriv().roots().real), [1.]])
    for _ in range(3):  # polish
      x[1:-1] -= p.deriv()(x[1:-1]) / p.deriv(2)(x[1:-1])
    return x, 2. / (num * (num - 1) * p(x)**2)
  raise ValueError(kind)


def degree(num, kind):
  """Degree up to which the rule is exact."""
  return {'NEWTON_COTES': 1, 'GAUSS_LEGENDRE': 2 * num - 1,
          'GAUSS_LOBATTO_LEGENDRE': 2 * num - 3}[kind]


def lagrange(pts, x):
  """Values and derivatives of the Lagrange basis of pts at x: [point, basis]."""
  n = len(pts)
  v = np.ones((len(x), n))
  d = np.zeros((len(x), n))
  for j in range(n):
    others = [m for m in range(n) if m != j]
    den = np.prod([pts[j] - pts[m] for m in others])
    v[:, j] = np.prod([x - pts[m] for m in others]
                      + [np.ones(len(x))], axis=0) / den
    for k in others:
      d[:, j] += np.prod([x - pts[m] for m in others if m != k]
                         + [np.ones(len(x))], axis=0) / den
  return v, d


def kron(ms):
  return functools.reduce(np.kron, ms)


class Tables:
  """Values and derivatives of the basis of an element at quadrature points."""

  def __init__(self, d, pts, qx, qw):
    v1, d1 = lagrange(np.asarray(pts, float), qx)
    self.v = kron([v1] * d)
    self.g = np.stack([kron([d1 if k == i else v1 for k in range(d)])
                       for i in range(d)])                      # i q n
    self.w = kron([qw[:, None]] * d)[:, 0]

  def element(self, xe):
    """Weights times volume [q], gradients [j, q, n] and positions [q, j]."""
    jac = np.einsum('iqn,nj->qij', self.g, xe)   # d x_j / d r_i
    det = np.linalg.det(jac)
    inv = np.linalg.inv(jac)                     # d r_i / d x_j
    return self.w * det, np.einsum('iqn,qji->jqn', self.g, inv), self.v @ xe


@dataclasses.dataclass
class Iso:
  """A mesh whose elements list their nodes in lexicographic order."""
  d: int
  pts: np.ndarray
  coords: np.ndarray
  elements: np.ndarray
  kind: str

  def renumber(self, perm):
    """Node k becomes perm[k]."""
    perm = np.asarray(perm)
    coords = np.empty_like(self.coords)
    coords[perm] = self.coords
    return dataclasses.replace(self, coords=coords,
                               elements=perm[self.elements])

  def reorder(self, order):
    return dataclasses.replace(self, elements=self.elements[list(order)])

  def turn(self, e, sym):
    """Lists element e with its axes permuted and reversed as in sym."""
    n = len(self.pts)
    perm, flips = sym
    a = self.elements[e].reshape((n,) * self.d).transpose(perm)
    a = a[tuple(slice(None, None, -1) if f else slice(None) for f in flips)]
    elements = self.elements.copy()
    elements[e] = a.reshape(-1)
    return dataclasses.replace(self, elements=elements)

  def mesh(self, dtype=None):
    import jax.numpy as jnp
    from swirl_fem.core.interpolation import Nodes1D, NodeType
    from swirl_fem.core.mesh import Mesh
    return Mesh.create(
        node_coords=jnp.asarray(self.coords, dtype),
        elements=jnp.asarray(self.elements, jnp.int32),
        gridpoints_1d=Nodes1D.create(len(self.pts), NodeType[self.kind]))


def rotations(d):
  """Proper rotations of the cube as (axis permutation, reversed axes)."""
  out = []
  for perm in itertools.permutations(range(d)):
    sign = 1
    for i, j in itertools.combinations(range(d), 2):
      if perm[i] > perm[j]:
        sign = -sign
    for flips in itertools.product((0, 1), repeat=d):
      if sign * (-1)**sum(flips) == 1:
        out.append((perm, flips))
  return out


GEOMETRIES = ('box', 'affine', 'multilinear', 'curved')


def deform(u, shape, how):
  """Moves the points u in the unit cube."""
  d = u.shape[1]
  if how == 'box':
    return u * (1. + np.arange(d))
  m = np.eye(d) + .25 * np.triu(np.ones((d, d)), 1) - .375 * np.tril(
      np.ones((d, d)), -1)
  y = (u * (1 + .5 * np.arange(d))) @ m + np.arange(1, d + 1) * .5
  if how == 'affine':
    return y
  bump = np.stack([np.prod([1 + .3 * (k + 1) * u[:, (k + i) % d] * (-1)**i
                            for i in range(d)], axis=0) - 1
                   for k in range(d)], -1)
  if how == 'multilinear':
    return y + .2 * bump
  return y + .2 * bump + .06 * np.stack(
      [np.sin(3. * u.sum(1) + k) for k in range(d)], -1) / max(shape)


def build(shape, num, kind, how):
  """A grid of elements with num points per direction."""
  d = len(shape)
  pts = points(num, kind)[0]
  shared = kind != 'GAUSS_LEGENDRE' and num > 1
  ref = list(itertools.product(range(num), repeat=d))
  # corners of a multilinear geometry are those of the deformed grid
  corners = list(itertools.product((0, 1), repeat=d))
  num_of, coords, elements = {}, [], []
  for cell in itertools.product(*map(range, shape)):
    el = []
    for r in ref:
      if shared:
        key = tuple(c * (num - 1) + i for c, i in zip(cell, r))
      else:
        key = (cell, r)
      if key not in num_of:
        num_of[key] = len(coords)
        t = np.array([(1 + pts[i]) / 2 for i in r])
        if how == 'curved':
          x = deform(((np.array(cell) + t) / shape)[None], shape, how)[0]
        else:
          x = sum(np.prod([t[k] if c[k] else 1 - t[k] for k in range(d)])
                  * deform(((np.array(cell) + c) / shape)[None], shape, how)[0]
                  for c in corners)
        coords.append(x)
      el.append(num_of[key])
    elements.append(el)
  return Iso(d, pts, np.array(coords), np.array(elements, np.int32), kind)
