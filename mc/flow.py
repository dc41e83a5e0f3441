"""Discrete flow operators in plain numpy."""
import dataclasses
import fractions
import functools

import numpy as np

from mc import isomesh
from mc import meshes
from mc.checks.g03 import shuffled

GL, GLL = 'GAUSS_LEGENDRE', 'GAUSS_LOBATTO_LEGENDRE'
F = fractions.Fraction


@dataclasses.dataclass
class Case:
  """A mesh with boundary conditions."""
  shape: tuple
  periodic: tuple
  how: int
  listing: int
  dirichlet: object        # 'all' or names of groups
  order: int

  def coarse(self):
    n = int(np.prod([s + 1 for s in self.shape]))
    m = int(np.prod(self.shape))
    d = len(self.shape)
    turns = [p for p, det in meshes.symmetries(d) if det == 1]
    kw = {}
    if self.listing >= 1:
      step = next(s for s in range(2 * self.listing + 1, 99)
                  if np.gcd(s, n) == 1)
      kw['numbering'] = shuffled(n, step)
    if self.listing >= 2:
      kw['orient'] = [turns[(3 * e + self.listing) % len(turns)]
                      for e in range(m)]
    if self.listing >= 3:
      kw['order'] = list(reversed(range(m)))
    return meshes.structured(self.shape, self.periodic, self.how, **kw)

  def conditions(self, coarse, bctype):
    names = sorted(coarse.groups)
    if self.dirichlet == 'all':
      return {k: (bctype.DIRICHLET, 0.) for k in names}
    return {k: ((bctype.DIRICHLET if k in self.dirichlet else bctype.NEUMANN),
                0.) for k in names
            if k in self.dirichlet or k.endswith('1')}

  def is_dirichlet(self, name):
    return self.dirichlet == 'all' or name in self.dirichlet


class Flow:
  """The real operators, and the matrices they have to be."""

  def __init__(self, case, overint=2, matrices=True):
    from swirl_fem.core.interpolation import Nodes1D, NodeType
    from swirl_fem.core.mesh_refiner import refine_premesh
    from swirl_fem.navier_stokes import navier_stokes as ns
    self.case = case
    self.d = d = len(case.shape)
    order = case.order
    coarse = case.coarse()
    pm = refine_premesh(coarse.premesh(), Nodes1D.create(
        order + 1, NodeType.GAUSS_LOBATTO_LEGENDRE))
    pp = refine_premesh(coarse.premesh(), Nodes1D.create(
        order - 1, NodeType.GAUSS_LEGENDRE))
    self.sem = ns.StokesSEM.create(
        coarse.premesh(), case.conditions(coarse, ns.BCType), order, overint)
    self.x = np.asarray(self.sem.velocity.mesh.node_coords)
    self.elements = np.asarray(self.sem.velocity.mesh.elements)
    self.px = np.asarray(self.sem.pressure.pspace.mesh.node_coords)
    self.pelements = np.asarray(self.sem.pressure.pspace.mesh.elements)
    assert np.allclose(self.x, pm.node_coords, atol=1e-12)
    assert np.array_equal(self.elements, pm.elements)
    assert np.allclose(self.px, pp.node_coords, atol=1e-12)
    assert np.array_equal(self.pelements, pp.elements)
    self.n, self.np = len(self.x), len(self.px)
    label = meshes.classes(self.n, pm.periodic_links)
    dofs = sorted(set(label.tolist()))
    self.dof = np.array([dofs.index(l) for l in label.tolist()])
    self.nd = len(dofs)
    self.fixed = np.zeros(self.n, bool)
    for name, facets in pm.physical_groups.items():
      if case.is_dirichlet(name):
        self.fixed[np.asarray(facets).reshape(-1)] = True
    if matrices:
      self._matrices(overint)

  def _matrices(self, overint):
    d, n, order = self.d, self.n, self.case.order
    pts, w1 = isomesh.points(order + 1, GLL)
    t = isomesh.Tables(d, pts, pts, w1)
    ppts = isomesh.points(order - 1, GL)[0]
    # the values of the pressure basis at the velocity's points
    pv = isomesh.kron([isomesh.lagrange(ppts, pts)[0]] * d)
    over = isomesh.Tables(d, pts, *isomesh.points(order + 1 + overint, GLL))
    self.mass = np.zeros(n)
    self.stiff = np.zeros((n, n))
    self.div = np.zeros((self.np, n, d))
    self.pmass = np.zeros((self.np, self.np))
    self.tri = []      # per element: ∫ φ_a ∂_j φ_b φ_c
    for el, pel in zip(self.elements, self.pelements):
      w, g, _ = t.element(self.x[el])
      assert (w > 0).all()
      np.add.at(self.mass, el, np.einsum('q,qm->m', w, t.v))
      self.stiff[np.ix_(el, el)] += np.einsum('q,jqm,jqn->mn', w, g, g)
      for k in range(d):
        self.div[np.ix_(pel, el, [k])] += np.einsum(
            'q,qm,qn->mn', w, pv, g[k])[..., None]
      self.pmass[np.ix_(pel, pel)] += np.einsum('q,qm,qn->mn', w, pv, pv)
      w, g, _ = over.element(self.x[el])
      self.tri.append(np.einsum('q,qa,jqb,qc->ajbc', w, over.v, g, over.v))
    self.mask = np.where(self.fixed, 0., 1.)

  def convection(self, u, w):
    """∫ (u·∇) w · v for all v: [n, d]."""
    out = np.zeros((self.n, self.d))
    for el, t in zip(self.elements, self.tri):
      np.add.at(out, el, np.einsum('ajbc,aj,bk->ck', t, u[el], w[el]))
    return out * self.mask[:, None]

  def glue(self):
    """Nodes by degrees of freedom."""
    p = np.zeros((self.n, self.nd))
    p[np.arange(self.n), self.dof] = 1
    return p

  def filter_matrix(self):
    """The full filter, on continuous functions."""
    order, d = self.case.order, self.d
    hi = isomesh.points(order + 1, GLL)[0]
    lo = isomesh.points(order, GLL)[0]
    f1 = isomesh.lagrange(lo, hi)[0] @ isomesh.lagrange(hi, lo)[0]
    f = isomesh.kron([f1] * d)
    out = np.zeros((self.n, self.n))
    count = np.zeros(self.n)
    for el in self.elements:
      out[np.ix_(el, el)] += f
      count[el] += 1
    return out / count[:, None]


@functools.lru_cache(maxsize=None)
def bdf(k):
  """Exact derivative weights at the newest of k + 1 times, oldest first."""
  ts = [F(i) for i in range(k + 1)]
  out = []
  for j in range(k + 1):
    # derivative of the Lagrange polynomial of j at t = k
    total = F(0)
    for m in range(k + 1):
      if m == j:
        continue
      term = F(1) / (ts[j] - ts[m])
      for l in range(k + 1):
        if l not in (j, m):
          term *= (ts[k] - ts[l]) / (ts[j] - ts[l])
      total += term
    out.append(total)
  return tuple(out)


@functools.lru_cache(maxsize=None)
def ext(k):
  """Exact weights of the extrapolation to the next time, oldest first."""
  out = []
  for j in range(k + 1):
    v = F(1)
    for m in range(k + 1):
      if m != j:
        v *= F(k + 1 - m) / (j - m)
    out.append(v)
  return tuple(out)
