"""G04: results on a partitioned mesh equal those on the whole mesh."""
import functools
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from mc import meshes
from mc.checks.g03 import duplicates_in_partition, shuffled
from swirl_fem.core import fespace as fe
from swirl_fem.core.interpolation import Nodes1D, NodeType, Quadrature1D
from swirl_fem.core.mesh_refiner import refine_premesh

LEVEL = 'model_checking'
RULE = ('All assignments of the elements of small meshes to up to four '
        'partitions (with empty partitions and periodic boundaries); for each, '
        'the integrals of functions of position and of nodal functions, and '
        'the full matrices of mass, stiffness, convection and divergence '
        'operators after the exchange, on real devices, compared at every copy '
        'of every node with those of the unpartitioned mesh computed '
        'independently with numpy. A state is the partial sum of contributions '
        'over the elements placed so far; a transition adds an element; a '
        'trace is one assignment run through the real code.')
ASSUMPTIONS = ['64 bit arithmetic; equality up to rounding (1e-10 relative).']

MESHES = {
    '1d': ((4,), (), 2, 1, 4, 1),
    '1d periodic': ((4,), (0,), 2, 2, 4, 1),
    '2d': ((2, 2), (), 2, 2, 4, 1),
    '2d x': ((2, 2), (0,), 2, 2, 4, 5),
    '2d xy': ((2, 2), (0, 1), 2, 1, 4, 1),
    '2d 5': ((5, 1), (), 2, 1, 2, 1),
    '3d': ((2, 2, 1), (), 2, 1, 3, 5),
    '3d y': ((2, 2, 1), (1,), 2, 1, 2, 5),
    '3d 2': ((2, 1, 1), (), 2, 2, 2, 5),
}
THOROUGH = {
    '1d5': ((5,), (), 2, 3, 4, 2),
    '1d6 periodic': ((6,), (0,), 2, 2, 4, 1),
    '2d 3x2': ((3, 2), (), 2, 2, 3, 5),
    '2d 4x2 x': ((4, 2), (0,), 2, 2, 3, 5),
    '2d cube': ((2, 2), (), 2, 4, 4, 1),
    '3d cube': ((2, 2, 2), (), 2, 2, 2, 5),
    '3d cube x': ((2, 2, 2), (0,), 2, 1, 2, 5),
}


def jobs(tier):
  out = []
  table = dict(MESHES, **({} if tier == 'quick' else THOROUGH))
  for name, (shape, _, _, order, p, _) in table.items():
    total = p ** int(np.prod(shape))
    of = max(1, round(total / 130))
    for k in range(of):
      out.append(dict(name=f'mesh {name} {k}', devices=p, cost=total / of,
                      x64=True, args=dict(mesh=name, part=(k, of))))
  return out


def make(name):
  shape, periodic, how, order, p, step = dict(MESHES, **THOROUGH)[name]
  n = int(np.prod([s + 1 for s in shape]))
  c = meshes.structured(shape, periodic, how, numbering=shuffled(n, step))
  return refine_premesh(c.premesh(), Nodes1D.create(
      order + 1, NodeType.GAUSS_LOBATTO_LEGENDRE)), p


def lagrange(pts, x):
  """Values and derivatives of the Lagrange basis of pts at x."""
  n = len(pts)
  v = np.ones((len(x), n))
  d = np.zeros((len(x), n))
  for j in range(n):
    others = [m for m in range(n) if m != j]
    den = np.prod([pts[j] - pts[m] for m in others])
    v[:, j] = np.prod([x - pts[m] for m in others], axis=0) / den
    for k in others:
      d[:, j] += np.prod([x - pts[m] for m in others if m != k]
                         + [np.ones(len(x))], axis=0) / den
  return v, d


class Reference:
  """Element matrices by numpy, and the assembled ones."""

  def __init__(self, pm, nq):
    d = pm.ndim
    pts = np.asarray(pm.gridpoints_1d.node_values, float)
    x1, w1 = np.polynomial.legendre.leggauss(nq)
    v1, d1 = lagrange(pts, x1)
    kron = lambda ms: functools.reduce(np.kron, ms)
    self.v = kron([v1] * d)
    self.g = np.stack([kron([d1 if k == i else v1 for k in range(d)])
                       for i in range(d)])                      # i q n
    self.w = kron([w1[:, None]] * d)[:, 0]
    self.per_element = []
    self.x = []
    for el in pm.elements:
      xe = pm.node_coords[el]
      jac = np.einsum('iqn,nj->qij', self.g, xe)   # d x_j / d r_i
      det = np.linalg.det(jac)
      inv = np.linalg.inv(jac)                     # d r_i / d x_j
      gx = np.einsum('iqn,qji->jqn', self.g, inv)
      self.per_element.append((self.w * det, gx))
      self.x.append(self.v @ xe)


def operators(d):
  """Forms with one open place, by name, in the language of the repository."""
  return {
      'mass': lambda u, v: (lambda x: u(x) * v(x)),
      'stiff': lambda u, v: (lambda x: jnp.dot(fe.grad(u)(x), fe.grad(v)(x))),
      'convect': lambda u, v: (lambda x: (1. + x[0]) * fe.grad(u)(x)[-1] * v(x)),
  }


def element_matrices(ref, e):
  w, g = ref.per_element[e]
  v, x = ref.v, ref.x[e]
  return {
      'mass': np.einsum('q,qm,qn->mn', w, v, v),
      'stiff': np.einsum('q,jqm,jqn->mn', w, g, g),
      'convect': np.einsum('q,q,qn,qm->mn', w, 1. + x[:, 0], g[-1], v),
  }


@functools.lru_cache(maxsize=None)
def compiled(nq, d, axis):
  quad = Quadrature1D.create(nq, NodeType.GAUSS_LEGENDRE)

  def fn(mesh, us, uvec):
    space = fe.FiniteElementSpace.create(mesh, quad)
    out = {}
    for name, form in operators(d).items():
      def apply(u, form=form):
        cov = space.local_covector(
            form, (space.scalar_function(mesh.gather(u)),
                   space.scalar_function(None)))
        return mesh.exchange(mesh.scatter(cov))
      out[name] = jax.vmap(apply)(us)
    gather_vec = jax.vmap(mesh.gather, in_axes=-1, out_axes=-1)

    def apply_div(u):
      # the divergence of the vector function tested with a scalar one
      cov = space.local_covector(
          lambda u, p: (lambda x: fe.div(u)(x) * p(x)),
          (space.vector_function(gather_vec(u)), space.scalar_function(None)))
      return mesh.exchange(mesh.scatter(cov))
    out['div'] = jax.vmap(apply_div)(uvec)

    def apply_divt(p):
      cov = space.local_covector(
          lambda u, p: (lambda x: fe.div(u)(x) * p(x)),
          (space.vector_function(None), space.scalar_function(mesh.gather(p))))
      f = lambda c: mesh.exchange(mesh.scatter(c))
      return jax.vmap(f, in_axes=-1, out_axes=-1)(cov)
    out['divt'] = jax.vmap(apply_divt)(us)
    ints = [space.integrate(lambda x: jnp.ones(())),
            space.integrate(lambda x: x[0] * x[-1] + 2.),
            space.integrate(lambda x: jnp.exp(x[0]))]
    out['int'] = jnp.stack(ints)
    out['int nodal'] = jax.vmap(
        lambda u: space.integrate(space.scalar_function(mesh.gather(u))))(us)
    return out
  return jax.jit(fn) if axis is None else jax.pmap(fn, axis_name=axis)


def run(ctx, a):
  pm, nparts = make(a['mesh'])
  d, nq = pm.ndim, pm.gridpoints_1d.num_points + 1
  ref = Reference(pm, nq)
  label = meshes.classes(pm.num_nodes, pm.periodic_links)
  dofs = sorted(set(label.tolist()))
  dof = np.array([dofs.index(l) for l in label.tolist()])
  nd = len(dofs)
  # the model: contributions of the elements
  contrib = []
  for e, el in enumerate(pm.elements):
    m = element_matrices(ref, e)
    s = np.zeros((len(el), nd))
    s[np.arange(len(el)), dof[el]] = 1
    w, g = ref.per_element[e]
    x = ref.x[e]
    c = {k: s.T @ v @ s for k, v in m.items()}
    dv = np.einsum('q,qm,kqn->mkn', w, ref.v, g)
    c['div'] = np.einsum('mkn,ma,nb->akb', dv, s, s)
    c['int'] = np.array([w.sum(), w @ (x[:, 0] * x[:, -1] + 2.),
                         w @ np.exp(x[:, 0])])
    c['int nodal'] = (w @ ref.v) @ s
    contrib.append(c)
  whole = {k: sum(c[k] for c in contrib) for k in contrib[0]}
  scale = {k: np.abs(v).max() for k, v in whole.items()}

  def compare(mesh, ids, out, tag):
    """out: leading axis of partitions. ids: dof of each local node or -1."""
    for p in range(len(ids)):
      real = ids[p] >= 0
      j = ids[p][real]
      for name in ('mass', 'stiff', 'convect'):
        ctx.close(out[name][p][:, real].T, whole[name][j], 1e-10 * scale[name],
                  f'{tag}: {name} in partition {p}')
      ctx.close(out['div'][p][:, real].T,
                whole['div'][j].reshape(len(j), d * nd), 1e-10 * scale['div'],
                f'{tag}: div in partition {p}')
      # out[b, node, k] = sum over m of D[b, k, node]
      ctx.close(out['divt'][p][:, real], whole['div'].transpose(0, 2, 1)[:, j],
                1e-10 * scale['div'], f'{tag}: transpose of div in {p}')
    for name in ('int', 'int nodal'):
      ctx.close(out[name].sum(0), whole[name], 1e-10 * scale[name],
                f'{tag}: {name}')

  def inputs(ids):
    """Unit vectors of all degrees of freedom as local values."""
    us = np.zeros((len(ids), nd) + ids[0].shape)
    for p, row in enumerate(ids):
      for b in range(nd):
        us[p, b] = (row == b)
    uvec = np.zeros((len(ids), d, nd) + ids[0].shape + (d,))
    for k in range(d):
      uvec[:, k, ..., k] = us
    return us, uvec.reshape((len(ids), d * nd) + ids[0].shape + (d,))

  part, of = a['part']
  if part == 0:
    with ctx.case(dict(mesh=a['mesh'], assign=None)):
      mesh = pm.finalize()
      us, uvec = inputs(dof[None])
      out = jax.tree.map(lambda x: np.asarray(x)[None],
                         compiled(nq, d, None)(mesh, us[0], uvec[0]))
      compare(mesh, dof[None], out, 'unpartitioned')
      ctx.trace()
      ctx.evaluated(True)
  coords = {tuple(c): k for k, c in enumerate(pm.node_coords)}
  for k, assign in enumerate(itertools.product(range(nparts),
                                               repeat=pm.num_elements)):
    if k % of != part or duplicates_in_partition(pm, label, assign):
      continue
    with ctx.case(dict(mesh=a['mesh'], assign=assign)):
      done = np.zeros(nparts)
      for e, p in enumerate(assign):
        done[p] += contrib[e]['int'][0]
        ctx.state(a['mesh'], tuple(np.round(done, 9)))
        ctx.transition()
      m = pm.replace(partitions=np.array(assign, np.int32))
      mesh = m.finalize('p')
      names = np.asarray(mesh.node_indices)
      xyz = np.asarray(mesh.node_coords)
      ids = np.array([[dof[coords[tuple(xyz[p, i])]] if names[p, i] >= 0 else -1
                       for i in range(names.shape[1])]
                      for p in range(names.shape[0])])
      us, uvec = inputs(ids)
      out = jax.tree.map(np.asarray, compiled(nq, d, 'p')(mesh, us, uvec))
      compare(mesh, ids, out, 'partitioned')
      ctx.trace()
      ctx.evaluated(len(set(assign)) > 1)
      if len(set(assign)) > 1:
        ctx.sample(f'{a["mesh"]}: elements to partitions {list(assign)}')
