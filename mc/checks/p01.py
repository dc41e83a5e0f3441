"""P01: the Poisson solver returns the discrete solution."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from mc import isomesh
from mc import meshes
from mc.checks.g03 import shuffled
from swirl_fem.core.interpolation import Nodes1D, NodeType
from swirl_fem.core.mesh_refiner import refine_premesh
from swirl_fem.examples.poisson import BCType, solve_poisson

LEVEL = 'model_checking'
RULE = ('All assignments of Dirichlet, Neumann or no condition to the boundary '
        'groups of small meshes (with at least one Dirichlet group), in '
        'several orders, geometries and listings; for each the solutions for a '
        'complete basis of forcings are compared with those of the system '
        'assembled and solved by numpy. A state is an assignment on a mesh '
        'listing, a transition sets the condition of one group, a trace is a '
        'run of the real solver. All boundary values of an alphabet of '
        'unsupported ones have to be rejected for every group and type.')
ASSUMPTIONS = ['64 bit arithmetic, solver tolerance 1e-12, result to 1e-8.',
               'Meshes without periodic links, as the solver documents no '
               'exchange; every component has a Dirichlet node.']

# shape, points per direction, geometry, listing
MESHES = {
    '1d 1': ((4,), 2, 2, 0),
    '1d 3': ((3,), 4, 2, 1),
    '2d 1': ((2, 2), 2, 2, 1),
    '2d 2': ((2, 1), 3, 1, 2),
    '2d 3': ((2, 2), 4, 2, 3),
    '3d 1': ((2, 1, 2), 2, 2, 2),
}
THOROUGH = {
    '1d 6': ((4,), 7, 2, 2),
    '2d 5': ((2, 2), 6, 2, 2),
    '2d 2 more': ((3, 2), 3, 2, 3),
    '3d 2': ((2, 1, 1), 3, 1, 1),
    '3d 3': ((1, 2, 1), 4, 2, 2),
}
LISTED = {'1d': ((3,), 3), '2d': ((2, 1), 3), '3d': ((2, 1, 1), 2)}


def assignments(groups, tier):
  """All ways to set the groups; equivalent spellings of none alternate."""
  for k, kinds in enumerate(itertools.product((0, 1), repeat=len(groups))):
    if not any(kinds):
      continue
    yield k, kinds


def jobs(tier):
  out = []
  for name, (shape, *_) in dict(
      MESHES, **(THOROUGH if tier != 'quick' else {})).items():
    total = 4**len(shape)
    of = {1: 1, 2: 1, 3: 4}[len(shape)] if tier == 'quick' else {
        1: 1, 2: 3, 3: 8}[len(shape)]
    for k in range(of):
      out.append(dict(name=f'conditions {name} {k}', x64=True,
                      cost=total / of, args=dict(mesh=name, part=(k, of))))
  for name in LISTED:
    of = {'1d': 1, '2d': 3, '3d': 3}[name] * (1 if tier == 'quick' else 4)
    for k in range(of):
      out.append(dict(name=f'listings {name} {k}', x64=True, cost=20,
                      args=dict(listed=name, part=(k, of))))
  out.append(dict(name='values', x64=True, cost=10, args=dict(values=1)))
  return out


def premesh(shape, num, how, listing):
  n = int(np.prod([s + 1 for s in shape]))
  m = int(np.prod(shape))
  d = len(shape)
  turns = [p for p, det in meshes.symmetries(d) if det == 1]
  kw = {}
  if listing >= 1:
    kw['numbering'] = shuffled(n, 1 + 2 * listing) if np.gcd(
        n, 1 + 2 * listing) == 1 else list(reversed(range(n)))
  if listing >= 2:
    kw['orient'] = [turns[(3 * e + 1) % len(turns)] for e in range(m)]
  if listing >= 3:
    kw['order'] = list(reversed(range(m)))
  c = meshes.structured(shape, (), how, **kw)
  return refine_premesh(c.premesh(), Nodes1D.create(
      num, NodeType.GAUSS_LOBATTO_LEGENDRE))


def system(pm):
  """Stiffness and mass matrices."""
  d, num = pm.ndim, pm.gridpoints_1d.num_points
  t = isomesh.Tables(d, np.asarray(pm.gridpoints_1d.node_values),
                     *isomesh.points(num - 1 + (d + 1) // 2, 'GAUSS_LEGENDRE'))
  n = pm.num_nodes
  k, m = np.zeros((n, n)), np.zeros((n, n))
  for el in np.asarray(pm.elements):
    w, g, _ = t.element(np.asarray(pm.node_coords)[el])
    assert (w > 0).all()
    at = np.ix_(el, el)
    k[at] += np.einsum('q,jqm,jqn->mn', w, g, g)
    m[at] += np.einsum('q,qm,qn->mn', w, t.v, t.v)
  return k, m


def expected(k, m, fixed):
  """The solution for all unit forcings: [node, forcing]."""
  free = ~fixed
  out = np.zeros_like(k)
  out[free] = np.linalg.solve(k[np.ix_(free, free)], m[free])
  return out


def conditions(groups, kinds, spelling):
  bc = {}
  for i, (g, dirichlet) in enumerate(zip(groups, kinds)):
    zero = (0., 0, np.float32(0), -0.)[(i + spelling) % 4]
    if dirichlet:
      bc[g] = (BCType.DIRICHLET, zero)
    elif (i + spelling) % 2:
      bc[g] = (BCType.NEUMANN, zero)
  if spelling % 3 == 0:
    bc = dict(reversed(bc.items()))
  return bc


def conditions_job(ctx, name, part, of):
  pm = premesh(*dict(MESHES, **THOROUGH)[name])
  k, m = system(pm)
  mesh = pm.finalize()
  groups = sorted(pm.physical_groups)
  basis = np.eye(pm.num_nodes)
  for i, kinds in assignments(groups, ctx.tier):
    if i % of != part:
      continue
    with ctx.case(dict(mesh=name, dirichlet=[g for g, x in zip(
        groups, kinds) if x], spelling=i)):
      fixed = np.zeros(pm.num_nodes, bool)
      for g, x in zip(groups, kinds):
        if x:
          fixed[np.asarray(pm.physical_groups[g]).reshape(-1)] = True
        ctx.transition()
      want = expected(k, m, fixed)
      bc = conditions(groups, kinds, i)
      got = np.asarray(jax.vmap(lambda f: solve_poisson(
          mesh, f, bc, rtol=1e-12))(jnp.asarray(basis))).T
      ctx.check(not got[fixed].any(), 'value on the Dirichlet boundary')
      ctx.close(got, want, 1e-8 * np.abs(want).max(), 'solution')
      # linear in the forcing, to the tolerance asked for
      f = np.cos(np.arange(pm.num_nodes) * 1.7) + .5
      b = np.where(fixed, 0, m @ f)
      size = np.linalg.norm(b)
      for rtol, atol in ((1e-5, 0.), (1e-3, 0.), (1e-9, 1e-2 * size)):
        u = np.asarray(solve_poisson(mesh, jnp.asarray(f), bc, rtol, atol))
        r = np.where(fixed, 0, k @ u) - b
        ctx.check(np.linalg.norm(r) <= 1.0001 * max(rtol * size, atol),
                  'residual', np.linalg.norm(r), rtol * size, atol)
        ctx.check(not u[fixed].any(), 'value on the Dirichlet boundary')
      ctx.state('conditions', name, kinds)
      ctx.trace()
      ctx.evaluated(True)
      ctx.sample(f'{name}: {bc}')


def listings_job(ctx, name, part, of):
  """The same solution for every way to list the mesh."""
  shape, num = LISTED[name]
  d = len(shape)
  n, m = int(np.prod([s + 1 for s in shape])), int(np.prod(shape))
  turns = [p for p, det in meshes.symmetries(d) if det == 1]
  pairs = list(itertools.combinations(range(n), 2))
  numberings = [None, list(reversed(range(n)))]
  for i, j in pairs[::1 if not ctx.quick else 3]:
    p = list(range(n))
    p[i], p[j] = j, i
    numberings.append(p)
  todo = []
  orients = list(itertools.product(range(len(turns)), repeat=m))
  if d == 3 and ctx.quick:
    orients = orients[::23]
  for k, o in enumerate(orients):
    todo.append((numberings[k % len(numberings)], o, k % 2))
  for k, p in enumerate(numberings):
    todo.append((p, orients[(5 * k) % len(orients)], k % 2))
  ref = None
  for i, (p, o, rev) in enumerate(todo):
    if i % of != part:
      continue
    order = list(range(m))[::-1] if rev else list(range(m))
    with ctx.case(dict(mesh=name, numbers=p, turns=o, order=order)):
      c = meshes.structured(shape, (), 2, numbering=p,
                            orient=[turns[k] for k in o], order=order)
      pm = refine_premesh(c.premesh(), Nodes1D.create(
          num, NodeType.GAUSS_LOBATTO_LEGENDRE))
      xyz = np.asarray(pm.node_coords)
      if ref is None:
        base = refine_premesh(meshes.structured(shape, (), 2).premesh(),
                              Nodes1D.create(
                                  num, NodeType.GAUSS_LOBATTO_LEGENDRE))
        kk, mm = system(base)
        fixed = np.zeros(base.num_nodes, bool)
        names = sorted(base.physical_groups)[:2]
        fixed[np.asarray(base.physical_groups[names[0]]).reshape(-1)] = True
        bx = np.asarray(base.node_coords)
        f0 = np.cos(7 * bx @ np.arange(1, d + 1)) + .5
        ref = (bx, expected(kk, mm, fixed) @ f0)
      bc = {names[0]: (BCType.DIRICHLET, 0.), names[1]: (BCType.NEUMANN, 0.)}
      f = np.cos(7 * xyz @ np.arange(1, d + 1)) + .5
      u = np.asarray(solve_poisson(pm.finalize(), jnp.asarray(f), bc, 1e-12))
      dist = np.abs(xyz[:, None] - ref[0][None]).max(-1)
      at = dist.argmin(1)
      ctx.check(dist.min(1).max() < 1e-9 and len(set(at.tolist())) == len(at),
                'nodes')
      ctx.close(u, ref[1][at], 1e-8 * np.abs(ref[1]).max(), 'solution')
      ctx.state('listing', name, p, o, rev)
      ctx.transition(m + 1)
      ctx.trace()
      ctx.evaluated(i > 0)
      ctx.sample(f'{name}: numbers {p}, corners {o}')


def values_job(ctx):
  pm = premesh((2, 1), 3, 1, 1)
  mesh = pm.finalize()
  f = jnp.ones(pm.num_nodes)
  k, m = system(pm)
  bad = {'one': 1., 'small': 1e-300, 'negative': -2, 'nan': float('nan'),
         'inf': float('inf'), 'true': True, 'float32': np.float32(.5),
         'array': np.ones(3), 'jax array': jnp.ones(3),
         'function': lambda x: x[0], 'none': None, 'list': [1.]}
  groups = sorted(pm.physical_groups)
  for g, other in itertools.permutations(groups, 2):
    for kind in BCType:
      for name, value in bad.items():
        with ctx.case(dict(group=g, kind=kind.name, value=name, other=other)):
          bc = {other: (BCType.DIRICHLET, 0.), g: (kind, value)}
          for b in (bc, dict(reversed(bc.items()))):
            try:
              solve_poisson(mesh, f, b)
            except NotImplementedError:
              pass
            else:
              ctx.fail('accepted')
          ctx.state('value', g, kind.name, name, other)
          ctx.trace()
          ctx.transition()
          ctx.evaluated(True)


def run(ctx, a):
  if 'values' in a:
    values_job(ctx)
  elif 'listed' in a:
    listings_job(ctx, a['listed'], *a['part'])
  else:
    conditions_job(ctx, a['mesh'], *a['part'])
