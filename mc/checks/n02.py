"""N02: discrete flow operators keep the structure of the continuous ones."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from mc import flow

LEVEL = 'model_checking'
RULE = ('All combinations, within bounds, of mesh (1D, 2D, 3D; geometry; '
        'listing), periodic directions, Dirichlet groups and order; for each '
        'the full matrices of mass, inverse mass, stiffness, divergence and '
        'pressure gradient from a complete basis, against integrals computed '
        'with numpy, and the convection operator for all pairs of basis '
        'functions against its trilinear form. A state is a configuration '
        'with an operator; a transition is a basis function (or pair) given '
        'to the real operator; a trace is a configuration.')
ASSUMPTIONS = ['64 bit arithmetic, 1e-10 relative.',
               'Positively oriented elements; order at least two.']


def configurations(tier):
  out = []
  groups = {1: 'x', 2: 'xy', 3: 'xyz'}
  for shape in ((3,), (2, 2), (2, 2, 1)):
    d = len(shape)
    per = [p for k in range(d + 1)
           for p in itertools.combinations(range(d), k)
           if all(shape[i] > 1 for i in p)]
    for periodic in per:
      names = [g + s for i, g in enumerate(groups[d]) if i not in periodic
               for s in '01']
      subsets = [()] + [(g,) for g in names] + [tuple(names)] + [
          tuple(names[::2]), tuple(names[1:])]
      if tier != 'quick' and d < 3:
        subsets = [s for k in range(len(names) + 1)
                   for s in itertools.combinations(names, k)]
      subsets = list(dict.fromkeys(subsets))
      if d == 3 and tier == 'quick':
        subsets = subsets[::4]
      orders = {1: (2, 3, 5), 2: (2, 3), 3: (2,)}[d]
      if tier != 'quick':
        orders = {1: (2, 3, 4, 5, 6, 8), 2: (2, 3, 4, 5), 3: (2, 3)}[d]
      for i, (s, order) in enumerate(itertools.product(subsets, orders)):
        if d == 3 and order == 3 and i % 5:
          continue
        if d == 2 and order > 3 and i % 3:
          continue
        out.append((shape, periodic, i % 3 if d > 1 else 2 * (i % 2), i % 4, s,
                    order))
  return out


def jobs(tier):
  confs = configurations(tier)
  out = []
  of = 16 if tier == 'quick' else 64
  for k in range(of):
    mine = confs[k::of]
    out.append(dict(name=f'part {k}', x64=True, cost=sum(
        c[-1]**len(c[0]) for c in mine), args=dict(part=(k, of))))
  return out


def run(ctx, a):
  part, of = a['part']
  for conf in configurations(ctx.tier)[part::of]:
    with ctx.case(dict(zip(('shape', 'periodic', 'geometry', 'listing',
                            'dirichlet', 'order'), conf))):
      check(ctx, flow.Case(*conf), 2)
      if conf[-1] == 2 and conf[0] == (2, 2):
        check(ctx, flow.Case(*conf), 1)


def check(ctx, case, overint):
  s = flow.Flow(case, overint)
  sem, n, d = s.sem, s.n, s.d
  basis = np.zeros((n * d, n, d))
  for i in range(n):
    for k in range(d):
      basis[i * d + k, i, k] = 1
  mat = lambda f, b: np.asarray(jax.jit(jax.vmap(f))(jnp.asarray(b))).reshape(
      (len(b), -1)).T
  kinds = {}
  eye = np.eye(d)
  mask = np.repeat(s.mask, d)
  full_mass = np.repeat(s.mass, d)
  scale = lambda m: max(np.abs(m).max(), 1e-12)

  def same(name, got, want):
    ctx.close(got, want, 1e-10 * scale(want), name)
    kinds[name] = got
    ctx.state(case, overint, name)
    ctx.transition(got.shape[1])
    ctx.evaluated(True)

  same('mass', mat(sem.B, basis), np.diag(mask * full_mass))
  b = np.diag(kinds['mass'])
  ctx.check((b[mask > 0] > 0).all() and not b[mask == 0].any(),
            'mass not positive', b)
  # inverse of the assembled mass
  p = s.glue()
  inv = p @ np.diag(1 / (p.T @ s.mass)) @ p.T
  same('inverse mass', mat(sem.Bi, basis), np.kron(inv, eye))
  pv = np.kron(p, eye)
  dmask = (pv.T @ mask > 0).astype(float)
  ctx.close(kinds['inverse mass'] @ kinds['mass'] @ pv,
            pv @ np.diag(dmask), 1e-10, 'inverse mass of mass')
  k = np.kron(s.stiff, eye)
  same('stiffness', mat(sem.A, basis), mask[:, None] * k)
  local = np.asarray(jax.jit(jax.vmap(lambda u: sem.velocity.scatter(
      sem.velocity.A_local(sem.velocity.gather(u)))))(
          jnp.asarray(basis))).reshape((n * d, -1)).T
  ctx.close(local, local.T, 1e-10 * scale(k), 'symmetry')
  ctx.check(np.linalg.eigvalsh((local + local.T) / 2).min()
            > -1e-9 * scale(k), 'positive semidefinite')
  for j in range(d):
    one = np.tile(np.eye(d)[j], n)
    ctx.check(np.abs(kinds['stiffness'] @ one).max() < 1e-9 * scale(k),
              'stiffness of a constant')
  dm = s.div.reshape(s.np, n * d)
  same('divergence', mat(sem.D, basis), dm)
  pbasis = np.eye(s.np)
  same('pressure gradient', mat(sem.Dt, pbasis), mask[:, None] * dm.T)
  ctx.close(kinds['pressure gradient'], mask[:, None] * kinds['divergence'].T,
            1e-12 * scale(dm), 'transposes')
  same('pressure mass', mat(sem.pressure.B, pbasis), s.pmass)
  # Q and E of a time step
  for order in (1, 2, 3):
    beta = float(flow.bdf(order)[-1])
    dt = .25
    q = np.kron(inv, eye) * dt / beta
    e = dm @ q @ (mask[:, None] * dm.T)
    ctx.close(mat(lambda p: sem.E(p, dt, order), pbasis), e,
              1e-10 * scale(e), 'E')
  # convection: all pairs
  small = n * d <= 60
  idx = range(n * d) if small else range(0, n * d, max(1, n * d // 40))
  pairs = [(i, j) for i in idx for j in idx if i <= j and share(s, i // d, j // d)]
  stack = np.stack([basis[i] + (basis[j] if i != j else 0) for i, j in pairs])
  got = np.asarray(jax.jit(jax.vmap(sem.C))(jnp.asarray(stack)))
  top = max(np.abs(t).max() for t in s.tri)
  for (i, j), u, g in zip(pairs, stack, got):
    ctx.close(g, s.convection(u, u), 1e-10 * max(top, 1e-12) * 4,
              f'convection of basis functions {i} and {j}')
    ctx.transition()
    ctx.evaluated(True)
  u = np.cos(np.arange(n * d) * 1.3).reshape(n, d)
  want = s.convection(u, u)
  ctx.close(np.asarray(sem.C(jnp.asarray(u))), want, 1e-10 * scale(want) * 10,
            'convection')
  ctx.state(case, overint, 'convection')
  ctx.trace()
  ctx.sample(f'{case}')


def share(s, i, j):
  if i == j:
    return True
  if not hasattr(s, '_share'):
    s._share = np.zeros((s.n, s.n), bool)
    for el in s.elements:
      s._share[np.ix_(el, el)] = True
  return s._share[i, j]
