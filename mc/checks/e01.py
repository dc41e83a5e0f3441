"""E01: integrals and gradients on a mesh are those of the function."""
import functools
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from mc import isomesh
from swirl_fem.core import fespace as fe
from swirl_fem.core.interpolation import Nodes1D, NodeType, Quadrature1D

LEVEL = 'model_checking'
RULE = ('Explicit-state exploration of the listings of a mesh: a state is a '
        'mesh with its node numbers, element order and first corners, a '
        'transition renumbers two nodes, exchanges two elements or rotates an '
        'element, a trace is a listing given to the real finite element space. '
        'In every state all integrals of values, gradients and divergences of '
        'a complete basis must be those of the initial listing computed with '
        'numpy. Besides, for every combination of dimension, order, node type, '
        'quadrature and geometry within bounds: the integrals of every basis '
        'function of every element (with its derivatives, weighted with '
        'functions of position and with all other basis functions), and their '
        'exactness for all monomials that the element represents.')
ASSUMPTIONS = ['64 bit arithmetic, 1e-10 relative; 32 bit with 2e-4.',
               'Elements are positively oriented and not degenerate.']

NC, GL, GLL = 'NEWTON_COTES', 'GAUSS_LEGENDRE', 'GAUSS_LOBATTO_LEGENDRE'


def configurations(tier):
  out = []
  top = {1: 6, 2: 5, 3: 3} if tier == 'quick' else {1: 10, 2: 7, 3: 5}
  for d, shape in ((1, (3,)), (2, (2, 2)), (3, (2, 1, 1))):
    for num in range(2, top[d] + 1):
      for kind in (GLL, NC, GL):
        if kind == NC and num > 7:
          continue
        quads = sorted({(num + 1, GL), (num, kind), (num, GLL), (2, GL),
                        (num + 2, GLL), (1, GL), (4, NC)})
        if tier == 'quick' and d == 3:
          quads = [(num + 1, GL), (num, kind), (1, GL), (4, NC)]
        for q in dict.fromkeys(quads):
          out.append((shape, num, kind, q))
  return out


LISTINGS = {
    # shape, points, kind, geometry, quadrature, moves explored
    '1d': ((3,), 2, NC, 'curved', (3, GL), 'all numbers'),
    '1d o2': ((2,), 3, GLL, 'curved', (4, GL), 'all numbers'),
    '2d 2': ((2, 1), 2, NC, 'multilinear', (3, GL), 'all numbers'),
    '2d 1': ((1, 1), 2, NC, 'multilinear', (2, GLL), 'all'),
    '2d 2x2': ((2, 2), 2, NC, 'multilinear', (3, GL), 'corners'),
    '2d o2': ((2, 2), 3, GLL, 'curved', (4, GL), 'corners'),
    '2d gl': ((2, 1), 3, GL, 'curved', (4, GL), 'corners'),
    '2d o3 pairs': ((2, 1), 4, GLL, 'curved', (5, GL), 'pairs'),
    '3d 1': ((1, 1, 1), 2, NC, 'multilinear', (3, GL), 'all but numbers'),
    '3d 2': ((2, 1, 1), 2, NC, 'multilinear', (3, GL), 'corners'),
    '3d pairs': ((2, 1, 1), 3, GLL, 'curved', (3, GL), 'pairs'),
}
MORE = {
    '2d 2 all': ((2, 1), 2, NC, 'multilinear', (3, GL), 'all'),
    '2d 3 corners': ((3, 1), 3, NC, 'curved', (3, GLL), 'corners'),
    '3d o2 corners': ((2, 1, 1), 3, GLL, 'curved', (4, GL), 'corners'),
    '2d 2x2 pairs': ((2, 2), 4, GLL, 'curved', (5, GL), 'pairs'),
    '3d 1 pairs': ((1, 1, 1), 4, GLL, 'curved', (4, GL), 'pairs'),
    '1d 6': ((6,), 2, NC, 'curved', (2, GL), 'all numbers'),
}


def listings(name, iso):
  """States as (numbering, orientation per element, order of elements)."""
  moves = dict(LISTINGS, **MORE)[name][-1]
  n, m = len(iso.coords), len(iso.elements)
  ident = tuple(range(n))
  turns = isomesh.rotations(iso.d)
  swaps = [ident]
  for i, j in itertools.combinations(range(n), 2):
    p = list(ident)
    p[i], p[j] = j, i
    swaps.append(tuple(p))
  cyc = [tuple((k * s + t) % n for k in range(n))
         for s in range(1, n) if np.gcd(s, n) == 1 for t in (0, 1, n // 2)]
  orders = list(itertools.permutations(range(m)))
  same = (0,) * m
  if moves == 'all numbers':
    yield from itertools.product(itertools.permutations(range(n)), [same],
                                 [orders[0], orders[-1]])
  if moves == 'all':
    yield from itertools.product(
        itertools.permutations(range(n)),
        itertools.product(range(len(turns)), repeat=m), orders)
  if moves == 'all but numbers':
    yield from itertools.product(
        swaps, itertools.product(range(len(turns)), repeat=m), orders)
  if moves == 'corners':
    yield from itertools.product(
        cyc[:1] + cyc[-1:], itertools.product(range(len(turns)), repeat=m),
        orders[:1] + orders[-1:])
  if moves == 'pairs':
    yield from itertools.product(swaps + cyc, [same, (1,) + same[1:],
                                               (len(turns) - 1,) * m],
                                 orders[:1] + orders[-1:])


def jobs(tier):
  out = []
  of = 8 if tier == 'quick' else 24
  for k in range(of):
    out.append(dict(name=f'pointwise {k}', x64=True, cost=100,
                    args=dict(part=(k, of))))
  out.append(dict(name='pointwise f32', x64=False, cost=20, args=dict(f32=1)))
  for name in list(LISTINGS) + ([] if tier == 'quick' else list(MORE)):
    shape, num, kind, how, _, _ = dict(LISTINGS, **MORE)[name]
    total = sum(1 for _ in listings(name, isomesh.build(shape, num, kind, how)))
    of2 = max(1, round(total / 1000))
    for k in range(of2):
      out.append(dict(name=f'listing {name} {k}', x64=True,
                      cost=total / of2 * .02,
                      args=dict(listing=name, part=(k, of2))))
  return out


# -- functions of position, in the repository's and in numpy's language --------
def weights(d, xp):
  return [lambda x: x[0] * 0 + 1., lambda x: 1. + x[0],
          lambda x: xp.exp(-x[0] * x[d - 1] / 2.)]


def plain(d, xp):
  return weights(d, xp) + [lambda x: x[d - 1]**2 * x[0], lambda x: xp.sin(
      3 * x[d - 1]) + 2.]


def plain_grads(d):
  """Sum of (j + 1) times the derivative in direction j, by hand."""
  def first(x):
    g = [0.] * d
    g[0] += x[d - 1]**2
    g[d - 1] += 2 * x[d - 1] * x[0]
    return sum((j + 1.) * g[j] for j in range(d))
  return [lambda x: x[0] * 0, lambda x: x[0] * 0 + 1.,
          lambda x: -np.exp(-x[0] * x[d - 1] / 2.) / 2 * (
              x[d - 1] + d * x[0]), first,
          lambda x: d * 3 * np.cos(3 * x[d - 1])]


def coefficient(d, xp, x):
  """A matrix of distinct functions of position."""
  return [[(1. + j + 3 * k) + (x[0] if j > k else x[d - 1] * .5)
           for k in range(d)] for j in range(d)]


@functools.lru_cache(maxsize=None)
def compiled(d, quad, listing):
  quadrature = Quadrature1D.create(quad[0], NodeType[quad[1]])

  def fn(mesh, us):
    space = fe.FiniteElementSpace.create(mesh, quadrature)
    gs = weights(d, jnp)
    if listing:
      us = jax.vmap(mesh.gather)(us)

    def scalar(ul):
      u = space.scalar_function(ul)
      out = {'u': jnp.stack([space.integrate(lambda x, g=g: u(x) * g(x))
                             for g in gs])}
      du = fe.grad(u)
      out['grad'] = jnp.stack([jnp.stack([space.integrate(
          lambda x, g=g, j=j: du(x)[j] * g(x)) for g in gs])
                               for j in range(d)])
      return out
    out = jax.vmap(scalar)(us)

    def vector(k, ul):
      u = space.vector_function(jnp.zeros(ul.shape + (d,)).at[..., k].set(ul))
      return jnp.stack([
          space.integrate(lambda x: jnp.dot(u(x), jnp.array([2., 3., 5.])[:d])
                          * gs[1](x)),
          space.integrate(lambda x: fe.div(u)(x) * gs[2](x)),
          space.integrate(lambda x: jnp.sum(
              jnp.stack([jnp.stack(r) for r in coefficient(d, jnp, x)])
              * fe.grad(u)(x)))])
    out['vector'] = jax.vmap(
        lambda ul: jnp.stack([vector(k, ul) for k in range(d)]))(us)
    if not listing:
      # with every other basis function
      npe = mesh.num_nodes_per_element
      vs = jnp.broadcast_to(jnp.eye(npe)[:, None], (
          npe, mesh.num_elements, npe))

      def pair(ul, vl):
        u, v = space.scalar_function(ul), space.scalar_function(vl)
        return jnp.stack([space.integrate(
            lambda x, j=j: fe.grad(u)(x)[j] * v(x)) for j in range(d)])
      out['pair'] = jax.vmap(lambda ul: jax.vmap(
          lambda vl: pair(ul, vl))(vs))(us)
    out['plain'] = jnp.stack([space.integrate(f) for f in plain(d, jnp)])
    c = jnp.arange(1., d + 1)
    out['plain grad'] = jnp.stack([space.integrate(
        lambda x, f=f: jnp.dot(fe.grad(f)(x), c)) for f in plain(d, jnp)])
    return out
  return jax.jit(fn)


def reference(iso, quad, exact_plain=False):
  """The same per element and local basis function."""
  d = iso.d
  t = isomesh.Tables(d, iso.pts, *isomesh.points(*quad))
  out = {k: [] for k in ('u', 'grad', 'vector', 'pair')}
  plains, pgrads, vol = 0, 0, []
  gs = weights(d, np)
  for el in iso.elements:
    w, g, x = t.element(iso.coords[el])
    assert (w > 0).all()
    xs = list(x.T)
    gq = np.stack([f(xs) for f in gs])
    out['u'].append(np.einsum('q,qn,iq->ni', w, t.v, gq))
    out['grad'].append(np.einsum('q,jqn,iq->nji', w, g, gq))
    c = np.array([2., 3., 5.])[:d]
    cm = np.array(np.broadcast_arrays(*sum(coefficient(d, np, xs), []))).reshape(
        (d, d, -1))
    out['vector'].append(np.stack([
        np.einsum('q,qn,k,q->nk', w, t.v, c, gq[1]),
        np.einsum('q,kqn,q->nk', w, g, gq[2]),
        np.einsum('q,jqn,jkq->nk', w, g, cm)], -1))
    out['pair'].append(np.einsum('q,jqn,qm->nmj', w, g, t.v))
    plains += np.array([w @ f(xs) for f in plain(d, np)])
    pgrads += np.array([w @ f(xs) for f in plain_grads(d)])
    vol.append(w.sum())
  out = {k: np.stack(v) for k, v in out.items()}
  return out, plains, pgrads


def to_nodes(iso, a):
  """Sums of the values per element and local node by node."""
  out = np.zeros((len(iso.coords),) + a.shape[2:])
  np.add.at(out, iso.elements, a)
  return out


def exactness(ctx, iso, how, quad, got, scale, tol):
  """got: the computed integrals by element and local node."""
  d, order = iso.d, len(iso.pts) - 1
  curved = how == 'curved' and not (d == 1 and order == 1)
  fine = isomesh.Tables(d, iso.pts, *isomesh.points(14, GL))
  own = isomesh.Tables(d, iso.pts, *isomesh.points(*quad))
  for power in itertools.product(range(order + 1), repeat=d):
    total = sum(power)
    if total > (1 if curved else order):
      continue
    mono = lambda x: np.prod([x[:, k]**power[k] for k in range(d)], axis=0)

    def dmono(x, j):
      if not power[j]:
        return np.zeros(len(x))
      return np.prod([x[:, k]**(power[k] - (k == j)) for k in range(d)],
                     axis=0) * power[j]
    per = {'box': (1, 0), 'affine': (1, 0), 'multilinear': (1, d - 1),
           'curved': (order, d * order - 1)}[how]
    # the second weight is 1 + x_0
    deg = per[0] * (total + 1) + per[1]
    if how == 'multilinear' and d == 1:
      deg = total + 1
    exact = deg <= isomesh.degree(*quad)
    t = fine if exact else own
    want = np.zeros(len(iso.elements))
    wantg = np.zeros((len(iso.elements), d))
    for e, el in enumerate(iso.elements):
      w, _, x = t.element(iso.coords[el])
      want[e] = w @ (mono(x) * (1 + x[:, 0]))
      wantg[e] = [w @ (dmono(x, j) * (1 + x[:, 0])) for j in range(d)]
    val = np.stack([mono(iso.coords[el]) for el in iso.elements])
    tag = f'x^{power} on a {how} element ({"exact" if exact else "interpolated"})'
    ctx.close(np.einsum('en,en->e', got['u'][..., 1], val), want,
              tol * scale, 'integral of ' + tag)
    ctx.close(np.einsum('enj,en->ej', got['grad'][..., 1], val), wantg,
              tol * scale, 'gradient of ' + tag)
    ctx.evaluated(True)
    ctx.count('exactness')


def pointwise(ctx, conf, how, tol, dtype):
  shape, num, kind, quad = conf
  iso = isomesh.build(shape, num, kind, how)
  with ctx.case(dict(shape=shape, points=num, kind=kind, geometry=how,
                     quadrature=quad, dtype=np.dtype(dtype).name)):
    ref, plains, pgrads = reference(iso, quad)
    m, n = iso.elements.shape
    us = np.eye(m * n).reshape(m * n, m, n).astype(dtype)
    out = jax.tree.map(np.asarray, compiled(iso.d, tuple(quad), False)(
        iso.mesh(dtype), us))
    got = {k: out[k].reshape((m, n) + out[k].shape[1:]) for k in ref}
    for k in ref:
      if k == 'vector':
        got[k] = np.asarray(got[k])
      scale = max(1., np.abs(ref[k]).max())
      ctx.close(got[k], ref[k], tol * scale, f'{k} by element and basis function')
      ctx.evaluated(True, int(np.prod(ref[k].shape)))
    ctx.close(out['plain'], plains, tol * np.abs(plains).max(), 'plain')
    ctx.close(out['plain grad'], pgrads, tol * 10 * np.abs(pgrads).max(),
              'gradients of plain functions')
    exactness(ctx, iso, how, quad, got, max(
        10., np.abs(iso.coords).max()**(num)), tol * 10)
    ctx.state(shape, num, kind, tuple(quad), how, np.dtype(dtype).name)
    ctx.sample(f'{shape} elements of {num} {kind} points, {how}, quadrature '
               f'{quad}')


def run(ctx, a):
  if 'f32' in a:
    for conf in [((3,), 3, GLL, (4, GL)), ((2, 2), 4, GLL, (5, GL)),
                 ((2, 2), 2, NC, (2, GL)), ((2, 1, 1), 3, GLL, (3, GLL))]:
      for how in isomesh.GEOMETRIES:
        pointwise(ctx, conf, how, 2e-4, np.float32)
    return
  if 'listing' not in a:
    part, of = a['part']
    confs = configurations(ctx.tier)
    confs.sort(key=lambda c: -(c[1] ** len(c[0])))
    for conf in confs[part::of]:
      for how in isomesh.GEOMETRIES:
        pointwise(ctx, conf, how, 1e-10, np.float64)
    return
  name = a['listing']
  shape, num, kind, how, quad, _ = dict(LISTINGS, **MORE)[name]
  iso = isomesh.build(shape, num, kind, how)
  ref, plains, pgrads = reference(iso, quad)
  nodal = {k: to_nodes(iso, ref[k]) for k in ('u', 'grad', 'vector')}
  scale = {k: np.abs(v).max() for k, v in nodal.items()}
  turns = isomesh.rotations(iso.d)
  fn = compiled(iso.d, quad, True)
  us = np.eye(len(iso.coords))
  part, of = a['part']
  for i, (perm, turned, order) in enumerate(listings(name, iso)):
    if i % of != part:
      continue
    with ctx.case(dict(listing=name, numbers=perm, turns=turned, order=order)):
      it = iso
      for e, k in enumerate(turned):
        it = it.turn(e, turns[k])
      it = it.renumber(perm).reorder(order)
      out = jax.tree.map(np.asarray, fn(it.mesh(), us))
      for k in nodal:
        ctx.close(out[k][list(perm)], nodal[k], 1e-10 * scale[k],
                  f'{k} by node of the initial listing')
      ctx.close(out['plain'], plains, 1e-10 * np.abs(plains).max(), 'plain')
      ctx.close(out['plain grad'], pgrads, 1e-10 * np.abs(pgrads).max(),
                'gradients of plain functions')
      ctx.state(name, perm, turned, order)
      ctx.transition(len(turned) + 1 + len(perm))
      ctx.trace()
      ctx.evaluated(i > 0)
      ctx.sample(f'{name}: numbers {perm}, rotations {turned}, order {order}')
