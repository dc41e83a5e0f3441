"""A01: derivatives are those of what is computed, in both modes."""
import itertools

import jax
import jax.flatten_util
import jax.numpy as jnp
import numpy as np

from mc import flow
from mc import isomesh
from mc.checks import g02
from mc.checks import n03
from mc.checks import p01

LEVEL = 'model_checking'
RULE = ('For every operator and solver within the bounds (meshes, periodic '
        'directions, boundary groups, orders, parameters; layouts of '
        'partitions; device counts) the complete matrix of derivatives is '
        'computed in forward mode from all unit tangents and in reverse mode '
        'from all unit cotangents; both have to equal the matrix of the map '
        'itself, from all unit inputs (or exact differences, for maps of '
        'degree two; or central differences for the dependence on '
        'parameters). A state is a (map, unit tangent or cotangent), a '
        'transition is one derivative, a trace is a map.')
ASSUMPTIONS = ['64 bit arithmetic for maps which involve solvers, tolerance '
               '1e-12; the crystal router and the refinement of meshes aren\'t '
               'differentiable (they work on concrete values).']


def jobs(tier):
  q = tier == 'quick'
  out = []
  for name in dict(n03.CASES, **({} if q else n03.THOROUGH)):
    out.append(dict(name=f'step {name}', x64=True, cost=20,
                    args=dict(step=name)))
    out.append(dict(name=f'operators {name}', x64=True, cost=15,
                    args=dict(operators=name)))
  for name in p01.MESHES if q else dict(p01.MESHES, **p01.THOROUGH):
    out.append(dict(name=f'poisson {name}', x64=True, cost=5,
                    args=dict(poisson=name)))
  for d in (1, 2, 3):
    out.append(dict(name=f'forms {d}', x64=True, cost=10, args=dict(forms=d)))
  out.append(dict(name='interpolation', x64=True, cost=10,
                  args=dict(interpolation=1)))
  for n in (2, 3, 4, 5) + (() if q else (6, 7, 8)):
    out.append(dict(name=f'scan {n}', devices=n, cost=5, args=dict(scan=n)))
  for P, L in ((2, 2), (2, 3), (3, 2), (4, 2)):
    out.append(dict(name=f'exchange {P}x{L}', devices=P, cost=10,
                    args=dict(exchange=(P, L))))
  return out


def run(ctx, a):
  for kind in a:
    globals()[kind](ctx, a[kind])


def rows(y):
  """One row of values for each leading index."""
  return np.concatenate([np.asarray(v).reshape((v.shape[0], -1))
                         for v in jax.tree.leaves(y)], 1)


def verify(ctx, name, f, args, degree=1, tol=1e-8, own=None, known=None):
  """`f` maps arrays to arrays; it's of degree at most two.

  All arrays are passed as arguments of what is compiled (rather than as
  constants), since XLA's constant folding gets some solver loops wrong.
  """
  x, unravel = jax.flatten_util.ravel_pytree(list(args))
  g = lambda x: jnp.concatenate([v.reshape(-1) for v in jax.tree.leaves(
      f(*unravel(x)))])
  eye = jnp.eye(x.size, dtype=x.dtype)
  if own is not None:
    want = own
  else:
    many = jax.jit(jax.vmap(g))
    at = x if degree > 1 else jnp.zeros_like(x)
    want = np.asarray(many(at + eye))
    # maps of degree one may have an offset
    want = (want - np.asarray(many(at - eye))) / 2
  fwd = np.asarray(jax.jit(jax.vmap(
      lambda x, t: jax.jvp(g, (x,), (t,))[1], in_axes=(None, 0)))(x, eye))
  out = want.shape[1]
  rev = np.asarray(jax.jit(jax.vmap(
      lambda x, c: jax.vjp(g, x)[1](c)[0], in_axes=(None, 0)))(
          x, jnp.eye(out, dtype=jax.eval_shape(g, x).dtype))).T
  scale = max(1e-30, np.abs(want).max())
  ctx.close(fwd, want, tol * scale, f'{name}: forward mode [input, output]')
  nan = np.isnan(rev)
  if known is not None and nan.any():
    # all others have to be correct, and this is reported for itself
    known.append(name)
    rev = np.where(nan, want, rev)
  ctx.close(rev, want, tol * scale, f'{name}: reverse mode [input, output]')
  for j in range(len(want)):
    ctx.state(name, 'tangent', j)
  for j in range(out):
    ctx.state(name, 'cotangent', j)
  ctx.transition(sum(want.shape))
  ctx.trace()
  ctx.evaluated(np.abs(want).max() > 0, sum(want.shape))
  ctx.sample(f'{name}: {x.size} inputs, {out} outputs')


def wave(i, shape):
  return jnp.asarray(np.cos(np.arange(np.prod(shape)) * (1.3 + i)).reshape(
      shape))


SETTINGS = [  # order in time, pressures, parameters, boundary values
    (1, 1, 0, False), (2, 2, 1, True), (1, 2, 2, True)]


def step(ctx, name):
  w = n03.world(name)
  s, sem = w.s, w.s.sem
  kw = {} if w.nullspace else dict(project_out_nullspace=False)
  for n, (k, npress, param, boundary) in enumerate(SETTINGS):
    if ctx.quick and n != list(n03.CASES).index(name) % 3:
      continue
    mu, dt, alpha = n03.PARAMS[param]
    shapes = [(s.n, s.d)] * k + [(s.np,)] * npress + [(s.n, s.d)] * (
        1 + boundary)

    def f(*args, mu=mu, dt=dt):
      ub = dict(u_boundary=args[-1]) if boundary else {}
      return sem.stokes_one_step(
          list(args[:k]), list(args[k:k + npress]), args[k + npress], mu, dt, k,
          alpha=alpha, tol=1e-12, **kw, **ub)[:2]
    with ctx.case(dict(step=name, setting=(k, npress, param, boundary))):
      verify(ctx, f'step {name} {n}', f, [jnp.zeros(x) for x in shapes],
             tol=1e-7)
    if ctx.quick and name not in ('channel', 'open'):
      continue
    with ctx.case(dict(parameters=name, setting=(k, npress, param, boundary))):
      fix = jnp.asarray(s.mask)[:, None]
      cont = lambda i: jnp.asarray((w.p @ wave(i, (s.nd * s.d,))).reshape(
          s.n, s.d)) * fix
      args = [cont(i) for i in range(k)] + [wave(9 + i, (s.np,))
                                            for i in range(npress)]
      args += [cont(20)] + [cont(21)] * boundary
      g = lambda m, t: f(*args, mu=m, dt=t)
      at = (jnp.asarray(mu), jnp.asarray(dt))
      want = []
      both = jax.jit(g)
      for h in ((mu * 1e-4, 0.), (0., dt * 1e-4)):
        hi = both(mu + h[0], dt + h[1])
        lo = both(mu - h[0], dt - h[1])
        want.append(rows(jax.tree.map(
            lambda x, y: ((x - y) / (2 * sum(h)))[None], hi, lo)))
      verify(ctx, f'parameters {name} {n}', g, at, own=np.concatenate(want),
             tol=1e-5)


def operators(ctx, name):
  s = n03.world(name).s
  sem = s.sem
  u, p = wave(1, (s.n, s.d)), wave(2, (s.np,))
  for op, arg, degree in (
      ('A', u, 1), ('B', u, 1), ('Bi', u, 1), ('D', u, 1), ('Dt', p, 1),
      ('filter', u, 1), ('C', u, 2)):
    if ctx.quick and op == 'C' and s.d == 3:
      arg = arg * .5
    with ctx.case(dict(operator=op, mesh=name)):
      verify(ctx, f'{op} on {name}', getattr(sem, op), [arg], degree)
  for k in (1, 3):
    with ctx.case(dict(operator='E', mesh=name, order=k)):
      verify(ctx, f'E {k} on {name}', lambda x: sem.E(x, .1, k), [p])
      verify(ctx, f'Q {k} on {name}', lambda x: sem.Q(x, .1, k), [u])
  with ctx.case(dict(operator='masses', mesh=name)):
    verify(ctx, f'pressure mass on {name}', sem.pressure.B, [p])
    verify(ctx, f'exchange on {name}', sem.velocity.exchange, [u])


def poisson(ctx, name):
  from swirl_fem.examples.poisson import solve_poisson
  pm = p01.premesh(*dict(p01.MESHES, **p01.THOROUGH)[name])
  mesh = pm.finalize()
  groups = sorted(pm.physical_groups)
  todo = list(p01.assignments(groups, ctx.tier))
  if ctx.quick and len(todo) > 5:
    todo = todo[::len(todo) // 5]
  nans = []
  for i, kinds in todo:
    with ctx.case(dict(poisson=name, kinds=kinds)):
      bc = p01.conditions(groups, kinds, i)
      verify(ctx, f'poisson {name} {i}',
             lambda f: solve_poisson(mesh, f, bc, rtol=1e-12),
             [jnp.zeros(pm.num_nodes)], tol=1e-7, known=nans)
  with ctx.case(f'poisson-reverse-nan:{name.replace(" ", "-")}'):
    ctx.check(not nans, 'reverse-mode derivatives contain NaN', nans)


def forms(ctx, d):
  """Integrals as functions of the nodal values, of degree up to two."""
  from swirl_fem.core.fespace import (FiniteElementSpace, div, grad)
  from swirl_fem.core.interpolation import NodeType, Quadrature1D
  for (num, kind), how in itertools.product(
      ((2, flow.GLL), (3, flow.GLL), (3, 'NEWTON_COTES')), (0, 2)):
    if d == 3 and num == 3 and how == 0 and ctx.quick:
      continue
    shape = (2,) + (1,) * (d - 1)
    coarse = flow.Case(shape, (), how, 2, 'all', 2).coarse()
    from swirl_fem.core.interpolation import Nodes1D
    from swirl_fem.core.mesh_refiner import refine_premesh
    mesh = refine_premesh(coarse.premesh(), Nodes1D.create(
        num, NodeType[kind])).finalize()
    fe = FiniteElementSpace.create(mesh, Quadrature1D.create(
        num_points=num + 1, quadrature_type=NodeType.GAUSS_LEGENDRE))
    n = mesh.num_nodes
    u, v = wave(1, (n,)), wave(2, (n, d))
    gv = lambda v: jax.vmap(mesh.gather, in_axes=-1, out_axes=-1)(v)
    scalar = lambda u: fe.scalar_function(mesh.gather(u))
    vector = lambda v: fe.vector_function(gv(v))
    over = lambda form, *fs: fe.integrate(form(*fs))
    maps = {
        'integral of u': (lambda u: over(lambda w: w, scalar(u)), [u], 1),
        'energy': (lambda u: over(
            lambda w: lambda x: jnp.vdot(grad(w)(x), grad(w)(x)) + w(x)**2,
            scalar(u)), [u], 2),
        'flux': (lambda u, v: over(
            lambda w, z: lambda x: w(x) * div(z)(x), scalar(u), vector(v)),
                 [u, v], 2),
        'advection': (lambda v: jnp.stack([over(
            lambda z: lambda x, k=k: (grad(z)(x).T @ z(x))[k], vector(v))
                                           for k in range(d)]), [v], 2),
        'covector': (lambda u: mesh.scatter(fe.local_covector(
            lambda w, t: lambda x: jnp.vdot(grad(w)(x), grad(t)(x))
            + w(x)**2 * t(x), (scalar(u), fe.scalar_function(None)))), [u], 2),
    }
    for key, (f, args, degree) in maps.items():
      with ctx.case(dict(form=key, dim=d, points=(num, kind), how=how)):
        g = f
        if jax.eval_shape(f, *args).shape == ():
          g = lambda *a, f=f: f(*a)[None]
        verify(ctx, f'{key} {d} {num} {kind} {how}', g, args, degree)


def interpolation(ctx, _):
  from swirl_fem.core.interpolation import BarycentricInterpolator
  from swirl_fem.core.interpolation import Nodes1D, NodeType
  kinds = [NodeType.GAUSS_LEGENDRE, NodeType.GAUSS_LOBATTO_LEGENDRE,
           NodeType.NEWTON_COTES]
  for d, a, b in itertools.product((1, 2, 3), kinds, kinds):
    for n, m in ((2, 3), (3, 3), (4, 2)):
      if d == 3 and n == 4 and ctx.quick:
        continue
      with ctx.case(dict(interpolation=(d, a.name, n, b.name, m))):
        it = BarycentricInterpolator(
            ndim=d, gridpoints_1d=Nodes1D.create(n, a),
            evalpoints_1d=Nodes1D.create(m, b))
        x = wave(n, (n**d,))
        verify(ctx, f'values {d} {a} {b} {n} {m}', it.interpolate, [x])
        verify(ctx, f'gradients {d} {a} {b} {n} {m}', it.interpolate_grad, [x])


def scan(ctx, n):
  from jax.sharding import Mesh
  from swirl_fem.communication import pscan as PS
  from swirl_fem.communication.jit_distributed import jit_distributed
  mesh = Mesh(np.array(jax.devices()), ('i',))
  x = np.arange(1, n + 1, dtype=np.float32)
  maps = {
      'scan': lambda v: PS.pscan(v, jnp.add, 'i'),
      'reduction': lambda v: PS.preduce(v, jnp.add, 'i'),
  }
  tri = np.tril(np.ones((n, n)), -1)
  want = {'scan': tri.T, 'reduction': np.ones((n, n))}
  for key, f in maps.items():
    with ctx.case(dict(scan=key, devices=n)):
      g = jit_distributed(f, mesh, 'i')
      verify(ctx, f'{key} {n}', g, [jnp.asarray(x)], own=want[key], tol=1e-6)
      # of the sum of squares, through the communication
      h = lambda v: jnp.sum(g(v * v)**2)
      got = np.asarray(jax.grad(h)(jnp.asarray(x)))
      ref = 2 * x * (2 * want[key] @ (want[key].T @ (x * x)))
      ctx.close(got, ref, 1e-4 * np.abs(ref).max(), 'gradient of squares')
  for key, f in {'scan': PS.pscan, 'reduction': PS.preduce}.items():
    with ctx.case(dict(product=key, devices=n)):
      g = jit_distributed(lambda v: f(v, jnp.multiply, 'i'), mesh, 'i')
      upto = lambda i: range(i) if key == 'scan' else range(n)
      own = np.zeros((n, n))
      for i in range(n):
        for j in upto(i):
          own[j, i] = np.prod([x[k] for k in upto(i) if k != j])
      verify(ctx, f'product {key} {n}', g, [jnp.asarray(x)], own=own, tol=1e-5)


def exchange(ctx, shape):
  from jax.sharding import Mesh
  from swirl_fem.communication.jit_distributed import jit_distributed
  from swirl_fem.core import gather_scatter
  P, L = shape
  mesh = Mesh(np.array(jax.devices()), ('i',))
  ex = jit_distributed(lambda v, g: gather_scatter.exchange(
      v, g, None, axis_name='i'), mesh, 'i')
  fwd1 = jax.jit(lambda g, t: jax.jvp(
      lambda v: ex(v, g), (jnp.zeros((P, L)),), (t,))[1])
  rev1 = jax.jit(lambda g, t: jax.vjp(
      lambda v: ex(v, g), jnp.zeros((P, L)))[1](t)[0])
  units = np.eye(P * L, dtype=np.float32).reshape(-1, P, L)
  every = (1 if P * L < 6 else 5 if P * L < 8 else 31)
  for k, lab in enumerate(g02.rgs(P * L, True, per_row=L)):
    if k % (every if ctx.quick else max(1, every // 5)):
      continue
    lay = np.array(lab, np.int32).reshape(P, L)
    with ctx.case(dict(layout=lay.tolist())):
      g, _ = gather_scatter.get_exchange_indices(lay)
      g = jnp.asarray(g)
      want = g02.qqt(lay).astype(np.float32)
      for mode, one in (('forward', fwd1), ('reverse', rev1)):
        got = np.stack([np.asarray(one(g, t)).reshape(-1) for t in units])
        ctx.equal(got, want, f'{mode} mode')
      for j in range(P * L):
        ctx.state('exchange', lay.tolist(), j)
      ctx.transition(2 * P * L)
      ctx.trace()
      ctx.evaluated(want.sum() > P * L)
      ctx.sample(f'layout {lay.tolist()}')
