"""R01: ill-formed arguments are rejected and well-formed ones accepted."""
import functools
import itertools
from unittest import mock

import jax
import jax.numpy as jnp
import numpy as np

from mc import meshes
from swirl_fem.common import premesh_commons
from swirl_fem.core import fespace as fe
from swirl_fem.core import gather_scatter
from swirl_fem.core.interpolation import (
    BarycentricInterpolator, Nodes1D, NodeType, Quadrature1D)
from swirl_fem.core.mesh import Mesh
from swirl_fem.core.mesh_refiner import refine_premesh
from swirl_fem.core.premesh import Premesh

LEVEL = 'exploration'
RULE = ('Every shape within bounds of every array handed over: nodes per '
        'element up to 70 with all dimensions and reference nodes; nodal '
        'values and their scattering in all shapes of rank 0 to 3 around the '
        'right one, directly, compiled and batched; interpolated values in all '
        'lengths up to two more than right; partitions of a cube in all shapes '
        'up to five per axis; all ranks of node indices; all types of nodes; '
        'all orders up to three for refinement and flow solver; all batch sizes '
        'up to 16 on up to 8 devices; integrands of all small shapes. '
        'Non-trivial: the argument is ill-formed.')
ASSUMPTIONS = ['Rejected means that an exception is raised before anything '
               'is returned or written; its type is only compared where the '
               'documentation or tests mention it (ValueError).']

TYPES = (NodeType.NEWTON_COTES, NodeType.GAUSS_LEGENDRE,
         NodeType.GAUSS_LOBATTO_LEGENDRE)
REJECT = (ValueError, AssertionError, TypeError, IndexError)


def jobs(tier):
  q = tier == 'quick'
  return [
      dict(name='elements', x64=True, cost=20, args=dict(
          what='elements', upto=70 if q else 260)),
      dict(name='nodal values', x64=True, cost=20, args=dict(
          what='values', upto=3 if q else 5)),
      dict(name='interpolation', x64=True, cost=20, args=dict(
          what='interpolation', points=4 if q else 5)),
      dict(name='partitions', x64=True, cost=20, args=dict(
          what='partitions', cells=4 if q else 6)),
      dict(name='finalize', x64=True, devices=8, cost=20,
           args=dict(what='finalize')),
      dict(name='integrands', x64=True, cost=20, args=dict(what='integrands')),
      dict(name='orders', x64=True, cost=30, args=dict(what='orders')),
      dict(name='models', cost=30, args=dict(what='models')),
  ] + [dict(name=f'training on {k}', cost=10, devices=k, args=dict(
      what='training', devices=k, upto=16 if q else 40)) for k in range(1, 9)]


def attempt(ctx, good, fn, errors=REJECT):
  """Whether `fn` returns, which it has to if and only if `good`."""
  try:
    out = fn()
  except errors as e:
    ctx.check(not good, 'a well-formed argument was rejected', repr(e)[:200])
    out = None
  else:
    ctx.check(good, 'an ill-formed argument was accepted')
  ctx.evaluated(not good)
  ctx.transition()
  ctx.trace()
  return out


def elements(ctx, a):
  for ndim in (1, 2, 3):
    given = [None]
    for k in range(1, 8):
      for t in TYPES:
        if k > 1 or t == NodeType.GAUSS_LEGENDRE:
          given.append(Nodes1D.create(k, t))
    for n in range(1, a['upto'] + 1):
      cells = np.arange(2 * n, dtype=np.int32).reshape(2, n)
      coords = np.linspace(0, 1, 2 * n * ndim).reshape(2 * n, ndim)
      roots = [k for k in range(1, n + 1) if k ** ndim == n]
      for g in given:
        good = bool(roots) if g is None else g.num_points ** ndim == n
        for cls in (Premesh, Mesh):
          label = dict(ndim=ndim, nodes=n, cls=cls.__name__,
                       given=g and (g.num_points, g.node_type.value))
          with ctx.case(label):
            out = attempt(ctx, good, lambda: cls.create(
                node_coords=coords, elements=cells, gridpoints_1d=g),
                          ValueError)
            if out is not None:
              want = g or Nodes1D.create(roots[0], NodeType.NEWTON_COTES)
              ctx.check(out.gridpoints_1d.num_points == want.num_points
                        and out.gridpoints_1d.node_type == want.node_type,
                        'reference nodes')
              ctx.equal(out.gridpoints_1d.node_values, want.node_values,
                        'reference nodes')
              ctx.check(out.order == want.num_points - 1, 'order')
              ctx.check(out.num_nodes_per_element == n
                        and out.num_elements == 2 and out.ndim == ndim
                        and out.num_nodes == 2 * n, 'sizes')
            ctx.state(ndim, n, g and g.num_points, cls.__name__, good)


def shapes_around(good, upto):
  """All shapes up to rank three with few extents, around the given ones."""
  extents = sorted({1} | {max(0, k + d) for k in good
                          for d in range(-upto, upto + 1)})
  for rank in range(4):
    if rank < 3:
      yield from itertools.product(extents, repeat=rank)
    else:
      yield from itertools.product(sorted({1, *good}), repeat=3)


def values(ctx, a):
  for shape in ((3,), (2, 1), (2, 2)):
    c = meshes.structured(shape)
    mesh = c.premesh().finalize()
    n, cells = mesh.num_nodes, tuple(mesh.elements.shape)
    for s in shapes_around((n, 2), a['upto']):
      for how in ('plain', 'jit', 'batch'):
        fn = mesh.gather
        u = jnp.arange(1., 1. + np.prod(s, dtype=int)).reshape(s)
        if how == 'jit':
          fn = jax.jit(fn)
        elif how == 'batch':
          fn, u = jax.vmap(fn), jnp.stack([u, -u])
        with ctx.case(dict(mesh=shape, values=s, how=how)):
          out = attempt(ctx, s == (n,), lambda: fn(u), ValueError)
          if out is not None:
            want = np.asarray(u)[..., np.asarray(mesh.elements)]
            ctx.equal(np.asarray(out), want, 'gathered')
          ctx.state(shape, s, how)
    for s in shapes_around(cells, min(a['upto'], 2)):
      for how in ('plain', 'jit', 'batch'):
        fn = mesh.scatter
        u = jnp.arange(1., 1. + np.prod(s, dtype=int)).reshape(s)
        if how == 'jit':
          fn = jax.jit(fn)
        elif how == 'batch':
          fn, u = jax.vmap(fn), jnp.stack([u, -u])
        with ctx.case(dict(mesh=shape, scattered=s, how=how)):
          out = attempt(ctx, s == cells, lambda: fn(u))
          if out is not None:
            want = np.zeros(np.shape(u)[:-2] + (n,))
            for w, v in zip(want.reshape(-1, n),
                            np.asarray(u).reshape((-1,) + cells)):
              np.add.at(w, np.asarray(mesh.elements), v)
            ctx.equal(np.asarray(out), want, 'scattered')
          ctx.state(shape, 'scatter', s, how)
  # selecting entries takes lists of values only
  for rank in range(4):
    for idx in ((), (2,), (2, 3)):
      with ctx.case(dict(rank=rank, indices=idx)):
        u = jnp.arange(1., 1. + 4 ** rank).reshape((4,) * rank)
        i = np.resize([0, -1, 3, 2, -1, 1], idx).astype(np.int32)
        out = attempt(ctx, rank == 1, lambda: gather_scatter.gather(u, i, 7.),
                      ValueError)
        if out is not None:
          ctx.equal(np.asarray(out), np.where(i == -1, 7., i + 1.), 'selected')
  for rank in range(5):
    with ctx.case(dict(rank_of_node_indices=rank)):
      i = np.arange(2 ** rank).reshape((2,) * rank)
      attempt(ctx, rank in (1, 2),
              lambda: gather_scatter.get_exchange_indices(i), ValueError)


def interpolation(ctx, a):
  for ndim in (1, 2, 3):
    for k in range(2, a['points'] + 1):
      if k ** ndim > 64:
        continue
      for t in TYPES:
        g = Nodes1D.create(k, t)
        for e in (g, Nodes1D.create(k + 1, t), Nodes1D.create(2, t)):
          it = BarycentricInterpolator(ndim=ndim, gridpoints_1d=g,
                                       evalpoints_1d=e)
          n = k ** ndim
          m = np.asarray(it.interpolation_matrix())
          d = np.asarray(it.interpolation_matrix_grad())
          some = sorted({0, 1, 2, k, n - 1, n, n + 1, n + 2,
                         k ** (ndim - 1), k ** (ndim + 1)})
          for s in [()] + [(j,) for j in some] + [
              (n, 1), (1, n), (n, 2), (k, k), (1, 1, n)]:
            x = jnp.cos(jnp.arange(np.prod(s, dtype=int))).reshape(s)
            with ctx.case(dict(ndim=ndim, points=k, type=t.value,
                               to=e.num_points, values=s)):
              out = attempt(ctx, s == (n,), lambda: it.interpolate(x))
              if out is not None:
                ctx.close(np.asarray(out), m @ np.asarray(x), 1e-12, 'values')
              out = attempt(ctx, s == (n,), lambda: it.interpolate_grad(x))
              if out is not None:
                ctx.close(np.asarray(out), np.einsum('qnd,n->qd', d,
                                                     np.asarray(x)),
                          1e-11, 'gradient')
              ctx.state(ndim, k, t.value, e.num_points, s)
  single = Nodes1D.create_single_point(np.float64(.25))
  for t in list(NodeType) + ['unknown', None]:
    known = t in TYPES
    for k in (2, 3, 4):
      with ctx.case(dict(nodes=str(t), points=k)):
        attempt(ctx, known, lambda: Nodes1D.create(k, t), ValueError)
        attempt(ctx, known, lambda: Quadrature1D.create(k, t), ValueError)
        nodes = single if not known else Nodes1D.create(k, t)
        if not known and t != NodeType.SINGLE:
          nodes = single.replace(node_type=t)
        attempt(ctx, known, lambda: Quadrature1D.create_from_nodes_1d(nodes),
                ValueError)
        # values at a single point or unknown nodes don't define a function
        attempt(ctx, known, lambda: BarycentricInterpolator(
            ndim=1, gridpoints_1d=nodes,
            evalpoints_1d=Nodes1D.create(2, TYPES[1])).interpolation_matrix(),
                ValueError)
        # but any function can be evaluated at a point
        if known:
          attempt(ctx, True, lambda: BarycentricInterpolator(
              ndim=1, gridpoints_1d=nodes,
              evalpoints_1d=single).interpolation_matrix())


def partitions(ctx, a):
  for ndim in (1, 2, 3):
    for n in range(1, (a['cells'] if ndim < 3 else 4) + 1):
      for s in itertools.product(range(1, n + 3 if ndim < 3 else n + 2),
                                 repeat=ndim):
        with ctx.case(dict(cells=(n,) * ndim, partitions=s)):
          ids = np.arange(np.prod(s)).reshape(s)
          good = all(n % k == 0 for k in s)
          out = attempt(ctx, good, lambda: premesh_commons.unit_cube_mesh(
              n, ndim=ndim, partitions=ids))
          if out is not None:
            cell = np.floor(out.node_coords[out.elements].mean(axis=1)
                            * np.array(s)).astype(int)
            ctx.equal(np.asarray(out.partitions), ids[tuple(cell.T)],
                      'partition of the elements')
            ctx.equal(ids, np.arange(np.prod(s)).reshape(s), 'argument')
          ctx.state(n, s)


def finalize(ctx, a):
  for shape in ((4,), (2, 2)):
    ne = int(np.prod(shape))
    for parts in [None] + [p for p in itertools.product(range(2), repeat=ne)
                           if 0 < sum(p) < ne]:
      for axis in (None, '', 'p', 'parts'):
        with ctx.case(dict(mesh=shape, partitions=parts, axis=axis)):
          c = meshes.structured(shape)
          pm = c.premesh()
          if parts is not None:
            pm = Premesh.create(
                node_coords=pm.node_coords, elements=pm.elements,
                partitions=np.array(parts, np.int32))
          out = attempt(ctx, parts is None or bool(axis),
                        lambda: pm.finalize(axis_name=axis), ValueError)
          if out is not None:
            ctx.check(out.axis_name == (None if parts is None else axis),
                      'axis of the mesh', out.axis_name)
            ctx.check(out.elements.ndim == (2 if parts is None else 3),
                      'elements', out.elements.shape)
          ctx.state(shape, parts, axis)


def integrands(ctx, a):
  for shape in ((2,), (2, 1), (1, 1, 1)):
    ndim = len(shape)
    mesh = meshes.structured(shape).premesh().finalize()
    space = fe.FiniteElementSpace.create(
        mesh, Quadrature1D.create(2, NodeType.GAUSS_LEGENDRE))
    cells = tuple(mesh.elements.shape)
    s = space.scalar_function(jnp.ones(cells))
    v = space.vector_function(jnp.ones(cells + (ndim,)))
    fs = {'1': lambda x: jnp.ones(()), '1.': lambda x: x[0] * 0 + 1.,
          's': s, 's*s': lambda x: s(x) * s(x), 'v.v': lambda x: v(x) @ v(x),
          'v[0]': lambda x: v(x)[0], 'div': fe.div(v)}
    ok = list(fs)
    for extents in [k for r in (1, 2, 3) for k in itertools.product(
        sorted({1, 2, ndim, *cells}), repeat=r)]:
      fs[extents] = lambda x, e=extents: jnp.ones(e)
    fs.update({'x': lambda x: x, 'v': v, 'grad s': fe.grad(s),
               'grad v': fe.grad(v), '[s]': lambda x: s(x)[None],
               'v[:1]': lambda x: v(x)[:1], 's v': lambda x: s(x) * v(x)})
    for name, f in fs.items():
      with ctx.case(dict(ndim=ndim, integrand=name)):
        out = attempt(ctx, name in ok, lambda: space.integrate(f), ValueError)
        if out is not None:
          want = {'v.v': float(ndim), 'div': 0.}.get(name, 1.)
          ctx.close(np.asarray(out), np.asarray(want), 1e-12, 'integral')
        ctx.state(ndim, name)
      for u in (space.scalar_function(None), space.vector_function(None)):
        def form(u):
          scale = (lambda x: u(x)) if not u.value_shape else (
              lambda x: u(x)[0])
          return lambda x: scale(x) * f(x)
        with ctx.case(dict(ndim=ndim, integrand=name, of=u.value_shape)):
          out = attempt(ctx, name in ok,
                        lambda: space.local_covector(form, (u,)), ValueError)
          if out is not None:
            ctx.check(out.shape == cells + u.value_shape, 'covector',
                      out.shape)


def orders(ctx, a):
  from swirl_fem.navier_stokes.navier_stokes import StokesSEM
  for ndim in (1, 2, 3):
    c = meshes.structured((2,) + (1,) * (ndim - 1))
    pm = c.premesh()
    for order, t in itertools.product((1, 2, 3), TYPES):
      if order == 1 and t != NodeType.NEWTON_COTES:
        continue
      start = pm
      if order > 1:
        start = refine_premesh(pm, Nodes1D.create(order + 1, t))
      for k, to in itertools.product((2, 3, 4), TYPES):
        with ctx.case(dict(ndim=ndim, order=order, type=t.value, points=k,
                           to=to.value)):
          out = attempt(ctx, order == 1, lambda: refine_premesh(
              start, Nodes1D.create(k, to)), ValueError)
          if out is not None:
            ctx.check(out.order == k - 1, 'order', out.order)
          ctx.state('refine', ndim, order, t.value, k, to.value)
      for n in (2, 3) if ndim > 1 and (ndim == 2 or order != 1) else ():
        with ctx.case(dict(ndim=ndim, order=order, type=t.value, solver=n)):
          attempt(ctx, order == 1, lambda: StokesSEM.create(start, {}, n),
                  ValueError)
          ctx.state('solver', ndim, order, t.value, n)
    # groups without facets
    for names in itertools.product((None, 0, 1, 2), repeat=2):
      groups = {}
      facet = pm.elements[:, :2 ** (ndim - 1)]
      for g, k in zip('ab', names):
        if k is not None:
          groups[g] = np.array(facet[:k], np.int32)
      with ctx.case(dict(ndim=ndim, facets=names)):
        start = Premesh.create(node_coords=pm.node_coords,
                               elements=pm.elements, physical_groups=groups)
        out = attempt(ctx, 0 not in names, lambda: refine_premesh(
            start, Nodes1D.create(3, TYPES[2])), ValueError)
        if out is not None:
          ctx.check(set(out.physical_groups) == set(groups), 'groups')
        ctx.state('groups', ndim, names)


def training(ctx, a):
  import ml_collections
  from swirl_fem.niles import train
  from swirl_fem.niles.config import niles as published

  class Started(Exception):
    pass

  def start(*args, **kwargs):
    raise Started()

  devices = a['devices']
  ctx.check(jax.device_count() == devices, 'devices', jax.devices())
  for batch in range(1, a['upto'] + 1):
    config = published.get_config()
    config.batch_size = batch
    config = ml_collections.FrozenConfigDict(config)
    with ctx.case(dict(devices=devices, batch=batch)):
      with mock.patch.object(train, 'create_model', start), \
          mock.patch.object(train, 'create_input_iter',
                            lambda *a, **kw: iter(())), \
          mock.patch.object(train.metric_writers, 'create_default_writer',
                            lambda *a, **kw: mock.MagicMock()):
        def go():
          try:
            train.train_and_evaluate(config, str(ctx.scratch) + '/run')
          except Started:
            return True
        attempt(ctx, batch % devices == 0, go, ValueError)
        ctx.state('batch', devices, batch)


def models(ctx, a):
  from swirl_fem.niles import train, transformer
  for name in ('multiscale_transformer', 'transformer', '', 'mlp', None,
               'multiscale_transformer ', 'Multiscale_Transformer'):
    with ctx.case(dict(model=name)):
      from swirl_fem.niles.config import niles as published
      model_config = published.get_config().model
      attempt(ctx, name == 'multiscale_transformer',
              lambda: train.create_model(name, model_config), ValueError)
  x = jnp.arange(2. * 12 * 4).reshape(2, 12, 4)
  for mode, window, heads in itertools.product(
      ('avg', 'max', 'none', 'sum', '', None), ((), (1,), (2,), (3,)),
      (1, 2, 4)):
    with ctx.case(dict(pooling=mode, window=window, heads=heads)):
      trivial = mode == 'none' or not window or window == (1,)
      fn = transformer.attention_pooling
      out = attempt(ctx, trivial or mode in ('avg', 'max'),
                    lambda: fn(x, window, window, mode, heads), ValueError)
      if out is not None:
        ctx.check(out.shape[-2:] == (heads, 4 // heads), 'heads', out.shape)


def run(ctx, a):
  dict(elements=elements, values=values, interpolation=interpolation,
       partitions=partitions, finalize=finalize, orders=orders,
       integrands=integrands, training=training, models=models)[a['what']](ctx, a)
