"""T02: element and node reorderings are permutations that match geometry."""
import itertools
import types

import numpy as np

LEVEL = 'model_checking'
RULE = ('All hierarchies of patches (factorisations, in order) of all grid '
        'sizes within the bound; the order must visit the aligned blocks of '
        'each scale one after the other, each element once. All pairs of '
        'orders of the nodes of small meshes and all grid sizes, orders and '
        'dimensions within the bounds for the transfer of nodes. Grids of '
        'more than 2^15 elements or nodes.')
ASSUMPTIONS = ['The shift of a scale is the size of the patches of the scale '
               'before it, as in the default arguments.']


def jobs(tier):
  q = tier == 'quick'
  return ([dict(name='patches', x64=False, cost=10, args=dict(patches=1)),
           dict(name='renumbered', x64=False, cost=10, args=dict(renumbered=1))]
          + [dict(name=f'grids {d}', x64=False, cost=10, args=dict(grids=d))
             for d in (1, 2, 3)]
          + [dict(name='large', x64=False, cost=10, args=dict(large=1))])


def run(ctx, a):
  for kind in a:
    globals()[kind](ctx, a[kind])


def hierarchies(size, top=True):
  """All lists (base, patches...) with the product `size`."""
  for base in range(1, size + 1):
    if size % base == 0:
      yield from ((base,) + r for r in _ordered(size // base))


def _ordered(n):
  if n == 1:
    yield ()
    return
  for f in range(2, n + 1):
    if n % f == 0:
      for r in _ordered(n // f):
        yield (f,) + r


def patches(ctx, _):
  from swirl_fem.niles import train
  with ctx.case('default arguments'):
    _order(ctx, np.asarray(train.make_multiscale_perm()), 12, [2, 4])
  for size in range(1, 25 if ctx.quick else 65):
    for h in hierarchies(size):
      base, sizes = h[0], h[1:]
      scales = [int(np.prod(h[:i + 1])) for i in range(len(h))]
      with ctx.case(dict(size=size, patch_sizes=sizes)):
        p = train.make_multiscale_perm(size=size, patch_sizes=sizes,
                                       factors=tuple(scales[:-1]))
        _order(ctx, np.asarray(p), size, scales[:-1])
        ctx.state('patches', h)
        ctx.transition(size * size)
        ctx.trace()
        ctx.evaluated(len(h) > 1)
        ctx.sample(f'size {size}, patches {sizes}')


def _order(ctx, p, size, scales):
  ctx.check(p.shape == (size * size,) and p.dtype.kind in 'iu', 'shape and type',
            p.shape, p.dtype)
  ctx.equal(np.sort(p), np.arange(size * size), 'elements')
  x = np.stack([p // size, p % size], 1)
  for s in scales:
    blocks = (x // s).reshape(-1, s * s, 2)
    ctx.check((blocks == blocks[:, :1]).all(), f'patches of size {s}',
              p[:2 * s * s])


def _check_transfer(ctx, train, source, target, key):
  p = np.asarray(train.transfer_perm(source, target))
  n = target.num_nodes
  ctx.check(p.shape == (n,) and p.dtype.kind in 'iu', 'shape and type', p.shape,
            p.dtype)
  ctx.check(n == 0 or (p.min() >= 0 and p.max() < source.num_nodes), 'range')
  a = np.asarray(source.node_coords)[p]
  ctx.close(a, np.asarray(target.node_coords), 1e-5, 'coordinates')
  if source.num_nodes == n:
    ctx.equal(np.sort(p), np.arange(n), 'permutation')
  ctx.state(key)
  ctx.transition(n)
  ctx.trace()
  ctx.evaluated(n > 1)


def renumbered(ctx, _):
  from swirl_fem.niles import train
  def mesh(x):
    return types.SimpleNamespace(node_coords=x, num_nodes=len(x))
  sets = [np.array([[0., 0], [1, 0], [0, 1], [1, 1]]),
          np.array([[0., 0], [1e-3, 0], [0, 1e-3], [.5, .5], [1, 0]]),
          np.array([[0.], [.2], [.7], [1.]]),
          np.array([[0., 0, 0], [0, 0, 1], [0, 1, 0], [1, 0, 0], [1, 1, 1]])]
  for k, x in enumerate(sets):
    ps = list(itertools.permutations(range(len(x))))
    for a in ps:
      with ctx.case(dict(points=k, source=a)):
        for b in (ps if not ctx.quick or len(x) < 5 else ps[::7]):
          s, t = mesh(x[list(a)]), mesh(x[list(b)])
          _check_transfer(ctx, train, s, t, (k, a, b))
          got = np.asarray(train.transfer_perm(s, t))
          ctx.equal(got, [a.index(i) for i in b], 'transfer')
    # a part of the nodes
    for r in range(1, len(x)):
      for sub in itertools.permutations(range(len(x)), r):
        with ctx.case(dict(points=k, part=sub)):
          got = np.asarray(train.transfer_perm(mesh(x), mesh(x[list(sub)])))
          ctx.equal(got, sub, 'transfer of a part')
          ctx.state(k, sub)


def grids(ctx, ndim):
  """As in the program: a refined mesh and a mesh of first order."""
  from swirl_fem.common import premesh_commons
  from swirl_fem.core.interpolation import Nodes1D, NodeType
  from swirl_fem.core.mesh_refiner import refine_premesh
  from swirl_fem.niles import train
  top = {1: 12, 2: 6, 3: 3}[ndim]
  orders = (1, 2, 3, 4) if ctx.quick else (1, 2, 3, 4, 5, 6, 8)
  if ndim == 3:
    orders = orders[:3]
  for n in range(1, top + 1):
    for order in orders:
      for periodic in ((), tuple(range(ndim))):
        if periodic and n * order < 2:
          continue
        with ctx.case(dict(size=n, order=order, ndim=ndim, periodic=periodic)):
          # a dimension with one element can't be periodic by itself unless it
          # is refined; the program has many
          source = refine_premesh(
              premesh_commons.unit_cube_mesh(n, ndim=ndim,
                                             periodic_dims=periodic),
              gridpoints_1d=Nodes1D.create(
                  num_points=order + 1,
                  node_type=NodeType.NEWTON_COTES)).finalize()
          target = premesh_commons.unit_cube_mesh(n * order,
                                                  ndim=ndim).finalize()
          ctx.check(source.num_nodes == target.num_nodes, 'nodes',
                    source.num_nodes, target.num_nodes)
          _check_transfer(ctx, train, source, target,
                          (n, order, ndim, periodic))
          _check_transfer(ctx, train, target, source,
                          (n, order, ndim, periodic, 'back'))
          # on a grid, the target's index is the position
          got = np.asarray(train.transfer_perm(source, target))
          x = np.asarray(source.node_coords)[got].reshape(
              (n * order + 1,) * ndim + (ndim,))
          ctx.sample(f'grid {n}^{ndim}, order {order}: first row '
                     f'{x.reshape(-1, ndim)[:2].tolist()}')


def large(ctx, _):
  """More elements and nodes than 16 bit numbers can count."""
  from swirl_fem.niles import train
  for h in ((2, 96), (3, 4, 4, 4), (192,), (1, 192)):
    scales = [int(np.prod(h[:i + 1])) for i in range(len(h))]
    with ctx.case(dict(large=192, hierarchy=h)):
      p = train.make_multiscale_perm(size=192, patch_sizes=h[1:],
                                     factors=tuple(scales[:-1]))
      _order(ctx, np.asarray(p), 192, scales[:-1])
      ctx.state('large', h)
      ctx.trace()
  n = 190
  x = np.stack(np.unravel_index(np.arange(n * n), (n, n)), 1) / n
  order = np.arange(n * n) * 7 % (n * n)
  with ctx.case(dict(large=n)):
    _check_transfer(ctx, train,
                    types.SimpleNamespace(node_coords=x, num_nodes=n * n),
                    types.SimpleNamespace(node_coords=x[order],
                                          num_nodes=n * n), 'large')
