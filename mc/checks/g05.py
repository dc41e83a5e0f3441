"""G05: gather and scatter are transposes and ignore missing entries."""
import functools
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from swirl_fem.core import gather_scatter
from swirl_fem.core.interpolation import Nodes1D, NodeType
from swirl_fem.core.mesh import Mesh

LEVEL = 'exploration'
RULE = ('All element tables of the given shapes over up to four nodes and '
        'missing entries anywhere; for each, the full matrices of gather and '
        'scatter from all unit vectors, compared with the table itself and with '
        'each other\'s transpose; NaN and infinite values at missing entries; '
        'fill values; types; the same through Mesh; two tables over '
        '70000 nodes. A case is non-trivial when '
        'a node occurs at least twice or an entry is missing.')
ASSUMPTIONS = []


def jobs(tier):
  q = tier == 'quick'
  out = []
  for shape, nn in [((2, 2), 3), ((1, 4), 3), ((3, 2), 3), ((4,), 3), ((2, 2), 4)
                    ] + ([] if q else [((2, 4), 2), ((3, 2), 4), ((2, 3), 4)]):
    of = 1 if np.prod(shape) <= 4 else 4
    for p in range(of):
      out.append(dict(name=f'tables {shape} over {nn} nodes {p}',
                      cost=np.prod(shape).item(),
                      args=dict(what='tables', shape=shape, nn=nn,
                                part=(p, of))))
  out.append(dict(name='types', args=dict(what='types')))
  out.append(dict(name='types x64', x64=True, args=dict(what='types')))
  out.append(dict(name='mesh', args=dict(what='mesh')))
  out.append(dict(name='mesh3d', args=dict(what='mesh3d')))
  out.append(dict(name='large', args=dict(what='large')))
  return out


@functools.lru_cache(maxsize=None)
def fns(nn):
  g = jax.jit(jax.vmap(lambda u, t: gather_scatter.gather(u, t, fill_value=0.),
                       in_axes=(0, None)))
  g5 = jax.jit(lambda u, t: gather_scatter.gather(u, t, fill_value=5.))
  gd = jax.jit(gather_scatter.gather)
  s = jax.jit(jax.vmap(lambda u, t: gather_scatter.scatter(u, t, nn),
                       in_axes=(0, None)))
  return g, g5, gd, s


def reference(table, nn):
  """Matrix (entries, nodes)."""
  t = np.asarray(table).ravel()
  m = np.zeros((t.size, nn), np.float32)
  for e, n in enumerate(t):
    if n >= 0:
      m[e, n] = 1
  return m


def one_table(ctx, table, nn):
  g, g5, gd, s = fns(nn)
  t = np.asarray(table)
  k = t.size
  m = reference(t, nn)
  G = np.asarray(g(np.eye(nn, dtype=np.float32), t)).reshape(nn, k).T
  ctx.equal(G, m, 'matrix of gather')
  S = np.asarray(s(np.eye(k, dtype=np.float32).reshape((k,) + t.shape), t)).T
  ctx.equal(S, m.T, 'matrix of scatter')
  u = np.arange(2, 2 + nn).astype(np.float32)
  ctx.equal(g5(u, t), np.where(t >= 0, u[t], np.float32(5)), 'fill value')
  ctx.equal(gd(u, t), np.where(t >= 0, u[t], np.float32(-1)), 'default fill')
  miss = t < 0
  v = np.arange(1, k + 1).astype(np.float32).reshape(t.shape)
  want = (m.T @ v.ravel())
  for bad in (np.nan, np.inf):
    vb = np.where(miss, np.float32(bad), v)
    ctx.equal(s(vb[None], t)[0], want, f'scatter with {bad} at missing entries')
  # a NaN of the last node (where missing entries point to) stays there
  ub = u.copy()
  ub[-1] = np.nan
  ctx.equal(g5(ub, t), np.where(t >= 0, ub[t], np.float32(5)), 'gather of NaN')
  ctx.transition(k + nn)
  vals = t[t >= 0]
  nt = miss.any() or len(set(vals.tolist())) < vals.size
  ctx.evaluated(bool(nt))
  if nt:
    ctx.sample(f'table {t.tolist()} over {nn} nodes: gather and scatter are '
               'its incidence matrix and the transpose')


def run(ctx, a):
  what = a['what']
  if what == 'tables':
    shape, nn = tuple(a['shape']), a['nn']
    part, of = a['part']
    for k, flat in enumerate(itertools.product(range(-1, nn),
                                               repeat=int(np.prod(shape)))):
      if k % of != part:
        continue
      with ctx.case(dict(table=flat, shape=shape, nn=nn)):
        one_table(ctx, np.array(flat, np.int32).reshape(shape), nn)
  elif what == 'types':
    x64 = jax.config.jax_enable_x64
    types = ['float32', 'float16', 'bfloat16', 'int32', 'int8', 'uint8',
             'complex64'] + (['float64', 'int64'] if x64 else [])
    tables = [[[0, 1], [1, 2]], [[0, -1], [2, 0]], [[-1, -1], [1, 1]],
              [[2, 2], [2, -1]]]
    for dt in types:
      for idt in ('int32', 'int8', 'int16') + (('int64',) if x64 else ()):
        for t in tables:
          with ctx.case(dict(dtype=dt, idtype=idt, table=t)):
            t = np.array(t, idt)
            u = jnp.asarray([3, 5, 7]).astype(dt)
            if dt == 'float64':
              u = u / 3
            if dt == 'int64':
              u = u + (1 << 40)
            r = gather_scatter.gather(u, jnp.asarray(t), fill_value=0)
            ctx.check(r.dtype == u.dtype, 'dtype of gather', str(r.dtype))
            ctx.equal(r, np.where(t >= 0, np.asarray(u)[t], 0), 'gather')
            w = gather_scatter.scatter(r, jnp.asarray(t), 3)
            ctx.check(w.dtype == u.dtype, 'dtype of scatter', str(w.dtype))
            cnt = np.array([(t == n).sum() for n in range(3)])
            want = cnt * np.asarray(u)
            ctx.check(np.all(np.abs(np.asarray(w) - want)
                             <= 1e-6 * np.abs(want)), 'scatter', w, want)
            ctx.transition(2)
            ctx.evaluated(True)
    for u in (np.zeros((2, 2), np.float32), np.zeros((), np.float32)):
      with ctx.case(dict(rank=u.ndim)):
        try:
          gather_scatter.gather(jnp.asarray(u), jnp.array([[0, 1]]))
        except ValueError:
          ctx.evaluated(False)
        else:
          ctx.fail('values of the wrong rank accepted')
  elif what == 'mesh':
    # 1D meshes with any element table, through Mesh
    for nn in (2, 3):
      for flat in itertools.product(range(-1, nn), repeat=4):
        t = np.array(flat, np.int32).reshape(2, 2)
        with ctx.case(dict(mesh=flat, nn=nn)):
          coords = jnp.asarray(np.array([[.5], [2.], [-1.]])[:nn])
          mesh = Mesh.create(coords, jnp.asarray(t))
          u = jnp.arange(1., nn + 1)
          ctx.equal(mesh.gather(u), np.where(t >= 0, np.asarray(u)[t], 0),
                    'Mesh.gather')
          v = jnp.asarray([[1., 10.], [100., 1000.]])
          ctx.equal(mesh.scatter(v), reference(t, nn).T @ np.asarray(v).ravel(),
                    'Mesh.scatter')
          c = np.asarray(coords)[:, 0]
          ctx.equal(mesh.element_coords()[..., 0], np.where(t >= 0, c[t], 0),
                    'element coordinates')
          ctx.transition(3)
          ctx.evaluated(True)
          for shape in ((nn + 1,), (nn, 1), (1, nn)):
            try:
              mesh.gather(jnp.zeros(shape))
            except ValueError:
              continue
            ctx.fail(f'nodal values of shape {shape} accepted')
  elif what == 'large':
    # more nodes than 16 bit numbers can count
    n = 70000
    for npts in (2, 5):
      with ctx.case(dict(large=n, npts=npts)):
        t = (np.arange(n * npts) * 31 % (n + 7) - 1).reshape(n, npts)
        t = np.where(t >= n, -1, t).astype(np.int32)
        nodes = Nodes1D.create(npts, NodeType.GAUSS_LOBATTO_LEGENDRE)
        mesh = Mesh.create(jnp.arange(n, dtype=jnp.float32)[:, None],
                           jnp.asarray(t), gridpoints_1d=nodes)
        u = (np.arange(n) % 1009).astype(np.float32)
        ctx.equal(mesh.gather(jnp.asarray(u)), np.where(t >= 0, u[t], 0),
                  'gather')
        v = (np.arange(n * npts) % 13).astype(np.float32).reshape(t.shape)
        want = np.bincount(t[t >= 0], v[t >= 0], n)
        ctx.equal(mesh.scatter(jnp.asarray(v)), want.astype(np.float32),
                  'scatter')
        ctx.equal(mesh.element_coords()[..., 0], np.where(t >= 0, t, 0),
                  'element coordinates')
        ctx.equal(mesh.node_indices, np.arange(n), 'numbers of the nodes')
        ctx.transition(4)
        ctx.evaluated()
  elif what == 'mesh3d':
    # higher dimension and order: coordinates come by element in order
    for ndim in (1, 2, 3):
      for npts in (2, 3, 4):
        k = npts ** ndim
        nodes = Nodes1D.create(npts, NodeType.GAUSS_LOBATTO_LEGENDRE)
        for nel in (1, 2, 3):
          with ctx.case(dict(ndim=ndim, npts=npts, nel=nel)):
            nn = k + 2
            rs = np.arange(nel * k)
            t = ((rs * 7 + rs // k * 3) % nn).reshape(nel, k).astype(np.int32)
            t[0, -1] = -1
            t[-1, 0] = -1
            coords = (np.arange(nn * ndim).reshape(nn, ndim) + .25).astype(
                np.float32)
            mesh = Mesh.create(jnp.asarray(coords), jnp.asarray(t), gridpoints_1d=nodes)
            ctx.check((mesh.ndim, mesh.num_nodes, mesh.num_elements,
                       mesh.num_nodes_per_element, mesh.order)
                      == (ndim, nn, nel, k, npts - 1), 'sizes')
            want = np.where(t[..., None] >= 0, coords[t], 0)
            ctx.equal(mesh.element_coords(), want, 'element coordinates')
            eye = np.eye(nel * k, dtype=np.float32).reshape(-1, nel, k)
            S = np.asarray(jax.vmap(mesh.scatter)(eye)).T
            G = np.asarray(jax.vmap(mesh.gather)(
                np.eye(nn, dtype=np.float32))).reshape(nn, -1).T
            ctx.equal(S, G.T, 'transposes')
            ctx.equal(G, reference(t, nn), 'matrix')
            ctx.transition(nn + nel * k)
            ctx.evaluated(True)
