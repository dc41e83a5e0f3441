"""G02: exchange replaces each value by the sum over all copies of its node."""
import functools
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from swirl_fem.core import gather_scatter
from swirl_fem.core.mesh import Mesh

LEVEL = 'model_checking'
RULE = ('All assignments of up to 7 slots to degrees of freedom (with and '
        'without padding), and all assignments of the slots of 2 to 4 '
        'partitions to degrees of freedom and padding, up to renaming, and three '
        'layouts of 80000 slots. For each '
        'the full matrix of the exchange is computed from all unit vectors and '
        'compared with Q Q^T; linearity is checked by transposition. A state is '
        'a (layout, slot holding one); a transition is the exchange applied to '
        'it; a trace is one layout. Non-trivial: some slots share a degree of '
        'freedom.')
ASSUMPTIONS = [
    'Two copies of a degree of freedom in one partition are rejected '
    '(NotImplementedError, documented); then nothing is claimed.',
    'vmap with an axis name stands for pmap in the partitioned case; one job '
    'repeats layouts on real XLA devices.',
]


def rgs(length, pad, per_row=None):
  """Restricted growth strings, optionally with padding (-1).

  With per_row, labels do not repeat within a row of that length.
  """
  def rec(prefix, mx):
    if len(prefix) == length:
      yield tuple(prefix)
      return
    lo = -1 if pad else 0
    for v in range(lo, mx + 2):
      if per_row and v >= 0:
        start = len(prefix) // per_row * per_row
        if v in prefix[start:]:
          continue
      yield from rec(prefix + [v], max(mx, v))
  yield from rec([], -1)


def jobs(tier):
  q = tier == 'quick'
  out = [dict(name='unpartitioned', cost=5,
              args=dict(what='plain', nmax=6 if q else 7)),
         dict(name='unpartitioned padded', cost=5,
              args=dict(what='padded', nmax=5 if q else 6)),
         dict(name='types', cost=2, args=dict(what='types')),
         dict(name='types x64', x64=True, args=dict(what='types')),
         dict(name='large', args=dict(what='large')),
         dict(name='repeats', args=dict(what='repeats')),
         dict(name='devices', devices=4, cost=3, args=dict(what='devices'))]
  shapes = [(1, 3), (2, 2), (2, 3), (3, 2), (4, 2), (2, 4)]
  for P, L in shapes:
    of = 4 if (P * L == 8) else 1
    for p in range(of):
      out.append(dict(name=f'partitioned {P}x{L} {p}', cost=4,
                      args=dict(what='part', P=P, L=L, part=(p, of))))
  if not q:
    for P, L in [(3, 3), (5, 2)]:
      for p in range(8):
        out.append(dict(name=f'partitioned {P}x{L} {p}', cost=30,
                        args=dict(what='part', P=P, L=L, part=(p, 8))))
  return out


def qqt(labels):
  """The reference matrix."""
  l = np.asarray(labels).ravel()
  m = (l[:, None] == l[None, :]) & (l[:, None] >= 0)
  return m | np.eye(len(l), dtype=bool)


@functools.lru_cache(maxsize=None)
def part_fn():
  """(vectors (B, P, L), gather indices (P, G)) -> exchanged."""
  ex = lambda u, g: gather_scatter.exchange(u, g, None, axis_name='i')
  return jax.jit(jax.vmap(jax.vmap(ex, axis_name='i'), in_axes=(0, None)))


def partitioned_matrix(layout):
  """Matrix of the exchange of a partitioned layout (P, L), by unit vectors."""
  layout = np.asarray(layout)
  P, L = layout.shape
  g, u = gather_scatter.get_exchange_indices(layout)
  assert u is None
  eye = np.eye(P * L, dtype=np.float32).reshape(-1, P, L)
  return np.asarray(part_fn()(eye, np.asarray(g))).reshape(P * L, P * L).T


def check_matrix(ctx, got, labels):
  want = qqt(labels).astype(np.float32)
  if not np.array_equal(got, want):
    ctx.fail(f'labels {np.asarray(labels).tolist()}: matrix\n{got}\nexpected\n'
             f'{want}')


def note(ctx, labels):
  l = np.asarray(labels)
  for k in range(l.size):
    ctx.state(l.shape, l.tolist(), k)
  ctx.transition(l.size)
  ctx.trace()
  used = l[l >= 0]
  nt = len(set(used.tolist())) < used.size
  ctx.evaluated(nt)
  if nt:
    ctx.sample(f'slots {l.tolist()}: matrix equals Q Q^T')


def run(ctx, a):
  what = a['what']
  if what in ('plain', 'padded'):
    for n in range(1, a['nmax'] + 1):
      for lab in rgs(n, what == 'padded'):
        names = [np.arange(n)]
        if what == 'plain':
          # other numbers for the same degrees of freedom
          names.append(np.array([11, 2, 30, 5, 7, 101, 4, 6])[:n + 1])
          names.append(np.arange(n + 1)[::-1])
        for nm in names:
          ids = np.array([nm[v] if v >= 0 else -1 for v in lab], np.int32)
          with ctx.case(dict(ids=ids.tolist())):
            g, u = gather_scatter.get_exchange_indices(ids)
            f = lambda v: gather_scatter.exchange(v, g, u)
            m = np.asarray(jax.vmap(f, out_axes=1)(np.eye(n, dtype=np.float32)))
            check_matrix(ctx, m, ids)
            if len(set(lab)) < n - 1:
              # linear, and its own transpose
              t = jax.linear_transpose(f, jnp.zeros(n, jnp.float32))
              mt = np.asarray(jax.vmap(lambda v: t(v)[0])(
                  np.eye(n, dtype=np.float32)))
              ctx.equal(mt, m, 'transpose of rows')
            note(ctx, ids)
  elif what == 'part':
    P, L = a['P'], a['L']
    part, of = a['part']
    for k, lab in enumerate(rgs(P * L, True, per_row=L)):
      if k % of != part:
        continue
      lay = np.array(lab, np.int32).reshape(P, L)
      with ctx.case(dict(layout=lay.tolist())):
        m = partitioned_matrix(lay)
        check_matrix(ctx, m, lay)
        # Whatever padding holds does not reach other entries.
        pad = lay < 0
        if pad.any():
          x = np.arange(1, P * L + 1, dtype=np.float32).reshape(P, L)
          x2 = np.where(pad, np.float32(np.nan), x)
          g, _ = gather_scatter.get_exchange_indices(lay)
          r1 = np.asarray(part_fn()(x[None], np.asarray(g)))[0]
          r2 = np.asarray(part_fn()(x2[None], np.asarray(g)))[0]
          ctx.equal(r2[~pad], r1[~pad], 'with NaN in the padding')
        # A NaN or infinity at one degree of freedom stays on its copies.
        for d in set(lab) - {-1}:
          for bad in (np.nan, np.inf):
            x = np.ones((P, L), np.float32)
            x[lay == d] = bad
            g, _ = gather_scatter.get_exchange_indices(lay)
            r = np.asarray(part_fn()(x[None], np.asarray(g)))[0]
            rest = (lay != d) & ~pad
            ctx.check(np.isfinite(r[rest]).all() and
                      not np.isfinite(r[lay == d]).any(),
                      f'{bad} at {d} gives', r.tolist())
        note(ctx, lay)
  elif what == 'types':
    # each type, values included in the type; both unpartitioned and not
    x64 = jax.config.jax_enable_x64
    types = ['float32', 'int32', 'float16', 'bfloat16', 'int8', 'uint8',
             'complex64'] + (['float64', 'int64', 'complex128'] if x64 else [])
    for dt in types:
      for lab in rgs(5, False):
        ids = np.array(lab, np.int32)
        with ctx.case(dict(dtype=dt, ids=ids.tolist())):
          x = jnp.asarray(np.array([1, 2, 4, 8, 16]), dtype=dt)
          if dt.startswith('complex'):
            x = x * (1 + 2j)
          if dt == 'int64':
            x = x * (1 << 40) + 1
          if dt == 'float64':
            x = x / 3
          x = x.astype(dt)
          g, u = gather_scatter.get_exchange_indices(ids)
          y = gather_scatter.exchange(x, g, u)
          ctx.check(y.dtype == x.dtype, 'dtype', str(y.dtype))
          xs = np.asarray(x)
          want = np.stack([xs[ids == ids[i]].sum() for i in range(5)])
          if dt == 'float64':
            ctx.close(y, want, 1e-14, 'values')
          else:
            ctx.equal(y, want.astype(xs.dtype), 'values')
          ctx.transition()
          ctx.trace()
          ctx.state(dt, lab)
          ctx.evaluated(len(set(lab)) < 5)
      for lay in ([[0, 1, 2], [2, 3, -1]], [[0, 1], [1, 0]], [[-1, 0], [0, -1]],
                  [[0, -1], [1, -1]], [[0, 1], [2, 0], [0, -1]]):
        lay = np.array(lay)
        with ctx.case(dict(dtype=dt, layout=lay.tolist())):
          P, L = lay.shape
          x = jnp.asarray(np.arange(1, P * L + 1).reshape(P, L), dtype=dt)
          g, u = gather_scatter.get_exchange_indices(lay)
          y = jax.vmap(lambda v, gi: gather_scatter.exchange(
              v, gi, u, axis_name='i'), axis_name='i')(x, jnp.asarray(g))
          ctx.check(y.dtype == x.dtype, 'dtype', str(y.dtype))
          m = qqt(lay).astype(int)
          want = (m @ np.arange(1, P * L + 1)).reshape(P, L)
          ctx.equal(np.asarray(y).astype(np.complex128)[lay >= 0],
                    want.astype(np.complex128)[lay >= 0], 'values')
          ctx.transition()
          ctx.trace()
          ctx.state(dt, lay.tolist())
          ctx.evaluated()
    # A NaN at one degree of freedom stays on its copies.
    for lab in rgs(5, False):
      ids = np.array(lab, np.int32)
      for k in range(5):
        with ctx.case(dict(nan=k, ids=ids.tolist())):
          x = np.array([1, 2, 4, 8, 16], np.float32)
          x[k] = np.nan
          g, u = gather_scatter.get_exchange_indices(ids)
          y = np.asarray(gather_scatter.exchange(jnp.asarray(x), g, u))
          want = np.array([x[ids == ids[i]].sum() for i in range(5)])
          ctx.equal(y, want, 'values')
          ctx.transition()
          ctx.trace()
  elif what == 'large':
    # more nodes and shared ones than 16 bit numbers can count
    n = 80000
    x = (np.arange(n) % 11 + 1).astype(np.float32)
    for name, ids in (('pairs', np.arange(n) % (n // 2)),
                      ('mirror', np.minimum(np.arange(n), n - 1 - np.arange(n))),
                      ('ends', np.where(np.arange(n) > n - 3, 1, np.arange(n)))):
      with ctx.case(dict(large=name)):
        g, u = gather_scatter.get_exchange_indices(ids.astype(np.int32))
        got = gather_scatter.exchange(jnp.asarray(x), g, u)
        want = np.bincount(ids, x, n)[ids]
        ctx.equal(got, want.astype(np.float32), 'values')
        ctx.state('large', name)
        ctx.transition()
        ctx.trace()
        ctx.evaluated()
        lay = ids.reshape(2, -1) if name != 'ends' else np.stack(
            [np.arange(n // 2), np.arange(n // 2) + n // 2 - 2])
        g, u = gather_scatter.get_exchange_indices(lay)
        got = np.asarray(part_fn()(x.reshape(1, 2, -1), np.asarray(g)))[0]
        want = np.bincount(lay.ravel(), x, n)[lay]
        ctx.equal(got, want.astype(np.float32), 'values, partitioned')
        ctx.state('large part', name)
        ctx.transition()
        ctx.trace()
        ctx.evaluated()
  elif what == 'repeats':
    # Two copies within a partition: the right sum or a clear rejection.
    for lab in rgs(4, True):
      lay = np.array(lab, np.int32).reshape(2, 2)
      rep = any(len([v for v in r if v >= 0]) != len(set(v for v in r if v >= 0))
                for r in lay.tolist())
      if not rep:
        continue
      with ctx.case(dict(repeats=lay.tolist())):
        try:
          m = partitioned_matrix(lay)
        except NotImplementedError:
          ctx.count('rejected')
          ctx.trace()
          continue
        check_matrix(ctx, m, lay)
        ctx.trace()
    with ctx.case('empty'):
      x = jnp.arange(4.)
      ctx.equal(gather_scatter.exchange(x, None, None), x, 'no indices')
      m = Mesh.create(np.arange(4.)[:, None], np.array([[0, 1], [2, 3]]))
      ctx.equal(m.exchange(x), x, 'plain mesh')
    ctx.state('repeats')
    ctx.transition()
  elif what == 'devices':
    for P, L in ((2, 2), (2, 3), (3, 2), (4, 2)):
      fns = {}
      for k, lab in enumerate(rgs(P * L, True, per_row=L)):
        if k % (1 if P * L < 6 else 7 if P * L < 8 else 41):
          continue
        lay = np.array(lab, np.int32).reshape(P, L)
        with ctx.case(dict(devices=lay.tolist())):
          g, _ = gather_scatter.get_exchange_indices(lay)
          if 'f' not in fns:
            ex = jax.vmap(lambda u, gi: gather_scatter.exchange(
                u, gi, None, axis_name='i'), in_axes=(0, None))
            fns['f'] = jax.pmap(ex, axis_name='i',
                                devices=jax.devices()[:P])
          eye = np.eye(P * L, dtype=np.float32).reshape(-1, P, L)
          out = np.asarray(fns['f'](eye.transpose(1, 0, 2), np.asarray(g)))
          m = out.transpose(1, 0, 2).reshape(P * L, P * L).T
          check_matrix(ctx, m, lay)
          note(ctx, lay)
