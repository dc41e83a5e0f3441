"""C05: local and global view of a device-dependent scalar never disagree."""
import operator
import warnings

import jax
from jax.experimental.shard_map import shard_map
import numpy as np

from swirl_fem.communication.semi_traced_scalar import SemiTracedScalar as STS

LEVEL = 'model_checking'
RULE = ('Breadth-first search over expressions: a state is (number of devices, '
        'table of values per device, type, traced or not); a transition applies '
        'one of 18 operators with a leaf, a plain number (on either side) or '
        'another state of the first level, or a selection, and compares the '
        'value on every device with the table and with numpy on the operands\' '
        'tables. States with equal table, type and tracedness are merged: the '
        'operators see nothing else. A trace is one expression evaluated on all '
        'devices. Non-trivial: the table is not constant.')
ASSUMPTIONS = [
    'Values stay within 32 bit integers and exactly representable or correctly '
    'rounded quotients; division by zero, shifts by negative or too large '
    'amounts and negative powers of integers are outside of the property.',
]

OPS = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'lshift',
       'rshift', 'and', 'xor', 'or', 'lt', 'le', 'eq', 'ne', 'gt', 'ge']
PLAIN = [0, 1, 2, 3, -1, 7, True, 2.5]


def jobs(tier):
  q = tier == 'quick'
  out = []
  for n in (range(1, 9) if q else range(1, 17)):
    out.append(dict(name=f'search n={n}', devices=1, cost=20,
                    args=dict(n=n, what='bfs')))
  for n in ([1, 2, 3, 5, 8] if q else range(1, 13)):
    out.append(dict(name=f'devices n={n}', devices=n,
                    args=dict(n=n, what='devices')))
  return out


def table(x):
  return np.asarray(x.global_ if isinstance(x, STS) else x)


def reference(op, a, b):
  """numpy on the tables, or None where the operation is not defined."""
  a, b = np.asarray(a), np.asarray(b)
  isb = a.dtype == bool and b.dtype == bool
  af, bf = a.dtype.kind == 'f', b.dtype.kind == 'f'
  if op in ('lshift', 'rshift'):
    if af or bf or isb or (b < 0).any() or (b > 30).any() or (a < 0).any():
      return None
  if op in ('and', 'or', 'xor') and (af or bf):
    return None
  if op in ('truediv', 'floordiv', 'mod') and (b == 0).any():
    return None
  if op == 'pow' and ((b < 0).any() or (b > 30).any()):
    return None
  if op in ('floordiv', 'mod', 'pow', 'sub', 'truediv') and isb:
    return None
  if op in ('floordiv', 'mod', 'pow') and (af or bf):
    # only on quotients which are exact in both precisions
    for t in (a, b):
      if t.dtype.kind == 'f' and not np.all(t * 8 == np.round(t * 8)):
        return None
    if op == 'pow' and bf:
      return None
  with warnings.catch_warnings(), np.errstate(all='ignore'):
    warnings.simplefilter('ignore')
    # on Python numbers, by device, in arbitrary precision
    if op == 'lshift' or op == 'pow' or op == 'mul':
      big = np.vectorize(lambda x, y: abs(getattr(operator, f'__{op}__')(x, y)),
                         otypes=[object])(a.astype(object), b.astype(object))
      if any(v >= 2 ** 31 for v in np.atleast_1d(big).ravel()):
        return None
    r = getattr(operator, f'__{op}__')(a, b)
  r = np.asarray(r)
  if r.dtype.kind in 'iu' and (np.abs(r.astype(np.int64)) >= 2 ** 31).any():
    return None
  return r


def traced(x):
  return isinstance(x.local, jax.Array) or isinstance(x.local, jax.core.Tracer)


def same(n, got, want):
  got = np.asarray(got)
  want = np.broadcast_to(np.asarray(want), (n,))
  if want.dtype.kind == 'f' or got.dtype.kind == 'f':
    return got.shape == (n,) and np.all(
        np.abs(got - want) <= 1e-5 * np.maximum(1, np.abs(want)))
  return got.shape == (n,) and np.array_equal(got.astype(np.int64),
                                              want.astype(np.int64))


class Search:
  """One level of expressions, evaluated under one mapping."""

  def __init__(self, ctx, n):
    self.ctx, self.n = ctx, n
    self.names, self.scalars, self.want = [], [], []
    self.seen = {}
    self.bad = []

  def leaves(self):
    idx = STS.axis_index('i')
    n = STS.axis_size('i')
    out = [('i', idx, np.arange(self.n)), ('n', n, np.full(self.n, self.n))]
    for c in (0, 2, 3, True):
      out.append((f'c{c}', STS.constant(c, 'i'), np.full(self.n, c)))
    return out

  def note(self, name, s, want):
    """Registers an evaluated expression; True if it is a new state."""
    g = np.asarray(s.global_)
    if not same(self.n, g, want):
      self.bad.append((name, f'table {g.tolist()} expected '
                       f'{np.asarray(want).tolist()}'))
    self.names.append(name)
    self.scalars.append(s.local)
    self.want.append(want)
    w = np.broadcast_to(np.asarray(want), (self.n,))
    kind = 'f' if w.dtype.kind == 'f' else 'b' if w.dtype == bool else 'i'
    key = (kind, tuple(w.tolist()), traced(s))
    if key in self.seen:
      return False
    self.seen[key] = (name, s, w)
    self.ctx.state(self.n, *key)
    return True

  def apply(self, op, x, y):
    """x, y: (name, scalar or number, table)."""
    r = reference(op, x[2], y[2])
    if r is None:
      return None
    s = getattr(operator, f'__{op}__')(x[1], y[1])
    self.ctx.transition()
    name = f'({x[0]} {op} {y[0]})'
    new = self.note(name, s, r)
    return (name, s, r) if new else None


def expand(search, frontier, others, plain):
  new = []
  for x in frontier:
    for op in OPS:
      for p in plain:
        for pair in (((x, (str(p), p, np.asarray(p)))),
                     (((str(p), p, np.asarray(p)), x))):
          r = search.apply(op, *pair)
          if r:
            new.append(r)
      for y in others:
        for pair in ((x, y), (y, x)):
          r = search.apply(op, *pair)
          if r:
            new.append(r)
  return new


def run(ctx, a):
  n = a['n']
  found = []

  def body():
    s = Search(ctx, n)
    found.append(s)
    lv = s.leaves()
    for name, x, w in lv:
      s.note(name, x, w)
    level1 = expand(s, lv, lv, PLAIN)
    if a['what'] == 'bfs':
      level2 = (expand(s, level1, lv[:2], [2]) if ctx.quick
                else expand(s, level1, lv, PLAIN))
      # pairs of first level expressions, and selection
      core = level1[::max(1, len(level1) // (45 if ctx.quick else 200))]
      for x in core:
        for y in core:
          for op in OPS:
            s.apply(op, x, y)
      conds = [e for e in lv + level1
               if np.asarray(e[2]).dtype == bool][:40]
      vals = (lv + core)[:24 if ctx.quick else 120]
      for c in conds:
        for x in vals:
          for y in vals[::3]:
            w = np.where(c[2], x[2], y[2])
            ctx.transition()
            s.note(f'where({c[0]}, {x[0]}, {y[0]})',
                   STS.where(c[1], x[1], y[1]), w)
      # what follows a selection
      if not ctx.quick:
        expand(s, level2[::25], lv[:2], [1])
    return [jax.numpy.asarray(v) for v in s.scalars]

  with ctx.case(dict(n=n, what=a['what'], part='evaluation')):
    dummy = np.zeros(n, np.int32)
    if a['what'] == 'bfs':
      outs = jax.vmap(lambda _: body(), axis_name='i')(dummy)
    else:
      mesh = jax.sharding.Mesh(np.array(jax.devices()[:n]), ('i',))
      spec = jax.sharding.PartitionSpec('i')
      outs = jax.jit(shard_map(jax.vmap(lambda _: body()), mesh=mesh,
                               in_specs=spec, out_specs=spec,
                               check_rep=False))(dummy)
  if not found or ctx.violations:
    return
  s = found[-1]
  for name, msg in s.bad[:5]:
    with ctx.case(dict(n=n, expr=name)):
      ctx.fail(f'{name}: {msg}')
  for name, got, want in zip(s.names, outs, s.want):
    got = np.asarray(got)
    if not same(n, got, want):
      with ctx.case(dict(n=n, expr=name)):
        ctx.fail(f'{name}: on the devices {got.tolist()}, table '
                 f'{np.asarray(want).tolist()}')
    ctx.trace()
    nt = len(set(np.broadcast_to(np.asarray(want), (n,)).tolist())) > 1
    ctx.evaluated(nt)
    if nt:
      ctx.sample(f'{n} devices: {name} = {got.tolist()}')
