"""C03: scan and reduction equal the sequential fold in device order."""
import itertools

import jax
from jax.experimental.shard_map import shard_map
import jax.numpy as jnp
import numpy as np

from swirl_fem.communication import pscan as PS

LEVEL = 'model_checking'
RULE = ('A case is a device count, an operation, a mode (scan, scan with '
        'reduction, reduction), a dtype and a word of one value per device. All '
        'words over an alphabet with the extreme values of the dtype are '
        'enumerated up to a length, and all words with one or two positions '
        'different from the rest beyond. A state is a (devices, operation, '
        'dtype, prefix of a word) with its fold; a transition is the step of '
        'the fold by one more device, compared on the device after it; a trace '
        'is one word in one mode. Non-trivial: the word is not constant.')
ASSUMPTIONS = [
    'XLA host platform devices stand for real devices; lax collectives are '
    'trusted.',
    'Values are chosen so that the operation is exactly associative on them.',
]

OPS = {
    'add': (jnp.add, np.add), 'multiply': (jnp.multiply, np.multiply),
    'maximum': (jnp.maximum, np.maximum), 'minimum': (jnp.minimum, np.minimum),
    'bitwise_and': (jnp.bitwise_and, np.bitwise_and),
    'bitwise_or': (jnp.bitwise_or, np.bitwise_or),
    'bitwise_xor': (jnp.bitwise_xor, np.bitwise_xor),
}

# (op, dtype) -> alphabet
def alphabet(op, dt):
  d = np.dtype(dt)
  if d == bool:
    return [False, True]
  if op == 'add':
    if d.kind == 'c':
      return [0, 1, 2 - 3j]
    return {'f': [0, 1, -3, np.inf], 'i': [0, 1, -3, np.iinfo(d).max
                                           if d.kind == 'i' else 0],
            'u': [0, 1, 255]}[d.kind]
  if op == 'multiply':
    if d.kind == 'c':
      return [1, 2, 1j]
    return {'f': [1, 2, -1, 0.5], 'i': [1, 2, -3, 0], 'u': [1, 2, 3]}[d.kind]
  if op in ('maximum', 'minimum'):
    if d.kind == 'f':
      return [0, -1.5, 2, np.inf, -np.inf]
    i = np.iinfo(d)
    return [1, i.min, i.max, 5]
  if d.kind == 'u':
    return [0, 1, 255, 6]
  return [0, 1, -1, 6, np.iinfo(d).min]


def identity(op, dt):
  d = np.dtype(dt)
  if op in ('add', 'bitwise_or', 'bitwise_xor'):
    return np.zeros((), d)
  if op == 'multiply':
    return np.ones((), d)
  if op == 'bitwise_and':
    return ~np.zeros((), d)
  lo, hi = ((False, True) if d == bool else (-np.inf, np.inf) if d.kind == 'f'
            else (np.iinfo(d).min, np.iinfo(d).max))
  return np.array(lo if op == 'maximum' else hi, d)


DTYPES = {
    'add': ['int32', 'float32', 'int8', 'uint8', 'float16', 'complex64'],
    'multiply': ['int32', 'float32', 'uint8', 'complex64'],
    'maximum': ['int32', 'float32', 'int8', 'uint8', 'float16', 'bool'],
    'minimum': ['int32', 'float32', 'int8', 'uint8', 'float16', 'bool'],
    'bitwise_and': ['int32', 'uint8', 'bool', 'int16'],
    'bitwise_or': ['int32', 'uint8', 'bool', 'int16'],
    'bitwise_xor': ['int32', 'uint8', 'bool', 'int16'],
}
X64 = {'add': ['float64', 'int64'], 'multiply': ['float64', 'int64'],
       'maximum': ['float64', 'int64'], 'minimum': ['float64', 'int64'],
       'bitwise_and': ['int64', 'uint64'], 'bitwise_or': ['int64', 'uint64'],
       'bitwise_xor': ['int64', 'uint64']}


def words(op, dt, n, limit):
  """Words of length n: complete when there are at most `limit`."""
  al = alphabet(op, dt)
  complete = True
  sub = al
  while len(sub) > 2 and len(sub) ** n > limit:
    sub = sub[:-1]
  complete = len(sub) ** n <= limit
  out = []
  if complete:
    out.extend(itertools.product(sub, repeat=n))
  # All words that differ from a constant at one or two places.
  for base in al:
    for x in al:
      if x == base:
        continue
      for p in range(n):
        w = [base] * n
        w[p] = x
        out.append(tuple(w))
        for q in range(p + 1, n):
          w2 = list(w)
          w2[q] = al[-1]
          out.append(tuple(w2))
  # A witness of exactly which devices took part.
  d = np.dtype(dt)
  if d.kind in 'iu':
    nb = d.itemsize * 8 - 1
    if op in ('add', 'bitwise_or', 'bitwise_xor') and n <= nb:
      out.append(tuple(1 << p for p in range(n)))
    if op in ('maximum', 'minimum') and n <= 100:
      out.append(tuple(range(n)))
      out.append(tuple(range(n, 0, -1)))
    if op == 'bitwise_and' and n <= nb and d.kind == 'i':
      out.append(tuple(~(1 << p) for p in range(n)))
  out = list(dict.fromkeys(out))
  return np.array(out, dtype=d).T  # (n, words)


def jobs(tier):
  q = tier == 'quick'
  out = []
  ns = [1, 2, 3, 4, 5, 6, 7, 8, 11] if q else list(range(1, 17))
  for n in ns:
    for ops in (('add', 'maximum'), ('multiply', 'minimum'),
                ('bitwise_and', 'bitwise_or', 'bitwise_xor')):
      out.append(dict(name=f'n={n} {"+".join(ops)}', devices=n, cost=n,
                      args=dict(n=n, ops=ops, x64=False)))
  for n in ([3, 6] if q else ns):
    out.append(dict(name=f'x64 n={n}', devices=n, cost=n, x64=True,
                    args=dict(n=n, ops=list(OPS), x64=True)))
  for n in ([1, 3, 4, 7] if q else ns):
    out.append(dict(name=f'trees n={n}', devices=n, cost=n,
                    args=dict(n=n, trees=True)))
  # The same routines under vmap, for device counts beyond the devices here.
  for n in ([9, 10, 12, 13] if q else range(1, 34)):
    out.append(dict(name=f'vmap n={n}', devices=1, cost=9,
                    args=dict(vmap=True, n=n)))
  return out


def distributed(fn, n):
  mesh = jax.sharding.Mesh(np.array(jax.devices()[:n]), ('i',))
  spec = jax.sharding.PartitionSpec('i')
  return jax.jit(shard_map(jax.vmap(fn), mesh=mesh, in_specs=spec,
                           out_specs=spec, check_rep=False))


def mapped(fn, n):
  del n
  return jax.jit(jax.vmap(fn, axis_name='i'))


def fold(op, x):
  """(exclusive scan, total) along axis 0 by the sequential model."""
  npop = OPS[op][1]
  acc = np.broadcast_to(identity(op, x.dtype), x.shape[1:]).copy()
  scan = []
  with np.errstate(all='ignore'):
    for row in x:
      scan.append(acc)
      acc = npop(acc, row).astype(x.dtype)
  return np.stack(scan), acc


MODES = {
    'scan': lambda op: lambda v: PS.pscan(v, op, 'i'),
    'scan+red': lambda op: lambda v: PS.pscan(v, op, 'i', reduction=True),
    'red': lambda op: lambda v: PS.preduce(v, op, 'i'),
}


def compare(ctx, op, mode, x, got):
  scan, total = fold(op, x)
  total = np.broadcast_to(total, x.shape)
  parts = {'scan': [scan], 'red': [total], 'scan+red': [scan, total]}[mode]
  gots = list(got) if mode == 'scan+red' else [got]
  ctx.check(len(gots) == len(parts), 'number of results')
  for nm, g, w in zip(['first', 'second'], gots, parts):
    g = np.asarray(g)
    ctx.check(g.dtype == w.dtype, f'dtype of {nm} result', str(g.dtype))
    ctx.check(g.shape == w.shape, f'shape of {nm} result', g.shape)
    bad = ~((g == w) | ((g != g) & (w != w)))
    if bad.any():
      i = tuple(np.argwhere(bad)[0])
      ctx.fail(f'{mode} of {op}: device {i[0]}, word {x[(slice(None),) + i[1:]]}:'
               f' got {g[i]}, expected {w[i]}')


def sweep(ctx, n, ops, dtypes, make, tag, limit):
  for op in ops:
    for dt in dtypes[op]:
      x = words(op, dt, n, limit)
      for mode in MODES:
        with ctx.case(dict(n=n, op=op, dtype=dt, mode=mode, by=tag)):
          got = make(MODES[mode](OPS[op][0]), n)(x)
          compare(ctx, op, mode, x, got)
          nw = x.shape[1]
          ctx.trace(nw)
          ctx.transition(nw * n)
          nontriv = int((x != x[:1]).any(axis=0).sum())
          ctx.evaluated(False, nw)
          ctx.count('nontrivial', nontriv)
      if tag == 'devices':
        for w in x.T[:4096]:
          for p in range(n + 1):
            ctx.state(op, dt, n, w[:p].tobytes())
        ctx.sample(f'{n} devices, {op} of {dt}, {x.shape[1]} words, e.g. '
                   f'{x[:, -1].tolist()}')


def tree_case(ctx, n):
  rng = np.arange(n)
  tree = {
      'b': (rng.astype(np.int32) + 1)[:, None] * np.array([1, 2, 3], np.int32),
      'a': [rng.astype(np.float32) - 2.5,
            ((rng[:, None, None] + np.arange(4).reshape(2, 2)) % 3
             ).astype(np.int8)],
      'c': (rng % 2).astype(np.uint8),
      'd': np.zeros((n, 0), np.float32),
  }
  itree = {k: (v if not isinstance(v, list) else v[1:])
           for k, v in tree.items() if k != 'd'}
  for op in OPS:
    t = itree if op.startswith('bitwise') else tree
    for mode in MODES:
      with ctx.case(dict(n=n, op=op, mode=mode, tree=True)):
        got = distributed(MODES[mode](OPS[op][0]), n)(t)
        parts = list(got) if mode == 'scan+red' else [got]
        leaves, td = jax.tree_util.tree_flatten(t)
        for i, part in enumerate(parts):
          gl, gtd = jax.tree_util.tree_flatten(part)
          ctx.check(gtd == td, 'tree structure')
          for x, g in zip(leaves, gl):
            scan, total = fold(op, x)
            w = (scan if mode == 'scan' or (mode == 'scan+red' and i == 0)
                 else np.broadcast_to(total, x.shape))
            g = np.asarray(g)
            ctx.check(g.dtype == w.dtype, 'dtype', str(g.dtype), str(w.dtype))
            ctx.equal(g, w, f'{mode} of {op} on leaf of shape {x.shape}')
            ctx.transition(n)
        ctx.state(n, op, 'tree')
        ctx.trace()
        ctx.evaluated()


def run(ctx, a):
  if a.get('vmap'):
    sweep(ctx, a['n'], OPS, {op: DTYPES[op][:1 if ctx.quick else 2]
                             for op in OPS}, mapped, 'vmap',
          1200 if ctx.quick else 20000)
    return
  if a.get('trees'):
    tree_case(ctx, a['n'])
    return
  sweep(ctx, a['n'], a['ops'], X64 if a['x64'] else DTYPES, distributed,
        'devices', 1200 if ctx.quick else 20000)
