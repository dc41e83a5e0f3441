"""C02: exchanged arrays stay aligned, and sending back restores them."""
import collections
import itertools

import numpy as np

from mc import router as R

LEVEL = 'model_checking'
RULE = ('A case is a device count, a pattern of targets, and a tree of arrays '
        '(all pairs of leaf kinds out of eleven, trees of one to five leaves, '
        'nested containers). Histories of three exchanges: to the targets, back '
        'by source, and forth again by the new source, all with patterns '
        'enumerated completely up to a number of items. A state is the contents '
        'of all devices by the model after an exchange; a transition is one '
        'exchange compared with the model; a trace is one history. Non-trivial: '
        'an item changes device.')
ASSUMPTIONS = [
    'XLA host platform devices stand for real devices; the collectives '
    'lax.pshuffle/pmax of JAX are trusted.',
]

SPECIAL = np.array([np.nan, np.inf, -np.inf, -0.0, 0.0, 1.5, -3.25, 1e30,
                    -1e-30, 2.0], np.float32)

# kind -> (trailing shape, function of integer ids -> array)
LEAVES = {
    'i32': ((), lambda v: v.astype(np.int32)),
    'f32': ((), lambda v: v.astype(np.float32) + np.float32(.5)),
    'u8': ((), lambda v: (v * 7 % 251).astype(np.uint8)),
    'i8': ((), lambda v: ((v * 5) % 255 - 127).astype(np.int8)),
    'bool': ((), lambda v: (v * 3 % 5 % 2).astype(bool)),
    'special': ((), lambda v: SPECIAL[v % 10]),
    'f16': ((), lambda v: (v % 500).astype(np.float16) / np.float16(4)),
    'c64': ((), lambda v: (v + 1j * (v + .5)).astype(np.complex64)),
    'f32x2': ((2,), lambda v: np.stack([v + .25, -v - 1.], -1)
              .astype(np.float32)),
    'i32x1': ((1,), lambda v: (v[..., None] * 3 - 4).astype(np.int32)),
    'f32x2x3': ((2, 3), lambda v: (v[..., None, None] * 10.
                                   + np.arange(6.).reshape(2, 3))
                .astype(np.float32)),
    'i32x0': ((0,), lambda v: np.zeros(v.shape + (0,), np.int32)),
    'f64': ((), lambda v: v / 3.),
    'i64': ((), lambda v: v.astype(np.int64) * (1 << 40) + 3),
}

TREES = {
    'dict': lambda l: {'b': l[0], 'a': l[1:]},
    'list': list,
    'tuple': tuple,
    'nested': lambda l: ({'z': l[0]}, [tuple(l[1:]), None]),
}


def jobs(tier):
  q = tier == 'quick'
  out = []
  kinds = [k for k in LEAVES if k not in ('f64', 'i64')]
  pairs = list(itertools.combinations(kinds, 2))
  parts = 6
  for i in range(parts):
    out.append(dict(name=f'leaf pairs {i}', devices=3, cost=10,
                    args=dict(what='pairs', n=3, pairs=pairs[i::parts])))
  out.append(dict(name='x64 leaves', devices=3, x64=True, cost=5,
                  args=dict(what='pairs', n=3, pairs=[
                      ('f64', 'i32'), ('i64', 'f32'), ('f64', 'i64')])))
  out.append(dict(name='trees', devices=3, cost=20, args=dict(what='trees', n=3)))
  out.append(dict(name='no leaves', devices=3, args=dict(what='noleaves', n=3)))
  for n, k in [(1, 3), (2, 3), (3, 1), (4, 1)] + ([] if q else [(5, 1)]):
    out.append(dict(name=f'histories n={n} k={k}', devices=n, cost=9,
                    args=dict(what='history', n=n, fam='full', kw=dict(k=k))))
  if not q:
    for p in range(6):
      out.append(dict(name=f'histories n=3 k=2 {p}', devices=3, cost=30,
                      args=dict(what='history', n=3, fam='full', kw=dict(k=2),
                                part=(p, 6))))
  for n in ([5, 7] if q else range(2, 13)):
    out.append(dict(name=f'history structured n={n}', devices=n, cost=n,
                    args=dict(what='history', n=n, fam='shift', kw={})))
    out.append(dict(name=f'history converge n={n}', devices=n, cost=n,
                    args=dict(what='history', n=n, fam='converge',
                              kw=dict(ks=[1, 3]))))
    out.append(dict(name=f'history spread n={n}', devices=n, cost=n,
                    args=dict(what='history', n=n, fam='spread', kw={})))
  out.append(dict(name='history reversed mesh', devices=4, cost=4,
                  args=dict(what='history', n=4, fam='shift', kw={},
                            layout='reversed')))
  return out


def bits(a):
  """Elements as comparable byte strings, by (device, slot)."""
  a = np.ascontiguousarray(np.asarray(a))
  return a


def items(ctx, n_out, leaves, counts):
  """List per device of tuples of bytes, one entry per leaf."""
  n_out = np.asarray(n_out)
  ctx.equal(n_out, counts, 'item counts')
  arrs = [np.ascontiguousarray(np.asarray(l)) for l in leaves]
  out = []
  for p, c in enumerate(counts):
    out.append(collections.Counter(
        tuple(a[p, j].tobytes() for a in arrs) for j in range(c)))
  return out


def leaf_data(kinds, ids):
  return [LEAVES[k][1](ids) for k in kinds]


def check_leaves(ctx, kinds, leaves, n):
  ctx.check(len(leaves) == len(kinds), 'number of leaves')
  for k, l in zip(kinds, leaves):
    w = LEAVES[k][1](np.zeros((1, 1), np.int64))
    ctx.check(l.dtype == w.dtype, f'dtype of leaf {k}', str(l.dtype))
    ctx.check(l.ndim == w.ndim and l.shape[2:] == w.shape[2:]
              and l.shape[0] == n, f'shape of leaf {k}', l.shape)


def expected(pattern, kinds, ids, with_source=True):
  out = [collections.Counter() for _ in pattern]
  data = leaf_data(kinds, ids)
  for p, ts in enumerate(pattern):
    for j, t in enumerate(ts):
      key = tuple(np.ascontiguousarray(d[p, j]).tobytes() for d in data)
      if with_source:
        key = key + (p,)
      out[t][key] += 1
  return out


def delivered(ctx, n_out, leaves, src, counts):
  n_out = np.asarray(n_out)
  ctx.equal(n_out, counts, 'item counts')
  arrs = [np.ascontiguousarray(np.asarray(l)) for l in leaves]
  s = None if src is None else np.asarray(src)
  out = []
  for p, c in enumerate(counts):
    cnt = collections.Counter()
    for j in range(c):
      key = tuple(a[p, j].tobytes() for a in arrs)
      if s is not None:
        key = key + (int(s[p, j]),)
      cnt[key] += 1
    out.append(cnt)
  return out


def exchange_case(ctx, n, pat, kinds, tree, garbage, source, tdtype=np.int32,
                  size=None):
  import jax
  with ctx.case(dict(n=n, pattern=pat, kinds=kinds, tree=tree, garbage=garbage,
                     source=source, tdtype=np.dtype(tdtype).name)):
    size = size or max(1, max(map(len, pat)))
    counts, ids, tgt = R.encode(pat, size, garbage)
    tgt = tgt.astype(tdtype)
    data = leaf_data(kinds, ids.astype(np.int64))
    obj = data[0] if tree == 'leaf' else TREES[tree](data)
    if source:
      n_out, got, src = R.router(n)(counts, obj, tgt)
    else:
      n_out, got = R.router(n)(counts, obj, tgt, return_source=False)
      src = None
    want_def = jax.tree_util.tree_structure(obj)
    ctx.check(jax.tree_util.tree_structure(got) == want_def, 'tree structure')
    order = {id(x): i for i, x in enumerate(jax.tree_util.tree_leaves(obj))}
    kk = [None] * len(kinds)
    for k, d in zip(kinds, data):
      kk[order[id(d)]] = k
    leaves = jax.tree_util.tree_leaves(got)
    check_leaves(ctx, kk, leaves, n)
    want = expected(pat, kk, ids.astype(np.int64), source)
    wc = np.array([sum(c.values()) for c in want])
    have = delivered(ctx, n_out, leaves, src, wc)
    for p in range(n):
      if have[p] != want[p]:
        ctx.fail(f'device {p}: items {have[p]} expected {want[p]}')
    moved = any(t != p for p, ts in enumerate(pat) for t in ts)
    ctx.state(n, pat, tuple(kinds), tree)
    ctx.transition()
    ctx.trace()
    ctx.evaluated(moved)
    if moved:
      ctx.sample(f'{n} devices, leaves {kinds} as {tree}, targets {pat}, '
                 f'return_source={source}')


def history_case(ctx, n, pat, layout):
  with ctx.case(dict(n=n, pattern=pat, history=True, layout=layout)):
    kinds = ('i32', 'f32x2', 'bool')
    size = max(1, max(map(len, pat)))
    counts, ids, tgt = R.encode(pat, size, 'inrange')
    data = leaf_data(kinds, ids.astype(np.int64))
    ex = R.router(n, layout)
    # where each item (by its bytes) is, by the model
    place = {}
    home = {}
    for p, ts in enumerate(pat):
      for j, t in enumerate(ts):
        place[p, j], home[p, j] = t, p

    def contents(where, frm):
      """Contents by device: item bytes and the device it came from."""
      out = [collections.Counter() for _ in range(n)]
      for (p, j), d in where.items():
        key = tuple(np.ascontiguousarray(x[p, j]).tobytes() for x in data)
        out[d][key + (frm[p, j],)] += 1
      return out

    cur = (counts, data, tgt)
    for step, (where, frm) in enumerate(
        [(place, home), (home, place), (place, home)]):
      n_out, got, src = ex(*cur)
      want = contents(where, frm)
      wc = np.array([sum(c.values()) for c in want])
      check_leaves(ctx, kinds, got, n)
      have = delivered(ctx, n_out, got, src, wc)
      for p in range(n):
        if have[p] != want[p]:
          ctx.fail(f'after exchange {step}, device {p} has {have[p]}, '
                   f'expected {want[p]}')
      ctx.state(n, step, [sorted(c.items()) for c in want])
      ctx.transition()
      cur = (n_out, got, src)
    ctx.trace()
    moved = any(t != p for p, ts in enumerate(pat) for t in ts)
    ctx.evaluated(moved)
    if moved:
      ctx.sample(f'{n} devices, targets {pat}: there, back and there again')


def run(ctx, a):
  n, what = a['n'], a['what']
  if what == 'history':
    pats = list(R.patterns(a['fam'], n, **a['kw']))
    part, of = a.get('part', (0, 1))
    for pat in pats[part::of]:
      history_case(ctx, n, pat, a.get('layout', 'plain'))
    return
  ring = [tuple(((p + s) % n, p)[:k] for p in range(n))
          for s in range(n) for k in (1, 2)]
  uneven = [((0, 1, 2), (), (0,)), ((), (2, 2, 2), (1,)), ((2,), (2,), (2,)),
            ((), (), ()), ((), (0,), (0, 1)), ((1, 1, 0), (2, 0, 1), (0, 0, 0))]
  pats = ring + uneven
  if what == 'pairs' and ctx.quick:
    # One static length, so that every pair is compiled for few shapes only.
    for m, pair in enumerate(a['pairs']):
      kinds = tuple(pair[::1 if m % 2 else -1])
      for i, pat in enumerate(pats):
        exchange_case(ctx, n, pat, kinds, 'tuple',
                      ('inrange', 'neg', 'big')[i % 3], True, size=3)
  elif what == 'pairs':
    for pair in a['pairs']:
      for kinds in (tuple(pair), tuple(pair[::-1])):
        for i, pat in enumerate(pats):
          exchange_case(ctx, n, pat, kinds, 'tuple',
                        ('inrange', 'neg', 'big')[i % 3], True)
      for pat in pats[::2]:
        exchange_case(ctx, n, pat, tuple(pair), 'tuple', 'inrange', False)
  elif what == 'trees':
    for kinds in (('f32x2',), ('i32',)):
      for pat in pats:
        for source in (True, False):
          exchange_case(ctx, n, pat, kinds, 'leaf', 'big', source)
    for tree in TREES:
      size = 3 if ctx.quick else None
      for kinds in (('f32x2', 'i32', 'bool'), ('i8', 'f32x2x3', 'special', 'u8',
                                                'i32x1')):
        for pat in pats:
          for source in (True, False):
            exchange_case(ctx, n, pat, kinds, tree, 'neg', source,
                            size=size)
    for td in (np.int8, np.int16, np.uint8, np.uint32):
      for pat in pats[::3] if ctx.quick else pats:
        for source in (True, False):
          exchange_case(ctx, n, pat, ('i32', 'f32'), 'tuple', 'inrange', source,
                        td)
  elif what == 'noleaves':
    # Without arrays only counts and sources are returned.
    for pat in pats + list(R.patterns('full', n, k=1)):
      with ctx.case(dict(n=n, pattern=pat, noleaves=True)):
        size = max(1, max(map(len, pat)))
        counts, _, tgt = R.encode(pat, size, 'inrange')
        n_out, got, src = R.router(n)(counts, {}, tgt)
        ctx.check(got == {}, 'tree structure')
        want = [collections.Counter() for _ in pat]
        for p, ts in enumerate(pat):
          for t in ts:
            want[t][(p,)] += 1
        wc = np.array([sum(c.values()) for c in want])
        have = delivered(ctx, n_out, [], src, wc)
        ctx.check(have == want, 'sources', have, want)
        ctx.state(n, pat)
        ctx.transition()
        ctx.trace()
        ctx.evaluated(any(map(len, pat)))
