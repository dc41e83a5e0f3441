"""C01: the sparse exchange delivers every item once, to its target only."""
from mc import router as R

LEVEL = 'model_checking'
RULE = ('A case is a device count, a target for every item of every device, and '
        'a static padding. Families are enumerated completely: all patterns '
        'with up to k items per device (full), all sender/target pairs, all '
        'sender subsets to one target, all maps and permutations, all count '
        'vectors, and convergence of many items on each device, which makes '
        'every routing stage overflow its buffer. A state is a model state: '
        '(devices, padding, items with their targets); a transition is one '
        'item moved from its device to its target and compared; a trace is one '
        'exchange by the real code on XLA host devices compared with the '
        'model. Non-trivial: at least one item changes device.')
ASSUMPTIONS = [
    'XLA host platform devices stand for real devices; the collectives '
    'lax.pshuffle/pmax of JAX are trusted.',
    'Targets of real items are valid device positions.',
]


def jobs(tier):
  q = tier == 'quick'
  out = []

  def add(name, n, family, devices=None, cost=1, **kw):
    out.append(dict(name=name, devices=devices or n, cost=cost,
                    args=dict(n=n, family=family, **kw)))

  add('full n=1', 1, 'full', kw=dict(k=4), garbages=['zero', 'big'])
  add('full n=2', 2, 'full', kw=dict(k=3), garbages=['inrange', 'neg'], cost=3)
  add('full n=3', 3, 'full', kw=dict(k=2), garbages=['inrange'], cost=9)
  add('full n=4', 4, 'full', kw=dict(k=1), garbages=['inrange', 'neg'], cost=5)
  add('counts n=3', 3, 'counts', kw=dict(k=3), garbages=['last'], cost=3)
  add('counts n=4', 4, 'counts', kw=dict(k=2), garbages=['inrange'], cost=3)
  add('subsets n=5', 5, 'subsets', garbages=['inrange'], cost=3)
  add('twotargets n=5', 5, 'twotargets', garbages=['big'], cost=4)
  add('maps n=4 reversed', 4, 'maps', layout='reversed', garbages=['neg'],
      cost=3)
  add('permutations n=5 tail', 5, 'permutations', devices=7, layout='tail',
      garbages=['big'], cost=2)
  add('padding', 3, 'padding', cost=5)
  add('padding5', 5, 'padding', cost=5)
  sizes = [2, 3, 5, 6, 7, 8] if q else list(range(1, 17))
  for n in sizes:
    add(f'structured n={n}', n, 'structured', cost=n)
  if q:
    add('structured n=12', 12, 'structured', cost=12, ks=[1, 3])
  else:
    add('full n=2 k=5', 2, 'full', kw=dict(k=5), garbages=['neg'], cost=20)
    for part in range(8):
      add(f'full n=3 k=3 part {part}', 3, 'full', kw=dict(k=3), part=(part, 8),
          garbages=['inrange'], cost=60)
    add('full n=5 k=1', 5, 'full', kw=dict(k=1), garbages=['big'], cost=30)
    for part in range(4):
      add(f'full n=4 k=2 part {part}', 4, 'full', kw=dict(k=2),
          part=(part, 4), garbages=['inrange'], cost=100)
    add('maps n=6', 6, 'maps', garbages=['inrange'], cost=100)
    add('maps n=5', 5, 'maps', garbages=['inrange'], cost=20)
    add('permutations n=6', 6, 'permutations', garbages=['big'], cost=9)
    add('subsets n=8', 8, 'subsets', garbages=['big'], cost=20)
    add('twotargets n=7', 7, 'twotargets', garbages=['big'], cost=40)
    add('counts n=6', 6, 'counts', kw=dict(k=2), garbages=['big'], cost=30)
  return out


def one(ctx, n, pat, size, garbage, layout='plain'):
  with ctx.case(dict(n=n, pattern=pat, size=size, garbage=garbage,
                     layout=layout)):
    counts, ids, tgt = R.encode(pat, size, garbage)
    n_out, data, src = R.router(n, layout)(counts, ids, tgt)
    R.check_delivery(ctx, pat, n_out, data, src)
    moved = sum(t != p for p, ts in enumerate(pat) for t in ts)
    ctx.state(n, size, pat)
    ctx.transition(sum(map(len, pat)))
    ctx.trace()
    ctx.evaluated(moved > 0)
    ctx.count('items_moved', moved)
    if moved:
      ctx.sample(f'{n} devices, static size {size}, targets by device {pat}: '
                 f'all delivered')


def run(ctx, a):
  n, family = a['n'], a['family']
  layout = a.get('layout', 'plain')
  if family == 'structured':
    ks = a.get('ks', [1, 2, 3, 5])
    for fam, kw in (('pairs', dict(two=n <= 8)), ('converge', dict(ks=ks)),
                    ('spread', {}), ('shift', {})):
      pats = list(R.patterns(fam, n, **kw))
      for i, pat in enumerate(pats):
        size = max(1, max(map(len, pat)))
        one(ctx, n, pat, size, ('inrange', 'neg', 'big')[i % 3], layout)
    return
  if family == 'padding':
    # Static sizes beyond the items, including none at all, all garbage kinds.
    for k in (0, 1, 2, 3):
      for extra in (0, 1, 2, 3, 5):
        for garbage in ('zero', 'inrange', 'last', 'big', 'neg'):
          for s in range(n):
            one(ctx, n, tuple(((p + s) % n,) * (k if p != s else 0)
                              for p in range(n)), k + extra, garbage, layout)
            one(ctx, n, tuple((s,) * k for p in range(n)), k + extra, garbage,
                layout)
    return
  pats = list(R.patterns(family, n, **a.get('kw', {})))
  part, of = a.get('part', (0, 1))
  pats = pats[part::of]
  size = max(1, max(len(t) for pat in pats for t in pat))
  for garbage in a['garbages']:
    for pat in pats:
      one(ctx, n, pat, size, garbage, layout)
