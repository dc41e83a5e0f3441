"""T01: training windows are consecutive snapshots, each used exactly once."""
import itertools
import os
import pathlib

import h5py
import numpy as np

LEVEL = 'model_checking'
RULE = ('Small sets of shard files are written in which each snapshot can be '
        'recognised. The pipeline is run on them, for all numbers of snapshots '
        'per file, window sizes, strides and subsampling steps within the '
        'bounds, both splits, with and without the debug mode and the cache, '
        'for all numbers of hosts which divide the examples, with each host '
        'enumerated. All batches of two epochs are compared with the list of '
        'windows by definition.')
ASSUMPTIONS = ['Files hold equally many snapshots, as announced in '
               'NUM_SPLIT_EXAMPLES (28 files as in the program).',
               'A split has at least one window; the number of examples is a '
               'multiple of the number of hosts.']

N, M = 3, 2          # nodes of velocity and pressure
SHARDS = {True: range(0, 24), False: range(24, 28)}


def jobs(tier):
  q = tier == 'quick'
  out = []
  parts = 6 if q else 16
  for k in range(parts):
    out.append(dict(name=f'windows {k}', x64=False, cost=25,
                    args=dict(windows=(k, parts))))
  for k in range(3 if q else 8):
    out.append(dict(name=f'hosts {k}', x64=False, cost=25,
                    args=dict(hosts=(k, 3 if q else 8))))
  for k in range(2 if q else 4):
    out.append(dict(name=f'batches {k}', x64=False, cost=25,
                    args=dict(batches=(k, 2 if q else 4))))
  return out


def run(ctx, a):
  for kind in a:
    globals()[kind](ctx, a[kind])


def snapshot(shard, i):
  """The snapshot `i` of a shard (not representable in single precision)."""
  c = 1000 * shard + i + 1 / 3
  return dict(u=c + np.arange(2 * N).reshape(N, 2) / 64,
              p=-c - np.arange(M) / 64, t=np.float64(c * 1e-3))


class Pipeline:
  """The pipeline, with files in a scratch directory."""

  def __init__(self, ctx):
    from absl import flags
    import jax
    import ml_collections
    from swirl_fem.niles import input_pipeline
    import tensorflow_datasets as tfds
    self.ip, self.tfds, self.jax = input_pipeline, tfds, jax
    self.config = lambda d: ml_collections.FrozenConfigDict(d)
    self.dir = pathlib.Path(ctx.scratch) / 'shards'
    self.dir.mkdir(parents=True, exist_ok=True)
    if not flags.FLAGS.is_parsed():
      flags.FLAGS(['x'])
    flags.FLAGS.dataset_dir = str(self.dir)
    self.n = None

  def files(self, n):
    if n == self.n:
      return
    self.n = n
    for s in range(28):
      snaps = [snapshot(s, i) for i in range(n)]
      with h5py.File(self.dir / f'filtered_dns_shard_{s:02}.hdf5', 'w') as f:
        for k in 'upt':
          f[k] = np.stack([x[k] for x in snaps])
    self.ip.NUM_SPLIT_EXAMPLES[self.tfds.Split.TRAIN] = 24 * n
    self.ip.NUM_SPLIT_EXAMPLES[self.tfds.Split.VALIDATION] = 4 * n

  def windows(self, train, w, s, step, debug):
    """The windows by definition, as lists of (shard, snapshot)."""
    shards = list(SHARDS[train])[:1] if debug else SHARDS[train]
    return [tuple((f, i + d) for d in range(0, w, step))
            for f in shards for i in range(self.n)
            if i % s == 0 and i + w <= self.n]

  def announced(self, train, w, s, debug):
    split = self.tfds.Split.TRAIN if train else self.tfds.Split.VALIDATION
    return int(self.ip.get_num_examples(split, w, s, debug))

  def create(self, train, w, s, step, debug, cache, batch_size, host=(0, 1)):
    # the other split has other sizes, which must not matter
    own, other = ('train', 'eval') if train else ('eval', 'train')
    config = self.config({
        f'{own}_window_size': w, f'{own}_window_stride': s,
        f'{other}_window_size': 97, f'{other}_window_stride': 5,
        'window_step': step, 'debug': debug, 'cache': cache,
        'batch_size': batch_size * host[1]})
    saved = self.jax.process_index, self.jax.process_count
    try:
      self.jax.process_index = lambda *_: host[0]
      self.jax.process_count = lambda *_: host[1]
      return self.ip.create_split(batch_size, train, config)
    finally:
      self.jax.process_index, self.jax.process_count = saved

  def identify(self, ctx, u, p, t):
    """The window of an example, with all its contents checked."""
    out = []
    ctx.check(len(u) == len(p) == len(t), 'lengths', len(u), len(p), len(t))
    for j in range(len(t)):
      c = float(t[j]) * 1000
      shard, i = int(c // 1000), int(c % 1000)
      want = snapshot(shard, i)
      ctx.equal(t[j], want['t'], 'time')
      ctx.equal(u[j], want['u'], f'velocity of time {want["t"]}')
      ctx.equal(p[j], want['p'], f'pressure of time {want["t"]}')
      out.append((shard, i))
    return tuple(out)

  def epochs(self, ctx, ds, batch_size, batches, epochs=2):
    """The windows of some epochs."""
    it = iter(ds)
    out = []
    for _ in range(epochs):
      seen = []
      for _ in range(batches):
        b = {k: np.asarray(v) for k, v in next(it).items()}
        ctx.check(sorted(b) == ['p', 't', 'u'], 'keys', sorted(b))
        ctx.check(all(len(v) == batch_size for v in b.values()), 'batch size',
                  {k: v.shape for k, v in b.items()})
        for e in range(batch_size):
          seen.append(self.identify(ctx, b['u'][e], b['p'][e], b['t'][e]))
          ctx.transition()
      out.append(seen)
    return out


def _distinct(ctx, seen, of):
  ctx.check(len(set(seen)) == len(seen), 'example repeated in an epoch',
            sorted(x for x in set(seen) if seen.count(x) > 1)[:3])
  extra = sorted(set(seen) - set(of))
  ctx.check(not extra, 'not a window', extra[:3])


def windows(ctx, part):
  pl = Pipeline(ctx)
  top = 5 if ctx.quick else 7
  todo = [(n, w, s, step, train, debug)
          for n in range(1, top + 1) for w in range(1, n + 1)
          for s in range(1, min(n, 4) + 1) for step in range(1, min(w, 4) + 1)
          for train in (True, False) for debug in (True, False)
          if not (ctx.quick and train and not debug and (w + s + step) % 2)]
  for n, w, s, step, train, debug in todo[part[0]::part[1]]:
    with ctx.case(dict(snapshots=n, window=w, stride=s, step=step, train=train,
                       debug=debug)):
      pl.files(n)
      want = pl.windows(train, w, s, step, debug)
      got = pl.announced(train, w, s, debug)
      ctx.check(got == len(want), 'number of examples announced', got,
                len(want))
      ds = pl.create(train, w, s, step, debug, bool((n + w) % 2), 1)
      for seen in pl.epochs(ctx, ds, 1, len(want)):
        _distinct(ctx, seen, want)
        ctx.check(len(seen) == len(want), 'all windows', len(seen), len(want))
      ctx.state(n, w, s, step, train, debug)
      ctx.trace()
      ctx.evaluated(len(want) > 1)
      ctx.sample(f'{n} snapshots: {len(want)} windows of {w} by {s}, every '
                 f'{step}')


def hosts(ctx, part):
  pl = Pipeline(ctx)
  todo = []
  for n, w, s in itertools.product((3, 4, 5, 7), (1, 2, 3), (1, 2, 3)):
    for train, debug in itertools.product((True, False), repeat=2):
      pl.n = n
      total = len(pl.windows(train, w, s, 1, debug)) if w <= n else 0
      for h in range(2, 9 if ctx.quick else 25):
        if total and total % h == 0:
          todo.append((n, w, s, train, debug, h))
  pl.n = None
  if ctx.quick:
    todo = [t for t in todo if not t[3] or t[4] or sum(t[:3]) % 3 == 0]
  for n, w, s, train, debug, h in todo[part[0]::part[1]]:
    with ctx.case(dict(snapshots=n, window=w, stride=s, train=train,
                       debug=debug, hosts=h)):
      pl.files(n)
      want = pl.windows(train, w, s, 1, debug)
      size = len(want) // h
      everything = []
      for i in range(h):
        ds = pl.create(train, w, s, 1, debug, False, 1, host=(i, h))
        first, second = pl.epochs(ctx, ds, 1, size)
        _distinct(ctx, first, want)
        ctx.check(sorted(first) == sorted(second), 'other examples in the '
                  'second epoch of a host', first, second)
        everything += first
      _distinct(ctx, everything, want)
      ctx.check(len(everything) == len(want), 'hosts together', len(everything),
                len(want))
      ctx.state('hosts', n, w, s, train, debug, h)
      ctx.trace()
      ctx.evaluated(True)
      ctx.sample(f'{h} hosts, {len(want)} examples')


def batches(ctx, part):
  pl = Pipeline(ctx)
  todo = [(n, w, b, train, cache) for n in (4, 7, 9) for w in (1, 2)
          for b in range(2, 10) for train in (True, False)
          for cache in (True, False)]
  for n, w, b, train, cache in todo[part[0]::part[1]]:
    with ctx.case(dict(snapshots=n, window=w, batch=b, train=train,
                       cache=cache)):
      pl.files(n)
      debug = train
      want = pl.windows(train, w, 1, 1, debug)
      if len(want) < b:
        continue
      ds = pl.create(train, w, 1, 1, debug, cache, b)
      for seen in pl.epochs(ctx, ds, b, len(want) // b, 3):
        _distinct(ctx, seen, want)
      ctx.state('batches', n, w, b, train, cache)
      ctx.trace()
      ctx.evaluated(True)
