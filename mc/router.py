"""Reference model and driver of the sparse exchange (C01, C02)."""
import collections
import functools
import itertools

import jax
import numpy as np

from swirl_fem.communication import crystal_router


@functools.lru_cache(maxsize=None)
def router(n, layout='plain', axis='i'):
  """The exchange over n devices; `layout` says which devices in which order."""
  devs = np.array(jax.devices())
  if layout == 'plain':
    devs = devs[:n]
  elif layout == 'reversed':
    devs = devs[:n][::-1]
  elif layout == 'tail':
    devs = devs[len(devs) - n:]
  mesh = jax.sharding.Mesh(devs, (axis,))
  return crystal_router.crystal_router_setup(mesh, axis)


def per_device(n, kmax, kmin=0):
  """All tuples of targets of up to kmax items."""
  out = []
  for k in range(kmin, kmax + 1):
    out.extend(itertools.product(range(n), repeat=k))
  return out


def encode(pattern, size, garbage):
  """(counts, ids, targets) of a pattern: a tuple of target tuples by device."""
  n = len(pattern)
  counts = np.array([len(t) for t in pattern], np.int32)
  ids = np.full((n, size), -7, np.int32)
  tgt = np.zeros((n, size), np.int32)
  for p, ts in enumerate(pattern):
    for j in range(size):
      if j < len(ts):
        ids[p, j] = p * 1000 + j
        tgt[p, j] = ts[j]
      else:
        # Padding: what it names must not matter.
        tgt[p, j] = {'zero': 0, 'inrange': (p + j + 1) % n, 'last': n - 1,
                     'big': 1 << 20, 'neg': -1 - j}[garbage]
        ids[p, j] = 900000 + p * 1000 + j
  return counts, ids, tgt


def model_deliver(pattern):
  """Reference: multiset of (id, source) on each device."""
  n = len(pattern)
  out = [collections.Counter() for _ in range(n)]
  for p, ts in enumerate(pattern):
    for j, t in enumerate(ts):
      out[t][(p * 1000 + j, p)] += 1
  return out


def check_delivery(ctx, pattern, n_out, data, src):
  """Compares what came back with the reference."""
  n = len(pattern)
  n_out, data, src = np.asarray(n_out), np.asarray(data), np.asarray(src)
  want = model_deliver(pattern)
  ctx.check(n_out.shape == (n,), 'shape of n_out', n_out.shape)
  wc = np.array([sum(c.values()) for c in want])
  ctx.equal(n_out, wc, 'item counts')
  ctx.check(data.shape[:2] == src.shape[:2] and data.shape[0] == n,
            'shapes of data and source', data.shape, src.shape)
  ctx.check(data.shape[1] >= wc.max(), 'room for the items', data.shape)
  for p in range(n):
    got = collections.Counter(
        zip(data[p, :wc[p]].tolist(), src[p, :wc[p]].tolist()))
    if got != want[p]:
      ctx.fail(f'device {p} got (id, source) {sorted(got.elements())}, expected '
               f'{sorted(want[p].elements())}')


def patterns(family, n, **kw):
  """Enumerates the patterns of a family for n devices."""
  if family == 'full':
    for pat in itertools.product(per_device(n, kw['k']), repeat=n):
      yield pat
  elif family == 'pairs':
    # one device holding one or two items, for every source and target(s)
    for s in range(n):
      for t in range(n):
        yield tuple((t,) if p == s else () for p in range(n))
      if kw.get('two'):
        for t1 in range(n):
          for t2 in range(t1 + 1, n):
            yield tuple((t1, t2) if p == s else () for p in range(n))
  elif family == 'converge':
    # K items of every device (or every device but one) to one target
    for t in range(n):
      for k in kw['ks']:
        yield tuple((t,) * k for p in range(n))
        yield tuple((t,) * k if p != t else () for p in range(n))
        yield tuple((t,) * k if p == t else (t,) for p in range(n))
  elif family == 'spread':
    for s in range(n):
      yield tuple(tuple(range(n)) if p == s else () for p in range(n))
      yield tuple(tuple(reversed(range(n))) if p == s else (s,)
                  for p in range(n))
    yield tuple(tuple(range(n)) for p in range(n))
  elif family == 'shift':
    for s in range(n):
      for k in (1, 2):
        yield tuple(((p + s) % n,) * k for p in range(n))
      yield tuple(((p + s) % n, p) for p in range(n))
      yield tuple(((s - p) % n, (p + s) % n) for p in range(n))
  elif family == 'subsets':
    # every set of senders to every target, with every pair of amounts
    for mask in range(1, 1 << n):
      for t in range(n):
        for a, b in kw.get('amounts', ((1, 0), (2, 1))):
          yield tuple((t,) * (a if mask >> p & 1 else b) for p in range(n))
  elif family == 'twotargets':
    for mask in range(1 << n):
      for t1 in range(n):
        for t2 in range(n):
          if t1 != t2:
            yield tuple((t1 if mask >> p & 1 else t2,) * 2 for p in range(n))
  elif family == 'permutations':
    for perm in itertools.permutations(range(n)):
      yield tuple((t,) for t in perm)
  elif family == 'maps':
    # one item each, every map of devices to targets
    for m in itertools.product(range(n), repeat=n):
      yield tuple((t,) for t in m)
  elif family == 'counts':
    # all count vectors, all items of a device to one place
    for cs in itertools.product(range(kw['k'] + 1), repeat=n):
      for t in range(n):
        yield tuple((t if p % 2 == 0 else (t + 1) % n,) * c
                    for p, c in enumerate(cs))
  else:
    raise ValueError(family)
