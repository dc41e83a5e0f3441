"""M03: built-in cube meshes have the stated geometry and periodicity."""
import collections
import itertools

import numpy as np

from mc import meshes
from swirl_fem.common.premesh_commons import unit_cube_mesh
from swirl_fem.core.interpolation import Nodes1D, NodeType
from swirl_fem.core.mesh_refiner import refine_premesh

LEVEL = 'exploration'
RULE = ('All meshes with up to 16, 7 and 4 (thorough 40, 12 and 6) cells per '
        'direction in one, two and three dimensions, all subsets of periodic '
        'directions, four intervals, all block partitionings dividing the '
        'cells (all labellings by up to four blocks), compared with the grid '
        'built node by node; meshes of more than 2^15 nodes; glued degrees of freedom also after refinement. '
        'Non-trivial: periodic or partitioned meshes and other intervals.')
ASSUMPTIONS = ['Between the ends nodes are exact up to rounding.']

BOUNDS = [(0., 1.), (-1., 1.), (0., 2 * np.pi), (2.5, -1.)]


def jobs(tier):
  q = tier == 'quick'
  out = []
  for d, top in ((1, 16 if q else 40), (2, 7 if q else 12), (3, 4 if q else 6)):
    for n in range(1, top + 1):
      out.append(dict(name=f'{d}d {n}', cost=n ** d,
                      args=dict(what='geometry', d=d, n=n)))
  for d, n in [(1, 4), (1, 6), (2, 2), (2, 4), (3, 2)] + ([] if q else [
      (1, 8), (2, 6), (3, 4)]):
    out.append(dict(name=f'blocks {d}d {n}', cost=20,
                    args=dict(what='blocks', d=d, n=n)))
  for d, n in ((1, 40000), (2, 190), (3, 33)):
    out.append(dict(name=f'large {d}d', cost=40,
                    args=dict(what='large', d=d, n=n)))
  return out


def check_mesh(ctx, pm, n, d, lo, hi, per):
  xyz = np.asarray(pm.node_coords)
  els = np.asarray(pm.elements)
  ctx.check(xyz.shape == ((n + 1) ** d, d), 'nodes', xyz.shape)
  ctx.check(els.shape == (n ** d, 2 ** d), 'elements', els.shape)
  ctx.check(pm.order == 1 and pm.gridpoints_1d.num_points == 2
            and pm.gridpoints_1d.is_continuous(), 'order')
  # which grid point is each node?
  t = (xyz - lo) / (hi - lo) * n
  m = np.rint(t).astype(int)
  ctx.close(t, m, 1e-12 * n, 'grid positions')
  ends = (m == 0) | (m == n)
  ctx.check((xyz[m == 0] == lo).all() and (xyz[m == n] == hi).all(),
            'end points')
  multi = [tuple(x) for x in m.tolist()]
  num = {x: k for k, x in enumerate(multi)}
  ctx.check(len(num) == len(multi), 'a node twice')
  corners = list(itertools.product((0, 1), repeat=d))
  seen = collections.Counter()
  for el in els.tolist():
    base = multi[el[0]]
    want = [num.get(tuple(np.add(base, c))) for c in corners]
    ctx.check(el == want, f'element at {base} is {el}, expected {want}')
    seen[base] += 1
  ctx.check(seen == collections.Counter(
      itertools.product(range(n), repeat=d)), 'cells')
  # boundary
  want, pairs = collections.Counter(), []
  for axis in range(d):
    for q in itertools.product(range(n), repeat=d - 1):
      f = []
      for side in (0, n):
        f.append([])
        for b in itertools.product((0, 1), repeat=d - 1):
          x = [i + j for i, j in zip(q, b)]
          x.insert(axis, side)
          f[-1].append(num[tuple(x)])
      if axis in per:
        pairs.append(f)
      else:
        for x in f:
          want[tuple(sorted(x))] += 1
  fsym = {p for p, _ in meshes.symmetries(d - 1)} if d > 1 else {(0,)}
  lex = {tuple(sorted(f)): f for axis in range(d)
         for f in all_facets(num, n, d, axis)}

  def listed(f):
    ref = lex.get(tuple(sorted(f)))
    ctx.check(ref is not None and tuple(ref.index(v) for v in f) in fsym,
              f'facet {f} is not listed like a facet')
  groups = pm.physical_groups
  if want:
    ctx.check(set(groups) == {'boundary'}, 'groups', list(groups))
    got = np.asarray(groups['boundary']).tolist()
    ctx.check(collections.Counter(tuple(sorted(f)) for f in got) == want,
              'boundary facets')
    for f in got:
      listed(f)
  else:
    ctx.check(not groups, 'groups', list(groups))
  if not pairs:
    ctx.check(pm.periodic_links is None or not len(pm.periodic_links), 'links')
    label = np.arange(len(xyz))
  else:
    got = np.asarray(pm.periodic_links)
    ctx.check(got.ndim == 3 and got.shape[1:] == (2, 2 ** (d - 1)), 'links')
    for f, g in got.tolist():
      listed(f)
      listed(g)
    # which pairs are there, rather than how they are listed
    have = {tuple(sorted(x)) for f, g in got.tolist() for x in zip(f, g)}
    need = {tuple(sorted(x)) for f, g in pairs for x in zip(f, g)}
    ctx.check(have == need, 'linked nodes', sorted(have ^ need)[:4])
    label = meshes.classes(len(xyz), pairs)
  # the torus: position modulo n in periodic directions
  torus = {}
  for k, x in enumerate(multi):
    key = tuple(i % n if a in per else i for a, i in enumerate(x))
    ctx.check(torus.setdefault(key, label[k]) == label[k], 'harness: torus')
  ids = np.asarray(pm.finalize().node_indices)
  fwd, back = {}, {}
  for k, l in enumerate(label.tolist()):
    ctx.check(fwd.setdefault(l, ids[k]) == ids[k]
              and back.setdefault(ids[k], l) == l,
              f'degree of freedom of {multi[k]}')
  del ends
  return multi


def all_facets(num, n, d, axis):
  for at in range(n + 1):
    for q in itertools.product(range(n), repeat=d - 1):
      f = []
      for b in itertools.product((0, 1), repeat=d - 1):
        x = [i + j for i, j in zip(q, b)]
        x.insert(axis, at)
        f.append(num[tuple(x)])
      yield f


def run(ctx, a):
  d, n = a['d'], a['n']
  if a['what'] == 'large':
    large(ctx, d, n)
  elif a['what'] == 'geometry':
    for r in range(d + 1):
      for per in itertools.combinations(range(d), r):
        for k, (lo, hi) in enumerate(BOUNDS):
          with ctx.case(dict(a, periodic=per, bounds=k)):
            pm = unit_cube_mesh(n, ndim=d, a=lo, b=hi, periodic_dims=per)
            ctx.check(pm.partitions is None, 'partitions')
            check_mesh(ctx, pm, n, d, lo, hi, per)
            ctx.evaluated(bool(per) or k > 0)
            ctx.sample(f'{d}d {n} cells periodic {per} in [{lo}, {hi}]')
            if k == 0 and (n <= 2 or d < 3) and n <= 4:
              refined(ctx, pm, n, d, per)
        with ctx.case(dict(a, periodic=per, reversed=True)):
          pm = unit_cube_mesh(n, ndim=d, periodic_dims=list(per)[::-1])
          check_mesh(ctx, pm, n, d, 0., 1., per)
    if d == 2:
      with ctx.case(dict(a, defaults=True)):
        check_mesh(ctx, unit_cube_mesh(n), n, 2, 0., 1., ())
  else:
    divisors = [k for k in range(1, n + 1) if n % k == 0]
    for shape in itertools.product(divisors, repeat=d):
      size = int(np.prod(shape))
      if size <= 4:
        labellings = itertools.product(range(min(size, 4)), repeat=size)
      else:
        base = np.arange(size)
        labellings = [base, base[::-1], np.roll(base, 3), base * 5 % size,
                      base % 3]
      for lab in labellings:
        with ctx.case(dict(a, shape=shape, blocks=list(map(int, lab)))):
          blocks = np.array(lab).reshape(shape)
          keep = blocks.copy()
          pm = unit_cube_mesh(n, ndim=d, partitions=blocks)
          ctx.check(np.array_equal(blocks, keep), 'argument changed')
          multi = check_mesh_simple(pm, n)
          p = np.asarray(pm.partitions)
          ctx.check(p.shape == (n ** d,), 'shape', p.shape)
          for e, el in enumerate(np.asarray(pm.elements)):
            cell = np.min([multi[i] for i in el], axis=0)
            want = keep[tuple(c * s // n for c, s in zip(cell, shape))]
            ctx.check(p[e] == want, f'cell {cell.tolist()} is in partition '
                      f'{p[e]}, expected {want}')
          ctx.evaluated(size > 1)
    with ctx.case(dict(a, wrong=True)):
      try:
        unit_cube_mesh(n, ndim=d, partitions=np.zeros((n + 1,) * d, int))
      except (AssertionError, ValueError):
        pass
      else:
        ctx.fail('blocks which do not divide the cells were accepted')


def check_mesh_simple(pm, n):
  return [tuple(x) for x in np.rint(np.asarray(pm.node_coords) * n).astype(
      int).tolist()]


def refined(ctx, pm, n, d, per):
  """Refined nodes have the same identity if they are equal on the torus."""
  order = 3
  out = refine_premesh(pm, Nodes1D.create(order + 1, NodeType.NEWTON_COTES))
  ids = np.asarray(out.finalize().node_indices)
  t = np.asarray(out.node_coords) * n * order
  m = np.rint(t).astype(int)
  ctx.close(t, m, 1e-10 * n * order, 'refined grid')
  fwd, back = {}, {}
  for k, x in enumerate(m.tolist()):
    key = tuple(i % (n * order) if a in per else i for a, i in enumerate(x))
    ctx.check(fwd.setdefault(key, ids[k]) == ids[k]
              and back.setdefault(ids[k], key) == key,
              f'degree of freedom of the refined node at {x}')
  ctx.check(len(fwd) == np.prod([n * order + (a not in per)
                                 for a in range(d)]), 'number')


def large(ctx, d, n):
  """More nodes and blocks than 16 bit numbers can count."""
  for per in ((), (0,), tuple(range(d))):
    with ctx.case(dict(large=d, n=n, periodic=per)):
      blocks = (np.arange(n ** d) * 7 % n ** d).reshape((n,) * d)
      pm = unit_cube_mesh(n, ndim=d, periodic_dims=per, partitions=blocks)
      m = np.rint(np.asarray(pm.node_coords) * n).astype(int)
      ctx.close(np.asarray(pm.node_coords), m / n, 1e-12, 'nodes')
      code = np.ravel_multi_index(tuple(m.T), (n + 1,) * d)
      ctx.check(np.array_equal(np.sort(code), np.arange((n + 1) ** d)),
                'nodes of the grid')
      corners = np.array(list(itertools.product((0, 1), repeat=d)))
      els = np.asarray(pm.elements)
      base = m[els[:, 0]]
      ctx.equal(m[els], base[:, None] + corners, 'corners')
      cell = np.ravel_multi_index(tuple(base.T), (n,) * d)
      ctx.check(np.array_equal(np.sort(cell), np.arange(n ** d)), 'cells')
      ctx.equal(np.asarray(pm.partitions), blocks.ravel()[cell], 'blocks')
      # facets by their middle, doubled
      want, links = [], []
      for axis in range(d):
        q = np.array(list(itertools.product(range(n), repeat=d - 1)), int)
        q = 2 * q.reshape(n ** (d - 1), d - 1) + 1
        lo, hi = [np.insert(q, axis, s, axis=1) for s in (0, 2 * n)]
        if axis in per:
          links.append(np.concatenate([lo, hi], 1))
        else:
          want += [lo, hi]
      def middle(f):
        p = m[np.asarray(f)]
        return p.min(-2) + p.max(-2)
      if want:
        got = middle(pm.physical_groups['boundary'])
        ctx.check(np.array_equal(np.unique(got, axis=0),
                                 np.unique(np.concatenate(want), axis=0))
                  and len(got) == sum(map(len, want)), 'boundary')
      else:
        ctx.check(not pm.physical_groups, 'groups')
      if links:
        l = np.asarray(pm.periodic_links)
        got = np.concatenate([middle(l[:, 0]), middle(l[:, 1])], 1)
        ctx.check(np.array_equal(np.unique(got, axis=0),
                                 np.unique(np.concatenate(links), axis=0))
                  and len(got) == sum(map(len, links)), 'links')
        diff = np.abs(m[l[:, 0]] - m[l[:, 1]])
        ctx.check(((diff == 0) | (diff == n)).all()
                  and (diff.sum(-1) == n).all(), 'linked nodes')
      else:
        ctx.check(pm.periodic_links is None, 'no links')
      ctx.evaluated()
