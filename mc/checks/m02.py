"""M02: refinement carries boundary groups and periodic links along."""
import itertools

import numpy as np

from mc import meshes
from mc import refine_model
from mc.checks.m01 import LARGE, TYPES
from swirl_fem.core.interpolation import Nodes1D
from swirl_fem.core.mesh_refiner import refine_premesh

LEVEL = 'model_checking'
RULE = ('Small grids in one to three dimensions, orders up to 4; groups: every '
        'facet listed in every orientation, all subsets of the sides as '
        'groups, the cell turned in every way; links: every pair of opposite '
        'facets with all listings of both (twisted pairings included), all '
        'subsets of periodic directions, both directions of each link, '
        'repeated links; all partition vectors of four elements. The model '
        'names each point by exact multilinear weights and glues names link by '
        'link. A state is the classes of points glued so far, a transition '
        'refines a facet or glues a link, a trace is one mesh refined (and '
        'finalized) by the real code. A few meshes have more than 2^15 nodes. '
        'Non-trivial: facets with interior nodes.')
ASSUMPTIONS = ['Facets are facets of elements, listed by a symmetry of the '
               'square; groups are not empty; node sets include the ends.']


def jobs(tier):
  q = tier == 'quick'
  out = []
  orders = (2, 3, 4, 5) if q else (2, 3, 4, 5, 6, 7)
  for n in orders:
    for t in ('gll', 'nc'):
      if t == 'nc' and n not in (3, 4):
        continue
      for d in (1, 2, 3):
        if d == 3 and n == 5 and q:
          continue
        out.append(dict(name=f'groups {d}d {t} {n}', cost=d ** 2 * n,
                        args=dict(what='groups', d=d, type=t, n=n)))
        out.append(dict(name=f'links {d}d {t} {n}', cost=d ** 3 * n,
                        args=dict(what='links', d=d, type=t, n=n)))
        out.append(dict(name=f'torus {d}d {t} {n}', cost=d ** 3 * n,
                        args=dict(what='torus', d=d, type=t, n=n)))
  for shape, n in LARGE:
    out.append(dict(name=f'large {shape} {n}', cost=60, args=dict(
        what='large', d=len(shape), type='gll', n=n, shape=shape)))
  out.append(dict(name='partitions', args=dict(what='partitions')))
  return out


def check_one(ctx, c, nodes, key, finalize=True, partitions=None):
  with ctx.case(key):
    n = nodes.num_points
    pm = c.premesh(partitions)
    before = [pm.elements.copy(), pm.node_coords.copy()]
    out = refine_premesh(pm, nodes)
    ctx.check(np.array_equal(before[0], pm.elements)
              and np.array_equal(before[1], pm.node_coords), 'input changed')
    node_of = refine_model.check_refined(ctx, c, nodes, out)
    ctx.check(set(out.physical_groups) == set(c.groups), 'names of groups',
              sorted(out.physical_groups))
    for g, facets in c.groups.items():
      want = [[node_of[m] for m in refine_model.names(f, n)] for f in facets]
      ctx.transition(len(want))
      got = np.asarray(out.physical_groups[g])
      ctx.check(got.shape == (len(want), n ** (c.ndim - 1)),
                f'shape of group {g}', got.shape)
      # each facet once, in any order of the facets
      ctx.check(sorted(got.tolist()) == sorted(want),
                f'group {g} has {got.tolist()}, expected {want}')
    label = np.arange(len(out.node_coords))
    if c.links is None:
      ctx.check(out.periodic_links is None or not len(out.periodic_links),
                'links from nowhere')
    else:
      pairs = []
      for f, g in c.links:
        pairs.append([[node_of[m] for m in refine_model.names(f, n)],
                      [node_of[m] for m in refine_model.names(g, n)]])
        ctx.state(len(label), tuple(meshes.classes(len(label), pairs)))
        ctx.transition()
      label = meshes.classes(len(label), pairs)
      got = np.asarray(out.periodic_links)
      ctx.check(got.shape == (len(pairs), 2, n ** (c.ndim - 1)),
                'shape of links', got.shape)
      want = sorted(sorted(map(sorted, zip(*p))) for p in pairs)
      have = sorted(sorted(map(sorted, zip(*p))) for p in got.tolist())
      ctx.check(want == have, f'links pair {have}, expected {want}')
    if partitions is None:
      ctx.check(out.partitions is None, 'partitions')
    else:
      ctx.equal(out.partitions, np.array(partitions), 'partitions')
    if finalize:
      mesh = out.finalize()
      ids = np.asarray(mesh.node_indices)
      fwd, back = {}, {}
      for k, l in enumerate(label.tolist()):
        ctx.check(fwd.setdefault(l, ids[k]) == ids[k]
                  and back.setdefault(ids[k], l) == l,
                  f'degree of freedom of node {k}')
      for g, facets in c.groups.items():
        marked = {int(label[node_of[m]]) for f in facets
                  for m in refine_model.names(f, n)}
        want = np.array([int(l) in marked for l in label])
        ctx.equal(mesh.physical_masks[g], want, f'mask of {g}')
    ctx.trace()
    ctx.evaluated(n > 2)
    ctx.sample(key)


def run(ctx, a):
  what = a['what']
  if what == 'partitions':
    for n in (2, 3, 4):
      nodes = Nodes1D.create(n, TYPES['gll'])
      for vec in itertools.product(range(4), repeat=4):
        for shape in ((4,), (2, 2)):
          c = meshes.structured(shape, how=2)
          check_one(ctx, c, nodes, dict(n=n, partitions=vec, shape=shape),
                    finalize=False, partitions=vec)
    return
  d = a['d']
  nodes = Nodes1D.create(a['n'], TYPES[a['type']])
  sym = [p for p, _ in meshes.symmetries(d)]
  fsym = [p for p, _ in meshes.symmetries(d - 1)] if d > 1 else [(0,)]
  ident = tuple(range(2 ** d))
  if what == 'groups':
    # one cell turned in every way, each side listed in every way
    for s in sym:
      c = meshes.structured((1,) * d, how=2, orient=[s])
      for k, f in enumerate(fsym):
        c2 = meshes.Coarse(c.coords, c.elements, {
            g: v[:, list(fsym[(k * (i + 1)) % len(fsym)])]
            for i, (g, v) in enumerate(sorted(c.groups.items()))},
                           None, c.multi, c.cells)
        check_one(ctx, c2, nodes, dict(a, cell=s, listing=k))
    # all subsets of the sides, together and separately
    shape = (2,) * d
    c = meshes.structured(shape, how=2, orient=[
        sym[(3 * e + 1) % len(sym)] for e in range(2 ** d)])
    sides = sorted(c.groups)
    for mask in range(1, 1 << len(sides)):
      chosen = [s for k, s in enumerate(sides) if mask >> k & 1]
      groups = {s: c.groups[s] for s in chosen}
      groups['all'] = np.concatenate([c.groups[s][::-1] for s in chosen])
      c2 = meshes.Coarse(c.coords, c.elements, groups, None, c.multi, c.cells)
      check_one(ctx, c2, nodes, dict(a, sides=chosen))
    # single facets, also ones inside the mesh
    c = meshes.structured((2,) + (1,) * (d - 1), how=2)
    corners = list(itertools.product((0, 1), repeat=d))
    for e in range(2):
      for axis in range(d):
        for at in (0, 1):
          f = [int(c.elements[e][k]) for k, m in enumerate(corners)
               if m[axis] == at]
          for s in fsym:
            c2 = meshes.Coarse(c.coords, c.elements, {
                'one': np.array([[f[i] for i in s]], np.int32)}, None, c.multi,
                               c.cells)
            check_one(ctx, c2, nodes, dict(a, facet=f, listing=s))
  elif what == 'links':
    # opposite sides of a cell (or of two), every listing of both
    for shape in sorted(set(itertools.permutations((1,) * (d - 1) + (2,)))):
      for axis in range(d):
        c = meshes.structured(shape, (axis,), how=2, orient=[
            sym[(5 * e + 2) % len(sym)] for e in range(2)])
        for s, t in itertools.product(fsym, repeat=2):
          for swap in (False, True):
            l = np.stack([c.links[:, 0][:, list(s)], c.links[:, 1][:, list(t)]],
                         1)
            if swap:
              l = np.concatenate([l[:, ::-1], l])
            c2 = meshes.Coarse(c.coords, c.elements, c.groups, l, c.multi,
                               c.cells)
            # a twisted pairing of two facets next to each other need not be
            # consistent on what they share, which is glued all the same
            check_one(ctx, c2, nodes, dict(a, shape=shape, axis=axis,
                                           listing=[s, t], swap=swap))
  elif what == 'large':
    shape = tuple(a['shape'])
    ne = int(np.prod(shape))
    orient = [sym[(5 * e + 3) % len(sym)] for e in range(ne)]
    c = meshes.structured(shape, (0,), how=2, orient=orient)
    check_one(ctx, c, nodes, a)
  elif what == 'torus':
    for shape in {1: [(1,), (2,), (3,)], 2: [(1, 1), (2, 2), (3, 2), (1, 3)],
                  3: [(1, 1, 1), (2, 1, 1), (2, 2, 2), (1, 3, 2)]}[d]:
      ne = int(np.prod(shape))
      for r in range(d + 1):
        for per in itertools.combinations(range(d), r):
          for turn in range(2 if ne > 4 else 6):
            orient = [sym[(turn * (e + 1) * 5) % len(sym)] for e in range(ne)]
            c = meshes.structured(shape, per, how=2, orient=orient)
            if c.links is not None:
              l = np.array([f[:, list(fsym[(turn + k) % len(fsym)])]
                            for k, f in enumerate(c.links)])
              if turn % 2:
                l = l[::-1, ::-1]
              c = meshes.Coarse(c.coords, c.elements, c.groups, l, c.multi,
                                c.cells)
            check_one(ctx, c, nodes, dict(a, shape=shape, periodic=per,
                                          turn=turn))
