"""M05: automatic partitioning gives a usable assignment of all elements."""
import itertools

import numpy as np

from mc import meshes
from mc.checks import g03
from swirl_fem.common.mesh_partitioner import partition
from swirl_fem.core.interpolation import Nodes1D, NodeType
from swirl_fem.core.mesh_refiner import refine_premesh

LEVEL = 'exploration'
RULE = ('All grids of up to 12 cells in one, 5x5 in two and 3x3x3 in three '
        'dimensions and some larger ones (up to 40000 cells), with every number of partitions up '
        'to the number of elements; numbering and order of the elements '
        'changed; refined, periodic and disconnected meshes. All fields other '
        'than the partitions are compared; for up to 8 partitions the result '
        'is finalized and compared with the placing model. Non-trivial: at '
        'least two partitions.')
ASSUMPTIONS = ['Use of all partitions and balance (at most twice the rounded '
               'up mean) are required for up to 8 partitions and for 8 or more '
               'elements per partition; METIS leaves more, smaller ones empty.']


def jobs(tier):
  q = tier == 'quick'
  shapes = ([(n,) for n in range(1, 13)]
            + list(itertools.product(range(1, 6), repeat=2))
            + list(itertools.product(range(1, 4), repeat=3))
            + [(40,), (8, 8), (10, 10), (4, 4, 4), (20, 3)])
  if not q:
    shapes += [(100,), (16, 16), (5, 5, 5), (6, 6, 6), (30, 2), (12, 12)]
  out = []
  groups = [shapes[k::6] for k in range(6)]
  for k, g in enumerate(groups):
    out.append(dict(name=f'grids {k}', cost=10, args=dict(what='grids',
                                                          shapes=g)))
  out.append(dict(name='variants', cost=10, args=dict(what='variants')))
  for k in range(4):
    out.append(dict(name=f'finalize {k}', devices=8, cost=30,
                    args=dict(what='finalize', part=(k, 4), full=not q)))
  out.append(dict(name='large', cost=40, args=dict(what='large')))
  return out


def check_partition(ctx, pm, k):
  fields = {f: np.array(getattr(pm, f)) for f in ('node_coords', 'elements')}
  links = None if pm.periodic_links is None else pm.periodic_links.copy()
  groups = {g: v.copy() for g, v in pm.physical_groups.items()}
  out = partition(pm, k)
  for f, v in fields.items():
    ctx.equal(getattr(out, f), v, f)
    ctx.equal(getattr(pm, f), v, f'{f} of the argument')
  ctx.check(out.order == pm.order and out.gridpoints_1d == pm.gridpoints_1d,
            'reference nodes')
  ctx.check((out.periodic_links is None) == (links is None), 'links')
  if links is not None:
    ctx.equal(out.periodic_links, links, 'links')
  ctx.check(set(out.physical_groups) == set(groups), 'groups')
  for g, v in groups.items():
    ctx.equal(out.physical_groups[g], v, f'group {g}')
  p = np.asarray(out.partitions)
  ne = len(pm.elements)
  ctx.check(out.is_partitioned(), 'is_partitioned')
  ctx.check(p.shape == (ne,) and p.dtype.kind in 'iu', 'partitions', p)
  ctx.check((p >= 0).all() and (p < k).all(), f'not in range({k})', p)
  if k <= 8 or ne >= 8 * k:
    count = np.bincount(p, minlength=k)
    ctx.check((count > 0).all(), 'empty partitions', count)
    ctx.check(count.max() <= 2 * -(-ne // k), 'imbalance', count)
  ctx.evaluated(k > 1)
  return out


def cut(pm, p):
  """Pairs of elements which share a node and are apart."""
  sets = [set(e) for e in pm.elements.tolist()]
  return sum(1 for a, b in itertools.combinations(range(len(sets)), 2)
             if p[a] != p[b] and sets[a] & sets[b])


def run(ctx, a):
  what = a['what']
  if what == 'grids':
    for shape in map(tuple, a['shapes']):
      pm = meshes.structured(shape, how=2).premesh()
      ne = pm.num_elements
      for k in range(1, min(ne, 40) + 1):
        with ctx.case(dict(shape=shape, k=k)):
          out = check_partition(ctx, pm, k)
          ctx.sample(f'{shape} into {k}: {out.partitions.tolist()}'[:300])
          if 1 < k <= 8 and ne <= 128:
            # slabs along the numbering, for comparison
            slabs = np.arange(ne) * k // ne
            c, s = cut(pm, out.partitions), cut(pm, slabs)
            ctx.check(c <= 1.5 * s + 4, f'{c} neighbours are separated, by '
                      f'slabs only {s}')
  elif what == 'variants':
    for shape in ((6,), (3, 3), (4, 2), (2, 2, 2)):
      d, ne = len(shape), int(np.prod(shape))
      sym = [p for p, _ in meshes.symmetries(d)]
      nn = int(np.prod([s + 1 for s in shape]))
      for turn in range(4):
        for per in [()] + [(i,) for i in range(d)]:
          c = meshes.structured(
              shape, per, how=2, numbering=g03.shuffled(nn, 5 + turn),
              order=g03.shuffled(ne, 3 + turn),
              orient=[sym[(turn * (e + 1)) % len(sym)] for e in range(ne)])
          for n in (2, 3):
            for k in range(1, ne + 1):
              with ctx.case(dict(shape=shape, turn=turn, periodic=per, n=n,
                                 k=k)):
                pm = c.premesh()
                if n > 2:
                  pm = refine_premesh(pm, Nodes1D.create(
                      n, NodeType.GAUSS_LOBATTO_LEGENDRE))
                check_partition(ctx, pm, k)
    # disconnected meshes, and discontinuous nodes
    for nparts in (2, 3, 4):
      for cells in ((1,), (2,), (2, 2)):
        base = meshes.structured(cells, how=2)
        nn = len(base.coords)
        els = np.concatenate([base.elements + i * nn for i in range(nparts)])
        xyz = np.concatenate([base.coords + 3 * i for i in range(nparts)])
        c = meshes.Coarse(xyz, els, {}, None, [], [])
        for k in range(1, len(els) + 1):
          with ctx.case(dict(disconnected=cells, copies=nparts, k=k)):
            check_partition(ctx, c.premesh(), k)
        with ctx.case(dict(discontinuous=cells, copies=nparts)):
          pm = refine_premesh(c.premesh(), Nodes1D.create(
              2, NodeType.GAUSS_LEGENDRE))
          check_partition(ctx, pm, min(2, len(els)))
  elif what == 'large':
    # more parts than 8 (and elements than 16) bit numbers can count
    for shape, ks in (((20, 20), (130, 200, 300, 400)), ((200, 200), (3, 300)),
                      ((40000,), (2, 35000))):
      pm = meshes.structured(shape).premesh()
      for k in ks:
        with ctx.case(dict(shape=shape, k=k)):
          check_partition(ctx, pm, k)
  elif what == 'finalize':
    part, of = a['part']
    cases = []
    for shape in [(2,), (5,), (8,), (3, 2), (3, 3), (4, 4), (2, 2, 2)] + (
        [(12,), (5, 5), (3, 3, 3), (4, 2, 1)] if a['full'] else []):
      for n in (2, 3):
        for k in range(1, min(8, int(np.prod(shape))) + 1):
          cases.append((shape, n, k))
    for shape, n, k in cases[part::of]:
      with ctx.case(dict(finalize=shape, n=n, k=k)):
        pm = meshes.structured(shape, how=2).premesh()
        if n > 2:
          pm = refine_premesh(pm, Nodes1D.create(
              n, NodeType.GAUSS_LOBATTO_LEGENDRE))
        out = check_partition(ctx, pm, k)
        marked = {g: set(v.ravel().tolist())
                  for g, v in pm.physical_groups.items()}
        g03.check_mesh(ctx, pm, np.arange(pm.num_nodes), marked,
                       out.partitions.tolist(), out.finalize('p'))
