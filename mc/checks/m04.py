"""M04: a mesh file is read with its geometry and periodicity intact."""
import collections
import itertools
import pathlib

import numpy as np

from mc import meshes
from mc import refine_model
from swirl_fem.common import mesh_reader
from swirl_fem.core.interpolation import Nodes1D, NodeType
from swirl_fem.core.mesh_refiner import refine_premesh

LEVEL = 'model_checking'
RULE = ('Files written by the check itself (Gmsh 4.1 and 2.2): small grids in '
        'one to three dimensions, all subsets of periodic directions, all '
        'rotations of the cells and all listings of the boundary facets, '
        'numberings of the nodes, sides split into several entities, all '
        'orders of three periodic entities and both choices of the master '
        'side, periodic entities of lower dimension alone and together, two files with '
        'more than 2^15 nodes. The '
        'model collects cells, facets and pairs entity by entity; the mesh '
        'read is also refined and glued. A state is the set of links after '
        'some entities, a transition is one facet of an entity, a trace is one '
        'file read by the real code. Non-trivial: periodic files and turned '
        'cells.')
ASSUMPTIONS = ['Node tags of periodic files are consecutive (meshio does not '
               'translate others).']

# Gmsh's order of the corners, by their coordinates.
GMSH = {1: [(0,), (1,)], 2: [(0, 0), (1, 0), (1, 1), (0, 1)],
        3: [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0),
            (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]}
TYPE = {0: 15, 1: 1, 2: 3, 3: 5}


def jobs(tier):
  q = tier == 'quick'
  out = []
  for fmt in ('4.1', '2.2'):
    for d in (1, 2, 3):
      out.append(dict(name=f'cells {d} {fmt}', cost=d ** 2,
                      args=dict(what='cells', d=d, fmt=fmt)))
    for d in (2, 3):
      for p in range(1 if d == 2 else 3):
        out.append(dict(name=f'periodic {d} {fmt} {p}', cost=3 * d ** 2,
                        args=dict(what='periodic', d=d, fmt=fmt,
                                  part=(p, 1 if d == 2 else 3))))
  out.append(dict(name='numberings', cost=6, args=dict(what='numberings')))
  out.append(dict(name='large', cost=40, args=dict(what='large')))
  out.append(dict(name='errors', args=dict(what='errors')))
  if not q:
    for p in range(6):
      out.append(dict(name=f'periodic 3 all {p}', cost=100,
                      args=dict(what='periodic', d=3, fmt='4.1', full=True,
                                part=(p, 6))))
  return out


def gmsh_order(listing):
  """Lexicographic corners to Gmsh's order."""
  d = int(np.log2(len(listing)))
  lex = list(itertools.product((0, 1), repeat=d))
  return [int(listing[lex.index(c)]) for c in (GMSH[d] if d else [()])]


class File:
  """Nodes, entities with cells, and periodic pairs."""

  def __init__(self, coords):
    self.coords = np.zeros((len(coords), 3))
    self.coords[:, :coords.shape[1]] = coords
    self.entities = []     # (dim, tag, cells)
    self.periodic = []     # (dim, slave tag, master tag, pairs)

  def write(self, path, fmt, affine=True, tags=None):
    n = len(self.coords)
    tags = list(range(1, n + 1)) if tags is None else tags
    cells = [(d, t, c) for d, t, cs in self.entities for c in cs]
    o = ['$MeshFormat', f'{fmt} 0 8', '$EndMeshFormat']
    if fmt == '4.1':
      dims = [[e for e in self.entities if e[0] == k] for k in range(4)]
      o += ['$Entities', ' '.join(str(len(x)) for x in dims)]
      for d, t, _ in dims[0]:
        o.append(f'{t} 0 0 0 0')
      for k in (1, 2, 3):
        for d, t, _ in dims[k]:
          o.append(f'{t} 0 0 0 1 1 1 0 0')
      o += ['$EndEntities', '$Nodes', f'1 {n} {min(tags)} {max(tags)}',
            f'{self.entities[-1][0]} {self.entities[-1][1]} 0 {n}']
      o += [str(t) for t in tags]
      o += [' '.join(repr(float(v)) for v in x) for x in self.coords]
      o += ['$EndNodes', '$Elements',
            f'{len(self.entities)} {len(cells)} 1 {len(cells)}']
      k = 0
      for d, t, cs in self.entities:
        o.append(f'{d} {t} {TYPE[d]} {len(cs)}')
        for c in cs:
          k += 1
          o.append(f'{k} ' + ' '.join(str(tags[i]) for i in c))
      o.append('$EndElements')
      if self.periodic:
        o += ['$Periodic', str(len(self.periodic))]
        for d, s, m, pairs in self.periodic:
          o.append(f'{d} {s} {m}')
          o.append('16 1 0 0 1 0 1 0 0 0 0 1 0 0 0 0 1' if affine else '0')
          o.append(str(len(pairs)))
          o += [f'{tags[a]} {tags[b]}' for a, b in pairs]
        o.append('$EndPeriodic')
    else:
      o += ['$Nodes', str(n)]
      o += [f'{t} ' + ' '.join(repr(float(v)) for v in x)
            for t, x in zip(tags, self.coords)]
      o += ['$EndNodes', '$Elements', str(len(cells))]
      for k, (d, t, c) in enumerate(cells):
        o.append(f'{k + 1} {TYPE[d]} 2 0 {t} ' + ' '.join(
            str(tags[i]) for i in c))
      o.append('$EndElements')
      if self.periodic:
        o += ['$Periodic', str(len(self.periodic))]
        for d, s, m, pairs in self.periodic:
          o.append(f'{d} {s} {m}')
          if affine:
            o.append('Affine 1 0 0 1 0 1 0 0 0 0 1 0 0 0 0 1')
          o.append(str(len(pairs)))
          o += [f'{tags[a]} {tags[b]}' for a, b in pairs]
        o.append('$EndPeriodic')
    path.write_text('\n'.join(o) + '\n')


def make_file(c, shape, periodic, facet_turn=0, split=False, master=0,
              order=None, lower=False, faces=True):
  """The file of a grid. Returns it with the pairs of facets to be linked."""
  d = len(shape)
  f = File(c.coords)
  num = {m: k for k, m in enumerate(c.multi)}
  fsym = [p for p, _ in meshes.symmetries(d - 1)] if d > 1 else [(0,)]
  links, tag, per = [], 0, []
  if lower:
    f.entities.append((0, 1, [[0]]))
  for axis in range(d if d > 1 else 0):
    blocks = {0: {}, 1: {}}
    rest = [range(s) for k, s in enumerate(shape) if k != axis]
    for side in (0, 1):
      for q in itertools.product(*rest):
        key = (q[0] if split else 0)
        lex = []
        for b in itertools.product((0, 1), repeat=d - 1):
          m = list(np.add(q, b))
          m.insert(axis, side * shape[axis])
          lex.append(num[tuple(int(v) for v in m)])
        blocks[side].setdefault(key, []).append(lex)
    tags = {}
    for side in (0, 1):
      for key, cells in blocks[side].items():
        tag += 1
        tags[side, key] = tag
        turned = [[x[i] for i in fsym[(facet_turn + 3 * k + side) % len(fsym)]]
                  for k, x in enumerate(cells)]
        f.entities.append((d - 1, tag, [gmsh_order(x) for x in turned]))
    if axis in periodic:
      s = 1 if master == 0 else 0
      for key, cells in blocks[s].items():
        pairs = {}
        for a, b in zip(cells, blocks[1 - s][key]):
          pairs.update(zip(a, b))
          links.append(list(zip(a, b)))
        items = sorted(pairs.items(), key=lambda x: (x[0] * 7) % 11)
        per.append((d - 1, tags[s, key], tags[1 - s, key], items))
  if lower and d > 1:
    # corners, and in 3D edges, are periodic as entities of their own
    ends = [num[tuple(0 for _ in shape)], num[tuple(shape)]]
    per.append((0, 1, 1, [(ends[1], ends[0])]))
    if d == 3:
      line = [[num[(0, 0, k)], num[(shape[0], 0, k)]]
              for k in range(shape[2] + 1)]
      f.entities.append((1, 1, [[line[k][0], line[k + 1][0]]
                                for k in range(shape[2])]))
      per.append((1, 1, 1, line))
  if order is not None and len(per) == len(order):
    per = [per[i] for i in order]
  f.periodic = per
  f.entities.append((d, 1, [gmsh_order(el) for el in c.elements]))
  return f, links


def check_one(ctx, c, shape, fmt, key, tags=None, affine=True, refine=True,
              **kw):
  with ctx.case(key):
    d = len(shape)
    f, links = make_file(c, shape, **kw)
    path = pathlib.Path(ctx.scratch) / 'mesh.msh'
    f.write(path, fmt, affine=affine, tags=tags)
    pm = mesh_reader.read(path, ndim=d)
    ctx.equal(np.asarray(pm.node_coords), c.coords, 'coordinates')
    ctx.check(pm.order == 1 and pm.partitions is None, 'first order')
    # each cell once, by a rotation of its corners
    sym = {p: det for p, det in meshes.symmetries(d)}
    want = {tuple(sorted(el)): el.tolist() for el in c.elements}
    got = np.asarray(pm.elements).tolist()
    ctx.check(sorted(tuple(sorted(g)) for g in got) == sorted(want), 'cells')
    for g in got:
      w = want[tuple(sorted(g))]
      ctx.check(sym.get(tuple(w.index(x) for x in g)) == 1,
                f'cell {w} was read as {g}')
    if not links:
      ctx.check(pm.periodic_links is None or not len(pm.periodic_links),
                'links from nowhere', pm.periodic_links)
    else:
      have = collections.Counter()
      fsym = {p for p, _ in meshes.symmetries(d - 1)}
      facets = {tuple(sorted(a for a, _ in l)): [a for a, _ in l]
                for l in links}
      facets.update({tuple(sorted(b for _, b in l)): [b for _, b in l]
                     for l in links})
      ctx.check(pm.periodic_links.shape == (len(links), 2, 2 ** (d - 1)),
                'shape of links', pm.periodic_links.shape)
      for a, b in np.asarray(pm.periodic_links).tolist():
        have[tuple(sorted(map(tuple, map(sorted, zip(a, b)))))] += 1
        for x in (a, b):
          ref = facets.get(tuple(sorted(x)))
          ctx.check(ref is not None, f'{x} is no periodic facet')
          ctx.check(tuple(ref.index(v) for v in x) in fsym,
                    f'facet {ref} is listed as {x}')
      expected = collections.Counter()
      for l in links:
        expected[tuple(sorted(map(tuple, map(sorted, l))))] += 1
        if len(links) < 100:
          ctx.state(tuple(sorted(expected.items())))
        ctx.transition()
      ctx.check(have == expected, f'links {sorted(have)}, expected '
                f'{sorted(expected)}')
    if refine and d > 1:
      # the points are glued as in the cell by cell model
      nodes = Nodes1D.create(4, NodeType.GAUSS_LOBATTO_LEGENDRE)
      out = refine_premesh(pm, nodes)
      c2 = meshes.Coarse(c.coords, np.array(got), {}, None, c.multi, c.cells)
      node_of = refine_model.check_refined(ctx, c2, nodes, out)
      pairs = [[[node_of[m] for m in refine_model.names([v[s] for v in l], 4)]
                for s in (0, 1)] for l in links]
      label = meshes.classes(len(out.node_coords), pairs)
      ids = np.asarray(out.finalize().node_indices)
      fwd, back = {}, {}
      for k, l in enumerate(label.tolist()):
        ctx.check(fwd.setdefault(l, ids[k]) == ids[k]
                  and back.setdefault(ids[k], l) == l,
                  f'degree of freedom of node {k} after refinement')
    ctx.trace()
    ctx.evaluated(bool(links) or c.cells != sorted(c.cells) or 'turn' in key)
    ctx.sample(key)


def run(ctx, a):
  what = a['what']
  none = dict(periodic=())
  if what == 'cells':
    d, fmt = a['d'], a['fmt']
    rot = [p for p, det in meshes.symmetries(d) if det == 1]
    for shape in {1: [(1,), (3,)], 2: [(1, 1), (2, 1), (2, 3)],
                  3: [(1, 1, 1), (2, 1, 1), (1, 2, 2)]}[d]:
      ne = int(np.prod(shape))
      for k, s in enumerate(rot):
        orient = [rot[(k * (e + 1) + e) % len(rot)] for e in range(ne)]
        for order in (list(range(ne)), list(range(ne))[::-1]):
          c = meshes.structured(shape, how=2, orient=orient, order=order)
          check_one(ctx, c, shape, fmt, dict(a, shape=shape, turn=k,
                                             order=order[0]), refine=False,
                    **none)
          # tags neither consecutive nor ordered
          n = len(c.coords)
          tags = [3 * ((i * 7 + 2) % n if n % 7 else n - i) + 5
                  for i in range(n)]
          check_one(ctx, c, shape, fmt, dict(a, shape=shape, turn=k,
                                             order=order[0], tags=tags),
                    refine=False, tags=tags, **none)
  elif what == 'periodic':
    d, fmt = a['d'], a['fmt']
    part, of = a['part']
    rot = [p for p, det in meshes.symmetries(d) if det == 1]
    nf = 2 if d == 2 else 8
    shapes = {2: [(1, 1), (2, 1), (2, 2), (3, 2)],
              3: [(1, 1, 1), (2, 1, 1), (2, 2, 1)]}[d]
    if d == 3 and a.get('full'):
      shapes = [(1, 2, 2), (2, 2, 2), (3, 1, 2)]
    k = -1
    for shape in shapes:
      ne = int(np.prod(shape))
      for r in range(d + 1):
        for per in itertools.combinations(range(d), r):
          for turn in range(nf):
            for split, master, lower in itertools.product(
                (False, True), (0, 1), (False, True)):
              k += 1
              if k % of != part:
                continue
              orders = list(itertools.permutations(range(r)))
              if lower or split:
                orders = [None]
              for order in orders:
                orient = [rot[(turn * (e + 1)) % len(rot)] for e in range(ne)]
                c = meshes.structured(shape, how=2, orient=orient)
                check_one(ctx, c, shape, fmt, dict(
                    a, shape=shape, periodic=per, turn=turn, split=split,
                    master=master, lower=lower, order=order),
                          affine=(turn + k) % 2 == 0, periodic=per,
                          facet_turn=turn, split=split, master=master,
                          lower=lower, order=order,
                          refine=turn < (2 if ctx.quick else 8))
  elif what == 'numberings':
    for shape in ((2, 1), (1, 2)):
      for num in itertools.permutations(range(6)):
        c = meshes.structured(shape, how=2, numbering=num)
        check_one(ctx, c, shape, '4.1', dict(numbering=num, shape=shape),
                  periodic=(0, 1) if num[0] % 2 else (0,), refine=False)
  elif what == 'large':
    # more nodes than 16 bit numbers can count
    for shape, per in (((190, 190), (0, 1)), ((2, 16400), (1,))):
      nn = int(np.prod([s + 1 for s in shape]))
      c = meshes.structured(shape, numbering=list(range(nn))[::-1])
      check_one(ctx, c, shape, '4.1', dict(large=shape, periodic=per),
                periodic=per, refine=False)
  elif what == 'errors':
    for d in (1, 2, 3):
      c = meshes.structured((2,) * d)
      f, _ = make_file(c, (2,) * d, ())
      path = pathlib.Path(ctx.scratch) / 'mesh.msh'
      # without elements of the dimension
      f.entities = [e for e in f.entities if e[0] != d]
      if not f.entities:
        f.entities = [(0, 1, [[0]])]
      f.write(path, '4.1')
      for ask in range(d, 4):
        with ctx.case(dict(without=d, ask=ask)):
          try:
            mesh_reader.read(path, ndim=ask)
          except ValueError:
            ctx.evaluated(True)
          else:
            ctx.fail('a file without elements of this dimension was accepted')
    for ask in (-1, 0, 4):
      with ctx.case(dict(ask=ask)):
        try:
          mesh_reader.read(path, ndim=ask)
        except ValueError:
          ctx.evaluated(True)
        else:
          ctx.fail('the dimension was accepted')
