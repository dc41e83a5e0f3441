"""G03: partitioning loses, moves and duplicates nothing."""
import collections
import itertools

import numpy as np

from mc import meshes
from swirl_fem.core import gather_scatter
from swirl_fem.core.interpolation import Nodes1D, NodeType
from swirl_fem.core.mesh_refiner import refine_premesh

LEVEL = 'model_checking'
RULE = ('All assignments of the elements of small meshes in one to three '
        'dimensions to up to four partitions (empty partitions and periodic '
        'boundaries included), finalized by the real code and compared with a '
        'model that places element by element; all partition vectors of up to '
        'six entries and all tables of two partitions through the two index '
        'functions; two partitionings of 70000 elements. A state is the content of the partitions after some '
        'elements are placed, a transition places one element, a trace is one '
        'complete assignment given to the real code. Non-trivial: at least '
        'two partitions share a node or differ in size.')
ASSUMPTIONS = ['Periodic links between nodes of one partition are documented '
               'as unsupported and must be rejected.']

MESHES = {
    # name: (shape, periodic, how, order, max partitions, numbering step)
    '1d': ((4,), (), 2, 1, 4, 1),
    '1d5': ((5,), (), 2, 2, 3, 5),
    '1d periodic': ((4,), (0,), 2, 1, 4, 1),
    '1d periodic 3': ((4,), (0,), 2, 3, 4, 3),
    '2d': ((2, 2), (), 2, 1, 4, 1),
    '2d 2': ((2, 2), (), 2, 2, 4, 2),
    '2d gl': ((2, 2), (), 2, -2, 3, 2),
    '2d x': ((2, 2), (0,), 2, 2, 4, 5),
    '2d y': ((2, 2), (1,), 2, 1, 4, 1),
    '2d xy': ((2, 2), (0, 1), 2, 2, 4, 1),
    '2d 3x1': ((3, 1), (0,), 2, 2, 3, 3),
    '3d': ((2, 2, 1), (), 2, 1, 4, 5),
    '3d 2': ((2, 1, 1), (), 2, 2, 2, 5),
    '3d x': ((2, 2, 1), (0,), 2, 1, 4, 1),
    '3d xy': ((2, 2, 1), (0, 1), 2, 2, 4, 1),
}
THOROUGH = {
    '1d6': ((6,), (), 2, 1, 4, 5),
    '1d6 periodic': ((6,), (0,), 2, 1, 4, 1),
    '2d 3x2': ((3, 2), (), 2, 2, 4, 5),
    '2d 3x2 xy': ((3, 2), (0, 1), 2, 2, 4, 5),
    '3d cube': ((2, 2, 2), (), 2, 2, 2, 5),
    '3d cube x': ((2, 2, 2), (0,), 2, 1, 2, 5),
    '2d 4x2': ((4, 2), (), 2, 1, 3, 7),
}


def jobs(tier):
  out = []
  table = dict(MESHES, **({} if tier == 'quick' else THOROUGH))
  for name, (shape, _, _, order, p, _) in table.items():
    total = p ** int(np.prod(shape))
    of = max(1, round(total / 128))
    for k in range(of):
      out.append(dict(name=f'mesh {name} {k}', devices=p, cost=total / of,
                      args=dict(what='mesh', mesh=name, part=(k, of))))
  for n in range(1, 7):
    out.append(dict(name=f'vectors {n}', cost=4 ** n / 100,
                    args=dict(what='vectors', n=n)))
  for p in range(4):
    out.append(dict(name=f'tables {p}', cost=30,
                    args=dict(what='tables', part=(p, 4))))
  out.append(dict(name='large', devices=2, args=dict(what='large')))
  if tier != 'quick':
    out.append(dict(name='vectors 8', cost=50, args=dict(what='vectors', n=8)))
  return out


def shuffled(n, step):
  while np.gcd(step, n) != 1:
    step += 1
  return [(3 + k * step) % n for k in range(n)]


def make(name):
  shape, periodic, how, order, p, step = dict(MESHES, **THOROUGH)[name]
  n = int(np.prod([s + 1 for s in shape]))
  c = meshes.structured(shape, periodic, how, numbering=shuffled(n, step))
  pm = c.premesh()
  # a group which is a single facet, and one that contains everything
  one = next(iter(pm.physical_groups.values()), None)
  if order == 1:
    r = pm
    if one is not None:
      pm.physical_groups['one'] = one[:1]
  else:
    if one is not None:
      pm.physical_groups['one'] = one[:1]
    t = (NodeType.GAUSS_LEGENDRE if order < 0
         else NodeType.GAUSS_LOBATTO_LEGENDRE)
    r = refine_premesh(pm, Nodes1D.create(abs(order) + 1, t))
  return r, p


def check_mesh(ctx, pm, label, marked, assign, mesh):
  """Compares a finalized mesh with the model of the assignment."""
  num_p = max(assign) + 1
  els = np.asarray(mesh.elements)
  ids = np.asarray(mesh.node_indices)
  xyz = np.asarray(mesh.node_coords)
  ctx.check(els.ndim == 3 and els.shape[0] == num_p, 'partitions', els.shape)
  ctx.check(ids.shape == xyz.shape[:2] and ids.shape[0] == num_p, 'shapes')
  ctx.check(mesh.gridpoints_1d == pm.gridpoints_1d
            and mesh.order == pm.gridpoints_1d.num_points - 1, 'reference nodes')
  # the model: place element by element
  content = [[] for _ in range(num_p)]
  for e, p in enumerate(assign):
    content[p].append(e)
    if len(assign) < 100:
      ctx.state(tuple(map(tuple, content)))
    ctx.transition()
  coords32 = pm.node_coords.astype(xyz.dtype)
  where = {}
  for k, c in enumerate(coords32):
    where.setdefault(tuple(c), []).append(k)
  ctx.check(all(len(v) == 1 for v in where.values()), 'harness: coordinates')
  ident, back = {}, {}
  for p in range(num_p):
    got = []
    used = set()
    for row in els[p]:
      if (row == -1).all():
        continue
      ctx.check((row >= 0).all() and (row < ids.shape[1]).all(),
                f'partition {p}: element {row.tolist()}')
      used |= set(row.tolist())
      nodes = []
      for i in row:
        orig = where.get(tuple(xyz[p, i]))
        ctx.check(orig is not None, f'partition {p}: local node {i} has the '
                  f'coordinates of no node, {xyz[p, i]}')
        nodes.append(orig[0])
      got.append(tuple(nodes))
    want = [tuple(pm.elements[e].tolist()) for e in content[p]]
    ctx.check(collections.Counter(got) == collections.Counter(want),
              f'partition {p} has the elements {got}, expected {want}')
    real = set()
    for i in range(ids.shape[1]):
      if i not in used:
        ctx.check(ids[p, i] == -1, f'partition {p}: local node {i} is in no '
                  f'element but names node {ids[p, i]}')
        continue
      node = where[tuple(xyz[p, i])][0]
      ctx.check(node not in real, f'partition {p}: node {node} twice')
      real.add(node)
      ctx.check(ids[p, i] != -1, f'partition {p}: node {node} is padding')
      l = int(label[node])
      ctx.check(ident.setdefault(l, ids[p, i]) == ids[p, i]
                and back.setdefault(ids[p, i], l) == l,
                f'identity of node {node} in partition {p}')
    for name, dofs in marked.items():
      mask = np.asarray(mesh.physical_masks[name])
      want_mask = np.array([i in used and int(label[
          where[tuple(xyz[p, i])][0]]) in dofs for i in range(ids.shape[1])])
      ctx.check(np.array_equal(mask[p], want_mask),
                f'partition {p}: group {name} marks {np.flatnonzero(mask[p])}, '
                f'expected {np.flatnonzero(want_mask)}')
  ctx.check(set(mesh.physical_masks) == set(marked), 'groups')


def duplicates_in_partition(pm, label, assign):
  for p in set(assign):
    nodes = {n for e, q in enumerate(assign) if q == p
             for n in pm.elements[e].tolist()}
    if len({int(label[n]) for n in nodes}) < len(nodes):
      return True
  return False


def run(ctx, a):
  what = a['what']
  if what == 'mesh':
    pm, nparts = make(a['mesh'])
    label = meshes.classes(pm.num_nodes, pm.periodic_links)
    marked = {k: {int(label[n]) for n in v.ravel()}
              for k, v in pm.physical_groups.items()}
    part, of = a['part']
    for k, assign in enumerate(itertools.product(
        range(nparts), repeat=pm.num_elements)):
      if k % of != part:
        continue
      with ctx.case(dict(mesh=a['mesh'], assign=assign)):
        m = pm.replace(partitions=np.array(assign, np.int32))
        if duplicates_in_partition(pm, label, assign):
          try:
            m.finalize('p')
          except NotImplementedError:
            ctx.count('rejected')
            ctx.trace()
            ctx.evaluated(False)
            continue
          ctx.fail('periodicity within a partition was neither supported nor '
                   'rejected')
        mesh = m.finalize('p')
        check_mesh(ctx, pm, label, marked, assign, mesh)
        ctx.trace()
        ctx.evaluated(len(set(assign)) > 1)
        if len(set(assign)) > 1:
          ctx.sample(f'{a["mesh"]}: elements to partitions {list(assign)}')
  elif what == 'large':
    # more nodes than 16 bit numbers can count, in each partition
    n = 70000
    for name, assign in (('halves', [e * 2 // n for e in range(n)]),
                         ('uneven', [int(e > n - 1000) for e in range(n)])):
      with ctx.case(dict(large=name)):
        c = meshes.structured((n,), numbering=list(range(n + 1))[::-1],
                              scale=float(n))
        c.coords = np.rint(c.coords)
        pm = c.premesh(assign)
        check_mesh(ctx, pm, np.arange(n + 1),
                   {k: set(v.ravel().tolist())
                    for k, v in pm.physical_groups.items()}, assign,
                   pm.finalize('p'))
        ctx.state('large', name)
        ctx.trace()
        ctx.evaluated()
  elif what == 'vectors':
    for vec in itertools.product(range(4), repeat=a['n']):
      with ctx.case(dict(vector=vec)):
        got = np.asarray(gather_scatter.group_by_partitions(
            np.array(vec, np.int32)))
        want = [[i for i, q in enumerate(vec) if q == p]
                for p in range(max(vec) + 1)]
        ctx.check(got.shape == (len(want), max(map(len, want))), 'shape', got)
        for p, w in enumerate(want):
          row = sorted(x for x in got[p].tolist() if x != -1)
          ctx.check(row == w, f'partition {p} of {vec}: {got[p]}')
        ctx.evaluated(len(set(vec)) > 1)
  elif what == 'tables':
    # Two partitions with two elements of two nodes among four and missing.
    part, of = a['part']
    for k, flat in enumerate(itertools.product(range(-1, 4), repeat=6)):
      if k % of != part:
        continue
      for shape in ((2, 3, 1), (3, 2), (2, 1, 3)):
        with ctx.case(dict(table=flat, shape=shape)):
          t = np.array(flat, np.int32).reshape(shape)
          nodes, local = gather_scatter.get_local_elements(t)
          nodes, local = np.asarray(nodes), np.asarray(local)
          ctx.check(local.shape == t.shape and nodes.ndim == 2
                    and len(nodes) == len(t), 'shapes')
          for p in range(len(t)):
            present = [x for x in nodes[p].tolist() if x != -1]
            ctx.check(len(set(present)) == len(present)
                      and set(present) == set(t[p].ravel().tolist()) - {-1},
                      f'nodes of partition {p}: {nodes[p]}, elements {t[p]}')
            ctx.check(nodes.shape[1] == max(
                len(set(x.ravel().tolist()) - {-1}) for x in t), 'padding')
            back = np.where(local[p] == -1, -1, np.append(nodes[p], -9)[
                np.where(local[p] == -1, -1, local[p])])
            ctx.check(np.array_equal(back, t[p]),
                      f'partition {p}: {local[p]} over {nodes[p]} is not {t[p]}')
          ctx.evaluated(True)
