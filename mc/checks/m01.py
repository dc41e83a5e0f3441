"""M01: refinement is conforming, whatever the numbering of the elements."""
import itertools

import numpy as np

from mc import meshes
from mc import refine_model
from swirl_fem.core.interpolation import Nodes1D, NodeType
from swirl_fem.core.mesh_refiner import refine_premesh

LEVEL = 'model_checking'
RULE = ('Meshes of two cells sharing a face, an edge or a vertex, in every '
        'relative position and with every combination of the symmetries of the '
        'cells (2D: all pairs; 3D: every symmetry of one cell with each of a '
        'set for the other, thorough: all pairs), grids with one cell turned in '
        'every way, all numberings of the vertices of small meshes, all node '
        'types, orders up to 5; a few meshes with more than 2^15 nodes. The model names each point by its exact '
        'multilinear weights. A state is the set of names known after some '
        'elements are refined, a transition refines one element, a trace is '
        'one mesh refined by the real code. Non-trivial: at least one '
        'interior point of a face or edge is shared.')
ASSUMPTIONS = ['Edges and faces are determined by their vertices, and shared '
               'faces are glued by a symmetry of the square.']

TYPES = {'gll': NodeType.GAUSS_LOBATTO_LEGENDRE,
         'gl': NodeType.GAUSS_LEGENDRE, 'nc': NodeType.NEWTON_COTES}

# more nodes than 16 bit numbers can count
LARGE = [((2,), 17000), ((2, 1), 140), ((2, 1, 1), 26), ((130, 130), 3)]


def jobs(tier):
  q = tier == 'quick'
  out = []
  for t in TYPES:
    for n in (1, 2, 3, 4, 5) if q else (1, 2, 3, 4, 5, 6, 7):
      if n == 1 and t != 'gl':
        continue
      out.append(dict(name=f'2d pairs {t} {n}', cost=4,
                      args=dict(what='pairs2', type=t, n=n)))
      out.append(dict(name=f'1d {t} {n}', cost=1,
                      args=dict(what='1d', type=t, n=n)))
  for t, n in [('gll', 3), ('gll', 4), ('gll', 5), ('nc', 4), ('gl', 2),
               ('gl', 1)] + (
      [] if q else [('gll', 6), ('gl', 3)]):
    for share in ('face', 'edge', 'vertex'):
      second = (2 if share == 'vertex' else 8) if q else 48
      of = max(1, second // 6)
      for p in range(of):
        out.append(dict(name=f'3d {share} {t} {n} {p}', cost=second * n,
                        args=dict(what='pairs3', type=t, n=n, share=share,
                                  second=second, part=(p, of))))
  for t, n in [('gll', 3), ('gll', 4)]:
    for shape in ((2, 2), (3, 2), (2, 2, 2), (3, 1, 2)):
      out.append(dict(name=f'grid {shape} {t} {n}', cost=np.prod(shape).item() * 4,
                      args=dict(what='grid', type=t, n=n, shape=shape)))
  for p in range(2 if q else 8):
    out.append(dict(name=f'numberings {p}', cost=20,
                    args=dict(what='numberings', full=not q,
                              part=(p, 2 if q else 8))))
  for k, (shape, n) in enumerate(LARGE):
    out.append(dict(name=f'large {shape} {n}', cost=40,
                    args=dict(what='large', n=n, type='gll', shape=shape)))
  for shape, n in LARGE[1:3]:
    out.append(dict(name=f'large {shape} gl {n}', cost=40,
                    args=dict(what='large', n=n, type='gl', shape=shape)))
  out.append(dict(name='errors', args=dict(what='errors')))
  return out


def subset(c, cells):
  """The mesh of some of the cells only."""
  keep = [c.cells.index(x) for x in cells]
  els = c.elements[keep]
  used = sorted(set(els.ravel().tolist()))
  new = {u: k for k, u in enumerate(used)}
  return meshes.Coarse(c.coords[used], np.vectorize(new.get)(els).astype(
      np.int32), {}, None, [c.multi[u] for u in used], cells)


def check_one(ctx, c, nodes, key):
  with ctx.case(key):
    out = refine_premesh(c.premesh(), nodes)
    node_of = refine_model.check_refined(ctx, c, nodes, out)
    n, shared = nodes.num_points, 0
    known = set()
    if node_of is not None:
      total = 0
      for e, el in enumerate(c.elements):
        nm = set(refine_model.names(el, n))
        total += len(nm)
        known |= nm
        ctx.state(tuple(np.sort(el)), len(known), e, n)
        ctx.transition()
      ctx.check(len(known) == len(out.node_coords), 'number of nodes')
      shared = total - len(known)
    else:
      ctx.transition(len(c.elements))
    ctx.check(out.partitions is None and out.periodic_links is None,
              'links or partitions from nowhere')
    ctx.trace()
    ctx.evaluated(shared > 0)
    ctx.sample(key)


def run(ctx, a):
  what = a['what']
  if what == 'errors':
    c = meshes.structured((1, 1))
    once = refine_premesh(c.premesh(), Nodes1D.create(3, TYPES['gll']))
    with ctx.case('refining twice'):
      try:
        refine_premesh(once, Nodes1D.create(3, TYPES['gll']))
      except ValueError:
        pass
      else:
        ctx.fail('a mesh of second order was accepted')
    return
  if what != 'numberings':
    nodes = Nodes1D.create(a['n'], TYPES[a['type']])
  if what == 'large':
    shape = tuple(a['shape'])
    sym = [p for p, _ in meshes.symmetries(len(shape))]
    ne, nn = int(np.prod(shape)), int(np.prod([s + 1 for s in shape]))
    c = meshes.structured(
        shape, how=2, orient=[sym[(5 * e + 3) % len(sym)] for e in range(ne)],
        numbering=list(range(nn))[::-1])
    check_one(ctx, c, nodes, a)
  elif what == '1d':
    for flip in itertools.product((0, 1), repeat=3):
      for num in itertools.permutations(range(4)):
        orient = [(1, 0) if f else (0, 1) for f in flip]
        c = meshes.structured((3,), how=2, numbering=num, orient=orient)
        check_one(ctx, c, nodes, dict(a, flip=flip, numbering=num))
  elif what == 'pairs2':
    sym = [p for p, _ in meshes.symmetries(2)]
    for s1, s2 in itertools.product(sym, repeat=2):
      for shape in ((2, 1), (1, 2)):
        for order in ((0, 1), (1, 0)):
          c = meshes.structured(shape, how=2, orient=[s1, s2], order=order)
          check_one(ctx, c, nodes, dict(a, orient=[s1, s2], shape=shape,
                                        order=order))
      for pair in (((0, 0), (1, 1)), ((0, 1), (1, 0))):
        full = meshes.structured((2, 2), how=2, orient=[s1, s1, s2, s2])
        check_one(ctx, subset(full, list(pair)), nodes,
                  dict(a, orient=[s1, s2], pair=pair))
  elif what == 'pairs3':
    sym = [p for p, _ in meshes.symmetries(3)]
    # a subgroup's representatives first: the rotations and a mirror image
    step = 48 // a['second']
    second = sym[::step]
    part, of = a['part']
    full_shape = {'face': (2, 1, 1), 'edge': (2, 2, 1),
                  'vertex': (2, 2, 2)}[a['share']]
    for k, s2 in enumerate(second):
      if k % of != part:
        continue
      for s1 in sym:
        for shape in sorted(set(itertools.permutations(full_shape))):
          # cells which touch only as wanted
          free = [i for i in range(3) if shape[i] == 2]
          for bits in itertools.product((0, 1), repeat=len(free)):
            first = [0, 0, 0]
            last = [0, 0, 0]
            for i, b in zip(free, bits):
              first[i], last[i] = b, 1 - b
            full = meshes.structured(shape, how=2)
            sub = subset(full, [tuple(first), tuple(last)])
            sub.elements[0] = sub.elements[0][list(s1)]
            sub.elements[1] = sub.elements[1][list(s2)]
            check_one(ctx, sub, nodes, dict(a, orient=[s1, s2], shape=shape,
                                            first=first))
            if ctx.quick and k >= 2:
              break  # one position of the two for the other symmetries
  elif what == 'grid':
    shape = tuple(a['shape'])
    d, ne = len(shape), int(np.prod(shape))
    sym = [p for p, _ in meshes.symmetries(d)]
    nn = int(np.prod([s + 1 for s in shape]))
    ident = tuple(range(2 ** d))
    for e in range(ne):
      for s in sym:
        orient = [ident] * ne
        orient[e] = s
        num = [(k * 5 + 1) % nn if np.gcd(5, nn) == 1 else (nn - 1 - k)
               for k in range(nn)]
        c = meshes.structured(shape, how=2, orient=orient, numbering=num)
        check_one(ctx, c, nodes, dict(a, turned=e, orient=s))
    for s in range(0, len(sym)):
      orient = [sym[(s * (e + 1) + e) % len(sym)] for e in range(ne)]
      for order in (list(range(ne)), list(range(ne))[::-1]):
        c = meshes.structured(shape, how=2, orient=orient, order=order)
        check_one(ctx, c, nodes, dict(a, mixed=s, order=order[0]))
  elif what == 'numberings':
    part, of = a['part']
    nodes = Nodes1D.create(4, TYPES['gll'])
    for k, num in enumerate(itertools.permutations(range(6))):
      if k % of != part:
        continue
      for shape in ((2, 1), (1, 2)):
        c = meshes.structured(shape, how=2, numbering=num)
        check_one(ctx, c, nodes, dict(numbering=num, shape=shape))
    # 3D: where the vertices of the shared face come in the numbering, in
    # every order
    nodes = Nodes1D.create(4, TYPES['gll'])
    base = meshes.structured((2, 1, 1), how=2)
    mid = [k for k, m in enumerate(base.multi) if m[0] == 1]
    for k, perm in enumerate(itertools.permutations(range(4))):
      if k % of != part:
        continue
      num = list(range(12))
      for i, j in enumerate(perm):
        num[mid[i]] = mid[j]
      c = meshes.structured((2, 1, 1), how=2, numbering=num)
      check_one(ctx, c, nodes, dict(face=perm))
      if a['full']:
        for s, _ in meshes.symmetries(3):
          c = meshes.structured((2, 1, 1), how=2, numbering=num,
                                orient=[tuple(range(8)), s])
          check_one(ctx, c, nodes, dict(face=perm, orient=s))
