"""F01: facet slices and orientation tables describe the cube."""
import itertools

import numpy as np

from swirl_fem.common import facet_util
from swirl_fem.common.facet_util import FacetDimType

LEVEL = 'exploration'
RULE = ('All facets of cubes of dimension 1 to 4 with 2 to 6 (thorough 9) '
        'points per direction, and all symmetries of cubes of dimension 1 to 4 '
        'with 0 to 6 (thorough 9) points and with more than 2^15 points, compared with geometric definitions '
        'from the coordinates of the points. Non-trivial: facets with at least '
        'one free direction, symmetries other than the identity.')
ASSUMPTIONS = []

POS = {FacetDimType.FIRST: -1, FacetDimType.INNER: 0, FacetDimType.LAST: 1}


def jobs(tier):
  top = 6 if tier == 'quick' else 9
  out = []
  for d in range(1, 5):
    out.append(dict(name=f'slices {d}', args=dict(what='slices', d=d, top=top)))
    for n in range(0, top + 1):
      out.append(dict(name=f'symmetries {d} {n}', cost=n ** d / 100,
                      args=dict(what='sym', d=d, n=n)))
  out.append(dict(name='large', args=dict(what='large', d=0)))
  return out


def run(ctx, a):
  d = a['d']
  if a['what'] == 'large':
    large(ctx)
  elif a['what'] == 'slices':
    with ctx.case(dict(types=d)):
      types = list(facet_util.get_facet_types(d))
      codes = [tuple(POS[t] for t in f) for f in types]
      ctx.check(sorted(codes) == sorted(itertools.product((-1, 0, 1), repeat=d)),
                'facets', codes)
      for k in range(d + 1):
        got = [tuple(POS[t] for t in f)
               for f in facet_util.get_facet_types(d, facet_ndim=k)]
        want = [c for c in itertools.product((-1, 0, 1), repeat=d)
                if c.count(0) == k]
        ctx.check(sorted(got) == sorted(want), f'facets of dimension {k}', got)
      ctx.evaluated(True)
    types = list(itertools.product(list(FacetDimType), repeat=d))
    for n in range(2, a['top'] + 1):
      grid = np.arange(n ** d).reshape([n] * d)
      count = np.zeros(n ** d, int)
      for f in types:
        with ctx.case(dict(facet=[t.name for t in f], n=n)):
          for inner in (False, True):
            axes = []
            for t in f:
              if t == FacetDimType.INNER:
                axes.append([i for i in range(n) if not inner or 0 < i < n - 1])
              else:
                axes.append([0 if t == FacetDimType.FIRST else n - 1])
            want = [int(np.ravel_multi_index(m, [n] * d)) if d else 0
                    for m in itertools.product(*axes)]
            shape = tuple(len(x) for t, x in zip(f, axes)
                          if t == FacetDimType.INNER)
            s = facet_util.slice_from_facet_type(f, interior_nodes_only=inner)
            got = grid[s]
            ctx.check(np.shape(got) == shape, 'shape', np.shape(got), shape)
            ctx.check(np.ravel(got).tolist() == want, 'nodes',
                      np.ravel(got).tolist(), want)
            # also with a leading axis of elements and a trailing one of values
            many = np.stack([grid, grid + 1000])[..., None]
            ctx.check(np.ravel(many[(slice(None), *s)]).tolist()
                      == want + [1000 + w for w in want], 'batched')
            if inner:
              count[want] += 1
          ctx.evaluated(FacetDimType.INNER in f)
          ctx.sample(f'{[t.name for t in f]} with {n} points: {want[:8]}')
      with ctx.case(dict(cover=d, n=n)):
        ctx.check((count == 1).all(), 'interiors do not partition the nodes')
  else:
    n = a['n']
    with ctx.case(dict(table=d, n=n)):
      table = dict(facet_util.get_orderings_mapping(ndim=d, num_points_1d=n))
      corners = list(itertools.product((0, 1), repeat=d))
      points = list(itertools.product(range(n), repeat=d))
      seen = set()
      for perm in itertools.permutations(range(d)):
        for flip in itertools.product((0, 1), repeat=d):
          def img(c, top):
            return tuple(top - c[perm[k]] if flip[k] else c[perm[k]]
                         for k in range(d))
          key = tuple(corners.index(img(c, 1)) for c in corners)
          index = {p: i for i, p in enumerate(points)}
          want = [index[img(p, n - 1)] for p in points]
          ctx.check(key in table, f'symmetry {key} is missing')
          got = np.asarray(table[key]).ravel().tolist()
          ctx.check(got == want, f'symmetry {key}: {got}, expected {want}')
          seen.add(key)
          ctx.evaluated(key != tuple(range(2 ** d)))
      ctx.check(set(table) == seen, 'entries that are no symmetry',
                sorted(set(table) - seen)[:3])


def large(ctx):
  """Cubes with more points than 16 bit numbers can count."""
  for d, n in ((1, 40000), (2, 190), (3, 33), (4, 14)):
    with ctx.case(dict(large=d, n=n)):
      table = dict(facet_util.get_orderings_mapping(ndim=d, num_points_1d=n))
      ctx.check(len(table) == 2 ** d * int(np.prod(range(1, d + 1))), 'entries')
      corners = np.array(list(itertools.product((0, 1), repeat=d)))
      points = np.stack(np.unravel_index(np.arange(n ** d), [n] * d), 1)
      for perm in itertools.permutations(range(d)):
        for flip in itertools.product((False, True), repeat=d):
          def img(c, size):
            c = c[:, list(perm)]
            c = np.where(flip, size - 1 - c, c)
            return np.ravel_multi_index(tuple(c.T), [size] * d)
          got = np.asarray(table[tuple(img(corners, 2).tolist())]).ravel()
          ctx.equal(got, img(points, n), f'symmetry {perm} {flip}')
          ctx.evaluated(True)
