"""G01: periodic links identify exactly the nodes they connect."""
import itertools

import jax.numpy as jnp
import numpy as np

from swirl_fem.core import gather_scatter
from swirl_fem.core.premesh import Premesh

LEVEL = 'model_checking'
RULE = ('All graphs of links over up to 6 (thorough 7) nodes, in several orders, '
        'directions and with repetitions; all sequences of up to two links of '
        'two-node facets over 4 nodes; all graphs over 4 nodes times all 2x2 '
        'partition layouts with padding; all graphs over 5 nodes through '
        'Premesh.finalize; three lists of links over 40000 nodes. A state is the partition of the nodes into degrees '
        'of freedom reached by a list of links in the model (merging classes '
        'link by link); a transition adds one link; a trace is one list of '
        'links given to the real code. Non-trivial: some nodes are merged.')
ASSUMPTIONS = ['Links name nodes of the mesh.']


def jobs(tier):
  q = tier == 'quick'
  out = []
  for n in ([2, 3, 4, 5] if q else [2, 3, 4, 5]):
    out.append(dict(name=f'graphs {n}', cost=3, args=dict(what='graphs', n=n)))
  for p in range(3):
    out.append(dict(name=f'graphs 6 {p}', cost=5,
                    args=dict(what='graphs', n=6, part=(p, 3))))
  for p in range(3):
    out.append(dict(name=f'facets {p}', cost=5,
                    args=dict(what='facets', part=(p, 3))))
  out.append(dict(name='layouts', cost=5, args=dict(what='layouts')))
  out.append(dict(name='finalize', cost=5, args=dict(what='finalize')))
  out.append(dict(name='large', args=dict(what='large')))
  if not q:
    for p in range(16):
      out.append(dict(name=f'graphs 7 {p}', cost=50,
                      args=dict(what='graphs', n=7, part=(p, 16))))
  return out


class Classes:
  """The model: merges classes link by link."""

  def __init__(self, ctx, n):
    self.ctx, self.label = ctx, list(range(n))

  def link(self, a, b):
    la, lb = self.label[a], self.label[b]
    if la != lb:
      lo, hi = min(la, lb), max(la, lb)
      self.label = [lo if l == hi else l for l in self.label]
    self.ctx.state(tuple(self.label))
    self.ctx.transition()


def model(ctx, n, links):
  c = Classes(ctx, n)
  for a, b in links:
    c.link(a, b)
  return np.array(c.label)


def check_identity(ctx, got, ids, label):
  """got has equal entries exactly where the labels of ids are equal."""
  got, ids = np.asarray(got), np.asarray(ids)
  ctx.check(got.shape == ids.shape, 'shape', got.shape)
  ctx.check(got.dtype.kind in 'iu', 'integer', str(got.dtype))
  g, i = got.ravel().tolist(), ids.ravel().tolist()
  m, back = {}, {}
  for x, y in zip(g, i):
    if y == -1:
      if x != -1:
        ctx.fail(f'padding became {x}')
      continue
    if x == -1:
      ctx.fail(f'node {y} became padding')
    l = int(label[y])
    if m.setdefault(l, x) != x or back.setdefault(x, l) != l:
      ctx.fail(f'degrees of freedom {g} of nodes {i}, expected the classes '
               f'{[int(label[k]) if k >= 0 else -1 for k in i]}')


def arrangements(edges):
  """The same graph as lists of links."""
  yield 'plain', edges
  if edges:
    yield 'reversed', [e[::-1] for e in edges[::-1]]
    yield 'repeated', [e if k % 2 else e[::-1]
                       for k, e in enumerate(edges[1:] + edges[:1] + edges)]


def run(ctx, a):
  what = a['what']
  part, of = a.get('part', (0, 1))
  if what == 'graphs':
    n = a['n']
    pairs = list(itertools.combinations(range(n), 2))
    for mask in range(part, 1 << len(pairs), of):
      edges = [e for k, e in enumerate(pairs) if mask >> k & 1]
      for how, links in arrangements(edges):
        with ctx.case(dict(n=n, links=links)):
          label = model(ctx, n, links)
          arr = np.array(links, np.int32).reshape(-1, 2, 1)
          got = gather_scatter.get_unique_node_indices(
              np.arange(n, dtype=np.int32), arr if links else None)
          check_identity(ctx, got, np.arange(n), label)
          if not links:
            got = gather_scatter.get_unique_node_indices(
                np.arange(n, dtype=np.int32), arr)
            check_identity(ctx, got, np.arange(n), label)
          ctx.trace()
          ctx.evaluated(bool(links))
          if links:
            ctx.sample(f'links {links} give classes {label.tolist()}')
  elif what == 'facets':
    # two links of facets with two nodes each: a~c, b~d
    quads = list(itertools.product(range(4), repeat=4))
    for k, q1 in enumerate(quads):
      if k % of != part:
        continue
      for m, q2 in enumerate(quads):
        links = [q1, q2] if m else [q1]
        with ctx.case(dict(facets=links)):
          label = model(ctx, 4, [e for q in links
                                 for e in ((q[0], q[2]), (q[1], q[3]))])
          arr = np.array(links, np.int32).reshape(-1, 2, 2)
          got = gather_scatter.get_unique_node_indices(np.arange(4), arr)
          check_identity(ctx, got, np.arange(4), label)
          ctx.trace()
          ctx.evaluated(len(set(label.tolist())) < 4)
  elif what == 'layouts':
    n = 4
    pairs = list(itertools.combinations(range(n), 2))
    for mask in range(1 << len(pairs)):
      edges = [e for k, e in enumerate(pairs) if mask >> k & 1]
      label = model(ctx, n, edges)
      arr = np.array(edges, np.int32).reshape(-1, 2, 1)
      for flat in itertools.product(range(-1, n), repeat=4):
        lay = np.array(flat, np.int32).reshape(2, 2)
        with ctx.case(dict(n=n, links=edges, layout=flat)):
          got = gather_scatter.get_unique_node_indices(lay, arr)
          check_identity(ctx, got, lay, label)
          ctx.trace()
          ctx.evaluated(bool(edges))
    # node numbers which are neither small nor contiguous
    ids = np.array([7, 100, 3, 41])
    for mask in range(1 << len(pairs)):
      edges = [(int(ids[x]), int(ids[y])) for k, (x, y) in enumerate(pairs)
               if mask >> k & 1]
      with ctx.case(dict(ids=ids.tolist(), links=edges)):
        label = model(ctx, 101, edges)
        arr = np.array(edges, np.int64).reshape(-1, 2, 1)
        for lay in (ids, ids[::-1], np.array([[7, 3, -1], [100, 41, 3]]),
                    np.array([50, 7, 3, 99, -1])):
          got = gather_scatter.get_unique_node_indices(lay, arr)
          check_identity(ctx, got, lay, label)
          ctx.trace()
          ctx.evaluated(bool(edges))
  elif what == 'large':
    # more nodes than 16 bit numbers can count
    n = 40000
    half = n // 2
    for name, links in (
        ('pairs', [(k, k + half) for k in range(half)]),
        ('chain', [(k, k + 1) for k in range(0, n - 1, 3)]
         + [(k + 1, k + 2) for k in range(n - 3, -1, -3)]),
        ('last', [(n - 1, 0), (half, n - 2)])):
      with ctx.case(dict(large=n, links=name)):
        # classes by propagation of the least label
        label, e = np.arange(n), np.array(links)
        while True:
          new = label.copy()
          np.minimum.at(new, e[:, 0], label[e[:, 1]])
          np.minimum.at(new, e[:, 1], label[e[:, 0]])
          if (new == label).all():
            break
          label = new
        arr = e.astype(np.int32).reshape(-1, 2, 1)
        for lay in (np.arange(n), np.arange(n)[::-1].reshape(2, -1)):
          got = gather_scatter.get_unique_node_indices(lay, arr)
          check_identity(ctx, got, lay, label)
        mesh = Premesh.create(
            np.arange(n, dtype=float)[:, None],
            np.stack([np.arange(n - 1), np.arange(1, n)], 1),
            periodic_links=arr).finalize()
        check_identity(ctx, mesh.node_indices, np.arange(n), label)
        x = np.arange(n) % 7
        want = np.bincount(label, x, n)[label]
        ctx.equal(mesh.exchange(jnp.asarray(x, jnp.float32)),
                  want.astype(np.float32), 'exchange')
        ctx.state('large', name)
        ctx.transition(len(links))
        ctx.trace()
        ctx.evaluated()
  elif what == 'finalize':
    n = 5
    pairs = list(itertools.combinations(range(n), 2))
    coords = np.arange(n, dtype=float)[:, None]
    els = np.stack([np.arange(n - 1), np.arange(1, n)], 1)
    for mask in range(1 << len(pairs)):
      edges = [e for k, e in enumerate(pairs) if mask >> k & 1]
      label = model(ctx, n, edges)
      arr = np.array(edges, np.int32).reshape(-1, 2, 1) if edges else None
      with ctx.case(dict(finalize=n, links=edges)):
        mesh = Premesh.create(coords, els, periodic_links=arr).finalize()
        check_identity(ctx, mesh.node_indices, np.arange(n), label)
        # and the exchange sums over exactly these classes
        for x in (np.array([1., 2., 4., 8., 16.], np.float32),
                  np.array([0., -1., 0., 3., 0.], np.float32)):
          want = np.array([x[label == label[i]].sum() for i in range(n)])
          ctx.equal(mesh.exchange(jnp.asarray(x)), want.astype(np.float32), 'exchange')
        ctx.trace()
        ctx.evaluated(bool(edges))
