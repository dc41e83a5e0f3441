"""C04: distributed compilation equals the function on each device's slice."""
import itertools

import jax
from jax import lax
import jax.numpy as jnp
import numpy as np

from swirl_fem.communication.jit_distributed import jit_distributed

LEVEL = 'exploration'
RULE = ('A case is a signature of up to three (thorough: four) parameters, each '
        'positional-only, positional-or-keyword, keyword-only or variadic, a '
        'choice of static parameters (default or every explicit subset), which '
        'parameters have defaults and are left out, the number of arguments '
        'passed by position, and a number of devices; all combinations. '
        'Histories call one compiled function with changing static values and '
        'styles. Trees: one or two '
        '(thorough: three) mapped arguments, each with any of nine trees, six of '
        'them without a leaf, passed by position, by name or by a default of '
        'None, without a static parameter, after or before one. Oracle: the same '
        'Python function on each slice. A state is a '
        '(signature, static choice, devices); a transition is one call compared '
        'with the reference; a trace is one history of calls to one compiled '
        'function. Non-trivial: the result depends on a sharded argument.')
ASSUMPTIONS = [
    'XLA host platform devices stand for real devices.',
    'Static parameters can be passed by name (JAX rejects positional-only ones); '
    'a default value of a sharded parameter has the leading device axis.',
]

STATICS = [3, 'word', (1, 2), abs, None, True, 2.5]


def num(s):
  """A number that identifies a static value."""
  if s is None:
    return 17
  if isinstance(s, str):
    return 100 + len(s)
  if isinstance(s, tuple):
    return 200 + sum(s)
  if callable(s):
    return 300 + s(-4)
  if isinstance(s, bool):
    return 400 + s
  return s


class Fn:
  """A function with a given signature, traced or as the reference."""

  def __init__(self, kinds, defaults, static):
    # kinds: string over 'o' (positional only), 'p', '*', 'k', 'd' (**)
    self.names = [f'x{i}' for i in range(len(kinds))]
    self.kinds = kinds
    self.static = static
    parts, star = [], False
    for i, (nm, k) in enumerate(zip(self.names, kinds)):
      dflt = f'=D[{i}]' if i in defaults else ''
      if k == 'k' and not star:
        parts.append('*')
        star = True
      if k == '*':
        parts.append('*' + nm)
        star = True
      elif k == 'd':
        parts.append('**' + nm)
      else:
        parts.append(nm + dflt)
      if k == 'o' and (i + 1 == len(kinds) or kinds[i + 1] != 'o'):
        parts.append('/')
    src = f'def f({", ".join(parts)}):\n  return E({", ".join(self.names)})\n'
    self.seen = []
    self.src = src
    env = {'D': defaults, 'E': self.emit}
    exec(src, env)  # pylint: disable=exec-used
    self.f = env['f']
    self.index = None

  def emit(self, *vals):
    xp = jnp if self.index is None else np
    i = lax.axis_index('i') if self.index is None else self.index
    tot = xp.asarray(xp.float32(i) * 1000)
    out = {'idx': xp.asarray(i), 'const': 5}
    for j, (nm, v) in enumerate(zip(self.names, vals)):
      w = 7. * j + 1
      if nm in self.static:
        self.seen.append((nm, v))
        tot = tot + xp.float32(w * num(v))
      else:
        # any tree: weight every leaf by its position
        for m, leaf in enumerate(jax.tree_util.tree_leaves(v)):
          tot = tot + xp.float32(w) * xp.float32(m + 1) * xp.sum(
              xp.asarray(leaf).astype(xp.float32))
        out[nm] = v
    out['tot'] = tot
    return out, (tot > 3, [None, tot.astype(xp.int32)])


def values(n, j, kind, variant):
  """A sharded value with leading axis n."""
  base = np.arange(n, dtype=np.float32) * (j + 1) + j + variant
  if kind in 'opk':
    which = (j + variant) % 4
    if which == 0:
      return base
    if which == 1:
      return {'a': base.astype(np.int32), 'b': (base[:, None] * [1., 2.])
              .astype(np.float32)}
    if which == 2:
      return np.stack([base, -base * 2, base + 1], 1)
    return (base, [base[:, None, None] * np.ones((1, 2, 2), np.float32), None],
            base > 1)
  if kind == '*':
    return (base, np.stack([base, base * 3], 1))
  return {'kw1': base, 'kw2': base.astype(np.int32)}


def slice_of(v, p):
  return jax.tree_util.tree_map(lambda x: np.asarray(x)[p], v)


def signatures(maxlen):
  order = 'op*kd'
  for ln in range(maxlen + 1):
    for kinds in itertools.product(order, repeat=ln):
      if list(kinds) != sorted(kinds, key=order.index):
        continue
      if kinds.count('*') > 1 or kinds.count('d') > 1:
        continue
      yield ''.join(kinds)


def jobs(tier):
  q = tier == 'quick'
  sigs = list(signatures(3 if q else 4))
  out = []
  parts = 7 if q else 24
  for i in range(parts):
    out.append(dict(name=f'signatures {i}', devices=4, cost=9,
                    args=dict(what='sig', sigs=sigs[i::parts],
                              ns=[1, 3] if q else [1, 2, 3, 4])))
  out.append(dict(name='histories', devices=4, args=dict(what='hist')))
  for i in range(3):
    out.append(dict(name=f'trees {i}', devices=4, cost=8,
                    args=dict(what='trees', most=2 if q else 3, part=i)))
  out.append(dict(name='device count', devices=8, args=dict(what='count')))
  return out


def one_call(ctx, fn, compiled, n, args, kwargs, statics):
  """Compares one call of the compiled function with the reference."""
  fn.index = None
  fn.seen.clear()
  got = compiled(*args, **kwargs)
  for nm, v in fn.seen:
    ctx.check(v is statics[nm] or (type(v) is type(statics[nm])
                                   and v == statics[nm]),
              f'static argument {nm}', v, statics[nm])
  import inspect
  sig = inspect.signature(fn.f)
  b = sig.bind(*args, **kwargs)
  b.apply_defaults()
  want = []
  for p in range(n):
    fn.index = p
    arguments = {
        k: (v if k in fn.static else slice_of(v, p))
        for k, v in b.arguments.items()}
    bb = inspect.BoundArguments(sig, type(b.arguments)(arguments))
    want.append(fn.f(*bb.args, **bb.kwargs))
  fn.index = None
  td = jax.tree_util.tree_structure(want[0])
  ctx.check(jax.tree_util.tree_structure(got) == td, 'tree of results',
            str(jax.tree_util.tree_structure(got)), str(td))
  wl = [np.stack(x) for x in zip(*[jax.tree_util.tree_leaves(w)
                                   for w in want])]
  for g, w in zip(jax.tree_util.tree_leaves(got), wl):
    g = np.asarray(g)
    ctx.check(g.dtype.kind == w.dtype.kind, 'type', str(g.dtype), str(w.dtype))
    ctx.equal(g, w, 'result')
  ctx.transition()


def run_sig(ctx, kinds, n):
  names = [f'x{i}' for i in range(len(kinds))]
  # JAX rejects naming a positional-only parameter static.
  candidates = [i for i, k in enumerate(kinds) if k in 'pk']
  static_choices = [None]
  for r in range(len(candidates) + 1):
    static_choices.extend(itertools.combinations(candidates, r))
  for choice in static_choices:
    if choice is None:
      static = {names[i] for i, k in enumerate(kinds) if k == 'k'}
    else:
      static = {names[i] for i in choice}
    # Which parameters have a default and are left out: every suffix of the
    # positional ones and every subset of the keyword-only ones.
    pos = [i for i, k in enumerate(kinds) if k in 'op']
    kws = [i for i, k in enumerate(kinds) if k == 'k']
    omits = [()]
    for m in range(len(pos) + 1):
      for r in range(len(kws) + 1):
        for c in itertools.combinations(kws, r):
          o = tuple(pos[len(pos) - m:]) + c
          if o and o not in omits and not ('*' in kinds and m):
            omits.append(o)
    for omit in omits:
      defaults = {}
      for i in omit:
        defaults[i] = (STATICS[i % len(STATICS)] if names[i] in static
                       else values(n, i, kinds[i], 1))
      # Number of arguments passed by position.
      npo = sum(k == 'o' for k in kinds)
      given = [i for i in pos if i not in omit]
      lo = len([i for i in given if kinds[i] == 'o'])
      if '*' in kinds:
        lo = len(given)
      del npo
      for nby in range(lo, len(given) + 1):
        with ctx.case(dict(kinds=kinds, static=choice, omit=omit, nby=nby,
                           n=n)):
          fn = Fn(kinds, defaults, static)
          vals = {}
          for i, k in enumerate(kinds):
            if i in omit:
              continue
            vals[i] = (STATICS[(i + nby) % len(STATICS)]
                       if names[i] in static else values(n, i, k, 0))
          args, kwargs = [], {}
          for r, i in enumerate(given):
            if r < nby:
              args.append(vals[i])
            else:
              kwargs[names[i]] = vals[i]
          for i, k in enumerate(kinds):
            if k == '*':
              args.extend(vals[i])
            elif k == 'd':
              kwargs.update(vals[i])
            elif k == 'k' and i not in omit:
              kwargs[names[i]] = vals[i]
          statics = {names[i]: vals.get(i, defaults.get(i))
                     for i in range(len(kinds)) if names[i] in static}
          mesh = jax.sharding.Mesh(np.array(jax.devices()[:n]), ('i',))
          kw = {} if choice is None else {
              'static_argnames': [names[i] for i in choice]}
          compiled = jit_distributed(fn.f, mesh=mesh, axis_name='i', **kw)
          one_call(ctx, fn, compiled, n, args, kwargs, statics)
          ctx.trace()
          nontriv = any(names[i] not in static for i in range(len(kinds)))
          ctx.evaluated(nontriv)
          ctx.state(kinds, choice, n)
          if nontriv:
            ctx.sample(f'{n} devices: {fn.src.splitlines()[0]} static={choice} '
                       f'left out={omit} by position={nby}')


def run_hist(ctx):
  """One compiled function, several calls with other statics and shapes."""
  for n in (1, 2, 4):
    mesh = jax.sharding.Mesh(np.array(jax.devices()[:n]), ('i',))
    for kinds, static, order in (
        ('pk', {'x1'}, 'default'), ('pp', {'x1'}, ['x1']),
        ('pp', {'x0'}, ['x0']), ('ppk', {'x1', 'x2'}, ['x2', 'x1'])):
      for word in itertools.product(range(3), repeat=3):
        with ctx.case(dict(hist=kinds, static=sorted(static), word=word, n=n)):
          fn = Fn(kinds, {}, static)
          kw = {} if order == 'default' else {'static_argnames': order}
          compiled = jit_distributed(fn.f, mesh=mesh, axis_name='i', **kw)
          for step, w in enumerate(word):
            vals = [STATICS[(w * 2 + i) % len(STATICS)] if f'x{i}' in static
                    else values(n, i, 'p', (w + step) % 4)
                    for i in range(len(kinds))]
            style = (w + step) % 2
            args, kwargs = [], {}
            for i, k in enumerate(kinds):
              if k == 'k' or (style and i > 0):
                kwargs[f'x{i}'] = vals[i]
              else:
                args.append(vals[i])
            one_call(ctx, fn, compiled, n, args, kwargs,
                     {f'x{i}': vals[i] for i in range(len(kinds))
                      if f'x{i}' in static})
            ctx.state('hist', kinds, word[:step + 1], n)
          ctx.trace()
          ctx.evaluated()


LEAFLESS = [None, {}, [], (), {'a': None}, ([], {'b': ()})]


def tree_value(n, j, w):
  """An element of the alphabet of argument trees, with and without leaves."""
  base = np.arange(n, dtype=np.float32) * (j + 2) + j
  if w < len(LEAFLESS):
    return LEAFLESS[w]
  return [base, (base, None), {'a': {}, 'b': [base.astype(np.int32), base],
                               'c': None}][w - len(LEAFLESS)]


def run_trees(ctx, most, part):
  """Mapped arguments whose trees have any number of leaves, none included."""
  letters = len(LEAFLESS) + 3
  for count in range(1, most + 1):
    words = itertools.product(range(letters), repeat=count)
    for num_word, word in enumerate(words):
      if num_word % 3 != part:
        continue
      # by position, by name, or None by default and left out; with a static
      # keyword or a static parameter in front of the mapped ones.
      for how, where in itertools.product('pno', ('', 'last', 'first')):
        if how == 'o' and word[-1] != 0:
          continue
        for n in ((1, 3) if count < 3 else (2,)):
          kinds = 'p' * count
          static, choice = set(), []
          first = where == 'first'
          if where:
            kinds = 'p' * (count + 1) if first else kinds + 'k'
            choice = ['x0' if first else f'x{count}']
            static = set(choice)
          with ctx.case(dict(trees=word, how=how, where=where, n=n)):
            left = {first + count - 1: None} if how == 'o' else {}
            fn = Fn(kinds, left, static)
            args, kwargs, statics = [], {}, {}
            for i in range(len(kinds)):
              nm = f'x{i}'
              if i in left:
                continue
              if nm in static:
                v = statics[nm] = STATICS[(i + count) % len(STATICS)]
              else:
                v = tree_value(n, i, word[i - first])
              if how == 'n' or kinds[i] == 'k':
                kwargs[nm] = v
              else:
                args.append(v)
            mesh = jax.sharding.Mesh(np.array(jax.devices()[:n]), ('i',))
            compiled = jit_distributed(fn.f, mesh=mesh, axis_name='i',
                                       static_argnames=choice)
            one_call(ctx, fn, compiled, n, args, kwargs, statics)
            ctx.trace()
            ctx.evaluated(any(w >= len(LEAFLESS) for w in word))
            ctx.state('trees', word, where, n)


def run_count(ctx):
  """Positions, shapes and collectives for every number and order of devices."""
  devs = np.array(jax.devices())
  for n in range(1, 9):
    for order in ('plain', 'reversed', 'rotated', 'tail'):
      d = {'plain': devs[:n], 'reversed': devs[:n][::-1],
           'rotated': np.roll(devs[:n], 1), 'tail': devs[8 - n:]}[order]
      mesh = jax.sharding.Mesh(d, ('dev',))
      with ctx.case(dict(count=n, order=order)):
        def f(x, *, k):
          i = lax.axis_index('dev')
          s = lax.psum(x, 'dev')
          r = lax.ppermute(x, 'dev', [(p, (p + 1) % n) for p in range(n)])
          return i, s, r * k, jnp.zeros((2, 0)), lax.psum(1, 'dev')
        g = jit_distributed(f, mesh=mesh, axis_name='dev')
        x = np.arange(n * 3, dtype=np.float32).reshape(n, 3) ** 2
        i, s, r, z, c = g(x, k=2)
        ctx.equal(i, np.arange(n), 'position')
        ctx.equal(s, np.tile(x.sum(0), (n, 1)), 'sum over devices')
        ctx.equal(r, 2 * np.roll(x, 1, 0), 'shift')
        ctx.equal(np.asarray(z).shape, (n, 2, 0), 'empty')
        ctx.equal(c, np.full(n, n), 'number of devices')
        h = jit_distributed(lambda *, m: lax.axis_index('dev') * m + 1,
                            mesh=mesh, axis_name='dev')
        for m in (1, 3, 1):
          ctx.equal(h(m=m), np.arange(n) * m + 1, 'static only')
        ctx.equal(jit_distributed(lambda: 0, mesh=mesh, axis_name='dev')(),
                  np.zeros(n), 'constant')
        ctx.transition(6)
        ctx.trace()
        ctx.evaluated(n > 1)
        ctx.state('count', n, order)


def run(ctx, a):
  if a['what'] == 'sig':
    for kinds in a['sigs']:
      for n in a['ns']:
        run_sig(ctx, kinds, n)
  elif a['what'] == 'hist':
    run_hist(ctx)
  elif a['what'] == 'trees':
    run_trees(ctx, a['most'], a['part'])
  else:
    run_count(ctx)
