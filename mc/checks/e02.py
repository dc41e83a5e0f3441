"""E02: the vector of a linear form represents that form."""
import functools
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from mc import isomesh
from swirl_fem.core import fespace as fe
from swirl_fem.core.interpolation import NodeType, Quadrature1D

LEVEL = 'model_checking'
RULE = ('All forms that are a product of one atom per argument (the value, a '
        'component, or a partial derivative of a scalar or vector function) '
        'and a coefficient, with one to three arguments (every multilinear '
        'first order form is a sum of such), plus the customary vector forms, '
        'with every choice of the open argument. A state is a form with its '
        'open place; the covector has to equal in every entry the integral '
        'with the corresponding basis function computed by numpy, for a '
        'complete basis of the closed argument (two arguments) or fixed '
        'functions (three), and so does integrate() itself. All lists of '
        'arguments with another number of open ones have to be rejected.')
ASSUMPTIONS = ['64 bit arithmetic, 1e-10 relative.']

NC, GL, GLL = 'NEWTON_COTES', 'GAUSS_LEGENDRE', 'GAUSS_LOBATTO_LEGENDRE'
MESHES = {
    '1d': ((2,), 3, GLL, 'curved', (4, GL)),
    '2d': ((2, 1), 2, NC, 'multilinear', (3, GL)),
    '2d o2': ((1, 2), 3, GLL, 'curved', (3, GLL)),
    '3d': ((2, 1, 1), 2, NC, 'multilinear', (2, GL)),
    '2d gl': ((1, 2), 3, GL, 'affine', (2, GL)),
}


def atoms(d):
  """(kind of argument, what is taken of it)."""
  out = [('s', 'value')] + [('s', 'grad', j) for j in range(d)]
  out += [('v', 'value', k) for k in range(d)]
  out += [('v', 'grad', j, k) for j in range(d) for k in range(d)]
  return out


def take(atom, f, x):
  """The atom of function f at x."""
  if atom[1] == 'value':
    return f(x) if atom[0] == 's' else f(x)[atom[2]]
  g = fe.grad(f)(x)
  return g[atom[2]] if atom[0] == 's' else g[atom[2], atom[3]]


def coefficient(i, x):
  return [x[0] * 0 + 1., 1.5 + x[0] * x[-1]][i]


def product(spec, coef):
  def form(*fs):
    def value(x):
      out = coefficient(coef, x)
      for atom, f in zip(spec, fs):
        out = out * take(atom, f, x)
      return out
    return value
  return form


def customary(d):
  """name, kinds of the arguments, form, its expansion in products of atoms."""
  r = range(d)
  g = lambda j, k: ('v', 'grad', j, k)
  v = lambda k: ('v', 'value', k)
  s, gs = ('s', 'value'), lambda j: ('s', 'grad', j)
  out = [
      ('grad.grad', lambda u, w: lambda x: jnp.dot(fe.grad(u)(x), fe.grad(w)(x)),
       [(1., (gs(j), gs(j))) for j in r]),
      ('u.v', lambda u, w: lambda x: jnp.dot(u(x), w(x)),
       [(1., (v(k), v(k))) for k in r]),
      ('grad:grad', lambda u, w: lambda x: jnp.sum(fe.grad(u)(x) * fe.grad(w)(x)),
       [(1., (g(j, k), g(j, k))) for j in r for k in r]),
      ('grad:gradT', lambda u, w: lambda x: jnp.einsum(
          'ij,ji->', fe.grad(u)(x), fe.grad(w)(x)),
       [(1., (g(j, k), g(k, j))) for j in r for k in r]),
      ('div q', lambda u, q: lambda x: fe.div(u)(x) * q(x),
       [(1., (g(k, k), s)) for k in r]),
      ('u.grad q', lambda u, q: lambda x: jnp.dot(u(x), fe.grad(q)(x)),
       [(1., (v(k), gs(k))) for k in r]),
      ('div div', lambda u, w: lambda x: fe.div(u)(x) * fe.div(w)(x),
       [(1., (g(k, k), g(j, j))) for j in r for k in r]),
      ('(c.grad)u.v', lambda c, u, w: lambda x: jnp.einsum(
          'j,jk,k->', c(x), fe.grad(u)(x), w(x)),
       [(1., (v(j), g(j, k), v(k))) for j in r for k in r]),
      ('sum of two', lambda u, w: lambda x: u(x) * w(x) + 2. * u(x) * fe.grad(
          w)(x)[0], [(1., (s, s)), (2., (s, gs(0)))]),
      ('thrice', lambda u: lambda x: u(x) + fe.grad(u)(x)[-1] - 3. * u(x),
       [(-2., (s,)), (1., (gs(d - 1),))]),
  ]
  return out


def jobs(tier):
  out = []
  for name in MESHES:
    d = len(MESHES[name][0])
    n3 = len(atoms(d))**3
    of = {1: 1, 2: 2, 3: 4}[d]
    for k in range(of):
      out.append(dict(name=f'{name} two {k}', x64=True, cost=35,
                      args=dict(mesh=name, args=2, part=(k, of))))
    if tier == 'quick' and name not in ('1d', '2d o2'):
      continue
    of = max(1, round(n3 / 150))
    for k in range(of):
      out.append(dict(name=f'{name} three {k}', x64=True, cost=n3 / of / 10,
                      args=dict(mesh=name, args=3, part=(k, of))))
  out.append(dict(name='rejected', x64=True, cost=3, args=dict(rejected=1)))
  return out


class Setting:
  """A mesh, its space, and numpy tables of the atoms."""

  def __init__(self, name):
    shape, num, kind, how, quad = MESHES[name]
    self.iso = iso = isomesh.build(shape, num, kind, how)
    self.d = d = iso.d
    self.mesh = iso.mesh(np.float64)
    self.space = fe.FiniteElementSpace.create(
        self.mesh, Quadrature1D.create(quad[0], NodeType[quad[1]]))
    t = isomesh.Tables(d, iso.pts, *isomesh.points(*quad))
    self.m, self.n = iso.elements.shape
    parts = [t.element(iso.coords[el]) for el in iso.elements]
    self.w = np.stack([p[0] for p in parts])
    self.g = np.stack([p[1] for p in parts])     # e j q n
    self.x = np.stack([p[2] for p in parts])
    self.v = t.v

  def coef(self, i):
    return coefficient(i, list(np.moveaxis(self.x, -1, 0)))

  def table(self, atom):
    """Values of the atom of each local basis function: [e, q, basis]."""
    s = (np.broadcast_to(self.v, (self.m,) + self.v.shape)
         if atom[1] == 'value' else self.g[:, atom[2]])
    if atom[0] == 's':
      return s
    k = atom[-1]
    out = np.zeros(s.shape + (self.d,))
    out[..., k] = s
    return out.reshape(s.shape[:2] + (-1,))

  def function(self, kind, ul):
    if kind == 's':
      return self.space.scalar_function(ul)
    return self.space.vector_function(ul)

  def shape(self, kind):
    return (self.m, self.n) + (() if kind == 's' else (self.d,))

  def size(self, kind):
    return self.n * (1 if kind == 's' else self.d)


def fixed(shape, i):
  """A fixed array without symmetries."""
  k = np.arange(np.prod(shape)) + 1.
  return np.cos(k * (i + 1) * .7 + i).reshape(shape)


def two(ctx, s, name, part, of):
  """One and two arguments: complete basis for the closed one."""
  ats = atoms(s.d)
  forms = []
  for a in ats:
    for c in (0, 1):
      forms.append((f'{a} coefficient {c}', product((a,), c),
                    [(1., (a,))], c))
  for a, b in itertools.product(ats, repeat=2):
    for c in (0, 1):
      forms.append((f'{a} {b} coefficient {c}', product((a, b), c),
                    [(1., (a, b))], c))
  forms += [(f[0], f[1], f[2], 0) for f in customary(s.d) if len(
      f[2][0][1]) < 3]
  for label, form, expansion, c in forms[part::of]:
    kinds = [a[0] for a in expansion[0][1]]
    with ctx.case(dict(mesh=name, form=label)):
      # reference: tensor over the local basis of every argument
      ref = 0
      for factor, spec in expansion:
        tabs = [s.table(a) for a in spec]
        eq = 'eq,' + ','.join('eq' + l for l in 'mn'[:len(tabs)])
        ref = ref + factor * np.einsum(eq + '->e' + 'mn'[:len(tabs)],
                                       s.w * s.coef(c), *tabs)
      scale = max(np.abs(ref).max(), 1e-3)
      for o in range(len(kinds)):
        ctx.state(name, label, o)
        if len(kinds) == 1:
          out = s.space.local_covector(form, (s.function(kinds[0], None),))
          ctx.close(np.asarray(out), ref.reshape(s.shape(kinds[0])),
                    1e-10 * scale, 'covector')
        else:
          other = 1 - o

          def covector(ul):
            fs = [None, None]
            fs[o] = s.function(kinds[o], None)
            fs[other] = s.function(kinds[other], ul)
            return s.space.local_covector(form, tuple(fs))
          basis = np.eye(s.size(kinds[other])).reshape(
              (-1, 1) + s.shape(kinds[other])[1:])
          basis = np.broadcast_to(basis, (len(basis),) + s.shape(kinds[other]))
          out = np.asarray(jax.vmap(covector)(jnp.asarray(basis)))
          want = ref if o == 0 else ref.transpose(0, 2, 1)   # e open closed
          ctx.close(out.reshape(len(basis), s.m, -1), want.transpose(2, 0, 1),
                    1e-10 * scale, f'covector with argument {o} open')
        ctx.transition()
        ctx.trace()
        ctx.evaluated(True)
      # integrate() of the same form
      fs, vals = [], []
      for i, kind in enumerate(kinds):
        vals.append(fixed(s.shape(kind), i))
        fs.append(s.function(kind, jnp.asarray(vals[-1])))
      got = float(s.space.integrate(form(*fs)))
      full = ref
      for v in reversed(vals):
        full = np.einsum('e...n,en->e...', full, v.reshape(s.m, -1))
      ctx.close(got, full.sum(), 1e-9 * scale * 10, 'integral')
      ctx.sample(f'{name}: {label}')


def three(ctx, s, name, part, of):
  ats = atoms(s.d)
  forms = [(f'{spec} coefficient {sum(map(len, spec)) % 2}',
            product(spec, sum(map(len, spec)) % 2), [(1., spec)],
            sum(map(len, spec)) % 2)
           for spec in itertools.product(ats, repeat=3)]
  forms += [(f[0], f[1], f[2], 0) for f in customary(s.d)
            if len(f[2][0][1]) == 3]
  tabs = {a: s.table(a) for a in ats}
  vals = {(k, i): fixed(s.shape(k), i) for k in 'sv' for i in range(3)}
  mine = forms[part::of]
  chunk = 12
  for start in range(0, len(mine), chunk):
    todo = mine[start:start + chunk]

    def covectors(vals):
      out = []
      for _, form, expansion, _ in todo:
        kinds = [a[0] for a in expansion[0][1]]
        for o in range(3):
          fs = tuple(s.function(k, None if i == o else vals[k + str(i)])
                     for i, k in enumerate(kinds))
          out.append(s.space.local_covector(form, fs))
        out.append(s.space.integrate(form(*(
            s.function(k, vals[k + str(i)]) for i, k in enumerate(kinds)))))
      return out
    outs = None
    with ctx.case(dict(mesh=name, forms=[t[0] for t in todo])):
      outs = jax.jit(covectors)({k + str(i): jnp.asarray(v) for (k, i), v
                                 in vals.items()})
    if outs is None:
      continue
    outs = iter(outs)
    for label, _, expansion, c in todo:
      kinds = [a[0] for a in expansion[0][1]]
      got = [np.asarray(next(outs)) for _ in range(4)]
      with ctx.case(dict(mesh=name, form=label)):
        wants = [0, 0, 0]
        for factor, spec in expansion:
          at = [np.einsum('eqn,en->eq', tabs[a], vals[a[0], i].reshape(s.m, -1))
                for i, a in enumerate(spec)]
          for o in range(3):
            rest = np.prod([at[i] for i in range(3) if i != o], axis=0)
            wants[o] = wants[o] + factor * np.einsum(
                'eq,eqn->en', s.w * s.coef(c) * rest, tabs[spec[o]])
        for o in range(3):
          ctx.state(name, label, o)
          ctx.close(got[o].reshape(s.m, -1), wants[o],
                    1e-10 * max(1e-3, np.abs(wants[o]).max()),
                    f'covector with argument {o} open')
          ctx.transition()
          ctx.trace()
          ctx.evaluated(True)
        total = (wants[0] * vals[kinds[0], 0].reshape(s.m, -1)).sum()
        ctx.close(got[3], total, 1e-9 * max(1., np.abs(wants[0]).max()),
                  'integral')
        ctx.sample(f'{name}: {label}')


def rejected(ctx):
  """Lists of arguments without exactly one open one."""
  s = Setting('2d')
  mk = {
      'open scalar': lambda: s.space.scalar_function(None),
      'open vector': lambda: s.space.vector_function(None),
      'scalar': lambda: s.space.scalar_function(jnp.asarray(
          fixed(s.shape('s'), 0))),
      'vector': lambda: s.space.vector_function(jnp.asarray(
          fixed(s.shape('v'), 1))),
      'plain': lambda: (lambda x: 1. + x[0]),
  }

  def value(name, f, x):
    return f(x) if 'vector' not in name else f(x)[0] - 2. * f(x)[1]
  vals = {'plain': 1. + s.x[..., 0],
          'scalar': np.einsum('qn,en->eq', s.v, fixed(s.shape('s'), 0)),
          'vector': np.einsum('qn,enk,k->eq', s.v, fixed(s.shape('v'), 1),
                              [1., -2.])}
  for n in (1, 2, 3, 4):
    for names in itertools.product(mk, repeat=n):
      opened = [i for i, k in enumerate(names) if k.startswith('open')]
      with ctx.case(dict(arguments=names)):
        form = lambda *fs: lambda x: functools.reduce(
            lambda a, b: a * b, [value(k, f, x) for k, f in zip(names, fs)])
        try:
          out = s.space.local_covector(form, tuple(mk[k]() for k in names))
        except ValueError:
          ctx.check(len(opened) != 1, 'rejected')
          out = None
        else:
          ctx.check(len(opened) == 1, 'not rejected')
        ctx.state('rejected', names)
        ctx.transition()
        ctx.trace()
        ctx.evaluated(len(opened) != 1)
        if out is not None:
          w = s.w * np.prod([vals[k] for k in names if k in vals]
                            or [np.ones_like(s.w)], axis=0)
          want = np.einsum('eq,qn->en', w, s.v)
          if names[opened[0]] == 'open vector':
            want = np.stack([want, -2. * want], -1)
          ctx.close(np.asarray(out), want, 1e-10 * max(1., np.abs(want).max()),
                    'covector')
  # values which don't belong to the space
  for kind in 'sv':
    good = s.shape(kind)
    for shape in itertools.product(range(1, 5), repeat=len(good)):
      with ctx.case(dict(values=shape, of=kind)):
        try:
          s.function(kind, jnp.ones(shape))
        except ValueError:
          ctx.check(shape != good, 'rejected')
        else:
          ctx.check(shape == good, 'not rejected')
        ctx.evaluated(True)


def run(ctx, a):
  if 'rejected' in a:
    return rejected(ctx)
  s = Setting(a['mesh'])
  if a['args'] == 2:
    two(ctx, s, a['mesh'], *a['part'])
  else:
    three(ctx, s, a['mesh'], *a['part'])
