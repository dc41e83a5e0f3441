"""S03: the module version of the SDE solver is the function version."""
import itertools

import flax
import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np

LEVEL = 'model_checking'
RULE = ('All words of increments of an alphabet up to a length, with every '
        'division into outputs, integrated by the lifted version of each of a '
        'family of modules (none, one or several parameters; submodules; '
        'states which are trees; additional arguments; random numbers; other '
        'collections of variables), in each way of nesting the lifted module, '
        'and by the plain solver applied to the module with its variables. '
        'Outputs and the derivatives of all outputs with respect to all '
        'parameters, the initial state and arguments have to be the same. '
        'Initialisation has to create the variables which the module creates '
        'by itself. A state is a module with a word and its outputs, a '
        'transition is an increment, a trace is a solution.')
ASSUMPTIONS = ['64 bit arithmetic, 1e-12; derivatives 1e-10.']

ALPHABET = (-.5, .25, .75)


class Plain(nn.Module):
  """No parameters."""

  @nn.compact
  def __call__(self, x, t, dw):
    return t * x, jnp.cos(x) * dw


class One(nn.Module):

  @nn.compact
  def __call__(self, x, t, dw):
    a = self.param('a', nn.initializers.normal(), x.shape)
    return a * x + t, a * dw


class Two(nn.Module):
  width: int = 3

  @nn.compact
  def __call__(self, x, t, dw):
    h = nn.tanh(nn.Dense(self.width, name='in')(jnp.append(x, t)))
    y = nn.Dense(x.shape[0], name='out')(h)
    return y, y * x * dw


class Setup(nn.Module):
  """Submodules in setup, a drift and a diffusion of their own."""

  def setup(self):
    self.drift = nn.Dense(2)
    self.diffusion = [nn.Dense(2), nn.Dense(2)]

  def __call__(self, x, t, dw):
    z = self.diffusion[1](nn.sigmoid(self.diffusion[0](x)))
    return self.drift(x) * (1 + t), z * dw


class Tree(nn.Module):

  @nn.compact
  def __call__(self, x, t, dw):
    a = nn.Dense(2)(x['a'])
    b = self.param('b', nn.initializers.normal(), ())
    return (dict(a=a, b=(b * x['b'][0],)),
            dict(a=a * dw, b=(t * dw * jnp.sum(x['a']),)))


class Extra(nn.Module):
  """Additional arguments."""

  @nn.compact
  def __call__(self, x, t, dw, p, q):
    y = nn.Dense(2)(x) * p
    return y + q['c'], dw * q['d'] * x


class Constants(nn.Module):
  """A further collection."""

  @nn.compact
  def __call__(self, x, t, dw):
    s = self.variable('scales', 's', lambda: jnp.array([.5, 2.]))
    y = nn.Dense(2)(x)
    return s.value * y, dw * y


class Random(nn.Module):

  @nn.compact
  def __call__(self, x, t, dw):
    y = nn.Dense(2)(x)
    k = self.make_rng('noise')
    return y * jax.random.uniform(k, (2,)), y * dw


VEC = jnp.asarray(np.array([.5, -.75]))
EXTRA = (jnp.asarray(1.5), dict(c=jnp.asarray(np.array([.2, .1])),
                                d=jnp.asarray(.7)))
CASES = {
    'plain': (Plain, (), VEC, ()), 'one': (One, (), VEC, ()),
    'two': (Two, (3,), VEC, ()), 'setup': (Setup, (), VEC, ()),
    'tree': (Tree, (), dict(a=VEC, b=(jnp.asarray(.3),)), ()),
    'extra': (Extra, (), VEC, EXTRA), 'constants': (Constants, (), VEC, ()),
    'random': (Random, (), VEC, ()),
}


class InSetup(nn.Module):
  kind: type
  args: tuple

  def setup(self):
    from swirl_fem.sde.flax_nn_sde import nn_sdeint
    self.inner = nn_sdeint(self.kind)(*self.args)

  def __call__(self, *a):
    return self.inner(*a)


class Compact(nn.Module):
  kind: type
  args: tuple

  @nn.compact
  def __call__(self, *a):
    from swirl_fem.sde.flax_nn_sde import nn_sdeint
    return nn_sdeint(self.kind)(*self.args, name='inner')(*a)


class Deep(nn.Module):
  kind: type
  args: tuple

  def setup(self):
    self.inner = Compact(self.kind, self.args)

  def __call__(self, *a):
    return self.inner(*a)


def direct(kind, args):
  from swirl_fem.sde.flax_nn_sde import nn_sdeint
  return nn_sdeint(kind)(*args)


NESTINGS = {'setup': (InSetup, ('inner',)), 'compact': (Compact, ('inner',)),
            'deep': (Deep, ('inner', 'inner')), 'direct': (direct, ())}


def jobs(tier):
  out = []
  for name, nesting in itertools.product(CASES, NESTINGS):
    out.append(dict(name=f'{name} {nesting}', x64=True, cost=10,
                    args=dict(case=name, nesting=nesting)))
  out.append(dict(name='shared', x64=True, cost=10, args=dict(shared=1)))
  return out


def bare_variables(variables, path):
  out = {}
  for col, tree in variables.items():
    for p in path:
      tree = tree[p]
    out[col] = tree
  return out


class Cell(nn.Module):
  """A submodule which is given, and maybe one of its own."""
  sub: nn.Module
  own: bool

  @nn.compact
  def __call__(self, x, t, dw):
    y = self.sub(x)
    z = nn.Dense(2)(x) if self.own else x
    return y * t, z * dw


class Shared(nn.Module):
  """Uses the submodule `before` and `after` the integration too."""
  before: bool
  after: bool
  own: bool
  cells: int

  def setup(self):
    from swirl_fem.sde.flax_nn_sde import nn_sdeint
    self.shared = nn.Dense(2)
    self.cell = [nn_sdeint(Cell)(self.shared, self.own)
                 for _ in range(self.cells)]

  def __call__(self, x, ts, dw):
    x = self.shared(x) if self.before else x
    for c in self.cell:
      y = c(x, ts, dw)
      x = y[-1]
    return y + self.shared(x) if self.after else y


def shared(ctx):
  """Submodules shared between the integrated module and others."""
  from swirl_fem.sde.sdeint import sdeint
  dense = lambda p, x: x @ p['kernel'] + p['bias']
  for before, after, own, cells, n in itertools.product(
      (False, True), (False, True), (False, True), (1, 2),
      range(1, 3 if ctx.quick else 5)):
    with ctx.case(dict(before=before, after=after, own=own, cells=cells, n=n)):
      module = Shared(before, after, own, cells)
      every = np.array(list(itertools.product(ALPHABET, repeat=n)))
      ts = jnp.asarray([0., .3, .5, .9, 1.][:n + 1])
      out, variables = module.init_with_output(
          jax.random.PRNGKey(1), VEC, ts, jnp.asarray(every[0]))
      ctx.check(out.shape == (n, 2), 'shape of outputs', out.shape)
      names = {'shared'} | ({f'cell_{i}' for i in range(cells)} if own
                            else set())
      ctx.check(set(variables['params']) == names, 'variables created',
                jax.tree.map(jnp.shape, variables))
      leaves, tree = jax.tree.flatten(variables)
      vs = tree.unflatten([jnp.asarray(.8 * np.cos(
          np.arange(v.size) + i + .5).reshape(v.shape))
                           for i, v in enumerate(leaves)])

      def model(vs, w):
        p = vs['params']
        x = dense(p['shared'], VEC) if before else VEC
        for i in range(cells):
          y = sdeint(lambda x, t, dw, i=i: (
              dense(p['shared'], x) * t,
              (dense(p[f'cell_{i}']['Dense_0'], x) if own else x) * dw),
                     x, ts, w)
          x = y[-1]
        return y + dense(p['shared'], x) if after else y

      real = lambda vs, w: module.apply(vs, VEC, ts, w)
      both = [jax.jit(jax.vmap(jax.value_and_grad(
          lambda w, vs, g=g: (g(vs, w) * jnp.array([1., -.7])).sum(),
          argnums=1), in_axes=(0, None)))(jnp.asarray(every), vs)
              for g in (real, model)]
      for u, v in zip(*map(jax.tree.leaves, both)):
        ctx.close(u, v, 1e-10 * (1 + np.abs(v).max()), 'value or derivative')
      for w in every[::4]:
        ctx.close(real(vs, jnp.asarray(w)), model(vs, jnp.asarray(w)), 1e-12
                  * 100, 'solution')
      ctx.state('shared', before, after, own, cells, n)
      ctx.transition(every.size)
      ctx.trace(len(every))
      ctx.evaluated(True, len(every))


def run(ctx, a):
  if 'shared' in a:
    return shared(ctx)
  from swirl_fem.sde.sdeint import sdeint
  kind, args, x0, extra = CASES[a['case']]
  build, path = NESTINGS[a['nesting']]
  module, bare = build(kind, args), kind(*args)
  key = jax.random.PRNGKey(5)
  rngs = {'params': key, 'noise': jax.random.PRNGKey(6)}
  top = 3 if ctx.quick else 5
  rng_of = {'rngs': {'noise': jax.random.PRNGKey(7)}} if a['case'] == 'random' else {}
  for n in range(1, top + 1):
    every = np.array(list(itertools.product(ALPHABET, repeat=n)))
    for m in [m for m in range(1, n + 1) if n % m == 0]:
      ts = jnp.asarray(np.array([0., .3, .5, .9, 1., 1.2])[:m + 1])
      out = variables = None
      with ctx.case(dict(a, init=(n, m))):
        out, variables = module.init_with_output(
            rngs, x0, ts, jnp.asarray(every[0]), *extra)
        want_shape = jax.tree.map(lambda v: (m,) + v.shape, x0)
        ctx.check(jax.tree.map(jnp.shape, out) == want_shape,
                  'shape of outputs of initialisation',
                  jax.tree.map(jnp.shape, out))
        own = bare.init(rngs, x0, ts[0], jnp.asarray(every[0][0]), *extra)
        got = bare_variables(variables, path)
        ctx.check(jax.tree.map(lambda v: (v.shape, v.dtype), got)
                  == jax.tree.map(lambda v: (v.shape, v.dtype),
                                  flax.core.unfreeze(own)),
                  'variables created', jax.tree.map(jnp.shape, got))
        ctx.check(all(np.isfinite(v).all() and np.abs(v).max() >= 0
                      for v in jax.tree.leaves(variables)), 'finite')
        if a['nesting'] == 'direct' and a['case'] != 'random':
          for u, v in zip(jax.tree.leaves(got), jax.tree.leaves(own)):
            ctx.equal(np.asarray(u), np.asarray(v), 'initial values')
      if variables is None:
        continue
      for trial in range(2):
        with ctx.case(dict(a, length=n, outputs=m, trial=trial)):
          # values of our own
          leaves, tree = jax.tree.flatten(variables)
          vs = tree.unflatten([jnp.asarray(.8 * np.cos(
              np.arange(v.size) + i + trial + .5).reshape(v.shape))
                               for i, v in enumerate(leaves)])
          real = lambda vs, x, e, w: module.apply(vs, x, ts, w, *e, **rng_of)
          noise = {}
          if a['case'] == 'random':
            noise = dict(u=random_draw(module, vs, x0, ts, every[0], rng_of))

          def model(vs, x, e, w):
            own = bare_variables(vs, path)
            if noise:
              dense = own['params']['Dense_0']
              f = lambda x, t, dw: (
                  (x @ dense['kernel'] + dense['bias']) * noise['u'],
                  (x @ dense['kernel'] + dense['bias']) * dw)
            else:
              f = lambda x, t, dw, *e: bare.apply(own, x, t, dw, *e)
            return sdeint(f, x, ts, w, *e)
          both = []
          for g in (real, model):
            def whole(w, g=g):
              y, vjp = jax.vjp(lambda vs, x, e: g(vs, x, e, w), vs, x0, extra)
              flat, un = jax.flatten_util.ravel_pytree(y)
              return y, jax.vmap(lambda c: vjp(un(c)))(jnp.eye(flat.size))
            both.append(jax.jit(jax.vmap(whole))(jnp.asarray(every)))
          (y, dy), (z, dz) = both
          ctx.check(jax.tree.structure(y) == jax.tree.structure(x0),
                    'structure')
          for u, v in zip(jax.tree.leaves(y), jax.tree.leaves(z)):
            ctx.close(u, v, 1e-12 * (1 + np.abs(v).max()), 'solution')
          for u, v in zip(jax.tree.leaves(dy), jax.tree.leaves(dz)):
            ctx.close(u, v, 1e-10 * (1 + np.abs(v).max()), 'derivatives')
          # without any transformation
          one = real(vs, x0, extra, jnp.asarray(every[-1]))
          for u, v in zip(jax.tree.leaves(one), jax.tree.leaves(z)):
            ctx.close(u, v[-1], 1e-12 * (1 + np.abs(v).max()), 'single')
          # with all collections mutable, of which nothing changes
          one, changed = module.apply(vs, x0, ts, jnp.asarray(every[-1]),
                                      *extra, mutable=True, **rng_of)
          for u, v in zip(jax.tree.leaves(one), jax.tree.leaves(z)):
            ctx.close(u, v[-1], 1e-12 * (1 + np.abs(v).max()), 'mutable')
          ctx.check(jax.tree.structure(flax.core.unfreeze(changed))
                    == jax.tree.structure(flax.core.unfreeze(vs)),
                    'variables afterwards')
          for u, v in zip(jax.tree.leaves(changed), jax.tree.leaves(vs)):
            ctx.equal(np.asarray(u), np.asarray(v), 'a variable changed')
          for i in range(len(every)):
            ctx.state(a['case'], a['nesting'], n, m, trial, i)
          ctx.transition(every.size)
          ctx.trace(len(every))
          ctx.evaluated(True, len(every))
      ctx.sample(f'{a["case"]} in {a["nesting"]}: words of {n}, {m} outputs')


def random_draw(module, vs, x0, ts, word, rng_of):
  """The factor drawn by the module, from a single step without diffusion."""
  t = jnp.asarray([0., 1.])
  path = vs['params']
  while 'Dense_0' not in path:
    path = path['inner']
  dense = path['Dense_0']
  y = module.apply(vs, x0, t, jnp.zeros(1), **rng_of)
  return (y[0] - x0) / (x0 @ dense['kernel'] + dense['bias'])
