"""N03: one flow step solves its equations from the history given."""
import functools
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from mc import flow

LEVEL = 'model_checking'
RULE = ('All combinations, within bounds, of mesh, periodic directions, '
        'Dirichlet groups, order in space and in time, length of the pressure '
        'history and parameters (viscosity, time step, filter fraction, '
        'boundary values or none). The step is linear, so that it is run on a '
        'complete basis of its inputs (each velocity and pressure of the '
        'history, force, boundary values) and compared with dense matrices '
        'assembled and inverted with numpy; linearity is checked on '
        'combinations. Besides, all sequences of two (thorough: three) steps '
        'with different arguments give the same as each step by itself. Inputs '
        'which are divergence-free already and a basis are run with the '
        'default tolerance in 32 and 64 bit arithmetic, also with other '
        'preconditioners. A state is a configuration with a basis input, a '
        'transition is a step of the '
        'real solver, a trace is a configuration.')
ASSUMPTIONS = ['64 bit arithmetic, solver tolerance 1e-13, result to 1e-7; with '
               'default tolerance 1e-6 (64 bit) and 1e-4 (32 bit).',
               'The force is a covector with zero rows at Dirichlet nodes, and '
               'histories and boundary values are continuous; boundary values '
               'have no net flux if the boundary is closed.',
               'Periodic sides of a mesh without open sides are translates of '
               'each other.',
               'The filter is applied to the tentative velocity.']

# shape, periodic, geometry, listing, Dirichlet groups, order
CASES = {
    'box': ((2, 2), (), 2, 2, 'all', 3),
    'channel': ((2, 2), (0,), 1, 1, 'all', 2),
    'torus': ((2, 2), (0, 1), 1, 3, 'all', 2),
    'open': ((2, 1), (), 1, 2, ('x0', 'y0', 'y1'), 3),
    'open 2': ((2, 2), (1,), 2, 1, ('x0',), 2),
    'line': ((3,), (), 2, 1, ('x0',), 3),
    'small': ((2, 1), (), 0, 0, 'all', 4),
    'cube': ((2, 1, 1), (), 2, 2, 'all', 2),
}
THOROUGH = {
    'box 4': ((2, 2), (), 2, 2, 'all', 4),
    'channel 3': ((2, 2), (1,), 1, 3, 'all', 3),
    'torus 3': ((2, 2), (0, 1), 1, 2, 'all', 3),
    'open 5': ((2, 1), (), 2, 1, ('x0', 'y0'), 5),
    'cube 3': ((2, 1, 1), (), 1, 3, 'all', 3),
    'cube torus': ((2, 2, 2), (0, 1, 2), 1, 1, 'all', 2),
    'cube open': ((2, 1, 1), (), 2, 1, ('x0',), 2),
    'wide': ((3, 2), (0,), 1, 2, 'all', 2),
}
# no boundary at all
CLOSED = ('torus', 'torus 3', 'cube torus')
PARAMS = [(1., .1, .05), (.01, .5, 0.), (.3, .02, 1.)]
# run in both precisions and with the default tolerance
ACCURACY = {
    'torus 2': ((2, 2), (0, 1), 1, 3, 'all', 2),
    'torus 3': ((2, 2), (0, 1), 0, 0, 'all', 3),
    'torus 4': ((2, 2), (0, 1), 0, 0, 'all', 4),
    'large torus': ((4, 4), (0, 1), 0, 0, 'all', 4),
    'channel': ((2, 2), (0,), 0, 0, 'all', 4),
    'box': ((3, 2), (), 0, 0, 'all', 4),
    'open': ((2, 2), (1,), 1, 1, ('x0',), 3),
}


def settings(tier, name):
  """(order in time, pressures, boundary values, which parameters)."""
  q = tier == 'quick'
  d = len(dict(CASES, **THOROUGH)[name][0])
  top = (3 if d < 3 else 2) if q else (5 if d < 3 else 3)
  out = []
  for k in range(1, top + 1):
    for p in ((1, 2, 3) if not q else (1, 2) if k != 2 else (3,)):
      for b in (False, True):
        for i in range(len(PARAMS)):
          if q and (k + p + b + i) % 3:
            continue
          if b and name in CLOSED:
            continue
          out.append((k, p, b, i))
  return out


def jobs(tier):
  out = []
  for name in dict(CASES, **(THOROUGH if tier != 'quick' else {})):
    todo = settings(tier, name)
    of = max(1, round(len(todo) / 3)) if tier == 'quick' else max(
        1, round(len(todo) / 4))
    for k in range(of):
      out.append(dict(name=f'{name} {k}', x64=True, cost=10,
                      args=dict(case=name, part=(k, of))))
  for name in ACCURACY:
    for x64 in (False, True):
      out.append(dict(name=f'accuracy {name} {64 if x64 else 32}', x64=x64,
                      cost=12, args=dict(accuracy=name)))
  out.append(dict(name='sequences', x64=True, cost=15, args=dict(sequences=1)))
  return out


@functools.lru_cache(maxsize=None)
def world(name):
  case = flow.Case(*dict(CASES, **THOROUGH)[name])
  return World(flow.Flow(case))


class World:
  """Dense operators in glued degrees of freedom."""

  def __init__(self, s):
    self.s = s
    d = s.d
    eye = np.eye(d)
    p = s.glue()
    self.first = np.array([np.argmax(s.dof == i) for i in range(s.nd)])
    self.p = np.kron(p, eye)                            # node comp <- dof comp
    self.fixed = np.repeat(p.T @ s.fixed > 0, d)
    self.mass = np.repeat(p.T @ s.mass, d)
    self.stiff = np.kron(p.T @ s.stiff @ p, eye)
    self.div = s.div.reshape(s.np, -1) @ self.p
    filt = s.filter_matrix()[self.first] @ p
    self.filt = np.kron(filt, eye)
    self.nullspace = all(s.case.is_dirichlet(g) for g in
                         s.case.coarse().groups)
    self.pmean = s.pmass @ np.ones(s.np)

  def step(self, us, ps, f, ub, mu, dt, k, alpha):
    """Columns are independent problems."""
    free = ~self.fixed
    pe = 2 * ps[-1] - ps[-2] if len(ps) > 1 else ps[-1]
    beta = [float(b) for b in flow.bdf(k)]
    rhs = f + self.div.T @ pe
    rhs = rhs - self.mass[:, None] / dt * sum(
        b * u for b, u in zip(beta, us))
    h = np.diag(beta[-1] / dt * self.mass) + mu * self.stiff
    star = np.zeros_like(rhs)
    if ub is not None:
      star[self.fixed] = ub[self.fixed]
    star[free] = np.linalg.solve(
        h[np.ix_(free, free)], (rhs - h @ star)[free])
    star = (1 - alpha) * star + alpha * self.filt @ star
    q = dt / beta[-1] / self.mass * free
    e = self.div @ (q[:, None] * self.div.T)
    w, v = np.linalg.eigh(e)
    keep = w > 1e-10 * w.max()
    assert keep.sum() == len(w) - int(self.nullspace), (w,)
    dp = -v[:, keep] @ ((v[:, keep].T @ (self.div @ star)) / w[keep][:, None])
    if self.nullspace:
      dp = dp - (self.pmean @ dp) / self.pmean.sum()
    return star + q[:, None] * (self.div.T @ dp), pe + dp


def run(ctx, a):
  if 'sequences' in a:
    return sequences(ctx)
  if 'accuracy' in a:
    return accuracy(ctx, a['accuracy'])
  part, of = a['part']
  for setting in settings(ctx.tier, a['case'])[part::of]:
    with ctx.case(dict(case=a['case'], time_order=setting[0],
                       pressures=setting[1], boundary=setting[2],
                       parameters=PARAMS[setting[3]])):
      check(ctx, a['case'], *setting)


def check(ctx, name, k, npress, boundary, param):
  w = world(name)
  s, sem = w.s, w.s.sem
  mu, dt, alpha = PARAMS[param]
  n, d, nd, npp = s.n, s.d, s.nd, s.np
  dofs = nd * d
  sizes = [dofs] * k + [npp] * npress
  # forces: one for each copy of a free node
  fnodes = [i for i in range(n) if not s.fixed[i]]
  sizes.append(len(fnodes) * d)
  if boundary:
    sizes.append(dofs)
  total = sum(sizes)
  extra = 3
  mix = np.cos(np.arange(total)[:, None] * (1.1 + np.arange(extra)) + .3)
  mix /= np.sqrt(total)
  alls = np.concatenate([np.eye(total), mix], 1)        # columns: problems
  at = np.cumsum([0] + sizes)
  blocks = [alls[i:j] for i, j in zip(at, at[1:])]
  us_g, ps_g = blocks[:k], blocks[k:k + npress]
  fblock = blocks[k + npress]
  ub_g = blocks[-1] if boundary else None
  if boundary and w.nullspace:
    # Boundary values without net flux.
    phi = (np.ones(npp) @ w.div) @ ((1 - alpha) * np.eye(dofs) + alpha * w.filt)
    phi = np.where(w.fixed, phi, 0.)
    ub_g = ub_g - np.outer(phi, phi @ ub_g) / (phi @ phi)
  # in the repository's terms
  nodal = lambda b: jnp.asarray((w.p @ b).T.reshape((-1, n, d)))
  f_nodes = np.zeros((alls.shape[1], n, d))
  f_nodes[:, fnodes] = fblock.T.reshape((-1, len(fnodes), d))
  f_g = w.p.T @ f_nodes.reshape((len(f_nodes), -1)).T
  args = (tuple(nodal(b) for b in us_g), tuple(jnp.asarray(b.T) for b in ps_g),
          jnp.asarray(f_nodes), nodal(ub_g) if boundary else None)

  def one(us, ps, f, ub):
    kw = {} if alpha == .05 else dict(alpha=alpha)
    if ub is not None:
      kw['u_boundary'] = ub
    if not w.nullspace:
      kw['project_out_nullspace'] = False
    u, p, _ = sem.stokes_one_step(list(us), list(ps), f, mu, dt, k, tol=1e-13,
                                  **kw)
    return u, p
  u, p = jax.tree.map(np.asarray, jax.jit(jax.vmap(one))(*args))
  want_u, want_p = w.step(us_g, ps_g, f_g, ub_g, mu, dt, k, alpha)
  gu = u.reshape((len(u), -1)).T
  full = w.p @ want_u
  su, sp = np.abs(full).max(), np.abs(want_p).max()
  labels = ([f'velocity {i}' for i in range(k)]
            + [f'pressure {i}' for i in range(npress)] + ['force', 'boundary'])
  for label, i, j in zip(labels, at, at[1:]):
    ctx.close(gu[:, i:j], full[:, i:j], 1e-7 * su, f'new velocity from {label}')
    ctx.close(p.T[:, i:j], want_p[:, i:j], 1e-7 * sp, f'new pressure from {label}')
  ctx.close(gu[:, total:], full[:, total:], 1e-7 * su, 'velocity of combinations')
  ctx.close(gu[:, total:], gu[:, :total] @ mix, 1e-7 * su, 'linearity')
  # discretely divergence free, and copies agree
  div = s.div.reshape(npp, -1) @ gu
  ctx.check(np.abs(div).max() <= 1e-6 * su * np.abs(s.div).max(), 'divergence',
            np.abs(div).max())
  if boundary and alpha == 0.:
    b = w.p @ ub_g
    fx = np.repeat(s.fixed, d)
    ctx.close(gu[fx], b[fx], 1e-9, 'boundary values')
  elif not boundary:
    ctx.check(np.abs(gu[np.repeat(s.fixed, d)]).max(initial=0) < 1e-12,
              'boundary values')
  for i in range(total):
    ctx.state(name, k, npress, boundary, param, i)
  ctx.transition(len(u))
  ctx.trace()
  ctx.evaluated(True, len(u))
  ctx.sample(f'{name}: time order {k}, {npress} pressures, boundary values '
             f'{boundary}, mu, dt, alpha = {PARAMS[param]}')


def accuracy(ctx, name):
  """Default tolerance, from inputs which are already divergence-free too."""
  w = World(flow.Flow(flow.Case(*ACCURACY[name])))
  s, sem = w.s, w.s.sem
  eye = np.eye(s.nd * s.d)
  every = 1 if len(eye) < 150 or not ctx.quick else len(eye) // 100
  x, zero = s.x[w.first], np.zeros(s.nd)
  sin, cos = np.sin(2 * np.pi * x), np.cos(2 * np.pi * x)
  fields = {
      'rest': (zero, zero), 'uniform': (zero + 1, zero),
      'diagonal': (zero + 1, zero - 2), 'shear': (sin[:, 1], zero),
      'vortices': (sin[:, 0] * cos[:, 1], -cos[:, 0] * sin[:, 1]),
      'compression': (sin[:, 0], zero), 'source': (x[:, 0], x[:, 1])}
  u = np.concatenate([eye[:, ::every]] + [
      np.stack(f, 1).reshape(-1, 1) for f in fields.values()], 1)
  names = [f'basis {i * every}' for i in range(len(eye[0, ::every]))]
  names += list(fields)
  nodal = jnp.asarray((w.p @ u).T.reshape((-1, s.n, s.d)))
  x64 = nodal.dtype == np.float64
  kw = {} if w.nullspace else dict(project_out_nullspace=False)
  for mu, dt, alpha in PARAMS[:2] if ctx.quick else PARAMS:
    with ctx.case(dict(accuracy=name, x64=x64, parameters=(mu, dt, alpha))):
      got_u, got_p, _ = jax.jit(jax.vmap(lambda v: sem.stokes_one_step(
          [v], [jnp.zeros(s.np, v.dtype)], jnp.zeros_like(v), mu, dt, 1,
          alpha=alpha, **kw)))(nodal)
      want_u, want_p = w.step([u], [np.zeros((s.np, u.shape[1]))],
                              np.zeros_like(u), None, mu, dt, 1, alpha)
      want_u = w.p @ want_u
      tol = 1e-6 if x64 else 1e-4
      for i, label in enumerate(names):
        size = max(1., np.abs(u[:, i]).max())
        ctx.close(np.asarray(got_u[i]).reshape(-1), want_u[:, i], tol * size,
                  f'velocity from {label}')
        ctx.close(np.asarray(got_p[i]), want_p[:, i],
                  tol * size * max(1, mu + 1 / dt),
                  f'pressure from {label}')
        ctx.state('accuracy', name, x64, mu, label)
      ctx.transition(len(names))
      ctx.trace()
      ctx.evaluated(True, len(names))
  if w.nullspace:
    return
  # any preconditioner of the pressure gives the same
  mu, dt, alpha = PARAMS[0]
  f = jnp.asarray(nodal[-2:])
  scale = np.linspace(.5, 3., s.np)
  for label, m in (('scaling', lambda p: 2.5 * p),
                   ('diagonal', lambda p: jnp.asarray(scale, p.dtype) * p)):
    with ctx.case(dict(preconditioner=label, mesh=name, x64=x64)):
      for v in f:
        a, b = [sem.stokes_one_step(
            [v], [jnp.zeros(s.np, v.dtype)], jnp.zeros_like(v), mu, dt, 1, **k)
                for k in (kw, dict(kw, pressure_preconditioner=m))]
        ctx.close(np.asarray(b[0]), np.asarray(a[0]), 10 * tol, 'velocity')
        ctx.close(np.asarray(b[1]), np.asarray(a[1]), 10 * tol, 'pressure')
        ctx.transition(2)
        ctx.evaluated(True)
      ctx.state('preconditioner', name, x64, label)
      ctx.trace()


def walk(n):
  """A sequence in which each ordered pair is adjacent once."""
  left = {(i, j) for i in range(n) for j in range(n)}
  def extend(seq, left):
    if not left:
      return seq
    for j in range(n):
      if (seq[-1], j) in left:
        found = extend(seq + (j,), left - {(seq[-1], j)})
        if found:
          return found
    return None
  return extend((0,), frozenset(left))


def sequences(ctx):
  """The order of calls doesn't matter, and defaults are as documented."""
  w = world('channel')
  s, sem = w.s, w.s.sem
  n, d = s.n, s.d
  rng = lambda i, shape: np.cos(np.arange(np.prod(shape)) * (i + 1.3)).reshape(
      shape)
  field = lambda i: jnp.asarray((w.p @ rng(i, s.nd * d)).reshape(n, d))
  calls = []
  for k in (1, 2):
    for i in (0, 1) if k == 1 or not ctx.quick else (0,):
      us = [field(i + j) for j in range(k)]
      ps = [jnp.asarray(rng(i + 5 + j, s.np)) for j in range(k)]
      f = field(i + 9) * jnp.asarray(s.mask)[:, None]
      calls.append((us, ps, f, .1 * (i + 1), .2, k))
  results = {}
  # a walk contains each pair of calls in sequence, as 0, 0, 1, 1, 2, 2, 0, 2, 1, 0
  for length in (0,) if ctx.quick else (0, 1, 2, 3):
    for seq in itertools.product(range(len(calls)), repeat=length):
      seq = seq or walk(len(calls))
      if length == 3 and len(set(seq)) < 2:
        continue
      with ctx.case(dict(sequence=seq)):
        for c in seq:
          us, ps, f, mu, dt, k = calls[c]
          before = [np.array(x) for x in us + ps + [f]]
          u, p, aux = sem.stokes_one_step(us, ps, f, mu, dt, k)
          ctx.check(all(np.array_equal(x, y) for x, y in zip(
              before, us + ps + [f])) and len(us) == k, 'arguments changed')
          if c in results:
            ctx.equal(np.asarray(u), results[c][0], 'velocity')
            ctx.equal(np.asarray(p), results[c][1], 'pressure')
          else:
            results[c] = np.asarray(u), np.asarray(p)
            # default tolerance, filter and null space
            fg = w.p.T @ np.asarray(f).reshape(-1, 1)
            wu, wp = w.step([np.asarray(x).reshape(n, d)[w.first].reshape(-1, 1)
                             for x in us], [np.asarray(x)[:, None] for x in ps],
                            fg, None, mu, dt, k, .05)
            ctx.close(np.asarray(u).reshape(-1), (w.p @ wu)[:, 0], 1e-5,
                      'velocity')
            ctx.close(np.asarray(p), wp[:, 0], 1e-4, 'pressure')
            ctx.check(all(np.isfinite(float(aux[i]['residual'])) for i in (
                'u_star_info', 'dp_info')), 'info')
          ctx.transition()
          ctx.evaluated(True)
        ctx.state('sequence', seq)
        ctx.trace()
