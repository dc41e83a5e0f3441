"""L01: conjugate gradients solves the system to tolerance, and says so."""
import fractions
import functools
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from swirl_fem.linalg import cg as cg_lib

LEVEL = 'model_checking'
RULE = ('All symmetric positive definite systems with small integer entries '
        'up to three unknowns, with all right hand sides, starting guesses, '
        'preconditioners and weighted inner products from small alphabets. '
        'The states of the model are the iterates (solution, residual, '
        'direction) of the preconditioned method in rational arithmetic and a '
        'transition is an iteration; every system is then solved by the real '
        'code for every pair of tolerances and every iteration limit, and '
        'solution, residual and number of iterations have to be those of the '
        'model state in which the method has to stop. Larger systems: every '
        'iterate, in every way to split the unknowns into a tree.')
ASSUMPTIONS = ['64 bit arithmetic (1e-7) and 32 bit arithmetic (2e-3).',
               'Either of two states is accepted if the residual in one '
               'differs from the tolerance by rounding errors only.']

F = fractions.Fraction


def matrices(n, tier):
  if n == 1:
    return [[[a]] for a in (1, 2, 3, 7)]
  out = []
  if n == 2:
    for a, c in itertools.product((1, 2, 3, 5), repeat=2):
      for b in (-2, -1, 0, 1, 2):
        if a * c > b * b:
          out.append([[a, b], [b, c]])
    return out
  diag = (1, 3) if tier == 'quick' else (1, 2, 3, 5)
  for a, c, e in itertools.product(diag, repeat=3):
    for x, y, z in itertools.product((-1, 0, 1), repeat=3):
      m = np.array([[a, x, y], [x, c, z], [y, z, e]])
      if all(np.linalg.det(m[:k, :k]) > .5 for k in (1, 2, 3)):
        out.append(m.tolist())
  return out


def others(n):
  """Preconditioners and weights: symmetric positive definite."""
  pre = [('none', None), ('jacobi', 'jacobi'),
         ('full', (np.eye(n) * 2 - np.eye(n, k=1) - np.eye(n, k=-1)).tolist()),
         ('diagonal', np.diag(range(1, n + 1)).tolist())]
  ws = [('none', [1] * n), ('w', [2, 1, 3][:n])]
  return pre, ws


def rhs(n, tier):
  alpha = (0, 1, -2) if n < 3 else (0, 1, -2)
  return list(itertools.product(alpha, repeat=n))


def guesses(n):
  return ['none', 'zero', 'solution', [1] * n, [(-1)**k * (k + 1)
                                                for k in range(n)]]


TOLS = [(0., 0.), (1e-5, 0.), (.5, 0.), (.05, .1), (0., 1.), (1e-3, 1e-2)]


def jobs(tier):
  out = []
  for bits in (64, 32):
    for n in (1, 2, 3):
      total = len(matrices(n, tier))
      of = {1: 1, 2: 2, 3: 4}[n] if tier == 'quick' else {1: 1, 2: 4, 3: 32}[n]
      if bits == 32 and tier == 'quick':
        of = {1: 1, 2: 1, 3: 4}[n]
      for k in range(of):
        out.append(dict(name=f'{bits} bit n={n} {k}', x64=bits == 64,
                        cost=total / of * n, args=dict(n=n, part=(k, of))))
  for bits in (64, 32):
    out.append(dict(name=f'trees {bits}', x64=bits == 64, cost=60,
                    args=dict(trees=1)))
    out.append(dict(name=f'direct {bits}', x64=bits == 64, cost=60,
                    args=dict(direct=1)))
  return out


def matvec(m, v):
  return [sum(a * b for a, b in zip(r, v)) for r in m]


def solve(m, b):
  """Exact solution by Gauss' elimination."""
  n = len(b)
  a = [[F(x) for x in r] + [F(y)] for r, y in zip(m, b)]
  for i in range(n):
    p = next(k for k in range(i, n) if a[k][i] != 0)
    a[i], a[p] = a[p], a[i]
    a[i] = [x / a[i][i] for x in a[i]]
    for k in range(n):
      if k != i:
        a[k] = [x - a[k][i] * y for x, y in zip(a[k], a[i])]
  return [r[-1] for r in a]


def trajectory(a, m, w, b, x0, steps):
  """Iterates (x, gamma) of the model, in rational arithmetic.

  The system is W^-1 A with the inner product of W, and preconditioner M W.
  """
  op = lambda v: [y / wi for y, wi in zip(matvec(a, v), w)]
  pre = (lambda v: v) if m is None else (
      lambda v: matvec(m, [x * wi for x, wi in zip(v, w)]))
  dot = lambda u, v: sum(x * y * wi for x, y, wi in zip(u, v, w))
  x = [F(v) for v in x0]
  r = [bi - y for bi, y in zip(b, op(x))]
  z = pre(r)
  p, gamma = z, dot(r, z)
  out = [(x, gamma, r, p)]
  for _ in range(steps):
    if gamma == 0:
      break
    ap = op(p)
    alpha = gamma / dot(p, ap)
    x = [xi + alpha * pi for xi, pi in zip(x, p)]
    r = [ri - alpha * y for ri, y in zip(r, ap)]
    z = pre(r)
    new = dot(r, z)
    p = [zi + new / gamma * pi for zi, pi in zip(z, p)]
    gamma = new
    out.append((x, gamma, r, p))
  return out, dot([F(v) for v in b], [F(v) for v in b])


@functools.lru_cache(maxsize=None)
def batched(n, has_x0, has_m):
  def one(a, m, w, b, x0, tol, atol, maxiter):
    kw = dict(tol=tol, atol=atol, maxiter=maxiter,
              dot_fn=lambda u, v: jnp.sum(u * v * w))
    if has_x0:
      kw['x0'] = x0
    if has_m:
      kw['M'] = lambda v: m @ (w * v)
    x, info = cg_lib.cg(lambda v: (a @ v) / w, b, **kw)
    return x, info['residual'], info['num_iterations']
  f = jax.vmap(one, (None,) * 5 + (0, 0, 0))   # limits and tolerances
  return jax.jit(jax.vmap(f, (0,) * 5 + (None,) * 3))


def accepted(traj, bs, tol, atol, limit, eps):
  """Indices of the states in which the method may stop."""
  thr = max(float(tol)**2 * float(bs), float(atol)**2)
  top = float(max(t[1] for t in traj))
  out = []
  for k, t in enumerate(traj):
    g = float(t[1])
    slack = eps * max(top, 1.)
    if k == limit:
      out.append((k, k))
      break
    if abs(g - thr) <= slack and not (t[1] == 0 and thr > slack):
      # stops here or goes on; in the end anything is the solution
      last = k == len(traj) - 1
      out.append((k, limit if last else k))
      continue
    if g <= thr:
      out.append((k, k))
      break
  return out


def run_systems(ctx, n, part, of):
  x64 = jax.config.jax_enable_x64
  dtype = np.float64 if x64 else np.float32
  xtol, eps = (1e-7, 1e-11) if x64 else (2e-3, 1e-5)
  pres, ws = others(n)
  mats = matrices(n, ctx.tier)[part::of]
  limits = list(range(n + 2))
  combos = [(t, a, l) for t, a in TOLS for l in limits]
  tols = np.array([c[0] for c in combos], dtype)
  atols = np.array([c[1] for c in combos], dtype)
  lims = np.array([c[2] for c in combos], np.int32)
  for (pname, pm), (wname, w), guess in itertools.product(
      pres, ws, guesses(n)):
    rows = []
    for a in mats:
      m = pm
      if pm == 'jacobi':
        m = [[F(1, a[i][i]) if i == j else F(0) for j in range(n)]
             for i in range(n)]
      for b in rhs(n, ctx.tier):
        if guess in ('none', 'zero'):
          x0 = [0] * n
        elif guess == 'solution':
          x0 = solve(a, [bi * wi for bi, wi in zip(b, w)])
          if any(v.denominator & (v.denominator - 1) for v in x0):
            continue  # not a floating point number
        else:
          x0 = guess
        rows.append((a, m, b, x0))
    if not rows:
      continue
    fl = lambda v: np.array([[float(y) for y in np.ravel(np.array(
        x, dtype=object))] for x in v], dtype)
    am = fl([r[0] for r in rows]).reshape(-1, n, n)
    mm = (np.zeros((len(rows), n, n), dtype) if pm is None else
          fl([r[1] for r in rows]).reshape(-1, n, n))
    wm = np.broadcast_to(np.array(w, dtype), (len(rows), n))
    fn = batched(n, guess != 'none', pm is not None)
    got = None
    with ctx.case(dict(n=n, pre=pname, weights=wname, guess=guess)):
      got = jax.tree.map(np.asarray, fn(
          am, mm, wm, fl([r[2] for r in rows]), fl([r[3] for r in rows]), tols,
          atols, lims))
    if got is None:
      continue
    xs, res, its = got
    for i, (a, m, b, x0) in enumerate(rows):
      traj, bs = trajectory(a, m, w, b, x0, max(limits))
      for t in traj:
        ctx.state(n, tuple(map(tuple, a)), pname, wname, b, t[0], t[2], t[3])
      ctx.transition(len(traj) - 1)
      fx = np.array([[float(v) for v in t[0]] for t in traj])
      fg = np.array([float(t[1]) for t in traj])
      scale = max(1., np.abs(fx).max())
      for j, (tol, atol, limit) in enumerate(combos):
        ok = accepted(traj, bs, tol, atol, limit, eps)
        k = int(its[i, j])
        hit = [s for s, last in ok if s <= k <= last]
        good = bool(hit) and np.abs(xs[i, j] - fx[hit[-1]]).max() <= (
            xtol * scale) and abs(res[i, j] - fg[hit[-1]]) <= xtol * max(
                1., fg.max())
        if not good:
          with ctx.case(dict(n=n, A=a, pre=pname, weights=w, b=b, x0=guess,
                             tol=tol, atol=atol, maxiter=limit)):
            ctx.fail(f'returned {xs[i, j]} with residual {res[i, j]} after {k} '
                     f'iterations; iterates {fx.tolist()} with residuals '
                     f'{fg.tolist()}, stop after one of {ok}')
        ctx.evaluated(k > 0)
      ctx.trace()
      if i % 97 == 0:
        ctx.sample(f'A={a} M={pname} weights={w} b={b} x0={x0}')


def laplacian(n, i):
  d = [2.5 + .5 * ((k * (i + 1)) % 3) for k in range(n)]
  a = np.diag(d)
  for k in range(n - 1):
    a[k, k + 1] = a[k + 1, k] = -1. + .25 * ((k + i) % 2)
  if n > 3:
    a[0, n - 1] = a[n - 1, 0] = .5
  return a


def compositions(n):
  for bits in itertools.product((0, 1), repeat=n - 1):
    sizes, c = [], 1
    for b in bits:
      if b:
        sizes.append(c)
        c = 1
      else:
        c += 1
    yield sizes + [c]


def reference(a, m, w, b, x0, steps):
  """Iterates in floating point."""
  x = x0.astype(float)
  r = b - a @ x / w
  pre = (lambda v: v) if m is None else (lambda v: m @ (w * v))
  p = z = pre(r)
  g = r @ (w * z)
  out = [(x, g)]
  for _ in range(steps):
    if g == 0:
      break
    ap = a @ p / w
    alpha = g / (p @ (w * ap))
    x, r = x + alpha * p, r - alpha * ap
    z = pre(r)
    new = r @ (w * z)
    p, g = z + new / g * p, new
    out.append((x, g))
  return out


def run_trees(ctx):
  """All iterates of larger systems, with the unknowns in any tree."""
  x64 = jax.config.jax_enable_x64
  dtype = np.float64 if x64 else np.float32
  tol = 1e-8 if x64 else 2e-3
  for n in (2, 4, 6):
    for sizes in compositions(n):
      for shape in ('list', 'dict', 'nested', 'matrix'):
        if shape == 'matrix' and any(s % 2 for s in sizes):
          continue
        cuts = np.cumsum([0] + sizes)

        def split(v):
          ls = [v[s:e] for s, e in zip(cuts, cuts[1:])]
          if shape == 'matrix':
            ls = [l.reshape((2, -1)) for l in ls]
          if shape == 'dict':
            return {f'k{9 - i}': l for i, l in enumerate(ls)}
          if shape == 'nested':
            return (ls[0], {'a': ls[1:], 'b': ()})
          return ls

        def join(t):
          if shape == 'dict':
            t = [t[f'k{9 - i}'] for i in range(len(t))]
          elif shape == 'nested':
            t = [t[0]] + list(t[1]['a'])
          return jnp.concatenate([l.reshape(-1) for l in t])
        for i in range(2 if ctx.quick else 5):
          a = laplacian(n, i)
          m = None if i % 2 == 0 else np.linalg.inv(np.diag(np.diag(a)) + .3)
          w = np.ones(n) if i < 1 else 1. + np.arange(n) % 3
          b, x0 = np.cos(np.arange(n) * 2. + i), np.sin(np.arange(n) * 3. + i)
          steps = reference(a, m, w, b, x0, n)
          ctx.state('tree', n, tuple(sizes), shape, i)
          aj, wj = jnp.asarray(a, dtype), jnp.asarray(w, dtype)

          def go(limit, b, x0):
            kw = dict(x0=split(x0), maxiter=limit, tol=0.)
            if m is not None:
              kw['M'] = lambda t: split(jnp.asarray(m, dtype) @ (wj * join(t)))
            if i >= 1:
              # an inner product of leaves which tells them by their shape:
              # with weights this is only possible for a single leaf
              kw['dot_fn'] = lambda u, v: jnp.sum(u * v)
              root = jnp.sqrt(wj)
              # in variables scaled by the root of the weights
              kw['x0'] = split(x0 * root)
              if m is not None:
                kw['M'] = lambda t: split(root * (
                    jnp.asarray(m, dtype) @ (root * join(t))))
              x, info = cg_lib.cg(lambda t: split((aj @ (join(t) / root)) / root),
                                  split(b * root), **kw)
              return jax.tree.structure(x), join(x) / root, info
            x, info = cg_lib.cg(lambda t: split(aj @ join(t)), split(b), **kw)
            return jax.tree.structure(x), join(x), info
          key = dict(n=n, leaves=sizes, tree=shape, system=i)
          with ctx.case(key):
            box = []

            def f(limit, b, x0):
              s, x, info = go(limit, b, x0)
              box.append(s)
              return x, info
            jf = jax.jit(f)
            for limit in range(n + 1):
              x, info = jf(limit, jnp.asarray(b, dtype), jnp.asarray(x0, dtype))
              k = min(limit, len(steps) - 1)
              ctx.check(int(info['num_iterations']) == limit or (
                  float(info['residual']) == 0.), 'number of iterations',
                        int(info['num_iterations']), limit)
              ctx.close(x, steps[k][0], tol * 5, f'iterate {limit}')
              ctx.close(info['residual'], steps[k][1], tol * max(
                  1., steps[0][1]), f'residual {limit}')
              ctx.transition()
              ctx.evaluated(limit > 0)
            ctx.check(box[0] == jax.tree.structure(split(np.zeros(n))),
                      'tree structure')
            ctx.trace()


def run_direct(ctx):
  """Without vmap, defaults included, and asking for the impossible."""
  x64 = jax.config.jax_enable_x64
  dtype = np.float64 if x64 else np.float32
  eps = float(np.finfo(dtype).eps)
  mats = [np.diag([1., 2, 3]), np.array([[2., -1, 0], [-1, 2, -1], [0, -1, 2]]),
          np.array([[3.]]), np.array([[4., 1], [1, 3]]),
          np.array([[1., .99], [.99, 1.]])]
  jitted = jax.jit(lambda a, b, x0, tol, atol, maxiter: cg_lib.cg(
      lambda v: a @ v, b, x0, tol=tol, atol=atol, maxiter=maxiter),
                   static_argnums=5)
  for mi, a in enumerate(mats):
    n = len(a)
    aj = jnp.asarray(a, dtype)
    for x0 in itertools.product((0., 1., -2., 1e-3), repeat=n):
      for b in itertools.product((0., 1., -.5), repeat=n):
        for tol, atol, limit in ((1e-5, 0., None), (0., 0., None),
                                 (1e-3, 1e-3, None), (0., 0., 200),
                                 (1e-5, 0., 1000)):
          with ctx.case(dict(matrix=mi, x0=x0, b=b, tol=tol, atol=atol,
                             limit=limit)):
            bb = np.array(b)
            x, info = jitted(aj, jnp.array(b, dtype), jnp.array(x0, dtype),
                             tol, atol, limit)
            x = np.asarray(x, float)
            k = int(info['num_iterations'])
            res = float(info['residual'])
            thr = max(tol * np.linalg.norm(b), atol)
            top = 10 * n if limit is None else limit
            ctx.check(np.isfinite(x).all(), 'not finite', x, info)
            ctx.check(k <= top, 'iterations', k, top)
            true = np.linalg.norm(bb - a @ x)
            start = np.linalg.norm(bb - a @ np.array(x0))
            slack = 200 * eps * (start + np.linalg.norm(b) + 1) * n
            if k < top:
              ctx.check(res <= thr**2 * (1 + 1e-5), 'not converged', res, thr)
              ctx.check(true <= thr * (1 + 1e-3) + slack, 'true residual', true)
            ctx.check(abs(np.sqrt(max(res, 0.)) - true) <= slack,
                      'reported residual', res, true**2)
            if start**2 > max(thr**2 * 1.01, slack):
              ctx.check(k > 0, 'no iteration')
            if start == 0 or (start < thr * .99):
              ctx.check(k == 0 and np.array_equal(x, np.array(x0, dtype)),
                        'already solved', k, x)
            ctx.state('direct', mi, x0, b, tol, atol, limit)
            ctx.trace()
            ctx.transition(k)
            ctx.evaluated(k > 0)
  # without options: every default
  for mi, a in enumerate(mats):
    n = len(a)
    for b in itertools.product((0., 1., -.5), repeat=n):
      with ctx.case(dict(matrix=mi, b=b, options='defaults')):
        x, info = cg_lib.cg(lambda v: jnp.asarray(a, dtype) @ v,
                            jnp.array(b, dtype))
        r = np.array(b) - a @ np.asarray(x, float)
        ctx.check(np.linalg.norm(r) <= 1.1e-5 * np.linalg.norm(b), 'residual', r)
        ctx.check(int(info['num_iterations']) <= 10 * n, 'iterations')
        if not any(b):
          ctx.check(int(info['num_iterations']) == 0 and not np.any(x), 'zero')
        ctx.evaluated(True)


def run(ctx, a):
  if 'trees' in a:
    run_trees(ctx)
  elif 'direct' in a:
    run_direct(ctx)
  else:
    run_systems(ctx, a['n'], *a['part'])
