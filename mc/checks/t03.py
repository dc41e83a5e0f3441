"""T03: the training loss compares each step with the snapshot of that step."""
import itertools
import types

import numpy as np

LEVEL = 'model_checking'
RULE = ('A flow solver which mixes everything that it is given with different '
        'weights (so that each position of each history is visible) and a '
        'model of corrections which depends on the element, its values and the '
        'parameters replace the real ones; the roll-out of the real code is '
        'compared with the model of it, a loop over steps in NumPy, for all '
        'time orders, numbers of steps, batches of windows over an alphabet of '
        'contents, lengths of windows and orderings of elements within the '
        'bounds. Besides, with the real solver on small periodic meshes.')
ASSUMPTIONS = ['Inputs of the model of corrections are rounded to single '
               'precision as in the program; relative tolerance 1e-5 (a wrong '
               'snapshot, step or element changes the result by more than '
               '1e-3).']

REYNOLDS, DRAG, DT, ALPHA = 37., .3, .02, .04
AUX = ('kl_q0', 'kl_path', 'z0_means', 'z1_means', 'z1_stds')
TRAINING = True


def jobs(tier):
  q = tier == 'quick'
  out = []
  parts = 5 if q else 12
  for k in range(parts):
    out.append(dict(name=f'rollout {k}', x64=True, cost=20,
                    args=dict(rollout=(k, parts))))
  for k in range(2 if q else 8):
    out.append(dict(name=f'permuted {k}', x64=True, cost=20,
                    args=dict(permuted=(k, 2 if q else 8))))
  for k in range(2 if q else 6):
    out.append(dict(name=f'words {k}', x64=True, cost=20,
                    args=dict(words=(k, 2 if q else 6))))
  for k in range(3 if q else 6):
    out.append(dict(name=f'real solver {k}', x64=True, cost=30,
                    args=dict(real=k)))
  return out


def run(ctx, a):
  for kind in a:
    globals()[kind](ctx, a[kind])


class Stub:
  """Mixes all arguments; elements share nodes in a ring."""

  def __init__(self, lib, elements, order=1, calls=None):
    self.lib = lib
    npe = order + 1
    n = elements * order
    self.idx = np.array([[(e * order + j) % n for j in range(npe)]
                         for e in range(elements)])
    self.n, self.np_ = n, 3
    self.coords = np.stack([np.linspace(0, .9, n), np.linspace(.05, .8, n)], 1)
    mesh = types.SimpleNamespace(
        node_coords=lib.asarray(self.coords), num_nodes=n, ndim=2,
        num_elements=elements, num_nodes_per_element=npe)
    self.velocity = types.SimpleNamespace(
        mesh=mesh, num_nodes=n, gather=self.gather, scatter=self.scatter)
    m = min(n, 40)
    mix = np.zeros((n, n))
    mix[:m, :m] = np.cos(np.arange(m * m).reshape(m, m)) / m
    self.mix = mix + np.diag(.1 + .3 * np.sin(np.arange(n)))
    self.to_p = np.sin(np.arange(self.np_ * n).reshape(self.np_, n) + 1) / n
    self.from_p = np.cos(np.arange(n * self.np_).reshape(n, self.np_) * .7) / 3
    # a weighted average of the contributions
    self.put = np.zeros((n, self.idx.size))
    w = 1 + .5 * np.cos(np.arange(self.idx.size))
    self.put[self.idx.ravel(), np.arange(self.idx.size)] = w
    self.put /= self.put.sum(axis=1, keepdims=True)

  def gather(self, u):
    return u[self.idx]

  def scatter(self, x):
    assert x.shape == self.idx.shape + (2,), x.shape
    return self.put @ x.reshape(-1, 2)

  def C(self, u):
    return u[:, ::-1] * u * .7 + .2 * (self.mix @ u)

  def B(self, f):
    return f * (1.5 + .1 * np.cos(np.arange(self.n)))[:, None]

  def stokes_one_step(self, us, ps, f, mu=None, dt=None, time_order=None,
                      alpha=None, tol=1e-8, atol=0., **_):
    assert len(us) == len(ps) == time_order, (len(us), len(ps), time_order)
    assert abs(mu - 1 / REYNOLDS) < 1e-15 and abs(dt - DT) < 1e-15
    assert abs(alpha - ALPHA) < 1e-15
    k = len(us)
    u = sum((.25 + .2 * i) / k * u for i, u in enumerate(us)) + .3 * f
    pm = sum((.3 - .1 * i) * p for i, p in enumerate(ps))
    u = u + (self.from_p @ pm)[:, None] * np.array([.1, .2])
    p = pm + self.to_p @ u[:, 0] + .5 * (self.to_p @ u[:, 1])
    return u, p, {}


def correction(lib, w, x, position):
  """(E, C) -> (E, C); each element by itself; also KL terms by example."""
  c = x.shape[-1]
  m = np.sin(np.arange(c * c).reshape(c, c) + .3) / c
  bias = lib.asarray(np.cos(np.arange(c)), dtype=x.dtype)
  out = w[0] * lib.tanh(x @ lib.asarray(m, dtype=x.dtype)) + w[1] * bias
  if position:
    e = np.cos(np.arange(x.shape[0]) * 1.7)[:, None]
    out = out * lib.asarray(1 + .5 * e, dtype=x.dtype)
  return out


def kl_terms(lib, x):
  s = (x * x).mean()
  return dict(kl_q0=s, kl_path=.5 + x.sum() * .1, z0_means=x[0, 0] - 3.,
              z1_means=x[-1, -1] * 2, z1_stds=abs(x).max())


EXT = {1: [1.], 2: [-1., 2.], 3: [1., -3., 3.], 4: [-1., 4., -6., 4.]}


def model(sem, batch, w, steps, k, position, perm, scatter=None):
  """The roll-out by definition: predictions and KL terms of each step."""
  preds, kls = [], []
  for u, p in zip(batch['u'], batch['p']):
    us, ps = list(u[:k]), list(p[:k])
    pr, kl = [], []
    for _ in range(steps):
      x = np.asarray(sem.velocity.gather(us[-1]))
      x = x.reshape(x.shape[0], -1).astype(np.float32)
      x = x if perm is None else x[perm]
      f = np.asarray(correction(np, w, x, position), np.float64)
      kl.append(kl_terms(np, x))
      if perm is not None:
        g = np.empty_like(f)
        g[perm] = f
        f = g
      f = np.asarray(sem.velocity.scatter(f.reshape(f.shape[0], -1, 2)))
      c = np.asarray(sem.velocity.mesh.node_coords, np.float64)
      f = f + np.stack([np.sin(8 * np.pi * c[:, 1]), 0 * c[:, 1]],
                       1) - DRAG * us[-1]
      ext = sum(a * np.asarray(sem.C(v)) for a, v in zip(EXT[k], us[-k:]))
      un, pn, _ = sem.stokes_one_step(
          us[-k:], ps[-k:], np.asarray(sem.B(f)) - ext, mu=1 / REYNOLDS, dt=DT,
          time_order=k, alpha=ALPHA)
      us.append(np.asarray(un))
      ps.append(np.asarray(pn))
      pr.append(us[-1])
    preds.append(pr)
    kls.append(kl)
  return np.asarray(preds), kls


def expected(sem, batch, w, steps, k, position, perm, penalty):
  preds, kls = model(sem, batch, w, steps, k, position, perm)
  targets = np.asarray(batch['u'])[:, k:k + steps]
  mse = (.5 * (preds - targets)**2).sum(axis=(2, 3)).mean(axis=0)
  mean = lambda name, over: np.mean([over([s[name] for s in kl]) for kl in kls])
  out = dict(mse=mse, kl_q0=mean('kl_q0', sum), kl_path=mean('kl_path', sum))
  kl = penalty * (out['kl_q0'] + out['kl_path'])
  out['kl'] = kl
  for n in ('z0_means', 'z1_means', 'z1_stds'):
    out[n] = mean(n, lambda v: abs(v[-1]))
  return mse.sum() + kl, out


def apply_fn(position):
  import jax
  import jax.numpy as jnp

  def f(variables, inputs, rngs=None, z_rng=None, train=None):
    assert train == TRAINING and set(rngs) == {'dropout'}
    w = variables['params']['w']
    out = jax.vmap(lambda x: correction(jnp, w, x, position))(inputs)
    aux = jax.vmap(lambda x: kl_terms(jnp, x))(inputs)
    return out.astype(jnp.float32), {
        n: v.astype(jnp.float32) for n, v in aux.items()}

  return f


def config(ctx, sem, steps, k, permute, pushforward):
  import ml_collections
  mesh = sem.velocity.mesh
  return ml_collections.FrozenConfigDict(dict(
      time_order=k, num_steps=steps, eval_num_steps=steps + 3,
      permute_elements=permute, num_elements=mesh.num_elements,
      num_channels=mesh.num_nodes_per_element * 2, reynolds_number=REYNOLDS,
      drag_coeff=DRAG, dt=DT, alpha=ALPHA, num_pushforward_steps=pushforward,
      num_nodes=mesh.num_nodes, window_step=1))


def windows(batch, length, n, np_, letters=None):
  """Snapshots; given letters, equal letters have equal contents."""
  s = np.arange(batch * length).reshape(batch, length) * 1.
  if letters is not None:
    s = np.asarray(letters, float).reshape(batch, length) + .5
  u = .8 * np.cos(s[..., None, None] * 1.1 + .4 * np.arange(n)[:, None]
                  + 1.3 * np.arange(2))
  p = .8 * np.sin(s[..., None] * .9 + .8 * np.arange(np_))
  return dict(u=u, p=p, t=s)


def perm12():
  from swirl_fem.niles import train
  return np.asarray(train.make_multiscale_perm())


def compare(ctx, sem, ref, batch, w, steps, k, penalty, position=False,
            permute=False, pushforward=0, tol=2e-5):
  import jax
  import jax.numpy as jnp
  from swirl_fem.niles import train
  loss, aux = train.compute_mse_loss(
      {n: jnp.asarray(v) for n, v in batch.items()},
      {'w': jnp.asarray(w, jnp.float32)}, apply_fn(position),
      jax.random.PRNGKey(3), penalty, sem, None, None,
      config(ctx, sem, steps, k, permute, pushforward), True)
  want, terms = expected(ref, batch, np.float32(w), steps, k, position,
                         perm12() if permute else None, penalty)
  for n, v in terms.items():
    v = np.asarray(v)
    ctx.close(aux[n], v, tol * max(1, abs(v).max()), n)
  ctx.close(loss, want, tol * max(1, abs(want)), 'loss')
  ctx.transition(steps * len(batch['u']))
  ctx.trace()
  ctx.evaluated(steps > 1)
  return loss


def rollout(ctx, part):
  import jax.numpy as jnp
  todo = []
  top = 4 if ctx.quick else 6
  for k, steps, b, extra in itertools.product(
      (1, 2, 3) if ctx.quick else (1, 2, 3, 4), range(1, top), (1, 2, 3),
      (0, 1, 3)):
    for e, order in ((2, 2), (3, 1), (1, 3)):
      if ctx.quick and (k + steps + b + extra + e) % 3:
        continue
      todo.append((k, steps, b, extra, e, order))
  for t in todo[part[0]::part[1]]:
    k, steps, b, extra, e, order = t
    with ctx.case(dict(order=k, steps=steps, batch=b, extra=extra, elements=e,
                       points=order)):
      sem, ref = Stub(jnp, e, order), Stub(np, e, order)
      batch = windows(b, k + steps + extra, sem.n, sem.np_)
      for penalty, position, push in ((0., False, 0), (.7, True, steps),
                                      (.1, False, 1)):
        compare(ctx, sem, ref, batch, (.4, .3), steps, k, penalty, position,
                False, push)
        ctx.state('rollout', t, penalty)
      ctx.sample(f'time order {k}, {steps} steps, {b} windows of '
                 f'{k + steps + extra}')


def words(ctx, part):
  """Windows over an alphabet of snapshots, two at a time."""
  import jax
  import jax.numpy as jnp
  from swirl_fem.niles import train
  sem, ref = Stub(jnp, 2, 1), Stub(np, 2, 1)
  top = 4 if ctx.quick else 5
  for k, steps in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (3, 2)):
    length = k + steps
    if length > top:
      continue
    conf = config(ctx, sem, steps, k, False, 0)
    f = jax.jit(lambda batch, w: train.compute_mse_loss(
        batch, {'w': w}, apply_fn(False), jax.random.PRNGKey(0), .3, sem, None,
        None, conf, True))
    for word in list(itertools.product(
        range(2), repeat=2 * length))[part[0]::part[1]]:
      with ctx.case(dict(order=k, steps=steps, word=word)):
        batch = windows(2, length, sem.n, sem.np_, word)
        loss, _ = f({n: jnp.asarray(v) for n, v in batch.items()},
                    jnp.asarray((.4, .3), jnp.float32))
        want, _ = expected(ref, batch, np.float32((.4, .3)), steps, k, False,
                           None, .3)
        ctx.close(loss, want, 2e-5 * max(1, abs(want)), 'loss')
        ctx.state('word', k, steps, word)
        ctx.transition(2 * steps)
        ctx.trace()
        ctx.evaluated(len(set(word)) > 1)


def permuted(ctx, part):
  """With 144 elements, reordered for the model or not."""
  import jax.numpy as jnp
  todo = [(k, steps, b, order) for k in (1, 2, 3) for steps in (1, 2, 3)
          for b in (1, 2) for order in (1, 2)]
  if ctx.quick:
    todo = [t for t in todo if sum(t) % 3 == 0]
  for t in todo[part[0]::part[1]]:
    k, steps, b, order = t
    with ctx.case(dict(permuted=True, order=k, steps=steps, batch=b,
                       points=order)):
      sem, ref = Stub(jnp, 144, order), Stub(np, 144, order)
      batch = windows(b, k + steps, sem.n, sem.np_)
      yes = compare(ctx, sem, ref, batch, (.9, .4), steps, k, 0., False, True)
      no = compare(ctx, sem, ref, batch, (.9, .4), steps, k, 0., False, False)
      ctx.close(yes, no, 1e-5 * abs(float(no)), 'with and without reordering')
      compare(ctx, sem, ref, batch, (.9, .4), steps, k, .5, True, True)
      ctx.state('permuted', t)


def real(ctx, part):
  """The real solver on small periodic meshes."""
  import jax
  import jax.numpy as jnp
  from swirl_fem.common import premesh_commons
  from swirl_fem.navier_stokes import navier_stokes
  grid, order, permute = [(2, 2, False), (2, 3, False), (12, 2, True),
                          (3, 2, False), (3, 3, False), (2, 4, False)][part]
  sem = navier_stokes.StokesSEM.create(
      premesh_commons.unit_cube_mesh(grid, ndim=2, periodic_dims=(0, 1)),
      boundary_conditions={}, order=order)
  x = np.asarray(sem.velocity.mesh.node_coords, np.float64)
  num_p = sem.D(jnp.asarray(x)).shape[0]
  ref = types.SimpleNamespace(
      velocity=types.SimpleNamespace(
          mesh=sem.velocity.mesh,
          gather=lambda u: np.asarray(sem.velocity.gather(jnp.asarray(u))),
          scatter=lambda u: np.asarray(sem.velocity.scatter(jnp.asarray(u)))),
      B=lambda f: np.asarray(sem.B(jnp.asarray(f))),
      C=lambda u: np.asarray(sem.C(jnp.asarray(u))))
  jitted = {k: jax.jit(lambda us, ps, f, k=k: sem.stokes_one_step(
      us, ps, f, 1 / REYNOLDS, DT, k, ALPHA, tol=0, atol=1e-7))
            for k in (1, 2, 3)}
  ref.stokes_one_step = lambda us, ps, f, time_order, **_: jitted[time_order](
      tuple(map(jnp.asarray, us)), tuple(map(jnp.asarray, ps)), jnp.asarray(f))
  for k in (3,) if permute else (1, 2, 3):
    for steps in (1, 3) if ctx.quick or permute else (1, 2, 4):
      with ctx.case(dict(real=(grid, order), time_order=k, steps=steps)):
        b, length = 2, k + steps
        s = np.arange(b * length).reshape(b, length)[..., None]
        a, c = 2 * np.pi * x[:, 0], 2 * np.pi * x[:, 1]
        u = np.stack([np.sin(c + .3 * s) + .2 * np.sin(a), np.cos(a - .2 * s)],
                     -1)
        p = np.sin(.1 * s + np.arange(num_p))
        p = .1 * (p - p.mean(axis=-1, keepdims=True))
        compare(ctx, sem, ref, dict(u=u, p=p, t=s[..., 0] * 1.), (.4, .3),
                steps, k, .1, True, permute, tol=1e-4)
        ctx.state('real', grid, order, k, steps)
        ctx.sample(f'{grid}x{grid} elements of order {order}, {steps} steps')
