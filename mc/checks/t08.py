"""T08: the training program runs as configured and reports what happened."""
import itertools
import os
import shutil
import tempfile
import types

import numpy as np

from mc.checks import t03
from mc.checks import t05

LEVEL = 'model_checking'
RULE = ('The energy of all sums of two unit nodal values (which settle a '
        'quadratic form) against an FFT of Lagrange interpolation by hand; the '
        'spectrum of all unit energies on square grids; the real evaluation '
        'step, on every division of a batch among devices, with the solver of '
        'T03 on the nodes of a real mesh against a roll-out in NumPy; the '
        'whole program, for all intervals of logging and evaluating within '
        'bounds, with every batch different: everything it writes against the '
        'batches it took; the program with the real model and the real solver; '
        'and the published configuration, of which the whole training and '
        'evaluation step is traced with shapes only. Non-trivial: more than '
        'one batch, step or device.')
ASSUMPTIONS = ['Writing event files is clu\'s; what is handed to the writer is '
               'what is checked.',
               'Relative tolerance 1e-4 (the program works in single precision '
               'in part).']


def jobs(tier):
  q = tier == 'quick'
  out = []
  grids = [(2, 2), (1, 3), (2, 3)] if q else [
      (2, 2), (1, 2), (1, 3), (2, 3), (3, 2), (1, 4), (2, 4), (1, 5), (3, 3)]
  for g in grids:
    out.append(dict(name=f'energy {g}', x64=True, cost=30,
                    args=dict(energy=g)))
  out.append(dict(name='spectrum', x64=True, cost=20,
                  args=dict(spectrum=18 if q else 50)))
  n = 2 if q else 6
  for k in range(n):
    out.append(dict(name=f'evaluation {k}', x64=True, devices=4, cost=40,
                    args=dict(evaluation=(k, n))))
  n = 3 if q else 10
  for k in range(n):
    out.append(dict(name=f'reports {k}', x64=True, devices=2, cost=40,
                    args=dict(reports=(k, n))))
  for k in range(2 if q else 4):
    out.append(dict(name=f'program {k}', x64=True, devices=2, cost=120,
                    args=dict(program=k)))
  for k in range(1 if q else 4):
    out.append(dict(name=f'published {k}', x64=True, cost=60,
                    args=dict(published=k)))
  return out


def run(ctx, a):
  for kind in a:
    globals()[kind](ctx, a[kind])


def conf(**kw):
  import ml_collections
  return ml_collections.FrozenConfigDict(kw)


# -- energies -----------------------------------------------------------------


def meshes(grid, order):
  """The solver, the uniform mesh, and the order of its points in a square."""
  from swirl_fem.common import premesh_commons
  from swirl_fem.core.interpolation import Nodes1D
  from swirl_fem.core.interpolation import NodeType
  from swirl_fem.core.mesh_refiner import refine_premesh
  from swirl_fem.navier_stokes import navier_stokes
  from swirl_fem.niles import train
  premesh = lambda: premesh_commons.unit_cube_mesh(grid, periodic_dims=(0, 1))
  sem = navier_stokes.StokesSEM.create(premesh(), boundary_conditions={},
                                       order=order)
  uniform = refine_premesh(premesh(), gridpoints_1d=Nodes1D.create(
      num_points=order + 1, node_type=NodeType.NEWTON_COTES)).finalize()
  square = premesh_commons.unit_cube_mesh(grid * order).finalize()
  return sem, uniform, train.transfer_perm(uniform, square), square


def lagrange(nodes, x):
  return np.array([np.prod([(x - b) / (a - b) for b in nodes if b != a])
                   for a in nodes])


def sampling(mesh, grid, order):
  """Matrix from nodal values to the points (i, j) / (grid * order)."""
  coords = np.asarray(mesh.node_coords, np.float64)
  elements = np.asarray(mesh.elements)
  n = grid * order + 1
  out = np.zeros((n, n, len(coords)))
  done = np.zeros((n, n), bool)
  for e in elements:
    xs = coords[e]
    lo, hi = xs.min(axis=0), xs.max(axis=0)
    ticks = [np.unique(np.round(xs[:, d], 9)) for d in (0, 1)]
    # exact ticks, from the nodes themselves
    ticks = [np.array([xs[np.argmin(abs(xs[:, d] - t)), d] for t in ticks[d]])
             for d in (0, 1)]
    at = {tuple(np.argmin(abs(ticks[d] - x[d])) for d in (0, 1)): v
          for x, v in zip(xs, e)}
    assert len(at) == (order + 1)**2
    for i, j in itertools.product(range(n), repeat=2):
      p = np.array([i, j]) / (n - 1)
      if done[i, j] or (p < lo - 1e-9).any() or (p > hi + 1e-9).any():
        continue
      l = [lagrange(ticks[d], p[d]) for d in (0, 1)]
      for (a, b), v in at.items():
        out[i, j, v] += l[0][a] * l[1][b]
      done[i, j] = True
  assert done.all()
  return out


def energy_of(s, square, u):
  """Energies by wave number, of nodal values (..., N, 2)."""
  n = s.shape[0]
  x = np.einsum('ijn,...nc->...cij', s, u)
  # the order in which the points of the square are numbered
  ij = np.round(np.asarray(square.node_coords) * (n - 1)).astype(int)
  x = x[..., ij[:, 0], ij[:, 1]].reshape(x.shape[:-2] + (n, n))
  f = np.fft.fftshift(np.fft.fft2(x), axes=(-2, -1))
  return .5 * (abs(f)**2).sum(axis=-3)


def energy(ctx, grid_order):
  import functools
  import jax
  import jax.numpy as jnp
  from swirl_fem.niles import train
  grid, order = grid_order
  sem, uniform, perm, square = meshes(grid, order)
  num = sem.velocity.mesh.num_nodes
  s = sampling(sem.velocity.mesh, grid, order)
  n = s.shape[0]
  f = jax.jit(jax.vmap(functools.partial(
      train.get_tke, sem=sem, uniform_mesh=uniform, first_order_perm=perm,
      config=conf(num_nodes=n * n))))
  unit = np.eye(num * 2).reshape(num * 2, num, 2)
  for i in range(num * 2):
    with ctx.case(dict(grid=grid, order=order, value=i)):
      u = unit[i] + unit[i:]
      got, want = np.asarray(f(jnp.asarray(u))), energy_of(s, square, u)
      ctx.close(got, want, 1e-9 * max(1, abs(want).max()), 'energies')
      ctx.state(grid, order, i)
      ctx.transition(len(u))
      ctx.trace()
      ctx.evaluated(True)
  ctx.sample(f'all pairs of {num * 2} nodal values, {grid}x{grid} elements of '
             f'order {order}')


def shells(n):
  """For each wave number: the set of shells that it may be counted in."""
  freq = np.arange(n) - n // 2
  k = np.sqrt(freq[:, None]**2 + freq[None]**2 + 0.)
  edges = np.linspace(0, k.max(), 20)
  out = {}
  for i, j in itertools.product(range(n), repeat=2):
    c = set()
    for d in (-1e-9, 1e-9):
      # |k| at an edge by rounding may be counted on both sides
      c.add(int((edges[1:] <= k[i, j] + d).sum()))
    if k[i, j] == 0:
      c = {0}
    out[i, j] = c
  return edges, out


def spectrum(ctx, top):
  import functools
  import jax
  import jax.numpy as jnp
  from swirl_fem.niles import train
  for n in range(3, top):
    with ctx.case(dict(spectrum=n)):
      f = functools.partial(train.get_energy_spectrum,
                            config=conf(num_nodes=n * n))
      bins, _ = f(jnp.zeros((n, n)))
      edges, where = shells(n)
      ctx.close(bins, edges[1:-1], 1e-9 * n, 'wave numbers')
      unit = jnp.eye(n * n).reshape(n * n, n, n)
      got = np.asarray(jax.vmap(lambda e: f(e)[1])(unit))
      ctx.check(got.shape == (n * n, 18), 'number of shells', got.shape)
      for (i, j), cands in where.items():
        row = got[i * n + j]
        options = [np.eye(20)[c][:18] for c in cands]
        ctx.check(any((row == o).all() for o in options),
                  'shells of a wave number', (i, j), np.nonzero(row), cands)
      ctx.state('spectrum', n)
      ctx.transition(n * n)
      ctx.trace()
      ctx.evaluated(True)
  ctx.sample(f'all grids of up to {top - 1} squared wave numbers')


# -- evaluation ---------------------------------------------------------------


class Mixed(t03.Stub):
  """The solver of T03 on the nodes of a real mesh."""

  def __init__(self, lib, sem):
    mesh = sem.velocity.mesh
    side = int(round(mesh.num_nodes**.5))
    assert side * side == mesh.num_nodes
    super().__init__(lib, mesh.num_nodes, 1)
    self.idx = np.asarray(mesh.elements)
    self.coords = np.asarray(mesh.node_coords, np.float64)
    self.mesh = mesh
    self.put = np.zeros((self.n, self.idx.size))
    w = 1 + .5 * np.cos(np.arange(self.idx.size))
    self.put[self.idx.ravel(), np.arange(self.idx.size)] = w
    self.put /= self.put.sum(axis=1, keepdims=True)
    self.velocity = types.SimpleNamespace(
        mesh=mesh, num_nodes=self.n, gather=self.gather, scatter=self.scatter)


class Model(t05.Model):
  """Used for evaluations too, where the correction has no dropout key."""

  def apply(self, variables, inputs, rngs=None, z_rng=None, train=None):
    assert z_rng is not None
    if train:
      return super().apply(variables, inputs, rngs=rngs, z_rng=z_rng,
                           train=train)
    assert train is False
    return super().apply(variables, inputs, rngs=None, z_rng=z_rng, train=True)


def reference(sem, s, square, batch, w, steps, k, penalty):
  """All metrics of an evaluation of a batch."""
  preds, kls = [], []
  for u, p in zip(batch['u'], batch['p']):
    pr, kl, _ = t05.roll(sem, u, p, w, steps, k, [])
    preds.append(pr)
    kls.append(kl)
  preds, targets = np.array(preds), batch['u'][:, k:k + steps]
  mse = (.5 * (preds - targets)**2).sum(axis=(2, 3)).mean(axis=0)
  mean = lambda name, over: np.mean([over([t[name] for t in x]) for x in kls])
  out = dict(kl_q0=mean('kl_q0', sum), kl_path=mean('kl_path', sum),
             mse=mse.mean())
  out['kl'] = penalty * (out['kl_q0'] + out['kl_path'])
  out['loss'] = mse.sum() + out['kl']
  for n in ('z0_means', 'z1_means', 'z1_stds'):
    out[n] = mean(n, lambda v: abs(v[-1]))
  out['mse@1to8'] = mse[:8].mean()
  for m in (8, 16, 32, 64, 128):
    if m <= steps:
      out[f'mse@{m}'] = mse[m - 1]
  if s is not None:
    n = s.shape[0]
    _, where = shells(n)
    member = np.zeros((20, n, n))
    sure = True
    for (i, j), c in where.items():
      sure &= len(c) == 1 or min(c) >= 18
      member[min(c), i, j] = 1
    assert sure, n
    spec = lambda u: np.einsum(
        'cij,bij->bc', member[:18],
        energy_of(s, square, u[:, steps // 2:]).mean(axis=1))
    with np.errstate(all='ignore'):
      out['tke_err'] = ((np.log(spec(preds)) - np.log(spec(targets)))**2).sum(
          axis=1).mean()
  return out


def compare(ctx, got, want, tol=1e-4):
  for name, v in want.items():
    g = np.asarray(got[name])
    ctx.close(g, np.full(g.shape, v), tol * max(1, abs(v)), name)


def evaluation(ctx, part):
  import functools
  import jax
  import jax.numpy as jnp
  import ml_collections
  import optax
  from flax.training import train_state
  from swirl_fem.niles import train
  sizes = ((7, 2), (5, 3)) if ctx.quick else ((7, 2), (5, 3), (4, 4), (8, 2))
  todo = []
  for size in sizes:
    for k, steps in ((1, 1), (2, 3), (3, 4), (3, 128), (1, 9)) if ctx.quick \
        else itertools.product((1, 2, 3), (1, 2, 3, 4, 8, 9, 33, 128)):
      for b, d in ((1, 1), (2, 1), (2, 2), (4, 2), (4, 4)):
        if ctx.quick and ((k + steps + b + d + size[0]) % 3 or
                          steps * b > 128):
          continue
        todo.append((size, k, steps, b, d))
  have = {}
  for t in todo[part[0]::part[1]]:
    size, k, steps, b, d = t
    if size not in have:
      sem, uniform, perm, square = meshes(*size)
      have[size] = (Mixed(jnp, sem), Mixed(np, sem), uniform, perm, square,
                    sampling(sem.velocity.mesh, *size))
    sem, ref, uniform, perm, square, s = have[size]
    with ctx.case(dict(size=size, order=k, steps=steps, batch=b, devices=d)):
      model = Model()
      config = ml_collections.FrozenConfigDict(dict(
          dict(t03.config(ctx, sem, 1, k, False, 0).items()),
          eval_num_steps=steps))
      batch = t03.windows(b, k + steps + 1, sem.n, sem.np_)
      params = model.init(None, None, None)['params']
      f = jax.pmap(functools.partial(
          train.eval_step, sem=sem, uniform_mesh=uniform,
          first_order_perm=perm, config=config, kl_penalty_fn=lambda s: .1 * s),
                   axis_name='batch', devices=jax.devices()[:d])
      state = train_state.TrainState.create(
          apply_fn=model.apply, params=params, tx=optax.sgd(1.)).replace(
              step=jnp.asarray(7))
      got = f(t05.replicate(state, d), t05.split(batch, d),
              eval_rng=t05.rngs(0, d))
      want = reference(ref, s, square, batch, t05.flat(params), steps, k, .7)
      ctx.check(np.isfinite(want['tke_err']), 'a spectrum without zeros')
      compare(ctx, got, want)
      ctx.state(t)
      ctx.transition(steps * b)
      ctx.trace()
      ctx.evaluated(True)
      ctx.sample(f'{steps} steps of {b} windows on {d} devices, {size}')


# -- the program --------------------------------------------------------------


class Writer:

  def __init__(self):
    self.log = []

  def write_scalars(self, step, scalars):
    self.log.append((int(step), {k: float(np.asarray(v))
                                 for k, v in scalars.items()}))

  def flush(self):
    pass

  def __getattr__(self, name):
    return lambda *args, **kw: None


def prepare(train):
  """Leaves out the profiler and catches what is written."""
  from absl import flags
  if not flags.FLAGS.is_parsed():
    flags.FLAGS(['x'])
  writers = []

  def create(*args, **kw):
    writers.append(Writer())
    return writers[-1]

  train.metric_writers.create_default_writer = create
  train.periodic_actions.Profile = lambda **kw: lambda step: None
  return writers


def base_config(**kw):
  import ml_collections
  from swirl_fem.niles.config import niles
  out = ml_collections.ConfigDict(niles.get_config().to_dict(),
                                  type_safe=False)
  out.update(kw)
  return out


def sizes_of(grid, order):
  return dict(element_grid_size=grid, order=order, resolution=grid * order,
              num_nodes=(grid * order + 1)**2, num_elements=grid**2,
              num_channels=(order + 1)**2 * 2)


def iterators(split, batches):
  """A batch iterator of the given batches, over and over."""
  import tensorflow as tf
  tensors = [{n: tf.constant(v) for n, v in b.items()} for b in batches]
  return itertools.cycle(tensors)


def reports(ctx, part):
  """What is written when, from which batches."""
  import jax.numpy as jnp
  import ml_collections
  import tensorflow_datasets as tfds
  from swirl_fem.navier_stokes import navier_stokes
  from swirl_fem.niles import input_pipeline
  from swirl_fem.niles import train
  writers = prepare(train)
  grid, order, k, steps, eval_steps, b = 5, 3, 3, 2, 3, 2
  sem, _, _, square = meshes(grid, order)
  s = sampling(sem.velocity.mesh, grid, order)
  mixed, ref = Mixed(jnp, sem), Mixed(np, sem)
  real_create = navier_stokes.StokesSEM.create
  navier_stokes.StokesSEM.create = lambda *args, **kw: mixed
  model = Model()
  train.create_model = lambda *args, **kw: model
  letters = lambda start, length: [
      t03.windows(b, length, mixed.n, mixed.np_,
                  np.arange(b * length) + start + 40 * i) for i in range(3)]
  data = {True: letters(0, k + steps), False: letters(200, k + eval_steps)}
  tensors = {t: iterators(t, data[t]) for t in data}
  input_pipeline.create_split = lambda batch_size, train, config: iterators(
      train, data[train])
  w = t05.flat(model.init(None, None, None)['params'])
  known = {}

  def metrics(training, i, penalty):
    key = training, i % 3
    if key not in known:
      known[key] = (
          reference(ref, None, square, data[True][i % 3], w, steps, k, 0.)
          if training else
          reference(ref, s, square, data[False][i % 3], w, eval_steps, k, 0.))
    out = dict(known[key])
    out['kl'] = penalty * (out['kl_q0'] + out['kl_path'])
    out['loss'] = out['loss'] + out['kl']
    if training:
      out = {n: v for n, v in out.items() if '@' not in n}
      out['kl_penalty'], out['learning_rate'] = penalty, 0.
    return out

  def mean(many):
    return {n: np.mean([m[n] for m in many]) for n in many[0]}

  top = 4 if ctx.quick else 7
  todo = []
  # (batches in an epoch, interval of logs, of evaluations in epochs, batches
  # of an evaluation, steps, step at which the program was started again)
  for per, log, every, num, total in itertools.product(
      (1, 2, 4), (1, 2, 3), (.5, 1, 2), (1, 2), range(3, top + 1)):
    for cut in range(3):
      between = int(per * every)
      if not between or cut and between > 1 and cut % between == 0:
        continue
      if ctx.quick and (per + log + 2 * every + num + total) % (
          5 if cut and between in (2, 3) and log > 1 else 11):
        continue
      todo.append((per, log, every, num, total, cut))
  try:
    for t in todo[part[0]::part[1]]:
      per, log, every, num, total, cut = t
      tmp = tempfile.mkdtemp(dir=ctx.scratch)
      try:
        with ctx.case(dict(per_epoch=per, log=log, every=every, batches=num,
                           steps=total, restart=cut)):
          input_pipeline.NUM_SPLIT_EXAMPLES[tfds.Split.TRAIN] = 24 * (
              per * b + k + steps - 1)
          config = lambda total: ml_collections.FrozenConfigDict(base_config(
              batch_size=b, **sizes_of(grid, order), permute_elements=False,
              num_steps=steps, num_pushforward_steps=0,
              eval_num_steps=eval_steps, train_window_size=k + steps,
              eval_window_size=k + eval_steps, debug=True, cache=False,
              train_window_stride=1, eval_every_epochs=every,
              log_every_steps=log, learning_rate=0., time_order=k,
              reynolds_number=t03.REYNOLDS, drag_coeff=t03.DRAG, dt=t03.DT,
              alpha=t03.ALPHA, num_train_steps=total, steps_per_eval=num,
              checkpoint_epochs=9, kl_penalty=.4, kl_transition_epochs=8 / per,
              kl_zero_epochs=0))
          per_epoch = input_pipeline.get_num_examples(
              tfds.Split.TRAIN, window_size=k + steps, window_stride=1,
              debug=True) // b
          ctx.check(per_epoch == per, 'batches in an epoch', per_epoch, per)
          for end in [cut] * (cut > 0) + [total]:
            state = train.train_and_evaluate(config(end), tmp)
            ctx.equal(int(np.asarray(state.step)[0]), end, 'steps')
          pen = lambda i: .4 * min(i / 8, 1)
          want, at = [], 0
          for i in range(cut + 1, total + 1):
            if i % log == 0:
              want.append((i, 'train_', mean(
                  [metrics(True, j - cut, pen(j))
                   for j in range(max(i - log, cut), i)])))
            if i % int(per * every) == 0:
              want.append((i, 'eval_', mean(
                  [metrics(False, at + j, pen(i)) for j in range(num)])))
              at += num
          # in whichever order, but each by itself
          got = [(i, 'eval_' if any(n.startswith('eval_') for n in m)
                  else 'train_', m) for i, m in writers[-1].log]
          ctx.check([g[:2] for g in got] == [x[:2] for x in want],
                    'what is written', [g[:2] for g in got],
                    [x[:2] for x in want])
          for (_, _, g), (_, prefix, x) in zip(got, want):
            compare(ctx, g, {prefix + n: v for n, v in x.items()})
          ctx.state(t)
          ctx.transition(total)
          ctx.trace()
          ctx.evaluated(True)
          ctx.sample(f'{total} steps, {per} an epoch, a log every {log}, an '
                     f'evaluation of {num} batches every {every} epochs')
      finally:
        shutil.rmtree(tmp, ignore_errors=True)
  finally:
    navier_stokes.StokesSEM.create = real_create


def program(ctx, which):
  """Everything real but the data."""
  import jax
  import jax.numpy as jnp
  import ml_collections
  import tensorflow_datasets as tfds
  from swirl_fem.niles import input_pipeline
  from swirl_fem.niles import train
  samples = (0, 2, 0, 2)[which]
  grid, order = (2, 2) if which < 2 else (2, 3)
  writers = prepare(train)
  k, steps, eval_steps, b = 3, 2, 2, 2
  sem, _, _, _ = meshes(grid, order)
  x = np.asarray(sem.velocity.mesh.node_coords, np.float64)
  num_p = sem.pressure.pspace.mesh.num_nodes

  def window(start, length):
    s = (np.arange(b * length).reshape(b, length) + start)[..., None] * .7
    u = np.stack([np.sin(2 * np.pi * x[:, 1] + s) + .3,
                  np.cos(2 * np.pi * x[:, 0] - s)], -1)
    p = .1 * np.sin(s + np.arange(num_p))
    return dict(u=u, p=p - p.mean(axis=-1, keepdims=True), t=s[..., 0])

  data = {t: [window(9 * i + (100 if t else 0), k + n) for i in range(2)]
          for t, n in ((True, steps), (False, eval_steps))}
  stop = [None]

  def create_split(batch_size, train, config):
    assert batch_size == b
    for i, batch in enumerate(iterators(train, data[train])):
      if train and i == stop[0]:
        raise t05.Crash()
      yield batch

  input_pipeline.create_split = create_split
  input_pipeline.NUM_SPLIT_EXAMPLES[tfds.Split.TRAIN] = 24 * (
      b + k + steps - 1)
  total = 3
  config = base_config(
      batch_size=b, **sizes_of(grid, order), permute_elements=False,
      num_steps=steps, num_pushforward_steps=1, eval_num_steps=eval_steps,
      train_window_size=k + steps, eval_window_size=k + eval_steps, debug=True,
      cache=False, train_window_stride=1, eval_every_epochs=3,
      log_every_steps=1, time_order=k, reynolds_number=10., dt=.01,
      num_train_steps=total, steps_per_eval=2, checkpoint_epochs=1)
  config.model.update(dict(
      width=4, depth=2, pooling_layers=(1,), pooling_kernel=(1, 2),
      initial_kv_pooling_strides=(1, 2), pooling_strides_q=(1, 2),
      qkv_tile_reps=(2, 1), mean_after_decoder=samples > 0))
  config.model.processor_config.update(dict(
      num_samples=samples, data_size=16, latent_size=8, num_gridpoints=2))
  config = ml_collections.FrozenConfigDict(config)

  def go(workdir, crash=None, evaluate=True):
    stop[0] = crash
    conf = config if evaluate else ml_collections.FrozenConfigDict(
        dict(config.to_dict(), eval_every_epochs=1000))
    try:
      state = train.train_and_evaluate(conf, workdir)
    except t05.Crash:
      return None
    return state, writers[-1].log

  flatten = lambda tree: np.concatenate([
      np.ravel(np.asarray(v)[0]) for v in jax.tree_util.tree_leaves(tree)])
  first = None
  for crashes in ((), (2,)) if ctx.quick else (
      (), (), (0,), (1,), (2,), (1, 1), (2, 1), (3,)):
    tmp = tempfile.mkdtemp(dir=ctx.scratch)
    try:
      with ctx.case(dict(program=which, crashes=crashes)):
        for c in crashes:
          if go(tmp, c, False) is not None:
            break
        out = go(tmp, evaluate=not crashes)
        ctx.check(out is not None, 'the program ends')
        state, log = out
        ctx.check(int(np.asarray(state.step)[0]) == total, 'number of steps')
        params = flatten(state.params)
        ctx.check(np.isfinite(params).all(), 'parameters are numbers')
        last = [m for i, m in log if i == total and 'eval_loss' in m]
        losses = [m['train_loss'] for _, m in log if 'train_loss' in m]
        ctx.check(np.isfinite(losses).all(), 'losses are numbers', losses)
        if first is None:
          first = params, losses, last
          ctx.check(len(losses) == total and len(last) == 1, 'reports', log)
          begin = train.initialized(
              jax.random.split(jax.random.PRNGKey(0))[0],
              config.num_elements, config.num_channels,
              train.create_model(config.model_name, config.model))
          ctx.check(len(flatten(jax.tree_util.tree_map(
              lambda v: v[None], begin))) == len(params),
                    'number of parameters')
          if samples == 0:
            direct(ctx, sem, config, state, data, last[0], k, eval_steps)
        scale = abs(first[0]).max()
        ctx.close(params, first[0], 1e-4 * scale, 'parameters')
        if losses:
          ctx.close(losses, first[1][-len(losses):], 1e-3 * max(first[1]),
                    'losses of the rest of the run')
        ctx.state('program', which, crashes)
        ctx.transition(total)
        ctx.trace()
        ctx.evaluated(True)
        ctx.sample(f'the whole program with {samples} samples, interrupted at '
                   f'{crashes}')
    finally:
      shutil.rmtree(tmp, ignore_errors=True)


def direct(ctx, sem, config, state, data, log, k, steps):
  """The evaluation of the last state, with the model called by hand."""
  import jax
  import jax.numpy as jnp
  from swirl_fem.niles import train
  model = train.create_model(config.model_name, config.model)
  params = jax.tree_util.tree_map(lambda v: np.asarray(v)[0], state.params)
  apply = jax.jit(lambda x: model.apply({'params': params}, x[None],
                                        z_rng=jax.random.PRNGKey(1))[0][0])
  solve = jax.jit(lambda us, ps, f: sem.stokes_one_step(
      us, ps, f, 1 / config.reynolds_number, config.dt, k, config.alpha, tol=0,
      atol=1e-7))
  mse = []
  for batch in data[False]:
    for u, p in zip(batch['u'], batch['p']):
      us, ps = list(map(jnp.asarray, u[:k])), list(map(jnp.asarray, p[:k]))
      for i in range(steps):
        x = np.asarray(sem.velocity.gather(us[-1]), np.float32)
        f = np.asarray(apply(jnp.asarray(x.reshape(x.shape[0], -1))),
                       np.float64)
        f = sem.velocity.scatter(jnp.asarray(f.reshape(x.shape)))
        c = np.asarray(sem.velocity.mesh.node_coords)
        f = f + np.stack([np.sin(8 * np.pi * c[:, 1]), 0 * c[:, 1]],
                         1) - config.drag_coeff * us[-1]
        ext = sum(e * sem.C(v) for e, v in zip(t03.EXT[k], us[-k:]))
        un, pn, _ = solve(tuple(us[-k:]), tuple(ps[-k:]), sem.B(f) - ext)
        us.append(un)
        ps.append(pn)
        mse.append(.5 * ((np.asarray(un) - u[k + i])**2).sum())
  ctx.close(log['eval_mse'], np.mean(mse), 1e-3 * np.mean(mse), 'mse')


def published(ctx, which):
  """The published configuration fits together; only shapes are computed."""
  import functools
  import jax
  import jax.numpy as jnp
  import ml_collections
  from flax.training import train_state
  from swirl_fem.niles import train
  from clu import parameter_overview
  from swirl_fem.niles.config import niles
  parameter_overview.log_parameter_overview = lambda *args, **kw: None
  variants = [{}]
  niles.sweep(lambda **kw: variants.append(kw))
  with ctx.case(dict(published=which)):
    ctx.check(len(variants) == 4, 'number of variants', len(variants))
    config = niles.get_config()
    config.update_from_flattened_dict(variants[which])
    config = ml_collections.FrozenConfigDict(config)
    grid, order = config.element_grid_size, config.order
    for n, v in sizes_of(grid, order).items():
      ctx.check(config[n] == v, n, config[n], v)
    ctx.check(config.train_window_size == config.num_steps + config.time_order
              and config.eval_window_size == config.eval_num_steps
              + config.time_order, 'sizes of windows')
    model = train.create_model(config.model_name, config.model)
    sem, uniform, perm, _ = meshes(grid, order)
    num_p = sem.pressure.pspace.mesh.num_nodes
    num = sem.velocity.mesh.num_nodes
    key = jax.random.PRNGKey(0)
    state = jax.eval_shape(lambda key: train.create_train_state(
        key, model, lambda s: .1, lambda s: .1, config), key)
    for training in (True, False):
      length = config.train_window_size if training else config.eval_window_size
      batch = dict(u=jax.ShapeDtypeStruct((2, length, num, 2), jnp.float64),
                   p=jax.ShapeDtypeStruct((2, length, num_p), jnp.float64))
      kw = dict(sem=sem, config=config, kl_penalty_fn=lambda s: .1)
      if training:
        f = functools.partial(train.train_step, learning_rate_fn=lambda s: .1,
                              **kw)
        out, metrics = one(lambda s, b, r: f(s, b, train_rng=r))(
            state, batch, key)
        same = jax.tree_util.tree_map(
            lambda a, b: a.shape == b.shape, state.params, out.params)
        ctx.check(all(jax.tree_util.tree_leaves(same)), 'shapes of parameters')
      else:
        f = functools.partial(train.eval_step, uniform_mesh=uniform,
                              first_order_perm=perm, **kw)
        metrics = one(lambda s, b, r: f(s, b, eval_rng=r))(state, batch, key)
      for n, v in metrics.items():
        ctx.check(v.shape == (), f'shape of {n}', v.shape)
      ctx.transition(config.num_steps)
    reported = {('train_' if i else 'eval_') + n
                for i in (0, 1) for n in ('loss', 'mse', 'z0_means')}
    ctx.check(reported <= set(niles.metrics()), 'names of metrics')
    ctx.state('published', which)
    ctx.trace()
    ctx.evaluated(True)
    ctx.sample(f'published configuration, variant {variants[which]}')


def one(f):
  """Shapes of f with the axis `batch` of one device."""
  import jax

  def g(*args):
    lead = jax.tree_util.tree_map(
        lambda x: jax.ShapeDtypeStruct((1,) + x.shape, x.dtype), args)
    out = jax.eval_shape(jax.vmap(f, axis_name='batch'), *lead)
    return jax.tree_util.tree_map(
        lambda x: jax.ShapeDtypeStruct(x.shape[1:], x.dtype), out)

  return g
