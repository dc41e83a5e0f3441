"""T05: a training step follows the gradient of the whole batch, restartably."""
import itertools
import shutil
import tempfile
import os

import numpy as np

from mc.checks import t03

LEVEL = 'model_checking'
RULE = ('The real training step, on every division of a batch among devices, '
        'with the solver of T03 which mixes all of its arguments and a small '
        'model of corrections: its gradient against central differences of a '
        'roll-out in NumPy in double precision in which the corrections of the '
        'pushforward steps are held fixed; whole histories (all words over an '
        'alphabet of batches, with a checkpoint and a restart at every '
        'position) against the optimiser by its definition; all random keys '
        'handed to the model. Non-trivial: more than one device or step.')
ASSUMPTIONS = ['Batches are a multiple of the number of devices. Corrections '
               'are single precision; gradients within 2e-3 of their largest '
               'component.', 'Writing a checkpoint file itself is flax\'s.']

t03_config = t03.config


def jobs(tier):
  q = tier == 'quick'
  out = []
  n = 6 if q else 16
  for k in range(n):
    out.append(dict(name=f'gradient {k}', x64=True, devices=4, cost=40,
                    args=dict(gradient=(k, n))))
  n = 3 if q else 8
  for k in range(n):
    out.append(dict(name=f'history {k}', x64=False, devices=4, cost=40,
                    args=dict(history=(k, n))))
  n = 6 if q else 16
  for k in range(n):
    out.append(dict(name=f'loop {k}', x64=True, devices=2, cost=60,
                    args=dict(loop=(k, n))))
  out.append(dict(name='keys', x64=False, devices=4, cost=20,
                  args=dict(keys=1)))
  out.append(dict(name='checkpoints', x64=False, devices=2, cost=20,
                  args=dict(checkpoints=1)))
  return out


def run(ctx, a):
  for kind in a:
    globals()[kind](ctx, a[kind])


# -- the model of corrections: parameters {'a': (2,), 'b': {'c': (3,)}} ------


def correct(lib, a, c, x, t=None):
  """(E, C) -> (E, C)"""
  n = x.shape[-1]
  m = lib.asarray(np.sin(np.arange(n * n).reshape(n, n) + .3) / n, x.dtype)
  bias = lib.asarray(np.cos(np.arange(n)), x.dtype)
  return a[0] * lib.tanh(x @ m * (1 + c[0])) + a[1] * bias + c[1] * x


def kl(lib, a, c, x):
  return (dict(kl_q0=(x * x).mean() * (1 + c[2]**2), kl_path=(c[2] - a[0])**2,
               z0_means=x[0, 0] - 3., z1_means=x[-1, -1] * 2,
               z1_stds=abs(x).max()))


class Model:
  """As a flax module, to the extent that the trainer uses it."""

  def __init__(self, seen=None):
    import jax.numpy as jnp
    self.dtype = jnp.float32
    self.seen = seen

  def init(self, rngs, x, z_rng):
    import jax.numpy as jnp
    return {'params': {'a': jnp.asarray([.4, .3], jnp.float32),
                       'b': {'c': jnp.asarray([.1, -.2, .5], jnp.float32)}}}

  def apply(self, variables, inputs, rngs=None, z_rng=None, train=None):
    import jax
    import jax.numpy as jnp
    assert train is True
    p = variables['params']
    if self.seen is not None:
      data = lambda k: jax.random.key_data(k) if jnp.issubdtype(
          k.dtype, jax.dtypes.prng_key) else k
      jax.debug.callback(
          lambda z, d: self.seen.append((tuple(map(int, np.ravel(z))),
                                         tuple(map(int, np.ravel(d))))),
          data(z_rng), data(rngs['dropout']))
    out = jax.vmap(lambda x: correct(jnp, p['a'], p['b']['c'], x))(inputs)
    aux = jax.vmap(lambda x: kl(jnp, p['a'], p['b']['c'], x))(inputs)
    return out.astype(jnp.float32), {
        k: v.astype(jnp.float32) for k, v in aux.items()}


def flat(params):
  return np.concatenate([np.ravel(np.asarray(params['a'], np.float64)),
                         np.ravel(np.asarray(params['b']['c'], np.float64))])


# -- the loss by definition ---------------------------------------------------


def roll(sem, u, p, w, steps, k, forced):
  """One window: predictions, KL terms, and corrections; float64."""
  us, ps, fs, kls = list(u[:k]), list(p[:k]), [], []
  for i in range(steps):
    x = sem.velocity.gather(us[-1])
    x = x.reshape(x.shape[0], -1)
    f = correct(np, w[:2], w[2:], x) if i >= len(forced) else forced[i]
    kls.append(kl(np, w[:2], w[2:], x))
    fs.append(f)
    f = sem.velocity.scatter(f.reshape(f.shape[0], -1, 2))
    c = sem.velocity.mesh.node_coords
    f = f + np.stack([np.sin(8 * np.pi * c[:, 1]), 0 * c[:, 1]],
                     1) - t03.DRAG * us[-1]
    ext = sum(e * sem.C(v) for e, v in zip(t03.EXT[k], us[-k:]))
    un, pn, _ = sem.stokes_one_step(
        us[-k:], ps[-k:], sem.B(f) - ext, mu=1 / t03.REYNOLDS, dt=t03.DT,
        time_order=k, alpha=t03.ALPHA)
    us.append(un)
    ps.append(pn)
  return np.array(us[k:]), kls, fs


def loss_of(sem, batch, w, steps, k, penalty, forced):
  total = 0.
  for n, (u, p) in enumerate(zip(batch['u'], batch['p'])):
    pred, kls, _ = roll(sem, u, p, w, steps, k, forced[n])
    total += .5 * ((pred - u[k:k + steps])**2).sum()
    total += penalty * sum(t['kl_q0'] + t['kl_path'] for t in kls)
  return total / len(batch['u'])


def gradient_of(sem, batch, w, steps, k, penalty, push):
  forced = [roll(sem, u, p, w, steps, k, [])[2][:push]
            for u, p in zip(batch['u'], batch['p'])]
  g = []
  for e in np.eye(len(w)) * 1e-5:
    g.append((loss_of(sem, batch, w + e, steps, k, penalty, forced)
              - loss_of(sem, batch, w - e, steps, k, penalty, forced)) / 2e-5)
  return loss_of(sem, batch, w, steps, k, penalty, forced), np.array(g)


def split(batch, d):
  return {n: np.asarray(v).reshape((d, -1) + np.shape(v)[1:])
          for n, v in batch.items()}


def step_fn(sem, conf, lr, pen, d):
  import functools
  import jax
  from swirl_fem.niles import train
  return jax.pmap(functools.partial(
      train.train_step, sem=sem, config=conf, learning_rate_fn=lr,
      kl_penalty_fn=pen), axis_name='batch', devices=jax.devices()[:d])


def replicate(state, d):
  import jax
  from flax import jax_utils
  return jax_utils.replicate(state, jax.devices()[:d])


def rngs(seed, d):
  import jax
  return jax.random.split(jax.random.PRNGKey(seed), d)


def replicas(ctx, state, d):
  """Params of one replica, all being the same."""
  import jax
  for leaf in jax.tree_util.tree_leaves((state.params, state.opt_state,
                                         state.step)):
    leaf = np.asarray(leaf)
    ctx.check(leaf.shape[0] == d, 'number of replicas', leaf.shape)
    for x in leaf[1:]:
      ctx.equal(x, leaf[0], 'replicas differ')
  return jax.tree_util.tree_map(lambda x: np.asarray(x)[0], state.params)


def gradient(ctx, part):
  import jax.numpy as jnp
  import optax
  from flax.training import train_state
  todo = []
  for k, steps in itertools.product((1, 2, 3), (1, 2, 3)
                                    if ctx.quick else (1, 2, 3, 4)):
    for push in range(steps + 1):
      for b, d in ((1, 1), (2, 2), (4, 1), (4, 2), (4, 4)):
        if ctx.quick and (k + steps + push + b + d) % 5 not in (
            (0, 3) if push < steps else (1,)):
          continue
        todo.append((k, steps, push, b, d))
  for t in todo[part[0]::part[1]]:
    k, steps, push, b, d = t
    with ctx.case(dict(order=k, steps=steps, pushforward=push, batch=b,
                       devices=d)):
      model = Model()
      sem, ref = t03.Stub(jnp, 3, 1), t03.Stub(np, 3, 1)
      conf = t03.config(ctx, sem, steps, k, False, push)
      batch = t03.windows(b, k + steps + 1, sem.n, sem.np_)
      params = model.init(None, None, None)['params']
      at = 7
      f = step_fn(sem, conf, lambda s: .01 * s, lambda s: .1 * s, d)
      state = train_state.TrainState.create(
          apply_fn=model.apply, params=params, tx=optax.sgd(1.)).replace(
              step=jnp.asarray(at))
      new, metrics = f(replicate(state, d), split(batch, d),
                       train_rng=rngs(0, d))
      w = flat(params)
      loss, g = gradient_of(ref, batch, w, steps, k, .1 * at, push)
      got = w - flat(replicas(ctx, new, d))
      scale = max(abs(g).max(), 1e-3)
      ctx.close(got, g, 2e-3 * scale + 2e-6, 'gradient')
      ctx.equal(np.asarray(new.step), np.full(d, at + 1), 'step')
      for name, v, tol in (('loss', loss, 3e-5 * abs(loss)),
                           ('learning_rate', .01 * at, 1e-6),
                           ('kl_penalty', .1 * at, 1e-6)):
        ctx.close(np.asarray(metrics[name]), np.full(d, v), tol, name)
      _, terms = t03_terms(ref, batch, w, steps, k, .1 * at)
      for name, v in terms.items():
        ctx.close(np.asarray(metrics[name]), np.full(d, v),
                  3e-5 * max(1, abs(v)), name)
      ctx.state(t)
      ctx.transition(steps * b)
      ctx.trace()
      ctx.evaluated(d > 1 or steps > 1)
      ctx.sample(f'time order {k}, {steps} steps, {push} of them pushforward, '
                 f'{b} windows on {d} devices')


def t03_terms(ref, batch, w, steps, k, penalty):
  mse, kls = [], []
  for u, p in zip(batch['u'], batch['p']):
    pred, kl_, _ = roll(ref, u, p, w, steps, k, [])
    mse.append(.5 * ((pred - u[k:k + steps])**2).sum(axis=(1, 2)).mean())
    kls.append(kl_)
  mean = lambda f: float(np.mean([f(x) for x in kls]))
  out = dict(mse=float(np.mean(mse)),
             kl_q0=mean(lambda x: sum(s['kl_q0'] for s in x)),
             kl_path=mean(lambda x: sum(s['kl_path'] for s in x)))
  out['kl'] = penalty * (out['kl_q0'] + out['kl_path'])
  return None, out


# -- histories ----------------------------------------------------------------


class AdamW:
  """By definition, with clipping by the global norm."""

  def __init__(self, clip, decay):
    self.clip, self.decay, self.m, self.v, self.t = clip, decay, 0., 0., 0

  def step(self, w, g, lr):
    norm = np.sqrt((g * g).sum())
    if self.clip is not None and norm > self.clip:
      g = g * self.clip / norm
    self.t += 1
    self.m = .9 * self.m + .1 * g
    self.v = .95 * self.v + .05 * g * g
    m = self.m / (1 - .9**self.t)
    v = self.v / (1 - .95**self.t)
    return w - lr * (m / (np.sqrt(v) + 1e-6) + self.decay * w)


def history(ctx, part):
  import jax
  import jax.numpy as jnp
  import ml_collections
  from swirl_fem.niles import train
  k, steps, b, push = 2, 2, 4, 1
  length = 3 if ctx.quick else 4
  sem, ref = t03.Stub(jnp, 3, 1), t03.Stub(np, 3, 1)
  letters = [t03.windows(b, k + steps, sem.n, sem.np_, w)
             for w in (range(16), range(20, 36))]
  lr = lambda s: .02 * (s + 1.)
  pen = lambda s: .3 - .02 * s
  todo = [(clip, decay, d) for clip in (None, .01, 1e6) for decay in (0., .5)
          for d in (1, 2, 4)]
  if ctx.quick:
    todo = [t for i, t in enumerate(todo) if i % 3 == (i // 3) % 3]
  for clip, decay, d in todo[part[0]::part[1]]:
    model = Model()
    base = dict(t03.config(ctx, sem, steps, k, False, push).items())
    conf = ml_collections.FrozenConfigDict(dict(
        base, grad_clip_norm=clip, weight_decay=decay))
    fresh = lambda: train.create_train_state(
        jax.random.PRNGKey(0), model, lr, lr, conf)
    f = step_fn(sem, conf, lr, pen, d)
    keys = rngs(1, d)
    top = length
    for word in itertools.product(range(2), repeat=top):
      key = dict(clip=clip, decay=decay, devices=d, word=word)
      with ctx.case(key):
        tmp = tempfile.mkdtemp(dir=ctx.scratch)
        try:
          state = replicate(fresh(), d)
          w = flat(replicas(ctx, state, d))
          opt, seen = AdamW(clip, decay), [w]
          for i, letter in enumerate(word):
            state, _ = f(state, split(letters[letter], d), train_rng=keys)
            _, g = gradient_of(ref, letters[letter], w, steps, k, pen(i), push)
            w = opt.step(w, g, lr(i))
            got = flat(replicas(ctx, state, d))
            ctx.close(got, w, 4e-4, f'parameters after step {i + 1}')
            w = got
            seen.append(got)
            train.save_checkpoint(state, os.path.join(tmp, f'at{i + 1}'))
            ctx.state('history', clip, decay, d, word[:i + 1])
            ctx.transition()
          # crash after each step, and continue from the checkpoint
          for cut in range(1, top):
            if ctx.quick and cut % 2 != sum(word) % 2:
              continue
            state = train.restore_checkpoint(
                fresh(), os.path.join(tmp, f'at{cut}'))
            ctx.equal(np.asarray(state.step), cut, 'step of the checkpoint')
            ctx.equal(flat(state.params), seen[cut], 'restored parameters')
            state = replicate(state, d)
            for i in range(cut, top):
              state, _ = f(state, split(letters[word[i]], d), train_rng=keys)
              ctx.close(flat(replicas(ctx, state, d)), seen[i + 1], 1e-6,
                        f'step {i + 1} after a restart at {cut}')
              ctx.transition()
            ctx.trace()
            ctx.evaluated(True)
        finally:
          shutil.rmtree(tmp, ignore_errors=True)
        ctx.trace()
        ctx.evaluated(True)
        ctx.sample(key)


def checkpoints(ctx, _):
  """The checkpoint with the most steps is the one restored."""
  import jax
  import jax.numpy as jnp
  import optax
  from flax.training import train_state
  from swirl_fem.niles import train
  model = Model()
  state = train_state.TrainState.create(
      apply_fn=model.apply, params=model.init(None, None, None)['params'],
      tx=optax.adamw(.1))
  for steps in itertools.combinations((1, 2, 9, 10, 99, 100, 1000), 2):
    with ctx.case(dict(checkpoints=steps)):
      tmp = tempfile.mkdtemp(dir=ctx.scratch)
      try:
        with_step = lambda s: state.replace(
            step=jnp.asarray(s), params=jax.tree_util.tree_map(
                lambda x: x * s, state.params))
        ctx.equal(np.asarray(train.restore_checkpoint(state, tmp).step), 0,
                  'nothing to restore')
        for s in steps:
          train.save_checkpoint(replicate(with_step(s), 2), tmp)
          got = train.restore_checkpoint(state, tmp)
          ctx.equal(np.asarray(got.step), s, 'latest step')
          ctx.equal(flat(got.params), flat(with_step(s).params), 'parameters')
          ctx.transition()
        ctx.state('checkpoints', steps)
        ctx.trace()
        ctx.evaluated(True)
      finally:
        shutil.rmtree(tmp, ignore_errors=True)


def keys(ctx, _):
  """No random key is ever used twice, and runs are reproducible."""
  import jax
  import jax.numpy as jnp
  import optax
  from flax.training import train_state
  for d, steps, length in ((1, 1, 3), (1, 3, 3), (2, 2, 3), (4, 2, 2)):
    with ctx.case(dict(keys=d, steps=steps, length=length)):
      runs = []
      for _ in range(2):
        seen = []
        model = Model(seen)
        sem = t03.Stub(jnp, 3, 1)
        conf = t03.config(ctx, sem, steps, 2, False, 0)
        batch = t03.windows(4, 2 + steps, sem.n, sem.np_)
        state = replicate(train_state.TrainState.create(
            apply_fn=model.apply, params=model.init(None, None, None)['params'],
            tx=optax.sgd(.01)), d)
        f = step_fn(sem, conf, lambda s: .1, lambda s: .1, d)
        for _ in range(length):
          state, _ = f(state, split(batch, d), train_rng=rngs(3, d))
          jax.block_until_ready(state.params)
          jax.effects_barrier()
        runs.append(sorted(set(seen)))
        # the same step may be computed more than once
        zs, ds = {z for z, _ in seen}, {k for _, k in seen}
        want = d * steps * length
        ctx.check(len(set(seen)) == want, 'number of different keys', want,
                  len(set(seen)))
        ctx.check(len(zs) == want and len(ds) == want and not zs & ds,
                  'a key is used twice', want, len(zs), len(ds), len(zs & ds))
        ctx.transition(want)
        ctx.trace()
        ctx.evaluated(True)
      ctx.check(runs[0] == runs[1], 'runs differ')
      ctx.state('keys', d, steps, length)


class Crash(Exception):
  pass


class Program:
  """The whole training program, on batches which are all the same."""

  def __init__(self, ctx):
    from absl import flags
    import jax
    import jax.numpy as jnp
    import ml_collections
    from swirl_fem.navier_stokes import navier_stokes
    from swirl_fem.niles import input_pipeline
    from swirl_fem.niles import train
    from swirl_fem.niles.config import niles
    import tensorflow as tf
    import tensorflow_datasets as tfds
    if not flags.FLAGS.is_parsed():
      flags.FLAGS(['x'])
    self.train, self.ip, self.tfds, self.jax = train, input_pipeline, tfds, jax
    sem = t03.Stub(jnp, 4, 1)
    navier_stokes.StokesSEM.create = lambda *args, **kw: sem
    base = ml_collections.ConfigDict(
        niles.get_config().to_dict(), type_safe=False)
    base.update(dict(
        element_grid_size=2, order=2, num_elements=4, num_channels=4,
        num_nodes=sem.n, resolution=4, permute_elements=False, num_steps=1,
        num_pushforward_steps=0, eval_num_steps=1, train_window_size=4,
        eval_window_size=4, debug=True, cache=False, train_window_stride=1,
        eval_every_epochs=1e6, log_every_steps=2, learning_rate=1.,
        time_order=3, reynolds_number=t03.REYNOLDS, drag_coeff=t03.DRAG,
        dt=t03.DT, alpha=t03.ALPHA))
    self.base = base
    self.config = lambda **kw: ml_collections.FrozenConfigDict(
        dict(base.to_dict(), **kw))
    batch = t03.windows(1, 4, sem.n, sem.np_)
    self.u, self.p = batch['u'][0], batch['p'][0]
    self.crash = None
    train.create_model = lambda *args, **kw: Model()

    def create_split(batch_size, train, config):
      del config
      tile = lambda a: tf.constant(np.broadcast_to(
          a, (batch_size,) + a.shape).copy())
      batch = dict(u=tile(self.u), p=tile(self.p), t=tile(np.arange(4.)))
      def batches():
        for i in itertools.count():
          if train and self.crash is not None and i >= self.crash:
            raise Crash()
          yield batch
      return batches()

    input_pipeline.create_split = create_split

  def examples(self, per_epoch):
    """Makes the split have this number of examples (in debug mode)."""
    self.ip.NUM_SPLIT_EXAMPLES[self.tfds.Split.TRAIN] = 24 * (per_epoch + 3)
    self.ip.NUM_SPLIT_EXAMPLES[self.tfds.Split.VALIDATION] = 4 * (per_epoch + 3)

  def run(self, workdir, crash=None, **kw):
    """Returns the final step and parameters, or None after a crash."""
    self.crash = crash
    try:
      state = self.train.train_and_evaluate(self.config(**kw), workdir)
    except Crash:
      return None
    params = self.jax.tree_util.tree_map(lambda x: np.asarray(x)[0],
                                         state.params)
    return int(np.asarray(state.step)[0]), flat(params)

  def saved(self, workdir):
    return sorted(int(f.split('_')[1]) for f in os.listdir(workdir)
                  if f.startswith('checkpoint_') and f[11:].isdigit())


def loop(ctx, part):
  """Whole runs, interrupted at every position, and started again."""
  todo = []
  for every, batches, total in ((1, 4, 4), (1, 1, 3), (2, 4, 5)) if ctx.quick \
      else ((1, 4, 4), (1, 1, 3), (2, 4, 5), (1, 2, 6), (1, 3, 7), (3, 2, 8)):
    # `every` epochs of `batches` batches between checkpoints
    cadence = every * batches
    for crashes in [()] + [(c,) for c in range(total + 3)] + (
        [] if ctx.quick else list(itertools.product(range(total + 3),
                                                    repeat=2))):
      todo.append((every, batches, total, cadence, crashes))
  epochs = ((1, 3), (2, 2), (3, 1)) if ctx.quick else tuple(
      itertools.product((1, 2, 3), (1, 2, 3)))
  todo += [('epochs',) + e for e in epochs]
  mine = todo[part[0]::part[1]]
  program = Program(ctx)
  whole = {}
  for t in mine:
    tmp = tempfile.mkdtemp(dir=ctx.scratch)
    try:
      if t[0] == 'epochs':
        _, num, batches = t
        with ctx.case(dict(epochs=num, batches=batches)):
          program.examples(batches * 4 + 3)
          step, _ = program.run(tmp, num_train_steps=-1, num_epochs=float(num),
                                batch_size=4, checkpoint_epochs=1)
          ctx.equal(step, num * batches, 'number of steps')
          ctx.equal(program.saved(tmp)[-1], num * batches, 'last checkpoint')
          ctx.state('epochs', t)
          ctx.transition(step)
          ctx.trace()
          ctx.evaluated(True)
        continue
      every, batches, total, cadence, crashes = t
      kw = dict(num_train_steps=total, num_epochs=9., batch_size=4,
                checkpoint_epochs=every)
      with ctx.case(dict(checkpoint_every=cadence, steps=total,
                         crashes=crashes)):
        program.examples(batches * 4)
        if (every, batches, total) not in whole:
          first = tempfile.mkdtemp(dir=ctx.scratch)
          try:
            whole[every, batches, total] = (program.run(first, **kw),
                                            program.saved(first))
          finally:
            shutil.rmtree(first, ignore_errors=True)
        (step, params), saved = whole[every, batches, total]
        ctx.equal(step, total, 'number of steps')
        ctx.check(saved == sorted({s for s in range(1, total + 1)
                                   if s % cadence == 0} | {total}),
                  'checkpoints', saved)
        for c in crashes:
          got = program.run(tmp, crash=c, **kw)
          ctx.state('loop', every, batches, total, crashes)
          if got is not None:
            break
        got = program.run(tmp, **kw)
        ctx.equal(got[0], total, 'number of steps after a restart')
        ctx.close(got[1], params, 1e-6, 'parameters after a restart')
        ctx.check(set(program.saved(tmp)) == set(saved), 'checkpoints',
                  program.saved(tmp), saved)
        ctx.transition(total)
        ctx.trace()
        ctx.evaluated(bool(crashes))
        ctx.sample(f'{total} steps, a checkpoint every {cadence}, interrupted '
                   f'at batch {crashes}')
    finally:
      shutil.rmtree(tmp, ignore_errors=True)
