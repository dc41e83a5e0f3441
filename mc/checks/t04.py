"""T04: learning rate and KL penalty follow their schedules at every step."""
import itertools
import math
import types

import numpy as np

LEVEL = 'model_checking'
RULE = ('Every step, from the first to well past the last, of every schedule '
        'whose numbers of epochs and of steps in an epoch are within the '
        'bounds, against the piecewise definition. Evaluated both for Python '
        'integers and for traced steps. Non-trivial: inside of a ramp.')
ASSUMPTIONS = ['Ramps last for at least one step (except for the warm-up, '
               'which may be left out). Values are single precision.']

EPOCHS = (0, .5, 1, 1.5, 2, 3)


def jobs(tier):
  n = 4 if tier == 'quick' else 8
  return [dict(name=f'schedules {k}', x64=bool(k % 2), cost=10,
               args=dict(part=(k, n))) for k in range(n)]


def ramp(t, length):
  return min(t / length, 1.)


def learning_rate(base, warm, epochs, spe):
  def f(step):
    w = warm * spe
    if step < w:
      return base * ramp(step, w)
    d = max(epochs - warm, 1) * spe
    return base * .5 * (1 + math.cos(math.pi * ramp(step - w, d)))
  return f


def updown(base, warm, spe):
  def f(step):
    w = warm * spe
    return base * (ramp(step, w) if step < w else 1 - ramp(step - w, w))
  return f


def penalty(value, zero, rise, spe):
  def f(step):
    z = zero * spe
    return 0. if step < z else value * ramp(step - z, rise * spe)
  return f


def run(ctx, a):
  import jax
  import jax.numpy as jnp
  import ml_collections
  from swirl_fem.niles import train
  spes = (1, 2, 3, 5, 8) if ctx.quick else (1, 2, 3, 4, 5, 7, 8, 13, 40)
  todo = list(itertools.product(spes, EPOCHS, EPOCHS[1:] + (6.,)))

  def compare(key, f, want, last, ramps):
    with ctx.case(key):
      steps = range(int(last) + 8)
      expected = np.array([want(s) for s in steps])
      tol = 2e-6 * max(abs(expected).max(), 1e-30)
      got = np.array([float(f(s)) for s in steps])
      ctx.close(got, expected, tol, 'at each step')
      traced = jax.jit(jax.vmap(f))(jnp.arange(len(steps), dtype=jnp.int32))
      ctx.close(np.asarray(traced), expected, tol, 'at each traced step')
      for s in steps:
        ctx.state(str(key), s)
      ctx.transition(len(steps))
      ctx.trace()
      ctx.evaluated(ramps > 1)
      ctx.sample(key)

  for t in todo[a['part'][0]::a['part'][1]]:
    spe, first, second = t
    conf = lambda **kw: ml_collections.FrozenConfigDict(dict(
        dict(num_epochs=7., warmup_epochs=1., kl_penalty=.3,
             kl_zero_epochs=1., kl_transition_epochs=1.), **kw))
    # warm-up for `first` epochs, `second` epochs in all (or after it)
    for base in (.0075, 2.) if ctx.quick else (1e-6, .0075, 1., 2.):
      for total in {second, first + second}:
        f = train.create_learning_rate_fn(
            conf(num_epochs=total, warmup_epochs=first), base, spe)
        compare(dict(lr=base, warmup=first, epochs=total, steps=spe), f,
                learning_rate(base, first, total, spe),
                (first + max(total - first, 1)) * spe, first * spe)
      if first == 0:
        f = train.create_updown_learning_rate_fn(
            conf(warmup_epochs=second), base, spe)
        compare(dict(updown=base, warmup=second, steps=spe), f,
                updown(base, second, spe), 2 * second * spe, second * spe)
    for value in (.01, 1.):
      f = train.create_kl_penalty_fn(
          conf(kl_penalty=value, kl_zero_epochs=first,
               kl_transition_epochs=second), spe)
      compare(dict(kl=value, zero=first, rise=second, steps=spe), f,
              penalty(value, first, second, spe), (first + second) * spe,
              second * spe)
