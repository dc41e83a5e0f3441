"""D01: simulation cycles chain without seam and record aligned snapshots."""
import itertools
import os
import pathlib
import types

import h5py
import jax
import jax.numpy as jnp
import numpy as np

LEVEL = 'model_checking'
RULE = ('A flow solver which mixes everything that it is given with different '
        'weights (so that each position of each history is visible) replaces '
        'the real one; the model is the history of velocities and pressures, a '
        'transition is a step, and a trace is a division of the steps into '
        'cycles, run by the real code. All divisions into up to three cycles '
        'within the bounds, at all start steps of an alphabet, with all '
        'contents of each file and the histories returned compared with the '
        'model. Besides, the whole simulation with small sizes and the real '
        'solver on small periodic meshes.')
ASSUMPTIONS = ['64 bit arithmetic as in the program, 1e-11.',
               'Snapshots are taken every ten steps of a cycle.']

DRAG, REYNOLDS, DT = .1, 20000, 1e-4


def jobs(tier):
  q = tier == 'quick'
  out = []
  for k in range(6):
    out.append(dict(name=f'one {k}', x64=True, cost=10, args=dict(one=(k, 6))))
  for k in range(8 if q else 16):
    out.append(dict(name=f'two {k}', x64=True, cost=20,
                    args=dict(several=(2, k, 8 if q else 16))))
  for k in range(4 if q else 16):
    out.append(dict(name=f'three {k}', x64=True, cost=20,
                    args=dict(several=(3, k, 4 if q else 16))))
  for sizes in ((1, 1, 1), (2, 3, 10), (2, 2, 11), (1, 3, 4), (3, 1, 20)):
    out.append(dict(name=f'simulation {sizes}', x64=True, cost=20,
                    args=dict(simulation=sizes)))
  out.append(dict(name='spacing', x64=True, cost=15, args=dict(spacing=1)))
  return out


def run(ctx, a):
  for kind in a:
    globals()[kind](ctx, a[kind])


N, NP = 5, 3


class Stub:
  """Mixes all arguments."""

  def __init__(self, lib=jnp):
    self.lib = lib
    self.coords = np.stack([np.linspace(0, .9, N), np.linspace(.05, .8, N)], 1)
    mesh = types.SimpleNamespace(
        node_coords=lib.asarray(self.coords), num_nodes=N, ndim=2)
    self.velocity = types.SimpleNamespace(mesh=mesh, num_nodes=N)
    self.mix = np.cos(np.arange(N * N).reshape(N, N)) / N
    self.to_p = np.sin(np.arange(NP * N).reshape(NP, N) + 1) / N
    self.from_p = np.cos(np.arange(N * NP).reshape(N, NP) * .7) / NP

  def C(self, u):
    return u[:, ::-1] * u * .7 + .2 * (self.mix @ u)

  def B(self, f):
    return f * (1.5 + .1 * np.arange(N))[:, None]

  def stokes_one_step(self, us, ps, f, mu=None, dt=None, time_order=None,
                      alpha=.05, tol=1e-8, atol=0., **_):
    assert len(us) == len(ps) == time_order, (len(us), len(ps), time_order)
    assert abs(mu - 1 / REYNOLDS) < 1e-15 and abs(dt - DT) < 1e-15
    u = sum((.15 + .1 * i) * u for i, u in enumerate(us)) + .1 * f
    pm = sum((.3 - .1 * i) * p for i, p in enumerate(ps))
    u = u + (self.from_p @ pm)[:, None] * np.array([.1, .2])
    p = pm + self.to_p @ u[:, 0] + .5 * (self.to_p @ u[:, 1])
    return u, p, {}


def model(sem, us, ps, steps):
  """Histories, oldest first, extended by `steps`."""
  us, ps = list(us), list(ps)
  k = len(us)
  for _ in range(steps):
    c = [sem.C(u) for u in us[-3:]]
    ext = 3 * c[2] - 3 * c[1] + c[0]
    x = np.asarray(sem.velocity.mesh.node_coords)
    force = np.stack([np.sin(8 * np.pi * x[:, 1]), 0 * x[:, 1]], 1)
    f = sem.B(force - DRAG * us[-1]) - ext
    u, p, _ = sem.stokes_one_step(us[-k:], ps[-k:], f, mu=1 / REYNOLDS, dt=DT,
                                  time_order=3, tol=1e-5, atol=1e-4)
    us.append(np.asarray(u))
    ps.append(np.asarray(p))
  return us, ps


def history(seed):
  us = tuple(np.cos(np.arange(2 * N).reshape(N, 2) * (1 + .3 * i) + seed)
             for i in range(3))
  ps = tuple(np.sin(np.arange(NP) * (2 + i) + seed) for i in range(3))
  return us, ps


def datagen(ctx):
  from absl import flags
  from swirl_fem.niles.datagen import datagen as dg
  work = pathlib.Path(ctx.scratch) / 'cycles'
  work.mkdir(exist_ok=True, parents=True)
  if not flags.FLAGS.is_parsed():
    flags.FLAGS(['x', f'--workdir={work}'])
  else:
    flags.FLAGS.workdir = str(work)
  for f in work.iterdir():
    f.unlink()
  return dg, work


def cycles(ctx, dg, work, start, parts, seed):
  us0, ps0 = history(seed)
  sem, ref = Stub(), Stub(np)
  all_u, all_p = model(ref, us0, ps0, sum(parts))
  us, ps = tuple(map(jnp.asarray, us0)), tuple(map(jnp.asarray, ps0))
  done = 0
  for f in work.iterdir():
    f.unlink()
  for k, n in enumerate(parts):
    us, ps = dg.one_cycle(sem=sem, start_step=start + done, num_steps=n, us=us,
                          ps=ps)
    done += n
    ctx.check(len(us) == 3 and len(ps) == 3, 'length of histories', len(us))
    for i in range(3):
      ctx.close(us[i], all_u[done + i], 1e-11, f'velocity {i} returned')
      ctx.close(ps[i], all_p[done + i], 1e-11, f'pressure {i} returned')
    name = work / (f'kolmogorov_flow_grid_{dg.RESOLUTION}_order_{dg.ORDER}_step_'
                   f'{start + done - n}_{start + done}.hdf5')
    ctx.check(name.exists(), 'file', sorted(os.listdir(work)))
    with h5py.File(name) as f:
      ctx.check(sorted(f) == ['p', 't', 'u'], 'contents', sorted(f))
      u, p, t = (np.asarray(f[x]) for x in 'upt')
    at = [done - n + i for i in range(0, n + 1, 10)]
    ctx.check(len(u) == len(p) == len(t) == len(at), 'number of snapshots',
              len(u), len(p), len(t), len(at))
    for i, s in enumerate(at):
      ctx.close(u[i], all_u[2 + s], 1e-11, f'velocity of step {s}')
      ctx.close(p[i], all_p[2 + s], 1e-11, f'pressure of step {s}')
      ctx.close(t[i], (start + s) * DT, 1e-12, f'time of step {s}')
  expected = len({(start + sum(parts[:i]), start + sum(parts[:i + 1]))
                  for i in range(len(parts))})
  ctx.check(len(os.listdir(work)) == expected, 'files', os.listdir(work))
  ctx.state(start, parts, seed)
  ctx.transition(sum(parts))
  ctx.trace()
  ctx.evaluated(sum(parts) > 0)
  ctx.sample(f'start {start}, cycles of {parts}')


def one(ctx, part):
  dg, work = datagen(ctx)
  todo = [(s, n, seed) for s in (0, 7, 500) for n in range(0, 42)
          for seed in (0, 1)]
  if ctx.quick:
    todo = [t for t in todo if t[2] == 0 or t[1] in (10, 20)]
  for s, n, seed in todo[part[0]::part[1]]:
    with ctx.case(dict(start=s, steps=n, history=seed)):
      cycles(ctx, dg, work, s, (n,), seed)


def several(ctx, a):
  dg, work = datagen(ctx)
  k, part, of = a
  if k == 2:
    sizes = list(range(1, 13)) + [19, 20, 21, 30]
    todo = list(itertools.product(sizes, repeat=2))
  else:
    sizes = (1, 2, 5, 9, 10, 11) if ctx.quick else (1, 2, 3, 4, 5, 9, 10, 11, 20)
    todo = list(itertools.product(sizes, repeat=3))
  for t in todo[part::of]:
    with ctx.case(dict(cycles=t)):
      cycles(ctx, dg, work, 0 if sum(t) % 2 else 40, t, 0)


def simulation(ctx, sizes):
  """The program as a whole, on a small mesh."""
  resolution, num_cycles, steps = sizes
  dg, work = datagen(ctx)
  order = 3 if resolution > 1 else 4
  saved = {k: getattr(dg, k) for k in (
      'RESOLUTION', 'ORDER', 'NUM_CYCLES', 'NUM_STEPS_PER_CYCLE')}
  with ctx.case(dict(simulation=sizes)):
    try:
      dg.RESOLUTION, dg.ORDER = resolution, order
      dg.NUM_CYCLES, dg.NUM_STEPS_PER_CYCLE = num_cycles, steps
      dg.run_simulation()
    finally:
      for k, v in saved.items():
        setattr(dg, k, v)
    from swirl_fem.common import premesh_commons
    from swirl_fem.navier_stokes import navier_stokes
    sem = navier_stokes.StokesSEM.create(
        premesh_commons.unit_cube_mesh(resolution, ndim=2, periodic_dims=(0, 1)),
        boundary_conditions={}, order=order)
    x = np.asarray(sem.velocity.mesh.node_coords)
    s, c = np.sin(4 * np.pi * x), np.cos(4 * np.pi * x)
    u0 = np.stack([c[:, 0] * s[:, 1], -s[:, 0] * c[:, 1]], 1)
    fast = types.SimpleNamespace(
        C=jax.jit(sem.C), B=jax.jit(sem.B), velocity=sem.velocity,
        stokes_one_step=lambda us, ps, f, **kw: jitted(us, ps, f))
    jitted = jax.jit(lambda us, ps, f: sem.stokes_one_step(
        us, ps, f, 1 / REYNOLDS, DT, 3, tol=1e-5, atol=1e-4))
    nump = sem.D(jnp.asarray(u0)).shape[0]
    all_u, all_p = model(fast, [u0] * 3, [np.zeros(nump)] * 3,
                         num_cycles * steps)
    names = [f'kolmogorov_flow_grid_{resolution}_order_{order}_step_{a * steps}'
             f'_{a * steps + steps}.hdf5' for a in range(num_cycles)]
    ctx.check(sorted(os.listdir(work)) == sorted(names), 'files',
              sorted(os.listdir(work)))
    for a, name in enumerate(names):
      with h5py.File(work / name) as f:
        u, p, t = (np.asarray(f[x]) for x in 'upt')
      at = list(range(a * steps, (a + 1) * steps + 1, 10))
      ctx.check(len(u) == len(p) == len(t) == len(at), 'snapshots', len(u))
      for i, s in enumerate(at):
        ctx.close(u[i], all_u[2 + s], 1e-6, f'velocity of step {s}')
        ctx.close(p[i], all_p[2 + s], 1e-5, f'pressure of step {s}')
        ctx.close(t[i], s * DT, 1e-12, f'time of step {s}')
        ctx.state('simulation', sizes, s)
    ctx.transition(num_cycles * steps)
    ctx.trace()
    ctx.evaluated(True)
    ctx.sample(f'simulation of {num_cycles} cycles of {steps} steps')


def spacing(ctx, _):
  """The distance of nodes which the program reports (for the CFL number)."""
  dg, _ = datagen(ctx)
  from mc import flow
  from mc.checks import n03
  for name, conf in dict(n03.CASES, **n03.ACCURACY).items():
    with ctx.case(dict(spacing=name)):
      sem = flow.Flow(flow.Case(*conf), matrices=False).sem
      x = np.asarray(sem.velocity.mesh.element_coords(), np.float64)
      d = np.linalg.norm(x[:, :, None] - x[:, None], axis=-1)
      d[:, np.arange(d.shape[1]), np.arange(d.shape[1])] = np.inf
      ctx.close(dg.compute_dx(sem.velocity.mesh), d.min(), 1e-6, 'distance')
      ctx.state('spacing', name)
      ctx.transition()
      ctx.trace()
      ctx.evaluated(True)
