"""N01: time stepping coefficients are exact for polynomials."""
import fractions
import itertools

import numpy as np

from mc import flow
from swirl_fem.navier_stokes import navier_stokes as ns

LEVEL = 'model_checking'
RULE = ('All orders up to the bound; for each, the coefficients against the '
        'exact rational ones, and their effect on all monomials of degree up '
        'to the order and on all 0-1 histories. A state is an order with a '
        'monomial or history, a transition the next sample of the history.')
ASSUMPTIONS = ['Rounding errors of the coefficients, relative to the largest '
               'one, of at most 1e-10 (doubles).']


def jobs(tier):
  return [dict(name='float64', x64=True, cost=2,
               args=dict(top=8 if tier == 'quick' else 14)),
          dict(name='float32 mode', x64=False, cost=2,
               args=dict(top=8 if tier == 'quick' else 14))]


def run(ctx, a):
  for what, fn, exact in (('bdf', ns.bdfk_coeffs, flow.bdf),
                          ('ext', ns.extk_coeffs, flow.ext)):
    for k in range(1, a['top'] + 1):
      with ctx.case(dict(coefficients=what, order=k)):
        got = np.asarray(fn(k), float)
        want = np.array([float(c) for c in exact(k)])
        big = np.abs(want).max()
        # the repository computes them with numpy in double precision
        tol = 1e-10 * big
        ctx.check(got.shape == (k + 1,), 'shape', got.shape)
        ctx.close(got, want, tol, 'coefficients, oldest first')
        for p in range(k + 1):
          t = [fractions.Fraction(i - k) for i in range(k + 1)]
          exactly = ((1 if p == 1 else 0) if what == 'bdf' else 1)
          model = sum(c * x**p for c, x in zip(exact(k), t))
          assert model == exactly, (what, k, p)
          val = float(sum(g * float(x**p) for g, x in zip(got, t)))
          ctx.check(abs(val - exactly) <= tol * max(1., float(k)**p) * (k + 1),
                    'degree', p, val)
          ctx.state(what, k, p)
          ctx.transition(k + 1)
          ctx.evaluated(p > 0)
        if k <= 8:
          for h in itertools.product((0, 1), repeat=k + 1):
            val = float(np.dot(got, h))
            ctx.check(abs(val - float(sum(c for c, x in zip(
                exact(k), h) if x))) <= tol * (k + 1), 'history', h)
            ctx.state(what, k, h)
            ctx.transition(k + 1)
            ctx.evaluated(True)
        ctx.trace()
        ctx.sample(f'{what} {k}: {[str(c) for c in exact(k)]}')
