"""What a running job reports to: cases, states, transitions, violations."""
import contextlib
import hashlib
import json
import os
import threading
import time
import traceback


class StopJob(BaseException):
  """Enough violations."""


class Fail(Exception):
  """The oracle disagrees."""


def _key(k):
  return k if isinstance(k, str) else json.dumps(k, default=str)


class Ctx:
  """Reporting interface of a job."""

  MAX_VIOLATIONS = 5

  def __init__(self, spec):
    self.spec = spec
    self.tier = spec['tier']
    self.seed = spec['seed']
    self.scratch = spec['scratch']
    self.replay_key = spec.get('replay_key')
    self.violations = []
    self.counts = {'transitions': 0, 'traces': 0, 'evaluations': 0,
                   'nontrivial': 0}
    self.samples = []
    self._states = set()
    self._sample_every = 1
    self._stack = []
    self.exhaustive = True
    self._hang_limit = 400
    self._deadline = None
    threading.Thread(target=self._watch, daemon=True).start()

  @property
  def quick(self):
    return self.tier == 'quick'

  # -- hang detection -------------------------------------------------------
  def _watch(self):
    while True:
      time.sleep(1)
      d = self._deadline
      if d is not None and time.time() > d[0]:
        self._violation(d[1], f'no answer within {self._hang_limit} s')
        self.exhaustive = False
        self.write()
        os._exit(0)

  # -- cases ----------------------------------------------------------------
  @contextlib.contextmanager
  def case(self, key):
    """One case. An oracle failure or any exception in it is a violation."""
    key = _key(key)
    outer = self._deadline
    if key not in ('<job>', '<import>'):
      self._deadline = (time.time() + self._hang_limit, key)
    try:
      yield
    except StopJob:
      raise
    except Fail as e:
      self._violation(key, str(e))
    except Exception:  # pylint: disable=broad-except
      self._violation(key, 'exception:\n' + traceback.format_exc()[-3000:])
    finally:
      self._deadline = outer
    if len(self.violations) >= self.MAX_VIOLATIONS and not self.replay_key:
      raise StopJob()

  def _violation(self, key, detail):
    if self.replay_key is not None and key != self.replay_key:
      return
    self.violations.append({'key': key, 'detail': detail})

  def fail(self, msg):
    raise Fail(msg)

  def check(self, cond, msg, *args):
    if not cond:
      raise Fail(msg if not args else msg + ': ' + ' '.join(
          repr(a) for a in args))

  def equal(self, got, want, msg=''):
    """Exact array equality of values, shape and (if `want` is an array) dtype."""
    import numpy as np
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
      raise Fail(f'{msg}: shape {g.shape}, expected {w.shape}')
    ok = np.array_equal(g, w) if g.dtype.kind not in 'fc' else bool(
        np.all((g == w) | ((g != g) & (w != w))))
    if not ok:
      bad = np.argwhere(np.atleast_1d(g != w))[:3].tolist()
      raise Fail(f'{msg}: got\n{g}\nexpected\n{w}\nfirst at {bad}')

  def close(self, got, want, tol, msg=''):
    import numpy as np
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
      raise Fail(f'{msg}: shape {g.shape}, expected {w.shape}')
    if g.size == 0:
      return
    d = np.abs(g.astype(np.float64) - w.astype(np.float64))
    if not np.all(d <= tol):
      i = np.unravel_index(int(np.argmax(np.where(d == d, d, np.inf))), d.shape)
      raise Fail(f'{msg}: off by {d[i]} (allowed {tol}) at {tuple(map(int, i))}:'
                 f' got {g[i]}, expected {w[i]}')

  # -- counters -------------------------------------------------------------
  def state(self, *key):
    """Registers a distinct model state."""
    h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    self._states.add(int.from_bytes(h, 'big'))

  def transition(self, n=1):
    self.counts['transitions'] += n

  def trace(self, n=1):
    self.counts['traces'] += n

  def evaluated(self, nontrivial=True, n=1):
    self.counts['evaluations'] += n
    if nontrivial:
      self.counts['nontrivial'] += n if nontrivial == True else int(nontrivial)  # pylint: disable=singleton-comparison

  def count(self, name, n=1):
    self.counts[name] = self.counts.get(name, 0) + n

  def sample(self, text):
    """Keeps a logarithmically thinned selection of the cases."""
    self._stack.append(None)
    n = len(self._stack)
    if n & (n - 1) == 0 and len(self.samples) < 12:
      self.samples.append(_key(text)[:400])

  def write(self):
    # State hashes are disjoint between jobs only if the keys are; the master
    # takes their union.
    states = list(self._states)
    tmp = self.spec['out'] + '.tmp'
    with open(tmp, 'w') as f:
      json.dump({'counts': self.counts, 'violations': self.violations,
                 'samples': self.samples, 'state_hashes': states,
                 'exhaustive': self.exhaustive}, f)
    os.replace(tmp, self.spec['out'])
