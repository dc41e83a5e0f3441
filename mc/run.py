"""Master process: runs the jobs of one property's check and writes evidence.

A check module (mc/checks/<id>.py) defines
  LEVEL        evidence level
  RULE         how cases are made and what makes one non-trivial
  ASSUMPTIONS  list of strings
  jobs(tier)   list of dicts {name, devices, x64, args}
  run(ctx, args)   executes one job, reporting to `ctx` (mc.ctx.Ctx)
Every job runs in a process of its own (a number of XLA devices and the float
width are per process settings), up to 8 at a time.
"""
import argparse
import hashlib
import importlib
import json
import os
import pathlib
import subprocess
import sys
import tempfile
import threading
import time

ROOT = pathlib.Path(__file__).resolve().parent.parent
KNOWN = ROOT / 'known_findings.txt'


def known_findings(prop):
  """Open findings: lines 'open: property=<id> key=<prefix> <text>'."""
  out = []
  if KNOWN.exists():
    for line in KNOWN.read_text().splitlines():
      if line.startswith(f'open: property={prop} key='):
        rest = line.split(' key=', 1)[1]
        key, _, text = rest.partition(' ')
        out.append((key, text))
  return out


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--replay')
  ap.add_argument('--only', help='run only jobs whose name contains this')
  ap.add_argument('--jobs', type=int, default=8)
  ap.add_argument('-v', action='store_true')
  a = ap.parse_args()
  prop, tier = a.prop, a.tier
  if tier not in ('quick', 'thorough'):
    tier = 'quick'
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  t0 = time.time()
  mod = importlib.import_module(f'mc.checks.{prop.lower()}')
  replay_key = None
  if a.replay:
    rec = json.loads(pathlib.Path(a.replay).read_text())
    jobs = [rec['job']]
    replay_key = rec['key']
  else:
    jobs = mod.jobs(tier)
    if a.only:
      jobs = [j for j in jobs if a.only in j['name']]

  # The budget of a check is 900 s; a job which does not end in time is an
  # error of the check, not a violation.
  limit = 840 if tier == 'quick' else 6 * 3600
  results = [None] * len(jobs)
  lock = threading.Lock()
  order = sorted(range(len(jobs)), key=lambda i: -jobs[i].get('cost', 1))
  queue = list(order)

  with tempfile.TemporaryDirectory(prefix='mc_') as tmp:

    def work():
      while True:
        with lock:
          if not queue:
            return
          i = queue.pop(0)
        job = jobs[i]
        env = dict(os.environ)
        flags = (f'--xla_force_host_platform_device_count={job.get("devices", 1)}'
                 ' --xla_cpu_multi_thread_eigen=false')
        if job.get('devices', 1) <= 1:
          flags += ' intra_op_parallelism_threads=1'
        env['XLA_FLAGS'] = flags
        env['JAX_ENABLE_X64'] = '1' if job.get('x64') else '0'
        for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
          env[v] = '1'
        outf = os.path.join(tmp, f'{i}.json')
        scratch = os.path.join(tmp, f's{i}')
        os.mkdir(scratch)
        spec = {'prop': prop, 'tier': tier, 'seed': seed, 'job': job,
                'out': outf, 'scratch': scratch, 'replay_key': replay_key}
        for attempt in range(2):
          left = limit - (time.time() - t0)
          if left <= 5:
            results[i] = {'error': f'no time left for job {job["name"]}'}
            break
          t1 = time.time()
          try:
            p = subprocess.run(
                [sys.executable, '-m', 'mc.worker', json.dumps(spec)],
                env=env, cwd=str(ROOT), stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT, timeout=left)
          except subprocess.TimeoutExpired:
            results[i] = {'error': f'job {job["name"]} ran out of time'}
            break
          if os.path.exists(outf):
            results[i] = json.loads(pathlib.Path(outf).read_text())
            results[i]['wall_s'] = time.time() - t1
            if a.v:
              print(f'  {job["name"]}: {results[i]["wall_s"]:.1f} s '
                    f'{results[i]["counts"]}', flush=True)
            break
          # Ended by a signal or without writing a result: once more.
          results[i] = {
              'error': f'job {job["name"]} ended with {p.returncode}:\n'
                       + p.stdout.decode(errors='replace')[-3000:]}

    threads = [threading.Thread(target=work)
               for _ in range(min(a.jobs, len(jobs)))]
    for t in threads:
      t.start()
    for t in threads:
      t.join()

  errors = [r['error'] for r in results if r.get('error')]
  violations = []
  for job, r in zip(jobs, results):
    for v in r.get('violations', []):
      violations.append((job, v))

  counts = {}
  samples, states = [], set()
  exhaustive = True
  for r in results:
    for k, v in r.get('counts', {}).items():
      counts[k] = counts.get(k, 0) + v
    states.update(r.get('state_hashes', []))
    exhaustive = exhaustive and r.get('exhaustive', False)
  # A few samples from different jobs.
  pools = [r.get('samples', []) for r in results if r.get('samples')]
  while pools and len(samples) < 8:
    for p in list(pools):
      if p:
        samples.append(p.pop(0))
      if not p:
        pools.remove(p)
      if len(samples) >= 8:
        break

  known = known_findings(prop)
  known_hit, fresh = {}, []
  for job, v in violations:
    for key, text in known:
      if v['key'].startswith(key):
        known_hit[key] = text
        break
    else:
      fresh.append((job, v))

  coverage = {}
  if mod.LEVEL == 'model_checking':
    coverage.update(
        states=len(states), transitions=counts.get('transitions', 0),
        traces_validated_against_impl=counts.get('traces', 0),
        nontrivial_traces=counts.get('nontrivial', 0))
  else:
    coverage.update(
        evaluations=counts.get('evaluations', 0),
        distinct_nontrivial=counts.get('nontrivial', 0),
        comparisons=counts.get('transitions', 0))
  coverage.update({
      'rule': mod.RULE,
      'samples': samples,
      'exhaustive': bool(exhaustive and not errors),
      'jobs': {j['name']: round(r.get('wall_s', 0), 1)
               for j, r in zip(jobs, results)},
  })
  for k, v in counts.items():
    if k not in ('transitions', 'traces', 'evaluations', 'nontrivial'):
      coverage[k] = v
  ev = {
      'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
      'coverage': coverage,
      'assumptions': list(mod.ASSUMPTIONS),
      'wall_s': round(time.time() - t0, 2),
      'violations': len(fresh),
  }
  if not a.replay and not a.only:
    (ROOT / 'evidence').mkdir(exist_ok=True)
    (ROOT / 'evidence' / f'{prop}.json').write_text(json.dumps(ev, indent=1))

  for key, text in known_hit.items():
    print(f'KNOWN-FINDING: property={prop} {text}')
  if fresh:
    (ROOT / 'replays').mkdir(exist_ok=True)
    for job, v in fresh[:10]:
      h = hashlib.sha1(json.dumps([job, v['key']]).encode()).hexdigest()[:10]
      path = ROOT / 'replays' / f'{prop}-{h}.json'
      path.write_text(json.dumps({'property': prop, 'job': job,
                                  'key': v['key'], 'detail': v['detail']},
                                 indent=1))
      print(f'VIOLATION property={prop} replay={path}')
      print('   ', job['name'], v['key'][:400])
      print('   ', v['detail'][:1500].replace('\n', '\n    '))
    print(f'{len(fresh)} violations')
    sys.exit(1)
  if errors:
    for e in errors:
      print('ERROR', e)
    sys.exit(2)
  print(f'{prop} {tier}: held; '
        + ' '.join(f'{k}={v}' for k, v in coverage.items()
                   if isinstance(v, int) and not isinstance(v, bool))
        + f' wall={ev["wall_s"]}s')


if __name__ == '__main__':
  main()
