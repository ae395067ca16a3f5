#!/usr/bin/env python3
"""Check of one property: python3-vt check.py ID [quick|thorough]"""
import json, os, subprocess, sys, time, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python'
if not os.path.exists(VT): VT = 'python3-vt'
PY = '/opt/venv/bin/python'
REPO = os.environ.get('VF_REPO', '/repo')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'

def registry():
  return json.load(open(os.path.join(HERE, 'units.json')))

def run_unit(spec, timeout):
  mod, cls = spec.split('.')
  t0 = time.time()
  env = dict(os.environ, JAX_PLATFORMS='cpu')
  p = subprocess.Popen([VT, '-m', 'vf.run_unit', mod, cls], cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       start_new_session=True)
  try:
    out, err = p.communicate(timeout=timeout)
    r = json.loads(out.strip().splitlines()[-1])
  except subprocess.TimeoutExpired:
    os.killpg(p.pid, 9); p.communicate()
    r = dict(unit=spec, cls=cls, functions=[], assumptions=[], obligations=[], covers={}, error=f'time limit {timeout}s', paths=0, solver_time=0, queries=0, bounded=[])
  except Exception as ex:
    r = dict(unit=spec, cls=cls, functions=[], assumptions=[], obligations=[], covers={}, error=f'verifier crashed: {ex} {err[-1500:]}', paths=0, solver_time=0, queries=0, bounded=[])
  r['spec'] = spec; r['wall'] = time.time() - t0
  return r

def run_fals(prop, seed, budget, known, procs):
  """Several processes with different seeds; the first failure (in order of the seeds) is reported."""
  env = dict(os.environ, JAX_PLATFORMS='cpu', PYTHONPATH=REPO + ':' + HERE, XLA_FLAGS='--xla_cpu_multi_thread_eigen=false', OMP_NUM_THREADS='1', VF_STOP=os.path.join(HERE, 'evidence', f'.stop.{prop}.{os.getpid()}'))
  os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
  def one(k):
    sd = seed + 101 * k
    try:
      p = subprocess.run([PY, '-m', 'fals.main', prop, str(sd), str(budget)], cwd=HERE, env=dict(env, VF_FAST='1') if k else env, capture_output=True, text=True, timeout=budget + 240)
      return json.loads(p.stdout.strip().splitlines()[-1])
    except Exception as ex:
      return {'evaluations': 0, 'failure': None, 'checks': {}, 'error': f'{type(ex).__name__}: {ex}'[:1000]}
  with cf.ThreadPoolExecutor(procs) as ex: rs = list(ex.map(one, range(procs)))
  if os.path.exists(env['VF_STOP']): os.remove(env['VF_STOP'])
  r = dict(rs[0]); r['processes'] = procs
  r['failure'] = next((x['failure'] for x in rs if x.get('failure')), None)
  r['evaluations'] = sum(x.get('evaluations', 0) for x in rs)
  r['checks'] = {k: sum(x.get('checks', {}).get(k, 0) for x in rs) for k in sorted({k for x in rs for k in x.get('checks', {})})}
  r['unconfirmed'] = sum(x.get('unconfirmed', 0) for x in rs)
  r['errors'] = [x['error'] for x in rs if x.get('error')]
  return r

def main():
  prop = sys.argv[1]
  tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
  seed = int(os.environ.get('VERIF_SEED', '1'))
  t0 = time.time()
  reg = registry()[prop]
  units = reg['units']
  utime = 420 if tier == 'quick' else 2400
  budget = reg.get('fals_s', 60) * (1 if tier == 'quick' else 8)
  os.environ['VF_TIER'] = tier
  if tier != 'quick':
    os.environ.setdefault('VF_UNIT_TIMEOUT', '2300'); os.environ.setdefault('VF_TIMEOUT_MS', '30000')
  known = [json.loads(l) for l in open(os.path.join(HERE, 'known_findings.jsonl')) if l.strip()]
  known = [k for k in known if k['property'] == prop and k.get('status') == 'known']
  n = 7
  with cf.ThreadPoolExecutor(n) as ex, cf.ThreadPoolExecutor(1) as ex2:
    ff = ex2.submit(run_fals, prop, seed, budget, known, reg.get('fals_procs', 4))
    res = list(ex.map(lambda s: run_unit(s, utime), units))
    f = ff.result()
  # ---- evaluate
  total = disc = 0
  failed, backends, funcs, assumptions, bounded, und = [], {}, [], [], [], []
  st = q = 0.
  for r in res:
    for o in r['obligations']:
      if o['backend'].startswith('assumed'): continue
      total += 1
      if o['status'] == 'proved':
        disc += 1; backends[o['backend']] = backends.get(o['backend'], 0) + 1
      else: failed.append((r['spec'], o))
    if r['error']: und.append((r['spec'], r['error'], r.get('trace', '')))
    elif not r['obligations']: und.append((r['spec'], 'no obligations were generated', ''))
    bad = [c for c, v in r['covers'].items() if not v]
    if bad and not r['error']: und.append((r['spec'], f'vacuous: unreachable {bad}', ''))
    for x in r['functions']:
      if x not in funcs: funcs.append(x)
    for x in r['assumptions']:
      if x not in assumptions: assumptions.append(x)
    bounded += [b for b in r.get('bounded', []) if b not in bounded]
    st += r['solver_time']; q += r['queries']
  viol = bool(failed or und or f.get('failure'))
  level = reg.get('level', 'proof')
  cov = dict(obligations=total, discharged=disc, undischarged=[dict(unit=u, name=o['name'], status=o['status']) for u, o in failed][:50],
             backends=backends, solver_time_s=round(st, 2), solver_queries=int(q),
             functions_under_contract=funcs, units=[dict(unit=r['spec'], obligations=len(r['obligations']), paths=r['paths'], wall_s=round(r['wall'], 1),
             invariants=r.get('invariants', 0), covers=len(r['covers'])) for r in res],
             checker_cmd=f'cd /verif && python3-vt check.py {prop} {tier}',
             trusted_base=['z3 / cvc5', 'the extraction and execution engine vf/ (load.py, core.py, rt.py)', 'the contract stubs of the back ends (numpy, jax)'] + reg.get('trusted', []),
             bounded_stand_ins=bounded,
             runtime_contract_evaluations=f.get('evaluations', 0), runtime_processes=f.get('processes', 1), runtime_errors=f.get('errors', []), runtime_unconfirmed=f.get('unconfirmed', 0), runtime_checks=f.get('checks', {}), runtime_samples=f.get('samples', []),
             undecided_units=[dict(unit=u, error=e) for u, e, _ in und])
  if level != 'proof':
    cov.update(explanation=reg.get('explanation', ''), evaluations=f.get('evaluations', 0))
  ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions + reg.get('assumptions', []),
            wall_s=round(time.time() - t0, 2), violations=int(viol))
  os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
  json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
  print(f'{prop}: {disc}/{total} obligations discharged over {len(units)} units ({st:.1f}s solver), '
        f'{f.get("evaluations", 0)} run-time contract evaluations, {time.time()-t0:.1f}s')
  for k in known: print(f'KNOWN-FINDING: property={prop} {k["what"]}')
  if not viol: return 0
  rp = os.path.join(HERE, 'evidence', f'{prop}.replay.json')
  rep = dict(property=prop, failed_obligations=[dict(unit=u, **o) for u, o in failed], undecided=[dict(unit=u, error=e, trace=t) for u, e, t in und])
  tail = ' no-failing-input-found'
  if f.get('failure'):
    fl = f['failure']
    rep['failing_input'] = fl
    rep['replay_cmd'] = f'cd /verif && PYTHONPATH={REPO}:/verif {PY} -m fals.main {prop} {seed} 1 {fl["check"]} {fl["seed"]}'
    tail = ''
    print('failing input:', fl['check'], fl['seed'], fl['message'][:600])
  for u, o in failed[:10]: print(f'failed obligation [{u}] {o["name"]}: {o["status"]} {o["info"][:200]}')
  for u, e, _ in und[:10]: print(f'not verified [{u}]: {e[:300]}')
  json.dump(rep, open(rp, 'w'), indent=1)
  print(f'VIOLATION property={prop} replay={rp}{tail}')
  return 1

if __name__ == '__main__':
  try: rc = main()
  except SystemExit: raise
  sys.stdout.flush(); sys.exit(rc)
