"""Run-time evaluation of the contracts on the real code (replay / counterexample search).

usage: python -m fals.main PROPERTY SEED BUDGET_SECONDS [CHECK CASE_SEED]
Every check is a deterministic function of one integer seed, so a failing case is
replayed by naming the check and the seed.
"""
import importlib, json, os, random, resource, signal, sys, time, traceback, warnings
warnings.filterwarnings('ignore')
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
sys.dont_write_bytecode = True
REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, REPO)

SLOW = {'C01', 'C15', 'C16', 'C17', 'C14'}   # these compile programs
CHECKS = {}        # property -> [(name, fn, weight)]
class Skip(Exception): pass
class TooLong(Exception): pass
def _alarm(*a): raise TooLong('the call did not return within 150 s')
signal.signal(signal.SIGALRM, _alarm)

def check(*props, weight=1):
  def deco(f):
    for p in props: CHECKS.setdefault(p, []).append((f.__name__, f, weight))
    return f
  return deco

def main():
  sys.modules['fals.main'] = sys.modules[__name__]
  prop, seed, budget = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
  mods = {'C02': ['interval'], 'C03': ['interval'], 'C04': ['interval'], 'C05': ['poly'], 'C06': ['poly'],
          'C07': ['enclosure'], 'C08': ['enclosure'], 'C09': ['enclosure'], 'C10': ['primitive'], 'C11': ['primitive'],
          'C12': ['primitive'], 'C13': ['graph'], 'C14': ['graph'], 'C15': ['bound'], 'C16': ['bound', 'interval', 'enclosure', 'primitive', 'poly'],
          'C17': ['bound'], 'C01': ['bound']}[prop]
  # a call that does not return, or that eats the memory, must not take the sandbox down with it
  resource.setrlimit(resource.RLIMIT_DATA, (10 << 30, 10 << 30))
  t0 = time.time()
  for m in mods:
    try: importlib.import_module('fals.' + m)
    except Exception as ex:
      print(json.dumps({'evaluations': 0, 'failure': {'check': 'import of the code under test', 'seed': 0,
            'message': traceback.format_exc()[-1500:]}, 'checks': {}})); return
  checks = CHECKS.get(prop, [])
  fastmode = bool(os.environ.get('VF_FAST')) and 'bound' in mods and len(sys.argv) <= 5
  if fastmode:
    from fals import fast
    fast.install()
  unconfirmed = 0
  if len(sys.argv) > 5:
    name, s = sys.argv[4], int(sys.argv[5])
    fn = dict((n, f) for n, f, _ in checks)[name]
    try:
      fn(random.Random(s))
    except Skip: print('skipped')
    except Exception: traceback.print_exc(); sys.exit(1)
    print('contract holds for this input'); return
  evals = {n: 0 for n, _, _ in checks}; skipped = 0
  i = 0; failure = None; samples = []
  stopped = lambda: bool(os.environ.get('VF_STOP')) and os.path.exists(os.environ['VF_STOP'])
  while checks and failure is None and not stopped() and time.time() - t0 < budget and i < int(os.environ.get('VF_MAX_EVALS', '100000')):
    for n, f, w in checks:
      for _ in range(w):
        s = seed * 1000003 + i
        i += 1
        try:
          signal.alarm(150)
          try: r = f(random.Random(s))
          finally: signal.alarm(0)
          evals[n] += 1
          if len(samples) < 5 and r is not None: samples.append(f'{n}: {r}'[:300])
        except Skip: skipped += 1
        except TooLong:
          if prop in SLOW: skipped += 1; continue
          failure = {'check': n, 'seed': s, 'message': 'the call did not return within 150 s', 'trace': ''}; break
        except Exception as ex:
          failure = {'check': n, 'seed': s, 'message': f'{type(ex).__name__}: {ex}'[:3000], 'trace': traceback.format_exc()[-2500:]}
          break
        if time.time() - t0 > budget: break
      if failure and fastmode:   # it counts only if it is there with jax itself
        import subprocess
        try: rc = subprocess.run([sys.executable, '-m', 'fals.main', prop, str(seed), '1', failure['check'], str(failure['seed'])], env={k: v for k, v in os.environ.items() if k != 'VF_FAST'},
                                 capture_output=True, timeout=200).returncode
        except subprocess.TimeoutExpired: rc = None
        if rc != 1: failure = None; unconfirmed += 1
      if failure and os.environ.get('VF_STOP'): open(os.environ['VF_STOP'], 'w').close()
      if stopped(): break
      if failure or time.time() - t0 > budget: break
  print(json.dumps({'evaluations': sum(evals.values()), 'checks': evals, 'skipped': skipped, 'failure': failure, 'unconfirmed': unconfirmed, 'fast': fastmode,
                    'samples': samples, 'wall': time.time() - t0}))
if __name__ == '__main__': main()
