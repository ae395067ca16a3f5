"""Runs one unit and prints its result as JSON (last line)."""
import importlib, json, os, sys, time, traceback
sys.setrecursionlimit(20000)
def main(mod, cls):
  from . import core
  from .load import World
  t0 = time.time()
  m = importlib.import_module(f'vf.units.{mod}')
  u = getattr(m, cls)()
  res = {'unit': u.name, 'cls': cls, 'functions': list(u.functions), 'assumptions': list(u.assumptions), 'bounded': list(getattr(u, 'bounded', ()))}
  e = core.Engine(u)
  e.debug_houdini = bool(os.environ.get('VF_DEBUG'))
  core._CUR[0] = e
  e.vlists = []
  try:
    u.world = u.make_world() if hasattr(u, 'make_world') else World(u.stubs)
    if hasattr(u, 'main'): u.main(e)
    else: e.explore(lambda: u.run(e))
    res['error'] = None
  except (Exception, core.PathEnd) as ex:
    res['error'] = f'{type(ex).__name__}: {ex}'
    res['trace'] = traceback.format_exc()[-3000:]
  res['assumptions'] = list(u.assumptions)
  res['obligations'] = [dict(name=o.name, status=o.status, backend=o.backend, time=round(o.time, 4), info=str(o.info)[:800],
                             model=o.model) for o in e.obligations.values()]
  res['covers'] = e.covers
  res['paths'] = e.paths
  res['solver_time'] = round(e.solver_time, 3)
  res['queries'] = e.n_checks
  res['invariants'] = len(e.used_candidates)
  res['wall'] = round(time.time() - t0, 3)
  return res
if __name__ == '__main__':
  r = main(sys.argv[1], sys.argv[2])
  if os.environ.get('VF_SHOW'):
    for o in r['obligations']: print(o['status'], o['backend'], o['time'], o['name'], '' if o['status']=='proved' else (o['info'], o['model']))
    print({k: v for k, v in r.items() if k not in ('obligations',)})
  else: print(json.dumps(r))
