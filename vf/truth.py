"""Independently computed facts about the registered functions.

sigmoid^(k) is the polynomial P_k in s = sigmoid(x): P_0 = s, P_{k+1} = P_k'(s) s (1-s).
softplus^(k) = P_{k-1};  swish^(k) = k P_{k-1}(s) + x P_k(s).
Critical points are isolated exactly (Sturm, for polynomials in s) or by interval
bisection with a tail argument (swish), so the number and kind of the extrema is certain.
"""
from fractions import Fraction
import functools
import sympy as sp
import mpmath
from mpmath import iv as _iv, mp
mp.dps = 40; _iv.dps = 40

_s = sp.Symbol('s')
@functools.lru_cache(None)
def P(k):
  p = _s
  for _ in range(k): p = sp.expand(sp.diff(p, _s) * _s * (1 - _s))
  return sp.Poly(p, _s)
def coeffs(p): return [Fraction(int(c.p), int(c.q)) for c in p.all_coeffs()]     # highest first

def sig_iv(x):
  return 1 / (1 + _iv.exp(-x))
def _ev(p, s):
  r = _iv.mpf(0)
  for c in p.all_coeffs(): r = r * s + _iv.mpf(int(c.p)) / int(c.q)
  return r

@functools.lru_cache(None)
def sig_crit(k):
  """Critical points of sigmoid^(k) with kinds: list of (x_lo, x_hi, 'min'|'max')."""
  q = sp.div(P(k + 1), sp.Poly(_s * (1 - _s), _s))
  assert q[1].is_zero
  q = q[0]
  out = []
  if q.degree() < 1: return out
  for (lo, hi), mult in q.intervals(eps=sp.Rational(1, 10**30), inf=sp.Rational(0), sup=sp.Rational(1)):
    if hi == 0 or lo == 1 or (lo < 0) or (hi > 1): raise AssertionError('root at the border')
    if mult % 2 == 0: continue
    d = sp.Rational(1, 10**25)
    a, b = q.eval(lo - d), q.eval(hi + d)
    assert a * b < 0
    xs = [mpmath.log(mpmath.mpf(int(v.p)) / int(v.q) / (1 - mpmath.mpf(int(v.p)) / int(v.q))) for v in (lo - d, hi + d)]
    out.append((xs[0] - mpmath.mpf(10)**-20, xs[1] + mpmath.mpf(10)**-20, 'min' if a < 0 else 'max'))
  return out

@functools.lru_cache(None)
def swish_crit(k):
  """Critical points of swish^(k): zeros of (k+1) P_k + x P_{k+1}."""
  Pk, Pk1 = P(k), P(k + 1)
  d = sp.Poly(_s * (1 - _s), _s) if k >= 1 else sp.Poly(_s, _s)
  A, ra = sp.div((k + 1) * Pk, d); B, rb = sp.div(Pk1, d)
  assert ra.is_zero and rb.is_zero
  dA, dB = A.diff(_s), B.diff(_s)
  def h(x):
    s = sig_iv(x); return _ev(A, s) + x * _ev(B, s)
  def dh(x):   # derivative in x
    s = sig_iv(x); ds = s * (1 - s)
    return _ev(B, s) + (_ev(dA, s) + x * _ev(dB, s)) * ds
  # tails: |x| >= 40
  R = 40
  for side in (1, -1):
    t = _iv.mpf([0, mpmath.mpf(10)**-17])
    s = 1 - t if side == 1 else t
    a, b = _ev(A, s), _ev(B, s)
    if 0 in b:
      # B vanishes at the end (k == 0, s -> 1): h = 1 + x (1-s) > 0 for x >= 0
      assert k == 0 and side == 1
      continue
    lo_b = min(abs(b.a), abs(b.b))
    assert R * lo_b > max(abs(a.a), abs(a.b))
  out = []
  def go(lo, hi, depth=0):
    x = _iv.mpf([lo, hi]); v = h(x)
    if 0 not in v: return
    dv = dh(x)
    if 0 not in dv:
      vl, vh = h(_iv.mpf(lo)), h(_iv.mpf(hi))
      if 0 in vl or 0 in vh: raise AssertionError('root at a cell border')
      if (vl > 0) == (vh > 0): return
      neg = vl < 0
      a, b = lo, hi
      for _ in range(100):
        m = (a + b) / 2
        vm = h(_iv.mpf(m))
        if 0 in vm: break
        if (vm < 0) == neg: a = m
        else: b = m
      a, b = a - mpmath.mpf(10)**-25, b + mpmath.mpf(10)**-25
      out.append((a, b, 'min' if neg else 'max'))   # sign of swish^(k+1) goes - to + at a minimum
      return
    if depth > 60: raise AssertionError('cannot isolate')
    # cells are split off-centre so that 0 is no cell border
    m = lo + (hi - lo) * mpmath.mpf('0.4937')
    go(lo, m, depth + 1); go(m, hi, depth + 1)
  go(mpmath.mpf(-R), mpmath.mpf(R))
  return sorted(out)

def facts(name, order):
  """-> dict(extrema=[(lo, hi, kind)], increasing, decreasing, even) of the given derivative, or None if not registered here."""
  if name == 'softplus':
    if order == 0: return dict(extrema=[], increasing=True, decreasing=False, even=False)
    ex = sig_crit(order - 1); s = P(order - 1)
    even = sp.expand(s.as_expr() - s.as_expr().subs(_s, 1 - _s)) == 0
    mono = not ex
    return dict(extrema=ex, increasing=mono, decreasing=False, even=even)
  if name == 'sigmoid': return facts('softplus', order + 1)
  if name == 'swish':
    ex = swish_crit(order)
    if order == 0: even = False
    else:
      a, b = P(order - 1).as_expr(), P(order).as_expr()
      even = (sp.expand(order * (a - a.subs(_s, 1 - _s))) == 0 and sp.expand(b + b.subs(_s, 1 - _s)) == 0)
    return dict(extrema=ex, increasing=False, decreasing=False, even=even)
  if name == 'abs':
    if order == 0: return dict(extrema=[(mpmath.mpf(0), mpmath.mpf(0), 'min')], increasing=False, decreasing=False, even=True)
    if order == 1: return dict(extrema=[], increasing=True, decreasing=False, even=False)
    return None
  if name == 'exp': return dict(extrema=[], increasing=True, decreasing=False, even=False)
  return None

if __name__ == '__main__':
  for n, ks in (('softplus', range(6)), ('swish', range(6))):
    for k in ks:
      f = facts(n, k)
      print(n, k, [(float(a), t) for a, b, t in f['extrema']], f['increasing'], f['even'])
