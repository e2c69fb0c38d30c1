// -*- mode: Bluespec; -*-
/// Real arithmetic in fixed point over unbounded integers: the real x is represented by x * 2^192 (rounded).
/// Every IEEE double of magnitude >= 2^-139 with 53 significant bits is represented exactly, sums are exact, products and
/// quotients are off by at most 2^-192: the specification's own error is ~40 decimal orders below the tolerances used.
module num {
  pure val PREC = 192
  pure val ONE = 2^192

  pure def fmul(a: int, b: int): int = (a * b) / ONE
  pure def fdiv(a: int, b: int): int = (a * ONE) / b
  /// the fraction n/d
  pure def frac(n: int, d: int): int = (n * ONE) / d
  pure def fromInt(n: int): int = n * ONE
  pure def abs(a: int): int = if (a < 0) -a else a
  pure def imin(a: int, b: int): int = if (a < b) a else b
  pure def imax(a: int, b: int): int = if (a > b) a else b
  /// 2^-k
  pure def tiny(k: int): int = 2^(192 - k)
  pure def fpow(a: int, n: int): int = range(0, n).foldl(ONE, (acc, _) => fmul(acc, a))
  /// smallest integer k with k * b >= a   (a >= 0, b > 0)
  pure def ceilDiv(a: int, b: int): int = if (a <= 0) 0 else (a + b - 1) / b

  // ---- lists -------------------------------------------------------------
  pure def mapl(l: List[a], f: (a) => b): List[b] = l.foldl([], (acc, x) => acc.append(f(x)))
  /// copies of mapl and mapi for use one level further out: the simulator keeps one register per parameter, so an operator that
  /// takes a lambda is never re-entered from inside that lambda (tools/reentry.py checks it)
  pure def mapl2(l: List[a], f: (a) => b): List[b] = l.foldl([], (acc, x) => acc.append(f(x)))
  pure def mapi2(n: int, f: (int) => b): List[b] = range(0, n).foldl([], (acc, i) => acc.append(f(i)))
  pure def every2(l: List[a], p: (a) => bool): bool = l.foldl(true, (acc, x) => acc and p(x))
  pure def mapi(n: int, f: (int) => b): List[b] = range(0, n).foldl([], (acc, i) => acc.append(f(i)))
  pure def sumf(n: int, f: (int) => int): int = range(0, n).foldl(0, (acc, i) => acc + f(i))
  pure def suml(l: List[int]): int = l.foldl(0, (acc, x) => acc + x)
  pure def maxAbs(l: List[int]): int = l.foldl(0, (acc, x) => imax(acc, abs(x)))
  pure def every(l: List[a], p: (a) => bool): bool = l.foldl(true, (acc, x) => acc and p(x))
  pure def vadd(u: List[int], v: List[int]): List[int] = mapi(u.length(), i => u[i] + v[i])
  pure def vsub(u: List[int], v: List[int]): List[int] = mapi(u.length(), i => u[i] - v[i])
  pure def vscale(c: int, v: List[int]): List[int] = mapl(v, x => fmul(c, x))
  /// sum of squares
  pure def sq(v: List[int]): int = v.foldl(0, (acc, x) => acc + fmul(x, x))

  pure def near(a: int, b: int, tol: int): bool = abs(a - b) <= tol
  pure def nearv(u: List[int], v: List[int], tol: int): bool = and {
    u.length() == v.length(),
    u.indices().forall(i => near(u[i], v[i], tol)),
  }

  // ---- elementary functions needed by the shipped boundary-condition example ---
  /// exp(x) for |x| < 64 by (Taylor of x/256)^256
  pure def fexp(x: int): int = {
    pure val y = x / 256
    pure val s = range(1, 30).foldl((ONE, ONE), (acc, k) => {
      pure val term = fmul(acc._2, y) / k
      (acc._1 + term, term)
    })._1
    range(0, 8).foldl(s, (acc, _) => fmul(acc, acc))
  }
  /// 2*pi * 2^192
  pure val TWOPI = 39440193395453077124792266728456537782926901730380179465120
  /// sin(x) by range reduction and Taylor
  pure def fsin(x: int): int = {
    pure val n = x / TWOPI
    pure val r = x - n * TWOPI
    range(1, 45).foldl((r, r), (acc, k) => {
      pure val term = -(fmul(fmul(acc._2, r), r) / ((2 * k) * (2 * k + 1)))
      (acc._1 + term, term)
    })._1
  }
}
