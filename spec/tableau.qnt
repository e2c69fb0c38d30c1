// -*- mode: Bluespec; -*-
/// The published Butcher tableaus, as exact fractions over a common denominator per method, the order conditions that identify
/// their order, and one Runge-Kutta step.
module tableau {
  import num.* from "./num"
  import rhs.* from "./rhs"

  /// all coefficients over the denominator d; bh is the embedded formula (equal to b where there is none)
  type Tableau = { name: str, order: int, embedded: int, d: int, c: List[int], a: List[List[int]], b: List[int], bh: List[int] }

  pure val EULER: Tableau = { name: "euler", order: 1, embedded: 0, d: 1, c: [0], a: [[]], b: [1], bh: [1] }
  pure val HEUN: Tableau = { name: "heun", order: 2, embedded: 0, d: 2, c: [0, 2], a: [[], [2]], b: [1, 1], bh: [1, 1] }
  pure val MIDPOINT: Tableau = { name: "midpoint", order: 2, embedded: 0, d: 2, c: [0, 1], a: [[], [1]], b: [0, 2], bh: [0, 2] }
  pure val RALSTON: Tableau = { name: "ralston", order: 2, embedded: 0, d: 12, c: [0, 8], a: [[], [8]], b: [3, 9], bh: [3, 9] }
  pure val RK4: Tableau = { name: "rk4", order: 4, embedded: 0, d: 6, c: [0, 3, 3, 6], a: [[], [3], [0, 3], [0, 0, 6]],
                            b: [1, 2, 2, 1], bh: [1, 2, 2, 1] }
  pure val BS: Tableau = { name: "bogacki-shampine", order: 3, embedded: 2, d: 72, c: [0, 36, 54, 72],
                           a: [[], [36], [0, 54], [16, 24, 32]], b: [16, 24, 32, 0], bh: [21, 18, 24, 9] }
  /// lcm of the published denominators: 2^12 * 3^3 * 5 * 7 * 11 * 23
  pure val CKD = 4096 * 27 * 5 * 7 * 11 * 23
  pure def ck(n: int, d: int): int = n * (CKD / d)
  pure val CK: Tableau = { name: "cash-karp", order: 5, embedded: 4, d: CKD,
    c: [0, ck(1, 5), ck(3, 10), ck(3, 5), ck(1, 1), ck(7, 8)],
    a: [[],
        [ck(1, 5)],
        [ck(3, 40), ck(9, 40)],
        [ck(3, 10), ck(-9, 10), ck(6, 5)],
        [ck(-11, 54), ck(5, 2), ck(-70, 27), ck(35, 27)],
        [ck(1631, 55296), ck(175, 512), ck(575, 13824), ck(44275, 110592), ck(253, 4096)]],
    b: [ck(37, 378), 0, ck(250, 621), ck(125, 594), 0, ck(512, 1771)],
    bh: [ck(2825, 27648), 0, ck(18575, 48384), ck(13525, 55296), ck(277, 14336), ck(1, 4)] }

  pure val TABLEAUS: List[Tableau] = [EULER, HEUN, MIDPOINT, RALSTON, RK4, BS, CK]

  // ---- order conditions (rooted trees up to order 5), exact over integers --------------------------------------
  pure def stages(m: Tableau): int = m.c.length()
  pure def aij(m: Tableau, i: int, j: int): int = if (j < m.a[i].length()) m.a[i][j] else 0
  /// A * v
  pure def amul(m: Tableau, v: List[int]): List[int] = mapi(stages(m), i => sumf(stages(m), j => aij(m, i, j) * v[j]))
  pure def hmul(u: List[int], v: List[int]): List[int] = mapi(u.length(), i => u[i] * v[i])
  pure def dot(u: List[int], v: List[int]): int = sumf(u.length(), i => u[i] * v[i])
  /// denominators: each of A, b, c carries one factor d; a condition with f factors reads  b . v * den == d^f
  pure def cond(m: Tableau, w: List[int], v: List[int], f: int, den: int): bool = dot(w, v) * den == m.d^f
  pure def rowSums(m: Tableau): bool = range(0, stages(m)).foldl(true, (acc, i) => acc and sumf(stages(m), j => aij(m, i, j)) == m.c[i])
  pure def orderHolds(m: Tableau, w: List[int], p: int): bool = {
    pure val one = mapi(stages(m), i => 1)
    pure val c = m.c
    pure val c2 = hmul(c, c)
    pure val c3 = hmul(c2, c)
    pure val c4 = hmul(c2, c2)
    pure val ac = amul(m, c)
    pure val ac2 = amul(m, c2)
    pure val aac = amul(m, ac)
    and {
      p < 1 or cond(m, w, one, 1, 1),
      p < 2 or cond(m, w, c, 2, 2),
      p < 3 or cond(m, w, c2, 3, 3),
      p < 3 or cond(m, w, ac, 3, 6),
      p < 4 or cond(m, w, c3, 4, 4),
      p < 4 or cond(m, w, hmul(c, ac), 4, 8),
      p < 4 or cond(m, w, ac2, 4, 12),
      p < 4 or cond(m, w, aac, 4, 24),
      p < 5 or cond(m, w, c4, 5, 5),
      p < 5 or cond(m, w, hmul(c2, ac), 5, 10),
      p < 5 or cond(m, w, hmul(ac, ac), 5, 20),
      p < 5 or cond(m, w, hmul(c, ac2), 5, 15),
      p < 5 or cond(m, w, amul(m, c3), 5, 20),
      p < 5 or cond(m, w, hmul(c, aac), 5, 30),
      p < 5 or cond(m, w, amul(m, hmul(c, ac)), 5, 40),
      p < 5 or cond(m, w, amul(m, ac2), 5, 60),
      p < 5 or cond(m, w, amul(m, aac), 5, 120),
    }
  }
  run ordersTest = all {
    assert(every(TABLEAUS, m => rowSums(m))),
    assert(every(TABLEAUS, m => orderHolds(m, m.b, m.order))),
    // and of no higher order
    assert(every(TABLEAUS, m => m.order >= 5 or not(orderHolds(m, m.b, m.order + 1)))),
    assert(every(TABLEAUS, m => m.embedded == 0 or (orderHolds(m, m.bh, m.embedded) and not(orderHolds(m, m.bh, m.embedded + 1))))),
    assert(every(TABLEAUS, m => m.a.indices().forall(i => m.a[i].length() <= stages(m)))),
  }

  // ---- one step ------------------------------------------------------------------------------------------------
  /// y at the start as the equations leave it, increments of the solution, difference to the embedded formula, end state, scale
  type Step = { y0: List[int], inc: List[int], diff: List[int], y1: List[int], scale: int, k1: List[int] }

  pure def combine(n: int, w: List[int], d: int, ks: List[List[int]], h: int): List[int] =
    mapi(n, i => fmul(h, sumf(ks.length(), j => if (j < w.length()) w[j] * ks[j][i] else 0) / d))

  pure def rkStep(m: Tableau, r: Rhs, t: int, y: List[int], h: int): Step = {
    pure val y0 = impose(r, t, y)
    pure val st = range(0, stages(m)).foldl({ ks: [], mag: 0 }, (acc, i) => {
      pure val yi = if (i == 0) y0 else vadd(y0, combine(r.n, m.a[i], m.d, acc.ks, h))
      pure val e = evalRhs(r, t + m.c[i] * h / m.d, yi)
      { ks: acc.ks.append(e.k), mag: imax(acc.mag, maxAbs(e.mag)) }
    })
    pure val inc = combine(r.n, m.b, m.d, st.ks, h)
    pure val diff = combine(r.n, mapi(stages(m), i => m.b[i] - m.bh[i]), m.d, st.ks, h)
    pure val ye = vadd(y0, inc)
    { y0: y0, inc: inc, diff: diff, y1: impose(r, t + h, ye),
      scale: imax(imax(maxAbs(y0), maxAbs(ye)), fmul(abs(h), st.mag)), k1: st.ks[0] }
  }

  /// composition of steps of length dt from t to stop, the last one shortened
  type Run = { t: int, y: List[int], scale: int, steps: int }
  pure def runFixed(m: Tableau, r: Rhs, t: int, y: List[int], stop: int, dt: int): Run = {
    pure val n = if (stop <= t) 0 else ceilDiv(stop - t, dt)
    range(0, n).foldl({ t: t, y: y, scale: maxAbs(y), steps: n }, (acc, i) => {
      pure val h = imin(dt, stop - acc.t)
      if (h <= 0) acc else {
        pure val s = rkStep(m, r, acc.t, acc.y, h)
        { ...acc, t: acc.t + h, y: s.y1, scale: imax(acc.scale, s.scale) }
      }
    })
  }
}
