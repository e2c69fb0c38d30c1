// -*- mode: Bluespec; -*-
/// Checker of executions recorded from the real library. An execution is a sequence of events; each event is one action of this
/// machine, which advances the specification's own solution (exact Runge-Kutta arithmetic, control rules) from the last observed
/// state and compares. Clauses that fail are collected with the property they belong to; the machine then continues from the
/// observed state so that the rest of the execution is checked too.
module trace {
  import num.* from "./num"
  import ieee.* from "./ieee"
  import rhs.* from "./rhs"
  import tableau.* from "./tableau"
  import control.* from "./control"

  /// the recorded executions, one number each: 64-bit words, least significant first, the first of them the number of the others
  const DATA: List[int]

  pure def unpack(v: int): List[int] =
    range(0, v % 2^64).foldl({ v: v / 2^64, l: [] }, (acc, _) => { v: acc.v / 2^64, l: acc.l.append(acc.v % 2^64) }).l
  pure def cut(b: List[int], i: int, n: int): List[int] = b.slice(i, i + n)
  pure def fxs(l: List[int]): List[int] = l.foldl([], (acc, x) => acc.append(fx(x)))
  pure def bit(mask: int, b: int): bool = (mask / b) % 2 == 1

  // ---- scenario ------------------------------------------------------------------------------------------------
  // flags
  pure val F_RECORDED = 1      // adaptive with recording on
  pure val F_STATES = 2        // ... including states
  pure val F_REST = 4          // all potentials equal at the start, nothing prescribed
  pure val F_CLOSED = 8        // closed network
  pure val F_EXACT = 16        // right-hand side is a polynomial in time of degree below the order
  pure val F_COARSE = 32       // first of a pair with step h
  pure val F_FINE = 64         // second of the pair, with step h/2
  pure val F_BASE = 256        // attempts until none is left, which the next execution makes again
  pure val F_EDGE = 512        // ... that execution
  pure val F_FIRST = 128       // rows recorded before any step are held to the equations too (finding first-row)

  type Proposal = Known(int) | After({ dt: int, err: int, rel: int, v: Verdict }) | Unknown
  type Scen = { tab: Tableau, sid: int, meth: int, flags: int, dt0: int, dtMax: int, maxIter: int, atol: int, rtol: int, ref: int,
                sched: List[int], rhs: Rhs, t0: int, y0: List[int], i0: int }
  /// solution as last observed (words and values), index, proposal, steps since the last row, rows so far, sum of recorded steps
  type Cur = { tw: int, t: int, yw: List[int], y: List[int], i: int, prop: Proposal, sub: int, rows: int, nrec: int, sumdt: int,
               moved: bool, scale: int, coarse: int, tr: int, seen: { n: int, err: int, hasRel: bool, rel: int } }

  pure val NOSCEN: Scen = { tab: EULER, sid: 0, meth: 0, flags: 0, dt0: 0, dtMax: 0, maxIter: 0, atol: 0, rtol: 0, ref: 0, sched: [],
    rhs: { n: 0, cap: [], res: [], eqs: [], edges: [], forced: [] }, t0: 0, y0: [], i0: 0 }
  pure val NOCUR: Cur = { tw: 0, t: 0, yw: [], y: [], i: 0, prop: Unknown, sub: 0, rows: 0, nrec: 0, sumdt: 0, moved: false,
    scale: 0, coarse: 0, tr: 0, seen: { n: 0, err: 0, hasRel: false, rel: 0 } }

  // scenario layout: 1 sid 2 meth 3 n 4 flags 5 dt0 6 dtMax 7 maxIter 8 atol 9 rtol 10 t0 11 i0 12 ref 13 size 14 nsched 15...
  pure def parseScen(b: List[int]): Scen = {
    pure val n = b[3]
    pure val ns = b[14]
    pure val a = 15 + ns
    pure val ne = b[a + 3 * n]
    pure val e0 = a + 3 * n + 1
    pure val nf = b[e0 + 3 * ne]
    pure val fs = range(0, nf).foldl({ p: e0 + 3 * ne + 1, l: [] }, (acc, k) => {
      pure val np = b[acc.p + 2]
      { p: acc.p + 3 + np, l: acc.l.append({ j: b[acc.p], kind: b[acc.p + 1], poly: fxs(cut(b, acc.p + 3, np)) }) }
    })
    pure val es = range(0, n).foldl({ p: fs.p, l: [] }, (acc, k) => {
      pure val nt = b[acc.p]
      pure val ts = range(0, nt).foldl({ p: acc.p + 1, l: [] }, (bcc, m) => {
        pure val ny = b[bcc.p + 2]
        { p: bcc.p + 3 + ny, l: bcc.l.append({ c: fx(b[bcc.p]), tp: b[bcc.p + 1], ys: cut(b, bcc.p + 3, ny) }) }
      })
      { p: ts.p, l: acc.l.append(ts.l) }
    })
    { tab: TABLEAUS[b[2]], sid: b[1], meth: b[2], flags: b[4], dt0: b[5], dtMax: b[6], maxIter: b[7], atol: b[8],
      rtol: b[9], ref: b[12], sched: cut(b, 15, ns), t0: fx(b[10]), y0: fxs(cut(b, a, n)), i0: b[11],
      rhs: { n: n, cap: fxs(cut(b, a + n, n)), res: cut(b, a + 2 * n, n).foldl([], (acc, x) => acc.append(x == 1)),
             edges: range(0, ne).foldl([], (acc, k) => acc.append({ a: b[e0 + 3 * k], b: b[e0 + 3 * k + 1], h: fx(b[e0 + 3 * k + 2]) })),
             forced: fs.l, eqs: es.l } }
  }

  pure def isAdaptive(m: int): bool = m >= 5
  pure def stepTag(m: int): str = if (m <= 3) "C03" else if (m == 4) "C04" else if (m == 5) "C05" else "C06"

  // ---- tolerances: the implementation computes in doubles (2^-53 per operation) ----------------------------------
  pure def tolT(a: int, b: int): int = imax(abs(a), abs(b)) / 2^49
  pure def tolY(scale: int): int = scale / 2^36 + tiny(180)
  pure def tolK(mag: int): int = mag / 2^43 + tiny(180)

  // ---- shared clauses ------------------------------------------------------------------------------------------
  /// derivatives and flows of a row against the equations at the row's own states and time
  pure def consistent(sc: Scen, t: int, y: List[int], k: List[int], q: List[int]): bool = {
    pure val e = evalRhs(sc.rhs, t, y)
    and {
      k.length() == sc.rhs.n,
      q.length() == sc.rhs.edges.length(),
      range(0, sc.rhs.n).foldl(true, (acc, i) => acc and near(k[i], e.k[i], tolK(e.mag[i]))),
      range(0, q.length()).foldl(true, (acc, i) => acc and {
        pure val g = sc.rhs.edges[i]
        near(q[i], e.q[i], tolK(fmul(abs(g.h), imax(abs(y[g.a]), abs(y[g.b])))))
      }),
    }
  }
  /// prescribed potentials show their formula at the row's time
  pure def prescribed(sc: Scen, t: int, y: List[int]): bool =
    sc.rhs.forced.foldl(true, (acc, f) => acc and {
      pure val g = forceAt(f, t)
      near(y[f.j], g, (abs(g) + fromInt(1)) / 2^36)
    })
  /// reservoirs (not prescribed) keep their bits, and their derivative is zero
  pure def reservoirsHeld(sc: Scen, before: List[int], after: List[int], kw: List[int]): bool =
    range(0, sc.rhs.n).foldl(true, (acc, i) => acc and or {
      not(sc.rhs.res[i]),
      isZero(kw[i]) and (same(before[i], after[i]) or sc.rhs.forced.foldl(false, (b, f) => b or f.j == i)),
    })
  pure def conserved(sc: Scen, y: List[int]): bool =
    near(stored(sc.rhs, y), stored(sc.rhs, sc.y0), imax(storedMag(sc.rhs, y), storedMag(sc.rhs, sc.y0)) / 2^36)
  /// at rest: potentials keep their bits, derivatives and flows are zero
  pure def atRest(before: List[int], after: List[int], kw: List[int], qw: List[int]): bool = and {
    range(0, before.length()).foldl(true, (acc, i) => acc and same(before[i], after[i]) and isZero(kw[i])),
    qw.foldl(true, (acc, x) => acc and isZero(x)),
  }
  /// exact solution when the right-hand side is a polynomial in time
  pure def integral(sc: Scen, t: int, i: int): int =
    sc.rhs.eqs[i].foldl(sc.y0[i], (acc, x) => acc + fmul(x.c, fpow(t, x.tp + 1) - fpow(sc.t0, x.tp + 1)) / (x.tp + 1))
  /// size of the quantities a polynomial problem passes through
  pure def integralMag(sc: Scen, t: int, i: int): int =
    sc.rhs.eqs[i].foldl(abs(sc.y0[i]), (acc, x) => acc + fmul(abs(x.c), fpow(imax(abs(t), abs(sc.t0)), x.tp + 1)))
  /// reference problems with a known solution (state 0): 1: y' = -2 t y^2, y(0) = 1; 2: y' = -y, y(0) = 1
  /// 3: y' = y, y(0) = 1; 4: y' = 3 t^2 y, y(0) = 1 (y = exp(t^3))
  pure def reference(ref: int, t: int): int =
    if (ref == 1) fdiv(ONE, ONE + fmul(t, t))
    else if (ref == 2) fexp(-t)
    else if (ref == 3) fexp(t)
    else fexp(fpow(t, 3))

  // ---- adaptive clauses ----------------------------------------------------------------------------------------
  pure def verdict(sc: Scen, err: int, hasRel: bool, rel: int): Verdict =
    { hasRel: hasRel, relMet: le(rel, sc.rtol), absMet: le(err, sc.atol), absBelow: lt(err, sc.atol) }
  /// |obs - sqrt(sq)| <= tol
  pure def nearRoot(obs: int, s: int, tol: int): bool = {
    pure val lo = imax(obs - tol, 0)
    pure val hi = obs + tol
    obs >= 0 and fmul(lo, lo) <= s and s <= fmul(hi, hi) + 1
  }
  pure def errOk(st: Step, errw: int): bool = {
    pure val e = fx(errw)
    fin(errw) and nearRoot(e, sq(st.diff), e / 2^26 + st.scale / 2^43 + tiny(90))
  }
  /// rel = err / |inc|; absent only for a zero increment
  pure def relOk(st: Step, errw: int, hasRel: bool, relw: int): bool = {
    pure val noise = st.scale / 2^43 + tiny(90)
    if (not(hasRel)) sq(st.inc) <= fmul(noise, noise) + 1
    else {
      pure val e = fx(errw)
      pure val r = fx(relw)
      // e / r = |inc|, compared multiplied out
      pure val s = fmul(fmul(r, r), sq(st.inc))
      fin(relw) and not(negative(relw)) and nearRoot(e, s, e / 2^26 + fmul(r, noise) + tiny(90))
    }
  }
  /// would an attempt with these exact estimates be accepted on tolerance, whatever the rounding?
  pure def surelyOnTolerance(sc: Scen, st: Step): bool = {
    pure val noise = st.scale / 2^40 + tiny(90)
    pure val e2 = sq(st.diff)
    pure val a = fx(sc.atol) - noise
    pure val i2 = sq(st.inc)
    or {
      a > 0 and e2 + e2 / 2^20 < fmul(a, a),
      and {
        i2 > fmul(1024 * noise, 1024 * noise), fx(sc.rtol) > 0,
        // sqrt(e2) + noise <= rtol * (|inc| - noise), squared with 2(a^2+b^2) >= (a+b)^2 only where noise matters
        2 * (e2 + fmul(noise, noise)) <= fmul(fmul(fx(sc.rtol), fx(sc.rtol)), i2 - i2 / 2^8),
      },
    }
  }
  /// p^5 * den ~ dt^5 * num, all exact products of integers
  pure def near5(p: int, den: int, dt: int, num: int): bool = {
    pure val l = p^5 * den
    pure val r = dt^5 * num
    abs(l - r) <= r / 2^26
  }
  pure def atMost5(p: int, den: int, dt: int, num: int): bool = {
    pure val r = dt^5 * num
    p^5 * den <= r + r / 2^26
  }
  /// the proposal p that follows an accepted step obeys the control rule; `lower`: p is only known to be at least this value
  pure def ruleOk(sc: Scen, p: int, dt: int, errw: int, relw: int, v: Verdict, lower: bool): bool = {
    pure val e = fx(errw)
    pure val r = fx(relw)
    pure val m = fx(sc.dtMax)
    match scaling(v) {
      | ByRel => pick(p, r, dt, fx(sc.rtol), m, lower)
      | ByAbs => pick(p, e, dt, fx(sc.atol), m, lower)
      | ByAbsFourth => true
      | Quarter => if (lower) 4 * p <= dt + dt / 2^40 else near(4 * p, dt, dt / 2^40)
    }
  }
  pure def pick(p: int, den: int, dt: int, num: int, m: int, lower: bool): bool =
    if (num == 0) true                                     // tolerance too small to be told from zero
    else if (lower) p >= m or atMost5(p, den, dt, num)
    else if (near(p, m, m / 2^45)) atMost5(m, den, dt, num)
    else p < m and near5(p, den, dt, num)

  /// clauses of one adaptive step of length dt that took `n` attempts; `limit` is the time available
  pure def cl(tag: str, ok: bool, what: str): Tagged = { tag: tag, ok: ok, what: what }
  type Tagged = { tag: str, ok: bool, what: str }
  pure def adaptiveClauses(sc: Scen, c: Cur, st: Step, dtw: int, n: int, hasErr: bool, errw: int, hasRel: bool, relw: int,
                           limit: int, slack: int): List[Tagged] = {
    pure val dt = fx(dtw)
    pure val lim = imin(limit, fx(sc.dtMax))
    pure val v = verdict(sc, errw, hasRel, relw)
    pure val tag = stepTag(sc.meth)
    pure val first = match c.prop {
      | Known(p) => firstTry(p, limit, fx(sc.dtMax))
      | After(_) => 0
      | Unknown => 0
    }
    pure val s1 = if (n >= 2 and first > 0) rkStep(sc.tab, sc.rhs, c.t, c.y, first) else st
    // a rejected attempt whose increment is zero is scaled by (atol/err)^(1/4) instead of 1/4; whether a very small increment is
    // zero in the arithmetic of the implementation cannot be told, so that both are possible
    pure val zeroRej = n >= 2 and first > 0 and maxAbs(s1.inc) <= s1.scale / 2^44 and sq(s1.diff) > 0
    pure val h1 = dt * 4^imin(imax(n - 1, 0), 60)
    pure val h2 = h1 / 4
    pure val attemptsOk = or {
      n < 2, zeroRej, walled(sc.rhs), h1 > lim + lim / 2^20 + slack,
      range(1, n).foldl(true, (acc, j) => acc and not(surelyOnTolerance(sc, rkStep(sc.tab, sc.rhs, c.t, c.y, dt * 4^(n - j))))),
    }
    [ cl("C02", isPos(dtw) and le(dtw, sc.dtMax) and dt <= limit + slack, "step within maximum and remaining time"),
      cl(tag, hasErr and errOk(st, errw), "error estimate"),
      cl(tag, hasErr and relOk(st, errw, hasRel, relw), "relative error estimate"),
      cl("C07", n >= 1 and n <= imax(sc.maxIter, 1) and accepted(v, n, sc.maxIter), "accepted on tolerance or attempts"),
      cl("C07", attemptsOk, "earlier attempt met the tolerance"),
      cl("C08", match c.prop {
          | Known(p) => near(h1, first, slack + h1 / 2^45) or
              (zeroRej and near(fpow(h2, 4), fdiv(fmul(fpow(first, 4), fx(sc.atol)), rootOf(sq(s1.diff))), fpow(h2, 4) / 2^20))
          | After(a) => {
              pure val clipped = near(h1, lim, slack + h1 / 2^45)
              h1 <= lim + slack + h1 / 2^45 and
                (if (clipped) ruleOk(sc, imax(h1 - slack - h1 / 2^44, 0), a.dt, a.err, a.rel, a.v, true)
                 else ruleOk(sc, h1, a.dt, a.err, a.rel, a.v, false))
            }
          | Unknown => h1 <= lim + slack + h1 / 2^45
        }, "step first tried") ]
  }
  /// square root by Newton's iteration (fixed point)
  pure def rootOf(s: int): int =
    if (s <= 0) 0 else range(0, 220).foldl(fromInt(1) + s, (x, _) => (x + fdiv(s, imax(x, 1))) / 2)

  // ---- machine -------------------------------------------------------------------------------------------------
  /// executions taken up so far, words of the one in progress, position in them
  var taken: int
  var buf: List[int]
  var pos: int
  var done: bool
  def w(i: int): int = buf[i]
  def ws(i: int, n: int): List[int] = buf.slice(i, i + n)
  var sc: Scen
  var cur: Cur
  /// the report time in progress (as a word), 0 beyond the schedule
  val target0 = if (cur.i >= 0 and cur.i < sc.sched.length()) sc.sched[cur.i] else 0
  var bad: List[{ sid: int, tag: str, what: str, at: int }]
  /// coverage: events per kind, accepted steps by scaling, rejected attempts, zero increments, clipped steps, ...
  var cov: str -> int

  pure val KEYS = Set("scen", "step", "row", "end", "dstep", "span", "evalpt", "rejected", "byRel", "byAbs", "quarter", "fourth", "norel",
    "exhausted", "passed", "shortened", "fixedsteps", "prescribed", "rest", "closed", "exact", "conv", "rowchk", "unk", "jumped", "edge", "walls")
  pure def bump(m: str -> int, ks: List[(str, int)]): str -> int = ks.foldl(m, (acc, k) => acc.setBy(k._1, old => old + k._2))
  pure def failing(ts: List[Tagged], s: int, at: int, b: List[{ sid: int, tag: str, what: str, at: int }]): List[{ sid: int, tag: str, what: str, at: int }] =
    ts.foldl(b, (acc, x) => if (x.ok or acc.length() >= 200) acc else acc.append({ sid: s, tag: x.tag, what: x.what, at: at }))
  pure def b2i(b: bool): int = if (b) 1 else 0

  action init = all {
    taken' = 0,
    buf' = [],
    pos' = 0,
    done' = false,
    sc' = NOSCEN,
    cur' = NOCUR,
    bad' = [],
    cov' = KEYS.mapBy(k => 0),
  }

  action begin = all {
    taken < DATA.length(),
    pos == buf.length(),
    val b = unpack(DATA[taken])
    val s = parseScen(b)
    all {
      b[0] == 1,
      taken' = taken + 1,
      buf' = b,
      pos' = b[13],
      sc' = s,
      cur' = { tw: b[10], t: s.t0, yw: cut(b, 15 + b[14], s.rhs.n), y: s.y0, i: s.i0, prop: Known(fx(s.dt0)), sub: 0, rows: 0, nrec: 0,
               sumdt: 0, moved: false, scale: maxAbs(s.y0), coarse: cur.coarse, tr: s.t0, seen: cur.seen },
      bad' = bad,
      cov' = bump(cov, [("scen", 1), ("rest", b2i(bit(s.flags, F_REST))), ("closed", b2i(bit(s.flags, F_CLOSED))), ("exact", b2i(bit(s.flags, F_EXACT)))]),
      done' = false,
    }
  }

  /// the execution in progress goes on in the next number
  action more = all {
    taken < DATA.length(),
    pos == buf.length(),
    val b = unpack(DATA[taken])
    all {
      b[0] == 9,
      taken' = taken + 1,
      buf' = b,
      pos' = 1,
      sc' = sc,
      cur' = cur,
      bad' = bad,
      cov' = cov,
      done' = false,
    }
  }

  /// an entry of the adaptive solver's record: 1 t 2 dt 3 n 4 hasErr 5 err 6 hasRel 7 rel 8 ns 9...
  action accStep = {
    val tw = w(pos + 1)
    val dtw = w(pos + 2)
    val n = w(pos + 3)
    val hasErr = w(pos + 4) == 1
    val hasRel = w(pos + 6) == 1
    val ns = w(pos + 8)
    val target = fx(target0)
    val slack = tolT(target, cur.t)
    val dt = fx(dtw)
    val st = rkStep(sc.tab, sc.rhs, cur.t, cur.y, dt)
    val yr = vadd(st.y0, st.inc)
    val states = fxs(ws(pos + 9, ns))
    val statesOk = ns == sc.rhs.n and nearv(states, yr, tolY(st.scale))
    val v = verdict(sc, w(pos + 5), hasRel, w(pos + 7))
    val clauses = adaptiveClauses(sc, cur, st, dtw, n, hasErr, w(pos + 5), hasRel, w(pos + 7), target - cur.t, slack).concat([
      cl("C09", fin(tw) and near(fx(tw), cur.t, slack) and (cur.sub > 0 or same(tw, cur.tw)), "entry starts where the previous ended"),
      cl("C09", not(bit(sc.flags, F_STATES)) or statesOk, "recorded states"),
      cl("C02", stepping(cur.t, target), "step only before the report time"),
    ])
    val useObs = bit(sc.flags, F_STATES) and statesOk and sc.rhs.forced.length() == 0
    all {
      pos < buf.length(),
      w(pos) == 2,
      cur.i < sc.sched.length(),
      pos' = pos + 9 + ns,
      taken' = taken,
      buf' = buf,
      done' = false,
      sc' = sc,
      cur' = { ...cur, t: fx(tw) + dt, tw: 0, y: if (useObs) states else st.y1, yw: [],
               prop: After({ dt: dt, err: w(pos + 5), rel: w(pos + 7), v: v }), sub: cur.sub + 1, nrec: cur.nrec + 1,
               sumdt: cur.sumdt + dt, moved: true, scale: imax(cur.scale, st.scale) },
      bad' = failing(clauses, sc.sid, pos, bad),
      cov' = bump(cov, [("step", 1), ("rejected", imax(n - 1, 0)), ("walls", b2i(n >= 2 and walled(sc.rhs))), ("norel", b2i(not(hasRel))), ("exhausted", b2i(not(onTolerance(v)))),
        ("byRel", b2i(scaling(v) == ByRel)), ("byAbs", b2i(scaling(v) == ByAbs)), ("quarter", b2i(scaling(v) == Quarter)),
        ("fourth", b2i(scaling(v) == ByAbsFourth)), ("shortened", b2i(near(dt, target - cur.t, slack)))]),
    }
  }

  /// a row of the histories: 1 i 2 t then y, k, q
  action row = {
    val n = sc.rhs.n
    val ne = sc.rhs.edges.length()
    val tw = w(pos + 2)
    val yw = ws(pos + 3, n)
    val kw = ws(pos + 3 + n, n)
    val qw = ws(pos + 3 + 2 * n, ne)
    val y = fxs(yw)
    val t = fx(tw)
    val tgw = target0
    val target = fx(tgw)
    val passed = target <= (if (cur.sub > 0) target - 1 else cur.t)
    val slack = tolT(target, cur.t)
    val finite = fin(tw) and yw.foldl(true, (acc, x) => acc and fin(x))
    val tag = stepTag(sc.meth)
    val comparable = or { not(isAdaptive(sc.meth)), bit(sc.flags, F_RECORDED) }
    val res = if (isAdaptive(sc.meth)) { t: cur.t, y: cur.y, scale: cur.scale, steps: 0 }
              else runFixed(sc.tab, sc.rhs, cur.t, cur.y, target, fx(sc.dt0))
    val before = if (cur.yw.length() == n) cur.yw else yw
    val clauses = [
      cl("C01", finite and w(pos + 1) == cur.i + 1, "row position"),
      cl("C01", walking(cur.tr, fx(sc.sched[sc.sched.length() - 1])), "no row after the last report time"),
      cl("C01", if (passed) same(tw, cur.tw) else le(tgw, tw) and near(t, target, slack), "row time"),
      cl("C02", passed or near(t, target, slack), "interval ends on the report time"),
      cl("C09", passed or not(isAdaptive(sc.meth)) or not(bit(sc.flags, F_RECORDED)) or near(cur.t, target, slack), "entries cover the interval"),
      cl(tag, passed or not(comparable) or nearv(y, res.y, tolY(res.scale) * (if (isAdaptive(sc.meth)) 4 else 1)), "states of the row"),
      cl("C02", passed or isAdaptive(sc.meth) or nearv(y, res.y, tolY(res.scale)), "row reached in steps of the set length and a shorter last one"),
      cl("C01", not(passed) or nearv(y, cur.y, 0), "passed report time leaves the states"),
      cl("C10", not(cur.moved or not(passed) or bit(sc.flags, F_FIRST)) or (finite and consistent(sc, t, y, fxs(kw), fxs(qw))), "derivatives and flows of the row"),
      cl("C18", passed or not(finite) or prescribed(sc, t, y), "prescribed potential"),
      cl("C18", passed or cur.yw.length() != n or reservoirsHeld(sc, before, yw, kw), "reservoir held"),
      cl("C17", not(bit(sc.flags, F_CLOSED)) or (finite and conserved(sc, y)), "stored quantity conserved"),
      cl("C17", not(bit(sc.flags, F_REST)) or passed or atRest(before, yw, kw, qw), "rest"),
      cl("C24", not(bit(sc.flags, F_EXACT)) or (finite and
          range(0, n).foldl(true, (acc, i) => acc and near(y[i], integral(sc, t, i), integralMag(sc, t, i) / 2^36 + tiny(150)))), "polynomial integrated exactly"),
    ]
    all {
      pos < buf.length(),
      w(pos) == 3,
      cur.i < sc.sched.length(),
      pos' = pos + 3 + 2 * n + ne,
      taken' = taken,
      buf' = buf,
      done' = false,
      sc' = sc,
      cur' = { ...cur, tw: tw, t: t, yw: yw, y: y, i: cur.i + 1, sub: 0, rows: cur.rows + 1, moved: cur.moved or not(passed),
               scale: maxAbs(y), tr: t,
               prop: if (isAdaptive(sc.meth) and not(bit(sc.flags, F_RECORDED))) Unknown else cur.prop },
      bad' = failing(clauses, sc.sid, pos, bad),
      cov' = bump(cov, [("row", 1), ("passed", b2i(passed)), ("fixedsteps", res.steps), ("rowchk", b2i(comparable)),
        ("prescribed", b2i(sc.rhs.forced.length() > 0))]),
    }
  }

  /// more rows than report times: a row with no report time left
  action surplusRow = {
    val n = sc.rhs.n
    all {
      pos < buf.length(),
      w(pos) == 3 or w(pos) == 2 or w(pos) == 6,
      cur.i >= sc.sched.length(),
      pos' = pos + (if (w(pos) == 3) 3 + 2 * n + sc.rhs.edges.length() else if (w(pos) == 2) 9 + w(pos + 8) else 5),
      taken' = taken,
      buf' = buf,
      done' = false,
      sc' = sc,
      cur' = cur,
      bad' = failing([cl("C01", false, "row or step after the last report time")], sc.sid, pos, bad),
      cov' = bump(cov, [("unk", 1)]),
    }
  }

  /// range of the times at which the equations were evaluated in the interval about to be closed: 1 i 2 tmin 3 tmax 4 count
  action span = {
    val target = fx(target0)
    val slack = tolT(target, cur.t)
    all {
      pos < buf.length(),
      w(pos) == 6,
      cur.i < sc.sched.length(),
      pos' = pos + 5,
      taken' = taken,
      buf' = buf,
      done' = false,
      sc' = sc,
      cur' = cur,
      bad' = failing([
        cl("C02", w(pos + 1) == cur.i, "evaluations belong to the interval in progress"),
        cl("C02", fin(w(pos + 2)) and fin(w(pos + 3)) and fx(w(pos + 2)) >= cur.t - slack and fx(w(pos + 3)) <= target + slack, "evaluations inside the interval"),
      ], sc.sid, pos, bad),
      cov' = bump(cov, [("span", 1)]),
    }
  }

  /// end of a walk: 1 rows of the system 2 every tracked history has as many (1/0) 3 i 4 t then y, k, q, then
  /// changed-fields mask, adaptive: dt nIter hasErr err hasRel rel, entries gained by the record, hasMean mean, twin equality mask,
  /// number and lengths of the steps that were in the record before
  action end = {
    val n = sc.rhs.n
    val ne = sc.rhs.edges.length()
    val a = pos + 5
    val b = a + 2 * n + ne
    val tw = w(pos + 4)
    val yw = ws(a, n)
    val kw = ws(a + n, n)
    val qw = ws(a + 2 * n, ne)
    val y = fxs(yw)
    val t = fx(tw)
    val last = if (sc.sched.length() == 0) sc.t0 else fx(sc.sched[sc.sched.length() - 1])
    val finite = fin(tw) and yw.foldl(true, (acc, x) => acc and fin(x))
    val mask = w(b)
    val dtw = w(b + 1)
    val twin = w(b + 10)
    val nrec = w(b + 7)
    val old = w(b + 11)
    val sum0 = fxs(ws(b + 12, old)).foldl(0, (acc, x) => acc + x)
    val adaptive = isAdaptive(sc.meth)
    val recorded = bit(sc.flags, F_RECORDED)
    val e = abs(y[0] - reference(sc.ref, t))
    val p = sc.tab.order
    val clauses = [
      cl("C01", finite and not(walking(t, last)), "walk reaches the last report time"),
      cl("C01", w(pos + 1) == cur.rows and w(pos + 2) == 1, "one row per report time in every history"),
      cl("C01", w(pos + 3) == cur.i and (cur.sub > 0 or same(tw, cur.tw)), "final position and clock"),
      cl("C11", cur.sub > 0 or yw.length() != cur.yw.length() or range(0, n).foldl(true, (acc, i) => acc and same(yw[i], cur.yw[i])), "live states are those of the last row"),
      cl("C10", not(cur.moved) or (finite and consistent(sc, t, y, fxs(kw), fxs(qw))), "live derivatives and flows"),
      // 1: parameters and user fields 2: schedule 4: solver settings 8: earlier rows of any history 16: untracked histories
      // 32: diagnostics of a method that has none (fixed step), 64: record although recording is off
      cl("C11", mask % 32 == 0, "only solution fields change"),
      cl("C09", not(adaptive) or recorded or nrec == 0, "nothing recorded with recording off"),
      cl("C09", not(adaptive) or not(recorded) or nrec == cur.nrec, "one entry per accepted step"),
      cl("C09", not(adaptive) or (if (nrec + old == 0) w(b + 8) == 0 else w(b + 8) == 1 and (nrec != (if (recorded) cur.nrec else 0) or near((nrec + old) * fx(w(b + 9)), cur.sumdt + sum0, (cur.sumdt + sum0) / 2^40))), "mean step"),
      cl("C08", not(adaptive) or not(finite) or (isPos(dtw) and le(dtw, sc.dtMax)) or (cur.rows == 0 and not(cur.moved)) or not(cur.moved), "proposal finite, positive, at most the maximum"),
      cl("C08", not(adaptive) or match cur.prop {
          | Known(_) => true
          | After(q) => ruleOk(sc, fx(dtw), q.dt, q.err, q.rel, q.v, false)
          | Unknown => true
        }, "proposal after the last step"),
      cl("C07", not(adaptive) or not(cur.moved) or (w(b + 2) >= 1 and w(b + 2) <= imax(sc.maxIter, 1)), "attempt count"),
      cl("C01", not(bit(twin, 64)), "walking again after the end changes nothing"),
      cl("C01", cur.rows > 0 or not(bit(twin, 128)), "a walk with nothing due changes nothing"),
      cl("C09", not(bit(twin, 1)), "recording on or off gives the same rows"),
      cl("C09", not(bit(twin, 32)), "nothing recorded with recording off"),
      cl("C20", not(bit(twin, 2)), "second run gives the same result"),
      cl("C20", not(bit(twin, 4)), "run resumed from saved points gives the same result"),
      cl("C20", not(bit(twin, 8)), "run driven by hand gives the same result"),
      cl("C20", not(bit(twin, 16)), "run over an extended schedule gives the same result"),
      cl("C20", not(bit(twin, 256)), "run interleaved with runs of other systems gives the same result"),
      cl("C20", not(bit(twin, 512)), "run beside runs of other systems in other threads gives the same result"),
      cl("C24", not(bit(sc.flags, F_FINE)) or 100 * cur.coarse >= 2^p * 85 * e, "order of accuracy"),
    ]
    all {
      pos < buf.length(),
      w(pos) == 4,
      pos' = b + 12 + old,
      taken' = taken,
      buf' = buf,
      done' = false,
      sc' = sc,
      cur' = { ...cur, coarse: if (bit(sc.flags, F_COARSE)) e else cur.coarse },
      bad' = failing(clauses, sc.sid, pos, bad),
      cov' = bump(cov, [("end", 1), ("conv", b2i(bit(sc.flags, F_FINE)))]),
    }
  }

  /// one step called directly: 1 meth 2 argument (step, or time available) 3 dt used 4 t after 5 n 6 hasErr 7 err 8 hasRel 9 rel
  /// 10 proposal after 11 changed-fields mask (with 8 also for any row added) 12 entries gained by the record, then y, k, q
  action direct = {
    val n = sc.rhs.n
    val ne = sc.rhs.edges.length()
    val arg = fx(w(pos + 2))
    val dtw = w(pos + 3)
    val dt = fx(dtw)
    val yw = ws(pos + 13, n)
    val kw = ws(pos + 13 + n, n)
    val qw = ws(pos + 13 + 2 * n, ne)
    val y = fxs(yw)
    val tw = w(pos + 4)
    val t = fx(tw)
    val finite = fin(dtw) and fin(tw) and yw.foldl(true, (acc, x) => acc and fin(x))
    val st = rkStep(sc.tab, sc.rhs, cur.t, cur.y, dt)
    val hasRel = w(pos + 8) == 1
    val v = verdict(sc, w(pos + 7), hasRel, w(pos + 9))
    val adaptive = isAdaptive(sc.meth)
    val pw = w(pos + 10)
    val tag = stepTag(sc.meth)
    val clauses = [
      cl(tag, finite and nearv(y, st.y1, tolY(st.scale) / 32), "states after the step"),
      cl(tag, finite and near(t, cur.t + dt, tolT(cur.t, t)), "clock after the step"),
      cl("C10", finite and consistent(sc, t, y, fxs(kw), fxs(qw)), "derivatives and flows after the step"),
      cl("C18", not(finite) or (prescribed(sc, t, y) and reservoirsHeld(sc, cur.yw, yw, kw)), "prescribed potentials and reservoirs"),
      cl("C17", not(bit(sc.flags, F_CLOSED)) or (finite and conserved(sc, y)), "stored quantity conserved"),
      cl("C17", not(bit(sc.flags, F_REST)) or atRest(cur.yw, yw, kw, qw), "rest"),
      cl("C11", w(pos + 11) % 32 == 0, "a step changes only solution fields and no history"),
      cl("C09", w(pos + 12) == (if (adaptive and bit(sc.flags, F_RECORDED)) 1 else 0), "one entry per accepted step"),
    ].concat(if (not(adaptive)) [] else
      adaptiveClauses(sc, cur, st, dtw, w(pos + 5), w(pos + 6) == 1, w(pos + 7), hasRel, w(pos + 9), arg, arg / 2^50).concat([
        cl("C07", w(pos + 5) < 2 or (finite and near(t, cur.t + dt, tolT(cur.t, t)) and nearv(y, st.y1, tolY(st.scale) / 32)), "rejected attempts leave time and states"),
        cl("C08", isPos(pw) and le(pw, sc.dtMax) and ruleOk(sc, fx(pw), dt, w(pos + 7), w(pos + 9), v, false), "next proposal"),
        // estimates known exactly from an execution that made the same attempts: tolerances met and missed by one unit in the last place
        cl("C07", not(bit(sc.flags, F_EDGE)) or w(pos + 5) < cur.seen.n or
          (w(pos + 5) == cur.seen.n) == accepted(verdict(sc, cur.seen.err, cur.seen.hasRel, cur.seen.rel), cur.seen.n, sc.maxIter), "accepted exactly on tolerance"),
      ]))
    all {
      pos < buf.length(),
      w(pos) == 5,
      pos' = pos + 13 + 2 * n + ne,
      taken' = taken,
      buf' = buf,
      done' = false,
      sc' = sc,
      cur' = { ...cur, tw: tw, t: t, yw: yw, y: y, prop: Known(fx(pw)), moved: true, nrec: cur.nrec + 1,
               seen: if (bit(sc.flags, F_BASE)) { n: w(pos + 5), err: w(pos + 7), hasRel: hasRel, rel: w(pos + 9) } else cur.seen },
      bad' = failing(clauses, sc.sid, pos, bad),
      cov' = bump(cov, [("dstep", 1), ("walls", b2i(adaptive and w(pos + 5) >= 2 and walled(sc.rhs))), ("edge", b2i(bit(sc.flags, F_EDGE))), ("rejected", if (adaptive) imax(w(pos + 5) - 1, 0) else 0), ("norel", b2i(adaptive and not(hasRel))),
        ("exhausted", b2i(adaptive and not(onTolerance(v)))), ("byRel", b2i(adaptive and scaling(v) == ByRel)),
        ("byAbs", b2i(adaptive and scaling(v) == ByAbs)), ("quarter", b2i(adaptive and scaling(v) == Quarter)),
        ("fourth", b2i(adaptive and scaling(v) == ByAbsFourth))]),
    }
  }

  /// the equations evaluated once at given states: 1 t 2 changed-fields mask then y before, y after, k, q
  action evalpt = {
    val n = sc.rhs.n
    val ne = sc.rhs.edges.length()
    val t = fx(w(pos + 1))
    val y0 = fxs(ws(pos + 3, n))
    val y1 = fxs(ws(pos + 3 + n, n))
    val k = fxs(ws(pos + 3 + 2 * n, n))
    val q = fxs(ws(pos + 3 + 3 * n, ne))
    val kc = sumf(n, i => if (sc.rhs.res[i]) 0 else fmul(sc.rhs.cap[i], k[i]))
    val kcm = sumf(n, i => if (sc.rhs.res[i]) 0 else abs(fmul(sc.rhs.cap[i], k[i])))
    val qm = range(0, ne).foldl(0, (acc, i) => imax(acc, abs(q[i])))
    all {
      pos < buf.length(),
      w(pos) == 7,
      pos' = pos + 3 + 3 * n + ne,
      taken' = taken,
      buf' = buf,
      done' = false,
      sc' = sc,
      cur' = cur,
      bad' = failing([
        cl("C16", consistent(sc, t, y1, k, q), "flow balance"),
        cl("C16", nearv(y1, impose(sc.rhs, t, y0), maxAbs(y1) / 2^36), "connecting leaves the potentials"),
        cl("C16", not(bit(sc.flags, F_CLOSED)) or near(kc, 0, (kcm + qm) / 2^43 + tiny(180)), "closed network balances"),
        cl("C16", w(pos + 2) == 0, "nothing else changes"),
      ], sc.sid, pos, bad),
      cov' = bump(cov, [("evalpt", 1)]),
    }
  }

  /// part of a long walk, step by step but without recomputing the steps: 1 number of items, then per item
  /// 2 + 256 * attempts, start, length (entry of the record) or 3, position, time (row); the last is a row, and its states follow
  action jump = {
    val n = sc.rhs.n
    val m = w(pos + 1)
    val yw = ws(pos + 2 + 3 * m, n)
    val y = fxs(yw)
    val last = fx(sc.sched[sc.sched.length() - 1])
    val recorded = isAdaptive(sc.meth) and bit(sc.flags, F_RECORDED)
    val r = range(0, m).foldl({ t: cur.t, tw: cur.tw, i: cur.i, sub: 0, rows: 0, nrec: 0, sum: 0, moved: false, pos: true, time: true, len: true, start: true, att: true, cover: true }, (acc, k) => {
      val p = pos + 2 + 3 * k
      val target = if (acc.i < sc.sched.length()) fx(sc.sched[acc.i]) else 0
      val slack = tolT(target, acc.t)
      val a = fx(w(p + 1))
      val b = fx(w(p + 2))
      if (w(p) % 256 == 2) {
        ...acc, t: a + b, sub: acc.sub + 1, nrec: acc.nrec + 1, sum: acc.sum + b, moved: true,
        start: acc.start and fin(w(p + 1)) and near(a, acc.t, slack) and (acc.sub > 0 or same(w(p + 1), acc.tw)),
        len: acc.len and fin(w(p + 2)) and isPos(w(p + 2)) and le(w(p + 2), sc.dtMax) and acc.t < target and b <= target - acc.t + slack,
        att: acc.att and w(p) / 256 >= 1 and w(p) / 256 <= imax(sc.maxIter, 1),
      } else {
        val passed = acc.sub == 0 and target <= acc.t
        {
          ...acc, t: b, tw: w(p + 2), i: acc.i + 1, sub: 0, rows: acc.rows + 1, moved: acc.moved or not(passed),
          pos: acc.pos and w(p + 1) == acc.i + 1 and acc.i < sc.sched.length() and walking(if (acc.sub == 0) acc.t else target - 1, last),
          time: acc.time and fin(w(p + 2)) and (if (passed) same(w(p + 2), acc.tw) else le(sc.sched[acc.i], w(p + 2)) and near(b, target, slack)),
          cover: acc.cover and (passed or not(recorded) or near(acc.t, target, slack)),
        }
      }
    })
    all {
      pos < buf.length(),
      w(pos) == 8,
      cur.i < sc.sched.length(),
      cur.sub == 0,
      pos' = pos + 2 + 3 * m + n,
      taken' = taken,
      buf' = buf,
      done' = false,
      sc' = sc,
      cur' = { ...cur, tw: r.tw, t: r.t, yw: yw, y: y, i: r.i, rows: cur.rows + r.rows, nrec: cur.nrec + r.nrec, sumdt: cur.sumdt + r.sum,
               moved: cur.moved or r.moved, scale: maxAbs(y), tr: r.t, prop: if (isAdaptive(sc.meth)) Unknown else cur.prop },
      bad' = failing([
        cl("C01", r.pos, "row position"), cl("C01", r.time, "row time"),
        cl("C02", r.len, "step within maximum and remaining time"), cl("C09", r.start, "entry starts where the previous ended"),
        cl("C09", r.cover, "entries cover the interval"), cl("C07", r.att, "attempt count"),
        cl("C02", not(bit(sc.flags, F_EXACT)) or not(fin(r.tw)) or
          range(0, n).foldl(true, (acc, j) => acc and near(y[j], integral(sc, r.t, j), integralMag(sc, r.t, j) / 2^28 + tiny(100))), "the whole interval is stepped through"),
        cl("C17", not(bit(sc.flags, F_CLOSED)) or conserved(sc, y), "stored quantity conserved"),
        cl("C17", not(bit(sc.flags, F_REST)) or range(0, n).foldl(true, (acc, j) => acc and y[j] == sc.y0[j]), "rest"),
      ], sc.sid, pos, bad),
      cov' = bump(cov, [("jumped", m)]),
    }
  }

  /// all executions read: report
  action report = all {
    taken == DATA.length(),
    pos == buf.length(),
    not(done),
    q::debug("VERDICT", { bad: bad, cov: cov, taken: taken }) != { bad: [], cov: Map(), taken: -1 },
    taken' = taken, buf' = [], pos' = 0, sc' = sc, cur' = cur, bad' = bad, cov' = cov,
    done' = true,
  }

  action step = any { begin, more, accStep, row, surplusRow, span, end, direct, evalpt, jump, report }
}
