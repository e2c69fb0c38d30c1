// -*- mode: Bluespec; -*-
/// Numeric helpers, on doubles given as words; arithmetic is exact (integers, multiples of 2^-1074).
module util {
  import ieee.* from "./ieee"
  const DATA: List[int]

  pure def abs(a: int): int = if (a < 0) -a else a
  pure def max(a: int, b: int): int = if (a < b) b else a
  pure def min(a: int, b: int): int = if (a < b) a else b
  /// the value of a finite double times 2^1074
  pure def mag(w: int): int = {
    pure val e = expo(w)
    pure val m = if (e == 0) w % 2^52 else (2^52 + w % 2^52) * 2^(e - 1)
    if (negative(w)) -m else m
  }
  pure val MAXV = (2^53 - 1) * 2^2045

  // ---- contracts ---------------------------------------------------------------------------------------------------------
  pure def gridTol(a: int, b: int, n: int): int = max(abs(mag(a)), abs(mag(b))) / 2^50 + n
  /// what an evenly spaced grid owes: points, start, stop, spacing
  pure def grid(a: int, b: int, n: int, out: List[int]): List[{ ok: bool, what: str }] = [
    { ok: out.length() == n, what: "the grid has the requested number of points" },
    { ok: out.foldl(true, (acc, x) => acc and fin(x)), what: "the grid is finite" },
    { ok: n == 0 or out.length() == 0 or same(out[0], a), what: "the grid begins at the start" },
    { ok: n < 2 or out.length() < 2 or abs(mag(out[out.length() - 1]) - mag(b)) <= gridTol(a, b, n), what: "the grid ends at the stop" },
    { ok: n < 2 or out.length() != n or range(0, n).foldl(true, (acc, k) => acc and
        abs((mag(out[k]) - mag(a)) * (n - 1) - (mag(b) - mag(a)) * k) <= gridTol(a, b, n) * (n - 1)), what: "the grid is evenly spaced" },
  ]
  /// r is the double nearest to the exact value v
  pure def rounded(r: int, v: int): bool =
    if (fin(r)) abs(mag(r) - v) * 2^53 <= abs(v) and (abs(v) >= 2^52 or mag(r) == v)
    else isInf(r) and abs(v) > MAXV and negative(r) == (v < 0)
  /// r is b - a, infinities and values that are no numbers included
  pure def minus(a: int, b: int, r: int): bool =
    if (fin(a) and fin(b)) rounded(r, mag(b) - mag(a))
    else if (isNan(a) or isNan(b) or isInf(a) and isInf(b) and negative(a) == negative(b)) isNan(r)
    else isInf(r) and negative(r) == (if (isInf(b)) negative(b) else not(negative(a)))
  pure def differences(l: List[int], out: List[int]): List[{ ok: bool, what: str }] = [
    { ok: out.length() == max(l.length() - 1, 0), what: "one difference fewer than values" },
    { ok: out.length() + 1 != l.length() or range(0, out.length()).foldl(true, (acc, k) => acc and minus(l[k], l[k + 1], out[k])), what: "consecutive differences, later minus earlier" },
  ]
  /// -1 beyond, 1 within, 0 at the edge, where rounding decides
  pure def against(num: int, den: int): int =
    if (num * 2^40 < den * (2^40 - 1)) 1 else if (num * 2^40 > den * (2^40 + 1)) -1 else 0
  /// absolute and relative difference against the tolerance e (a word); the relative difference is that of the values over their sum
  pure def close(a: int, b: int, e: int): int = {
    pure val d = abs(mag(b) - mag(a))
    pure val s = abs(mag(a) + mag(b))
    pure val byAbs = against(d, mag(e))
    pure val byRel = if (s == 0) (if (d == 0) 0 else -1) else against(d * 2^1074, mag(e) * s)
    if (isZero(e) or negative(e)) (if (d > 0) -1 else 0)
    else if (d == 0 or byAbs == 1 or byRel == 1) 1
    else if (byAbs == -1 and byRel == -1) -1
    else 0
  }
  pure val DEFAULT_TOLERANCE = 4487126258331716666                                 // 1e-8
  pure def zipped(ls: List[List[int]]): List[List[int]] = {
    pure val n = ls.foldl(ls[0].length(), (acc, l) => min(acc, l.length()))
    range(0, n).foldl([], (acc, k) => acc.append(ls.foldl([], (t, l) => t.append(l[k]))))
  }
  /// a grid of n points from 0 by ones, too long to be recorded point by point: its differences lie around one, and it zips with
  /// them up to the shorter
  pure def longGrid(n: int, len: int, a: int, b: int, dlen: int, lo: int, hi: int, z: int): List[{ ok: bool, what: str }] = [
    { ok: len == n, what: "the grid has the requested number of points" },
    { ok: same(a, 0), what: "the grid begins at the start" },
    { ok: fin(b) and abs(mag(b) - (n - 1) * 2^1074) <= (n - 1) * 2^1074 / 2^50 + n, what: "the grid ends at the stop" },
    { ok: fin(lo) and fin(hi) and abs(mag(lo) - 2^1074) < 2^1049 and abs(mag(hi) - 2^1074) < 2^1049, what: "the grid is evenly spaced" },
    { ok: dlen == n - 1, what: "one difference fewer than values" },
    { ok: z == n - 1, what: "zipping visits the tuples in order, up to the shortest input" },
  ]
  /// a timed expression: evaluated once, and reported to take no less than it took and no more than passed around it
  pure def timed(n: int, took: int, told: int, around: int): List[{ ok: bool, what: str }] = [
    { ok: n == 1, what: "a timed expression is evaluated once" },
    { ok: took <= told and told <= around, what: "the time reported is the time the expression took" },
  ]

  // ---- calls as recorded: 1 id, 2 what, then its own -----------------------------------------------------------------------
  var pos: int
  var buf: List[int]
  var taken: int
  var bad: List[{ what: str, sid: int, tag: str }]
  var cov: str -> int
  var done: bool

  pure def unpack(v: int): List[int] =
    range(0, v % 2^64).foldl({ v: v / 2^64, l: [] }, (acc, _) => { v: acc.v / 2^64, l: acc.l.append(acc.v % 2^64) }).l
  pure def ws(b: List[int], i: int, n: int): List[int] = b.slice(i, i + n)
  pure def lists(b: List[int], i: int, n: int): { p: int, l: List[List[int]] } =
    range(0, n).foldl({ p: i, l: [] }, (acc, _) => { p: acc.p + 1 + b[acc.p], l: acc.l.append(b.slice(acc.p + 1, acc.p + 1 + b[acc.p])) })

  pure def judge(b: List[int]): { name: str, clauses: List[{ ok: bool, what: str }] } =
    // grid: start, stop, n, list
    if (b[1] == 1) { name: "linspace", clauses: grid(b[2], b[3], b[4], lists(b, 5, 1).l[0]) }
    // differences: list, list
    else if (b[1] == 2) { name: "diff", clauses: differences(lists(b, 2, 2).l[0], lists(b, 2, 2).l[1]) }
    // almost equal: a, b, with tolerance?, tolerance, answer, answer with a and b exchanged
    else if (b[1] == 3) { name: "almost_eq", clauses: {
      pure val f = fin(b[2]) and fin(b[3])
      pure val c = if (f) close(b[2], b[3], if (b[4] == 1) b[5] else DEFAULT_TOLERANCE) else 0
      [ { ok: b[6] == b[7], what: "approximate equality is symmetric" },
        { ok: c != 1 or b[6] == 1, what: "values within the tolerance are approximately equal" },
        { ok: c != -1 or b[6] == 0, what: "values beyond the tolerance are not approximately equal" } ] } }
    // long grid
    else if (b[1] == 5) { name: "long", clauses: longGrid(b[2], b[3], b[4], b[5], b[6], b[7], b[8], b[9]) }
    // timed expression
    else if (b[1] == 6) { name: "time_it", clauses: timed(b[2], b[3], b[4], b[5]) }
    // zip: number of lists, lists, list of tuples in one
    else { name: "zip", clauses: {
      pure val x = lists(b, 3, b[2] + 1)
      pure val want = zipped(x.l.slice(0, b[2]))
      [ { ok: x.l[b[2]] == want.foldl([], (acc, t) => acc.concat(t)), what: "zipping visits the tuples in order, up to the shortest input" } ] } }

  action init = all { pos' = 0, buf' = [], taken' = 0, bad' = [], cov' = Map(), done' = false }
  action call = {
    val b = unpack(DATA[taken])
    val j = judge(b)
    all {
      taken < DATA.length(),
      taken' = taken + 1,
      bad' = j.clauses.foldl(bad, (acc, c) => if (c.ok) acc else acc.append({ what: c.what, sid: b[0], tag: "C25" })),
      cov' = if (cov.keys().contains(j.name)) cov.set(j.name, cov.get(j.name) + 1) else cov.put(j.name, 1),
      pos' = 0, buf' = b, done' = false,
    }
  }
  action report = all {
    taken == DATA.length(),
    not(done),
    q::debug("VERDICT", { bad: bad, cov: cov, taken: taken }) != { bad: [], cov: Map(), taken: -1 },
    pos' = 0, buf' = [], taken' = taken, bad' = bad, cov' = cov, done' = true,
  }
  action step = any { call, report }

  run utilTest = all {
    assert(zipped([[1, 2, 3], [4, 5]]) == [[1, 4], [2, 5]]),
    // 1.0, 1.0 + 1 ulp
    assert(close(4607182418800017408, 4607182418800017409, DEFAULT_TOLERANCE) == 1),
    assert(close(4607182418800017408, 4611686018427387904, DEFAULT_TOLERANCE) == -1),
    assert(mag(1) == 1),
    assert(mag(4607182418800017408) == 2^1074),
    assert(rounded(4607182418800017408, 2^1074)),
  }
}
