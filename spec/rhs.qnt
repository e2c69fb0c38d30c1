// -*- mode: Bluespec; -*-
/// The user's system of equations: a network of potentials and flows with storages and reservoirs, prescribed potentials, and
/// polynomial source terms in time and the states.
module rhs {
  import num.* from "./num"

  /// c * t^tp * product of y[j]; tp >= WALL: adds nothing, but no number comes out where y[ys[0]] is negative
  type Term = { c: int, tp: int, ys: List[int] }
  /// flow h * (y[a] - y[b]), positive from a to b
  type Edge = { a: int, b: int, h: int }
  /// y[j] is prescribed: kind 0 polynomial in t, kind 1 the shipped example's damped sine 10 + 3 sin(100 t^2) exp(-t/0.25)
  type Force = { j: int, kind: int, poly: List[int] }
  type Rhs = { n: int, cap: List[int], res: List[bool], eqs: List[List[Term]], edges: List[Edge], forced: List[Force] }
  /// states as the equations leave them, their derivatives, the flows, and the size of the summands
  type Eval = { y: List[int], k: List[int], q: List[int], mag: List[int] }

  pure def dampedSine(t: int): int =
    fromInt(10) + 3 * fmul(fsin(fmul(100 * t, t)), fexp(-4 * t))
  pure def forceAt(f: Force, t: int): int =
    if (f.kind == 1) dampedSine(t)
    else range(0, f.poly.length()).foldl(0, (acc, i) => fmul(acc, t) + f.poly[f.poly.length() - 1 - i])
  pure def impose(r: Rhs, t: int, y: List[int]): List[int] =
    r.forced.foldl(y, (acc, f) => acc.replaceAt(f.j, forceAt(f, t)))
  pure val WALL = 254
  pure def walled(r: Rhs): bool = r.eqs.foldl(false, (acc, ts) => acc or ts.foldl(false, (b, x) => b or x.tp >= WALL))
  pure def termAt(x: Term, t: int, y: List[int]): int =
    if (x.tp >= WALL) 0 else x.ys.foldl(fmul(x.c, fpow(t, x.tp)), (acc, j) => fmul(acc, y[j]))

  pure def evalRhs(r: Rhs, t: int, y0: List[int]): Eval = {
    pure val y = impose(r, t, y0)
    pure val q = mapl(r.edges, e => fmul(e.h, y[e.a] - y[e.b]))
    pure val qm = mapl(r.edges, e => fmul(abs(e.h), imax(abs(y[e.a]), abs(y[e.b]))))
    pure val ne = r.edges.length()
    pure val parts = mapl2(r.eqs, ts => mapl(ts, x => termAt(x, t, y)))
    pure def net(i: int): int = sumf(ne, e => (if (r.edges[e].b == i) q[e] else 0) - (if (r.edges[e].a == i) q[e] else 0))
    pure def netm(i: int): int = sumf(ne, e => if (r.edges[e].b == i or r.edges[e].a == i) qm[e] else 0)
    { y: y, q: q,
      k: mapi(r.n, i => if (r.res[i]) 0 else (if (ne == 0) 0 else fdiv(net(i), r.cap[i])) + suml(parts[i])),
      mag: mapi(r.n, i => if (r.res[i]) 0 else (if (ne == 0) 0 else fdiv(netm(i), abs(r.cap[i]))) + parts[i].foldl(0, (acc, x) => acc + abs(x))) }
  }

  /// a closed network: flows only, no reservoir, nothing prescribed, no sources
  pure def isClosed(r: Rhs): bool = and {
    r.edges.length() > 0,
    every(r.res, x => not(x)),
    r.forced.length() == 0,
    every(r.eqs, ts => ts.length() == 0),
  }
  /// stored quantity: sum of storage times potential
  pure def stored(r: Rhs, y: List[int]): int = sumf(r.n, i => if (r.res[i]) 0 else fmul(r.cap[i], y[i]))
  pure def storedMag(r: Rhs, y: List[int]): int = sumf(r.n, i => if (r.res[i]) 0 else abs(fmul(r.cap[i], y[i])))
}
