// -*- mode: Bluespec; -*-
/// Objects (systems and components) and their copies: saving state, vector access to the potentials, copies, changes made by the
/// user. Values are small integers; the driver maps them to values of the right type.
module system {
  import types.* from "./types"
  const TYPES: List[Ty]
  /// values of potentials and derivatives, of other leaves, and of factors
  const LO: int
  const HI: int
  const MAXROWS: int
  const SLOTS: Set[str]
  /// number of operations (bounds the exhaustive exploration)
  const DEPTH: int

  /// values of potentials and derivatives that are no numbers (some of NAN, PINF, NINF), or none
  const STRANGE: Set[int]

  type Obj = { vals: str -> int, rows: str -> List[List[int]] }
  pure val PINF = 99999
  pure val NINF = -99999
  pure val NAN = 77777
  pure def odd(x: int): bool = x == PINF or x == NINF or x == NAN
  pure def infinite(x: int): bool = x == PINF or x == NINF
  /// sums and products of numbers, infinities and NaN
  pure def eadd(a: int, b: int): int =
    if (a == NAN or b == NAN or infinite(a) and infinite(b) and a != b) NAN else if (infinite(a)) a else if (infinite(b)) b else a + b
  pure def emul(a: int, b: int): int =
    if (a == NAN or b == NAN or infinite(a) and b == 0 or infinite(b) and a == 0) NAN
    else if (infinite(a) or infinite(b)) (if ((a < 0) == (b < 0)) PINF else NINF) else a * b

  var ty: Ty
  var slots: str -> Obj
  /// result of the last operation that returns something
  var result: List[int]
  /// the operation just performed, its slot, and the object it was performed on
  var op: { what: str, on: str, to: str, arg: List[int], leaf: str }
  var was: Obj
  var others: str -> Obj
  var left: int

  pure def cols(h: Hist, o: Obj): List[int] = h.cols.foldl([], (acc, c) => acc.append(o.vals.get(c)))
  pure def valuesOf(l: List[str], o: Obj): List[int] = l.foldl([], (acc, c) => acc.append(o.vals.get(c)))
  pure def setAll(o: Obj, l: List[str], v: List[int]): Obj =
    { ...o, vals: range(0, l.length()).foldl(o.vals, (acc, k) => acc.set(l[k], v[k])) }
  pure def pv(t: Ty): List[str] = t.pots.foldl([], (acc, p) => acc.append(p.v))
  pure def pd(t: Ty): List[str] = t.pots.foldl([], (acc, p) => acc.append(p.d))

  // ---- what each operation does -----------------------------------------------------------------------------
  pure def saved(t: Ty, o: Obj): Obj =
    { ...o, rows: t.hists.foldl(o.rows, (acc, h) => if (h.tracked) acc.set(h.own, acc.get(h.own).append(cols(h, o))) else acc) }
  pure def bared(t: Ty, o: Obj): Obj =
    { ...o, rows: t.hists.foldl(o.rows, (acc, h) => if (h.tracked) acc.set(h.own, []) else acc) }
  pure def withStates(t: Ty, o: Obj, v: List[int]): Obj = setAll(o, pv(t), v)
  pure def withDerivs(t: Ty, o: Obj, v: List[int]): Obj =
    setAll(o, pd(t), range(0, v.length()).foldl([], (acc, k) => acc.append(if (t.pots[k].res) 0 else v[k])))
  pure def plus(a: List[int], b: List[int]): List[int] = range(0, a.length()).foldl([], (acc, k) => acc.append(eadd(a[k], b[k])))
  pure def times(c: int, a: List[int]): List[int] = a.foldl([], (acc, x) => acc.append(emul(c, x)))
  pure def constant(n: int, x: int): List[int] = range(0, n).foldl([], (acc, k) => acc.append(x))
  pure def ticked(t: Ty, o: Obj, dt: int): Obj = { ...o, vals: if (t.clock == "") o.vals else o.vals.setBy(t.clock, x => x + dt) }
  pure def steppedByDt(t: Ty, o: Obj, dt: int): Obj =
    ticked(t, withStates(t, o, plus(valuesOf(pv(t), o), times(dt, valuesOf(pd(t), o)))), dt)
  pure def storagesOf(t: Ty, o: Obj): List[int] = t.pots.foldl([], (acc, p) => acc.append(if (p.cap == "") PINF else o.vals.get(p.cap)))
  /// a leaf that takes any floating-point value
  pure def open(t: Ty, l: str): bool = t.pots.foldl(false, (acc, p) => acc or p.v == l or (p.d == l and not(p.res)))
  pure def ordinary(t: Ty, o: Obj): bool = and {
    t.pots.foldl(true, (acc, p) => acc and not(odd(o.vals.get(p.v))) and not(odd(o.vals.get(p.d)))),
    t.hists.foldl(true, (acc, h) => acc and o.rows.get(h.own).foldl(true, (acc2, r) => acc2 and r.foldl(true, (acc3, x) => acc3 and not(odd(x))))),
  }
  pure def numbers(t: Ty, o: Obj): bool = and {
    t.pots.foldl(true, (acc, p) => acc and o.vals.get(p.v) != NAN and o.vals.get(p.d) != NAN),
    t.hists.foldl(true, (acc, h) => acc and o.rows.get(h.own).foldl(true, (acc2, r) => acc2 and r.foldl(true, (acc3, x) => acc3 and x != NAN))),
  }
  /// equality of objects: NaN is not equal to itself
  pure def equal(t: Ty, a: Obj, b: Obj): bool = a == b and numbers(t, a)

  // ---- machine ----------------------------------------------------------------------------------------------
  def vec(f: int -> int, n: int): List[int] = range(0, n).foldl([], (acc, k) => acc.append(f.get(k)))

  action init = {
    nondet k = 0.to(TYPES.length() - 1).oneOf()
    val t = TYPES[k]
    nondet f = 0.to(t.leaves.length() - 1).setOfMaps(0.to(HI)).oneOf()
    val raw = range(0, t.leaves.length()).foldl(Map(), (acc, j) => acc.put(t.leaves[j], if (t.flags.contains(t.leaves[j])) f.get(j) % 2 else f.get(j)))
    val o = { vals: t.pots.foldl(raw, (acc, p) => if (p.res) acc.set(p.d, 0) else acc), rows: t.hists.foldl(Map(), (acc, h) => acc.put(h.own, [])) }
    all {
      ty' = t,
      slots' = Map("a" -> o),
      result' = [],
      op' = { what: "new", on: "a", to: "", arg: [], leaf: "" },
      was' = o,
      others' = Map(),
      left' = DEPTH,
    }
  }

  action apply(s: str, what: str, o: Obj, res: List[int], arg: List[int], leaf: str): bool = all {
    slots' = slots.set(s, o),
    result' = res,
    op' = { what: what, on: s, to: s, arg: arg, leaf: leaf },
    was' = slots.get(s),
    others' = slots.keys().exclude(Set(s)).mapBy(x => slots.get(x)),
    ty' = ty,
    left' = left - 1,
  }
  val room = slots.keys().forall(s => ty.hists.foldl(true, (acc, h) => acc and slots.get(s).rows.get(h.own).length() < MAXROWS))

  action save = {
    nondet s = slots.keys().oneOf()
    all { room, apply(s, "save_state", saved(ty, slots.get(s)), [], [], "") }
  }
  action mutate = {
    nondet s = slots.keys().oneOf()
    nondet j = 0.to(ty.leaves.length() - 1).oneOf()
    nondet x = (if (open(ty, ty.leaves[j])) 0.to(HI).union(STRANGE) else 0.to(HI)).oneOf()
    val l = ty.leaves[j]
    val y = if (ty.flags.contains(l)) x % 2 else if (ty.pots.foldl(false, (acc, p) => acc or p.res and p.d == l)) 0 else x
    apply(s, "patch", setAll(slots.get(s), [l], [y]), [], [y], l)
  }
  val n = ty.pots.length()
  action access = all {
    n > 0,
    nondet s = slots.keys().oneOf()
    nondet some = 0.to(3).oneOf()
    nondet f = 0.to(n - 1).setOfMaps(if (some == 0) LO.to(HI).union(STRANGE) else LO.to(HI)).oneOf()
    nondet dt = LO.to(HI).oneOf()
    val o = slots.get(s)
    val v = vec(f, n)
    any {
      apply(s, "states", o, valuesOf(pv(ty), o), [], ""),
      apply(s, "derivs", o, valuesOf(pd(ty), o), [], ""),
      apply(s, "storages", o, storagesOf(ty, o), [], ""),
      apply(s, "set_states", withStates(ty, o, v), [], v, ""),
      apply(s, "step_states", withStates(ty, o, plus(valuesOf(pv(ty), o), v)), [], v, ""),
      apply(s, "set_derivs", withDerivs(ty, o, v), [], v, ""),
      apply(s, "step_derivs", withDerivs(ty, o, plus(valuesOf(pd(ty), o), v)), [], v, ""),
      apply(s, "step_states_by_dt", steppedByDt(ty, o, dt), [], [dt], ""),
      all { ty.clock != "", apply(s, "reset_derivs", withDerivs(ty, o, constant(n, 0)), [], [], "") },
      all { ty.clock != "", apply(s, "step_time", ticked(ty, o, dt), [], [dt], "") },
      all { ty.clock != "", apply(s, "get_state", o, [o.vals.get(ty.pos), o.vals.get(ty.clock)], [], "") },
    }
  }
  /// a copy into another slot, replacing what is there
  action copy(what: str, make: (Obj) => Obj): bool = {
    nondet s = slots.keys().oneOf()
    nondet d = SLOTS.exclude(Set(s)).oneOf()
    all {
      slots' = slots.put(d, make(slots.get(s))),
      result' = [],
      op' = { what: what, on: s, to: d, arg: [], leaf: "" },
      was' = slots.get(s),
      others' = slots.keys().exclude(Set(d)).mapBy(x => slots.get(x)),
      ty' = ty,
      left' = left - 1,
    }
  }
  action bare = copy("bare", o => bared(ty, o))
  action full = copy("clone", o => o)
  /// written in some format and loaded into another slot
  action trip = {
    nondet s = slots.keys().oneOf()
    nondet d = SLOTS.exclude(Set(s)).oneOf()
    // (JSON has no notation for what is no number)
    nondet fmt = (if (ordinary(ty, slots.get(s))) Set("json", "yaml", "bin") else Set("yaml", "bin")).oneOf()
    all {
      slots' = slots.put(d, slots.get(s)),
      result' = [1],                 // written again it is the same text
      op' = { what: "trip", on: s, to: d, arg: [], leaf: fmt },
      was' = slots.get(s),
      others' = slots.keys().exclude(Set(d)).mapBy(x => slots.get(x)),
      ty' = ty,
      left' = left - 1,
    }
  }
  action equality = {
    nondet s = slots.keys().oneOf()
    nondet d = slots.keys().oneOf()
    all {
      slots' = slots,
      result' = if (equal(ty, slots.get(s), slots.get(d))) [1] else [0],
      op' = { what: "eq", on: s, to: d, arg: [], leaf: "" },
      was' = slots.get(s),
      others' = slots.keys().exclude(Set(s)).mapBy(x => slots.get(x)),
      ty' = ty,
      left' = left - 1,
    }
  }
  action drop = {
    nondet s = slots.keys().oneOf()
    all {
      slots.keys().size() > 1,
      slots' = slots.keys().exclude(Set(s)).mapBy(x => slots.get(x)),
      result' = [],
      op' = { what: "drop", on: s, to: s, arg: [], leaf: "" },
      was' = slots.get(s),
      others' = slots.keys().exclude(Set(s)).mapBy(x => slots.get(x)),
      ty' = ty,
      left' = left - 1,
    }
  }
  action step = all { left > 0, any { save, save, mutate, access, access, access, bare, full, trip, equality, drop } }
  action step2 = all { left > 0, any { save, mutate, access, bare, full, drop } }

  // ---- properties ----------------------------------------------------------------------------------------------
  def len(o: Obj, h: Hist): int = o.rows.get(h.own).length()
  /// C13: tracked histories have the same length in every object
  val lockstep = slots.keys().forall(s => ty.hists.foldl(true, (acc, h) => acc and (not(h.tracked) or len(slots.get(s), h) == len(slots.get(s), ty.hists[0]))))
  /// C13: rows never change; a save adds one row, to tracked histories only, and nothing else adds any
  val rowsStay = slots.keys().contains(op.on) implies {
    val o = slots.get(op.on)
    ty.hists.foldl(true, (acc, h) => acc and or {
      Set("new", "drop").contains(op.what),
      and {
        len(o, h) == len(was, h) + (if (op.what == "save_state" and h.tracked) 1 else 0),
        o.rows.get(h.own).slice(0, len(was, h)) == was.rows.get(h.own),
        (op.what == "save_state" and h.tracked) implies o.rows.get(h.own)[len(was, h)] == cols(h, was),
      },
    })
  }
  /// C12: whatever is done to one object, the others stay as they were
  val independent = others.keys().forall(s => slots.get(s) == others.get(s))
  /// C12: a copy has the values of its original, a full one the histories too, a bare one none
  val copies = Set("bare", "clone", "trip").contains(op.what) implies and {
    slots.get(op.to).vals == was.vals,
    op.what == "bare" implies ty.hists.foldl(true, (acc, h) => acc and len(slots.get(op.to), h) == (if (h.tracked) 0 else len(was, h))),
    op.what != "bare" implies slots.get(op.to) == was,
  }
  /// C15: vector access touches the potentials, their derivatives or the clock, and only those it is meant to
  val touches = slots.keys().contains(op.on) implies {
    val o = slots.get(op.on)
    val changed = o.vals.keys().filter(l => o.vals.get(l) != was.vals.get(l))
    val ps = ty.pots.foldl(Set(), (acc, p) => acc.union(Set(p.v)))
    val ds = ty.pots.foldl(Set(), (acc, p) => acc.union(Set(p.d)))
    and {
      Set("set_states", "step_states").contains(op.what) implies changed.subseteq(ps),
      Set("set_derivs", "step_derivs", "reset_derivs").contains(op.what) implies changed.subseteq(ds),
      op.what == "step_states_by_dt" implies changed.subseteq(ps.union(Set(ty.clock))),
      op.what == "step_time" implies changed.subseteq(Set(ty.clock)),
      Set("states", "derivs", "storages", "save_state", "get_state", "eq").contains(op.what) implies changed == Set(),
      op.what == "set_states" implies valuesOf(pv(ty), o) == op.arg,
    }
  }
  /// C18: a reservoir has no derivative, so that no step changes it
  val reservoirs = slots.keys().forall(s => ty.pots.foldl(true, (acc, p) => acc and (not(p.res) or slots.get(s).vals.get(p.d) == 0)))
  val inv = and { lockstep, rowsStay, independent, copies, touches, reservoirs }
}
module systemTiny { import types.* from "./types"  import system(STRANGE = Set(77777), TYPES = [TINY], LO = 0, HI = 1, MAXROWS = 2, SLOTS = Set("a", "b"), DEPTH = 3).* }
module systemDeep { import types.* from "./types"  import system(STRANGE = Set(77777), TYPES = [TINY], LO = 0, HI = 1, MAXROWS = 2, SLOTS = Set("a", "b"), DEPTH = 4).* }
module systemRuns { import types.* from "./types"  import system(STRANGE = Set(77777, 99999, -99999), TYPES = SYSTEMS, LO = -3, HI = 5, MAXROWS = 400, SLOTS = Set("a", "b", "c"), DEPTH = 100000).* }
module componentRuns { import types.* from "./types"  import system(STRANGE = Set(77777, 99999, -99999), TYPES = COMPONENTS, LO = -3, HI = 5, MAXROWS = 400, SLOTS = Set("a", "b", "c"), DEPTH = 100000).* }
