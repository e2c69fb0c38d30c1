// -*- mode: Bluespec; -*-
/// A history container: a list of records on one side, its columns on the other.
module history {
  /// a record type: its fields in declaration order, and those of them that have two values only
  type RecType = { name: str, fields: List[str], flags: Set[str] }
  const RECS: List[RecType]
  /// values are small integers, mapped by the driver to values of the field's type
  const VALUES: Set[int]
  const MAXLEN: int
  /// how many containers exist side by side
  const SLOTS: Set[str]

  var rec: RecType
  /// the containers as lists of records
  var list: str -> List[List[int]]
  /// the containers as they are laid out: one column per field
  var columns: str -> List[List[int]]
  /// the operation performed, its container, and what it returned ([] for nothing; [[x]] for a number, [record] for a record)
  var op: { what: str, on: str, to: str, arg: List[int] }
  var result: List[List[int]]

  pure def width(r: RecType): int = r.fields.length()
  pure def fit(r: RecType, v: List[int]): List[int] =
    range(0, width(r)).foldl([], (acc, k) => acc.append(if (r.flags.contains(r.fields[k])) v[k] % 2 else v[k]))
  pure def emptyColumns(r: RecType): List[List[int]] = r.fields.foldl([], (acc, k) => acc.append([]))
  pure def pushColumns(cols: List[List[int]], v: List[int]): List[List[int]] =
    range(0, cols.length()).foldl([], (acc, k) => acc.append(cols[k].append(v[k])))
  pure def popColumns(cols: List[List[int]]): List[List[int]] =
    cols.foldl([], (acc, c) => acc.append(c.slice(0, c.length() - 1)))
  pure def lastOf(cols: List[List[int]]): List[int] = cols.foldl([], (acc, c) => acc.append(c[c.length() - 1]))
  pure def transposed(l: List[List[int]], n: int): List[List[int]] =
    range(0, n).foldl([], (acc, k) => acc.append(l.foldl([], (col, r) => col.append(r[k]))))

  action init = {
    nondet k = 0.to(RECS.length() - 1).oneOf()
    all {
      rec' = RECS[k],
      list' = SLOTS.mapBy(s => []),
      columns' = SLOTS.mapBy(s => emptyColumns(RECS[k])),
      op' = { what: "default", on: "", to: "", arg: [] },
      result' = [],
    }
  }
  action store(s: str, what: str, l: List[List[int]], cols: List[List[int]], res: List[List[int]], arg: List[int]): bool = all {
    rec' = rec,
    list' = list.set(s, l),
    columns' = columns.set(s, cols),
    op' = { what: what, on: s, to: s, arg: arg },
    result' = res,
  }
  action push = {
    nondet s = SLOTS.oneOf()
    nondet f = 0.to(width(rec) - 1).setOfMaps(VALUES).oneOf()
    val v = fit(rec, range(0, width(rec)).foldl([], (acc, k) => acc.append(f.get(k))))
    all { list.get(s).length() < MAXLEN, store(s, "push", list.get(s).append(v), pushColumns(columns.get(s), v), [], v) }
  }
  action pop = {
    nondet s = SLOTS.oneOf()
    val l = list.get(s)
    if (l == []) store(s, "pop", l, columns.get(s), [], [])
    else store(s, "pop", l.slice(0, l.length() - 1), popColumns(columns.get(s)), [lastOf(columns.get(s))], [])
  }
  action others = {
    nondet s = SLOTS.oneOf()
    val l = list.get(s)
    any {
      store(s, "clear", [], emptyColumns(rec), [], []),
      store(s, "new", [], emptyColumns(rec), [], []),
      store(s, "default", [], emptyColumns(rec), [], []),
    }
  }
  action looks = {
    nondet s = SLOTS.oneOf()
    val l = list.get(s)
    any {
      store(s, "len", l, columns.get(s), [[l.length()]], []),
      store(s, "is_empty", l, columns.get(s), [[if (l == []) 1 else 0]], []),
    }
  }
  /// whole container taken over by another one
  action over(what: str): bool = {
    nondet s = SLOTS.oneOf()
    nondet d = SLOTS.exclude(Set(s)).oneOf()
    all {
      rec' = rec,
      list' = list.set(d, list.get(s)),
      columns' = columns.set(d, columns.get(s)),
      op' = { what: what, on: s, to: d, arg: [] },
      result' = [],
    }
  }
  action same = {
    nondet s = SLOTS.oneOf()
    nondet d = SLOTS.exclude(Set(s)).oneOf()
    all { rec' = rec, list' = list, columns' = columns, op' = { what: "eq", on: s, to: d, arg: [] },
          result' = [[if (list.get(s) == list.get(d)) 1 else 0]] }
  }
  action trip = any { over("clone"), over("json"), over("yaml"), over("bin") }
  action step = any { push, push, push, push, pop, pop, looks, looks, trip, same, others }
  action step2 = any { push, pop, looks, over("clone"), same, store("a", "clear", [], emptyColumns(rec), [], []) }

  // C14
  /// the columns are the list of records, transposed
  val faithful = SLOTS.forall(s => columns.get(s) == transposed(list.get(s), width(rec)))
  val aligned = SLOTS.forall(s => columns.get(s).foldl(true, (acc, c) => acc and c.length() == list.get(s).length()))
  val lengths = and {
    op.what == "len" implies result == [[list.get(op.on).length()]],
    op.what == "is_empty" implies (result == [[1]]) == (list.get(op.on) == []),
    op.what == "clear" implies list.get(op.on) == [],
    op.what == "push" implies and { list.get(op.on) != [], lastOf(columns.get(op.on)) == op.arg },
  }
  val inv = and { faithful, aligned, lengths }
}
module historyTiny {
  import history(RECS = [{ name: "Two", fields: ["x", "on"], flags: Set("on") }], VALUES = Set(0, 1, 2), MAXLEN = 2, SLOTS = Set("a", "b")).*
}
module historyDeep {
  import history(RECS = [{ name: "Two", fields: ["x", "on"], flags: Set("on") }], VALUES = Set(0, 1, 2), MAXLEN = 3, SLOTS = Set("a", "b")).*
}
module historyRuns {
  import history(RECS = [
    { name: "SystemState", fields: ["i", "time"], flags: Set() },
    { name: "SolverState", fields: ["dt", "n_iter", "norm_err", "norm_err_rel", "t_curr", "states"], flags: Set() },
    { name: "ThermalMassState", fields: ["temp", "dtemp"], flags: Set() },
    { name: "ConductanceState", fields: ["q"], flags: Set() },
    { name: "MassState", fields: ["n", "v", "dv"], flags: Set() },
    { name: "LinkState", fields: ["gap", "q"], flags: Set() },
    { name: "ProbeState", fields: ["x", "on"], flags: Set("on") },
    { name: "Rec1", fields: ["only"], flags: Set() },
    { name: "Rec5", fields: ["a", "b", "k", "c", "j"], flags: Set() },
    { name: "RecMix", fields: ["name", "o", "value", "flag", "p", "n", "alias"], flags: Set("flag") },
    { name: "RecVec", fields: ["rows", "cols", "len"], flags: Set() },
    { name: "RecNest", fields: ["first", "at", "second"], flags: Set() },
    { name: "RecWide", fields: ["w01", "w02", "w03", "w04", "w05", "w06", "w07", "w08", "w09", "w10", "w11", "w12", "w13", "w14", "w15", "w16", "w17", "w18", "w19"], flags: Set() } ],
    VALUES = 0.to(9), MAXLEN = 1000, SLOTS = Set("a", "b")).*
}
