// -*- mode: Bluespec; -*-
/// Histories of any length: what is in them, kept as runs of equal rows, so that counts far beyond what can be enumerated take part.
/// Rows are added many at a time (appending to a container, or saving the state of an object repeatedly), removed many at a time, cleared.
module bulk {
  /// `count` rows with value `value` (made into a record by the driver)
  type Run = { value: int, count: int }
  const VALUES: Set[int]
  const SIZES: Set[int]
  const MAXROWS: int
  /// removing and clearing is possible
  const REMOVES: bool
  /// formats the history is written and loaded in
  const FORMATS: List[str]
  /// how many rows are also kept one by one, to compare (small instances only)
  const PLAIN: int

  var runs: List[Run]
  var plain: List[int]
  var op: { what: str, n: int, value: int }
  /// what a removal returned last, how many rows it found; or the length
  var result: { value: int, found: int }

  pure def total(l: List[Run]): int = l.foldl(0, (acc, r) => acc + r.count)
  /// equal neighbours are one run
  pure def join(l: List[Run], r: Run): List[Run] =
    if (r.count == 0) l
    else if (l.length() > 0 and l[l.length() - 1].value == r.value)
      l.replaceAt(l.length() - 1, { value: r.value, count: l[l.length() - 1].count + r.count })
    else l.append(r)
  pure def keep(l: List[Run], n: int): List[Run] =
    l.foldl({ left: n, out: [] }, (acc, r) => {
      pure val k = if (acc.left < r.count) acc.left else r.count
      { left: acc.left - k, out: join(acc.out, { value: r.value, count: k }) }
    }).out
  /// row j, counted from 0
  pure def at(l: List[Run], j: int): int =
    l.foldl({ left: j, got: -1 }, (acc, r) => if (acc.got >= 0 or acc.left >= r.count) { left: acc.left - r.count, got: acc.got } else { left: acc.left, got: r.value }).got
  pure def expand(l: List[Run]): List[int] = l.foldl([], (acc, r) => range(0, r.count).foldl(acc, (a, _) => a.append(r.value)))

  action init = all { runs' = [], plain' = [], op' = { what: "new", n: 0, value: 0 }, result' = { value: 0, found: 0 } }
  action push = {
    nondet n = SIZES.oneOf()
    nondet v = VALUES.oneOf()
    all {
      total(runs) + n <= MAXROWS,
      runs' = join(runs, { value: v, count: n }),
      plain' = if (PLAIN > 0) range(0, n).foldl(plain, (acc, _) => acc.append(v)) else plain,
      op' = { what: "push", n: n, value: v },
      result' = { value: 0, found: 0 },
    }
  }
  action pop = {
    nondet n = SIZES.oneOf()
    val t = total(runs)
    val k = if (n < t) n else t
    all {
      REMOVES,
      runs' = keep(runs, t - k),
      plain' = if (PLAIN > 0) plain.slice(0, t - k) else plain,
      op' = { what: "pop", n: n, value: 0 },
      result' = { value: if (k == 0) 0 else at(runs, t - k), found: k },
    }
  }
  action clear = all { REMOVES, runs' = [], plain' = [], op' = { what: "clear", n: 0, value: 0 }, result' = { value: 0, found: 0 } }
  action len = all { runs' = runs, plain' = plain, op' = { what: "len", n: 0, value: 0 }, result' = { value: 0, found: total(runs) } }
  /// written and loaded again: nothing changes
  action trip = {
    nondet f = FORMATS.indices().oneOf()
    all { runs' = runs, plain' = plain, op' = { what: "trip", n: 0, value: f }, result' = { value: 0, found: total(runs) } }
  }
  action step = any { push, push, push, push, push, pop, pop, clear, len }
  action trips = any { push, trip }
  action step2 = any { push, pop, clear, len }

  // C13, C14: the runs are the rows; neighbouring runs differ and none is empty
  val same = PLAIN > 0 implies and { expand(runs) == plain, total(runs) == plain.length(), op.what == "len" implies result.found == plain.length() }
  val tight = range(0, runs.length()).foldl(true, (acc, j) => acc and runs[j].count > 0 and (j == 0 or runs[j].value != runs[j - 1].value))
  val inv = and { same, tight }
}
module bulkTiny { import bulk(VALUES = Set(1, 2), SIZES = Set(1, 2, 3), MAXROWS = 6, REMOVES = true, FORMATS = [], PLAIN = 1).* }
module bulkDeep { import bulk(VALUES = Set(1, 2, 3), SIZES = Set(1, 2, 3, 4), MAXROWS = 9, REMOVES = true, FORMATS = [], PLAIN = 1).* }
module bulkRecords {
  import bulk(VALUES = 0.to(9), SIZES = Set(1, 2, 100, 255, 256, 257, 1000, 1024, 1025, 4096, 4097, 10000, 32768, 65535, 65536, 65537), MAXROWS = 150000, REMOVES = true, FORMATS = [], PLAIN = 0).*
}
module bulkSaves {
  import bulk(VALUES = 0.to(9), SIZES = Set(1, 3, 255, 257, 1023, 1025, 4097, 5000, 10001, 33000), MAXROWS = 70000, REMOVES = false, FORMATS = [], PLAIN = 0).*
}
module bulkTrips {
  import bulk(VALUES = 0.to(9), SIZES = Set(1, 100, 1000, 1025, 4097, 10000, 65537), MAXROWS = 150000, REMOVES = false, FORMATS = ["bin", "json", "yaml"], PLAIN = 0).*
}
