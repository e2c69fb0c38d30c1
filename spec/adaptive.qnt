// -*- mode: Bluespec; -*-
/// Adaptive stepping as a machine: attempts, acceptance, retries, proposals and the record, over integer times. What the error
/// estimates of an attempt say is nondeterministic; how the solver reacts is the control logic that recorded executions are held to.
module adaptive {
  import num.* from "./num"
  import control.* from "./control"

  /// lengths are multiples of 1/UNIT of a time unit: a step can be quartered that often; times up to MAXT units
  const UNIT: int
  const MAXT: int
  const MAXITER: int
  const STEPS: int

  type Entry = { from: int, len: int, n: int }
  type Phase = Between | Trying | Done

  var t: int
  var targets: List[int]
  var k: int             // report time in progress
  var dtMax: int
  var maxIter: int
  var saving: bool
  var prop: int          // proposal kept between steps
  var h: int             // step of the attempt in progress
  var n: int             // attempts made for the step in progress
  var phase: Phase
  var said: List[Verdict]  // what the attempts of the step in progress said
  var from: int          // clock when the step in progress began
  var first: int         // step first tried
  var record: List[Entry]
  var taken: int

  /// all that an attempt's estimates can say: below the absolute tolerance implies at most it
  pure val VERDICTS: Set[Verdict] = Set(
    { hasRel: true, relMet: true, absMet: true, absBelow: true }, { hasRel: true, relMet: true, absMet: true, absBelow: false },
    { hasRel: true, relMet: true, absMet: false, absBelow: false }, { hasRel: true, relMet: false, absMet: true, absBelow: true },
    { hasRel: true, relMet: false, absMet: true, absBelow: false }, { hasRel: true, relMet: false, absMet: false, absBelow: false },
    { hasRel: false, relMet: false, absMet: true, absBelow: true }, { hasRel: false, relMet: false, absMet: true, absBelow: false },
    { hasRel: false, relMet: false, absMet: false, absBelow: false })
  pure val NOTHING: Entry = { from: 0, len: 0, n: 0 }

  /// what a step of length x may be scaled to (factors by a met tolerance are at least one, by an unmet one below one)
  pure def scaled(v: Verdict, x: int): Set[int] = match scaling(v) {
    | ByRel => Set(x, 2 * x, 3 * x, 100 * MAXT * UNIT)
    | ByAbs => if (v.absBelow) Set(x, 2 * x, 3 * x, 100 * MAXT * UNIT) else Set(x)      // at the tolerance exactly
    | ByAbsFourth => Set(x / 2, x / 4)
    | Quarter => Set(x / 4)
  }
  pure def divisible(x: int): bool = x % 4 == 0

  action init = {
    nondet a = 0.to(MAXT).oneOf()
    nondet b = 0.to(MAXT).oneOf()
    nondet m = Set(UNIT / 4, UNIT, 2 * UNIT, 5 * UNIT).oneOf()
    nondet p = Set(UNIT / 4, UNIT, 3 * UNIT).oneOf()
    nondet i = 0.to(MAXITER).oneOf()
    nondet s = Set(false, true).oneOf()
    all {
      t' = 0, targets' = [a * UNIT, b * UNIT], k' = 0, dtMax' = m, maxIter' = i, saving' = s, prop' = p, h' = 0, n' = 0, phase' = Between,
      said' = [], from' = 0, first' = 0, record' = [], taken' = 0,
    }
  }
  action same = all { targets' = targets, dtMax' = dtMax, maxIter' = maxIter, saving' = saving }
  /// the next report time, or the end
  action arrive = all {
    phase == Between,
    not(stepping(t, targets[k])),
    k' = if (k + 1 < targets.length()) k + 1 else k,
    phase' = if (k + 1 < targets.length()) Between else Done,
    same, t' = t, prop' = prop, h' = h, n' = n, said' = said, from' = from, first' = first, record' = record, taken' = taken,
  }
  action begin = all {
    phase == Between,
    stepping(t, targets[k]),
    taken < STEPS,
    val x = firstTry(prop, targets[k] - t, dtMax)
    all { h' = x, first' = x },
    n' = 0, said' = [], from' = t, phase' = Trying,
    same, t' = t, k' = k, prop' = prop, record' = record, taken' = taken,
  }
  action attempt = all {
    phase == Trying,
    divisible(h),
    nondet v = VERDICTS.oneOf()
    nondet y = scaled(v, h).oneOf()
    all {
      n' = n + 1,
      said' = said.append(v),
      if (accepted(v, n + 1, maxIter)) all {
        t' = t + h,
        prop' = imin(y, dtMax),
        h' = h,
        phase' = Between,
        record' = if (saving) record.append({ from: t, len: h, n: n + 1 }) else record,
        taken' = taken + 1,
      } else all { t' = t, prop' = prop, h' = y, phase' = Trying, record' = record, taken' = taken },
    },
    same, k' = k, from' = from, first' = first,
  }
  action step = any { arrive, begin, attempt }

  // ---- properties --------------------------------------------------------------------------------------------------------------
  pure def last(l: List[Entry]): Entry = if (l.length() == 0) NOTHING else l[l.length() - 1]
  /// C07: attempts are bounded, rejected ones were not to be accepted and leave the clock
  val attempts = and {
    n <= imax(maxIter, 1),
    said.length() == n,
    phase == Trying implies and {
      t == from,
      range(0, n).foldl(true, (acc, j) => acc and not(onTolerance(said[j]))),
      n == 0 or n < maxIter,
    },
    (phase == Between and n > 0) implies and {
      range(0, n - 1).foldl(true, (acc, j) => acc and not(onTolerance(said[j]))),
      onTolerance(said[n - 1]) or n >= maxIter,
    },
  }
  /// C02, C08: steps are positive, never longer than what was first tried, the maximum or the time left; every retry is shorter
  val lengths = phase != Trying or and { h > 0 or not(divisible(h * 4)), h * 2^n <= first, first <= dtMax, from + first <= targets[k] }
  /// C08: the proposal is positive and at most the maximum once it came out of a step; it never falls below a quarter of the step used,
  /// and after a step that met a tolerance it is at least that step or the maximum
  val proposal = and {
    prop > 0,
    taken > 0 implies prop <= dtMax,
    (phase == Between and n > 0) implies and {
      4 * prop >= imin(h, 4 * dtMax),
      onTolerance(said[n - 1]) implies prop >= imin(h, dtMax),
    },
  }
  /// C09: with recording on one entry per step, consecutive, adding up to the clock; none with recording off
  val recorded = and {
    record.length() == (if (saving) taken else 0),
    range(1, record.length()).foldl(true, (acc, j) => acc and record[j].from == record[j - 1].from + record[j - 1].len),
    saving implies range(0, record.length()).foldl(0, (acc, j) => acc + record[j].len) == t,
    (saving and phase == Between and taken > 0) implies last(record).n == n,
  }
  /// the report times are reached exactly, never passed
  val lands = and {
    phase == Done implies t == imax(targets[0], targets[1]),
    k == 0 implies t <= targets[0],
    k == 1 implies t >= targets[0] and t <= imax(targets[0], targets[1]),
  }
  val inv = and { attempts, lengths, proposal, recorded, lands }
}
module adaptiveTiny { import adaptive(UNIT = 64, MAXT = 2, MAXITER = 3, STEPS = 2).* from "./adaptive" }
module adaptiveDeep { import adaptive(UNIT = 64, MAXT = 2, MAXITER = 3, STEPS = 3).* from "./adaptive" }
