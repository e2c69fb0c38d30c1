// -*- mode: Bluespec; -*-
/// Walking a schedule of report times, as a machine over integer times. One action per step, per recorded row and per call of the
/// user: `start` (walk), `hand` (one interval driven by hand), `extend` (later report times are appended), `hop` (the system is
/// saved, discarded and reloaded, or replaced by a copy). The solver is a fixed-step one or an adaptive one whose proposals are
/// nondeterministic. `area` is the solution of y' = t computed by Euler's method: it depends on every step taken.
module walk {
  import num.* from "./num"
  import control.* from "./control"

  /// times are 0..MAXT, schedules have at most N entries and grow at most to CAPN, steps are at most MAXDT
  const MAXT: int
  const N: int
  const CAPN: int
  const MAXDT: int
  /// proposals of the adaptive method are always the maximum (as with a very large tolerance)
  const LOOSE: bool
  /// remember the steps of the call in progress
  const KEEP: bool

  type Phase = Idle | Walking | ByHand
  type Row = { i: int, t: int, area: int }
  type Stp = { from: int, len: int, target: int, limit: int }

  var sched: List[int]
  var t0: int
  var i0: int
  var t: int
  var i: int
  var area: int
  var rows: List[Row]
  var phase: Phase
  var adaptive: bool
  var dt: int            // fixed step, or maximum step of the adaptive method
  var prop: int          // proposal of the adaptive method
  var last: Stp          // the step just taken
  var trail: List[Stp]

  pure def lastOf(l: List[int]): int = l[l.length() - 1]
  val NOSTEP: Stp = { from: 0, len: 0, target: 0, limit: 0 }
  def listOf(f: int -> int, n: int): List[int] = range(0, n).foldl([], (acc, k) => acc.append(f.get(k)))

  action init = {
    nondet f = 0.to(N - 1).setOfMaps(0.to(MAXT)).oneOf()
    nondet n = 1.to(N).oneOf()
    nondet s = 0.to(MAXT).oneOf()
    nondet a = Set(false, true).oneOf()
    nondet d = 1.to(MAXDT).oneOf()
    nondet p = 1.to(MAXDT).oneOf()
    nondet k = 0.to(n - 1).oneOf()
    all {
      sched' = listOf(f, n), t0' = s, i0' = k, t' = s, i' = k, area' = 0, rows' = [], phase' = Idle,
      adaptive' = a, dt' = d, prop' = (if (a) p else 1), last' = NOSTEP, trail' = [],
    }
  }

  action keepSetup = all { t0' = t0, i0' = i0, adaptive' = adaptive, dt' = dt }

  /// walk: begins when the clock is before the schedule's last value, and does nothing otherwise
  action start = all {
    phase == Idle,
    phase' = if (walking(t, lastOf(sched))) Walking else Idle,
    trail' = [], last' = NOSTEP,
    keepSetup, sched' = sched, t' = t, i' = i, area' = area, rows' = rows, prop' = prop,
  }
  /// solve_step, position and save_state called by hand for the next report time
  action hand = all {
    phase == Idle,
    i < sched.length(),
    phase' = ByHand,
    trail' = [], last' = NOSTEP,
    keepSetup, sched' = sched, t' = t, i' = i, area' = area, rows' = rows, prop' = prop,
  }
  action advance(len: int, prop1: int): bool = all {
    val s = { from: t, len: len, target: sched[i], limit: dt }
    all {
      last' = s,
      trail' = if (KEEP) trail.append(s) else trail,
    },
    t' = t + len,
    area' = area + len * t,
    prop' = prop1,
    keepSetup, sched' = sched, i' = i, rows' = rows, phase' = phase,
  }
  action stepFixed = all {
    phase != Idle, not(adaptive),
    stepping(t, sched[i]),
    advance(fixedLen(dt, sched[i] - t), prop),
  }
  /// attempts only shorten the step first tried
  action stepAdaptive = all {
    phase != Idle, adaptive,
    stepping(t, sched[i]),
    val first = firstTry(prop, sched[i] - t, dt)
    nondet len = (if (LOOSE) Set(first) else 1.to(first)).oneOf()
    nondet prop1 = (if (LOOSE) Set(dt) else 1.to(dt)).oneOf()
    advance(len, prop1),
  }
  action record = all {
    phase != Idle,
    not(stepping(t, sched[i])),
    i' = i + 1,
    rows' = rows.append({ i: i + 1, t: t, area: area }),
    phase' = if (phase == Walking and walking(t, lastOf(sched))) Walking else Idle,
    keepSetup, sched' = sched, t' = t, area' = area, prop' = prop, last' = last, trail' = trail,
  }
  /// the schedule is extended, by times of any value (earlier ones count as passed)
  action extend = all {
    phase == Idle,
    sched.length() < CAPN,
    nondet x = 0.to(MAXT).oneOf()
    sched' = sched.append(x),
    trail' = [], last' = NOSTEP,
    keepSetup, t' = t, i' = i, area' = area, rows' = rows, phase' = phase, prop' = prop,
  }
  /// saved and reloaded, or replaced by a copy: nothing of the state changes
  action hop = all {
    phase == Idle,
    trail' = [], last' = NOSTEP,
    keepSetup, sched' = sched, t' = t, i' = i, area' = area, rows' = rows, phase' = phase, prop' = prop,
  }

  action step = any { start, hand, stepFixed, stepAdaptive, record, extend, hop }

  // ---- properties ----------------------------------------------------------------------------------------------
  /// the clock after the report times from i0 to k
  def reached(k: int): int = range(i0, k + 1).foldl(t0, (acc, j) => imax(acc, sched[j]))
  /// C01: exactly one row per report time, in order, numbered from 1, at that time or at the unchanged clock if it has passed
  val rowsInOrder = and {
    rows.length() == i - i0,
    range(0, rows.length()).foldl(true, (acc, k) => acc and rows[k].i == i0 + k + 1 and rows[k].t == reached(i0 + k)),
  }
  /// C01: the position stays inside the schedule while there is anything left to do
  val inSchedule = i <= sched.length() and (walking(t, lastOf(sched)) implies i < sched.length())
  /// C02: the clock never passes the report time in progress, nor falls behind the previous one
  val noCrossing = and {
    i < sched.length() implies t <= imax(sched[i], reached(i - 1)),
    t >= reached(i - 1),
    last != NOSTEP implies last.from + last.len <= last.target,
  }
  /// C02: fixed steps have the configured length, except the one that lands on the report time; adaptive ones at most the maximum
  val stepLength = last != NOSTEP implies and {
    last.len >= 1,
    last.len <= last.limit,
    not(adaptive) implies (last.len == last.limit or last.from + last.len == last.target),
  }
  /// C08 (discrete part): the proposal stays positive; once it came out of a step it is at most the maximum
  val proposalOk = prop >= 1 and (adaptive and last != NOSTEP implies prop <= dt)
  val safety = and { rowsInOrder, inSchedule, noCrossing, stepLength, proposalOk }
  /// C01: every call comes back: what is left to do shrinks with every step and every row
  val left = range(i, sched.length()).foldl(0, (acc, j) => imax(acc, sched[j] - t)) + (sched.length() - i)
  /// some action is always possible
  val neverStuck = or { phase == Idle, i < sched.length() }
}

/// exhaustive instance
module walkAll {
  import walk(MAXT = 3, N = 3, CAPN = 3, MAXDT = 2, LOOSE = false, KEEP = false).* from "./walk"
  /// what is left before the last action, to see it shrink
  var before: int
  action init2 = all { init, before' = 1000 }
  action step2 = any {
    all { any { start, hand, extend, hop }, before' = 1000 },
    all { any { stepFixed, stepAdaptive, record }, before' = left },
  }
  val shrinks = left < before
  val inv = safety and neverStuck and shrinks
}
/// behaviours to be replayed in the implementation
module walkRuns {
  import walk(MAXT = 40, N = 5, CAPN = 9, MAXDT = 12, LOOSE = true, KEEP = true).* from "./walk"
}
