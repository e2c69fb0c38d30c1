// -*- mode: Bluespec; -*-
/// The Python interface: objects behind Python names, what their constructors and methods make of them, and what can be read.
/// A value is a code for a number, text or list (the driver knows which), or "what the library's own run number `by` left at `src`",
/// or (by negative) what the library's default object of class number -by has there.
module pyapi {
  type Path = List[str]
  type Cell = { n: int, by: int, src: Path }
  type Obj = { cls: str, at: Path -> Cell }
  type Op = { what: str, on: str, dst: str, cls: str, names: List[Path], args: List[Cell], parts: List[str] }

  const SLOTS: Set[str]
  const VALUES: Set[int]
  const SYSTEMS: Set[str]
  const OTHERS: Set[str]
  const RUNS: int
  var objs: str -> Obj
  var runs: List[Obj]
  var op: Op

  pure def code(n: int): Cell = { n: n, by: 0, src: [] }

  // ---- shapes ------------------------------------------------------------------------------------------------------------------
  pure val ROW = ["dt", "n_iter", "norm_err", "norm_err_rel", "t_curr", "states"]
  pure val CONF = ["dt_max", "max_iter", "atol", "rtol", "save", "save_states"]
  /// direct fields that are plain values
  pure val PLAIN: str -> List[str] = Map(
    "AdaptiveSolverConfig" -> CONF, "SolverState" -> ROW, "SolverStateHistoryVec" -> ROW,
    "ThermalMass" -> ["c"], "ThermalReservoir" -> [], "ThermalMassState" -> ["temp", "dtemp"], "ThermalMassStateHistoryVec" -> ["temp", "dtemp"],
    "Conductance" -> ["h"], "ConductanceState" -> ["q"], "ConductanceStateHistoryVec" -> ["q"],
    "SystemState" -> ["i", "time"], "SystemStateHistoryVec" -> ["i", "time"],
    "System3TM" -> ["t_report", "m"], "System3TMWithBC" -> ["t_report", "m"])
  /// direct fields that are objects, with their classes
  pure val PARTS: str -> List[{ f: str, cls: str }] = Map(
    "AdaptiveSolverConfig" -> [{ f: "state", cls: "SolverState" }, { f: "history", cls: "SolverStateHistoryVec" }], "SolverState" -> [], "SolverStateHistoryVec" -> [],
    "ThermalMass" -> [{ f: "state", cls: "ThermalMassState" }, { f: "history", cls: "ThermalMassStateHistoryVec" }],
    "ThermalReservoir" -> [{ f: "state", cls: "ThermalMassState" }, { f: "history", cls: "ThermalMassStateHistoryVec" }],
    "ThermalMassState" -> [], "ThermalMassStateHistoryVec" -> [],
    "Conductance" -> [{ f: "state", cls: "ConductanceState" }, { f: "history", cls: "ConductanceStateHistoryVec" }],
    "ConductanceState" -> [], "ConductanceStateHistoryVec" -> [], "SystemState" -> [], "SystemStateHistoryVec" -> [],
    "System3TM" -> [{ f: "m1", cls: "ThermalMass" }, { f: "m2", cls: "ThermalMass" }, { f: "h12", cls: "Conductance" }, { f: "m3", cls: "ThermalMass" }, { f: "h23", cls: "Conductance" },
                    { f: "state", cls: "SystemState" }, { f: "history", cls: "SystemStateHistoryVec" }],
    "System3TMWithBC" -> [{ f: "m1", cls: "ThermalReservoir" }, { f: "m2", cls: "ThermalMass" }, { f: "h12", cls: "Conductance" }, { f: "m3", cls: "ThermalMass" }, { f: "h23", cls: "Conductance" },
                    { f: "state", cls: "SystemState" }, { f: "history", cls: "SystemStateHistoryVec" }])
  pure val CONTAINERS = Set("SolverStateHistoryVec", "ThermalMassStateHistoryVec", "ConductanceStateHistoryVec", "SystemStateHistoryVec")
  pure def isSystem(c: str): bool = c == "System3TM" or c == "System3TMWithBC"
  /// methods of solution: 0..4 with fixed step (Euler, Heun, midpoint, Ralston, RK4), 5 Bogacki-Shampine, 6 Cash-Karp
  pure val ADAPTIVE = Set(5, 6)
  /// leaves of a class two levels down at most; those of a solver record hang below "sc"
  pure def plain(cls: str, pre: Path): Set[Path] = PLAIN.get(cls).foldl(Set(), (acc, x) => acc.union(Set(pre.append(x))))
  pure def plain1(cls: str, pre: Path): Set[Path] = PLAIN.get(cls).foldl(Set(), (acc, x) => acc.union(Set(pre.append(x))))
  pure def level1(cls: str, pre: Path): Set[Path] = PARTS.get(cls).foldl(plain(cls, pre), (acc, p) => acc.union(plain1(p.cls, pre.append(p.f))))
  pure def plain2(cls: str, pre: Path): Set[Path] = PLAIN.get(cls).foldl(Set(), (acc, x) => acc.union(Set(pre.append(x))))
  pure def level2(cls: str): Set[Path] = PARTS.get(cls).foldl(plain2(cls, []), (acc, p) => acc.union(level1(p.cls, [p.f])))
  pure val OWN: str -> Set[Path] = PLAIN.keys().mapBy(c => level2(c))
  pure val FIXED: str -> Set[Path] = PLAIN.keys().mapBy(c => level2(c).union(Set(["dt"])))
  pure val ADAPTED: str -> Set[Path] = PLAIN.keys().mapBy(c => level2(c).union(level1("AdaptiveSolverConfig", ["sc"])))
  pure def leaves(cls: str, m: int): Set[Path] = if (not(isSystem(cls))) OWN.get(cls) else if (ADAPTIVE.contains(m)) ADAPTED.get(cls) else FIXED.get(cls)
  pure def method(o: Obj): int = if (isSystem(o.cls)) o.at.get(["m"]).n else -1

  // ---- parts -------------------------------------------------------------------------------------------------------------------
  /// the leaves of class `cls` (not a system) found at `pre` in o
  pure def part(o: Obj, pre: Path, cls: str): Obj = { cls: cls, at: OWN.get(cls).mapBy(x => o.at.get(pre.concat(x))) }

  // ---- constructors --------------------------------------------------------------------------------------------------------------
  pure val NOTHING = code(-1)                                                                       // the value documented as default
  /// zero state, empty history
  pure def blank(cls: str): Path -> Cell = leaves(cls, 0).mapBy(_ => NOTHING)
  pure def made(cls: str, names: List[Path], args: List[Cell]): Obj = { cls: cls, at: names.indices().fold(blank(cls), (acc, k) => acc.put(names[k], args[k])) }
  pure val CTORS: str -> List[Path] = Map(
    "ThermalMass" -> [["c"], ["state", "temp"]], "ThermalReservoir" -> [["state", "temp"]], "Conductance" -> [["h"]],
    "AdaptiveSolverConfig" -> [["state", "dt"], ["dt_max"], ["max_iter"], ["rtol"], ["atol"], ["save"], ["save_states"]])
  pure val COMPONENTS = ["m1", "m2", "h12", "m3", "h23"]
  /// a system from its parts
  pure def assembled(cls: str, m: int, dt: Cell, sol: Obj, parts: List[Obj], t: Cell): Obj = {
    { cls: cls, at: leaves(cls, m).mapBy(x =>
        if (x == ["t_report"]) t else if (x == ["m"]) code(m) else if (x == ["dt"]) dt
        else if (x[0] == "sc") sol.at.get(x.slice(1, x.length()))
        else if (x[0] == "m1") parts[0].at.get(x.slice(1, x.length()))
        else if (x[0] == "m2") parts[1].at.get(x.slice(1, x.length()))
        else if (x[0] == "h12") parts[2].at.get(x.slice(1, x.length()))
        else if (x[0] == "m3") parts[3].at.get(x.slice(1, x.length()))
        else if (x[0] == "h23") parts[4].at.get(x.slice(1, x.length()))
        else NOTHING) }
  }

  // ---- walking -------------------------------------------------------------------------------------------------------------------
  /// leaves a walk may change: clock, position, states and their derivatives, flows, histories, the solver's record
  pure def solution(m: int): Set[Path] = if (ADAPTIVE.contains(m)) SOLVED_SC else SOLVED
  pure val SOLVED: Set[Path] =
    Set(["state", "i"], ["state", "time"], ["history", "i"], ["history", "time"]).union(
      Set("m1", "m2", "m3").map(f => Set([f, "state", "temp"], [f, "state", "dtemp"], [f, "history", "temp"], [f, "history", "dtemp"])).flatten()).union(
      Set("h12", "h23").map(f => Set([f, "state", "q"], [f, "history", "q"])).flatten())
  pure val SOLVED_SC: Set[Path] = SOLVED.union(ROW.foldl(Set(), (acc, x) => acc.union(Set(["sc", "state", x], ["sc", "history", x]))))
  pure def walked(o: Obj, k: int): Obj =
    { cls: o.cls, at: o.at.keys().mapBy(x => if (solution(method(o)).contains(x)) { n: 0, by: k, src: x } else o.at.get(x)) }

  // ---- machine -------------------------------------------------------------------------------------------------------------------
  pure def call(what: str, on: str, dst: str, cls: str, names: List[Path], args: List[Cell], parts: List[str]): Op =
    { what: what, on: on, dst: dst, cls: cls, names: names, args: args, parts: parts }
  pure val FIRST = call("", "", "", "", [], [], [])
  val named = objs.keys()
  def ofClass(c: str): Set[str] = named.filter(s => objs.get(s).cls == c)

  action init = all { objs' = Map(), runs' = [], op' = FIRST }
  /// ThermalMass(c, temp0), ...; the last two of AdaptiveSolverConfig may be left out
  action make = {
    nondet dst = SLOTS.oneOf()
    nondet cls = CTORS.keys().intersect(OTHERS).oneOf()
    nondet a0 = VALUES.oneOf()
    nondet a1 = VALUES.oneOf()
    nondet a2 = VALUES.oneOf()
    nondet a3 = VALUES.oneOf()
    nondet a4 = VALUES.oneOf()
    nondet a5 = VALUES.union(Set(-1)).oneOf()
    nondet a6 = VALUES.union(Set(-1)).oneOf()
    val names = CTORS.get(cls)
    val args = [a0, a1, a2, a3, a4, a5, a6].foldl([], (acc, x) => acc.append(code(x))).slice(0, names.length())
    all {
      CTORS.keys().intersect(OTHERS) != Set(),
      objs' = objs.put(dst, made(cls, names, args)),
      runs' = runs,
      op' = call("make", "", dst, cls, names, args, []),
    }
  }
  /// System(solver_type as JSON, ...), System.new_rk45_cash_karp(...), System.new_rk23_bogacki_shampine(...)
  action assemble = assembleIn(SLOTS)
  action assembleIn(slots) = {
    nondet dst = slots.oneOf()
    nondet cls = SYSTEMS.oneOf()
    nondet d = VALUES.oneOf()
    nondet t = VALUES.oneOf()
    nondet text = Bool.oneOf()
    val first = if (cls == "System3TM") "ThermalMass" else "ThermalReservoir"
    nondet p1 = ofClass(first).oneOf()
    nondet p2 = ofClass("ThermalMass").oneOf()
    nondet p3 = ofClass("ThermalMass").oneOf()
    nondet l1 = ofClass("Conductance").oneOf()
    nondet l2 = ofClass("Conductance").oneOf()
    nondet sol = ofClass("AdaptiveSolverConfig").union(Set("")).oneOf()
    nondet m = (if (sol == "") 0.to(4) else ADAPTIVE).oneOf()
    val who = [p1, p2, l1, p3, l2]
    all {
      ofClass(first) != Set(), ofClass("ThermalMass") != Set(), ofClass("Conductance") != Set(),
      ADAPTIVE.contains(m) == (sol != ""),
      val s = if (sol == "") { cls: "", at: Map() } else objs.get(sol)
      objs' = objs.put(dst, assembled(cls, m, code(d), s, who.foldl([], (acc, x) => acc.append(objs.get(x))), code(t))),
      runs' = runs,
      // with a solver record the class methods take the object, the constructor the text of the solver
      op' = call(if (sol != "" and not(text)) "classmethod" else "assemble", sol, dst, cls, [], [code(m), code(d), code(t)], who),
    }
  }
  /// an object with any content, read from what the library itself wrote
  action load = {
    nondet dst = SLOTS.oneOf()
    nondet cls = SYSTEMS.union(OTHERS).oneOf()
    nondet m = 0.to(6).oneOf()
    nondet fmt = Set("json", "yaml", "bincode", "file").oneOf()
    nondet seed = 0.to(10^6).oneOf()
    val o = { cls: cls, at: leaves(cls, m).mapBy(x => if (x == ["m"]) code(m) else if (isSystem(cls) and Set(["state", "i"], ["state", "time"]).contains(x)) NOTHING else { n: seed, by: 0, src: x }) }
    all {
      objs' = objs.put(dst, o),
      runs' = runs,
      op' = call("load", "", dst, cls, [], [code(seed), code(m)], [fmt]),
    }
  }
  pure val CLASSES = ["ThermalMass", "ThermalReservoir", "Conductance", "AdaptiveSolverConfig", "SolverState", "SystemState", "ThermalMassState", "ConductanceState",
                      "SolverStateHistoryVec", "ThermalMassStateHistoryVec", "ConductanceStateHistoryVec", "SystemStateHistoryVec", "System3TM", "System3TMWithBC"]
  pure def number(cls: str): int = CLASSES.indices().fold(0, (acc, k) => if (CLASSES[k] == cls) k + 1 else acc)
  action default = {
    nondet dst = SLOTS.oneOf()
    nondet cls = SYSTEMS.union(OTHERS).oneOf()
    all {
      objs' = objs.put(dst, { cls: cls, at: leaves(cls, 0).mapBy(x => if (x == ["m"]) code(0) else { n: 0, by: -number(cls), src: x }) }),
      runs' = runs,
      op' = call("default", "", dst, cls, [], [], []),
    }
  }
  /// a field that is an object
  action getPart = {
    nondet on = named.oneOf()
    val o = objs.get(on)
    nondet k = PARTS.get(o.cls).indices().oneOf()
    nondet dst = SLOTS.oneOf()
    val p = PARTS.get(o.cls)[k]
    all {
      named != Set(), PARTS.get(o.cls).length() > 0,
      objs' = objs.put(dst, part(o, [p.f], p.cls)),
      runs' = runs,
      op' = call("get", on, dst, p.cls, [[p.f]], [], []),
    }
  }
  action getConf = {
    nondet on = named.filter(s => ADAPTIVE.contains(method(objs.get(s)))).oneOf()
    nondet dst = SLOTS.oneOf()
    all {
      named.exists(s => ADAPTIVE.contains(method(objs.get(s)))),
      objs' = objs.put(dst, part(objs.get(on), ["sc"], "AdaptiveSolverConfig")),
      runs' = runs,
      op' = call("get", on, dst, "AdaptiveSolverConfig", [["solver_conf"]], [], []),
    }
  }
  /// ways of copying, and writing and reading back
  action copyOf = {
    nondet on = named.oneOf()
    nondet dst = SLOTS.oneOf()
    nondet how = Set("clone", "copy", "deepcopy", "json", "yaml", "bincode", "file").oneOf()
    all {
      named != Set(),
      objs' = objs.put(dst, objs.get(on)),
      runs' = runs,
      op' = call(how, on, dst, objs.get(on).cls, [], [], []),
    }
  }
  action walk = {
    nondet on = named.filter(s => isSystem(objs.get(s).cls)).oneOf()
    all {
      named.exists(s => isSystem(objs.get(s).cls)), runs.length() < RUNS,
      objs' = objs.set(on, walked(objs.get(on), runs.length() + 1)),
      runs' = runs.append(objs.get(on)),
      op' = call("walk", on, on, objs.get(on).cls, [], [], []),
    }
  }
  /// calls that are refused with an exception and change nothing
  action refused = {
    nondet cls = CTORS.keys().union(SYSTEMS).oneOf()
    nondet how = Set("missing argument", "argument too many", "unknown keyword", "wrong type", "malformed json", "malformed yaml", "malformed bincode", "missing file", "unsupported suffix", "assignment").oneOf()
    nondet on = named.oneOf()
    all {
      named != Set(),
      objs' = objs, runs' = runs,
      op' = call("refused", on, "", cls, [], [], [how]),
    }
  }
  /// a workshop: first a stock of parts, all of them different, then systems put together of them in every way
  pure val STOCK = [{ slot: "a", cls: "ThermalMass" }, { slot: "b", cls: "Conductance" }, { slot: "c", cls: "ThermalMass" }, { slot: "d", cls: "ThermalReservoir" }, { slot: "e", cls: "Conductance" },
                    { slot: "f", cls: "ThermalMass" }, { slot: "g", cls: "AdaptiveSolverConfig" }, { slot: "h", cls: "AdaptiveSolverConfig" }, { slot: "i", cls: "ThermalReservoir" }]
  action stock = {
    val k = named.size()
    nondet first = VALUES.exclude(named.filter(s => objs.get(s).cls == STOCK[k].cls).map(s => objs.get(s).at.get(CTORS.get(STOCK[k].cls)[0]).n)).oneOf()
    nondet a1 = VALUES.oneOf()
    nondet a2 = VALUES.oneOf()
    nondet a3 = VALUES.oneOf()
    nondet a4 = VALUES.oneOf()
    nondet a5 = VALUES.oneOf()
    nondet a6 = VALUES.oneOf()
    val p = STOCK[k]
    val names = CTORS.get(p.cls)
    val args = [first, a1, a2, a3, a4, a5, a6].foldl([], (acc, x) => acc.append(code(x))).slice(0, names.length())
    all {
      objs' = objs.put(p.slot, made(p.cls, names, args)),
      runs' = runs,
      op' = call("make", "", p.slot, p.cls, names, args, []),
    }
  }
  action workshop = if (named.size() < STOCK.length()) stock else any { assembleIn(Set("x", "y")), assembleIn(Set("x", "y")), walk }

  action step = any { make, make, make, make, assemble, assemble, assemble, load, load, default, getPart, getConf, copyOf, copyOf, walk, walk, refused }
  action step2 = any { make, assemble, default, getPart, getConf, copyOf, walk }

  // ---- properties of the specification itself --------------------------------------------------------------------------------------
  val shaped = named.forall(s => objs.get(s).at.keys() == leaves(objs.get(s).cls, method(objs.get(s))))
  /// a walk keeps everything that is no solution
  val kept = op.what != "walk" or {
    val before = runs[runs.length() - 1]
    val after = objs.get(op.on)
    leaves(after.cls, method(after)).exclude(solution(method(after))).forall(x => after.at.get(x) == before.at.get(x))
  }
  /// what a constructor was given is read back at the field it names, and nothing else is set
  val given = op.what != "make" or {
    val o = objs.get(op.dst)
    leaves(o.cls, 0).forall(x => if (op.names.indices().exists(k => op.names[k] == x)) op.names.indices().forall(k => op.names[k] == x implies o.at.get(x) == op.args[k]) else o.at.get(x) == NOTHING)
  }
  val inv = shaped and kept and given
}
module pyTiny { import pyapi(SLOTS = Set("a", "b"), VALUES = Set(0), SYSTEMS = Set(), OTHERS = Set("ThermalMass", "Conductance"), RUNS = 0).* }
module pyShop {
  import pyapi(SLOTS = Set("x", "y"), VALUES = 0.to(4), SYSTEMS = Set("System3TM", "System3TMWithBC"), RUNS = 8, OTHERS = Set("ThermalMass", "ThermalReservoir", "Conductance", "AdaptiveSolverConfig")).*
}
module pyRuns {
  import pyapi(SLOTS = Set("a", "b", "c", "d", "e", "f", "g"), VALUES = 0.to(4), SYSTEMS = Set("System3TM", "System3TMWithBC"), RUNS = 8,
    OTHERS = Set("ThermalMass", "ThermalReservoir", "Conductance", "AdaptiveSolverConfig", "SolverState", "SystemState", "ThermalMassState", "ConductanceState",
                 "SolverStateHistoryVec", "ThermalMassStateHistoryVec", "ConductanceStateHistoryVec", "SystemStateHistoryVec")).*
}
