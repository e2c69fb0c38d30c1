// -*- mode: Bluespec; -*-
/// Programs that use the library's macros, which of them are accepted, and what an accepted one must do.
/// A behaviour edits a program step by step; each of its states is a program of its own.
module macros {
  /// what a macro's argument list contains: kind "fn", or one of the items that are no functions
  type Item = { kind: str, name: str }
  /// role: "tracked" (use_state), "recorded" (save_state), "both" (use_state and save_state), "plain", or one of the four fields every system has
  type Field = { name: str, role: str, ty: str, skip: bool }
  /// `record`: fields of the component's own state record (none: the library's); `walk`: the helper attribute that adds the Python method of that name
  type Program = { system: bool, items: List[Item], py: bool, walk: bool, pyItems: List[Item], fields: List[Field], record: List[{ name: str, ty: str }] }
  /// what becomes of a program
  type Verdict = { accepted: bool, reasons: Set[str], order: List[str], recorded: Set[str], after: List[int], shown: Set[str], offered: Set[str] }

  const SIZE: int
  const MANY: int
  const FIELDS: Set[str]
  const TRACKED: Set[str]
  const RECORDED: Set[str]
  const PLAIN: Set[str]
  const OTHER_FNS: Set[str]
  const PY_FNS: Set[str]
  const ITEMS: Set[str]
  const CELLS: Set[str]
  var prog: Program
  var verdict: Verdict

  pure val OWN = Set("solver_type", "t_report", "state", "history")
  pure val RESERVED = Set("default", "default_py")

  pure def count(l: List[Item], p: (Item) => bool): int = l.foldl(0, (acc, x) => acc + (if (p(x)) 1 else 0))
  pure def allOf(l: List[Item], p: (Item) => bool): bool = l.foldl(true, (acc, x) => acc and p(x))
  pure def has(l: List[Field], role: str): bool = l.foldl(false, (acc, f) => acc or f.role == role)

  // ---- acceptance ----------------------------------------------------------------------------------------------------------
  pure def solverOk(p: Program): bool = p.items == [{ kind: "fn", name: "update_derivs" }]
  pure def pyOk(p: Program): bool = allOf(p.pyItems, x => x.kind == "fn" and not(RESERVED.contains(x.name)))
  pure val MARKED = Set("tracked", "recorded", "both")
  pure def isState(f: Field): bool = f.role == "tracked" or f.role == "both"
  pure def savesSomething(p: Program): bool = has(p.fields, "state") or p.fields.foldl(false, (acc, f) => acc or MARKED.contains(f.role))
  pure def accepted(p: Program): bool = and {
    p.system implies solverOk(p),
    p.py implies pyOk(p),
    savesSomething(p),
  }
  /// the same, as the list of reasons for refusal
  pure def reasons(p: Program): Set[str] = Set(
    if (p.system and count(p.items, x => x.kind == "fn" and x.name == "update_derivs") == 0) "no derivative update" else "",
    if (p.system and count(p.items, x => x.kind == "fn" and x.name == "update_derivs") > 1) "more than one derivative update" else "",
    if (p.system and count(p.items, x => x.kind == "fn" and x.name != "update_derivs") > 0) "another function" else "",
    if (p.system and count(p.items, x => x.kind != "fn") > 0) "an item that is no function" else "",
    if (p.py and count(p.pyItems, x => x.kind != "fn") > 0) "a Python item that is no function" else "",
    if (p.py and count(p.pyItems, x => x.kind == "fn" and RESERVED.contains(x.name)) > 0) "a reserved name" else "",
    if (p.fields.foldl(true, (acc, f) => acc and f.role != "state" and not(MARKED.contains(f.role)))) "nothing to save" else "",
  ).exclude(Set(""))

  // ---- what an accepted system does ------------------------------------------------------------------------------------------
  /// names of the fields behind the vector of states, in its order
  pure def order(p: Program): List[str] = p.fields.foldl([], (acc, f) => if (isState(f)) acc.append(f.name) else acc)
  /// fields whose history grows with the system's
  pure def recorded(p: Program): Set[str] = p.fields.foldl(Set(), (acc, f) => if (MARKED.contains(f.role)) acc.union(Set(f.name)) else acc)
  /// potentials after `n` units of time when the k-th tracked field changes at rate k + 1, starting from 10 (k + 1); reservoirs stay
  pure def after(p: Program, n: int): List[int] = {
    pure val tr = p.fields.foldl([], (acc, f) => if (isState(f)) acc.append(f.ty) else acc)
    range(0, tr.length()).foldl([], (acc, k) => acc.append(10 * (k + 1) + (if (tr[k] == "ThermalReservoir") 0 else n * (k + 1))))
  }

  // ---- what Python sees of it ------------------------------------------------------------------------------------------------
  /// fields readable from Python: all but those marked to be skipped
  pure def shown(p: Program): Set[str] = p.fields.foldl(Set(), (acc, f) => if (p.py and not(f.skip)) acc.union(Set(f.name)) else acc)
  /// functions callable from Python besides those every class has: the user's, and the walk if asked for
  pure def offered(p: Program): Set[str] =
    p.pyItems.foldl(if (p.py and p.walk and p.system) Set("walk") else Set(), (acc, x) => acc.union(Set(x.name)))

  // ---- programs ----------------------------------------------------------------------------------------------------------------
  pure def insert(l: List[Field], k: int, f: Field): List[Field] = l.slice(0, k).append(f).concat(l.slice(k, l.length()))
  pure val UPDATE = { kind: "fn", name: "update_derivs" }
  pure val SYSTEM = [{ name: "solver_type", role: "solver_type", ty: "SolverTypes", skip: true }, { name: "t_report", role: "t_report", ty: "Vec<f64>", skip: false },
                     { name: "state", role: "state", ty: "SystemState", skip: false }, { name: "history", role: "history", ty: "SystemStateHistoryVec", skip: false }]
  pure val COMPONENT = [{ name: "state", role: "state", ty: "ThermalMassState", skip: false }, { name: "history", role: "history", ty: "ThermalMassStateHistoryVec", skip: false }]
  val used = prog.fields.foldl(Set(), (acc, f) => acc.union(Set(f.name)))

  pure def judge(p: Program): Verdict = { accepted: accepted(p), reasons: reasons(p), order: order(p), recorded: recorded(p), after: after(p, 3), shown: shown(p), offered: offered(p) }
  action becomes(p) = all { prog' = p, verdict' = judge(p) }

  action init = {
    nondet system = Set(true, true, true, false).oneOf()
    nondet py = Bool.oneOf()
    nondet own = Bool.oneOf()
    nondet half = Set(true, false, false).oneOf()
    nondet given = Bool.oneOf()
    val p = { system: system, py: py, walk: false, record: [], pyItems: [], items: if (given or not(system)) [UPDATE] else [],
              fields: if (system) SYSTEM else if (own) COMPONENT
                      // a history by name, but no state to save in it
                      else if (half) [COMPONENT[1]] else [{ name: "c", role: "plain", ty: "f64", skip: false }] }
    all { prog' = p, verdict' = judge(p) }
  }
  action addField = {
    nondet name = FIELDS.exclude(used).oneOf()
    nondet role = Set("tracked", "recorded", "both", "plain").oneOf()
    nondet ty = (if (role == "tracked" or role == "both") TRACKED else if (role == "recorded") RECORDED else PLAIN).oneOf()
    nondet k = 0.to(prog.fields.length()).oneOf()
    nondet skip = Bool.oneOf()
    all {
      FIELDS.exclude(used) != Set(),
      prog.fields.length() < SIZE + 4,
      becomes({ ...prog, fields: insert(prog.fields, k, { name: name, role: role, ty: ty, skip: skip }) }),
    }
  }
  /// fields change places
  action moveField = {
    nondet k = prog.fields.indices().oneOf()
    nondet m = prog.fields.indices().oneOf()
    becomes({ ...prog, fields: prog.fields.replaceAt(k, prog.fields[m]).replaceAt(m, prog.fields[k]) })
  }
  action dropField = {
    nondet k = prog.fields.indices().oneOf()
    all {
      MARKED.contains(prog.fields[k].role),
      becomes({ ...prog, fields: prog.fields.slice(0, k).concat(prog.fields.slice(k + 1, prog.fields.length())) }),
    }
  }
  action addItem = {
    nondet kind = Set("fn").union(ITEMS).oneOf()
    nondet name = OTHER_FNS.oneOf()
    nondet last = Bool.oneOf()
    val x = if (kind == "fn") { kind: "fn", name: name } else { kind: kind, name: "" }
    all {
      prog.system,
      prog.items.length() < MANY,
      becomes({ ...prog, items: if (last) prog.items.append(x) else [x].concat(prog.items) }),
    }
  }
  action addUpdate = all {
    prog.system,
    prog.items.length() < MANY,
    becomes({ ...prog, items: prog.items.append(UPDATE) }),
  }
  action clearItems = {
    nondet given = Set(true, true, false).oneOf()
    all {
      prog.system,
      becomes({ ...prog, items: if (given) [UPDATE] else [], pyItems: [] }),
    }
  }
  action addPy = {
    nondet kind = Set("fn").union(ITEMS).oneOf()
    nondet name = PY_FNS.oneOf()
    val x = if (kind == "fn") { kind: "fn", name: name } else { kind: kind, name: "" }
    all {
      prog.py,
      prog.pyItems.length() < MANY,
      count(prog.pyItems, y => y == x) == 0,
      becomes({ ...prog, pyItems: prog.pyItems.append(x) }),
    }
  }
  action addPyFn = {
    nondet name = PY_FNS.exclude(RESERVED).oneOf()
    val x = { kind: "fn", name: name }
    all {
      prog.py,
      prog.pyItems.length() < MANY,
      count(prog.pyItems, y => y == x) == 0,
      becomes({ ...prog, pyItems: prog.pyItems.append(x) }),
    }
  }
  action addCell = {
    nondet name = FIELDS.exclude(prog.record.foldl(Set(), (acc, f) => acc.union(Set(f.name)))).oneOf()
    nondet ty = CELLS.oneOf()
    nondet first = Bool.oneOf()
    val f = { name: name, ty: ty }
    all {
      not(prog.system),
      has(prog.fields, "state"),
      prog.record.length() < MANY + 2,
      becomes({ ...prog, record: if (first) [f].concat(prog.record) else prog.record.append(f) }),
    }
  }
  action togglePy = becomes({ ...prog, py: not(prog.py), pyItems: [], walk: false })
  action toggleWalk = all {
    prog.py,
    prog.system,
    becomes({ ...prog, walk: not(prog.walk) }),
  }
  action step = any { addCell, addField, addField, addField, moveField, dropField, addItem, addUpdate, clearItems, clearItems, addPy, addPyFn, togglePy, toggleWalk }
  action step2 = any { addCell, addField, dropField, addItem, addUpdate, clearItems, addPy, togglePy }

  // ---- properties of the specification itself ------------------------------------------------------------------------------------
  val verdicts = accepted(prog) == (reasons(prog) == Set()) and verdict == judge(prog)
  val wellFormed = and {
    prog.system implies OWN.forall(r => has(prog.fields, r)),
    order(prog).length() == after(prog, 0).length(),
    order(prog).foldl(Set(), (acc, n) => acc.union(Set(n))).subseteq(recorded(prog)),
    shown(prog).subseteq(used),
    offered(prog).contains("walk") implies prog.system,
  }
  val inv = verdicts and wellFormed
}
module macrosTiny {
  import macros(SIZE = 1, MANY = 2, FIELDS = Set("a"), TRACKED = Set("ThermalMass"), RECORDED = Set("Conductance"), PLAIN = Set("f64"),
                OTHER_FNS = Set("helper"), PY_FNS = Set("helper", "default"), ITEMS = Set("const"), CELLS = Set("f64")).*
}
module macrosDeep {
  import macros(SIZE = 2, MANY = 2, FIELDS = Set("a", "b"), TRACKED = Set("ThermalMass"), RECORDED = Set("Conductance"), PLAIN = Set("f64"),
                OTHER_FNS = Set("helper"), PY_FNS = Set("helper", "default"), ITEMS = Set("const"), CELLS = Set("f64")).*
}
module macrosRuns {
  import macros(SIZE = 9, MANY = 3,
    FIELDS = Set("a", "zeta", "b1", "_x", "states", "derivs", "new", "iter", "val", "time", "dt", "i", "state_2", "histories", "m3", "core", "self_", "this",
                 "mystate", "sub_state", "history_tag", "old_history", "t_report_old", "solver_type_", "state_", "last",
                 "r#type", "r#loop"),
    TRACKED = Set("ThermalMass", "ThermalReservoir", "Tank"),
    RECORDED = Set("ThermalMass", "Conductance", "Tank", "Pack"),
    PLAIN = Set("f64", "String", "Vec<f64>", "bool", "Option<f64>", "u32", "ThermalMass", "Tank", "[f64; 3]", "(f64, u32)"),
    OTHER_FNS = Set("helper", "walk", "update_deriv", "update_derivs_", "reset_derivs", "step_time", "default", "states", "euler", "sc"),
    PY_FNS = Set("__new__", "helper", "default", "default_py", "defaults", "value", "_default", "default_python"),
    ITEMS = Set("const", "type", "macro", "words", "struct"),
    CELLS = Set("f64", "u32", "bool", "usize", "[f64; 2]", "Option<f64>", "i8", "char", "(f64, i64)")).*
}
