// -*- mode: Bluespec; -*-
/// Objects, texts and files: saving and loading in every format, with damaged, missing and misnamed files and media that fill up.
module store {
  import suffix.* from "./suffix"
  /// what a name refers to: a place where files can be, a medium that is full ("full") or has some room left ("tight"), a place without
  /// its directory, a directory
  type Name = { path: Path, place: str }
  type Content = Absent | Holds({ obj: int, fmt: str }) | Damaged(str) | Unclear
  type Text = Nothing | Says({ obj: int, fmt: str, damage: str })
  const NAMES: List[Name]
  const SLOTS: Set[str]
  const DEPTH: int

  /// objects by identity: equal numbers are equal objects; 0 for none
  var objs: str -> int
  var files: int -> Content
  var texts: str -> Text
  var fresh: int
  /// what was done and what it must report: "ok", "error", "whole" (success only if everything is stored), "either" (an error, or the object named)
  var op: { what: str, slot: str, name: int, other: int, arg: str, obj: int }
  var must: str
  var files0: int -> Content
  var names: List[Name]

  pure val DAMAGE = Set("trailing", "empty", "cut", "words", "list", "number", "null", "half", "missing", "renamed", "wrongtype")
  pure val ALL = Set("json", "yaml", "bin")
  /// damage after which the text cannot be anything but malformed, per format
  pure def breaks(fmt: str, d: str): bool =
    if (fmt == "json") true
    else if (fmt == "yaml") Set("trailing", "empty", "words", "list", "number", "null", "missing", "renamed", "wrongtype").contains(d)
    else Set("empty", "cut").contains(d)
  action init = all {
    objs' = SLOTS.mapBy(s => 0),
    files' = 0.to(NAMES.length() - 1).mapBy(n => Absent),
    texts' = SLOTS.mapBy(s => Nothing),
    fresh' = 1,
    op' = { what: "", slot: "", name: 0, other: 0, arg: "", obj: 0 },
    must' = "ok",
    files0' = 0.to(NAMES.length() - 1).mapBy(n => Absent),
    names' = NAMES,
  }
  action done(what: str, slot: str, name: int, other: int, arg: str, obj: int, report: str): bool = all {
    op' = { what: what, slot: slot, name: name, other: other, arg: arg, obj: obj },
    must' = report,
    files0' = files,
    names' = names,
    op.what != "end",
  }
  action make = {
    nondet s = SLOTS.oneOf()
    nondet what = Set("create", "evolve").oneOf()
    all {
      fresh < DEPTH,
      what == "evolve" implies objs.get(s) != 0,
      objs' = objs.set(s, fresh),
      fresh' = fresh + 1,
      files' = files,
      texts' = texts,
      done(what, s, 0, 0, "", fresh, "ok"),
    }
  }
  action save = {
    nondet s = SLOTS.oneOf()
    nondet n = 0.to(NAMES.length() - 1).oneOf()
    val f = format(NAMES[n].path)
    val good = f != "" and NAMES[n].place == "plain"
    val full = f != "" and Set("full", "tight").contains(NAMES[n].place)
    all {
      objs.get(s) != 0,
      files' = if (good) files.set(n, Holds({ obj: objs.get(s), fmt: f })) else if (full) files.set(n, Unclear) else files,
      objs' = objs,
      texts' = texts,
      fresh' = fresh,
      done("save", s, n, 0, "", objs.get(s), if (good) "ok" else if (full) "whole" else "error"),
    }
  }
  /// into a slot of its own ("z"), so that a wrong success does no harm
  action load = {
    nondet n = 0.to(NAMES.length() - 1).oneOf()
    val f = format(NAMES[n].path)
    val outcome = if (f == "") { report: "error", obj: 0 } else match files.get(n) {
      | Absent => { report: "error", obj: 0 }
      | Holds(h) => if (h.fmt == f) { report: "ok", obj: h.obj }
                    else if (f == "yaml") { report: "either", obj: h.obj }
                    else { report: "error", obj: 0 }
      | Damaged(d) => { report: "error", obj: 0 }
      | Unclear => { report: "any", obj: 0 }
    }
    all {
      NAMES[n].place != "full",
      objs' = objs, files' = files, texts' = texts, fresh' = fresh,
      done("load", "z", n, 0, "", outcome.obj, outcome.report),
    }
  }
  /// continue with what a file holds
  action adopt = {
    nondet n = 0.to(NAMES.length() - 1).oneOf()
    nondet s = SLOTS.oneOf()
    val held = match files.get(n) {
      | Holds(h) => if (h.fmt == format(NAMES[n].path)) h.obj else 0
      | _ => 0
    }
    all {
      held != 0,
      objs' = objs.set(s, held), files' = files, texts' = texts, fresh' = fresh,
      done("adopt", s, n, 0, "", held, "ok"),
    }
  }
  /// things that happen to files from outside
  action damage = {
    nondet n = 0.to(NAMES.length() - 1).oneOf()
    nondet d = DAMAGE.oneOf()
    val f = format(NAMES[n].path)
    val holds = match files.get(n) { | Holds(h) => h.fmt == f | _ => false }
    all {
      NAMES[n].place == "plain",
      f != "",
      breaks(f, d),
      Set("trailing", "cut", "half", "missing", "renamed", "wrongtype").contains(d) implies holds,
      objs' = objs, files' = files.set(n, Damaged(d)), texts' = texts, fresh' = fresh,
      done("damage", "", n, 0, d, 0, "ok"),
    }
  }
  /// the text an object was just saved as, changed a little
  val held = 0.to(NAMES.length() - 1).filter(n => NAMES[n].place == "plain" and (match files.get(n) { | Holds(h) => h.fmt == format(NAMES[n].path) | _ => false }))
  action harm = {
    nondet n = held.oneOf()
    nondet d = Set("trailing", "cut", "half", "missing", "renamed", "wrongtype").oneOf()
    all {
      breaks(format(NAMES[n].path), d),
      objs' = objs, files' = files.set(n, Damaged(d)), texts' = texts, fresh' = fresh,
      done("damage", "", n, 0, d, 0, "ok"),
    }
  }
  val harmed = 0.to(NAMES.length() - 1).filter(n => match files.get(n) { | Damaged(d) => true | _ => false })
  action loadHarmed = {
    nondet n = harmed.oneOf()
    all {
      objs' = objs, files' = files, texts' = texts, fresh' = fresh,
      done("load", "z", n, 0, "", 0, "error"),
    }
  }
  action copy = {
    nondet n = 0.to(NAMES.length() - 1).oneOf()
    nondet m = 0.to(NAMES.length() - 1).exclude(Set(n)).oneOf()
    all {
      NAMES[n].place == "plain",
      NAMES[m].place == "plain",
      match files.get(n) { | Holds(h) => true | _ => false },
      objs' = objs, files' = files.set(m, files.get(n)), texts' = texts, fresh' = fresh,
      done("copy", "", n, m, "", 0, "ok"),
    }
  }
  action remove = {
    nondet n = 0.to(NAMES.length() - 1).oneOf()
    all {
      NAMES[n].place == "plain",
      files.get(n) != Absent,
      objs' = objs, files' = files.set(n, Absent), texts' = texts, fresh' = fresh,
      done("remove", "", n, 0, "", 0, "ok"),
    }
  }
  action write = {
    nondet s = SLOTS.oneOf()
    nondet f = ALL.oneOf()
    all {
      objs.get(s) != 0,
      texts' = texts.set(s, Says({ obj: objs.get(s), fmt: f, damage: "" })),
      objs' = objs, files' = files, fresh' = fresh,
      done("write", s, 0, 0, f, objs.get(s), "ok"),
    }
  }
  action spoil = {
    nondet s = SLOTS.oneOf()
    nondet d = DAMAGE.oneOf()
    match texts.get(s) {
      | Nothing => all { false, objs' = objs, files' = files, texts' = texts, fresh' = fresh, done("", "", 0, 0, "", 0, "ok") }
      | Says(t) => all {
          t.damage == "",
          breaks(t.fmt, d),
          texts' = texts.set(s, Says({ obj: t.obj, fmt: t.fmt, damage: d })),
          objs' = objs, files' = files, fresh' = fresh,
          done("spoil", s, 0, 0, d, 0, "ok"),
        }
    }
  }
  /// the text of slot s loaded: an error when spoilt, the object otherwise
  action read = {
    nondet s = SLOTS.oneOf()
    match texts.get(s) {
      | Nothing => all { false, objs' = objs, files' = files, texts' = texts, fresh' = fresh, done("", "", 0, 0, "", 0, "ok") }
      | Says(t) => all {
          objs' = if (t.damage == "") objs.set(s, t.obj) else objs,
          texts' = texts, files' = files, fresh' = fresh,
          done("read", if (t.damage == "") s else "z", 0, 0, s, if (t.damage == "") t.obj else 0, if (t.damage == "") "ok" else "error"),
        }
    }
  }
  action step = any { make, make, save, save, save, save, load, load, load, loadHarmed, loadHarmed, adopt, damage, harm, harm, copy, remove, write, write, spoil, read, read }
  action step2 = any { make, save, load, adopt, damage, copy, remove }

  // C21
  pure def sameBut(a: int -> Content, b: int -> Content, n: int): bool = a.keys().forall(k => k == n or a.get(k) == b.get(k))
  val saves = op.what == "save" implies and {
    sameBut(files, files0, op.name),
    format(NAMES[op.name].path) == "" implies must == "error" and files == files0,
    must == "error" implies files == files0,
    must == "ok" implies files.get(op.name) == Holds({ obj: op.obj, fmt: format(NAMES[op.name].path) }),
  }
  val loads = Set("load", "adopt", "read").contains(op.what) implies files == files0
  /// C19: a load that must succeed gives the object last saved under that name, or last written in that slot
  val faithful = Set("load", "adopt").contains(op.what) and must == "ok" implies
    files.get(op.name) == Holds({ obj: op.obj, fmt: format(NAMES[op.name].path) })
  val inv = and { saves, loads, faithful }
}
module storeTiny {
  import store(NAMES = [{ path: ["a", ".", "json"], place: "plain" }, { path: ["a"], place: "plain" }, { path: ["f", ".", "yaml"], place: "tight" }],
    SLOTS = Set("a", "b"), DEPTH = 3).*
}
module storeDeep {
  import store(NAMES = [{ path: ["a", ".", "json"], place: "plain" }, { path: ["a", ".", "yaml"], place: "plain" }, { path: ["a"], place: "plain" }, { path: ["f", ".", "yaml"], place: "tight" }],
    SLOTS = Set("a", "b"), DEPTH = 4).*
}
module storeRuns {
  import store(NAMES = [
      { path: ["a", ".", "json"], place: "plain" }, { path: ["a", ".", "yaml"], place: "plain" }, { path: ["b", ".", "json"], place: "plain" }, { path: ["b", ".", "x", ".", "yaml"], place: "plain" },
      { path: ["a"], place: "plain" }, { path: ["a", ".", "txt"], place: "plain" }, { path: [".", "json"], place: "plain" }, { path: ["a", ".", "JSON"], place: "plain" },
      { path: ["full", ".", "json"], place: "full" }, { path: ["full", ".", "yaml"], place: "full" },
      { path: ["t", ".", "json"], place: "tight" }, { path: ["t", ".", "yaml"], place: "tight" },
      { path: ["no", "/", "a", ".", "json"], place: "nodir" }, { path: ["no", "/", "a", ".", "yaml"], place: "nodir" }, { path: ["d", ".", "yaml"], place: "dir" }, { path: ["d", ".", "json"], place: "dir" } ],
    SLOTS = Set("a", "b"), DEPTH = 1000).*
}
