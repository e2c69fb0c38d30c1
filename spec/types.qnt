// -*- mode: Bluespec; -*-
/// Shapes of the types of the harness and of the shipped examples, as their declarations document them: plain leaves, histories with
/// the leaves each of them records, and the potentials in declaration order.
module types {
  /// a history: owner, recorded leaves, and whether the owner is reached through tracked (use_state) or recorded (save_state) fields
  type Hist = { own: str, cols: List[str], tracked: bool }
  /// a potential: value, derivative, storage ("" when infinite), reservoir (its derivative is held at zero)
  type Pot = { v: str, d: str, cap: str, res: bool }
  /// `leaves`: all plain values; `flags`: those of them that are booleans; `clock`, `pos`: "" for components
  type Ty = { name: str, leaves: List[str], flags: Set[str], hists: List[Hist], pots: List[Pot], clock: str, pos: str }

  pure def hist(own: str, cols: List[str]): Hist = { own: own, cols: cols, tracked: true }
  pure def loose(own: str, cols: List[str]): Hist = { own: own, cols: cols, tracked: false }
  pure def mass(v: str, d: str, cap: str): Pot = { v: v, d: d, cap: cap, res: false }
  pure def reservoir(v: str, d: str): Pot = { v: v, d: d, cap: "", res: true }
  pure val SYS = ["state.i", "state.time", "t_report", "solver_type"]
  pure val HSYS = hist("", ["state.i", "state.time"])
  pure def system(name: str, leaves: List[str], hists: List[Hist], pots: List[Pot]): Ty =
    { name: name, leaves: SYS.concat(leaves), flags: Set(), hists: [HSYS].concat(hists), pots: pots, clock: "state.time", pos: "state.i" }
  pure def component(name: str, leaves: List[str], hists: List[Hist], pots: List[Pot]): Ty =
    { name: name, leaves: leaves, flags: Set(), hists: hists, pots: pots, clock: "", pos: "" }

  pure val P1: Ty = system("P1", ["rhs", "a.tag", "a.limits", "a.c", "a.state.n", "a.state.v", "a.state.dv"],
    [hist("a", ["a.state.n", "a.state.v", "a.state.dv"])],
    [mass("a.state.v", "a.state.dv", "a.c")])
  pure val P2: Ty = system("P2", ["note", "rhs", "forced", "x.c", "x.state.temp", "x.state.dtemp", "v.tag", "v.limits", "v.c", "v.state.n", "v.state.v", "v.state.dv"],
    [hist("x", ["x.state.temp", "x.state.dtemp"]), hist("v", ["v.state.n", "v.state.v", "v.state.dv"])],
    [mass("x.state.temp", "x.state.dtemp", "x.c"), mass("v.state.v", "v.state.dv", "v.c")])
  pure val P3: Ty = {
    pure val t = system("P3", [
        "label", "gain", "opts", "stages", "rhs", "forced",
        "b.tag", "b.limits", "b.c", "b.state.n", "b.state.v", "b.state.dv",
        "a.c", "a.state.temp", "a.state.dtemp",
        "spare.tag", "spare.limits", "spare.c", "spare.state.n", "spare.state.v", "spare.state.dv",
        "c.id", "c.probe.serial", "c.probe.state.x", "c.probe.state.on",
        "c.core.tag", "c.core.limits", "c.core.c", "c.core.state.n", "c.core.state.v", "c.core.state.dv",
        "probe.serial", "probe.state.x", "probe.state.on",
        "rec.gain", "rec.state.x", "rec.state.on", "rec.inner.serial", "rec.inner.state.x", "rec.inner.state.on",
        "rec.loose.serial", "rec.loose.state.x", "rec.loose.state.on", "rec.second.serial", "rec.second.state.x", "rec.second.state.on"],
      [ hist("b", ["b.state.n", "b.state.v", "b.state.dv"]), hist("a", ["a.state.temp", "a.state.dtemp"]),
        loose("spare", ["spare.state.n", "spare.state.v", "spare.state.dv"]),
        hist("c.probe", ["c.probe.state.x", "c.probe.state.on"]), hist("c.core", ["c.core.state.n", "c.core.state.v", "c.core.state.dv"]),
        hist("probe", ["probe.state.x", "probe.state.on"]),
        hist("rec", ["rec.state.x", "rec.state.on"]), hist("rec.inner", ["rec.inner.state.x", "rec.inner.state.on"]),
        loose("rec.loose", ["rec.loose.state.x", "rec.loose.state.on"]), hist("rec.second", ["rec.second.state.x", "rec.second.state.on"]) ],
      [mass("b.state.v", "b.state.dv", "b.c"), mass("a.state.temp", "a.state.dtemp", "a.c"), mass("c.core.state.v", "c.core.state.dv", "c.core.c")])
    { ...t, flags: Set("c.probe.state.on", "probe.state.on", "rec.state.on", "rec.inner.state.on", "rec.loose.state.on", "rec.second.state.on") }
  }
  pure val P6: Ty = { ...P6PLAIN, flags: Set("histories.state.on") }
  pure val P6PLAIN: Ty = system("P6", ["rhs", "history_tag", "old_history", "mystate", "states", "state_note", "t_report_old",
      "histories.serial", "histories.state.x", "histories.state.on",
      "f.tag", "f.limits", "f.c", "f.state.n", "f.state.v", "f.state.dv", "e.c", "e.state.temp", "e.state.dtemp",
      "d.tag", "d.limits", "d.c", "d.state.n", "d.state.v", "d.state.dv", "c.tag", "c.limits", "c.c", "c.state.n", "c.state.v", "c.state.dv",
      "b.c", "b.state.temp", "b.state.dtemp", "a.tag", "a.limits", "a.c", "a.state.n", "a.state.v", "a.state.dv"],
    [ hist("histories", ["histories.state.x", "histories.state.on"]), hist("f", ["f.state.n", "f.state.v", "f.state.dv"]), hist("e", ["e.state.temp", "e.state.dtemp"]), hist("d", ["d.state.n", "d.state.v", "d.state.dv"]),
      hist("c", ["c.state.n", "c.state.v", "c.state.dv"]), hist("b", ["b.state.temp", "b.state.dtemp"]), hist("a", ["a.state.n", "a.state.v", "a.state.dv"]) ],
    [ mass("f.state.v", "f.state.dv", "f.c"), mass("e.state.temp", "e.state.dtemp", "e.c"), mass("d.state.v", "d.state.dv", "d.c"),
      mass("c.state.v", "c.state.dv", "c.c"), mass("b.state.temp", "b.state.dtemp", "b.c"), mass("a.state.v", "a.state.dv", "a.c") ])
  pure val P13: Ty = system("P13", ["rhs", "s07.tag", "s07.limits", "s07.c", "s07.state.n", "s07.state.v", "s07.state.dv",
      "s12.c", "s12.state.temp", "s12.state.dtemp", "s01.c", "s01.state.temp", "s01.state.dtemp", "s13.tag",
      "s13.limits", "s13.c", "s13.state.n", "s13.state.v", "s13.state.dv", "s05.c", "s05.state.temp",
      "s05.state.dtemp", "s10.tag", "s10.limits", "s10.c", "s10.state.n", "s10.state.v", "s10.state.dv",
      "s02.tag", "s02.limits", "s02.c", "s02.state.n", "s02.state.v", "s02.state.dv", "s09.c",
      "s09.state.temp", "s09.state.dtemp", "s04.tag", "s04.limits", "s04.c", "s04.state.n", "s04.state.v",
      "s04.state.dv", "s11.c", "s11.state.temp", "s11.state.dtemp", "s03.c", "s03.state.temp", "s03.state.dtemp",
      "s08.tag", "s08.limits", "s08.c", "s08.state.n", "s08.state.v", "s08.state.dv", "s06.c",
      "s06.state.temp", "s06.state.dtemp"],
    [ hist("s07", ["s07.state.n", "s07.state.v", "s07.state.dv"]), hist("s12", ["s12.state.temp", "s12.state.dtemp"]), hist("s01", ["s01.state.temp", "s01.state.dtemp"]),
      hist("s13", ["s13.state.n", "s13.state.v", "s13.state.dv"]), hist("s05", ["s05.state.temp", "s05.state.dtemp"]), hist("s10", ["s10.state.n", "s10.state.v", "s10.state.dv"]),
      hist("s02", ["s02.state.n", "s02.state.v", "s02.state.dv"]), hist("s09", ["s09.state.temp", "s09.state.dtemp"]), hist("s04", ["s04.state.n", "s04.state.v", "s04.state.dv"]),
      hist("s11", ["s11.state.temp", "s11.state.dtemp"]), hist("s03", ["s03.state.temp", "s03.state.dtemp"]), hist("s08", ["s08.state.n", "s08.state.v", "s08.state.dv"]),
      hist("s06", ["s06.state.temp", "s06.state.dtemp"]) ],
    [ mass("s07.state.v", "s07.state.dv", "s07.c"), mass("s12.state.temp", "s12.state.dtemp", "s12.c"), mass("s01.state.temp", "s01.state.dtemp", "s01.c"),
      mass("s13.state.v", "s13.state.dv", "s13.c"), mass("s05.state.temp", "s05.state.dtemp", "s05.c"), mass("s10.state.v", "s10.state.dv", "s10.c"),
      mass("s02.state.v", "s02.state.dv", "s02.c"), mass("s09.state.temp", "s09.state.dtemp", "s09.c"), mass("s04.state.v", "s04.state.dv", "s04.c"),
      mass("s11.state.temp", "s11.state.dtemp", "s11.c"), mass("s03.state.temp", "s03.state.dtemp", "s03.c"), mass("s08.state.v", "s08.state.dv", "s08.c"),
      mass("s06.state.temp", "s06.state.dtemp", "s06.c") ])
  pure val RING4: Ty = system("Ring4", [
      "m3.c", "m3.state.temp", "m3.state.dtemp", "m1.tag", "m1.limits", "m1.c", "m1.state.n", "m1.state.v", "m1.state.dv",
      "m4.tag", "m4.limits", "m4.c", "m4.state.n", "m4.state.v", "m4.state.dv", "m2.c", "m2.state.temp", "m2.state.dtemp",
      "l14.state.gap", "l14.state.q", "l14.h", "l14.label", "l34.state.gap", "l34.state.q", "l34.h", "l34.label", "l12.h", "l12.state.q", "l32.h", "l32.state.q"],
    [ hist("m3", ["m3.state.temp", "m3.state.dtemp"]), hist("m1", ["m1.state.n", "m1.state.v", "m1.state.dv"]),
      hist("m4", ["m4.state.n", "m4.state.v", "m4.state.dv"]), hist("m2", ["m2.state.temp", "m2.state.dtemp"]),
      hist("l14", ["l14.state.gap", "l14.state.q"]), hist("l34", ["l34.state.gap", "l34.state.q"]), hist("l12", ["l12.state.q"]), hist("l32", ["l32.state.q"]) ],
    [mass("m3.state.temp", "m3.state.dtemp", "m3.c"), mass("m1.state.v", "m1.state.dv", "m1.c"), mass("m4.state.v", "m4.state.dv", "m4.c"), mass("m2.state.temp", "m2.state.dtemp", "m2.c")])
  pure val STAR: Ty = system("Star", ["rhs", "forced",
      "r1.state.temp", "r1.state.dtemp", "hub.c", "hub.state.temp", "hub.state.dtemp", "m2.tag", "m2.limits", "m2.c", "m2.state.n", "m2.state.v", "m2.state.dv",
      "r4.state.temp", "r4.state.dtemp", "m3.c", "m3.state.temp", "m3.state.dtemp",
      "k1.h", "k1.state.q", "k2.h", "k2.state.q", "k4.h", "k4.state.q", "k3.h", "k3.label", "k3.state.gap", "k3.state.q"],
    [ hist("r1", ["r1.state.temp", "r1.state.dtemp"]), hist("hub", ["hub.state.temp", "hub.state.dtemp"]), hist("m2", ["m2.state.n", "m2.state.v", "m2.state.dv"]),
      hist("r4", ["r4.state.temp", "r4.state.dtemp"]), hist("m3", ["m3.state.temp", "m3.state.dtemp"]),
      hist("k1", ["k1.state.q"]), hist("k2", ["k2.state.q"]), hist("k4", ["k4.state.q"]), hist("k3", ["k3.state.gap", "k3.state.q"]) ],
    [ reservoir("r1.state.temp", "r1.state.dtemp"), mass("hub.state.temp", "hub.state.dtemp", "hub.c"), mass("m2.state.v", "m2.state.dv", "m2.c"),
      reservoir("r4.state.temp", "r4.state.dtemp"), mass("m3.state.temp", "m3.state.dtemp", "m3.c") ])
  pure val DUCT: Ty = system("Duct", ["lo.state.temp", "lo.state.dtemp", "m.c", "m.state.temp", "m.state.dtemp", "hi.state.temp", "hi.state.dtemp", "a.h", "a.state.q", "b.h", "b.state.q"],
    [ hist("lo", ["lo.state.temp", "lo.state.dtemp"]), hist("m", ["m.state.temp", "m.state.dtemp"]), hist("hi", ["hi.state.temp", "hi.state.dtemp"]),
      hist("a", ["a.state.q"]), hist("b", ["b.state.q"]) ],
    [reservoir("lo.state.temp", "lo.state.dtemp"), mass("m.state.temp", "m.state.dtemp", "m.c"), reservoir("hi.state.temp", "hi.state.dtemp")])
  pure val CHAIN: Ty = {
    pure val t = system("Chain", [
        "top.id", "top.probe.serial", "top.probe.state.x", "top.probe.state.on", "top.core.tag", "top.core.limits", "top.core.c", "top.core.state.n", "top.core.state.v", "top.core.state.dv",
        "idle.c", "idle.state.temp", "idle.state.dtemp", "mid.tag", "mid.limits", "mid.c", "mid.state.n", "mid.state.v", "mid.state.dv", "low.c", "low.state.temp", "low.state.dtemp",
        "l.state.gap", "l.state.q", "l.h", "l.label", "t.state.gap", "t.state.q", "t.h", "t.label", "unused.state.gap", "unused.state.q", "unused.h", "unused.label"],
      [ hist("top.probe", ["top.probe.state.x", "top.probe.state.on"]), hist("top.core", ["top.core.state.n", "top.core.state.v", "top.core.state.dv"]),
        hist("idle", ["idle.state.temp", "idle.state.dtemp"]), hist("mid", ["mid.state.n", "mid.state.v", "mid.state.dv"]), hist("low", ["low.state.temp", "low.state.dtemp"]),
        hist("l", ["l.state.gap", "l.state.q"]), hist("t", ["t.state.gap", "t.state.q"]), hist("unused", ["unused.state.gap", "unused.state.q"]) ],
      [ mass("top.core.state.v", "top.core.state.dv", "top.core.c"), mass("idle.state.temp", "idle.state.dtemp", "idle.c"),
        mass("mid.state.v", "mid.state.dv", "mid.c"), mass("low.state.temp", "low.state.dtemp", "low.c") ])
    { ...t, flags: Set("top.probe.state.on") }
  }
  pure val PAR2: Ty = system("Par2", ["p.h", "p.state.q", "q.h", "q.state.q", "r.state.gap", "r.state.q", "r.h", "r.label", "m1.c", "m1.state.temp", "m1.state.dtemp",
      "m2.tag", "m2.limits", "m2.c", "m2.state.n", "m2.state.v", "m2.state.dv"],
    [ hist("p", ["p.state.q"]), hist("q", ["q.state.q"]), hist("r", ["r.state.gap", "r.state.q"]), hist("m1", ["m1.state.temp", "m1.state.dtemp"]),
      hist("m2", ["m2.state.n", "m2.state.v", "m2.state.dv"]) ],
    [mass("m1.state.temp", "m1.state.dtemp", "m1.c"), mass("m2.state.v", "m2.state.dv", "m2.c")])
  pure val THREE_LEAVES = ["m2.c", "m2.state.temp", "m2.state.dtemp", "m3.c", "m3.state.temp", "m3.state.dtemp", "h12.h", "h12.state.q", "h23.h", "h23.state.q", "m1.state.temp", "m1.state.dtemp"]
  pure val THREE_HISTS = [ hist("m1", ["m1.state.temp", "m1.state.dtemp"]), hist("m2", ["m2.state.temp", "m2.state.dtemp"]), hist("m3", ["m3.state.temp", "m3.state.dtemp"]),
    hist("h12", ["h12.state.q"]), hist("h23", ["h23.state.q"]) ]
  pure val THREE: Ty = system("System3TM", THREE_LEAVES.append("m1.c"), THREE_HISTS,
    [mass("m1.state.temp", "m1.state.dtemp", "m1.c"), mass("m2.state.temp", "m2.state.dtemp", "m2.c"), mass("m3.state.temp", "m3.state.dtemp", "m3.c")])
  pure val THREE_BC: Ty = system("System3TMWithBC", THREE_LEAVES, THREE_HISTS,
    [reservoir("m1.state.temp", "m1.state.dtemp"), mass("m2.state.temp", "m2.state.dtemp", "m2.c"), mass("m3.state.temp", "m3.state.dtemp", "m3.c")])

  // components
  pure val MASS: Ty = component("Mass", ["tag", "limits", "c", "state.n", "state.v", "state.dv"], [hist("", ["state.n", "state.v", "state.dv"])], [mass("state.v", "state.dv", "c")])
  pure val THERMAL_MASS: Ty = component("ThermalMass", ["c", "state.temp", "state.dtemp"], [hist("", ["state.temp", "state.dtemp"])], [mass("state.temp", "state.dtemp", "c")])
  pure val RESERVOIR: Ty = component("ThermalReservoir", ["state.temp", "state.dtemp"], [hist("", ["state.temp", "state.dtemp"])], [reservoir("state.temp", "state.dtemp")])
  pure val CONDUCTANCE: Ty = component("Conductance", ["h", "state.q"], [hist("", ["state.q"])], [])
  pure val LINK: Ty = component("Link", ["h", "label", "state.gap", "state.q"], [hist("", ["state.gap", "state.q"])], [])
  pure val WRAPPED: Ty = {
    pure val t = component("Wrapped", ["id", "probe.serial", "probe.state.x", "probe.state.on", "core.tag", "core.limits", "core.c", "core.state.n", "core.state.v", "core.state.dv"],
      [hist("probe", ["probe.state.x", "probe.state.on"]), hist("core", ["core.state.n", "core.state.v", "core.state.dv"])], [mass("core.state.v", "core.state.dv", "core.c")])
    { ...t, flags: Set("probe.state.on") }
  }
  pure val RECORDER: Ty = {
    pure val t = component("Recorder", ["gain", "state.x", "state.on", "inner.serial", "inner.state.x", "inner.state.on", "loose.serial", "loose.state.x", "loose.state.on",
        "second.serial", "second.state.x", "second.state.on"],
      [hist("", ["state.x", "state.on"]), hist("inner", ["inner.state.x", "inner.state.on"]), loose("loose", ["loose.state.x", "loose.state.on"]), hist("second", ["second.state.x", "second.state.on"])], [])
    { ...t, flags: Set("state.on", "inner.state.on", "loose.state.on", "second.state.on") }
  }

  pure val SYSTEMS: List[Ty] = [P1, P2, P3, P6, P13, RING4, STAR, PAR2, DUCT, CHAIN, THREE, THREE_BC, P3]
  pure val COMPONENTS: List[Ty] = [MASS, THERMAL_MASS, RESERVOIR, CONDUCTANCE, LINK, WRAPPED, RECORDER]
  /// small enough to be explored exhaustively: a mass, a reservoir and something recorded, one history left alone
  pure val TINY: Ty = { name: "Tiny", leaves: ["t", "v", "d", "e", "x"], flags: Set(), clock: "t", pos: "t",
    hists: [hist("", ["t"]), hist("m", ["v", "d"]), loose("x", ["x"])], pots: [mass("v", "d", "x"), reservoir("x", "e")] }
}
