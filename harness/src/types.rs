//! Systems built with the library's macros: the user side of the library. Fields are laid out in deliberately varied orders,
//! with tracked, recorded and plain fields mixed, components of several kinds and nested assemblies.
use crate::obj;
use dess::prelude::*;
use dess_examples::components::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;

thread_local! {
    /// (report index, time) at every evaluation of the user's equations
    pub static EVALS: RefCell<(Vec<(usize, f64)>, usize)> = const { RefCell::new((Vec::new(), 0)) };
}
pub const EVAL_BUDGET: usize = 2_000_000;
pub fn log_eval(s: &SystemState) {
    EVALS.with(|e| {
        let mut e = e.borrow_mut();
        e.1 += 1;
        if e.1 > EVAL_BUDGET {
            panic!("evaluation budget exceeded");
        }
        e.0.push((s.i, s.time));
    });
}

// ---- equations -------------------------------------------------------------------------------------------------
/// c * t^tp * product of states (by index, repeated for powers). A term with `tp` 254 or 255 is a wall: it adds nothing, but
/// where the state it names is negative the derivative is infinite (254) or not a number (255).
#[common_derives]
#[derive(Default)]
pub struct Term {
    pub c: f64,
    pub tp: u8,
    pub ys: Vec<u8>,
}
#[common_derives]
#[derive(Default)]
pub struct Rhs {
    pub eqs: Vec<Vec<Term>>,
}
impl Rhs {
    pub fn eval(&self, t: f64, y: &[f64]) -> Vec<f64> {
        self.eqs
            .iter()
            .map(|ts| {
                ts.iter()
                    .map(|x| {
                        if x.tp >= 254 {
                            return match (y[x.ys[0] as usize] < 0., x.tp) {
                                (false, _) => 0.,
                                (true, 254) => f64::INFINITY,
                                (true, _) => f64::NAN,
                            };
                        }
                        x.ys.iter().fold(x.c * t.powi(x.tp as i32), |a, j| a * y[*j as usize])
                    })
                    .sum()
            })
            .collect()
    }
}
/// prescribes state `j` as a polynomial in time
#[common_derives]
#[derive(Default)]
pub struct Force {
    pub j: u8,
    pub poly: Vec<f64>,
}
impl Force {
    pub fn at(&self, t: f64) -> f64 {
        self.poly.iter().rev().fold(0., |a, c| a * t + c)
    }
}
obj!(Term; c, tp, ys);
obj!(Rhs; eqs);
obj!(Force; j, poly);

// ---- components ------------------------------------------------------------------------------------------------
#[derive(Copy, HistoryVec, Default)]
#[common_derives]
pub struct MassState {
    pub n: i64,
    pub v: f64,
    pub dv: f64,
}
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Mass {
    pub tag: String,
    pub history: MassStateHistoryVec,
    pub c: f64,
    pub state: MassState,
    pub limits: Option<Vec<f64>>,
}
impl HasState for Mass {
    fn state(&self) -> f64 {
        self.state.v
    }
    fn set_state(&mut self, val: f64) {
        self.state.v = val
    }
    fn deriv(&self) -> f64 {
        self.state.dv
    }
    fn set_deriv(&mut self, val: f64) {
        self.state.dv = val
    }
    fn storage(&self) -> f64 {
        self.c
    }
}
obj!(MassState; n, v, dv);
obj!(MassStateHistoryVec; n, v, dv);
obj!(Mass; tag, history, c, state, limits);

/// a flow with two recorded fields
#[derive(Copy, HistoryVec, Default)]
#[common_derives]
pub struct LinkState {
    pub gap: f64,
    pub q: f64,
}
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Link {
    pub state: LinkState,
    pub h: f64,
    pub label: String,
    pub history: LinkStateHistoryVec,
}
impl Flow for Link {
    fn set_flow(&mut self, p0: &dyn HasState, p1: &dyn HasState) {
        self.state.gap = p0.state() - p1.state();
        self.state.q = self.h * (p0.state() - p1.state());
    }
    fn flow(&self) -> f64 {
        self.state.q
    }
}
obj!(LinkState; gap, q);
obj!(LinkStateHistoryVec; gap, q);
obj!(Link; state, h, label, history);

/// recorded, but not a solver state
#[derive(Copy, HistoryVec, Default)]
#[common_derives]
pub struct ProbeState {
    pub x: f64,
    pub on: bool,
}
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Probe {
    pub history: ProbeStateHistoryVec,
    pub state: ProbeState,
    pub serial: u32,
}
obj!(ProbeState; x, on);
obj!(ProbeStateHistoryVec; x, on);
obj!(Probe; history, state, serial);

/// an assembly recorded as a whole: it has a state of its own, a recorded part and a plain part with a history
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Recorder {
    pub gain: f64,
    #[save_state]
    pub inner: Probe,
    pub loose: Probe,
    pub state: ProbeState,
    #[save_state]
    pub second: Probe,
    pub history: ProbeStateHistoryVec,
}
obj!(Recorder; gain, inner, loose, state, second, history);

/// a solver state wrapped in an assembly without state and history of its own
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Wrapped {
    pub id: u32,
    #[save_state]
    pub probe: Probe,
    #[use_state]
    pub core: Mass,
}
impl HasState for Wrapped {
    fn state(&self) -> f64 {
        self.core.state()
    }
    fn set_state(&mut self, val: f64) {
        self.core.set_state(val)
    }
    fn deriv(&self) -> f64 {
        self.core.deriv()
    }
    fn set_deriv(&mut self, val: f64) {
        self.core.set_deriv(val)
    }
    fn storage(&self) -> f64 {
        self.core.storage()
    }
}
obj!(Wrapped; id, probe, core);

// ---- systems: equations written out by the user ---------------------------------------------------------------------
#[solver(
    fn update_derivs(&mut self) {
        log_eval(&self.state);
        self.reset_derivs();
        let d = self.rhs.eval(self.state.time, &[self.a.state()]);
        self.a.step_deriv(d[0]);
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct P1 {
    pub solver_type: SolverTypes,
    #[use_state]
    pub a: Mass,
    pub rhs: Rhs,
    pub t_report: Vec<f64>,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}
obj!(P1; solver_type, a, rhs, t_report, state, history);

#[solver(
    fn update_derivs(&mut self) {
        log_eval(&self.state);
        let t = self.state.time;
        for f in &self.forced {
            match f.j {
                0 => self.x.set_state(f.at(t)),
                _ => self.v.set_state(f.at(t)),
            }
        }
        let d = self.rhs.eval(t, &[self.x.state(), self.v.state()]);
        self.x.set_deriv(d[0]);
        self.v.set_deriv(d[1]);
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct P2 {
    pub history: SystemStateHistoryVec,
    pub note: String,
    #[use_state]
    pub x: ThermalMass,
    pub rhs: Rhs,
    pub forced: Vec<Force>,
    pub state: SystemState,
    #[use_state]
    pub v: Mass,
    pub t_report: Vec<f64>,
    pub solver_type: SolverTypes,
}
obj!(P2; history, note, x, rhs, forced, state, v, t_report, solver_type);

#[solver(
    fn update_derivs(&mut self) {
        log_eval(&self.state);
        self.reset_derivs();
        let t = self.state.time;
        for f in &self.forced {
            match f.j {
                0 => self.b.set_state(f.at(t)),
                1 => self.a.set_state(f.at(t)),
                _ => self.c.set_state(f.at(t)),
            }
        }
        let d = self.rhs.eval(t, &[self.b.state(), self.a.state(), self.c.state()]);
        self.step_derivs(d);
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct P3 {
    pub label: String,
    #[use_state]
    pub b: Mass,
    pub t_report: Vec<f64>,
    #[save_state]
    pub rec: Recorder,
    pub gain: f64,
    #[use_state]
    pub a: ThermalMass,
    /// has a history, but is neither tracked nor recorded
    pub spare: Mass,
    pub solver_type: SolverTypes,
    #[use_state]
    pub c: Wrapped,
    pub state: SystemState,
    pub rhs: Rhs,
    pub forced: Vec<Force>,
    #[save_state]
    pub probe: Probe,
    pub history: SystemStateHistoryVec,
    pub opts: Option<Vec<i64>>,
    pub stages: u32,
}
obj!(P3; label, b, t_report, rec, gain, a, spare, solver_type, c, state, rhs, forced, probe, history, opts, stages);

#[solver(
    fn update_derivs(&mut self) {
        log_eval(&self.state);
        self.reset_derivs();
        let y = self.states();
        let d = self.rhs.eval(self.state.time, &y);
        self.f.step_deriv(d[0]);
        self.e.step_deriv(d[1]);
        self.d.step_deriv(d[2]);
        self.c.step_deriv(d[3]);
        self.b.step_deriv(d[4]);
        self.a.step_deriv(d[5]);
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct P6 {
    // names close to those the library gives a meaning to
    pub history_tag: String,
    /// recorded, too
    #[save_state]
    pub histories: Probe,
    pub old_history: Vec<f64>,
    pub mystate: f64,
    #[use_state]
    pub f: Mass,
    #[use_state]
    pub e: ThermalMass,
    pub rhs: Rhs,
    pub solver_type: SolverTypes,
    #[use_state]
    /// documented below the mark
    pub d: Mass,
    #[use_state]
    pub c: Mass,
    pub state: SystemState,
    pub states: Vec<f64>,
    pub t_report: Vec<f64>,
    /// documented
    #[use_state]
    pub b: ThermalMass,
    pub history: SystemStateHistoryVec,
    #[use_state]
    pub a: Mass,
    pub state_note: String,
    pub t_report_old: Vec<f64>,
}
obj!(P6; history_tag, histories, old_history, mystate, states, state_note, t_report_old, f, e, rhs, solver_type, d, c, state, t_report, b, history, a);

/// more states than anything in the library itself
#[solver(
    fn update_derivs(&mut self) {
        log_eval(&self.state);
        self.reset_derivs();
        let y = self.states();
        let d = self.rhs.eval(self.state.time, &y);
        self.s07.set_deriv(d[0]);
        self.s12.step_deriv(d[1]);
        self.s01.step_deriv(d[2]);
        self.s13.set_deriv(d[3]);
        self.s05.step_deriv(d[4]);
        self.s10.step_deriv(d[5]);
        self.s02.set_deriv(d[6]);
        self.s09.step_deriv(d[7]);
        self.s04.step_deriv(d[8]);
        self.s11.set_deriv(d[9]);
        self.s03.step_deriv(d[10]);
        self.s08.step_deriv(d[11]);
        self.s06.set_deriv(d[12]);
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct P13 {
    #[use_state]
    pub s07: Mass,
    #[use_state]
    pub s12: ThermalMass,
    pub t_report: Vec<f64>,
    #[use_state]
    pub s01: ThermalMass,
    /// documented
    #[use_state]
    pub s13: Mass,
    #[use_state]
    pub s05: ThermalMass,
    pub history: SystemStateHistoryVec,
    #[use_state]
    pub s10: Mass,
    pub rhs: Rhs,
    #[use_state]
    pub s02: Mass,
    #[use_state]
    pub s09: ThermalMass,
    #[use_state]
    pub s04: Mass,
    #[allow(dead_code)]
    /// documented, and more
    #[use_state]
    pub s11: ThermalMass,
    #[use_state]
    pub s03: ThermalMass,
    #[use_state]
    pub s08: Mass,
    pub solver_type: SolverTypes,
    #[use_state]
    pub s06: ThermalMass,
    /// behind everything else
    pub state: SystemState,
}
obj!(P13; s07, s12, t_report, s01, s13, s05, history, s10, rhs, s02, s09, s04, state, s11, s03, s08, solver_type, s06);

// ---- systems: networks ---------------------------------------------------------------------------------------------
#[solver(
    fn update_derivs(&mut self) {
        log_eval(&self.state);
        self.reset_derivs();
        connect_states!(self, (m1, m2, l12), (m3, m2, l32), (m3, m4, l34), (m1, m4, l14));
        update_derivs!(self, (m1, m2, l12), (m3, m2, l32), (m3, m4, l34), (m1, m4, l14));
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Ring4 {
    pub solver_type: SolverTypes,
    #[use_state]
    pub m3: ThermalMass,
    #[save_state]
    pub l14: Link,
    #[use_state]
    pub m1: Mass,
    #[save_state]
    pub l12: Conductance,
    #[save_state]
    pub l34: Link,
    #[use_state]
    pub m4: Mass,
    #[use_state]
    pub m2: ThermalMass,
    #[save_state]
    pub l32: Conductance,
    pub t_report: Vec<f64>,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}
obj!(Ring4; solver_type, m3, l14, m1, l12, l34, m4, m2, l32, t_report, state, history);

/// centre and four neighbours, two of them reservoirs; a potential may be prescribed and sources added
#[solver(
    fn update_derivs(&mut self) {
        log_eval(&self.state);
        self.reset_derivs();
        let t = self.state.time;
        for f in &self.forced {
            match f.j {
                0 => self.r1.state.temp = f.at(t),
                1 => self.hub.set_state(f.at(t)),
                2 => self.m2.set_state(f.at(t)),
                3 => self.r4.set_state(f.at(t)),
                _ => self.m3.set_state(f.at(t)),
            }
        }
        connect_states!(self, (r1, hub, k1), (hub, m2, k2), (m3, hub, k3), (hub, r4, k4));
        update_derivs!(self, (r1, hub, k1), (hub, m2, k2), (m3, hub, k3), (hub, r4, k4));
        let d = self.rhs.eval(t, &self.states());
        self.step_derivs(d);
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Star {
    #[use_state]
    pub r1: ThermalReservoir,
    #[use_state]
    pub hub: ThermalMass,
    #[use_state]
    pub m2: Mass,
    #[use_state]
    pub r4: ThermalReservoir,
    #[use_state]
    pub m3: ThermalMass,
    #[save_state]
    pub k4: Conductance,
    #[save_state]
    pub k1: Conductance,
    #[save_state]
    pub k3: Link,
    #[save_state]
    pub k2: Conductance,
    pub rhs: Rhs,
    pub forced: Vec<Force>,
    pub t_report: Vec<f64>,
    pub solver_type: SolverTypes,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}
obj!(Star; r1, hub, m2, r4, m3, k4, k1, k3, k2, rhs, forced, t_report, solver_type, state, history);

/// two masses joined three times, once the other way round
#[solver(
    fn update_derivs(&mut self) {
        log_eval(&self.state);
        self.reset_derivs();
        connect_states!(self, (m1, m2, p), (m2, m1, q), (m1, m2, r));
        update_derivs!(self, (m1, m2, p), (m2, m1, q), (m1, m2, r));
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Par2 {
    #[save_state]
    pub p: Conductance,
    #[save_state]
    pub q: Conductance,
    #[save_state]
    pub r: Link,
    #[use_state]
    pub m1: ThermalMass,
    #[use_state]
    pub m2: Mass,
    pub t_report: Vec<f64>,
    pub solver_type: SolverTypes,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}
obj!(Par2; p, q, r, m1, m2, t_report, solver_type, state, history);

/// one mass between two reservoirs (one connection at a time)
#[solver(
    fn update_derivs(&mut self) {
        log_eval(&self.state);
        self.reset_derivs();
        connect_states!(self, (lo, m, a));
        update_derivs!(self, (lo, m, a));
        connect_states!(self, (m, hi, b));
        update_derivs!(self, (m, hi, b));
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Duct {
    #[use_state]
    pub lo: ThermalReservoir,
    #[save_state]
    pub a: Conductance,
    #[use_state]
    pub m: ThermalMass,
    #[save_state]
    pub b: Conductance,
    #[use_state]
    pub hi: ThermalReservoir,
    pub t_report: Vec<f64>,
    pub solver_type: SolverTypes,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}
obj!(Duct; lo, a, m, b, hi, t_report, solver_type, state, history);

/// a network of which only part is connected: `idle` takes no part
#[solver(
    fn update_derivs(&mut self) {
        log_eval(&self.state);
        self.reset_derivs();
        connect_states!(self, (top, mid, t), (mid, low, l));
        update_derivs!(self, (top, mid, t), (mid, low, l));
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Chain {
    pub state: SystemState,
    #[use_state]
    pub top: Wrapped,
    #[use_state]
    pub idle: ThermalMass,
    #[use_state]
    pub mid: Mass,
    #[save_state]
    pub l: Link,
    #[save_state]
    pub t: Link,
    #[save_state]
    pub unused: Link,
    #[use_state]
    pub low: ThermalMass,
    pub solver_type: SolverTypes,
    pub history: SystemStateHistoryVec,
    pub t_report: Vec<f64>,
}
obj!(Chain; state, top, idle, mid, l, t, unused, low, solver_type, history, t_report);

// ---- record types for the history container -----------------------------------------------------------------------
#[derive(HistoryVec, Default)]
#[common_derives]
pub struct Rec1 {
    pub only: f64,
}
#[derive(HistoryVec, Default)]
#[common_derives]
pub struct Rec5 {
    pub a: f64,
    pub b: f64,
    pub k: i64,
    pub c: f64,
    pub j: i64,
}
#[derive(HistoryVec, Default)]
#[common_derives]
pub struct RecMix {
    pub name: String,
    pub o: Option<f64>,
    pub value: Vec<f64>,
    pub flag: bool,
    pub p: Option<f64>,
    pub n: u8,
    pub alias: String,
}
/// columns of vectors, the first one included
#[derive(HistoryVec, Default)]
#[common_derives]
pub struct RecVec {
    pub rows: Vec<f64>,
    pub cols: Vec<f64>,
    pub len: i64,
}
/// records inside a record
#[derive(HistoryVec, Default)]
#[common_derives]
pub struct RecNest {
    pub first: Rec5,
    pub at: f64,
    pub second: Rec5,
}
/// many columns
#[derive(HistoryVec, Default)]
#[common_derives]
pub struct RecWide {
    /// documented
    pub w01: f64,
    pub w02: i64,
    pub w03: f64,
    pub w04: Option<f64>,
    pub w05: f64,
    pub w06: f64,
    pub w07: i64,
    pub w08: f64,
    pub w09: Vec<f64>,
    pub w10: f64,
    pub w11: f64,
    pub w12: f64,
    pub w13: i64,
    pub w14: f64,
    pub w15: f64,
    pub w16: f64,
    pub w17: String,
    pub w18: f64,
    pub w19: f64,
}
obj!(RecWide; w01, w02, w03, w04, w05, w06, w07, w08, w09, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19);
obj!(RecWideHistoryVec; w01, w02, w03, w04, w05, w06, w07, w08, w09, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19);
obj!(RecVec; rows, cols, len);
obj!(RecVecHistoryVec; rows, cols, len);
obj!(RecNest; first, at, second);
obj!(RecNestHistoryVec; first, at, second);
obj!(Rec1; only);
obj!(Rec1HistoryVec; only);
obj!(Rec5; a, b, k, c, j);
obj!(Rec5HistoryVec; a, b, k, c, j);
obj!(RecMix; name, o, value, flag, p, n, alias);
obj!(RecMixHistoryVec; name, o, value, flag, p, n, alias);
