//! Uniform access to objects of any type: construction, projection, public methods, copies, serialization.
use crate::obj::Obj;
use crate::types::*;
use dess::prelude::*;
use dess_examples::components::*;
use dess_examples::three_thermal_mass_sys::System3TM;
use dess_examples::three_thrml_mass_w_bc_sys::System3TMWithBC;
use serde_json::{json, Value};
use std::any::Any;

pub type Res = Result<Value, String>;

pub trait Slot: Any + Send {
    fn dump(&self) -> Value;
    fn patch(&mut self, v: &Value);
    fn call(&mut self, m: &str, a: &Value) -> Res;
    fn full_clone(&self) -> Box<dyn Slot>;
    fn bare(&self) -> Option<Box<dyn Slot>>;
    fn ser(&self, fmt: &str) -> Res;
    fn to_file(&self, name: &str) -> Res;
    fn eq(&self, o: &dyn Slot) -> bool;
    fn any(&self) -> &dyn Any;
}

/// Methods callable by name on a type; the blanket answer is "no such method".
pub trait Callable {
    fn call(&mut self, m: &str, _a: &Value) -> Res {
        Err(format!("harness: no method {m}"))
    }
    fn bare(&self) -> Option<Box<dyn Slot>> {
        None
    }
}

fn merge(a: &mut Value, b: &Value) {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in y {
                match x.get_mut(k) {
                    Some(w) if w.is_object() && v.is_object() && v.get("m").is_none() => merge(w, v),
                    _ => {
                        x.insert(k.clone(), v.clone());
                    }
                }
            }
        }
        (a, b) => *a = b.clone(),
    }
}

pub struct S<T>(pub T);

impl<T> Slot for S<T>
where
    T: Obj + Callable + Clone + PartialEq + SerdeAPI + Send + 'static,
{
    fn dump(&self) -> Value {
        self.0.dump()
    }
    fn patch(&mut self, v: &Value) {
        let mut d = self.0.dump();
        merge(&mut d, v);
        self.0 = T::load(&d);
    }
    fn call(&mut self, m: &str, a: &Value) -> Res {
        self.0.call(m, a)
    }
    fn full_clone(&self) -> Box<dyn Slot> {
        Box::new(S(self.0.clone()))
    }
    fn bare(&self) -> Option<Box<dyn Slot>> {
        self.0.bare()
    }
    fn ser(&self, fmt: &str) -> Res {
        Ok(match fmt {
            "json" => json!(self.0.to_json()),
            "yaml" => json!(self.0.to_yaml()),
            "bin" => json!(self.0.to_bincode()),
            _ => return Err(format!("harness: format {fmt}")),
        })
    }
    fn to_file(&self, name: &str) -> Res {
        self.0.to_file(name).map(|_| Value::Null).map_err(|e| e.to_string())
    }
    fn eq(&self, o: &dyn Slot) -> bool {
        match o.any().downcast_ref::<S<T>>() {
            Some(x) => x.0 == self.0,
            None => false,
        }
    }
    fn any(&self) -> &dyn Any {
        self
    }
}

fn f(a: &Value) -> f64 {
    f64::load(a)
}
fn fs(a: &Value) -> Vec<f64> {
    Vec::<f64>::load(a)
}

macro_rules! sys {
    ($($t:ty),*) => { $(
        impl Callable for $t {
            fn bare(&self) -> Option<Box<dyn Slot>> { Some(Box::new(S(self.bare_clone()))) }
            fn call(&mut self, m: &str, a: &Value) -> Res {
                match m {
                    "walk" => self.walk(),
                    "solve_step" => self.solve_step(),
                    "save_state" => self.save_state(),
                    "update_derivs" => self.update_derivs(),
                    "reset_derivs" => self.reset_derivs(),
                    "step_time" => self.step_time(&f(a)),
                    "states" => return Ok(self.states().dump()),
                    "set_states" => self.set_states(fs(a)),
                    "step_states" => self.step_states(fs(a)),
                    "step_states_by_dt" => self.step_states_by_dt(&f(a)),
                    "derivs" => return Ok(self.derivs().dump()),
                    "set_derivs" => self.set_derivs(&fs(a)),
                    "step_derivs" => self.step_derivs(fs(a)),
                    "storages" => return Ok(self.storages().dump()),
                    "get_state" => return Ok(SolverBase::state(self).dump()),
                    "sc" => return Ok(self.sc().map(|s| s.clone()).dump()),
                    "dt_mean" => return Ok(self.sc().map(|s| s.dt_mean()).dump()),
                    "euler" => self.euler(&f(a)),
                    "heun" => self.heun(&f(a)),
                    "midpoint" => self.midpoint(&f(a)),
                    "ralston" => self.ralston(&f(a)),
                    "rk4" => self.rk4fixed(&f(a)),
                    "bs" => return Ok(self.rk23_bogacki_shampine(&f(a)).dump()),
                    "ck" => return Ok(self.rk45_cash_karp(&f(a)).dump()),
                    // one report interval by hand
                    "hand" => {
                        self.solve_step();
                        self.state.i += 1;
                        self.save_state();
                    }
                    _ => return Err(format!("harness: no method {m}")),
                }
                Ok(Value::Null)
            }
        } )*
    };
}
sys!(P1, P2, P3, P6, P13, Ring4, Star, Par2, Duct, Chain, System3TM, System3TMWithBC);

macro_rules! comp {
    ($($t:ty),*) => { $(
        impl Callable for $t {
            fn bare(&self) -> Option<Box<dyn Slot>> { Some(Box::new(S(self.bare_clone()))) }
            fn call(&mut self, m: &str, a: &Value) -> Res {
                match m {
                    "save_state" => self.save_state(),
                    "state" => return Ok(HasState::state(self).dump()),
                    "set_state" => self.set_state(f(a)),
                    "step_state" => self.step_state(f(a)),
                    "step_state_by_dt" => self.step_state_by_dt(&f(a)),
                    "deriv" => return Ok(self.deriv().dump()),
                    "set_deriv" => self.set_deriv(f(a)),
                    "step_deriv" => self.step_deriv(f(a)),
                    "storage" => return Ok(self.storage().dump()),
                    _ => return Err(format!("harness: no method {m}")),
                }
                Ok(Value::Null)
            }
        } )*
    };
}
comp!(Mass, ThermalMass, ThermalReservoir, Wrapped);

macro_rules! rec {
    ($($t:ty),*) => { $(
        impl Callable for $t {
            fn bare(&self) -> Option<Box<dyn Slot>> { Some(Box::new(S(self.bare_clone()))) }
            fn call(&mut self, m: &str, _a: &Value) -> Res {
                match m {
                    "save_state" => self.save_state(),
                    _ => return Err(format!("harness: no method {m}")),
                }
                Ok(Value::Null)
            }
        } )*
    };
}
rec!(Conductance, Link, Probe, Recorder);

macro_rules! hist {
    ($(($t:ty, $r:ty)),*) => { $(
        impl Callable for $t {
            fn call(&mut self, m: &str, a: &Value) -> Res {
                match m {
                    "push" => self.push(<$r>::load(a)),
                    "pop" => return Ok(self.pop().dump()),
                    "clear" => self.clear(),
                    "len" => return Ok(json!(self.len())),
                    "is_empty" => return Ok(json!(self.is_empty())),
                    "new" => *self = <$t>::new(),
                    "default" => *self = Default::default(),
                    _ => return Err(format!("harness: no method {m}")),
                }
                Ok(Value::Null)
            }
        } )*
    };
}
hist!(
    (SystemStateHistoryVec, SystemState),
    (SolverStateHistoryVec, SolverState),
    (ThermalMassStateHistoryVec, ThermalMassState),
    (ConductanceStateHistoryVec, ConductanceState),
    (MassStateHistoryVec, MassState),
    (ProbeStateHistoryVec, ProbeState),
    (Rec1HistoryVec, Rec1),
    (Rec5HistoryVec, Rec5),
    (RecMixHistoryVec, RecMix),
    (LinkStateHistoryVec, LinkState),
    (RecVecHistoryVec, RecVec),
    (RecNestHistoryVec, RecNest),
    (RecWideHistoryVec, RecWide)
);

impl Callable for AdaptiveSolverConfig {
    fn call(&mut self, m: &str, _a: &Value) -> Res {
        match m {
            "dt_mean" => Ok(self.dt_mean().dump()),
            _ => Err(format!("harness: no method {m}")),
        }
    }
}
macro_rules! plain { ($($t:ty),*) => { $( impl Callable for $t {} )* } }
plain!(SolverTypes, SolverState, SystemState, ThermalMassState, ConductanceState, Rec1, Rec5, RecMix, RecVec, RecNest, RecWide, LinkState, MassState, ProbeState);

macro_rules! by_type {
    ($ty:expr, $mac:ident, $($args:tt)*) => {
        match $ty {
            "P1" => $mac!(P1, $($args)*), "P2" => $mac!(P2, $($args)*), "P3" => $mac!(P3, $($args)*), "P6" => $mac!(P6, $($args)*), "P13" => $mac!(P13, $($args)*),
            "Ring4" => $mac!(Ring4, $($args)*), "Star" => $mac!(Star, $($args)*), "Par2" => $mac!(Par2, $($args)*),
            "Duct" => $mac!(Duct, $($args)*), "Chain" => $mac!(Chain, $($args)*),
            "System3TM" => $mac!(System3TM, $($args)*), "System3TMWithBC" => $mac!(System3TMWithBC, $($args)*),
            "Mass" => $mac!(Mass, $($args)*), "ThermalMass" => $mac!(ThermalMass, $($args)*),
            "ThermalReservoir" => $mac!(ThermalReservoir, $($args)*), "Wrapped" => $mac!(Wrapped, $($args)*),
            "Conductance" => $mac!(Conductance, $($args)*), "Link" => $mac!(Link, $($args)*),
            "Probe" => $mac!(Probe, $($args)*), "Recorder" => $mac!(Recorder, $($args)*),
            "SystemStateHistoryVec" => $mac!(SystemStateHistoryVec, $($args)*),
            "SolverStateHistoryVec" => $mac!(SolverStateHistoryVec, $($args)*),
            "ThermalMassStateHistoryVec" => $mac!(ThermalMassStateHistoryVec, $($args)*),
            "ConductanceStateHistoryVec" => $mac!(ConductanceStateHistoryVec, $($args)*),
            "MassStateHistoryVec" => $mac!(MassStateHistoryVec, $($args)*),
            "ProbeStateHistoryVec" => $mac!(ProbeStateHistoryVec, $($args)*),
            "Rec1HistoryVec" => $mac!(Rec1HistoryVec, $($args)*),
            "Rec5HistoryVec" => $mac!(Rec5HistoryVec, $($args)*),
            "RecMixHistoryVec" => $mac!(RecMixHistoryVec, $($args)*),
            "LinkStateHistoryVec" => $mac!(LinkStateHistoryVec, $($args)*),
            "RecVecHistoryVec" => $mac!(RecVecHistoryVec, $($args)*),
            "RecNestHistoryVec" => $mac!(RecNestHistoryVec, $($args)*),
            "RecVec" => $mac!(RecVec, $($args)*), "RecNest" => $mac!(RecNest, $($args)*), "RecWide" => $mac!(RecWide, $($args)*), "RecWideHistoryVec" => $mac!(RecWideHistoryVec, $($args)*),
            "LinkState" => $mac!(LinkState, $($args)*), "MassState" => $mac!(MassState, $($args)*), "ProbeState" => $mac!(ProbeState, $($args)*),
            "AdaptiveSolverConfig" => $mac!(AdaptiveSolverConfig, $($args)*),
            "SolverTypes" => $mac!(SolverTypes, $($args)*), "SolverState" => $mac!(SolverState, $($args)*),
            "SystemState" => $mac!(SystemState, $($args)*), "ThermalMassState" => $mac!(ThermalMassState, $($args)*),
            "ConductanceState" => $mac!(ConductanceState, $($args)*),
            "RecMix" => $mac!(RecMix, $($args)*), "Rec5" => $mac!(Rec5, $($args)*), "Rec1" => $mac!(Rec1, $($args)*),
            x => Err(format!("harness: no type {x}")),
        }
    };
}
type New = Result<Box<dyn Slot>, String>;
macro_rules! mk_load { ($t:ty, $v:expr) => { Ok(Box::new(S(<$t as Obj>::load($v))) as Box<dyn Slot>) } }
macro_rules! mk_default { ($t:ty, ) => { Ok(Box::new(S(<$t>::default())) as Box<dyn Slot>) } }
macro_rules! mk_de { ($t:ty, $fmt:expr, $v:expr) => { {
    let r = match $fmt {
        "json" => <$t>::from_json($v.as_str().unwrap()),
        "yaml" => <$t>::from_yaml($v.as_str().unwrap()),
        "bin" => { let b: Vec<u8> = Vec::<u8>::load($v); <$t>::from_bincode(&b) }
        x => panic!("harness: format {x}"),
    };
    r.map(|x| Box::new(S(x)) as Box<dyn Slot>).map_err(|e| e.to_string())
} } }
macro_rules! mk_file { ($t:ty, $name:expr) => { <$t>::from_file($name).map(|x| Box::new(S(x)) as Box<dyn Slot>).map_err(|e| e.to_string()) } }

pub fn load(ty: &str, v: &Value) -> New {
    by_type!(ty, mk_load, v)
}
pub fn default(ty: &str) -> New {
    by_type!(ty, mk_default,)
}
pub fn de(ty: &str, fmt: &str, v: &Value) -> New {
    by_type!(ty, mk_de, fmt, v)
}
pub fn from_file(ty: &str, name: &str) -> New {
    by_type!(ty, mk_file, name)
}
