//! Field-by-field transfer between Rust objects and JSON values; every f64 travels as the 16 hex digits of its bits
//! ("x3ff0000000000000"), so that nothing of the library's own serialization is involved.
use serde_json::{json, Map, Value};

pub trait Obj: Sized {
    fn load(v: &Value) -> Self;
    fn dump(&self) -> Value;
}

impl Obj for f64 {
    fn load(v: &Value) -> Self {
        match v {
            Value::String(s) => f64::from_bits(u64::from_str_radix(&s[1..], 16).expect("hex f64")),
            _ => v.as_f64().unwrap_or_else(|| panic!("harness: f64 expected, got {v}")),
        }
    }
    fn dump(&self) -> Value {
        Value::String(format!("x{:016x}", self.to_bits()))
    }
}
macro_rules! int_obj { ($($t:ty),*) => { $(impl Obj for $t {
    fn load(v: &Value) -> Self { v.as_i64().map(|x| x as $t).or(v.as_u64().map(|x| x as $t)).unwrap_or_else(|| panic!("harness: integer expected, got {v}")) }
    fn dump(&self) -> Value { json!(*self) }
})* } }
int_obj!(u8, u32, u64, usize, i8, i32, i64);
impl Obj for bool {
    fn load(v: &Value) -> Self {
        v.as_bool().expect("harness: bool")
    }
    fn dump(&self) -> Value {
        json!(*self)
    }
}
impl Obj for String {
    fn load(v: &Value) -> Self {
        v.as_str().expect("harness: string").into()
    }
    fn dump(&self) -> Value {
        json!(self)
    }
}
impl<T: Obj> Obj for Vec<T> {
    fn load(v: &Value) -> Self {
        v.as_array().unwrap_or_else(|| panic!("harness: array expected, got {v}")).iter().map(T::load).collect()
    }
    fn dump(&self) -> Value {
        Value::Array(self.iter().map(|x| x.dump()).collect())
    }
}
impl<T: Obj> Obj for Option<T> {
    fn load(v: &Value) -> Self {
        match v {
            Value::Null => None,
            Value::Array(a) => Some(T::load(&a[0])),
            _ => panic!("harness: option is null or [x], got {v}"),
        }
    }
    fn dump(&self) -> Value {
        match self {
            None => Value::Null,
            Some(x) => Value::Array(vec![x.dump()]),
        }
    }
}
impl<T: Obj> Obj for Box<T> {
    fn load(v: &Value) -> Self {
        Box::new(T::load(v))
    }
    fn dump(&self) -> Value {
        (**self).dump()
    }
}
pub fn mk() -> Map<String, Value> {
    Map::new()
}

/// Implements Obj from the list of fields; fields absent from the value keep their default.
#[macro_export]
macro_rules! obj {
    ($t:ty; $($f:ident),* $(,)?) => {
        impl $crate::obj::Obj for $t {
            #[allow(unused_mut, clippy::field_reassign_with_default)]
            fn load(v: &serde_json::Value) -> Self {
                let mut x = <$t>::default();
                $( if let Some(w) = v.get(stringify!($f)) { x.$f = $crate::obj::Obj::load(w); } )*
                x
            }
            fn dump(&self) -> serde_json::Value {
                let mut m = $crate::obj::mk();
                $( m.insert(stringify!($f).to_string(), $crate::obj::Obj::dump(&self.$f)); )*
                serde_json::Value::Object(m)
            }
        }
    };
}

use dess::prelude::*;
use dess_examples::components::*;
use dess_examples::three_thermal_mass_sys::System3TM;
use dess_examples::three_thrml_mass_w_bc_sys::System3TMWithBC;

impl Obj for SolverTypes {
    fn load(v: &Value) -> Self {
        let dt = || f64::load(&v["dt"]);
        let sc = || Box::new(AdaptiveSolverConfig::load(&v["sc"]));
        match v["m"].as_str().expect("harness: solver") {
            "euler" => SolverTypes::EulerFixed { dt: dt() },
            "heun" => SolverTypes::HeunsMethod { dt: dt() },
            "midpoint" => SolverTypes::MidpointMethod { dt: dt() },
            "ralston" => SolverTypes::RalstonsMethod { dt: dt() },
            "rk4" => SolverTypes::RK4Fixed { dt: dt() },
            "bs" => SolverTypes::RK23BogackiShampine(sc()),
            "ck" => SolverTypes::RK45CashKarp(sc()),
            x => panic!("harness: solver {x}"),
        }
    }
    fn dump(&self) -> Value {
        match self {
            SolverTypes::EulerFixed { dt } => json!({"m": "euler", "dt": dt.dump()}),
            SolverTypes::HeunsMethod { dt } => json!({"m": "heun", "dt": dt.dump()}),
            SolverTypes::MidpointMethod { dt } => json!({"m": "midpoint", "dt": dt.dump()}),
            SolverTypes::RalstonsMethod { dt } => json!({"m": "ralston", "dt": dt.dump()}),
            SolverTypes::RK4Fixed { dt } => json!({"m": "rk4", "dt": dt.dump()}),
            SolverTypes::RK23BogackiShampine(sc) => json!({"m": "bs", "sc": sc.dump()}),
            SolverTypes::RK45CashKarp(sc) => json!({"m": "ck", "sc": sc.dump()}),
        }
    }
}
obj!(SystemState; i, time);
obj!(SystemStateHistoryVec; i, time);
obj!(SolverState; dt, n_iter, norm_err, norm_err_rel, t_curr, states);
obj!(SolverStateHistoryVec; dt, n_iter, norm_err, norm_err_rel, t_curr, states);
obj!(AdaptiveSolverConfig; dt_max, max_iter, atol, rtol, save, save_states, state, history);
obj!(ThermalMassState; temp, dtemp);
obj!(ThermalMassStateHistoryVec; temp, dtemp);
obj!(ThermalMass; c, state, history);
obj!(ThermalReservoir; state, history);
obj!(ConductanceState; q);
obj!(ConductanceStateHistoryVec; q);
obj!(Conductance; h, state, history);
obj!(System3TM; solver_type, m1, m2, h12, m3, h23, t_report, state, history);
obj!(System3TMWithBC; solver_type, m1, m2, h12, m3, h23, t_report, state, history);
