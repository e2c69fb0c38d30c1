//! Runs scenarios (one JSON object per line on stdin) against the library and writes what was observed (one JSON object
//! per line on stdout). A panic or a scenario that does not come back is an observation like any other.
mod obj;
mod slot;
mod types;
use dess::prelude::*;
use obj::Obj;
use serde_json::{json, Value};
use slot::Slot;
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc;
use std::time::Duration;

fn runs(v: Value, columns: bool) -> Value {
    match v {
        Value::Object(m) => Value::Object(
            m.into_iter()
                .map(|(k, v)| {
                    let v = match v {
                        Value::Array(a) if columns => {
                            let mut out: Vec<(Value, usize)> = vec![];
                            for x in a {
                                match out.last_mut() {
                                    Some(l) if l.0 == x => l.1 += 1,
                                    _ => out.push((x, 1)),
                                }
                            }
                            json!(out)
                        }
                        v => runs(v, k == "history"),
                    };
                    (k, v)
                })
                .collect(),
        ),
        v => v,
    }
}

fn run_op(slots: &mut HashMap<String, Box<dyn Slot>>, op: &Value) -> Result<Value, String> {
    let s = |k: &str| op[k].as_str().unwrap_or("").to_string();
    let name = s("s");
    let get = |slots: &HashMap<String, Box<dyn Slot>>, n: &str| -> Result<*const dyn Slot, String> {
        slots.get(n).map(|b| &**b as *const dyn Slot).ok_or(format!("harness: no slot {n}"))
    };
    match op["op"].as_str().unwrap() {
        "new" => {
            let o = slot::load(&s("ty"), &op["v"])?;
            slots.insert(name, o);
            Ok(Value::Null)
        }
        "default" => {
            let o = slot::default(&s("ty"))?;
            slots.insert(name, o);
            Ok(Value::Null)
        }
        "patch" => {
            slots.get_mut(&name).ok_or("harness: no slot")?.patch(&op["v"]);
            Ok(Value::Null)
        }
        "call" => slots.get_mut(&name).ok_or("harness: no slot")?.call(&s("m"), &op["a"]),
        // the same method of several objects, each in a thread of its own
        "beside" => {
            let names: Vec<String> = op["s"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
            let mut objs = vec![];
            for n in &names {
                objs.push(slots.remove(n).ok_or("harness: no slot")?);
            }
            let (m, gate) = (s("m"), std::sync::Barrier::new(objs.len()));
            let ended: Vec<_> = std::thread::scope(|sc| {
                let ts: Vec<_> = objs
                    .iter_mut()
                    .map(|o| {
                        let (m, gate) = (&m, &gate);
                        sc.spawn(move || {
                            gate.wait();
                            o.call(m, &Value::Null)
                        })
                    })
                    .collect();
                ts.into_iter().map(|t| t.join()).collect()
            });
            for r in ended {
                match r {
                    Ok(r) => r?,
                    Err(p) => std::panic::resume_unwind(p),
                };
            }
            for (n, o) in names.into_iter().zip(objs) {
                slots.insert(n, o);
            }
            Ok(Value::Null)
        }
        // the operations `n` times; what the last one returned
        "repeat" => {
            let mut last = Value::Null;
            for _ in 0..op["n"].as_u64().unwrap() {
                for o in op["ops"].as_array().unwrap() {
                    last = run_op(slots, o)?;
                }
            }
            Ok(last)
        }
        // a dump with runs of equal rows for every column of a history (of everything, for a history itself)
        "runs" => {
            let v = slots.get(&name).ok_or("harness: no slot")?.dump();
            Ok(runs(v, s("ty").ends_with("HistoryVec")))
        }
        "dump" => Ok(slots.get(&name).ok_or("harness: no slot")?.dump()),
        "clone" => {
            let o = slots.get(&name).ok_or("harness: no slot")?.full_clone();
            slots.insert(s("to"), o);
            Ok(Value::Null)
        }
        "bare" => {
            let o = slots.get(&name).ok_or("harness: no slot")?.bare().ok_or("harness: no bare clone")?;
            slots.insert(s("to"), o);
            Ok(Value::Null)
        }
        "drop" => {
            slots.remove(&name);
            Ok(Value::Null)
        }
        "eq" => {
            let (a, b) = (get(slots, &name)?, get(slots, &s("to"))?);
            Ok(json!(unsafe { (*a).eq(&*b) }))
        }
        "ser" => slots.get(&name).ok_or("harness: no slot")?.ser(&s("fmt")),
        "de" => {
            let o = slot::de(&s("ty"), &s("fmt"), &op["v"])?;
            slots.insert(name, o);
            Ok(Value::Null)
        }
        // serialize, load into another slot; returns whether the second serialization is the same
        "trip" => {
            let fmt = s("fmt");
            let text = slots.get(&name).ok_or("harness: no slot")?.ser(&fmt)?;
            let o = slot::de(&s("ty"), &fmt, &text)?;
            let again = o.ser(&fmt)?;
            slots.insert(s("to"), o);
            Ok(json!(text == again))
        }
        "cd" => std::env::set_current_dir(s("f")).map(|_| json!(null)).map_err(|e| format!("harness: {}", e)),
        "to_file" => slots.get(&name).ok_or("harness: no slot")?.to_file(&s("f")),
        "from_file" => {
            let o = slot::from_file(&s("ty"), &s("f"))?;
            slots.insert(name, o);
            Ok(Value::Null)
        }
        "evals" => Ok(types::EVALS.with(|e| {
            let mut e = e.borrow_mut();
            let v: Vec<Value> = e.0.iter().map(|(i, t)| json!([i, t.dump()])).collect();
            e.0.clear();
            e.1 = 0;
            Value::Array(v)
        })),
        // per report index: smallest and largest evaluation time, number of evaluations
        "evalspans" => Ok(types::EVALS.with(|e| {
            let mut e = e.borrow_mut();
            let mut out: Vec<(usize, f64, f64, usize)> = vec![];
            for (i, t) in &e.0 {
                match out.last_mut() {
                    Some(x) if x.0 == *i => {
                        x.1 = x.1.min(*t);
                        x.2 = x.2.max(*t);
                        x.3 += 1;
                    }
                    _ => out.push((*i, *t, *t, 1)),
                }
            }
            e.0.clear();
            e.1 = 0;
            Value::Array(out.iter().map(|x| json!([x.0, x.1.dump(), x.2.dump(), x.3])).collect())
        })),
        "linspace" => {
            let a = &op["a"];
            Ok(Vec::<f64>::linspace(f64::load(&a[0]), f64::load(&a[1]), a[2].as_u64().unwrap() as usize).dump())
        }
        "diff" => Ok(Vec::<f64>::load(&op["a"]).diff().dump()),
        // a long grid from 0 by ones, its differences, and the grid zipped with them
        "longgrid" => {
            let n = op["a"].as_u64().unwrap() as usize;
            let g = Vec::<f64>::linspace(0., (n - 1) as f64, n);
            let d = g.diff();
            let e = &d;
            let z = zip!(g, e).count();
            let (lo, hi) = d.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |a, x| (a.0.min(*x), a.1.max(*x)));
            Ok(json!([g.len(), g[0].dump(), g[g.len() - 1].dump(), d.len(), lo.dump(), hi.dump(), z]))
        }
        // an expression timed: evaluations, time it took at least, time reported, time around it (ns)
        "timed" => {
            use std::time::{Duration, Instant};
            let ms = op["a"].as_u64().unwrap();
            let mut n = 0;
            let mut slept = Duration::ZERO;
            let t0 = Instant::now();
            let t = dess::time_it!({
                let t1 = Instant::now();
                n += 1;
                std::thread::sleep(Duration::from_millis(ms));
                slept = t1.elapsed();
            });
            let around = t0.elapsed();
            Ok(json!([n, slept.as_nanos() as u64, t.as_nanos() as u64, around.as_nanos() as u64]))
        }
        "almost_eq" => {
            let a = &op["a"];
            Ok(json!(almost_eq(f64::load(&a[0]), f64::load(&a[1]), Option::<f64>::load(&a[2]))))
        }
        "zip" => {
            let v = Vec::<Vec<f64>>::load(&op["a"]);
            let mut out: Vec<Vec<f64>> = vec![];
            match v.len() {
                2 => {
                    let (a, b) = (&v[0], &v[1]);
                    for (a, b) in zip!(a, b) {
                        out.push(vec![*a, *b]);
                    }
                }
                3 => {
                    let (a, b, c) = (&v[0], &v[1], &v[2]);
                    for (a, (b, c)) in zip!(a, b, c) {
                        out.push(vec![*a, *b, *c]);
                    }
                }
                4 => {
                    let (a, b, c, d) = (&v[0], &v[1], &v[2], &v[3]);
                    for (a, (b, (c, d))) in zip!(a, b, c, d) {
                        out.push(vec![*a, *b, *c, *d]);
                    }
                }
                6 => {
                    let (a, b, c, d, e, f) = (&v[0], &v[1], &v[2], &v[3], &v[4], &v[5]);
                    for (a, (b, (c, (d, (e, f))))) in zip!(a, b, c, d, e, f) {
                        out.push(vec![*a, *b, *c, *d, *e, *f]);
                    }
                }
                n => return Err(format!("harness: zip of {n}")),
            }
            Ok(out.dump())
        }
        x => Err(format!("harness: no op {x}")),
    }
}

fn run_scenario(sc: &Value) -> Value {
    types::EVALS.with(|e| {
        let mut e = e.borrow_mut();
        e.0.clear();
        e.1 = 0;
    });
    // "keep": objects stay for the next scenario (driven one operation at a time)
    let keep = sc["keep"].as_bool().unwrap_or(false);
    let mut slots: HashMap<String, Box<dyn Slot>> = if keep { KEPT.with(|k| k.take()) } else { HashMap::new() };
    let mut out = vec![];
    for op in sc["ops"].as_array().unwrap() {
        match catch_unwind(AssertUnwindSafe(|| run_op(&mut slots, op))) {
            Ok(Ok(v)) => out.push(json!({ "ok": v })),
            Ok(Err(e)) => out.push(json!({ "err": e })),
            Err(p) => {
                let msg = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or(p.downcast_ref::<&str>().map(|x| x.to_string()))
                    .unwrap_or("?".into());
                out.push(json!({ "panic": msg }));
                if op["op"] != "linspace" && op["op"] != "diff" && op["op"] != "from_file" && op["op"] != "de" {
                    break; // the object may be half-updated
                }
            }
        }
    }
    if keep {
        KEPT.with(|k| *k.borrow_mut() = slots);
    }
    json!({"id": sc["id"], "out": out})
}

thread_local! {
    static KEPT: std::cell::RefCell<HashMap<String, Box<dyn Slot>>> = Default::default();
}

/// seconds this process has worked
fn cpu() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let t = |k: usize| f.get(k).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (t(11) + t(12)) / 100
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let limit: u64 = std::env::args().nth(1).and_then(|x| x.parse().ok()).unwrap_or(20);
    let mut hangs = 0;
    let spawn = || {
        let (tx, rx) = mpsc::channel::<Value>();
        let (otx, orx) = mpsc::channel::<Value>();
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                for sc in rx {
                    if otx.send(run_scenario(&sc)).is_err() {
                        break;
                    }
                }
            })
            .unwrap();
        (tx, orx)
    };
    let (mut tx, mut rx) = spawn();
    let stdout = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let sc: Value = serde_json::from_str(&line).expect("scenario");
        let id = sc["id"].clone();
        {
            let mut o = stdout.lock();
            writeln!(o, "{}", json!({ "start": id })).unwrap();
            o.flush().unwrap();
        }
        let res = if hangs >= 2 {
            json!({"id": id, "skipped": true})
        } else {
            tx.send(sc).unwrap();
            // the limit is first of all one of work: other programs may keep this one from running
            let (begun, used) = (std::time::Instant::now(), cpu());
            let got = loop {
                match rx.recv_timeout(Duration::from_secs(1)) {
                    Ok(v) => break Some(v),
                    Err(mpsc::RecvTimeoutError::Timeout) if cpu() - used < limit && begun.elapsed().as_secs() < 4 * limit => {}
                    Err(_) => break None,
                }
            };
            match got {
                Some(v) => v,
                None => {
                    hangs += 1;
                    let n = spawn();
                    tx = n.0;
                    rx = n.1;
                    json!({"id": id, "hang": true})
                }
            }
        };
        let mut o = stdout.lock();
        writeln!(o, "{res}").unwrap();
        o.flush().unwrap();
    }
    std::process::exit(0);
}
