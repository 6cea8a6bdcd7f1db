//! Drives the crate util (one-dimensional solver, benchmark problems) through scenarios (one JSON
//! object per line) and records what it does (one JSON object per line).
#[allow(dead_code)]
#[path = "../../harness/src/rec.rs"]
mod rec;

use nalgebra::{DMatrix, DVector};
use rec::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::sync::{mpsc, Arc, Mutex};
use std::time::Duration;
use util::solver_one_dimensional::{solver1d, solver1d_fd};
use util::test_cases::{broyden1965 as b, polynom as p};

const RUNAWAY: &str = "harness: too many calls";

/// What the function and its derivative answer: replies in order, or a formula
struct Model {
    f: Vec<f64>,
    d: Vec<f64>,
    poly: Vec<f64>,
    s: f64,
    e: f64,
    nf: usize,
    nd: usize,
    ev: Events,
}

impl Model {
    fn calls(&self) {
        if self.nf + self.nd > 4000 {
            panic!("{}", RUNAWAY)
        }
    }
    fn value(&mut self, x: f64) -> f64 {
        self.calls();
        let v = if self.poly.is_empty() {
            self.f.get(self.nf).cloned().unwrap_or(f64::NAN)
        } else {
            let q = self.poly.iter().rev().fold(0.0, |a, c| a * x + c);
            q + if self.s != 0.0 { self.s * x.sin() } else { 0.0 } + if self.e != 0.0 { self.e * x.exp() } else { 0.0 }
        };
        self.nf += 1;
        push(&self.ev, json!({"e": "f", "x": f(x), "v": f(v)}));
        v
    }
    fn slope(&mut self, x: f64) -> f64 {
        self.calls();
        let v = if self.poly.is_empty() {
            self.d.get(self.nd).cloned().unwrap_or(f64::NAN)
        } else {
            let q = self.poly.iter().enumerate().skip(1).rev().fold(0.0, |a, (k, c)| a * x + c * k as f64);
            q + if self.s != 0.0 { self.s * x.cos() } else { 0.0 } + if self.e != 0.0 { self.e * x.exp() } else { 0.0 }
        };
        self.nd += 1;
        push(&self.ev, json!({"e": "d", "x": f(x), "v": f(v)}));
        v
    }
}

thread_local! {
    static MODEL: RefCell<Option<Model>> = const { RefCell::new(None) };
}

fn func(x: f64) -> f64 {
    MODEL.with(|m| m.borrow_mut().as_mut().unwrap().value(x))
}

fn deriv(x: f64) -> f64 {
    MODEL.with(|m| m.borrow_mut().as_mut().unwrap().slope(x))
}

fn one(sc: &Value, ev: &Events) {
    let (c, m) = (&sc["call"], &sc["model"]);
    let get = |k: &str| m.get(k).map(num).unwrap_or(0.0);
    let model = Model { f: nums(&m["f"]), d: nums(&m["d"]), poly: nums(&m["poly"]), s: get("s"), e: get("e"), nf: 0, nd: 0, ev: ev.clone() };
    MODEL.with(|x| *x.borrow_mut() = Some(model));
    let (guess, tol, k) = (num(&c["guess"]), num(&c["tol"]), us(c, "maxiter", 0));
    let r = caught(|| if bo(c, "fd") { solver1d_fd(guess, func, k, tol, num(&c["dx"])) } else { solver1d(guess, func, deriv, k, tol) });
    match r {
        Ok(x) => push(ev, json!({"e": "ret", "got": "ok", "x": f(x)})),
        Err(t) => push(ev, json!({"e": "ret", "got": if t.as_str() == Some(RUNAWAY) { "runaway" } else { "panic" }, "x": "NaN"})),
    }
}

type Function = fn(&DVector<f64>) -> DVector<f64>;
type Jacobian = fn(&DVector<f64>) -> DMatrix<f64>;
type Point = fn() -> DVector<f64>;

fn problem(name: &str) -> (Function, Jacobian, Option<(Point, Point)>) {
    match name {
        "case5" => (b::broyden1965_case5, b::broyden1965_case5_jac, Some((b::init_broyden1965_case5, b::solution_broyden1965_case5))),
        "case6" => (b::broyden1965_case6, b::broyden1965_case6_jac, Some((b::init_broyden1965_case6, b::solution_broyden1965_case6))),
        "case7" => (b::broyden1965_case7, b::broyden1965_case7_jac, Some((b::init_broyden1965_case7, b::solution_broyden1965_case7))),
        "case8" => (b::broyden1965_case8, b::broyden1965_case8_jac, Some((b::init_broyden1965_case8, b::solution_broyden1965_case8))),
        "case9" => (b::broyden1965_case9, b::broyden1965_case9_jac, Some((b::init_broyden1965_case9, b::solution_broyden1965_case9))),
        "case10" => (b::broyden1965_case10, b::broyden1965_case10_jac, Some((b::init_broyden1965_case10, b::solution_broyden1965_case10))),
        "square2" => (p::square2, p::dsquare, None),
        "high" => (p::root_with_high_derivative, p::root_with_high_derivative_jac, None),
        _ => panic!("harness: problem {}", name),
    }
}

fn values(sc: &Value, ev: &Events) {
    let (g, j, ends) = problem(st(sc, "name", ""));
    let list = |v: DVector<f64>| jv(&v.iter().cloned().collect::<Vec<f64>>());
    let none = || json!([]);
    let mut out = json!({"e": "values", "got": "ok", "x": none(), "f": none(), "j": none()});
    let r = caught(|| {
        let x = match st(sc, "at", "x") {
            "init" => ends.unwrap().0(),
            "solution" => ends.unwrap().1(),
            _ => DVector::from_vec(nums(&sc["x"])),
        };
        let (v, m) = (g(&x), j(&x));
        out["x"] = list(x);
        out["f"] = list(v);
        out["j"] = Value::Array((0..m.nrows()).map(|r| Value::Array((0..m.ncols()).map(|c| f(m[(r, c)])).collect())).collect());
    });
    if r.is_err() {
        out["got"] = json!("panic");
    }
    push(ev, out);
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let input = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    let mut output = std::io::BufWriter::new(std::fs::File::create(&args[2]).unwrap());
    let wait: u64 = args.get(3).and_then(|x| x.parse().ok()).unwrap_or(20);
    let mut hangs = 0;
    for line in input.lines() {
        let line = line.unwrap();
        if hangs >= 2 {
            break;
        }
        let sc: Value = serde_json::from_str(&line).unwrap();
        let ev: Events = Arc::new(Mutex::new(Vec::new()));
        let (tx, rx) = mpsc::channel();
        let (sc2, ev2) = (sc.clone(), ev.clone());
        std::thread::spawn(move || {
            if st(&sc2, "kind", "") == "one" { one(&sc2, &ev2) } else { values(&sc2, &ev2) }
            let _ = tx.send(());
        });
        let end = rx.recv_timeout(Duration::from_secs(wait));
        let mut events = ev.lock().unwrap_or_else(|e| e.into_inner()).clone();
        match end {
            Ok(()) => (),
            Err(mpsc::RecvTimeoutError::Timeout) => {
                hangs += 1;
                events.truncate(400);
                events.push(json!({"e": "hang"}))
            }
            Err(_) => events.push(json!({"e": "broken", "text": "harness: worker ended"})),
        }
        let mut out = sc.clone();
        out.as_object_mut().unwrap().insert("ev".into(), Value::Array(events));
        serde_json::to_writer(&mut output, &out).unwrap();
        output.write_all(b"\n").unwrap();
        output.flush().unwrap();
    }
    std::process::exit(0);
}
