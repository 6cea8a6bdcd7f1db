//! Resolutions: one scenario is one RootFinder and a list of calls to solve.
use crate::model::*;
use crate::rec::*;
use nalgebra::allocator::Allocator;
use nalgebra::{Const, DMatrix, DVector, DefaultAllocator, DimMin, Dyn, U1};
use newton_rootfinder as nrf;
use nrf::errors::{SolverError, SolverInternalError};
use nrf::iteratives::{Iterative, IterativeParams, IterativeParamsFD, Iteratives, PerturbationMethod};
use nrf::model::{Model, ModelError};
use nrf::residuals::{NormalizationMethod, ResidualConfig, ResidualsConfig};
use nrf::solver::{QuasiNewtonMethod as Q, ResolutionMethod as R, RootFinder, SolverParameters, UpdateQuasiNewtonMethod as U};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::fmt::{Debug, Display};

pub fn method(name: &str) -> R {
    let up = |name: &str| match name {
        "BROY1" => U::BroydenFirstMethod,
        "BROY2" => U::BroydenSecondMethod,
        "GRST1" => U::GreenstadtFirstMethod,
        "GRST2" => U::GreenstadtSecondMethod,
        _ => panic!("harness: method {}", name),
    };
    match name {
        "NR" => R::NewtonRaphson,
        "SN" => R::QuasiNewton(Q::StationaryNewton),
        _ => match name.strip_suffix("_INV") {
            Some(base) => R::QuasiNewton(Q::InverseJacobianUpdate(up(base))),
            None => R::QuasiNewton(Q::JacobianUpdate(up(name))),
        },
    }
}

pub fn norm(name: &str) -> NormalizationMethod {
    match name {
        "Abs" => NormalizationMethod::Abs,
        "Rel" => NormalizationMethod::Rel,
        "Adapt" => NormalizationMethod::Adapt,
        _ => panic!("harness: normalization {}", name),
    }
}

pub fn norms(v: &Value) -> Vec<NormalizationMethod> {
    v.as_array().unwrap().iter().map(|x| norm(x.as_str().unwrap())).collect()
}

pub fn iter_fd(p: &Value) -> IterativeParamsFD {
    let pm = if st(p, "pm", "Max") == "Max" { PerturbationMethod::Max } else { PerturbationMethod::Sum };
    IterativeParamsFD::new(num(&p["msa"]), num(&p["msr"]), num(&p["lo"]), num(&p["hi"]), num(&p["dxa"]), num(&p["dxr"]), pm)
}

/// limits first, perturbations added to them
pub fn iter_extended(p: &Value) -> IterativeParamsFD {
    let pm = if st(p, "pm", "Max") == "Max" { PerturbationMethod::Max } else { PerturbationMethod::Sum };
    IterativeParamsFD::extend(iter_plain(p), num(&p["dxa"]), num(&p["dxr"]), pm)
}

pub fn iter_plain(p: &Value) -> IterativeParams {
    IterativeParams::new(num(&p["msa"]), num(&p["msr"]), num(&p["lo"]), num(&p["hi"]))
}

/// What the call to solve gave: kind of the result, sort of the error of the model it carries, the
/// message of this error, the texts of the result
#[derive(Default)]
pub struct Outcome {
    pub kind: String,
    pub sort: String,
    pub cause: String,
    pub texts: Vec<String>,
}

impl Outcome {
    pub fn of(kind: &str, cause: &str) -> Self {
        Outcome { kind: kind.into(), cause: cause.into(), ..Default::default() }
    }
    /// the error of the model; marked when the text does not tell it
    pub fn err(&self) -> String {
        if self.sort.is_empty() {
            return self.cause.clone();
        }
        let told = self.texts.iter().all(|t| !t.is_empty() && t.contains(&self.cause));
        format!("{}{} {}", if told { "" } else { "untold " }, self.sort, self.cause)
    }
}

fn outcome<M, D>(r: Result<(), SolverError<M, D>>) -> Outcome
where
    M: Model<D>,
    D: nalgebra::Dim,
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    let texts = match &r {
        Ok(()) => vec![],
        Err(e) => vec![e.to_string(), format!("{:?}", e)],
    };
    let of = |e: &ModelError<M, D>| match e {
        ModelError::InaccurateValuesError(i) => ("inacc", i.to_string()),
        ModelError::UnusableValuesError(u) => ("unus", u.to_string()),
    };
    let none = ("", String::new());
    let (kind, (sort, cause)) = match &r {
        Ok(()) => ("Ok", none),
        Err(SolverError::NonConvergenceError) => ("NonConvergence", none),
        Err(SolverError::FinalEvaluationError) => ("Final", none),
        Err(SolverError::ModelInitialEvaluationError(s)) => ("Initial", ("unus", s.clone())),
        Err(SolverError::ModelEvaluationError(e)) => ("ModelEval", of(e)),
        Err(SolverError::JacobianError(SolverInternalError::InvalidJacobianError(e))) => ("JacobianModel", of(e)),
        Err(SolverError::JacobianError(SolverInternalError::InvalidJacobianInverseError)) => ("Singular", none),
    };
    Outcome { kind: kind.into(), sort: sort.into(), cause, texts }
}

/// What a configuration file gives, besides the iteratives
struct Given(SolverParameters, Vec<NormalizationMethod>, Vec<NormalizationMethod>);

fn run<D, T>(sc: &Value, iters: &[T], given: Option<Given>, ev: &Events)
where
    D: DimMin<D, Output = D>,
    T: Iterative + Display + Debug,
    DefaultAllocator: Allocator<D> + Allocator<U1, D> + Allocator<D, D>,
{
    let c = &sc["cfg"];
    let n = us(c, "n", 1);
    let dim = D::from_usize(n);
    let (read, stop, upd) = match given {
        Some(Given(p, s, u)) => (Some(p), s, u),
        None if bo(sc, "default_res") => {
            let (s, u) = ResidualsConfig::convert_into_vecs(nrf::residuals::default_vec_residuals(n));
            (None, s, u)
        }
        None if bo(sc, "single_res") => {
            let one = norms(&c["stop"]).into_iter().zip(norms(&c["upd"])).map(|(s, u)| ResidualConfig::new(s, u)).collect();
            let (s, u) = ResidualsConfig::convert_into_vecs(one);
            (None, s, u)
        }
        None => (None, norms(&c["stop"]), norms(&c["upd"])),
    };
    let iteratives = Iteratives::new(iters);
    let config = ResidualsConfig::new(&stop, &upd);
    let guess = ovec(dim, &nums(&c["guess"]));
    let mut rf: RootFinder<T, D> = if bo(sc, "default") {
        nrf::solver::default_with_guess(guess, &iteratives, &config, method(st(c, "method", "NR")), bo(c, "damping"))
    } else if let Some(p) = read {
        RootFinder::new(p, guess, &iteratives, &config)
    } else {
        let p = SolverParameters::new(n, num(&c["tol"]), us(c, "maxiter", 50), method(st(c, "method", "NR")), bo(c, "damping"));
        RootFinder::new(p, guess, &iteratives, &config)
    };
    let log = sc.get("log").and_then(|x| x.as_str()).map(|x| x.to_string());
    let late = us(sc, "log_from", 0);
    let again = us(sc, "log_again", usize::MAX);
    let mut model: Option<HModel<D>> = None;
    for (k, s) in sc["solves"].as_array().unwrap().iter().enumerate() {
        if k == late || k == again {
            if let Some(path) = &log {
                if k == again {
                    let text = std::fs::read_to_string(path).unwrap_or_default();
                    push(ev, json!({"e": "text", "text": text}));
                }
                if bo(sc, "log_dirty") {
                    std::fs::write(path, "left over from another run\n").unwrap();
                }
                rf.activate_debug(path);
            }
        }
        let active = if k >= late { log.clone() } else { None };
        if !bo(s, "same") {
            model = Some(HModel::<D>::new(&s["model"], n, ev.clone(), active.clone()));
        }
        let m = model.as_mut().unwrap();
        if bo(s, "same") {
            m.look_at(active, k == again);
        }
        m.begin();
        let res = caught(|| outcome(rf.solve(m)));
        match res {
            Ok(o) => m.finish(&o),
            Err(text) => {
                let t = text.as_str().unwrap_or("");
                let kind = if t == CRASH { "Crash" } else if t == RUNAWAY { "Runaway" } else if t == OVERRUN { "Overrun" } else { "Panic" };
                m.finish(&Outcome::of(kind, if kind == "Panic" { t } else { "" }))
            }
        }
    }
    if let Some(path) = &log {
        let text = std::fs::read_to_string(path).unwrap_or_default();
        push(ev, json!({"e": "text", "text": text}));
    }
}

fn sized<T>(sc: &Value, iters: &[T], given: Option<Given>, ev: &Events)
where
    T: Iterative + Display + Debug,
{
    if st(sc, "dim", "dyn") == "static" {
        match us(&sc["cfg"], "n", 1) {
            1 => run::<Const<1>, T>(sc, iters, given, ev),
            2 => run::<Const<2>, T>(sc, iters, given, ev),
            3 => run::<Const<3>, T>(sc, iters, given, ev),
            4 => run::<Const<4>, T>(sc, iters, given, ev),
            5 => run::<Const<5>, T>(sc, iters, given, ev),
            6 => run::<Const<6>, T>(sc, iters, given, ev),
            _ => run::<Dyn, T>(sc, iters, given, ev),
        }
    } else {
        run::<Dyn, T>(sc, iters, given, ev)
    }
}

thread_local! {
    static FUNC: RefCell<Option<(Formula, Events, usize, usize)>> = const { RefCell::new(None) };
}

fn called(x: &DVector<f64>) -> DVector<f64> {
    FUNC.with(|c| {
        let mut b = c.borrow_mut();
        let (fo, ev, k, _) = b.as_mut().unwrap();
        if *k > 3000 {
            panic!("{}", RUNAWAY)
        }
        let xs: Vec<f64> = x.iter().cloned().collect();
        let l = fo.left(&xs);
        let r0 = fo.right(&xs);
        let l: Vec<f64> = l.iter().zip(r0.iter()).map(|(a, b)| a - b).collect();
        let zero = vec![0.0; fo.n];
        push(ev, json!({"e": "eval", "x": jv(&xs), "l": jv(&l), "r": jv(&zero), "out": "ok", "err": format!("e{}", k),
                        "mb": [], "ma": [], "log": {"len": 0, "grows": true}}));
        *k += 1;
        DVector::from_vec(l)
    })
}

fn called_jac(x: &DVector<f64>) -> DMatrix<f64> {
    FUNC.with(|c| {
        let mut b = c.borrow_mut();
        let (fo, ev, _, k) = b.as_mut().unwrap();
        if *k > 3000 {
            panic!("{}", RUNAWAY)
        }
        let xs: Vec<f64> = x.iter().cloned().collect();
        let d: Vec<Vec<f64>> = fo
            .dleft(&xs)
            .iter()
            .zip(fo.dright(&xs).iter())
            .map(|(a, b)| a.iter().zip(b.iter()).map(|(u, v)| u - v).collect())
            .collect();
        let zero = vec![vec![0.0; fo.n]; fo.n];
        push(ev, json!({"e": "jac", "x": jv(&xs), "dl": jrows(&d), "dr": jrows(&zero), "out": "ok", "err": format!("j{}", k),
                        "log": {"len": 0, "grows": true}}));
        *k += 1;
        DMatrix::from_fn(fo.n, fo.n, |i, j| d[i][j])
    })
}

fn adapted<T, M>(sc: &Value, iters: &[T], ev: &Events, make: impl Fn(usize) -> M, left: impl Fn(&M) -> (Vec<f64>, Vec<f64>, Vec<f64>))
where
    T: Iterative + Display + Debug,
    M: Model<Dyn>,
{
    let c = &sc["cfg"];
    let n = us(c, "n", 1);
    let stop = norms(&c["stop"]);
    let upd = norms(&c["upd"]);
    let iteratives = Iteratives::new(iters);
    let config = ResidualsConfig::new(&stop, &upd);
    let guess = DVector::from_vec(nums(&c["guess"]));
    let p = SolverParameters::new(n, num(&c["tol"]), us(c, "maxiter", 50), method(st(c, "method", "NR")), bo(c, "damping"));
    let mut rf: RootFinder<T, Dyn> = RootFinder::new(p, guess, &iteratives, &config);
    let mut model: Option<M> = None;
    for s in sc["solves"].as_array().unwrap().iter() {
        let same = bo(s, "same");
        if !same {
            FUNC.with(|c| *c.borrow_mut() = Some((Formula::parse(&s["model"]["formula"], n), ev.clone(), 0, 0)));
            model = Some(make(n));
        } else {
            FUNC.with(|c| {
                let mut b = c.borrow_mut();
                let t = b.as_mut().unwrap();
                t.2 = 0;
                t.3 = 0;
            });
        }
        let m = model.as_mut().unwrap();
        push(ev, json!({"e": "begin", "mem": [], "log": {"len": 0, "grows": true}}));
        let res = caught(|| outcome(rf.solve(m)));
        let x: Vec<f64> = m.get_iteratives().iter().cloned().collect();
        let rv = m.get_residuals();
        let (l, r): (Vec<f64>, Vec<f64>) = (0..n).map(|i| rv.get_values(i)).unzip();
        let o = match res {
            Ok(o) => o,
            Err(t) => {
                let t = t.as_str().unwrap_or("").to_string();
                if t == RUNAWAY { Outcome::of("Runaway", "") } else { Outcome::of("Panic", &t) }
            }
        };
        let (fx, fl, fr) = left(m);
        let agree = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(u, v)| u.to_bits() == v.to_bits());
        let fields = agree(&fx, &x) && agree(&fl, &l) && agree(&fr, &r) && m.len_problem() == n;
        push(ev, json!({"e": "ret", "kind": o.kind, "err": o.err(), "says": o.texts, "sort": o.sort, "cause": o.cause, "x": jv(&x), "l": jv(&l), "r": jv(&r), "dirty": !fields,
                        "mem": [], "log": {"len": 0, "grows": true}}));
    }
}

fn adapters<T>(sc: &Value, iters: &[T], ev: &Events)
where
    T: Iterative + Display + Debug,
{
    let v = |x: &DVector<f64>| x.iter().cloned().collect::<Vec<f64>>();
    match st(sc, "adapter", "") {
        "fn" => adapted(sc, iters, ev, |n| nrf::model::UserModelFromFunction::new(n, called), |m| (v(&m.inputs), v(&m.left), v(&m.right))),
        "fnjac" => adapted(
            sc,
            iters,
            ev,
            |n| nrf::model::UserModelFromFunctionAndJacobian::new(n, called, called_jac),
            |m| (v(&m.inputs), v(&m.left), v(&m.right)),
        ),
        "closure" => {
            let tag = 1.0;
            let g = |x: &DVector<f64>| called(x) * tag;
            adapted(sc, iters, ev, |n| nrf::model::UserModelFromClosure::new(n, &g), |m| (v(&m.inputs), v(&m.left), v(&m.right)))
        }
        "closurejac" => {
            let tag = 1.0;
            let g = |x: &DVector<f64>| called(x) * tag;
            let j = |x: &DVector<f64>| called_jac(x) * tag;
            adapted(sc, iters, ev, |n| nrf::model::UserModelFromClosureAndJacobian::new(n, &g, &j), |m| (v(&m.inputs), v(&m.left), v(&m.right)))
        }
        other => panic!("harness: adapter {}", other),
    }
}

pub fn solve(sc: &Value, ev: &Events) {
    let ps = sc["cfg"]["iters"].as_array().unwrap();
    if let Some(text) = sc.get("xml").and_then(|x| x.as_str()) {
        let path = format!("nrf-built-{}.xml", st(sc, "id", "x"));
        std::fs::write(&path, text).unwrap();
        if bo(sc, "plain") {
            let (p, it, s, u) = nrf::xml_parser::from_xml_jacobian(&path);
            let _ = std::fs::remove_file(&path);
            sized(sc, &it, Some(Given(p, s, u)), ev)
        } else {
            let (p, it, s, u) = nrf::xml_parser::from_xml_finite_diff(&path);
            let _ = std::fs::remove_file(&path);
            sized(sc, &it, Some(Given(p, s, u)), ev)
        }
    } else if bo(sc, "plain") {
        let v: Vec<IterativeParams> = if bo(sc, "default_iters") {
            nrf::iteratives::default_vec_iteratives(ps.len())
        } else {
            ps.iter().map(iter_plain).collect()
        };
        if sc.get("adapter").is_some() { adapters(sc, &v, ev) } else { sized(sc, &v, None, ev) }
    } else {
        let v: Vec<IterativeParamsFD> = if bo(sc, "default_iters") {
            nrf::iteratives::default_vec_iteratives_fd(ps.len())
        } else if bo(sc, "extended") {
            ps.iter().map(iter_extended).collect()
        } else {
            ps.iter().map(iter_fd).collect()
        };
        if sc.get("adapter").is_some() { adapters(sc, &v, ev) } else { sized(sc, &v, None, ev) }
    }
}
