//! Single calls of the public API: configuration files, constructors.
use crate::rec::*;
use crate::solve::{iter_fd, iter_plain, method, norm, norms};
use nalgebra::{DMatrix, DVector, Dyn};
use newton_rootfinder as nrf;
use nrf::iteratives::{IterativeParams, IterativeParamsFD, Iteratives, PerturbationMethod};
use nrf::residuals::{JacobianValues, NormalizationMethod, ResidualConfig, ResidualsConfig, ResidualsValues};
use nrf::solver::{QuasiNewtonMethod as Q, ResolutionMethod as R, RootFinder, SolverParameters, UpdateQuasiNewtonMethod as U};
use serde_json::{json, Value};

fn method_name(m: R) -> String {
    let up = |u: U| match u {
        U::BroydenFirstMethod => "BROY1",
        U::BroydenSecondMethod => "BROY2",
        U::GreenstadtFirstMethod => "GRST1",
        U::GreenstadtSecondMethod => "GRST2",
    };
    match m {
        R::NewtonRaphson => "NR".into(),
        R::QuasiNewton(Q::StationaryNewton) => "SN".into(),
        R::QuasiNewton(Q::JacobianUpdate(u)) => up(u).into(),
        R::QuasiNewton(Q::InverseJacobianUpdate(u)) => format!("{}_INV", up(u)),
    }
}
pub fn updating(name: &str) -> U {
    match method(name) {
        R::QuasiNewton(Q::JacobianUpdate(u)) | R::QuasiNewton(Q::InverseJacobianUpdate(u)) => u,
        _ => panic!("harness: no update in {}", name),
    }
}
fn norm_name(m: &NormalizationMethod) -> &'static str {
    match m {
        NormalizationMethod::Abs => "Abs",
        NormalizationMethod::Rel => "Rel",
        NormalizationMethod::Adapt => "Adapt",
    }
}
fn pm_name(m: PerturbationMethod) -> &'static str {
    match m {
        PerturbationMethod::Max => "Max",
        PerturbationMethod::Sum => "Sum",
    }
}
fn names(v: &[NormalizationMethod]) -> Value {
    Value::Array(v.iter().map(|m| json!(norm_name(m))).collect())
}
fn size(n: usize) -> u64 {
    n.min(1_000_000_000) as u64
}
pub fn dv(v: &Value) -> DVector<f64> {
    DVector::from_vec(nums(v))
}
pub fn dm(v: &Value) -> DMatrix<f64> {
    let r = rows(v);
    let c = r.first().map(|x| x.len()).unwrap_or(0);
    DMatrix::from_fn(r.len(), c, |i, j| r[i][j])
}
pub fn vj(v: &DVector<f64>) -> Value {
    jv(&v.iter().cloned().collect::<Vec<f64>>())
}
pub fn mj(m: &DMatrix<f64>) -> Value {
    Value::Array((0..m.nrows()).map(|i| Value::Array((0..m.ncols()).map(|j| f(m[(i, j)])).collect())).collect())
}

fn plain_back(p: &IterativeParams) -> Value {
    json!({"msa": f(p.get_max_step_abs()), "msr": f(p.get_max_step_rel()), "lo": f(p.get_min_value()), "hi": f(p.get_max_value())})
}
fn fd_back(p: &IterativeParamsFD) -> Value {
    json!({"msa": f(p.get_max_step_abs()), "msr": f(p.get_max_step_rel()), "lo": f(p.get_min_value()), "hi": f(p.get_max_value()),
           "dxa": f(p.get_dx_abs()), "dxr": f(p.get_dx_rel()), "pm": pm_name(p.get_perturbation_method())})
}

// ---------------------------------------------------------------------------
pub fn xml(sc: &Value, ev: &Events) {
    let path = format!("nrf-conf-{}.xml", st(sc, "id", "x"));
    std::fs::write(&path, st(sc, "text", "")).unwrap();
    let base = |p: &SolverParameters, s: &[NormalizationMethod], u: &[NormalizationMethod], iters: Vec<Value>| {
        json!({"n": size(p.get_problem_size()), "maxiter": size(p.get_max_iter()), "tol": f(p.get_tolerance()),
               "method": method_name(p.get_resolution_method()), "damping": p.get_damping(),
               "stop": names(s), "upd": names(u), "iters": iters})
    };
    let r = caught(|| {
        if st(sc, "mode", "fd") == "fd" {
            let (p, it, s, u) = nrf::xml_parser::from_xml_finite_diff(&path);
            base(&p, &s, &u, it.iter().map(|q| json!({
                "max_step_abs": f(q.get_max_step_abs()), "max_step_rel": f(q.get_max_step_rel()),
                "min_value": f(q.get_min_value()), "max_value": f(q.get_max_value()),
                "dx_abs": f(q.get_dx_abs()), "dx_rel": f(q.get_dx_rel()),
                "perturbation_method": pm_name(q.get_perturbation_method())})).collect())
        } else {
            let (p, it, s, u) = nrf::xml_parser::from_xml_jacobian(&path);
            base(&p, &s, &u, it.iter().map(|q| json!({
                "max_step_abs": f(q.get_max_step_abs()), "max_step_rel": f(q.get_max_step_rel()),
                "min_value": f(q.get_min_value()), "max_value": f(q.get_max_value())})).collect())
        }
    });
    let _ = std::fs::remove_file(&path);
    match r {
        Ok(c) => push(ev, json!({"e": "read", "got": "ok", "conf": c})),
        Err(_) => push(ev, json!({"e": "read", "got": "refused"})),
    }
}

// ---------------------------------------------------------------------------
fn build(c: &Value) -> Value {
    match st(c, "fn", "") {
        "iter" => plain_back(&iter_plain(c)),
        "iterfd" => fd_back(&iter_fd(c)),
        "extend" => {
            let p = IterativeParams::new(num(&c["msa"]), num(&c["msr"]), num(&c["lo"]), num(&c["hi"]));
            let pm = if st(c, "pm", "Max") == "Max" { PerturbationMethod::Max } else { PerturbationMethod::Sum };
            let q = IterativeParamsFD::extend(p, num(&c["dxa"]), num(&c["dxr"]), pm);
            let mut b = fd_back(&q);
            b["inner"] = plain_back(q.get_iterative_params());
            b
        }
        "residual" => {
            let q = ResidualConfig::new(norm(st(c, "stop", "")), norm(st(c, "upd", "")));
            let (s, u) = ResidualsConfig::convert_into_vecs(vec![q, ResidualConfig::default()]);
            json!({"stop": norm_name(&q.get_stopping_criteria()), "upd": norm_name(&q.get_update_method()), "stops": names(&s), "upds": names(&u)})
        }
        "config" => {
            let (s, u) = (norms(&c["stop"]), norms(&c["upd"]));
            let r = ResidualsConfig::new(&s, &u);
            json!({"n": size(r.len()), "stop": names(r.get_stopping_criterias()), "upd": names(r.get_update_methods())})
        }
        "values" => {
            let r = ResidualsValues::<Dyn>::new(dv(&c["l"]), dv(&c["r"]));
            let (mut l, mut g) = (vec![], vec![]);
            for i in 0..r.len() {
                let (a, b) = r.get_values(i);
                l.push(a);
                g.push(b);
            }
            json!({"n": size(r.len()), "l": jv(&l), "r": jv(&g)})
        }
        "jacs" => {
            let r = JacobianValues::<Dyn>::new(dm(&c["dl"]), dm(&c["dr"]));
            let (l, g) = r.get_jacobians();
            json!({"dl": mj(l), "dr": mj(g)})
        }
        "params" => {
            let p = SolverParameters::new(us(c, "n", 0), num(&c["tol"]), us(c, "maxiter", 0), method(st(c, "method", "")), bo(c, "damping"));
            json!({"n": size(p.get_problem_size()), "maxiter": size(p.get_max_iter()), "tol": f(p.get_tolerance()),
                   "method": method_name(p.get_resolution_method()), "damping": p.get_damping()})
        }
        "solver" => {
            // sizes: of the problem, the guess, the iteratives, the residuals
            let p = SolverParameters::new(us(c, "n", 0), 1e-6, 10, R::NewtonRaphson, false);
            let it = vec![IterativeParams::default(); us(c, "iters", 0)];
            let iters = Iteratives::new(&it);
            let m = vec![NormalizationMethod::Abs; us(c, "res", 0)];
            let res = ResidualsConfig::new(&m, &m);
            let guess = DVector::from_element(us(c, "guess", 0), 0.5);
            let _rf: RootFinder<IterativeParams, Dyn> = if bo(c, "default") {
                nrf::solver::default_with_guess(guess, &iters, &res, R::NewtonRaphson, false)
            } else {
                RootFinder::new(p, guess, &iters, &res)
            };
            json!({"n": size(iters.len())})
        }
        "defaults" => {
            let n = us(c, "n", 1);
            let a = nrf::iteratives::default_vec_iteratives(n);
            let b = nrf::iteratives::default_vec_iteratives_fd(n);
            let (s, u) = ResidualsConfig::convert_into_vecs(nrf::residuals::default_vec_residuals(n));
            json!({"plain": a.iter().map(plain_back).collect::<Vec<_>>(), "fd": b.iter().map(fd_back).collect::<Vec<_>>(),
                   "stop": names(&s), "upd": names(&u)})
        }
        other => panic!("harness: build {}", other),
    }
}

pub fn params(sc: &Value, ev: &Events) {
    match caught(|| build(&sc["call"])) {
        Ok(b) => push(ev, json!({"e": "built", "got": "ok", "back": b})),
        Err(t) => {
            if t.as_str().unwrap_or("").starts_with("harness:") {
                panic!("{}", t.as_str().unwrap())
            }
            push(ev, json!({"e": "built", "got": "refused", "back": {}}))
        }
    }
}
