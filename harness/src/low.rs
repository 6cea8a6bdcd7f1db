//! Single calls of the low level of the API: the jacobian store and the documented formulas.
//! Left out (feature "low") when it does not compile: the other checks do not need it.
use crate::model::*;
use crate::rec::*;
use crate::solve::{iter_fd, iter_plain, norm, norms};
use crate::unit::{dm, dv, mj, updating, vj};
use nalgebra::{DVector, Dyn};
use newton_rootfinder as nrf;
use nrf::errors::NonInvertibleJacobian;
use nrf::iteratives::{Iterative, IterativeParams, IterativeParamsFD, Iteratives};
use nrf::model::{Model, ModelError};
use nrf::residuals::{deriv_normalization, normalization, JacobianValues, NormalizationMethod, ResidualsConfig, ResidualsValues};
use nrf::solver as sv;
use nrf::solver::JacobianMatrix;
use serde_json::{json, Value};

// ---------------------------------------------------------------------------
fn store_state(j: &JacobianMatrix<Dyn>) -> Value {
    let none = || json!([]);
    json!({"m": j.get_jacobian().as_ref().map(mj).unwrap_or_else(none), "inv": j.get_inverse().as_ref().map(mj).unwrap_or_else(none),
           "due": j.compute_jacobian(), "approx": j.is_jacobian_approximated()})
}

pub fn store(sc: &Value, ev: &Events) {
    let mut j: JacobianMatrix<Dyn> = if bo(sc, "default") { JacobianMatrix::default() } else { JacobianMatrix::new() };
    push(ev, json!({"e": "op", "op": "new", "got": "ok", "mat": [], "st": store_state(&j), "ev": []}));
    let said = |r: Result<(), NonInvertibleJacobian>| if r.is_ok() { "ok" } else { "singular" };
    for o in sc["ops"].as_array().unwrap() {
        let op = st(o, "op", "");
        let mut calls = json!([]);
        let done = caught(|| match op {
            "exact" => said(j.update_jacobian_with_exact_value(dm(&o["mat"]))),
            "approx" => said(j.update_jacobian_with_approximated_value(dm(&o["mat"]))),
            "inverse" => {
                j.update_inverse(dm(&o["mat"]));
                "ok"
            }
            "force" => {
                j.force_jacobian_computation();
                "ok"
            }
            "invalidate" => {
                j.invalidate_jacobian();
                "ok"
            }
            "update" => {
                if j.get_jacobian().is_none() {
                    return "skip";
                }
                said(sv::approximate_jacobian(&mut j, updating(st(o, "method", "")), &dv(&o["s"]), &dv(&o["y"]), &dv(&o["f"])))
            }
            "updateinv" => {
                if j.get_inverse().is_none() {
                    return "skip";
                }
                sv::approximate_inv_jacobian(&mut j, updating(st(o, "method", "")), &dv(&o["s"]), &dv(&o["y"]), &dv(&o["f"]));
                "ok"
            }
            "fd" | "given" => {
                let n = us(o, "n", 1);
                let sub: Events = Default::default();
                let mut m = HModel::<Dyn>::new(&o["model"], n, sub.clone(), None);
                let upd = norms(&o["upd"]);
                let res = ResidualsConfig::new(&upd, &upd);
                m.set_iteratives(&dv(&o["x"]));
                let _ = m.evaluate();
                let r = if op == "fd" {
                    let it: Vec<IterativeParamsFD> = o["iters"].as_array().unwrap().iter().map(iter_fd).collect();
                    sv::evaluate_jacobian_from_finite_difference(&mut j, &mut m, &Iteratives::new(&it), &res)
                } else {
                    sv::evaluate_jacobian_from_analytical_function(&mut j, &mut m, &res)
                };
                calls = Value::Array(sub.lock().unwrap().clone());
                match r {
                    Ok(()) => "ok",
                    Err(nrf::errors::SolverInternalError::InvalidJacobianInverseError) => "singular",
                    Err(nrf::errors::SolverInternalError::InvalidJacobianError(ModelError::InaccurateValuesError(_))) => "inacc",
                    Err(nrf::errors::SolverInternalError::InvalidJacobianError(ModelError::UnusableValuesError(_))) => "unus",
                }
            }
            other => panic!("harness: op {}", other),
        });
        let got = match &done {
            Ok(t) => t,
            Err(t) if t.as_str().unwrap_or("").starts_with("harness:") => panic!("{}", t.as_str().unwrap()),
            Err(_) => "panic",
        };
        if got == "skip" {
            continue;
        }
        let mut e = o.clone();
        e["e"] = json!("op");
        e["got"] = json!(got);
        e["st"] = store_state(&j);
        e["ev"] = calls;
        push(ev, e);
    }
}

// ---------------------------------------------------------------------------
fn compute(c: &Value) -> Value {
    let meth = || norm(st(c, "meth", "Abs"));
    match st(c, "fn", "") {
        "norm" => json!([f(normalization(num(&c["l"]), num(&c["r"]), meth()))]),
        "dnorm" => json!([f(deriv_normalization(num(&c["l"]), num(&c["r"]), num(&c["dl"]), num(&c["dr"]), meth()))]),
        "upd" | "stop" => {
            let v = ResidualsValues::<Dyn>::new(dv(&c["l"]), dv(&c["r"]));
            let m = norms(&c["meths"]);
            let other: Vec<NormalizationMethod> = m.iter().map(|x| match x {
                NormalizationMethod::Abs => NormalizationMethod::Adapt,
                NormalizationMethod::Rel => NormalizationMethod::Abs,
                NormalizationMethod::Adapt => NormalizationMethod::Rel,
            }).collect();
            if st(c, "fn", "") == "upd" {
                vj(&ResidualsConfig::new(&other, &m).evaluate_update_residuals(&v))
            } else {
                vj(&ResidualsConfig::new(&m, &other).evaluate_stopping_residuals(&v))
            }
        }
        "djac" => {
            let v = ResidualsValues::<Dyn>::new(dv(&c["l"]), dv(&c["r"]));
            mj(&JacobianValues::<Dyn>::new(dm(&c["dl"]), dm(&c["dr"])).normalize(&v, &norms(&c["meths"])))
        }
        "limit" => {
            let (x, raw) = (dv(&c["x"]), dv(&c["raw"]));
            let ps = c["iters"].as_array().unwrap();
            if bo(c, "fd") {
                let it: Vec<IterativeParamsFD> = ps.iter().map(iter_fd).collect();
                vj(&Iteratives::new(&it).step_limitations(&x, &raw))
            } else {
                let it: Vec<IterativeParams> = ps.iter().map(iter_plain).collect();
                vj(&Iteratives::new(&it).step_limitations(&x, &raw))
            }
        }
        "limit1" => {
            let (x, raw) = (num(&c["x"]), num(&c["raw"]));
            let p = &c["iters"][0];
            json!([f(if bo(c, "fd") { iter_fd(p).step_limitation(x, raw) } else { iter_plain(p).step_limitation(x, raw) })])
        }
        "perturb" => {
            let it: Vec<IterativeParamsFD> = c["iters"].as_array().unwrap().iter().map(iter_fd).collect();
            let x = dv(&c["x"]);
            if bo(c, "one") {
                vj(&DVector::from_iterator(x.len(), it.iter().zip(x.iter()).map(|(p, v)| p.compute_perturbation(*v))))
            } else {
                vj(&Iteratives::new(&it).compute_perturbations(&x))
            }
        }
        "b1j" => mj(&sv::broyden_first_method_udpate_jac(&dm(&c["m"]), &dv(&c["s"]), &dv(&c["y"]))),
        "b1h" => mj(&sv::broyden_first_method_udpate_inv_jac(&dm(&c["m"]), &dv(&c["s"]), &dv(&c["y"]))),
        "b2j" => mj(&sv::broyden_second_method_udpate_jac(&dm(&c["m"]), &dv(&c["s"]), &dv(&c["y"]))),
        "b2h" => mj(&sv::broyden_second_method_udpate_inv_jac(&dm(&c["m"]), &dv(&c["s"]), &dv(&c["y"]))),
        "gj" => mj(&sv::quasi_method_update_jac(&dm(&c["m"]), &dv(&c["s"]), &dv(&c["y"]), &dv(&c["c"]))),
        "gh" => mj(&sv::quasi_method_update_inv_jac(&dm(&c["m"]), &dv(&c["s"]), &dv(&c["y"]), &dv(&c["c"]))),
        "g2j" => mj(&sv::greenstadt_second_method_udpate_jac(&dm(&c["m"]), &dv(&c["s"]), &dv(&c["y"]), &dv(&c["c"]))),
        other => panic!("harness: function {}", other),
    }
}

pub fn call(sc: &Value, ev: &Events) {
    let c = &sc["call"];
    if st(c, "fn", "") == "fdjac" {
        let n = us(c, "n", 1);
        let mut m = HModel::<Dyn>::new(&c["model"], n, ev.clone(), None);
        let upd = norms(&c["upd"]);
        let other = vec![NormalizationMethod::Abs; n];
        m.set_iteratives(&dv(&c["x"]));
        let _ = m.evaluate();
        let r = caught(|| sv::compute_jacobian_from_finite_difference(&mut m, &dv(&c["p"]), &ResidualsConfig::new(&other, &upd)).map_err(|e| match e {
            ModelError::InaccurateValuesError(t) => format!("inacc {}", t),
            ModelError::UnusableValuesError(t) => format!("unus {}", t),
        }));
        let mem = jv(&m.get_memory().iter().cloned().collect::<Vec<f64>>());
        push(ev, match r {
            Ok(Ok(j)) => json!({"e": "value", "got": "ok", "v": mj(&j), "mem": mem}),
            Ok(Err(t)) => json!({"e": "value", "got": t, "v": [], "mem": mem}),
            Err(_) => json!({"e": "value", "got": "panic", "v": [], "mem": mem}),
        });
        return;
    }
    match caught(|| compute(c)) {
        Ok(v) => push(ev, json!({"e": "value", "got": "ok", "v": v, "mem": []})),
        Err(t) => {
            if t.as_str().unwrap_or("").starts_with("harness:") {
                panic!("{}", t.as_str().unwrap())
            }
            push(ev, json!({"e": "value", "got": "panic", "v": [], "mem": []}))
        }
    }
}
