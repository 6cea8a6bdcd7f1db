//! The models handed to the solver: replies computed by a formula or read from a script.
use crate::rec::*;
use crate::solve::Outcome;
use nalgebra::allocator::Allocator;
use nalgebra::{DVector, DefaultAllocator, Dim, OMatrix, OVector, U1};
use newton_rootfinder as nrf;
use nrf::model::{Model, ModelError};
use nrf::residuals::{JacobianValues, ResidualsValues};
use serde_json::{json, Value};
use std::fmt;

/// left_i = sum_j A_ij x_j + q_i x_i^2 + c_i x_i^3 + s_i sin x_i + m_i x_i x_{i+1} + e_i exp x_i + g_i ln x_i + w_i sqrt x_i
/// right_i = b_i + sum_j B_ij x_j + k_i x_i^2
#[derive(Clone, Default)]
pub struct Formula {
    pub n: usize,
    a: Vec<Vec<f64>>,
    bm: Vec<Vec<f64>>,
    b: Vec<f64>,
    q: Vec<f64>,
    c: Vec<f64>,
    s: Vec<f64>,
    m: Vec<f64>,
    e: Vec<f64>,
    g: Vec<f64>,
    w: Vec<f64>,
    k: Vec<f64>,
}

impl Formula {
    pub fn parse(v: &Value, n: usize) -> Self {
        let vec = |key: &str| {
            let mut r = v.get(key).map(nums).unwrap_or_default();
            r.resize(n, 0.0);
            r
        };
        let mat = |key: &str| {
            let mut r = v.get(key).map(rows).unwrap_or_default();
            r.resize(n, vec![]);
            r.iter_mut().for_each(|x| x.resize(n, 0.0));
            r
        };
        Formula {
            n,
            a: mat("A"),
            bm: mat("B"),
            b: vec("b"),
            q: vec("q"),
            c: vec("c"),
            s: vec("s"),
            m: vec("m"),
            e: vec("e"),
            g: vec("g"),
            w: vec("w"),
            k: vec("k"),
        }
    }
    fn t(c: f64, x: impl Fn() -> f64) -> f64 {
        if c == 0.0 { 0.0 } else { c * x() }
    }
    pub fn left(&self, x: &[f64]) -> Vec<f64> {
        (0..self.n)
            .map(|i| {
                let y = x[i];
                let z = x[(i + 1) % self.n];
                let lin: f64 = (0..self.n).map(|j| Self::t(self.a[i][j], || x[j])).sum();
                lin + Self::t(self.q[i], || y * y)
                    + Self::t(self.c[i], || y * y * y)
                    + Self::t(self.s[i], || y.sin())
                    + Self::t(self.m[i], || y * z)
                    + Self::t(self.e[i], || y.exp())
                    + Self::t(self.g[i], || y.ln())
                    + Self::t(self.w[i], || y.sqrt())
            })
            .collect()
    }
    pub fn right(&self, x: &[f64]) -> Vec<f64> {
        (0..self.n)
            .map(|i| {
                let lin: f64 = (0..self.n).map(|j| Self::t(self.bm[i][j], || x[j])).sum();
                self.b[i] + lin + Self::t(self.k[i], || x[i] * x[i])
            })
            .collect()
    }
    pub fn dleft(&self, x: &[f64]) -> Vec<Vec<f64>> {
        let mut d = self.a.clone();
        for i in 0..self.n {
            let y = x[i];
            let z = x[(i + 1) % self.n];
            d[i][i] += Self::t(self.q[i], || 2.0 * y)
                + Self::t(self.c[i], || 3.0 * y * y)
                + Self::t(self.s[i], || y.cos())
                + Self::t(self.e[i], || y.exp())
                + Self::t(self.g[i], || 1.0 / y)
                + Self::t(self.w[i], || 0.5 / y.sqrt());
            d[i][i] += Self::t(self.m[i], || z);
            d[i][(i + 1) % self.n] += Self::t(self.m[i], || y);
        }
        d
    }
    pub fn dright(&self, x: &[f64]) -> Vec<Vec<f64>> {
        let mut d = self.bm.clone();
        for i in 0..self.n {
            d[i][i] += Self::t(self.k[i], || 2.0 * x[i]);
        }
        d
    }
}

#[derive(Debug)]
pub struct Inacc(pub String);
#[derive(Debug)]
pub struct Unus(pub String);
impl fmt::Display for Inacc {
    fn fmt(&self, w: &mut fmt::Formatter) -> fmt::Result {
        write!(w, "{}", self.0)
    }
}
impl fmt::Display for Unus {
    fn fmt(&self, w: &mut fmt::Formatter) -> fmt::Result {
        write!(w, "{}", self.0)
    }
}
impl std::error::Error for Inacc {}
impl std::error::Error for Unus {}

/// payload of the panics asked for by a scenario
pub const CRASH: &str = "scripted crash";
pub const RUNAWAY: &str = "runaway";
pub const OVERRUN: &str = "script over";

pub struct HModel<D>
where
    D: Dim,
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    n: usize,
    dim: D,
    x: OVector<f64, D>,
    l: OVector<f64, D>,
    r: OVector<f64, D>,
    memory: Vec<f64>,
    gain: f64,
    provided: bool,
    merge: bool,
    formula: Formula,
    script: Option<Value>,
    outs: Value,
    /// start of the messages of the errors
    pre: String,
    jouts: Value,
    /// evaluations and jacobians, by position, that answer something else than the formula
    twists: Value,
    jtwists: Value,
    pub nev: usize,
    pub njac: usize,
    limit: usize,
    /// the state right after the last evaluation: iteratives, memory
    done: Option<(Vec<u64>, Vec<u64>)>,
    pub ev: Events,
    pub log: Option<String>,
    prev_log: String,
}

fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}

fn vec_of<D: Dim>(dim: D, v: &[f64]) -> OVector<f64, D>
where
    DefaultAllocator: Allocator<D>,
{
    OVector::<f64, D>::from_fn_generic(dim, U1, |i, _| v[i])
}

pub fn mat_of<D: Dim>(dim: D, v: &[Vec<f64>]) -> OMatrix<f64, D, D>
where
    DefaultAllocator: Allocator<D, D>,
{
    OMatrix::<f64, D, D>::from_fn_generic(dim, dim, |i, j| v[i][j])
}

pub fn ovec<D: Dim>(dim: D, v: &[f64]) -> OVector<f64, D>
where
    DefaultAllocator: Allocator<D>,
{
    vec_of(dim, v)
}

impl<D> HModel<D>
where
    D: Dim,
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    pub fn new(v: &Value, n: usize, ev: Events, log: Option<String>) -> Self {
        let dim = D::from_usize(n);
        let start = v.get("start").map(nums).unwrap_or_else(|| vec![0.125; n]);
        HModel {
            n,
            dim,
            x: vec_of(dim, &start),
            l: vec_of(dim, &vec![f64::NAN; n]),
            r: vec_of(dim, &vec![f64::NAN; n]),
            memory: v.get("mem").map(nums).unwrap_or_default(),
            gain: v.get("gain").map(num).unwrap_or(0.0),
            provided: bo(v, "provided"),
            merge: bo(v, "merge"),
            formula: Formula::parse(v.get("formula").unwrap_or(&Value::Null), n),
            script: v.get("script").cloned(),
            outs: v.get("outs").cloned().unwrap_or(json!({})),
            pre: st(v, "pre", "").to_string(),
            jouts: v.get("jouts").cloned().unwrap_or(json!({})),
            twists: v.get("twists").cloned().unwrap_or(json!({})),
            jtwists: v.get("jtwists").cloned().unwrap_or(json!({})),
            nev: 0,
            njac: 0,
            limit: us(v, "limit", 3000),
            done: None,
            ev,
            log,
            prev_log: String::new(),
        }
    }
    fn xs(&self) -> Vec<f64> {
        self.x.iter().cloned().collect()
    }
    /// state of the log: its length and whether it extends what was seen before
    fn look(&mut self) -> Value {
        match &self.log {
            None => json!({"len": 0, "grows": true}),
            Some(path) => {
                let now = std::fs::read_to_string(path).unwrap_or_default();
                let grows = now.starts_with(&self.prev_log);
                let len = now.len();
                self.prev_log = now;
                json!({"len": len, "grows": grows})
            }
        }
    }
    /// the log looked at from now on; emptied: it started again
    pub fn look_at(&mut self, log: Option<String>, emptied: bool) {
        self.log = log;
        if emptied {
            self.prev_log = String::new();
        }
    }
    pub fn begin(&mut self) {
        self.nev = 0;
        self.njac = 0;
        self.done = None;
        let look = self.look();
        push(&self.ev, json!({"e": "begin", "mem": jv(&self.memory), "log": look}));
    }
    pub fn finish(&mut self, o: &Outcome) {
        let look = self.look();
        let (l, r): (Vec<f64>, Vec<f64>) = (self.l.iter().cloned().collect(), self.r.iter().cloned().collect());
        push(
            &self.ev,
            json!({"e": "ret", "kind": o.kind, "err": o.err(), "says": o.texts, "sort": o.sort, "cause": o.cause, "x": jv(&self.xs()), "l": jv(&l), "r": jv(&r),
                   "dirty": self.done != Some((bits(&self.xs()), bits(&self.memory))), "mem": jv(&self.memory), "log": look}),
        );
    }
    fn guard(&self) {
        if self.nev + self.njac > self.limit {
            panic!("{}", RUNAWAY)
        }
    }
}

impl<D> Model<D> for HModel<D>
where
    D: Dim,
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    type InaccurateValuesError = Inacc;
    type UnusableValuesError = Unus;

    fn len_problem(&self) -> usize {
        self.n
    }
    fn set_iteratives(&mut self, x: &OVector<f64, D>) {
        self.x = x.clone();
    }
    fn get_iteratives(&self) -> OVector<f64, D> {
        self.x.clone()
    }
    fn evaluate(&mut self) -> Result<(), ModelError<Self, D>> {
        self.guard();
        let look = self.look();
        let k = self.nev;
        self.nev += 1;
        let x = self.xs();
        let before = self.memory.clone();
        let mut out = st(&self.outs, &k.to_string(), "ok").to_string();
        let (l, r) = match &self.script {
            Some(s) => {
                let evs = s["evals"].as_array().unwrap();
                if k >= evs.len() {
                    push(&self.ev, json!({"e": "overrun", "what": "eval", "x": jv(&x), "log": look}));
                    panic!("{}", OVERRUN)
                }
                out = st(&evs[k], "out", "ok").to_string();
                (nums(&evs[k]["l"]), nums(&evs[k]["r"]))
            }
            None => {
                let (l, r) = (self.formula.left(&x), self.formula.right(&x));
                match self.twists.get(k.to_string()) {
                    None => (l, r),
                    Some(t) if bo(t, "hold") => (self.l.iter().cloned().collect(), self.r.iter().cloned().collect()),
                    Some(t) if t.get("grow").is_some() => {
                        let f = num(&t["grow"]);
                        (l.iter().zip(r.iter()).map(|(a, b)| b + f * (a - b)).collect(), r)
                    }
                    Some(t) => {
                        let (i, v) = (us(t, "at", 0), num(&t["to"]));
                        ((0..self.n).map(|j| if j == i { v } else { l[j] }).collect(), r)
                    }
                }
            }
        };
        let (mut l, r) = if self.merge {
            (l.iter().zip(r.iter()).map(|(a, b)| a - b).collect::<Vec<f64>>(), vec![0.0; self.n])
        } else {
            (l, r)
        };
        if !self.memory.is_empty() {
            for v in l.iter_mut() {
                *v += self.gain * self.memory[0];
            }
            for (i, m) in self.memory.iter_mut().enumerate() {
                *m = 0.5 * *m + 0.25 * x[i % self.n] + 1.0;
            }
        }
        if out == "panic" {
            push(&self.ev, json!({"e": "crash", "x": jv(&x), "log": look}));
            panic!("{}", CRASH)
        }
        if out == "unus" && st(&self.outs, "store", "yes") == "no" {
            // the outputs are left as they were
        } else {
            self.l = vec_of(self.dim, &l);
            self.r = vec_of(self.dim, &r);
        }
        self.done = Some((bits(&x), bits(&self.memory)));
        let tag = format!("{}e{}", self.pre, k);
        push(
            &self.ev,
            json!({"e": "eval", "x": jv(&x), "l": jv(&l), "r": jv(&r), "out": out, "err": tag,
                   "mb": jv(&before), "ma": jv(&self.memory), "log": look}),
        );
        match out.as_str() {
            "inacc" => Err(ModelError::InaccurateValuesError(Inacc(tag))),
            "unus" => Err(ModelError::UnusableValuesError(Unus(tag))),
            _ => Ok(()),
        }
    }
    fn get_residuals(&self) -> ResidualsValues<D> {
        ResidualsValues::new(self.l.clone(), self.r.clone())
    }
    fn jacobian_provided(&self) -> bool {
        self.provided
    }
    fn get_jacobian(&mut self) -> Result<JacobianValues<D>, ModelError<Self, D>> {
        self.guard();
        let look = self.look();
        let k = self.njac;
        self.njac += 1;
        let x = self.xs();
        let mut out = st(&self.jouts, &k.to_string(), "ok").to_string();
        let (dl, dr) = match &self.script {
            Some(s) => {
                let js = s["jacs"].as_array().unwrap();
                if k >= js.len() {
                    push(&self.ev, json!({"e": "overrun", "what": "jac", "x": jv(&x), "log": look}));
                    panic!("{}", OVERRUN)
                }
                out = st(&js[k], "out", "ok").to_string();
                (rows(&js[k]["dl"]), rows(&js[k]["dr"]))
            }
            None => {
                let (mut a, mut b) = (self.formula.dleft(&x), self.formula.dright(&x));
                if let Some(t) = self.jtwists.get(k.to_string()) {
                    if let Some(f) = t.get("grow") {
                        for v in a.iter_mut().chain(b.iter_mut()).flatten() {
                            *v *= num(f);
                        }
                    } else {
                        // a whole row, column or matrix
                        let (row, col, v) = (us(t, "row", 99), us(t, "col", 99), num(&t["to"]));
                        for i in 0..self.n {
                            for j in 0..self.n {
                                if i == row || j == col || (row == 99 && col == 99) {
                                    a[i][j] = v;
                                    b[i][j] = 0.0;
                                }
                            }
                        }
                    }
                }
                (a, b)
            }
        };
        let (dl, dr) = if self.merge {
            let d = |a: &Vec<f64>, b: &Vec<f64>| a.iter().zip(b.iter()).map(|(u, v)| u - v).collect::<Vec<f64>>();
            (dl.iter().zip(dr.iter()).map(|(a, b)| d(a, b)).collect::<Vec<_>>(), vec![vec![0.0; self.n]; self.n])
        } else {
            (dl, dr)
        };
        if out == "panic" {
            push(&self.ev, json!({"e": "crash", "x": jv(&x), "log": look}));
            panic!("{}", CRASH)
        }
        let tag = format!("{}j{}", self.pre, k);
        push(
            &self.ev,
            json!({"e": "jac", "x": jv(&x), "dl": jrows(&dl), "dr": jrows(&dr), "out": out, "err": tag, "log": look}),
        );
        match out.as_str() {
            "inacc" => Err(ModelError::InaccurateValuesError(Inacc(tag))),
            "unus" => Err(ModelError::UnusableValuesError(Unus(tag))),
            _ => Ok(JacobianValues::new(mat_of(self.dim, &dl), mat_of(self.dim, &dr))),
        }
    }
    fn get_memory(&self) -> DVector<f64> {
        DVector::from_vec(self.memory.clone())
    }
    fn set_memory(&mut self, memory: &DVector<f64>) {
        self.memory = memory.iter().cloned().collect();
    }
}
