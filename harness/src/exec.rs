//! Executes operations on the real library and records what came back.
use crate::json::*;
use bsplines::curve::generation::{generate, Generation};
use bsplines::curve::knots::{self, DomainKnotComparatorType, Knots};
use bsplines::curve::parameters::{self, Parameters};
use bsplines::curve::points::methods::fit::{self, FitError, Penalization};
use bsplines::curve::points::methods::interpolation;
use bsplines::curve::points::{ControlPoints, DataPoints, Points};
use bsplines::curve::{Curve, CurveError};
use bsplines::manipulation::insert::InsertError;
use bsplines::manipulation::merge::{self, Constraints, MergeError};
use bsplines::manipulation::reverse;
use bsplines::manipulation::split::{split, split_and_normalize, SplitError};
use bsplines::types::{MatD, VecD, VecHelpers};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::Instant;
use J::*;

/// The call under way, for the watchdog.
pub static CURRENT: Mutex<Option<(Instant, String)>> = Mutex::new(None);

/// Runs a call of the library; None if it panicked.
pub fn call<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

pub fn mat(p: &[Vec<f64>]) -> MatD {
    let dim = p[0].len();
    MatD::from_fn(dim, p.len(), |r, c| p[c][r])
}
pub fn vecd(v: &[f64]) -> VecD {
    VecD::from_vec(v.to_vec())
}
pub fn cols(m: &MatD) -> J {
    A(m.column_iter().map(|c| A(c.iter().map(|&x| F(x)).collect())).collect())
}
fn vj(v: &VecD) -> J {
    fv(v.as_slice())
}

pub fn curve_j(c: &Curve) -> J {
    call(|| {
        let ku = c.knots.max_derivative();
        let kp = c.points.max_derivative();
        obj(vec![
            ("p", u(c.degree())),
            ("UK", A((0..=ku).map(|k| vj(c.knots.vector_derivative(k))).collect())),
            ("PK", A((0..=kp).map(|k| cols(c.points.matrix_derivative(k))).collect())),
        ])
    })
    .unwrap_or_else(|| obj(vec![("p", I(0)), ("UK", A(vec![])), ("PK", A(vec![]))]))
}

fn curve_err(e: &CurveError) -> J {
    match e {
        CurveError::ParameterOutOfBounds { u: x, lower_bound, upper_bound } => {
            obj(vec![("kind", s("ParameterOutOfBounds")), ("u", F(*x)), ("lo", F(*lower_bound)), ("hi", F(*upper_bound))])
        }
        CurveError::DegreeAndSegmentsMismatch { p, n } => {
            obj(vec![("kind", s("DegreeAndSegmentsMismatch")), ("p", u(*p)), ("n", u(*n))])
        }
        CurveError::DegreeTooLow { p, limit } => {
            obj(vec![("kind", s("DegreeTooLow")), ("p", u(*p)), ("limit", u(*limit))])
        }
        CurveError::FitError { err } => obj(vec![("kind", s("FitError")), ("err", fit_err(err))]),
        e => obj(vec![("kind", S(format!("{e:?}")))]),
    }
}
fn fit_err(e: &FitError) -> J {
    match e {
        FitError::NegativeLambda { lambda } => obj(vec![("kind", s("NegativeLambda")), ("lambda", F(*lambda))]),
        FitError::RequestedPolynomialSegmentAndDataSegementMismatch { n, m } => {
            obj(vec![("kind", s("RequestedPolynomialSegmentAndDataSegementMismatch")), ("n", u(*n)), ("m", u(*m))])
        }
        FitError::RequestedPolynomialSegmentAndSplineDegreeMismatch { n, p } => {
            obj(vec![("kind", s("RequestedPolynomialSegmentAndSplineDegreeMismatch")), ("n", u(*n)), ("p", u(*p))])
        }
        FitError::RequestedPolynomialSegmentAndPenalizationKappaMismatch { n, kappa } => obj(vec![
            ("kind", s("RequestedPolynomialSegmentAndPenalizationKappaMismatch")),
            ("n", u(*n)),
            ("kappa", u(*kappa)),
        ]),
        FitError::DataSegmentsAndParameterSegmentsMismatch { m, mp } => {
            obj(vec![("kind", s("DataSegmentsAndParameterSegmentsMismatch")), ("m", u(*m)), ("mp", u(*mp))])
        }
        FitError::NonUniformKnots => obj(vec![("kind", s("NonUniformKnots"))]),
    }
}
fn insert_err(e: &InsertError) -> J {
    match e {
        InsertError::OutOfBounds { u: x, lower_bound, upper_bound } => {
            obj(vec![("kind", s("OutOfBounds")), ("u", F(*x)), ("lo", F(*lower_bound)), ("hi", F(*upper_bound))])
        }
        InsertError::MultiplicityError { u: x, m, p } => {
            obj(vec![("kind", s("MultiplicityError")), ("u", F(*x)), ("m", u(*m)), ("p", u(*p))])
        }
    }
}
fn split_err(e: &SplitError) -> J {
    match e {
        SplitError::OutOfBounds { u: x, lower_bound, upper_bound } => {
            obj(vec![("kind", s("OutOfBounds")), ("u", F(*x)), ("lo", F(*lower_bound)), ("hi", F(*upper_bound))])
        }
        SplitError::MultiplicityTooHigh { u: x, p, multiplicity } => {
            obj(vec![("kind", s("MultiplicityTooHigh")), ("u", F(*x)), ("p", u(*p)), ("m", u(*multiplicity))])
        }
        SplitError::CurveError(e) => obj(vec![("kind", s("CurveError")), ("err", curve_err(e))]),
    }
}
fn merge_err(e: &MergeError) -> J {
    match e {
        MergeError::DegreeMismatch { left, right } => {
            obj(vec![("kind", s("DegreeMismatch")), ("left", u(*left)), ("right", u(*right))])
        }
        MergeError::DimensionMismatch { left, right } => {
            obj(vec![("kind", s("DimensionMismatch")), ("left", u(*left)), ("right", u(*right))])
        }
        MergeError::UnclampedCurve => obj(vec![("kind", s("UnclampedCurve"))]),
        MergeError::UnnormedCurve => obj(vec![("kind", s("UnnormedCurve"))]),
        MergeError::TooManyConstraints { totalConstraints, degree } => {
            obj(vec![("kind", s("TooManyConstraints")), ("total", u(*totalConstraints)), ("degree", u(*degree))])
        }
        MergeError::CurveGenerationFailure { err } => {
            obj(vec![("kind", s("CurveGenerationFailure")), ("err", curve_err(err))])
        }
    }
}

fn cmp(x: &str) -> DomainKnotComparatorType {
    match x {
        "Left" => DomainKnotComparatorType::Left,
        "LeftOrEqual" => DomainKnotComparatorType::LeftOrEqual,
        "RightOrEqual" => DomainKnotComparatorType::RightOrEqual,
        _ => DomainKnotComparatorType::Right,
    }
}
fn knot_method(x: &str) -> knots::Method {
    match x {
        "uniform" => knots::Method::Uniform,
        "averaging" => knots::Method::Averaging,
        _ => knots::Method::DeBoor,
    }
}
fn param_method(x: &str) -> parameters::Method {
    match x {
        "equal" => parameters::Method::EquallySpaced,
        "chord" => parameters::Method::ChordLength,
        _ => parameters::Method::Centripetal,
    }
}
fn pen(x: &J) -> Option<Penalization> {
    let v = x.arr();
    (!v.is_empty()).then(|| Penalization { lambda: v[0].f(), kappa: v[1].us() })
}
fn pen_j(x: &J) -> J {
    let v = x.arr();
    A(if v.is_empty() { vec![] } else { vec![F(v[0].f()), I(v[1].int())] })
}
fn fit_method(fixed: bool) -> fit::Method {
    if fixed {
        fit::Method::FixedEnds
    } else {
        fit::Method::LooseEnds
    }
}

#[derive(Default, Clone)]
pub struct Machine {
    pub slots: BTreeMap<i64, Curve>,
    pub log: Vec<J>,
}

fn result<T, E>(e: &mut J, r: Option<Result<T, E>>, f: impl Fn(&E) -> J) -> Option<T> {
    match r {
        None => {
            e.set("res", s("panic"));
            None
        }
        Some(Err(x)) => {
            e.set("res", s("err"));
            e.set("err", f(&x));
            None
        }
        Some(Ok(x)) => {
            e.set("res", s("ok"));
            Some(x)
        }
    }
}
fn returned<T>(e: &mut J, r: Option<T>) -> Option<T> {
    e.set("res", s(if r.is_some() { "ok" } else { "panic" }));
    r
}

impl Machine {
    fn post(&self, e: &mut J, ss: &[i64]) {
        let mut done = vec![];
        let mut v = vec![];
        for &x in ss {
            if !done.contains(&x) {
                done.push(x);
                if let Some(c) = self.slots.get(&x) {
                    v.push(obj(vec![("s", I(x)), ("c", curve_j(c))]));
                }
            }
        }
        e.set("post", A(v));
    }

    /// Executes the operation `o`, records the event.
    pub fn run(&mut self, o: J) -> &J {
        *CURRENT.lock().unwrap() = Some((Instant::now(), o.to_string()));
        let e = self.exec(o);
        *CURRENT.lock().unwrap() = None;
        self.log.push(e);
        self.log.last().unwrap()
    }

    pub fn ok(&self) -> bool {
        self.log.last().map_or(false, |e| e.get("res") == Some(&s("ok")))
    }

    fn exec(&mut self, mut o: J) -> J {
        let op = o.at("op").str().to_string();
        // The library never takes a register that does not exist (an earlier call failed).
        for k in ["s", "a", "b"] {
            if !["new", "manual", "interp", "lsq"].contains(&op.as_str()) {
                if let Some(I(x)) = o.get(k) {
                    if !self.slots.contains_key(x) {
                        return obj(vec![("op", s("nop")), ("was", s(&op))]);
                    }
                }
            }
        }
        // which of several equal ways of calling is taken
        let way = turn(&o);
        match op.as_str() {
            "new" => {
                let (sl, p, kn, pt) = (o.at("s").int(), o.at("p").us(), o.at("U").fs(), o.at("P").fss());
                let r = call(|| Curve::new(Knots::new(p, vecd(&kn)), ControlPoints::new(mat(&pt))));
                o.set("U", fv(&kn));
                o.set("P", fvv(&pt));
                if let Some(c) = result(&mut o, r, curve_err) {
                    self.slots.insert(sl, c);
                } else {
                    self.slots.remove(&sl);
                }
                self.post(&mut o, &[sl]);
            }
            "manual" => {
                let (sl, p, pt) = (o.at("s").int(), o.at("p").us(), o.at("P").fss());
                let km = o.at("km").str().to_string();
                let pm = o.at("pm").str().to_string();
                o.set("P", fvv(&pt));
                let g = match km.as_str() {
                    "manual" => {
                        let kn = o.at("U").fs();
                        o.set("U", fv(&kn));
                        match call(|| Knots::new(p, vecd(&kn))) {
                            Some(k) => knots::Generation::Manual { knots: k },
                            None => knots::Generation::Uniform,
                        }
                    }
                    "uniform" if pm == "none" => knots::Generation::Uniform,
                    m => {
                        knots::Generation::Method { parameter_method: param_method(&pm), knot_method: knot_method(m) }
                    }
                };
                let t = if pm == "none" {
                    vec![]
                } else {
                    call(|| parameters::generate(&DataPoints::new(mat(&pt)), param_method(&pm)).vector().as_slice().to_vec())
                        .unwrap_or_default()
                };
                o.set("t", fv(&t));
                let r = call(|| generate(Generation::Manual { degree: p, points: ControlPoints::new(mat(&pt)), knots: g }));
                if let Some(c) = result(&mut o, r, curve_err) {
                    self.slots.insert(sl, c);
                } else {
                    self.slots.remove(&sl);
                }
                self.post(&mut o, &[sl]);
            }
            "interp" => {
                let (sl, p, q) = (o.at("s").int(), o.at("p").us(), o.at("Q").fss());
                o.set("Q", fvv(&q));
                let d = DataPoints::new(mat(&q));
                let r = call(|| generate(Generation::Interpolation { degree: p, points: &d }));
                if let Some(c) = result(&mut o, r, curve_err) {
                    self.slots.insert(sl, c);
                } else {
                    self.slots.remove(&sl);
                }
                self.post(&mut o, &[sl]);
            }
            "lsq" => {
                let (sl, p, q) = (o.at("s").int(), o.at("p").us(), o.at("Q").fss());
                let (n, fixed) = (o.at("n").us(), o.at("fixed").bool());
                o.set("Q", fvv(&q));
                let pe = pen_j(o.at("pen"));
                let d = DataPoints::new(mat(&q));
                let r = call(|| {
                    generate(Generation::LeastSquaresFit {
                        degree: p,
                        points: &d,
                        intended_segments: n,
                        method: fit_method(fixed),
                        penalization: pen(&pe),
                    })
                });
                o.set("pen", pe);
                if let Some(c) = result(&mut o, r, curve_err) {
                    self.slots.insert(sl, c);
                } else {
                    self.slots.remove(&sl);
                }
                self.post(&mut o, &[sl]);
            }
            "fit" | "interpolate" => {
                let (p, kn, t, q) = (o.at("p").us(), o.at("U").fs(), o.at("t").fs(), o.at("Q").fss());
                o.set("Q", fvv(&q));
                o.set("U", fv(&kn));
                o.set("t", fv(&t));
                let d = DataPoints::new(mat(&q));
                let m = if op == "fit" {
                    let mp = o.at("mp").us();
                    let fixed = o.at("fixed").bool();
                    let pe = pen_j(o.at("pen"));
                    let r = call(|| {
                        let k = Knots::new(p, vecd(&kn));
                        let par = Parameters::new(vecd(&t), mp);
                        if fixed {
                            fit::fixed::fit(&k, &d, &par, pen(&pe))
                        } else {
                            fit::loose::fit(&k, &d, &par, pen(&pe))
                        }
                    });
                    o.set("pen", pe);
                    result(&mut o, r, fit_err)
                } else {
                    let r = call(|| {
                        let k = Knots::new(p, vecd(&kn));
                        let par = Parameters::new(vecd(&t), t.len() - 1);
                        interpolation::interpolate(&k, &d, &par)
                    });
                    returned(&mut o, r)
                };
                if let Some(m) = m {
                    o.set("P", cols(&m));
                }
            }
            "eval" => {
                let c = &self.slots[&o.at("s").int()];
                let mut qs = vec![];
                for (i, q) in o.at("qs").arr().iter().enumerate() {
                    let (x, k) = (q.at("u").f(), q.at("k").us());
                    let mut e = obj(vec![("u", F(x)), ("k", u(k))]);
                    let r = call(|| if k == 0 && (way + i) % 2 == 0 { c.evaluate(x) } else { c.evaluate_derivative(x, k) });
                    if let Some(v) = result(&mut e, r, curve_err) {
                        e.set("v", vj(&v));
                    }
                    qs.push(e);
                }
                o.set("qs", A(qs));
            }
            "basis" => {
                let (p, kn) = (o.at("p").us(), o.at("U").fs());
                let k0 = call(|| Knots::new(p, vecd(&kn)));
                let mut qs = vec![];
                for q in o.at("qs").arr() {
                    let (x, k) = (q.at("u").f(), q.at("k").us());
                    let mut e = obj(vec![("u", F(x)), ("k", u(k))]);
                    let r = k0.as_ref().and_then(|kn| {
                        call(|| {
                            let n = kn.segments();
                            (0..=n - k).map(|i| kn.evaluate(k, i, p, x)).collect::<Vec<f64>>()
                        })
                    });
                    if let Some(v) = returned(&mut e, r) {
                        e.set("vs", fv(&v));
                    }
                    qs.push(e);
                }
                o.set("U", fv(&kn));
                o.set("qs", A(qs));
            }
            "find" => {
                // knots of their own, or those of a curve
                let k0 = match o.get("s") {
                    Some(x) => {
                        let k = self.slots[&x.int()].knots.clone();
                        o.set("p", u(k.degree()));
                        o.set("U", vj(k.vector()));
                        None
                    }
                    None => call(|| Knots::new(o.at("p").us(), vecd(&o.at("U").fs()))),
                };
                let k0 = match o.get("s") {
                    Some(x) => Some(&self.slots[&x.int()].knots),
                    None => k0.as_ref(),
                };
                let kn = o.at("U").fs();
                let mut qs = vec![];
                for q in o.at("qs").arr() {
                    let (x, k, c) = (q.at("u").f(), q.at("k").us(), q.at("cmp").str().to_string());
                    let mut e = obj(vec![("u", F(x)), ("k", u(k)), ("cmp", s(&c))]);
                    let r = k0.and_then(|kn| call(|| kn.find_idx(x, k, cmp(&c))));
                    let idx = returned(&mut e, r);
                    e.set("idx", I(idx.map_or(-1, |x| x as i64)));
                    qs.push(e);
                }
                o.set("U", fv(&kn));
                o.set("qs", A(qs));
            }
            "insert" => {
                let (sl, x, t) = (o.at("s").int(), o.at("u").f(), o.at("x").us());
                o.set("u", F(x));
                let c = self.slots.get_mut(&sl).unwrap();
                let api = o.get("api").map_or("times".to_string(), |a| a.str().to_string());
                let r = call(|| {
                    if t == 1 && api == "insert" {
                        c.insert(x).map(|_| ())
                    } else if t == 1 && api == "fn" {
                        bsplines::manipulation::insert::insert(c, x)
                    } else {
                        c.insert_times(x, t).map(|_| ())
                    }
                });
                result(&mut o, r, insert_err);
                self.post(&mut o, &[sl]);
            }
            "split" => {
                let (sl, l, r_, x) = (o.at("s").int(), o.at("l").int(), o.at("r").int(), o.at("u").f());
                let (nl, nr) = (o.at("nl").bool(), o.at("nr").bool());
                o.set("u", F(x));
                let src = self.slots[&sl].clone();
                let r = call(|| {
                    if nl && nr && way % 3 == 0 {
                        src.split(x)
                    } else if nl && nr && way % 3 == 1 {
                        split(&src, x)
                    } else {
                        split_and_normalize(&src, x, (nl, nr))
                    }
                });
                self.slots.insert(sl, src);
                let mut ss = vec![sl];
                if let Some((a, b)) = result(&mut o, r, split_err) {
                    self.slots.insert(l, a);
                    self.slots.insert(r_, b);
                    ss.extend([l, r_]);
                }
                self.post(&mut o, &ss);
            }
            "reverse" => {
                let (sl, d) = (o.at("s").int(), o.at("d").int());
                let api = o.get("api").map_or("method".to_string(), |a| a.str().to_string());
                if sl == d {
                    let c = self.slots.get_mut(&sl).unwrap();
                    let r = call(|| {
                        if api == "fn" {
                            reverse::reverse(c);
                        } else {
                            c.reverse();
                        }
                    });
                    returned(&mut o, r);
                } else {
                    let c = &self.slots[&sl];
                    let r = call(|| reverse::reversed(c));
                    if let Some(c) = returned(&mut o, r) {
                        self.slots.insert(d, c);
                    }
                }
                let ss: Vec<i64> = if self.ok_of(&o) { vec![sl, d] } else { vec![sl] };
                self.post(&mut o, &ss);
            }
            "deriv" => {
                let (sl, d, k) = (o.at("s").int(), o.at("d").int(), o.at("k").us());
                let c = &self.slots[&sl];
                let r = call(|| c.get_derivative_curve(k));
                let mut ss = vec![sl];
                if let Some(x) = returned(&mut o, r) {
                    self.slots.insert(d, x);
                    ss.push(d);
                }
                self.post(&mut o, &ss);
            }
            "merge" => {
                let (a, b, d) = (o.at("a").int(), o.at("b").int(), o.at("d").int());
                let api = o.at("api").str().to_string();
                let (ca, cb) = match api.as_str() {
                    "merge_from" => (vec![1.0], vec![]),
                    "merge_to" => (vec![], vec![0.0]),
                    _ => (o.at("ca").fs(), o.at("cb").fs()),
                };
                o.set("ca", fv(&ca));
                o.set("cb", fv(&cb));
                let (x, y) = (self.slots[&a].clone(), self.slots[&b].clone());
                let con = |v: &Vec<f64>| Constraints { params: v.clone() };
                let (mut xs, mut ys) = (x.clone(), y.clone());
                let r = call(|| match api.as_str() {
                    "merge" => merge::merge(&xs, &ys),
                    "merge_from" => merge::merge_from(&xs, &ys),
                    "merge_to" => merge::merge_to(&xs, &ys),
                    "append" => {
                        xs.append(&ys);
                        Ok(xs.clone())
                    }
                    "append_c" => {
                        xs.append_constrained(con(&ca), &ys, con(&cb));
                        Ok(xs.clone())
                    }
                    "prepend" => {
                        ys.prepend(&xs);
                        Ok(ys.clone())
                    }
                    _ => {
                        ys.prepend_constrained(con(&cb), &xs, con(&ca));
                        Ok(ys.clone())
                    }
                });
                // what the call left of its arguments
                if !api.starts_with("append") || r.is_none() {
                    self.slots.insert(a, xs);
                }
                if (!api.starts_with("prepend") || r.is_none()) && a != b {
                    self.slots.insert(b, ys);
                }
                let mut ss = vec![];
                if let Some(c) = result(&mut o, r, merge_err) {
                    self.slots.insert(d, c);
                }
                ss.extend([d, a, b]);
                self.post(&mut o, &ss);
            }
            "params" => {
                let q = o.at("Q").fss();
                let m = o.at("method").str().to_string();
                o.set("Q", fvv(&q));
                let d = DataPoints::new(mat(&q));
                let r = call(|| parameters::generate(&d, param_method(&m)));
                if let Some(t) = returned(&mut o, r) {
                    o.set("t", vj(t.vector()));
                    o.set("segs", u(t.segments()));
                }
            }
            "knotgen" => {
                let (p, n, t) = (o.at("p").us(), o.at("n").us(), o.at("t").fs());
                let m = o.at("method").str().to_string();
                o.set("t", fv(&t));
                let r = call(|| {
                    let par = Parameters::new(vecd(&t), t.len() - 1);
                    if way % 2 == 0 {
                        return knots::generate(p, n, &par, knot_method(&m));
                    }
                    match m.as_str() {
                        "uniform" => knots::methods::uniform(p, n),
                        "averaging" => knots::methods::averaging(p, n, &par),
                        _ => knots::methods::de_boor(p, n, &par),
                    }
                });
                if let Some(k) = result(&mut o, r, curve_err) {
                    o.set("pout", u(k.degree()));
                    o.set("UK", A((0..=k.max_derivative()).map(|j| vj(k.vector_derivative(j))).collect()));
                }
            }
            "kq" => {
                let (p, kn, us) = (o.at("p").us(), o.at("U").fs(), o.at("us").fs());
                o.set("U", fv(&kn));
                let r = call(|| {
                    let k = Knots::new(p, vecd(&kn));
                    let mut v = vec![
                        ("deg", u(k.degree())),
                        ("seg", u(k.segments())),
                        ("maxd", u(k.max_derivative())),
                        ("inner_count", u(k.internal_count())),
                        ("domain_count", u(k.domain_count())),
                        ("segs", A((0..=p).map(|j| u(k.segments_derivative(j))).collect())),
                        ("lens", A((0..=p).map(|j| u(k.len(j))).collect())),
                        ("inner", A(k.internal().iter().map(|&x| F(x)).collect())),
                        ("inner_at", A((0..k.internal_count()).map(|i| F(k.internal_knot(i))).collect())),
                        ("domain_at", A((0..k.domain_count()).map(|i| F(k.domain_knot(i))).collect())),
                        (
                            "domains",
                            A((0..=p).map(|j| A(k.domain_derivative(j).iter().map(|&x| F(x)).collect())).collect()),
                        ),
                        (
                            "mults",
                            A(us.iter().map(|&x| obj(vec![("u", F(x)), ("m", u(k.multiplicity(x)))])).collect()),
                        ),
                        ("sorted", B(knots::is_sorted(&k))),
                        ("clamped", B(knots::is_clamped(&k))),
                        ("normed", B(knots::is_normed(&k))),
                    ];
                    if us.len() % 2 == 0 {
                        v[6] = ("lens", A((0..=p).map(|j| u(k.vector_derivative(j).len())).collect()));
                        v[10] = (
                            "domains",
                            A((0..=p)
                                .map(|j| A(if j == 0 { k.domain() } else { k.domain_derivative(j) }.iter().map(|&x| F(x)).collect()))
                                .collect()),
                        );
                    }
                    let un = match knots::is_uniform(&k) {
                        Ok(true) => "yes",
                        Ok(false) => "no",
                        Err(_) => "err",
                    };
                    v.push(("uniform", s(un)));
                    // what the library itself generates for these numbers
                    let own = kn.len() >= 2 * p + 2
                        && matches!(knots::methods::uniform(p, k.segments()), Ok(x) if x.vector().as_slice() == &kn[..]);
                    v.push(("own", B(own)));
                    v
                });
                if let Some(v) = returned(&mut o, r) {
                    for (k, x) in v {
                        o.set(k, x);
                    }
                }
            }
            "kmap" => {
                let (p, kn) = (o.at("p").us(), o.at("U").fs());
                o.set("U", fv(&kn));
                let kind = o.at("kind").str().to_string();
                let (a, b) = (o.at("old").fs(), o.at("new").fs());
                let r = call(|| {
                    let mut k = Knots::new(p, vecd(&kn));
                    if kind == "normalize" {
                        k.normalize();
                    } else {
                        k.rescale((a[0], a[1]), (b[0], b[1]));
                    }
                    let uk = A((0..=p).map(|j| vj(k.vector_derivative(j))).collect());
                    // the same for a bare vector of knots
                    let mut bare = vecd(&kn);
                    let copy = bsplines::curve::knots::normalized(&mut bare);
                    let kept = bare == vecd(&kn);
                    bsplines::curve::knots::normalize(&mut bare);
                    (uk, vj(&copy), vj(&bare), kept)
                });
                if let Some((v, copy, bare, kept)) = returned(&mut o, r) {
                    o.set("UK", v);
                    o.set("copy", copy);
                    o.set("bare", bare);
                    o.set("kept", B(kept));
                }
            }
            "edit" => {
                let sl = o.at("s").int();
                let kn = o.get("U").map(|x| x.fs());
                let pt = o.get("P").map(|x| x.fss());
                let (api, times) = (o.at("api").str().to_string(), o.at("times").us());
                if let Some(k) = &kn {
                    o.set("U", fv(k));
                }
                if let Some(p) = &pt {
                    o.set("P", fvv(p));
                }
                let c = self.slots.get_mut(&sl).unwrap();
                let r = call(|| {
                    if let Some(k) = &kn {
                        if api == "whole" {
                            *c.knots.vector_mut() = vecd(k);
                        } else {
                            for (i, x) in k.iter().enumerate() {
                                c.knots.vector_derivative_mut(0)[i] = *x;
                            }
                        }
                    }
                    if let Some(p) = &pt {
                        if api == "whole" {
                            *c.points.matrix_mut() = mat(p);
                        } else {
                            for (i, x) in p.iter().enumerate() {
                                c.points.get_mut(i).copy_from(&vecd(x));
                            }
                        }
                    }
                    for _ in 0..times {
                        c.knots.derive();
                        c.points.derive(&c.knots);
                    }
                });
                returned(&mut o, r);
                self.post(&mut o, &[sl]);
            }
            "rebuild" => {
                let (a, b, d) = (o.at("a").int(), o.at("b").int(), o.at("d").int());
                let api = o.at("api").str().to_string();
                let (x, y) = (&self.slots[&a], &self.slots[&b]);
                let r = call(|| {
                    let (k, p) = (x.knots.clone(), y.points.clone());
                    if api == "new" {
                        Curve::new(k, p)
                    } else {
                        generate(Generation::Manual { degree: x.degree(), points: p, knots: knots::Generation::Manual { knots: k } })
                    }
                });
                let mut ss = vec![];
                if let Some(c) = result(&mut o, r, curve_err) {
                    self.slots.insert(d, c);
                    ss.push(d);
                }
                ss.extend([a, b]);
                self.post(&mut o, &ss);
            }
            "cq" => {
                let c = &self.slots[&o.at("s").int()];
                let r = call(|| {
                    let p = c.degree();
                    vec![
                        ("deg", u(p)),
                        ("seg", u(c.segments())),
                        ("dim", u(c.dimension())),
                        ("maxd", u(c.max_derivative())),
                        ("kmax", u(c.knots.max_derivative())),
                        ("pmax", u(c.points.max_derivative())),
                        ("count", u(c.points.count())),
                        ("pseg", u(c.points.segments())),
                        ("kseg", u(c.knots.segments())),
                        ("pdim", u(c.points.dimension())),
                        ("empty", B(c.points.is_empty())),
                        ("counts", A((0..=p).map(|k| u(c.points.count_derivative(k))).collect())),
                        ("pts", A((0..c.points.count()).map(|i| A(c.points.get(i).iter().map(|&x| F(x)).collect())).collect())),
                    ]
                });
                if let Some(v) = returned(&mut o, r) {
                    for (k, x) in v {
                        o.set(k, x);
                    }
                }
            }
            "pq" => {
                let q = o.at("Q").fss();
                let kind = o.at("kind").str().to_string();
                let (i, n) = (o.at("i").us(), o.at("n").us());
                o.set("Q", fvv(&q));
                let r = call(|| {
                    let read = |p: &dyn Points| -> Vec<(&'static str, J)> {
                        vec![
                            ("dim", u(p.dimension())),
                            ("count", u(p.count())),
                            ("empty", B(p.is_empty())),
                            ("pts", A((0..p.count()).map(|i| A(p.get(i).iter().map(|&x| F(x)).collect())).collect())),
                            ("mat", cols(p.matrix())),
                        ]
                    };
                    let mut v;
                    // a set of as many dimensions without points
                    let none = MatD::zeros(q[0].len(), 0);
                    let none: Box<dyn Points> =
                        if kind == "data" { Box::new(DataPoints::new(none)) } else { Box::new(ControlPoints::new(none)) };
                    let none = vec![("nodim", u(none.dimension())), ("nocount", u(none.count())), ("noempty", B(none.is_empty()))];
                    if kind == "data" {
                        let mut d = DataPoints::new(mat(&q));
                        v = read(&d);
                        v.push(("seg", u(d.segments())));
                        d.reverse();
                        v.push(("rev", cols(d.matrix())));
                        d.get_mut(i).fill(0.5);
                        v.push(("put", cols(d.matrix())));
                    } else {
                        let mut d = if kind == "control" {
                            ControlPoints::new(mat(&q))
                        } else {
                            ControlPoints::new_with_capacity(mat(&q), n)
                        };
                        v = read(&d);
                        v.push(("seg", u(d.segments())));
                        d.reverse();
                        v.push(("rev", cols(d.matrix())));
                        d.get_mut(i).fill(0.5);
                        v.push(("put", cols(d.matrix())));
                    }
                    v.extend(none);
                    let x = VecD::from_vec(q.iter().map(|x| x[0]).collect());
                    let l = |m: bsplines::types::VecDView| A(m.iter().map(|&x| F(x)).collect());
                    v.push(("head", l(x.head(n))));
                    v.push(("tail", l(x.tail(n))));
                    v.push(("mid", l(VecHelpers::segment(&x, i, q.len() - i))));
                    let mut y = x.clone();
                    VecHelpers::head_mut(&mut y, n).fill(0.5);
                    v.push(("headmut", vj(&y)));
                    y = x.clone();
                    VecHelpers::tail_mut(&mut y, n).fill(0.5);
                    v.push(("tailmut", vj(&y)));
                    y = x.clone();
                    VecHelpers::segment_mut(&mut y, i, 1).fill(0.5);
                    v.push(("midmut", vj(&y)));
                    let p = Parameters::new(x.clone(), n);
                    v.push(("par", vj(p.vector())));
                    v.push(("parseg", u(p.segments())));
                    let c = Constraints { params: x.as_slice().to_vec() };
                    v.push(("con", u(c.count())));
                    v.push(("conseg", u(c.segments())));
                    v
                });
                if let Some(v) = returned(&mut o, r) {
                    for (k, x) in v {
                        o.set(k, x);
                    }
                }
            }
            "nop" => {}
            x => panic!("unknown operation {x}"),
        }
        o
    }

    fn ok_of(&self, o: &J) -> bool {
        o.get("res") == Some(&s("ok"))
    }
}

#[allow(dead_code)]
pub fn points_of(c: &Curve) -> Vec<Vec<f64>> {
    c.points.matrix().column_iter().map(|x| x.iter().cloned().collect()).collect()
}

/// A number that depends on nothing but the operation
fn turn(o: &J) -> usize {
    let h = format!("{o}").bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
    (h >> 20) as usize % 1_000_003
}
