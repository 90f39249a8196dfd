//! Random sessions per property.
use crate::exec::{call, Machine};
use crate::json::*;
use crate::rng::Rng;
use bsplines::curve::points::Points;
use bsplines::curve::knots::methods;
use J::*;

type R<'a> = &'a Rng;

// ---------------------------------------------------------------- inputs ----

pub fn up(x: f64) -> f64 {
    if x == 0.0 {
        f64::from_bits(1)
    } else if x > 0.0 {
        f64::from_bits(x.to_bits() + 1)
    } else {
        f64::from_bits(x.to_bits() - 1)
    }
}
pub fn down(x: f64) -> f64 {
    -up(-x)
}

fn uniform(p: usize, n: usize) -> Vec<f64> {
    if p > 0 {
        if let Some(Ok(k)) = call(|| methods::uniform(p, n)) {
            return k.vector().as_slice().to_vec();
        }
    }
    let mut v = vec![0.0; p + 1];
    v.extend((1..=n - p).map(|j| j as f64 / (n - p + 1) as f64));
    v.extend(vec![1.0; p + 1]);
    v
}

/// n-p inner knots; `gap`: smallest distance of different knots
fn knots(r: R, p: usize, n: usize, maxmult: usize, gap: f64) -> Vec<f64> {
    let k = n - p;
    if k == 0 || r.one_in(6) {
        return uniform(p, n);
    }
    if k > 24 {
        // many knots: a grid, shaken, some of them repeated
        let h = 1.0 / (k + 1) as f64;
        let mut v: Vec<f64> = (1..=k).map(|j| h * (j as f64 + 0.7 * (r.unit() - 0.5))).collect();
        for _ in 0..r.below(6) {
            let (i, c) = (r.below(k), r.range(1, maxmult));
            let x = v[i];
            v.iter_mut().skip(i).take(c).for_each(|y| *y = x);
        }
        if v.iter().all(|x| v.iter().filter(|y| *y == x).count() <= maxmult) {
            let mut u = vec![0.0; p + 1];
            u.extend(v);
            u.extend(vec![1.0; p + 1]);
            return u;
        }
        return uniform(p, n);
    }
    let mut v: Vec<f64>;
    let style = r.below(if gap < 1e-5 { 7 } else { 5 });
    // a cluster of knots that are all but equal
    let close = gap.max(10f64.powi(-(r.range(5, 15) as i32)));
    loop {
        let g = r.pick(&[2usize, 3, 4, 5, 6, 7, 8, 10, 16]);
        let c = r.unit();
        let pool = r.range(1, 4);
        let w: Vec<f64> = (0..pool).map(|_| r.unit()).collect();
        v = (0..k)
            .map(|_| match style {
                0 => r.range(1, g - 1) as f64 / g as f64,
                1 => r.unit(),
                2 => r.full(),
                3 => c + (r.below(9) as f64 - 4.0) * gap.max(1e-4),
                5 => c + (r.below(9) as f64 - 4.0) * close,
                6 => if r.one_in(3) { r.unit() } else { c + r.below(3) as f64 * close },
                _ => r.pick(&w),
            })
            .collect();
        if r.one_in(10) {
            // a short span at an end
            let e = gap.max(1e-9) * (1.0 + 2.0 * r.unit());
            if r.one_in(2) { v[0] = e } else { v[0] = 1.0 - e }
        }
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let mut all = vec![0.0];
        all.extend(&v);
        all.push(1.0);
        let good = v[0] > 0.0
            && v[k - 1] < 1.0
            && all.windows(2).all(|x| x[0] == x[1] || x[1] - x[0] >= gap)
            && v.iter().all(|x| v.iter().filter(|y| *y == x).count() <= maxmult);
        if good {
            break;
        }
        if r.one_in(400) {
            return uniform(p, n);
        }
    }
    let mut u = vec![0.0; p + 1];
    u.extend(v);
    u.extend(vec![1.0; p + 1]);
    u
}

fn magnitude(r: R) -> f64 {
    r.pick(&[1.0, 1e-12, 1e-9, 1e-7, 1e-4, 1e4, 1e7, 1e10]) * r.pick(&[1.0, -1.0, 3.0, 0.7])
}

fn points(r: R, count: usize, dim: usize) -> Vec<Vec<f64>> {
    let style = r.below(8);
    let off: Vec<f64> = (0..dim).map(|_| r.pick(&[0.0, 1.0, -3.0, 100.0, 1e4])).collect();
    let mut v: Vec<Vec<f64>> = (0..count)
        .map(|i| {
            (0..dim)
                .map(|d| match style {
                    0 | 1 => r.below(21) as f64 - 10.0,
                    2 => (r.unit() - 0.5) * 8.0,
                    3 => (r.full() - 0.5) * 2.0,
                    4 => off[d] + r.unit(),
                    5 => (if (i + d) % 2 == 0 { 1.0 } else { -1.0 }) * (1.0 + i as f64),
                    6 => if i % dim.max(2) == d { 1.0 + r.below(3) as f64 } else { 0.0 },
                    _ => r.pick(&[1e-3, 1.0, 1e3]) * (r.below(17) as f64 - 8.0) / 8.0,
                })
                .collect()
        })
        .collect();
    if r.one_in(6) {
        // very large or very small coordinates
        let f: Vec<f64> = (0..dim).map(|_| magnitude(r)).collect();
        v.iter_mut().for_each(|x| (0..dim).for_each(|d| x[d] *= f[d]));
    }
    if r.one_in(12) {
        let c = v[0].clone();
        v.iter_mut().for_each(|x| *x = c.clone());
    }
    if count > 1 && r.one_in(8) {
        let i = r.below(count - 1);
        v[i + 1] = v[i].clone();
    }
    if count > 1 && r.one_in(6) {
        // data that a shortcut might look for
        let (i, j) = (r.below(count), r.below(count));
        let (i, j) = (i.min(j), i.max(j));
        match r.below(9) {
            // a run of equal, evenly spaced or quadratic points
            0 => (i..=j).for_each(|g| v[g] = v[i].clone()),
            1 | 2 => {
                let q = r.below(3) as f64;
                let (a, b) = (v[i].clone(), v[j].iter().map(|x| x.round()).collect::<Vec<_>>());
                (i..=j).for_each(|g| {
                    let t = (g - i) as f64;
                    v[g] = (0..dim).map(|d| a[d].round() + b[d] * t + q * t * t).collect()
                })
            }
            // nothing but a few points
            3 => (0..count).filter(|&g| g != i && g != j).for_each(|g| v[g] = vec![0.0; dim]),
            4 => (i..=j).for_each(|g| v[g] = vec![0.0; dim]),
            // symmetric, antisymmetric, closed
            5 => (0..count / 2).for_each(|g| v[count - 1 - g] = v[g].clone()),
            6 => (0..count / 2).for_each(|g| v[count - 1 - g] = v[g].iter().map(|x| -x).collect()),
            7 => v[count - 1] = v[0].clone(),
            // flat in one coordinate
            _ => {
                let d = r.below(dim);
                let x = v[i][d];
                v.iter_mut().for_each(|y| y[d] = x)
            }
        }
    }
    v
}

fn shape(r: R, small: bool) -> (usize, usize, usize) {
    let p = r.pick(if small { &[1, 1, 2, 2, 2, 3, 3, 3, 4] } else { &[1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6] });
    let n = p + r.pick(if small { &[0, 1, 1, 2, 2, 3, 3, 4, 5] } else { &[0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 9] });
    let (p, n) = if r.one_in(30) {
        // steps
        (0, r.pick(&[0, 1, 2, 3, 5]))
    } else if r.one_in(25) {
        // high degrees, many segments
        if small { (r.pick(&[5, 6]), 0) } else { (r.pick(&[2, 3, 7, 8, 9, 11, 13, 14]), r.pick(&[0, 1, 2, 14, 22])) }
    } else if !small && r.one_in(40) {
        (r.pick(&[1, 2, 3, 3, 4]), r.pick(&[30, 45, 64, 70, 130]))
    } else {
        (p, n - p)
    };
    (p, p + n, if r.one_in(40) { r.pick(&[9, 12, 17, 33]) } else { r.pick(&[1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 8]) })
}

fn new_op(s: i64, p: usize, kn: &[f64], pt: &[Vec<f64>]) -> J {
    obj(vec![("op", self::s("new")), ("s", I(s)), ("p", u(p)), ("U", fv(kn)), ("P", fvv(pt))])
}
use crate::json::s;

/// A fresh curve in register sl; knots at least `gap` apart
fn fresh(m: &mut Machine, r: R, sl: i64, small: bool, gap: f64) -> (usize, usize, usize) {
    let (p, n, dim) = shape(r, small);
    let top = if r.one_in(4) { p + 1 } else { p.max(1) };
    let kn = knots(r, p, n, top, gap);
    // also on a part of the unit interval, as a split leaves it
    let kn = if r.one_in(8) { part(r, &kn) } else { kn };
    let pt = points(r, n + 1, dim);
    m.run(new_op(sl, p, &kn, &pt));
    (p, n, dim)
}
fn fresh_like(m: &mut Machine, r: R, sl: i64, p: usize, dim: usize, gap: f64) {
    let n = p + if r.one_in(40) { r.pick(&[9, 17, 32]) } else { r.pick(&[0, 1, 1, 2, 3, 4]) };
    let top = if r.one_in(5) { p + 1 } else { p };
    let kn = knots(r, p, n, top, gap);
    let pt = points(r, n + 1, dim);
    m.run(new_op(sl, p, &kn, &pt));
}

/// The knots moved into a part of the unit interval
fn part(r: R, kn: &[f64]) -> Vec<f64> {
    let (a, b) = match r.below(3) {
        0 => (0.0, r.pick(&[0.5, 0.75, 0.3, 0.9])),
        1 => (r.pick(&[0.5, 0.25, 0.7, 0.1]), 1.0),
        _ => (r.pick(&[0.125, 0.2]), r.pick(&[0.5, 0.625, 0.85])),
    };
    let l = kn[kn.len() - 1];
    let v: Vec<f64> = kn.iter().map(|&x| if x == l { b } else { a + (b - a) * x }).collect();
    // all that differed still does
    if kn.windows(2).zip(v.windows(2)).all(|(x, y)| (x[0] == x[1]) == (y[0] == y[1]) && y[0] <= y[1]) { v } else { kn.to_vec() }
}

fn knots_of(m: &Machine, sl: i64) -> Vec<f64> {
    m.slots.get(&sl).map_or(vec![0.0, 1.0], |c| c.knots.vector().as_slice().to_vec())
}

/// A parameter of [0,1]
fn param(r: R, kn: &[f64]) -> f64 {
    let i = r.below(kn.len());
    let x = match r.below(12) {
        0 => 0.0,
        1 => 1.0,
        2 | 3 => kn[i],
        4 => up(kn[i]),
        5 => down(kn[i]),
        6 => {
            let mut k = kn.to_vec();
            k.dedup();
            let j = r.below(k.len().max(2) - 1);
            if k.len() < 2 { k[0] } else { (k[j] + k[j + 1]) / 2.0 }
        }
        7 => r.full(),
        8 => r.pick(&[f64::from_bits(1), 1e-300, 1e-18, 1e-9, 1.0 - 1e-9, 1.0 - f64::EPSILON / 2.0, 0.5, -0.0]),
        _ => r.unit(),
    };
    if (0.0..=1.0).contains(&x) { x } else { 0.25 }
}

/// A parameter of (0,1) that is a knot or at least `gap` away from all knots
fn apart(r: R, kn: &[f64], gap: f64) -> f64 {
    if kn[0] > 0.0 || (kn[kn.len() - 1] < 1.0 && kn[0] == 0.0) {
        return within(r, kn, gap);
    }
    let inner: Vec<f64> = kn.iter().cloned().filter(|&x| x > 0.0 && x < 1.0).collect();
    if !inner.is_empty() && r.one_in(3) {
        return r.pick(&inner);
    }
    for _ in 0..200 {
        let x = match r.below(4) {
            0 => r.range(1, 15) as f64 / 16.0,
            1 => r.full(),
            2 => {
                let i = r.below(kn.len() - 1);
                (kn[i] + kn[i + 1]) / 2.0
            }
            _ => r.unit(),
        };
        if x > 0.0 && x < 1.0 && kn.iter().all(|&k| k == x || (k - x).abs() >= gap) && (0.0 - x).abs() >= gap && 1.0 - x >= gap {
            return x;
        }
    }
    0.5
}

/// x, or the knot that it all but equals (rounding could let the two coincide)
fn onto(kn: &[f64], x: f64) -> f64 {
    kn.iter().cloned().find(|k| (k - x).abs() < 1e-9).unwrap_or(x)
}

/// As `apart`, inside the span of all knots
fn within(r: R, kn: &[f64], gap: f64) -> f64 {
    let (a, b) = (kn[0], kn[kn.len() - 1]);
    if a == 0.0 && b == 1.0 {
        return apart(r, kn, gap);
    }
    let inner: Vec<f64> = kn.iter().cloned().filter(|&x| x > a && x < b).collect();
    if !inner.is_empty() && r.one_in(3) {
        return r.pick(&inner);
    }
    for _ in 0..200 {
        let x = a + (b - a) * r.unit();
        if kn.iter().all(|k| (k - x).abs() >= gap * (b - a)) {
            return x;
        }
    }
    (a + kn.iter().cloned().find(|&k| k > a).unwrap_or(b)) / 2.0
}

fn beyond(r: R) -> f64 {
    let x = r.pick(&[
        f64::NAN,
        f64::INFINITY,
        f64::NEG_INFINITY,
        -f64::from_bits(1),
        1.0 + f64::EPSILON,
        -1e-18,
        -1e-9,
        1.0 + 1e-9,
        -0.5,
        1.5,
        2.0,
        -1.0,
        1e300,
        -1e300,
        f64::MAX,
        f64::MIN,
    ]);
    match r.below(6) {
        0 => if r.one_in(2) { 1.0 + r.unit() + 1e-6 } else { -r.unit() - 1e-6 },
        1 => -10f64.powf(-(r.range(1, 323) as f64)),
        2 => 1.0 + 10f64.powi(-(r.range(1, 15) as i32)),
        _ => x,
    }
}

fn op_eval(sl: i64, qs: Vec<(f64, usize)>) -> J {
    obj(vec![
        ("op", s("eval")),
        ("s", I(sl)),
        ("qs", A(qs.into_iter().map(|(x, k)| obj(vec![("u", F(x)), ("k", u(k))])).collect())),
    ])
}
fn degree(m: &Machine, sl: i64) -> usize {
    m.slots.get(&sl).map_or(0, |c| c.degree())
}
fn dim(m: &Machine, sl: i64) -> usize {
    m.slots.get(&sl).map_or(1, |c| c.dimension())
}
fn size(m: &Machine, sl: i64) -> usize {
    m.slots.get(&sl).map_or(0, |c| c.knots.len(0))
}

fn evals(m: &mut Machine, r: R, sl: i64, count: usize, orders: &[usize]) {
    let kn = knots_of(m, sl);
    let (a, b) = (kn[0], kn[kn.len() - 1]);
    let part = a >= 0.0 && b <= 1.0 && b - a < 1.0;
    let qs = (0..count)
        .map(|_| {
            let x = param(r, &kn);
            let y = a + (b - a) * x;
            (if part && (x < a || x > b) && y >= a && y <= b { y } else { x }, r.pick(orders))
        })
        .collect();
    m.run(op_eval(sl, qs));
}

fn op_insert(sl: i64, x: f64, t: usize, api: &str) -> J {
    obj(vec![("op", s("insert")), ("s", I(sl)), ("u", F(x)), ("x", u(t)), ("api", s(api))])
}
fn op_split(sl: i64, l: i64, r: i64, x: f64, nl: bool, nr: bool) -> J {
    obj(vec![("op", s("split")), ("s", I(sl)), ("l", I(l)), ("r", I(r)), ("u", F(x)), ("nl", B(nl)), ("nr", B(nr))])
}
fn op_reverse(sl: i64, d: i64, api: &str) -> J {
    obj(vec![("op", s("reverse")), ("s", I(sl)), ("d", I(d)), ("api", s(api))])
}
fn op_deriv(sl: i64, d: i64, k: usize) -> J {
    obj(vec![("op", s("deriv")), ("s", I(sl)), ("d", I(d)), ("k", u(k))])
}
fn op_merge(a: i64, b: i64, d: i64, api: &str, ca: &[f64], cb: &[f64]) -> J {
    obj(vec![
        ("op", s("merge")),
        ("a", I(a)),
        ("b", I(b)),
        ("d", I(d)),
        ("api", s(api)),
        ("ca", fv(ca)),
        ("cb", fv(cb)),
    ])
}
fn multiplicity(kn: &[f64], x: f64) -> usize {
    kn.iter().filter(|&&k| k == x).count()
}

// -------------------------------------------------------------- sessions ----

fn orders(p: usize, derivs: bool) -> Vec<usize> {
    if derivs { (0..=p + 2).collect() } else { vec![0] }
}

/// A single curve evaluated at many parameters
fn s_eval(m: &mut Machine, r: R, derivs: bool) {
    if r.one_in(8) {
        // degree zero, or long, or a Bezier curve
        let p = if r.one_in(12) { r.pick(&[10, 12, 15, 16, 17]) } else { r.pick(&[0, 0, 1, 2, 7, 8]) };
        // (the library derives points in time exponential in the degree)
        let n = p + if p > 9 { r.below(2) } else { r.pick(&[0, 1, 3, 12]) };
        let d = if r.one_in(6) { r.pick(&[9, 12, 17]) } else { r.range(1, 6) };
        let kn = knots(r, p, n, p + 1, r.pick(if derivs { &[1e-3, 1e-3, 1e-12] } else { &[1e-3, 1e-9, 1e-15] }));
        let pt = points(r, n + 1, d);
        m.run(new_op(1, p, &kn, &pt));
    } else {
        let g = if derivs { r.pick(&[1e-2, 1e-3, 1e-7, 1e-13]) } else { r.pick(&[1e-2, 1e-4, 1e-12, 1e-15]) };
        fresh(m, r, 1, false, g);
    }
    let p = degree(m, 1);
    let o = orders(p, derivs);
    evals(m, r, 1, 8, &o);
    if r.one_in(4) {
        evals(m, r, 1, 1, &[p + 7, 31, 64, 65, 257, 1 << 20]);
    }
}

/// Evaluation after operations
fn s_eval_after(m: &mut Machine, r: R, derivs: bool) {
    let (p, n, d) = shape(r, true);
    let kn = knots(r, p, n, p, 1e-2);
    let pt = points(r, n + 1, d);
    m.run(new_op(1, p, &kn, &pt));
    let x = apart(r, &knots_of(m, 1), 1e-2);
    match r.below(4) {
        0 => {
            m.run(op_insert(1, x, 1, "insert"));
        }
        1 => {
            m.run(op_split(1, 1, 2, x, true, true));
        }
        2 => {
            m.run(op_reverse(1, 1, "method"));
        }
        _ => {
            let k = r.range(p.min(1), p);
            m.run(op_deriv(1, 1, k));
        }
    }
    let o = orders(degree(m, 1), derivs);
    evals(m, r, 1, 5, &o);
    if size(m, 2) > 0 {
        evals(m, r, 2, 3, &o);
    }
}

fn s_basis(m: &mut Machine, r: R) {
    let (p, n) = if r.one_in(6) { (if r.one_in(8) { r.pick(&[12, 15, 16]) } else { r.pick(&[0, 7]) }, 0) } else { let x = shape(r, false); (x.0, x.1) };
    let n = n.max(p + r.below(4));
    let g = r.pick(&[1e-2, 1e-4, 1e-12, 1e-15]);
    let kn = knots(r, p, n, p + 1, g);
    let qs = (0..6)
        .map(|_| obj(vec![("u", F(param(r, &kn))), ("k", u(if r.one_in(2) { 0 } else { r.below(p + 1) }))]))
        .collect();
    m.run(obj(vec![("op", s("basis")), ("p", u(p)), ("U", fv(&kn)), ("qs", A(qs))]));
}

fn s_find(m: &mut Machine, r: R) {
    let (p, n) = if r.one_in(8) { (0, r.below(4)) } else { let x = shape(r, false); (x.0, x.1) };
    let kn = knots(r, p, n, p + 1, r.pick(&[1e-2, 1e-12, 1e-15]));
    let qs = (0..16)
        .map(|_| {
            obj(vec![
                ("u", F(param(r, &kn))),
                ("k", u(r.below(p + 1))),
                ("cmp", s(r.pick(&["Left", "LeftOrEqual", "RightOrEqual", "Right"]))),
            ])
        })
        .collect();
    m.run(obj(vec![("op", s("find")), ("p", u(p)), ("U", fv(&kn)), ("qs", A(qs))]));
}

/// Parameters outside and just inside the valid range, on curves with a history
fn s_range(m: &mut Machine, r: R) {
    let (p, ..) = fresh(m, r, 1, true, 1e-2);
    if r.one_in(3) {
        let x = apart(r, &knots_of(m, 1), 1e-2);
        match r.below(3) {
            0 => m.run(op_insert(1, x, 1, "insert")),
            1 => m.run(op_split(1, 1, 2, x, true, true)),
            _ => m.run(op_reverse(1, 1, "fn")),
        };
    }
    if r.one_in(3) {
        // a part that keeps its knots: there is nothing to insert outside of its domain
        let x = apart(r, &knots_of(m, 1), 1e-2);
        let (l, rr) = if r.one_in(2) { (1, 2) } else { (2, 1) };
        m.run(op_split(1, l, rr, x, false, false));
    }
    for _ in 0..4 {
        let kn = knots_of(m, 1);
        match r.below(6) {
            0 | 1 => {
                let mut qs = vec![];
                for _ in 0..4 {
                    qs.push((if r.one_in(4) { param(r, &kn) } else { beyond(r) }, r.pick(&[0, 0, 1, p, p + 1])));
                }
                m.run(op_eval(1, qs));
            }
            2 => {
                let x = if r.one_in(3) { r.pick(&[0.0, 1.0, -0.0]) } else if r.one_in(2) { param(r, &kn) } else { beyond(r) };
                m.run(op_insert(1, x, r.pick(&[1, 1, 1, 2]), r.pick(&["insert", "fn", "times"])));
            }
            3 => {
                let x = if r.one_in(3) { r.pick(&[0.0, 1.0, -0.0]) } else if r.one_in(2) { param(r, &kn) } else { beyond(r) };
                m.run(op_split(1, 2, 3, x, r.one_in(2), r.one_in(2)));
            }
            4 => {
                let x = r.pick(&[f64::from_bits(1), 1e-300, 1e-17, 1e-9, 1.0 - f64::EPSILON / 2.0, 1.0 - 1e-9, 0.5]);
                m.run(op_split(1, 2, 3, x, r.one_in(2), r.one_in(2)));
            }
            _ => {
                let x = r.pick(&[f64::from_bits(1), 1e-300, 1e-17, 1e-9, 1.0 - f64::EPSILON / 2.0, 1.0 - 1e-9, 0.5]);
                m.run(op_insert(1, x, 1, r.pick(&["insert", "fn", "times"])));
            }
        }
    }
}

fn inner_param(r: R, kn: &[f64]) -> f64 {
    for _ in 0..100 {
        let x = param(r, kn);
        let (a, b) = (kn[0].max(0.0), kn[kn.len() - 1].min(1.0));
        let x = if x < a || x > b { a + (b - a) * x } else { x };
        if x > a + 1e-12 && x < b - 1e-12 {
            return x;
        }
    }
    0.5
}

fn s_insert(m: &mut Machine, r: R, limit: bool) {
    let (p, ..) = if r.one_in(10) {
        let (p, n) = (r.pick(&[0, 7, 8]), r.below(3));
        let kn = knots(r, p, p + n, p + 1, 1e-2);
        let d = r.range(1, 3);
        let pt = points(r, p + n + 1, d);
        m.run(new_op(1, p, &kn, &pt));
        (p, n, d)
    } else {
        fresh(m, r, 1, r.one_in(2), r.pick(&[1e-2, 1e-2, 1e-5, 1e-9, 1e-13]))
    };
    let mut last = 0.5;
    for _ in 0..r.range(1, 5) {
        if size(m, 1) > if r.one_in(2) { 34 } else { 150 } {
            break;
        }
        let kn = knots_of(m, 1);
        let x = if r.one_in(4) { last } else { inner_param(r, &kn) };
        let mu = multiplicity(&kn, x);
        let room = (p + 1).saturating_sub(mu);
        let t = if limit {
            if r.one_in(20) { r.pick(&[17, 64, 255, 256, 257, 65536]) } else { r.pick(&[1, 1, room, room + 1, room + 2, p + 1, p + 2]) }
        } else {
            r.range(0, room).min(if r.one_in(2) { 1 } else { 9 })
        };
        last = x;
        m.run(op_insert(1, x, t, r.pick(&["insert", "fn", "times"])));
        if limit && r.one_in(2) {
            m.run(op_insert(1, x, 1, r.pick(&["insert", "fn", "times"])));
        }
    }
}

fn s_split(m: &mut Machine, r: R) {
    let (p, ..) = fresh(m, r, 1, r.one_in(2), r.pick(&[1e-2, 1e-2, 1e-5, 1e-9]));
    for _ in 0..r.below(3) {
        let x = apart(r, &knots_of(m, 1), 1e-2);
        let t = r.range(1, p + 1);
        m.run(op_insert(1, x, t, "times"));
    }
    let kn = knots_of(m, 1);
    let x = if r.one_in(6) { inner_param(r, &kn) } else { apart(r, &kn, 1e-3) };
    m.run(op_split(1, 2, 3, x, r.below(4) > 0, r.below(4) > 0));
    if m.ok() && r.one_in(2) {
        // split a part again
        let sl = r.pick(&[2, 3]);
        let kn = knots_of(m, sl);
        let (a, b) = (kn[0], kn[kn.len() - 1]);
        if a == 0.0 && b == 1.0 {
            let x = apart(r, &kn, 1e-3);
            m.run(op_split(sl, 4, 5, x, true, r.one_in(2)));
        } else {
            let x = onto(&kn, a + (b - a) * r.pick(&[0.25, 0.5, 0.625]));
            m.run(op_split(sl, 4, 5, x, r.one_in(2), r.one_in(2)));
        }
    }
}

fn s_reverse(m: &mut Machine, r: R) {
    fresh(m, r, 1, false, 1e-2);
    if r.one_in(2) {
        let x = apart(r, &knots_of(m, 1), 1e-2);
        if r.one_in(2) {
            m.run(op_insert(1, x, 1, "insert"));
        } else {
            m.run(op_split(1, 1, 4, x, true, r.one_in(2)));
        }
    }
    let d = r.pick(&[1, 2]);
    m.run(op_reverse(1, d, r.pick(&["method", "fn"])));
    let o = orders(degree(m, d), true);
    evals(m, r, d, 4, &o);
    if r.one_in(2) {
        m.run(op_reverse(d, 3, "copy"));
        evals(m, r, 3, 2, &o);
    }
    if r.one_in(3) {
        let x = apart(r, &knots_of(m, d), 1e-2);
        m.run(op_insert(d, x, 1, "insert"));
        m.run(op_reverse(d, d, "method"));
        evals(m, r, d, 2, &o);
    }
}

fn s_deriv(m: &mut Machine, r: R) {
    let (p, ..) = fresh(m, r, 1, false, 1e-2);
    if r.one_in(3) {
        let x = apart(r, &knots_of(m, 1), 1e-2);
        match r.below(3) {
            0 => m.run(op_insert(1, x, 1, "insert")),
            1 => m.run(op_reverse(1, 1, "method")),
            _ => m.run(op_split(1, 1, 5, x, r.one_in(2), r.one_in(2))),
        };
        if size(m, 5) > 0 && r.one_in(2) {
            let k = r.below(p + 1);
            m.run(op_deriv(5, 4, k));
            evals(m, r, 4, 3, &orders(degree(m, 4), true));
        }
    }
    let k = r.below(p + 1);
    m.run(op_deriv(1, 2, k));
    let q = degree(m, 2);
    evals(m, r, 2, 5, &orders(q, true));
    for _ in 0..r.below(4) {
        let kn = knots_of(m, 2);
        let x = within(r, &kn, 1e-2);
        match r.below(4) {
            0 => {
                let t = if r.one_in(2) { 1 } else { r.range(1, degree(m, 2) + 2) };
                m.run(op_insert(2, x, t, r.pick(&["insert", "fn", "times"])))
            }
            1 => m.run(op_split(2, 2, 3, x, true, true)),
            2 => m.run(op_reverse(2, 2, "method")),
            _ => {
                let j = r.below(degree(m, 2) + 1);
                m.run(op_deriv(2, 4, j))
            }
        };
        let q = degree(m, 2);
        evals(m, r, 2, 2, &orders(q, true));
        if size(m, 4) > 0 {
            evals(m, r, 4, 2, &orders(degree(m, 4), true));
        }
    }
}

/// k-th derivatives of the basis functions
fn drow(kn: &[f64], p: usize, x: f64, k: usize) -> Vec<f64> {
    if k == 0 {
        return row(kn, p, x);
    }
    let n = kn.len() - p - 2;
    let mut d = vec![0.0];
    d.extend(drow(&kn[1..kn.len() - 1], p - 1, x, k - 1));
    d.push(0.0);
    (0..=n)
        .map(|i| {
            let (a, b) = (kn[i + p] - kn[i], kn[i + p + 1] - kn[i + 1]);
            p as f64 * ((if a > 0.0 { d[i] / a } else { 0.0 }) - if b > 0.0 { d[i + 1] / b } else { 0.0 })
        })
        .collect()
}
/// The merge is well-conditioned: no constraint is all but implied by the others, no knot
/// very close to the joint
fn independent(m: &Machine, a: i64, b: i64, ca: &[f64], cb: &[f64]) -> bool {
    let (ka, kb) = (knots_of(m, a), knots_of(m, b));
    let p = degree(m, a);
    if degree(m, b) != p || ka.len() < 2 * p + 2 || kb.len() < 2 * p + 2 {
        return true;
    }
    let head = |v: Vec<f64>| -> Vec<f64> { v[..p].to_vec() };
    let tail = |v: Vec<f64>| -> Vec<f64> { v[v.len() - p..].to_vec() };
    let cat = |x: Vec<f64>, y: Vec<f64>| -> Vec<f64> { x.into_iter().chain(y).collect() };
    let mut rows: Vec<Vec<f64>> = vec![];
    for k in 0..p {
        rows.push(cat(tail(drow(&ka, p, 1.0, k)), head(drow(&kb, p, 0.0, k)).iter().map(|x| -x).collect()));
    }
    for &x in ca {
        rows.push(cat(tail(row(&ka, p, x)), vec![0.0; p]));
    }
    for &x in cb {
        rows.push(cat(vec![0.0; p], head(row(&kb, p, x))));
    }
    let rows: Vec<Vec<f64>> = rows.into_iter().filter(|v| v.iter().any(|&x| x != 0.0)).collect();
    // the optimality conditions
    let (w, h) = (2 * p, rows.len());
    let a = nalgebra::DMatrix::from_fn(w + h, w + h, |i, j| match (i < w, j < w) {
        (true, true) => if i == j { 1.0 } else { 0.0 },
        (true, false) => rows[j - w][i],
        (false, true) => rows[i - w][j],
        _ => 0.0,
    });
    let s = a.singular_values();
    let (top, low) = s.iter().fold((0.0f64, f64::MAX), |x, &y| (x.0.max(y), x.1.min(y)));
    low > 1e-5 && top / low < 3e6
}

/// Constraints: `t` parameters, feasible ones
fn constraints(r: R, t: usize, end: f64) -> Vec<f64> {
    constraints_(r, t, end, false)
}
fn constraints_(r: R, t: usize, end: f64, twice: bool) -> Vec<f64> {
    let mut v: Vec<f64> = vec![];
    while v.len() < t {
        if twice && !v.is_empty() && r.one_in(2) {
            // again
            let x = r.pick(&v);
            v.push(x);
            continue;
        }
        // near the joint, so that they matter; apart, so that they are independent
        let x = match r.below(5) {
            0 => end,
            1 => 1.0 - end,
            2 => r.range(1, 15) as f64 / 16.0,
            3 => r.unit(),
            _ => (end - r.range(1, 31) as f64 / 64.0).abs(),
        };
        if v.iter().all(|y| (y - x).abs() > 0.05) {
            v.push(x);
        }
    }
    v
}

fn two(m: &mut Machine, r: R) -> (usize, usize) {
    if r.one_in(5) {
        // two parts of one curve, which join smoothly
        let (p, _, d) = fresh(m, r, 1, true, 2e-2);
        let x = apart(r, &knots_of(m, 1), 5e-2);
        m.run(op_split(1, 1, 2, x, true, true));
        if m.ok() && p > 0 {
            return (p, d);
        }
    }
    let (p, n, d) = if r.one_in(6) { (r.pick(&[4usize, 5, 6]), 0, 2) } else { shape(r, true) };
    let p = p.max(1);
    let (p, n) = if r.one_in(30) { (p.min(3), r.pick(&[12, 20, 30, 40])) } else { (p, n.max(p + r.below(3))) };
    let g = r.pick(&[1e-1, 5e-2, 1e-2, 1e-2, 1e-3, 1e-4]);
    let top = if r.one_in(5) { p + 1 } else { p };
    let kn = knots(r, p, n, top, g);
    let pt = points(r, n + 1, d);
    m.run(new_op(1, p, &kn, &pt));
    if r.one_in(6) {
        // on the same knots, often the same curve
        let same = r.one_in(2);
        let q = if same { pt.clone() } else { points(r, n + 1, d) };
        m.run(new_op(2, p, &kn, &q));
    } else {
        fresh_like(m, r, 2, p, d, g);
    }
    if r.one_in(5) {
        let k = r.range(1, 2);
        m.run(op_reverse(k as i64, k as i64, "method"));
    }
    (p, d)
}

fn s_merge(m: &mut Machine, r: R) {
    let (p, _) = two(m, r);
    let (a, b) = if r.one_in(8) { (1, 1) } else if r.one_in(4) { (2, 1) } else { (1, 2) };
    if r.below(5) < 2 || p == 1 {
        // with p = 1 there is no room for a constraint
        if !independent(m, a, b, &[], &[]) {
            return;
        }
        m.run(op_merge(a, b, 3, r.pick(&["merge", "merge", "merge_from", "merge_to"]), &[], &[]));
    } else {
        let t = r.range(1, p - 1);
        let c = r.below(t + 1);
        let (ca, cb) = (constraints(r, c, 1.0), constraints(r, t - c, 0.0));
        if !independent(m, a, b, &ca, &cb) {
            return;
        }
        let api = r.pick(&["append_c", "append_c", "prepend_c"]);
        let d = if api == "append_c" { a } else { b };
        m.run(op_merge(a, b, d, api, &ca, &cb));
        return;
    }
    let d = m.log.last().unwrap().at("d").int();
    if r.one_in(3) {
        let o = orders(p, true);
        evals(m, r, d, 3, &o);
    }
}

fn s_append(m: &mut Machine, r: R) {
    let (p, d) = two(m, r);
    for i in 0..r.range(1, 2) {
        let con = r.one_in(2) && p > 1;
        let t = if con { r.range(0, p - 1) } else { 0 };
        let c = r.below(t + 1);
        let (mut ca, mut cb) = (constraints(r, c, 1.0), constraints(r, t - c, 0.0));
        let front = r.one_in(2);
        if !(if front { independent(m, 1, 2, &ca, &cb) } else { independent(m, 2, 1, &ca, &cb) }) {
            ca = vec![];
            cb = vec![];
            if !independent(m, if front { 1 } else { 2 }, if front { 2 } else { 1 }, &[], &[]) {
                return;
            }
        }
        if front {
            m.run(op_merge(1, 2, 1, if con { "append_c" } else { "append" }, &ca, &cb));
            if i == 0 {
                let k = r.range(2, 3) as i64;
                fresh_like(m, r, k, p, d, 1e-1);
            }
        } else {
            m.run(op_merge(2, 1, 1, if con { "prepend_c" } else { "prepend" }, &ca, &cb));
        }
        if !m.ok() {
            return;
        }
    }
    let x = apart(r, &knots_of(m, 1), 1e-2);
    match r.below(4) {
        0 => m.run(op_insert(1, x, 1, "insert")),
        1 => m.run(op_split(1, 1, 4, x, true, true)),
        2 => m.run(op_reverse(1, 1, "method")),
        _ => m.run(op_deriv(1, 4, 1)),
    };
    evals(m, r, 1, 2, &orders(p, true));
}

/// Knots that are not clamped or not normalised
fn raw_knots(r: R, p: usize, n: usize) -> Vec<f64> {
    let mut kn = knots(r, p, n, p.max(1), 1e-2);
    let l = kn.len();
    match r.below(8) {
        // an inner knot beyond the ends
        7 if n > p => {
            let i = r.range(p + 1, n);
            kn[i] = r.pick(&[1.5, -0.25, 1.0 + f64::EPSILON, -1e-300, 7.0])
        }
        0 => kn[p] = kn[p] + 1e-3,
        1 => kn[l - 1 - p] = 1.0 - 1e-3,
        2 => kn.iter_mut().for_each(|x| *x *= 2.0),
        3 => kn.iter_mut().for_each(|x| *x *= 0.5),
        4 => kn.iter_mut().for_each(|x| *x += 1.0),
        5 => kn = (0..l).map(|i| i as f64 / (l - 1) as f64).collect(),
        _ => kn.iter_mut().for_each(|x| *x -= 1.0),
    }
    kn
}

fn s_merge_refuse(m: &mut Machine, r: R) {
    let (p, n, d) = shape(r, true);
    let (p, n) = (p.max(1), n.max(1));
    for sl in 1..=2 {
        let (q, e) = (
            if sl == 2 && r.one_in(4) { r.range(1, 4) } else { p },
            if sl == 2 && r.one_in(4) { r.range(1, 4) } else { d },
        );
        let k = q + if r.one_in(2) { n - p } else { r.below(4) };
        let raw = r.one_in(4);
        let kn = if raw { raw_knots(r, q, k) } else { knots(r, q, k, q, 1e-2) };
        let pt = points(r, k + 1, e);
        let mut o = new_op(sl, q, &kn, &pt);
        o.set("raw", B(raw));
        m.run(o);
    }
    if r.one_in(6) && knots_of(m, 1).windows(2).all(|w| w[0] <= w[1]) {
        // a part that was not normalised
        let x = apart(r, &knots_of(m, 1), 1e-2);
        let (nl, nr) = (r.one_in(2), r.one_in(2));
        m.run(op_split(1, 1, 3, x, nl, nr));
    }
    let (a, b) = if r.one_in(2) { (1, 2) } else { (2, 1) };
    for _ in 0..2 {
        // (p = 1 leaves no room for the constraint of the other two)
        m.run(op_merge(a, b, 4, r.pick(&["merge", "merge_from", "merge_to"]), &[], &[]));
    }
    if r.one_in(2) {
        // append and prepend have no way to return an error: they panic
        let t = if r.one_in(2) { p.max(1) + r.below(3) } else { r.below(p.max(1)) };
        let c = r.below(t + 1);
        let twice = t >= p && r.one_in(2);
        let (ca, cb) = (constraints_(r, c, 1.0, twice), constraints_(r, t - c, 0.0, twice));
        if m.ok() && t < p && !independent(m, a, b, &ca, &cb) {
            return;
        }
        let api = if t == 0 { r.pick(&["append", "prepend"]) } else { r.pick(&["append_c", "prepend_c"]) };
        m.run(op_merge(a, b, if api.starts_with("append") { a } else { b }, api, &ca, &cb));
    } else if m.ok() && p > 1 {
        let t = r.below(p);
        let c = r.below(t + 1);
        let (ca, cb) = (constraints(r, c, 1.0), constraints(r, t - c, 0.0));
        if !independent(m, a, b, &ca, &cb) {
            return;
        }
        if r.one_in(2) {
            m.run(op_merge(a, b, a, "append_c", &ca, &cb));
        } else {
            m.run(op_merge(a, b, b, "prepend_c", &ca, &cb));
        }
    }
}

fn params_t(r: R, m: usize) -> Vec<f64> {
    let style = r.below(4);
    let mut v: Vec<f64>;
    loop {
        v = (0..=m)
            .map(|g| match style {
                0 => g as f64 / m as f64,
                1 => r.unit(),
                2 => (g as f64 / m as f64).powi(3),
                _ => (g as f64 + 0.8 * r.unit()) / (m + 1) as f64,
            })
            .collect();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v[0] = 0.0;
        v[m] = 1.0;
        if v.windows(2).all(|w| w[1] - w[0] > 1e-5) {
            return v;
        }
        if r.one_in(50) {
            return (0..=m).map(|g| if g == m { 1.0 } else { g as f64 / m as f64 }).collect();
        }
    }
}

fn s_knotgen(m: &mut Machine, r: R, which: &[&str]) {
    let p = if r.one_in(20) { r.range(7, 13) } else { r.range(0, 6) };
    let n = if p == 0 { r.range(0, 3) } else { (p + r.pick(&[0, 1, 2, 3, 5, 8])).saturating_sub(if r.one_in(8) { 1 + r.below(p) } else { 0 }) };
    let meth = r.pick(which);
    let n = if p > 0 && n >= p && r.one_in(12) { p + r.pick(&[13, 20, 33, 50, 64, 100, 130, 200]) } else { n };
    let mm = if meth == "deboor" { n.max(1) + r.pick(&[0, 0, 1, 2, 3, 5, 7, 11, 25, 60, 170]) } else { n.max(1) };
    let mut t = params_t(r, mm);
    if meth != "deboor" && r.one_in(6) && mm > 2 {
        let i = r.range(1, mm - 1);
        t[i] = t[i - 1];
    }
    m.run(obj(vec![("op", s("knotgen")), ("p", u(p)), ("n", u(n)), ("t", fv(&t)), ("method", s(meth))]));
}

fn s_manual(m: &mut Machine, r: R, deboor: bool) {
    let p = r.range(if r.one_in(9) { 0 } else { 1 }, 5);
    let n = (p + r.below(6)).saturating_sub(if r.one_in(6) { 1 + r.below(p + 1) } else { 0 });
    let d = r.range(1, 3);
    let mut pt = points(r, n + 1, d);
    let km = if deboor { "deboor" } else { r.pick(&["uniform", "uniform", "averaging", "deboor", "manual"]) };
    let pm = if km == "manual" || (km == "uniform" && r.one_in(2)) { "none" } else { r.pick(&["equal", "chord", "centripetal"]) };
    if pm == "chord" || pm == "centripetal" || pm == "equal" {
        if n == 0 {
            return;
        }
        // distinct neighbours
        for i in 0..=n {
            pt[i][0] += 40.0 * i as f64 * if i % 2 == 0 { 1.0 } else { 1.5 };
        }
    }
    let mut o = vec![("op", s("manual")), ("s", I(1)), ("p", u(p)), ("P", fvv(&pt)), ("km", s(km)), ("pm", s(pm))];
    if km == "manual" {
        o.push(("U", fv(&if n >= p { knots(r, p, n, p + 1, 1e-2) } else { uniform(p, p + n) })));
    }
    m.run(obj(o));
}

fn s_params(m: &mut Machine, r: R) {
    let k = if r.one_in(40) { r.pick(&[33usize, 65, 100, 130, 257, 520]) } else { r.pick(&[2usize, 2, 3, 4, 5, 8, 12, 30]) };
    let d = if r.one_in(20) { r.range(6, 12) } else { r.range(1, 5) };
    let mut q = points(r, k, d);
    if r.one_in(3) {
        // very uneven distances
        let mut x = 0.0;
        for i in 0..k {
            x += r.pick(&[1e-6, 1e-3, 1.0, 1e3]);
            q[i] = (0..d).map(|j| if j == 0 { x } else { -2.0 * x }).collect();
        }
    }
    if q.iter().all(|x| x == &q[0]) {
        q[k - 1][0] += 1.0;
    }
    m.run(obj(vec![("op", s("params")), ("Q", fvv(&q)), ("method", s(r.pick(&["equal", "chord", "centripetal"])))]));
}

fn s_interp(m: &mut Machine, r: R) {
    let p = if r.one_in(20) { r.pick(&[6, 7, 8]) } else { r.pick(&[1, 1, 2, 2, 3, 3, 3, 4, 5]) };
    let (p, k) = if r.one_in(40) {
        (p.min(3), r.pick(&[17, 24, 33, 50]))
    } else {
        (p, p + r.pick(&[0, 1, 2, 3, 5, 8]))
    };
    let d = r.range(1, 4);
    let q = points(r, k + 1, d);
    if r.one_in(2) {
        m.run(obj(vec![("op", s("interp")), ("s", I(1)), ("p", u(p)), ("Q", fvv(&q))]));
        if r.one_in(3) {
            evals(m, r, 1, 2, &[0]);
        }
    } else {
        // parameters near the Greville points of the knots: a unique solution exists
        let kn = knots(r, p, k, 1, if k > 5 { 1e-2 } else { 5e-2 });
        let t: Vec<f64> = (0..=k)
            .map(|i| {
                let g: f64 = kn[i + 1..=i + p].iter().sum::<f64>() / p as f64;
                g
            })
            .collect();
        let t = if r.one_in(2) { let t: Vec<f64> = t.iter().map(|x| (x * 1048576.0).round() / 1048576.0).collect(); if t.windows(2).all(|w| w[1] > w[0]) { t } else { return } } else { t };
        let mut t = t;
        if r.one_in(2) {
            // not from end to end
            t[0] = t[0].max(if k > 0 { t[1] } else { 0.5 } * r.pick(&[0.3, 0.1, 0.0]));
        }
        if k > 0 && r.one_in(2) {
            t[k] = 1.0 - (1.0 - t[k - 1]) * r.pick(&[0.3, 0.1, 0.0]);
        }
        if !conditioned(&kn, p, &t, false, &[], 1e-4) {
            return;
        }
        m.run(obj(vec![("op", s("interpolate")), ("p", u(p)), ("U", fv(&kn)), ("t", fv(&t)), ("Q", fvv(&q))]));
    }
}

/// Basis functions of the recurrence, for judging how hard a fit is
fn row(kn: &[f64], p: usize, x: f64) -> Vec<f64> {
    let n = kn.len() - p - 2;
    let mut l = n;
    while l > p && !(kn[l] <= x && kn[l] < kn[l + 1]) {
        l -= 1;
    }
    let mut v = vec![0.0; kn.len() - 1];
    v[l] = 1.0;
    for d in 1..=p {
        for i in 0..kn.len() - 1 - d {
            let (a, b) = (kn[i + d] - kn[i], kn[i + d + 1] - kn[i + 1]);
            v[i] = (if a > 0.0 { v[i] * (x - kn[i]) / a } else { 0.0 })
                + (if b > 0.0 { v[i + 1] * (kn[i + d + 1] - x) / b } else { 0.0 });
        }
    }
    v.truncate(n + 1);
    v
}
/// No singular value of the problem is small but not zero
fn conditioned(kn: &[f64], p: usize, t: &[f64], fixed: bool, pen: &[J], lo: f64) -> bool {
    let n = kn.len() - p - 2;
    let mut rows: Vec<Vec<f64>> = t.iter().map(|&x| row(kn, p, x)).collect();
    if fixed {
        if n < 2 {
            return true;
        }
        rows = rows.iter().map(|v| v[1..n].to_vec()).collect();
    }
    let w = rows[0].len();
    if let [l, k] = pen {
        let (l, k) = (l.f().sqrt(), k.us());
        for i in 0..w.saturating_sub(k) {
            let mut v = vec![0.0; w];
            let mut c = l;
            for j in 0..=k {
                v[i + j] = c;
                c = -c * (k - j) as f64 / (j + 1) as f64;
            }
            rows.push(v);
        }
    }
    let a = nalgebra::DMatrix::from_fn(rows.len(), w, |i, j| rows[i][j]);
    let sv = a.singular_values();
    let top = sv[0];
    // (the solver drops what is below an absolute limit, which rounding can reach)
    sv.iter().all(|&x| (x > lo && x > 1e-6 * top) || (x < 1e-12 && top < 30.0))
}

fn penalty(r: R, always: bool) -> Vec<J> {
    if !always && r.one_in(2) {
        return vec![];
    }
    let l = if always { r.pick(&[1e-6, 1e-3, 0.1, 0.5, 1.0, 3.0, 10.0, 100.0, 1e4, 1e7]) } else { 0.0 };
    vec![F(l), u(if r.one_in(4) { r.range(3, 8) } else { r.range(1, 4) })]
}
fn s_lsq(m: &mut Machine, r: R, pen: bool) {
    let p = if r.one_in(25) { r.pick(&[5, 6, 7]) } else { r.pick(&[1, 1, 2, 2, 3, 3, 4]) };
    let n = p + r.pick(&[0, 0, 1, 1, 2, 3, 4, 6]);
    let k = n + r.pick(&[0, 1, 2, 3, 5, 8]);
    let (p, n, k) = if r.one_in(50) { (p.min(3), r.pick(&[9, 14, 18]), r.pick(&[20, 33, 45])) } else { (p, n, k) };
    // many data
    let (p, n, k) = if r.one_in(50) { (p.min(3), r.pick(&[3, 4, 6]), r.pick(&[50, 64, 70, 100, 129])) } else { (p, n, k) };
    let d = if r.one_in(40) { r.pick(&[5, 9, 12]) } else { r.range(1, 3) };
    let q = points(r, k + 1, d);
    let fixed = r.one_in(2);
    let pe = penalty(r, pen);
    if r.one_in(2) {
        let t: Vec<f64> = (0..=k).map(|g| g as f64 / k as f64).collect();
        if !conditioned(&uniform(p, n), p, &t, fixed, &pe, 1e-3) {
            return s_lsq(m, r, pen);
        }
        m.run(obj(vec![
            ("op", s("lsq")), ("s", I(1)), ("p", u(p)), ("Q", fvv(&q)), ("n", u(n)), ("fixed", B(fixed)), ("pen", A(pe)),
        ]));
        if r.one_in(4) {
            evals(m, r, 1, 2, &[0]);
        }
    } else {
        let kn = if pen || r.one_in(3) { uniform(p, n) } else { knots(r, p, n, p, 2e-2) };
        let mut t = params_t(r, k);
        for _ in 0..r.pick(&[0, 0, 1, 2]) {
            // equal parameters
            let i = r.below(k.max(1));
            if i + 1 < k || (k > 0 && !fixed) {
                t[i + 1] = t[i];
            }
        }
        if !fixed && r.one_in(3) {
            let (a, w) = (r.unit() * 0.2, 0.8 + r.unit() * 0.2);
            t.iter_mut().for_each(|x| *x = (a + (w - a) * *x).clamp(0.0, 1.0));
        }
        t.sort_by(|a, b| a.partial_cmp(b).unwrap());
        if !conditioned(&kn, p, &t, fixed, &pe, 1e-3) {
            return s_lsq(m, r, pen);
        }
        m.run(obj(vec![
            ("op", s("fit")), ("p", u(p)), ("U", fv(&kn)), ("t", fv(&t)), ("mp", u(k)), ("Q", fvv(&q)),
            ("fixed", B(fixed)), ("pen", A(pe)),
        ]));
    }
}

fn s_refuse(m: &mut Machine, r: R) {
    let p = r.range(0, 4);
    let n = (p + r.below(5)).saturating_sub(if r.one_in(3) { r.below(3) } else { 0 });
    let d = r.range(1, 3);
    match r.below(6) {
        0 => {
            let c = (n + 1).max(1);
            let pt = points(r, c, d);
            // as many knots as control points ask for
            let kn: Vec<f64> = if n >= p { knots(r, p, n, p + 1, 1e-2) } else { (0..n + p + 2).map(|i| i as f64 / (n + p + 1) as f64).collect() };
            m.run(new_op(1, p, &kn, &pt));
        }
        1 => s_manual(m, r, false),
        2 => {
            let q = points(r, n + 1, d);
            if n == 0 {
                return;
            }
            m.run(obj(vec![("op", s("interp")), ("s", I(1)), ("p", u(p)), ("Q", fvv(&q))]));
        }
        x => {
            let k = (n + r.pick(&[0, 0, 1, 2, 4])).saturating_sub(if r.one_in(4) { 1 + r.below(2) } else { 0 }).max(1);
            let q = points(r, k + 1, d);
            let lam = if r.one_in(4) {
                -10f64.powf(-(r.range(1, 323) as f64))
            } else {
                r.pick(&[0.0, 0.0, 0.5, 2.0, -1e-9, -1.0, -0.0, f64::from_bits(1), -f64::from_bits(1), -1e300])
            };
            let pe = if r.one_in(3) { vec![] } else { vec![F(lam), u(r.range(1, (n + 3).max(2)))] };
            let fixed = r.one_in(2);
            if x < 5 {
                m.run(obj(vec![
                    ("op", s("lsq")), ("s", I(1)), ("p", u(p)), ("Q", fvv(&q)), ("n", u(n)), ("fixed", B(fixed)), ("pen", A(pe)),
                ]));
            } else if p > 0 {
                let n = n.max(p);
                let mut kn = if r.one_in(2) { uniform(p, n) } else { knots(r, p, n, p, 2e-2) };
                if n > p && r.one_in(3) {
                    // hardly uniform
                    let i = r.range(p + 1, n);
                    kn[i] = uniform(p, n)[i] + r.pick(&[1e-13, 1e-11, 1e-9, 1e-8, -1e-7, 1e-6, -1e-5, 1e-3]);
                }
                let t = params_t(r, k);
                let mp = if r.one_in(5) { k + 1 - 2 * r.below(2) } else { k };
                m.run(obj(vec![
                    ("op", s("fit")), ("p", u(p)), ("U", fv(&kn)), ("t", fv(&t)), ("mp", u(mp)), ("Q", fvv(&q)),
                    ("fixed", B(fixed)), ("pen", A(pe)),
                ]));
            }
        }
    }
}

/// A property of the knots missed by very little, or at one place only
fn almost(r: R, p: usize, mut kn: Vec<f64>) -> Vec<f64> {
    let l = kn.len();
    let e = r.pick(&[5e-324, 1e-300, 1e-17, 2.3e-16, 1e-15, 1e-13, 1e-11, 1e-9, 2e-8, 1e-7, 1e-5]);
    let e = if r.one_in(2) { -e } else { e };
    let i = match r.below(4) {
        0 => r.below(p + 1),
        1 => l - 1 - r.below(p + 1),
        _ => r.below(l),
    };
    if r.one_in(6) {
        // zero is zero, whatever its sign
        kn.iter_mut().filter(|x| **x == 0.0).for_each(|x| *x = if r.one_in(2) { -0.0 } else { 0.0 });
        return kn;
    }
    match r.below(4) {
        0 if i > 0 => kn[i] = down(kn[i - 1]),
        1 if i + 1 < l => kn[i] = up(kn[i + 1]),
        _ => kn[i] = if kn[i] + e == kn[i] { if e > 0.0 { up(kn[i]) } else { down(kn[i]) } } else { kn[i] + e },
    }
    kn
}

fn s_kq(m: &mut Machine, r: R) {
    let (p, n) = if r.one_in(8) { (0, r.below(4)) } else { let x = shape(r, false); (x.0, x.1) };
    let kn = match r.below(5) {
        0 => raw_knots(r, p, n),
        1 => {
            let mut k = knots(r, p, n, p + 1, 1e-2);
            let (i, j) = (r.below(k.len()), r.below(k.len()));
            k.swap(i, j);
            k
        }
        2 => uniform(p, n),
        _ => knots(r, p, n, p + 1, r.pick(&[1e-2, 1e-9, 1e-14])),
    };
    let kn = if r.one_in(3) { almost(r, p, kn) } else { kn };
    let kn = if r.one_in(8) && n > p {
        // knots repeated more often than a curve could use
        let mut k = kn;
        let i = r.range(p + 1, n);
        let (x, c) = (k[i], r.range(1, n + 1 - i));
        k.iter_mut().skip(i).take(c).for_each(|y| *y = x);
        k
    } else {
        kn
    };
    let us: Vec<f64> = (0..r.range(3, 6)).map(|_| param(r, &kn)).collect();
    m.run(obj(vec![("op", s("kq")), ("p", u(p)), ("U", fv(&kn)), ("us", fv(&us))]));
}

fn s_kmap(m: &mut Machine, r: R) {
    let (p, n, _) = shape(r, false);
    let mut kn = knots(r, p, n, p + 1, 1e-3);
    let (a, w) = (
        if r.one_in(3) { r.full() * 4.0 - 2.0 } else { r.pick(&[0.0, 0.0, 0.0, -1.0, 3.5, 100.0]) },
        match r.below(4) {
            0 => r.range(2, 200) as f64,
            1 => r.range(1, 199) as f64 / 100.0,
            2 => r.full() + 1e-3,
            _ => r.pick(&[1.0, 0.5, 2.0, 10.0, 0.3, 49.0, 1e-6, 1e6]),
        },
    );
    if r.below(4) == 0 && kn.len() > 2 * p + 2 {
        // not clamped
        let l = kn.len();
        for i in 0..p {
            kn[i] = (i as f64 - p as f64) * 0.125;
            kn[l - 1 - i] = 1.0 + (p - i) as f64 * 0.25;
        }
    }
    if r.below(3) > 0 {
        kn.iter_mut().for_each(|x| *x = a + w * *x);
    }
    let kind = r.pick(&["normalize", "rescale"]);
    let (o, q) = if r.one_in(2) {
        (vec![kn[0], kn[kn.len() - 1]], vec![r.pick(&[0.0, -1.0, 2.0]), 5.0])
    } else {
        (vec![r.unit() - 1.0, 1.0 + r.unit()], vec![r.unit() * 3.0, 3.5 + r.unit()])
    };
    m.run(obj(vec![("op", s("kmap")), ("p", u(p)), ("U", fv(&kn)), ("kind", s(kind)), ("old", fv(&o)), ("new", fv(&q))]));
}

/// Any sequence of operations over four registers
fn s_history(m: &mut Machine, r: R, len: usize, keep: bool) {
    let (p, d) = if r.one_in(8) {
        // through data
        let (p, d) = (r.range(1, 3), r.range(1, 3));
        let k = p + r.below(5);
        let q = points(r, k + 1, d);
        m.run(if r.one_in(2) {
            obj(vec![("op", s("interp")), ("s", I(1)), ("p", u(p)), ("Q", fvv(&q))])
        } else {
            obj(vec![
                ("op", s("lsq")), ("s", I(1)), ("p", u(p)), ("Q", fvv(&q)), ("n", u(p + (k - p) / 2)), ("fixed", B(r.one_in(2))), ("pen", A(vec![])),
            ])
        });
        (p, d)
    } else {
        let (p, _, d) = fresh(m, r, 1, true, 1e-2);
        (p, d)
    };
    if r.one_in(2) {
        fresh_like(m, r, 2, p, d, 1e-2);
    }
    for _ in 0..len {
        if r.one_in(12) {
            // refused, and nothing changes
            let sl = r.range(1, 4) as i64;
            let x = match m.slots.contains_key(&sl) {
                true if r.one_in(2) => {
                    let kn = knots_of(m, sl);
                    let (a, b) = (kn[0], kn[kn.len() - 1]);
                    r.pick(&[a, b, a - 0.1, b + 0.1, a / 2.0, (1.0 + b) / 2.0, down(a), up(b)])
                }
                _ => beyond(r),
            };
            m.run(if r.one_in(2) { op_insert(sl, x, r.range(1, 3), "times") } else { op_split(sl, 1, 2, x, true, true) });
        }
        let have: Vec<i64> = m.slots.keys().cloned().filter(|&s| size(m, s) <= 24).collect();
        if have.is_empty() {
            return;
        }
        let sl = r.pick(&have);
        let kn = knots_of(m, sl);
        let unit = kn[0] == 0.0 && kn[kn.len() - 1] == 1.0;
        let (lo, hi) = (kn[0], kn[kn.len() - 1]);
        let x = if unit { apart(r, &kn, 4e-3) } else { onto(&kn, lo + (hi - lo) * r.pick(&[0.25, 0.5, 0.75])) };
        let p = degree(m, sl);
        let w = if keep { [5, 3, 3, 0, 0] } else { [5, 3, 3, 1, 2] };
        match r.weighted(&w) {
            0 => {
                let t = if r.one_in(3) { r.range(1, p + 2) } else { 1 };
                m.run(op_insert(sl, x, t, r.pick(&["insert", "fn", "times"])));
            }
            1 => {
                let (l, rr) = r.pick(&[(1, 2), (3, 4), (2, 3), (4, 1)]);
                let (nl, nr) = if r.one_in(5) { (r.one_in(2), r.one_in(2)) } else { (true, true) };
                m.run(op_split(sl, l, rr, x, nl, nr));
            }
            2 => {
                let dd = if r.one_in(2) { sl } else { r.range(1, 4) as i64 };
                m.run(op_reverse(sl, dd, r.pick(&["method", "fn"])));
            }
            3 => {
                let k = r.below(p + 1);
                m.run(op_deriv(sl, r.range(1, 4) as i64, k));
            }
            _ => {
                let b = r.pick(&have);
                let kb = knots_of(m, b);
                let ok = |k: &[f64]| k[0] == 0.0 && k[k.len() - 1] == 1.0 && k.windows(2).all(|w| w[0] == w[1] || w[1] - w[0] > 0.03);
                if degree(m, b) == p && dim(m, b) == dim(m, sl) && ok(&kn) && ok(&kb) && kn.len() + kb.len() < 26 && p > 0 && independent(m, sl, b, &[], &[]) {
                    let dd = r.range(1, 4) as i64;
                    m.run(op_merge(sl, b, dd, "merge", &[], &[]));
                }
            }
        }
        if !m.log.last().unwrap().get("res").is_some() {
            return;
        }
    }
}

// ------------------------------------------------- coordinate by coordinate ----

fn column(o: &J, key: &str, c: usize, a: f64, b: f64) -> J {
    let mut o = o.clone();
    if let Some(p) = o.get(key) {
        let v: Vec<Vec<f64>> = p.fss().iter().map(|x| vec![a * x[c] + b]).collect();
        o.set(key, fvv(&v));
    }
    o
}

fn s_twin(m: &mut Machine, r: R) {
    let d = if r.one_in(20) { r.pick(&[5, 8, 9, 11, 16, 17]) } else { r.range(2, 4) };
    let mut ops = vec![];
    let p = r.range(1, 3);
    let qs: Vec<(f64, usize)> = (0..5).map(|_| (r.range(0, 32) as f64 / 32.0, if r.one_in(3) { r.below(p + 1) } else { 0 })).collect();
    let mut mag = vec![0.0f64; d];
    let mut pts = |r: R, k: usize, big: bool| {
        let v = points(r, k, d);
        let v: Vec<Vec<f64>> = if big { v } else { v.iter().map(|x| x.iter().map(|y| y % 16.0).collect()).collect() };
        for x in &v {
            for c in 0..d {
                mag[c] = mag[c].max(x[c].abs());
            }
        }
        v
    };
    let mut order = [0usize; 6];
    let kind = r.below(8);
    match kind {
        0 => {
            let k = p + r.below(6);
            let q = pts(r, k + 1, false);
            ops.push(obj(vec![("op", s("interp")), ("s", I(1)), ("p", u(p)), ("Q", fvv(&q))]));
            ops.push(op_eval(1, qs));
        }
        1 | 2 => {
            let n = p + r.below(4);
            let k = n + r.below(6);
            let q = pts(r, k + 1, false);
            let pe = penalty(r, r.one_in(3));
            let t: Vec<f64> = (0..=k).map(|g| g as f64 / k as f64).collect();
            if !pe.is_empty() && (pe[0].f() > 100.0 || !conditioned(&uniform(p, n), p, &t, kind == 1, &pe, 1e-3)) {
                return s_twin(m, r);
            }
            ops.push(obj(vec![
                ("op", s("lsq")), ("s", I(1)), ("p", u(p)), ("Q", fvv(&q)), ("n", u(n)), ("fixed", B(kind == 1)), ("pen", A(pe)),
            ]));
            ops.push(op_eval(1, qs));
        }
        _ => {
            let n = p + r.below(5);
            let kn = knots(r, p, n, p, 5e-2);
            let pt = pts(r, n + 1, false);
            ops.push(new_op(1, p, &kn, &pt));
            let mut cur = kn;
            match kind {
                3 => {
                    for _ in 0..2 {
                        let x = apart(r, &cur, 5e-2);
                        if multiplicity(&cur, x) <= p {
                            cur.push(x);
                            cur.sort_by(|a, b| a.partial_cmp(b).unwrap());
                        }
                        ops.push(op_insert(1, x, 1, "insert"));
                    }
                }
                4 => ops.push(op_split(1, 2, 3, apart(r, &cur, 5e-2), true, true)),
                5 => {
                    ops.push(op_reverse(1, 1, "method"));
                    ops.push(op_reverse(1, 2, "copy"));
                }
                6 => {
                    let k = r.range(1, p);
                    ops.push(op_deriv(1, 2, k));
                    order[2] = k;
                    ops.push(op_eval(2, vec![(0.5, 0), (0.25, 0)]));
                }
                _ => {
                    let n = p + r.below(3);
                    let kn = knots(r, p, n, p, 5e-2);
                    let pt = pts(r, n + 1, false);
                    ops.push(new_op(2, p, &kn, &pt));
                    if p > 1 && r.one_in(2) {
                        ops.push(op_merge(1, 2, 1, "append_c", &[0.75], &[]));
                    } else {
                        ops.push(op_merge(1, 2, 3, "merge", &[], &[]));
                    }
                }
            }
            ops.push(op_eval(1, qs));
        }
    }
    let (mut sc, mut sh) = (vec![], vec![]);
    for _ in 0..d {
        if r.one_in(3) {
            sc.push(magnitude(r));
            sh.push(0.0);
        } else {
            sc.push(r.pick(&[1.0, 1.0, -1.0, 2.0, 0.5, -3.0, 10.0]));
            sh.push(r.pick(&[0.0, 0.0, 1.0, -2.0, 10.0, 0.25]));
        }
    }
    let o = obj(vec![
        ("op", s("twin")),
        ("ops", A(ops)),
        ("ord", A(order.iter().map(|&k| u(k)).collect())),
        ("sc", fv(&sc)),
        ("sh", fv(&sh)),
        ("mag", fv(&mag)),
    ]);
    twin(m, &o);
}

/// Runs the operations on the whole points and on each coordinate alone, scaled and shifted
pub fn twin(m: &mut Machine, o: &J) {
    let ops = o.at("ops").arr().to_vec();
    let order: Vec<usize> = o.at("ord").arr().iter().map(|k| k.us()).collect();
    let (sc, sh) = (o.at("sc").fs(), o.at("sh").fs());
    let d = sc.len();
    let key = |o: &J| if o.get("Q").is_some() { "Q" } else { "P" };
    let mut whole = Machine::default();
    for o in &ops {
        whole.run(o.clone());
    }
    let mut one: Vec<Machine> = vec![];
    for c in 0..d {
        let mut x = Machine::default();
        for o in &ops {
            x.run(column(o, key(o), c, sc[c], sh[c]));
        }
        one.push(x);
    }
    let res = |x: &Machine| -> Vec<String> {
        x.log
            .iter()
            .flat_map(|e| match e.get("qs") {
                Some(q) => q.arr().iter().map(|q| q.at("res").to_string()).collect(),
                None => vec![e.get("res").map_or(String::new(), |x| x.to_string())],
            })
            .collect()
    };
    let same = one.iter().all(|x| res(x) == res(&whole) && x.slots.keys().eq(whole.slots.keys()))
        && !res(&whole).iter().any(|x| x.contains("panic"));
    let kn = |x: &Machine| A(x.slots.values().map(|c| fv(c.knots.vector().as_slice())).collect());
    let mut e = o.clone();
    e.set("res", s(if same { "ok" } else { "different" }));
    e.set("UR", kn(&whole));
    e.set("US", A(one.iter().map(kn).collect()));
    let mut outs = vec![];
    if same {
        let gap = |c: &bsplines::curve::Curve| {
            c.knots.vector().as_slice().windows(2).map(|w| w[1] - w[0]).filter(|&x| x > 0.0).fold(1.0, f64::min)
        };
        let amp = |sl: i64, k: usize| whole.slots.get(&sl).map_or(1.0, |c| (2.0 * 3.0 / gap(c)).powi(k as i32));
        for (&sl, c) in &whole.slots {
            let o = order[sl as usize];
            let cols = |c: &bsplines::curve::Curve| -> Vec<Vec<f64>> {
                c.points.matrix().column_iter().map(|x| x.iter().cloned().collect()).collect()
            };
            outs.push(obj(vec![
                ("name", s("points")),
                ("aff", u((o == 0) as usize)),
                ("amp", F(amp(sl, o))),
                ("R", fvv(&cols(c))),
                ("S", A(one.iter().map(|x| fv(&cols(&x.slots[&sl]).iter().map(|v| v[0]).collect::<Vec<_>>())).collect())),
            ]));
        }
        for (i, ev) in whole.log.iter().enumerate() {
            if let Some(q) = ev.get("qs") {
                for (j, q) in q.arr().iter().enumerate() {
                    if let Some(v) = q.get("v") {
                        let sl = ev.at("s").int();
                        let k = q.at("k").us() + order[sl as usize];
                        outs.push(obj(vec![
                            ("name", s("value")),
                            ("aff", u((k == 0) as usize)),
                            ("amp", F(amp(sl, k))),
                            ("R", A(vec![v.clone()])),
                            ("S", A(one.iter().map(|x| A(vec![x.log[i].at("qs").arr()[j].at("v").arr()[0].clone()])).collect())),
                        ]));
                    }
                }
            }
        }
    }
    e.set("outs", A(outs));
    m.log.push(e);
}

// ------------------------------------------------- edited and recombined curves ----

fn op_edit(sl: i64, kn: Option<&[f64]>, pt: Option<&[Vec<f64>]>, api: &str, times: usize) -> J {
    let mut v = vec![("op", s("edit")), ("s", I(sl)), ("api", s(api)), ("times", u(times))];
    if let Some(k) = kn {
        v.push(("U", fv(k)));
    }
    if let Some(p) = pt {
        v.push(("P", fvv(p)));
    }
    obj(v)
}

fn op_find_in(sl: i64, qs: Vec<(f64, usize, &str)>) -> J {
    let q = |(x, k, c): (f64, usize, &str)| obj(vec![("u", F(x)), ("k", u(k)), ("cmp", s(c))]);
    obj(vec![("op", s("find")), ("s", I(sl)), ("qs", A(qs.into_iter().map(q).collect()))])
}

fn s_edit(m: &mut Machine, r: R) {
    let (p, ..) = fresh(m, r, 1, r.one_in(2), 1e-2);
    // the same parameters before and after each edit
    let kn = knots_of(m, 1);
    let same: Vec<(f64, usize)> = (0..r.range(1, 4)).map(|_| (param(r, &kn), r.pick(&[0, 0, 1, 2]))).collect();
    let again = r.one_in(2);
    for _ in 0..r.range(1, 3) {
        if again {
            m.run(op_eval(1, same.clone()));
        }
        let sl = if size(m, 2) > 0 && r.one_in(3) { 2 } else { 1 };
        let (c, p, d) = (size(m, sl) - degree(m, sl) - 1, degree(m, sl), dim(m, sl));
        let kn = knots_of(m, sl);
        match r.below(6) {
            0 | 1 | 2 => {
                let k = knots(r, p, c - 1, p.max(1), 1e-2);
                let d = if r.one_in(5) { r.range(1, 4) } else { d };
                let mut pt = points(r, c, d);
                if r.one_in(2) && d == dim(m, sl) {
                    // only some of the points
                    let old = crate::exec::points_of(&m.slots[&sl]);
                    let keep = r.below(c);
                    pt = (0..c).map(|i| if i == keep { pt[i].clone() } else { old[i].clone() }).collect();
                }
                let w = r.below(3);
                let api = if d != dim(m, sl) { "whole" } else { r.pick(&["whole", "single"]) };
                // whatever was asked last of the old knots is asked of the new ones
                let (x, q) = (apart(r, &k, 1e-2), r.pick(&[0, 0, p]));
                let how = r.pick(&["Left", "LeftOrEqual", "RightOrEqual", "Right"]);
                match r.below(4) {
                    0 => drop(m.run(op_find_in(sl, vec![(x, q, how)]))),
                    1 | 2 => drop(m.run(op_eval(sl, vec![(x, q)]))),
                    _ => {}
                }
                m.run(op_edit(sl, (w != 1).then_some(&k[..]), (w != 0).then_some(&pt[..]), api, r.pick(&[1, 1, 2])));
                match r.below(5) {
                    0 => drop(m.run(op_find_in(sl, vec![(x, q, how), (x, q, how)]))),
                    1 | 2 => drop(m.run(op_insert(sl, x, 1, "insert"))),
                    3 => drop(m.run(op_eval(sl, vec![(x, q)]))),
                    _ => {}
                }
            }
            3 | 4 => {
                // knots and points of different curves: of another degree, of derivatives
                let cc = c - 1;
                let q = r.range(0, 5).min(cc);
                let kn = knots(r, q, cc, q.max(1), 1e-2);
                let dd = r.range(1, 3);
                let pt = points(r, cc + 1, dd);
                m.run(new_op(3, q, &kn, &pt));
                let (a, b) = if r.one_in(2) { (3, sl) } else { (sl, 3) };
                m.run(obj(vec![("op", s("rebuild")), ("a", I(a)), ("b", I(b)), ("d", I(2)), ("api", s(r.pick(&["new", "manual"])))]));
            }
            _ => {
                let x = apart(r, &kn, 1e-2);
                match r.below(3) {
                    0 => m.run(op_insert(sl, x, 1, "insert")),
                    1 => m.run(op_reverse(sl, sl, "method")),
                    _ => m.run(op_deriv(sl, 2, r.below(p + 1))),
                };
            }
        }
    }
    if again {
        m.run(op_eval(1, same.clone()));
    }
    let o = orders(p, true);
    evals(m, r, 1, 3, &o);
    if size(m, 2) > 0 {
        evals(m, r, 2, 3, &o);
    }
    let sl = if size(m, 2) > 0 { r.range(1, 2) as i64 } else { 1 };
    let x = apart(r, &knots_of(m, sl), 1e-2);
    match r.below(3) {
        0 => m.run(op_insert(sl, x, 1, "insert")),
        1 => m.run(op_reverse(sl, sl, "fn")),
        _ => m.run(op_split(sl, 4, 5, x, true, true)),
    };
    evals(m, r, sl, 2, &o);
}

// -------------------------------------------------------------------- queries ----

// ------------------------------------------------------- unclamped knots ----

/// Knots with anything before and behind a domain that has parameters in common with [0,1]
fn open_knots(r: R, p: usize, n: usize, top: usize, gap: f64) -> Vec<f64> {
    let mut kn = knots(r, p, n, top, gap);
    let l = kn.len();
    let mut ends = |r: R, at: &dyn Fn(usize) -> usize, sign: f64, kn: &mut Vec<f64>| {
        let step = r.pick(&[1.0 / 8.0, 0.25, 0.1, 1.0, 1.0 / (n - p + 1) as f64]);
        let style = r.below(5);
        for j in 1..=p {
            let d = match style {
                0 => step * j as f64,
                1 => if r.one_in(2) { 0.0 } else { step },
                2 => r.unit() + gap,
                3 => if j == p { step } else { 0.0 },
                _ => if j == 1 { gap.max(1e-3) } else { 0.0 },
            };
            let b = kn[at(j - 1)];
            kn[at(j)] = if style == 0 { kn[at(0)] + sign * d } else { b + sign * d };
        }
    };
    let which = r.below(4);
    if which != 1 {
        ends(r, &|j| p - j, -1.0, &mut kn);
    }
    if which != 2 {
        ends(r, &|j| l - 1 - p + j, 1.0, &mut kn);
    }
    if r.one_in(2) {
        let a = r.pick(&[-1.0, -0.5, 0.0, 0.125, 0.1, 0.0]);
        let b = r.pick(&[0.75, 0.6, 1.0, 1.5, 2.0, 1.0]);
        kn.iter_mut().for_each(|x| *x = a + (b - a) * *x);
    }
    kn
}
/// The parameters of the curve that evaluation takes
fn reach(kn: &[f64], p: usize) -> (f64, f64) {
    (kn[p].max(0.0), kn[kn.len() - 1 - p].min(1.0))
}
fn open_param(r: R, kn: &[f64], p: usize) -> f64 {
    let (a, b) = reach(kn, p);
    for _ in 0..40 {
        let x = match r.below(10) {
            0 => a,
            1 | 2 => b,
            3 => up(a),
            4 => down(b),
            5 | 6 => r.pick(kn),
            7 => down(r.pick(kn)),
            _ => a + (b - a) * r.unit(),
        };
        if x >= a && x <= b {
            return x;
        }
    }
    a
}
fn open_apart(r: R, kn: &[f64], p: usize, gap: f64) -> Option<f64> {
    let (a, b) = reach(kn, p);
    let inner: Vec<f64> = kn.iter().cloned().filter(|&x| x > a && x < b).collect();
    if !inner.is_empty() && r.one_in(3) {
        return Some(r.pick(&inner));
    }
    (0..60).map(|_| a + (b - a) * if r.one_in(2) { r.range(1, 15) as f64 / 16.0 } else { r.unit() }).find(|&x| {
        x > a && x < b && kn.iter().all(|k| (k - x).abs() >= gap)
    })
}
fn open_evals(m: &mut Machine, r: R, sl: i64, count: usize) {
    let (kn, p) = (knots_of(m, sl), degree(m, sl));
    let (a, b) = reach(&kn, p);
    if a > b {
        return;
    }
    let qs = (0..count).map(|_| (open_param(r, &kn, p), if r.one_in(2) { 0 } else { r.below(p + 3) })).collect();
    m.run(op_eval(sl, qs));
}
fn s_open(m: &mut Machine, r: R) {
    let (p, n, d) = shape(r, r.one_in(2));
    let kn = open_knots(r, p, n, p.max(1), 1e-2);
    match r.below(8) {
        0 => {
            let qs = (0..6).map(|_| obj(vec![("u", F(open_param(r, &kn, p))), ("k", u(r.below(p + 1)))])).collect();
            m.run(obj(vec![("op", s("basis")), ("p", u(p)), ("U", fv(&kn)), ("qs", A(qs))]));
            return;
        }
        1 => {
            let qs = (0..8)
                .map(|_| {
                    let how = r.pick(&["Left", "LeftOrEqual", "RightOrEqual", "Right"]);
                    obj(vec![("u", F(open_param(r, &kn, p))), ("k", u(r.below(p + 1))), ("cmp", s(how))])
                })
                .collect();
            m.run(obj(vec![("op", s("find")), ("p", u(p)), ("U", fv(&kn)), ("qs", A(qs))]));
            return;
        }
        2 => {
            // the direct methods, with parameters of the domain
            let (a, b) = (kn[p], kn[kn.len() - 1 - p]);
            let k = n + if r.one_in(2) { 0 } else { r.below(4) };
            let mut t: Vec<f64> = (0..=k).map(|g| if r.one_in(2) { g as f64 / k.max(1) as f64 } else { r.unit() }).collect();
            t.iter_mut().for_each(|x| *x = (a + (b - a) * *x).max(a).min(b));
            t.sort_by(|x, y| x.partial_cmp(y).unwrap());
            let q = points(r, k + 1, d);
            if p == 0 || !conditioned(&kn, p, &t, false, &[], 1e-3) {
                return;
            }
            if k == n {
                let a = nalgebra::DMatrix::from_fn(n + 1, n + 1, |g, i| row(&kn, p, t[g])[i]);
                if !a.singular_values().iter().all(|&x| x > 1e-3) {
                    return;
                }
                m.run(obj(vec![("op", s("interpolate")), ("p", u(p)), ("U", fv(&kn)), ("t", fv(&t)), ("Q", fvv(&q))]));
            } else {
                m.run(obj(vec![
                    ("op", s("fit")), ("p", u(p)), ("U", fv(&kn)), ("t", fv(&t)), ("mp", u(k)), ("Q", fvv(&q)),
                    ("fixed", B(false)), ("pen", A(vec![])),
                ]));
            }
            return;
        }
        _ => {}
    }
    let pt = points(r, n + 1, d);
    let mut o = new_op(1, p, &kn, &pt);
    o.set("raw", B(true));
    m.run(o);
    open_evals(m, r, 1, 5);
    for _ in 0..r.below(4) {
        let have: Vec<i64> = m.slots.keys().cloned().filter(|&s| size(m, s) <= 24).collect();
        if have.is_empty() {
            return;
        }
        let sl = r.pick(&have);
        let (kn, p) = (knots_of(m, sl), degree(m, sl));
        let x = open_apart(r, &kn, p, 1e-2);
        let dd = r.range(1, 4) as i64;
        match (r.below(5), x) {
            (0 | 1, Some(x)) => {
                let t = if r.one_in(2) { 1 } else { r.range(1, p + 2) };
                m.run(op_insert(sl, x, t, r.pick(&["insert", "fn", "times"])));
                open_evals(m, r, sl, 3);
            }
            (2, Some(x)) => {
                let (a, b) = r.pick(&[(1, 2), (3, 4), (2, 3), (4, 1)]);
                m.run(op_split(sl, a, b, x, r.one_in(2), r.one_in(2)));
                if m.ok() {
                    open_evals(m, r, a, 3);
                    open_evals(m, r, b, 3);
                }
            }
            (3, _) => {
                m.run(op_reverse(sl, dd, r.pick(&["method", "fn", "copy"])));
                open_evals(m, r, dd, 3);
            }
            (4, _) => {
                let k = r.below(p + 1);
                m.run(op_deriv(sl, dd, k));
                open_evals(m, r, dd, 3);
            }
            _ => {}
        }
    }
}

fn s_query(m: &mut Machine, r: R) {
    if r.one_in(2) {
        let c = r.pick(&[1usize, 2, 2, 3, 4, 5, 6, 9, 17]);
        let d = r.range(1, 9);
        let q = points(r, c, d);
        m.run(obj(vec![
            ("op", s("pq")), ("Q", fvv(&q)), ("kind", s(r.pick(&["data", "control", "capacity"]))),
            ("i", u(r.below(c))), ("n", u(r.below(c + 1))),
        ]));
        return;
    }
    let cq = |m: &mut Machine, sl: i64| {
        m.run(obj(vec![("op", s("cq")), ("s", I(sl))]));
    };
    match r.below(5) {
        0 => s_history(m, r, 2, false),
        1 => s_edit(m, r),
        2 => s_deriv(m, r),
        3 => s_lsq(m, r, false),
        _ => {
            fresh(m, r, 1, false, 1e-2);
        }
    }
    for sl in m.slots.keys().cloned().collect::<Vec<_>>() {
        cq(m, sl);
    }
}

// ------------------------------------------------- independence of each other ----

/// The operations of two sessions: alone, interleaved, and in two threads
pub fn pair(m: &mut Machine, a: Vec<J>, b: Vec<J>, order: Vec<usize>, apart: bool) {
    let alone = |ops: &[J]| {
        let mut x = Machine::default();
        for o in ops {
            x.run(o.clone());
        }
        x.log
    };
    let (la, lb) = (alone(&a), alone(&b));
    let (mut x, mut y) = (Machine::default(), Machine::default());
    let (mut i, mut j) = (0, 0);
    let (mut changed, mut copies) = (0, 0);
    // the same on copies, in a thread that has done nothing before
    let elsewhere = |m: &Machine, o: &J| {
        let mut c = m.clone();
        std::thread::scope(|t| t.spawn(move || c.run(o.clone()).to_string()).join().unwrap())
    };
    for w in order.iter().cloned().chain((0..a.len() + b.len()).map(|g| g % 2)) {
        // the curves of the one before and after an operation of the other
        let state = |m: &Machine| m.slots.values().map(|c| crate::exec::curve_j(c).to_string()).collect::<Vec<_>>();
        if w == 0 && i < a.len() {
            let before = state(&y);
            let copy = elsewhere(&x, &a[i]);
            copies += (copy != x.run(a[i].clone()).to_string()) as usize;
            changed += (before != state(&y)) as usize;
            i += 1;
        } else if w == 1 && j < b.len() {
            let before = state(&x);
            let copy = elsewhere(&y, &b[j]);
            copies += (copy != y.run(b[j].clone()).to_string()) as usize;
            changed += (before != state(&x)) as usize;
            j += 1;
        }
    }
    let gate = std::sync::Barrier::new(2);
    let often = |ops: &[J]| {
        gate.wait();
        let mut last = alone(ops);
        for _ in 0..2 {
            let again = alone(ops);
            if A(again.clone()).to_string() != A(last.clone()).to_string() {
                return again;
            }
            last = again;
        }
        last
    };
    let (ta, tb) = std::thread::scope(|sc| {
        let h = sc.spawn(|| often(&a));
        let g = sc.spawn(|| often(&b));
        (h.join().unwrap(), g.join().unwrap())
    });
    m.log.push(obj(vec![
        ("op", s("pair")),
        ("A", A(la)),
        ("B", A(lb)),
        ("order", A(order.into_iter().map(u).collect())),
        ("IA", A(x.log)),
        ("IB", A(y.log)),
        ("TA", A(ta)),
        ("TB", A(tb)),
        ("changed", u(changed)),
        ("copies", u(copies)),
    ]));
    if apart {
        // each in a process of its own
        let mut e = m.log.pop().unwrap();
        e.set("PA", alone_in_process(&a));
        e.set("PB", alone_in_process(&b));
        m.log.push(e);
    }
}

/// The numbers of a field, one of them changed
fn nudged(r: R, v: &J) -> J {
    match v {
        A(x) if !x.is_empty() => {
            let i = r.below(x.len());
            let mut y = x.clone();
            y[i] = nudged(r, &x[i]);
            A(y)
        }
        F(x) => F(match r.below(5) {
            0 => up(*x),
            1 => -x,
            2 => x * 0.5,
            3 => x + 1.0,
            _ => x * (1.0 + 1e-3),
        }),
        x => x.clone(),
    }
}

/// A call much like the given one: what a result kept for the one must not be used for
fn alike(r: R, o: &J) -> J {
    let O(v) = o else { return o.clone() };
    let mut o = O(v.iter().filter(|(k, _)| !["res", "errs", "err", "val", "post"].contains(&k.as_str())).cloned().collect());
    let op = o.at("op").str().to_string();
    let has = |o: &J, k: &str| o.get(k).is_some();
    let bump = |o: &mut J, k: &str, d: i64| {
        if let Some(I(x)) = o.get(k) {
            let x = (*x + d).max(0);
            o.set(k, I(x));
        }
    };
    let fields: Vec<&str> = ["P", "Q", "t", "U", "pen", "u", "ca", "cb", "us"].into_iter().filter(|k| has(&o, k)).collect();
    match (op.as_str(), r.below(3)) {
        ("knotgen", 0) => {
            if r.one_in(4) {
                o.set("n", u(o.at("n").us() + r.pick(&[1, 30, 60])));
                if o.at("method").str() != "uniform" {
                    o.set("method", s("uniform"));
                }
            }
            // as many knots, another degree
            let d = if o.at("p").int() > 1 && r.one_in(2) { 1 } else { -1 };
            bump(&mut o, "p", -d);
            bump(&mut o, "n", d);
        }
        ("knotgen", 1) => o.set("method", s(r.pick(&["uniform", "averaging"]))),
        ("params", 0) => o.set("method", s(r.pick(&["equal", "chord", "centripetal"]))),
        ("lsq", 0) => match r.below(3) {
            0 => bump(&mut o, "n", 1),
            1 => {
                let f = o.at("fixed").bool();
                o.set("fixed", B(!f));
            }
            _ => {
                bump(&mut o, "p", -1);
                if o.at("p").int() == 0 {
                    o.set("p", u(1));
                }
            }
        },
        ("interp", 0) => {
            let p = o.at("p").int();
            o.set("p", I((p - 1).max(1)));
        }
        ("find" | "eval" | "basis", _) if has(&o, "qs") => {
            let mut q = o.at("qs").arr().to_vec();
            q.reverse();
            o.set("qs", A(q));
        }
        _ => {
            if !fields.is_empty() {
                let k = r.pick(&fields);
                if k == "U" {
                    // knots stay in order: half way to the next
                    let mut kn = o.at("U").fs();
                    let i = r.range(1, kn.len() - 1) - 1;
                    if kn[i] < kn[i + 1] && i > o.get("p").map_or(0, |p| p.us()) {
                        kn[i] = 0.5 * (kn[i] + kn[i + 1]);
                        o.set("U", fv(&kn));
                    }
                } else if k == "u" {
                    if let Some(F(x)) = o.get("u") {
                        let x = if r.one_in(2) { up(*x) } else { 0.5 * x };
                        o.set("u", F(x));
                    }
                } else {
                    let x = nudged(r, o.at(k));
                    o.set(k, x);
                }
            }
        }
    }
    o
}

fn s_pair(m: &mut Machine, r: R) {
    let mut side = |profiles: &[&str]| loop {
        let mut x = Machine::default();
        let p = r.pick(profiles);
        session(p, &mut x, r);
        let n = x.log.iter().map(|e| e.to_string().len()).sum::<usize>();
        if n < 20000 && x.log.len() < 12 {
            return x.log;
        }
    };
    let all = ["C01", "C02", "C03", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C13", "C17", "C18", "C19", "C21", "C22", "C23", "C16", "C14", "C15", "C25", "C25", "C25"];
    let a = if r.one_in(5) {
        // calls that resemble each other
        let mut x = side(&["C14", "C15", "C16", "C17", "C18", "C19", "C20"]);
        for _ in 0..4 {
            if let Some(o) = x.last() {
                let o = alike(r, o);
                x.push(o);
            }
        }
        x
    } else {
        side(&all)
    };
    let b: Vec<J> = if r.one_in(2) {
        side(&all)
    } else {
        // the same once more, but for one argument or two
        let n = a.len().max(1);
        let (i, j) = (r.below(n), r.below(n));
        a.iter().enumerate().map(|(g, o)| if g == i || g == j { alike(r, o) } else { o.clone() }).collect()
    };
    let mut order: Vec<usize> = a.iter().map(|_| 0).chain(b.iter().map(|_| 1)).collect();
    // in any order, or one after the other
    let mixed = r.below(3) > 0;
    for i in (1..order.len()).rev() {
        if mixed {
            order.swap(i, r.below(i + 1));
        }
    }
    let apart = r.one_in(4);
    pair(m, a, b, order, apart);
}

fn alone_in_process(ops: &[J]) -> J {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(["alone", "--out", "/dev/null", "--profile", "C27"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    c.stdin.take().unwrap().write_all(A(ops.to_vec()).to_string().as_bytes()).unwrap();
    let out = c.wait_with_output().unwrap();
    J::A(json_lines(&String::from_utf8_lossy(&out.stdout)))
}
fn json_lines(t: &str) -> Vec<J> {
    t.lines().filter(|l| !l.is_empty()).map(crate::json::parse).collect()
}

pub fn session(profile: &str, m: &mut Machine, r: R) {
    match profile {
        "C25" => s_edit(m, r),
        "C26" => s_query(m, r),
        "C27" => s_pair(m, r),
        "C28" => s_open(m, r),
        "C01" => match r.below(5) {
            0 => s_eval_after(m, r, false),
            _ => s_eval(m, r, false),
        },
        "C02" => match r.below(5) {
            0 => s_eval_after(m, r, true),
            _ => s_eval(m, r, true),
        },
        "C03" => s_basis(m, r),
        "C04" => s_range(m, r),
        "C05" => s_insert(m, r, false),
        "C06" => s_insert(m, r, true),
        "C07" => {
            let (l, k) = (if r.one_in(6) { r.range(8, 14) } else { r.range(2, 6) }, r.one_in(2));
            s_history(m, r, l, k)
        }
        "C08" => s_split(m, r),
        "C09" => s_reverse(m, r),
        "C10" | "C11" => s_merge(m, r),
        "C12" => s_merge_refuse(m, r),
        "C13" => s_append(m, r),
        "C14" => match r.below(4) {
            0 => s_manual(m, r, false),
            _ => s_knotgen(m, r, &["uniform", "averaging", "averaging", "deboor"]),
        },
        "C15" => match r.below(6) {
            0 => s_manual(m, r, true),
            _ => s_knotgen(m, r, &["deboor"]),
        },
        "C16" => s_params(m, r),
        "C17" => s_interp(m, r),
        "C18" => s_lsq(m, r, false),
        "C19" => s_lsq(m, r, true),
        "C20" => s_refuse(m, r),
        "C21" => match r.below(4) {
            0 => {
                let l = r.range(1, 3);
                s_history(m, r, l, true);
                for sl in m.slots.keys().cloned().collect::<Vec<_>>() {
                    let kn = knots_of(m, sl);
                    let (a, b, p) = (kn[0], kn[kn.len() - 1], degree(m, sl));
                    let qs = (0..6)
                        .map(|_| {
                            let x = param(r, &kn);
                            let x = if x < a || x > b { within(r, &kn, 0.0) } else { x };
                            (x, r.below(p + 1), r.pick(&["Left", "LeftOrEqual", "RightOrEqual", "Right"]))
                        })
                        .collect();
                    m.run(op_find_in(sl, qs));
                }
            }
            _ => s_find(m, r),
        },
        "C22" => s_deriv(m, r),
        "C23" => {
            if r.one_in(4) {
                s_kmap(m, r)
            } else {
                s_kq(m, r)
            }
        }
        "C24" => s_twin(m, r),
        x => panic!("unknown profile {x}"),
    }
    // what the operations left behind is used
    if USED.contains(&profile) && r.one_in(2) {
        for sl in m.slots.keys().cloned().collect::<Vec<_>>() {
            if r.one_in(2) {
                let o = orders(degree(m, sl), true);
                let o = if r.one_in(2) { &o[..1] } else { &o[..] };
                evals(m, r, sl, 3, o);
            }
        }
    }
}

/// Properties of operations whose resulting curves are evaluated, too
const USED: &[&str] = &["C05", "C06", "C07", "C08", "C10", "C11", "C13", "C17", "C18", "C19"];

/// Evaluation of what a replayed behaviour of the model left behind
pub fn finish(profile: &str, m: &mut Machine) {
    if profile == "C26" {
        for sl in m.slots.keys().cloned().collect::<Vec<_>>() {
            m.run(obj(vec![("op", s("cq")), ("s", I(sl))]));
        }
    }
    let used = USED.contains(&profile);
    if !used && !["C01", "C02", "C09", "C22", "C25", "C28"].contains(&profile) {
        return;
    }
    for sl in m.slots.keys().cloned().collect::<Vec<_>>() {
        let kn = knots_of(m, sl);
        let p = degree(m, sl);
        let mut k = kn.clone();
        k.dedup();
        let mut us = k.clone();
        us.extend(k.windows(2).map(|w| (w[0] + w[1]) / 2.0));
        us.retain(|x| (0.0..=1.0).contains(x));
        if profile == "C28" {
            let (a, b) = reach(&kn, p);
            us.push(b);
            us.retain(|&x| a <= x && x <= b);
        }
        let mut qs = vec![];
        for (i, &x) in us.iter().enumerate() {
            if profile == "C01" || used && i % 3 > 0 {
                qs.push((x, 0));
            } else {
                qs.push((x, i % (p + 2)));
                qs.push((x, 1 + i % p.max(1)));
            }
        }
        m.run(op_eval(sl, qs));
    }
}
