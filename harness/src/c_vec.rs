//! C21: the algebra of three-component vectors.
use crate::checks::{Sz, plan_of};
use crate::engine::{Plan, W, item};
use open_dis_rust::common::data_types::vector3_float::Vector3Float as V;

type A = [f32; 3];
fn v(a: A) -> V {
    V::new(a[0], a[1], a[2])
}
fn c(x: V) -> A {
    [x.x, x.y, x.z]
}
/// one operation: within two units in the last place of the exact f32 operation
fn near(got: f32, want: f32) -> bool {
    if want.is_nan() {
        return got.is_nan();
    }
    if want.is_infinite() || got.is_infinite() || got.is_nan() {
        return got == want;
    }
    let tol = f64::from(want.abs()) * 2.0_f64.powi(-22) + 3e-45;
    (f64::from(got) - f64::from(want)).abs() <= tol
}
/// a sum of products: within a few rounding errors of its terms
fn sum_near(got: f32, terms: &[f64]) -> bool {
    let want: f64 = terms.iter().sum();
    let mag: f64 = terms.iter().map(|t| t.abs()).sum();
    got.is_finite() && (f64::from(got) - want).abs() <= mag * 8.0 * f64::from(f32::EPSILON) + 1e-37
}
fn vectors(comp: &[f32]) -> Vec<A> {
    let mut o = vec![];
    for &x in comp {
        for &y in comp {
            for &z in comp {
                o.push([x, y, z]);
            }
        }
    }
    o
}
fn key(a: A) -> Vec<u8> {
    a.iter().flat_map(|x| x.to_bits().to_be_bytes()).collect()
}

/// every pair of vectors with this first vector: + - dot cross
fn pairs(w: &mut W, a: A, all: &[A], finite: bool) {
    let mut k = key(a);
    k.push(u8::from(finite));
    w.state("pairs with vector", &k);
    w.traces += all.len() as u64;
    w.count("vector pairs", all.len() as u64);
    let r = w.imp("vector algebra", "Vector3Float", &k, || {
        let mut bad: Vec<(&'static str, A, String)> = vec![];
        for &b in all {
            let s = c(v(a) + v(b));
            let d = c(v(a) - v(b));
            if !(0..3).all(|i| near(s[i], a[i] + b[i])) {
                bad.push(("addition", b, format!("{s:?}")));
            }
            if !(0..3).all(|i| near(d[i], a[i] - b[i])) {
                bad.push(("subtraction", b, format!("{d:?}")));
            }
            if finite {
                let e = |i: usize, j: usize| f64::from(a[i]) * f64::from(b[j]);
                let p = v(a).dot(&v(b));
                if !sum_near(p, &[e(0, 0), e(1, 1), e(2, 2)]) {
                    bad.push(("dot product", b, format!("{p:?}")));
                }
                let x = c(v(a).cross(&v(b)));
                let want = [[e(1, 2), -e(2, 1)], [e(2, 0), -e(0, 2)], [e(0, 1), -e(1, 0)]];
                if !(0..3).all(|i| sum_near(x[i], &want[i])) {
                    bad.push(("cross product", b, format!("{x:?}")));
                }
            }
            if bad.len() > 4 {
                break;
            }
        }
        bad
    });
    match r {
        Ok(bad) => {
            for (what, b, got) in bad {
                w.viol(format!("{what}: wrong result"), || format!("{a:?} and {b:?} give {got}"));
            }
        }
        Err(e) => w.viol("vector algebra panics".into(), || format!("{a:?}: {e}")),
    }
    w.outcome(&format!("{a:?}"));
}
fn scale(w: &mut W, a: A, ks: &[f32]) {
    w.state("scaling of vector", &key(a));
    w.traces += ks.len() as u64;
    w.count("vector and scalar pairs", ks.len() as u64);
    let r = w.imp("vector scaling", "Vector3Float", &key(a), || {
        let mut bad: Vec<(&'static str, f32, A)> = vec![];
        for &k in ks {
            let m = c(v(a) * k);
            let d = c(v(a) / k);
            if !(0..3).all(|i| near(m[i], a[i] * k)) {
                bad.push(("multiplication by a scalar", k, m));
            }
            if !(0..3).all(|i| near(d[i], a[i] / k)) {
                bad.push(("division by a scalar", k, d));
            }
        }
        bad
    });
    match r {
        Ok(bad) => {
            for (what, k, got) in bad {
                w.viol(format!("{what}: wrong result"), || format!("{a:?} and {k:?} give {got:?}"));
            }
        }
        Err(e) => w.viol("vector scaling panics".into(), || format!("{a:?}: {e}")),
    }
}
/// `plain`: squares of the components neither overflow nor vanish
fn norm(w: &mut W, a: A, plain: bool) {
    w.state("length of vector", &key(a));
    w.traces += 1;
    let r = w.imp("vector length", "Vector3Float", &key(a), || (v(a).magnitude(), v(a).normalize().map(c)));
    let (m, n) = match r {
        Ok(x) => x,
        Err(e) => {
            w.viol("vector length panics".into(), || format!("{a:?}: {e}"));
            return;
        }
    };
    if (m == 0.0) != n.is_none() {
        w.viol("normalize: absent exactly for vectors of no length".into(), || format!("{a:?}: length {m:?}, normalized {n:?}"));
    }
    if !plain {
        return;
    }
    let want = a.iter().map(|x| f64::from(*x).powi(2)).sum::<f64>().sqrt();
    let eps = 8.0 * f64::from(f32::EPSILON);
    if (f64::from(m) - want).abs() > want * eps {
        w.viol("magnitude: wrong result".into(), || format!("{a:?} gives {m:?}, should be {want:?}"));
    }
    match n {
        None if want > 0.0 => w.viol("normalize: no result for a vector that has a direction".into(), || format!("{a:?}")),
        Some(u) if want > 0.0 => {
            if !(0..3).all(|i| (f64::from(u[i]) - f64::from(a[i]) / want).abs() <= eps) {
                w.viol("normalize: wrong direction or length".into(), || format!("{a:?} gives {u:?}"));
            }
        }
        _ => {}
    }
}

pub fn c21(sz: Sz) -> Plan {
    const MORE: [f32; 32] = [
        0.0, -0.0, 1.0, -1.0, 0.1, -0.1, -0.333_333_34, 0.5, -0.5, 2.0, 3.0, -7.25, 10.0, 100.0, -255.0, 256.0, 4097.5, -65_536.0, 16_777_215.0,
        -16_777_216.0, 1e-5, -1e-6, 1.2e-7, -1.1e-7, 1e-15, -3e-15, 6e7, -2e15, 1.000_000_1, -1.000_000_1, 0.999_999_94, -0.999_999_94,
    ];
    // numbers that the crate's code mentions, and their neighbours, are likely thresholds
    let mut comp: Vec<f32> = MORE.to_vec();
    let add = |x: f32, comp: &mut Vec<f32>| {
        if x.abs() > 1e-15 && x.abs() < 1e15 && !comp.contains(&x) && comp.len() < sz.pick3(36, 36, 50) {
            comp.push(x);
        }
    };
    for &f in &crate::genv::literals().1 {
        add(f as f32, &mut comp);
        add(f as f32 * -0.9, &mut comp);
    }
    for x in [45.0, -90.0, 180.0, std::f32::consts::PI, -std::f32::consts::FRAC_PI_2, 6_378_137.0, 1e-3, -1e-4, 1e-7, 1e4, 0.707_106_77, 1e9] {
        add(x, &mut comp);
    }
    let comp: &'static [f32] = Box::leak(comp.into_boxed_slice());
    let scalars: &'static [f32] = {
        let mut s: Vec<f32> = SCALARS.to_vec();
        s.extend(crate::genv::alphabet(crate::genv::Leaf::Int(crate::spec::Num::F, 4), crate::genv::Depth::Quick).iter().map(|x| f32::from_bits(x.u() as u32)));
        Box::leak(s.into_boxed_slice())
    };
    let odd: &'static [f32] =
        &[0.0, -0.0, 1.5, f32::MAX, f32::MIN, f32::MIN_POSITIVE, -1e-40, 1e-45, f32::INFINITY, f32::NEG_INFINITY, f32::NAN];
    const SCALARS: [f32; 20] = [
        0.0, -0.0, 1.0, -1.0, 2.0, 0.5, 3.0, -0.1, 1e-10, 1e10, 1e-38, 1e-40, 1e-45, 1e30, 3.4e38, f32::MAX, f32::MIN, f32::INFINITY,
        f32::NEG_INFINITY, f32::NAN,
    ];
    let mut items = vec![];
    for (what, set, finite) in [("ordinary", comp, true), ("extreme", odd, false)] {
        let all: &'static [A] = Box::leak(vectors(set).into_boxed_slice());
        let n = all.len();
        for part in 0..16 {
            items.push(item(format!("pairs of {what} vectors {part}"), move |w| {
                for a in all.iter().take(n).skip(part).step_by(16) {
                    pairs(w, *a, all, finite);
                    if w.full() {
                        return;
                    }
                }
            }));
        }
        for part in 0..16 {
            items.push(item(format!("scaling of {what} vectors {part}"), move |w| {
                for a in all.iter().skip(part).step_by(16) {
                    scale(w, *a, scalars);
                    if w.full() {
                        return;
                    }
                }
            }));
        }
        items.push(item(format!("length of {what} vectors"), move |w| {
            for a in all {
                norm(w, *a, finite);
            }
        }));
    }
    items.push(item("length of axis-aligned and small-angle vectors", move |w| {
        // every binade in which squares stay representable
        for e in -60..=60 {
            for m in [1.0f32, 1.25, 1.999_999_9] {
                let x = m * 2.0f32.powi(e);
                for (i, j) in [(0, 1), (1, 2), (2, 0)] {
                    for s in [1.0f32, -1.0] {
                        let mut a = [0.0; 3];
                        a[i] = s * x;
                        norm(w, a, true);
                        a[j] = x * 0.001;
                        norm(w, a, e > -45);
                    }
                }
            }
        }
    }));
    let step = sz.pick3(2, 2, 1);
    for part in 0..8 {
        items.push(item(format!("length of vectors of mixed magnitudes {part}"), move |w| {
            let m = |e: i32, k: f32| k * 2.0f32.powi(e);
            for e in (-60 + part..=60).step_by(8) {
                for f in (-60..=60).step_by(step) {
                    for g in (-60..=60).step_by(step) {
                        norm(w, [m(e, 1.25), m(f, -1.5), m(g, 1.999_999_9)], true);
                        norm(w, [m(f, -1.0), m(g, 1.999_999_9), m(e, -1.75)], true);
                    }
                }
                if w.full() {
                    return;
                }
            }
        }));
    }
    items.push(item("constants", |w| {
        w.traces += 6;
        w.state("constants", &[0]);
        let r = w.imp("vector constants", "Vector3Float", &[], || {
            [c(V::zero()), c(V::one()), c(V::unit_x()), c(V::unit_y()), c(V::unit_z()), c(V::new(1.5, -2.5, 4.0)), c(V::default())]
        });
        let want: [A; 7] = [[0.; 3], [1.; 3], [1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [1.5, -2.5, 4.0], [0.; 3]];
        if r != Ok(want) {
            w.viol("constants: wrong value".into(), || format!("{r:?}, should be {want:?}"));
        }
    }));
    plan_of(
        items,
        "each state is one vector combined with every vector (or scalar) of its grid by every operation of the algebra; every result component is compared with the single f32 operation, or, for sums of products, with the same sum in f64 within a few rounding errors",
        vec![
            format!("all ordered pairs of vectors over {} ordinary component values ({} pairs), sums and differences also over {} extreme ones", comp.len(), comp.len().pow(6), odd.len()),
            format!("all those vectors by {} scalars", scalars.len()),
            "lengths and directions of all those vectors and of every binade from 2^-60 to 2^60 along and near the axes".into(),
            format!("lengths and directions of vectors whose components are in any three binades ({})", sz.pick3("every second", "every second", "all")),
        ],
    )
}
