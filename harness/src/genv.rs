//! Bounded enumeration of value trees: skeletons (every combination of list lengths and
//! alternatives up to a bound), fills, single-leaf and pairwise sweeps over alphabets.
use crate::bind::EnumInfo;
use crate::spec::{Count, Num, RecTy, Ty};
use crate::val::Val;
use std::collections::{BTreeSet, HashSet};
use std::sync::OnceLock;

#[derive(Clone, Copy)]
pub enum Leaf {
    Int(Num, usize),
    Enum(&'static EnumInfo),
    Flags(usize, u64),
    Marking,
    /// byte of an opaque section: parent path plus offset
    Raw,
}

pub fn wmask(w: usize) -> u64 {
    if w >= 8 { u64::MAX } else { (1u64 << (8 * w)) - 1 }
}

// ------------------------------------------------------------------ skeletons
#[derive(Clone, Copy)]
pub struct Skel {
    pub max: usize,
    pub nodec: bool,
    pub cap: usize,
}

pub fn skel_rec(r: &RecTy, k: Skel) -> Vec<Vec<Val>> {
    let alts: Vec<Vec<Val>> = r.vfields().map(|(_, _, t)| skel_ty(t, k)).collect();
    let total: usize = alts.iter().map(Vec::len).fold(1, |a, b| a.saturating_mul(b));
    let mut out: Vec<Vec<Val>> = vec![];
    if total <= k.cap {
        out.push(vec![]);
        for a in &alts {
            let mut n = Vec::with_capacity(out.len() * a.len());
            for o in &out {
                for x in a {
                    let mut o2 = o.clone();
                    o2.push(x.clone());
                    n.push(o2);
                }
            }
            out = n;
        }
        return out;
    }
    // all lists at each alternative alone, then every pair of fields at every pair of alternatives
    let base: Vec<Val> = alts.iter().map(|a| a[(1).min(a.len() - 1)].clone()).collect();
    out.push(alts.iter().map(|a| a[0].clone()).collect());
    out.push(base.clone());
    out.push(alts.iter().map(|a| a[a.len() - 1].clone()).collect());
    let var: Vec<usize> = (0..alts.len()).filter(|&i| alts[i].len() > 1).collect();
    for (a, &i) in var.iter().enumerate() {
        for x in &alts[i] {
            let mut b = base.clone();
            b[i] = x.clone();
            out.push(b.clone());
            let mut z: Vec<Val> = alts.iter().map(|a| a[0].clone()).collect();
            z[i] = x.clone();
            out.push(z);
            if out.len() > k.cap * 2 {
                continue;
            }
            for &j in &var[a + 1..] {
                for y in alts[j].iter().take(4) {
                    let mut c = b.clone();
                    c[j] = y.clone();
                    out.push(c);
                }
            }
        }
    }
    out
}

fn skel_list(e: &Ty, k: Skel) -> Vec<Val> {
    let inner = Skel { cap: 64, ..k };
    let el = skel_ty(e, inner);
    let mut out = vec![Val::L(vec![])];
    for n in 1..=k.max {
        let tuples = el.len().saturating_pow(n as u32);
        if tuples <= 200 {
            let mut idx = vec![0; n];
            loop {
                out.push(Val::L(idx.iter().map(|&i| el[i].clone()).collect()));
                let mut p = 0;
                while p < n {
                    idx[p] += 1;
                    if idx[p] < el.len() {
                        break;
                    }
                    idx[p] = 0;
                    p += 1;
                }
                if p == n {
                    break;
                }
            }
        } else {
            for s in 0..el.len() {
                out.push(Val::L((0..n).map(|i| el[(s + i) % el.len()].clone()).collect()));
                out.push(Val::L((0..n).map(|i| el[(s * (i + 1)) % el.len()].clone()).collect()));
            }
        }
    }
    out
}

fn skel_ty(t: &Ty, k: Skel) -> Vec<Val> {
    match t {
        Ty::Int(..) | Ty::Flags(..) => vec![Val::U(0)],
        Ty::Enum(e) => vec![Val::U(e.default)],
        Ty::Pad(_) => vec![],
        Ty::Marking => vec![Val::Str(String::new())],
        Ty::Rec(r) => skel_rec(r, k).into_iter().map(Val::S).collect(),
        Ty::Arr(e, n) => vec![Val::L(vec![skel_ty(e, k)[0].clone(); *n])],
        Ty::List(e, Count::NoDec) => {
            if k.nodec {
                skel_list(e, Skel { max: k.max.min(2), ..k })
            } else {
                vec![Val::L(vec![])]
            }
        }
        Ty::List(e, Count::Rest) => {
            let z = skel_ty(e, k)[0].clone();
            vec![Val::L(vec![]), Val::L(vec![z; 3])]
        }
        Ty::List(e, _) => skel_list(e, k),
        Ty::OptList(e, _) => {
            if !k.nodec {
                return vec![Val::L(vec![])];
            }
            let els = skel_ty(e, k);
            let some = || Val::O(Some(Box::new(els[els.len() - 1].clone())));
            let none = || Val::O(None);
            vec![
                Val::L(vec![]),
                Val::L(vec![some()]),
                Val::L(vec![none(), some()]),
                Val::L(vec![some(), none(), some()]),
            ]
        }
        Ty::DatumValue(_) => [0usize, 1, 3, 8, 9].iter().map(|&n| Val::L(vec![Val::U(0); n])).collect(),
        Ty::OptBytes(_) => vec![
            Val::O(None),
            Val::O(Some(Box::new(Val::B(vec![0; 1])))),
            Val::O(Some(Box::new(Val::B(vec![0; 4])))),
        ],
        Ty::Variant(_, arms) => {
            arms.iter().flat_map(|(c, r)| skel_rec(r, k).into_iter().map(|s| Val::V(*c, s)).collect::<Vec<_>>()).collect()
        }
    }
}

/// the skeleton in which every list has `n` elements (NoDec lists empty unless asked)
pub fn uniform(r: &RecTy, n: usize, nodec: bool) -> Val {
    Val::S(r.vfields().map(|(_, _, t)| uniform_ty(t, n, nodec)).collect())
}
/// the value of a freshly created record: zero and empty everywhere, except that a simulation
/// address starts as site 1, application 1 (both are invalid as 0 on the wire)
pub fn fresh(r: &RecTy) -> Val {
    fn ty(t: &Ty) -> Val {
        match t {
            Ty::Rec(r) => fresh(r),
            Ty::Arr(e, k) => Val::L(vec![ty(e); *k]),
            t => uniform_ty(t, 0, false),
        }
    }
    if r.name == "SimulationAddress" {
        return Val::S(vec![Val::U(1), Val::U(1)]);
    }
    Val::S(r.vfields().map(|(_, _, t)| ty(t)).collect())
}
pub fn uniform_of(t: &Ty, n: usize) -> Val {
    uniform_ty(t, n, true)
}
fn uniform_ty(t: &Ty, n: usize, nodec: bool) -> Val {
    match t {
        Ty::Int(..) | Ty::Flags(..) => Val::U(0),
        Ty::Enum(e) => Val::U(e.default),
        Ty::Pad(_) => Val::Any,
        Ty::Marking => Val::Str(String::new()),
        Ty::Rec(r) => uniform(r, n, nodec),
        Ty::Arr(e, k) => Val::L(vec![uniform_ty(e, n, nodec); *k]),
        Ty::List(e, Count::NoDec) => Val::L(if nodec { vec![uniform_ty(e, n, nodec); n] } else { vec![] }),
        Ty::List(_, Count::Rest) => Val::L(vec![]),
        Ty::List(e, _) => Val::L(vec![uniform_ty(e, n, nodec); n]),
        Ty::OptList(e, _) => {
            Val::L(if nodec { vec![Val::O(Some(Box::new(uniform_ty(e, n, nodec)))); n] } else { vec![] })
        }
        Ty::DatumValue(_) => Val::L(vec![Val::U(0); n * 3]),
        Ty::OptBytes(_) => Val::O(if n == 0 { None } else { Some(Box::new(Val::B(vec![0; n * 2]))) }),
        Ty::Variant(_, arms) => {
            let (c, r) = arms[n % arms.len()];
            match uniform(r, n, nodec) {
                Val::S(s) => Val::V(c, s),
                _ => unreachable!(),
            }
        }
    }
}

// ------------------------------------------------------------------ fills
#[derive(Clone, Copy, Debug)]
pub enum Mode {
    Zero,
    Max,
    /// distinct bytes everywhere, starting from a seed
    Pattern(u64),
    /// 0xAA.. / 0x55.. alternating
    Alt,
}
struct Filler {
    m: Mode,
    c: u64,
}
impl Filler {
    fn byte(&mut self) -> u64 {
        self.c += 1;
        1 + (self.c * 7 + self.c / 251) % 251
    }
    fn scalar(&mut self, w: usize) -> u64 {
        match self.m {
            Mode::Zero => 0,
            Mode::Max => wmask(w),
            Mode::Pattern(_) => (0..w).fold(0, |a, _| a << 8 | self.byte()),
            Mode::Alt => {
                self.c += 1;
                (if self.c % 2 == 0 { 0x5555_5555_5555_5555u64 } else { 0xAAAA_AAAA_AAAA_AAAA }) & wmask(w)
            }
        }
    }
}
pub fn fill(r: &RecTy, v: &mut Val, m: Mode) {
    let c = if let Mode::Pattern(s) = m { s.wrapping_mul(37) } else { 0 };
    let mut f = Filler { m, c };
    fill_rec(r, v, &mut f);
}
fn fill_rec(r: &RecTy, v: &mut Val, f: &mut Filler) {
    for (i, _, t) in r.vfields() {
        fill_ty(t, v.child_mut(i), f);
    }
}
fn fill_ty(t: &Ty, v: &mut Val, f: &mut Filler) {
    match t {
        Ty::Int(_, w) => *v = Val::U(f.scalar(*w)),
        Ty::Enum(e) => {
            let i = match f.m {
                Mode::Zero => 0,
                Mode::Max => e.codes.len() - 1,
                _ => {
                    f.c += 1;
                    ((f.c * 5 + 1) % e.codes.len() as u64) as usize
                }
            };
            *v = Val::U(e.codes[i]);
        }
        Ty::Flags(w, m) => *v = Val::U(f.scalar(*w) & m),
        Ty::Pad(_) => {}
        Ty::Rec(r) => fill_rec(r, v, f),
        Ty::List(e, _) | Ty::Arr(e, _) => {
            if let Val::L(l) = v {
                for x in l {
                    fill_ty(e, x, f);
                }
            }
        }
        Ty::OptList(e, _) => {
            if let Val::L(l) = v {
                for x in l {
                    if let Val::O(Some(x)) = x {
                        fill_ty(e, x, f);
                    }
                }
            }
        }
        Ty::Marking => {
            let b = f.scalar(8);
            let s = match f.m {
                Mode::Zero => String::new(),
                Mode::Max => "ABCDEFGHIJK".to_string(),
                _ => format!("M{:x}", b).chars().take(1 + (b as usize % 11)).collect(),
            };
            *v = Val::Str(s);
        }
        Ty::DatumValue(_) => {
            if let Val::L(l) = v {
                for x in l {
                    *x = Val::U(f.scalar(1));
                }
            }
        }
        Ty::OptBytes(_) => {
            if let Val::O(Some(b)) = v {
                if let Val::B(b) = &mut **b {
                    for x in b {
                        *x = f.scalar(1) as u8;
                    }
                }
            }
        }
        Ty::Variant(_, arms) => {
            if let Val::V(tag, _) = v {
                let a = arms.iter().find(|a| a.0 == *tag).expect("engine: arm").1;
                fill_rec(a, v, f);
            }
        }
    }
}

// ------------------------------------------------------------------ counts
/// Make count, length and tag fields describe the lists. `sub` varies free choices
/// (unused bits of the last byte, factorisations). False if a count does not fit its field.
pub fn fix(r: &RecTy, v: &mut Val, sub: u64) -> bool {
    let mut ok = true;
    let mut set: Vec<(Vec<usize>, u64)> = vec![];
    for (i, _, t) in r.vfields() {
        match t {
            Ty::List(_, c) => {
                let n = v.child(i).l().len() as u64;
                let bits = |n: u64| if n == 0 { 0 } else { n * 8 - sub % 8 };
                match c {
                    Count::Field(p) => set.push((p.clone(), n)),
                    Count::Ceil8(p) => set.push((p.clone(), bits(n))),
                    Count::Div8(p) => set.push((p.clone(), n * 8)),
                    Count::Mul(p, q) => {
                        let (a, b) = match sub % 4 {
                            1 if n % 2 == 0 && n > 0 => (n / 2, 2),
                            2 if n % 2 == 0 && n > 0 => (2, n / 2),
                            3 => (1, n),
                            2 if n == 0 => (7, 0),
                            1 if n == 0 => (0, 9),
                            _ => (n, 1),
                        };
                        set.push((p.clone(), a));
                        set.push((q.clone(), b));
                    }
                    Count::Rest | Count::NoDec => {}
                }
            }
            Ty::DatumValue(p) => {
                let n = v.child(i).l().len() as u64;
                set.push((p.clone(), if n == 0 { 0 } else { n * 8 - sub % 8 }));
            }
            Ty::OptBytes(p) => {
                let n = match v.child(i) {
                    Val::O(Some(b)) => match &**b {
                        Val::B(b) => b.len() as u64,
                        _ => 0,
                    },
                    _ => 0,
                };
                set.push((p.clone(), n));
            }
            Ty::Variant(p, _) => {
                if let Val::V(tag, _) = v.child(i) {
                    set.push((p.clone(), *tag));
                }
            }
            _ => {}
        }
        ok &= fix_ty(t, v.child_mut(i), sub);
    }
    for (p, n) in set {
        if n > wmask(width_at(r, &p)) {
            ok = false;
        } else {
            *v.at_mut(&p) = Val::U(n);
        }
    }
    ok
}
fn fix_ty(t: &Ty, v: &mut Val, sub: u64) -> bool {
    match t {
        Ty::Rec(r) => fix(r, v, sub),
        Ty::List(e, _) | Ty::Arr(e, _) => {
            let mut ok = true;
            if matches!(**e, Ty::Rec(_)) {
                if let Val::L(l) = v {
                    for (k, x) in l.iter_mut().enumerate() {
                        ok &= fix_ty(e, x, sub + k as u64);
                    }
                }
            }
            ok
        }
        Ty::OptList(e, _) => {
            let mut ok = true;
            if let Val::L(l) = v {
                for x in l {
                    if let Val::O(Some(x)) = x {
                        ok &= fix_ty(e, x, sub);
                    }
                }
            }
            ok
        }
        Ty::Variant(_, arms) => {
            if let Val::V(tag, _) = v {
                let a = arms.iter().find(|a| a.0 == *tag).expect("engine: arm").1;
                return fix(a, v, sub);
            }
            true
        }
        _ => true,
    }
}
fn width_at(r: &RecTy, p: &[usize]) -> usize {
    match r.vty(p[0]) {
        Ty::Int(_, w) | Ty::Flags(w, _) => *w,
        Ty::Enum(e) => e.width,
        Ty::Rec(q) => width_at(q, &p[1..]),
        o => panic!("engine: count field {o:?}"),
    }
}

/// absolute paths of the count, length and tag fields
pub fn controls(r: &RecTy, v: &Val) -> HashSet<Vec<usize>> {
    let mut out = HashSet::new();
    ctl(r, v, &mut vec![], &mut out);
    out
}
fn ctl(r: &RecTy, v: &Val, at: &mut Vec<usize>, out: &mut HashSet<Vec<usize>>) {
    for (i, _, t) in r.vfields() {
        let mut push = |p: &Vec<usize>| {
            let mut a = at.clone();
            a.extend(p);
            out.insert(a);
        };
        match t {
            Ty::List(_, Count::Field(p) | Count::Ceil8(p) | Count::Div8(p)) | Ty::DatumValue(p) | Ty::OptBytes(p) | Ty::Variant(p, _) => {
                push(p);
            }
            Ty::List(_, Count::Mul(p, q)) => {
                push(p);
                push(q);
            }
            _ => {}
        }
        at.push(i);
        ctl_ty(t, v.child(i), at, out);
        at.pop();
    }
}
fn ctl_ty(t: &Ty, v: &Val, at: &mut Vec<usize>, out: &mut HashSet<Vec<usize>>) {
    match t {
        Ty::Rec(r) => ctl(r, v, at, out),
        Ty::List(e, _) | Ty::Arr(e, _) => {
            for (k, x) in v.l().iter().enumerate() {
                at.push(k);
                ctl_ty(e, x, at, out);
                at.pop();
            }
        }
        Ty::OptList(e, _) => {
            for (k, x) in v.l().iter().enumerate() {
                if let Val::O(Some(x)) = x {
                    at.push(k);
                    at.push(0);
                    ctl_ty(e, x, at, out);
                    at.pop();
                    at.pop();
                }
            }
        }
        Ty::Variant(_, arms) => {
            if let Val::V(tag, _) = v {
                let a = arms.iter().find(|a| a.0 == *tag).expect("engine: arm").1;
                ctl(a, v, at, out);
            }
        }
        _ => {}
    }
}

// ------------------------------------------------------------------ leaves
pub fn leaves(r: &RecTy, v: &Val) -> Vec<(Vec<usize>, Leaf)> {
    let mut out = vec![];
    lv(r, v, &mut vec![], &mut out);
    out
}
fn lv(r: &RecTy, v: &Val, at: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, Leaf)>) {
    for (i, _, t) in r.vfields() {
        at.push(i);
        lv_ty(t, v.child(i), at, out);
        at.pop();
    }
}
fn lv_ty(t: &Ty, v: &Val, at: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, Leaf)>) {
    match t {
        Ty::Int(k, w) => out.push((at.clone(), Leaf::Int(*k, *w))),
        Ty::Enum(e) => out.push((at.clone(), Leaf::Enum(e))),
        Ty::Flags(w, m) => out.push((at.clone(), Leaf::Flags(*w, *m))),
        Ty::Pad(_) => {}
        Ty::Marking => out.push((at.clone(), Leaf::Marking)),
        Ty::Rec(r) => lv(r, v, at, out),
        Ty::List(e, _) | Ty::Arr(e, _) => {
            for (k, x) in v.l().iter().enumerate() {
                at.push(k);
                lv_ty(e, x, at, out);
                at.pop();
            }
        }
        Ty::OptList(e, _) => {
            for (k, x) in v.l().iter().enumerate() {
                if let Val::O(Some(x)) = x {
                    at.push(k);
                    at.push(0);
                    lv_ty(e, x, at, out);
                    at.pop();
                    at.pop();
                }
            }
        }
        Ty::DatumValue(_) => {
            for k in 0..v.l().len() {
                at.push(k);
                out.push((at.clone(), Leaf::Int(Num::U, 1)));
                at.pop();
            }
        }
        Ty::OptBytes(_) => {
            if let Val::O(Some(b)) = v {
                if let Val::B(b) = &**b {
                    for k in 0..b.len() {
                        at.push(k);
                        out.push((at.clone(), Leaf::Raw));
                        at.pop();
                    }
                }
            }
        }
        Ty::Variant(_, arms) => {
            if let Val::V(tag, _) = v {
                let a = arms.iter().find(|a| a.0 == *tag).expect("engine: arm").1;
                lv(a, v, at, out);
            }
        }
    }
}
/// Set a leaf; returns the previous value.
pub fn put(v: &mut Val, p: &[usize], l: Leaf, x: &Val) -> Val {
    if let Leaf::Raw = l {
        let parent = v.at_mut(&p[..p.len() - 1]);
        if let Val::O(Some(b)) = parent {
            if let Val::B(b) = &mut **b {
                let k = p[p.len() - 1];
                let old = Val::U(u64::from(b[k]));
                b[k] = x.u() as u8;
                return old;
            }
        }
        panic!("engine: raw leaf");
    }
    std::mem::replace(v.at_mut(p), x.clone())
}

// ------------------------------------------------------------------ alphabets
/// integers mentioned in the crate's code (not its enumeration tables): likely special values
pub fn literals() -> &'static (Vec<u64>, Vec<f64>) {
    static L: OnceLock<(Vec<u64>, Vec<f64>)> = OnceLock::new();
    L.get_or_init(|| {
        let mut ints = BTreeSet::new();
        let mut fl: Vec<f64> = vec![];
        let mut dirs = vec![std::path::PathBuf::from("/repo/src")];
        while let Some(d) = dirs.pop() {
            let Ok(rd) = std::fs::read_dir(&d) else { continue };
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() {
                    dirs.push(p);
                } else if p.extension().is_some_and(|x| x == "rs") {
                    let Ok(t) = std::fs::read_to_string(&p) else { continue };
                    let big = t.len() > 200_000;
                    for line in t.lines() {
                        let line = line.split("//").next().unwrap_or("");
                        if big && !(line.contains("if ") || line.contains("==") || line.contains("match") || line.contains("=>")) {
                            continue;
                        }
                        scan(line, &mut ints, &mut fl);
                    }
                }
            }
        }
        let mut v: Vec<u64> = ints.into_iter().collect();
        v.truncate(600);
        fl.truncate(100);
        (v, fl)
    })
}
fn scan(line: &str, ints: &mut BTreeSet<u64>, fl: &mut Vec<f64>) {
    let b = line.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
            let s = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || (b[i] == b'.' && i + 1 < b.len() && b[i + 1].is_ascii_digit())) {
                i += 1;
            }
            let t: String = line[s..i].chars().filter(|c| *c != '_').collect();
            let strip = |t: &str| {
                let mut t = t.to_string();
                for suf in ["usize", "u128", "u64", "u32", "u16", "u8", "i64", "i32", "i16", "i8", "f32", "f64", "isize"] {
                    if let Some(x) = t.strip_suffix(suf) {
                        t = x.to_string();
                        break;
                    }
                }
                t
            };
            let r = if let Some(h) = t.strip_prefix("0x") {
                u64::from_str_radix(&h.chars().take_while(|c| c.is_ascii_hexdigit()).collect::<String>(), 16).ok()
            } else if let Some(h) = t.strip_prefix("0b") {
                u64::from_str_radix(&h.chars().take_while(|c| *c == '0' || *c == '1').collect::<String>(), 2).ok()
            } else {
                strip(&t).parse::<u64>().ok()
            };
            match r {
                Some(x) => {
                    ints.insert(x);
                }
                None => {
                    if let Ok(f) = strip(&t).parse::<f64>() {
                        fl.push(f);
                    }
                }
            }
        } else {
            i += 1;
        }
    }
}

/// What conditions in `/repo/src` mention: numbers, and members of enumerations. A choice of bounds for
/// products of three and four fields, which a larger alphabet could not afford.
pub struct Hot {
    ints: Vec<u64>,
    floats: Vec<f64>,
    members: std::collections::HashSet<(String, String)>,
}
pub fn hot() -> &'static Hot {
    static H: OnceLock<Hot> = OnceLock::new();
    H.get_or_init(|| {
        let (mut ints, mut consts) = (BTreeSet::new(), BTreeSet::new());
        let (mut floats, mut members) = (vec![], std::collections::HashSet::new());
        let mut files = vec![];
        let mut dirs = vec![std::path::PathBuf::from("/repo/src")];
        while let Some(d) = dirs.pop() {
            let Ok(rd) = std::fs::read_dir(&d) else { continue };
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() {
                    dirs.push(p);
                } else if p.extension().is_some_and(|x| x == "rs") {
                    files.push(p);
                }
            }
        }
        files.sort();
        for p in files {
            let Ok(t) = std::fs::read_to_string(&p) else { continue };
            let big = t.len() > 200_000;
            for line in t.lines() {
                if line.contains("#[cfg(test)]") {
                    break;
                }
                let line = line.split("//").next().unwrap_or("");
                let cond = ["if ", "==", "!=", "&&", "||", "matches!", " % ", " & "].iter().any(|x| line.contains(x))
                    || (!big && [" < ", " > ", " <= ", " >= ", "=>", "match "].iter().any(|x| line.contains(x)));
                if cond {
                    scan(line, &mut ints, &mut floats);
                    for w in line.split(|c: char| !(c.is_alphanumeric() || c == '_' || c == ':')) {
                        let mut it = w.split("::").collect::<Vec<_>>().into_iter().rev();
                        if let (Some(m), Some(e)) = (it.next(), it.next()) {
                            members.insert((e.to_string(), m.to_string()));
                        }
                    }
                    for (name, f) in [("FRAC_PI_2", std::f64::consts::FRAC_PI_2), ("FRAC_PI_4", std::f64::consts::FRAC_PI_4), ("TAU", std::f64::consts::TAU)] {
                        if line.contains(name) {
                            floats.push(f);
                        }
                    }
                    if line.contains("consts::PI") || line.contains(" PI") {
                        floats.push(std::f64::consts::PI);
                    }
                } else if (line.contains("const ") || line.contains("static ")) && !line.contains("LENGTH") {
                    scan(line, &mut consts, &mut floats);
                }
            }
        }
        let mut ints: Vec<u64> = ints.into_iter().filter(|x| *x > 1).take(14).collect();
        for x in consts {
            if x > 1 && ints.len() < 14 && !ints.contains(&x) {
                ints.push(x);
            }
        }
        floats.sort_by(f64::total_cmp);
        floats.dedup();
        floats.truncate(6);
        Hot { ints, floats, members }
    })
}
/// numbers that conditions mention, and those around them
pub fn hot_numbers() -> impl Iterator<Item = usize> {
    hot().ints.iter().flat_map(|x| [x.saturating_sub(1), *x, x.saturating_add(1)]).map(|x| usize::try_from(x).unwrap_or(usize::MAX))
}
fn hot_alphabet(l: Leaf) -> Vec<Val> {
    let h = hot();
    let mut v: Vec<u64> = match l {
        Leaf::Int(Num::F, w) => {
            let f = [0.0, 1.0].into_iter().chain(h.floats.iter().copied()).chain(h.ints.iter().take(3).map(|x| *x as f64));
            f.map(|f| if w == 4 { u64::from((f as f32).to_bits()) } else { f.to_bits() }).collect()
        }
        Leaf::Int(_, w) => [0, 1, wmask(w)].into_iter().chain(h.ints.iter().copied().filter(|x| *x <= wmask(w))).collect(),
        Leaf::Raw => [0, 255].into_iter().chain(h.ints.iter().copied().filter(|x| *x <= 255)).collect(),
        Leaf::Enum(e) => {
            let mut v = vec![e.codes[0], e.codes[e.codes.len() - 1]];
            v.extend(e.table.iter().filter(|(_, n)| h.members.contains(&(e.name.to_string(), (*n).to_string()))).map(|(c, _)| *c).take(10));
            v.extend(h.ints.iter().copied().filter(|x| e.has(*x)).take(6));
            v
        }
        Leaf::Flags(_, m) => [0, m].into_iter().chain(h.ints.iter().copied().filter(|x| x & !m == 0)).collect(),
        Leaf::Marking => return alphabet(l, Depth::Small),
    };
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(*x));
    v.into_iter().map(Val::U).collect()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Depth {
    /// what conditions in the code mention, and the ends
    Hot,
    /// pairwise sweeps
    Tiny,
    /// sweeps of three fields: the low codes and numbers
    Small,
    /// deeper pairwise sweeps
    Mid,
    /// the codes: every member of an enumeration, many small numbers, single flags
    Codes,
    Quick,
    Thorough,
}

fn int_alphabet(w: usize, d: Depth) -> Vec<u64> {
    static C: OnceLock<Vec<Vec<u64>>> = OnceLock::new();
    if w == 1 {
        return (0..256).collect();
    }
    if w == 2 && d == Depth::Thorough {
        return (0..65536).collect();
    }
    C.get_or_init(|| {
        (0..=8)
            .map(|w| {
                if w == 0 {
                    return vec![];
                }
                let m = wmask(w);
                let mut s = BTreeSet::new();
                for x in [0u64, 1, 2, 3, 7, 8, 9, 10, 100, 255, 256, 257, 1000, 65534, 65535, 65536, m, m - 1, m >> 1, (m >> 1) + 1, (m >> 1) - 1] {
                    s.insert(x & m);
                }
                for k in 0..8 * w {
                    s.insert(1u64 << k);
                    s.insert(m & !(1u64 << k));
                    s.insert(m >> k);
                    for x in [3u64, 5, 7] {
                        s.insert((x << k) & m);
                    }
                    s.insert((1u64 << k).wrapping_sub(1) & m);
                    s.insert(((1u64 << k) + 1) & m);
                }
                // decimal and time units, repeated bytes and digits
                let mut ten = 1u64;
                while let Some(x) = ten.checked_mul(10) {
                    ten = x;
                    for y in [ten - 1, ten, ten + 1, ten / 2, ten / 4] {
                        if y <= m {
                            s.insert(y);
                        }
                    }
                }
                for x in [12u64, 24, 60, 90, 180, 360, 365, 720, 1440, 3600, 7200, 18_000, 86_400, 999, 1023, 1025, 1472, 1500, 8191, 8193] {
                    for y in [x - 1, x, x + 1] {
                        if y <= m {
                            s.insert(y);
                        }
                    }
                }
                for x in 1..=15u64 {
                    s.insert((x * 0x1111_1111_1111_1111) & m);
                    s.insert((x * 0x0101_0101_0101_0101) & m);
                }
                for k in 0..w {
                    s.insert(0xFFu64 << (8 * k));
                    s.insert(0x80u64 << (8 * k));
                    s.insert(0x7Fu64 << (8 * k));
                    s.insert(m & !(0xFFu64 << (8 * k)));
                }
                s.insert(0x0102_0304_0506_0708 >> (64 - 8 * w));
                s.insert(0xFEDC_BA98_7654_3210 >> (64 - 8 * w));
                for &x in &literals().0 {
                    for y in [x.wrapping_sub(1), x, x.wrapping_add(1)] {
                        if y <= m {
                            s.insert(y);
                        }
                    }
                    // negated
                    s.insert(x.wrapping_neg() & m);
                }
                s.into_iter().collect()
            })
            .collect()
    })[w]
        .clone()
}

fn float_alphabet(w: usize, d: Depth) -> Vec<u64> {
    let mut s: BTreeSet<u64> = BTreeSet::new();
    let fs = [
        0.0f64, -0.0, 1.0, -1.0, 0.5, 2.0, 3.141_592_653_589_793, -2.718_281_828, 1e-3, 1e10, -1e10, 100.0, -100.0, 359.99, 1e30, 1e-30,
        f64::INFINITY, f64::NEG_INFINITY, f64::NAN,
    ];
    let lits: Vec<f64> = literals()
        .1
        .iter()
        .copied()
        .chain(if d == Depth::Thorough { literals().0.iter().map(|x| *x as f64).collect::<Vec<_>>() } else { vec![] })
        .collect();
    for f in fs.into_iter().chain(lits.iter().copied()).chain(lits.iter().map(|x| -x)) {
        s.insert(if w == 4 { u64::from((f as f32).to_bits()) } else { f.to_bits() });
    }
    if w == 4 {
        for x in [f32::MIN_POSITIVE, f32::MAX, f32::MIN, f32::EPSILON] {
            s.insert(u64::from(x.to_bits()));
        }
        for x in [1u64, 0x7FFF_FFFF, 0xFFFF_FFFF, 0x7FA0_0001, 0xFFC0_1234, 0x007F_FFFF, 0x8000_0001, 0x0102_0304] {
            s.insert(x);
        }
    } else {
        for x in [f64::MIN_POSITIVE, f64::MAX, f64::MIN, f64::EPSILON, 16_777_217.0, 0.1] {
            s.insert(x.to_bits());
        }
        for x in [1u64, u64::MAX, 0x7FF4_0000_0000_0001, 0xFFF8_0000_0000_1234, 0x8000_0000_0000_0001, 0x0102_0304_0506_0708] {
            s.insert(x);
        }
    }
    // a ladder of magnitudes, decimal and angular values, and what lies next to and around literals
    let put = |s: &mut BTreeSet<u64>, f: f64, near: bool| {
        for g in [f, -f] {
            let b = if w == 4 { u64::from((g as f32).to_bits()) } else { g.to_bits() };
            s.insert(b);
            if near && f != 0.0 && f.is_finite() {
                s.insert(b - 1);
                s.insert(b + 1);
            }
        }
    };
    let (lo, hi) = if w == 4 { (-126, 127) } else { (-1022, 1023) };
    for e in lo..=hi {
        if w == 8 && !(-130..=130).contains(&e) && e % 16 != 0 && d != Depth::Thorough {
            continue;
        }
        let p = 2f64.powi(e);
        put(&mut s, p, e.abs() <= 64);
        put(&mut s, p * 1.5, false);
    }
    for e in -12..=18 {
        for m in [1.0, 1.25, 2.0, 2.5, 5.0, 9.99] {
            put(&mut s, m * 10f64.powi(e), false);
        }
    }
    for k in 1..=48 {
        put(&mut s, f64::from(k) * std::f64::consts::PI / 12.0, true);
        put(&mut s, f64::from(k) * 15.0, k % 3 == 0);
    }
    for k in 1..=20 {
        put(&mut s, f64::from(k), false);
        put(&mut s, f64::from(k) / 8.0, false);
        put(&mut s, f64::from(k) / 10.0, false);
    }
    for f in [6_378_137.0, 6_356_752.314_245, 6_371_000.0, 299_792_458.0, 343.0, 340.29, 9.806_65, 1852.0, 0.3048, 3600.0, 86_400.0, 1e5, 65_535.0, 65_536.0, 32_767.0, 32_768.0, 2_147_483_647.0, 4_294_967_295.0] {
        put(&mut s, f, true);
    }
    for &f in &lits {
        for m in [0.5, 0.9, 1.1, 1.5, 2.0] {
            put(&mut s, f * m, false);
        }
        put(&mut s, f, true);
        put(&mut s, f + 1.0, false);
        put(&mut s, f - 1.0, false);
    }
    let m = wmask(w);
    s.retain(|x| *x <= m);
    let step = if d == Depth::Thorough { 1 } else { 5 };
    for k in (0..8 * w).step_by(step) {
        s.insert(1u64 << k);
        s.insert(m & !(1u64 << k));
    }
    s.into_iter().collect()
}

pub fn markings() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for n in 0..=11usize {
        v.push("ABCDEFGHIJKLMNOP"[..n].to_string());
    }
    for s in [
        " ", "  x  ", "tail ", "a\0b", "\0lead", "\0", "0", "MARKED", "T-72 #1", "\t\n", "é", "ééééé", "日本", "日本語", "\u{10348}x", "\u{7f}", "\u{1}",
        "aaaaaaaaaa", "99999999999", "           ", "abcdefghiéx", "~!@#$%^&*()",
    ] {
        if s.len() <= 11 && !s.ends_with('\0') {
            v.push(s.to_string());
        }
    }
    v
}

pub fn alphabet(l: Leaf, d: Depth) -> Vec<Val> {
    let u = |v: Vec<u64>| v.into_iter().map(Val::U).collect::<Vec<_>>();
    if d == Depth::Hot {
        return hot_alphabet(l);
    }
    if d == Depth::Tiny {
        return match l {
            Leaf::Int(Num::F, 4) => u(vec![0, 0x3F80_0000, 0x7FC0_0001]),
            Leaf::Int(Num::F, _) => u(vec![0, 0x3FF0_0000_0000_0000, 0x7FF8_0000_0000_0001]),
            Leaf::Int(_, w) => u(vec![0, 1, wmask(w)]),
            Leaf::Enum(e) => {
                let mut v = vec![e.codes[0], e.codes[e.codes.len() - 1], e.codes[e.codes.len() / 2]];
                v.dedup();
                u(v)
            }
            Leaf::Flags(_, m) => u(vec![0, m]),
            Leaf::Marking => vec![Val::Str(String::new()), Val::Str("ABCDEFGHIJK".into())],
            Leaf::Raw => u(vec![0, 255]),
        };
    }
    if d == Depth::Small {
        return match l {
            Leaf::Int(Num::F, 4) => u(vec![0, 0x3F80_0000]),
            Leaf::Int(Num::F, _) => u(vec![0, 0x3FF0_0000_0000_0000]),
            Leaf::Int(_, w) => u(vec![0, 1, 2, 3, wmask(w)]),
            Leaf::Enum(e) => {
                let mut v: Vec<u64> = e.codes.iter().copied().take(10).collect();
                v.push(e.codes[e.codes.len() - 1]);
                v.dedup();
                u(v)
            }
            Leaf::Flags(_, m) => u(vec![0, m & m.wrapping_neg(), m]),
            Leaf::Marking => vec![Val::Str(String::new()), Val::Str("ABC".into())],
            Leaf::Raw => u(vec![0, 1]),
        };
    }
    if d == Depth::Codes {
        return match l {
            Leaf::Enum(e) => u(e.codes.clone()),
            Leaf::Int(Num::F, _) | Leaf::Marking => vec![],
            Leaf::Int(_, 1) | Leaf::Raw => u((0..=34).chain([63, 64, 65, 100, 126, 127, 128, 129, 200, 253, 254, 255]).collect()),
            Leaf::Int(_, w) => u((3..=17).chain([32, 64, 100, 128, 255, 256, 257, 1000, 0x8000, 0xFFFE]).filter(|x| *x <= wmask(w)).collect()),
            Leaf::Flags(_, m) => u((0..64).map(|k| m & (1 << k)).filter(|x| *x != 0).collect()),
        };
    }
    if d == Depth::Mid {
        return match l {
            Leaf::Int(Num::F, 4) => u(vec![0, 0x8000_0000, 0x3F80_0000, 0xC2C8_0000, 0x7F80_0000, 0x7FC0_0001, 1, 0x0102_0304]),
            Leaf::Int(Num::F, _) => u(vec![
                0,
                1 << 63,
                0x3FF0_0000_0000_0000,
                0xC059_0000_0000_0000,
                0x7FF0_0000_0000_0000,
                0x7FF8_0000_0000_0001,
                1,
                0x0102_0304_0506_0708,
            ]),
            Leaf::Int(_, w) => {
                let m = wmask(w);
                let mut v = vec![0, 1, 2, 7, m >> 1, (m >> 1) + 1, m - 1, m, 0xA1B2_C3D4_E5F6_0718 & m];
                v.sort_unstable();
                v.dedup();
                u(v)
            }
            Leaf::Enum(e) => {
                let k = e.codes.len();
                let mut v: Vec<u64> = (0..8).map(|i| e.codes[i * (k - 1) / 7]).collect();
                v.dedup();
                u(v)
            }
            Leaf::Flags(_, m) => u(vec![0, m, m & 0x5555_5555, m & 0xAAAA_AAAA]),
            Leaf::Marking => ["", "A", "ABCDEFGHIJK", "x y"].iter().map(|s| Val::Str((*s).into())).collect(),
            Leaf::Raw => u(vec![0, 1, 0x7F, 0x80, 255]),
        };
    }
    match l {
        Leaf::Int(Num::F, w) => {
            static F: OnceLock<Vec<Vec<u64>>> = OnceLock::new();
            let f = F.get_or_init(|| [(4, Depth::Quick), (8, Depth::Quick), (4, Depth::Thorough), (8, Depth::Thorough)].iter().map(|&(w, d)| float_alphabet(w, d)).collect());
            u(f[usize::from(w == 8) + 2 * usize::from(d == Depth::Thorough)].clone())
        }
        Leaf::Int(_, w) => u(int_alphabet(w, d)),
        Leaf::Enum(e) => u(e.codes.clone()),
        Leaf::Flags(w, m) => {
            if w <= 2 {
                u((0..=wmask(w)).filter(|x| x & !m == 0).collect())
            } else {
                u(int_alphabet(w, d).into_iter().map(|x| x & m).collect())
            }
        }
        Leaf::Marking => markings().into_iter().map(Val::Str).collect(),
        Leaf::Raw => u((0..256).collect()),
    }
}
