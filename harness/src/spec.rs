//! The reference model: the wire specification (spec/wire.txt) and an interpreter
//! that encodes and decodes value trees by it, independently of the crate under check.
use crate::bind::{EnumInfo, enum_by_name};
use crate::val::Val;
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Num {
    U,
    I,
    F,
}

#[derive(Debug, Clone)]
pub enum Count {
    /// value of a field of the enclosing record
    Field(Vec<usize>),
    /// ceil(field / 8)
    Ceil8(Vec<usize>),
    /// floor(field / 8)
    Div8(Vec<usize>),
    /// product of two fields
    Mul(Vec<usize>, Vec<usize>),
    /// everything up to the end of the buffer
    Rest,
    /// the wire carries no count for this list (known limitation of the layout)
    NoDec,
}

#[derive(Debug)]
pub enum Ty {
    Int(Num, usize),
    Enum(&'static EnumInfo),
    /// width, mask of defined flags
    Flags(usize, u64),
    Pad(usize),
    Rec(&'static RecTy),
    List(Box<Ty>, Count),
    /// list of optional elements
    OptList(Box<Ty>, Count),
    Arr(Box<Ty>, usize),
    /// 11-byte text
    Marking,
    /// bytes of a bit length, zero padded to 64 bits
    DatumValue(Vec<usize>),
    /// opaque optional section, length in a field stamped by the encoder
    OptBytes(Vec<usize>),
    Variant(Vec<usize>, Vec<(u64, &'static RecTy)>),
}

#[derive(Debug)]
pub struct RecTy {
    pub name: String,
    /// (name, type, index among non-padding fields)
    pub fields: Vec<(String, Ty, Option<usize>)>,
    /// pdu type and family if this is a PDU
    pub pdu: Option<(u8, u8)>,
}

impl RecTy {
    pub fn field_names(&self) -> Vec<&str> {
        self.fields.iter().filter(|f| f.2.is_some()).map(|f| f.0.as_str()).collect()
    }
    pub fn vfields(&self) -> impl Iterator<Item = (usize, &str, &Ty)> {
        self.fields.iter().filter_map(|(n, t, i)| i.map(|i| (i, n.as_str(), t)))
    }
    pub fn vty(&self, i: usize) -> &Ty {
        &self.fields.iter().find(|f| f.2 == Some(i)).expect("engine: field index").1
    }
    /// resolve "a.b" to a value path
    pub fn path(&self, p: &str) -> Vec<usize> {
        let mut out = vec![];
        let mut rec = self;
        let parts: Vec<&str> = p.split('.').collect();
        for (k, part) in parts.iter().enumerate() {
            let (_, t, i) = rec
                .fields
                .iter()
                .find(|f| f.0 == *part && f.2.is_some())
                .unwrap_or_else(|| panic!("engine: no field {part} in {}", rec.name));
            out.push(i.unwrap());
            if k + 1 < parts.len() {
                match t {
                    Ty::Rec(r) => rec = r,
                    _ => panic!("engine: path {p} through non-record"),
                }
            }
        }
        out
    }
    pub fn path_name(&self, p: &[usize]) -> String {
        name_of(&PathTy::Rec(self), p)
    }
}

enum PathTy<'a> {
    Rec(&'a RecTy),
    Ty(&'a Ty),
}
fn name_of(t: &PathTy, p: &[usize]) -> String {
    if p.is_empty() {
        return String::new();
    }
    let rec = match t {
        PathTy::Rec(r) => r,
        PathTy::Ty(Ty::Rec(r)) => *r,
        PathTy::Ty(Ty::List(e, _) | Ty::Arr(e, _)) => {
            return format!("[{}]{}", p[0], name_of(&PathTy::Ty(e), &p[1..]));
        }
        PathTy::Ty(Ty::OptList(e, _)) => {
            let rest = if p.len() > 1 { &p[2..] } else { &p[1..] };
            return format!("[{}]?{}", p[0], name_of(&PathTy::Ty(e), rest));
        }
        PathTy::Ty(_) => return format!(".{p:?}"),
    };
    let f = rec.fields.iter().find(|f| f.2 == Some(p[0]));
    match f {
        Some((n, t, _)) => format!(".{}{}", n, name_of(&PathTy::Ty(t), &p[1..])),
        None => format!(".?{}", p[0]),
    }
}

/// The decoder needed byte `needed` (exclusive end) but input ended.
#[derive(Debug, Clone, Copy)]
pub struct Short;

pub struct Spec {
    pub recs: HashMap<String, &'static RecTy>,
}

pub fn spec() -> &'static Spec {
    static S: OnceLock<Spec> = OnceLock::new();
    S.get_or_init(parse)
}

fn parse() -> Spec {
    let txt = concat!(include_str!("../spec/wire.txt"), "\n", include_str!("../spec/own.txt"));
    // gather blocks
    let mut blocks: Vec<(String, Option<(u8, u8)>, Vec<(String, String)>)> = vec![];
    for line in txt.lines() {
        let line = line.split("//").next().unwrap().trim_end();
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        if let Some(r) = line.strip_prefix("record ") {
            blocks.push((r.trim().into(), None, vec![]));
        } else if let Some(r) = line.strip_prefix("pdu ") {
            let w: Vec<&str> = r.split_whitespace().collect();
            let g = |k: &str| {
                w.iter().find_map(|x| x.strip_prefix(k)).unwrap().parse::<u8>().unwrap()
            };
            blocks.push((w[0].into(), Some((g("type="), g("family="))), vec![]));
        } else {
            let (n, t) = line.split_once(':').expect("engine: spec line");
            blocks.last_mut().unwrap().2.push((n.trim().into(), t.trim().into()));
        }
    }
    let mut recs: HashMap<String, &'static RecTy> = HashMap::new();
    // dependencies first: repeat until all are resolved
    let mut todo = blocks;
    while !todo.is_empty() {
        let before = todo.len();
        let mut next = vec![];
        for b in todo {
            match build_rec(&b, &recs) {
                Some(r) => {
                    recs.insert(b.0.clone(), Box::leak(Box::new(r)));
                }
                None => next.push(b),
            }
        }
        assert!(next.len() < before, "engine: unresolved {:?}", next.iter().map(|b| &b.0).collect::<Vec<_>>());
        todo = next;
    }
    Spec { recs }
}

fn build_rec(
    b: &(String, Option<(u8, u8)>, Vec<(String, String)>),
    recs: &HashMap<String, &'static RecTy>,
) -> Option<RecTy> {
    let mut r = RecTy { name: b.0.clone(), fields: vec![], pdu: b.1 };
    let mut vi = 0;
    for (n, t) in &b.2 {
        if n == "pad" {
            r.fields.push((n.clone(), Ty::Pad(t.parse().unwrap()), None));
            continue;
        }
        let ty = build_ty(t, &r, recs)?;
        r.fields.push((n.clone(), ty, Some(vi)));
        vi += 1;
    }
    Some(r)
}

fn build_ty(t: &str, r: &RecTy, recs: &HashMap<String, &'static RecTy>) -> Option<Ty> {
    let t = t.trim();
    let prim = |t: &str| {
        Some(match t {
            "u8" => Ty::Int(Num::U, 1),
            "u16" => Ty::Int(Num::U, 2),
            "u32" => Ty::Int(Num::U, 4),
            "u64" => Ty::Int(Num::U, 8),
            "i8" => Ty::Int(Num::I, 1),
            "i16" => Ty::Int(Num::I, 2),
            "i32" => Ty::Int(Num::I, 4),
            "i64" => Ty::Int(Num::I, 8),
            "f32" => Ty::Int(Num::F, 4),
            "f64" => Ty::Int(Num::F, 8),
            _ => return None,
        })
    };
    if let Some(p) = prim(t) {
        return Some(p);
    }
    if let Some(n) = t.strip_prefix("enum:") {
        return Some(Ty::Enum(enum_by_name(n)));
    }
    // an enumeration in a wider field than its own
    if let Some((w, n)) = t.strip_prefix("enum").and_then(|x| x.split_once(':')) {
        let e = enum_by_name(n);
        return Some(Ty::Enum(Box::leak(Box::new(e.widened(w.parse().unwrap())))));
    }
    if let Some(n) = t.strip_prefix("flags:") {
        let (w, m) = crate::bind::flag_mask(n);
        return Some(Ty::Flags(w, m));
    }
    if t == "marking" {
        return Some(Ty::Marking);
    }
    let arg = |pre: &str| t.strip_prefix(pre).and_then(|x| x.strip_suffix(')')).map(str::trim);
    if let Some(a) = arg("datumvalue(") {
        return Some(Ty::DatumValue(r.path(a)));
    }
    if let Some(a) = arg("optbytes(") {
        return Some(Ty::OptBytes(r.path(a)));
    }
    if let Some(x) = t.strip_prefix("variant(") {
        let (a, rest) = x.split_once(')').unwrap();
        let mut arms = vec![];
        for w in rest.split_whitespace() {
            let (c, n) = w.split_once('=').unwrap();
            arms.push((c.parse().unwrap(), *recs.get(n)?));
        }
        return Some(Ty::Variant(r.path(a), arms));
    }
    if let Some(x) = t.strip_prefix('[').and_then(|x| x.strip_suffix(']')) {
        // split at the last ';' or '#'
        let i = x.rfind([';', '#']).expect("engine: list syntax");
        let (el, c) = (x[..i].trim(), x[i + 1..].trim());
        if x.as_bytes()[i] == b'#' {
            return Some(Ty::Arr(Box::new(build_ty(el, r, recs)?), c.parse().unwrap()));
        }
        let (opt, el) = match el.strip_prefix('?') {
            Some(e) => (true, e),
            None => (false, el),
        };
        let carg = |pre: &str| c.strip_prefix(pre).and_then(|x| x.strip_suffix(')'));
        let cnt = if c == "nodec" {
            Count::NoDec
        } else if c == "rest" {
            Count::Rest
        } else if let Some(a) = carg("ceil8(") {
            Count::Ceil8(r.path(a))
        } else if let Some(a) = carg("div8(") {
            Count::Div8(r.path(a))
        } else if let Some(a) = carg("mul(") {
            let (x, y) = a.split_once(',').unwrap();
            Count::Mul(r.path(x), r.path(y))
        } else {
            Count::Field(r.path(c))
        };
        let e = Box::new(build_ty(el, r, recs)?);
        return Some(if opt { Ty::OptList(e, cnt) } else { Ty::List(e, cnt) });
    }
    recs.get(t).map(|r| Ty::Rec(r))
}

// ------------------------------------------------------------------ encode
fn put(out: &mut Vec<u8>, v: u64, w: usize) {
    for k in (0..w).rev() {
        out.push((v >> (8 * k)) as u8);
    }
}

pub fn pad64(bits: u64) -> usize {
    // bytes of zero fill after ceil(bits/8) value bytes
    let vb = bits.div_ceil(8);
    (vb.div_ceil(8) * 8 - vb) as usize
}

pub fn marking_bytes(s: &str) -> [u8; 11] {
    let mut b = [0u8; 11];
    let n = s.len().min(11);
    b[..n].copy_from_slice(&s.as_bytes()[..n]);
    b
}

pub fn enc_rec(r: &RecTy, v: &Val, out: &mut Vec<u8>) {
    let s = match v {
        Val::S(s) | Val::V(_, s) => s,
        o => panic!("engine: enc_rec {} of {o:?}", r.name),
    };
    // length fields stamped by the encoder
    let mut stamp: Vec<(usize, u64)> = vec![];
    for (i, _, t) in r.vfields() {
        if let Ty::OptBytes(p) = t {
            let n = match &s[i] {
                Val::O(Some(b)) => match &**b {
                    Val::B(b) => b.len() as u64,
                    o => panic!("engine: optbytes {o:?}"),
                },
                _ => 0,
            };
            stamp.push((p[0], n));
        }
    }
    for (_, t, i) in &r.fields {
        match i {
            None => enc_ty(t, &Val::Any, s, out),
            Some(i) => match stamp.iter().find(|x| x.0 == *i) {
                Some((_, n)) => enc_ty(t, &Val::U(*n), s, out),
                None => enc_ty(t, &s[*i], s, out),
            },
        }
    }
}

fn ctx_u(ctx: &[Val], p: &[usize]) -> u64 {
    let mut v = &ctx[p[0]];
    for i in &p[1..] {
        v = v.child(*i);
    }
    v.u()
}

pub fn enc_ty(t: &Ty, v: &Val, ctx: &[Val], out: &mut Vec<u8>) {
    match t {
        Ty::Int(_, w) => put(out, v.u(), *w),
        Ty::Enum(e) => put(out, v.u(), e.width),
        Ty::Flags(w, _) => put(out, v.u(), *w),
        Ty::Pad(n) => out.extend(std::iter::repeat_n(0u8, *n)),
        Ty::Rec(r) => enc_rec(r, v, out),
        Ty::List(e, _) | Ty::Arr(e, _) => {
            for x in v.l() {
                enc_ty(e, x, ctx, out);
            }
        }
        Ty::OptList(e, _) => {
            for x in v.l() {
                if let Val::O(Some(x)) = x {
                    enc_ty(e, x, ctx, out);
                }
            }
        }
        Ty::Marking => match v {
            Val::Str(s) => out.extend_from_slice(&marking_bytes(s)),
            o => panic!("engine: marking {o:?}"),
        },
        Ty::DatumValue(p) => {
            for x in v.l() {
                out.push(x.u() as u8);
            }
            let n = pad64(ctx_u(ctx, p));
            out.extend(std::iter::repeat_n(0u8, n));
        }
        Ty::OptBytes(_) => {
            if let Val::O(Some(b)) = v {
                match &**b {
                    Val::B(b) => out.extend_from_slice(b),
                    o => panic!("engine: optbytes {o:?}"),
                }
            }
        }
        Ty::Variant(_, arms) => match v {
            Val::V(tag, _) => {
                let a = arms.iter().find(|a| a.0 == *tag).expect("engine: variant tag").1;
                enc_rec(a, v, out);
            }
            o => panic!("engine: variant {o:?}"),
        },
    }
}

// ------------------------------------------------------------------ decode
pub struct Rd<'a> {
    pub b: &'a [u8],
    pub pos: usize,
}
impl Rd<'_> {
    fn take(&mut self, n: usize) -> Result<u64, Short> {
        if self.b.len() - self.pos < n {
            return Err(Short);
        }
        let mut v = 0;
        for k in 0..n {
            v = v << 8 | u64::from(self.b[self.pos + k]);
        }
        self.pos += n;
        Ok(v)
    }
    fn skip(&mut self, n: usize) -> Result<(), Short> {
        if self.b.len() - self.pos < n {
            return Err(Short);
        }
        self.pos += n;
        Ok(())
    }
}

pub fn dec_rec(r: &RecTy, rd: &mut Rd) -> Result<Vec<Val>, Short> {
    let mut s: Vec<Val> = vec![];
    for (_, t, i) in &r.fields {
        match (t, i) {
            (Ty::Pad(n), None) => rd.skip(*n)?,
            _ => {
                let v = dec_ty(t, rd, &s)?;
                s.push(v);
            }
        }
    }
    Ok(s)
}

fn dec_ty(t: &Ty, rd: &mut Rd, ctx: &[Val]) -> Result<Val, Short> {
    Ok(match t {
        Ty::Int(_, w) => Val::U(rd.take(*w)?),
        Ty::Enum(e) => {
            let c = rd.take(e.width)?;
            Val::U(if e.has(c) { c } else { e.default })
        }
        Ty::Flags(w, m) => {
            let c = rd.take(*w)?;
            if c & !m == 0 { Val::U(c) } else { Val::Any }
        }
        Ty::Pad(n) => {
            rd.skip(*n)?;
            Val::Any
        }
        Ty::Rec(r) => Val::S(dec_rec(r, rd)?),
        Ty::Arr(e, n) => {
            let mut l = Vec::with_capacity(*n);
            for _ in 0..*n {
                l.push(dec_ty(e, rd, ctx)?);
            }
            Val::L(l)
        }
        Ty::OptList(_, _) => Val::L(vec![]),
        Ty::List(e, c) => {
            let n = match c {
                Count::Field(p) => ctx_u(ctx, p),
                Count::Ceil8(p) => ctx_u(ctx, p).div_ceil(8),
                Count::Div8(p) => ctx_u(ctx, p) / 8,
                Count::Mul(p, q) => ctx_u(ctx, p) * ctx_u(ctx, q),
                Count::Rest => (rd.b.len() - rd.pos) as u64,
                Count::NoDec => 0,
            };
            let mut l = vec![];
            for _ in 0..n {
                l.push(dec_ty(e, rd, ctx)?);
            }
            Val::L(l)
        }
        Ty::Marking => {
            if rd.b.len() - rd.pos < 11 {
                return Err(Short);
            }
            let raw = &rd.b[rd.pos..rd.pos + 11];
            rd.pos += 11;
            let end = raw.iter().rposition(|b| *b != 0).map_or(0, |i| i + 1);
            match std::str::from_utf8(&raw[..end]) {
                Ok(s) => Val::Str(s.to_string()),
                Err(_) => Val::Any,
            }
        }
        Ty::DatumValue(p) => {
            let bits = ctx_u(ctx, p);
            let n = bits.div_ceil(8) as usize;
            if rd.b.len() - rd.pos < n {
                return Err(Short);
            }
            let l = rd.b[rd.pos..rd.pos + n].iter().map(|b| Val::U(u64::from(*b))).collect();
            rd.pos += n;
            rd.skip(pad64(bits))?;
            Val::L(l)
        }
        Ty::OptBytes(p) => {
            let n = ctx_u(ctx, p) as usize;
            if rd.b.len() - rd.pos < n {
                return Err(Short);
            }
            if n == 0 {
                Val::O(None)
            } else {
                let b = rd.b[rd.pos..rd.pos + n].to_vec();
                rd.pos += n;
                Val::O(Some(Box::new(Val::B(b))))
            }
        }
        Ty::Variant(p, arms) => {
            let tag = ctx_u(ctx, p);
            let a = arms.iter().find(|a| a.0 == tag).expect("engine: variant tag").1;
            Val::V(tag, dec_rec(a, rd)?)
        }
    })
}

// ------------------------------------------------------------------ header
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Hdr {
    pub version: u8,
    pub exercise: u8,
    pub typ: u8,
    pub family: u8,
    pub timestamp: u32,
    pub length: u16,
    pub status: u8,
}

impl Hdr {
    pub fn enc(&self, out: &mut Vec<u8>) {
        out.push(self.version);
        out.push(self.exercise);
        out.push(self.typ);
        out.push(self.family);
        put(out, u64::from(self.timestamp), 4);
        put(out, u64::from(self.length), 2);
        out.push(self.status);
        out.push(0);
    }
}

/// Reference packet: header (type, family and length forced) and body.
pub fn packet(r: &RecTy, h: &Hdr, v: &Val) -> Vec<u8> {
    let (t, f) = r.pdu.expect("engine: not a pdu");
    let mut body = vec![];
    enc_rec(r, v, &mut body);
    let h = Hdr { typ: t, family: f, length: (12 + body.len()) as u16, ..*h };
    let mut out = Vec::with_capacity(12 + body.len());
    h.enc(&mut out);
    out.extend_from_slice(&body);
    out
}

// ------------------------------------------------------------------ where fields lie
/// (path, offset, width) of every scalar, text or byte-run leaf of an encoded record
pub fn spans(r: &RecTy, v: &Val) -> Vec<(Vec<usize>, usize, usize)> {
    let mut out = vec![];
    let mut off = 0;
    span_rec(r, v, &mut off, &mut vec![], &mut out);
    out
}
type Spans = Vec<(Vec<usize>, usize, usize)>;
fn span_rec(r: &RecTy, v: &Val, off: &mut usize, at: &mut Vec<usize>, out: &mut Spans) {
    let s = match v {
        Val::S(s) | Val::V(_, s) => s,
        o => panic!("engine: span {o:?}"),
    };
    for (_, t, i) in &r.fields {
        match i {
            None => {
                if let Ty::Pad(n) = t {
                    *off += n;
                }
            }
            Some(i) => {
                at.push(*i);
                span_ty(t, &s[*i], s, off, at, out);
                at.pop();
            }
        }
    }
}
fn span_ty(t: &Ty, v: &Val, ctx: &[Val], off: &mut usize, at: &mut Vec<usize>, out: &mut Spans) {
    match t {
        Ty::Rec(r) => span_rec(r, v, off, at, out),
        Ty::List(e, _) | Ty::Arr(e, _) => {
            for (k, x) in v.l().iter().enumerate() {
                at.push(k);
                span_ty(e, x, ctx, off, at, out);
                at.pop();
            }
        }
        Ty::OptList(e, _) => {
            for (k, x) in v.l().iter().enumerate() {
                if let Val::O(Some(x)) = x {
                    at.push(k);
                    at.push(0);
                    span_ty(e, x, ctx, off, at, out);
                    at.pop();
                    at.pop();
                }
            }
        }
        Ty::Variant(_, arms) => {
            if let Val::V(tag, _) = v {
                let a = arms.iter().find(|a| a.0 == *tag).expect("engine: variant tag").1;
                span_rec(a, v, off, at, out);
            }
        }
        _ => {
            let mut b = vec![];
            enc_ty(t, v, ctx, &mut b);
            out.push((at.clone(), *off, b.len()));
            *off += b.len();
        }
    }
}

/// field (without list indices) that byte `off` of the encoded record belongs to
pub fn locate(r: &RecTy, v: &Val, off: usize) -> String {
    let sp = spans(r, v);
    let end = sp.last().map_or(0, |s| s.1 + s.2);
    match sp.iter().find(|s| off >= s.1 && off < s.1 + s.2) {
        Some(s) => strip_idx(&r.path_name(&s.0)),
        None if off >= end => ".(end)".into(),
        None => match sp.iter().rev().find(|s| s.1 + s.2 <= off) {
            Some(s) => format!("{}+padding", strip_idx(&r.path_name(&s.0))),
            None => ".(padding)".into(),
        },
    }
}
pub fn strip_idx(s: &str) -> String {
    let mut o = String::new();
    let mut skip = false;
    for c in s.chars() {
        match c {
            '[' => skip = true,
            ']' => {
                skip = false;
                o.push_str("[]");
            }
            c if !skip => o.push(c),
            _ => {}
        }
    }
    o
}
