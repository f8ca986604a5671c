//! Drivers: guarded encode and decode of PDUs and records, the reference outcome, and the
//! enumeration of values, packets and faults shared by the checks.
use crate::bind::{BoxPdu, DynBuf, PduInfo, get_header};
use crate::engine::W;
use crate::fragbuf::FragBuf;
use crate::genv::{self, Depth, Leaf, Mode, Skel};
use crate::spec::{self, Hdr, Rd, RecTy, Ty};
use crate::val::Val;
use bytes::{Buf, BytesMut};
use open_dis_rust::common::{DISError, GenericHeader, PduHeader};

pub const LIMIT: usize = 8192;
/// No packet can justify more live memory than this while it is decoded.
pub const PEAK_LIMIT: usize = 16 << 20;

pub fn hdr0() -> Hdr {
    Hdr { version: 7, exercise: 1, typ: 0, family: 0, timestamp: 0, length: 0, status: 0 }
}
/// a header with every field distinctive and a stale length, type and family
pub fn hdr_pat() -> Hdr {
    Hdr { version: 6, exercise: 0xA7, typ: 1, family: 5, timestamp: 0x81C2_43E5, length: 0xDEAD, status: 0x2B }
}

// ------------------------------------------------------------------ encode
pub enum Enc {
    /// bytes and the header afterwards
    Ok(Vec<u8>, Hdr),
    TooBig { size: usize, max: usize, wrote: usize },
    Err(String),
    Panic(String),
}
impl Enc {
    pub fn show(&self) -> String {
        match self {
            Enc::Ok(b, h) => format!("{} bytes {} header {h:?}", b.len(), crate::engine::hex(&b[..b.len().min(200)])),
            Enc::TooBig { size, max, wrote } => format!("size exceeded {size} > {max}, {wrote} bytes written"),
            Enc::Err(e) => format!("error {e}"),
            Enc::Panic(e) => e.clone(),
        }
    }
}
pub fn enc(w: &mut W, p: &PduInfo, h: &Hdr, v: &Val) -> Enc {
    let r = w.imp("serialize", p.name, &[], || {
        let mut o = p.make(h, v);
        let mut b = BytesMut::new();
        let r = o.serialize(&mut b);
        (r, b, get_header(o.header()))
    });
    match r {
        Err(e) => Enc::Panic(e),
        Ok((Ok(()), b, h)) => Enc::Ok(b.to_vec(), h),
        Ok((Err(e), b, _)) => enc_err(&e, b.len()),
    }
}
pub fn enc_err(e: &DISError, wrote: usize) -> Enc {
    match e {
        DISError::PduSizeExceeded { size, max_size } => Enc::TooBig { size: *size, max: *max_size, wrote },
        e => Enc::Err(e.to_string()),
    }
}

// ------------------------------------------------------------------ decode
#[derive(Clone, PartialEq)]
pub enum Out {
    Ok(Hdr, Val, usize),
    Under(usize, usize),
    Header(String),
    Other(String),
    Panic(String),
}
impl Out {
    pub fn show(&self) -> String {
        match self {
            Out::Ok(h, v, n) => {
                let s: String = format!("{v:?}").chars().take(400).collect();
                format!("PDU using {n} bytes, {h:?} {s}")
            }
            Out::Under(a, b) => format!("buffer underflow ({a} wanted, {b} available)"),
            Out::Header(s) => format!("invalid header: {s}"),
            Out::Other(s) => format!("other error: {s}"),
            Out::Panic(s) => s.clone(),
        }
    }
    pub fn class(&self) -> &'static str {
        match self {
            Out::Ok(..) => "decoded",
            Out::Under(..) => "underflow",
            Out::Header(_) => "invalid header",
            Out::Other(_) => "other error",
            Out::Panic(_) => "panic",
        }
    }
}
fn finish(r: Result<BoxPdu, DISError>, used: usize) -> Out {
    match r {
        Ok(o) => Out::Ok(get_header(o.header()), o.observe(), used),
        Err(e) => err_out(&e),
    }
}
pub fn err_out(e: &DISError) -> Out {
    match e {
        DISError::BufferUnderflow { attempted, available } => Out::Under(*attempted, *available),
        DISError::InvalidHeader { reason, .. } => Out::Header(reason.clone()),
        e => Out::Other(e.to_string()),
    }
}
fn un(r: Result<Out, String>) -> Out {
    r.unwrap_or_else(Out::Panic)
}
/// whole packet from a slice
pub fn dec(w: &mut W, p: &PduInfo, b: &[u8]) -> Out {
    dec_id(w, p, b, b)
}
/// the same for long inputs, known by `id`
pub fn dec_id(w: &mut W, p: &PduInfo, b: &[u8], id: &[u8]) -> Out {
    un(w.imp("deserialize", p.name, id, || {
        let mut s = b;
        let r = (p.dec_slice)(&mut s);
        finish(r, b.len() - s.len())
    }))
}
/// header by the caller, then the body
pub fn dec_body(w: &mut W, p: &PduInfo, b: &[u8]) -> Out {
    un(w.imp("deserialize_without_header", p.name, b, || {
        let mut s = b;
        let h = PduHeader::deserialize(&mut s);
        let r = (p.body_slice)(&mut s, h);
        finish(r, b.len() - s.len())
    }))
}
/// whole packet from any buffer; `b` is its content
pub fn dec_dyn(w: &mut W, p: &PduInfo, b: &[u8], buf: &mut dyn Buf) -> Out {
    let total = buf.remaining();
    un(w.imp("deserialize from segments", p.name, b, || {
        let mut d: DynBuf = buf;
        let r = (p.dec_dyn)(&mut d);
        let left = d.remaining();
        finish(r, total - left)
    }))
}
pub fn dec_frag(w: &mut W, p: &PduInfo, b: &[u8], cuts: &[usize]) -> Out {
    let mut f = FragBuf::new(b, cuts);
    dec_dyn(w, p, b, &mut f)
}
pub fn dec_body_dyn(w: &mut W, p: &PduInfo, b: &[u8], buf: &mut dyn Buf) -> Out {
    let total = buf.remaining();
    un(w.imp("deserialize_without_header from segments", p.name, b, || {
        let mut d: DynBuf = buf;
        let h = PduHeader::deserialize(&mut d);
        let r = (p.body_dyn)(&mut d, h);
        let left = d.remaining();
        finish(r, total - left)
    }))
}

// ------------------------------------------------------------------ reference outcome
#[derive(Clone)]
pub enum Ref {
    Short,
    BadType,
    Ok(Hdr, Val, usize),
}
impl Ref {
    pub fn show(&self) -> String {
        match self {
            Ref::Short => "the input is truncated".into(),
            Ref::BadType => "the type is not this PDU's".into(),
            Ref::Ok(h, v, n) => {
                let s: String = format!("{v:?}").chars().take(400).collect();
                format!("PDU using {n} bytes, {h:?} {s}")
            }
        }
    }
}
pub fn ref_hdr(b: &[u8]) -> Hdr {
    let e = |n: &str, c: u8| {
        let t = crate::bind::enum_by_name(n);
        if t.has(u64::from(c)) { c } else { t.default as u8 }
    };
    Hdr {
        version: e("ProtocolVersion", b[0]),
        exercise: b[1],
        typ: e("PduType", b[2]),
        family: e("ProtocolFamily", b[3]),
        timestamp: u32::from_be_bytes([b[4], b[5], b[6], b[7]]),
        length: u16::from_be_bytes([b[8], b[9]]),
        status: b[10],
    }
}
pub fn ref_dec(p: &PduInfo, b: &[u8]) -> Ref {
    if b.len() < 12 {
        return Ref::Short;
    }
    let h = ref_hdr(b);
    if h.typ != p.typ {
        return Ref::BadType;
    }
    let mut rd = Rd { b, pos: 12 };
    match spec::dec_rec(p.ty, &mut rd) {
        Ok(s) => Ref::Ok(h, Val::S(s), rd.pos),
        Err(_) => Ref::Short,
    }
}
/// Does the outcome agree with the reference? None if it does, else what differs.
pub fn differ(p: &PduInfo, r: &Ref, o: &Out) -> Option<String> {
    match (r, o) {
        (_, Out::Panic(_)) => Some("panic while decoding".into()),
        (Ref::Ok(h, v, n), Out::Ok(h2, v2, n2)) => {
            if !v.matches(v2) {
                Some(format!("{} decoded differently", spec::strip_idx(&p.ty.path_name(&v.diff(v2)))))
            } else if let Some(f) = hdr_diff(h, h2) {
                Some(format!("header {f} decoded differently"))
            } else if n != n2 {
                Some("consumes a different number of bytes".into())
            } else {
                None
            }
        }
        (Ref::Short, Out::Under(a, b)) if a > b => None,
        (Ref::Short, Out::Under(..)) => Some("underflow reported without a shortfall".into()),
        (Ref::BadType, Out::Header(_)) => None,
        (Ref::Ok(..), o) => Some(format!("well-formed packet gives {}", o.class())),
        (Ref::Short, o) => Some(format!("truncated packet gives {}", o.class())),
        (Ref::BadType, o) => Some(format!("packet of another type gives {}", o.class())),
    }
}
pub fn hdr_diff(a: &Hdr, b: &Hdr) -> Option<&'static str> {
    if a.version != b.version {
        Some("version")
    } else if a.exercise != b.exercise {
        Some("exercise")
    } else if a.typ != b.typ {
        Some("type")
    } else if a.family != b.family {
        Some("family")
    } else if a.timestamp != b.timestamp {
        Some("timestamp")
    } else if a.length != b.length {
        Some("length")
    } else if a.status != b.status {
        Some("status")
    } else {
        None
    }
}
/// where two encodings of (p, v) first differ
pub fn byte_diff(p: &PduInfo, v: &Val, want: &[u8], got: &[u8]) -> String {
    let n = want.len().min(got.len());
    let at = (0..n).find(|&i| want[i] != got[i]).unwrap_or(n);
    if at < 12 {
        let names = ["version", "exercise", "type", "family", "timestamp", "timestamp", "timestamp", "timestamp", "length", "length", "status", "padding"];
        // a wrong total length usually shows in the length field first
        if (at == 8 || at == 9) && want.len() != got.len() {
            let m = (12..n).find(|&i| want[i] != got[i]);
            if let Some(m) = m {
                return spec::locate(p.ty, v, m - 12);
            }
        }
        return format!(" header {}", names[at]);
    }
    spec::locate(p.ty, v, at - 12)
}

// ------------------------------------------------------------------ value enumeration
/// a value with every list of `n` elements, distinctive contents and consistent counts
pub fn base(r: &RecTy, n: usize, seed: u64) -> Option<Val> {
    let mut v = genv::uniform(r, n, false);
    genv::fill(r, &mut v, Mode::Pattern(seed));
    if genv::fix(r, &mut v, seed) { Some(v) } else { None }
}
fn free_choice(r: &RecTy) -> bool {
    r.fields.iter().any(|(_, t, _)| match t {
        Ty::List(e, c) => {
            matches!(c, spec::Count::Ceil8(_) | spec::Count::Mul(..)) || matches!(&**e, Ty::Rec(r) if free_choice(r))
        }
        Ty::DatumValue(_) => true,
        Ty::Rec(r) => free_choice(r),
        _ => false,
    })
}
/// every skeleton by every fill, counts consistent
pub fn structs(r: &RecTy, k: Skel, modes: &[Mode], f: &mut dyn FnMut(&Val) -> bool) {
    let subs = if free_choice(r) { 8 } else { 1 };
    for s in genv::skel_rec(r, k) {
        let proto = Val::S(s);
        for m in modes {
            for sub in 0..subs {
                let mut v = proto.clone();
                genv::fill(r, &mut v, *m);
                if genv::fix(r, &mut v, sub) && !f(&v) {
                    return;
                }
            }
        }
    }
}
/// every single-field deviation from `base`; control fields too unless `consistent`
pub fn singles(r: &RecTy, base: &Val, d: Depth, consistent: bool, f: &mut dyn FnMut(&Val) -> bool) {
    let ctl = genv::controls(r, base);
    let mut v = base.clone();
    for (p, l) in genv::leaves(r, base) {
        if consistent && ctl.contains(&p) {
            continue;
        }
        for x in genv::alphabet(l, d) {
            let old = genv::put(&mut v, &p, l, &x);
            let go = f(&v);
            genv::put(&mut v, &p, l, &old);
            if !go {
                return;
            }
        }
    }
}
/// every two-field deviation from `base` over the alphabet
pub fn pairs(r: &RecTy, base: &Val, d: Depth, consistent: bool, part: (usize, usize), f: &mut dyn FnMut(&Val) -> bool) {
    let ctl = genv::controls(r, base);
    let lv: Vec<(Vec<usize>, Leaf)> =
        genv::leaves(r, base).into_iter().filter(|(p, _)| !(consistent && ctl.contains(p))).collect();
    let al: Vec<Vec<Val>> = lv.iter().map(|l| genv::alphabet(l.1, d)).collect();
    let mut v = base.clone();
    for i in 0..lv.len() {
        if i % part.1 != part.0 {
            continue;
        }
        for x in &al[i] {
            let old = genv::put(&mut v, &lv[i].0, lv[i].1, x);
            for j in i + 1..lv.len() {
                for y in &al[j] {
                    let o2 = genv::put(&mut v, &lv[j].0, lv[j].1, y);
                    let go = f(&v);
                    genv::put(&mut v, &lv[j].0, lv[j].1, &o2);
                    if !go {
                        return;
                    }
                }
            }
            genv::put(&mut v, &lv[i].0, lv[i].1, &old);
        }
    }
}
/// every ordered pair of fields, the first over the alphabet `da`, the second over `db`
pub fn cross(r: &RecTy, base: &Val, da: Depth, db: Depth, consistent: bool, part: (usize, usize), f: &mut dyn FnMut(&Val) -> bool) {
    let ctl = genv::controls(r, base);
    let lv: Vec<(Vec<usize>, Leaf)> =
        genv::leaves(r, base).into_iter().filter(|(p, _)| !(consistent && ctl.contains(p))).collect();
    let al: Vec<Vec<Val>> = lv.iter().map(|l| genv::alphabet(l.1, db)).collect();
    let mut v = base.clone();
    for i in (part.0..lv.len()).step_by(part.1) {
        for x in &genv::alphabet(lv[i].1, da) {
            let old = genv::put(&mut v, &lv[i].0, lv[i].1, x);
            for j in (0..lv.len()).filter(|j| *j != i) {
                for y in &al[j] {
                    let o2 = genv::put(&mut v, &lv[j].0, lv[j].1, y);
                    let go = f(&v);
                    genv::put(&mut v, &lv[j].0, lv[j].1, &o2);
                    if !go {
                        return;
                    }
                }
            }
            genv::put(&mut v, &lv[i].0, lv[i].1, &old);
        }
    }
}
/// every three-field deviation from `base` over the alphabet
pub fn triples(r: &RecTy, base: &Val, d: Depth, consistent: bool, part: (usize, usize), f: &mut dyn FnMut(&Val) -> bool) {
    let ctl = genv::controls(r, base);
    let lv: Vec<(Vec<usize>, Leaf)> =
        genv::leaves(r, base).into_iter().filter(|(p, _)| !(consistent && ctl.contains(p))).collect();
    let al: Vec<Vec<Val>> = lv.iter().map(|l| genv::alphabet(l.1, d)).collect();
    let mut v = base.clone();
    for i in (part.0..lv.len()).step_by(part.1) {
        for x in &al[i] {
            let o1 = genv::put(&mut v, &lv[i].0, lv[i].1, x);
            for j in i + 1..lv.len() {
                for y in &al[j] {
                    let o2 = genv::put(&mut v, &lv[j].0, lv[j].1, y);
                    for k in j + 1..lv.len() {
                        for z in &al[k] {
                            let o3 = genv::put(&mut v, &lv[k].0, lv[k].1, z);
                            let go = f(&v);
                            genv::put(&mut v, &lv[k].0, lv[k].1, &o3);
                            if !go {
                                return;
                            }
                        }
                    }
                    genv::put(&mut v, &lv[j].0, lv[j].1, &o2);
                }
            }
            genv::put(&mut v, &lv[i].0, lv[i].1, &o1);
        }
    }
}
/// Three fields over the low codes and numbers: all triples if that is at most `cap` states, else those
/// within the largest window of neighbouring fields for which it is.
pub fn low_triples(r: &RecTy, base: &Val, cap: usize, consistent: bool, part: (usize, usize), f: &mut dyn FnMut(&Val) -> bool) {
    small_triples(r, base, Depth::Small, cap, consistent, part, f);
}
/// Products over what conditions mention: all pairs, triples as for `low_triples`, and four neighbouring
/// fields while their product is at most `four`.
pub fn hot(r: &RecTy, base: &Val, cap: usize, four: usize, consistent: bool, part: (usize, usize), f: &mut dyn FnMut(&Val) -> bool) {
    pairs(r, base, Depth::Hot, consistent, part, f);
    small_triples(r, base, Depth::Hot, cap, consistent, part, f);
    let ctl = genv::controls(r, base);
    let lv: Vec<(Vec<usize>, Leaf)> =
        genv::leaves(r, base).into_iter().filter(|(p, _)| !(consistent && ctl.contains(p))).collect();
    let mut v = base.clone();
    for i in (part.0..lv.len().saturating_sub(3)).step_by(part.1) {
        let mut al: Vec<Vec<Val>> = (i..i + 4).map(|k| genv::alphabet(lv[k].1, Depth::Hot)).collect();
        while al.iter().map(Vec::len).product::<usize>() > four {
            let Some(k) = (0..4).max_by_key(|k| al[*k].len()) else { break };
            al[k].pop();
        }
        let mut ix = [0usize; 4];
        'all: loop {
            let old: Vec<Val> = (0..4).map(|k| genv::put(&mut v, &lv[i + k].0, lv[i + k].1, &al[k][ix[k]])).collect();
            let go = f(&v);
            for k in 0..4 {
                genv::put(&mut v, &lv[i + k].0, lv[i + k].1, &old[k]);
            }
            if !go {
                return;
            }
            let mut k = 0;
            loop {
                ix[k] += 1;
                if ix[k] < al[k].len() {
                    break;
                }
                ix[k] = 0;
                k += 1;
                if k == 4 {
                    break 'all;
                }
            }
        }
    }
}
/// Packets whose fields take the codes, small numbers and what conditions mention.
pub fn value_packets(p: &PduInfo, n: usize, f: &mut dyn FnMut(&[u8]) -> bool) {
    let Some(v) = base(p.ty, n, 61) else { return };
    let h = hdr_pat();
    let mut seen = std::collections::HashSet::new();
    let mut go = |v: &Val| {
        let b = spec::packet(p.ty, &h, v);
        b.len() > LIMIT || !seen.insert(b.clone()) || f(&b)
    };
    singles(p.ty, &v, Depth::Codes, true, &mut go);
    singles(p.ty, &v, Depth::Mid, true, &mut go);
    singles(p.ty, &v, Depth::Hot, true, &mut go);
}
fn small_triples(r: &RecTy, base: &Val, d: Depth, cap: usize, consistent: bool, part: (usize, usize), f: &mut dyn FnMut(&Val) -> bool) {
    let ctl = genv::controls(r, base);
    let lv: Vec<(Vec<usize>, Leaf)> =
        genv::leaves(r, base).into_iter().filter(|(p, _)| !(consistent && ctl.contains(p))).collect();
    let al: Vec<Vec<Val>> = lv.iter().map(|l| genv::alphabet(l.1, d)).collect();
    let n = lv.len();
    let mut win = 2;
    let size = |win: usize| -> usize {
        (0..n).map(|i| (i + 1..n).flat_map(|j| (j + 1..n.min(i + win + 1)).map(move |k| (j, k))).map(|(j, k)| al[i].len() * al[j].len() * al[k].len()).sum::<usize>()).sum()
    };
    while win + 1 < n && size(win + 1) <= cap {
        win += 1;
    }
    let mut v = base.clone();
    for i in (part.0..n).step_by(part.1) {
        for x in &al[i] {
            let o1 = genv::put(&mut v, &lv[i].0, lv[i].1, x);
            for j in i + 1..n {
                for y in &al[j] {
                    let o2 = genv::put(&mut v, &lv[j].0, lv[j].1, y);
                    for k in j + 1..n.min(i + win + 1) {
                        for z in &al[k] {
                            let o3 = genv::put(&mut v, &lv[k].0, lv[k].1, z);
                            let go = f(&v);
                            genv::put(&mut v, &lv[k].0, lv[k].1, &o3);
                            if !go {
                                return;
                            }
                        }
                    }
                    genv::put(&mut v, &lv[j].0, lv[j].1, &o2);
                }
            }
            genv::put(&mut v, &lv[i].0, lv[i].1, &o1);
        }
    }
}
/// Three fields within four neighbouring ones, over the largest alphabets whose product is at most
/// `cap`: enumerations keep all their codes for as long as that is possible.
pub fn near_triples(r: &RecTy, base: &Val, cap: usize, consistent: bool, part: (usize, usize), f: &mut dyn FnMut(&Val) -> bool) {
    let ctl = genv::controls(r, base);
    let lv: Vec<(Vec<usize>, Leaf)> =
        genv::leaves(r, base).into_iter().filter(|(p, _)| !(consistent && ctl.contains(p))).collect();
    // largest first
    let ladder: Vec<[Vec<Val>; 3]> = lv
        .iter()
        .map(|l| {
            let mid = genv::alphabet(l.1, Depth::Mid);
            let mut all = genv::alphabet(l.1, Depth::Codes);
            for x in &mid {
                if !all.contains(x) {
                    all.push(x.clone());
                }
            }
            [all, mid, genv::alphabet(l.1, Depth::Tiny)]
        })
        .collect();
    let mut v = base.clone();
    for i in (part.0..lv.len()).step_by(part.1) {
        for (j, k) in [(i + 1, i + 2), (i + 1, i + 3), (i + 2, i + 3)] {
            if k >= lv.len() {
                continue;
            }
            let ix = [i, j, k];
            let mut d = [0usize; 3];
            while (0..3).map(|t| ladder[ix[t]][d[t]].len()).product::<usize>() > cap {
                let Some(t) = (0..3).filter(|t| d[*t] < 2).max_by_key(|t| ladder[ix[*t]][d[*t]].len()) else { break };
                d[t] += 1;
            }
            for x in &ladder[i][d[0]] {
                let o1 = genv::put(&mut v, &lv[i].0, lv[i].1, x);
                for y in &ladder[j][d[1]] {
                    let o2 = genv::put(&mut v, &lv[j].0, lv[j].1, y);
                    for z in &ladder[k][d[2]] {
                        let o3 = genv::put(&mut v, &lv[k].0, lv[k].1, z);
                        let go = f(&v);
                        genv::put(&mut v, &lv[k].0, lv[k].1, &o3);
                        if !go {
                            return;
                        }
                    }
                    genv::put(&mut v, &lv[j].0, lv[j].1, &o2);
                }
                genv::put(&mut v, &lv[i].0, lv[i].1, &o1);
            }
        }
    }
}

// ------------------------------------------------------------------ list lengths
/// paths of the lists (and opaque sections) in `v`, outermost first element only
pub fn lists(r: &'static RecTy, v: &Val) -> Vec<(Vec<usize>, &'static Ty)> {
    let mut out = vec![];
    li_rec(r, v, &mut vec![], &mut out);
    out
}
fn li_rec(r: &'static RecTy, v: &Val, at: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, &'static Ty)>) {
    for (_, t, i) in &r.fields {
        if let Some(i) = i {
            at.push(*i);
            li_ty(t, v.child(*i), at, out);
            at.pop();
        }
    }
}
fn li_ty(t: &'static Ty, v: &Val, at: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, &'static Ty)>) {
    match t {
        Ty::Rec(r) => li_rec(r, v, at, out),
        Ty::Variant(_, arms) => {
            if let Val::V(tag, _) = v {
                li_rec(arms.iter().find(|a| a.0 == *tag).expect("engine: arm").1, v, at, out);
            }
        }
        Ty::List(e, _) => {
            out.push((at.clone(), t));
            if let (Ty::Rec(r), Val::L(l)) = (&**e, v) {
                if let Some(x) = l.first() {
                    at.push(0);
                    li_rec(r, x, at, out);
                    at.pop();
                }
            }
        }
        Ty::OptList(..) | Ty::DatumValue(_) | Ty::OptBytes(_) => out.push((at.clone(), t)),
        _ => {}
    }
}
/// make the list at `p` have `n` elements
pub fn set_len(v: &mut Val, p: &[usize], t: &Ty, n: usize) {
    let z = Val::U(0);
    *v.at_mut(p) = match t {
        Ty::List(e, _) => Val::L(vec![genv::uniform_of(e, 1); n]),
        Ty::OptList(e, _) => Val::L(vec![Val::O(Some(Box::new(genv::uniform_of(e, 1)))); n]),
        Ty::DatumValue(_) => Val::L(vec![z; n]),
        Ty::OptBytes(_) => Val::O(if n == 0 { None } else { Some(Box::new(Val::B(vec![0; n]))) }),
        o => panic!("engine: set_len {o:?}"),
    };
}
/// list lengths to try: all small ones, then strides and the window around the size limit
pub fn lengths(max: usize, edge: usize, all: bool) -> Vec<usize> {
    let hot: std::collections::HashSet<usize> = genv::hot_numbers().collect();
    let mut v: Vec<usize> = (0..=max)
        .filter(|&n| {
            all || n <= 40
                || n.is_power_of_two()
                || (n + 1).is_power_of_two()
                || n.saturating_sub(1).is_power_of_two()
                || n.abs_diff(edge) <= 4
                || n + 2 >= max
                || (n < 600 && n % 17 == 0)
                || n % 509 == 0
                || hot.contains(&n)
        })
        .collect();
    v.dedup();
    v
}

/// Longer lists with single fields changed, in any of their elements or elsewhere; and any two lists at
/// many lengths each.
pub fn list_products(r: &'static RecTy, consistent: bool, deep: bool, f: &mut dyn FnMut(&Val) -> bool) {
    let proto = genv::uniform(r, 1, !consistent);
    let ls: Vec<_> = lists(r, &proto)
        .into_iter()
        .filter(|(_, t)| !(consistent && matches!(t, Ty::List(_, spec::Count::NoDec) | Ty::OptList(..))))
        .collect();
    let mut ns: Vec<usize> = vec![3, 4, 5, 7, 8, 9, 12, 16, 17];
    if deep {
        ns.extend([6, 10, 11, 13, 15, 20, 31, 32, 33, 63, 64, 65]);
    }
    ns.extend(genv::hot_numbers().filter(|n| (3..=if deep { 100 } else { 24 }).contains(n)));
    ns.sort_unstable();
    ns.dedup();
    let d = if deep { Depth::Tiny } else { Depth::Hot };
    for (path, t) in &ls {
        for &n in &ns {
            if matches!(t, Ty::OptBytes(_)) && n > 32 {
                continue;
            }
            let mut v = proto.clone();
            set_len(&mut v, path, t, n);
            genv::fill(r, &mut v, Mode::Pattern(n as u64));
            if !genv::fix(r, &mut v, n as u64) && consistent {
                break;
            }
            let mut go = true;
            singles(r, &v, d, consistent, &mut |x| {
                go = f(x);
                go
            });
            if !go {
                return;
            }
        }
    }
    ns.splice(0..0, [0, 1, 2]);
    for (i, (path, t)) in ls.iter().enumerate() {
        for (path2, t2) in &ls[i + 1..] {
            for &n in &ns {
                if n == 0 && path2.starts_with(path) {
                    continue;
                }
                for &m in &ns {
                    if [(t, n), (t2, m)].iter().any(|(t, n)| matches!(t, Ty::OptBytes(_)) && *n > 32) {
                        continue;
                    }
                    let mut v = proto.clone();
                    set_len(&mut v, path, t, n);
                    set_len(&mut v, path2, t2, m);
                    genv::fill(r, &mut v, Mode::Pattern((n * 16 + m) as u64));
                    if !genv::fix(r, &mut v, n as u64) && consistent {
                        break;
                    }
                    if !f(&v) {
                        return;
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------ packets
/// Reference packets of one PDU type: list shapes by fills, counts consistent.
pub fn corpus(p: &PduInfo, thorough: bool) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![];
    let h = hdr_pat();
    for n in 0..=2 {
        if let Some(v) = base(p.ty, n, 1 + n as u64) {
            out.push(spec::packet(p.ty, &h, &v));
        }
    }
    let k = Skel { max: if thorough { 2 } else { 1 }, nodec: false, cap: if thorough { 200 } else { 24 } };
    let modes: &[Mode] = if thorough { &[Mode::Pattern(3), Mode::Zero, Mode::Max] } else { &[Mode::Pattern(3), Mode::Max] };
    structs(p.ty, k, modes, &mut |v| {
        out.push(spec::packet(p.ty, &h, v));
        out.len() < 4000
    });
    let mut seen = std::collections::HashSet::new();
    out.retain(|b| b.len() <= LIMIT && seen.insert(b.clone()));
    out
}
/// value and packet of `base`
pub fn base_packet(p: &PduInfo, n: usize, seed: u64) -> Option<(Val, Vec<u8>)> {
    let v = base(p.ty, n, seed)?;
    let b = spec::packet(p.ty, &hdr_pat(), &v);
    Some((v, b))
}

// ------------------------------------------------------------------ fresh objects
/// what creation gives, the time aside
fn created(p: &PduInfo) -> (Hdr, Val, Hdr, Val) {
    let (n, d) = ((p.new)(), (p.default)());
    let h = |o: &BoxPdu| Hdr { timestamp: 0, ..get_header(o.header()) };
    (h(&n), n.observe(), h(&d), d.observe())
}
fn heads() -> Vec<String> {
    use open_dis_rust::common::enums::{PduType, ProtocolFamily};
    use open_dis_rust::common::live_entity_pdu_header::LiveEntityPduHeader as L;
    let h = |h: PduHeader| format!("{:?}", Hdr { timestamp: 0, ..get_header(&h) });
    let l = |mut h: L| {
        h.timestamp = 0u32;
        format!("{h:?}")
    };
    let (t, f) = (PduType::Fire, ProtocolFamily::Warfare);
    vec![h(PduHeader::default()), h(PduHeader::new(t, f, 3, 77)), l(L::default()), l(L::new(t, f, 3, 77))]
}
type Fresh = (std::collections::HashMap<&'static str, (Hdr, Val, Hdr, Val)>, Vec<String>);
static FRESH: std::sync::OnceLock<Fresh> = std::sync::OnceLock::new();
/// remember what creation gives before anything else has happened
pub fn remember_fresh() {
    FRESH.get_or_init(|| (crate::bind::pdus().iter().map(|p| (p.name, created(p))).collect(), heads()));
}
/// Does creation still give the same? None if it does, else what differs.
pub fn fresh_changed(p: &PduInfo) -> Option<String> {
    let f = FRESH.get().expect("engine: fresh objects");
    let now = created(p);
    let was = &f.0[p.name];
    if now != *was {
        return Some(format!("a new {} is {now:?}, was {was:?} at first", p.name));
    }
    let h = heads();
    (h != f.1).then(|| format!("new headers are {h:?}, were {:?} at first", f.1))
}
