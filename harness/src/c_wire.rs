//! C01 wire layout, C02 round trip, C03 length, C04 size limit, C08 streaming, C26 relay.
use crate::bind::{PduInfo, RecInfo, get_header, pdus};
use crate::checks::{plan_of, Sz};
use crate::drive::{self, Enc, Out, base, byte_diff, dec, dec_dyn, enc, hdr_diff, hdr_pat, hdr0};
use crate::engine::{Item, Plan, W, hex, item};
use crate::fragbuf::FragBuf;
use crate::genv::{self, Depth, Mode, Skel};
use crate::spec::{self, Hdr, Ty, packet};
use crate::val::Val;
use bytes::{Buf, BufMut, Bytes, BytesMut};

pub type PduCheck = fn(&mut W, &'static PduInfo, &Hdr, &Val);

/// Every value of every PDU type within the bounds, handed to `f`.
pub fn pdu_sweep(sz: Sz, all16: bool, consistent: bool, f: PduCheck) -> Vec<Item> {
    let mut items = vec![];
    for p in pdus() {
        items.push(item(format!("{} shapes", p.name), move |w| {
            let k = Skel { max: sz.pick(2, 3), nodec: !consistent, cap: sz.pick(300, 4000) };
            let modes: &[Mode] = sz.pick(
                &[Mode::Pattern(1), Mode::Zero, Mode::Max][..],
                &[Mode::Pattern(1), Mode::Zero, Mode::Max, Mode::Alt, Mode::Pattern(2), Mode::Pattern(9)][..],
            );
            let h = hdr_pat();
            drive::structs(p.ty, k, modes, &mut |v| {
                f(w, p, &h, v);
                !w.full()
            });
        }));
        for n in [1usize, 2, 0] {
            items.push(item(format!("{} single fields, lists of {n}", p.name), move |w| {
                let Some(b) = base(p.ty, n, 1) else { return };
                if n == 0 && base(p.ty, 1, 1).is_some_and(|x| packet(p.ty, &hdr0(), &x).len() == packet(p.ty, &hdr0(), &b).len()) {
                    return;
                }
                let h = hdr_pat();
                let d = if n == 1 && all16 { Depth::Thorough } else { Depth::Quick };
                drive::singles(p.ty, &b, d, consistent, &mut |v| {
                    f(w, p, &h, v);
                    !w.full()
                });
            }));
        }
        let parts = sz.pick(8, 16);
        for part in 0..parts {
            items.push(item(format!("{} field pairs {part}", p.name), move |w| {
                let Some(b) = base(p.ty, 1, 5) else { return };
                let h = hdr_pat();
                let mut go = |v: &Val| {
                    f(w, p, &h, v);
                    !w.full()
                };
                drive::pairs(p.ty, &b, Depth::Mid, consistent, (part, parts), &mut go);
                drive::cross(p.ty, &b, Depth::Codes, Depth::Mid, consistent, (part, parts), &mut go);
                drive::near_triples(p.ty, &b, sz.pick(1500, 20_000), consistent, (part, parts), &mut go);
                drive::triples(p.ty, &b, Depth::Tiny, consistent, (part, parts), &mut go);
                drive::low_triples(p.ty, &b, sz.pick(100_000, 1_000_000), consistent, (part, parts), &mut go);
                drive::hot(p.ty, &b, sz.pick(60_000, 1_000_000), sz.pick(500, 10_000), consistent, (part, parts), &mut go);
                if sz.thorough {
                    drive::cross(p.ty, &b, Depth::Quick, Depth::Tiny, consistent, (part, parts), &mut go);
                    if genv::leaves(p.ty, &b).len() <= 45 {
                        drive::triples(p.ty, &b, Depth::Mid, consistent, (part, parts), &mut go);
                    }
                }
            }));
        }
        items.push(item(format!("{} list lengths", p.name), move |w| {
            let h = hdr_pat();
            ladder(p, sz, consistent, &mut |v| {
                f(w, p, &h, v);
                !w.full()
            });
        }));
        items.push(item(format!("{} lists and fields", p.name), move |w| {
            let h = hdr_pat();
            let mut go = |v: &Val| {
                f(w, p, &h, v);
                !w.full()
            };
            drive::list_products(p.ty, consistent, sz.thorough, &mut go);
            let mut sizes = base(p.ty, 1, 5).map(|v| packet(p.ty, &hdr0(), &v).len()).into_iter().collect::<Vec<_>>();
            for n in [0usize, 2] {
                let Some(b) = base(p.ty, n, 5) else { continue };
                let len = packet(p.ty, &hdr0(), &b).len();
                if sizes.contains(&len) {
                    continue;
                }
                sizes.push(len);
                drive::pairs(p.ty, &b, sz.pick(Depth::Tiny, Depth::Mid), consistent, (0, 1), &mut go);
                drive::hot(p.ty, &b, sz.pick(20_000, 300_000), sz.pick(500, 10_000), consistent, (0, 1), &mut go);
            }
        }));
        items.push(item(format!("{} header fields", p.name), move |w| {
            for n in [0, 1] {
                let Some(v) = base(p.ty, n, 2) else { continue };
                headers(&mut |h| {
                    f(w, p, h, &v);
                    !w.full()
                });
            }
            let Some(b) = base(p.ty, 1, 6) else { return };
            for h in header_corners() {
                drive::singles(p.ty, &b, sz.pick(Depth::Tiny, Depth::Mid), consistent, &mut |v| {
                    f(w, p, &h, v);
                    !w.full()
                });
            }
        }));
    }
    items
}
/// headers that differ from the pattern in one or in all fields
fn header_corners() -> Vec<Hdr> {
    let b = hdr_pat();
    let mut v = vec![];
    for x in 0..=7 {
        v.push(Hdr { version: x, ..b });
    }
    for x in [0, 1, 255] {
        v.push(Hdr { exercise: x, ..b });
    }
    for k in 0..8 {
        v.push(Hdr { status: 1 << k, ..b });
    }
    v.extend([Hdr { status: 0, ..b }, Hdr { status: 255, ..b }]);
    for t in [0, 1, 2, u32::MAX, u32::MAX - 1, 1 << 31] {
        v.push(Hdr { timestamp: t, ..b });
    }
    for l in [0, 11, 12, 13, 8192, 65_535] {
        v.push(Hdr { length: l, ..b });
    }
    v.push(Hdr { version: 0, exercise: 0, status: 0, timestamp: 0, length: 0, ..b });
    v
}

/// header deviations: every value of the 8-bit fields, alphabets for the wider ones, small pairs
pub fn headers(f: &mut dyn FnMut(&Hdr) -> bool) {
    let b = hdr_pat();
    let ok = |c: u8, n: &str| crate::bind::enum_by_name(n).has(u64::from(c));
    for c in 0..=255u8 {
        let mut go = f(&Hdr { exercise: c, ..b }) && f(&Hdr { status: c, ..b });
        if ok(c, "ProtocolVersion") {
            go &= f(&Hdr { version: c, ..b });
        }
        if ok(c, "PduType") {
            go &= f(&Hdr { typ: c, ..b });
        }
        if ok(c, "ProtocolFamily") {
            go &= f(&Hdr { family: c, ..b });
        }
        if !go {
            return;
        }
    }
    let ts: Vec<u64> = genv::alphabet(genv::Leaf::Int(spec::Num::U, 4), Depth::Quick).iter().map(Val::u).collect();
    for t in ts {
        if !f(&Hdr { timestamp: t as u32, ..b }) {
            return;
        }
    }
    let ls: Vec<u64> = genv::alphabet(genv::Leaf::Int(spec::Num::U, 2), Depth::Quick).iter().map(Val::u).collect();
    for l in ls {
        if !f(&Hdr { length: l as u16, ..b }) {
            return;
        }
    }
    for e in [0, 1, 255] {
        for s in [0, 1, 0x55, 255] {
            for t in [0, 1, u32::MAX] {
                for v in [0, 5, 7] {
                    if !f(&Hdr { exercise: e, status: s, timestamp: t, version: v, ..b }) {
                        return;
                    }
                }
            }
        }
    }
}

/// each list at every length (up to what fits in a packet and in its count field)
pub fn ladder(p: &'static PduInfo, sz: Sz, consistent: bool, f: &mut dyn FnMut(&Val) -> bool) {
    let proto = genv::uniform(p.ty, 1, !consistent);
    for (path, t) in drive::lists(p.ty, &proto) {
        if consistent && matches!(t, Ty::List(_, spec::Count::NoDec) | Ty::OptList(..)) {
            continue;
        }
        let mut v0 = proto.clone();
        drive::set_len(&mut v0, &path, t, 0);
        let mut v1 = proto.clone();
        drive::set_len(&mut v1, &path, t, 8);
        let (s0, s1) = (packet(p.ty, &hdr0(), &v0).len(), packet(p.ty, &hdr0(), &v1).len());
        let el = ((s1 - s0) / 8).max(1);
        let edge = (drive::LIMIT - s0) / el;
        let mut ns = drive::lengths(edge, edge, el > 4 || sz.thorough);
        // packets and bodies of a size that the code mentions
        let hot = genv::hot_numbers().flat_map(|x| [x, x.saturating_add(12)]);
        ns.extend(hot.filter(|x| (s0..=drive::LIMIT).contains(x)).flat_map(|x| [(x - s0) / el, (x - s0) / el + 1]).filter(|n| *n <= edge));
        ns.sort_unstable();
        ns.dedup();
        for n in ns {
            // a section longer than its length field can say cannot be built
            if matches!(t, Ty::OptBytes(_)) && n > opt_max(p, &path) {
                break;
            }
            let mut v = proto.clone();
            drive::set_len(&mut v, &path, t, n);
            genv::fill(p.ty, &mut v, Mode::Pattern(n as u64));
            let fits = genv::fix(p.ty, &mut v, n as u64);
            if consistent && !fits {
                break;
            }
            if !f(&v) {
                return;
            }
        }
    }
}

fn show(p: &PduInfo, h: &Hdr, v: &Val) -> String {
    format!("{} with {h:?} and body {v:?} (reference packet {})", p.name, hex(&packet(p.ty, h, v)))
}

// ------------------------------------------------------------------ C01
fn c01_one(w: &mut W, p: &'static PduInfo, h: &Hdr, v: &Val) {
    let want = packet(p.ty, h, v);
    if want.len() > drive::LIMIT || !w.state(p.name, &want) {
        return;
    }
    w.traces += 1;
    match enc(w, p, h, v) {
        Enc::Ok(b, _) => {
            if b != want {
                w.viol(format!("{}{}: encoded bytes differ from the layout", p.name, byte_diff(p, v, &want, &b)), || {
                    format!("{}; the crate wrote {}", show(p, h, v), hex(&b))
                });
            }
            w.outcome(&format!("{} {}", p.name, b.len()));
        }
        o => w.viol(format!("{}: not encoded", p.name), || format!("{}; got {}", show(p, h, v), o.show())),
    }
    w.sample(|| format!("{v:?} -> {}", hex(&want)));
}
pub fn c01(sz: Sz) -> Plan {
    plan_of(
        pdu_sweep(sz, true, false, c01_one),
        "each state is one PDU value (type, list shape, field contents, header); the transition is the crate's serialize; the trace is compared byte for byte with the reference encoding of spec/wire.txt",
        vec![
            format!("lists of 0..{} elements in every combination (cap {} shapes per type, then all pairs of lists)", sz.pick(2, 3), sz.pick(300, 4000)),
            "single fields: all codes of enumerations, all values of 8- and 16-bit fields, boundary alphabets for wider ones".into(),
            format!("pairs of fields over 8-value alphabets, and of every code with {}{}", "8 values of every other field, and of 34 headers with every body field", sz.pick("", "; every value of the single-field alphabets with 3 of every other field; triples of fields over 3-value alphabets")),
            "each list at every length up to the 8192-byte limit (lists of single octets and words: many in the quick tier)".into(),
            "longer lists (3 to 17 elements) with any field of any element changed, any two lists at 12 lengths each, field pairs with empty and two-element lists".into(),
        ],
    )
}

// ------------------------------------------------------------------ C02
fn stamped(p: &PduInfo, h: &Hdr, len: usize) -> Hdr {
    Hdr { typ: p.typ, family: p.family, length: len as u16, ..*h }
}
fn c02_one(w: &mut W, p: &'static PduInfo, h: &Hdr, v: &Val) {
    let key = packet(p.ty, h, v);
    if key.len() > drive::LIMIT || !w.state(p.name, &key) {
        return;
    }
    w.traces += 1;
    let b = match enc(w, p, h, v) {
        Enc::Ok(b, _) => b,
        o => {
            w.viol(format!("{}: not encoded", p.name), || format!("{}; got {}", show(p, h, v), o.show()));
            return;
        }
    };
    match dec(w, p, &b) {
        Out::Ok(h2, v2, _) => {
            if !v.matches(&v2) {
                let f = spec::strip_idx(&p.ty.path_name(&v.diff(&v2)));
                w.viol(format!("{}{f}: not restored by decoding", p.name), || {
                    format!("{}; encoded as {} and decoded as {v2:?}", show(p, h, v), hex(&b))
                });
                return;
            }
            if let Some(f) = hdr_diff(&stamped(p, h, b.len()), &h2) {
                w.viol(format!("{} header {f}: not restored by decoding", p.name), || {
                    format!("{}; encoded as {} and decoded with {h2:?}", show(p, h, v), hex(&b))
                });
            }
            match enc(w, p, &h2, &v2) {
                Enc::Ok(b2, _) if b2 == b => {}
                o => w.viol(format!("{}: decoded PDU encodes differently", p.name), || {
                    format!("{}; first {} then {}", show(p, h, v), hex(&b), o.show())
                }),
            }
            w.outcome(&format!("{} {}", p.name, b.len()));
        }
        o => w.viol(format!("{}: own encoding not decoded ({})", p.name, o.class()), || {
            format!("{}; encoded as {}; got {}", show(p, h, v), hex(&b), o.show())
        }),
    }
    w.sample(|| format!("{v:?} <-> {}", hex(&b)));
}
/// the lists whose element count is not carried on the wire, one at a time
fn nodec_lists(p: &'static PduInfo) -> Vec<(String, Val)> {
    let proto = genv::uniform(p.ty, 1, false);
    let mut out = vec![];
    for (path, t) in drive::lists(p.ty, &proto) {
        if matches!(t, Ty::List(_, spec::Count::NoDec) | Ty::OptList(..)) {
            for n in 1..=2 {
                let mut v = proto.clone();
                drive::set_len(&mut v, &path, t, n);
                genv::fill(p.ty, &mut v, Mode::Pattern(4 + out.len() as u64));
                genv::fix(p.ty, &mut v, 0);
                out.push((spec::strip_idx(&p.ty.path_name(&path)), v));
            }
        }
    }
    out
}
pub fn c02(sz: Sz) -> Plan {
    let mut items = pdu_sweep(sz, true, true, c02_one);
    for p in pdus() {
        if !nodec_lists(p).is_empty() {
            items.push(item(format!("{} lists without a count", p.name), move |w| {
                for (_, v) in nodec_lists(p) {
                    c02_one(w, p, &hdr_pat(), &v);
                }
            }));
        }
    }
    plan_of(
        items,
        "each state is one PDU value with consistent counts; transitions are serialize, deserialize and serialize again; the decoded header and every public field are compared with the original and both encodings with each other",
        vec![
            format!("lists of 0..{} elements in every combination (cap {} shapes per type)", sz.pick(2, 3), sz.pick(300, 4000)),
            "single fields: all codes of enumerations, all values of 8- and 16-bit fields, boundary alphabets for wider ones".into(),
            format!("pairs of fields over 8-value alphabets, and of every code with {}{}", "8 values of every other field, and of 34 headers with every body field", sz.pick("", "; every value of the single-field alphabets with 3 of every other field; triples of fields over 3-value alphabets")),
            "each list at every length up to the 8192-byte limit or the range of its count field (lists of single octets and words: many in the quick tier)".into(),
            "longer lists (3 to 17 elements) with any field of any element changed, any two lists at 12 lengths each, field pairs with empty and two-element lists".into(),
        ],
    )
}

// ------------------------------------------------------------------ C03
fn c03_one(w: &mut W, p: &'static PduInfo, h: &Hdr, v: &Val) {
    let want = packet(p.ty, h, v);
    if want.len() > drive::LIMIT || !w.state(p.name, &want) {
        return;
    }
    w.traces += 1;
    let r = w.imp("length and serialize", p.name, &want, || {
        let mut o = p.make(h, v);
        let c0 = o.calc().ok();
        o.finalize();
        let fin = o.header().length;
        let mut b = BytesMut::new();
        b.put_slice(&[9; 5]);
        let r = o.serialize(&mut b).is_ok();
        let c1 = o.calc().ok();
        (c0, fin, r, b, o.header().length, c1)
    });
    match r {
        Err(e) => w.viol(format!("{}: panic in length calculation or serialize", p.name), || format!("{}; {e}", show(p, h, v))),
        Ok((c0, fin, true, b, hl, c1)) => {
            let n = b.len() - 5;
            let wire = usize::from(u16::from_be_bytes([b[13], b[14]]));
            let mut bad = |what: &str, x: usize| {
                if x != n {
                    w.viol(format!("{}: {what} is not the encoded size", p.name), || {
                        format!("{}; {n} bytes were appended but {what} is {x}", show(p, h, v))
                    });
                }
            };
            bad("header length after serialize", usize::from(hl));
            bad("length on the wire", wire);
            bad("calculated length", c1.map_or(usize::MAX, usize::from));
            bad("calculated length before serialize", c0.map_or(usize::MAX, usize::from));
            bad("header length after finalize", usize::from(fin));
            w.outcome(&format!("{n}"));
        }
        Ok(_) => w.viol(format!("{}: not encoded", p.name), || show(p, h, v)),
    }
    w.sample(|| format!("{v:?}: {} bytes", want.len()));
}
fn c03_hist(w: &mut W, p: &'static PduInfo, depth: usize) {
    let vals: Vec<Val> = (0..3).filter_map(|n| base(p.ty, n, 3 + n as u64)).collect();
    let nv = vals.len();
    let nops = nv + 4;
    let sizes: Vec<usize> = vals.iter().map(|v| packet(p.ty, &hdr0(), v).len()).collect();
    let mut seq = vec![0usize; depth];
    loop {
        let s2 = seq.clone();
        let r = w.imp("edit/finalize/serialize history", p.name, &s2.iter().map(|x| *x as u8).collect::<Vec<_>>(), || {
            let mut o = p.make(&hdr0(), &vals[0]);
            let mut cur = 0;
            let mut bad = None;
            for (k, op) in s2.iter().enumerate() {
                match op - 0 {
                    x if x < nv => {
                        o.assign(&vals[x]);
                        cur = x;
                    }
                    x if x == nv => {
                        o.finalize();
                        if usize::from(o.header().length) != sizes[cur] {
                            bad = Some((k, "header length after finalize", usize::from(o.header().length), sizes[cur]));
                        }
                    }
                    x if x == nv + 1 => {
                        let mut b = BytesMut::new();
                        let ok = o.serialize(&mut b).is_ok();
                        let wire = if b.len() >= 12 { usize::from(u16::from_be_bytes([b[8], b[9]])) } else { 0 };
                        if !ok || wire != b.len() || usize::from(o.header().length) != b.len() || b.len() != sizes[cur] {
                            bad = Some((k, "length after serialize", wire, b.len()));
                        }
                    }
                    x if x == nv + 2 => o.header_mut().length = 0xBEEF,
                    _ => {
                        if o.calc().ok().map(usize::from) != Some(sizes[cur]) {
                            bad = Some((k, "calculated length", 0, sizes[cur]));
                        }
                    }
                }
            }
            bad
        });
        w.traces += 1;
        w.state(p.name, &s2.iter().map(|x| *x as u8).collect::<Vec<_>>());
        match r {
            Err(e) => w.viol(format!("{}: panic in a history", p.name), || format!("operations {s2:?}: {e}")),
            Ok(Some((k, what, got, want))) => w.viol(format!("{}: {what} wrong in a history", p.name), || {
                format!("operations {s2:?} (0..{nv} assign a value, then finalize, serialize, overwrite length, calculate): at step {k} {got}, should be {want}")
            }),
            Ok(None) => {}
        }
        if w.full() {
            return;
        }
        let mut i = 0;
        while i < depth {
            seq[i] += 1;
            if seq[i] < nops {
                break;
            }
            seq[i] = 0;
            i += 1;
        }
        if i == depth {
            return;
        }
    }
}
/// whatever length the header holds before, finalize and serialize leave the right one
fn c03_stale(w: &mut W, p: &'static PduInfo) {
    for n in 0..3 {
        let Some(v) = base(p.ty, n, 5 + n as u64) else { continue };
        let h = hdr_pat();
        let size = packet(p.ty, &h, &v).len();
        let near = |x: u16| usize::from(x).abs_diff(size) <= 300 || x < 16 || x.is_power_of_two() || (!x).is_power_of_two();
        let r = w.imp("finalize and serialize over any length", p.name, &[n as u8], || {
            let mut o = p.make(&h, &v);
            let mut b = BytesMut::new();
            for x in 0..=u16::MAX {
                o.header_mut().length = x;
                o.finalize();
                let fin = o.header().length;
                if usize::from(fin) != size {
                    return Some(("header length after finalize", x, usize::from(fin)));
                }
                if near(x) {
                    o.header_mut().length = x;
                    b.clear();
                    let ok = o.serialize(&mut b).is_ok();
                    let (hl, wire) = (o.header().length, if ok { usize::from(u16::from_be_bytes([b[8], b[9]])) } else { 0 });
                    if !ok || b.len() != size || usize::from(hl) != size || wire != size {
                        return Some(("length after serialize", x, if wire == size { usize::from(hl) } else { wire }));
                    }
                }
            }
            None
        });
        for x in 0..=u16::MAX {
            w.state(p.name, &[n as u8, (x >> 8) as u8, x as u8, 77]);
        }
        w.traces += 65_536;
        match r {
            Err(e) => w.viol(format!("{}: panic over a length", p.name), || e),
            Ok(Some((what, x, got))) => w.viol(format!("{}: {what} depends on the length before", p.name), || {
                format!("a PDU of {size} bytes whose header says {x}: {what} is {got}")
            }),
            Ok(None) => {}
        }
    }
}
pub fn c03(sz: Sz) -> Plan {
    let mut items = pdu_sweep(sz, sz.thorough, false, c03_one);
    for p in pdus() {
        items.push(item(format!("{} histories", p.name), move |w| c03_hist(w, p, sz.pick(3, 5))));
        items.push(item(format!("{} lengths before", p.name), move |w| c03_stale(w, p)));
    }
    plan_of(
        items,
        "each state is one PDU value or one history of assign/finalize/serialize/overwrite/calculate; after each step the header length, wire length and calculated length are compared with the bytes appended",
        vec![
            format!("lists of 0..{} elements in every combination, each list up to the 8192-byte limit", sz.pick(2, 3)),
            format!("histories of every sequence of {} operations", sz.pick(3, 5)),
            "finalize over all 65536 lengths the header may hold before, on PDUs with lists of 0, 1 and 2 elements; serialize over those within 300 of the right one".into(),
        ],
    )
}

// ------------------------------------------------------------------ C04
fn c04_one(w: &mut W, p: &'static PduInfo, v: &Val, size: usize) {
    let mut id = size.to_be_bytes().to_vec();
    id.extend(format!("{:?}", v.diff(&Val::Any)).bytes());
    w.state(p.name, &id);
    w.traces += 1;
    let r = w.imp("serialize near the size limit", p.name, &[], || {
        let mut o = p.make(&hdr_pat(), v);
        let c = o.calc();
        let mut b = BytesMut::new();
        b.put_slice(b"keep");
        let r = o.serialize(&mut b);
        (c, r, b)
    });
    let what = |s: &str| format!("{}: {s}", p.name);
    match r {
        Err(e) => w.viol(what("panic near the size limit"), || format!("encoded size {size}: {e}")),
        Ok((c, r, b)) => {
            let over = size > drive::LIMIT;
            let good = |e: &open_dis_rust::common::DISError| {
                matches!(e, open_dis_rust::common::DISError::PduSizeExceeded { size: s, max_size: 8192 } if *s == size)
            };
            match (&c, over) {
                (Ok(n), false) if usize::from(*n) == size => {}
                (Err(e), true) if good(e) => {}
                (c, _) => w.viol(what("length calculation at the size limit"), || {
                    format!("a value of encoded size {size} gives {c:?} (limit 8192)")
                }),
            }
            match (&r, over) {
                (Ok(()), false) => {
                    if b.len() != size + 4 {
                        w.viol(what("encoded size"), || format!("{} bytes for size {size}", b.len() - 4));
                    }
                    w.outcome("accepted");
                }
                (Err(e), true) if good(e) => {
                    w.outcome("refused");
                    if &b[..] != b"keep" {
                        w.viol(what("refused PDU left bytes in the buffer"), || {
                            format!("size {size} was refused but the output buffer holds {}", hex(&b))
                        });
                    }
                }
                (r, _) => w.viol(what("serialize at the size limit"), || format!("a value of encoded size {size} gives {r:?} (limit 8192)")),
            }
        }
    }
    w.sample(|| format!("{} size {size}", p.name));
}
fn c04_pdu(w: &mut W, p: &'static PduInfo, sz: Sz) {
    let proto = genv::uniform(p.ty, 1, true);
    let ls = drive::lists(p.ty, &proto);
    let size_of = |v: &Val| packet(p.ty, &hdr0(), v).len();
    let run = |w: &mut W, v: &Val| {
        let mut v = v.clone();
        genv::fill(p.ty, &mut v, Mode::Pattern(6));
        genv::fix(p.ty, &mut v, 0);
        let s = size_of(&v);
        c04_one(w, p, &v, s);
    };
    if ls.is_empty() {
        run(w, &proto);
    }
    for (i, (path, t)) in ls.iter().enumerate() {
        let with = |n: usize| {
            let mut v = proto.clone();
            drive::set_len(&mut v, path, t, n);
            v
        };
        let s0 = size_of(&with(0));
        let el = ((size_of(&with(8)) - s0) / 8).max(1);
        let at = |size: usize| size.saturating_sub(s0) / el;
        let mut ns: Vec<usize> = vec![];
        for (target, win) in [(drive::LIMIT, sz.pick(6, 40)), (65_535, sz.pick(3, 12)), (65_536 + 8192, 2), (131_072, 2), (131_072 + 8192, 1)] {
            if matches!(t, Ty::OptBytes(_)) && target > 9000 {
                continue;
            }
            let c = at(target);
            ns.extend(c.saturating_sub(win)..=c + win);
        }
        ns.extend([0, 1, 2, 100]);
        if sz.thorough {
            ns.extend(drive::lengths(at(8300), at(8192), el > 8 || sz.deep));
        }
        ns.sort_unstable();
        ns.dedup();
        for n in ns {
            // an opaque section of more than its length field can say cannot be built
            if matches!(t, Ty::OptBytes(_)) && n > opt_max(p, path) {
                continue;
            }
            run(w, &with(n));
            if w.full() {
                return;
            }
        }
        // together with another list
        for (path2, t2) in ls.iter().skip(i + 1).take(sz.pick(2, 8)) {
            if path2.starts_with(path) || matches!(t2, Ty::OptBytes(_)) || matches!(t, Ty::OptBytes(_)) {
                continue;
            }
            let mut v = with(at(4000));
            drive::set_len(&mut v, path2, t2, 0);
            let a0 = size_of(&v);
            drive::set_len(&mut v, path2, t2, 8);
            let el2 = ((size_of(&v) - a0) / 8).max(1);
            let c = drive::LIMIT.saturating_sub(a0) / el2;
            for n in c.saturating_sub(3)..=c + 3 {
                drive::set_len(&mut v, path2, t2, n);
                run(w, &v);
            }
        }
    }
}
fn opt_max(p: &PduInfo, path: &[usize]) -> usize {
    match p.ty.vty(path[0]) {
        Ty::OptBytes(l) => genv::wmask(match p.ty.vty(l[0]) {
            Ty::Int(_, w) => *w,
            o => panic!("engine: {o:?}"),
        }) as usize,
        _ => usize::MAX,
    }
}
pub fn c04(sz: Sz) -> Plan {
    use open_dis_rust::common::constants as k;
    let mut items: Vec<Item> = pdus().iter().map(|p| item(format!("{} sizes", p.name), move |w| c04_pdu(w, p, sz))).collect();
    items.push(item("size helpers", |w| {
        let mut ns: Vec<usize> = (0..=20_000).collect();
        ns.extend([65_535, 65_536, 65_537, 73_728, 131_072, usize::MAX - 20, usize::MAX]);
        for n in ns {
            w.state("helpers", &n.to_be_bytes());
            w.traces += 1;
            let r = w.imp("size helpers", "constants", &n.to_be_bytes(), || {
                (k::validate_pdu_size(n), k::validate_marking_length(n), if n < usize::MAX - 12 { k::total_pdu_size(n) } else { 0 })
            });
            let want = (n <= 8192, n <= 32, if n < usize::MAX - 12 { n + 12 } else { 0 });
            if r.as_ref() != Ok(&want) {
                w.viol("size helpers".into(), || format!("for {n}: {r:?}, should be {want:?}"));
            }
        }
        let c = (k::MAX_PDU_SIZE_OCTETS, k::MAX_PDU_SIZE_BITS, k::PDU_HEADER_SIZE, k::MAX_ENTITY_MARKING_LENGTH, k::BITS_PER_BYTE, k::MAX_ARTICULATION_PARAMS);
        if c != (8192, 65_536, 12, 32, 8, 64) {
            w.viol("size constants".into(), || format!("{c:?}"));
        }
    }));
    plan_of(
        items,
        "each state is a PDU value of a given encoded size, reached by growing one or two of its lists; length calculation and serialize are called and their result, error contents and the output buffer compared with the 8192-byte rule",
        vec![
            format!("every list of every type (nested ones included) at all lengths within {} of the 8192-byte edge, and around 65535, 65536+8192 and 131072 bytes", sz.pick(6, 40)),
            "pairs of lists around the edge".into(),
            "size helpers for every size 0..20000".into(),
        ],
    )
}

// ------------------------------------------------------------------ C08
fn trailers() -> Vec<Vec<u8>> {
    let mut t = vec![];
    for n in [1usize, 2, 3, 4, 7, 8, 12, 16, 40, 64] {
        for b in [0u8, 1, 8, 0x80, 0xFF] {
            t.push(vec![b; n]);
        }
    }
    t.push((0..=255).collect());
    t
}
fn expect_dec(w: &mut W, p: &'static PduInfo, bytes: &[u8], own: usize, o: &Out, ctx: &str) {
    let r = drive::ref_dec(p, &bytes[..own]);
    if let Some(d) = drive::differ(p, &r, o) {
        let d = if d.starts_with('.') { d } else { format!(": {d}") };
        w.viol(format!("{}{d} {ctx}", p.name), || {
            format!("packet of {own} bytes followed by {} more: {}; got {}, should be {}", bytes.len() - own, hex(bytes), o.show(), r.show())
        });
    }
}
/// what follows may be long: counts of what is left may not wrap or come into it
fn c08_long(w: &mut W, p: &'static PduInfo, sz: Sz) {
    for (k, b) in drive::corpus(p, sz.thorough).into_iter().enumerate() {
        if b.len() > 1200 && !sz.thorough {
            continue;
        }
        let mut ts: Vec<usize> = (0..=sz.pick(300, 1200)).collect();
        for at in [8192usize, 32_768, 65_536, 131_072] {
            ts.extend(at.saturating_sub(b.len() + 8)..at + 8);
        }
        ts.extend([100_000, 1_000_000]);
        for fill in [0u8, 0xEE] {
            let mut x = b.clone();
            x.resize(b.len() + 1_000_000, fill);
            let r = drive::ref_dec(p, &b);
            for &t in &ts {
                let y = &x[..b.len() + t];
                w.state(p.name, &[&[k as u8, fill][..], &t.to_be_bytes()].concat());
                w.traces += 1;
                let o = drive::dec_id(w, p, y, &b);
                if let Some(d) = drive::differ(p, &r, &o) {
                    w.viol(format!("{}: {d} when many bytes follow", p.name), || {
                        format!("packet {} followed by {t} bytes {fill:02x}: {}, should be {}", hex(&b), o.show(), r.show())
                    });
                    return;
                }
            }
        }
    }
}
fn c08_pdu(w: &mut W, p: &'static PduInfo, sz: Sz) {
    for b in drive::corpus(p, sz.thorough) {
        for t in trailers() {
            let mut x = b.clone();
            x.extend(&t);
            w.state(p.name, &x);
            w.traces += 1;
            let o = dec(w, p, &x);
            expect_dec(w, p, &x, b.len(), &o, "when bytes follow");
            if w.full() {
                return;
            }
        }
    }
    // every packet type after this one, in one buffer, and split over segments
    for q in pdus() {
        for (n, m) in [(1, 1), (0, 1), (1, 0), (2, 2)] {
            let (Some((_, a)), Some((_, b))) = (drive::base_packet(p, n, 1), drive::base_packet(q, m, 2)) else { continue };
            if a.len() > drive::LIMIT || b.len() > drive::LIMIT {
                continue;
            }
            let mut x = a.clone();
            x.extend(&b);
            let end = x.len();
            x.extend([0xEE; 3]);
            w.state(p.name, &x);
            w.traces += 1;
            let r = w.imp("two PDUs from one buffer", p.name, &x, || {
                let mut s: &[u8] = &x;
                let r1 = (p.dec_slice)(&mut s).map(|o| o.observe());
                let l1 = s.len();
                let r2 = (q.dec_slice)(&mut s).map(|o| o.observe());
                (r1.ok(), l1, r2.ok(), s.len())
            });
            let (w1, w2) = (val_of(p, &a), val_of(q, &b));
            match r {
                Ok((Some(v1), l1, Some(v2), l2)) if w1.matches(&v1) && w2.matches(&v2) && l1 == x.len() - a.len() && l2 == x.len() - end => {
                    w.outcome(q.name);
                }
                r => {
                    w.viol(format!("{} then {}: stream decodes differently", p.name, q.name), || {
                        format!("bytes {}; got {:?}", hex(&x), r)
                    });
                    if w.full() {
                        return;
                    }
                }
            }
            let cuts = [a.len() - 1, a.len() + 1, a.len() + 13];
            let mut f = FragBuf::new(&x, &cuts);
            let o1 = dec_dyn(w, p, &x, &mut f);
            expect_dec(w, p, &x, a.len(), &o1, "in a segmented stream");
            if matches!(o1, Out::Ok(..)) {
                let rest = x[x.len() - f.remaining()..].to_vec();
                let o2 = dec_dyn(w, q, &rest, &mut f);
                expect_dec(w, q, &rest, b.len(), &o2, "in a segmented stream");
            }
        }
    }
}
fn val_of(p: &'static PduInfo, b: &[u8]) -> Val {
    match drive::ref_dec(p, b) {
        drive::Ref::Ok(_, v, _) => v,
        r => panic!("engine: reference does not decode its own packet: {}", r.show()),
    }
}
/// every code, small number and number that conditions mention, with something behind
fn c08_values(w: &mut W, p: &'static PduInfo, n: usize) {
    let next = drive::base_packet(p, 0, 3).map(|x| x.1).unwrap_or_default();
    let tails: [&[u8]; 5] = [&[0], &[0; 9], &[0xFF; 17], &next, &[1; 3]];
    drive::value_packets(p, n, &mut |b| {
        for t in tails {
            let mut x = b.to_vec();
            x.extend(t);
            w.state(p.name, &x);
            w.traces += 1;
            let o = dec(w, p, &x);
            expect_dec(w, p, &x, b.len(), &o, "when bytes follow");
        }
        !w.full()
    });
}
fn c08_append(w: &mut W, p: &'static PduInfo, sz: Sz) {
    let prefixes: Vec<Vec<u8>> = vec![vec![], vec![0xAB], vec![0; 11], (0..12).collect(), vec![0xFF; 13], vec![7; 100], vec![1; 8192]];
    let mut vals: Vec<Val> = (0..3).filter_map(|n| base(p.ty, n, 7)).collect();
    if sz.thorough {
        drive::structs(p.ty, Skel { max: 1, nodec: true, cap: 40 }, &[Mode::Pattern(8)], &mut |v| {
            vals.push(v.clone());
            vals.len() < 60
        });
    }
    for v in &vals {
        let want = packet(p.ty, &hdr_pat(), v);
        if want.len() > drive::LIMIT {
            continue;
        }
        for pre in &prefixes {
            for cap in [0usize, 1, 12, want.len() - 1, want.len(), want.len() + 1, pre.len() + want.len(), 8192, 20_000] {
                for shared in [false, true] {
                    let mut id = pre.clone();
                    id.extend(cap.to_be_bytes());
                    id.push(u8::from(shared));
                    id.extend(&want);
                    w.state(p.name, &id);
                    w.traces += 1;
                    let r = w.imp("serialize into a used buffer", p.name, &want, || {
                        let mut b = BytesMut::with_capacity(cap);
                        // a second handle to the same storage
                        let mut other = None;
                        if shared {
                            b.put_slice(b"earlier packet");
                            other = Some(b.split());
                        }
                        b.put_slice(pre);
                        let mut o = p.make(&hdr_pat(), v);
                        let ok = o.serialize(&mut b).is_ok();
                        (ok, b, other)
                    });
                    let good = match &r {
                        Ok((true, b, other)) => {
                            b.len() == pre.len() + want.len()
                                && b[..pre.len()] == pre[..]
                                && b[pre.len()..] == want[..]
                                && other.as_ref().is_none_or(|o| &o[..] == b"earlier packet")
                        }
                        _ => false,
                    };
                    if !good {
                        w.viol(format!("{}: output depends on the buffer it is appended to", p.name), || {
                            format!("prefix {} bytes, capacity {cap}, shared {shared}, value {v:?}: {r:?}, should append {}", pre.len(), hex(&want))
                        });
                        return;
                    }
                }
            }
        }
    }
}
fn c08_nodec(w: &mut W, p: &'static PduInfo) {
    for (f, v) in nodec_lists(p) {
        let Enc::Ok(b, _) = enc(w, p, &hdr_pat(), &v) else { continue };
        w.state(p.name, &b);
        w.traces += 1;
        match dec(w, p, &b) {
            Out::Ok(_, _, n) if n == b.len() => {}
            o => w.viol(format!("{}{f}: decode does not consume what encode produced", p.name), || {
                format!("{v:?} encodes to {} bytes {}; got {}", b.len(), hex(&b), o.show())
            }),
        }
    }
}
fn c08_triples(w: &mut W, first: &'static PduInfo, reps: &[&'static PduInfo]) {
    for b in reps {
        for c in reps {
            let mut x = vec![];
            let mut ends = vec![];
            let mut ok = true;
            for (k, p) in [first, b, c].iter().enumerate() {
                match drive::base_packet(p, k % 3, k as u64 + 1) {
                    Some((_, y)) => x.extend(y),
                    None => ok = false,
                }
                ends.push(x.len());
            }
            if !ok {
                continue;
            }
            w.state(first.name, &x);
            w.traces += 1;
            let mut buf = Bytes::copy_from_slice(&x);
            let mut at = 0;
            for (k, p) in [first, b, c].iter().enumerate() {
                let o = dec_dyn(w, p, &x, &mut buf);
                let r = drive::ref_dec(p, &x[at..ends[k]]);
                if let Some(d) = drive::differ(p, &r, &o) {
                    w.viol(format!("{}: {d} in a stream of three", p.name), || format!("stream {}; packet {k}: {}", hex(&x), o.show()));
                    return;
                }
                at = ends[k];
            }
        }
    }
}
/// Where a packet lies in the buffer does not matter: each list at all small lengths, after prefixes of
/// every length modulo 16.
fn c08_align(w: &mut W, p: &'static PduInfo, sz: Sz) {
    let one = |w: &mut W, v: &Val| -> bool {
        let want = packet(p.ty, &hdr_pat(), v);
        if want.len() > drive::LIMIT || !w.state(p.name, &want) {
            return true;
        }
        for n in 1..sz.pick(9usize, 17) {
            w.traces += 1;
            let pre: Vec<u8> = (0..n).map(|i| 0xE0 | i as u8).collect();
            let r = w.imp("serialize after a prefix", p.name, &want, || {
                let mut b = BytesMut::from(&pre[..]);
                let ok = p.make(&hdr_pat(), v).serialize(&mut b).is_ok();
                (ok, b)
            });
            if !matches!(&r, Ok((true, b)) if b[..n] == pre[..] && b[n..] == want[..]) {
                w.viol(format!("{}: output depends on the buffer it is appended to", p.name), || {
                    format!("prefix {n} bytes, value {v:?}: {r:?}, should append {}", hex(&want))
                });
                return false;
            }
        }
        !w.full()
    };
    for n in [1usize, 2] {
        let proto = genv::uniform(p.ty, n, false);
        for (path, t) in drive::lists(p.ty, &proto) {
            for k in 0..=sz.pick(18usize, 70) {
                let mut v = proto.clone();
                drive::set_len(&mut v, &path, t, k);
                for seed in 0..sz.pick(4, 8) {
                    genv::fill(p.ty, &mut v, Mode::Pattern(seed));
                    if genv::fix(p.ty, &mut v, seed) && !one(w, &v) {
                        return;
                    }
                }
            }
        }
    }
    drive::structs(p.ty, Skel { max: 2, nodec: false, cap: sz.pick(60, 600) }, &[Mode::Pattern(3), Mode::Alt], &mut |v| one(w, v));
}
fn c08_rec_align(w: &mut W, r: &'static RecInfo, sz: Sz) {
    let one = |w: &mut W, v: &Val| -> bool {
        let want = crate::c_rec::rec_enc(r.ty, v);
        if !w.state(r.name, &want) {
            return true;
        }
        for n in 1..sz.pick(9usize, 33) {
            w.traces += 1;
            let pre: Vec<u8> = (0..n).map(|i| 0xE0 | i as u8).collect();
            let got = w.imp("serialize after a prefix", r.name, &want, || {
                let mut b = BytesMut::from(&pre[..]);
                (r.ser)(v, &mut b);
                b
            });
            if !matches!(&got, Ok(b) if b.len() == n + want.len() && b[..n] == pre[..] && b[n..] == want[..]) {
                w.viol(format!("{}: output depends on the buffer it is appended to", r.name), || {
                    format!("prefix {n} bytes, value {v:?}: {got:?}, should append {}", hex(&want))
                });
                return false;
            }
        }
        !w.full()
    };
    let proto = genv::uniform(r.ty, 1, false);
    for (path, t) in drive::lists(r.ty, &proto) {
        for k in 0..=sz.pick(40usize, 300) {
            let mut v = proto.clone();
            drive::set_len(&mut v, &path, t, k);
            for seed in 0..sz.pick(8, 16) {
                genv::fill(r.ty, &mut v, Mode::Pattern(seed));
                if genv::fix(r.ty, &mut v, seed) && !one(w, &v) {
                    return;
                }
            }
        }
    }
    for n in 0..=2 {
        if let Some(b) = base(r.ty, n, 3) {
            drive::singles(r.ty, &b, Depth::Mid, true, &mut |v| one(w, v));
        }
    }
}
pub fn c08(sz: Sz) -> Plan {
    let mut items = vec![];
    for r in crate::bind::records() {
        items.push(item(format!("{} after prefixes", r.name), move |w| c08_rec_align(w, r, sz)));
    }
    let reps: Vec<&'static PduInfo> = pdus().iter().step_by(sz.pick3(11, 3, 1)).collect();
    for p in pdus() {
        items.push(item(format!("{} followed by others", p.name), move |w| c08_pdu(w, p, sz)));
        items.push(item(format!("{} followed by many bytes", p.name), move |w| c08_long(w, p, sz)));
        for n in 0..2 {
            items.push(item(format!("{} with any field, lists of {n}, followed by others", p.name), move |w| c08_values(w, p, n)));
        }
        items.push(item(format!("{} appended", p.name), move |w| c08_append(w, p, sz)));
        items.push(item(format!("{} after prefixes", p.name), move |w| c08_align(w, p, sz)));
        let reps = reps.clone();
        items.push(item(format!("{} first of three", p.name), move |w| c08_triples(w, p, &reps)));
        if !nodec_lists(p).is_empty() {
            items.push(item(format!("{} lists without a count", p.name), move |w| c08_nodec(w, p)));
        }
    }
    plan_of(
        items,
        "each state is a byte stream (a packet and what follows it) or an output buffer (prefix, capacity, sharing); decoded value and consumed bytes are compared with the reference decoder restricted to the packet's own bytes, appended bytes with the reference encoder",
        vec![
            "every corpus packet by 51 trailers, all 66x66 ordered pairs of types by 4 size combinations, contiguous and segmented".into(),
            "every corpus packet followed by 0 to 300 bytes, by as many as make any part of it 8192, 32768, 65536 or 131072 bytes from the end, and by 1000000".into(),
            "packets with each field at every code, small number and number that conditions mention, by 5 trailers".into(),
            "all triples starting with each type over representative types".into(),
            "7 prefixes x 9 capacities x shared or owned storage per value".into(),
            format!("prefixes of 1 to {} octets (records: {}) x every list at lengths 0 to {} (records: {}), list shapes, single fields", sz.pick(8, 16), sz.pick(8, 32), sz.pick(18, 70), sz.pick(40, 300)),
        ],
    )
}

// ------------------------------------------------------------------ C26
fn c26_one(w: &mut W, p: &'static PduInfo, h: &Hdr, v: &Val) {
    let x = packet(p.ty, h, v);
    if x.len() > drive::LIMIT || !w.state(p.name, &x) {
        return;
    }
    w.traces += 1;
    let r = w.imp("decode and re-encode", p.name, &x, || {
        let mut s: &[u8] = &x;
        match (p.dec_slice)(&mut s) {
            Ok(mut o) => {
                let mut b = BytesMut::new();
                match o.serialize(&mut b) {
                    Ok(()) => Ok((b, get_header(o.header()))),
                    Err(e) => Err(e.to_string()),
                }
            }
            Err(e) => Err(e.to_string()),
        }
    });
    match r {
        Ok(Ok((b, _))) => {
            if b[..] != x[..] {
                w.viol(format!("{}{}: packet changed by relaying", p.name, byte_diff(p, v, &x, &b)), || {
                    format!("in {} out {}", hex(&x), hex(&b))
                });
            }
            w.outcome(&format!("{} {}", p.name, b.len()));
        }
        Ok(Err(e)) => w.viol(format!("{}: packet not relayed", p.name), || format!("in {}: {e}", hex(&x))),
        Err(e) => w.viol(format!("{}: panic while relaying", p.name), || format!("in {}: {e}", hex(&x))),
    }
    w.sample(|| hex(&x));
}
pub fn c26(sz: Sz) -> Plan {
    let mut items = pdu_sweep(sz, sz.thorough, true, c26_one);
    for p in pdus() {
        if !nodec_lists(p).is_empty() {
            items.push(item(format!("{} lists without a count", p.name), move |w| {
                for (f, v) in nodec_lists(p) {
                    let x = packet(p.ty, &hdr_pat(), &v);
                    w.traces += 1;
                    let r = w.imp("decode and re-encode", p.name, &x, || {
                        let mut s: &[u8] = &x;
                        let mut o = (p.dec_slice)(&mut s).ok()?;
                        let mut b = BytesMut::new();
                        o.serialize(&mut b).ok()?;
                        Some(b)
                    });
                    if r.as_ref().ok().and_then(Option::as_ref).is_none_or(|b| b[..] != x[..]) {
                        w.viol(format!("{}{f}: packet changed by relaying", p.name), || format!("in {} out {r:?}", hex(&x)));
                    }
                }
            }));
        }
    }
    plan_of(
        items,
        "each state is a well-formed packet built by the reference encoder; the crate decodes it and encodes the result, which must be the same bytes",
        vec![
            format!("lists of 0..{} elements in every combination, each list up to the 8192-byte limit or its count field's range", sz.pick(2, 3)),
            "single fields over the alphabets, pairs of fields, all exercise and status bytes, all version codes, timestamp alphabet".into(),
        ],
    )
}
