//! C11 header codecs, C12 status accessors, C19 timestamps.
use crate::bind::{Bind, DynBuf, enum_by_name, get_header, pdus, set_header};
use crate::checks::{Sz, plan_of};
use crate::clock::with_clock;
use crate::drive::{hdr_diff, hdr_pat, ref_hdr};
use crate::engine::{Plan, W, hex, item, now_raw};
use crate::fragbuf::FragBuf;
use crate::genv::{self, Depth, Leaf};
use crate::spec::{Hdr, Num};
use crate::val::Val;
use bytes::{BufMut, BytesMut};
use open_dis_rust::common::enums as e;
use open_dis_rust::common::pdu_header::PduStatusRecord;
use open_dis_rust::common::{GenericHeader, LiveEntityPduHeader, PduHeader, SerializedLength};
use open_dis_rust::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};

fn u(x: u8) -> Val {
    Val::U(u64::from(x))
}
pub fn live_of(h: &Hdr) -> LiveEntityPduHeader {
    let mut l = LiveEntityPduHeader::default();
    l.protocol_version = Bind::build(&u(h.version));
    l.exercise_id = h.exercise;
    l.pdu_type = Bind::build(&u(h.typ));
    l.protocol_family = Bind::build(&u(h.family));
    l.timestamp = h.timestamp;
    l.length = h.length;
    l.subprotocol_number = Bind::build(&u(h.status));
    l
}
fn live_get(l: &LiveEntityPduHeader) -> Hdr {
    Hdr {
        version: l.protocol_version.observe().u() as u8,
        exercise: l.exercise_id,
        typ: l.pdu_type.observe().u() as u8,
        family: l.protocol_family.observe().u() as u8,
        timestamp: l.timestamp,
        length: l.length,
        status: l.subprotocol_number.observe().u() as u8,
    }
}
fn ref_live(b: &[u8]) -> Hdr {
    let t = enum_by_name("DISLiveEntitySubprotocolNumber");
    let s = if t.has(u64::from(b[10])) { b[10] } else { t.default as u8 };
    Hdr { status: s, ..ref_hdr(b) }
}

// ------------------------------------------------------------------ C11
/// every header value of the bounds
fn each_header(sz: Sz, f: &mut dyn FnMut(&Hdr)) {
    let codes = |n: &str| enum_by_name(n).codes.iter().map(|c| *c as u8).collect::<Vec<_>>();
    let (vs, ts, fs) = (codes("ProtocolVersion"), codes("PduType"), codes("ProtocolFamily"));
    for b in [hdr_pat(), Hdr { version: 0, exercise: 0, typ: 0, family: 0, timestamp: 0, length: 0, status: 0 }, Hdr {
        version: 7,
        exercise: 255,
        typ: 255,
        family: 129,
        timestamp: u32::MAX,
        length: u16::MAX,
        status: 255,
    }] {
        let b = Hdr {
            version: if vs.contains(&b.version) { b.version } else { 7 },
            typ: if ts.contains(&b.typ) { b.typ } else { ts[ts.len() - 1] },
            family: if fs.contains(&b.family) { b.family } else { fs[fs.len() - 1] },
            ..b
        };
        for v in &vs {
            for t in &ts {
                for x in &fs {
                    f(&Hdr { version: *v, typ: *t, family: *x, ..b });
                }
            }
        }
        // what conditions mention, in all combinations
        let hot = |l: Leaf, cap: usize| genv::alphabet(l, genv::Depth::Hot).iter().map(Val::u).take(cap).collect::<Vec<_>>();
        let (hv, ht) = (vs.clone(), hot(Leaf::Enum(enum_by_name("PduType")), 12));
        let hf = hot(Leaf::Enum(enum_by_name("ProtocolFamily")), 8);
        let (h1, h2, h4) = (hot(Leaf::Int(Num::U, 1), 8), hot(Leaf::Int(Num::U, 2), 6), hot(Leaf::Int(Num::U, 4), 6));
        for &version in &hv {
            for &typ in &ht {
                for &family in &hf {
                    for &exercise in h1.iter().take(6) {
                        for &length in &h2 {
                            for &timestamp in &h4 {
                                for status in h1.iter().copied().chain([8, 0x10, 0x20]) {
                                    f(&Hdr {
                                        version,
                                        typ: typ as u8,
                                        family: family as u8,
                                        exercise: exercise as u8,
                                        length: length as u16,
                                        timestamp: timestamp as u32,
                                        status: status as u8,
                                    });
                                }
                            }
                        }
                    }
                }
            }
        }
        for x in 0..=255u8 {
            for s in 0..=255u8 {
                f(&Hdr { exercise: x, status: s, ..b });
            }
        }
        for l in 0..=65_535u16 {
            f(&Hdr { length: l, ..b });
        }
        let tal: Vec<u64> = genv::alphabet(Leaf::Int(Num::U, 4), Depth::Thorough).iter().map(Val::u).collect();
        let lal: Vec<u64> = genv::alphabet(Leaf::Int(Num::U, 2), Depth::Mid).iter().map(Val::u).collect();
        for t in &tal {
            for l in &lal {
                for x in [0u8, 1, 255] {
                    f(&Hdr { timestamp: *t as u32, length: *l as u16, exercise: x, ..b });
                }
            }
        }
        // every value of each half of the timestamp
        for t in 0..=65_535u32 {
            f(&Hdr { timestamp: b.timestamp & 0xFFFF_0000 | t, ..b });
            f(&Hdr { timestamp: t << 16 | b.timestamp & 0xFFFF, ..b });
            if sz.thorough {
                for s in 0..=255u32 {
                    f(&Hdr { timestamp: t << 8 | s << 24 | s, ..b });
                }
            }
        }
    }
}
fn c11_std(w: &mut W, sz: Sz) {
    each_header(sz, &mut |h| {
        let mut want = vec![];
        h.enc(&mut want);
        if w.full() || !w.state("PduHeader", &want) {
            return;
        }
        w.traces += 1;
        let r = w.imp("header codec", "PduHeader", &want, || {
            let mut x = PduHeader::default();
            set_header(&mut x, h);
            let mut b = BytesMut::new();
            b.put_u16(0x5AA5);
            x.serialize(&mut b);
            let mut c = BytesMut::new();
            x.serialize_field(&mut c);
            let mut s = &b[2..];
            let y = PduHeader::deserialize(&mut s);
            let left = s.len();
            let mut s = &c[..];
            let z = PduHeader::deserialize_field(&mut s);
            let left = left + s.len();
            (b, c, left, get_header(&y), y == x, z == x, x.field_len())
        });
        match r {
            Ok((b, c, 0, g, true, true, 12)) if b[..2] == [0x5A, 0xA5] && b[2..] == want[..] && c[..] == want[..] && g == *h => {}
            r => w.viol("standard header codec".into(), || format!("{h:?}: {r:?}, should be {}", hex(&want))),
        }
    });
    w.sample(|| format!("{:?}", hdr_pat()));
}
fn c11_live(w: &mut W, sz: Sz) {
    let subs = &enum_by_name("DISLiveEntitySubprotocolNumber").codes;
    each_header(sz, &mut |h| {
        if w.full() || !subs.contains(&u64::from(h.status)) && h.exercise != 7 {
            return;
        }
        let h = &Hdr { status: if subs.contains(&u64::from(h.status)) { h.status } else { subs[0] as u8 }, ..*h };
        let mut want = vec![];
        h.enc(&mut want);
        if !w.state("LiveEntityPduHeader", &want) {
            return;
        }
        w.traces += 1;
        let r = w.imp("header codec", "LiveEntityPduHeader", &want, || {
            let x = live_of(h);
            let mut b = BytesMut::new();
            b.put_u16(0x5AA5);
            x.serialize(&mut b);
            let mut s = &b[2..];
            let y = LiveEntityPduHeader::deserialize(&mut s);
            let left = s.len();
            (b, left, live_get(&y), y == x)
        });
        match r {
            Ok((b, 0, g, true)) if b[..2] == [0x5A, 0xA5] && b[2..] == want[..] && g == *h => {}
            r => w.viol("live-entity header codec".into(), || format!("{h:?}: {r:?}, should be {}", hex(&want))),
        }
    });
}
/// decoding any 12 bytes
fn c11_bytes(w: &mut W, sz: Sz) {
    let mut pat = vec![];
    hdr_pat().enc(&mut pat);
    let one = |w: &mut W, b: &[u8]| {
        if w.full() || !w.state("header bytes", b) {
            return;
        }
        w.traces += 1;
        let r = w.imp("header decode", "both headers", b, || {
            let mut s = b;
            let a = PduHeader::deserialize(&mut s);
            let mut s2 = b;
            let l = LiveEntityPduHeader::deserialize(&mut s2);
            let mut f = FragBuf::bytewise(b);
            let mut d: DynBuf = &mut f;
            let a2 = PduHeader::deserialize(&mut d);
            let mut f = FragBuf::bytewise(b);
            let mut d: DynBuf = &mut f;
            let l2 = LiveEntityPduHeader::deserialize(&mut d);
            (get_header(&a), live_get(&l), s.len(), s2.len(), a == a2, l == l2, PduHeader::get_pdu_type(b).map(|t| t.observe().u()))
        });
        let (h, l) = (ref_hdr(b), ref_live(b));
        let n = b.len() - 12;
        match r {
            Ok((a, c, x, y, true, true, Some(t))) if a == h && c == l && x == n && y == n && t == u64::from(h.typ) => {}
            r => w.viol("header decode".into(), || {
                let what = match &r {
                    Ok((a, ..)) => hdr_diff(&h, a).unwrap_or("live-entity or peek"),
                    Err(_) => "panic",
                };
                format!("{} ({what}): {r:?}, should be {h:?} and {l:?}", hex(b))
            }),
        }
    };
    for base in [pat, vec![0; 12], vec![255; 12], (1..=12).collect(), vec![7, 1, 1, 1, 0, 0, 0, 0, 0, 144, 0, 0]] {
        for i in 0..12 {
            for c in 0..=255u8 {
                let mut b = base.clone();
                b[i] = c;
                one(w, &b);
                b.extend([9, 9, 9]);
                one(w, &b);
            }
        }
        for i in 0..11 {
            for c in 0..=255u8 {
                for d in 0..=255u8 {
                    let mut b = base.clone();
                    b[i] = c;
                    b[i + 1] = d;
                    one(w, &b);
                }
            }
        }
        if sz.thorough {
            for i in 0..12 {
                for j in i + 2..12 {
                    for c in 0..=255u8 {
                        for d in (0..=255u8).step_by(3) {
                            let mut b = base.clone();
                            b[i] = c;
                            b[j] = d;
                            one(w, &b);
                        }
                    }
                }
            }
        }
    }
}
fn c11_peek(w: &mut W, sz: Sz) {
    let pt = enum_by_name("PduType");
    let lens: Vec<usize> = (0..sz.pick(64, 300)).chain([511, 1024, 1500, 8191, 8192, 8193, 65_535, 65_536, 65_548]).collect();
    for n in lens {
        for c in 0..=255u8 {
            for fill in [0u8, 1, 0xFF] {
                let mut b = vec![fill; n];
                if n > 2 {
                    b[2] = c;
                }
                let want = if n < 12 { None } else if pt.has(u64::from(c)) { Some(u64::from(c)) } else { Some(pt.default) };
                w.state("peek", &[&(n as u32).to_be_bytes()[..], &[c, fill]].concat());
                w.traces += 1;
                let r = w.imp("get_pdu_type", "PduHeader", &b, || PduHeader::get_pdu_type(&b).map(|t| t.observe().u()));
                if r.as_ref() != Ok(&want) {
                    w.viol("peek at the type".into(), || format!("{n} bytes of {fill} with type byte {c}: {r:?}, should be {want:?}"));
                }
                w.outcome(&format!("{want:?}"));
            }
            if n > 2000 && c > 80 && c < 250 {
                continue;
            }
        }
    }
    // all of the first three bytes that matter
    for v in 0..=255u8 {
        for x in 0..=255u8 {
            let b = [v, x, 67, x, v, 1, 2, 3, 4, 5, 6, 7];
            let r = w.imp("get_pdu_type", "PduHeader", &b, || PduHeader::get_pdu_type(&b).map(|t| t.observe().u()));
            if r != Ok(Some(67)) {
                w.viol("peek at the type".into(), || format!("{}: {r:?}", hex(&b)));
            }
        }
    }
}
fn c11_access(w: &mut W) {
    // generic accessors and constructors
    let pt = enum_by_name("PduType");
    let pf = enum_by_name("ProtocolFamily");
    for t in &pt.codes {
        for f in &pf.codes {
            for (x, l) in [(0u8, 0u16), (1, 12), (255, 65_535), (0x5A, 0x1234)] {
                w.state("accessors", &[*t as u8, *f as u8, x]);
                w.traces += 1;
                let r = w.imp("header constructors and accessors", "both headers", &[*t as u8, *f as u8, x], || {
                    let (tt, ff): (e::PduType, e::ProtocolFamily) = (Bind::build(&Val::U(*t)), Bind::build(&Val::U(*f)));
                    let a = PduHeader::new(tt, ff, x, l);
                    let b = LiveEntityPduHeader::new(tt, ff, x, l);
                    let mut c = PduHeader::default();
                    let mut d = LiveEntityPduHeader::default();
                    set_header(&mut c, &hdr_pat());
                    let d0 = live_get(&d);
                    c.set_pdu_type(tt);
                    c.set_protocol_family(ff);
                    c.set_length(l);
                    d.set_pdu_type(tt);
                    d.set_protocol_family(ff);
                    d.set_length(l);
                    let g = (c.pdu_type() == tt, c.protocol_family() == ff, c.length() == l, d.pdu_type() == tt, d.protocol_family() == ff, d.length() == l);
                    let mut e = [BytesMut::new(), BytesMut::new(), BytesMut::new(), BytesMut::new()];
                    a.serialize(&mut e[0]);
                    b.serialize(&mut e[1]);
                    c.serialize(&mut e[2]);
                    d.serialize(&mut e[3]);
                    let g2 = (
                        a.pdu_type() == tt && a.protocol_family() == ff && a.length() == l,
                        b.pdu_type() == tt && b.protocol_family() == ff && b.length() == l,
                    );
                    (get_header(&a), live_get(&b), get_header(&c), live_get(&d), d0, g, g2, e)
                });
                let set = |h: Hdr| Hdr { typ: *t as u8, family: *f as u8, length: l, ..h };
                let ok = match &r {
                    Ok((a, b, c, d, d0, (true, true, true, true, true, true), (true, true), e)) => {
                        let want = |ts| set(Hdr { version: 7, exercise: x, timestamp: ts, status: 0, ..hdr_pat() });
                        *a == want(a.timestamp)
                            && *b == want(b.timestamp)
                            && *c == set(hdr_pat())
                            && *d == set(*d0)
                            && [a, b, c, d].iter().zip(e).all(|(h, b)| {
                                let mut want = vec![];
                                h.enc(&mut want);
                                b[..] == want[..]
                            })
                    }
                    _ => false,
                };
                if !ok {
                    w.viol("header constructors and accessors".into(), || format!("type {t} family {f} exercise {x} length {l}: {r:?}"));
                }
            }
        }
    }
    if PduHeader::LENGTH != 12 || LiveEntityPduHeader::LENGTH != 12 {
        w.viol("published header length".into(), || format!("{} and {}", PduHeader::LENGTH, LiveEntityPduHeader::LENGTH));
    }
}
pub fn c11(sz: Sz) -> Plan {
    plan_of(
        vec![
            item("standard header values", move |w| c11_std(w, sz)),
            item("live-entity header values", move |w| c11_live(w, sz)),
            item("header bytes", move |w| c11_bytes(w, sz)),
            item("peeking", move |w| c11_peek(w, sz)),
            item("constructors and accessors", c11_access),
        ],
        "each state is a header value or 12 header bytes; encode, decode (contiguous and byte by byte), field codec, peek and accessors are compared with the fixed 12-byte layout",
        vec![
            "all versions x types x families; all exercise x status pairs; all lengths; every value of either half of the timestamp, on 3 backgrounds".into(),
            "decoding: every byte value at each offset and every adjacent byte pair on 5 backgrounds".into(),
            format!("peek: all 256 codes at lengths 0..{} and up to 65548", sz.pick(64, 300)),
        ],
    )
}

// ------------------------------------------------------------------ C12
type Get = fn(&PduStatusRecord) -> u64;
type Set = fn(&mut PduStatusRecord, u64);
struct Acc {
    name: &'static str,
    shift: u8,
    bits: u8,
    /// codes that can be set
    codes: &'static [u64],
    get: Get,
    set: Set,
    /// value read for a pattern with no member
    dflt: u64,
}
fn accessors() -> Vec<Acc> {
    fn b<T: Bind>(x: u64) -> T {
        Bind::build(&Val::U(x))
    }
    vec![
        Acc { name: "tei", shift: 0, bits: 1, codes: &[0, 1], get: |s| s.tei().observe().u(), set: |s, x| s.set_tei(b(x)), dflt: 0 },
        Acc { name: "lvc", shift: 1, bits: 2, codes: &[0, 1, 2, 3], get: |s| s.lvc().observe().u(), set: |s, x| s.set_lvc(b(x)), dflt: 0 },
        Acc { name: "cei", shift: 3, bits: 1, codes: &[0, 1], get: |s| s.cei().observe().u(), set: |s, x| s.set_cei(b(x)), dflt: 0 },
        Acc { name: "bit4_5", shift: 4, bits: 2, codes: &[0, 1, 2, 3], get: |s| u64::from(s.bit4_5()), set: |s, x| s.set_bit4_5(x as u8), dflt: 0 },
        Acc { name: "dti", shift: 4, bits: 2, codes: &[0, 1, 2], get: |s| s.get_dti().observe().u(), set: |s, x| s.set_dti(b(x)), dflt: 0 },
        Acc { name: "rai", shift: 4, bits: 2, codes: &[0, 1, 2], get: |s| s.get_rai().observe().u(), set: |s, x| s.set_rai(b(x)), dflt: 0 },
        Acc { name: "iai", shift: 4, bits: 2, codes: &[0, 1, 2], get: |s| s.get_iai().observe().u(), set: |s, x| s.set_iai(b(x)), dflt: 0 },
        Acc { name: "fti", shift: 4, bits: 1, codes: &[0, 1], get: |s| s.get_fti().observe().u(), set: |s, x| s.set_fti(b(x)), dflt: 0 },
        Acc { name: "ism", shift: 4, bits: 1, codes: &[0, 1], get: |s| s.get_ism().observe().u(), set: |s, x| s.set_ism(b(x)), dflt: 0 },
        Acc { name: "aii", shift: 5, bits: 1, codes: &[0, 1], get: |s| s.get_aii().observe().u(), set: |s, x| s.set_aii(b(x)), dflt: 0 },
        Acc { name: "with_tei", shift: 0, bits: 1, codes: &[0, 1], get: |s| s.tei().observe().u(), set: |s, x| *s = s.with_tei(b(x)), dflt: 0 },
        Acc { name: "with_lvc", shift: 1, bits: 2, codes: &[0, 1, 2, 3], get: |s| s.lvc().observe().u(), set: |s, x| *s = s.with_lvc(b(x)), dflt: 0 },
        Acc { name: "with_cei", shift: 3, bits: 1, codes: &[0, 1], get: |s| s.cei().observe().u(), set: |s, x| *s = s.with_cei(b(x)), dflt: 0 },
        Acc { name: "with_bit4_5", shift: 4, bits: 2, codes: &[0, 1, 2, 3], get: |s| u64::from(s.bit4_5()), set: |s, x| *s = s.with_bit4_5(x as u8), dflt: 0 },
    ]
}
fn read(a: &Acc, byte: u8) -> u64 {
    let v = u64::from(byte >> a.shift) & ((1 << a.bits) - 1);
    if a.codes.contains(&v) { v } else { a.dflt }
}
fn c12_seq(w: &mut W, len: usize) {
    let acc = accessors();
    let ops: Vec<(usize, u64)> = acc.iter().enumerate().flat_map(|(i, a)| a.codes.iter().map(move |c| (i, *c))).collect();
    for s0 in 0..=255u8 {
        let r = w.imp("raw conversion", "PduStatusRecord", &[s0], || {
            let s = PduStatusRecord::from_u8(s0);
            let gets: Vec<u64> = acc.iter().map(|a| (a.get)(&s)).collect();
            (s.to_u8(), gets, PduStatusRecord::from_bytes([s0]).into_bytes(), PduStatusRecord::from_bytes([s0]) == s)
        });
        w.state("status", &[s0]);
        w.traces += 1;
        let want: Vec<u64> = acc.iter().map(|a| read(a, s0)).collect();
        match &r {
            Ok((x, g, y, true)) if *x == s0 && *y == [s0] && *g == want => {}
            r => w.viol("status read".into(), || {
                let names: Vec<&str> = acc.iter().map(|a| a.name).collect();
                format!("byte {s0:#04x}: {r:?}; should read {names:?} as {want:?}")
            }),
        }
        // every setter sequence of the given length
        let mut idx = vec![0usize; len];
        loop {
            let r = w.imp("setters", "PduStatusRecord", &[s0], || {
                let mut s = PduStatusRecord::from_u8(s0);
                let mut m = s0;
                for i in &idx {
                    let (a, c) = ops[*i];
                    let a = &acc[a];
                    (a.set)(&mut s, c);
                    let mask = (((1u16 << a.bits) - 1) << a.shift) as u8;
                    m = (m & !mask) | ((c as u8) << a.shift);
                    if s.to_u8() != m {
                        return Some((a.name, c, s.to_u8(), m));
                    }
                    if (a.get)(&s) != c {
                        return Some((a.name, c, 0, m));
                    }
                    for o in &acc {
                        if (o.get)(&s) != read(o, m) {
                            return Some((o.name, 99, s.to_u8(), m));
                        }
                    }
                }
                None
            });
            w.traces += 1;
            w.state("setters", &[&[s0][..], &idx.iter().map(|i| *i as u8).collect::<Vec<_>>()].concat());
            match r {
                Ok(None) => {}
                Ok(Some((n, c, got, want))) => w.viol(format!("status {n}"), || {
                    let ns: Vec<_> = idx.iter().map(|i| format!("{}={}", acc[ops[*i].0].name, ops[*i].1)).collect();
                    format!("from {s0:#04x}, {}: at {n}={c} the byte is {got:#04x}, should be {want:#04x}", ns.join(", "))
                }),
                Err(e) => w.viol("status setter panics".into(), || format!("from {s0:#04x}: {e}")),
            }
            let mut i = 0;
            while i < len {
                idx[i] += 1;
                if idx[i] < ops.len() {
                    break;
                }
                idx[i] = 0;
                i += 1;
            }
            if i == len || w.full() {
                break;
            }
        }
    }
    w.sample(|| format!("{} operations from each of 256 states", ops.len()));
}
fn c12_misc(w: &mut W) {
    let r = w.imp("fresh status", "PduStatusRecord", &[], || (PduStatusRecord::new_zero().to_u8(), PduStatusRecord::default().to_u8(), PduStatusRecord::new().to_u8()));
    w.traces += 1;
    if r != Ok((0, 0, 0)) {
        w.viol("fresh status is not zero".into(), || format!("{r:?}"));
    }
    // conversions of the two-bit views to and from raw codes
    for c in 0..=255u8 {
        w.state("raw", &[c]);
        w.traces += 1;
        let r = w.imp("raw codes", "indicators", &[c], || {
            let d = e::DetonationTypeIndicator::from(c);
            let r = e::RadioAttachedIndicator::from(c);
            let i = e::IntercomAttachedIndicator::from(c);
            (u8::from(d), u8::from(r), u8::from(i))
        });
        let v = if c & 3 == 3 { 0 } else { c & 3 };
        if r != Ok((v, v, v)) {
            w.viol("indicator conversion".into(), || format!("code {c}: {r:?}, should be {v}"));
        }
        // through a header
        let r = w.imp("status in a header", "PduHeader", &[c], || {
            let mut h = PduHeader::default();
            h.status_record = PduStatusRecord::from_u8(c);
            let mut b = BytesMut::new();
            h.serialize(&mut b);
            let mut s = &b[..];
            (b[10], PduHeader::deserialize(&mut s).status_record.to_u8())
        });
        if r != Ok((c, c)) {
            w.viol("status byte in a header".into(), || format!("{c:#04x}: {r:?}"));
        }
    }
}
pub fn c12(sz: Sz) -> Plan {
    plan_of(
        vec![item("setter sequences", move |w| c12_seq(w, sz.pick(2, 3))), item("conversions", c12_misc)],
        "each state is one of the 256 status bytes and a sequence of setter calls; after each call the byte and every getter are compared with the bit assignment of the standard",
        vec![format!("all 256 prior states x every sequence of {} of all (setter, code) operations", sz.pick(2, 3)), "all 256 raw codes".into()],
    )
}

// ------------------------------------------------------------------ C19
const HOUR: u64 = 3_600_000_000_000;
/// DIS units of an instant, exactly
fn units(ns: u64) -> f64 {
    (ns % HOUR) as f64 / 1000.0 / 1.68
}
/// Is `v` the DIS time of an instant in [lo, hi]?
fn denotes(v: u32, lo: u64, hi: u64) -> bool {
    let v = f64::from(v);
    let tol = |x: f64| x * 1e-4 + 300.0;
    let (a, b) = (units(lo), units(hi));
    let ok = |a: f64, b: f64| v >= a - tol(a) && v <= b + tol(b);
    let same = lo / HOUR == hi / HOUR;
    if same {
        ok(a, b)
    } else if hi - lo >= HOUR {
        v <= 3_600_000_000.0 / 1.68 + 300.0
    } else {
        ok(a, 3_600_000_000.0 / 1.68) || ok(0.0, b)
    }
}
const READERS: [(&str, fn() -> u32); 6] = [
    ("PduHeader::calculate_dis_timestamp", PduHeader::calculate_dis_timestamp),
    ("LiveEntityPduHeader::calculate_dis_timestamp", LiveEntityPduHeader::calculate_dis_timestamp),
    ("PduHeader::default", || PduHeader::default().timestamp),
    ("LiveEntityPduHeader::default", || LiveEntityPduHeader::default().timestamp),
    ("PduHeader::new", || PduHeader::new(e::PduType::Fire, e::ProtocolFamily::Warfare, 3, 12).timestamp),
    ("LiveEntityPduHeader::new", || LiveEntityPduHeader::new(e::PduType::Fire, e::ProtocolFamily::Warfare, 3, 12).timestamp),
];
fn ask(w: &mut W, name: &str, f: &dyn Fn() -> u32, r: &[u64]) -> Option<u32> {
    let mut id = vec![];
    for x in r {
        id.extend(x.to_be_bytes());
    }
    w.state(name, &id);
    w.traces += 1;
    let before = (now_raw(libc::CLOCK_REALTIME) * 1e9) as u64;
    let x = w.imp("timestamp", name, &id, || with_clock(r, f));
    let after = (now_raw(libc::CLOCK_REALTIME) * 1e9) as u64 + 2000;
    match x {
        Ok((v, n)) => {
            // without a reading of the replaced clock the real one must have been used
            let (lo, hi) = if n == 0 { (before - 2000, after) } else { (r[0], r[(n - 1).min(r.len() - 1)]) };
            if !denotes(v, lo, hi) {
                w.viol(format!("{name}: timestamp of no instant during the call"), || {
                    format!("clock readings {:?} ns since 1970 ({n} made): timestamp {v}, DIS times of the readings {:?}", r, r.iter().map(|x| units(*x)).collect::<Vec<_>>())
                });
                return None;
            }
            w.count(&format!("clock readings per call: {n}"), 1);
            (n > 0).then_some(v)
        }
        Err(e) => {
            w.viol(format!("{name}: panic"), || format!("clock readings {r:?}: {e}"));
            None
        }
    }
}
/// hours to place instants in: epoch, leap days, year ends, 2038, far future
const HOURS: [u64; 8] = [0, 23, 489_790, 412_223, 438_311, 491_544, 596_523, 1_000_003];
fn c19_jumps(w: &mut W, name: &'static str, f: &dyn Fn() -> u32, sz: Sz) {
    let deltas: [u64; 12] = [1, 999, 1000, 1_000_000, 250_000_000, 999_999_999, 1_000_000_000, 59_000_000_000, 60_000_000_000, 600_000_000_000, HOUR - 1, HOUR];
    for h in HOURS {
        let t0 = h * HOUR;
        let mut marks = vec![];
        // boundaries of the second, minute and hour
        for m in sz.pick(vec![1u64, 2, 29, 59, 60], (1..=60).collect()) {
            marks.push(t0 + m * 60_000_000_000);
        }
        for s in sz.pick(vec![1u64, 30, 59, 61, 1799, 3599], (1..3600).step_by(7).collect()) {
            marks.push(t0 + s * 1_000_000_000);
        }
        marks.push(t0 + 1_800_500_000);
        for m in marks {
            for back in [0u64, 1, 500, 1000, 1_000_000] {
                let a = m.saturating_sub(back);
                ask(w, name, f, &[a]);
                for (i, d) in deltas.iter().enumerate() {
                    // two readings differ, at each position of up to four
                    ask(w, name, f, &[a, a + d]);
                    ask(w, name, f, &[a, a, a + d]);
                    ask(w, name, f, &[a, a, a, a + d]);
                    for d2 in &deltas[..=i] {
                        ask(w, name, f, &[a, a + d2, a + d2 + d]);
                        if sz.thorough {
                            ask(w, name, f, &[a, a + d2, a + d2 + d, a + d2 + d + d2]);
                        }
                    }
                }
                if w.full() {
                    return;
                }
            }
        }
    }
}
/// a steadily advancing clock over a whole hour: accuracy, no step back, restart at the hour
fn c19_hour(w: &mut W, name: &'static str, f: &dyn Fn() -> u32, step: u64, h: u64, phase: u64) {
    let t0 = h * HOUR;
    let mut last: Option<(u64, u32)> = None;
    let mut t = phase;
    while t < HOUR + 3 * step {
        let Some(v) = ask(w, name, f, &[t0 + t]) else { return };
        if let Some((lt, lv)) = last {
            if lt / HOUR == t / HOUR && v < lv {
                w.viol(format!("{name}: runs backwards within an hour"), || format!("{lv} at {lt} ns past the hour, then {v} at {t} ns"));
                return;
            }
            if lt / HOUR != t / HOUR && f64::from(v) > units(t) * 1.0001 + 300.0 {
                w.viol(format!("{name}: does not restart at the hour"), || format!("{v} at {} ns past the new hour", t - HOUR));
            }
        }
        last = Some((t, v));
        t += step;
    }
}
pub fn c19(sz: Sz) -> Plan {
    let mut items = vec![];
    for (name, f) in READERS {
        items.push(item(format!("{name} with adversarial readings"), move |w| c19_jumps(w, name, &f, sz)));
        items.push(item(format!("{name} over an hour"), move |w| {
            let fine = name.contains("calculate");
            for h in [0, 489_790] {
                c19_hour(w, name, &f, if fine { sz.pick(41_000_003, 2_000_003) } else { sz.pick(500_000_003, 50_000_003) }, h, 17);
            }
            // every microsecond around the boundaries
            for m in [0u64, 1_000_000_000, 59_999_900_000, 60_000_000_000, 1_799_999_900_000, 3_599_999_000_000] {
                let mut last = 0;
                for k in 0..sz.pick(1000, 20_000) {
                    let t = 489_790 * HOUR + m + k * 1000;
                    let Some(v) = ask(w, name, &f, &[t]) else { return };
                    if v < last && (t - 1000) / HOUR == t / HOUR {
                        w.viol(format!("{name}: runs backwards within an hour"), || format!("{last} then {v} at {t} ns"));
                        return;
                    }
                    last = v;
                }
            }
        }));
    }
    items.push(item("headers of new PDUs", move |w| {
        for p in pdus() {
            for (how, make) in [("default", p.default), ("new", p.new)] {
                let f = move || make().header().timestamp;
                let name: &'static str = Box::leak(format!("{}::{how}", p.name).into_boxed_str());
                for h in [0, 489_790] {
                    let t0 = h * HOUR;
                    for a in [0u64, 59_999_999_999, 3_599_999_999_999, 1_234_567_891_000] {
                        ask(w, name, &f, &[t0 + a]);
                        for d in [1u64, 1000, 1_000_000_000, 60_000_000_000] {
                            ask(w, name, &f, &[t0 + a, t0 + a + d]);
                            ask(w, name, &f, &[t0 + a, t0 + a, t0 + a + d]);
                        }
                    }
                }
            }
        }
    }));
    let mut p = plan_of(
        items,
        "each state is a sequence of answers given to the crate's clock readings (clock_gettime is replaced in this process); the timestamp must be the DIS time of an instant between the first and the last reading made",
        vec![
            "instants at and just before second, minute and hour boundaries in 8 different hours; up to 4 readings per call with jumps of 1 ns to 1 h between any of them".into(),
            format!("a clock advancing in {} ms steps over whole hours, every microsecond around boundaries", sz.pick(41, 2)),
        ],
    );
    p.threads = 1;
    p.assumptions.push("the crate reads the time through CLOCK_REALTIME; a call that makes no such reading is compared with the real clock".into());
    p
}
