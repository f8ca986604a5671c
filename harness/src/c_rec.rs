//! C15 record codecs, C16 record lengths, C17 variable datums, C18 constructors,
//! C24 transmitter sections, C25 markings, C27 primitive and container codecs.
use crate::bind::{self, Bind, DynBuf, RecBind, RecInfo, pdu_by_name, pdus, records};
use crate::checks::{Sz, plan_of};
use crate::drive::{self, Enc, Out, base, byte_diff, dec, dec_frag, enc, hdr_pat};
use crate::engine::{Item, Plan, W, hex, item};
use crate::fragbuf::FragBuf;
use crate::genv::{self, Depth, Mode, Skel};
use crate::spec::{self, Count, Hdr, RecTy, Ty, enc_rec, packet};
use crate::val::Val;
use bytes::{Buf, BufMut, BytesMut};
use open_dis_rust::common::data_types as dt;
use open_dis_rust::common::{GenericHeader, PduHeader, SerializedLength};
use open_dis_rust::pdu_macro::{FieldDeserialize, FieldDeserializeWithLen, FieldLen, FieldSerialize};

/// does decoding this value take everything up to the end of the buffer?
fn open_ended(r: &RecTy, v: &Val) -> bool {
    r.vfields().any(|(i, _, t)| open_ty(t, v.child(i)))
}
fn open_ty(t: &Ty, v: &Val) -> bool {
    match t {
        Ty::List(_, Count::Rest) => true,
        Ty::Rec(r) => open_ended(r, v),
        Ty::List(e, _) | Ty::Arr(e, _) => v.l().iter().any(|x| open_ty(e, x)),
        Ty::Variant(_, arms) => match v {
            Val::V(tag, _) => open_ended(arms.iter().find(|a| a.0 == *tag).expect("engine: arm").1, v),
            _ => false,
        },
        _ => false,
    }
}
pub fn rec_enc(r: &RecTy, v: &Val) -> Vec<u8> {
    let mut b = vec![];
    enc_rec(r, v, &mut b);
    b
}
fn rec_diff(r: &RecTy, v: &Val, want: &[u8], got: &[u8]) -> String {
    let n = want.len().min(got.len());
    let at = (0..n).find(|&i| want[i] != got[i]).unwrap_or(n);
    spec::locate(r, v, at)
}

type RecCheck = fn(&mut W, &'static RecInfo, &Val);
fn rec_sweep(sz: Sz, consistent: bool, f: RecCheck) -> Vec<Item> {
    let mut items = vec![];
    for r in records() {
        items.push(item(format!("{} shapes", r.name), move |w| {
            let k = Skel { max: sz.pick(2, 3), nodec: false, cap: sz.pick(400, 4000) };
            drive::structs(r.ty, k, &[Mode::Pattern(1), Mode::Zero, Mode::Max, Mode::Alt, Mode::Pattern(7)], &mut |v| {
                f(w, r, v);
                !w.full()
            });
        }));
        items.push(item(format!("{} single fields", r.name), move |w| {
            for n in [1usize, 2, 0] {
                let Some(b) = base(r.ty, n, 1) else { continue };
                drive::singles(r.ty, &b, sz.pick(Depth::Quick, Depth::Thorough), consistent, &mut |v| {
                    f(w, r, v);
                    !w.full()
                });
            }
        }));
        items.push(item(format!("{} field pairs", r.name), move |w| {
            let Some(b) = base(r.ty, 1, 5) else { return };
            let mut go = |v: &Val| {
                f(w, r, v);
                !w.full()
            };
            drive::pairs(r.ty, &b, Depth::Mid, consistent, (0, 1), &mut go);
            drive::cross(r.ty, &b, Depth::Codes, Depth::Mid, consistent, (0, 1), &mut go);
            drive::near_triples(r.ty, &b, sz.pick(60_000, 600_000), consistent, (0, 1), &mut go);
            drive::triples(r.ty, &b, sz.pick(Depth::Tiny, Depth::Mid), consistent, (0, 1), &mut go);
            drive::low_triples(r.ty, &b, sz.pick(500_000, 5_000_000), consistent, (0, 1), &mut go);
            drive::hot(r.ty, &b, sz.pick(300_000, 3_000_000), sz.pick(10_000, 60_000), consistent, (0, 1), &mut go);
            if sz.thorough {
                drive::cross(r.ty, &b, Depth::Quick, Depth::Mid, consistent, (0, 1), &mut go);
            }
        }));
        items.push(item(format!("{} lists and fields", r.name), move |w| {
            let mut go = |v: &Val| {
                f(w, r, v);
                !w.full()
            };
            drive::list_products(r.ty, consistent, sz.thorough, &mut go);
            for n in [0usize, 2] {
                let (Some(b), Some(b1)) = (base(r.ty, n, 5), base(r.ty, 1, 5)) else { continue };
                if rec_enc(r.ty, &b).len() == rec_enc(r.ty, &b1).len() {
                    continue;
                }
                drive::pairs(r.ty, &b, sz.pick(Depth::Tiny, Depth::Mid), consistent, (0, 1), &mut go);
                drive::hot(r.ty, &b, sz.pick(20_000, 300_000), sz.pick(500, 10_000), consistent, (0, 1), &mut go);
            }
        }));
        items.push(item(format!("{} list lengths", r.name), move |w| {
            let proto = genv::uniform(r.ty, 1, false);
            for (path, t) in drive::lists(r.ty, &proto) {
                if matches!(t, Ty::List(_, Count::Rest | Count::NoDec)) {
                    continue;
                }
                for n in drive::lengths(sz.pick(700, 1200), 512, sz.thorough).into_iter().chain(if sz.thorough { drive::lengths(9000, 512, false) } else { vec![] }.into_iter().filter(|n| *n > 1200)) {
                    let mut v = proto.clone();
                    drive::set_len(&mut v, &path, t, n);
                    genv::fill(r.ty, &mut v, Mode::Pattern(n as u64));
                    if !genv::fix(r.ty, &mut v, n as u64) && consistent {
                        break;
                    }
                    f(w, r, &v);
                    if w.full() {
                        return;
                    }
                }
            }
        }));
    }
    items
}

// ------------------------------------------------------------------ C15
const TRAIL: [u8; 5] = [0xA1, 0x00, 0xFF, 0x3C, 0x00];
fn c15_one(w: &mut W, r: &'static RecInfo, v: &Val) {
    let want = rec_enc(r.ty, v);
    if !w.state(r.name, &want) {
        return;
    }
    w.traces += 1;
    let got = w.imp("record serialize", r.name, &want, || {
        let mut a = BytesMut::new();
        (r.ser)(v, &mut a);
        let mut f = BytesMut::new();
        f.put_slice(b"keep");
        match &r.field {
            Some(ff) => (ff.ser)(v, &mut f),
            None => (r.ser)(v, &mut f),
        }
        (a, f)
    });
    match got {
        Ok((a, f)) => {
            if a[..] != want[..] {
                w.viol(format!("{}{}: encoded bytes differ from the layout", r.name, rec_diff(r.ty, v, &want, &a)), || {
                    format!("{} {v:?}: wrote {}, should be {}", r.name, hex(&a), hex(&want))
                });
            }
            if f[..4] != b"keep"[..] || f[4..] != want[..] {
                w.viol(format!("{}: field encoding differs from the layout", r.name), || {
                    format!("{} {v:?} appended to 6b656570: {}, should append {}", r.name, hex(&f), hex(&want))
                });
            }
        }
        Err(e) => w.viol(format!("{}: panic while encoding", r.name), || format!("{v:?}: {e}")),
    }
    let open = open_ended(r.ty, v);
    let mut input = want.clone();
    if !open {
        input.extend(TRAIL);
    }
    let left = input.len() - want.len();
    let entry: [(&str, u8); 4] = [("deserialize", 0), ("deserialize_field", 1), ("deserialize from segments", 2), ("deserialize_field from segments", 3)];
    for (name, k) in entry {
        if k % 2 == 1 && r.field.is_none() {
            continue;
        }
        let got = w.imp("record deserialize", r.name, &input, || {
            if k < 2 {
                let mut s = &input[..];
                let x = match &r.field {
                    Some(ff) if k == 1 => (ff.dec_slice)(&mut s),
                    _ => (r.dec_slice)(&mut s),
                };
                (x, s.len())
            } else {
                let cuts: Vec<usize> = (1..input.len()).filter(|i| i % 3 != 1).collect();
                let mut f = FragBuf::new(&input, &cuts);
                let mut d: DynBuf = &mut f;
                let x = match &r.field {
                    Some(ff) if k == 3 => (ff.dec_dyn)(&mut d),
                    _ => (r.dec_dyn)(&mut d),
                };
                (x, d.remaining())
            }
        });
        match got {
            Ok((x, n)) => {
                if !v.matches(&x) {
                    let f = spec::strip_idx(&r.ty.path_name(&v.diff(&x)));
                    w.viol(format!("{}{f}: {name} does not restore it", r.name), || {
                        format!("{} decoded as {x:?}, should be {v:?}", hex(&input))
                    });
                } else if n != left {
                    w.viol(format!("{}: {name} leaves the wrong bytes", r.name), || {
                        format!("{} ({} bytes of record): {n} bytes left instead of {left}", hex(&input), want.len())
                    });
                }
            }
            Err(e) => w.viol(format!("{}: panic in {name}", r.name), || format!("{}: {e}", hex(&input))),
        }
    }
    w.outcome(&format!("{} {}", r.name, want.len()));
    w.sample(|| format!("{v:?} <-> {}", hex(&want)));
}
/// a record followed by another of its kind
fn c15_follow(w: &mut W, r: &'static RecInfo) {
    let k = Skel { max: 1, nodec: false, cap: 100 };
    let mut vals = vec![];
    drive::structs(r.ty, k, &[Mode::Pattern(3)], &mut |v| {
        vals.push(v.clone());
        vals.len() < 12
    });
    for a in &vals {
        for b in &vals {
            let (ea, eb) = (rec_enc(r.ty, a), rec_enc(r.ty, b));
            let both = [&ea[..], &eb[..]].concat();
            w.traces += 1;
            w.state(r.name, &both);
            let got = w.imp("two records", r.name, &both, || {
                let mut s = &both[..];
                let x = (r.dec_slice)(&mut s);
                (x, s.len())
            });
            match got {
                Ok((x, n)) => {
                    if !a.matches(&x) || n != eb.len() {
                        w.viol(format!("{}: decoding reads into the record that follows it", r.name), || {
                            format!("{} then {}: decoded {x:?} leaving {n} bytes", hex(&ea), hex(&eb))
                        });
                    }
                }
                Err(e) => w.viol(format!("{}: panic decoding two records", r.name), || format!("{}: {e}", hex(&both))),
            }
        }
    }
}
pub fn c15(sz: Sz) -> Plan {
    let mut items = rec_sweep(sz, true, c15_one);
    for r in records() {
        items.push(item(format!("{} followed by another", r.name), move |w| c15_follow(w, r)));
    }
    items.extend(opaque_items(sz, false));
    plan_of(
        items,
        "each state is one record value; transitions are its two encoders and its two decoders (contiguous and fragmented input, with bytes following); bytes, fields and remaining bytes are compared with the reference layout",
        vec![
            format!("{} record types; lists of 0..{} elements in every combination", records().len(), sz.pick(2, 3)),
            format!("single fields: all codes of enumerations and bytes, {} for 16-bit fields, boundary alphabets for wider ones; pairs over 8-value alphabets, every code with 8 values of every other field, triples over 3-value alphabets", sz.pick("boundary alphabet", "all values")),
            format!("each list at lengths up to {}", sz.pick(700, 9000)),
            "up to 12 by 12 adjacent pairs of each record".into(),
        ],
    )
}

// ------------------------------------------------------------------ opaque sections
use dt::antenna_pattern::AntennaPattern;
use dt::modulation_parameters::ModulationParameters;
fn bytes_of(n: usize, seed: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 7 + seed * 13 + 1) as u8 | u8::from(i == 0)).collect()
}
macro_rules! opaque_one {
    ($w:expr, $t:ty, $len:ty, $n:expr, $seed:expr) => {{
        let (w, n): (&mut W, usize) = ($w, $n);
        let data = bytes_of(n, $seed);
        let mut input = data.clone();
        input.extend(TRAIL);
        let name = stringify!($t);
        w.traces += 1;
        w.state(name, &data);
        let r = w.imp("opaque section", name, &input, || {
            let mut out: Vec<(&'static str, Option<Vec<u8>>, usize, usize)> = vec![];
            let ser = |x: &$t| {
                let mut b = BytesMut::new();
                x.serialize(&mut b);
                let mut f = BytesMut::new();
                x.serialize_field(&mut f);
                assert!(b == f, "the two encoders of an opaque section disagree");
                (b.to_vec(), x.field_len())
            };
            let mut s = &input[..];
            let x = <$t>::deserialize(&mut s, n as $len);
            let l = x.as_ref().map_or(n, |x| ser(x).1);
            out.push(("deserialize", x.map(|x| ser(&x).0), s.len(), l));
            let mut s = &input[..];
            let x = <$t as FieldDeserializeWithLen>::deserialize_with_len(&mut s, n);
            out.push(("deserialize_with_len", if n == 0 && ser(&x).0.is_empty() { None } else { Some(ser(&x).0) }, s.len(), ser(&x).1));
            let mut s = &input[..];
            let x = <Option<$t> as FieldDeserializeWithLen>::deserialize_with_len(&mut s, n);
            let l = x.field_len();
            out.push(("optional deserialize_with_len", x.map(|x| ser(&x).0), s.len(), l));
            let cuts: Vec<usize> = (1..input.len()).collect();
            let mut f = FragBuf::new(&input, &cuts);
            let x = <$t>::deserialize(&mut f, n as $len);
            out.push(("deserialize from segments", x.map(|x| ser(&x).0), f.remaining(), n));
            out
        });
        match r {
            Err(e) => w.viol(format!("{name}: panic"), || format!("{n} bytes: {e}")),
            Ok(out) => {
                let want = if n == 0 { None } else { Some(data.clone()) };
                for (how, got, left, len) in out {
                    if got != want || left != TRAIL.len() || len != n {
                        w.viol(format!("{name}: {how}"), || {
                            format!("{n} bytes {}: {how} gives {got:?}, length {len}, leaving {left} of {} following bytes", hex(&data), TRAIL.len())
                        });
                    }
                }
            }
        }
    }};
}
fn opaque_items(sz: Sz, _len: bool) -> Vec<Item> {
    vec![
        item("ModulationParameters sections", move |w| {
            for n in 0..=255 {
                for s in 0..sz.pick(2, 8) {
                    opaque_one!(w, ModulationParameters, u8, n, s);
                }
            }
        }),
        item("AntennaPattern sections", move |w| {
            for n in drive::lengths(sz.pick(3000, 65_535), 8192, false).into_iter().chain([255, 256, 257, 511, 512, 8190, 8191, 8192, 65_534, 65_535]) {
                opaque_one!(w, AntennaPattern, u16, n, n);
            }
        }),
    ]
}

// ------------------------------------------------------------------ C16
fn c16_one(w: &mut W, r: &'static RecInfo, v: &Val) {
    let want = rec_enc(r.ty, v);
    if !w.state(r.name, &want) {
        return;
    }
    w.traces += 1;
    let got = w.imp("record length", r.name, &want, || {
        let mut a = BytesMut::new();
        (r.ser)(v, &mut a);
        let f = r.field.as_ref().map(|ff| {
            let mut b = BytesMut::new();
            (ff.ser)(v, &mut b);
            ((ff.len)(v), b.len())
        });
        (a.len(), f)
    });
    match got {
        Err(e) => w.viol(format!("{}: panic", r.name), || format!("{v:?}: {e}")),
        Ok((n, f)) => {
            if let Some((len, m)) = f {
                if len != m || len != n {
                    w.viol(format!("{}: reported length is not the encoded size", r.name), || {
                        format!("{v:?}: field_len {len}, serialize_field appends {m} bytes, serialize {n}")
                    });
                }
            }
            if let Some(c) = r.length {
                if c != n {
                    w.viol(format!("{}: LENGTH is not the encoded size", r.name), || format!("{v:?}: LENGTH {c}, {n} bytes appended"));
                }
            }
            if n != want.len() {
                w.viol(format!("{}: encoded size differs from the layout", r.name), || {
                    format!("{v:?}: {n} bytes appended, the layout has {}", want.len())
                });
            }
            w.outcome(&format!("{} {n}", r.name));
        }
    }
    w.sample(|| format!("{v:?}: {} bytes", want.len()));
}
fn c16_enums(w: &mut W) {
    for e in bind::enums() {
        let Some(ff) = &e.field else { continue };
        for c in &e.codes {
            w.traces += 1;
            w.state(e.name, &c.to_be_bytes());
            let r = w.imp("enumeration length", e.name, &[], || {
                let mut b = BytesMut::new();
                (ff.ser)(&Val::U(*c), &mut b);
                ((ff.len)(&Val::U(*c)), b.len())
            });
            if !matches!(r, Ok((a, b)) if a == b && a == e.width) {
                w.viol(format!("{}: reported length is not the encoded size", e.name), || {
                    format!("{} = {c}: (field_len, appended) = {r:?}, width {}", e.member(*c), e.width)
                });
            }
        }
    }
}
fn len_of<T: FieldSerialize + FieldLen>(x: &T) -> (usize, usize) {
    let mut b = BytesMut::new();
    x.serialize_field(&mut b);
    (x.field_len(), b.len())
}
fn c16_containers(w: &mut W, max: usize) {
    let mut ck = |what: &str, n: usize, want: usize, r: Result<(usize, usize), String>| {
        w.traces += 1;
        w.state(what, &n.to_be_bytes());
        if r != Ok((want, want)) {
            w.viol(format!("{what}: reported length is not the encoded size"), || format!("{n} elements: (field_len, appended) = {r:?}, should be {want}"));
        }
    };
    let g = |f: &dyn Fn() -> (usize, usize)| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| "panic".to_string());
    for n in 0..=max {
        ck("Vec<u8>", n, n, g(&|| len_of(&vec![1u8; n])));
        ck("Vec<u16>", n, 2 * n, g(&|| len_of(&vec![1u16; n])));
        ck("Vec<i32>", n, 4 * n, g(&|| len_of(&vec![1i32; n])));
        ck("Vec<f64>", n, 8 * n, g(&|| len_of(&vec![1f64; n])));
        ck("String", n, n, g(&|| len_of(&"x".repeat(n))));
        ck("String of 2-byte characters", n, 2 * n, g(&|| len_of(&"é".repeat(n))));
        ck("Vec<Option<u32>>", n, 4 * n.div_ceil(2), g(&|| len_of(&(0..n).map(|i| (i % 2 == 0).then_some(7u32)).collect::<Vec<_>>())));
        ck("Vec<Vec<u16>>", n, n * (n + 1), g(&|| len_of(&(1..=n).map(|i| vec![3u16; i]).collect::<Vec<_>>())));
        ck("Option<Vec<u16>>", n, 2 * n, g(&|| len_of(&Some(vec![3u16; n]))));
    }
    ck("Option<u64>", 0, 0, g(&|| len_of(&None::<u64>)));
    ck("Option<u64>", 1, 8, g(&|| len_of(&Some(5u64))));
    ck("u8", 1, 1, g(&|| len_of(&5u8)));
    ck("i8", 1, 1, g(&|| len_of(&5i8)));
    ck("u16", 1, 2, g(&|| len_of(&5u16)));
    ck("i16", 1, 2, g(&|| len_of(&5i16)));
    ck("u32", 1, 4, g(&|| len_of(&5u32)));
    ck("i32", 1, 4, g(&|| len_of(&5i32)));
    ck("u64", 1, 8, g(&|| len_of(&5u64)));
    ck("i64", 1, 8, g(&|| len_of(&5i64)));
    ck("f32", 1, 4, g(&|| len_of(&5f32)));
    ck("f64", 1, 8, g(&|| len_of(&5f64)));
    ck("PduHeader::LENGTH", 1, 12, g(&|| {
        let mut b = BytesMut::new();
        PduHeader::default().serialize(&mut b);
        (PduHeader::LENGTH, b.len())
    }));
    ck("PduHeader", 1, 12, g(&|| len_of(&PduHeader::default())));
}
pub fn c16(sz: Sz) -> Plan {
    let mut items = rec_sweep(sz, false, c16_one);
    items.push(item("enumerations", c16_enums));
    items.push(item("containers and primitives", move |w| c16_containers(w, sz.pick(40, 300))));
    items.extend(opaque_items(sz, true));
    plan_of(
        items,
        "each state is one record, enumeration, primitive or container value; its reported length and published constant are compared with the bytes its encoders append and with the reference layout",
        vec![
            format!("{} record types; lists of 0..{} elements in every combination, each list at lengths up to {}", records().len(), sz.pick(2, 3), sz.pick(700, 9000)),
            "all members of all enumerations that are fields".into(),
            format!("containers of 0..{} elements", sz.pick(40, 300)),
        ],
    )
}

// ------------------------------------------------------------------ C17
fn datum(id: u32, bits: u32, seed: usize) -> Val {
    let n = bits.div_ceil(8) as usize;
    Val::S(vec![
        Val::U(u64::from(id)),
        Val::U(u64::from(bits)),
        Val::L(bytes_of(n, seed).into_iter().map(|b| Val::U(u64::from(b))).collect()),
    ])
}
fn datum_rec() -> &'static RecInfo {
    records().iter().find(|r| r.name == "VariableDatumRecord").expect("engine: datum record")
}
fn c17_lengths(w: &mut W, lo: u32, hi: u32, seeds: usize) {
    let r = datum_rec();
    for bits in lo..hi {
        for s in 0..seeds {
            let v = datum(0x0102_0304 + bits, bits, s);
            c15_one(w, r, &v);
            c16_key(w, r, &v);
        }
        // all-ones and all-zero values: padding must be told from data
        for fill in [0u64, 255] {
            let n = bits.div_ceil(8) as usize;
            let v = Val::S(vec![Val::U(1), Val::U(u64::from(bits)), Val::L(vec![Val::U(fill); n])]);
            c15_one(w, r, &v);
        }
        if w.full() {
            return;
        }
    }
}
fn c16_key(w: &mut W, r: &'static RecInfo, v: &Val) {
    let want = rec_enc(r.ty, v).len();
    let got = w.imp("record length", r.name, &[], || r.field.as_ref().map_or(want, |ff| (ff.len)(v)));
    if got.as_ref() != Ok(&want) {
        w.viol(format!("{}: reported length is not the encoded size", r.name), || format!("{v:?}: {got:?}, should be {want}"));
    }
}
/// paths of variable datum lists, and the PDU value with both lists empty
fn datum_lists(p: &'static bind::PduInfo) -> Vec<Vec<usize>> {
    p.ty.vfields()
        .filter(|(_, _, t)| matches!(t, Ty::List(e, c) if !matches!(c, Count::NoDec) && matches!(&**e, Ty::Rec(r) if r.name == "VariableDatumRecord")))
        .map(|(i, _, _)| vec![i])
        .collect()
}
const BITS: [u32; 24] = [0, 1, 7, 8, 9, 15, 16, 24, 31, 32, 33, 40, 47, 48, 55, 56, 57, 63, 64, 65, 72, 127, 128, 129];
fn c17_pdu(w: &mut W, p: &'static bind::PduInfo, path: &[usize], bits: &[u32], n: usize) {
    let Some(b) = base(p.ty, 1, 2) else { return };
    let mut seq = vec![0usize; n];
    loop {
        let mut v = b.clone();
        let l: Vec<Val> = seq.iter().enumerate().map(|(k, i)| datum(0xA000_0000 + k as u32, bits[*i], k + i)).collect();
        *v.at_mut(path) = Val::L(l);
        if genv::fix(p.ty, &mut v, 0) {
            // the bit lengths are given, not derived
            for (k, i) in seq.iter().enumerate() {
                let mut q = path.to_vec();
                q.extend([k, 1]);
                *v.at_mut(&q) = Val::U(u64::from(bits[*i]));
            }
            let h = hdr_pat();
            let want = packet(p.ty, &h, &v);
            w.traces += 1;
            w.state(p.name, &want);
            match enc(w, p, &h, &v) {
                Enc::Ok(x, _) => {
                    if x != want {
                        w.viol(format!("{}{}: adjacent datums encoded wrongly", p.name, byte_diff(p, &v, &want, &x)), || {
                            format!("{v:?}: wrote {}, should be {}", hex(&x), hex(&want))
                        });
                    }
                }
                o => w.viol(format!("{}: datums not encoded", p.name), || format!("{v:?}: {}", o.show())),
            }
            for frag in [false, true] {
                let o = if frag { dec_frag(w, p, &want, &[want.len() / 2, want.len() - 3]) } else { dec(w, p, &want) };
                match &o {
                    Out::Ok(_, x, used) if v.matches(x) && *used == want.len() => {}
                    o => w.viol(format!("{}: adjacent datums decoded wrongly", p.name), || {
                        format!("{} gives {}, should be {v:?}", hex(&want), o.show())
                    }),
                }
            }
            w.outcome(&format!("{}", want.len()));
            w.sample(|| hex(&want));
        }
        if w.full() {
            return;
        }
        let mut i = 0;
        while i < n {
            seq[i] += 1;
            if seq[i] < bits.len() {
                break;
            }
            seq[i] = 0;
            i += 1;
        }
        if i == n {
            return;
        }
    }
}
pub fn c17(sz: Sz) -> Plan {
    let mut items = vec![];
    let hi = sz.pick(2048u32, 65_536);
    let step = hi / 32;
    for k in 0..32 {
        items.push(item(format!("bit lengths {}..{}", k * step, (k + 1) * step), move |w| {
            c17_lengths(w, k * step, (k + 1) * step, sz.pick(2, 1));
        }));
    }
    for b in [4096u32, 8192, 16_384, 32_768, 65_471, 65_536, 131_072, 524_288] {
        // the large ones are here for the width of the arithmetic
        let d = if b > 100_000 { sz.pick(1, 2) } else { 9 };
        items.push(item(format!("long datums around {b} bits"), move |w| c17_lengths(w, b - d, b + d + 1, 1)));
    }
    let mut found = 0;
    for p in pdus() {
        for path in datum_lists(p) {
            found += 1;
            let p2 = path.clone();
            items.push(item(format!("{} adjacent datums", p.name), move |w| c17_pdu(w, p, &p2, &BITS, 2)));
            let p2 = path.clone();
            let few: &'static [u32] = sz.pick(&[0, 1, 8, 57, 64, 65][..], &[0, 1, 7, 8, 9, 31, 32, 56, 57, 63, 64, 65, 128][..]);
            items.push(item(format!("{} three datums", p.name), move |w| c17_pdu(w, p, &p2, few, 3)));
            if sz.thorough {
                let p2 = path.clone();
                items.push(item(format!("{} adjacent datums, every length to 192", p.name), move |w| {
                    let all: Vec<u32> = (0..=192).collect();
                    c17_pdu(w, p, &p2, &all, 2);
                }));
            }
        }
    }
    plan_of(
        items,
        "each state is a variable datum record or a PDU with a sequence of them; encoded bytes, reported length, decoded values and consumed bytes are compared with the reference, padding included",
        vec![
            format!("every bit length 0..{hi} with {} value patterns, windows around 8 larger lengths", sz.pick(4, 3)),
            format!("every ordered pair over {} lengths and every triple over {} lengths in each of the {found} PDU lists that carry datums", BITS.len(), sz.pick(6, 13)),
        ],
    )
}

// ------------------------------------------------------------------ C18
pub struct Ctor {
    name: &'static str,
    /// value path of each argument
    args: &'static [&'static str],
    call: fn(&[Val]) -> (Val, Vec<u8>),
}
macro_rules! ctor {
    ($t:path, $n:literal, [$($p:literal),*]) => {
        Ctor {
            name: $n,
            args: &[$($p),*],
            call: |_a| {
                let mut _it = _a.iter();
                let x = <$t>::new($( { let _ = $p; Bind::build(_it.next().expect("engine: arity")) } ),*);
                let mut b = BytesMut::new();
                RecBind::ser(&x, &mut b);
                (x.observe(), b.to_vec())
            },
        }
    };
}
fn ctors() -> Vec<Ctor> {
    const XYZ: [&str; 0] = [];
    let _ = XYZ;
    vec![
        ctor!(dt::acoustic_beam_data::AcousticBeamData, "AcousticBeamData", ["beam_data_length", "beam_id_number", "pad2", "fundamental_data_parameters"]),
        ctor!(dt::acoustic_beam_fundamental_parameter::AcousticBeamFundamentalParameter, "AcousticBeamFundamentalParameter", ["active_emission_parameter_index", "scan_pattern", "beam_center_azimuth", "azimuthal_beamwidth", "beam_center_de", "de_beamwidth"]),
        ctor!(dt::acoustic_emitter_system::AcousticEmitterSystem, "AcousticEmitterSystem", ["acoustic_name", "acoustic_function", "acoustic_id"]),
        ctor!(dt::acoustic_emitter_system_data::AcousticEmitterSystemData, "AcousticEmitterSystemData", ["emitter_system_data_length", "number_of_beams", "pad2", "acoustic_emitter_system", "emitter_location", "beam_records"]),
        ctor!(dt::aggregate_id::AggregateId, "AggregateId", ["site", "application", "aggregate_id"]),
        ctor!(dt::aggregate_marking::AggregateMarking, "AggregateMarking", ["character_set", "characters"]),
        ctor!(dt::angular_velocity_vector::AngularVelocity, "AngularVelocity", []),
        ctor!(dt::apa_data::ApaData, "ApaData", ["parameter_index", "parameter_value"]),
        ctor!(dt::attribute_record::AttributeRecord, "AttributeRecord", []),
        ctor!(dt::attribute_record_set::AttributeRecordSet, "AttributeRecordSet", []),
        ctor!(dt::beam_data::BeamData, "BeamData", ["beam_azimuth_center", "beam_azimuth_sweep", "beam_elevation_center", "beam_elevation_sweep", "beam_sweep_sync"]),
        ctor!(dt::clock_time::ClockTime, "ClockTime", ["hour", "time_past_hour"]),
        ctor!(dt::dead_reckoning_parameters::DeadReckoningParameters, "DeadReckoningParameters", ["dead_reckoning_algorithm", "entity_linear_acceleration", "entity_angular_velocity"]),
        ctor!(dt::directed_energy_damage::DirectedEnergyDamage, "DirectedEnergyDamage", ["record_type", "record_length", "damage_location", "damage_diameter", "temperature", "component_identification", "component_damage_status", "component_visual_damage_status", "component_visual_smoke_color", "fire_event_id"]),
        ctor!(dt::emitter_system::EmitterSystem, "EmitterSystem", ["emitter_name", "function", "emitter_id_number"]),
        ctor!(dt::entity_coordinate_vector::EntityCoordinateVector, "EntityCoordinateVector", ["x_coordinate", "y_coordinate", "z_coordinate"]),
        ctor!(dt::entity_id::EntityId, "EntityId", ["simulation_address.site_id", "simulation_address.application_id", "entity_id"]),
        ctor!(dt::entity_marking::EntityMarking, "EntityMarking", ["entity_marking_character_set", "entity_marking_string"]),
        ctor!(dt::entity_type::EntityType, "EntityType", ["kind", "domain", "country", "category", "subcategory", "specific", "extra"]),
        ctor!(dt::environment::Environment, "Environment", ["environment_type", "length", "index", "padding"]),
        ctor!(dt::euler_angles::EulerAngles, "EulerAngles", ["psi", "theta", "phi"]),
        ctor!(dt::event_id::EventId, "EventId", ["simulation_address.site_id", "simulation_address.application_id", "event_identifier"]),
        ctor!(dt::fundamental_operational_data::FundamentalOperationalData, "FundamentalOperationalData", ["system_status", "data_field1", "information_layers", "data_field2", "parameter1", "parameter2", "parameter3", "parameter4", "parameter5", "parameter6"]),
        ctor!(dt::grid_axis_descriptor::GridAxisDescriptor, "GridAxisDescriptor", ["domain_initial", "domain_final", "domain_points", "interleaf_factor", "axis_type", "data"]),
        ctor!(dt::grid_data_record::GridDataRecord, "GridDataRecord", ["sample_type", "data_representation", "data"]),
        ctor!(dt::iff_fundamental_parameter_data::IFFFundamentalParameterData, "IFFFundamentalParameterData", ["erp", "frequency", "pgrf", "pulse_width", "burst_length", "applicable_modes", "system_specific_data"]),
        ctor!(dt::intercom_communications_parameters::IntercomCommunicationsParameters, "IntercomCommunicationsParameters", ["record_type", "record_length", "record_specific_field"]),
        ctor!(dt::layer_header::LayerHeader, "LayerHeader", ["layer_number", "layer_specific_information", "length"]),
        ctor!(dt::linear_acceleration::LinearAcceleration, "LinearAcceleration", ["first_vector_component", "second_vector_component", "third_vector_component"]),
        ctor!(dt::linear_segment_parameter::LinearSegmentParameter, "LinearSegmentParameter", ["segment_number", "segment_modification", "general_segment_appearance", "specific_segment_appearance", "segment_location", "segment_orientation", "segment_length", "segment_width", "segment_height", "segment_depth"]),
        ctor!(dt::linear_velocity::LinearVelocity, "LinearVelocity", ["first_vector_component", "second_vector_component", "third_vector_component"]),
        ctor!(dt::minefield_identifier::MinefieldIdentifier, "MinefieldIdentifier", ["simulation_address", "minefield_number"]),
        ctor!(dt::modulation_type::ModulationType, "ModulationType", ["spread_spectrum", "major", "detail", "system"]),
        ctor!(dt::munition_descriptor::MunitionDescriptor, "MunitionDescriptor", ["munition_type", "warhead", "fuse", "quantity", "rate"]),
        ctor!(dt::named_location::NamedLocation, "NamedLocation", ["station_name", "station_number"]),
        ctor!(dt::object_identifier::ObjectIdentifier, "ObjectIdentifier", []),
        ctor!(dt::object_type::ObjectType, "ObjectType", ["domain", "object_kind", "category", "subcategory"]),
        ctor!(dt::point::Point, "Point", ["x", "y"]),
        ctor!(dt::propulsion_system_data::PropulsionSystemData, "PropulsionSystemData", ["power_setting", "engine_rpm"]),
        ctor!(dt::radio_entity_type::RadioEntityType, "RadioEntityType", ["entity_kind", "domain", "country", "category", "nomenclature_version", "nomenclature"]),
        ctor!(dt::record_specification::RecordSpecification, "RecordSpecification", ["number_of_record_sets", "record_sets"]),
        ctor!(dt::record_specification_element::RecordSpecificationElement, "RecordSpecificationElement", ["record_id", "record_set_serial_number", "record_length", "record_count", "record_values"]),
        ctor!(dt::relationship::Relationship, "Relationship", ["nature", "position"]),
        ctor!(dt::secondary_operational_data::SecondaryOperationalData, "SecondaryOperationalData", ["operational_data1", "operational_data2", "number_of_iff_fundamental_parameter_records"]),
        ctor!(dt::shaft_rpms::ShaftRPMs, "ShaftRPMs", ["current_shaft_rpms", "ordered_shaft_rpms", "shaft_rpm_rate_of_change"]),
        ctor!(dt::simulation_address::SimulationAddress, "SimulationAddress", ["site_id", "application_id"]),
        ctor!(dt::simulation_id::SimulationIdentifier, "SimulationIdentifier", []),
        ctor!(dt::standard_variable_records::StandardVariableRecords, "StandardVariableRecords", ["record_type", "record_length", "record_specific_fields"]),
        ctor!(dt::standard_variable_specification::StandardVariableSpecification, "StandardVariableSpecification", ["number_of_standard_variable_records", "standard_variable_records"]),
        ctor!(dt::supply_quantity::SupplyQuantity, "SupplyQuantity", ["supply_type", "quantity"]),
        ctor!(dt::system_id::SystemId, "SystemId", ["system_type", "system_name", "system_mode", "change_options"]),
        ctor!(dt::variable_parameter::VariableParameter, "VariableParameter", ["record_type", "variable_parameter_field1", "variable_parameter_field2", "variable_parameter_field3", "variable_parameter_field4"]),
        ctor!(dt::variable_transmitter_parameters::VariableTransmitterParameters, "VariableTransmitterParameters", []),
        ctor!(dt::vector3_double::Vector3Double, "Vector3Double", ["x", "y", "z"]),
        ctor!(dt::vector3_float::Vector3Float, "Vector3Float", ["x", "y", "z"]),
        ctor!(dt::vectoring_nozzle_system_data::VectoringNozzleSystemData, "VectoringNozzleSystemData", ["horizontal_deflection_angle", "vertical_deflection_angle"]),
        ctor!(dt::velocity_vector::VelocityVector, "VelocityVector", ["first_vector_component", "second_vector_component", "third_vector_component"]),
        ctor!(dt::world_coordinate::WorldCoordinate, "WorldCoordinate", ["x", "y", "z"]),
    ]
}
fn ctor_one(w: &mut W, c: &Ctor, r: &'static RecTy, paths: &[Vec<usize>], v: &Val) {
    // fields no argument provides are neutral
    let mut want = genv::fresh(r);
    for p in paths {
        *want.at_mut(p) = v.at(p).clone();
    }
    let bytes = rec_enc(r, &want);
    if !w.state(c.name, format!("{want:?}").as_bytes()) {
        return;
    }
    w.traces += 1;
    let args: Vec<Val> = paths.iter().map(|p| v.at(p).clone()).collect();
    match w.imp("constructor", c.name, &bytes, || (c.call)(&args)) {
        Ok((got, b)) => {
            if !want.matches(&got) {
                w.viol(format!("{}{}: constructor stores something else", c.name, spec::strip_idx(&r.path_name(&want.diff(&got)))), || {
                    format!("{}::new({args:?}) is {got:?}, should be {want:?}", c.name)
                });
            } else if b != bytes {
                w.viol(format!("{}: constructed value encodes differently", c.name), || {
                    format!("{}::new({args:?}) encodes as {}, should be {}", c.name, hex(&b), hex(&bytes))
                });
            }
        }
        Err(e) => w.viol(format!("{}: constructor panics", c.name), || format!("{args:?}: {e}")),
    }
    w.sample(|| format!("new({args:?}) -> {want:?}"));
    w.outcome(c.name);
}
fn c18_ctor(w: &mut W, c: &Ctor, sz: Sz) {
    let r: &'static RecTy = spec::spec().recs[c.name];
    let paths: Vec<Vec<usize>> = c.args.iter().map(|a| r.path(a)).collect();
    let go = |w: &mut W, v: &Val| {
        ctor_one(w, c, r, &paths, v);
        !w.full()
    };
    let k = Skel { max: sz.pick(2, 3), nodec: true, cap: 400 };
    drive::structs(r, k, &[Mode::Pattern(1), Mode::Zero, Mode::Max, Mode::Alt, Mode::Pattern(4)], &mut |v| go(w, v));
    for n in [0, 1] {
        let Some(b) = base(r, n, 1) else { continue };
        drive::singles(r, &b, sz.pick(Depth::Quick, Depth::Thorough), false, &mut |v| go(w, v));
        drive::pairs(r, &b, sz.pick(Depth::Tiny, Depth::Mid), false, (0, 1), &mut |v| go(w, v));
    }
    // texts are stored whole, whatever fits on the wire
    if c.name == "EntityMarking" {
        for n in 0..40 {
            for s in ["x".repeat(n), "é".repeat(n), format!("{}\0", "y".repeat(n))] {
                let v = Val::S(vec![Val::U(1), Val::Str(s)]);
                ctor_one(w, c, r, &paths, &v);
            }
        }
    }
}
fn c18_pdu(w: &mut W, p: &'static bind::PduInfo) {
    let neutral = genv::fresh(p.ty);
    for (what, mk) in [("new()", p.new), ("default()", p.default)] {
        w.traces += 1;
        w.state(p.name, what.as_bytes());
        let r = w.imp("fresh PDU", p.name, &[], || {
            let mut o = mk();
            let h0 = bind::get_header(o.header());
            let v = o.observe();
            let calc = o.calc().ok();
            let mut b = BytesMut::new();
            let ok = o.serialize(&mut b).is_ok();
            let h1 = bind::get_header(o.header());
            (h0, v, calc, b.to_vec(), ok, h1)
        });
        let (h0, v, calc, b, ok, h1) = match r {
            Ok(x) => x,
            Err(e) => {
                w.viol(format!("{}: {what} panics", p.name), || e.clone());
                continue;
            }
        };
        if !neutral.matches(&v) {
            w.viol(format!("{}{}: {what} is not neutral", p.name, spec::strip_idx(&p.ty.path_name(&neutral.diff(&v)))), || {
                format!("{what} is {v:?}, should be {neutral:?}")
            });
        }
        let want = Hdr { version: 7, exercise: 1, typ: p.typ, family: p.family, timestamp: h0.timestamp, length: packet(p.ty, &h0, &neutral).len() as u16, status: 0 };
        let mut head = h0;
        if what == "default()" {
            // type, family and length are stamped on encoding
            head = Hdr { typ: p.typ, family: p.family, length: want.length, ..h0 };
        }
        if let Some(f) = drive::hdr_diff(&want, &head) {
            w.viol(format!("{} header {f}: wrong in {what}", p.name), || format!("{h0:?}, should be {want:?}"));
        }
        if let Some(f) = drive::hdr_diff(&want, &h1) {
            w.viol(format!("{} header {f}: wrong after encoding {what}", p.name), || format!("{h1:?}, should be {want:?}"));
        }
        if !ok || b != packet(p.ty, &want, &neutral) || calc != Some(want.length) {
            w.viol(format!("{}: encoding of {what}", p.name), || {
                format!("length {calc:?}, bytes {} should be {}", hex(&b), hex(&packet(p.ty, &want, &neutral)))
            });
        }
        match dec(w, p, &b) {
            Out::Ok(h, x, n) if drive::hdr_diff(&want, &h).is_none() && neutral.matches(&x) && n == b.len() => {}
            o => w.viol(format!("{}: encoding of {what} does not decode to it", p.name), || format!("{} gives {}", hex(&b), o.show())),
        }
        w.outcome(&format!("{} {}", p.name, b.len()));
    }
}
/// PDUs are as fresh after other work: packets of any type decoded, encoded and refused
fn c18_after(w: &mut W, q: &'static bind::PduInfo) {
    let busy = |w: &mut W, b: &[u8]| {
        let _ = w.imp("other work", q.name, b, || {
            for part in [b, &b[..b.len() - 1]] {
                let mut s = part;
                if let Ok(mut o) = (q.dec_slice)(&mut s) {
                    let _ = o.serialize(&mut BytesMut::new());
                }
                let mut s = part;
                let h = if part.len() < 12 { PduHeader::default() } else { PduHeader::deserialize(&mut s) };
                if let Ok(mut o) = (q.body_slice)(&mut s, h) {
                    o.finalize();
                    let _ = o.calc();
                }
            }
            if let Some(v) = crate::c_fault::oversize(q) {
                let _ = q.make(&drive::hdr_pat(), &v).serialize(&mut BytesMut::new());
            }
        });
    };
    let mut work: Vec<Vec<u8>> = drive::corpus(q, false);
    work.truncate(60);
    for n in 0..2 {
        if let Some((_, b)) = drive::base_packet(q, n, 3) {
            for (i, x) in [(0, 6), (0, 5), (1, 0), (1, 9), (3, 4), (4, 0), (7, 1), (10, 0xFF), (10, 1), (8, 0), (9, 12)] {
                let mut m = b.clone();
                m[i] = x;
                work.push(m);
            }
        }
    }
    for b in work.iter().filter(|b| b.len() > 12) {
        busy(w, b);
    }
    for p in pdus() {
        c18_pdu(w, p);
        if w.full() {
            return;
        }
    }
}
fn c18_headers(w: &mut W, live: bool) {
    use open_dis_rust::common::enums as e;
    use open_dis_rust::common::live_entity_pdu_header::LiveEntityPduHeader;
    let types = &bind::enum_by_name("PduType").codes;
    let fams = &bind::enum_by_name("ProtocolFamily").codes;
    let mut args: Vec<(u64, u64, u8, u16)> = vec![];
    for t in types {
        for f in fams {
            args.push((*t, *f, 3, 77));
        }
        for x in 0..=255u8 {
            args.push((*t, 1, x, 0x1234));
        }
    }
    for l in 0..=65_535u16 {
        args.push((1, 5, 0x42, l));
    }
    for chunk in args.chunks(512) {
        w.traces += chunk.len() as u64;
        for a in chunk.iter().step_by(8) {
            w.state(if live { "live header" } else { "header" }, format!("{a:?}").as_bytes());
        }
        let r = w.imp("header constructor", "PduHeader::new", &[], || {
            for a in chunk {
                let (t, f) = (e::PduType::build(&Val::U(a.0)), e::ProtocolFamily::build(&Val::U(a.1)));
                let (o, b) = if live {
                    let h = LiveEntityPduHeader::new(t, f, a.2, a.3);
                    let mut b = BytesMut::new();
                    h.serialize(&mut b);
                    ((h.protocol_version.observe().u(), h.exercise_id, h.pdu_type().observe().u(), h.protocol_family().observe().u(), h.length()), b)
                } else {
                    let h = PduHeader::new(t, f, a.2, a.3);
                    let mut b = BytesMut::new();
                    h.serialize(&mut b);
                    ((h.protocol_version.observe().u(), h.exercise_id, h.pdu_type().observe().u(), h.protocol_family().observe().u(), h.length()), b)
                };
                let ok = o == (7, a.2, a.0, a.1, a.3)
                    && b.len() == 12
                    && b[0] == 7
                    && b[1] == a.2
                    && u64::from(b[2]) == a.0
                    && u64::from(b[3]) == a.1
                    && b[8..10] == a.3.to_be_bytes()
                    && b[10..12] == [0, 0];
                if !ok {
                    return Some((*a, o, b.to_vec()));
                }
            }
            None
        });
        match r {
            Ok(None) => {}
            Ok(Some((a, o, b))) => w.viol(format!("{}header constructor stores something else", if live { "live " } else { "" }), || {
                format!("new{a:?} (type, family, exercise, length) gives {o:?} and encodes as {}", hex(&b))
            }),
            Err(x) => w.viol("header constructor panics".into(), || x.clone()),
        }
    }
    w.outcome("headers");
}
pub fn fresh_pdus() -> Vec<Item> {
    pdus().iter().map(|p| item(format!("fresh {}", p.name), move |w| c18_pdu(w, p))).collect()
}
pub fn c18(sz: Sz) -> Plan {
    let mut items = vec![];
    let n = ctors().len();
    for i in 0..n {
        let name = ctors()[i].name;
        items.push(item(format!("{name}::new"), move |w| c18_ctor(w, &ctors()[i], sz)));
    }
    items.extend(fresh_pdus());
    for p in pdus() {
        items.push(item(format!("fresh PDUs after {}", p.name), move |w| c18_after(w, p)));
    }
    items.push(item("PduHeader::new", |w| c18_headers(w, false)));
    items.push(item("LiveEntityPduHeader::new", |w| c18_headers(w, true)));
    items.push(item("empty sections", |w| {
        w.traces += 2;
        w.state("sections", &[1]);
        let r = w.imp("constructor", "opaque sections", &[], || {
            (len_of(&ModulationParameters::new()), len_of(&AntennaPattern::new()))
        });
        if r != Ok(((0, 0), (0, 0))) {
            w.viol("opaque section constructors: not empty".into(), || format!("{r:?}"));
        }
    }));
    plan_of(
        items,
        "each state is one argument tuple of one constructor, or one fresh PDU; the constructed value is compared field by field (through its public fields and its encoding) with the arguments, fresh PDUs with the neutral value, and their encoding is decoded again",
        vec![
            format!("{n} record constructors: pairwise-distinct, all-zero, all-ones and alternating arguments, every single argument over its alphabet, pairs over {}-value alphabets, lists of 0..{}", sz.pick(3, 8), sz.pick(2, 3)),
            "66 PDU types by new() and default(), at first and after packets of each type decoded, encoded, refused as truncated and as oversized".into(),
            "header constructors: all types by families, all types by exercises, all lengths".into(),
        ],
    )
}

// ------------------------------------------------------------------ C24
fn c24_one(w: &mut W, v: &Val, h: &Hdr) {
    let p = pdu_by_name("TransmitterPdu");
    // stale lengths in the value, true ones in the reference packet
    let want = packet(p.ty, h, v);
    if want.len() > drive::LIMIT {
        return;
    }
    let mut id = want.clone();
    id.extend(format!("{:?}{:?}", v.at(&p.ty.path("modulation_parameter_length")), v.at(&p.ty.path("antenna_pattern_length"))).bytes());
    if !w.state(p.name, &id) {
        return;
    }
    w.traces += 1;
    let mut fixed = v.clone();
    genv::fix(p.ty, &mut fixed, 0);
    let b = match enc(w, p, h, v) {
        Enc::Ok(b, _) => b,
        o => {
            w.viol("TransmitterPdu: not encoded".into(), || format!("{v:?}: {}", o.show()));
            return;
        }
    };
    if b != want {
        w.viol(format!("TransmitterPdu{}: encoded bytes differ from the layout", byte_diff(p, v, &want, &b)), || {
            format!("{v:?}: wrote {}, should be {}", hex(&b), hex(&want))
        });
        return;
    }
    let mut input = want.clone();
    input.extend(TRAIL);
    match dec(w, p, &input) {
        Out::Ok(_, x, n) if fixed.matches(&x) && n == want.len() => {}
        o => w.viol("TransmitterPdu: sections not recovered by decoding".into(), || {
            format!("{} gives {}, should be {fixed:?} from {} bytes", hex(&input), o.show(), want.len())
        }),
    }
    w.outcome(&format!("{}", want.len()));
    w.sample(|| hex(&want));
}
fn section(n: usize, seed: usize) -> Val {
    if n == 0 { Val::O(None) } else { Val::O(Some(Box::new(Val::B(bytes_of(n, seed))))) }
}
pub fn c24(sz: Sz) -> Plan {
    let p = pdu_by_name("TransmitterPdu");
    let pm = p.ty.path("modulation_parameters");
    let pa = p.ty.path("antenna_pattern");
    let lm = p.ty.path("modulation_parameter_length");
    let la = p.ty.path("antenna_pattern_length");
    let mut ants: Vec<usize> = vec![0, 1, 2, 3, 7, 8, 9, 127, 128, 254, 255, 256, 257, 258, 511, 512, 1000, 4095, 4096, 7000];
    if sz.thorough {
        ants = (0..300).chain([511, 512, 513, 767, 768, 1023, 1024, 1025, 2048, 4095, 4096, 7000, 7700]).collect();
    }
    let mut items: Vec<Item> = vec![];
    let make = move |m: usize, a: usize, recs: usize, sm: u64, sa: u64, pm: &[usize], pa: &[usize], lm: &[usize], la: &[usize]| {
        let mut v = base(p.ty, recs, 3)?;
        *v.at_mut(pm) = section(m, a);
        *v.at_mut(pa) = section(a, m);
        *v.at_mut(lm) = Val::U(sm);
        *v.at_mut(la) = Val::U(sa);
        Some(v)
    };
    for a in ants {
        let (pm, pa, lm, la) = (pm.clone(), pa.clone(), lm.clone(), la.clone());
        items.push(item(format!("modulation 0..255 with antenna pattern of {a}"), move |w| {
            for m in 0..=255 {
                for recs in 0..3 {
                    let Some(v) = make(m, a, recs, 0, 0, &pm, &pa, &lm, &la) else { continue };
                    c24_one(w, &v, &hdr_pat());
                }
            }
        }));
    }
    {
        let (pm, pa, lm, la) = (pm.clone(), pa.clone(), lm.clone(), la.clone());
        items.push(item("stale lengths", move |w| {
            for m in [0usize, 1, 4, 16, 255] {
                for a in [0usize, 1, 12, 256, 300] {
                    for sm in 0..=255u64 {
                        for sa in [0u64, 1, 12, 255, 256, 65_535] {
                            let Some(v) = make(m, a, 1, sm, sa, &pm, &pa, &lm, &la) else { continue };
                            c24_one(w, &v, &hdr_pat());
                        }
                    }
                    let all: Vec<u64> = if sz.thorough { (0..65_536).collect() } else { (0..65_536).step_by(97).collect() };
                    for sa in all {
                        let Some(v) = make(m, a, 0, 9, sa, &pm, &pa, &lm, &la) else { continue };
                        c24_one(w, &v, &hdr_pat());
                    }
                }
            }
        }));
    }
    for part in 0..8usize {
        let (pm, pa, lm, la) = (pm.clone(), pa.clone(), lm.clone(), la.clone());
        items.push(item(format!("antenna pattern lengths {part}"), move |w| {
            let step = sz.pick(5, 1);
            for a in (0..8090usize).filter(|a| a % 8 == part && (a / 8) % step == 0) {
                for m in [0usize, 5] {
                    let Some(v) = make(m, a, 0, 0, 0, &pm, &pa, &lm, &la) else { continue };
                    c24_one(w, &v, &hdr_pat());
                }
            }
        }));
    }
    for anten in [false, true] {
        let (pm, pa) = (pm.clone(), pa.clone());
        items.push(item(format!("contents of the {}", if anten { "antenna pattern" } else { "modulation parameters" }), move |w| {
            let put = |n: usize, c: &dyn Fn(usize) -> u8| Val::O(Some(Box::new(Val::B((0..n).map(c).collect()))));
            let (this, other) = if anten { (&pa, &pm) } else { (&pm, &pa) };
            let mut lens: Vec<usize> = (1..=40).collect();
            lens.extend([48, 63, 64, 65, 127, 128, 129, 192, 248, 254, 255]);
            if anten {
                lens.extend([256, 257, 512, 1000, 1024, 4096]);
            }
            for n in lens {
                for recs in 0..2 {
                    for o in [Val::O(None), put(8, &|_| 0), put(5, &|i| i as u8), put(255, &|_| 255)] {
                        let Some(mut v) = base(p.ty, recs, 3) else { continue };
                        *v.at_mut(other) = o;
                        let mut run = |w: &mut W, c: &dyn Fn(usize) -> u8| {
                            *v.at_mut(this) = put(n, c);
                            c24_one(w, &v, &hdr_pat());
                        };
                        let fills: Vec<u8> =
                            if n <= 16 { (0..=255).collect() } else { vec![0, 1, 0x20, 0x55, 0x7F, 0x80, 0xAA, 0xFE, 0xFF] };
                        for b in fills {
                            run(w, &|_| b);
                        }
                        // one octet unlike the others
                        for at in (0..n).filter(|i| *i < 16 || n - i <= 8) {
                            for (b, x) in [(0u8, 1u8), (0, 255), (255, 0), (1, 0), (0x20, 0x41)] {
                                run(w, &move |i| if i == at { x } else { b });
                            }
                        }
                        // a length prefix, text, a count
                        run(w, &|i| if i == 0 { n as u8 } else { 0 });
                        run(w, &|i| if i == 1 { n as u8 } else { 0 });
                        run(w, &|i| if i == 0 { (n - 1) as u8 } else { b'A' + (i % 26) as u8 });
                        run(w, &|i| (n - i) as u8);
                        run(w, &|i| if i < n / 2 { 0 } else { 7 });
                        run(w, &|i| if i < n / 2 { 7 } else { 0 });
                    }
                    if w.full() {
                        return;
                    }
                }
            }
        }));
    }
    {
        let (pm, pa, lm, la) = (pm.clone(), pa.clone(), lm.clone(), la.clone());
        items.push(item("other fields", move |w| {
            for (m, a, recs) in [(8, 0, 0), (0, 12, 0), (16, 24, 1), (5, 7, 2), (0, 0, 1)] {
                let Some(v) = make(m, a, recs, 0, 0, &pm, &pa, &lm, &la) else { continue };
                drive::singles(p.ty, &v, sz.pick(Depth::Quick, Depth::Thorough), true, &mut |v| {
                    c24_one(w, v, &hdr_pat());
                    !w.full()
                });
                drive::pairs(p.ty, &v, sz.pick(Depth::Tiny, Depth::Mid), true, (0, 1), &mut |v| {
                    c24_one(w, v, &hdr_pat());
                    !w.full()
                });
            }
        }));
    }
    items.push(item("reuse of one object", move |w| {
        // every sequence of section assignments on one object, encoding after each
        let opts: Vec<(usize, usize)> = vec![(0, 0), (3, 0), (0, 5), (2, 300), (255, 1)];
        let n = opts.len();
        let depth = sz.pick3(3, 5, 7);
        let mut seq = vec![0usize; depth];
        loop {
            let steps: Vec<Val> = seq
                .iter()
                .map(|i| {
                    let mut v = base(p.ty, 0, 3).expect("engine: base");
                    *v.at_mut(&pm) = section(opts[*i].0, 1);
                    *v.at_mut(&pa) = section(opts[*i].1, 2);
                    v
                })
                .collect();
            w.traces += 1;
            w.state("reuse", &seq.iter().map(|x| *x as u8).collect::<Vec<_>>());
            let r = w.imp("encode after each assignment", p.name, &[], || {
                let mut o = p.make(&hdr_pat(), &steps[0]);
                for (k, s) in steps.iter().enumerate() {
                    // keep whatever lengths the last encoding left behind
                    let mut v = s.clone();
                    let cur = o.observe();
                    *v.at_mut(&lm) = cur.at(&lm).clone();
                    *v.at_mut(&la) = cur.at(&la).clone();
                    o.assign(&v);
                    let mut b = BytesMut::new();
                    let ok = o.serialize(&mut b).is_ok();
                    if !ok || b[..] != packet(p.ty, &hdr_pat(), s)[..] {
                        return Some((k, b.to_vec()));
                    }
                }
                None
            });
            match r {
                Ok(None) => {}
                r => w.viol("TransmitterPdu: stale section lengths".into(), || format!("section sizes {:?}: {r:?}", seq.iter().map(|i| opts[*i]).collect::<Vec<_>>())),
            }
            if w.full() {
                return;
            }
            let mut i = 0;
            while i < depth {
                seq[i] += 1;
                if seq[i] < n {
                    break;
                }
                seq[i] = 0;
                i += 1;
            }
            if i == depth {
                return;
            }
        }
    }));
    plan_of(
        items,
        "each state is a Transmitter PDU with given sections, stale length fields and variable records (or a history of section assignments on one object); the encoding is compared with the reference, which derives both lengths from the sections, and is decoded again",
        vec![
            format!("modulation sections 0..255 by {} antenna pattern lengths by 0..2 variable records", sz.pick(20, 313)),
            format!("antenna patterns up to the size limit ({})", sz.pick("one in five", "all lengths")),
            format!("all stale modulation lengths, {} stale antenna lengths, on 25 section combinations", sz.pick("676", "all 65536")),
            format!("every sequence of {} assignments from 5 section combinations", sz.pick3(3, 5, 7)),
            "section contents: each uniform fill and each single odd octet, at 51 (57) lengths, beside 4 other sections and 0 or 1 records".into(),
            "every other field over its alphabet, pairs of them over a small one, with 5 section combinations".into(),
        ],
    )
}

// ------------------------------------------------------------------ C25
fn marking_rec() -> &'static RecInfo {
    records().iter().find(|r| r.name == "EntityMarking").expect("engine: marking")
}
fn c25_text(w: &mut W, set: u64, text: &str) {
    let r = marking_rec();
    let v = Val::S(vec![Val::U(set), Val::Str(text.into())]);
    let want = rec_enc(r.ty, &v);
    if !w.state("text", format!("{set} {text}").as_bytes()) {
        return;
    }
    w.traces += 1;
    let got = w.imp("marking", "EntityMarking", text.as_bytes(), || {
        let mut b = BytesMut::new();
        (r.ser)(&v, &mut b);
        let len = r.field.as_ref().map_or(12, |f| (f.len)(&v));
        let mut x = b.to_vec();
        x.extend(TRAIL);
        let mut s = &x[..];
        let back = (r.dec_slice)(&mut s);
        (b, len, back, s.len())
    });
    match got {
        Err(e) => w.viol("EntityMarking: panic".into(), || format!("{text:?}: {e}")),
        Ok((b, len, back, left)) => {
            if b[..] != want[..] || len != 12 {
                w.viol("EntityMarking: encoded bytes differ from the layout".into(), || {
                    format!("{text:?}: wrote {} (length {len}), should be {}", hex(&b), hex(&want))
                });
            }
            if left != TRAIL.len() {
                w.viol("EntityMarking: decoding consumes another number of bytes".into(), || format!("{text:?}: {left} left of {}", TRAIL.len()));
            }
            if text.len() <= 11 && !text.ends_with('\0') && back != v {
                w.viol("EntityMarking: text not restored".into(), || format!("{text:?} came back as {back:?}"));
            }
        }
    }
    w.outcome(&format!("{}", text.len()));
    w.sample(|| format!("{text:?} -> {}", hex(&want)));
}
fn c25_pdus(w: &mut W, text: &str) {
    for p in pdus() {
        let paths: Vec<Vec<usize>> = {
            let v = genv::uniform(p.ty, 1, false);
            genv::leaves(p.ty, &v).into_iter().filter(|l| matches!(l.1, genv::Leaf::Marking)).map(|l| l.0).collect()
        };
        for path in paths {
            let Some(mut v) = base(p.ty, 1, 6) else { continue };
            *v.at_mut(&path) = Val::Str(text.into());
            let want = packet(p.ty, &hdr_pat(), &v);
            w.traces += 1;
            w.state(p.name, &want);
            match enc(w, p, &hdr_pat(), &v) {
                Enc::Ok(b, _) if b == want => {}
                o => w.viol(format!("{}: marking disturbs the PDU", p.name), || format!("{text:?}: {} should be {}", o.show(), hex(&want))),
            }
            let o = dec(w, p, &want);
            let ok = match &o {
                Out::Ok(_, x, n) => {
                    let mut a = v.clone();
                    if text.len() > 11 || text.ends_with('\0') {
                        // what was cut off cannot come back; the other fields must
                        *a.at_mut(&path) = Val::Any;
                    }
                    *n == want.len() && a.matches(x)
                }
                _ => false,
            };
            if !ok {
                w.viol(format!("{}: PDU with a marking not restored", p.name), || format!("{text:?}: {} gives {}", hex(&want), o.show()));
            }
        }
    }
}
fn c25_bytes(w: &mut W, raw: &[u8]) {
    let r = marking_rec();
    if !w.state("bytes", raw) {
        return;
    }
    w.traces += 1;
    let end = raw[1..].iter().rposition(|b| *b != 0).map_or(0, |i| i + 1);
    let text = std::str::from_utf8(&raw[1..1 + end]).ok();
    let got = w.imp("marking bytes", "EntityMarking", raw, || {
        let mut x = raw.to_vec();
        x.extend(TRAIL);
        let mut out = vec![];
        let mut s = &x[..];
        let a = (r.dec_slice)(&mut s);
        out.push((a, s.len()));
        if let Some(f) = &r.field {
            let mut s = &x[..];
            let a = (f.dec_slice)(&mut s);
            out.push((a, s.len()));
        }
        let mut f = FragBuf::bytewise(&x);
        let mut d: DynBuf = &mut f;
        let a = (r.dec_dyn)(&mut d);
        out.push((a, d.remaining()));
        let mut again = BytesMut::new();
        (r.ser)(&out[0].0, &mut again);
        (out, again)
    });
    match got {
        Err(e) => w.viol("EntityMarking: decoding fails".into(), || format!("{}: {e}", hex(raw))),
        Ok((out, again)) => {
            let e = bind::enum_by_name("EntityMarkingCharacterSet");
            let set = u64::from(raw[0]);
            let set = if e.has(set) { set } else { e.default };
            for (v, left) in &out {
                let ok = left == &TRAIL.len() && v.child(0).u() == set && text.is_none_or(|t| *v.child(1) == Val::Str(t.into()));
                if !ok {
                    w.viol("EntityMarking: wire text decoded differently".into(), || {
                        format!("{} gives {v:?} leaving {left} bytes; should be {set} {text:?}", hex(raw))
                    });
                }
            }
            if again.len() != 12 || (text.is_some() && again[1..] != raw[1..]) {
                w.viol("EntityMarking: decoded marking encodes differently".into(), || format!("{} becomes {}", hex(raw), hex(&again)));
            }
        }
    }
}
pub fn c25(sz: Sz) -> Plan {
    let mut items = vec![];
    items.push(item("text lengths", |w| {
        for n in 0..=40 {
            for ch in ["A", " ", "z", "0", "\u{1}", "\u{7f}", "\0", "é", "日", "\u{10348}"] {
                for set in 0..=3 {
                    if bind::enum_by_name("EntityMarkingCharacterSet").has(set) {
                        c25_text(w, set, &ch.repeat(n));
                    }
                }
            }
        }
    }));
    items.push(item("straddling characters", |w| {
        for pre in 0..=14 {
            for ch in ["é", "日", "\u{10348}", "\0", "A"] {
                for post in 0..=4 {
                    for tail in ["b", "é", "\0"] {
                        let t = format!("{}{ch}{}", "a".repeat(pre), tail.repeat(post));
                        c25_text(w, 1, &t);
                    }
                }
            }
        }
    }));
    items.push(item("every character at every position", |w| {
        for pos in 0..11 {
            for c in 0..=255u8 {
                let mut t: Vec<char> = "ABCDEFGHIJK".chars().collect();
                t[pos] = c as char;
                c25_text(w, 1, &t.iter().collect::<String>());
                let t: String = t[..=pos].iter().collect();
                c25_text(w, 1, &t);
            }
        }
    }));
    items.push(item("markings inside PDUs", |w| {
        for n in 0..=40 {
            for ch in ["A", "é", "日", "\0", "\u{10348}"] {
                c25_pdus(w, &ch.repeat(n));
                c25_pdus(w, &format!("{}{ch}x", "a".repeat(n)));
            }
        }
    }));
    items.push(item("every byte at every position", |w| {
        for fill in [0u8, b'A', b' ', 0xC3, 0xFF] {
            for pos in 0..11 {
                for c in 0..=255u8 {
                    let mut raw = [fill; 12];
                    raw[0] = 1;
                    raw[1 + pos] = c;
                    c25_bytes(w, &raw);
                }
            }
            for set in 0..=255u8 {
                let mut raw = [fill; 12];
                raw[0] = set;
                c25_bytes(w, &raw);
            }
        }
    }));
    for pos in 0..11usize {
        items.push(item(format!("byte pairs with position {pos}"), move |w| {
            for q in pos + 1..11 {
                for ab in 0..=65_535u16 {
                    for fill in [0u8, b'A'] {
                        let mut raw = [fill; 12];
                        raw[0] = 1;
                        [raw[1 + pos], raw[1 + q]] = ab.to_be_bytes();
                        c25_bytes(w, &raw);
                    }
                    if w.full() {
                        return;
                    }
                }
            }
        }));
    }
    let letters: &'static [u8] = sz.pick3(&[0, b'A', 0xFF], &[0, b'A', b' ', 0xFF], &[0, b'A', b' ', 0xC3, 0xA9]);
    for first in 0..letters.len() {
        items.push(item(format!("every marking over {} bytes, starting with {}", letters.len(), letters[first]), move |w| {
            let mut at = [0usize; 11];
            at[0] = first;
            loop {
                let mut raw = [1u8; 12];
                for (r, a) in raw[1..].iter_mut().zip(at) {
                    *r = letters[a];
                }
                c25_bytes(w, &raw);
                let mut i = 10;
                while i > 0 && at[i] + 1 == letters.len() {
                    at[i] = 0;
                    i -= 1;
                }
                if i == 0 || w.full() {
                    return;
                }
                at[i] += 1;
            }
        }));
    }
    let alpha: &'static [u8] = sz.pick(&[0, 1, b'A', 0x7F, 0x80, 0xC3, 0xE6, 0xF0, 0xFF], &[0, 1, 9, b' ', b'A', 0x7F, 0x80, 0x9F, 0xA5, 0xBF, 0xC0, 0xC3, 0xE0, 0xE6, 0xED, 0xF0, 0xF4, 0xF5, 0xFE, 0xFF]);
    for i in 0..11usize {
        items.push(item(format!("byte triples from position {i}"), move |w| {
            for j in i + 1..11 {
                for k in j + 1..11 {
                    if !sz.thorough && (j != i + 1 || k != j + 1) && k != 10 {
                        continue;
                    }
                    for a in alpha {
                        for b in alpha {
                            for c in alpha {
                                for fill in [0u8, b'x'] {
                                    let mut raw = [fill; 12];
                                    raw[0] = 1;
                                    raw[1 + i] = *a;
                                    raw[1 + j] = *b;
                                    raw[1 + k] = *c;
                                    c25_bytes(w, &raw);
                                }
                            }
                        }
                    }
                    if w.full() {
                        return;
                    }
                }
            }
        }));
    }
    plan_of(
        items,
        "each state is a marking text or 12 wire bytes; the encoding is compared with the reference (one byte, 11 zero-filled or cut bytes), the decoding with the text, and the PDUs that carry markings with their reference packets",
        vec![
            "texts of 0..40 repetitions of ten characters of 1 to 4 bytes, every straddling position".into(),
            "every byte and every Latin-1 character at each of 11 positions, all 256 character-set codes".into(),
            "all byte pairs at all position pairs".into(),
            format!("all 11-byte markings over {} bytes", letters.len()),
            format!("byte triples over {} bytes at {} position triples", alpha.len(), sz.pick("adjacent and end", "all")),
        ],
    )
}

// ------------------------------------------------------------------ C27
trait Prim: Bind + FieldSerialize + FieldDeserialize + FieldLen + Sized + 'static {
    const W: usize;
    const N: &'static str;
}
macro_rules! prim {
    ($($t:ty, $w:literal);*) => { $( impl Prim for $t { const W: usize = $w; const N: &'static str = stringify!($t); } )* };
}
prim!(u8, 1; i8, 1; u16, 2; i16, 2; u32, 4; i32, 4; u64, 8; i64, 8; f32, 4; f64, 8);
fn prim_ok<T: Prim>(x: u64) -> Result<(), (&'static str, String)> {
    let v = Val::U(x);
    let mut want = x.to_be_bytes()[8 - T::W..].to_vec();
    let mut b = BytesMut::new();
    T::build(&v).serialize_field(&mut b);
    if b[..] != want[..] {
        return Err(("encoding", hex(&b)));
    }
    if T::build(&v).field_len() != T::W {
        return Err(("length", String::new()));
    }
    want.extend([0x5A, 0xA5]);
    let mut s = &want[..];
    let y = T::deserialize_field(&mut s).observe().u();
    if y != x || s.len() != 2 {
        return Err(("decoding", format!("{y:#x} leaving {}", s.len())));
    }
    let mut f = FragBuf::bytewise(&want);
    let mut d: DynBuf = &mut f;
    let y = T::deserialize_field(&mut d).observe().u();
    if y != x || d.remaining() != 2 {
        return Err(("decoding from segments", format!("{y:#x} leaving {}", d.remaining())));
    }
    Ok(())
}
fn prim_sweep<T: Prim>(w: &mut W, xs: &[u64]) {
    for chunk in xs.chunks(2048) {
        w.traces += chunk.len() as u64;
        for x in chunk.iter().step_by(if xs.len() > 4096 { 16 } else { 1 }) {
            w.state(T::N, &x.to_be_bytes());
        }
        let r = w.imp("primitive codec", T::N, &chunk[0].to_be_bytes(), || chunk.iter().find_map(|x| prim_ok::<T>(*x).err().map(|e| (*x, e))));
        match r {
            Ok(None) => {}
            Ok(Some((x, (what, d)))) => w.viol(format!("{}: {what}", T::N), || format!("{} with bits {x:#x}: {what} gives {d}", T::N)),
            Err(e) => w.viol(format!("{}: panic", T::N), || e.clone()),
        }
    }
    w.outcome(T::N);
}
fn prim_values(width: usize, float: bool) -> Vec<u64> {
    if width <= 2 {
        return (0..1u64 << (8 * width)).collect();
    }
    let n = if float { spec::Num::F } else { spec::Num::U };
    let mut v: Vec<u64> = genv::alphabet(genv::Leaf::Int(n, width), Depth::Thorough).iter().map(Val::u).collect();
    v.extend(genv::alphabet(genv::Leaf::Int(spec::Num::U, width), Depth::Thorough).iter().map(Val::u));
    // every pair of bits
    let bits = 8 * width;
    for i in 0..bits {
        for j in 0..bits {
            v.push(1 << i | 1 << j);
            v.push(genv::wmask(width) & !(1 << i | 1 << j));
        }
    }
    // every byte at every position
    for k in 0..width {
        for b in 0..256u64 {
            v.push(b << (8 * k));
            v.push((genv::wmask(width) & !(0xFF << (8 * k))) | b << (8 * k));
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}
fn list_ok<T: Prim>(xs: &[u64]) -> Result<(), (&'static str, String)> {
    let v: Vec<T> = xs.iter().map(|x| T::build(&Val::U(*x))).collect();
    let want: Vec<u8> = xs.iter().flat_map(|x| x.to_be_bytes()[8 - T::W..].to_vec()).collect();
    let mut b = BytesMut::new();
    b.put_u8(0x99);
    v.serialize_field(&mut b);
    if b[0] != 0x99 || b[1..] != want[..] {
        return Err(("list encoding", hex(&b[1..])));
    }
    if v.field_len() != want.len() {
        return Err(("list length", v.field_len().to_string()));
    }
    for x in xs {
        let o = Some(T::build(&Val::U(*x)));
        let mut b = BytesMut::new();
        o.serialize_field(&mut b);
        if b[..] != x.to_be_bytes()[8 - T::W..] || o.field_len() != T::W {
            return Err(("optional encoding", hex(&b)));
        }
    }
    let o: Vec<Option<T>> = xs.iter().enumerate().map(|(i, x)| (i % 2 == 1).then(|| T::build(&Val::U(*x)))).collect();
    let w2: Vec<u8> = xs.iter().enumerate().filter(|x| x.0 % 2 == 1).flat_map(|(_, x)| x.to_be_bytes()[8 - T::W..].to_vec()).collect();
    let mut b = BytesMut::new();
    o.serialize_field(&mut b);
    if b[..] != w2[..] || o.field_len() != w2.len() {
        return Err(("list of optionals encoding", hex(&b)));
    }
    let n: Option<T> = None;
    let mut b = BytesMut::new();
    n.serialize_field(&mut b);
    if !b.is_empty() || n.field_len() != 0 {
        return Err(("absent optional encoding", hex(&b)));
    }
    Ok(())
}
fn lists_sweep<T: Prim>(w: &mut W, max: usize) {
    let m = genv::wmask(T::W);
    let al = [0u64, 1, m, 0x0102_0304_0506_0708 >> (64 - 8 * T::W), m >> 1, (m >> 1) + 1];
    for n in 0..=max {
        let mut seq = vec![0usize; n];
        loop {
            let xs: Vec<u64> = seq.iter().map(|i| al[*i]).collect();
            w.traces += 1;
            let mut id = vec![n as u8];
            id.extend(seq.iter().map(|x| *x as u8));
            w.state(T::N, &id);
            match w.imp("list codec", T::N, &id, || list_ok::<T>(&xs)) {
                Ok(Ok(())) => {}
                Ok(Err((what, d))) => w.viol(format!("{}: {what}", T::N), || format!("{xs:x?}: {d}")),
                Err(e) => w.viol(format!("{}: list panic", T::N), || format!("{xs:x?}: {e}")),
            }
            let mut i = 0;
            while i < n {
                seq[i] += 1;
                if seq[i] < al.len() {
                    break;
                }
                seq[i] = 0;
                i += 1;
            }
            if i == n {
                break;
            }
        }
    }
    w.outcome(T::N);
}
fn strings(w: &mut W) {
    for s in genv::markings().into_iter().chain((0..300).map(|n| "xyz".repeat(n))) {
        w.traces += 1;
        w.state("String", s.as_bytes());
        let r = w.imp("string codec", "String", s.as_bytes(), || {
            let mut b = BytesMut::new();
            s.serialize_field(&mut b);
            (b, s.field_len())
        });
        if !matches!(&r, Ok((b, n)) if b[..] == *s.as_bytes() && *n == s.len()) {
            w.viol("String: codec".into(), || format!("{s:?}: {r:?}"));
        }
    }
}
/// count- and length-driven readers, through every record and PDU list of the specification
fn readers(w: &mut W, r: &'static RecInfo, max: usize) {
    let proto = genv::uniform(r.ty, 1, false);
    for (path, t) in drive::lists(r.ty, &proto) {
        if matches!(t, Ty::List(_, Count::Rest | Count::NoDec)) {
            continue;
        }
        for n in 0..=max {
            let mut v = proto.clone();
            drive::set_len(&mut v, &path, t, n);
            genv::fill(r.ty, &mut v, Mode::Pattern(n as u64 + 90));
            if !genv::fix(r.ty, &mut v, 1) {
                break;
            }
            c15_one(w, r, &v);
        }
    }
}
fn pdu_readers(w: &mut W, p: &'static bind::PduInfo, max: usize) {
    let proto = genv::uniform(p.ty, 1, false);
    for (path, t) in drive::lists(p.ty, &proto) {
        if matches!(t, Ty::List(_, Count::NoDec) | Ty::OptList(..)) {
            continue;
        }
        for n in 0..=max {
            let mut v = proto.clone();
            drive::set_len(&mut v, &path, t, n);
            genv::fill(p.ty, &mut v, Mode::Pattern(n as u64 + 40));
            if !genv::fix(p.ty, &mut v, 1) {
                break;
            }
            let b = packet(p.ty, &hdr_pat(), &v);
            if b.len() > drive::LIMIT {
                break;
            }
            w.traces += 1;
            w.state(p.name, &b);
            let mut input = b.clone();
            input.extend(TRAIL);
            match dec(w, p, &input) {
                Out::Ok(_, x, used) if used == b.len() && v.matches(&x) => {}
                o => w.viol(format!("{}{}: reader", p.name, spec::strip_idx(&p.ty.path_name(&path))), || {
                    format!("{n} elements, {} gives {}, should be {v:?} from {} bytes", hex(&input), o.show(), b.len())
                }),
            }
        }
    }
}
fn wide<T: Prim>(w: &mut W, part: u64, parts: u64) {
    let n = (1u64 << 32) / parts;
    let mut c = n * part;
    let end = n * (part + 1);
    while c < end {
        let hi = c + (1 << 20);
        w.traces += 1 << 20;
        w.count("32-bit values", 1 << 20);
        w.state(T::N, &c.to_be_bytes());
        let r = w.imp("primitive codec", T::N, &c.to_be_bytes(), || {
            let mut b = BytesMut::with_capacity(64);
            for x in c..hi {
                b.clear();
                T::build(&Val::U(x)).serialize_field(&mut b);
                let mut s = &b[..];
                let y = T::deserialize_field(&mut s).observe().u();
                if b[..] != (x as u32).to_be_bytes() || y != x {
                    return Some((x, y));
                }
            }
            None
        });
        match r {
            Ok(None) => {}
            r => w.viol(format!("{}: codec", T::N), || format!("from {c:#x}: {r:?}")),
        }
        c = hi;
    }
}
pub fn c27(sz: Sz) -> Plan {
    let mut items = vec![
        item("u8", |w| prim_sweep::<u8>(w, &prim_values(1, false))),
        item("i8", |w| prim_sweep::<i8>(w, &prim_values(1, false))),
        item("u16", |w| prim_sweep::<u16>(w, &prim_values(2, false))),
        item("i16", |w| prim_sweep::<i16>(w, &prim_values(2, false))),
        item("u32", |w| prim_sweep::<u32>(w, &prim_values(4, false))),
        item("i32", |w| prim_sweep::<i32>(w, &prim_values(4, false))),
        item("f32", |w| prim_sweep::<f32>(w, &prim_values(4, true))),
        item("u64", |w| prim_sweep::<u64>(w, &prim_values(8, false))),
        item("i64", |w| prim_sweep::<i64>(w, &prim_values(8, false))),
        item("f64", |w| prim_sweep::<f64>(w, &prim_values(8, true))),
        item("strings", strings),
    ];
    let max = sz.pick(3, 5);
    items.push(item("lists of u8", move |w| lists_sweep::<u8>(w, max)));
    items.push(item("lists of i8", move |w| lists_sweep::<i8>(w, max)));
    items.push(item("lists of u16", move |w| lists_sweep::<u16>(w, max)));
    items.push(item("lists of i16", move |w| lists_sweep::<i16>(w, max)));
    items.push(item("lists of u32", move |w| lists_sweep::<u32>(w, max)));
    items.push(item("lists of i32", move |w| lists_sweep::<i32>(w, max)));
    items.push(item("lists of f32", move |w| lists_sweep::<f32>(w, max)));
    items.push(item("lists of u64", move |w| lists_sweep::<u64>(w, max)));
    items.push(item("lists of i64", move |w| lists_sweep::<i64>(w, max)));
    items.push(item("lists of f64", move |w| lists_sweep::<f64>(w, max)));
    for r in records() {
        items.push(item(format!("{} readers", r.name), move |w| readers(w, r, sz.pick(40, 400))));
    }
    for p in pdus() {
        items.push(item(format!("{} readers", p.name), move |w| pdu_readers(w, p, sz.pick(40, 300))));
    }
    items.extend(opaque_items(sz, false));
    if sz.thorough {
        for k in 0..32 {
            items.push(item(format!("every u32, part {k}"), move |w| wide::<u32>(w, k, 32)));
            items.push(item(format!("every i32, part {k}"), move |w| wide::<i32>(w, k, 32)));
            items.push(item(format!("every f32, part {k}"), move |w| wide::<f32>(w, k, 32)));
        }
    }
    plan_of(
        items,
        "each state is one primitive, list, optional or counted list; bytes, length, decoded bits and remaining bytes are compared with their definition, on contiguous and one-byte-per-segment input",
        vec![
            format!("all 8- and 16-bit values; wider types: boundary alphabet, all pairs of bits, every byte at every position{}", sz.pick("", "; all 2^32 values of 32-bit types")),
            format!("every list of up to {max} elements over 6 values, of 10 element types, plain and optional"),
            format!("every counted list of every record and PDU at lengths 0..{}", sz.pick(40, 300)),
        ],
    )
}
