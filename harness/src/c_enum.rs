//! C13 enumeration decoding, C14 enumeration codes, C20 flags.
use crate::bind::{Bind, DynBuf, EnumInfo, PduInfo, RecInfo, enums, pdus, records};
use crate::checks::{Sz, plan_of};
use crate::drive::{self, Enc, base, dec, dec_body, enc, hdr_pat};
use crate::engine::{Item, Plan, W, hex, item};
use crate::flags::{FLAGS, flag_table};
use crate::fragbuf::FragBuf;
use crate::genv::{self, Depth, Leaf, Mode, Skel};
use crate::spec::{self, Num, Rd, packet};
use crate::val::Val;
use bytes::BytesMut;
use open_dis_rust::common::enums as e;
use open_dis_rust::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};

fn be(x: u64, w: usize) -> Vec<u8> {
    x.to_be_bytes()[8 - w..].to_vec()
}
fn member_or_default(e: &EnumInfo, c: u64) -> u64 {
    if e.has(c) { c } else { e.default }
}
/// codes tried in a 32-bit field below the exhaustive tier
fn codes32(e: &EnumInfo) -> Vec<u64> {
    let mut v: Vec<u64> = genv::alphabet(Leaf::Int(Num::U, 4), Depth::Thorough).iter().map(Val::u).collect();
    v.extend(0..70_000);
    for c in &e.codes {
        for k in 0..32 {
            v.push(c ^ (1 << k));
        }
        for d in 0..=8 {
            v.push(c.wrapping_add(d) & 0xFFFF_FFFF);
            v.push(c.wrapping_sub(d) & 0xFFFF_FFFF);
        }
        v.push(c << 16 & 0xFFFF_FFFF);
        v.push(c << 8 & 0xFFFF_FFFF);
        v.push(c >> 8);
        v.push(c.swap_bytes() >> 32);
    }
    v.sort_unstable();
    v.dedup();
    v
}
fn codes_of(e: &EnumInfo) -> Vec<u64> {
    match e.width {
        1 => (0..256).collect(),
        2 => (0..65_536).collect(),
        _ => codes32(e),
    }
}

// ------------------------------------------------------------------ C13
fn c13_enum(w: &mut W, e: &'static EnumInfo) {
    let codes = codes_of(e);
    for chunk in codes.chunks(4096) {
        // one guarded call per block; the first disagreement is reported
        let r = w.imp("enumeration codec", e.name, &be(chunk[0], e.width), || {
            for c in chunk {
                let mut b = be(*c, e.width);
                b.extend([0xEE, 0x77, 0xEE, 0x77]);
                let want = member_or_default(e, *c);
                let mut s = &b[..];
                let got = (e.dec_slice)(&mut s);
                if got != want || s.len() != 4 {
                    return Some((*c, "deserialize", got, s.len()));
                }
                let mut f = FragBuf::bytewise(&b);
                let mut d: DynBuf = &mut f;
                let got = (e.dec_dyn)(&mut d);
                let left = d.remaining();
                if got != want || left != 4 {
                    return Some((*c, "deserialize from segments", got, left));
                }
                if let Some(ff) = &e.field {
                    let mut s = &b[..];
                    let got = (ff.dec_slice)(&mut s).u();
                    if got != want || s.len() != 4 {
                        return Some((*c, "deserialize_field", got, s.len()));
                    }
                    let mut f = FragBuf::bytewise(&b);
                    let mut d: DynBuf = &mut f;
                    let got = (ff.dec_dyn)(&mut d).u();
                    if got != want || d.remaining() != 4 {
                        return Some((*c, "deserialize_field from segments", got, d.remaining()));
                    }
                }
            }
            None
        });
        w.traces += chunk.len() as u64;
        w.count("codes decoded", chunk.len() as u64);
        for c in chunk.iter().step_by(if chunk.len() > 256 { 16 } else { 1 }) {
            w.state(e.name, &c.to_be_bytes());
        }
        match r {
            Ok(None) => {}
            Ok(Some((c, how, got, left))) => w.viol(format!("{}: {how}", e.name), || {
                format!("code {c} in {} bytes: {how} gives {got:#x} leaving {left} of 4 following bytes; should be {} ({})", e.width, member_or_default(e, c), e.member(member_or_default(e, c)))
            }),
            Err(x) => w.viol(format!("{}: panic", e.name), || format!("codes {}..: {x}", chunk[0])),
        }
    }
    // members round-trip
    if let Some(ff) = &e.field {
        for c in &e.codes {
            let want = be(*c, e.width);
            w.traces += 1;
            let r = w.imp("enumeration member", e.name, &want, || {
                let mut b = BytesMut::new();
                (ff.ser)(&Val::U(*c), &mut b);
                let mut s = &b[..];
                let back = (ff.dec_slice)(&mut s).u();
                ((ff.len)(&Val::U(*c)), b, back)
            });
            match r {
                Ok((n, b, back)) if n == e.width && b[..] == want[..] && back == *c => {}
                r => w.viol(format!("{}: member codec", e.name), || format!("{} = {c}: {r:?}, should be {}", e.member(*c), hex(&want))),
            }
        }
    }
    w.outcome(e.name);
    w.sample(|| format!("{} codes of {} bytes, {} members", codes.len(), e.width, e.codes.len()));
}
fn c13_wide(w: &mut W, e: &'static EnumInfo, part: u64, parts: u64) {
    // every 32-bit code
    let n = 1u64 << 32;
    let (lo, hi) = (n / parts * part, n / parts * (part + 1));
    let mut c = lo;
    while c < hi {
        let end = (c + (1 << 20)).min(hi);
        let r = w.imp("enumeration codec", e.name, &be(c, 4), || {
            for x in c..end {
                let b = (x as u32).to_be_bytes();
                let mut s = &b[..];
                let got = (e.dec_slice)(&mut s);
                if !s.is_empty() || got != member_or_default(e, x) {
                    return Some((x, got));
                }
            }
            None
        });
        w.traces += end - c;
        w.state(e.name, &c.to_be_bytes());
        w.count("codes decoded", end - c);
        match r {
            Ok(None) => {}
            r => {
                w.viol(format!("{}: deserialize", e.name), || format!("{r:?}"));
                return;
            }
        }
        c = end;
    }
}
/// enumeration fields inside a value: (path, table, offset)
fn enum_fields(r: &'static spec::RecTy, v: &Val) -> Vec<(Vec<usize>, &'static EnumInfo, usize)> {
    let sp: std::collections::HashMap<Vec<usize>, usize> = spec::spans(r, v).into_iter().map(|s| (s.0, s.1)).collect();
    genv::leaves(r, v)
        .into_iter()
        .filter_map(|(p, l)| match l {
            Leaf::Enum(e) => sp.get(&p).map(|o| (p.clone(), e, *o)),
            _ => None,
        })
        .collect()
}
/// values that between them contain every alternative and list element type
fn shapes(r: &'static spec::RecTy, thorough: bool) -> Vec<Val> {
    let mut out = vec![];
    if let Some(v) = base(r, 1, 61) {
        out.push(v);
    }
    if let Some(v) = base(r, 2, 62) {
        out.push(v);
    }
    drive::structs(r, Skel { max: 1, nodec: false, cap: 8 }, &[Mode::Pattern(63)], &mut |v| {
        out.push(v.clone());
        out.len() < if thorough { 12 } else { 5 }
    });
    out
}
fn c13_pdu(w: &mut W, p: &'static PduInfo, sz: Sz) {
    let mut seen = std::collections::HashSet::new();
    for (k, v) in shapes(p.ty, sz.thorough).into_iter().enumerate() {
        let b = packet(p.ty, &hdr_pat(), &v);
        for (path, e, off) in enum_fields(p.ty, &v) {
            let name = spec::strip_idx(&p.ty.path_name(&path));
            // all codes once per field; later shapes only the edges
            let first = seen.insert(name.clone());
            let codes = if first || sz.thorough && k < 3 { codes_of(e) } else { edge_codes(e) };
            let mut x = b.clone();
            for c in codes {
                x[12 + off..12 + off + e.width].copy_from_slice(&be(c, e.width));
                if !w.state(p.name, &x) {
                    continue;
                }
                w.traces += 1;
                let r = drive::ref_dec(p, &x);
                let o = dec(w, p, &x);
                if let Some(d) = drive::differ(p, &r, &o) {
                    w.viol(format!("{}{name}: code decoded wrongly ({d})", p.name), || {
                        format!("{name} = {c} in {}: {}, should be {}", hex(&x), o.show(), r.show())
                    });
                }
                if first && c % 64 == 1 {
                    let o = dec_body(w, p, &x);
                    if let Some(d) = drive::differ(p, &r, &o) {
                        w.viol(format!("{}{name}: code decoded wrongly with a supplied header ({d})", p.name), || {
                            format!("{name} = {c} in {}: {}", hex(&x), o.show())
                        });
                    }
                }
                // known codes come back out
                if e.has(c) && first {
                    if let drive::Out::Ok(h, v2, n) = &o {
                        if let Enc::Ok(y, _) = enc(w, p, h, v2) {
                            if *n == x.len() && y[12 + off..12 + off + e.width] != x[12 + off..12 + off + e.width] && y.len() == x.len() {
                                w.viol(format!("{}{name}: member encoded wrongly", p.name), || format!("{c} in {} comes out as {}", hex(&x), hex(&y)));
                            }
                        }
                    }
                }
                if w.full() {
                    return;
                }
            }
            w.outcome(&format!("{}{name}", p.name));
        }
    }
    w.sample(|| format!("{} enumeration fields", seen.len()));
}
fn edge_codes(e: &EnumInfo) -> Vec<u64> {
    let m = genv::wmask(e.width);
    let mut v: Vec<u64> = vec![0, 1, m, m - 1, m >> 1, (m >> 1) + 1, 255 & m, 256 & m];
    for c in &e.codes {
        v.extend([*c, c.wrapping_add(1) & m]);
    }
    v.sort_unstable();
    v.dedup();
    v
}
fn c13_rec(w: &mut W, r: &'static RecInfo, sz: Sz) {
    for v in shapes(r.ty, sz.thorough) {
        let mut b = vec![];
        spec::enc_rec(r.ty, &v, &mut b);
        for (path, e, off) in enum_fields(r.ty, &v) {
            let name = spec::strip_idx(&r.ty.path_name(&path));
            let mut x = b.clone();
            for c in codes_of(e) {
                x[off..off + e.width].copy_from_slice(&be(c, e.width));
                if !w.state(r.name, &x) {
                    continue;
                }
                let mut rd = Rd { b: &x, pos: 0 };
                // a tag that selects a longer alternative needs more bytes than there are
                let Ok(want) = spec::dec_rec(r.ty, &mut rd) else { continue };
                let (want, used) = (Val::S(want), rd.pos);
                w.traces += 1;
                let got = w.imp("record decode", r.name, &x, || {
                    let mut s = &x[..];
                    let a = (r.dec_slice)(&mut s);
                    let l = s.len();
                    let f = r.field.as_ref().map(|f| {
                        let mut s = &x[..];
                        ((f.dec_slice)(&mut s), s.len())
                    });
                    (a, l, f)
                });
                let ok = match &got {
                    Ok((a, l, f)) => {
                        want.matches(a) && *l == x.len() - used && f.as_ref().is_none_or(|(v, l)| want.matches(v) && *l == x.len() - used)
                    }
                    Err(_) => false,
                };
                // GridDataRecord and GridAxisDescriptor read their padding to the end: C15's finding
                if !ok && !greedy(r.name) {
                    w.viol(format!("{}{name}: code decoded wrongly", r.name), || format!("{name} = {c} in {}: {got:?}, should be {want:?}", hex(&x)));
                }
                if w.full() {
                    return;
                }
            }
        }
    }
}
pub fn greedy(_name: &str) -> bool {
    false
}
pub fn c13(sz: Sz) -> Plan {
    let mut items: Vec<Item> = vec![];
    for e in enums() {
        items.push(item(format!("enumeration {}", e.name), move |w| c13_enum(w, e)));
        if e.width == 4 && sz.thorough {
            for k in 0..8 {
                items.push(item(format!("enumeration {} part {k}", e.name), move |w| c13_wide(w, e, k, 8)));
            }
        }
    }
    for p in pdus() {
        items.push(item(format!("fields of {}", p.name), move |w| c13_pdu(w, p, sz)));
    }
    for r in records() {
        items.push(item(format!("fields of {}", r.name), move |w| c13_rec(w, r, sz)));
    }
    let wide = enums().iter().filter(|e| e.width == 4).count();
    plan_of(
        items,
        "each state is one code on the wire, of an enumeration alone or of an enumeration field inside a record or PDU; the decoded member and consumed bytes are compared with the code table",
        vec![
            format!("{} enumerations: all codes of 8- and 16-bit ones; {} 32-bit ones {}", enums().len(), wide, sz.pick("over 70000 codes plus neighbourhoods of every member", "over all 2^32 codes")),
            "every enumeration field of every PDU and record at all codes of its width (32-bit fields at the same bounded set)".into(),
        ],
    )
}

// ------------------------------------------------------------------ C14
fn c14_enum(w: &mut W, e: &'static EnumInfo) {
    let r = w.imp("member codes", e.name, &[], || ((e.actual)(), (e.actual_default)()));
    match r {
        Ok((a, d)) => {
            for (k, (c, m)) in e.table.iter().enumerate() {
                w.state(e.name, &c.to_be_bytes());
                w.traces += 1;
                if a[k] != *c {
                    w.viol(format!("{}::{m}: wrong code", e.name), || format!("{} but SISO-REF-010 assigns {c}", a[k]));
                }
                // and it is what the decoder yields for that code
                let b = be(*c, e.width);
                let x = w.imp("decode of a member's code", e.name, &b, || {
                    let mut s = &b[..];
                    (e.dec_slice)(&mut s)
                });
                if x != Ok(*c) {
                    w.viol(format!("{}: code {c} is not represented", e.name), || format!("{x:?}, should be {m}"));
                }
            }
            if d != e.default {
                w.viol(format!("{}: wrong default member", e.name), || format!("code {d:#x}, should be {}", e.default));
            }
            w.outcome(e.name);
            w.sample(|| format!("{} members", a.len()));
        }
        Err(x) => w.viol(format!("{}: panic", e.name), || x),
    }
    // no code outside the table has a member
    if e.width <= 2 {
        let top = genv::wmask(e.width);
        let r = w.imp("codes outside the table", e.name, &[], || {
            (0..=top).find(|c| {
                let b = be(*c, e.width);
                let mut s = &b[..];
                let g = (e.dec_slice)(&mut s);
                !e.has(*c) && g != e.default
            })
        });
        w.traces += 1;
        if r != Ok(None) {
            w.viol(format!("{}: a code outside the reference table has a member", e.name), || format!("{r:?}"));
        }
    }
}
fn c14_encode(w: &mut W, p: &'static PduInfo) {
    // the code each member is given on the wire, field by field
    let Some(v) = base(p.ty, 1, 64) else { return };
    let mut x = v.clone();
    for (path, e, off) in enum_fields(p.ty, &v) {
        let ctl = genv::controls(p.ty, &v);
        if ctl.contains(&path) {
            continue;
        }
        for (c, m) in e.table {
            let old = genv::put(&mut x, &path, Leaf::Enum(e), &Val::U(*c));
            w.state(p.name, format!("{path:?}{c}").as_bytes());
            w.traces += 1;
            match enc(w, p, &hdr_pat(), &x) {
                Enc::Ok(b, _) if b.len() >= 12 + off + e.width && b[12 + off..12 + off + e.width] == be(*c, e.width)[..] => {}
                o => w.viol(format!("{}{}: {}::{m} encoded with another code", p.name, spec::strip_idx(&p.ty.path_name(&path)), e.name), || {
                    format!("should be {c} at offset {}: {}", 12 + off, o.show())
                }),
            }
            genv::put(&mut x, &path, Leaf::Enum(e), &old);
            if w.full() {
                return;
            }
        }
    }
}
pub fn c14(_sz: Sz) -> Plan {
    let mut items: Vec<Item> = enums().iter().map(|e| item(format!("enumeration {}", e.name), move |w| c14_enum(w, e))).collect();
    for p in pdus() {
        items.push(item(format!("members encoded in {}", p.name), move |w| c14_encode(w, p)));
    }
    let n: usize = enums().iter().map(|e| e.table.len()).sum();
    plan_of(
        items,
        "each state is one (enumeration, member); its code in the crate, the decoder's result for the code and the bytes written for it in every PDU field are compared with the reference table",
        vec![format!("all {n} members of all {} enumerations, all codes outside the tables for 8- and 16-bit ones, every enumeration field of every PDU", enums().len())],
    )
}

// ------------------------------------------------------------------ C20
macro_rules! flag_names {
    ($t:ty, $($n:ident),*) => { vec![ $( (stringify!($n), u64::from(<$t>::$n.bits())) ),* ] };
}
fn named(n: &str) -> Vec<(&'static str, u64)> {
    match n {
        "LandPlatformAppearance" => flag_names!(
            e::LandPlatformAppearance,
            PaintScheme,
            MobilityKilled,
            FirePowerKilled,
            Damage,
            IsSmokeEmanating,
            IsEngineEmittingSmoke,
            TrailingDustCloud,
            PrimaryHatch,
            HeadLightsOn,
            TailLightsOn,
            BrakeLightsOn,
            IsFlaming,
            LauncherOperational,
            CamouflageType,
            ConcealedPosition,
            IsFrozen,
            PowerPlantOn,
            State,
            TentExtended,
            RampExtended,
            BlackoutLightsOn,
            BlackoutBrakeLightsOn,
            SpotSearchLight1On,
            InteriorLightsOn,
            OccupantsSurrendered,
            MaskedCloaked
        ),
        "FrozenBehavior" => flag_names!(e::FrozenBehavior, RunSimulationClock, TransmitUpdates, ProcessUpdates),
        _ => flag_names!(e::ObjectStateAppearanceGeneral, PercentComplete, Damage, Predistributed, State, IsSmoking, IsFlaming, IEDPresent),
    }
}
/// spread the low bits of `k` over the set bits of `m`
fn spread(mut k: u64, m: u64) -> u64 {
    let (mut out, mut m) = (0, m);
    while m != 0 && k != 0 {
        let b = m & m.wrapping_neg();
        if k & 1 == 1 {
            out |= b;
        }
        k >>= 1;
        m &= m - 1;
    }
    out
}
fn c20_names(w: &mut W) {
    for f in &FLAGS {
        let got = named(f.name);
        for ((n, b), (n2, x)) in f.bits.iter().zip(&got).map(|((n, b), x)| ((*n, *b), *x)) {
            assert_eq!(n, n2, "engine: flag order");
            w.state(f.name, n.as_bytes());
            w.traces += 1;
            w.transitions += 1;
            if x != 1 << b {
                w.viol(format!("{}::{n}: wrong bit", f.name), || format!("{x:#x}, should be bit {b}"));
            }
        }
    }
    let d = (e::LandPlatformAppearance::default().bits(), e::FrozenBehavior::default().bits(), e::ObjectStateAppearanceGeneral::default().bits());
    if d != (0, 0, 0) {
        w.viol("default flags are not empty".into(), || format!("{d:?}"));
    }
}
fn c20_land(w: &mut W, part: u64, parts: u64, step: u64) {
    let m: u64 = flag_table("LandPlatformAppearance").bits.iter().map(|b| 1u64 << b.1).sum();
    let n = 1u64 << m.count_ones();
    let mut k = n / parts * part;
    let hi = n / parts * (part + 1);
    while k < hi {
        let end = (k + (1 << 16)).min(hi);
        let r = w.imp("land platform appearance", "subsets", &k.to_be_bytes(), || {
            for j in (k..end).step_by(step as usize) {
                let bits = spread(j, m) as u32;
                let f = e::LandPlatformAppearance::from_bits_retain(bits);
                if f.as_u32() != bits || e::LandPlatformAppearance::from_u32(bits) != Some(f) {
                    return Some((bits, f.as_u32(), e::LandPlatformAppearance::from_u32(bits).map(|f| f.bits())));
                }
            }
            None
        });
        w.traces += (end - k) / step;
        w.state("land", &k.to_be_bytes());
        match r {
            Ok(None) => {}
            r => {
                w.viol("LandPlatformAppearance: combination not preserved".into(), || format!("{r:x?}"));
                return;
            }
        }
        k = end;
    }
}
fn flag_codec<T: FieldSerialize + FieldDeserialize + FieldLen + Bind>(w: &mut W, name: &'static str, raw: fn(u64) -> (u64, Option<u64>)) {
    let t = flag_table(name);
    let m: u64 = t.bits.iter().map(|b| 1u64 << b.1).sum();
    for k in 0..1u64 << m.count_ones() {
        let bits = spread(k, m);
        let want = be(bits, t.width);
        w.state(name, &want);
        w.traces += 1;
        let r = w.imp("flag codec", name, &want, || {
            let f = T::build(&Val::U(bits));
            let mut b = BytesMut::new();
            f.serialize_field(&mut b);
            let mut x = b.to_vec();
            x.push(0xEE);
            let mut s = &x[..];
            let back = T::deserialize_field(&mut s).observe().u();
            let mut fb = FragBuf::bytewise(&x);
            let mut d: DynBuf = &mut fb;
            let back2 = T::deserialize_field(&mut d).observe().u();
            (b, f.field_len(), back, s.len(), back2, raw(bits))
        });
        match r {
            Ok((b, n, x, 1, y, z)) if b[..] == want[..] && n == t.width && x == bits && y == bits && z == (bits, Some(bits)) => {}
            r => w.viol(format!("{name}: combination not preserved"), || format!("{bits:#x}: {r:x?}")),
        }
        w.outcome(&format!("{name}{}", bits.count_ones()));
    }
}
fn c20_pdu(w: &mut W, p: &'static PduInfo, sz: Sz) {
    for seed in 0..sz.pick(3, 8) {
        for n in [1usize, 0, 2] {
            let Some(v) = base(p.ty, n, 70 + seed) else { continue };
            let fl: Vec<_> = genv::leaves(p.ty, &v)
                .into_iter()
                .filter_map(|(q, l)| match l {
                    Leaf::Flags(width, m) => Some((q, l, width, m)),
                    _ => None,
                })
                .collect();
            let sp = spec::spans(p.ty, &v);
            let mut x = v.clone();
            for (q, l, width, m) in fl {
                for k in 0..1u64 << m.count_ones().min(16) {
                    let bits = spread(k, m);
                    let old = genv::put(&mut x, &q, l, &Val::U(bits));
                    let want = packet(p.ty, &hdr_pat(), &x);
                    w.state(p.name, &want);
                    w.traces += 1;
                    let name = spec::strip_idx(&p.ty.path_name(&q));
                    match enc(w, p, &hdr_pat(), &x) {
                        Enc::Ok(b, _) => {
                            let off = 12 + sp.iter().find(|s| s.0 == q).expect("engine: span").1;
                            if b.get(off..off + width) != Some(&be(bits, width)[..]) {
                                w.viol(format!("{}{name}: flags encoded wrongly", p.name), || format!("{bits:#x} at offset {off} of {}", hex(&b)));
                            }
                            match dec(w, p, &b) {
                                drive::Out::Ok(_, v2, _) if v2.at(&q).u() == bits => {}
                                o => w.viol(format!("{}{name}: flags not preserved", p.name), || format!("{bits:#x} in {}: {}", hex(&b), o.show())),
                            }
                        }
                        o => w.viol(format!("{}{name}: not encoded", p.name), || o.show()),
                    }
                    genv::put(&mut x, &q, l, &old);
                    if w.full() {
                        return;
                    }
                }
            }
        }
    }
}
pub fn c20(sz: Sz) -> Plan {
    let mut items = vec![item("assigned bits", c20_names)];
    for k in 0..16 {
        items.push(item(format!("land platform appearance subsets {k}"), move |w| c20_land(w, k, 16, 1)));
    }
    items.push(item("frozen behaviour", |w| {
        flag_codec::<e::FrozenBehavior>(w, "FrozenBehavior", |b| {
            (u64::from(e::FrozenBehavior::from_bits_retain(b as u8).as_u8()), e::FrozenBehavior::from_u8(b as u8).map(|f| u64::from(f.bits())))
        });
    }));
    items.push(item("object state appearance", |w| {
        flag_codec::<e::ObjectStateAppearanceGeneral>(w, "ObjectStateAppearanceGeneral", |b| {
            (
                u64::from(e::ObjectStateAppearanceGeneral::from_bits_retain(b as u16).as_u16()),
                e::ObjectStateAppearanceGeneral::from_u16(b as u16).map(|f| u64::from(f.bits())),
            )
        });
    }));
    for p in pdus() {
        let v = genv::uniform(p.ty, 1, false);
        if genv::leaves(p.ty, &v).iter().any(|l| matches!(l.1, Leaf::Flags(..))) {
            items.push(item(format!("flags of {}", p.name), move |w| c20_pdu(w, p, sz)));
        }
    }
    plan_of(
        items,
        "each state is one combination of defined flags; its bits, its encoding at the declared width and the combination decoded from it are compared with the assigned bits",
        vec!["all 2^26 combinations of land platform flags, all 8 and all 128 of the others, alone and in every PDU that carries them".into()],
    )
}
