//! C05 robustness, C06 truncation, C07 types, C09 fragmentation, C10 history, C23 supplied header.
use crate::bind::{PduInfo, RecInfo, get_header, pdus, records, set_header};
use crate::checks::{Sz, plan_of};
use crate::drive::{self, Enc, Out, PEAK_LIMIT, Ref, base, dec, dec_body, dec_body_dyn, dec_dyn, enc, hdr_diff, hdr_pat, hdr0};
use crate::engine::{Item, Plan, W, hex, item};
use crate::fragbuf::FragBuf;
use crate::genv;
use crate::spec::{self, Hdr, packet};
use crate::val::Val;
use bytes::{Buf, Bytes, BytesMut};
use open_dis_rust::common::{GenericHeader, PduHeader};

type ByteCheck = fn(&mut W, &'static PduInfo, &[u8]);

// ------------------------------------------------------------------ fault space
/// values that count, length and tag fields are overwritten with
fn control_values(w: usize, thorough: bool) -> Vec<u64> {
    let m = genv::wmask(w);
    let mut v: Vec<u64> = vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255];
    if w == 1 || thorough {
        v.extend(0..256);
    }
    for k in [8u32, 9, 12, 13, 15, 16, 17, 24, 29, 31, 32, 33, 48, 60, 61, 63] {
        for d in [-9i64, -8, -7, -1, 0, 1, 7, 8] {
            v.push((1u64 << k).wrapping_add(d as u64));
        }
    }
    for k in 0..12 {
        v.push(m - k);
    }
    v.extend([m >> 1, (m >> 1) + 1, m - 63, m - 64, m / 3, m / 8, m / 8 + 1, m / 4, m / 16]);
    v.retain(|x| *x <= m);
    v.sort_unstable();
    v.dedup();
    v
}
fn put(b: &mut [u8], at: usize, w: usize, x: u64) {
    for k in 0..w {
        b[at + k] = (x >> (8 * (w - 1 - k))) as u8;
    }
}
/// (offset in the packet, width) of the count, length and tag fields of a value
fn control_spans(p: &PduInfo, v: &Val) -> Vec<(usize, usize)> {
    let ctl = genv::controls(p.ty, v);
    spec::spans(p.ty, v).into_iter().filter(|s| ctl.contains(&s.0)).map(|s| (s.1 + 12, s.2)).collect()
}

pub fn fault_items(sz: Sz, f: ByteCheck) -> Vec<Item> {
    let mut items = vec![];
    for p in pdus() {
        items.push(item(format!("{} truncated", p.name), move |w| {
            for b in drive::corpus(p, sz.thorough) {
                if b.len() > 2000 {
                    continue;
                }
                for n in 0..=b.len() {
                    f(w, p, &b[..n]);
                }
                if w.full() {
                    return;
                }
            }
        }));
        for n in 0..sz.pick(2, 4) {
            items.push(item(format!("{} corrupted bytes, lists of {n}", p.name), move |w| {
                let Some((_, b)) = drive::base_packet(p, n, 11) else {
                    return;
                };
                if b.len() > drive::LIMIT {
                    return;
                }
                let mut x = b.clone();
                for i in 0..b.len() {
                    for c in 0..=255u8 {
                        x[i] = c;
                        f(w, p, &x);
                    }
                    x[i] = b[i];
                    if w.full() {
                        return;
                    }
                }
            }));
        }
        items.push(item(format!("{} every field", p.name), move |w| {
            for n in 0..sz.pick(2, 3) {
                let Some(v) = base(p.ty, n, 14) else { continue };
                let h = hdr_pat();
                let mut go = |v: &Val| {
                    let b = packet(p.ty, &h, v);
                    if b.len() <= drive::LIMIT {
                        f(w, p, &b);
                    }
                    !w.full()
                };
                drive::singles(p.ty, &v, genv::Depth::Quick, false, &mut go);
                drive::pairs(p.ty, &v, genv::Depth::Tiny, false, (0, 1), &mut go);
                drive::hot(p.ty, &v, sz.pick(8_000, 60_000), sz.pick(100, 1000), false, (0, 1), &mut go);
            }
        }));
        items.push(item(format!("{} truncated, any field", p.name), move |w| {
            for n in 0..sz.pick(1, 3) {
                drive::value_packets(p, n, &mut |b| {
                    for k in 12..b.len().min(sz.pick(160, 800)) {
                        f(w, p, &b[..k]);
                    }
                    f(w, p, &b[..b.len() - 1]);
                    !w.full()
                });
            }
        }));
        items.push(item(format!("{} corrupted byte pairs", p.name), move |w| {
            let Some((_, b)) = drive::base_packet(p, 1, 12) else {
                return;
            };
            let mut x = b.clone();
            let al: &[u8] = sz.pick(&[0, 1, 0x7F, 0x80, 0xFF], &[0, 1, 2, 3, 7, 8, 9, 16, 0x40, 0x7F, 0x80, 0xFE, 0xFF]);
            for i in 12..b.len().saturating_sub(1) {
                for c in al {
                    for d in al {
                        x[i] = *c;
                        x[i + 1] = *d;
                        f(w, p, &x);
                    }
                }
                x[i] = b[i];
                x[i + 1] = b[i + 1];
                if w.full() {
                    return;
                }
            }
        }));
        for n in 0..sz.pick(3, 4) {
            for k in 0..5 {
                items.push(item(format!("{} counts and lengths overwritten, lists of {n}, tail {k}", p.name), move |w| {
                    counts(w, p, sz, f, n, k)
                }));
            }
        }
        items.push(item(format!("{} constant bodies", p.name), move |w| {
            let mut h = vec![];
            Hdr { typ: p.typ, family: p.family, ..hdr_pat() }.enc(&mut h);
            for c in sz.pick(vec![0u8, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 64, 0x7F, 0x80, 0xFE, 0xFF], (0..=255).collect()) {
                for n in 0..sz.pick(300, 700) {
                    let mut x = h.clone();
                    x.resize(12 + n, c);
                    f(w, p, &x);
                }
                for n in [1460usize, 8180, 8192, 65_507, 65_536, 140_000] {
                    let mut x = h.clone();
                    x.resize(12 + n, c);
                    f(w, p, &x);
                }
                if w.full() {
                    return;
                }
            }
            // two constants
            for c in [0u8, 1, 8, 0xFF] {
                for d in [0u8, 1, 8, 0xFF] {
                    for n in 0..sz.pick(80, 200) {
                        let mut x = h.clone();
                        x.resize(12 + n, c);
                        x.resize(12 + n + 120, d);
                        f(w, p, &x);
                    }
                }
            }
        }));
        items.push(item(format!("{} two-byte bodies and short headers", p.name), move |w| {
            let mut h = vec![];
            Hdr { typ: p.typ, family: p.family, ..hdr_pat() }.enc(&mut h);
            for n in 0..12 {
                f(w, p, &h[..n]);
            }
            for c in 0..=255u8 {
                for n in 0..40 {
                    f(w, p, &vec![c; n]);
                }
                for d in 0..=255u8 {
                    let mut x = h.clone();
                    x.extend([c, d]);
                    f(w, p, &x);
                    if sz.thorough {
                        x.resize(12 + 64, d);
                        f(w, p, &x);
                    }
                }
            }
        }));
    }
    items
}
fn counts(w: &mut W, p: &'static PduInfo, sz: Sz, f: ByteCheck, n: usize, k: usize) {
    {
        let Some((v, b)) = drive::base_packet(p, n, 13) else {
            return;
        };
        if b.len() > drive::LIMIT {
            return;
        }
        let sp = control_spans(p, &v);
        // packet as it is, cut short, and followed by much more data
        {
            let tail = [(0usize, 0usize), (0, 64), (0, 9000), (0, 70_000), (5, 0)][k];
            let mut x = b.clone();
            let keep = x.len().saturating_sub(tail.0).max(12);
            x.truncate(keep);
            x.extend((0..tail.1).map(|i| (i * 7 + k) as u8));
            let big = tail.1 > 5000;
            for (i, s) in sp.iter().enumerate() {
                if s.0 + s.1 > x.len() {
                    continue;
                }
                let old = x[s.0..s.0 + s.1].to_vec();
                let vals = if big {
                    vec![
                        0,
                        1,
                        255,
                        256,
                        1000,
                        8191,
                        8192,
                        65_535,
                        65_536,
                        genv::wmask(s.1) >> 1,
                        (genv::wmask(s.1) >> 1) + 1,
                        genv::wmask(s.1),
                    ]
                } else {
                    control_values(s.1, sz.thorough)
                };
                for a in vals {
                    if a > genv::wmask(s.1) {
                        continue;
                    }
                    put(&mut x, s.0, s.1, a);
                    f(w, p, &x);
                    if big {
                        continue;
                    }
                    for t in &sp[i + 1..] {
                        if t.0 + t.1 > x.len() {
                            continue;
                        }
                        let old2 = x[t.0..t.0 + t.1].to_vec();
                        for c in [
                            0,
                            1,
                            2,
                            8,
                            64,
                            255,
                            65_535,
                            genv::wmask(t.1) >> 1,
                            (genv::wmask(t.1) >> 1) + 1,
                            genv::wmask(t.1) - 7,
                            genv::wmask(t.1),
                        ] {
                            if c <= genv::wmask(t.1) {
                                put(&mut x, t.0, t.1, c);
                                f(w, p, &x);
                            }
                        }
                        x[t.0..t.0 + t.1].copy_from_slice(&old2);
                    }
                }
                x[s.0..s.0 + s.1].copy_from_slice(&old);
                if w.full() {
                    return;
                }
            }
        }
    }
}
fn fault_bounds(sz: Sz) -> Vec<String> {
    vec![
        format!("every cut of every corpus packet (lists of 0..{} elements) of each of the 66 types", sz.pick(1, 2)),
        "packets with each field at every code, small number and number that conditions mention, at every cut".into(),
        format!("every byte of packets with lists of 0..{} elements at all 256 values; every adjacent byte pair over a {}-value alphabet", sz.pick(1, 3), sz.pick(5, 13)),
        "count, length and tag fields singly over boundary values and in pairs, with the packet cut, whole, or followed by 64, 9000 or 70000 bytes".into(),
        format!("constant bodies of 0..{} bytes and of up to 140000 bytes, two-part bodies, all two-byte bodies, all short headers", sz.pick(300, 700)),
    ]
}

// ------------------------------------------------------------------ C05
fn c05_one(w: &mut W, p: &'static PduInfo, b: &[u8]) {
    if !w.state(p.name, b) {
        return;
    }
    w.traces += 1;
    let o = dec(w, p, b);
    safe(w, p, b, &o, "deserialize");
    if b.len() >= 12 {
        let o = dec_body(w, p, b);
        safe(w, p, b, &o, "deserialize_without_header");
    }
    w.outcome(o.class());
    w.sample(|| format!("{} -> {}", hex(&b[..b.len().min(120)]), o.class()));
}
fn safe(w: &mut W, p: &PduInfo, b: &[u8], o: &Out, op: &str) {
    if let Out::Panic(e) = o {
        w.viol(format!("{}: {op} panics", p.name), || format!("input of {} bytes {}: {e}", b.len(), hex(b)));
    }
    let peak = w.peak;
    if peak > PEAK_LIMIT + 64 * b.len() {
        w.viol(format!("{}: {op} uses memory out of proportion", p.name), || {
            format!("input of {} bytes {}: {peak} bytes live", b.len(), hex(b))
        });
    }
}
fn c05_dyn(w: &mut W, p: &'static PduInfo, b: &[u8]) {
    let mut f = FragBuf::bytewise(b);
    let o = dec_dyn(w, p, b, &mut f);
    safe(w, p, b, &o, "deserialize from segments");
    w.traces += 1;
}
pub fn c05(sz: Sz) -> Plan {
    let mut items = fault_items(sz, c05_one);
    for p in pdus() {
        for (n, k) in (0..15).map(|i| (i / 5, i % 5)) {
            items.push(item(format!("{} counts overwritten, fragmented input, lists of {n}, tail {k}", p.name), move |w| {
                counts(w, p, Sz { thorough: false, deep: false }, c05_dyn, n, k);
            }));
        }
        items.push(item(format!("{} with another type's packet", p.name), move |w| {
            for q in pdus() {
                for n in 0..3 {
                    if let Some((_, mut b)) = drive::base_packet(q, n, 3) {
                        c05_one(w, p, &b);
                        // the foreign body under this type's code
                        b[2] = p.typ;
                        c05_one(w, p, &b);
                        b.truncate(b.len() * 2 / 3);
                        c05_one(w, p, &b);
                    }
                }
            }
        }));
    }
    plan_of(
        items,
        "each state is one input byte string; the transition is one decode call, run under a panic guard, a counting allocator (limit 16 MB live plus 64 bytes per input byte) and a CPU-time watchdog (5 s)",
        fault_bounds(sz),
    )
}

// ------------------------------------------------------------------ C06
fn c06_one(w: &mut W, p: &'static PduInfo, b: &[u8]) {
    if !w.state(p.name, b) {
        return;
    }
    let r = drive::ref_dec(p, b);
    if matches!(r, Ref::BadType) {
        return;
    }
    w.traces += 1;
    let judge = |w: &mut W, o: &Out, op: &str| {
        let bad = match (&r, o) {
            (Ref::Short, Out::Under(a, c)) => (a <= c).then_some("underflow reported without a shortfall"),
            (Ref::Short, _) => Some("truncated packet not reported as underflow"),
            (_, Out::Under(..)) => Some("complete packet reported as underflow"),
            _ => None,
        };
        if let Some(s) = bad {
            w.viol(format!("{}: {s} by {op}", p.name), || {
                format!("input of {} bytes {}: {}, but by its own counts {}", b.len(), hex(b), o.show(), r.show())
            });
        }
    };
    let o = dec(w, p, b);
    judge(w, &o, "deserialize");
    if b.len() >= 12 {
        let o = dec_body(w, p, b);
        judge(w, &o, "deserialize_without_header");
    }
    w.outcome(o.class());
    w.sample(|| format!("{} -> {}", hex(&b[..b.len().min(120)]), o.class()));
}
fn c06_dyn(w: &mut W, p: &'static PduInfo, b: &[u8]) {
    let r = drive::ref_dec(p, b);
    if matches!(r, Ref::BadType) {
        return;
    }
    w.traces += 1;
    let mut f = FragBuf::bytewise(b);
    let o = dec_dyn(w, p, b, &mut f);
    let ok = match (&r, &o) {
        (Ref::Short, Out::Under(a, c)) => a > c,
        (Ref::Short, _) | (_, Out::Under(..)) => false,
        _ => true,
    };
    if !ok {
        w.viol(format!("{}: truncation misreported on fragmented input", p.name), || {
            format!("input of {} bytes {}: {}, but by its own counts {}", b.len(), hex(b), o.show(), r.show())
        });
    }
}
pub fn c06(sz: Sz) -> Plan {
    let mut items = fault_items(sz, c06_one);
    for p in pdus() {
        items.push(item(format!("{} truncated, fragmented input", p.name), move |w| {
            for n in 0..3 {
                if let Some((_, b)) = drive::base_packet(p, n, 4) {
                    for k in 0..=b.len() {
                        c06_dyn(w, p, &b[..k]);
                    }
                }
            }
        }));
        // long packets: every list near the limit, cut around every field boundary
        items.push(item(format!("{} long lists truncated", p.name), move |w| {
            let proto = genv::uniform(p.ty, 1, false);
            for (path, t) in drive::lists(p.ty, &proto) {
                for n in [3usize, 10, 40, 255, 256, 300, 1000] {
                    let mut v = proto.clone();
                    drive::set_len(&mut v, &path, t, n);
                    genv::fill(p.ty, &mut v, genv::Mode::Pattern(5));
                    if !genv::fix(p.ty, &mut v, 0) {
                        continue;
                    }
                    let b = packet(p.ty, &hdr_pat(), &v);
                    if b.len() > drive::LIMIT {
                        break;
                    }
                    let l = b.len();
                    for k in [l, l - 1, l - 2, l - 3, l - 4, l - 8, l / 2, l / 3] {
                        c06_one(w, p, &b[..k]);
                    }
                }
            }
        }));
    }
    plan_of(
        items,
        "each state is one input byte string; the reference decoder says whether the packet's own counts need more bytes than there are, and the crate must report an underflow (with more wanted than available) exactly then",
        fault_bounds(sz),
    )
}

// ------------------------------------------------------------------ C07
fn c07_pdu(w: &mut W, p: &'static PduInfo, sz: Sz) {
    let pt = crate::bind::enum_by_name("PduType");
    let bodies: Vec<Vec<u8>> = (0..3).filter_map(|n| drive::base_packet(p, n, 21)).map(|x| x.1).collect();
    let judge = |w: &mut W, b: &[u8], o: &Out, own: bool, op: &str| {
        let ok = match o {
            Out::Ok(h, ..) => own && h.typ == p.typ,
            Out::Header(_) => !own,
            _ => false,
        };
        if !ok {
            w.viol(format!("{}: {op} of a packet of {} type", p.name, if own { "its own" } else { "another" }), || {
                format!("input {}: {}", hex(b), o.show())
            });
        }
    };
    for b in &bodies {
        let mut x = b.clone();
        for c in 0..=255u8 {
            x[2] = c;
            for fam in sz.pick(vec![x[3], 0, 1, 255], (0..=255).collect()) {
                x[3] = fam;
                if !w.state(p.name, &x) {
                    continue;
                }
                w.traces += 1;
                let o = dec(w, p, &x);
                judge(w, &x, &o, c == p.typ, "deserialize");
                let o = dec_body(w, p, &x);
                judge(w, &x, &o, c == p.typ, "deserialize_without_header");
            }
            x[3] = b[3];
            if w.full() {
                return;
            }
        }
        // another type's code on a packet cut anywhere: still its type that is wrong
        for c in pt.codes.iter().filter(|c| **c != u64::from(p.typ)).step_by(sz.pick(9, 1)) {
            x[2] = *c as u8;
            for n in [12, 13, b.len() - 1] {
                if n > b.len() || n < 12 {
                    continue;
                }
                w.traces += 1;
                let o = dec(w, p, &x[..n]);
                judge(w, &x[..n], &o, false, "deserialize of a cut packet");
            }
        }
    }
    // real packets of every other type
    for q in pdus() {
        for n in 0..2 {
            let Some((_, b)) = drive::base_packet(q, n, 22) else {
                continue;
            };
            w.state(p.name, &b);
            w.traces += 1;
            let own = q.typ == p.typ;
            let o = dec(w, p, &b);
            judge(w, &b, &o, own, "deserialize");
            let o = dec_body(w, p, &b);
            judge(w, &b, &o, own, "deserialize_without_header");
            let mut f = FragBuf::bytewise(&b);
            let o = dec_body_dyn(w, p, &b, &mut f);
            judge(w, &b, &o, own, "deserialize_without_header from segments");
            if own {
                w.outcome(p.name);
            }
        }
    }
}
fn c07_enc(w: &mut W, p: &'static PduInfo, sz: Sz) {
    let pt = crate::bind::enum_by_name("PduType");
    let pf = crate::bind::enum_by_name("ProtocolFamily");
    for n in 0..sz.pick(2, 3) {
        let Some(v) = base(p.ty, n, 23) else { continue };
        for t in &pt.codes {
            for f in &pf.codes {
                let h = Hdr { typ: *t as u8, family: *f as u8, ..hdr_pat() };
                w.state(p.name, &[n as u8, h.typ, h.family]);
                w.traces += 1;
                match enc(w, p, &h, &v) {
                    Enc::Ok(b, h2) if b[2] == p.typ && b[3] == p.family && h2.typ == p.typ && h2.family == p.family => {}
                    o => w.viol(format!("{}: not encoded with its own type and family", p.name), || {
                        format!(
                            "header left with type {t} family {f}: {}, should have type {} family {}",
                            o.show(),
                            p.typ,
                            p.family
                        )
                    }),
                }
            }
        }
        if w.full() {
            return;
        }
    }
}
pub fn c07(sz: Sz) -> Plan {
    let mut items = vec![];
    for p in pdus() {
        items.push(item(format!("{} decoding type codes", p.name), move |w| c07_pdu(w, p, sz)));
        items.push(item(format!("{} encoding stale types", p.name), move |w| c07_enc(w, p, sz)));
    }
    plan_of(
        items,
        "each state is a packet with one (type code, family code) combination, or a PDU object whose header was left with one; the outcome of both decode entries and the codes written are compared with the assigned ones",
        vec![
            "all 256 type codes for each of the 66 types, 66x66 real packets of the other types, both entry points, whole and segmented".into(),
            "all known type codes by all known families left in the header before serialize".into(),
        ],
    )
}

// ------------------------------------------------------------------ C09
fn c09_one(w: &mut W, p: &'static PduInfo, b: &[u8], pair_limit: usize) {
    let want = dec(w, p, b);
    let cmp = |w: &mut W, o: &Out, cuts: &str| {
        w.traces += 1;
        if *o != want {
            w.viol(format!("{}: result depends on fragmentation", p.name), || {
                format!("input of {} bytes {} with segments {cuts}: {}, contiguous: {}", b.len(), hex(b), o.show(), want.show())
            });
        }
    };
    let id = |cuts: &[usize]| {
        let mut x = b.to_vec();
        for c in cuts {
            x.extend((*c as u32).to_be_bytes());
        }
        x
    };
    for i in 0..=b.len() {
        w.state(p.name, &id(&[i]));
        let o = drive::dec_frag(w, p, b, &[i]);
        cmp(w, &o, &format!("cut at {i}"));
    }
    if b.len() <= pair_limit {
        for i in 1..b.len() {
            for j in i + 1..b.len() {
                w.state(p.name, &id(&[i, j]));
                let o = drive::dec_frag(w, p, b, &[i, j]);
                cmp(w, &o, &format!("cut at {i} and {j}"));
            }
            if w.full() {
                return;
            }
        }
    }
    let mut f = FragBuf::bytewise(b);
    let o = dec_dyn(w, p, b, &mut f);
    cmp(w, &o, "of one byte");
    // regular strides
    for s in [2usize, 3, 4, 5, 7, 8, 11, 12, 16, 64] {
        for off in 0..s.min(8) {
            let cuts: Vec<usize> = (off..b.len()).step_by(s).collect();
            w.state(p.name, &id(&cuts));
            let o = drive::dec_frag(w, p, b, &cuts);
            cmp(w, &o, &format!("of {s} bytes from {off}"));
        }
    }
    // the buffers people use
    for i in (0..=b.len()).step_by((b.len() / 24).max(1)) {
        let mut ch = (&b[..i]).chain(&b[i..]);
        let o = dec_dyn(w, p, b, &mut ch);
        cmp(w, &o, &format!("chained at {i}"));
        let mut ch = Bytes::copy_from_slice(&b[..i]).chain(Bytes::copy_from_slice(&b[i..]).chain(Bytes::new()));
        let o = dec_dyn(w, p, b, &mut ch);
        cmp(w, &o, &format!("chained Bytes at {i}"));
        let mut d: std::collections::VecDeque<u8> = std::collections::VecDeque::with_capacity(b.len() + 1);
        d.extend(&b[i..]);
        for c in b[..i].iter().rev() {
            d.push_front(*c);
        }
        let o = dec_dyn(w, p, b, &mut d);
        cmp(w, &o, &format!("ring buffer wrapped at {i}"));
    }
    let mut cur = std::io::Cursor::new(b);
    let o = dec_dyn(w, p, b, &mut cur);
    cmp(w, &o, "in a cursor");
    let mut bm = BytesMut::from(b);
    let o = dec_dyn(w, p, b, &mut bm);
    cmp(w, &o, "in a BytesMut");
    w.outcome(want.class());
    w.sample(|| format!("{} -> {}", hex(&b[..b.len().min(100)]), want.class()));
}
fn c09_body(w: &mut W, p: &'static PduInfo, b: &[u8]) {
    let want = dec_body(w, p, b);
    for i in 0..=b.len() {
        let cuts = [i];
        let mut f = FragBuf::new(b, &cuts);
        let o = dec_body_dyn(w, p, b, &mut f);
        w.traces += 1;
        if o != want {
            w.viol(format!("{}: result with a supplied header depends on fragmentation", p.name), || {
                format!("input {} cut at {i}: {}, contiguous: {}", hex(b), o.show(), want.show())
            });
            return;
        }
    }
}
pub fn c09(sz: Sz) -> Plan {
    let mut items = vec![];
    for p in pdus() {
        for n in 0..sz.pick(3, 4) {
            items.push(item(format!("{} fragmented, lists of {n}", p.name), move |w| {
                let Some((_, b)) = drive::base_packet(p, n, 31) else {
                    return;
                };
                if b.len() > drive::LIMIT {
                    return;
                }
                c09_one(w, p, &b, sz.pick3(220, 700, 3000));
                c09_body(w, p, &b);
                // with bytes of another packet behind, and truncated
                let mut x = b.clone();
                x.extend([0x11; 9]);
                c09_one(w, p, &x, 0);
                for k in (12..b.len()).step_by(sz.pick((b.len() / 6).max(1), 1)) {
                    c09_one(w, p, &b[..k], sz.pick3(0, 60, 200));
                }
            }));
        }
        items.push(item(format!("{} corpus fragmented", p.name), move |w| {
            let c = drive::corpus(p, sz.thorough);
            for b in c.iter().take(sz.pick(40, 600)) {
                if b.len() < 1500 {
                    c09_one(w, p, b, 0);
                }
                if w.full() {
                    return;
                }
            }
        }));
        for n in 0..2 {
            items.push(item(format!("{} with any field, lists of {n}, fragmented", p.name), move |w| {
                drive::value_packets(p, n, &mut |b| {
                    let want = dec(w, p, b);
                    let run = |w: &mut W, cuts: &[usize]| {
                        w.traces += 1;
                        let o = drive::dec_frag(w, p, b, cuts);
                        if o != want {
                            w.viol(format!("{}: result depends on fragmentation", p.name), || {
                                format!("input of {} bytes {} with segments {cuts:?}: {}, contiguous: {}", b.len(), hex(b), o.show(), want.show())
                            });
                        }
                    };
                    w.state(p.name, b);
                    for s in [1usize, 2, 3, 5, 8] {
                        for phase in 0..s.min(4) {
                            run(w, &(1..b.len()).filter(|i| i % s == phase).collect::<Vec<_>>());
                        }
                    }
                    for i in 12..b.len().min(sz.pick(100, 600)) {
                        run(w, &[i]);
                    }
                    !w.full()
                });
            }));
        }
        items.push(item(format!("{} large, fragmented", p.name), move |w| {
            let proto = genv::uniform(p.ty, 1, false);
            for (path, t) in drive::lists(p.ty, &proto) {
                let mut v = proto.clone();
                drive::set_len(&mut v, &path, t, 60);
                genv::fill(p.ty, &mut v, genv::Mode::Pattern(5));
                if !genv::fix(p.ty, &mut v, 0) {
                    continue;
                }
                let b = packet(p.ty, &hdr_pat(), &v);
                if b.len() <= drive::LIMIT {
                    c09_one(w, p, &b, 0);
                }
            }
        }));
    }
    plan_of(
        items,
        "each state is a packet and one division of it into segments; value, header, consumed bytes or error are compared with decoding the contiguous bytes",
        vec![
            format!("every single cut of every packet used, every pair of cuts of packets up to {} bytes, single bytes, strides of 2..64 at every phase", sz.pick3(220, 700, 3000)),
            "each field at every code, small number and number that conditions mention: strides of 1, 2, 3, 5 and 8, single cuts".into(),
            "chained slices, chained Bytes, wrapped ring buffers, Cursor, BytesMut; also truncated packets and packets followed by more bytes".into(),
        ],
    )
}

// ------------------------------------------------------------------ C10
const OPS: [&str; 12] = [
    "assign A",
    "assign B",
    "assign oversize",
    "tamper header",
    "other header",
    "finalize",
    "calculate length",
    "serialize",
    "serialize into the same buffer",
    "replace by decoded A",
    "serialize another type",
    "fail decoding and encoding elsewhere",
];
struct Hist {
    p: &'static PduInfo,
    a: Val,
    b: Val,
    big: Option<Val>,
    pa: Vec<u8>,
    other: &'static PduInfo,
    ov: Val,
    obig: Option<Val>,
}
pub fn oversize(p: &'static PduInfo) -> Option<Val> {
    let proto = genv::uniform(p.ty, 1, true);
    for (path, t) in drive::lists(p.ty, &proto) {
        if path.len() > 1 || matches!(t, spec::Ty::OptBytes(_)) {
            continue;
        }
        // the smallest number of elements that is too much
        let mut v = proto.clone();
        let mut size = |n: usize| {
            drive::set_len(&mut v, &path, t, n);
            packet(p.ty, &hdr0(), &v).len()
        };
        let (s0, el) = (size(0), (size(8) - size(0)) / 8);
        if el == 0 {
            continue;
        }
        let n = (drive::LIMIT - s0) / el + 1;
        if size(n) > drive::LIMIT {
            return Some(v);
        }
    }
    None
}
/// runs one history against the object and the model; what disagreed, if anything
fn run_hist(h: &Hist, seq: &[usize]) -> Result<(), (usize, String)> {
    let t1 = hdr_pat();
    let t2 = Hdr { version: 7, exercise: 3, typ: 2, family: 1, timestamp: 77, length: 1, status: 0x80 };
    let mut o = (h.p.default)();
    set_header(o.header_mut(), &hdr0());
    o.assign(&h.a);
    let mut v = &h.a;
    let mut hdr = hdr0();
    let mut same = BytesMut::new();
    let mut expect_same: Vec<u8> = vec![];
    let fits = |v: &Val| h.big.as_ref().is_none_or(|b| !std::ptr::eq(b, v));
    let keep = |a: &Hdr, b: &Hdr| {
        a.version == b.version && a.exercise == b.exercise && a.timestamp == b.timestamp && a.status == b.status
    };
    let mut dirty = true;
    let mut prev: Option<Vec<u8>> = None;
    for (k, op) in seq.iter().enumerate() {
        let bad = |s: String| Err((k, s));
        let was = dirty;
        dirty = true;
        match op {
            0 => {
                o.assign(&h.a);
                v = &h.a;
            }
            1 => {
                o.assign(&h.b);
                v = &h.b;
            }
            2 => {
                if let Some(b) = &h.big {
                    o.assign(b);
                    v = b;
                }
            }
            3 => {
                set_header(o.header_mut(), &t1);
                hdr = t1;
            }
            4 => {
                set_header(o.header_mut(), &t2);
                hdr = t2;
            }
            5 => {
                o.finalize();
                let g = get_header(o.header());
                if !keep(&g, &hdr) {
                    return bad(format!("finalize changed the header to {g:?} from {hdr:?}"));
                }
                hdr = g;
                dirty = was;
            }
            6 => {
                let c = o.calc();
                let n = if fits(v) { packet(h.p.ty, &hdr0(), v).len() } else { 0 };
                if fits(v) && c.as_ref().ok() != Some(&(n as u16)) {
                    return bad(format!("length calculated as {c:?}, should be {n}"));
                }
                if !fits(v) && c.is_ok() {
                    return bad(format!("length of an oversize PDU calculated as {c:?}"));
                }
                dirty = was;
            }
            7 | 8 => {
                let want = if fits(v) { packet(h.p.ty, &hdr, v) } else { vec![] };
                let mut fresh = BytesMut::new();
                let (r, got) = if *op == 7 {
                    let r = o.serialize(&mut fresh);
                    (r, &fresh)
                } else {
                    let r = o.serialize(&mut same);
                    (r, &same)
                };
                let g = get_header(o.header());
                if !keep(&g, &hdr) {
                    return bad(format!("serialize changed the header to {g:?} from {hdr:?}"));
                }
                if fits(v) {
                    if let Err(e) = r {
                        return bad(format!("serialize fails: {e}"));
                    }
                    if *op == 8 {
                        expect_same.extend(&want);
                    }
                    let w: &[u8] = if *op == 7 { &want } else { &expect_same };
                    if got[..] != *w {
                        return bad(format!("serialize gives {}, should be {}", hex(got), hex(w)));
                    }
                    if !was {
                        if let Some(p) = &prev {
                            if p[..] != want[..] {
                                return bad("model: repeated serialize".into());
                            }
                        }
                    }
                    prev = Some(want);
                    dirty = false;
                    if !v.matches(&o.observe()) {
                        return bad("serialize changed the PDU's fields".into());
                    }
                } else {
                    let w: &[u8] = if *op == 7 { &[] } else { &expect_same };
                    if r.is_ok() || got[..] != *w {
                        return bad("oversize PDU serialized".into());
                    }
                }
                hdr = g;
            }
            9 => {
                let mut s: &[u8] = &h.pa;
                match (h.p.dec_slice)(&mut s) {
                    Ok(d) => {
                        if !h.a.matches(&d.observe()) {
                            return bad("decode gives a different PDU after this history".into());
                        }
                        o = d;
                        v = &h.a;
                        hdr = get_header(o.header());
                        let mut want = vec![];
                        want.extend(&h.pa[..12]);
                        if let Some(f) = hdr_diff(&drive::ref_hdr(&want), &hdr) {
                            return bad(format!("decode gives header {f} {hdr:?} after this history"));
                        }
                    }
                    Err(e) => return bad(format!("decode fails after this history: {e}")),
                }
            }
            10 => {
                let mut q = h.other.make(&t2, &h.ov);
                let mut b = BytesMut::new();
                let want = packet(h.other.ty, &t2, &h.ov);
                if q.serialize(&mut b).is_err() || b[..] != want[..] {
                    return bad(format!("{} encodes differently after this history", h.other.name));
                }
                let mut s: &[u8] = &want;
                match (h.other.dec_slice)(&mut s) {
                    Ok(d) if h.ov.matches(&d.observe()) => {}
                    _ => {
                        return bad(format!("{} decodes differently after this history", h.other.name));
                    }
                }
                dirty = was;
            }
            _ => {
                let mut s: &[u8] = &h.pa[..h.pa.len() - 1];
                if (h.p.dec_slice)(&mut s).is_ok() && h.pa.len() > 12 {
                    return bad("truncated packet decoded".into());
                }
                let mut s: &[u8] = &h.pa;
                if h.other.typ != h.p.typ && (h.other.dec_slice)(&mut s).is_ok() {
                    return bad("foreign packet decoded".into());
                }
                if let Some(b) = &h.obig {
                    let mut q = h.other.make(&t1, b);
                    let mut out = BytesMut::new();
                    if q.serialize(&mut out).is_ok() || !out.is_empty() {
                        return bad("oversize PDU of another type serialized".into());
                    }
                }
                dirty = was;
            }
        }
    }
    if let Some(d) = drive::fresh_changed(h.p) {
        return Err((seq.len() - 1, d));
    }
    Ok(())
}
fn c10_hist(w: &mut W, p: &'static PduInfo, depth: usize, first: Option<usize>) {
    let Some((a, pa)) = drive::base_packet(p, 1, 41) else {
        return;
    };
    let b = [2usize, 0, 1].iter().find_map(|n| base(p.ty, *n, 42)).expect("engine: value");
    // a partner with lists, of another type
    let other = pdus()
        .iter()
        .find(|q| q.typ != p.typ && q.name == "ElectromagneticEmissionPdu")
        .or_else(|| pdus().iter().find(|q| q.typ != p.typ))
        .unwrap();
    let h =
        Hist { p, a, b, big: oversize(p), pa, other, ov: base(other.ty, 1, 43).expect("engine: value"), obig: oversize(other) };
    let n = OPS.len();
    let mut seq = vec![0usize; depth];
    if let Some(f) = first {
        seq[depth - 1] = f;
    }
    let lim = if first.is_some() { depth - 1 } else { depth };
    loop {
        // sequences that end without an observation say nothing new
        let last = seq[0];
        let useless = last <= 5
            || (h.big.is_none() && seq.contains(&2))
            || (h.big.is_some() && seq.iter().filter(|x| **x == 2).count() > 1);
        if !useless {
            // the fastest-moving digit is the last operation
            let s: Vec<usize> = seq.iter().rev().copied().collect();
            let id: Vec<u8> = s.iter().map(|x| *x as u8).collect();
            let r = w.imp("operation history", p.name, &id, || run_hist(&h, &s));
            w.traces += 1;
            w.state(p.name, &id);
            let names = || s.iter().map(|x| OPS[*x]).collect::<Vec<_>>().join(", ");
            match r {
                Ok(Ok(())) => {}
                Ok(Err((k, e))) => {
                    let at = OPS[s[k]];
                    w.viol(format!("{}: wrong {at} after some history", p.name), || format!("after {} (step {k}): {e}", names()));
                }
                Err(e) => w.viol(format!("{}: panic in a history", p.name), || format!("{}: {e}", names())),
            }
            if w.full() {
                return;
            }
        }
        let mut i = 0;
        while i < lim {
            seq[i] += 1;
            if seq[i] < n {
                break;
            }
            seq[i] = 0;
            i += 1;
        }
        if i == lim {
            return;
        }
    }
}
fn c10_cross(w: &mut W, p: &'static PduInfo) {
    let (Some(v), Some(v0)) = (base(p.ty, 1, 44), base(p.ty, 0, 45)) else {
        return;
    };
    let h = hdr_pat();
    let want = packet(p.ty, &h, &v);
    for q in pdus() {
        for n in 0..3 {
            let Some((qv, qb)) = drive::base_packet(q, n, 46) else {
                continue;
            };
            if qb.len() > drive::LIMIT {
                continue;
            }
            w.state(p.name, &qb);
            w.traces += 1;
            let r = w.imp("interleaved with another PDU", q.name, &want, || {
                let mut a = p.make(&h, &v);
                let mut b = q.make(&hdr_pat(), &qv);
                let mut z = p.make(&h, &v0);
                let (mut x, mut y, mut x2, mut y2, mut junk) =
                    (BytesMut::new(), BytesMut::new(), BytesMut::new(), BytesMut::new(), BytesMut::new());
                let mut ok = a.serialize(&mut x).is_ok();
                ok &= b.serialize(&mut y).is_ok();
                let mut s: &[u8] = &qb;
                let d = (q.dec_slice)(&mut s).map(|d| d.observe()).ok();
                ok &= z.serialize(&mut junk).is_ok();
                ok &= a.serialize(&mut x2).is_ok();
                ok &= b.serialize(&mut y2).is_ok();
                let mut s: &[u8] = &x2;
                let e = (p.dec_slice)(&mut s).map(|d| d.observe()).ok();
                (ok, x, y, x2, y2, d, e)
            });
            let good = matches!(&r, Ok((true, x, y, x2, y2, Some(d), Some(e)))
                if x[..] == want[..] && x2[..] == want[..] && y[..] == qb[..] && y2[..] == qb[..] && qv.matches(d) && v.matches(e));
            for x in [p, q] {
                if let Ok(Some(d)) = w.imp("creation after other operations", x.name, &want, || drive::fresh_changed(x)) {
                    w.viol(format!("{}: created differently after other operations", x.name), || d);
                }
            }
            if !good {
                w.viol(format!("{}: affected by operations on {}", p.name, q.name), || {
                    format!("{r:?}; should be {} and {}", hex(&want), hex(&qb))
                });
                if w.full() {
                    return;
                }
            }
        }
    }
}
/// the same operations many times over: counters, caches and pools must not show
fn c10_long(w: &mut W, p: &'static PduInfo, n: usize) {
    let vals: Vec<Val> = (0..3).filter_map(|k| base(p.ty, k, 47 + k as u64)).collect();
    let h = hdr_pat();
    let wants: Vec<Vec<u8>> = vals.iter().map(|v| packet(p.ty, &h, v)).collect();
    let block = 256;
    for start in (0..n).step_by(block) {
        let r = w.imp("long run", p.name, &start.to_be_bytes(), || {
            let mut objs: Vec<_> = vals.iter().map(|v| p.make(&h, v)).collect();
            for i in start..start + block {
                let k = (i * 7 + i / 5) % vals.len();
                let mut b = BytesMut::new();
                if objs[k].serialize(&mut b).is_err() || b[..] != wants[k][..] {
                    return Err(format!("serialize number {i} gives {}, should be {}", hex(&b), hex(&wants[k])));
                }
                let mut s: &[u8] = &wants[k];
                match (p.dec_slice)(&mut s) {
                    Ok(d) if vals[k].matches(&d.observe()) => {}
                    Ok(d) => {
                        return Err(format!("decode number {i} of {} gives {:?}", hex(&wants[k]), d.observe()));
                    }
                    Err(e) => {
                        return Err(format!("decode number {i} of {} fails: {e}", hex(&wants[k])));
                    }
                }
            }
            Ok(())
        });
        w.state(p.name, &start.to_be_bytes());
        w.traces += 1;
        let e = match r {
            Ok(Ok(())) => continue,
            Ok(Err(e)) | Err(e) => e,
        };
        w.viol(format!("{}: changes in a long run", p.name), || e);
        return;
    }
}
/// Packets and values that differ in one place from what was handled just before: whatever is
/// remembered between operations must not be taken for them.
const NEAR: [fn(u8) -> u8; 6] = [|b| b ^ 1, |b| b ^ 0x80, |b| b ^ 0xFF, |b| b.wrapping_add(1), |b| b ^ 0x10, |_| 0];
fn c10_near(w: &mut W, p: &'static PduInfo, n: usize, sz: Sz) {
    let Some((v, pkt)) = drive::base_packet(p, n, 48) else {
        return;
    };
    let body = w.imp("neighbouring packets", p.name, &pkt, || {
        let mut s: &[u8] = &pkt;
        (p.dec_slice)(&mut s).is_ok()
    });
    if body != Ok(true) {
        return;
    }
    let r0 = drive::ref_dec(p, &pkt);
    let cap = sz.pick(600, 9000);
    let mut m = pkt.clone();
    for i in 0..pkt.len().min(cap) {
        for (d, f) in NEAR.iter().enumerate().take(sz.pick(6, 6)) {
            m[i] = f(pkt[i]);
            if m[i] == pkt[i] {
                continue;
            }
            if !w.state(p.name, &m) {
                m[i] = pkt[i];
                continue;
            }
            let r1 = drive::ref_dec(p, &m);
            for (k, b, r) in [(0, &pkt, &r0), (1, &m, &r1), (2, &pkt, &r0)] {
                let o = dec(w, p, b);
                w.traces += 1;
                if matches!(o, Out::Panic(_)) {
                    // C05 judges panics
                    continue;
                }
                if let Some(x) = drive::differ(p, r, &o) {
                    let what = ["packet", "neighbouring packet", "packet decoded before"][k];
                    w.viol(format!("{}: {x} after a similar packet", p.name), || {
                        format!("{what} {} (the packets differ at byte {i}, change {d}): {}", hex(b), o.show())
                    });
                }
            }
            m[i] = pkt[i];
        }
        if w.full() {
            return;
        }
    }
    // the same for values: fresh objects and one object that is edited
    let h = hdr_pat();
    let want = packet(p.ty, &h, &v);
    let mut obj = match w.imp("neighbouring values", p.name, &want, || {
        let mut s: &[u8] = &want;
        (p.dec_slice)(&mut s)
    }) {
        Ok(Ok(o)) => o,
        _ => return,
    };
    let mut bad: Option<(String, String)> = None;
    let mut count = 0usize;
    drive::singles(p.ty, &v, sz.pick3(genv::Depth::Mid, genv::Depth::Quick, genv::Depth::Thorough), true, &mut |x| {
        let want_x = packet(p.ty, &h, x);
        if want_x.len() > drive::LIMIT {
            return true;
        }
        count += 1;
        w.state(p.name, &want_x);
        w.traces += 4;
        let r = w.imp("neighbouring values", p.name, &want_x, || {
            let mut out = vec![];
            for (val, wanted) in [(&v, &want), (x, &want_x), (&v, &want)] {
                let mut o = p.make(&h, val);
                let mut b = BytesMut::new();
                let ok = o.serialize(&mut b).is_ok();
                if !ok || b[..] != wanted[..] {
                    out.push(("a fresh PDU", hex(&b), hex(wanted)));
                }
            }
            for (val, wanted) in [(x, &want_x), (&v, &want)] {
                obj.assign(val);
                set_header(obj.header_mut(), &h);
                let mut b = BytesMut::new();
                let ok = obj.serialize(&mut b).is_ok();
                if !ok || b[..] != wanted[..] {
                    out.push(("an edited PDU", hex(&b), hex(wanted)));
                }
            }
            out
        });
        match r {
            Ok(l) if l.is_empty() => {}
            Ok(l) => {
                bad = Some((
                    format!("{}: {} serialized differently after a similar one", p.name, l[0].0),
                    format!("{} gives {}, should be {}", l[0].0, l[0].1, l[0].2),
                ));
            }
            Err(e) => bad = Some((format!("{}: panic while serializing similar PDUs", p.name), e)),
        }
        bad.is_none() && !w.full()
    });
    w.count("neighbouring values", count as u64);
    if let Some((k, d)) = bad {
        w.viol(k, || d);
    }
}
/// Packets that differ from the last one in two places such that sums, exclusive ors or the set of
/// bytes stay the same: what is remembered under a digest must not be taken for them.
const TWINS: [fn(u8, u8) -> (u8, u8); 7] = [
    |a, b| (b, a),
    |a, b| (a.wrapping_add(1), b.wrapping_sub(1)),
    |a, b| (a.wrapping_sub(1), b.wrapping_add(1)),
    |a, b| (a ^ 1, b ^ 1),
    |a, b| (a ^ 0x80, b ^ 0x80),
    // digests of the form 31 * a + b, 33 * a + b
    |a, b| (a.wrapping_add(1), b.wrapping_sub(31)),
    |a, b| (a.wrapping_add(1), b.wrapping_sub(33)),
];
fn twins(b: &[u8], start: usize, gaps: &[usize], cap: usize, f: &mut dyn FnMut(&[u8], String) -> bool) {
    let mut m = b.to_vec();
    for i in start..b.len().min(cap) {
        for &g in gaps {
            if i + g >= b.len() {
                continue;
            }
            for (d, t) in TWINS.iter().enumerate() {
                (m[i], m[i + g]) = t(b[i], b[i + g]);
                let go = m == b || f(&m, format!("bytes {i} and {}, change {d}", i + g));
                (m[i], m[i + g]) = (b[i], b[i + g]);
                if !go {
                    return;
                }
            }
        }
        // words exchanged, bytes rotated
        for n in [2usize, 4, 8] {
            if i + 2 * n > b.len() {
                continue;
            }
            m[i..i + 2 * n].rotate_left(n);
            let go = m == b || f(&m, format!("{n} bytes at {i} exchanged with the next"));
            m[i..i + 2 * n].copy_from_slice(&b[i..i + 2 * n]);
            if !go {
                return;
            }
        }
    }
}
/// decode and, where the packet is canonical, encode in turn; every result as if nothing else had happened
fn c10_step(w: &mut W, p: &'static PduInfo, b: &[u8], r: &Ref, how: &str) -> bool {
    w.traces += 1;
    let o = dec(w, p, b);
    if !matches!(o, Out::Panic(_)) {
        // C05 judges panics
        if let Some(x) = drive::differ(p, r, &o) {
            w.viol(format!("{}: {x} after others", p.name), || format!("{} {how}: {}", hex(b), o.show()));
            return false;
        }
    }
    if let Ok(Some(d)) = w.imp("creation after other operations", p.name, b, || drive::fresh_changed(p)) {
        w.viol(format!("{}: created differently after other operations", p.name), || format!("{} {how}: {d}", hex(b)));
        return false;
    }
    if let Ref::Ok(h, v, n) = r {
        if *n == b.len() && *n <= drive::LIMIT && v.known() && packet(p.ty, h, v) == b {
            if let drive::Enc::Ok(got, _) = drive::enc(w, p, h, v) {
                if got != b {
                    w.viol(format!("{}: encoded differently after others", p.name), || {
                        format!("{} {how}, should be {}", hex(&got), hex(b))
                    });
                    return false;
                }
            }
        }
    }
    true
}
fn c10_twins(w: &mut W, p: &'static PduInfo, n: usize, sz: Sz) {
    let Some((_, pkt)) = drive::base_packet(p, n, 50) else {
        return;
    };
    let r0 = drive::ref_dec(p, &pkt);
    let gaps: &[usize] = sz.pick(&[1, 2, 4, 8], &[1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 32]);
    twins(&pkt, 4, gaps, sz.pick(500, 9000), &mut |m, how| {
        if !w.state(p.name, m) {
            return true;
        }
        let r1 = drive::ref_dec(p, m);
        c10_step(w, p, m, &r1, &format!("({how}) after its twin"))
            && c10_step(w, p, &pkt, &r0, &format!("again ({how})"))
            && !w.full()
    });
}
/// many packets of a type in several orders
fn c10_many(w: &mut W, p: &'static PduInfo, n: usize, sz: Sz) {
    let Some((_, pkt)) = drive::base_packet(p, n, 51) else {
        return;
    };
    let mut l = vec![pkt.clone()];
    let mut m = pkt.clone();
    for i in 4..pkt.len().min(sz.pick(300, 3000)) {
        for x in [1u8, 0xFF, 0x40] {
            m[i] ^= x;
            l.push(m.clone());
            m[i] = pkt[i];
        }
    }
    let l: Vec<(Vec<u8>, Ref)> = l.into_iter().map(|b| (drive::ref_dec(p, &b), b)).map(|(r, b)| (b, r)).collect();
    let k = l.len();
    let orders: [(&str, Box<dyn Fn(usize) -> usize>); 6] = [
        ("in order", Box::new(|i| i)),
        ("in reverse", Box::new(move |i| k - 1 - i)),
        ("from both ends", Box::new(move |i| if i % 2 == 0 { i / 2 } else { k - 1 - i / 2 })),
        ("two of each", Box::new(|i| i / 2)),
        ("the last four again and again", Box::new(|i| (i / 8) * 4 + i % 4)),
        ("the first one every second time", Box::new(|i| if i % 2 == 0 { 0 } else { i })),
    ];
    for (name, f) in &orders {
        for i in 0..k {
            let (b, r) = &l[f(i) % k];
            w.state(p.name, format!("{name} {n} {i}").as_bytes());
            if !c10_step(w, p, b, r, &format!("(packet {i}, {name})")) {
                return;
            }
        }
    }
}
/// packets of all types in several orders
fn c10_mix(w: &mut W, rounds: usize) {
    let mut l: Vec<(&'static PduInfo, Vec<u8>, Ref)> = vec![];
    for p in pdus() {
        for n in 0..3 {
            if let Some((_, b)) = drive::base_packet(p, n, 52 + n as u64) {
                if b.len() <= drive::LIMIT {
                    let r = drive::ref_dec(p, &b);
                    l.push((p, b, r));
                }
            }
        }
    }
    let k = l.len();
    for round in 0..rounds {
        // steps that are coprime to the number of packets visit every one
        for step in 1..k {
            if gcd(step, k) != 1 {
                continue;
            }
            for i in 0..k {
                let (p, b, r) = &l[(i * step + round) % k];
                w.state("mix", format!("{round} {step} {i}").as_bytes());
                if !c10_step(w, p, b, r, &format!("(packet {i} of all types, every {step}th)")) {
                    return;
                }
            }
        }
    }
}
fn gcd(a: usize, b: usize) -> usize {
    if b == 0 { a } else { gcd(b, a % b) }
}
/// the time of day is no input of encode and decode
fn c10_clock(w: &mut W, p: &'static PduInfo, times: &[u64]) {
    for n in 0..2 {
        let Some((_, pkt)) = drive::base_packet(p, n, 53) else {
            continue;
        };
        let r = drive::ref_dec(p, &pkt);
        let cut = &pkt[..pkt.len() - 1];
        let rc = drive::ref_dec(p, cut);
        for &t in times {
            w.state(p.name, format!("{n} {t}").as_bytes());
            let go = crate::clock::at(t, || {
                c10_step(w, p, &pkt, &r, &format!("at {t} ns since 1970"))
                    && c10_step(w, p, cut, &rc, &format!("at {t} ns since 1970"))
            });
            if !go {
                return;
            }
        }
    }
}
fn clock_times(thorough: bool) -> Vec<u64> {
    let mut v = vec![];
    let days: &[u64] =
        if thorough { &[0, 1, 59, 365, 11_016, 18_321, 19_723, 20_512, 20_777, 24_855] } else { &[0, 11_016, 20_777] };
    for d in days {
        for (h, m, s) in [
            (0, 0, 0),
            (0, 0, 1),
            (1, 30, 0),
            (11, 59, 59),
            (12, 0, 0),
            (23, 59, 59),
            (6, 0, 30),
            (6, 1, 0),
            (6, 29, 59),
            (6, 30, 0),
            (6, 59, 0),
        ] {
            for ns in [0u64, 1, 999_999_999, 500_000_000] {
                v.push((d * 86_400 + h * 3600 + m * 60 + s) * 1_000_000_000 + ns);
            }
        }
        // a whole hour, minute by minute
        for m in 0..60 {
            v.push((d * 86_400 + 7 * 3600 + m * 60 + 17) * 1_000_000_000 + 123_456_789);
        }
        for s in 0..60 {
            v.push((d * 86_400 + 9 * 3600 + 42 * 60 + s) * 1_000_000_000 + 987_654_321);
        }
        for h in 0..24 {
            v.push((d * 86_400 + h * 3600 + 42 * 60) * 1_000_000_000);
        }
    }
    v
}
/// the same for records on their own
fn c10_near_rec(w: &mut W, r: &'static RecInfo, n: usize, sz: Sz) {
    let Some(v) = base(r.ty, n, 49) else { return };
    let mut b0 = vec![];
    spec::enc_rec(r.ty, &v, &mut b0);
    let refd = |b: &[u8]| {
        let mut rd = spec::Rd { b, pos: 0 };
        spec::dec_rec(r.ty, &mut rd).ok().map(|s| (Val::S(s), rd.pos))
    };
    let Some(want0) = refd(&b0) else { return };
    let mut m = b0.clone();
    for i in 0..b0.len().min(sz.pick(400, 4000)) {
        for (d, f) in NEAR.iter().enumerate() {
            m[i] = f(b0[i]);
            let Some(want1) = refd(&m) else { continue };
            if !w.state(r.name, &m) {
                continue;
            }
            for (b, want) in [(&b0, &want0), (&m, &want1), (&b0, &want0)] {
                w.traces += 1;
                let got = w.imp("neighbouring records", r.name, b, || {
                    let mut s: &[u8] = b;
                    let x = (r.dec_slice)(&mut s);
                    (x, b.len() - s.len())
                });
                // C05 and C16 judge panics and lone records
                let Ok((x, used)) = got else { continue };
                if !want.0.matches(&x) || used != want.1 {
                    w.viol(format!("{}: decoded differently after a similar record", r.name), || {
                        format!(
                            "{} (the records differ at byte {i}, change {d}): {x:?}, {used} bytes; should be {:?}",
                            hex(b),
                            want
                        )
                    });
                }
            }
        }
        m[i] = b0[i];
        if w.full() {
            return;
        }
    }
    twins(&b0, 0, sz.pick(&[1, 2, 4, 8], &[1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 32]), sz.pick(300, 4000), &mut |m, how| {
        let Some(want1) = refd(m) else { return true };
        if !w.state(r.name, m) {
            return true;
        }
        for (b, want) in [(m, &want1), (&b0[..], &want0)] {
            w.traces += 1;
            let got = w.imp("twin records", r.name, b, || {
                let mut s: &[u8] = b;
                let x = (r.dec_slice)(&mut s);
                (x, b.len() - s.len())
            });
            let Ok((x, used)) = got else { continue };
            if !want.0.matches(&x) || used != want.1 {
                w.viol(format!("{}: decoded differently after a similar record", r.name), || {
                    format!("{} ({how}): {x:?}, {used} bytes; should be {:?}", hex(b), want)
                });
            }
            // a record that encodes to these bytes
            let mut again = vec![];
            if want.0.known() {
                spec::enc_rec(r.ty, &want.0, &mut again);
            }
            if !again.is_empty() && again[..] == *b {
                let got = w.imp("twin records", r.name, b, || {
                    let mut o = BytesMut::new();
                    (r.ser)(&want.0, &mut o);
                    o
                });
                if !matches!(&got, Ok(o) if o[..] == *b) {
                    w.viol(format!("{}: encoded differently after a similar one", r.name), || {
                        format!("{:?}, should be {} ({how})", got.map(|b| hex(&b)), hex(b))
                    });
                }
            }
        }
        !w.full()
    });
    let mut bad = None;
    drive::singles(r.ty, &v, sz.pick3(genv::Depth::Mid, genv::Depth::Quick, genv::Depth::Thorough), true, &mut |x| {
        let mut bx = vec![];
        spec::enc_rec(r.ty, x, &mut bx);
        if !w.state(r.name, &bx) {
            return true;
        }
        for (val, want) in [(&v, &b0), (x, &bx), (&v, &b0)] {
            w.traces += 1;
            let got = w.imp("neighbouring records", r.name, want, || {
                let mut b = BytesMut::new();
                (r.ser)(val, &mut b);
                b
            });
            if !matches!(&got, Ok(b) if b[..] == want[..]) {
                bad = Some(format!("{:?}, should be {}", got.map(|b| hex(&b)), hex(want)));
            }
        }
        bad.is_none()
    });
    if let Some(d) = bad {
        w.viol(format!("{}: encoded differently after a similar record", r.name), || d);
    }
}
/// what creation gives after packets with every header, and after failures
fn c10_fresh(w: &mut W, p: &'static PduInfo) {
    for n in 0..2 {
        let Some((_, pkt)) = drive::base_packet(p, n, 53) else { continue };
        let mut m = pkt.clone();
        for i in 0..pkt.len().min(64) {
            for x in 0..=255u8 {
                // every octet of the header; a few values of those of the body
                if i >= 12 && ![0, 1, 2, 3, 7, 0x7F, 0x80, 0xFF].contains(&x) {
                    continue;
                }
                m[i] = x;
                w.state(p.name, &m);
                let r = w.imp("creation after other operations", p.name, &m, || {
                    let mut s = &m[..];
                    let whole = (p.dec_slice)(&mut s);
                    let mut s = &m[..];
                    let h = PduHeader::deserialize(&mut s);
                    let mut s = &m[..];
                    let _ = open_dis_rust::common::live_entity_pdu_header::LiveEntityPduHeader::deserialize(&mut s);
                    let mut s = &m[12..];
                    let body = (p.body_slice)(&mut s, h);
                    for o in [whole, body].into_iter().flatten() {
                        let mut o = o;
                        let _ = o.serialize(&mut BytesMut::new());
                    }
                    let mut s = &m[..m.len() - 1];
                    let _ = (p.dec_slice)(&mut s);
                    drive::fresh_changed(p)
                });
                w.traces += 1;
                // C05 judges panics
                if let Ok(Some(d)) = r {
                    w.viol(format!("{}: created differently after other operations", p.name), || format!("after {}: {d}", hex(&m)));
                    if w.full() {
                        return;
                    }
                }
            }
            m[i] = pkt[i];
        }
    }
}
/// Headers and records on their own, as if nothing else had happened: None if they are.
fn lone_headers(typ: u8, len: u16) -> Option<String> {
    use open_dis_rust::common::live_entity_pdu_header::LiveEntityPduHeader;
    let (a, b) = (hdr_pat(), hdr0());
    for h in [a, b, Hdr { timestamp: !a.timestamp, ..b }] {
        for length in [0, 1, 12, len, len.wrapping_add(8), 0xFFFF] {
            let h = Hdr { typ, length, ..h };
            let mut want = vec![];
            h.enc(&mut want);
            let mut x = PduHeader::default();
            set_header(&mut x, &h);
            let mut got = BytesMut::new();
            x.serialize(&mut got);
            let mut s = &want[..];
            let y = PduHeader::deserialize(&mut s);
            let back = get_header(&y);
            let mut again = BytesMut::new();
            y.serialize(&mut again);
            if got[..] != want[..] || again[..] != want[..] || back != h || !s.is_empty() || get_header(&x) != h {
                return Some(format!("a header {h:?} alone is encoded as {}, read as {back:?} and then {}", hex(&got), hex(&again)));
            }
        }
    }
    // its last two octets are others
    let mut want = vec![];
    Hdr { typ, ..a }.enc(&mut want);
    let n = want.len();
    want[n - 2..].fill(0);
    let mut s = &want[..];
    let h = LiveEntityPduHeader::deserialize(&mut s);
    let (mut x, mut y) = (BytesMut::new(), BytesMut::new());
    h.serialize(&mut x);
    let mut s = &x[..];
    LiveEntityPduHeader::deserialize(&mut s).serialize(&mut y);
    (x != y || x.len() != 12 || x[2] != typ || x[..10] != want[..10])
        .then(|| format!("a live-entity header alone is encoded as {} and then {}", hex(&x), hex(&y)))
}
fn lone_record(r: &'static RecInfo) -> Option<String> {
    let v = [1usize, 2, 0].iter().find_map(|n| base(r.ty, *n, 58))?;
    let want = crate::c_rec::rec_enc(r.ty, &v);
    let mut got = BytesMut::new();
    (r.ser)(&v, &mut got);
    let mut s = &want[..];
    let x = (r.dec_slice)(&mut s);
    (got[..] != want[..] || !s.is_empty() || !v.matches(&x))
        .then(|| format!("{}: {v:?} is encoded as {} (should be {}) and read as {x:?}", r.name, hex(&got), hex(&want)))
}
fn lone_pdu(p: &'static PduInfo) -> Option<String> {
    let (v, pkt) = drive::base_packet(p, 1, 59)?;
    let h = hdr_pat();
    let mut o = p.make(&h, &v);
    let mut b = BytesMut::new();
    if let Err(e) = o.serialize(&mut b) {
        return Some(format!("{} is refused: {e}", p.name));
    }
    let mut s = &pkt[..];
    let d = match (p.dec_slice)(&mut s) {
        Ok(d) => d,
        Err(e) => return Some(format!("{}: {} is refused: {e}", p.name, hex(&pkt))),
    };
    (b[..] != packet(p.ty, &h, &v)[..] || !v.matches(&d.observe()))
        .then(|| format!("{} is encoded as {} and {} is read as {:?}", p.name, hex(&b), hex(&pkt), d.observe()))
}
/// Which of them work before anything has failed? Others are not C10's to judge.
#[derive(Default)]
struct Works {
    pdus: Vec<bool>,
    records: Vec<bool>,
    headers: Vec<bool>,
}
fn works() -> &'static Works {
    static W: std::sync::OnceLock<Works> = std::sync::OnceLock::new();
    W.get_or_init(|| {
        let ok = |f: &dyn Fn() -> Option<String>| {
            matches!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)), Ok(None))
        };
        Works {
            pdus: pdus().iter().map(|p| ok(&|| lone_pdu(p))).collect(),
            records: records().iter().map(|r| ok(&|| lone_record(r))).collect(),
            headers: pdus().iter().map(|p| ok(&|| lone_headers(p.typ, 0))).collect(),
        }
    })
}
fn lone(w: &mut W, what: &'static str, id: &[u8], ok: bool, how: &dyn Fn() -> String, f: impl FnOnce() -> Option<String>) -> bool {
    if !ok {
        return true;
    }
    w.traces += 1;
    let e = match w.imp("alone after others", what, id, f) {
        Ok(None) => return true,
        Ok(Some(e)) => e,
        Err(e) => format!("panic: {e}"),
    };
    w.viol(format!("{what}: different after others"), || format!("{}: {e}", how()));
    false
}
/// headers, records and PDUs on their own after everything that one can do with a PDU of a type
fn c10_alone(w: &mut W, p: &'static PduInfo) {
    let at = pdus().iter().position(|q| q.name == p.name).unwrap();
    for n in 0..3 {
        let Some((v, pkt)) = drive::base_packet(p, n, 57) else { continue };
        let h = hdr_pat();
        let big = oversize(p);
        let ops: [(&str, &dyn Fn()); 7] = [
            ("encoding", &|| drop(p.make(&h, &v).serialize(&mut BytesMut::new()))),
            ("decoding", &|| drop((p.dec_slice)(&mut &pkt[..]))),
            ("decoding after a header", &|| {
                let mut s = &pkt[..];
                let ph = PduHeader::deserialize(&mut s);
                drop((p.body_slice)(&mut s, ph));
            }),
            ("its length", &|| drop(p.make(&h, &v).calc())),
            ("finalizing", &|| p.make(&h, &v).finalize()),
            ("encoding one that is too big", &|| {
                if let Some(v) = &big {
                    drop(p.make(&h, v).serialize(&mut BytesMut::new()));
                }
            }),
            ("truncations", &|| {
                for k in 0..pkt.len() {
                    drop((p.dec_slice)(&mut &pkt[..k]));
                }
            }),
        ];
        for (k, (what, op)) in ops.iter().enumerate() {
            let id = [at as u8, n as u8, k as u8];
            w.state(p.name, &id);
            // C05 judges panics
            let _ = w.imp("operation before others", p.name, &pkt, op);
            let how = || format!("after {what} of {} with {n} elements", p.name);
            let len = pkt.len() as u16;
            let mut go = lone(w, p.name, &id, works().headers[at], &how, || lone_headers(p.typ, len));
            for (r, ok) in records().iter().zip(&works().records) {
                go = go && lone(w, r.name, &id, *ok, &how, || lone_record(r));
            }
            if !go || w.full() {
                return;
            }
        }
    }
}
/// everything else after a record or header was read from a buffer that is too short
fn c10_short(w: &mut W, r: Option<&'static RecInfo>) {
    let name = r.map_or("headers", |r| r.name);
    for n in 0..3 {
        let b = match r {
            Some(r) => {
                let Some(v) = base(r.ty, n, 60) else { continue };
                crate::c_rec::rec_enc(r.ty, &v)
            }
            None => {
                let mut b = vec![];
                hdr_pat().enc(&mut b);
                b
            }
        };
        for k in 0..b.len() {
            if k > 48 && k + 4 < b.len() {
                continue;
            }
            w.state(name, &b[..k]);
            // it may panic, as get_* does
            let _ = w.imp("short", name, &b[..k], || match r {
                Some(r) => drop((r.dec_slice)(&mut &b[..k])),
                None => {
                    let _ = PduHeader::get_pdu_type(&b[..k]);
                    let _ = PduHeader::deserialize(&mut &b[..k]);
                }
            });
            if r.is_none() {
                let _ = w.imp("short", name, &b[..k], || {
                    let _ = open_dis_rust::common::live_entity_pdu_header::LiveEntityPduHeader::deserialize(&mut &b[..k]);
                });
            }
            let how = || format!("after reading {name} from {} bytes {}", k, hex(&b[..k]));
            let mut go = true;
            if let Some(r) = r {
                let i = records().iter().position(|x| x.name == r.name).unwrap();
                go = lone(w, name, &b[..k], works().records[i], &how, || lone_record(r));
            }
            let i = k % pdus().len();
            go = go && lone(w, pdus()[i].name, &b[..k], works().headers[i], &how, || lone_headers(pdus()[i].typ, 0));
            for (p, ok) in pdus().iter().zip(&works().pdus).skip(if k == 0 || k + 1 == b.len() { 0 } else { i }) {
                go = go && lone(w, p.name, &b[..k], *ok, &how, || lone_pdu(p));
                if k > 0 && k + 1 < b.len() {
                    break;
                }
            }
            if !go || w.full() {
                return;
            }
        }
        for (x, ok) in records().iter().zip(&works().records) {
            if !lone(w, x.name, &b, *ok, &|| format!("after reading {name} from short buffers"), || lone_record(x)) {
                return;
            }
        }
    }
}
pub fn c10(sz: Sz) -> Plan {
    drive::remember_fresh();
    works();
    let mut items = vec![];
    for p in pdus() {
        if sz.thorough {
            for f in 0..OPS.len() {
                items.push(item(format!("{} histories starting with {}", p.name, OPS[f]), move |w| {
                    c10_hist(w, p, sz.pick3(4, 5, 6), Some(f))
                }));
            }
        } else {
            items.push(item(format!("{} histories", p.name), move |w| c10_hist(w, p, 4, None)));
        }
        items.push(item(format!("{} with every other type", p.name), move |w| c10_cross(w, p)));
        items.push(item(format!("{} and creation", p.name), move |w| c10_fresh(w, p)));
        items.push(item(format!("{} and headers and records alone", p.name), move |w| c10_alone(w, p)));
        for n in 0..3 {
            items.push(item(format!("{} and its neighbours, {n} elements", p.name), move |w| c10_near(w, p, n, sz)));
        }
        for n in 0..3 {
            items.push(item(format!("{} and its twins, {n} elements", p.name), move |w| c10_twins(w, p, n, sz)));
            items.push(item(format!("{} many packets, {n} elements", p.name), move |w| c10_many(w, p, n, sz)));
        }
        items.push(item(format!("{} at all times of day", p.name), move |w| c10_clock(w, p, &clock_times(sz.thorough))));
        items.push(item(format!("{} long run", p.name), move |w| c10_long(w, p, sz.pick3(5_000, 140_000, 1_100_000))));
    }
    items.push(item("packets of all types", move |w| c10_mix(w, sz.pick(1, 6))));
    items.push(item("headers from short buffers", |w| c10_short(w, None)));
    for r in records() {
        items.push(item(format!("record {} from short buffers", r.name), move |w| c10_short(w, Some(r))));
        for n in 0..3 {
            items.push(item(format!("record {} and its neighbours, {n} elements", r.name), move |w| c10_near_rec(w, r, n, sz)));
        }
    }
    plan_of(
        items,
        "each state is a history of operations on one PDU object (and on others); after every step the bytes, header, fields and results are compared with a model whose output is a function of the current values alone",
        vec![
            format!("every sequence of {} of 12 operations for each type", sz.pick3(4, 5, 6)),
            "all 66x66 pairs of types interleaved".into(),
            "creation (each type, both headers) after every one of those histories and after packets with every value of every header octet".into(),
            "headers of each type with six lengths and every record alone, after encoding, decoding, measuring, finalizing, refusing and truncating a PDU of each type; every PDU type, record and header after records and headers were read from buffers that are too short".into(),
            "packet, neighbour, packet: every byte of a packet with 0, 1 and 2 elements changed in 6 ways; every single field given other values".into(),
            "packet, twin, packet: two bytes or neighbouring words exchanged or changed such that sums and exclusive ors stay the same; hundreds of packets of a type in six orders; packets of all types in every stride; all hours, minutes and seconds of a clock".into(),
            format!("{} repetitions of encode and decode per type", sz.pick3(5_000, 140_000, 1_100_000)),
        ],
    )
}

// ------------------------------------------------------------------ C23
fn c23_one(w: &mut W, p: &'static PduInfo, b: &[u8]) {
    if b.len() < 12 || !w.state(p.name, b) {
        return;
    }
    w.traces += 1;
    let a = dec(w, p, b);
    let c = dec_body(w, p, b);
    let same = match (&a, &c) {
        // the reason text may say which entry refused
        (Out::Header(_), Out::Header(_)) => true,
        (a, c) => a == c,
    };
    if !same {
        w.viol(format!("{}: supplied header gives a different result", p.name), || {
            format!("input of {} bytes {}: whole packet {}; supplied header {}", b.len(), hex(b), a.show(), c.show())
        });
    }
    w.outcome(a.class());
    w.sample(|| format!("{} -> {}", hex(&b[..b.len().min(100)]), a.class()));
}
fn c23_header(w: &mut W, p: &'static PduInfo, sz: Sz) {
    for n in 0..sz.pick(2, 3) {
        let Some((v, b)) = drive::base_packet(p, n, 51) else {
            continue;
        };
        crate::c_wire::headers(&mut |h| {
            let h = Hdr { typ: p.typ, ..*h };
            w.state(p.name, format!("{n}{h:?}").as_bytes());
            w.traces += 1;
            let r = w.imp("deserialize_without_header with any header", p.name, &b, || {
                let mut ph = PduHeader::default();
                set_header(&mut ph, &h);
                let mut s = &b[12..];
                (p.body_slice)(&mut s, ph).map(|o| (get_header(o.header()), o.observe(), s.len(), *o.header() == ph)).ok()
            });
            match &r {
                Ok(Some((h2, v2, 0, true))) if *h2 == h && v.matches(v2) => {}
                r => w.viol(format!("{}: supplied header not carried unchanged", p.name), || {
                    format!("header {h:?}, body {}: {r:?}", hex(&b[12..]))
                }),
            }
            !w.full()
        });
    }
}
pub fn c23(sz: Sz) -> Plan {
    let mut items = fault_items(sz, c23_one);
    for p in pdus() {
        items.push(item(format!("{} any supplied header", p.name), move |w| c23_header(w, p, sz)));
        items.push(item(format!("{} followed by bytes", p.name), move |w| {
            for b in drive::corpus(p, sz.thorough) {
                for n in [1usize, 4, 16, 200] {
                    let mut x = b.clone();
                    x.resize(b.len() + n, 0x21);
                    c23_one(w, p, &x);
                }
            }
        }));
    }
    plan_of(
        items,
        "each state is one input byte string decoded twice by the crate (whole, and header first then body); results, consumed bytes and errors are compared; and every supplied header is compared with the one the PDU carries afterwards",
        fault_bounds(sz),
    )
}
