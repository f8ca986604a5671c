//! C30 the Pdu interface, C31 copies and comparisons, C32 memory that is kept.
use crate::alloc;
use crate::bind::{self, Bind, BoxPdu, PduInfo, RecInfo, get_header, pdus, records, set_header};
use crate::checks::{Sz, plan_of};
use crate::drive::{self, Ref, base, hdr_diff, hdr_pat, hdr0, ref_dec};
use crate::engine::{Plan, W, hex, item};
use crate::genv::{self, Depth, Leaf, Mode, Skel};
use crate::spec::{self, Hdr, Num, RecTy, packet, strip_idx};
use crate::val::Val;
use bytes::BytesMut;
use od::common::data_types as dt;
use od::common::enums as en;
use od::common::pdu_header::PduStatusRecord;
use od::common::{DISError, GenericHeader, LiveEntityPduHeader, PduHeader};
use open_dis_rust as od;
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};

// ------------------------------------------------------------------ C30
const HDRS: fn() -> Vec<Hdr> = || {
    let mx = Hdr { version: 255, exercise: 255, typ: 255, family: 129, timestamp: u32::MAX, length: u16::MAX, status: 255 };
    let c = |n: &str, x: u8| {
        let t = bind::enum_by_name(n);
        if t.has(u64::from(x)) { x } else { t.codes[t.codes.len() - 1] as u8 }
    };
    [hdr_pat(), hdr0(), mx]
        .into_iter()
        .map(|h| Hdr {
            version: c("ProtocolVersion", h.version),
            typ: c("PduType", h.typ),
            family: c("ProtocolFamily", h.family),
            ..h
        })
        .collect()
};

/// Which of the PDU types does this object say it is?
fn claims(o: &BoxPdu) -> Vec<(&'static str, Val)> {
    pdus().iter().filter_map(|q| (q.downcast)(o.as_any()).map(|v| (q.name, v))).collect()
}
fn other_byte(names: &str, h: u8) -> u8 {
    let t = bind::enum_by_name(names);
    t.codes.iter().map(|c| *c as u8).find(|c| *c != h && *c != t.default as u8).expect("engine: two codes")
}
/// one field of the header changed
fn edits(h: &Hdr) -> Vec<(&'static str, Hdr)> {
    vec![
        ("version", Hdr { version: other_byte("ProtocolVersion", h.version), ..*h }),
        ("exercise", Hdr { exercise: !h.exercise, ..*h }),
        ("type", Hdr { typ: other_byte("PduType", h.typ), ..*h }),
        ("family", Hdr { family: other_byte("ProtocolFamily", h.family), ..*h }),
        ("timestamp", Hdr { timestamp: !h.timestamp, ..*h }),
        ("length", Hdr { length: !h.length, ..*h }),
        ("status", Hdr { status: !h.status, ..*h }),
    ]
}
/// what must be seen of the object, in the terms of the model
struct Seen {
    h: Hdr,
    v: Val,
}
fn look(w: &mut W, p: &'static PduInfo, o: &mut BoxPdu, s: &Seen, after: &str) -> bool {
    w.traces += 1;
    let r = w.imp("look at a PDU", p.name, &[], || {
        let a = get_header(o.header());
        let b = get_header(o.face().header());
        let c = get_header(o.face().header_mut());
        let d =
            (o.header().pdu_type().observe().u() as u8, o.header().protocol_family().observe().u() as u8, o.header().length());
        (a, b, c, d, o.observe(), claims(o), (p.downcast)(o.face().as_any()))
    });
    let (a, b, c, d, v, cl, dy) = match r {
        Ok(x) => x,
        Err(e) => {
            w.viol(format!("{}: panic after {after}", p.name), || e);
            return false;
        }
    };
    for (who, h) in [("header", &a), ("header through dyn Pdu", &b), ("header_mut", &c)] {
        if let Some(f) = hdr_diff(&s.h, h) {
            w.viol(format!("{}: {who} shows another {f} after {after}", p.name), || format!("{h:?}, should be {:?}", s.h));
            return false;
        }
    }
    if d != (s.h.typ, s.h.family, s.h.length) {
        w.viol(format!("{}: header accessors disagree with the fields after {after}", p.name), || format!("{d:?} of {:?}", s.h));
        return false;
    }
    if v != s.v {
        w.viol(format!("{}: {} changes with {after}", p.name, strip_idx(&p.ty.path_name(&s.v.diff(&v)))), || {
            format!("{v:?}, should be {:?}", s.v)
        });
        return false;
    }
    let ok = cl.len() == 1 && cl[0].0 == p.name && cl[0].1 == s.v && dy.as_ref() == Some(&s.v);
    if !ok {
        w.viol(format!("{}: as_any is not the PDU after {after}", p.name), || {
            format!("downcasts to {:?}, through dyn Pdu: {}", cl.iter().map(|c| c.0).collect::<Vec<_>>(), dy.is_some())
        });
    }
    ok
}
const OPS: [&str; 9] =
    ["calculate_length", "finalize", "serialize", "edit", "edit2", "assign", "regrow", "relay", "dyn serialize"];
/// Every sequence of operations: the complete visible state after each is the model's.
fn c30_hist(w: &mut W, p: &'static PduInfo, depth: usize) {
    let vals: Vec<Val> = [(1, 4), (2, 9), (0, 2)].iter().filter_map(|(n, s)| base(p.ty, *n, *s)).collect();
    let Some(v0) = vals.first() else { return };
    let v1 = vals.get(1).unwrap_or(v0);
    let n = OPS.len();
    for start in 0..2 {
        for code in 0..n.pow(depth as u32) {
            if w.full() {
                return;
            }
            let seq: Vec<usize> = (0..depth).map(|i| code / n.pow(i as u32) % n).collect();
            let mut key: Vec<u8> = seq.iter().map(|x| *x as u8).collect();
            key.push(start);
            if !w.state(p.name, &key) {
                continue;
            }
            let made = w.imp("make", p.name, &[], || if start == 0 { p.make(&hdr_pat(), v0) } else { (p.new)() });
            let Ok(mut o) = made else { continue };
            let mut s = Seen { h: get_header(o.header()), v: o.observe() };
            for k in &seq {
                let r = w.imp(OPS[*k], p.name, &key, || step(p, &mut o, &s, *k, v0, v1));
                match r {
                    Ok(Ok(n)) => s = n,
                    Ok(Err(e)) => {
                        w.viol(format!("{}: {}", p.name, e.0), || {
                            format!("{:?}: {}", seq.iter().map(|k| OPS[*k]).collect::<Vec<_>>(), e.1)
                        });
                        break;
                    }
                    Err(e) => {
                        w.viol(format!("{}: panic in {}", p.name, OPS[*k]), || e);
                        break;
                    }
                }
                if !look(w, p, &mut o, &s, OPS[*k]) {
                    break;
                }
            }
        }
    }
    w.sample(|| format!("{}: operation sequences of length {depth}", p.name));
}
type Bad = (String, String);
/// Apply one operation; the model state that must follow.
fn step(p: &'static PduInfo, o: &mut BoxPdu, s: &Seen, k: usize, v0: &Val, v1: &Val) -> Result<Seen, Bad> {
    let want = packet(p.ty, &s.h, &s.v);
    let size = want.len();
    match OPS[k] {
        "calculate_length" => {
            let n = o.face().calculate_length();
            match n {
                Ok(n) if usize::from(n) == size => Ok(Seen { h: s.h, v: s.v.clone() }),
                r => Err(("calculate_length is not the size".into(), format!("{r:?} of {size}"))),
            }
        }
        "finalize" => {
            o.face().finalize();
            Ok(Seen { h: Hdr { length: size as u16, ..s.h }, v: s.v.clone() })
        }
        "serialize" | "dyn serialize" => {
            let mut b = BytesMut::new();
            let r = if OPS[k] == "serialize" { o.serialize(&mut b) } else { o.face().serialize(&mut b) };
            match r {
                Ok(()) if b[..] == want[..] => {
                    let Ref::Ok(_, v, _) = ref_dec(p, &want) else { panic!("engine: own packet") };
                    // section lengths are the encoder's to set; everything else stays
                    let v = if v.known() && v.matches(&s.v) { s.v.clone() } else { derived(p.ty, &s.v, &v) };
                    Ok(Seen { h: Hdr { typ: p.typ, family: p.family, length: size as u16, ..s.h }, v })
                }
                r => Err((
                    "encodes other bytes through the interface".into(),
                    format!("{r:?} {} should be {}", hex(&b), hex(&want)),
                )),
            }
        }
        "edit" => {
            // one field after the other, each must be seen at once and alone
            let mut h = s.h;
            for (f, _) in edits(&h) {
                let n = edits(&h).into_iter().find(|e| e.0 == f).expect("engine: edit").1;
                set_header(o.header_mut(), &n);
                let g = get_header(o.header());
                if let Some(x) = hdr_diff(&n, &g) {
                    return Err((format!("setting the header's {f} is not seen in its {x}"), format!("{g:?} for {n:?}")));
                }
                h = n;
            }
            Ok(Seen { h, v: s.v.clone() })
        }
        "edit2" => {
            let h = o.face().header_mut();
            h.set_pdu_type(Bind::build(&Val::U(u64::from(other_byte("PduType", s.h.typ)))));
            h.set_protocol_family(Bind::build(&Val::U(u64::from(other_byte("ProtocolFamily", s.h.family)))));
            h.set_length(!s.h.length);
            Ok(Seen {
                h: Hdr {
                    typ: other_byte("PduType", s.h.typ),
                    family: other_byte("ProtocolFamily", s.h.family),
                    length: !s.h.length,
                    ..s.h
                },
                v: s.v.clone(),
            })
        }
        "assign" => {
            o.assign(v0);
            Ok(Seen { h: s.h, v: v0.clone() })
        }
        "regrow" => {
            o.assign(v1);
            Ok(Seen { h: s.h, v: v1.clone() })
        }
        "relay" => {
            // encode, choose the type by its code as a receiver does, go on with the decoded object
            let mut b = BytesMut::new();
            o.serialize(&mut b).map_err(|e| ("encoding fails".to_string(), e.to_string()))?;
            let code = PduHeader::get_pdu_type(&b).ok_or(("no type to peek at".to_string(), hex(&b)))?.observe().u();
            let q = pdus().iter().find(|q| u64::from(q.typ) == code);
            let Some(q) = q else {
                return Err(("the peeked type code is no PDU's".into(), format!("{code}")));
            };
            let mut sl = &b[..];
            *o = (q.dec_slice)(&mut sl).map_err(|e| (format!("peeked as {} and refused", q.name), e.to_string()))?;
            let Ref::Ok(h, v, n) = ref_dec(p, &want) else { panic!("engine: own packet") };
            if sl.len() != size - n {
                return Err(("relay consumes another size".into(), hex(&b)));
            }
            let got = o.observe();
            let v = if v.matches(&got) { got } else { v };
            Ok(Seen { h, v })
        }
        o => panic!("engine: {o}"),
    }
}
/// `v` with the fields that encoding derives (the section lengths) as in the packet's own value `d`
fn derived(r: &RecTy, v: &Val, d: &Val) -> Val {
    let mut out = v.clone();
    for p in genv::controls(r, v) {
        if d.at(&p) != &Val::Any {
            *out.at_mut(&p) = d.at(&p).clone();
        }
    }
    out
}
/// every value of the bounds: seen through the interface, edited, encoded
fn c30_values(w: &mut W, p: &'static PduInfo, sz: Sz) {
    let hs = HDRS();
    let one = |w: &mut W, h: &Hdr, v: &Val| {
        let want = packet(p.ty, h, v);
        if want.len() > drive::LIMIT || !w.state(p.name, &want) {
            return;
        }
        let Ok(mut o) = w.imp("make", p.name, &want, || p.make(h, v)) else {
            return;
        };
        let mut s = Seen { h: *h, v: v.clone() };
        if !look(w, p, &mut o, &s, "building it") {
            return;
        }
        for k in [0, 1, 3, 2, 7] {
            match w.imp(OPS[k], p.name, &want, || step(p, &mut o, &s, k, v, v)) {
                Ok(Ok(n)) => s = n,
                Ok(Err(e)) => {
                    return w.viol(format!("{}: {}", p.name, e.0), || format!("{h:?} {v:?}: {}", e.1));
                }
                Err(e) => return w.viol(format!("{}: panic in {}", p.name, OPS[k]), || e),
            }
            if !look(w, p, &mut o, &s, OPS[k]) {
                return;
            }
        }
    };
    for h in &hs {
        for m in [Mode::Pattern(3), Mode::Zero, Mode::Alt] {
            drive::structs(p.ty, Skel { max: sz.pick(1, 2), nodec: false, cap: sz.pick(24, 300) }, &[m], &mut |v| {
                one(w, h, v);
                !w.full()
            });
        }
    }
    if let Some(b) = base(p.ty, 1, 6) {
        drive::singles(p.ty, &b, sz.pick(Depth::Tiny, Depth::Mid), true, &mut |v| {
            one(w, &hs[0], v);
            !w.full()
        });
    }
}
/// a refused PDU stays as it is, but for what serialize stamps
fn c30_refused(w: &mut W, p: &'static PduInfo) {
    let Some(v) = crate::c_fault::oversize(p) else {
        return;
    };
    if !w.state(p.name, b"refused") {
        return;
    }
    w.traces += 1;
    let r = w.imp("refused", p.name, &[], || {
        let mut o = p.make(&hdr_pat(), &v);
        let mut b = BytesMut::new();
        let c = o.calc().is_err();
        let h0 = get_header(o.header());
        let e = o.serialize(&mut b).is_err();
        let own = claims(&o).iter().map(|c| c.0).collect::<Vec<_>>() == [p.name];
        (c, e, b.len(), h0, get_header(o.header()), own, o.observe())
    });
    match r {
        Ok((true, true, 0, h0, h, true, seen)) => {
            let pat = hdr_pat();
            let kept = Hdr { typ: pat.typ, family: pat.family, length: pat.length, ..h };
            if let Some(f) = hdr_diff(&pat, &h0) {
                w.viol(format!("{}: calculate_length changes the header's {f} on refusal", p.name), || format!("{h0:?}"));
            } else if let Some(f) = hdr_diff(&pat, &kept) {
                w.viol(format!("{}: a refused serialize changes the header's {f}", p.name), || format!("{h:?}"));
            } else if !derived(p.ty, &v, &seen).matches(&seen) {
                w.viol(format!("{}: a refused serialize changes {}", p.name, strip_idx(&p.ty.path_name(&v.diff(&seen)))), || {
                    format!("{seen:?}")
                });
            }
        }
        r => w.viol(format!("{}: an oversized PDU is not refused", p.name), || format!("{:?}", r.map(|r| (r.0, r.1, r.2)))),
    }
}
/// Sequences of interface setter calls on a header of its own; after each call all getters, all fields
/// and the bytes it encodes to are the model's.
fn c30_setters(w: &mut W, live: bool, depth: usize) {
    #[derive(Clone, Copy, Debug)]
    enum Set {
        Type(u8),
        Family(u8),
        Length(u16),
    }
    let mut calls: Vec<Set> = vec![];
    let codes = |n: &str| bind::enum_by_name(n).codes.iter().map(|c| *c as u8).collect::<Vec<_>>();
    let (ty, fa) = (codes("PduType"), codes("ProtocolFamily"));
    let some = |v: &[u8], n: usize| (0..n).map(|i| v[i * (v.len() - 1) / (n - 1)]).collect::<Vec<_>>();
    let long = depth > 2;
    let (ty, fa) = if long { (some(&ty, 5), some(&fa, 4)) } else { (ty, fa) };
    calls.extend(ty.iter().map(|x| Set::Type(*x)));
    calls.extend(fa.iter().map(|x| Set::Family(*x)));
    let lens: &[u16] = if long {
        &[0, 1, 11, 12, 13, 144, 8192, 65535]
    } else {
        &[0, 1, 2, 3, 7, 8, 11, 12, 13, 16, 100, 127, 128, 144, 255, 256, 257, 1000, 1460, 8191, 8192, 8193, 32767, 32768, 65535]
    };
    calls.extend(lens.iter().map(|x| Set::Length(*x)));
    let mut starts = HDRS();
    if live {
        let subs = bind::enum_by_name("DISLiveEntitySubprotocolNumber");
        for h in &mut starts {
            h.status = subs.codes[subs.codes.len() / 2] as u8;
        }
    }
    for h0 in starts {
        for code in 0..calls.len().pow(depth as u32) {
            let seq: Vec<Set> = (0..depth).map(|i| calls[code / calls.len().pow(i as u32) % calls.len()]).collect();
            let mut key = vec![u8::from(live)];
            h0.enc(&mut key);
            key.extend((code as u64).to_be_bytes());
            w.state("setters", &key);
            w.traces += 1;
            let mut h = h0;
            let mut want = vec![];
            for s in &seq {
                match s {
                    Set::Type(x) => h.typ = *x,
                    Set::Family(x) => h.family = *x,
                    Set::Length(x) => h.length = *x,
                }
                let mut b = vec![];
                h.enc(&mut b);
                want.push((b, h.typ, h.family, h.length));
            }
            fn run<H: GenericHeader>(mut x: H, seq: &[Set], ser: fn(&H, &mut BytesMut)) -> Vec<(Vec<u8>, u8, u8, u16)> {
                seq.iter()
                    .map(|s| {
                        match s {
                            Set::Type(t) => x.set_pdu_type(Bind::build(&Val::U(u64::from(*t)))),
                            Set::Family(f) => x.set_protocol_family(Bind::build(&Val::U(u64::from(*f)))),
                            Set::Length(l) => x.set_length(*l),
                        }
                        let mut b = BytesMut::new();
                        ser(&x, &mut b);
                        (b.to_vec(), x.pdu_type().observe().u() as u8, x.protocol_family().observe().u() as u8, x.length())
                    })
                    .collect()
            }
            let r = w.imp("set header", "", &key, || {
                if live {
                    run(crate::c_hdr::live_of(&h0), &seq, GenericHeader::serialize)
                } else {
                    let mut x = PduHeader::default();
                    set_header(&mut x, &h0);
                    run(x, &seq, GenericHeader::serialize)
                }
            });
            if r.as_ref() != Ok(&want) {
                w.viol(format!("{} header: setters", if live { "live-entity" } else { "standard" }), || {
                    format!("{h0:?}, {seq:?}: bytes, type, family, length {r:?}, should be {want:?}")
                });
                return;
            }
        }
    }
}
pub fn c30(sz: Sz) -> Plan {
    let mut items = vec![];
    for live in [false, true] {
        for d in 1..=sz.pick(3, 4) {
            items.push(item(format!("header setters, {d} calls, live {live}"), move |w| c30_setters(w, live, d)));
        }
    }
    for p in pdus() {
        items.push(item(format!("{} histories", p.name), move |w| c30_hist(w, p, sz.pick3(4, 4, 5))));
        items.push(item(format!("{} values", p.name), move |w| c30_values(w, p, sz)));
        items.push(item(format!("{} refused", p.name), move |w| c30_refused(w, p)));
    }
    plan_of(
        items,
        "each state is a PDU object with the operations applied to it through the Pdu interface so far; after every operation the complete visible state (header, every field, the type behind as_any) is compared with the model's",
        vec![
            format!("every sequence of {} of 9 operations (calculate_length, finalize, serialize, the same through dyn Pdu, header edits, assignments, relay through peek and decode), from a stale and a fresh object, for each of the PDU types", sz.pick3(4, 4, 5)),
            "list shapes of up to 1 (thorough: 2) elements x 3 fills x 3 headers and single fields, with a fixed sequence of operations on each".into(),
            "as_any is tried against all PDU types each time".into(),
        ],
    )
}

// ------------------------------------------------------------------ C31
fn c31_copy(w: &mut W, r: &'static RecInfo, v: &Val, other: &Val) {
    let want = crate::c_rec::rec_enc(r.ty, v);
    if !w.state(r.name, &want) {
        return;
    }
    w.traces += 1;
    match w.imp("copy", r.name, &want, || ((r.copies)(v, other), (r.echo)(v))) {
        Ok((c, echo)) => {
            for (what, x) in [("a copy", &c.clone), ("a copy made in place", &c.onto), ("the original of a copy", &c.original)] {
                if *x != echo {
                    w.viol(format!("{}: {what} differs in {}", r.name, strip_idx(&r.ty.path_name(&echo.diff(x)))), || {
                        format!("{x:?} of {echo:?}")
                    });
                }
            }
            if c.clone_bytes[..] != want[..] || c.original_bytes[..] != want[..] {
                w.viol(format!("{}: a copy encodes differently", r.name), || {
                    format!("{} and {} should be {}", hex(&c.clone_bytes), hex(&c.original_bytes), hex(&want))
                });
            }
        }
        Err(e) => w.viol(format!("{}: panic while copying", r.name), || e),
    }
}
/// equality by the fields: floats by value
fn same(r: &RecTy, a: &Val, b: &Val, part: Option<usize>) -> bool {
    let leaves = |v| {
        let mut l = genv::leaves(r, v);
        l.retain(|l| part.is_none_or(|i| l.0[0] == i));
        l
    };
    let (la, lb) = (leaves(a), leaves(b));
    if la.len() != lb.len() || la.iter().zip(&lb).any(|(x, y)| x.0 != y.0) {
        return false;
    }
    if part.map_or_else(|| tags(a) != tags(b), |i| tags(a.child(i)) != tags(b.child(i))) {
        return false;
    }
    la.iter().all(|(p, l)| match l {
        Leaf::Int(Num::F, 4) => f32::from_bits(a.at(p).u() as u32) == f32::from_bits(b.at(p).u() as u32),
        Leaf::Int(Num::F, _) => f64::from_bits(a.at(p).u()) == f64::from_bits(b.at(p).u()),
        _ => a.at(p) == b.at(p),
    })
}
fn tags(v: &Val) -> Vec<u64> {
    match v {
        Val::V(t, x) => std::iter::once(*t).chain(x.iter().flat_map(tags)).collect(),
        Val::L(x) | Val::S(x) => std::iter::once(x.len() as u64).chain(x.iter().flat_map(tags)).collect(),
        _ => vec![],
    }
}
/// a == b, b == a, a != b, a == a
type EqFn = fn(&Val, &Val) -> (bool, bool, bool);
fn eq_of<T: Bind + PartialEq>(a: &Val, b: &Val) -> (bool, bool, bool) {
    let (a, b) = (T::build(a), T::build(b));
    (a == b, b == a, a != b)
}
struct Cmp {
    name: &'static str,
    ty: &'static RecTy,
    /// position of the compared part in the record
    part: Option<usize>,
    eq: EqFn,
}
fn comparables() -> Vec<Cmp> {
    let rt = |n: &str| spec::spec().recs.get(n).unwrap_or_else(|| panic!("engine: {n}"));
    let last = |n: &str| Some(rt(n).vfields().map(|f| f.0).max().expect("engine: fields"));
    vec![
        Cmp { name: "Vector3Float", ty: rt("Vector3Float"), part: None, eq: eq_of::<dt::vector3_float::Vector3Float> },
        Cmp { name: "EntityId", ty: rt("EntityId"), part: None, eq: eq_of::<dt::entity_id::EntityId> },
        Cmp { name: "EntityType", ty: rt("EntityType"), part: None, eq: eq_of::<dt::entity_type::EntityType> },
        Cmp {
            name: "SimulationAddress",
            ty: rt("SimulationAddress"),
            part: None,
            eq: eq_of::<dt::simulation_address::SimulationAddress>,
        },
        Cmp {
            name: "GridAxisDescriptor",
            ty: rt("GridAxisDescriptor"),
            part: last("GridAxisDescriptor"),
            eq: eq_of::<dt::grid_axis_descriptor::GridAxisType>,
        },
        Cmp {
            name: "GridDataRecord",
            ty: rt("GridDataRecord"),
            part: last("GridDataRecord"),
            eq: eq_of::<dt::grid_data_record::DataRepresentationType>,
        },
    ]
}
fn c31_eq(w: &mut W, c: &Cmp, a: &Val, b: &Val) {
    let (pa, pb) = match c.part {
        None => (a, b),
        Some(i) => (a.child(i), b.child(i)),
    };
    let want = same(c.ty, a, b, c.part);
    w.traces += 1;
    match w.imp("compare", c.name, &[], || (c.eq)(pa, pb)) {
        Ok(r) if r == (want, want, !want) => w.outcome(if want { "equal" } else { "unequal" }),
        r => w.viol(format!("{}: == is not equality of the fields", c.name), || {
            format!("{pa:?} and {pb:?} give {r:?}, should be {want}")
        }),
    }
}
fn c31_cmp(w: &mut W, c: &Cmp, sz: Sz) {
    let mut set: Vec<Val> = vec![];
    drive::structs(c.ty, Skel { max: 2, nodec: false, cap: 60 }, &[Mode::Pattern(1), Mode::Zero, Mode::Pattern(8)], &mut |v| {
        set.push(v.clone());
        true
    });
    for n in [1usize, 2] {
        let Some(b) = base(c.ty, n, 1) else { continue };
        // complete single fields against the base value and itself
        drive::singles(c.ty, &b, sz.pick(Depth::Quick, Depth::Thorough), false, &mut |v| {
            if w.state(c.name, format!("{v:?}").as_bytes()) {
                c31_eq(w, c, &b, v);
                c31_eq(w, c, v, v);
            }
            !w.full()
        });
        drive::pairs(c.ty, &b, Depth::Mid, false, (0, 1), &mut |v| {
            c31_eq(w, c, &b, v);
            c31_eq(w, c, v, v);
            !w.full()
        });
        // neighbours: fields that differ as little as they can, at every value of the alphabet
        let mut near = |g: &Val, d: Depth| {
            let mut g = g.clone();
            for (path, l) in genv::leaves(c.ty, &g) {
                for x in genv::alphabet(l, d) {
                    let Val::U(u) = x else { continue };
                    let old = genv::put(&mut g, &path, l, &x);
                    for y in [u.wrapping_add(1), u.wrapping_sub(1), u ^ 2, u.wrapping_add(3), u ^ 0x80, u.swap_bytes()] {
                        let y = match l {
                            Leaf::Int(_, k) => y & genv::wmask(k),
                            Leaf::Raw => y & 255,
                            Leaf::Flags(_, m) => y & m,
                            _ => continue,
                        };
                        let mut h = g.clone();
                        genv::put(&mut h, &path, l, &Val::U(y));
                        c31_eq(w, c, &g, &h);
                        if w.full() {
                            return;
                        }
                    }
                    genv::put(&mut g, &path, l, &old);
                }
            }
        };
        near(&b, sz.pick(Depth::Quick, Depth::Thorough));
        let mut p8 = vec![];
        drive::structs(c.ty, Skel { max: n, nodec: false, cap: 8 }, &[Mode::Max, Mode::Zero, Mode::Alt, Mode::Pattern(4)], &mut |v| {
            p8.push(v.clone());
            true
        });
        for g in &p8 {
            near(g, Depth::Mid);
        }
        // each code and small number as the background of each other difference
        let mut grounds = vec![];
        for d in [Depth::Codes, Depth::Mid] {
            drive::singles(c.ty, &b, d, false, &mut |v| {
                grounds.push(v.clone());
                true
            });
        }
        drive::pairs(c.ty, &b, Depth::Small, false, (0, 1), &mut |v| {
            grounds.push(v.clone());
            grounds.len() < sz.pick(20_000, 200_000)
        });
        for g in &grounds {
            drive::singles(c.ty, g, Depth::Tiny, false, &mut |v| {
                c31_eq(w, c, g, v);
                c31_eq(w, c, v, v);
                !w.full()
            });
            if w.full() {
                return;
            }
        }
        drive::singles(c.ty, &b, Depth::Mid, false, &mut |v| {
            set.push(v.clone());
            true
        });
        drive::pairs(c.ty, &b, Depth::Tiny, false, (0, 1), &mut |v| {
            set.push(v.clone());
            set.len() < sz.pick(900, 2500)
        });
    }
    for a in &set {
        for b in &set {
            c31_eq(w, c, a, b);
        }
        if w.full() {
            return;
        }
    }
    w.sample(|| format!("{} values of {}, all pairs", set.len(), c.name));
}
fn c31_enum(w: &mut W, e: &'static bind::EnumInfo) {
    for a in &e.codes {
        w.state(e.name, &a.to_be_bytes());
        for b in &e.codes {
            w.traces += 1;
            w.transitions += 1;
            let (eq, ne, c) = (e.same)(*a, *b);
            if eq != (a == b) || ne == eq || c != *a {
                w.viol(format!("{}: members do not compare or copy by identity", e.name), || {
                    format!("{} and {}: == {eq}, != {ne}, copy of the first {}", e.member(*a), e.member(*b), e.member(c))
                });
                return;
            }
        }
    }
}
fn hdr_variants() -> Vec<Hdr> {
    let b = HDRS()[0];
    let codes = |n: &str| bind::enum_by_name(n).codes.iter().map(|c| *c as u8).collect::<Vec<_>>();
    let mut v = vec![b, hdr0()];
    v.extend(codes("ProtocolVersion").into_iter().map(|x| Hdr { version: x, ..b }));
    v.extend((0..=255).map(|x| Hdr { exercise: x, ..b }));
    v.extend(codes("PduType").into_iter().map(|x| Hdr { typ: x, ..b }));
    v.extend(codes("ProtocolFamily").into_iter().map(|x| Hdr { family: x, ..b }));
    v.extend((0..32).map(|x| Hdr { timestamp: b.timestamp ^ 1 << x, ..b }));
    v.extend((0..16).map(|x| Hdr { length: b.length ^ 1 << x, ..b }));
    v.extend((0..=255).map(|x| Hdr { status: x, ..b }));
    // two fields that make up for each other in a sum or an exclusive or
    for d in [1u8, 2, 7, 128] {
        v.push(Hdr { exercise: b.exercise.wrapping_add(d), status: b.status.wrapping_sub(d), ..b });
        v.push(Hdr { exercise: b.exercise ^ d, status: b.status ^ d, ..b });
        v.push(Hdr { timestamp: b.timestamp.wrapping_add(u32::from(d)), length: b.length.wrapping_sub(u16::from(d)), ..b });
        v.push(Hdr { timestamp: b.timestamp ^ u32::from(d), length: b.length ^ u16::from(d), ..b });
        v.push(Hdr { timestamp: b.timestamp.wrapping_sub(u32::from(d)), exercise: b.exercise.wrapping_add(d), ..b });
    }
    v
}
fn c31_headers(w: &mut W, live: bool) {
    let subs = bind::enum_by_name("DISLiveEntitySubprotocolNumber");
    let mut vs = hdr_variants();
    if live {
        vs.retain(|h| subs.has(u64::from(h.status)) || h.status == hdr_pat().status);
        for h in &mut vs {
            if !subs.has(u64::from(h.status)) {
                h.status = subs.codes[1 % subs.codes.len()] as u8;
            }
        }
    }
    for a in &vs {
        let mut k = vec![u8::from(live)];
        a.enc(&mut k);
        w.state("header", &k);
        for b in &vs {
            w.traces += 1;
            let r = w.imp("compare headers", "", &k, || {
                if live {
                    let (x, y) = (crate::c_hdr::live_of(a), crate::c_hdr::live_of(b));
                    let mut z = y;
                    z.clone_from(&x);
                    let (mut p, mut q, mut r) = (BytesMut::new(), BytesMut::new(), BytesMut::new());
                    LiveEntityPduHeader::serialize(&x, &mut p);
                    LiveEntityPduHeader::serialize(&x.clone(), &mut q);
                    LiveEntityPduHeader::serialize(&z, &mut r);
                    (x == y, y == x, x != y, p == q && q == r)
                } else {
                    let (mut x, mut y) = (PduHeader::default(), PduHeader::default());
                    set_header(&mut x, a);
                    set_header(&mut y, b);
                    let mut z = y;
                    z.clone_from(&x);
                    (x == y, y == x, x != y, get_header(&x.clone()) == *a && get_header(&z) == *a)
                }
            });
            let e = a == b;
            if r != Ok((e, e, !e, true)) {
                w.viol(format!("{} header: comparison or copy", if live { "live-entity" } else { "standard" }), || {
                    format!("{a:?} and {b:?}: {r:?}")
                });
                return;
            }
        }
    }
}
fn c31_status(w: &mut W) {
    for a in 0..=255u8 {
        w.state("status", &[a]);
        for b in 0..=255u8 {
            w.traces += 1;
            let r = w.imp("compare status", "", &[a, b], || {
                let (x, y) = (PduStatusRecord::from_u8(a), PduStatusRecord::from_u8(b));
                let mut z = y;
                z.clone_from(&x);
                (x == y, x != y, x.clone().to_u8(), z.to_u8())
            });
            if r != Ok((a == b, a != b, a, a)) {
                w.viol("status record: comparison or copy".into(), || format!("{a:#x} and {b:#x}: {r:?}"));
                return;
            }
        }
    }
}
fn flags_same<T: Copy + PartialEq>(w: &mut W, name: &'static str, xs: &[u64], of: fn(u64) -> T, bits: fn(T) -> u64) {
    for a in xs {
        w.state(name, &a.to_be_bytes());
        for b in xs {
            w.traces += 1;
            let r = w.imp("compare flags", name, &[], || {
                let (x, y) = (of(*a), of(*b));
                (x == y, x != y, bits(Clone::clone(&x)))
            });
            if r != Ok((a == b, a != b, *a)) {
                w.viol(format!("{name}: comparison or copy"), || format!("{a:#x} and {b:#x}: {r:?}"));
                return;
            }
        }
    }
}
fn flag_sets(name: &str) -> Vec<u64> {
    let (_, m) = bind::flag_mask(name);
    let bits: Vec<u64> = (0..64).map(|k| 1u64 << k).filter(|b| m & b != 0).collect();
    let mut v = vec![0, m];
    v.extend(&bits);
    v.extend(bits.iter().map(|b| m & !b));
    for a in &bits {
        v.extend(bits.iter().filter(|b| *b > a).map(|b| a | b));
    }
    v.sort_unstable();
    v.dedup();
    v
}
fn c31_sections(w: &mut W, max: usize) {
    macro_rules! one {
        ($t:ty, $n:expr) => {
            for n in 0..=$n {
                for seed in 0..3u8 {
                    let b: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(7).wrapping_add(seed * 90)).collect();
                    if !w.state(stringify!($t), &b) {
                        continue;
                    }
                    w.traces += 1;
                    let r = w.imp("copy", stringify!($t), &b, || {
                        let x = <$t>::build(&Val::B(b.clone()));
                        let mut z = <$t>::build(&Val::B(vec![9; 5]));
                        z.clone_from(&x);
                        let c = x.clone();
                        drop(x);
                        (c.observe(), z.observe())
                    });
                    let want = Val::B(b.clone());
                    if r != Ok((want.clone(), want)) {
                        w.viol(format!("{}: a copy differs", stringify!($t)), || format!("{r:?} of {}", hex(&b)));
                    }
                }
            }
        };
    }
    one!(dt::modulation_parameters::ModulationParameters, 255);
    one!(dt::antenna_pattern::AntennaPattern, max);
}
pub fn c31(sz: Sz) -> Plan {
    let mut items = vec![];
    for r in records() {
        items.push(item(format!("{} copies", r.name), move |w| {
            let others: Vec<Val> = [(2, 40), (0, 3)].iter().filter_map(|(n, s)| base(r.ty, *n, *s)).collect();
            let Some(o) = others.first() else { return };
            drive::structs(
                r.ty,
                Skel { max: sz.pick(2, 3), nodec: false, cap: sz.pick(200, 2000) },
                &[Mode::Pattern(1), Mode::Zero, Mode::Max, Mode::Alt],
                &mut |v| {
                    c31_copy(w, r, v, o);
                    !w.full()
                },
            );
            if let Some(b) = base(r.ty, 1, 1) {
                let o = others.last().expect("engine: other");
                drive::singles(r.ty, &b, Depth::Quick, false, &mut |v| {
                    c31_copy(w, r, v, o);
                    !w.full()
                });
                drive::pairs(r.ty, &b, sz.pick(Depth::Tiny, Depth::Mid), false, (0, 1), &mut |v| {
                    c31_copy(w, r, v, o);
                    !w.full()
                });
            }
            w.sample(|| format!("copies of {}", r.name));
        }));
    }
    for c in comparables() {
        items.push(item(format!("{} comparisons", c.name), move |w| c31_cmp(w, &c, sz)));
    }
    for e in bind::enums() {
        items.push(item(format!("{} members", e.name), move |w| c31_enum(w, e)));
    }
    items.push(item("headers", |w| c31_headers(w, false)));
    items.push(item("live-entity headers", |w| c31_headers(w, true)));
    items.push(item("status records", c31_status));
    items.push(item("opaque sections", move |w| c31_sections(w, sz.pick(300, 2000))));
    items.push(item("flags", |w| {
        flags_same(
            w,
            "LandPlatformAppearance",
            &flag_sets("LandPlatformAppearance"),
            |x| en::LandPlatformAppearance::from_bits_retain(x as u32),
            |f| u64::from(f.bits()),
        );
        flags_same(
            w,
            "FrozenBehavior",
            &(0..256).collect::<Vec<_>>(),
            |x| en::FrozenBehavior::from_bits_retain(x as u8),
            |f| u64::from(f.bits()),
        );
        flags_same(
            w,
            "ObjectStateAppearanceGeneral",
            &flag_sets("ObjectStateAppearanceGeneral"),
            |x| en::ObjectStateAppearanceGeneral::from_bits_retain(x as u16),
            |f| u64::from(f.bits()),
        );
    }));
    plan_of(
        items,
        "each state is a value that is copied (clone, clone_from onto another value, in a vector), with original and copy overwritten and dropped in turn, or one that is compared; the model is the value's own fields",
        vec![
            "64 records: list shapes, single fields, pairs of fields".into(),
            "comparable records: all pairs of values that differ from a base value in up to two fields, complete single-field alphabets against the base, and every single difference on backgrounds of every code, small number and pair of small values".into(),
            "all pairs of members of all 402 enumerations; all 65536 pairs of status bytes; header variants pairwise; flag words of up to two flags (or all but one) pairwise".into(),
        ],
    )
}

// ------------------------------------------------------------------ C32
/// Repeat `f` (which must drop all it makes): does what it keeps grow with the repetitions?
/// Some(bytes per repetition) if it does.
/// Once a GB has been lost to leaks that were found the exploration ends: the verdict stands, and
/// the machine has other users.
fn leak(w: &mut W, op: &'static str, unit: &str, b: &[u8], mut f: impl FnMut()) -> Option<f64> {
    static LOST: AtomicIsize = AtomicIsize::new(0);
    if LOST.load(SeqCst) > 1 << 30 {
        return None;
    }
    let mut run = |w: &mut W, n: usize| -> Option<isize> {
        w.imp(op, unit, b, || (0..n).for_each(|_| f())).ok()?;
        Some(alloc::kept())
    };
    // caches may fill the first time
    run(w, 1)?;
    if run(w, 1)? <= 0 {
        return None;
    }
    // an append-only log would grow without end, a bounded one stops
    run(w, 512)?;
    let a = run(w, 1024)?;
    let c = run(w, 2048)?;
    if a + c > 0 && c > 0 {
        LOST.fetch_add(a + c, SeqCst);
        Some((a + c) as f64 / 3072.0)
    } else {
        None
    }
}
fn c32_ops(p: &'static PduInfo, b: &[u8], v: Option<&Val>) -> Vec<(&'static str, Box<dyn FnMut()>)> {
    let b: std::rc::Rc<[u8]> = b.into();
    let (b1, b2, b3) = (b.clone(), b.clone(), b.clone());
    let mut ops: Vec<(&'static str, Box<dyn FnMut()>)> = vec![
        ("decoding", Box::new(move || drop((p.dec_slice)(&mut &b1[..])))),
        (
            "decoding segments",
            Box::new(move || {
                let cut = [b2.len() / 2];
                let mut f = crate::fragbuf::FragBuf::new(&b2, &cut);
                let mut d: bind::DynBuf = &mut f;
                drop((p.dec_dyn)(&mut d));
            }),
        ),
        (
            "decoding with a header",
            Box::new(move || {
                if b3.len() >= 12 {
                    let mut s = &b3[..];
                    let h = PduHeader::deserialize(&mut s);
                    drop((p.body_slice)(&mut s, h));
                }
            }),
        ),
    ];
    if let Some(v) = v {
        let v = v.clone();
        ops.push((
            "encoding",
            Box::new(move || {
                let mut o = p.make(&hdr_pat(), &v);
                let mut b = BytesMut::new();
                let _ = o.calc();
                o.finalize();
                drop(o.serialize(&mut b));
                drop(o.serialize(&mut b));
            }),
        ));
    }
    ops
}
fn c32_pdu(w: &mut W, p: &'static PduInfo, sz: Sz) {
    let one = |w: &mut W, b: &[u8], v: Option<&Val>, what: &str| {
        if !w.state(p.name, b) {
            return;
        }
        for (op, mut f) in c32_ops(p, b, v) {
            w.traces += 1;
            if let Some(n) = leak(w, "repeat", p.name, b, &mut *f) {
                w.viol(format!("{}: {op} {what} keeps memory", p.name), || format!("{n:.1} bytes each time: {}", hex(b)));
            }
        }
    };
    let h = hdr_pat();
    for n in 0..=2 {
        let Some(v) = base(p.ty, n, 2) else { continue };
        let b = packet(p.ty, &h, &v);
        // every cut: errors half way
        for cut in 0..b.len() {
            if cut < 400 || cut + 100 > b.len() {
                one(w, &b[..cut], None, "a truncated packet");
            }
        }
        // every field
        drive::singles(p.ty, &v, sz.pick(Depth::Tiny, Depth::Mid), false, &mut |v| {
            let b = packet(p.ty, &h, v);
            one(w, &b, Some(v), "");
            !w.full()
        });
        // every byte
        for i in 0..b.len().min(sz.pick(600, 3000)) {
            for x in [0u8, 1, 0x7F, 0xFF] {
                let mut c = b.clone();
                c[i] = x;
                one(w, &c, None, "a corrupted packet");
            }
        }
        if w.full() {
            return;
        }
    }
    drive::structs(p.ty, Skel { max: 2, nodec: false, cap: sz.pick(60, 600) }, &[Mode::Pattern(3), Mode::Max], &mut |v| {
        let b = packet(p.ty, &h, v);
        one(w, &b, Some(v), "");
        !w.full()
    });
    if let Some(v) = crate::c_fault::oversize(p) {
        one(w, &[0; 11], Some(&v), "an oversized PDU or short packet");
    }
    w.traces += 1;
    if let Some(n) = leak(w, "repeat", p.name, b"new", || drop((p.new)())) {
        w.viol(format!("{}: creating keeps memory", p.name), || format!("{n:.1} bytes each time"));
    }
    w.sample(|| format!("{}: packets, cuts and corruptions, each repeated", p.name));
}
/// well mixed: all values of a field occur, and any two fields of it together differ from packet to packet
fn mix(k: u64, i: u64) -> u64 {
    let mut z = k.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(i.wrapping_mul(0xD1B5_4A32_D192_ED03));
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
/// the k-th of a series of values that all differ
fn distinct(lv: &[(Vec<usize>, Leaf)], v: &Val, k: u64) -> Val {
    let mut x = v.clone();
    for (i, (path, l)) in lv.iter().enumerate() {
        let m = mix(k, i as u64);
        let y = match l {
            Leaf::Int(_, w) => Val::U(m & genv::wmask(*w)),
            Leaf::Enum(e) => Val::U(e.codes[(m % e.codes.len() as u64) as usize]),
            Leaf::Flags(_, mask) => Val::U(m & mask),
            Leaf::Marking => Val::Str(format!("{k:011}")),
            Leaf::Raw => Val::U(m & 255),
        };
        genv::put(&mut x, path, *l, &y);
    }
    x
}
/// A long run of different inputs: nothing may be kept for each of them.
fn grows(w: &mut W, unit: &'static str, what: &str, chunk: usize, mut next: impl FnMut(usize)) {
    let mut kept = vec![];
    for _ in 0..8 {
        w.traces += 1;
        w.state(unit, format!("{what} {}", kept.len()).as_bytes());
        if let Err(e) = w.imp("many different", unit, &[], || next(chunk)) {
            w.viol(format!("{unit}: panic in a long run"), || e);
            return;
        }
        kept.push(alloc::kept());
    }
    let late: isize = kept[4..].iter().sum();
    if late > 0 {
        // a growing table grows now and then, a bounded one stops
        let r = w.imp("many different", unit, &[], || next(4 * chunk));
        let more = alloc::kept();
        if r.is_ok() && more > 0 {
            let r = w.imp("many different", unit, &[], || next(8 * chunk));
            let last = alloc::kept();
            if r.is_ok() && last > 0 {
                w.viol(format!("{unit}: memory grows with the number of {what}"), || {
                    format!("{kept:?} bytes per {chunk} different {what}, then {more}, then {last}")
                });
            }
        }
    }
}
/// Refused and failing calls whose facts differ from each call to the next.
fn c32_turns(w: &mut W, p: &'static PduInfo) {
    let h = hdr_pat();
    let mut over: Vec<Val> = vec![];
    for (path, t) in drive::lists(p.ty, &genv::uniform(p.ty, 1, true)) {
        if path.len() > 1 || matches!(t, spec::Ty::OptBytes(_)) || over.len() > 6 {
            continue;
        }
        let mut v = genv::uniform(p.ty, 1, true);
        let mut size = |n: usize| {
            drive::set_len(&mut v, &path, t, n);
            packet(p.ty, &hdr0(), &v).len()
        };
        let (s0, el) = (size(0), (size(8) - size(0)) / 8);
        if el == 0 {
            continue;
        }
        let n = (drive::LIMIT - s0) / el + 1;
        for k in 0..2 {
            if size(n + k) > drive::LIMIT {
                let mut x = genv::uniform(p.ty, 1, true);
                drive::set_len(&mut x, &path, t, n + k);
                over.push(x);
            }
        }
    }
    let v = base(p.ty, 1, 2).unwrap_or_else(|| genv::uniform(p.ty, 0, true));
    let b = packet(p.ty, &h, &v);
    let mut objs: Vec<_> = over.iter().map(|v| p.make(&h, v)).collect();
    let mut good = p.make(&h, &v);
    type Step<'a> = Box<dyn FnMut(usize) + 'a>;
    let steps: Vec<(&'static str, Step)> = vec![
        (
            "PDUs that are too big",
            Box::new(|k| {
                let mut o = BytesMut::new();
                let i = k % objs.len().max(1);
                if let Some(x) = objs.get_mut(i) {
                    let _ = x.serialize(&mut o);
                    let _ = x.calc();
                }
            }),
        ),
        ("truncated packets", Box::new(|k| drop((p.dec_slice)(&mut &b[..(k * 7 + 3) % b.len()])))),
        (
            "packets of other types",
            Box::new(|k| {
                let mut c = b.clone();
                c[2] = (k * 5) as u8;
                c[3] = (k * 3) as u8;
                drop((p.dec_slice)(&mut &c[..]));
                let mut s = &c[..];
                let hd = PduHeader::deserialize(&mut s);
                drop((p.body_slice)(&mut s, hd));
            }),
        ),
        (
            "lengths and codes that are wrong",
            Box::new(|k| {
                let mut c = b.clone();
                let i = 8 + (k * 3) % (c.len() - 8);
                c[i] ^= 0x55 + k as u8;
                drop((p.dec_slice)(&mut &c[..]));
                let _ = PduHeader::get_pdu_type(&c[..k % 5]);
            }),
        ),
        (
            "good packets and PDUs",
            Box::new(|k| {
                let mut o = BytesMut::new();
                good.header_mut().timestamp = k as u32;
                good.header_mut().exercise_id = k as u8;
                let _ = good.serialize(&mut o);
                drop((p.dec_slice)(&mut &o[..]));
            }),
        ),
    ];
    // each kind in turns of different facts, then any two kinds in turns
    let n = steps.len();
    let steps: Vec<_> = steps.into_iter().map(|(s, f)| (s, std::cell::RefCell::new(f))).collect();
    for i in 0..n {
        for j in i..n {
            w.traces += 1;
            w.state(p.name, &[i as u8, j as u8, 99]);
            let g = leak(w, "repeat in turns", p.name, &[], || {
                for k in 0..4 {
                    (steps[i].1.borrow_mut())(k);
                    if j != i {
                        (steps[j].1.borrow_mut())(k + 1);
                    }
                }
            });
            if let Some(g) = g {
                let what = if i == j { steps[i].0.to_string() } else { format!("{} and {}", steps[i].0, steps[j].0) };
                w.viol(format!("{}: memory is kept for {what}", p.name), || format!("{g:.1} bytes for each four, the facts taken in turns"));
                break;
            }
        }
    }
}
fn c32_distinct(w: &mut W, p: &'static PduInfo, chunk: usize) {
    for n in 0..=2 {
        let Some(v) = base(p.ty, n, 2) else { continue };
        let ctl = genv::controls(p.ty, &v);
        let lv: Vec<_> = genv::leaves(p.ty, &v).into_iter().filter(|l| !ctl.contains(&l.0)).collect();
        let mut k = 0u64;
        grows(w, p.name, if n == 0 { "packets without lists" } else { "packets" }, chunk, |n| {
            for _ in 0..n {
                k += 1;
                let x = distinct(&lv, &v, k);
                let h = Hdr { timestamp: k as u32, exercise: k as u8, status: (k >> 8) as u8, ..hdr_pat() };
                let mut o = p.make(&h, &x);
                let mut b = BytesMut::new();
                drop(o.serialize(&mut b));
                drop((p.dec_slice)(&mut &b[..]));
                drop((p.dec_slice)(&mut &b[..b.len() / 2]));
                // the type of another PDU
                if b.len() > 2 {
                    b[2] = k as u8;
                    drop((p.dec_slice)(&mut &b[..]));
                }
            }
        });
        if w.full() {
            return;
        }
    }
}
fn c32_rec_distinct(w: &mut W, r: &'static RecInfo, chunk: usize) {
    for n in 0..=2 {
        let Some(v) = base(r.ty, n, 2) else { continue };
        let ctl = genv::controls(r.ty, &v);
        let lv: Vec<_> = genv::leaves(r.ty, &v).into_iter().filter(|l| !ctl.contains(&l.0)).collect();
        let mut k = 0u64;
        grows(w, r.name, "values", chunk, |n| {
            for _ in 0..n {
                k += 1;
                let x = distinct(&lv, &v, k);
                let mut a = BytesMut::new();
                (r.ser)(&x, &mut a);
                drop((r.dec_slice)(&mut &a[..]));
                drop((r.copies)(&x, &x));
            }
        });
    }
}
fn c32_rec(w: &mut W, r: &'static RecInfo, sz: Sz) {
    for n in 0..=2 {
        let Some(b) = base(r.ty, n, 3) else { continue };
        let mut one = |v: &Val| {
            let bytes = crate::c_rec::rec_enc(r.ty, v);
            if w.state(r.name, &bytes) {
                w.traces += 1;
                let g = leak(w, "repeat", r.name, &bytes, || {
                    let mut a = BytesMut::new();
                    (r.ser)(v, &mut a);
                    drop((r.dec_slice)(&mut &a[..]));
                    drop((r.copies)(v, v));
                });
                if let Some(g) = g {
                    w.viol(format!("{}: keeps memory", r.name), || format!("{g:.1} bytes each time: {v:?}"));
                }
            }
            !w.full()
        };
        drive::singles(r.ty, &b, sz.pick(Depth::Tiny, Depth::Mid), false, &mut one);
        drive::structs(r.ty, Skel { max: 2, nodec: false, cap: 60 }, &[Mode::Pattern(3), Mode::Max], &mut one);
    }
}
fn c32_headers(w: &mut W) {
    for h in hdr_variants() {
        let mut b = vec![];
        h.enc(&mut b);
        w.state("header", &b);
        w.traces += 1;
        let b2 = b.clone();
        let g = leak(w, "repeat", "headers", &b, move || {
            let mut s = &b2[..];
            let x = PduHeader::deserialize(&mut s);
            let mut o = BytesMut::new();
            x.serialize(&mut o);
            let mut s = &b2[..];
            LiveEntityPduHeader::deserialize(&mut s).serialize(&mut o);
            let _ = PduHeader::get_pdu_type(&b2);
            let _ = PduHeader::default();
            let _ = LiveEntityPduHeader::default();
            let _ = PduHeader::calculate_dis_timestamp();
            let e = DISError::invalid_header("short", Some(Box::new(DISError::buffer_underflow(4, 2))));
            drop(e.to_string());
        });
        if let Some(g) = g {
            w.viol("headers keep memory".into(), || format!("{g:.1} bytes each time: {}", hex(&b)));
        }
    }
}
/// the faults of C05
fn c32_fault(w: &mut W, p: &'static PduInfo, b: &[u8]) {
    if w.full() || !w.state(p.name, b) {
        return;
    }
    w.traces += 1;
    let g = leak(w, "repeat", p.name, b, || {
        drop((p.dec_slice)(&mut &b[..]));
        if b.len() >= 12 {
            let mut s = b;
            let h = PduHeader::deserialize(&mut s);
            drop((p.body_slice)(&mut s, h));
        }
    });
    if let Some(g) = g {
        w.viol(format!("{}: decoding keeps memory", p.name), || format!("{g:.1} bytes each time: {}", hex(b)));
    }
}
pub fn c32(sz: Sz) -> Plan {
    let mut items = crate::c_fault::fault_items(sz, c32_fault);
    for p in pdus() {
        items.push(item(format!("{} each", p.name), move |w| c32_pdu(w, p, sz)));
        items.push(item(format!("{} in turns", p.name), move |w| c32_turns(w, p)));
        items.push(item(format!("{} different packets", p.name), move |w| c32_distinct(w, p, sz.pick(256, 4096))));
    }
    for r in records() {
        items.push(item(format!("{} each", r.name), move |w| c32_rec(w, r, sz)));
        items.push(item(format!("{} different values", r.name), move |w| c32_rec_distinct(w, r, sz.pick(256, 4096))));
    }
    items.push(item("headers and errors", c32_headers));
    plan_of(
        items,
        "each state is an input or a value; an operation on it (decode, decode segments, decode with a header, encode, create) is repeated with the allocator's books kept: what stays allocated after all results are dropped may not grow with the repetitions",
        vec![
            "the fault space of C05 (truncations, corrupted bytes and pairs, counts and lengths, constant bodies, all two-byte bodies), decoded with and without a supplied header".into(),
            "per PDU type: reference packets of up to 2 list elements, every cut, every byte at 4 values, every field over a small alphabet, list shapes, an oversized PDU".into(),
            "per PDU type: oversized PDUs of differing sizes, cuts, other type and family codes, corruptions and good PDUs with differing headers, each kind in turns and any two kinds in turns".into(),
            format!("per PDU type and record: 8 rounds of {} packets or values that all differ in every field and the header, with lists of 0, 1 and 2 elements, whole, cut in half and with every type code", sz.pick(256, 4096)),
            "a cache that stops growing is no violation: growth must go on for 3072 repetitions, or three further rounds".into(),
        ],
    )
}
