//! C29: error values carry the facts of the failure, in their fields and in their text.
use crate::bind::{Bind, PduInfo, enum_by_name, pdus, set_header};
use crate::checks::{Sz, plan_of};
use crate::drive::{self, hdr_pat};
use crate::engine::{Plan, W, hex, item};
use crate::val::Val;
use bytes::BytesMut;
use open_dis_rust as od;
use od::common::PduHeader;
use od::common::dis_error::{DISError, PduState};
use od::common::enums::{PduType, ProtocolVersion};
use std::error::Error;

/// words of a message, in order
fn words(s: &str) -> Vec<&str> {
    s.split(|c: char| !c.is_ascii_alphanumeric() && c != '_').filter(|w| !w.is_empty()).collect()
}
/// do these appear as words, in this order?
fn in_order(s: &str, parts: &[&str]) -> bool {
    let w = words(s);
    let mut i = 0;
    for p in parts {
        match w[i..].iter().position(|x| x == p) {
            Some(k) => i += k + 1,
            None => return false,
        }
    }
    true
}
fn chain(e: &DISError) -> Vec<String> {
    let mut o = vec![e.to_string()];
    let mut s = e.source();
    while let Some(x) = s {
        o.push(x.to_string());
        s = x.source();
    }
    o
}

// ---- the type mismatch of a decoder names both types
fn mismatch(w: &mut W, p: &'static PduInfo, sz: Sz) {
    let own = format!("{:?}", PduType::build(&Val::U(u64::from(p.typ))));
    let known = &enum_by_name("PduType").codes;
    for n in 0..sz.pick(1, 3) {
        let Some((_, b)) = drive::base_packet(p, n, 31) else { continue };
        for c in 0..=255u8 {
            // an unassigned code is read as the default member
            let got = if known.binary_search(&u64::from(c)).is_ok() { c } else { enum_by_name("PduType").default as u8 };
            if got == p.typ {
                continue;
            }
            let other = format!("{:?}", PduType::build(&Val::U(u64::from(got))));
            let mut x = b.clone();
            x[2] = c;
            for whole in [true, false] {
                let mut id = x.clone();
                id.push(u8::from(whole));
                if !w.state(p.name, &id) {
                    continue;
                }
                w.traces += 1;
                let mut h = PduHeader::default();
                let mut hv = hdr_pat();
                hv.typ = got;
                set_header(&mut h, &hv);
                let r = w.imp("type mismatch", p.name, &x, || {
                    let r = if whole { (p.dec_slice)(&mut &x[..]) } else { (p.body_slice)(&mut &x[12..], h) };
                    match r {
                        Ok(_) => Err("decoded".to_string()),
                        Err(e) => match &e {
                            DISError::InvalidHeader { reason, source } => Ok((reason.clone(), source.is_some(), chain(&e))),
                            e => Err(format!("{e:?}")),
                        },
                    }
                });
                match r {
                    Ok(Ok((reason, src, ch))) => {
                        w.outcome(&reason);
                        if !in_order(&reason, &[&own, &other]) || src || ch.len() != 1 || !ch[0].contains(&reason) {
                            w.viol(format!("{}: type mismatch misreported", p.name), || {
                                format!("type code {c}: should name {own}, then {other}: {reason:?}, {ch:?}")
                            });
                        }
                    }
                    o => w.viol(format!("{}: type mismatch not reported as one", p.name), || format!("input {}: {o:?}", hex(&x))),
                }
            }
        }
        if w.full() {
            return;
        }
    }
}
/// the numbers of an underflow or size error are in its text, in order
fn numbers(w: &mut W, p: &'static PduInfo, sz: Sz) {
    for n in 0..sz.pick(2, 4) {
        let Some((v, b)) = drive::base_packet(p, n, 32) else { continue };
        for cut in 0..b.len() {
            if !w.state(p.name, &b[..cut]) {
                continue;
            }
            w.traces += 1;
            let r = w.imp("truncated packet", p.name, &b[..cut], || match (p.dec_slice)(&mut &b[..cut]) {
                Err(e) => match e {
                    DISError::BufferUnderflow { attempted, available } => Some((attempted, available, chain(&e))),
                    _ => None,
                },
                Ok(_) => None,
            });
            let Ok(Some((want, have, ch))) = r else { continue };
            w.outcome(&ch[0]);
            if want <= have || have > cut || ch.len() != 1 || !in_order(&ch[0], &[&want.to_string(), &have.to_string()]) {
                w.viol(format!("{}: underflow misreported", p.name), || {
                    format!("{cut} of {} bytes: {want} wanted, {have} available, {ch:?}", b.len())
                });
            }
        }
        // too large
        let lists = drive::lists(p.ty, &v);
        for (path, t) in lists.iter().filter(|l| l.0.len() == 1 && !matches!(l.1, crate::spec::Ty::OptBytes(_))) {
            for k in [9000usize, 70_000] {
                let mut big = v.clone();
                drive::set_len(&mut big, path, t, k);
                crate::genv::fill(p.ty, &mut big, crate::genv::Mode::Pattern(k as u64));
                let size = crate::spec::packet(p.ty, &hdr_pat(), &big).len();
                if size <= drive::LIMIT {
                    continue;
                }
                w.traces += 1;
                w.state(p.name, format!("{path:?} {k}").as_bytes());
                let r = w.imp("oversize", p.name, &[], || {
                    let mut x = p.make(&hdr_pat(), &big);
                    let mut out = BytesMut::new();
                    [x.serialize(&mut out).err(), x.calc().err()]
                        .into_iter()
                        .map(|e| match e {
                            Some(DISError::PduSizeExceeded { size, max_size }) => {
                                Some((size, max_size, DISError::PduSizeExceeded { size, max_size }.to_string()))
                            }
                            _ => None,
                        })
                        .collect::<Vec<_>>()
                });
                let want = (size, drive::LIMIT);
                let ok = r.as_ref().is_ok_and(|l| {
                    l.iter().all(|x| {
                        x.as_ref().is_some_and(|(s, m, t)| (*s, *m) == want && in_order(t, &[&s.to_string(), &m.to_string()]))
                    })
                });
                if !ok {
                    w.viol(format!("{}: size error misreported", p.name), || format!("{k} elements, {size} bytes: {r:?}"));
                }
            }
        }
    }
}

type Src = Option<Box<dyn Error + Send + Sync>>;
fn ctors(w: &mut W, sz: Sz) {
    let texts: Vec<String> = {
        let mut t: Vec<String> = ["", "x", "length", "{}", "{reason}", "%s", "\u{e9}\u{20ac}", "a\nb", "\"q\"", "0", "18446744073709551615", "Expected PDU type A, got B"]
            .iter()
            .map(ToString::to_string)
            .collect();
        t.push("long ".repeat(sz.pick(300, 3000)));
        t
    };
    let src = |k: usize| -> Src {
        match k {
            0 => None,
            1 => Some("the cause".into()),
            2 => Some(Box::new(std::io::Error::other("deep"))),
            _ => Some(Box::new(DISError::invalid_header("inner", Some("innermost".into())))),
        }
    };
    let tails: [&[&str]; 4] = [&[], &["the cause"], &["deep"], &["inner", "innermost"]];
    for t in &texts {
        for k in 0..4usize {
            for kind in 0..3 {
                w.traces += 1;
                if !w.state("message", format!("{kind} {k} {t}").as_bytes()) {
                    continue;
                }
                let r = w.imp("error constructor", "DISError", t.as_bytes(), || {
                    // &str and String arguments
                    let both = [
                        match kind {
                            0 => DISError::invalid_header(t.as_str(), src(k)),
                            1 => DISError::deserialization_error(t.as_str(), src(k)),
                            _ => DISError::serialization_error(t.as_str(), src(k)),
                        },
                        match kind {
                            0 => DISError::invalid_header(t.clone(), src(k)),
                            1 => DISError::deserialization_error(t.clone(), src(k)),
                            _ => DISError::serialization_error(t.clone(), src(k)),
                        },
                    ];
                    both.iter()
                        .map(|e| {
                            let field = match (kind, e) {
                                (0, DISError::InvalidHeader { reason, source }) => Some((reason.clone(), source.is_some())),
                                (1, DISError::DeserializationError { msg, source }) => Some((msg.clone(), source.is_some())),
                                (2, DISError::SerializationError { msg, source }) => Some((msg.clone(), source.is_some())),
                                _ => None,
                            };
                            (field, chain(e))
                        })
                        .collect::<Vec<_>>()
                });
                let ok = r.as_ref().is_ok_and(|l| {
                    l.iter().all(|(f, ch)| {
                        *f == Some((t.clone(), k > 0))
                            && ch[0].contains(t.as_str())
                            && ch.len() == 1 + tails[k].len()
                            && ch[1..].iter().zip(tails[k]).all(|(a, b)| a.contains(b))
                    })
                });
                if !ok {
                    w.viol(format!("error constructor {kind} loses its arguments"), || format!("{t:?} source {k}: {r:?}"));
                }
            }
        }
    }
    for a in &texts {
        for b in &texts {
            for c in &texts {
                w.traces += 1;
                if !w.state("field error", format!("{a}\0{b}\0{c}").as_bytes()) {
                    continue;
                }
                let r = w.imp("error constructor", "invalid_field", a.as_bytes(), || {
                    let e = DISError::invalid_field(a.as_str(), b, c);
                    let t = e.to_string();
                    match e {
                        DISError::InvalidFieldValue { field, value, reason } => Some((field, value, reason, t)),
                        _ => None,
                    }
                });
                // the three appear in the text in this order
                let ok = matches!(&r, Ok(Some((x, y, z, t))) if x == a && y == b && z == c && after(t, &[a, b, c]));
                if !ok {
                    w.viol("invalid_field loses its arguments".into(), || format!("{a:?} {b:?} {c:?}: {r:?}"));
                }
            }
        }
    }
}
/// each part is found after the previous one
fn after(t: &str, parts: &[&String]) -> bool {
    let mut at = 0;
    for p in parts {
        match t[at..].find(p.as_str()) {
            Some(k) => at += k + p.len(),
            None => return false,
        }
    }
    true
}
fn number_ctors(w: &mut W, sz: Sz) {
    let mut ns: Vec<usize> = vec![usize::MAX, usize::MAX - 1];
    for b in 0..64 {
        ns.extend([1usize << b, (1usize << b) - 1]);
    }
    ns.extend(0..sz.pick(40, 300));
    for &a in &ns {
        for &b in &ns {
            w.traces += 2;
            w.state("numbers", format!("{a} {b}").as_bytes());
            let r = w.imp("error constructor", "numbers", &[], || {
                let u = DISError::buffer_underflow(a, b);
                let s = DISError::pdu_size_exceeded(a, b);
                (
                    matches!(u, DISError::BufferUnderflow { attempted, available } if attempted == a && available == b),
                    matches!(s, DISError::PduSizeExceeded { size, max_size } if size == a && max_size == b),
                    u.to_string(),
                    s.to_string(),
                    u.source().is_none() && s.source().is_none(),
                )
            });
            let want = [&*a.to_string(), &*b.to_string()];
            if !matches!(&r, Ok((true, true, x, y, true)) if in_order(x, &want) && in_order(y, &want)) {
                w.viol("number errors lose their arguments".into(), || format!("({a}, {b}): {r:?}"));
            }
        }
    }
    let states = [PduState::Uninitialized, PduState::HeaderValid, PduState::BodyValid, PduState::Complete];
    for a in states {
        for b in states {
            w.traces += 1;
            w.state("states", format!("{a:?} {b:?}").as_bytes());
            let r = w.imp("error text", "state transition", &[], || {
                DISError::InvalidStateTransition { current_state: a, target_state: b }.to_string()
            });
            if !r.as_ref().is_ok_and(|t| in_order(t, &[&format!("{a:?}"), &format!("{b:?}")])) {
                w.viol("state transition error text".into(), || format!("{a:?} {b:?}: {r:?}"));
            }
        }
    }
    let vs = &enum_by_name("ProtocolVersion").codes;
    for &x in vs {
        for &y in vs {
            let (a, b) = (ProtocolVersion::build(&Val::U(x)), ProtocolVersion::build(&Val::U(y)));
            let (na, nb) = (format!("{a:?}"), format!("{b:?}"));
            w.traces += 1;
            w.state("versions", format!("{x} {y}").as_bytes());
            let r = w.imp("error text", "version mismatch", &[], || DISError::ProtocolVersionMismatch { expected: a, got: b }.to_string());
            if !r.as_ref().is_ok_and(|t| in_order(t, &[&na, &nb])) {
                w.viol("version mismatch error text".into(), || format!("{x} {y}: {r:?}"));
            }
        }
    }
    use std::io::ErrorKind as K;
    for k in [K::NotFound, K::PermissionDenied, K::ConnectionRefused, K::ConnectionReset, K::WouldBlock, K::TimedOut, K::Interrupted, K::UnexpectedEof, K::AddrInUse, K::Other] {
        for t in ["", "socket gone", "{}"] {
            w.traces += 1;
            w.state("io", format!("{k:?} {t}").as_bytes());
            let r = w.imp("error conversion", "io", &[], || {
                let f = |ok: bool| -> od::common::dis_error::DISResult<()> { if ok { Ok(()) } else { Err(std::io::Error::new(k, t))? } };
                let e = f(false).err()?;
                let ch = chain(&e);
                match e {
                    DISError::NetworkError(i) => Some((i.kind() == k && i.to_string() == t, ch)),
                    _ => None,
                }
            });
            // the cause is the io error itself, and its text is part of the message
            let ok = matches!(&r, Ok(Some((true, ch))) if ch[0].contains(t) && ch.len() >= 2 && ch[1] == t);
            if !ok {
                w.viol("io error not carried".into(), || format!("{k:?} {t:?}: {r:?}"));
            }
        }
    }
}

pub fn c29(sz: Sz) -> Plan {
    let mut items = vec![item("message errors", move |w| ctors(w, sz)), item("number and code errors", move |w| number_ctors(w, sz))];
    for p in pdus() {
        items.push(item(format!("{} type mismatches", p.name), move |w| mismatch(w, p, sz)));
        items.push(item(format!("{} underflows and oversizes", p.name), move |w| numbers(w, p, sz)));
    }
    plan_of(
        items,
        "each state is a failing operation (packet of another type, truncated packet, oversized PDU) or the arguments of an error constructor; variant, fields, text and chain of causes are compared with the facts",
        vec![
            "66 decoders x all 256 other type codes, both entry points; every cut of packets with lists of 0..1 elements; every outer list at 9000 and 70000 elements".into(),
            "error constructors: 13 texts singly by 4 causes, in all triples; all pairs of 168 numbers; all pairs of states and versions; 10 kinds of io error".into(),
        ],
    )
}
