//! C22: two threads working on separate PDUs. Schedules are enumerated at every machine
//! instruction (one thread is single stepped) and, with more preemptions, at cooperative points.
use crate::alloc;
use crate::bind::{DynBuf, PduInfo, RecInfo, get_header, pdus, set_header};
use crate::c_hdr::live_of;
use crate::c_rec::rec_enc;
use crate::checks::{Sz, plan_of};
use crate::drive::{self, Out, base, hdr_pat};
use crate::engine::{Plan, W, item};
use crate::fragbuf::FragBuf;
use crate::sched::{self, Baton, Ctl, Gate, Server, What};
use crate::spec::{Hdr, packet};
use crate::val::Val;
use bytes::{Buf, BytesMut};
use open_dis_rust::common::enums::{PduType, ProtocolFamily};
use open_dis_rust::common::{GenericHeader, LiveEntityPduHeader, PduHeader};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Encode,
    Decode,
    DecodeBody,
    DecodeShort,
    Create,
}
/// what an operation works on
#[derive(Clone, Copy)]
enum Unit {
    Pdu(&'static PduInfo),
    Rec(&'static RecInfo),
    /// a header on its own, standard or live-entity
    Head(bool),
}
impl Unit {
    fn name(self) -> &'static str {
        match self {
            Unit::Pdu(p) => p.name,
            Unit::Rec(r) => r.name,
            Unit::Head(false) => "PduHeader",
            Unit::Head(true) => "LiveEntityPduHeader",
        }
    }
    fn kinds(self) -> &'static [Kind] {
        match self {
            Unit::Pdu(_) => &KINDS,
            Unit::Rec(_) => &[Kind::Encode, Kind::Decode],
            Unit::Head(_) => &[Kind::Encode, Kind::Decode, Kind::Create],
        }
    }
}
fn units() -> Vec<Unit> {
    let mut v: Vec<Unit> = pdus().iter().map(Unit::Pdu).collect();
    v.extend(crate::bind::records().iter().map(Unit::Rec));
    v.extend([Unit::Head(false), Unit::Head(true)]);
    v
}
struct Op {
    u: Unit,
    kind: Kind,
    h: Hdr,
    v: Val,
    bytes: Vec<u8>,
}
#[derive(PartialEq, Clone)]
enum Res {
    Enc(Result<(Vec<u8>, Hdr), String>),
    Dec(Out),
    New(Hdr, Val),
    /// a record and the number of bytes left
    Rec(Val, usize),
    Head(String, usize),
}
impl Res {
    fn show(&self) -> String {
        match self {
            Res::Enc(Ok((b, h))) => format!("{} {h:?}", crate::engine::hex(&b[..b.len().min(120)])),
            Res::Enc(Err(e)) => e.clone(),
            Res::Dec(o) => o.show(),
            Res::New(h, v) => format!("{h:?} {v:?}").chars().take(300).collect(),
            Res::Rec(v, n) => format!("{v:?} with {n} bytes left").chars().take(300).collect(),
            Res::Head(h, n) => format!("{h} with {n} bytes left"),
        }
    }
}
fn op(u: Unit, kind: Kind, n: usize, seed: u64) -> Option<Op> {
    let mut h = hdr_pat();
    h.exercise = seed as u8;
    h.timestamp ^= (seed as u32) << 9;
    let (v, bytes) = match u {
        Unit::Pdu(p) => {
            let v = base(p.ty, n, seed)?;
            h.typ = p.typ;
            h.family = p.family;
            let mut bytes = packet(p.ty, &h, &v);
            if kind == Kind::DecodeShort {
                bytes.truncate(bytes.len() - 1);
            }
            (v, bytes)
        }
        Unit::Rec(r) => {
            let v = base(r.ty, n, seed)?;
            let bytes = rec_enc(r.ty, &v);
            (v, bytes)
        }
        Unit::Head(live) => {
            h.status = if live { 0 } else { seed as u8 % 4 };
            h.typ = 1 + seed as u8;
            h.family = 1 + seed as u8 % 4;
            let mut bytes = vec![7, h.exercise, h.typ, h.family];
            bytes.extend(h.timestamp.to_be_bytes());
            bytes.extend(h.length.to_be_bytes());
            bytes.extend([h.status, 0]);
            (Val::S(vec![]), bytes)
        }
    };
    Some(Op { u, kind, h, v, bytes })
}
fn head_op<H: GenericHeader + Default + std::fmt::Debug>(o: &Op, g: Gate, points: bool, make: impl Fn(&Hdr) -> H, new: impl Fn() -> H) -> Res {
    match o.kind {
        Kind::Encode => {
            let x = make(&o.h);
            let mut b = BytesMut::with_capacity(64);
            g.run(|| x.serialize(&mut b));
            Res::Enc(Ok((b.to_vec(), o.h)))
        }
        Kind::Create => {
            let x = g.run(new);
            Res::Head(format!("{:?} {:?} {}", x.pdu_type(), x.protocol_family(), x.length()), 0)
        }
        _ if points => {
            let mut f = FragBuf::new(&o.bytes, &[]);
            f.on_advance = Some(sched::coop);
            let mut d: DynBuf = &mut f;
            let x = g.run(|| H::deserialize(&mut d));
            Res::Head(format!("{x:?}"), d.remaining())
        }
        _ => {
            let mut s = &o.bytes[..];
            let x = g.run(|| H::deserialize(&mut s));
            Res::Head(format!("{x:?}"), s.len())
        }
    }
}
impl Op {
    fn name(&self) -> String {
        format!("{:?} {}", self.kind, self.u.name())
    }
    /// The operation; the scheduling points lie in the calls into the crate. `points`: the input
    /// is read through a buffer with a scheduling point per read.
    fn run(&self, g: Gate, points: bool) -> Res {
        match self.u {
            Unit::Pdu(p) => self.run_pdu(p, g, points),
            Unit::Rec(r) => self.run_rec(r, g, points),
            Unit::Head(false) => head_op(
                self,
                g,
                points,
                |h| {
                    let mut x = PduHeader::default();
                    set_header(&mut x, h);
                    x
                },
                || PduHeader::new(PduType::Fire, ProtocolFamily::Warfare, 3, 77),
            ),
            Unit::Head(true) => head_op(self, g, points, live_of, || LiveEntityPduHeader::new(PduType::Fire, ProtocolFamily::Warfare, 3, 77)),
        }
    }
    fn run_rec(&self, r: &'static RecInfo, g: Gate, points: bool) -> Res {
        if self.kind == Kind::Encode {
            let mut b = BytesMut::new();
            g.run(|| (r.ser)(&self.v, &mut b));
            return Res::Enc(Ok((b.to_vec(), self.h)));
        }
        if points {
            let mut f = FragBuf::new(&self.bytes, &[]);
            f.on_advance = Some(sched::coop);
            let mut d: DynBuf = &mut f;
            let v = g.run(|| (r.dec_dyn)(&mut d));
            Res::Rec(v, d.remaining())
        } else {
            let mut s = &self.bytes[..];
            let v = g.run(|| (r.dec_slice)(&mut s));
            Res::Rec(v, s.len())
        }
    }
    fn run_pdu(&self, p: &'static PduInfo, g: Gate, points: bool) -> Res {
        match self.kind {
            Kind::Encode => {
                let mut o = p.make(&self.h, &self.v);
                let mut b = BytesMut::new();
                Res::Enc(match g.run(|| o.serialize(&mut b)) {
                    Ok(()) => Ok((b.to_vec(), get_header(o.header()))),
                    Err(e) => Err(e.to_string()),
                })
            }
            Kind::Create => {
                let o = g.run(|| (p.new)());
                let mut h = get_header(o.header());
                h.timestamp = 0;
                Res::New(h, o.observe())
            }
            _ => {
                let body = self.kind == Kind::DecodeBody;
                let (r, left) = if points {
                    let mut f = FragBuf::new(&self.bytes, &[]);
                    f.on_advance = Some(sched::coop);
                    let mut d: DynBuf = &mut f;
                    let r = g.run(|| {
                        if body {
                            let h = PduHeader::deserialize(&mut d);
                            (p.body_dyn)(&mut d, h)
                        } else {
                            (p.dec_dyn)(&mut d)
                        }
                    });
                    (r, d.remaining())
                } else {
                    let mut s = &self.bytes[..];
                    let r = g.run(|| {
                        if body {
                            let h = PduHeader::deserialize(&mut s);
                            (p.body_slice)(&mut s, h)
                        } else {
                            (p.dec_slice)(&mut s)
                        }
                    });
                    (r, s.len())
                };
                Res::Dec(match r {
                    Ok(o) => Out::Ok(get_header(o.header()), o.observe(), self.bytes.len() - left),
                    Err(e) => drive::err_out(&e),
                })
            }
        }
    }
}
/// an operation and its result when nothing else runs
struct Case {
    op: Op,
    alone: Res,
}
fn case(w: &mut W, o: Option<Op>) -> Option<Case> {
    let o = o?;
    let r = w.imp("alone", o.u.name(), &o.bytes, || (o.run(Gate::OPEN, true), o.run(Gate::OPEN, true)));
    match r {
        Ok((a, b)) if a == b => Some(Case { op: o, alone: a }),
        // not repeatable alone (C10) or panicking (C05): nothing to compare with here
        _ => {
            w.count("operations that are not repeatable alone", 1);
            None
        }
    }
}
const KINDS: [Kind; 5] = [Kind::Encode, Kind::Decode, Kind::Create, Kind::DecodeShort, Kind::DecodeBody];

fn report(w: &mut W, who: &str, c: &Case, other: &str, got: &Result<Res, String>, how: &str) {
    let got = match got {
        Ok(r) if *r == c.alone => return,
        Ok(r) => r.show(),
        Err(e) => e.clone(),
    };
    w.viol(format!("{} disturbed by {other}", c.op.name()), || {
        format!("{who} {} while another thread does {other} ({how}): {got}; alone: {}", c.op.name(), c.alone.show())
    });
}

struct Wrong(Mutex<Vec<(usize, Result<Res, String>)>>);

/// One pass: thread A does `a` step by step; thread B does one of `bs` at each selected step.
#[allow(clippy::too_many_arguments)]
fn inject(w: &mut W, s: &Server, a: &Case, bs: &[&Case], lo: u64, hi: u64, m: u64, r: u64) -> u64 {
    let wrong = Wrong(Mutex::new(vec![]));
    let turn = AtomicU64::new(0);
    let job = |_req: u64| {
        let i = turn.fetch_add(1, SeqCst) as usize % bs.len();
        let got = crate::engine::quiet(|| bs[i].op.run(Gate::OPEN, false));
        if got.as_ref() != Ok(&bs[i].alone) {
            let mut l = wrong.0.lock().unwrap();
            if l.len() < 8 {
                l.push((i, got));
            }
        }
    };
    let mut injected = 0;
    let mut steps = 0;
    let got = w.imp("concurrent use", a.op.u.name(), &a.op.bytes, || {
        s.with(&job, || {
            let mut c = Ctl::new(What::Inject { s, lo, hi, m, r });
            let x = a.op.run(Gate::of(&mut c, true), false);
            injected = c.injected;
            steps = c.k;
            x
        })
    });
    w.traces += 1;
    w.count("instructions stepped", steps);
    w.count("operations run between two instructions of another", injected);
    let others: Vec<String> = bs.iter().map(|b| b.op.name()).collect();
    let how = format!("between its instructions {lo}.. every {m}");
    report(w, "stepped", a, &others.join(", "), &got, &how);
    for (i, g) in wrong.0.into_inner().unwrap() {
        report(w, "whole", bs[i], &a.op.name(), &g, &how);
    }
    steps
}

/// Three threads: at every instruction of `a`, thread B does one of `bs`, itself stepped; at every
/// `m`-th instruction of that, shifted from one run to the next, thread C does one of `cs`.
#[allow(clippy::too_many_arguments)]
fn three(w: &mut W, s: &Server, s2: &Server, a: &Case, bs: &[&Case], cs: &[&Case], (lo, hi, every): (u64, u64, u64), m: u64) {
    let wrong = Wrong(Mutex::new(vec![]));
    let keep = |i: usize, got: Result<Res, String>, want: &Res| {
        if got.as_ref() != Ok(want) {
            let mut l = wrong.0.lock().unwrap();
            if l.len() < 8 {
                l.push((i, got));
            }
        }
    };
    let turn = AtomicU64::new(0);
    let turn2 = AtomicU64::new(0);
    let inner = AtomicU64::new(0);
    let job2 = |_req: u64| {
        let i = turn2.fetch_add(1, SeqCst) as usize % cs.len();
        let got = crate::engine::quiet(|| cs[i].op.run(Gate::OPEN, false));
        keep(bs.len() + i, got, &cs[i].alone);
    };
    let job = |_req: u64| {
        let t = turn.fetch_add(1, SeqCst);
        let i = t as usize % bs.len();
        let mut c = Ctl::new(What::Inject { s: s2, lo: 0, hi: u64::MAX, m, r: (t / bs.len() as u64) % m });
        let g = Gate::of(&mut c, true);
        let got = crate::engine::quiet(|| bs[i].op.run(g, false));
        inner.fetch_add(c.injected, SeqCst);
        keep(i, got, &bs[i].alone);
    };
    let mut injected = 0;
    let got = w.imp("concurrent use", a.op.u.name(), &a.op.bytes, || {
        s2.with(&job2, || {
            s.with(&job, || {
                let mut c = Ctl::new(What::Inject { s, lo, hi, m: every, r: lo % every });
                let x = a.op.run(Gate::of(&mut c, true), false);
                injected = c.injected;
                x
            })
        })
    });
    w.traces += 1;
    w.count("stepped operations run between two instructions of another", injected);
    w.count("operations of a third thread run between two instructions of those", inner.load(SeqCst));
    let others: Vec<String> = bs.iter().map(|b| b.op.name()).collect();
    let how = format!("three threads: from instruction {lo} every {every}, then every {m}");
    report(w, "stepped", a, &others.join(", "), &got, &how);
    for (i, g) in wrong.0.into_inner().unwrap() {
        let c = if i < bs.len() { bs[i] } else { cs[i - bs.len()] };
        report(w, "inner", c, &a.op.name(), &g, &how);
    }
}
fn stepped3(w: &mut W, p: Unit, q: Unit, budget: u64, all: bool) {
    let kinds: &[Kind] = if all { p.kinds() } else { &[Kind::Encode, Kind::Decode] };
    let ours: Vec<Case> = kinds.iter().filter_map(|k| op(p, *k, 1, 3)).filter_map(|o| case(w, Some(o))).collect();
    let bs: Vec<Case> = [Kind::Encode, Kind::Decode].iter().filter_map(|k| case(w, op(p, *k, 2, 9))).collect();
    let mut cs: Vec<Case> = [Kind::Encode, Kind::Decode].iter().filter_map(|k| case(w, op(p, *k, 1, 5))).collect();
    cs.extend([Kind::Encode].iter().filter_map(|k| op(q, *k, 1, 7)).filter_map(|o| case(w, Some(o))));
    if bs.is_empty() || cs.is_empty() {
        return;
    }
    let cs: Vec<&Case> = cs.iter().collect();
    // where shared storage shows to be used: every combination of points
    let vis: Vec<Vec<u64>> = ours.iter().map(|a| watch(w, a)).collect();
    if budget == 0 && vis.iter().all(Vec::is_empty) {
        return;
    }
    Server::scope(|s| {
        Server::scope(|s2| {
            for (a, v) in ours.iter().zip(&vis) {
                for b in &bs {
                    for k in around(v, 8) {
                        w.state(p.name(), format!("three {:?} {:?} {k}", a.op.kind, b.op.kind).as_bytes());
                        three(w, s, s2, a, &[b], &cs, (k, k + 1, 1), 1);
                        if w.full() {
                            return;
                        }
                    }
                    if budget == 0 {
                        continue;
                    }
                    // how long they are
                    let n = inject(w, s, a, &[b], 0, 0, 1, 0);
                    let k = inject(w, s, b, &[a], 0, 0, 1, 0);
                    if n == 0 || k == 0 {
                        continue;
                    }
                    // stepping costs too: every (n / 400)th instruction of long operations
                    let every = n.div_ceil(400);
                    let m = ((n / every) * k / budget).max(1);
                    w.state(p.name(), format!("three {:?} {:?} {every} {m}", a.op.kind, b.op.kind).as_bytes());
                    three(w, s, s2, a, &[b], &cs, (0, u64::MAX, every), m);
                    if w.full() {
                        return;
                    }
                }
            }
        });
    });
}

/// the steps of `a` that change static storage (each time it is run: other workers share it)
fn watch(w: &mut W, a: &Case) -> Vec<u64> {
    let mut vis = watch_once(w, a);
    for _ in 0..2 {
        if !vis.is_empty() {
            let again = watch_once(w, a);
            vis.retain(|k| again.contains(k));
        }
    }
    w.count("instructions that change shared static storage", vis.len() as u64);
    vis
}
fn watch_once(w: &mut W, a: &Case) -> Vec<u64> {
    let mut vis = vec![];
    let mut n = 0;
    let got = w.imp("watched", a.op.u.name(), &a.op.bytes, || {
        let mut c = Ctl::new(What::Watch);
        let x = a.op.run(Gate::of(&mut c, true), false);
        vis = std::mem::take(&mut c.visible);
        n = c.k;
        x
    });
    w.count("instructions watched", n);
    let _ = got;
    vis
}

/// run one baton schedule
fn baton(w: &mut W, s: &Server, a: &Case, b: &Case, sa: Vec<u64>, sb: Vec<u64>, step: bool) -> [u64; 2] {
    let how = format!("hand-overs at {sa:?} and {sb:?}");
    let bt = Baton::new(sa, sb);
    let (got, gb) = baton_of(w, s, a, b, &bt, step);
    w.traces += 1;
    w.count(if step { "schedules at visible instructions" } else { "schedules at reads and allocations" }, 1);
    if bt.blocked.load(SeqCst) {
        w.count("schedules in which a thread was blocked", 1);
    }
    report(w, "interleaved", a, &b.op.name(), &got, &how);
    report(w, "interleaved", b, &a.op.name(), &gb, &how);
    [bt.points[0].load(SeqCst), bt.points[1].load(SeqCst)]
}
fn baton_run(w: &mut W, s: &Server, a: &Case, b: &Case, sa: Vec<u64>, sb: Vec<u64>, step: bool) -> (Result<Res, String>, Result<Res, String>) {
    baton_of(w, s, a, b, &Baton::new(sa, sb), step)
}
fn baton_of(w: &mut W, s: &Server, a: &Case, b: &Case, bt: &Baton, step: bool) -> (Result<Res, String>, Result<Res, String>) {
    let slot: Mutex<Option<Result<Res, String>>> = Mutex::new(None);
    let job = |_r: u64| {
        bt.start(1);
        let mut c = Ctl::new(What::Baton { b: bt, me: 1, next: 0 });
        let g = Gate::of(&mut c, step);
        alloc::begin();
        let got = crate::engine::quiet(|| b.op.run(g, !step));
        alloc::end();
        bt.end(1, c.k);
        *slot.lock().unwrap() = Some(got);
    };
    let got = w.imp("interleaving", a.op.u.name(), &a.op.bytes, || {
        s.with(&job, || {
            s.start();
            let mut c = Ctl::new(What::Baton { b: bt, me: 0, next: 0 });
            let g = Gate::of(&mut c, step);
            let x = crate::engine::quiet(|| a.op.run(g, !step));
            bt.end(0, c.k);
            x
        })
    });
    let gb = slot.into_inner().unwrap().unwrap_or_else(|| Err("engine: no result".into()));
    (got.and_then(|x| x), gb)
}

/// all interleavings of two operations with up to `bound` hand-overs, at the given points
fn explore(w: &mut W, s: &Server, a: &Case, b: &Case, pa: &[u64], pb: &[u64], bound: usize, step: bool) {
    // a runs first; hand-overs alternate: a at i, b at j, a at k, ...
    let id = format!("{} | {} {step}", a.op.name(), b.op.name());
    let go = |w: &mut W, sa: Vec<u64>, sb: Vec<u64>| {
        w.state(&id, format!("{sa:?}{sb:?}").as_bytes());
        baton(w, s, a, b, sa, sb, step);
        !w.full()
    };
    for (x, &i) in pa.iter().enumerate() {
        if !go(w, vec![i], vec![]) {
            return;
        }
        if bound < 2 {
            continue;
        }
        for (y, &j) in pb.iter().enumerate() {
            if !go(w, vec![i], vec![j]) {
                return;
            }
            if bound < 3 {
                continue;
            }
            for &k in &pa[x + 1..] {
                if !go(w, vec![i, k], vec![j]) {
                    return;
                }
                if bound < 4 {
                    continue;
                }
                for &l in &pb[y + 1..] {
                    if !go(w, vec![i, k], vec![j, l]) {
                        return;
                    }
                }
            }
        }
    }
}

fn stepped(w: &mut W, p: Unit, q: Unit, sz: Sz) {
    let ours: Vec<Case> = p.kinds().iter().filter_map(|k| op(p, *k, 1, 3)).filter_map(|o| case(w, Some(o))).collect();
    let mut theirs: Vec<Case> = p.kinds().iter().filter_map(|k| op(p, *k, 2, 9)).filter_map(|o| case(w, Some(o))).collect();
    theirs.extend([Kind::Encode, Kind::Decode].iter().filter_map(|k| op(q, *k, 1, 5)).filter_map(|o| case(w, Some(o))));
    let all: Vec<&Case> = theirs.iter().collect();
    if all.is_empty() {
        return;
    }
    Server::scope(|s| {
        let mut seen: Vec<(usize, Vec<u64>)> = vec![];
        for (i, a) in ours.iter().enumerate() {
            let vis = watch(w, a);
            w.state(p.name(), format!("{:?}", a.op.kind).as_bytes());
            // different operations at neighbouring instructions, in two alignments; then each alone
            let n = inject(w, s, a, &all, 0, u64::MAX, 1, 0);
            for k in 0..n {
                w.state(p.name(), format!("{:?} {k}", a.op.kind).as_bytes());
            }
            let rest: Vec<&Case> = all.iter().rev().copied().skip(1).collect();
            if !rest.is_empty() {
                inject(w, s, a, &rest, 0, u64::MAX, 1, 0);
            }
            w.outcome(&format!("{} {n}", a.op.name()));
            w.sample(|| format!("{} in {n} instructions", a.op.name()));
            if sz.thorough {
                for b in &theirs {
                    inject(w, s, a, &[b], 0, u64::MAX, 1, 0);
                }
                // sparser injections: what one leaves behind is not cleaned up by the next
                for m in [2u64, 3, 5, 7, 16] {
                    for r in 0..m {
                        inject(w, s, a, &all, 0, u64::MAX, m, r);
                    }
                }
                let blocks = 48;
                for c in 0..blocks {
                    inject(w, s, a, &all, n * c / blocks, n * (c + 1) / blocks, 1, 0);
                }
            }
            if w.full() {
                return;
            }
            seen.push((i, vis));
        }
        // instructions that change static storage are dependent: interleave around them
        let around = |v: &[u64]| around(v, sz.pick(8, 24));
        for (i, vi) in &seen {
            for b in &theirs {
                if vi.is_empty() {
                    continue;
                }
                let vb = watch(w, b);
                explore(w, s, &ours[*i], b, &around(vi), &around(&vb), sz.pick(2, 3), true);
                if w.full() {
                    return;
                }
            }
        }
    });
}

fn around(v: &[u64], max: usize) -> Vec<u64> {
    let mut o: Vec<u64> = v.iter().take(max).flat_map(|k| [k.saturating_sub(1), *k, k + 1]).collect();
    o.sort_unstable();
    o.dedup();
    o
}

// ------------------------------------------------------------------ first use
// What happens only the first time (lazily built tables, say) is explored in processes of its own,
// forked before any operation has run.
const HUNG: &str = "did not return";
struct Cold {
    fd: i32,
    pid: i32,
}
fn cold_start(f: impl FnOnce(&mut W) -> String) -> Cold {
    let mut fds = [0i32; 2];
    unsafe {
        assert!(libc::pipe(fds.as_mut_ptr()) == 0, "engine: pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "engine: fork");
        if pid == 0 {
            libc::close(fds[0]);
            libc::alarm(30);
            let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &c);
            std::panic::set_hook(Box::new(|_| {}));
            let mut w = W::new(crate::engine::slots(), 0);
            let s = f(&mut w);
            let b = s.as_bytes();
            let mut o = 0;
            while o < b.len() {
                let n = libc::write(fds[1], b[o..].as_ptr().cast(), b.len() - o);
                if n <= 0 {
                    break;
                }
                o += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        Cold { fd: fds[0], pid }
    }
}
fn cold_end(c: Cold) -> Result<String, String> {
    let mut s = vec![];
    let mut b = [0u8; 65_536];
    unsafe {
        loop {
            let n = libc::read(c.fd, b.as_mut_ptr().cast(), b.len());
            if n <= 0 {
                break;
            }
            s.extend_from_slice(&b[..n as usize]);
        }
        libc::close(c.fd);
        let mut st = 0;
        libc::waitpid(c.pid, &mut st, 0);
        if libc::WIFSIGNALED(st) {
            return Err(if libc::WTERMSIG(st) == libc::SIGALRM { HUNG.into() } else { format!("killed by signal {}", libc::WTERMSIG(st)) });
        }
    }
    Ok(String::from_utf8_lossy(&s).to_string())
}
/// run the jobs, eight processes at a time
fn cold_all<T>(jobs: Vec<T>, start: impl Fn(&T) -> Cold) -> Vec<(T, Result<String, String>)> {
    let mut out = vec![];
    let mut running: std::collections::VecDeque<(T, Cold)> = std::collections::VecDeque::new();
    for j in jobs {
        if running.len() == 8 {
            let (t, c) = running.pop_front().expect("engine: queue");
            out.push((t, cold_end(c)));
        }
        let c = start(&j);
        running.push_back((j, c));
    }
    for (t, c) in running {
        out.push((t, cold_end(c)));
    }
    out
}
fn text(r: &Result<Res, String>) -> String {
    let t = match r {
        Ok(Res::Enc(Ok((b, h)))) => format!("{} {h:?}", crate::engine::hex(b)),
        Ok(Res::Dec(Out::Ok(h, v, n))) => format!("{h:?} {v:?} {n}"),
        Ok(Res::New(h, v)) => format!("{h:?} {v:?}"),
        Ok(Res::Rec(v, n)) => format!("{v:?} {n}"),
        Ok(r) => r.show(),
        Err(e) => e.clone(),
    };
    t.replace('\n', " ").chars().take(6000).collect()
}
struct ColdJob {
    a: (Unit, Kind),
    b: (Unit, Kind),
    sa: Vec<u64>,
    sb: Vec<u64>,
}
#[derive(Default)]
struct ColdReport {
    viols: Vec<(String, String)>,
    counts: Vec<(&'static str, u64)>,
}
fn cold(sz: Sz) -> ColdReport {
    let mut rep = ColdReport::default();
    let all = units();
    let kinds = [Kind::Encode, Kind::Decode, Kind::Create];
    let mut jobs = vec![];
    for p in &all {
        for k in kinds {
            if p.kinds().contains(&k) {
                jobs.push((*p, k));
            }
        }
    }
    // what each operation gives alone in a fresh process, and which instructions change static storage
    let first = cold_all(jobs, |(p, k)| {
        cold_start(|w| {
            let Some(o) = op(*p, *k, 1, 3) else { return "none".into() };
            let c = Case { op: o, alone: Res::Enc(Err(String::new())) };
            let vis = watch_once(w, &c);
            let again = crate::engine::quiet(|| c.op.run(Gate::OPEN, false));
            let Some(o2) = op(*p, *k, 2, 9) else { return "none".into() };
            let other = crate::engine::quiet(|| o2.run(Gate::OPEN, false));
            format!("{vis:?}\n{}\n{}", text(&again), text(&other))
        })
    });
    rep.counts.push(("operations watched in a fresh process", first.len() as u64));
    let mut alone: std::collections::HashMap<(&'static str, u8), (Vec<u64>, String, String)> = std::collections::HashMap::new();
    for ((p, k), r) in &first {
        let Ok(t) = r else { continue };
        let l: Vec<&str> = t.split('\n').collect();
        if l.len() != 3 {
            continue;
        }
        let vis: Vec<u64> = l[0].trim_matches(['[', ']']).split(", ").filter_map(|x| x.parse().ok()).collect();
        alone.insert((p.name(), *k as u8), (vis, l[1].into(), l[2].into()));
    }
    let mut jobs: Vec<ColdJob> = vec![];
    let mut two: Vec<ColdJob> = vec![];
    let mut dependent = 0;
    for (i, p) in all.iter().enumerate() {
        for k in kinds {
            let Some((vis, ..)) = alone.get(&(p.name(), k as u8)) else { continue };
            if vis.is_empty() {
                continue;
            }
            dependent += vis.len() as u64;
            let pts = around(vis, sz.pick(8, 40));
            let (p, q) = (*p, all[(i + 17) % all.len()]);
            for b in [(p, Kind::Encode), (p, Kind::Decode), (q, k)] {
                let Some((vb, ..)) = alone.get(&(b.0.name(), b.1 as u8)) else { continue };
                for x in &pts {
                    jobs.push(ColdJob { a: (p, k), b, sa: vec![*x], sb: vec![] });
                }
                for x in &pts {
                    for y in around(vb, sz.pick(8, 40)) {
                        two.push(ColdJob { a: (p, k), b, sa: vec![*x], sb: vec![y] });
                    }
                }
            }
        }
    }
    rep.counts.push(("instructions that change static storage on first use", dependent));
    // one hand-over first; then two, those kept spread over all operations
    let cap = sz.pick(12_000, 200_000);
    let total = jobs.len() + two.len();
    if jobs.len() > cap {
        let every = jobs.len().div_ceil(cap);
        jobs = jobs.into_iter().enumerate().filter(|(i, _)| i % every == (i / every) % every).map(|x| x.1).collect();
    }
    let room = cap.saturating_sub(jobs.len()).max(1000);
    let every = two.len().div_ceil(room).max(1);
    jobs.extend(two.into_iter().enumerate().filter(|(i, _)| i % every == (i / every) % every).map(|x| x.1));
    let mut done = 0;
    let t0 = crate::engine::now_raw(libc::CLOCK_MONOTONIC);
    let mut hung = false;
    for chunk in 0..jobs.len().div_ceil(64) {
        if rep.viols.len() > 20 || hung || crate::engine::now_raw(libc::CLOCK_MONOTONIC) - t0 > sz.pick(100.0, 3000.0) {
            break;
        }
        let part: Vec<&ColdJob> = jobs.iter().skip(chunk * 64).take(64).collect();
        done += part.len();
        let res = cold_all(part, |j| {
            cold_start(|w| {
                let (Some(oa), Some(ob)) = (op(j.a.0, j.a.1, 1, 3), op(j.b.0, j.b.1, 2, 9)) else { return "none".into() };
                let (a, b) = (Case { op: oa, alone: Res::Enc(Err(String::new())) }, Case { op: ob, alone: Res::Enc(Err(String::new())) });
                let (ra, rb) = Server::scope(|s| baton_run(w, s, &a, &b, j.sa.clone(), j.sb.clone(), true));
                // and what the race leaves behind
                let la = crate::engine::quiet(|| a.op.run(Gate::OPEN, false));
                let lb = crate::engine::quiet(|| b.op.run(Gate::OPEN, false));
                [ra, rb, la, lb].iter().map(text).collect::<Vec<_>>().join("\n")
            })
        });
        for (j, r) in res {
            let (wa, wb) = (&alone[&(j.a.0.name(), j.a.1 as u8)].1, &alone[&(j.b.0.name(), j.b.1 as u8)].2);
            let key = format!("{:?} {} and {:?} {} disturb each other on first use", j.a.1, j.a.0.name(), j.b.1, j.b.0.name());
            let how = format!("hand-overs at instructions {:?} and {:?}", j.sa, j.sb);
            match r {
                Err(e) => {
                    hung |= e == HUNG;
                    rep.viols.push((key, format!("{how}: {e}")));
                }
                Ok(t) => {
                    let l: Vec<&str> = t.split('\n').collect();
                    if l.len() != 4 {
                        continue;
                    }
                    for (got, want) in [(l[0], wa), (l[1], wb), (l[2], wa), (l[3], wb)] {
                        if got != want {
                            rep.viols.push((key.clone(), format!("{how}: got {got}, alone {want}")));
                            break;
                        }
                    }
                }
            }
        }
    }
    rep.counts.push(("first-use schedules", done as u64));
    if done < total {
        rep.counts.push(("first-use schedules left out", (total - done) as u64));
    }
    rep
}

/// every instruction of one operation on its own: one injection per run
fn one_by_one(w: &mut W, p: Unit, k: Kind) {
    let Some(a) = case(w, op(p, k, 1, 3)) else { return };
    let bs: Vec<Case> = [Kind::Encode, Kind::Decode].iter().filter_map(|k| case(w, op(p, *k, 1, 9))).collect();
    if bs.is_empty() {
        return;
    }
    let all: Vec<&Case> = bs.iter().collect();
    Server::scope(|s| {
        let n = inject(w, s, &a, &all, 0, 0, 1, 0);
        w.count("operations with one injection per run", 1);
        for i in 0..n {
            w.state(p.name(), format!("one {k:?} {i}").as_bytes());
            inject(w, s, &a, &[all[i as usize % all.len()]], i, i + 1, 1, 0);
            if w.full() {
                return;
            }
        }
    });
}

fn coop(w: &mut W, p: Unit, q: Unit, bound: usize, cap: u64) {
    let kinds = [Kind::Decode, Kind::Encode, Kind::DecodeBody];
    let a: Vec<Case> = kinds.iter().filter(|k| p.kinds().contains(k)).filter_map(|k| case(w, op(p, *k, 1, 3))).collect();
    let b: Vec<Case> = kinds.iter().take(2).filter_map(|k| case(w, op(q, *k, 1, 9))).collect();
    Server::scope(|s| {
        for x in &a {
            for y in &b {
                let [n, m] = baton(w, s, x, y, vec![], vec![], false);
                let every = |n: u64| -> Vec<u64> {
                    // long operations: every point at the start, then evenly spaced ones
                    if n <= cap { (0..n).collect() } else { (0..cap / 2).chain((0..cap - cap / 2).map(|i| cap / 2 + i * (n - cap / 2) / (cap - cap / 2))).collect() }
                };
                if n > cap || m > cap {
                    w.count("operation pairs with points skipped", 1);
                }
                explore(w, s, x, y, &every(n), &every(m), bound, false);
                if w.full() {
                    return;
                }
            }
        }
    });
}

pub fn c22(sz: Sz) -> Plan {
    crate::SINGLE_STEP.store(true, SeqCst);
    sched::init();
    let all = units();
    let mut items = vec![];
    let rep = cold(sz);
    items.push(item("first use", move |w| {
        for (k, n) in &rep.counts {
            w.count(k, *n);
        }
        w.traces += 1;
        w.state("first use", &[1]);
        for (k, d) in &rep.viols {
            w.viol(k.clone(), || d.clone());
        }
    }));
    for (i, &p) in all.iter().enumerate() {
        let q = all[(i + 17) % all.len()];
        let n = p.name();
        items.push(item(format!("{n} instruction by instruction"), move |w| stepped(w, p, q, sz)));
        items.push(item(format!("{n} with itself, two hand-overs"), move |w| coop(w, p, p, 2, sz.pick(40, 400))));
        items.push(item(format!("{n} with {}, two hand-overs", q.name()), move |w| coop(w, p, q, 2, sz.pick(24, 200))));
        items.push(item(format!("{n} on three threads"), move |w| stepped3(w, p, q, sz.pick(0, 100_000), sz.thorough)));
        if sz.thorough {
            items.push(item(format!("{n} with itself, three hand-overs"), move |w| coop(w, p, p, 3, 36)));
            items.push(item(format!("{n} with itself, four hand-overs"), move |w| coop(w, p, p, 4, 14)));
        }
    }
    if sz.thorough {
        for n in ["AcknowledgePdu", "StartResumePdu", "RemoveEntityPdu", "ReceiverPdu", "EntityMarking", "DeadReckoningParameters", "PduHeader", "LiveEntityPduHeader"] {
            if let Some(&p) = all.iter().find(|p| p.name() == n) {
                for k in [Kind::Encode, Kind::Decode] {
                    items.push(item(format!("{n} {k:?}, one injection per run"), move |w| one_by_one(w, p, k)));
                }
            }
        }
    }
    let mut pl = plan_of(
        items,
        "each state is a schedule of two threads that work on separate PDUs, records or headers: (a) thread A is single stepped and at every one of its machine instructions thread B performs a whole operation; (b) both threads hand over at every combination of input reads and allocations up to the bound; (c) the same at every instruction found to change static storage, and in fresh processes at those that do so on first use; every result is compared with the result of the operation alone",
        vec![
            format!("{} PDU types (encode, decode, decode by header, decode of a truncated packet, creation), {} records (encode, decode), two headers (encode, decode, creation)", pdus().len(), crate::bind::records().len()),
            format!("(a) all instructions in the executable, {}", sz.pick("two alignments of 7 other operations", "every one of 7 other operations at each, 33 sparse alignments and 48 windows, and single injections for four PDU types, two records and two headers")),
            format!("three threads: at instructions of A around its writes to static storage{}, B is stepped and C runs whole at B's instructions", sz.pick("", ", and at 400 instructions spread over it")),
            format!("(b) {}", sz.pick("two hand-overs at up to 40 points per operation", "two hand-overs at up to 400 points, three at up to 36, four at up to 14")),
            "sequentially consistent interleavings".into(),
        ],
    );
    pl.threads = 4;
    pl
}
