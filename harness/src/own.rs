//! PDUs defined outside the crate with its macro, as an application defines them. The checks of the
//! built-in PDUs are run on these (`pdus()` returns them once `enable` was called): C28.
use crate::bind::{Bind, HasNew, PduInfo, pdu};
use crate::val::Val;
use bytes::{Buf, BufMut, BytesMut};
use od::common::data_types as dt;
use od::common::enums as en;
use od::common::pdu::Pdu;
use od::common::{DISError, GenericHeader, LiveEntityPduHeader, PduHeader, SerializedLength};
use od::define_pdu;
use od::pdu_macro::{FieldDeserialize, FieldDeserializeWithLen, FieldLen, FieldSerialize};
use open_dis_rust as od;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};

static OWN: AtomicBool = AtomicBool::new(false);
pub fn enable() {
    OWN.store(true, SeqCst);
}
pub fn enabled() -> bool {
    OWN.load(SeqCst)
}

/// an application's own section type
#[derive(Debug, Default, Clone, PartialEq)]
pub struct Blob(pub Vec<u8>);
impl FieldSerialize for Blob {
    fn serialize_field(&self, buf: &mut BytesMut) {
        buf.put_slice(&self.0);
    }
}
impl FieldLen for Blob {
    fn field_len(&self) -> usize {
        self.0.len()
    }
}
impl FieldDeserializeWithLen for Blob {
    fn deserialize_with_len<B: Buf>(buf: &mut B, len: usize) -> Self {
        // what an application may do: take what is declared, as far as it is there
        let mut v = vec![];
        for _ in 0..len {
            let exhausted = !buf.has_remaining();
            v.push(buf.get_u8());
            if exhausted {
                break;
            }
        }
        Blob(v)
    }
}
impl Bind for Blob {
    fn build(v: &Val) -> Self {
        match v {
            Val::B(b) => Blob(b.clone()),
            o => panic!("engine: blob {o:?}"),
        }
    }
    fn observe(&self) -> Val {
        Val::B(self.0.clone())
    }
}
/// the same as a plain field
#[derive(Debug, Default, Clone, PartialEq)]
pub struct Tail(pub Blob);
impl FieldSerialize for Tail {
    fn serialize_field(&self, buf: &mut BytesMut) {
        self.0.serialize_field(buf);
    }
}
impl FieldLen for Tail {
    fn field_len(&self) -> usize {
        self.0.field_len()
    }
}
impl FieldDeserializeWithLen for Tail {
    fn deserialize_with_len<B: Buf>(buf: &mut B, len: usize) -> Self {
        Tail(Blob::deserialize_with_len(buf, len))
    }
}
impl Bind for Tail {
    fn build(v: &Val) -> Self {
        match v {
            Val::O(None) => Tail::default(),
            Val::O(Some(b)) => Tail(Blob::build(b)),
            o => panic!("engine: blob {o:?}"),
        }
    }
    fn observe(&self) -> Val {
        Val::O(if self.0.0.is_empty() { None } else { Some(Box::new(self.0.observe())) })
    }
}

define_pdu! {
    #[derive(Debug)]
    /// every scalar kind
    pub struct OwnScalarsPdu {
        header: PduHeader,
        pdu_type: en::PduType::TimeSpacePositionInformation,
        protocol_family: en::ProtocolFamily::LiveEntityInformationInteraction,
        fields: {
            pub a: u8,
            pub b: i8,
            pub c: u16,
            padding: u8,
            pub d: i16,
            pub e: u32,
            pub f: i32,
            pub g: u64,
            padding2: u32,
            pub h: i64,
            pub i: f32,
            pub j: f64,
            pub k: en::SignalTDLType,
            pub l: en::DeadReckoningAlgorithm,
            pub n: en::FrozenBehavior,
            pub o: en::ObjectStateAppearanceGeneral,
            pub p: dt::entity_id::EntityId,
            pub q: dt::vector3_float::Vector3Float,
            padding3: u16,
        }
    }
}
define_pdu! {
    pub(crate) struct OwnSectionsPdu {
        header: PduHeader,
        pdu_type: en::PduType::Appearance,
        protocol_family: en::ProtocolFamily::LiveEntityInformationInteraction,
        fields: {
            pub first_len: u8,
            pub second_len: u16,
            pub id: dt::entity_id::EntityId,
            pub third_len: u32,
            #[len = first_len]
            pub first: Option<dt::modulation_parameters::ModulationParameters>,
            pub mark: u16,
            #[len = second_len]
            pub second: Tail,
            #[len = third_len]
            pub third: Option<Blob>,
            pub fourth_len: u64,
            #[len = fourth_len]
            pub fourth: Tail,
            pub last: u8,
        }
    }
}
define_pdu! {
    #[derive(Debug, Clone)]
    struct OwnEmptyPdu {
        header: PduHeader,
        pdu_type: en::PduType::ArticulatedParts,
        protocol_family: en::ProtocolFamily::LiveEntityInformationInteraction,
        fields: {}
    }
}
define_pdu! {
    #[derive(Debug)]
    struct OwnNestedPdu {
        header: PduHeader,
        pdu_type: en::PduType::LiveEntityFire,
        protocol_family: en::ProtocolFamily::EntityInformation,
        fields: {
            pub marking: dt::entity_marking::EntityMarking,
            pub datum: dt::standard_variable_specification::StandardVariableSpecification,
            pub system: dt::electromagnetic_emission_system_data::ElectromagneticEmissionSystemData,
            pub set: dt::attribute_record_set::AttributeRecordSet,
            pub trailer: u32,
        }
    }
}
define_pdu! {
    struct OwnByteFamilyPdu {
        header: PduHeader,
        pdu_type: en::PduType::LiveEntityDetonation,
        protocol_family: en::ProtocolFamily::InformationOperations,
        fields: {
            pub values: dt::record_specification::RecordSpecification,
            pub kind: dt::entity_type::EntityType,
            pub when: dt::clock_time::ClockTime,
        }
    }
}
define_pdu! {
    #[derive(Debug)]
    pub struct OwnListsPdu {
        header: PduHeader,
        pdu_type: en::PduType::RecordReliable,
        protocol_family: en::ProtocolFamily::SimulationManagementWithReliability,
        fields: {
            pub count: u8,
            pub bits: u16,
            pub rows: u8,
            pub columns: u16,
            pub number: u32,
            pub tail_len: u16,
            #[count = count]
            pub ids: Vec<dt::entity_id::EntityId>,
            #[count = bits.div_ceil(8)]
            pub data: Vec<u8>,
            padding: u8,
            #[count = usize::from(rows) * usize::from(columns)]
            pub grid: Vec<i16>,
            #[len = tail_len]
            pub tail: Option<Blob>,
            #[count = number]
            pub kinds: Vec<en::SignalTDLType>,
            pub last: f64,
        }
    }
}
// an application's module may be elsewhere: fields set one by one
bind_default!(OwnScalarsPdu, { a, b, c, d, e, f, g, h, i, j, k, l, n, o, p, q });
bind_default!(OwnSectionsPdu, { first_len, second_len, id, third_len, first, mark, second, third, fourth_len, fourth, last });
bind_default!(OwnEmptyPdu, {});
bind_default!(OwnNestedPdu, { marking, datum, system, set, trailer });
bind_default!(OwnListsPdu, { count, bits, rows, columns, number, tail_len, ids, data, grid, tail, kinds, last });
bind_default!(OwnByteFamilyPdu, { values, kind, when });
macro_rules! own_new { ($($t:ident),*) => { $( impl HasNew for $t { fn make_new() -> Self { <$t>::new() } } )* } }
own_new!(OwnScalarsPdu, OwnSectionsPdu, OwnEmptyPdu, OwnNestedPdu, OwnByteFamilyPdu, OwnListsPdu);

pub fn own_pdus() -> Vec<PduInfo> {
    vec![
        pdu::<OwnScalarsPdu>("OwnScalarsPdu", 46, 11),
        pdu::<OwnSectionsPdu>("OwnSectionsPdu", 47, 11),
        pdu::<OwnEmptyPdu>("OwnEmptyPdu", 48, 11),
        pdu::<OwnNestedPdu>("OwnNestedPdu", 49, 1),
        pdu::<OwnByteFamilyPdu>("OwnByteFamilyPdu", 50, 13),
        pdu::<OwnListsPdu>("OwnListsPdu", 63, 10),
    ]
}

// ------------------------------------------------------------------ a header of the application's own
/// the live-entity header and four octets more
#[derive(Debug, Clone, Copy, PartialEq, Default)]
pub struct OwnHeader {
    pub live: LiveEntityPduHeader,
    pub tag: u32,
}
impl SerializedLength for OwnHeader {
    const LENGTH: usize = 16;
}
impl GenericHeader for OwnHeader {
    fn pdu_type(&self) -> en::PduType {
        self.live.pdu_type
    }
    fn set_pdu_type(&mut self, t: en::PduType) {
        self.live.pdu_type = t;
    }
    fn protocol_family(&self) -> en::ProtocolFamily {
        self.live.protocol_family
    }
    fn set_protocol_family(&mut self, f: en::ProtocolFamily) {
        self.live.protocol_family = f;
    }
    fn length(&self) -> u16 {
        self.live.length
    }
    fn set_length(&mut self, n: u16) {
        self.live.length = n;
    }
    fn serialize(&self, buf: &mut BytesMut) {
        GenericHeader::serialize(&self.live, buf);
        buf.put_u32(self.tag);
    }
    fn deserialize<B: Buf>(buf: &mut B) -> Self {
        Self { live: GenericHeader::deserialize(buf), tag: buf.get_u32() }
    }
}
impl FieldDeserialize for OwnHeader {
    fn deserialize_field<B: Buf>(buf: &mut B) -> Self {
        GenericHeader::deserialize(buf)
    }
}
define_pdu! {
    #[derive(Debug)]
    struct OwnHeaderPdu {
        header: OwnHeader,
        pdu_type: en::PduType::LiveEntityFire,
        protocol_family: en::ProtocolFamily::LiveEntityInformationInteraction,
        fields: {
            pub first: u16,
            pub count: u16,
            #[count = count]
            pub list: Vec<u8>,
            pub id: dt::entity_id::EntityId,
        }
    }
}
fn own_body(first: u16, list: &[u8], id: [u16; 3]) -> Vec<u8> {
    let mut b = first.to_be_bytes().to_vec();
    b.extend((list.len() as u16).to_be_bytes());
    b.extend(list);
    b.extend(id.iter().flat_map(|x| x.to_be_bytes()));
    b
}
/// header bytes with the type, family and length that belong to the PDU
fn own_bytes(h: &crate::spec::Hdr, tag: u32, body: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    crate::spec::Hdr { typ: 49, family: 11, length: (16 + body.len()) as u16, ..*h }.enc(&mut out);
    out.extend(tag.to_be_bytes());
    out.extend(body);
    out
}
fn header_one(w: &mut crate::engine::W, h: &crate::spec::Hdr, tag: u32, first: u16, n: usize, deep: bool) {
    use crate::engine::hex;
    let list: Vec<u8> = (0..n).map(|i| (i * 7 + 3) as u8).collect();
    let id = [first ^ 0x0102, 0x0304, 0xFFFE];
    let body = own_body(first, &list, id);
    let want = own_bytes(h, tag, &body);
    if !w.state("OwnHeaderPdu", &want) {
        return;
    }
    w.traces += 1;
    let hdr = OwnHeader { live: crate::c_hdr::live_of(h), tag };
    let make = || {
        let mut p = OwnHeaderPdu::new();
        *p.header_mut() = hdr;
        (p.first, p.count, p.list) = (first, n as u16, list.clone());
        p.id = Bind::build(&Val::S(vec![
            Val::S(vec![Val::U(u64::from(id[0])), Val::U(u64::from(id[1]))]),
            Val::U(u64::from(id[2])),
        ]));
        p
    };
    let r = w.imp("encode", "OwnHeaderPdu", &want, || {
        let mut p = make();
        let c = p.calculate_length();
        let mut b = BytesMut::new();
        b.put_u8(9);
        let r = p.serialize(&mut b);
        p.header_mut().live.length = 1;
        p.finalize();
        (c, r, b, *p.header())
    });
    let size = want.len();
    match r {
        Ok((Ok(c), Ok(()), b, g)) if size <= 8192 => {
            if usize::from(c) != size || usize::from(g.length()) != size || b[1..] != want[..] || g.tag != tag {
                return w.viol("OwnHeaderPdu: encoding with an application's header".into(), || {
                    format!("length {c}, header {g:?}, {} should be {}", hex(&b[1..]), hex(&want))
                });
            }
        }
        Ok((Err(DISError::PduSizeExceeded { size: a, .. }), Err(DISError::PduSizeExceeded { size: c, .. }), b, _))
            if size > 8192 && a == size && c == size && b.len() == 1 =>
        {
            return;
        }
        r => {
            return w.viol("OwnHeaderPdu: size limit with an application's header".into(), || format!("{size} octets: {r:?}"));
        }
    }
    let sent =
        OwnHeader { live: crate::c_hdr::live_of(&crate::spec::Hdr { typ: 49, family: 11, length: size as u16, ..*h }), tag };
    let mut long = want.clone();
    long.extend([7, 0, 49]);
    let cuts: Vec<usize> = if deep { (0..=size).collect() } else { vec![size, size - 1, 15, 16] };
    for cut in cuts {
        let full = cut == size;
        let b = if full { &long[..] } else { &want[..cut] };
        let r = w.imp("decode", "OwnHeaderPdu", b, || {
            let mut s = b;
            let r = OwnHeaderPdu::deserialize(&mut s).map(|p| (*p.header(), p.first, p.count, p.list.clone(), p.id.observe()));
            let mut t = &b[b.len().min(16)..];
            let q = OwnHeaderPdu::deserialize_without_header(&mut t, sent)
                .map(|p| (*p.header(), p.first, p.count, p.list.clone(), p.id.observe()));
            let mut f = crate::fragbuf::FragBuf::bytewise(b);
            let mut d: crate::bind::DynBuf = &mut f;
            let g = OwnHeaderPdu::deserialize(&mut d).map(|p| *p.header());
            (r, s.len(), q, t.len(), g)
        });
        let value = (sent, first, n as u16, list.clone(), make().id.observe());
        let good = match &r {
            Ok((Ok(a), 3, Ok(b), 3, Ok(g))) if full => *a == value && *b == value && *g == sent,
            Ok((Err(DISError::BufferUnderflow { attempted, available }), _, q, _, Err(DISError::BufferUnderflow { .. })))
                if !full =>
            {
                attempted > available && (cut < 16 || matches!(q, Err(DISError::BufferUnderflow { .. })))
            }
            _ => false,
        };
        if !good {
            return w.viol("OwnHeaderPdu: decoding with an application's header".into(), || {
                format!("{cut} of {}: {r:?}", hex(&want))
            });
        }
    }
    if deep {
        for t in &crate::bind::enum_by_name("PduType").codes {
            let mut b = want.clone();
            b[2] = *t as u8;
            let mut other = sent;
            other.live.pdu_type = Bind::build(&Val::U(*t));
            let r = w.imp("decode", "OwnHeaderPdu", &b, || {
                (
                    matches!(OwnHeaderPdu::deserialize(&mut &b[..]), Err(DISError::InvalidHeader { .. })),
                    matches!(OwnHeaderPdu::deserialize_without_header(&mut &b[16..], other), Err(DISError::InvalidHeader { .. })),
                )
            });
            let e = *t != 49;
            if r != Ok((e, e)) {
                w.viol("OwnHeaderPdu: type check with an application's header".into(), || format!("type {t}: {r:?}"));
            }
        }
    }
}
pub fn header_items() -> Vec<crate::engine::Item> {
    let subs = &crate::bind::enum_by_name("DISLiveEntitySubprotocolNumber").codes;
    let h0 = crate::spec::Hdr { status: subs[subs.len() - 1] as u8, ..crate::drive::hdr_pat() };
    vec![
        crate::engine::item("application header: values", move |w| {
            crate::c_wire::headers(&mut |h| {
                let h = crate::spec::Hdr { status: subs[usize::from(h.status) % subs.len()] as u8, ..*h };
                for (tag, first) in [(0u32, 0u16), (0x0102_0304, 0xA5B6), (u32::MAX, u16::MAX)] {
                    header_one(w, &h, tag, first, 3, false);
                }
                !w.full()
            });
            for t in 0..=65_535u32 {
                header_one(w, &h0, t << 16, t as u16, 2, false);
                header_one(w, &h0, t, 7, 1, false);
            }
        }),
        crate::engine::item("application header: sizes, cuts and types", move |w| {
            for n in (0..40).chain([100, 255, 256, 1000]) {
                header_one(w, &h0, 0xA1B2_C3D4, 0x1122, n, true);
            }
            for n in 8100..8300 {
                header_one(w, &h0, 0xA1B2_C3D4, 0x1122, n, false);
            }
        }),
    ]
}
