//! Typed binding: converts between the crate's public types and the dynamic value tree,
//! and erases PDU, record and enumeration types behind tables.
use crate::spec::{Hdr, RecTy, spec};
use crate::val::Val;
use bytes::{Buf, BytesMut};
use open_dis_rust as od;
use open_dis_rust::common::data_types as dt;
use open_dis_rust::common::enums as e;
use open_dis_rust::common::{DISError, Pdu, PduHeader};
use open_dis_rust::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
use std::any::Any;
use std::collections::HashMap;
use std::sync::OnceLock;

pub trait Bind: Sized {
    fn build(v: &Val) -> Self;
    fn observe(&self) -> Val;
}

macro_rules! bind_int {
    ($($t:ty => $u:ty),*) => {$(
        impl Bind for $t {
            fn build(v: &Val) -> Self { v.u() as $u as $t }
            fn observe(&self) -> Val { Val::U(u64::from(*self as $u)) }
        }
    )*};
}
bind_int!(u8 => u8, u16 => u16, u32 => u32, u64 => u64, i8 => u8, i16 => u16, i32 => u32, i64 => u64);
impl Bind for f32 {
    fn build(v: &Val) -> Self {
        f32::from_bits(v.u() as u32)
    }
    fn observe(&self) -> Val {
        Val::U(u64::from(self.to_bits()))
    }
}
impl Bind for f64 {
    fn build(v: &Val) -> Self {
        f64::from_bits(v.u())
    }
    fn observe(&self) -> Val {
        Val::U(self.to_bits())
    }
}
impl Bind for String {
    fn build(v: &Val) -> Self {
        match v {
            Val::Str(s) => s.clone(),
            o => panic!("engine: text {o:?}"),
        }
    }
    fn observe(&self) -> Val {
        Val::Str(self.clone())
    }
}
impl<T: Bind> Bind for Vec<T> {
    fn build(v: &Val) -> Self {
        v.l().iter().map(T::build).collect()
    }
    fn observe(&self) -> Val {
        Val::L(self.iter().map(T::observe).collect())
    }
}
impl<T: Bind, const N: usize> Bind for [T; N] {
    fn build(v: &Val) -> Self {
        let l: Vec<T> = v.l().iter().map(T::build).collect();
        l.try_into().unwrap_or_else(|_| panic!("engine: array length"))
    }
    fn observe(&self) -> Val {
        Val::L(self.iter().map(T::observe).collect())
    }
}
impl<T: Bind> Bind for Option<T> {
    fn build(v: &Val) -> Self {
        match v {
            Val::O(None) => None,
            Val::O(Some(x)) => Some(T::build(x)),
            o => panic!("engine: option {o:?}"),
        }
    }
    fn observe(&self) -> Val {
        Val::O(self.as_ref().map(|x| Box::new(x.observe())))
    }
}
/// Opaque byte sections: their field is private, so they are built through the public
/// decoder and observed through the public encoder.
macro_rules! bind_opaque {
    ($t:ty, $len:ty) => {
        impl Bind for $t {
            fn build(v: &Val) -> Self {
                match v {
                    Val::B(b) if b.is_empty() => Self::new(),
                    Val::B(b) => {
                        let mut s: &[u8] = b;
                        Self::deserialize(&mut s, b.len() as $len).expect("opaque section of non-zero length decodes")
                    }
                    o => panic!("engine: opaque {o:?}"),
                }
            }
            fn observe(&self) -> Val {
                let mut b = BytesMut::new();
                self.serialize(&mut b);
                Val::B(b.to_vec())
            }
        }
    };
}
bind_opaque!(dt::modulation_parameters::ModulationParameters, u8);
bind_opaque!(dt::antenna_pattern::AntennaPattern, u16);

macro_rules! bind_default {
    ($t:path, { $($f:ident),* $(,)? }) => {
        impl Bind for $t {
            fn build(v: &Val) -> Self {
                let mut x = <$t>::default();
                let mut _it = v.s().iter();
                $( x.$f = Bind::build(_it.next().expect("engine: arity")); )*
                x
            }
            fn observe(&self) -> Val {
                Val::S(vec![ $( self.$f.observe() ),* ])
            }
        }
    };
}
macro_rules! bind_literal {
    ($t:path, { $($f:ident),* $(,)? }) => {
        impl Bind for $t {
            fn build(v: &Val) -> Self {
                let mut _it = v.s().iter();
                $( let $f = Bind::build(_it.next().expect("engine: arity")); )*
                $t { $( $f ),* }
            }
            fn observe(&self) -> Val {
                Val::S(vec![ $( self.$f.observe() ),* ])
            }
        }
    };
}

// ---- records whose last member is a public tagged union
use dt::grid_axis_descriptor::{GridAxisDescriptor, GridAxisType};
use dt::grid_data_record::{DataRepresentationType, GridDataRecord};
impl Bind for GridAxisType {
    fn build(v: &Val) -> Self {
        match v {
            Val::V(0, s) => {
                Self::FixedSpacing { number_of_points_on_x_axis: Bind::build(&s[0]), initial_index: Bind::build(&s[1]) }
            }
            Val::V(1, s) => Self::VariableSpacing {
                number_of_points_on_x_axis: Bind::build(&s[0]),
                initial_index: Bind::build(&s[1]),
                coordinate_scale_x: Bind::build(&s[2]),
                coordinate_offset_x: Bind::build(&s[3]),
                x_values: Bind::build(&s[4]),
                padding: Bind::build(&s[5]),
            },
            o => panic!("engine: axis {o:?}"),
        }
    }
    fn observe(&self) -> Val {
        match self {
            Self::FixedSpacing { number_of_points_on_x_axis, initial_index } => {
                Val::V(0, vec![number_of_points_on_x_axis.observe(), initial_index.observe()])
            }
            Self::VariableSpacing {
                number_of_points_on_x_axis,
                initial_index,
                coordinate_scale_x,
                coordinate_offset_x,
                x_values,
                padding,
            } => Val::V(
                1,
                vec![
                    number_of_points_on_x_axis.observe(),
                    initial_index.observe(),
                    coordinate_scale_x.observe(),
                    coordinate_offset_x.observe(),
                    x_values.observe(),
                    padding.observe(),
                ],
            ),
        }
    }
}
impl Bind for DataRepresentationType {
    fn build(v: &Val) -> Self {
        match v {
            Val::V(0, s) => {
                Self::Type0 { number_of_octets: Bind::build(&s[0]), data_values: Bind::build(&s[1]), padding: Bind::build(&s[2]) }
            }
            Val::V(1, s) => Self::Type1 {
                field_scale: Bind::build(&s[0]),
                field_offset: Bind::build(&s[1]),
                number_of_values: Bind::build(&s[2]),
                data_values: Bind::build(&s[3]),
                padding: Bind::build(&s[4]),
            },
            Val::V(2, s) => {
                Self::Type2 { number_of_values: Bind::build(&s[0]), padding: Bind::build(&s[1]), data_values: Bind::build(&s[2]) }
            }
            o => panic!("engine: data {o:?}"),
        }
    }
    fn observe(&self) -> Val {
        match self {
            Self::Type0 { number_of_octets, data_values, padding } => {
                Val::V(0, vec![number_of_octets.observe(), data_values.observe(), padding.observe()])
            }
            Self::Type1 { field_scale, field_offset, number_of_values, data_values, padding } => Val::V(
                1,
                vec![
                    field_scale.observe(),
                    field_offset.observe(),
                    number_of_values.observe(),
                    data_values.observe(),
                    padding.observe(),
                ],
            ),
            Self::Type2 { number_of_values, padding, data_values } => {
                Val::V(2, vec![number_of_values.observe(), padding.observe(), data_values.observe()])
            }
        }
    }
}
// ------------------------------------------------------------------ records
pub type DynBuf<'a> = &'a mut (dyn Buf + 'a);

/// One record type, erased.
pub struct RecInfo {
    pub name: &'static str,
    pub ty: &'static RecTy,
    /// inherent serialize
    pub ser: fn(&Val, &mut BytesMut),
    /// build, then serialize twice from the same object
    pub ser_twice: fn(&Val, &mut BytesMut, &mut BytesMut),
    /// build and observe back (no codec)
    pub echo: fn(&Val) -> Val,
    /// copies of the first value, made in an object of the second one and otherwise
    pub copies: fn(&Val, &Val) -> Copies,
    pub dec_slice: fn(&mut &[u8]) -> Val,
    pub dec_dyn: for<'a, 'b> fn(&'b mut DynBuf<'a>) -> Val,
    pub field: Option<FieldFns>,
    pub length: Option<usize>,
}
/// What became of a value, its copies and the object one copy was made in.
#[derive(Debug)]
pub struct Copies {
    /// `clone`, after the original was overwritten and dropped
    pub clone: Val,
    pub clone_bytes: BytesMut,
    /// `clone_from` into an object of the other value
    pub onto: Val,
    /// the original after its copy was overwritten
    pub original: Val,
    pub original_bytes: BytesMut,
}
pub fn copies<T: RecBind + Clone>(a: &Val, b: &Val) -> Copies {
    let x = T::build(a);
    let mut c = x.clone();
    let mut onto = T::build(b);
    onto.clone_from(&x);
    // overwrite the copy in place, then copy the original again
    c.clone_from(&T::build(b));
    let mut original_bytes = BytesMut::new();
    x.ser(&mut original_bytes);
    let original = x.observe();
    let c = vec![x.clone(); 2].pop().expect("two");
    let mut x = x;
    x.clone_from(&T::build(b));
    drop(x);
    let mut clone_bytes = BytesMut::new();
    c.ser(&mut clone_bytes);
    Copies { clone: c.observe(), clone_bytes, onto: onto.observe(), original, original_bytes }
}
pub struct FieldFns {
    pub ser: fn(&Val, &mut BytesMut),
    pub dec_slice: fn(&mut &[u8]) -> Val,
    pub dec_dyn: for<'a, 'b> fn(&'b mut DynBuf<'a>) -> Val,
    pub len: fn(&Val) -> usize,
}

pub trait RecBind: Bind {
    const NAME: &'static str;
    fn ser(&self, b: &mut BytesMut);
    fn dec<B: Buf>(b: &mut B) -> Self;
    fn fields() -> Option<FieldFns>;
    fn length() -> Option<usize>;
}
pub fn field_fns<T: Bind + FieldSerialize + FieldDeserialize + FieldLen>() -> FieldFns {
    FieldFns {
        ser: |v, b| T::build(v).serialize_field(b),
        dec_slice: |b| T::deserialize_field(b).observe(),
        dec_dyn: |b| T::deserialize_field(b).observe(),
        len: |v| T::build(v).field_len(),
    }
}
macro_rules! rec_impl {
    ($t:path, $n:literal, $ff:expr, $len:expr) => {
        impl RecBind for $t {
            const NAME: &'static str = $n;
            fn ser(&self, b: &mut BytesMut) {
                self.serialize(b);
            }
            fn dec<B: Buf>(b: &mut B) -> Self {
                <$t>::deserialize(b)
            }
            fn fields() -> Option<FieldFns> {
                $ff
            }
            fn length() -> Option<usize> {
                $len
            }
        }
    };
}
macro_rules! rec_plain {
    ($t:path, $n:literal) => {
        rec_impl!($t, $n, None, None);
    };
}
macro_rules! rec_plain_len {
    ($t:path, $n:literal) => {
        rec_impl!($t, $n, None, Some(<$t as od::common::SerializedLength>::LENGTH));
    };
}
macro_rules! rec_field {
    ($t:path, $n:literal) => {
        rec_impl!($t, $n, Some(field_fns::<$t>()), None);
    };
}
macro_rules! rec_field_len {
    ($t:path, $n:literal) => {
        rec_impl!($t, $n, Some(field_fns::<$t>()), Some(<$t as od::common::SerializedLength>::LENGTH));
    };
}
bind_literal!(GridAxisDescriptor, { domain_initial, domain_final, domain_points, interleaf_factor, axis_type, data });
rec_field!(GridAxisDescriptor, "GridAxisDescriptor");
bind_literal!(GridDataRecord, { sample_type, data_representation, data });
rec_field!(GridDataRecord, "GridDataRecord");

pub fn rec<T: RecBind + Clone + 'static>(name: &'static str) -> RecInfo {
    assert_eq!(name, T::NAME);
    RecInfo {
        name,
        ty: spec().recs.get(name).unwrap_or_else(|| panic!("engine: no spec for {name}")),
        ser: |v, b| T::build(v).ser(b),
        ser_twice: |v, a, b| {
            let x = T::build(v);
            x.ser(a);
            x.ser(b);
        },
        echo: |v| T::build(v).observe(),
        copies: copies::<T>,
        dec_slice: |b| T::dec(b).observe(),
        dec_dyn: |b| T::dec(b).observe(),
        field: T::fields(),
        length: T::length(),
    }
}

// ------------------------------------------------------------------ pdus
pub trait PduObj: Send {
    fn observe(&self) -> Val;
    fn assign(&mut self, v: &Val);
    fn serialize(&mut self, b: &mut BytesMut) -> Result<(), DISError>;
    fn calc(&self) -> Result<u16, DISError>;
    fn finalize(&mut self);
    fn header(&self) -> &PduHeader;
    fn header_mut(&mut self) -> &mut PduHeader;
    /// the object behind the interface
    fn as_any(&self) -> &dyn Any;
    fn face(&mut self) -> &mut dyn Pdu<Header = PduHeader>;
}
struct Holder<T>(T);
impl<T: Pdu<Header = PduHeader> + Bind + 'static + Send> PduObj for Holder<T> {
    fn observe(&self) -> Val {
        self.0.observe()
    }
    fn assign(&mut self, v: &Val) {
        let h = *self.0.header();
        let mut n = T::build(v);
        *n.header_mut() = h;
        self.0 = n;
    }
    fn serialize(&mut self, b: &mut BytesMut) -> Result<(), DISError> {
        self.0.serialize(b)
    }
    fn calc(&self) -> Result<u16, DISError> {
        self.0.calculate_length()
    }
    fn finalize(&mut self) {
        self.0.finalize();
    }
    fn header(&self) -> &PduHeader {
        self.0.header()
    }
    fn header_mut(&mut self) -> &mut PduHeader {
        self.0.header_mut()
    }
    fn as_any(&self) -> &dyn Any {
        self.0.as_any()
    }
    fn face(&mut self) -> &mut dyn Pdu<Header = PduHeader> {
        &mut self.0
    }
}

pub type BoxPdu = Box<dyn PduObj>;
pub struct PduInfo {
    pub name: &'static str,
    pub ty: &'static RecTy,
    pub typ: u8,
    pub family: u8,
    pub default: fn() -> BoxPdu,
    pub new: fn() -> BoxPdu,
    /// the values of the object if it is of this type
    pub downcast: fn(&dyn Any) -> Option<Val>,
    pub dec_slice: fn(&mut &[u8]) -> Result<BoxPdu, DISError>,
    pub dec_dyn: for<'a, 'b> fn(&'b mut DynBuf<'a>) -> Result<BoxPdu, DISError>,
    pub body_slice: fn(&mut &[u8], PduHeader) -> Result<BoxPdu, DISError>,
    pub body_dyn: for<'a, 'b> fn(&'b mut DynBuf<'a>, PduHeader) -> Result<BoxPdu, DISError>,
}
pub trait HasNew {
    fn make_new() -> Self;
}
fn bx<T: Pdu<Header = PduHeader> + Bind + Send + 'static>(x: T) -> BoxPdu {
    Box::new(Holder(x))
}
pub fn pdu<T: Pdu<Header = PduHeader> + Bind + Default + HasNew + Send + 'static>(
    name: &'static str,
    typ: u8,
    family: u8,
) -> PduInfo {
    let ty = spec().recs.get(name).unwrap_or_else(|| panic!("engine: no spec for {name}"));
    assert_eq!(ty.pdu, Some((typ, family)));
    PduInfo {
        name,
        ty,
        typ,
        family,
        default: || bx(T::default()),
        new: || bx(T::make_new()),
        downcast: |a| a.downcast_ref::<T>().map(Bind::observe),
        dec_slice: |b| T::deserialize(b).map(bx),
        dec_dyn: |b| T::deserialize(b).map(bx),
        body_slice: |b, h| T::deserialize_without_header(b, h).map(bx),
        body_dyn: |b, h| T::deserialize_without_header(b, h).map(bx),
    }
}
impl PduInfo {
    /// a PDU object with these values and header
    pub fn make(&self, h: &Hdr, v: &Val) -> BoxPdu {
        let mut p = (self.default)();
        p.assign(v);
        set_header(p.header_mut(), h);
        p
    }
}

pub fn set_header(p: &mut PduHeader, h: &Hdr) {
    p.protocol_version = Bind::build(&Val::U(u64::from(h.version)));
    p.exercise_id = h.exercise;
    p.pdu_type = Bind::build(&Val::U(u64::from(h.typ)));
    p.protocol_family = Bind::build(&Val::U(u64::from(h.family)));
    p.timestamp = h.timestamp;
    p.length = h.length;
    p.status_record = od::common::pdu_header::PduStatusRecord::from_u8(h.status);
}
pub fn get_header(p: &PduHeader) -> Hdr {
    Hdr {
        version: p.protocol_version.observe().u() as u8,
        exercise: p.exercise_id,
        typ: p.pdu_type.observe().u() as u8,
        family: p.protocol_family.observe().u() as u8,
        timestamp: p.timestamp,
        length: p.length,
        status: p.status_record.to_u8(),
    }
}

// ------------------------------------------------------------------ enumerations
pub struct EnumInfo {
    pub name: &'static str,
    /// bytes on the wire
    pub width: usize,
    pub default: u64,
    pub table: &'static [(u64, &'static str)],
    pub codes: Vec<u64>,
    /// numeric value of each member as the crate defines it, in table order
    pub actual: fn() -> Vec<u64>,
    pub actual_default: fn() -> u64,
    /// a == b, a != b, and the copy of a
    pub same: fn(u64, u64) -> (bool, bool, u64),
    pub dec_slice: fn(&mut &[u8]) -> u64,
    pub dec_dyn: for<'a, 'b> fn(&'b mut DynBuf<'a>) -> u64,
    pub field: Option<FieldFns>,
}
impl EnumInfo {
    pub fn has(&self, c: u64) -> bool {
        self.codes.binary_search(&c).is_ok()
    }
    pub fn widened(&self, width: usize) -> EnumInfo {
        EnumInfo { width, codes: self.codes.clone(), field: None, ..*self }
    }
    pub fn member(&self, c: u64) -> &'static str {
        self.table.iter().find(|t| t.0 == c).map_or("?", |t| t.1)
    }
}
pub trait EnumBind: Bind + Default + PartialEq + Clone {
    const NAME: &'static str;
    const WIDTH: usize;
    const DEFAULT: u64;
    const TABLE: &'static [(u64, &'static str)];
    fn actual() -> Vec<u64>;
    fn actual_default() -> u64;
    fn dec<B: Buf>(b: &mut B) -> Self;
    fn fields() -> Option<FieldFns>;
}
pub fn einfo<T: EnumBind>() -> EnumInfo {
    let mut codes: Vec<u64> = T::TABLE.iter().map(|t| t.0).collect();
    codes.sort_unstable();
    EnumInfo {
        name: T::NAME,
        width: T::WIDTH,
        default: T::DEFAULT,
        table: T::TABLE,
        codes,
        actual: T::actual,
        actual_default: T::actual_default,
        same: |a, b| {
            let (a, b) = (T::build(&Val::U(a)), T::build(&Val::U(b)));
            (a == b, a != b, a.clone().observe().u())
        },
        dec_slice: |b| T::dec(b).observe().u(),
        dec_dyn: |b| T::dec(b).observe().u(),
        field: T::fields(),
    }
}
#[macro_export]
macro_rules! enum_any {
    ($n:ident, $w:literal, $d:ident, [$(($c:literal, $m:ident)),* $(,)?], $ff:expr) => {
        impl Bind for e::$n {
            fn build(v: &Val) -> Self {
                match v.u() {
                    $( $c => e::$n::$m, )*
                    o => panic!("engine: {} has no code {o}", stringify!($n)),
                }
            }
            #[allow(unreachable_patterns)]
            fn observe(&self) -> Val {
                match self {
                    $( e::$n::$m => Val::U($c), )*
                    // a member outside the reference table
                    _ => Val::U((*self as u64) | 1 << 40),
                }
            }
        }
        impl EnumBind for e::$n {
            const NAME: &'static str = stringify!($n);
            const WIDTH: usize = $w / 8;
            const DEFAULT: u64 = {
                // golden code of the golden default member
                let mut i = 0;
                let t: &[(u64, &str)] = Self::TABLE;
                let d = stringify!($d).as_bytes();
                let mut r = u64::MAX;
                while i < t.len() {
                    if const_eq(t[i].1.as_bytes(), d) { r = t[i].0; }
                    i += 1;
                }
                r
            };
            const TABLE: &'static [(u64, &'static str)] = &[ $( ($c, stringify!($m)) ),* ];
            fn actual() -> Vec<u64> { vec![ $( e::$n::$m as u64 ),* ] }
            fn actual_default() -> u64 { <e::$n as Default>::default().observe().u() }
            fn dec<B: Buf>(b: &mut B) -> Self { e::$n::deserialize(b) }
            fn fields() -> Option<FieldFns> { $ff }
        }
    };
}
pub const fn const_eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
#[macro_export]
macro_rules! enum_plain {
    ($n:ident, $w:literal, $d:ident, $t:tt) => {
        enum_any!($n, $w, $d, $t, None);
    };
}
#[macro_export]
macro_rules! enum_field {
    ($n:ident, $w:literal, $d:ident, $t:tt) => {
        enum_any!($n, $w, $d, $t, Some(field_fns::<e::$n>()));
    };
}

pub fn enums() -> &'static [EnumInfo] {
    static E: OnceLock<Vec<EnumInfo>> = OnceLock::new();
    E.get_or_init(crate::gen_enums::all_enums)
}
pub fn enum_by_name(n: &str) -> &'static EnumInfo {
    static M: OnceLock<HashMap<&'static str, &'static EnumInfo>> = OnceLock::new();
    M.get_or_init(|| enums().iter().map(|e| (e.name, e)).collect()).get(n).unwrap_or_else(|| panic!("engine: no enum {n}"))
}

// ------------------------------------------------------------------ flags
/// width in bytes, mask of assigned bits (SISO-REF-010)
pub fn flag_mask(n: &str) -> (usize, u64) {
    let f = crate::flags::flag_table(n);
    (f.width, f.bits.iter().map(|b| 1u64 << b.1).sum())
}
impl Bind for e::FrozenBehavior {
    fn build(v: &Val) -> Self {
        Self::from_bits_retain(v.u() as u8)
    }
    fn observe(&self) -> Val {
        Val::U(u64::from(self.bits()))
    }
}
impl Bind for e::ObjectStateAppearanceGeneral {
    fn build(v: &Val) -> Self {
        Self::from_bits_retain(v.u() as u16)
    }
    fn observe(&self) -> Val {
        Val::U(u64::from(self.bits()))
    }
}

pub fn pdus() -> &'static [PduInfo] {
    static P: OnceLock<Vec<PduInfo>> = OnceLock::new();
    P.get_or_init(|| if crate::own::enabled() { crate::own::own_pdus() } else { all_pdus() })
}
pub fn pdu_by_name(n: &str) -> &'static PduInfo {
    pdus().iter().find(|p| p.name == n).unwrap_or_else(|| panic!("engine: no pdu {n}"))
}
pub fn records() -> &'static [RecInfo] {
    static R: OnceLock<Vec<RecInfo>> = OnceLock::new();
    R.get_or_init(all_records)
}

include!("gen_bind.rs");
impl std::fmt::Debug for EnumInfo {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "enum {}", self.name)
    }
}
