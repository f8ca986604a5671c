//! Which plan decides which property.
use crate::engine::{Item, Plan};

#[derive(Clone, Copy)]
pub struct Sz {
    pub thorough: bool,
    /// the thorough tier of a check that is cheap enough to use its `thorough` bounds in the quick one
    pub deep: bool,
}
impl Sz {
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        if self.thorough { thorough } else { quick }
    }
    pub fn pick3<T>(self, quick: T, thorough: T, deep: T) -> T {
        if self.deep { deep } else { self.pick(quick, thorough) }
    }
}

pub fn plan_of(items: Vec<Item>, rule: &str, bounds: Vec<String>) -> Plan {
    Plan {
        items,
        rule: rule.into(),
        bounds,
        assumptions: vec![
            "the reference model spec/wire.txt, spec.rs and gen_enums.rs state the intended layout and codes".into(),
            "field values outside the stated alphabets are not explored".into(),
        ],
        exhaustive: true,
        threads: 8,
    }
}

pub fn plan(id: &str, thorough: bool) -> Option<Plan> {
    const CHEAP: [&str; 16] =
        ["C04", "C07", "C08", "C09", "C10", "C12", "C17", "C18", "C20", "C21", "C24", "C25", "C27", "C29", "C30", "C31"];
    let z = Sz { thorough: thorough || CHEAP.contains(&id), deep: thorough };
    Some(match id {
        "C01" => crate::c_wire::c01(z),
        "C02" => crate::c_wire::c02(z),
        "C03" => crate::c_wire::c03(z),
        "C04" => crate::c_wire::c04(z),
        "C05" => crate::c_fault::c05(z),
        "C06" => crate::c_fault::c06(z),
        "C07" => crate::c_fault::c07(z),
        "C09" => crate::c_fault::c09(z),
        "C10" => crate::c_fault::c10(z),
        "C23" => crate::c_fault::c23(z),
        "C11" => crate::c_hdr::c11(z),
        "C12" => crate::c_hdr::c12(z),
        "C19" => crate::c_hdr::c19(z),
        "C13" => crate::c_enum::c13(z),
        "C14" => crate::c_enum::c14(z),
        "C20" => crate::c_enum::c20(z),
        "C08" => crate::c_wire::c08(z),
        "C26" => crate::c_wire::c26(z),
        "C15" => crate::c_rec::c15(z),
        "C16" => crate::c_rec::c16(z),
        "C17" => crate::c_rec::c17(z),
        "C18" => crate::c_rec::c18(z),
        "C21" => crate::c_vec::c21(z),
        "C22" => crate::c_conc::c22(z),
        "C24" => crate::c_rec::c24(z),
        "C25" => crate::c_rec::c25(z),
        "C27" => crate::c_rec::c27(z),
        "C28" => c28(z),
        "C29" => crate::c_err::c29(z),
        "C30" => crate::c_face::c30(z),
        "C31" => crate::c_face::c31(z),
        "C32" => crate::c_face::c32(z),
        _ => return None,
    })
}

/// The checks of the built-in PDUs, on PDUs that an application defines with `define_pdu!`.
fn c28(z: Sz) -> Plan {
    use crate::{c_fault as f, c_rec as r, c_wire as x};
    let mut items = vec![];
    let mut add = |what: &str, p: Plan| {
        for mut i in p.items {
            i.name = format!("{what}: {}", i.name);
            items.push(i);
        }
    };
    add("layout", x::c01(z));
    add("round trip", x::c02(z));
    add("length", x::c03(z));
    add("size limit", x::c04(z));
    add("any input", f::c05(z));
    add("truncation", f::c06(z));
    add("type check", f::c07(z));
    add("streaming", x::c08(z));
    add("segments", f::c09(z));
    add("history", f::c10(z));
    add("supplied header", f::c23(z));
    add("relay", x::c26(z));
    add("interface", crate::c_face::c30(z));
    add("memory", crate::c_face::c32(z));
    items.extend(r::fresh_pdus());
    items.extend(crate::own::header_items());
    plan_of(
        items,
        "each state is a value, packet, stream or history of a PDU type defined in the harness with define_pdu; it is decided as those of the built-in types are (reference encoder and decoder, monitors)",
        vec![
            "6 PDU types: every scalar kind with private padding; lists counted by fields and expressions between sections; four length-driven sections with 8, 16, 32 and 64-bit length fields (optional and plain, crate and application types); no fields; records with inner lists".into(),
            "a PDU with an application's own header type (16 octets, around the live-entity header): header values, list sizes around the limit, every cut, every type code".into(),
            "the bounds of the checks of the built-in types (C01 to C10, C18, C23, C26, C30, C32)".into(),
        ],
    )
}
