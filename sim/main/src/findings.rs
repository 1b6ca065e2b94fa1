//! Demonstrations of the findings listed in /verif/known_findings.txt.
use crate::wire::*;
use crate::zoo;
use simcore::model::hex;

pub enum State { Present(String), Absent, Different(String) }
pub struct Finding { pub id: &'static str, pub check: fn() -> State }

/// KF1: a record of 12 bits, declared from bit 0, nested as a 12-bit field. Its image is aligned to the front
/// of its two bytes while the field keeps the trailing 12 bits, so the first four bits are lost.
fn kf1() -> State {
    let o = zoo::by_name("FrontNested12");
    let mut lost = String::new();
    for v in [0u64, 0x00F, 0x0F0, 0xF00, 0xFFF, 0x5A3] {
        let m = build_msg(SINGLE, o.info(), 1, 0, &[v]);
        let b = match lib_pack(SINGLE, 0, o, &m, 0) { Ok(Ok(b)) => b, x => return State::Different(format!("packing {:#x}: {:?}", v, x)) };
        let r = match lib_unpack(SINGLE, 0, o, &b) { Ok(Ok(r)) => r.elems[0][0] as u64, x => return State::Different(format!("unpacking {}: {:?}", hex(&b), x)) };
        if r == v { continue; }
        if r == v & 0x0FF { lost = format!("value {:#05x} packs to {} and unpacks to {:#05x}", v, hex(&b), r); } else { return State::Different(format!("value {:#x} came back as {:#x}", v, r)); }
    }
    if lost.is_empty() { State::Absent } else { State::Present(format!("12-bit record nested as a 12-bit field loses its first four bits: {}", lost)) }
}

/// KF2: an exclusive range of bytes, `bytes = "0..4"`, is documented as bytes 0 to 3 but covers bytes 0 to 2 only,
/// so that a `u32` declared with it loses its most significant byte.
fn kf2() -> State {
    let o = zoo::by_name("ExclusiveBytes");
    let mut lost = String::new();
    for v in [0u64, 0xFF, 0x11223344, 0xFFFFFFFF, 0x80000000, 0x00ABCDEF] {
        let m = build_msg(SINGLE, o.info(), 1, 0, &[v]);
        let b = match lib_pack(SINGLE, 0, o, &m, 0) { Ok(Ok(b)) => b, x => return State::Different(format!("packing {:#x}: {:?}", v, x)) };
        let r = match lib_unpack(SINGLE, 0, o, &b) { Ok(Ok(r)) => r.elems[0][0] as u64, x => return State::Different(format!("unpacking {}: {:?}", hex(&b), x)) };
        if r == v && b == (v as u32).to_be_bytes() { continue; }
        if r == v & 0xFFFFFF && b == ((v << 8) as u32).to_be_bytes() { if r != v { lost = format!("value {:#010x} packs to {} and unpacks to {:#010x}", v, hex(&b), r); } } else { return State::Different(format!("value {:#x} packs to {} and comes back as {:#x}", v, hex(&b), r)); }
    }
    if lost.is_empty() { State::Absent } else { State::Present(format!("an exclusive range of bytes covers one byte too few: {}", lost)) }
}

pub fn of(prop: &str) -> Vec<Finding> {
    match prop {
        "P05" => vec![Finding { id: "KF1", check: kf1 }],
        "P06" => vec![Finding { id: "KF1", check: kf1 }, Finding { id: "KF2", check: kf2 }],
        _ => vec![],
    }
}
