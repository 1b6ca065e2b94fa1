//! All declarations under simulation.
use simcore::Ops;

pub fn all() -> &'static [&'static dyn Ops] {
    use std::sync::OnceLock;
    static A: OnceLock<Vec<&'static dyn Ops>> = OnceLock::new();
    A.get_or_init(|| {
        let mut v: Vec<&'static dyn Ops> = vec![];
        for s in [zoo_s1::ENTRIES, zoo_s2::ENTRIES, zoo_s3::ENTRIES, zoo_s4::ENTRIES, zoo_r1::ENTRIES, zoo_r2::ENTRIES, zoo_i1::ENTRIES] { v.extend(s.iter().copied()); }
        v
    })
}
/// Declarations used by ordinary workloads (no known findings).
pub fn usual() -> &'static [&'static dyn Ops] {
    use std::sync::OnceLock;
    static A: OnceLock<Vec<&'static dyn Ops>> = OnceLock::new();
    A.get_or_init(|| all().iter().copied().filter(|o| o.info().known.is_none()).collect())
}
/// Declarations with a field whose type leaves some numbers undefined or keeps them verbatim.
pub fn choosy() -> &'static [usize] {
    use simcore::model::Kind;
    use std::sync::OnceLock;
    static A: OnceLock<Vec<usize>> = OnceLock::new();
    A.get_or_init(|| (0..usual().len()).filter(|i| usual()[*i].info().leaves.iter().any(|l|
        l.refusable() || matches!(l.kind, Kind::Enum { .. }) || (matches!(l.kind, Kind::Bool) && l.width > 1))).collect())
}
pub fn derived() -> &'static [usize] {
    use std::sync::OnceLock;
    static A: OnceLock<Vec<usize>> = OnceLock::new();
    A.get_or_init(|| (0..usual().len()).filter(|i| !usual()[*i].info().rows.is_empty()).collect())
}
pub fn by_name(n: &str) -> &'static dyn Ops { all().iter().copied().find(|o| o.info().name == n).expect("zoo entry") }
pub fn at(i: u64) -> &'static dyn Ops { let u = usual(); u[(i % u.len() as u64) as usize] }
/// All enums: the fixed ones and those of this zoo.
pub fn enums() -> &'static [&'static dyn simcore::enums::EnumOps] {
    use std::sync::OnceLock;
    static A: OnceLock<Vec<&'static dyn simcore::enums::EnumOps>> = OnceLock::new();
    A.get_or_init(|| simcore::enums::BASE.iter().chain(zoo_r1::ENUM_ENTRIES).chain(zoo_r2::ENUM_ENTRIES).chain(zoo_i1::ENUM_ENTRIES).copied().collect())
}
