//! Emits more declared records of scripted components than anyone would write by hand: any position, width and byte
//! order, arrays of every element, records within records. A pure function of ZOO_SEED.
use std::fmt::Write as _;

struct Rng(u64);
impl Rng {
    fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize { (self.u64() % n as u64) as usize }
    fn chance(&mut self, a: usize, b: usize) -> bool { self.below(b) < a }
}

#[derive(Clone)]
struct El { ty: String, width: usize, is_enum: bool, lsb: Option<bool>, leaves: usize }
fn el(ty: &str, width: usize) -> El { El { ty: ty.into(), width, is_enum: false, lsb: None, leaves: 1 } }

/// (name, bytes, unused leading bits, components)
type Done = (String, usize, usize, usize);

fn element(r: &mut Rng, pool: &[Done]) -> El {
    match r.below(16) {
        0..=4 => { let n = 1 + r.below(8); el(&format!("Probe<{}>", n), n * 8) }
        5 | 6 => { let n = 9 + r.below(9); el(&format!("Probe<{}>", n), n * 8) }
        7 => el("PEnum", if r.chance(1, 3) { 7 } else { 8 }),
        8 => El { lsb: Some(r.chance(1, 2)), ..el("PEnum16", 16) },
        9 => El { lsb: Some(r.chance(1, 2)), ..el("PEnum32", 32) },
        10 => el("MInt", 12),
        11 => el("LInt", 12),
        12 => el("MInt40", 40),
        13 => el("LInt40", 40),
        _ if !pool.is_empty() => {
            let (name, bytes, lead, leaves) = pool[r.below(pool.len())].clone();
            let cut = if lead > 0 && r.chance(2, 3) { lead.min(7) } else { 0 };
            El { leaves, ..el(&name, bytes * 8 - cut) }
        }
        _ => el("u8", 8),
    }
}
fn enumish(e: &mut El) { e.is_enum = e.ty.starts_with("PEnum"); }

fn main() {
    println!("cargo:rerun-if-env-changed=ZOO_SEED");
    println!("cargo:rerun-if-changed=build.rs");
    let seed: u64 = std::env::var("ZOO_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x5AAFE5);
    let mut code = String::new();
    let mut pool: Vec<Done> = vec![];
    let mut list = String::new();
    for k in 0..30usize {
        let name = format!("Gen{}", k);
        // the first ones systematically: one wide component at each offset within a byte, with a neighbour on either side
        let wide = if k < 8 { Some(k) } else { None };
        let mut fields: Vec<(El, Option<usize>, usize)> = vec![];
        let mut at = match wide { Some(o) => o, None => if r.chance(1, 2) { r.below(12) } else { 0 } };
        let auto = wide.is_none() && at == 0 && r.chance(1, 4);
        let n = if wide.is_some() { 2 } else { 1 + r.below(5) };
        let mut leaves = 0;
        for i in 0..n {
            let mut e = match wide {
                Some(_) if i == 0 => { let n = 9 + r.below(8); el(&format!("Probe<{}>", n), n * 8) }
                _ => element(&mut r, &pool),
            };
            enumish(&mut e);
            let count = if r.chance(1, 4) { Some(1 + r.below(4)) } else { None };
            let w = e.width * count.unwrap_or(1);
            leaves += e.leaves * count.unwrap_or(1);
            if at + w > 640 && i > 0 { break; }
            fields.push((e, count, at));
            at += w;
            if !auto && r.chance(1, 2) { at += r.below(10); }
        }
        if leaves > 60 { continue; }
        let end = fields.iter().map(|(e, c, s)| s + e.width * c.unwrap_or(1)).max().unwrap();
        let lead = fields.iter().map(|f| f.2).min().unwrap();
        let bytes = (end + 7) / 8 + if r.chance(1, 5) { r.below(3) } else { 0 };
        let lsb0 = !auto && r.chance(1, 4);
        let order = !auto && r.chance(1, 3);
        if order { for i in (1..fields.len()).rev() { let j = r.below(i + 1); fields.swap(i, j); } }
        let mut rows = String::new();
        writeln!(code, "#[derive(PackedStruct, Debug)]").unwrap();
        writeln!(code, "#[packed_struct(bit_numbering = \"{}\", size_bytes = \"{}\")]\npub struct {} {{", if lsb0 { "lsb0" } else { "msb0" }, bytes, name).unwrap();
        for (i, (e, count, s)) in fields.iter().enumerate() {
            let w = e.width * count.unwrap_or(1);
            let mut a = vec![];
            if !auto {
                let (x, y) = if lsb0 { (bytes * 8 - 1 - s, bytes * 8 - s - w) } else { (*s, s + w - 1) };
                a.push(if !lsb0 && x % 8 == 0 && (y + 1) % 8 == 0 && r.chance(1, 2) { format!("bytes = \"{}..={}\"", x / 8, y / 8) } else { format!("bits = \"{}:{}\"", x, y) });
            }
            if auto || count.is_some() || r.chance(1, 3) { a.push(format!("element_size_bits = \"{}\"", e.width)); }
            if e.is_enum { a.push("ty = \"enum\"".into()); }
            if let Some(l) = e.lsb { a.push(format!("endian = \"{}\"", if l { "lsb" } else { "msb" })); }
            writeln!(code, "    #[packed_field({})]\n    pub c{}: {},", a.join(", "), i, match count { Some(n) => format!("[{}; {}]", e.ty, n), None => e.ty.clone() }).unwrap();
            write!(rows, "c{}: {} = {}, {}, {}; ", i, match count { Some(n) => format!("[{}; {}]", e.ty, n), None => e.ty.clone() }, s, e.width, e.lsb == Some(true)).unwrap();
        }
        writeln!(code, "}}\nplaced!({}, {}, {{ {} }});\n", name, bytes, rows).unwrap();
        write!(list, "sh!(Den, {}), ", name).unwrap();
        if k % 5 == 2 { write!(list, "sh!(Slice, Vec<{}>), ", name).unwrap(); }
        if k % 5 == 4 { write!(list, "sh!(Slice, (Probe<1>, Vec<{}>, {})), ", name, name).unwrap(); }
        if bytes <= 24 && leaves <= 8 { pool.push((name, bytes, lead, leaves)); }
    }
    writeln!(code, "macro_rules! with_generated {{ ($m:ident) => {{ $m! {{ {} }} }} }}\npub(crate) use with_generated;", list).unwrap();
    std::fs::write(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("gen.rs"), code).unwrap();
}
