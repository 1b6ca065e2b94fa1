// Zoo generator: emits record declarations together with an independently computed reference layout.
// Run from the build scripts of the zoo crates; a pure function of (shard, seed).

use std::fmt::Write as _;

#[derive(Clone)]
struct Rng(u64);
impl Rng {
    fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize { (self.u64() % n as u64) as usize }
    fn chance(&mut self, a: usize, b: usize) -> bool { self.below(b) < a }
}

#[derive(Clone)]
struct LeafG { name: String, start: usize, width: usize, lsb: bool, kind: String }

#[derive(Clone)]
struct Elem {
    ty: String,
    width: usize,
    builtin: bool,
    /// Some(lsb): needs an endianness attribute or default
    endian: Option<bool>,
    is_enum: bool,
    leaves: Vec<LeafG>,
}

#[derive(Clone)]
struct Rec { name: String, nbytes: usize, nbits: usize, leaves: Vec<LeafG>, lead_gap: usize, depth: usize }

struct Field { elem: Elem, n: Option<usize>, start: usize }
impl Field { fn width(&self) -> usize { self.elem.width * self.n.unwrap_or(1) } }

fn native(w: usize, signed: bool) -> &'static str {
    match (w, signed) {
        (0..=8, false) => "u8", (0..=8, true) => "i8",
        (9..=16, false) => "u16", (9..=16, true) => "i16",
        (17..=32, false) => "u32", (17..=32, true) => "i32",
        (_, false) => "u64", (_, true) => "i64",
    }
}

fn int_elem(w: usize, signed: bool, lsb: bool, prim: bool) -> Elem {
    let t = native(w, signed);
    let full = matches!(w, 8 | 16 | 32 | 64);
    Elem {
        ty: if prim { t.to_string() } else { format!("Integer<{}, packed_bits::Bits::<{}>>", t, w) },
        width: w,
        builtin: !prim || full,
        endian: if w > 8 { Some(lsb) } else { None },
        is_enum: false,
        leaves: vec![LeafG { name: String::new(), start: 0, width: w, lsb, kind: if signed { "Kind::S".into() } else { "Kind::U".into() } }],
    }
}
fn bool_elem(w: usize) -> Elem {
    Elem { ty: "bool".into(), width: w, builtin: w == 1, endian: None, is_enum: false,
        leaves: vec![LeafG { name: String::new(), start: 0, width: w, lsb: false, kind: "Kind::Bool".into() }] }
}
// name, backing, signed, min width, max width
const ENUMS: &[(&str, bool, usize, usize)] = &[
    ("EA", false, 2, 8), ("EB", false, 2, 8), ("EC", false, 8, 8), ("ED", false, 8, 8),
    ("EE", false, 16, 16), ("EF", false, 9, 16), ("EG", false, 32, 32), ("EG2", false, 17, 32), ("EH", false, 63, 64),
    ("EI", true, 8, 8), ("EJ", true, 3, 8), ("EK", true, 16, 16), ("EK2", true, 9, 16),
    ("EL", true, 32, 32), ("EM", true, 64, 64), ("EN", false, 3, 8),
];
#[derive(Clone)]
struct EnumG { name: String, signed: bool, lo: usize, hi: usize }
fn base_enums() -> Vec<EnumG> { ENUMS.iter().map(|(n, signed, lo, hi)| EnumG { name: n.to_string(), signed: *signed, lo: *lo, hi: *hi }).collect() }
fn enum_elem(e: &EnumG, w: usize, lsb: bool, catch: bool) -> Elem {
    let (n, signed) = (&e.name, e.signed);
    let w = w.clamp(e.lo, e.hi);
    Elem {
        ty: if catch { format!("EnumCatchAll<{}>", n) } else { n.to_string() },
        width: w, builtin: false, endian: if w > 8 { Some(lsb) } else { None }, is_enum: true,
        leaves: vec![LeafG { name: String::new(), start: 0, width: w, lsb,
            kind: format!("Kind::Enum {{ info: &<{} as Declared>::INFO, signed: {}, catch_all: {} }}", n, signed, catch) }],
    }
}
fn res_elem(w: usize, one: bool, alias: bool) -> Elem {
    let t = match (one, alias) { (false, false) => "ReservedZero", (false, true) => "ReservedZeroes", (true, false) => "ReservedOne", (true, true) => "ReservedOnes" };
    Elem { ty: format!("{}<packed_bits::Bits::<{}>>", t, w), width: w, builtin: true, endian: None, is_enum: false,
        leaves: vec![LeafG { name: String::new(), start: 0, width: w, lsb: false, kind: format!("Kind::Res({})", one) }] }
}
/// Record used as a field; `cut` leading bits (a gap of the inner record) stay off the wire.
fn nested_elem(r: &Rec, cut: usize) -> Elem {
    Elem {
        ty: r.name.clone(), width: r.nbytes * 8 - cut, builtin: false, endian: None, is_enum: false,
        leaves: r.leaves.iter().map(|l| LeafG { name: format!(".{}", l.name), start: l.start - cut, ..l.clone() }).collect(),
    }
}

fn random_elem(rng: &mut Rng, pool: &[Rec], enums: &[EnumG], max_depth: usize) -> Elem {
    match rng.below(20) {
        0..=6 => {
            let w = match rng.below(4) { 0 => 1 + rng.below(8), 1 => 9 + rng.below(8), 2 => 17 + rng.below(16), _ => 1 + rng.below(64) };
            let signed = rng.chance(1, 2);
            int_elem(w, signed, rng.chance(1, 2), rng.chance(2, 5))
        }
        7 | 8 => { let w = [8, 16, 32, 64][rng.below(4)]; let s = rng.chance(1, 2); int_elem(w, s, rng.chance(1, 2), true) }
        9 | 10 => bool_elem(1),
        11 => bool_elem(1 + rng.below(8)),
        12..=14 => { let i = rng.below(enums.len()); enum_elem(&enums[i], 1 + rng.below(64), rng.chance(1, 2), rng.chance(1, 2)) }
        15 | 16 => { let w = if rng.chance(3, 4) { 1 + rng.below(12) } else { 1 + rng.below(100) }; res_elem(w, rng.chance(1, 2), rng.chance(1, 2)) }
        _ => {
            let c: Vec<&Rec> = pool.iter().filter(|r| r.depth < max_depth && r.nbytes <= 40).collect();
            if c.is_empty() { return int_elem(8, false, false, true); }
            let r = c[rng.below(c.len())];
            let cut = if r.lead_gap > 0 && rng.chance(3, 4) { r.lead_gap.min(7) } else { 0 };
            nested_elem(r, cut)
        }
    }
}

fn num(rng: &mut Rng, v: usize) -> String { if rng.chance(1, 8) { format!("0x{:X}", v) } else { v.to_string() } }

/// Dice for variations that leave the main sequence of draws alone.
fn aside(rng: &Rng, salt: u64) -> Rng { let mut r = Rng(rng.0 ^ salt.wrapping_mul(0x9E37_79B9_7F4A_7C15)); r.u64(); r }
/// Blanks and capitals the attributes may be written with.
fn vary(rng: &mut Rng, attr: &str) -> String {
    let (key, val) = match attr.split_once("=\"") { Some((k, v)) => (k, v.trim_end_matches('"')), None => return attr.into() };
    let mut v = val.to_string();
    match key {
        "bits" | "bytes" => {
            if rng.chance(1, 5) { for sep in ["..=", "..", ":"] { if v.contains(sep) { v = v.replace(sep, &format!(" {} ", sep)); break; } } }
            if v.ends_with(' ') { v.truncate(v.len() - 1); }
            if rng.chance(1, 8) { v = format!(" {} ", v); }
            if rng.chance(1, 4) { v = v.replace("0x", "0X"); }
        }
        "endian" | "bit_numbering" => match rng.below(5) { 0 => v = v.to_uppercase(), 1 => v = format!("{}{}", v[..1].to_uppercase(), &v[1..]), _ => {} },
        "ty" => {}
        _ => if rng.chance(1, 8) { v = format!(" {}", v); },
    }
    if rng.chance(1, 3) { format!("{} = \"{}\"", key, v) } else { format!("{}=\"{}\"", key, v) }
}
/// One attribute list, or several.
fn lists(rng: &mut Rng, name: &str, attrs: &[String]) -> String {
    let attrs: Vec<String> = attrs.iter().map(|a| vary(rng, a)).collect();
    let cut = if attrs.len() > 1 && rng.chance(1, 5) { 1 + rng.below(attrs.len() - 1) } else { attrs.len() };
    let mut t = String::new();
    for part in [&attrs[..cut], &attrs[cut..]] {
        if part.is_empty() { continue; }
        if rng.chance(1, 12) { t.push_str("/// Some words.\n"); }
        t.push_str(&format!("#[{}({}{})]\n", name, part.join(", "), if rng.chance(1, 8) { "," } else { "" }));
    }
    t
}

/// Spelling of a position attribute. Returns (attribute text, does it fix the end).
fn spell(rng: &mut Rng, a: usize, b: usize, total: Option<usize>, allow_open: bool) -> (String, bool) {
    // numbers as the attribute wants them: a <= b in MSB0; for LSB0 mirrored
    let (a, b, lsb0) = match total { Some(t) => (t - 1 - b, t - 1 - a, true), None => (a, b, false) };
    if a % 8 == 0 && (b + 1) % 8 == 0 && rng.chance(1, 3) {
        let (x, y) = (a / 8, (b + 1) / 8 - 1);
        if x == y && rng.chance(1, 2) { return (format!("bytes=\"{}\"", num(rng, x)), true); }
        if allow_open && !lsb0 && rng.chance(1, 4) { return (format!("bytes=\"{}{}\"", num(rng, x), if rng.chance(1, 2) { ".." } else { ":" }), false); }
        let sep = if rng.chance(1, 2) { ":" } else { "..=" };
        let turned = aside(rng, 7).chance(1, 3);
        let (x, y) = if turned { (y, x) } else { (x, y) };
        return (format!("bytes=\"{}{}{}\"", num(rng, x), sep, num(rng, y)), true);
    }
    if a == b && rng.chance(2, 3) { return (format!("bits=\"{}\"", num(rng, a)), true); }
    if allow_open && !lsb0 && rng.chance(1, 3) { return (format!("bits=\"{}{}\"", num(rng, a), if rng.chance(1, 2) { ".." } else { ":" }), false); }
    let t = match rng.below(4) {
        0 => format!("{}:{}", num(rng, a), num(rng, b)),
        1 => format!("{}..={}", num(rng, a), num(rng, b)),
        2 => format!("{}..{}", num(rng, a), num(rng, b + 1)),
        _ => format!("{}:{}", num(rng, b), num(rng, a)),
    };
    (format!("bits=\"{}\"", t), true)
}

#[derive(Clone, Copy, PartialEq)]
enum Mode { Auto, Explicit, Mixed, Lsb0 }

struct Out { code: String, entries: Vec<String>, enums: Vec<EnumG>, declared: usize }

/// Names for the fields of a record: plain ones, or ones that resemble each other, the elements of the record's arrays
/// and names a code generator might use for itself.
fn field_names(rng: &mut Rng, fields: &[Field]) -> Vec<String> {
    let nf = fields.len();
    if rng.chance(1, 2) { return (0..nf).map(|i| if i % 5 == 3 { format!("_f{}", i) } else { format!("f{}", i) }).collect(); }
    const WORDS: [&str; 30] = ["r#type", "r#fn", "r#match", "r#in", "r#mod", "r#struct", "src", "target", "packed", "bytes", "b", "unpacked", "value", "output", "res", "len", "size", "fields",
        "fmt", "f", "x", "i", "display", "lengths", "ranges", "integer", "primitive_integer", "sized_integer", "wrapper", "unpacked_0"];
    const BASES: [&str; 4] = ["a", "v", "unpacked", "r#type"];
    let mut names: Vec<String> = vec![String::new(); nf];
    let mut used: Vec<String> = vec![];
    let mut arrays: Vec<String> = vec![];
    for i in 0..nf {
        if fields[i].n.is_some() {
            let base = match arrays.last() { Some(l) if rng.chance(1, 3) => format!("{}_{}", l.trim_start_matches("r#"), rng.below(3)), _ => BASES[rng.below(4)].to_string() };
            if !used.contains(&base) { arrays.push(base.clone()); used.push(base.clone()); names[i] = base; }
        }
    }
    for i in 0..nf {
        let mut tries = 0;
        while names[i].is_empty() {
            tries += 1;
            let cand = if tries > 20 { format!("f{}", i) }
                else if !arrays.is_empty() && rng.chance(2, 3) { let a = arrays[rng.below(arrays.len())].clone(); format!("{}_{}", a.trim_start_matches("r#"), rng.below(3)) }
                else { WORDS[rng.below(30)].to_string() };
            if !used.contains(&cand) { used.push(cand.clone()); names[i] = cand; }
        }
    }
    names
}

fn emit(out: &mut Out, rng: &mut Rng, name: &str, mut fields: Vec<Field>, mode: Mode, slack: usize, force_size: bool, shuffle: bool, known: Option<&str>, pool_depth: usize) -> Rec {
    let end = fields.iter().map(|f| f.start + f.width()).max().unwrap();
    let lead_gap = fields.iter().map(|f| f.start).min().unwrap();
    let with_size = force_size || slack > 0 || mode == Mode::Lsb0 || (mode == Mode::Auto && end % 8 != 0);
    let nbytes = (end + 7) / 8 + slack;
    let nbits = if with_size { nbytes * 8 } else { end };
    if shuffle && (mode == Mode::Explicit || mode == Mode::Lsb0) {
        for i in (1..fields.len()).rev() { let j = rng.below(i + 1); fields.swap(i, j); }
    }
    if shuffle && mode == Mode::Mixed && fields.len() > 1 {
        // a field without a position follows the one written before it, not the one that lies last
        let mut dice = aside(rng, 5);
        let (from, n) = (dice.below(fields.len() - 1), fields.len());
        let to = from + 2 + dice.below(n - from - 1).min(n - from - 2);
        fields[from..to].rotate_left(1);
        if dice.chance(1, 2) { let k = dice.below(fields.len()); fields.rotate_left(k); }
    }
    let default_endian = match rng.below(3) { 0 => None, 1 => Some(false), _ => Some(true) };
    let mut sattrs = vec![];
    if with_size { sattrs.push(format!("size_bytes=\"{}\"", num(rng, nbytes))); }
    match mode {
        Mode::Auto => if rng.chance(1, 2) { sattrs.push("bit_numbering=\"msb0\"".to_string()) },
        Mode::Explicit | Mode::Mixed => sattrs.push(format!("bit_numbering=\"{}\"", if rng.chance(1, 4) { "MSB0" } else { "msb0" })),
        Mode::Lsb0 => sattrs.push("bit_numbering=\"lsb0\"".to_string()),
    }
    if let Some(l) = default_endian { sattrs.push(format!("endian=\"{}\"", match (l, rng.chance(1, 2)) { (true, true) => "le", (true, false) => "lsb", (false, true) => "be", (false, false) => "msb" })); }
    let k = rng.below(sattrs.len().max(1));
    if !sattrs.is_empty() { sattrs.rotate_left(k); }

    let fnames = field_names(rng, &fields);
    let c = &mut out.code;
    writeln!(c, "#[derive(PackedStruct, Debug, Clone, PartialEq)]").unwrap();
    if !sattrs.is_empty() { c.push_str(&lists(&mut aside(rng, 1), "packed_struct", &sattrs)); }
    writeln!(c, "pub struct {} {{", name).unwrap();
    let mut leaves: Vec<LeafG> = vec![];
    let mut rows: Vec<(String, usize, usize)> = vec![];
    let nf = fields.len();
    for (i, f) in fields.iter().enumerate() {
        let fname = fnames[i].clone();
        let (a, b) = (f.start, f.start + f.width() - 1);
        let mut attrs: Vec<String> = vec![];
        let mut fixed = false;
        let positioned = match mode {
            Mode::Auto => false,
            Mode::Explicit | Mode::Lsb0 => true,
            Mode::Mixed => i == 0 || f.start != fields[i - 1].start + fields[i - 1].width() || rng.chance(1, 3),
        };
        if positioned {
            let (t, fx) = spell(rng, a, b, if mode == Mode::Lsb0 { Some(nbytes * 8) } else { None }, mode != Mode::Lsb0);
            attrs.push(t);
            fixed = fx;
        }
        let needs_size = !fixed && !f.elem.builtin;
        if needs_size || rng.chance(1, 6) {
            let w = f.elem.width;
            let key = if f.n.is_some() { "element_size" } else if rng.chance(1, 5) { "element_size" } else { "size" };
            attrs.push(if w % 8 == 0 && rng.chance(1, 2) { format!("{}_bytes=\"{}\"", key, w / 8) } else { format!("{}_bits=\"{}\"", key, num(rng, w)) });
        }
        if f.elem.is_enum { attrs.push("ty=\"enum\"".into()); }
        if let Some(l) = f.elem.endian {
            if default_endian != Some(l) || rng.chance(1, 4) { attrs.push(format!("endian=\"{}\"", if l { "lsb" } else { "msb" })); }
        }
        if attrs.len() > 1 { let k = rng.below(attrs.len()); attrs.rotate_left(k); }
        if !attrs.is_empty() { c.push_str(&lists(&mut aside(rng, 2), "packed_field", &attrs)); }
        let mut et = f.elem.ty.clone();
        let mut dice = aside(rng, 11 + i as u64);
        if dice.chance(1, 4) { et = et.replace("Bits::<", "Bits<"); }
        match dice.below(6) {
            0 if fixed => et = et.replace("packed_bits::Bits", "Bits"), // then the position alone tells the width
            1 => et = et.replace("packed_bits::Bits", "packed_struct::types::bits::Bits"),
            _ => {}
        }
        let ty = match f.n { Some(n) => format!("[{}; {}]", et, match dice.below(12) { 0 => format!("0x{:X}", n), 1 => format!("{}usize", n), 2 => format!("0b{:b}", n), 3 => format!("{}_usize", n), _ => n.to_string() }), None => et };
        writeln!(c, "    pub {}: {}{}", fname, ty, if i + 1 == nf { "" } else { "," }).unwrap();
        for e in 0..f.n.unwrap_or(1) {
            let plain = fname.trim_start_matches("r#");
            let en = if f.n.is_some() { format!("{}[{}]", plain, e) } else { plain.to_string() };
            let s = f.start + e * f.elem.width;
            rows.push((en.clone(), s, s + f.elem.width - 1));
            for l in &f.elem.leaves { leaves.push(LeafG { name: format!("{}{}", en, l.name), start: s + l.start, ..l.clone() }); }
        }
    }
    writeln!(c, "}}").unwrap();
    writeln!(c, "impl Leafy for {} {{\n    fn put(&self, o: &mut Vals) {{ {} }}\n    fn take(i: &mut core::slice::Iter<i128>) -> Self {{ {} {{ {} }} }}\n}}",
        name, fnames.iter().map(|n| format!("self.{}.put(o);", n)).collect::<Vec<_>>().join(" "),
        name, fnames.iter().map(|n| format!("{}: Leafy::take(i)", n)).collect::<Vec<_>>().join(", ")).unwrap();
    let dbg: Vec<String> = fields.iter().zip(&fnames).map(|(f, n)| if f.n.is_some() { format!("for x in &v.{} {{ o.push(format!(\"{{:?}}\", x)); }}", n) } else { format!("o.push(format!(\"{{:?}}\", v.{}));", n) }).collect();
    write_info(c, name, nbytes, nbits, &leaves, &rows, false, known, Some(&dbg.join(" ")));
    out.entries.push(name.to_string());
    Rec { name: name.to_string(), nbytes, nbits, leaves, lead_gap, depth: pool_depth }
}

/// What the library is built for: the standard library, an allocator only, neither.
#[derive(Clone, Copy, PartialEq)]
pub enum Flavor { Std, Bare, Alloc }
thread_local! { static FLAVOR: std::cell::Cell<Flavor> = std::cell::Cell::new(Flavor::Std); }

fn write_info(c: &mut String, ty: &str, nbytes: usize, nbits: usize, leaves: &[LeafG], rows: &[(String, usize, usize)], pad_any: bool, known: Option<&str>, derived: Option<&str>) {
    let def = if derived.is_some() { ty.to_string() } else { writeln!(c, "pub struct D_{};", ty).unwrap(); format!("D_{}", ty) };
    writeln!(c, "impl Def for {} {{\n    type T = {};\n    const INFO: RecInfo = RecInfo {{ name: {:?}, nbytes: {}, nbits: {}, pad_any: {}, known: {:?},", def, ty, ty, nbytes, nbits, pad_any, known).unwrap();
    writeln!(c, "        leaves: &[{}],", leaves.iter().map(|l| format!("Leaf {{ name: {:?}, start: {}, width: {}, lsb: {}, kind: {} }}", l.name, l.start, l.width, l.lsb, l.kind)).collect::<Vec<_>>().join(", ")).unwrap();
    writeln!(c, "        rows: &[{}] }};", rows.iter().map(|r| format!("Row {{ name: {:?}, first: {}, last: {} }}", r.0, r.1, r.2)).collect::<Vec<_>>().join(", ")).unwrap();
    let flavor = FLAVOR.with(|f| f.get());
    if let Some(d) = derived {
        if flavor != Flavor::Bare { writeln!(c, "    derived_render!();").unwrap(); }
        if flavor == Flavor::Std { writeln!(c, "    fn debug_rows(v: &Self) -> Vec<String> {{ let mut o = vec![]; {} o }}", d).unwrap(); }
    }
    writeln!(c, "}}").unwrap();
}

fn standalone(out: &mut Out, ty: &str, nbytes: usize, nbits: usize, leaves: Vec<LeafG>, pad_any: bool) {
    write_info(&mut out.code, ty, nbytes, nbits, &leaves, &[], pad_any, None, None);
    out.entries.push(format!("D_{}", ty));
}

fn kind_of(i: usize) -> (bool, bool) { [(false, false), (false, true), (true, false), (true, true)][i % 4] }

/// Every (width, bit offset, sign, byte order) combination, in records of eight fields; what lies between two of them is
/// mostly filled with other live fields.
fn systematic(out: &mut Out, rng: &mut Rng, from: usize, to: usize) {
    for w in from..=to {
        let rounds = if w <= 8 { 2 } else { 4 };
        let base: Vec<usize> = (0..8).map(|_| rng.below(4)).collect();
        for round in 0..rounds {
            let mut left: Vec<usize> = (0..8).collect();
            let lsb0 = rng.chance(1, 4);
            let style = rng.below(3);
            let mut pos = rng.below(8);
            let mut fields = vec![];
            while !left.is_empty() {
                // the next field where the last one ended, if that offset is still wanted
                let o = match left.iter().position(|o| *o == pos % 8) { Some(k) => left.remove(k), None => { let k = rng.below(left.len()); left.remove(k) } };
                let gap = (o + 8 - pos % 8) % 8;
                fill_gap(&mut fields, rng, pos, gap, style);
                let start = pos + gap;
                let (signed, lsb) = if w <= 8 { ((base[o] + round) % 2 == 1, rng.chance(1, 2)) } else { kind_of(base[o] ^ round) };
                fields.push(Field { elem: int_elem(w, signed, lsb, rng.chance(1, 2)), n: None, start });
                pos = start + w;
            }
            let end = (8 - pos % 8) % 8;
            fill_gap(&mut fields, rng, pos, end, style);
            let slack = if rng.chance(1, 3) { 1 } else { 0 };
            emit(out, rng, &format!("W{}x{}", w, round), fields, if lsb0 { Mode::Lsb0 } else { Mode::Explicit }, slack, false, true, None, 0);
        }
    }
}
fn fill_gap(fields: &mut Vec<Field>, rng: &mut Rng, mut pos: usize, mut gap: usize, style: usize) {
    while gap > 0 {
        let k = 1 + rng.below(gap);
        let elem = match rng.below(4 + 2 * style) {
            0 => Some(int_elem(k, false, false, rng.chance(1, 2))),
            1 => Some(int_elem(k, true, false, rng.chance(1, 2))),
            2 => Some(bool_elem(k.min(1))),
            3 => Some(res_elem(k, rng.chance(1, 2), rng.chance(1, 2))),
            _ => None,
        };
        let k = elem.as_ref().map_or(k, |e| e.width);
        if let Some(elem) = elem { fields.push(Field { elem, n: None, start: pos }); }
        pos += k;
        gap -= k;
    }
}

// ---- enums ------------------------------------------------------------------------------------------

fn variant_names(rng: &mut Rng, n: usize) -> Vec<String> {
    const WORDS: [&str; 48] = ["r#type", "r#match", "r#async", "r#in", "Off", "On", "Idle", "Standby", "LowPower", "Active", "Run", "Running", "RunningFast", "Stop", "Stopped", "Error", "ErrorFatal", "None", "Some", "Ok", "Err",
        "Default", "Unknown", "UnknownValue", "Reserved", "A", "Ab", "Abc", "B", "BB", "X1", "X10", "X11", "Mode_A", "Mode_B", "RATE_3_125HZ", "RATE_3", "rate", "low", "_Hidden", "Größe", "Straße", "Ωmega", "ΣίγμαςΣ", "Éa", "CatchAll", "Enum", "String"];
    let style = rng.below(6);
    let mut v: Vec<String> = vec![];
    let mut k = 0;
    while v.len() < n {
        k += 1;
        let c = match style {
            _ if n > 40 => format!("V{}", k),
            0 => { let w = WORDS[rng.below(48)]; if rng.chance(1, 3) { format!("{}{}", w.trim_start_matches("r#"), rng.below(12)) } else { w.to_string() } }
            1 => WORDS[rng.below(48)].to_string(),
            2 => "Aa".repeat(k),
            3 => format!("Rate{}_{}Hz", rng.below(4), rng.below(30)),
            4 => { let mut t = String::new(); for _ in 0..1 + rng.below(4) { t.push(b"ABab"[rng.below(4)] as char); } t }
            _ => format!("V{}", rng.below(4 * n + 4)),
        };
        let c = if k > 400 { format!("Z{}", k) } else { c };
        if c != "_" && c != "Self" && c != "as" && c != "Aa_" && !v.contains(&c) { v.push(c); }
    }
    v
}
fn literal(rng: &mut Rng, v: i128) -> String {
    let (m, sign) = (v.unsigned_abs(), if v < 0 { "-" } else { "" });
    let t = match rng.below(8) {
        0 => format!("0x{:X}", m), 1 => format!("0x{:04x}", m), 2 => format!("0b{:b}", m), 3 => format!("0o{:o}", m),
        4 if m > 999 => { let d = m.to_string(); let k = d.len() - 3; format!("{}_{}", &d[..k], &d[k..]) }
        _ => m.to_string(),
    };
    format!("{}{}", sign, t)
}
fn bits_of(lo: i128, hi: i128, signed: bool) -> usize {
    (1..=64).find(|w| if signed { lo >= -(1i128 << (w - 1)) && hi < 1i128 << (w - 1) } else { hi < 1i128 << w }).unwrap()
}
fn class(w: usize) -> (usize, usize) { match w { 0..=8 => (1, 8), 9..=16 => (9, 16), 17..=32 => (17, 32), _ => (33, 64) } }

/// One enum: numbers and names drawn, written down once for the library and once for the model.
fn declare_enum(out: &mut Out, rng: &mut Rng, name: &str, kind: usize) {
    // numbers
    let edge = |rng: &mut Rng| -> i128 { // around the limits of the native types
        let b = [7, 8, 15, 16, 31, 32, 63][rng.below(7)];
        (1i128 << b) - 2 + rng.below(4) as i128
    };
    let n = 2 + rng.below(9);
    let mut d: Vec<i128> = match kind % 12 {
        0 => (0..1i128 << (1 + rng.below(5))).collect(),
        1 => (0..n as i128).collect(),
        2 => { let o = [1, 3, 100, 250, 1000, 65530][rng.below(6)]; (o..o + n as i128).collect() }
        3 => { let mut v: Vec<i128> = (0..n as i128 + 2).collect(); for i in (1..v.len()).rev() { let j = rng.below(i + 1); v.swap(i, j); } v }
        4 => { let mut v = vec![]; let mut x = rng.below(4) as i128; for _ in 0..n { v.push(x); x += 1 + if rng.chance(1, 2) { rng.below(40) as i128 } else { 0 }; } v }
        5 => (0..n).map(|_| edge(rng)).collect(),
        6 => (0..n).map(|_| { let e = edge(rng); if rng.chance(1, 2) { -e } else { e } }).collect(),
        7 => { let o = -(rng.below(n + 3) as i128); (o..o + n as i128).collect() }
        8 => (0..n).map(|_| { let w = 1 + rng.below(64); (rng.u64() >> (64 - w)) as i128 }).collect(),
        9 => (0..n).map(|_| { let w = 1 + rng.below(63); let x = (rng.u64() >> (64 - w)) as i128; if rng.chance(1, 2) { -x } else { x } }).collect(),
        10 => vec![match rng.below(3) { 0 => 0, 1 => edge(rng), _ => -(rng.below(300) as i128) }],
        _ => { // some negative, some just beyond what the same number of bits can hold
            let b = [8, 16, 32][rng.below(3)];
            vec![-1 - rng.below(3) as i128, (1i128 << (b - 1)) + rng.below(100) as i128, rng.below(100) as i128, (1i128 << (b - 1)) - 1]
        }
    };
    let neg = d.iter().any(|x| *x < 0);
    if neg { for x in &mut d { *x = (*x).clamp(-(1i128 << 63), (1i128 << 63) - 1); } }
    for x in &mut d { if *x >= 1i128 << 64 { *x = (1i128 << 64) - 1; } }
    let mut seen: Vec<i128> = vec![];
    d.retain(|x| if seen.contains(x) { false } else { seen.push(*x); true });
    let (min, max) = (*d.iter().min().unwrap(), *d.iter().max().unwrap());
    // backing type
    let sized = rng.chance(2, 5);
    let signed = neg || (sized && max < 1i128 << 63 && rng.chance(1, 4));
    let need = bits_of(min, max, signed);
    let mut bits = class(need).1;
    if sized && rng.chance(1, 3) { bits = (bits * 2).min(64); }
    let prim = format!("{}{}", if signed { "i" } else { "u" }, bits);
    let suffixed = rng.chance(1, 6);
    let repr = suffixed || max >= 1i128 << 63 || rng.chance(1, 5);
    let names = variant_names(rng, d.len());
    let c = &mut out.code;
    if repr { writeln!(c, "#[repr({})]", prim).unwrap(); }
    writeln!(c, "#[derive({}, Clone, Copy, Debug, PartialEq)]", if sized { format!("PrimitiveEnum_{}", prim) } else { "PrimitiveEnum".into() }).unwrap();
    let all_implicit = rng.chance(1, 2);
    let mut vs = vec![];
    let mut any_suffix = false;
    for i in 0..d.len() {
        let follows = if i == 0 { d[0] == 0 } else { d[i] == d[i - 1] + 1 };
        let last = i + 1 == d.len();
        if follows && !(suffixed && last && !any_suffix) && (all_implicit || rng.chance(2, 3)) { vs.push(names[i].clone()); }
        else {
            let l = literal(rng, d[i]);
            if suffixed && (last || rng.chance(1, 2)) { any_suffix = true; vs.push(format!("{} = {}{}", names[i], l, if l.starts_with("0x") || l.starts_with("-0x") || rng.chance(1, 2) { format!("_{}", prim) } else { prim.clone() })); }
            else { vs.push(format!("{} = {}", names[i], l)); }
        }
    }
    writeln!(c, "pub enum {} {{ {} }}", name, vs.join(", ")).unwrap();
    writeln!(c, "declared!({} {{ {} }});", name, (0..d.len()).map(|i| format!("{} = {}", names[i], d[i])).collect::<Vec<_>>().join(", ")).unwrap();
    let (lo, hi) = class(bits);
    out.enums.push(EnumG { name: name.into(), signed, lo: lo.max(need), hi });
    out.declared += 1;
}

fn random(out: &mut Out, rng: &mut Rng, count: usize, prefix: &str, enums: bool) {
    let mut er = Rng(rng.0 ^ 0xE4E4);
    let shift = er.below(12);
    for i in 0..14 { declare_enum(out, &mut er, &format!("En{}{}", prefix, i), i + shift); }
    let mut pool: Vec<Rec> = vec![];
    // small records with a leading gap, for nesting at less than their own size
    for i in 0..4 {
        let gap = 1 + rng.below(7);
        let mut fields = vec![];
        let mut pos = gap;
        while pos % 8 != 0 || fields.is_empty() {
            let room = 8 - pos % 8;
            let w = 1 + rng.below(room);
            let e = if w == 1 && rng.chance(1, 2) { bool_elem(1) } else { int_elem(w, rng.chance(1, 2), false, false) };
            fields.push(Field { elem: e, n: None, start: pos });
            pos += w;
            if pos % 8 == 0 && i % 2 == 1 && pos < 16 { let s = rng.chance(1, 2); fields.push(Field { elem: int_elem(11, s, rng.chance(1, 2), false), n: None, start: pos }); pos += 11; }
        }
        let r = emit(out, rng, &format!("{}T{}", prefix, i), fields, Mode::Mixed, 0, false, false, None, 0);
        pool.push(r);
    }
    for i in 0..count {
        let mode = match i % 5 { 0 => Mode::Auto, 1 => Mode::Mixed, 2 | 3 => Mode::Explicit, _ => Mode::Lsb0 };
        let nf = 1 + rng.below(8);
        let mut fields = vec![];
        let mut pos = 0;
        for _ in 0..nf {
            let elem = random_elem(rng, &pool, &out.enums, if i > count / 2 { 2 } else { 1 });
            let n = if elem.width <= 40 && rng.chance(1, 4) { Some(1 + rng.below(5)) } else { None };
            let gap = if mode != Mode::Auto && rng.chance(1, 3) { rng.below(12) } else { 0 };
            let start = pos + gap;
            pos = start + elem.width * n.unwrap_or(1);
            fields.push(Field { elem, n, start });
            if pos > 64 * 8 { break; }
        }
        let slack = if rng.chance(1, 4) { 1 + rng.below(2) } else { 0 };
        let depth = 1 + fields.iter().filter_map(|f| pool.iter().find(|r| r.name == f.elem.ty).map(|r| r.depth)).max().unwrap_or(0);
        let force = rng.chance(1, 4);
        let r = emit(out, rng, &format!("{}R{}", prefix, i), fields, mode, slack, force, rng.clone().chance(1, 2), None, depth);
        pool.push(r);
    }
    // enums: every one, scalar and array, plain and catch-all, in one seed-dependent placement each
    let from = if enums { 0 } else { ENUMS.len() };
    for (i, en) in out.enums.clone().into_iter().enumerate().skip(from) {
        let (lo, hi) = (en.lo, en.hi);
        let mut fields = vec![];
        let mut pos = rng.below(8);
        for catch in [false, true] {
            let w = lo + rng.below(hi - lo + 1);
            let e = enum_elem(&en, w, rng.chance(1, 2), catch);
            let ew = e.width;
            let n = if rng.chance(1, 2) { Some(2 + rng.below(2)) } else { None };
            fields.push(Field { elem: e, n, start: pos });
            pos += ew * n.unwrap_or(1) + rng.below(4);
        }
        emit(out, rng, &format!("{}E{}", prefix, i), fields, if i % 3 == 0 { Mode::Lsb0 } else { Mode::Explicit }, 0, false, true, None, 9);
    }
}

/// Enums with many variants and with long names: numbers counted on from the first, names made up.
fn many(out: &mut Out, name: &str, prim: &str, from: i128, names: Vec<String>) {
    let d: Vec<i128> = (0..names.len()).map(|i| from + i as i128).collect();
    let c = &mut out.code;
    writeln!(c, "#[derive(PrimitiveEnum_{}, Clone, Copy, Debug, PartialEq)]", prim).unwrap();
    let vs: Vec<String> = (0..d.len()).map(|i| if i == 0 && from != 0 { format!("{} = {}", names[i], from) } else { names[i].clone() }).collect();
    writeln!(c, "pub enum {} {{ {} }}", name, vs.join(", ")).unwrap();
    writeln!(c, "declared!({} {{ {} }});", name, (0..d.len()).map(|i| format!("{} = {}", names[i], d[i])).collect::<Vec<_>>().join(", ")).unwrap();
    let signed = prim.starts_with('i');
    let (lo, hi) = class(prim[1..].parse().unwrap());
    out.enums.push(EnumG { name: name.into(), signed, lo: lo.max(bits_of(from, d[d.len() - 1], signed)), hi });
    out.declared += 1;
}

/// Records and types that do not depend on the seed.
fn fixed(out: &mut Out, rng: &mut Rng) {
    // a large record: positions beyond 2048 bits, wide reserved areas, byte arrays
    let u8e = || int_elem(8, false, false, true);
    let fields = vec![
        Field { elem: u8e(), n: Some(40), start: 0 },
        Field { elem: res_elem(500, true, false), n: None, start: 323 },
        Field { elem: int_elem(13, true, true, false), n: Some(20), start: 829 },
        Field { elem: int_elem(64, false, true, true), n: None, start: 1100 },
        Field { elem: res_elem(333, false, true), n: None, start: 1170 },
        Field { elem: int_elem(33, true, false, false), n: Some(9), start: 1503 },
        Field { elem: enum_elem(&out.enums[4], 16, true, true), n: None, start: 2051 },
        Field { elem: bool_elem(1), n: Some(17), start: 2070 },
        Field { elem: int_elem(61, false, false, false), n: None, start: 2093 },
        Field { elem: int_elem(16, false, false, true), n: None, start: 2160 },
        Field { elem: enum_elem(&out.enums[0], 5, false, false), n: None, start: 2180 },
    ];
    emit(out, rng, "Big", fields, Mode::Explicit, 90, false, false, None, 9);
    many(out, "Every8", "u8", 0, (0..256).map(|i| format!("E{:X}", i)).collect());
    many(out, "Many16", "i16", -20, (0..330).map(|i| format!("{}{}", ["State", "state_", "S", "Flag"][i % 4], i / 4)).collect());
    many(out, "LongNames", "u16", 250, (0..12).map(|i| format!("{}{}", "AVariantWithARatherLongName".repeat(1 + i / 3), ["", "X", "XY"][i % 3])).collect());
    let k = out.enums.len();
    let fields = vec![
        Field { elem: u8e(), n: Some(150), start: 3 },
        Field { elem: int_elem(3, false, false, false), n: Some(90), start: 1203 },
        Field { elem: bool_elem(1), n: Some(133), start: 1480 },
        Field { elem: enum_elem(&out.enums[k - 3], 8, false, false), n: Some(3), start: 1616 },
        Field { elem: enum_elem(&out.enums[k - 2], 11, true, false), n: None, start: 1641 },
        Field { elem: enum_elem(&out.enums[k - 2], 10, false, true), n: None, start: 1655 },
        Field { elem: enum_elem(&out.enums[k - 1], 13, true, true), n: None, start: 1668 },
        Field { elem: int_elem(17, true, true, false), n: Some(30), start: 1690 },
    ];
    emit(out, rng, "LongArrays", fields, Mode::Explicit, 0, false, false, None, 9);
    let fields = vec![
        Field { elem: int_elem(29, false, true, false), n: None, start: 5 },
        Field { elem: enum_elem(&out.enums[k - 1], 9, false, false), n: None, start: 9000 },
        Field { elem: int_elem(64, true, false, true), n: None, start: 17003 },
    ];
    emit(out, rng, "Huge", fields, Mode::Explicit, 200, false, false, None, 9);
    // wide nested records and reserved areas at every bit offset
    for off in 0..8usize {
        let inner_bytes = 33 + off * 5;
        let mut fs = vec![];
        let mut pos = 0;
        let mut k = 0;
        while pos < inner_bytes * 8 {
            let w = [8, 13, 64, 5, 33, 16, 1, 24][(k + off) % 8].min(inner_bytes * 8 - pos);
            fs.push(Field { elem: int_elem(w, k % 3 == 1, k % 2 == 1, false), n: None, start: pos });
            pos += w;
            k += 1;
        }
        let inner = emit(out, rng, &format!("WideIn{}", off), fs, Mode::Explicit, 0, false, false, None, 9);
        let mut fs = vec![Field { elem: nested_elem(&inner, 0), n: None, start: off }];
        if off % 3 == 1 { fs[0].n = Some(2); }
        let end = off + fs[0].width();
        fs.push(Field { elem: bool_elem(1), n: None, start: end });
        fs.push(Field { elem: res_elem(270 + off * 31, off % 2 == 0, true), n: None, start: end + 1 });
        emit(out, rng, &format!("WideOut{}", off), fs, Mode::Explicit, 0, false, false, None, 9);
    }
    // single bit, single byte, one bool per byte, byte arrays
    emit(out, rng, "OneBit", vec![Field { elem: bool_elem(1), n: None, start: 0 }], Mode::Explicit, 0, false, false, None, 9);
    emit(out, rng, "LastBit", vec![Field { elem: bool_elem(1), n: None, start: 7 }], Mode::Explicit, 0, false, false, None, 9);
    emit(out, rng, "Bytes7", vec![Field { elem: u8e(), n: Some(7), start: 0 }], Mode::Auto, 0, false, false, None, 9);
    emit(out, rng, "OnlyReserved", vec![Field { elem: res_elem(11, true, false), n: None, start: 2 }, Field { elem: res_elem(2, false, false), n: None, start: 0 }], Mode::Explicit, 0, false, false, None, 9);
    emit(out, rng, "WideBools", (0..8).map(|i| Field { elem: bool_elem(i + 1), n: if i % 3 == 2 { Some(2) } else { None }, start: i * 18 + (i % 3) }).collect(), Mode::Explicit, 0, false, false, None, 9);
    // reserved areas at every bit offset and many widths, next to ordinary bits
    for v in 0..2 {
        let mut fields = vec![];
        let mut pos = 0;
        for i in 0..12 {
            let w = [1, 3, 5, 7, 8, 9, 12, 15, 16, 17, 23, 31][(i * 5 + v * 3) % 12];
            fields.push(Field { elem: res_elem(w, (i + v) % 2 == 0, i % 3 == 0), n: if i == 7 { Some(2) } else { None }, start: pos });
            pos += w * if i == 7 { 2 } else { 1 };
            fields.push(Field { elem: if i % 2 == 0 { bool_elem(1) } else { int_elem(3, i % 4 == 1, false, false) }, n: None, start: pos });
            pos += if i % 2 == 0 { 1 } else { 3 };
        }
        emit(out, rng, &format!("Res{}", v), fields, Mode::Explicit, 0, false, false, None, 9);
    }
    // stand-alone types
    standalone(out, "bool", 1, 1, vec![LeafG { name: "bool".into(), start: 0, width: 8, lsb: false, kind: "Kind::Bool".into() }], false);
    standalone(out, "u8", 1, 8, vec![LeafG { name: "u8".into(), start: 0, width: 8, lsb: false, kind: "Kind::U".into() }], false);
    standalone(out, "i8", 1, 8, vec![LeafG { name: "i8".into(), start: 0, width: 8, lsb: false, kind: "Kind::S".into() }], false);
    for n in [1usize, 5, 33, 300] {
        let leaves = (0..n).map(|i| LeafG { name: format!("[{}]", i), start: i * 8, width: 8, lsb: false, kind: "Kind::U".into() }).collect();
        out.code.push_str(&format!("pub type B{n} = [u8; {n}];\n"));
        write_info(&mut out.code, &format!("B{}", n), n, n * 8, &{ let l: Vec<LeafG> = leaves; l }, &[], false, None, None);
        out.entries.push(format!("D_B{}", n));
    }
    for w in [1usize, 8, 13, 64, 130, 500] {
        for one in [false, true] {
            let n = (w + 7) / 8;
            let t = format!("Z{}{}", if one { "O" } else { "Z" }, w);
            out.code.push_str(&format!("pub type {} = {}<packed_bits::Bits::<{}>>;\n", t, if one { "ReservedOnes" } else { "ReservedZero" }, w));
            write_info(&mut out.code, &t, n, w, &[LeafG { name: "reserved".into(), start: 0, width: n * 8, lsb: false, kind: format!("Kind::Res({})", one) }], &[], false, None, None);
            out.entries.push(format!("D_{}", t));
        }
    }
}

/// Stand-alone bit-limited integers.
fn integers(out: &mut Out, rng: &mut Rng) {
    let rot = rng.below(4);
    for w in 1..=64usize {
        let n = (w + 7) / 8;
        for k in 0..4 {
            let (signed, lsb) = kind_of(k);
            let always = matches!(w, 8 | 16 | 32 | 64 | 1 | 9 | 10 | 63);
            if !always && (k + w) % 4 != rot { continue; }
            let t = native(w, signed);
            let name = format!("I{}{}{}", if signed { "S" } else { "U" }, if lsb { "l" } else { "m" }, w);
            out.code.push_str(&format!("pub type {} = {}Integer<{}, packed_bits::Bits::<{}>, Integer<{}, packed_bits::Bits::<{}>>>;\n", name, if lsb { "Lsb" } else { "Msb" }, t, w, t, w));
            write_info(&mut out.code, &name, n, w, &[LeafG { name: "int".into(), start: n * 8 - w, width: w, lsb, kind: if signed { "Kind::S".into() } else { "Kind::U".into() } }], &[], true, None, None);
            out.entries.push(format!("D_{}", name));
        }
    }
}

/// Declarations that exhibit known findings (see known_findings.txt).
fn known(out: &mut Out, rng: &mut Rng) {
    let inner = emit(out, rng, "FrontInner12", vec![Field { elem: int_elem(12, false, false, false), n: None, start: 0 }], Mode::Explicit, 0, false, false, Some("KF1-inner"), 9);
    out.entries.pop();
    let mut e = nested_elem(&inner, 0);
    e.width = 12;
    emit(out, rng, "FrontNested12", vec![Field { elem: e, n: None, start: 4 }], Mode::Explicit, 0, false, false, Some("KF1"), 9);
    // four bytes spelled as an exclusive range
    let at = out.code.len();
    emit(out, rng, "ExclusiveBytes", vec![Field { elem: int_elem(32, false, false, true), n: None, start: 0 }], Mode::Explicit, 0, true, false, Some("KF2"), 9);
    let text = out.code.split_off(at);
    for l in text.lines() {
        let l = if l.starts_with("#[packed_field(") { "    #[packed_field(bytes=\"0..4\", endian=\"msb\")]" } else { l };
        out.code.push_str(l);
        out.code.push('\n');
    }
}

pub fn generate_for(shard: &str, seed: u64, flavor: Flavor) -> String {
    FLAVOR.with(|f| f.set(flavor));
    let mut rng = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ shard.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64)));
    for _ in 0..3 { rng.u64(); }
    let mut out = Out { code: String::new(), entries: vec![], enums: base_enums(), declared: 0 };
    match shard {
        "s1" => systematic(&mut out, &mut rng, 1, 20),
        "s2" => systematic(&mut out, &mut rng, 21, 36),
        "s3" => systematic(&mut out, &mut rng, 37, 51),
        "s4" => systematic(&mut out, &mut rng, 52, 64),
        "r1" => random(&mut out, &mut rng, 40, "P", true),
        "r2" => random(&mut out, &mut rng, 48, "Q", false),
        "i1" => { let mut f = Rng(12345); fixed(&mut out, &mut f); known(&mut out, &mut f); integers(&mut out, &mut rng); }
        _ => panic!("unknown shard"),
    }
    let mut s = String::from("use packed_struct::prelude::*;\nuse packed_struct::types::bits::Bits;\nuse simcore::*;\nuse simcore::enums::*;\n");
    s.push_str(&out.code);
    s.push_str("pub static ENTRIES: &[&dyn Ops] = &[\n");
    for e in &out.entries { s.push_str(&format!("    &RecOps::<{}>::NEW,\n", e)); }
    s.push_str("];\npub static ENUM_ENTRIES: &[&dyn EnumOps] = &[\n");
    let k = out.enums.len() - out.declared;
    for e in &out.enums[k..] { s.push_str(&format!("    &EnOps::<{}>::NEW,\n", e.name)); }
    s.push_str("];\n");
    s
}

pub fn build_script(shard: &str) {
    println!("cargo:rerun-if-env-changed=ZOO_SEED");
    println!("cargo:rerun-if-changed=../gen/gen.rs");
    println!("cargo:rerun-if-changed=build.rs");
    let seed: u64 = std::env::var("ZOO_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let on = |f: &str| std::env::var(format!("CARGO_FEATURE_{}", f)).is_ok();
    let flavor = if on("BARE") { Flavor::Bare } else if on("HEAP") { Flavor::Alloc } else { Flavor::Std };
    let dir = std::env::var("OUT_DIR").unwrap();
    std::fs::write(std::path::Path::new(&dir).join("zoo.rs"), generate_for(shard, seed, flavor)).unwrap();
}
