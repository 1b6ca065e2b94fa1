//! More frame formats: headers with counters of every width, either byte order and sign, anywhere in the header;
//! payload elements of other sizes. A pure function of ZOO_SEED.
use std::fmt::Write as _;

struct Rng(u64);
impl Rng {
    fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize { (self.u64() % n as u64) as usize }
    fn chance(&mut self, a: usize, b: usize) -> bool { self.below(b) < a }
}
fn native(w: usize, s: bool) -> String { format!("{}{}", if s { "i" } else { "u" }, match w { 0..=8 => 8, 9..=16 => 16, 17..=32 => 32, _ => 64 }) }

struct F { name: &'static str, ty: String, attrs: Vec<String>, width: usize, lsb: bool, kind: &'static str, n: usize, start: usize }
fn counter(r: &mut Rng, name: &'static str, w: usize) -> (F, bool, String) {
    let (s, lsb, prim) = (r.chance(1, 3), r.chance(1, 2), r.chance(1, 3));
    let t = native(w, s);
    let mut attrs = vec![];
    if w > 8 { attrs.push(format!("endian = \"{}\"", if lsb { "lsb" } else { "msb" })); }
    (F { name, ty: if prim { t.clone() } else { format!("Integer<{}, packed_bits::Bits<{}>>", t, w) }, attrs, width: w, lsb, kind: if s { "Kind::S" } else { "Kind::U" }, n: 1, start: 0 }, prim, t)
}
/// lays fields out in some order with gaps, sets their positions; returns the size in bytes
fn place(r: &mut Rng, fs: &mut Vec<F>, code: &mut String, name: &str, gaps: bool) -> usize {
    for i in (1..fs.len()).rev() { let j = r.below(i + 1); fs.swap(i, j); }
    let mut at = if gaps { r.below(6) } else { 0 };
    for f in fs.iter_mut() { f.start = at; at += f.width * f.n; if gaps && r.chance(1, 3) { at += r.below(9); } }
    let bytes = (at + 7) / 8 + if gaps && r.chance(1, 6) { 1 } else { 0 };
    let lsb0 = r.chance(1, 3);
    writeln!(code, "#[derive(PackedStruct, Clone, Debug)]\n#[packed_struct(bit_numbering = \"{}\", size_bytes = \"{}\")]\npub struct {} {{", if lsb0 { "lsb0" } else { "msb0" }, bytes, name).unwrap();
    for f in fs.iter() {
        let w = f.width * f.n;
        let (x, y) = if lsb0 { (bytes * 8 - 1 - f.start, bytes * 8 - f.start - w) } else { (f.start, f.start + w - 1) };
        let mut a = vec![format!("bits = \"{}:{}\"", x, y)];
        if f.n > 1 { a.push(format!("element_size_bits = \"{}\"", f.width)); }
        a.extend(f.attrs.iter().cloned());
        writeln!(code, "    #[packed_field({})] {}: {},", a.join(", "), f.name, if f.n > 1 { format!("[{}; {}]", f.ty, f.n) } else { f.ty.clone() }).unwrap();
    }
    writeln!(code, "}}").unwrap();
    bytes
}
fn leaf(f: &F, k: usize) -> String { format!("leaf({:?}, {}, {}, {}, {})", f.name, f.start + k * f.width, f.width, f.lsb, f.kind) }

fn main() {
    println!("cargo:rerun-if-env-changed=ZOO_SEED");
    println!("cargo:rerun-if-changed=build.rs");
    let seed: u64 = std::env::var("ZOO_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xA7C);
    let mut code = String::new();
    // payload elements
    const NAMES: [&str; 6] = ["a", "b", "c", "d", "e", "g"];
    let mut items = vec![];
    for k in 0..7usize {
        let name = format!("Item{}", k);
        let many = [1, 2, 3, 5, 4, 6, 2][k];
        let mut fs: Vec<F> = vec![];
        for i in 0..many {
            let w = match r.below(4) { 0 => 1 + r.below(8), 1 => 9 + r.below(8), 2 => 17 + r.below(16), _ => 33 + r.below(32) };
            if r.chance(1, 8) { fs.push(F { name: NAMES[i], ty: "bool".into(), attrs: vec![], width: 1, lsb: false, kind: "Kind::Bool", n: 1, start: 0 }); continue; }
            let mut f = counter(&mut r, NAMES[i], w).0;
            if r.chance(1, 4) { f.n = 2 + r.below(3); }
            fs.push(f);
        }
        let gaps = r.chance(1, 2);
        let bytes = place(&mut r, &mut fs, &mut code, &name, gaps);
        let leaves: Vec<String> = fs.iter().flat_map(|f| (0..f.n).map(move |k| leaf(f, k))).collect();
        let (mut at, mut make, mut read) = (0, vec![], vec![]);
        for f in &fs {
            let conv = |i: usize| if f.kind == "Kind::Bool" { format!("v[{}] == 1", i) } else { let inner = f.ty.trim_start_matches("Integer<"); let t = inner.split(',').next().unwrap(); format!("(v[{}] as {}).into()", i, t) };
            let num = |p: String| if f.ty.starts_with("Integer") { format!("*{} as i128", p) } else { format!("{} as i128", p) };
            if f.n > 1 { make.push(format!("{}: [{}]", f.name, (0..f.n).map(|j| conv(at + j)).collect::<Vec<_>>().join(", "))); for j in 0..f.n { read.push(num(format!("self.{}[{}]", f.name, j))); } }
            else { make.push(format!("{}: {}", f.name, conv(at))); read.push(num(format!("self.{}", f.name))); }
            at += f.n;
        }
        writeln!(code, "impl Item for {} {{\n    const SIZE: usize = {};\n    const LEAVES: &'static [Leaf] = &[{}];\n    fn make(v: &[i128]) -> Self {{ {} {{ {} }} }}\n    fn vals(&self) -> Vec<i128> {{ vec![{}] }}\n}}", name, bytes, leaves.join(", "), name, make.join(", "), read.join(", ")).unwrap();
        items.push((name, bytes));
    }
    // headers: every width from 4 to 64 once, two to a header
    let mut widths: Vec<usize> = (4..=64).collect();
    widths.push(4 + r.below(61));
    for i in (1..widths.len()).rev() { let j = r.below(i + 1); widths.swap(i, j); }
    let mut list = String::new();
    for k in 0..widths.len() / 2 {
        let name = format!("H{}", k);
        let (sw, aw) = (widths[2 * k], widths[2 * k + 1]);
        let array = r.chance(1, 8);
        let catch = r.chance(1, 2);
        let kw = 3 + r.below(6);
        let mut fs = vec![
            F { name: "kind", ty: if catch { "EnumCatchAll<K>".into() } else { "K".into() }, attrs: vec!["ty = \"enum\"".into()], width: kw, lsb: false, kind: if catch { "KIND_ANY" } else { "KIND" }, n: 1, start: 0 },
            F { name: "last", ty: "bool".into(), attrs: vec![], width: if r.chance(1, 3) { 1 + r.below(8) } else { 1 }, lsb: false, kind: "Kind::Bool", n: 1, start: 0 },
        ];
        let (mut s, _, st) = counter(&mut r, "seq", sw);
        if array { s.n = 2; s.name = "both"; }
        let sint = s.ty.starts_with("Integer");
        fs.push(s);
        let (at, aint) = if array { (st.clone(), sint) } else { let (a, _, at) = counter(&mut r, "ack", aw); let i = a.ty.starts_with("Integer"); fs.push(a); (at, i) };
        let res = r.chance(1, 2);
        if res { let w = 1 + r.below(11); let one = r.chance(1, 2); fs.push(F { name: "_r", ty: format!("{}<packed_bits::Bits<{}>>", if one { "ReservedOne" } else { "ReservedZero" }, w), attrs: vec![], width: w, lsb: false, kind: "Kind::U", n: 1, start: 0 }); }
        let bytes = place(&mut r, &mut fs, &mut code, &name, true);
        let find = |n: &str| fs.iter().find(|f| f.name == n).unwrap();
        let (ls, la) = if array { (leaf(find("both"), 0), leaf(find("both"), 1)) } else { (leaf(find("seq"), 0), leaf(find("ack"), 0)) };
        let b = |x: &str, t: &str, int: bool| if int { format!("({} as {}).into()", x, t) } else { format!("{} as {}", x, t) };
        let rd = |x: &str, int: bool| if int { format!("*self.{} as i128", x) } else { format!("self.{} as i128", x) };
        writeln!(code, "impl Hdr for {} {{\n    fn build(f: &Frame, seq: u64, ack: u64) -> Self {{ {} {{ kind: k(f.kind).into(), last: f.last, {}{} }} }}\n    fn read(&self) -> (i128, i128, i128, bool) {{ (self.kind.to_primitive() as i128, {}, {}, self.last) }}\n    const BYTES: usize = {};\n    const LEAVES: [Leaf; 4] = [{}, {}, {}, {}];\n}}",
            name, name,
            if array { format!("both: [{}, {}]", b("seq", &st, sint), b("ack", &at, aint)) } else { format!("seq: {}, ack: {}", b("seq", &st, sint), b("ack", &at, aint)) },
            if res { ", _r: Default::default()" } else { "" },
            if array { rd("both[0]", sint) } else { rd("seq", sint) }, if array { rd("both[1]", aint) } else { rd("ack", aint) },
            bytes, leaf(find("kind"), 0), ls, la, leaf(find("last"), 0)).unwrap();
        let small: Vec<&(String, usize)> = items.iter().filter(|i| i.1 <= 40).collect();
        let body = if r.chance(1, 4) || small.is_empty() { "u8".to_string() } else { small[r.below(small.len())].0.clone() };
        let tail = ["CrcMsb", "CrcLsb", "[u8; 4]", "CrcInt"][r.below(4)];
        let form = ["Usual", "Trailing", "Leading", "Onion", "Six", "Ten", "Four"][r.below(7)];
        let (sw, aw) = if array { (sw, sw) } else { (sw, aw) };
        writeln!(list, "    \"{}/{}-bit counters (H{}), {}, {}, {}\" {}, Vec<{}>, {}, {};", sw, aw, k, body, tail, form, name, body, tail, form).unwrap();
    }
    writeln!(code, "macro_rules! with_generated {{ ($m:ident! {{ $($x:tt)* }}) => {{ $m! {{ $($x)* {} }} }} }}", list).unwrap();
    std::fs::write(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("gen.rs"), code).unwrap();
}
