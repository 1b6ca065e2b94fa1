//! Declared records whose fields are scripted components.
use packed_struct::prelude::*;
use simcore::model::{get_bit, set_bit};
use simcore::probe::*;

fn put(dst: &mut [u8], start: u32, src: &[u8], width: u32) {
    // the trailing `width` bits of src
    let skip = src.len() as u32 * 8 - width;
    for k in 0..width { let v = get_bit(src, skip + k); set_bit(dst, start + k, v); }
}
fn img<T: Comp>(x: &T) -> Vec<u8> { let mut r = vec![]; x.regions(&mut r); r.into_iter().flat_map(|r| r.bytes).collect() }

macro_rules! full {
    ($name:ident, $n:expr, { $($f:ident : $t:ty = $start:expr, $width:expr;)* }) => {
        impl Comp for $name {
            fn lay() -> Lay { Lay::Fixed($n) }
            fn make(g: &mut Gen) -> Self { $( let $f = <$t as Comp>::make(g); )* $name { $($f),* } }
            fn tags(&self, o: &mut Vec<u16>) { $( self.$f.tags(o); )* }
            fn tokens(&self, o: &mut Vec<u64>) { $( self.$f.tokens(o); )* }
            fn regions(&self, o: &mut Vec<Region>) {
                let mut b = vec![0u8; $n];
                $( let i = img(&self.$f); put(&mut b, $start, &i, $width); )*
                let mut t = vec![];
                self.tags(&mut t);
                o.push(Region { tags: t, bytes: b });
            }
        }
    };
}

/// byte-aligned
#[derive(PackedStruct, Debug)]
#[packed_struct(bit_numbering = "msb0")]
pub struct RecA {
    #[packed_field(bytes = "0..=1")] pub a: Probe<2>,
    #[packed_field(bytes = "2")] pub b: u8,
    #[packed_field(bytes = "3..=5")] pub c: Probe<3>,
}
full!(RecA, 6, { a: Probe<2> = 0, 16; b: u8 = 16, 8; c: Probe<3> = 24, 24; });

/// nothing aligned, with an enum whose conversion may fail
#[derive(PackedStruct, Debug)]
#[packed_struct(bit_numbering = "msb0", size_bytes = "6")]
pub struct RecB {
    #[packed_field(bits = "3..=18")] pub a: Probe<2>,
    #[packed_field(bits = "19..=26", ty = "enum")] pub e: PEnum,
    #[packed_field(bits = "29..=36")] pub b: Probe<1>,
}
full!(RecB, 6, { a: Probe<2> = 3, 16; e: PEnum = 19, 8; b: Probe<1> = 29, 8; });

/// nesting and arrays
#[derive(PackedStruct, Debug)]
#[packed_struct(bit_numbering = "msb0")]
pub struct RecC {
    #[packed_field(bytes = "0..=5")] pub x: RecA,
    #[packed_field(bytes = "6..=8")] pub y: [Probe<1>; 3],
    #[packed_field(bytes = "9..=14")] pub z: RecB,
    #[packed_field(bytes = "15..=16")] pub w: Probe<2>,
}
full!(RecC, 17, { x: RecA = 0, 48; y: [Probe<1>; 3] = 48, 24; z: RecB = 72, 48; w: Probe<2> = 120, 16; });

/// user-made integers inside the byte order adapters
#[derive(PackedStruct, Debug)]
#[packed_struct(bit_numbering = "msb0", size_bytes = "5")]
pub struct RecD {
    #[packed_field(bits = "0..=11")] pub m: MInt,
    #[packed_field(bits = "12..=23")] pub n: MInt,
    #[packed_field(bits = "24..=31")] pub p: Probe<1>,
}
full!(RecD, 5, { m: MInt = 0, 12; n: MInt = 12, 12; p: Probe<1> = 24, 8; });

#[derive(PackedStruct, Debug)]
#[packed_struct(bit_numbering = "msb0")]
pub struct RecE {
    #[packed_field(element_size_bytes = "2")] pub a: [Probe<2>; 20],
}
full!(RecE, 40, { a: [Probe<2>; 20] = 0, 320; });

#[derive(PackedStruct, Debug)]
#[packed_struct(bit_numbering = "msb0", size_bytes = "7")]
pub struct RecF {
    #[packed_field(bits = "4..=35", element_size_bits = "8", ty = "enum")] pub e: [PEnum; 4],
    #[packed_field(bits = "36..=51")] pub p: Probe<2>,
}
full!(RecF, 7, { e: [PEnum; 4] = 4, 32; p: Probe<2> = 36, 16; });

/// declared in another order than laid out, LSB0 numbering
#[derive(PackedStruct, Debug)]
#[packed_struct(bit_numbering = "lsb0", size_bytes = "6")]
pub struct RecG {
    #[packed_field(bits = "15..=0")] pub z: Probe<2>,
    #[packed_field(bits = "47..=32")] pub a: Probe<2>,
    #[packed_field(bits = "29..=22")] pub e: Probe<1>,
}
full!(RecG, 6, { z: Probe<2> = 32, 16; a: Probe<2> = 0, 16; e: Probe<1> = 18, 8; });

/// arrays of records with unaligned start
#[derive(PackedStruct, Debug)]
#[packed_struct(bit_numbering = "msb0", size_bytes = "20")]
pub struct RecH {
    #[packed_field(bits = "2..=97", element_size_bytes = "6")] pub a: [RecB; 2],
    #[packed_field(bits = "98..=145", element_size_bytes = "3")] pub b: [Probe<3>; 2],
}
full!(RecH, 20, { a: [RecB; 2] = 2, 96; b: [Probe<3>; 2] = 98, 48; });

/// wide: no bit columns in its field table
#[derive(PackedStruct, Debug)]
#[packed_struct(bit_numbering = "msb0")]
pub struct RecI {
    #[packed_field(bytes = "0..=7")] pub a: Probe<8>,
    #[packed_field(bytes = "8..=9")] pub b: Probe<2>,
}
full!(RecI, 10, { a: Probe<8> = 0, 64; b: Probe<2> = 64, 16; });

/// user-made integer in LSB order (12 bits: low byte, then the four high bits)
#[derive(PackedStruct, Debug)]
#[packed_struct(bit_numbering = "msb0", size_bytes = "4")]
pub struct RecJ {
    #[packed_field(bits = "0..=15")] pub p: Probe<2>,
    #[packed_field(bits = "16..=27")] pub l: LInt,
}
full!(RecJ, 4, { p: Probe<2> = 0, 16; l: LInt = 16, 12; });


/// an element, or an array of elements, laid down from a bit on; each element takes its trailing bits
trait Lie { fn lie(&self, b: &mut [u8], start: u32, width: u32, lsb: bool); }
impl<T: Comp> Lie for T {
    fn lie(&self, b: &mut [u8], start: u32, width: u32, lsb: bool) {
        let mut parts: Vec<Region> = vec![];
        self.parts(&mut parts);
        for (k, mut p) in parts.into_iter().enumerate() {
            if lsb { p.bytes.reverse(); }
            put(b, start + k as u32 * width, &p.bytes, width);
        }
    }
}
macro_rules! placed {
    ($name:ident, $n:expr, { $($f:ident : $t:ty = $start:expr, $width:expr, $lsb:expr;)* }) => {
        impl Comp for $name {
            fn lay() -> Lay { Lay::Fixed($n) }
            fn make(g: &mut Gen) -> Self { $( let $f = <$t as Comp>::make(g); )* $name { $($f),* } }
            fn tags(&self, o: &mut Vec<u16>) { $( self.$f.tags(o); )* }
            fn tokens(&self, o: &mut Vec<u64>) { $( self.$f.tokens(o); )* }
            fn regions(&self, o: &mut Vec<Region>) {
                let mut b = vec![0u8; $n];
                $( self.$f.lie(&mut b, $start, $width, $lsb); )*
                let mut t = vec![];
                self.tags(&mut t);
                o.push(Region { tags: t, bytes: b });
            }
        }
    };
}
include!(concat!(env!("OUT_DIR"), "/gen.rs"));
