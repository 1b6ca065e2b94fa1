#[path = "../gen/gen.rs"]
#[allow(dead_code)]
mod gen;
fn main() { gen::build_script("s1"); }
