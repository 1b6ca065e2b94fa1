#!/usr/bin/env python3
"""Writes sim/shapes/src/list.rs: the compositions under simulation."""
import os
fixed = ["Probe<2>", "SProbe<3>", "u8", "Probe<1>", "RecB", "Probe<4>", "SProbe<2>", "Probe<3>", "RecA", "Probe<1>"]
out = []
def add(k, t): out.append((k, t))
for n in (0, 1, 2, 3, 5, 8): add("Rec", "Probe<%d>" % n)
for n in (0, 1, 2, 6): add("Slice", "SProbe<%d>" % n)
add("Slice", "DProbe")
for r in "ABCDEFGHIJ": add("Den", "Rec" + r)
for t in ["Probe<0>", "Probe<1>", "Probe<2>", "Probe<9>", "SProbe<0>", "SProbe<2>", "SProbe<5>", "RecA", "RecB", "RecC", "RecD", "RecF", "RecJ", "u8", "()",
          "(Probe<1>, Probe<2>)", "(SProbe<2>, RecB, u8)", "(Probe<2>,)", "((Probe<1>, SProbe<1>), Probe<3>)", "DProbe", "Vec<Probe<2>>", "(u8, Vec<u8>)"]:
    add("Slice", "Vec<%s>" % t)
def tup(l): return "(" + ", ".join(l) + ("," if len(l) == 1 else "") + ")"
for n in range(1, 11):
    add("Slice", tup(fixed[:n]))
    for k in range(n):
        add("Slice", tup(fixed[:k] + ["Vec<Probe<2>>"] + fixed[k + 1:n]))
        d = ["DProbe", "Vec<SProbe<3>>", "Vec<RecB>", "(u8, Vec<Probe<1>>)", "Vec<(Probe<1>, SProbe<2>)>"][(k + n) % 5]
        add("Slice", tup(fixed[9 - n + 1:][:k] + [d] + fixed[9 - n + 1:][k + 1:n]))
for t in ["(Vec<Probe<1>>, Vec<Probe<2>>)", "(Vec<u8>, Probe<1>, DProbe)", "(Probe<1>, (Vec<Probe<2>>, Probe<1>), Probe<2>)", "((Probe<1>, Probe<2>), (SProbe<1>, Probe<3>))",
          "(((Probe<1>,), Probe<2>), Probe<1>)", "((), Probe<2>, ())", "((), Vec<Probe<2>>)", "(Probe<1>, (Vec<u8>, DProbe))", "(Vec<()>, Probe<2>)", "(Vec<Vec<u8>>, Probe<1>)",
          "(u8, (Probe<1>, (SProbe<2>, (Probe<1>, Vec<RecA>))))", "(Vec<Probe<1>>, u8, Vec<Probe<1>>, u8)", "(Probe<0>, Probe<1>, Probe<0>)", "(RecE, RecC)", "(RecH, Vec<RecH>)",
          "(DProbe, Probe<2>)", "(Probe<2>, DProbe)", "(Vec<RecD>, RecJ)", "(RecF, Vec<RecF>, RecG)"]:
    add("Slice", t)
seen, lines = set(), []
for k, t in out:
    if t in seen: continue
    seen.add(t)
    lines.append("    sh!(%s, %s),\n" % (k, t))
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../sim/shapes/src/list.rs")
open(p, "w").write("// generated by tools/gen_shapes.py\nuse crate::{recs::*, sh, Shape};\nuse simcore::probe::*;\n\nmacro_rules! base { ($($more:expr,)*) => {\npub static SHAPES: &[&dyn Shape] = &[\n" + "".join(lines) + "    $($more,)*\n];\n} }\nwith_generated!(base);\n")
print(len(lines))
