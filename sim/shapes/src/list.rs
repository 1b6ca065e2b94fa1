// generated by tools/gen_shapes.py
use crate::{recs::*, sh, Shape};
use simcore::probe::*;

macro_rules! base { ($($more:expr,)*) => {
pub static SHAPES: &[&dyn Shape] = &[
    sh!(Rec, Probe<0>),
    sh!(Rec, Probe<1>),
    sh!(Rec, Probe<2>),
    sh!(Rec, Probe<3>),
    sh!(Rec, Probe<5>),
    sh!(Rec, Probe<8>),
    sh!(Slice, SProbe<0>),
    sh!(Slice, SProbe<1>),
    sh!(Slice, SProbe<2>),
    sh!(Slice, SProbe<6>),
    sh!(Slice, DProbe),
    sh!(Den, RecA),
    sh!(Den, RecB),
    sh!(Den, RecC),
    sh!(Den, RecD),
    sh!(Den, RecE),
    sh!(Den, RecF),
    sh!(Den, RecG),
    sh!(Den, RecH),
    sh!(Den, RecI),
    sh!(Den, RecJ),
    sh!(Slice, Vec<Probe<0>>),
    sh!(Slice, Vec<Probe<1>>),
    sh!(Slice, Vec<Probe<2>>),
    sh!(Slice, Vec<Probe<9>>),
    sh!(Slice, Vec<SProbe<0>>),
    sh!(Slice, Vec<SProbe<2>>),
    sh!(Slice, Vec<SProbe<5>>),
    sh!(Slice, Vec<RecA>),
    sh!(Slice, Vec<RecB>),
    sh!(Slice, Vec<RecC>),
    sh!(Slice, Vec<RecD>),
    sh!(Slice, Vec<RecF>),
    sh!(Slice, Vec<RecJ>),
    sh!(Slice, Vec<u8>),
    sh!(Slice, Vec<()>),
    sh!(Slice, Vec<(Probe<1>, Probe<2>)>),
    sh!(Slice, Vec<(SProbe<2>, RecB, u8)>),
    sh!(Slice, Vec<(Probe<2>,)>),
    sh!(Slice, Vec<((Probe<1>, SProbe<1>), Probe<3>)>),
    sh!(Slice, Vec<DProbe>),
    sh!(Slice, Vec<Vec<Probe<2>>>),
    sh!(Slice, Vec<(u8, Vec<u8>)>),
    sh!(Slice, (Probe<2>,)),
    sh!(Slice, (Vec<Probe<2>>,)),
    sh!(Slice, (Vec<SProbe<3>>,)),
    sh!(Slice, (Probe<2>, SProbe<3>)),
    sh!(Slice, (Vec<Probe<2>>, SProbe<3>)),
    sh!(Slice, (Vec<RecB>, Probe<1>)),
    sh!(Slice, (Probe<2>, Vec<Probe<2>>)),
    sh!(Slice, (RecA, (u8, Vec<Probe<1>>))),
    sh!(Slice, (Probe<2>, SProbe<3>, u8)),
    sh!(Slice, (Vec<Probe<2>>, SProbe<3>, u8)),
    sh!(Slice, ((u8, Vec<Probe<1>>), RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, Vec<Probe<2>>, u8)),
    sh!(Slice, (Probe<3>, Vec<(Probe<1>, SProbe<2>)>, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, Vec<Probe<2>>)),
    sh!(Slice, (Probe<3>, RecA, DProbe)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>)),
    sh!(Slice, (Vec<Probe<2>>, SProbe<3>, u8, Probe<1>)),
    sh!(Slice, (Vec<(Probe<1>, SProbe<2>)>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, Vec<Probe<2>>, u8, Probe<1>)),
    sh!(Slice, (SProbe<2>, DProbe, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, Vec<Probe<2>>, Probe<1>)),
    sh!(Slice, (SProbe<2>, Probe<3>, Vec<SProbe<3>>, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Vec<Probe<2>>)),
    sh!(Slice, (SProbe<2>, Probe<3>, RecA, Vec<RecB>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, RecB)),
    sh!(Slice, (Vec<Probe<2>>, SProbe<3>, u8, Probe<1>, RecB)),
    sh!(Slice, (DProbe, SProbe<2>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, Vec<Probe<2>>, u8, Probe<1>, RecB)),
    sh!(Slice, (Probe<4>, Vec<SProbe<3>>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, Vec<Probe<2>>, Probe<1>, RecB)),
    sh!(Slice, (Probe<4>, SProbe<2>, Vec<RecB>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Vec<Probe<2>>, RecB)),
    sh!(Slice, (Probe<4>, SProbe<2>, Probe<3>, (u8, Vec<Probe<1>>), Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, Vec<Probe<2>>)),
    sh!(Slice, (Probe<4>, SProbe<2>, Probe<3>, RecA, Vec<(Probe<1>, SProbe<2>)>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, RecB, Probe<4>)),
    sh!(Slice, (Vec<Probe<2>>, SProbe<3>, u8, Probe<1>, RecB, Probe<4>)),
    sh!(Slice, (Vec<SProbe<3>>, Probe<4>, SProbe<2>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, Vec<Probe<2>>, u8, Probe<1>, RecB, Probe<4>)),
    sh!(Slice, (RecB, Vec<RecB>, SProbe<2>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, Vec<Probe<2>>, Probe<1>, RecB, Probe<4>)),
    sh!(Slice, (RecB, Probe<4>, (u8, Vec<Probe<1>>), Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Vec<Probe<2>>, RecB, Probe<4>)),
    sh!(Slice, (RecB, Probe<4>, SProbe<2>, Vec<(Probe<1>, SProbe<2>)>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, Vec<Probe<2>>, Probe<4>)),
    sh!(Slice, (RecB, Probe<4>, SProbe<2>, Probe<3>, DProbe, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, RecB, Vec<Probe<2>>)),
    sh!(Slice, (RecB, Probe<4>, SProbe<2>, Probe<3>, RecA, Vec<SProbe<3>>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, RecB, Probe<4>, SProbe<2>)),
    sh!(Slice, (Vec<Probe<2>>, SProbe<3>, u8, Probe<1>, RecB, Probe<4>, SProbe<2>)),
    sh!(Slice, (Vec<RecB>, RecB, Probe<4>, SProbe<2>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, Vec<Probe<2>>, u8, Probe<1>, RecB, Probe<4>, SProbe<2>)),
    sh!(Slice, (Probe<1>, (u8, Vec<Probe<1>>), Probe<4>, SProbe<2>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, Vec<Probe<2>>, Probe<1>, RecB, Probe<4>, SProbe<2>)),
    sh!(Slice, (Probe<1>, RecB, Vec<(Probe<1>, SProbe<2>)>, SProbe<2>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Vec<Probe<2>>, RecB, Probe<4>, SProbe<2>)),
    sh!(Slice, (Probe<1>, RecB, Probe<4>, DProbe, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, Vec<Probe<2>>, Probe<4>, SProbe<2>)),
    sh!(Slice, (Probe<1>, RecB, Probe<4>, SProbe<2>, Vec<SProbe<3>>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, RecB, Vec<Probe<2>>, SProbe<2>)),
    sh!(Slice, (Probe<1>, RecB, Probe<4>, SProbe<2>, Probe<3>, Vec<RecB>, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, RecB, Probe<4>, Vec<Probe<2>>)),
    sh!(Slice, (Probe<1>, RecB, Probe<4>, SProbe<2>, Probe<3>, RecA, (u8, Vec<Probe<1>>))),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, RecB, Probe<4>, SProbe<2>, Probe<3>)),
    sh!(Slice, (Vec<Probe<2>>, SProbe<3>, u8, Probe<1>, RecB, Probe<4>, SProbe<2>, Probe<3>)),
    sh!(Slice, ((u8, Vec<Probe<1>>), Probe<1>, RecB, Probe<4>, SProbe<2>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, Vec<Probe<2>>, u8, Probe<1>, RecB, Probe<4>, SProbe<2>, Probe<3>)),
    sh!(Slice, (u8, Vec<(Probe<1>, SProbe<2>)>, RecB, Probe<4>, SProbe<2>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, Vec<Probe<2>>, Probe<1>, RecB, Probe<4>, SProbe<2>, Probe<3>)),
    sh!(Slice, (u8, Probe<1>, DProbe, Probe<4>, SProbe<2>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Vec<Probe<2>>, RecB, Probe<4>, SProbe<2>, Probe<3>)),
    sh!(Slice, (u8, Probe<1>, RecB, Vec<SProbe<3>>, SProbe<2>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, Vec<Probe<2>>, Probe<4>, SProbe<2>, Probe<3>)),
    sh!(Slice, (u8, Probe<1>, RecB, Probe<4>, Vec<RecB>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, RecB, Vec<Probe<2>>, SProbe<2>, Probe<3>)),
    sh!(Slice, (u8, Probe<1>, RecB, Probe<4>, SProbe<2>, (u8, Vec<Probe<1>>), RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, RecB, Probe<4>, Vec<Probe<2>>, Probe<3>)),
    sh!(Slice, (u8, Probe<1>, RecB, Probe<4>, SProbe<2>, Probe<3>, Vec<(Probe<1>, SProbe<2>)>, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, RecB, Probe<4>, SProbe<2>, Vec<Probe<2>>)),
    sh!(Slice, (u8, Probe<1>, RecB, Probe<4>, SProbe<2>, Probe<3>, RecA, DProbe)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, RecB, Probe<4>, SProbe<2>, Probe<3>, RecA)),
    sh!(Slice, (Vec<Probe<2>>, SProbe<3>, u8, Probe<1>, RecB, Probe<4>, SProbe<2>, Probe<3>, RecA)),
    sh!(Slice, (Vec<(Probe<1>, SProbe<2>)>, u8, Probe<1>, RecB, Probe<4>, SProbe<2>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, Vec<Probe<2>>, u8, Probe<1>, RecB, Probe<4>, SProbe<2>, Probe<3>, RecA)),
    sh!(Slice, (SProbe<3>, DProbe, Probe<1>, RecB, Probe<4>, SProbe<2>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, Vec<Probe<2>>, Probe<1>, RecB, Probe<4>, SProbe<2>, Probe<3>, RecA)),
    sh!(Slice, (SProbe<3>, u8, Vec<SProbe<3>>, RecB, Probe<4>, SProbe<2>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Vec<Probe<2>>, RecB, Probe<4>, SProbe<2>, Probe<3>, RecA)),
    sh!(Slice, (SProbe<3>, u8, Probe<1>, Vec<RecB>, Probe<4>, SProbe<2>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, Vec<Probe<2>>, Probe<4>, SProbe<2>, Probe<3>, RecA)),
    sh!(Slice, (SProbe<3>, u8, Probe<1>, RecB, (u8, Vec<Probe<1>>), SProbe<2>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, RecB, Vec<Probe<2>>, SProbe<2>, Probe<3>, RecA)),
    sh!(Slice, (SProbe<3>, u8, Probe<1>, RecB, Probe<4>, Vec<(Probe<1>, SProbe<2>)>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, RecB, Probe<4>, Vec<Probe<2>>, Probe<3>, RecA)),
    sh!(Slice, (SProbe<3>, u8, Probe<1>, RecB, Probe<4>, SProbe<2>, DProbe, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, RecB, Probe<4>, SProbe<2>, Vec<Probe<2>>, RecA)),
    sh!(Slice, (SProbe<3>, u8, Probe<1>, RecB, Probe<4>, SProbe<2>, Probe<3>, Vec<SProbe<3>>, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, RecB, Probe<4>, SProbe<2>, Probe<3>, Vec<Probe<2>>)),
    sh!(Slice, (SProbe<3>, u8, Probe<1>, RecB, Probe<4>, SProbe<2>, Probe<3>, RecA, Vec<RecB>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, RecB, Probe<4>, SProbe<2>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Vec<Probe<2>>, SProbe<3>, u8, Probe<1>, RecB, Probe<4>, SProbe<2>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (DProbe, SProbe<3>, u8, Probe<1>, RecB, Probe<4>, SProbe<2>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, Vec<Probe<2>>, u8, Probe<1>, RecB, Probe<4>, SProbe<2>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, Vec<SProbe<3>>, u8, Probe<1>, RecB, Probe<4>, SProbe<2>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, Vec<Probe<2>>, Probe<1>, RecB, Probe<4>, SProbe<2>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, Vec<RecB>, Probe<1>, RecB, Probe<4>, SProbe<2>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Vec<Probe<2>>, RecB, Probe<4>, SProbe<2>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, (u8, Vec<Probe<1>>), RecB, Probe<4>, SProbe<2>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, Vec<Probe<2>>, Probe<4>, SProbe<2>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, Vec<(Probe<1>, SProbe<2>)>, Probe<4>, SProbe<2>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, RecB, Vec<Probe<2>>, SProbe<2>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, RecB, DProbe, SProbe<2>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, RecB, Probe<4>, Vec<Probe<2>>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, RecB, Probe<4>, Vec<SProbe<3>>, Probe<3>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, RecB, Probe<4>, SProbe<2>, Vec<Probe<2>>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, RecB, Probe<4>, SProbe<2>, Vec<RecB>, RecA, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, RecB, Probe<4>, SProbe<2>, Probe<3>, Vec<Probe<2>>, Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, RecB, Probe<4>, SProbe<2>, Probe<3>, (u8, Vec<Probe<1>>), Probe<1>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, RecB, Probe<4>, SProbe<2>, Probe<3>, RecA, Vec<Probe<2>>)),
    sh!(Slice, (Probe<2>, SProbe<3>, u8, Probe<1>, RecB, Probe<4>, SProbe<2>, Probe<3>, RecA, Vec<(Probe<1>, SProbe<2>)>)),
    sh!(Slice, (Vec<Probe<1>>, Vec<Probe<2>>)),
    sh!(Slice, (Vec<u8>, Probe<1>, DProbe)),
    sh!(Slice, (Probe<1>, (Vec<Probe<2>>, Probe<1>), Probe<2>)),
    sh!(Slice, ((Probe<1>, Probe<2>), (SProbe<1>, Probe<3>))),
    sh!(Slice, (((Probe<1>,), Probe<2>), Probe<1>)),
    sh!(Slice, ((), Probe<2>, ())),
    sh!(Slice, ((), Vec<Probe<2>>)),
    sh!(Slice, (Probe<1>, (Vec<u8>, DProbe))),
    sh!(Slice, (Vec<()>, Probe<2>)),
    sh!(Slice, (Vec<Vec<u8>>, Probe<1>)),
    sh!(Slice, (u8, (Probe<1>, (SProbe<2>, (Probe<1>, Vec<RecA>))))),
    sh!(Slice, (Vec<Probe<1>>, u8, Vec<Probe<1>>, u8)),
    sh!(Slice, (Probe<0>, Probe<1>, Probe<0>)),
    sh!(Slice, (RecE, RecC)),
    sh!(Slice, (RecH, Vec<RecH>)),
    sh!(Slice, (DProbe, Probe<2>)),
    sh!(Slice, (Probe<2>, DProbe)),
    sh!(Slice, (Vec<RecD>, RecJ)),
    sh!(Slice, (RecF, Vec<RecF>, RecG)),
    $($more,)*
];
} }
with_generated!(base);
