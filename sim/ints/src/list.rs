// generated by tools/gen_ints.py
pub static INTS: &[&dyn IntOps] = &[
    &Of::<u8, 1>(PhantomData),
    &Of::<u8, 2>(PhantomData),
    &Of::<u8, 3>(PhantomData),
    &Of::<u8, 4>(PhantomData),
    &Of::<u8, 5>(PhantomData),
    &Of::<u8, 6>(PhantomData),
    &Of::<u8, 7>(PhantomData),
    &Of::<u8, 8>(PhantomData),
    &Of::<u16, 9>(PhantomData),
    &Of::<u16, 10>(PhantomData),
    &Of::<u16, 11>(PhantomData),
    &Of::<u16, 12>(PhantomData),
    &Of::<u16, 13>(PhantomData),
    &Of::<u16, 14>(PhantomData),
    &Of::<u16, 15>(PhantomData),
    &Of::<u16, 16>(PhantomData),
    &Of::<u32, 17>(PhantomData),
    &Of::<u32, 18>(PhantomData),
    &Of::<u32, 19>(PhantomData),
    &Of::<u32, 20>(PhantomData),
    &Of::<u32, 21>(PhantomData),
    &Of::<u32, 22>(PhantomData),
    &Of::<u32, 23>(PhantomData),
    &Of::<u32, 24>(PhantomData),
    &Of::<u32, 25>(PhantomData),
    &Of::<u32, 26>(PhantomData),
    &Of::<u32, 27>(PhantomData),
    &Of::<u32, 28>(PhantomData),
    &Of::<u32, 29>(PhantomData),
    &Of::<u32, 30>(PhantomData),
    &Of::<u32, 31>(PhantomData),
    &Of::<u32, 32>(PhantomData),
    &Of::<u64, 33>(PhantomData),
    &Of::<u64, 34>(PhantomData),
    &Of::<u64, 35>(PhantomData),
    &Of::<u64, 36>(PhantomData),
    &Of::<u64, 37>(PhantomData),
    &Of::<u64, 38>(PhantomData),
    &Of::<u64, 39>(PhantomData),
    &Of::<u64, 40>(PhantomData),
    &Of::<u64, 41>(PhantomData),
    &Of::<u64, 42>(PhantomData),
    &Of::<u64, 43>(PhantomData),
    &Of::<u64, 44>(PhantomData),
    &Of::<u64, 45>(PhantomData),
    &Of::<u64, 46>(PhantomData),
    &Of::<u64, 47>(PhantomData),
    &Of::<u64, 48>(PhantomData),
    &Of::<u64, 49>(PhantomData),
    &Of::<u64, 50>(PhantomData),
    &Of::<u64, 51>(PhantomData),
    &Of::<u64, 52>(PhantomData),
    &Of::<u64, 53>(PhantomData),
    &Of::<u64, 54>(PhantomData),
    &Of::<u64, 55>(PhantomData),
    &Of::<u64, 56>(PhantomData),
    &Of::<u64, 57>(PhantomData),
    &Of::<u64, 58>(PhantomData),
    &Of::<u64, 59>(PhantomData),
    &Of::<u64, 60>(PhantomData),
    &Of::<u64, 61>(PhantomData),
    &Of::<u64, 62>(PhantomData),
    &Of::<u64, 63>(PhantomData),
    &Of::<u64, 64>(PhantomData),
    &Of::<i8, 1>(PhantomData),
    &Of::<i8, 2>(PhantomData),
    &Of::<i8, 3>(PhantomData),
    &Of::<i8, 4>(PhantomData),
    &Of::<i8, 5>(PhantomData),
    &Of::<i8, 6>(PhantomData),
    &Of::<i8, 7>(PhantomData),
    &Of::<i8, 8>(PhantomData),
    &Of::<i16, 9>(PhantomData),
    &Of::<i16, 10>(PhantomData),
    &Of::<i16, 11>(PhantomData),
    &Of::<i16, 12>(PhantomData),
    &Of::<i16, 13>(PhantomData),
    &Of::<i16, 14>(PhantomData),
    &Of::<i16, 15>(PhantomData),
    &Of::<i16, 16>(PhantomData),
    &Of::<i32, 17>(PhantomData),
    &Of::<i32, 18>(PhantomData),
    &Of::<i32, 19>(PhantomData),
    &Of::<i32, 20>(PhantomData),
    &Of::<i32, 21>(PhantomData),
    &Of::<i32, 22>(PhantomData),
    &Of::<i32, 23>(PhantomData),
    &Of::<i32, 24>(PhantomData),
    &Of::<i32, 25>(PhantomData),
    &Of::<i32, 26>(PhantomData),
    &Of::<i32, 27>(PhantomData),
    &Of::<i32, 28>(PhantomData),
    &Of::<i32, 29>(PhantomData),
    &Of::<i32, 30>(PhantomData),
    &Of::<i32, 31>(PhantomData),
    &Of::<i32, 32>(PhantomData),
    &Of::<i64, 33>(PhantomData),
    &Of::<i64, 34>(PhantomData),
    &Of::<i64, 35>(PhantomData),
    &Of::<i64, 36>(PhantomData),
    &Of::<i64, 37>(PhantomData),
    &Of::<i64, 38>(PhantomData),
    &Of::<i64, 39>(PhantomData),
    &Of::<i64, 40>(PhantomData),
    &Of::<i64, 41>(PhantomData),
    &Of::<i64, 42>(PhantomData),
    &Of::<i64, 43>(PhantomData),
    &Of::<i64, 44>(PhantomData),
    &Of::<i64, 45>(PhantomData),
    &Of::<i64, 46>(PhantomData),
    &Of::<i64, 47>(PhantomData),
    &Of::<i64, 48>(PhantomData),
    &Of::<i64, 49>(PhantomData),
    &Of::<i64, 50>(PhantomData),
    &Of::<i64, 51>(PhantomData),
    &Of::<i64, 52>(PhantomData),
    &Of::<i64, 53>(PhantomData),
    &Of::<i64, 54>(PhantomData),
    &Of::<i64, 55>(PhantomData),
    &Of::<i64, 56>(PhantomData),
    &Of::<i64, 57>(PhantomData),
    &Of::<i64, 58>(PhantomData),
    &Of::<i64, 59>(PhantomData),
    &Of::<i64, 60>(PhantomData),
    &Of::<i64, 61>(PhantomData),
    &Of::<i64, 62>(PhantomData),
    &Of::<i64, 63>(PhantomData),
    &Of::<i64, 64>(PhantomData),
];
snap! { SnapA u1 u8 1, i1 i8 1, u2 u8 2, i2 i8 2, u3 u8 3, i3 i8 3, u4 u8 4, i4 i8 4, u5 u8 5, i5 i8 5, u6 u8 6, i6 i8 6, u7 u8 7, i7 i8 7, u8 u8 8, i8 i8 8 }
snap! { SnapB u9 u16 9, i9 i16 9, u10 u16 10, i10 i16 10, u11 u16 11, i11 i16 11, u12 u16 12, i12 i16 12, u13 u16 13, i13 i16 13, u14 u16 14, i14 i16 14, u15 u16 15, i15 i16 15, u16 u16 16, i16 i16 16 }
snap! { SnapC u17 u32 17, i17 i32 17, u18 u32 18, i18 i32 18, u19 u32 19, i19 i32 19, u20 u32 20, i20 i32 20, u21 u32 21, i21 i32 21, u22 u32 22, i22 i32 22, u23 u32 23, i23 i32 23, u24 u32 24, i24 i32 24, u25 u32 25, i25 i32 25, u26 u32 26, i26 i32 26, u27 u32 27, i27 i32 27, u28 u32 28, i28 i32 28, u29 u32 29, i29 i32 29, u30 u32 30, i30 i32 30, u31 u32 31, i31 i32 31, u32 u32 32, i32 i32 32 }
snap! { SnapD u33 u64 33, u34 u64 34, u35 u64 35, u36 u64 36, u37 u64 37, u38 u64 38, u39 u64 39, u40 u64 40, u41 u64 41, u42 u64 42, u43 u64 43, u44 u64 44, u45 u64 45, u46 u64 46, u47 u64 47, u48 u64 48, u49 u64 49, u50 u64 50, u51 u64 51, u52 u64 52, u53 u64 53, u54 u64 54, u55 u64 55, u56 u64 56, u57 u64 57, u58 u64 58, u59 u64 59, u60 u64 60, u61 u64 61, u62 u64 62, u63 u64 63, u64 u64 64 }
snap! { SnapE i33 i64 33, i34 i64 34, i35 i64 35, i36 i64 36, i37 i64 37, i38 i64 38, i39 i64 39, i40 i64 40, i41 i64 41, i42 i64 42, i43 i64 43, i44 i64 44, i45 i64 45, i46 i64 46, i47 i64 47, i48 i64 48, i49 i64 49, i50 i64 50, i51 i64 51, i52 i64 52, i53 i64 53, i54 i64 54, i55 i64 55, i56 i64 56, i57 i64 57, i58 i64 58, i59 i64 59, i60 i64 60, i61 i64 61, i62 i64 62, i63 i64 63, i64 i64 64 }
