//! Generated by gen_derived.py: shapes for the derive macros.
#![allow(dead_code, unused_variables)]
use crate::derived::*;
use crate::gen::Gen;
use crate::src::Src;
use core::marker::PhantomData;
use crabslab::{Array, Id, SlabItem};

dstruct!(M0 { a10 OFFSET_OF_A10 SLAB_SIZE_OF_A10: glam::Vec2 });
dstruct!(M1 (0 OFFSET_OF_0 SLAB_SIZE_OF_0: f64, 1 OFFSET_OF_1 SLAB_SIZE_OF_1: f64));
dstruct!(M2 { x OFFSET_OF_X SLAB_SIZE_OF_X: S2, id OFFSET_OF_ID SLAB_SIZE_OF_ID: [u32; 3], a1 OFFSET_OF_A1 SLAB_SIZE_OF_A1: [u32; 3] });
dstruct!(M3 (0 OFFSET_OF_0 SLAB_SIZE_OF_0: EUnit, 1 OFFSET_OF_1 SLAB_SIZE_OF_1: u32, 2 OFFSET_OF_2 SLAB_SIZE_OF_2: f32, 3 OFFSET_OF_3 SLAB_SIZE_OF_3: u32));
dstruct!(M4 { word OFFSET_OF_WORD SLAB_SIZE_OF_WORD: Option<u32>, ty OFFSET_OF_TY SLAB_SIZE_OF_TY: PhantomData<u8>, c OFFSET_OF_C SLAB_SIZE_OF_C: f32, color OFFSET_OF_COLOR SLAB_SIZE_OF_COLOR: f32, key OFFSET_OF_KEY SLAB_SIZE_OF_KEY: f32 });
dstruct!(M5 (0 OFFSET_OF_0 SLAB_SIZE_OF_0: u64, 1 OFFSET_OF_1 SLAB_SIZE_OF_1: u64, 2 OFFSET_OF_2 SLAB_SIZE_OF_2: u64, 3 OFFSET_OF_3 SLAB_SIZE_OF_3: u64, 4 OFFSET_OF_4 SLAB_SIZE_OF_4: u64, 5 OFFSET_OF_5 SLAB_SIZE_OF_5: f32));
dstruct!(M6 { other OFFSET_OF_OTHER SLAB_SIZE_OF_OTHER: glam::UVec4, outer OFFSET_OF_OUTER SLAB_SIZE_OF_OUTER: i32, word OFFSET_OF_WORD SLAB_SIZE_OF_WORD: i32, position OFFSET_OF_POSITION SLAB_SIZE_OF_POSITION: i128, name OFFSET_OF_NAME SLAB_SIZE_OF_NAME: f32, d OFFSET_OF_D SLAB_SIZE_OF_D: u8, a2 OFFSET_OF_A2 SLAB_SIZE_OF_A2: glam::Vec3 });
dstruct!(M7 (0 OFFSET_OF_0 SLAB_SIZE_OF_0: T2, 1 OFFSET_OF_1 SLAB_SIZE_OF_1: i8, 2 OFFSET_OF_2 SLAB_SIZE_OF_2: u64, 3 OFFSET_OF_3 SLAB_SIZE_OF_3: u64, 4 OFFSET_OF_4 SLAB_SIZE_OF_4: u64, 5 OFFSET_OF_5 SLAB_SIZE_OF_5: u64, 6 OFFSET_OF_6 SLAB_SIZE_OF_6: u64, 7 OFFSET_OF_7 SLAB_SIZE_OF_7: u64));
dstruct!(M8 { key OFFSET_OF_KEY SLAB_SIZE_OF_KEY: u32, a10 OFFSET_OF_A10 SLAB_SIZE_OF_A10: Id<u8>, w OFFSET_OF_W SLAB_SIZE_OF_W: Id<u8>, inner OFFSET_OF_INNER SLAB_SIZE_OF_INNER: Id<u8>, len OFFSET_OF_LEN SLAB_SIZE_OF_LEN: Id<u8>, value OFFSET_OF_VALUE SLAB_SIZE_OF_VALUE: Id<u8>, f OFFSET_OF_F SLAB_SIZE_OF_F: PhantomData<u8>, size OFFSET_OF_SIZE SLAB_SIZE_OF_SIZE: Option<PhantomData<u8>>, rest OFFSET_OF_REST SLAB_SIZE_OF_REST: Option<PhantomData<u8>> });
dstruct!(M9 (0 OFFSET_OF_0 SLAB_SIZE_OF_0: u64, 1 OFFSET_OF_1 SLAB_SIZE_OF_1: u64, 2 OFFSET_OF_2 SLAB_SIZE_OF_2: f32, 3 OFFSET_OF_3 SLAB_SIZE_OF_3: f32, 4 OFFSET_OF_4 SLAB_SIZE_OF_4: i64, 5 OFFSET_OF_5 SLAB_SIZE_OF_5: PhantomData<u64>, 6 OFFSET_OF_6 SLAB_SIZE_OF_6: bool, 7 OFFSET_OF_7 SLAB_SIZE_OF_7: u64, 8 OFFSET_OF_8 SLAB_SIZE_OF_8: Option<u64>, 9 OFFSET_OF_9 SLAB_SIZE_OF_9: Option<u64>));
dstruct!(M10 { first OFFSET_OF_FIRST SLAB_SIZE_OF_FIRST: u64, flags OFFSET_OF_FLAGS SLAB_SIZE_OF_FLAGS: u8, near OFFSET_OF_NEAR SLAB_SIZE_OF_NEAR: u8, a1 OFFSET_OF_A1 SLAB_SIZE_OF_A1: u8, down OFFSET_OF_DOWN SLAB_SIZE_OF_DOWN: i8, z OFFSET_OF_Z SLAB_SIZE_OF_Z: i8, kind OFFSET_OF_KIND SLAB_SIZE_OF_KIND: i8, ty OFFSET_OF_TY SLAB_SIZE_OF_TY: [u8; 2], position OFFSET_OF_POSITION SLAB_SIZE_OF_POSITION: u32, uv OFFSET_OF_UV SLAB_SIZE_OF_UV: u32, b OFFSET_OF_B SLAB_SIZE_OF_B: u32 });
dstruct!(M11 (0 OFFSET_OF_0 SLAB_SIZE_OF_0: (u8, u64), 1 OFFSET_OF_1 SLAB_SIZE_OF_1: (u8, u64), 2 OFFSET_OF_2 SLAB_SIZE_OF_2: (u8, u64), 3 OFFSET_OF_3 SLAB_SIZE_OF_3: glam::Vec3, 4 OFFSET_OF_4 SLAB_SIZE_OF_4: u64, 5 OFFSET_OF_5 SLAB_SIZE_OF_5: Id<u8>, 6 OFFSET_OF_6 SLAB_SIZE_OF_6: S2, 7 OFFSET_OF_7 SLAB_SIZE_OF_7: u32, 8 OFFSET_OF_8 SLAB_SIZE_OF_8: f64, 9 OFFSET_OF_9 SLAB_SIZE_OF_9: f64, 10 OFFSET_OF_10 SLAB_SIZE_OF_10: f64, 11 OFFSET_OF_11 SLAB_SIZE_OF_11: f64));
dstruct!(M12 { bits OFFSET_OF_BITS SLAB_SIZE_OF_BITS: u32, kind OFFSET_OF_KIND SLAB_SIZE_OF_KIND: u32, far OFFSET_OF_FAR SLAB_SIZE_OF_FAR: Id<S2>, other OFFSET_OF_OTHER SLAB_SIZE_OF_OTHER: f32, more OFFSET_OF_MORE SLAB_SIZE_OF_MORE: u64, a1 OFFSET_OF_A1 SLAB_SIZE_OF_A1: u64, uv OFFSET_OF_UV SLAB_SIZE_OF_UV: u64, tag OFFSET_OF_TAG SLAB_SIZE_OF_TAG: u64, key OFFSET_OF_KEY SLAB_SIZE_OF_KEY: u64, y OFFSET_OF_Y SLAB_SIZE_OF_Y: Option<u64>, b OFFSET_OF_B SLAB_SIZE_OF_B: Option<u64>, t OFFSET_OF_T SLAB_SIZE_OF_T: Option<u64>, value OFFSET_OF_VALUE SLAB_SIZE_OF_VALUE: Option<u64> });
dstruct!(M13 (0 OFFSET_OF_0 SLAB_SIZE_OF_0: f32, 1 OFFSET_OF_1 SLAB_SIZE_OF_1: f32, 2 OFFSET_OF_2 SLAB_SIZE_OF_2: f32, 3 OFFSET_OF_3 SLAB_SIZE_OF_3: f32, 4 OFFSET_OF_4 SLAB_SIZE_OF_4: f32, 5 OFFSET_OF_5 SLAB_SIZE_OF_5: bool, 6 OFFSET_OF_6 SLAB_SIZE_OF_6: bool, 7 OFFSET_OF_7 SLAB_SIZE_OF_7: bool, 8 OFFSET_OF_8 SLAB_SIZE_OF_8: bool, 9 OFFSET_OF_9 SLAB_SIZE_OF_9: bool, 10 OFFSET_OF_10 SLAB_SIZE_OF_10: f32, 11 OFFSET_OF_11 SLAB_SIZE_OF_11: f32, 12 OFFSET_OF_12 SLAB_SIZE_OF_12: f32, 13 OFFSET_OF_13 SLAB_SIZE_OF_13: f32));
dstruct!(M14 { name OFFSET_OF_NAME SLAB_SIZE_OF_NAME: u32, normal OFFSET_OF_NORMAL SLAB_SIZE_OF_NORMAL: PhantomData<u8>, more OFFSET_OF_MORE SLAB_SIZE_OF_MORE: PhantomData<u8>, d OFFSET_OF_D SLAB_SIZE_OF_D: PhantomData<u8>, x OFFSET_OF_X SLAB_SIZE_OF_X: PhantomData<u8>, key OFFSET_OF_KEY SLAB_SIZE_OF_KEY: PhantomData<u8>, value OFFSET_OF_VALUE SLAB_SIZE_OF_VALUE: Option<PhantomData<u8>>, outer OFFSET_OF_OUTER SLAB_SIZE_OF_OUTER: Option<PhantomData<u8>>, __x OFFSET_OF___X SLAB_SIZE_OF___X: Option<PhantomData<u8>>, a1 OFFSET_OF_A1 SLAB_SIZE_OF_A1: Option<PhantomData<u8>>, c OFFSET_OF_C SLAB_SIZE_OF_C: Option<PhantomData<u8>>, data OFFSET_OF_DATA SLAB_SIZE_OF_DATA: i128, word OFFSET_OF_WORD SLAB_SIZE_OF_WORD: u32, a10 OFFSET_OF_A10 SLAB_SIZE_OF_A10: u32, b OFFSET_OF_B SLAB_SIZE_OF_B: u32 });
dstruct!(M15 (0 OFFSET_OF_0 SLAB_SIZE_OF_0: Option<PhantomData<u8>>, 1 OFFSET_OF_1 SLAB_SIZE_OF_1: Option<PhantomData<u8>>, 2 OFFSET_OF_2 SLAB_SIZE_OF_2: u32, 3 OFFSET_OF_3 SLAB_SIZE_OF_3: u32, 4 OFFSET_OF_4 SLAB_SIZE_OF_4: EMixed, 5 OFFSET_OF_5 SLAB_SIZE_OF_5: EMixed, 6 OFFSET_OF_6 SLAB_SIZE_OF_6: EMixed, 7 OFFSET_OF_7 SLAB_SIZE_OF_7: i64, 8 OFFSET_OF_8 SLAB_SIZE_OF_8: Option<PhantomData<u8>>, 9 OFFSET_OF_9 SLAB_SIZE_OF_9: Option<PhantomData<u8>>, 10 OFFSET_OF_10 SLAB_SIZE_OF_10: u128, 11 OFFSET_OF_11 SLAB_SIZE_OF_11: u128, 12 OFFSET_OF_12 SLAB_SIZE_OF_12: u128, 13 OFFSET_OF_13 SLAB_SIZE_OF_13: u128, 14 OFFSET_OF_14 SLAB_SIZE_OF_14: u128, 15 OFFSET_OF_15 SLAB_SIZE_OF_15: EMixed));
dstruct!(M16 { mid OFFSET_OF_MID SLAB_SIZE_OF_MID: u32, a2 OFFSET_OF_A2 SLAB_SIZE_OF_A2: S2, key OFFSET_OF_KEY SLAB_SIZE_OF_KEY: Option<PhantomData<u8>>, last OFFSET_OF_LAST SLAB_SIZE_OF_LAST: PhantomData<u64>, up OFFSET_OF_UP SLAB_SIZE_OF_UP: Option<PhantomData<u8>>, a1 OFFSET_OF_A1 SLAB_SIZE_OF_A1: Option<u64>, left OFFSET_OF_LEFT SLAB_SIZE_OF_LEFT: Option<u64>, f OFFSET_OF_F SLAB_SIZE_OF_F: i64, near OFFSET_OF_NEAR SLAB_SIZE_OF_NEAR: i128, age OFFSET_OF_AGE SLAB_SIZE_OF_AGE: f32, ty OFFSET_OF_TY SLAB_SIZE_OF_TY: f32, flags OFFSET_OF_FLAGS SLAB_SIZE_OF_FLAGS: u32, rest OFFSET_OF_REST SLAB_SIZE_OF_REST: u32, outer OFFSET_OF_OUTER SLAB_SIZE_OF_OUTER: u32, e OFFSET_OF_E SLAB_SIZE_OF_E: PhantomData<u8>, far OFFSET_OF_FAR SLAB_SIZE_OF_FAR: PhantomData<u8>, a10 OFFSET_OF_A10 SLAB_SIZE_OF_A10: PhantomData<u8> });
dstruct!(M17 (0 OFFSET_OF_0 SLAB_SIZE_OF_0: EUnit, 1 OFFSET_OF_1 SLAB_SIZE_OF_1: EUnit, 2 OFFSET_OF_2 SLAB_SIZE_OF_2: EUnit, 3 OFFSET_OF_3 SLAB_SIZE_OF_3: f32, 4 OFFSET_OF_4 SLAB_SIZE_OF_4: PhantomData<u8>, 5 OFFSET_OF_5 SLAB_SIZE_OF_5: PhantomData<u8>, 6 OFFSET_OF_6 SLAB_SIZE_OF_6: PhantomData<u8>, 7 OFFSET_OF_7 SLAB_SIZE_OF_7: S2, 8 OFFSET_OF_8 SLAB_SIZE_OF_8: u128, 9 OFFSET_OF_9 SLAB_SIZE_OF_9: u128, 10 OFFSET_OF_10 SLAB_SIZE_OF_10: u64, 11 OFFSET_OF_11 SLAB_SIZE_OF_11: u16, 12 OFFSET_OF_12 SLAB_SIZE_OF_12: Array<u8>, 13 OFFSET_OF_13 SLAB_SIZE_OF_13: Array<u8>, 14 OFFSET_OF_14 SLAB_SIZE_OF_14: Array<u8>, 15 OFFSET_OF_15 SLAB_SIZE_OF_15: glam::Vec3, 16 OFFSET_OF_16 SLAB_SIZE_OF_16: glam::Vec3, 17 OFFSET_OF_17 SLAB_SIZE_OF_17: glam::Vec3));
dstruct!(M18 { f OFFSET_OF_F SLAB_SIZE_OF_F: i8, c OFFSET_OF_C SLAB_SIZE_OF_C: u32, far OFFSET_OF_FAR SLAB_SIZE_OF_FAR: Id<u8>, color OFFSET_OF_COLOR SLAB_SIZE_OF_COLOR: Id<u8>, a2 OFFSET_OF_A2 SLAB_SIZE_OF_A2: Id<u8>, words OFFSET_OF_WORDS SLAB_SIZE_OF_WORDS: Id<u8>, mid OFFSET_OF_MID SLAB_SIZE_OF_MID: Id<u8>, y OFFSET_OF_Y SLAB_SIZE_OF_Y: S2, e OFFSET_OF_E SLAB_SIZE_OF_E: u8, name OFFSET_OF_NAME SLAB_SIZE_OF_NAME: (u8, u64), outer OFFSET_OF_OUTER SLAB_SIZE_OF_OUTER: (u8, u64), bits OFFSET_OF_BITS SLAB_SIZE_OF_BITS: (u8, u64), size OFFSET_OF_SIZE SLAB_SIZE_OF_SIZE: u64, kind OFFSET_OF_KIND SLAB_SIZE_OF_KIND: u64, zeta OFFSET_OF_ZETA SLAB_SIZE_OF_ZETA: u64, more OFFSET_OF_MORE SLAB_SIZE_OF_MORE: u64, position OFFSET_OF_POSITION SLAB_SIZE_OF_POSITION: u64, uv OFFSET_OF_UV SLAB_SIZE_OF_UV: Option<u64>, id OFFSET_OF_ID SLAB_SIZE_OF_ID: Option<u64> });
dstruct!(M19 (0 OFFSET_OF_0 SLAB_SIZE_OF_0: (u8, u64), 1 OFFSET_OF_1 SLAB_SIZE_OF_1: (u8, u64), 2 OFFSET_OF_2 SLAB_SIZE_OF_2: (u8, u64), 3 OFFSET_OF_3 SLAB_SIZE_OF_3: [u8; 2], 4 OFFSET_OF_4 SLAB_SIZE_OF_4: [u8; 2], 5 OFFSET_OF_5 SLAB_SIZE_OF_5: [u8; 2], 6 OFFSET_OF_6 SLAB_SIZE_OF_6: f64, 7 OFFSET_OF_7 SLAB_SIZE_OF_7: u8, 8 OFFSET_OF_8 SLAB_SIZE_OF_8: u8, 9 OFFSET_OF_9 SLAB_SIZE_OF_9: u8, 10 OFFSET_OF_10 SLAB_SIZE_OF_10: u32, 11 OFFSET_OF_11 SLAB_SIZE_OF_11: f32, 12 OFFSET_OF_12 SLAB_SIZE_OF_12: u128, 13 OFFSET_OF_13 SLAB_SIZE_OF_13: u32, 14 OFFSET_OF_14 SLAB_SIZE_OF_14: PhantomData<u8>, 15 OFFSET_OF_15 SLAB_SIZE_OF_15: [u64; 4], 16 OFFSET_OF_16 SLAB_SIZE_OF_16: u32, 17 OFFSET_OF_17 SLAB_SIZE_OF_17: u32, 18 OFFSET_OF_18 SLAB_SIZE_OF_18: u8, 19 OFFSET_OF_19 SLAB_SIZE_OF_19: EMixed));
dstruct!(M20 { id OFFSET_OF_ID SLAB_SIZE_OF_ID: u32, bits OFFSET_OF_BITS SLAB_SIZE_OF_BITS: u16, normal OFFSET_OF_NORMAL SLAB_SIZE_OF_NORMAL: PhantomData<u8>, alpha OFFSET_OF_ALPHA SLAB_SIZE_OF_ALPHA: u64 });
dstruct!(M21 (0 OFFSET_OF_0 SLAB_SIZE_OF_0: glam::Vec3, 1 OFFSET_OF_1 SLAB_SIZE_OF_1: u8, 2 OFFSET_OF_2 SLAB_SIZE_OF_2: u8, 3 OFFSET_OF_3 SLAB_SIZE_OF_3: u8, 4 OFFSET_OF_4 SLAB_SIZE_OF_4: u8, 5 OFFSET_OF_5 SLAB_SIZE_OF_5: u8));
dstruct!(M22 { id OFFSET_OF_ID SLAB_SIZE_OF_ID: i8, a10 OFFSET_OF_A10 SLAB_SIZE_OF_A10: [u32; 3], x OFFSET_OF_X SLAB_SIZE_OF_X: [u32; 3] });
dstruct!(M23 (0 OFFSET_OF_0 SLAB_SIZE_OF_0: u16, 1 OFFSET_OF_1 SLAB_SIZE_OF_1: u16, 2 OFFSET_OF_2 SLAB_SIZE_OF_2: u16, 3 OFFSET_OF_3 SLAB_SIZE_OF_3: u16, 4 OFFSET_OF_4 SLAB_SIZE_OF_4: u16, 5 OFFSET_OF_5 SLAB_SIZE_OF_5: f32, 6 OFFSET_OF_6 SLAB_SIZE_OF_6: f32));
dstruct!(M24 { normal OFFSET_OF_NORMAL SLAB_SIZE_OF_NORMAL: u32, bits OFFSET_OF_BITS SLAB_SIZE_OF_BITS: f32, count OFFSET_OF_COUNT SLAB_SIZE_OF_COUNT: f32, inner OFFSET_OF_INNER SLAB_SIZE_OF_INNER: f32 });
dstruct!(M25 (0 OFFSET_OF_0 SLAB_SIZE_OF_0: f32, 1 OFFSET_OF_1 SLAB_SIZE_OF_1: Array<u8>));

#[derive(Clone, Debug, Default, SlabItem)]
pub enum X0 {
    #[default]
    V0,
    V1 { words: PhantomData<u8>, zeta: u32, count: u32, value: PhantomData<u8> },
}
gen_enum!(X0, 1 + 2, default X0::V0, count 2, {
    0 => { |_| X0::V0 } X0::V0, X0::V0 => [];
    1 => { |s| X0::V1 { words: Gen::gen(s), zeta: Gen::gen(s), count: Gen::gen(s), value: Gen::gen(s) } } X0::V1 { words: x0, zeta: x1, count: x2, value: x3 }, X0::V1 { words: x0b, zeta: x1b, count: x2b, value: x3b } => [x0 x0b: PhantomData<u8>, x1 x1b: u32, x2 x2b: u32, x3 x3b: PhantomData<u8>];
});
#[derive(Clone, Debug, Default, SlabItem)]
pub enum X1 {
    V0(u64, u64, u64, u64, u64),
    #[default]
    V1,
}
gen_enum!(X1, 1 + 10, default X1::V1, count 2, {
    0 => { |s| X1::V0(Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s)) } X1::V0(x0, x1, x2, x3, x4), X1::V0(x0b, x1b, x2b, x3b, x4b) => [x0 x0b: u64, x1 x1b: u64, x2 x2b: u64, x3 x3b: u64, x4 x4b: u64];
    1 => { |_| X1::V1 } X1::V1, X1::V1 => [];
});
#[derive(Clone, Debug, Default, SlabItem)]
pub enum X2 {
    #[default]
    V0,
    V1 { c: u64, mid: u64, b: u32, words: u32, size: u32, a2: u32 },
}
gen_enum!(X2, 1 + 8, default X2::V0, count 2, {
    0 => { |_| X2::V0 } X2::V0, X2::V0 => [];
    1 => { |s| X2::V1 { c: Gen::gen(s), mid: Gen::gen(s), b: Gen::gen(s), words: Gen::gen(s), size: Gen::gen(s), a2: Gen::gen(s) } } X2::V1 { c: x0, mid: x1, b: x2, words: x3, size: x4, a2: x5 }, X2::V1 { c: x0b, mid: x1b, b: x2b, words: x3b, size: x4b, a2: x5b } => [x0 x0b: u64, x1 x1b: u64, x2 x2b: u32, x3 x3b: u32, x4 x4b: u32, x5 x5b: u32];
});
#[derive(Clone, Debug, Default, SlabItem)]
pub enum X3 {
    #[default]
    V0,
    V1(u32, u32, u32, u32, u32, u32, f32),
}
gen_enum!(X3, 1 + 7, default X3::V0, count 2, {
    0 => { |_| X3::V0 } X3::V0, X3::V0 => [];
    1 => { |s| X3::V1(Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s)) } X3::V1(x0, x1, x2, x3, x4, x5, x6), X3::V1(x0b, x1b, x2b, x3b, x4b, x5b, x6b) => [x0 x0b: u32, x1 x1b: u32, x2 x2b: u32, x3 x3b: u32, x4 x4b: u32, x5 x5b: u32, x6 x6b: f32];
});
#[derive(Clone, Debug, Default, SlabItem)]
pub enum X4 {
    #[default]
    V0,
    V1 { up: u32, flags: u32, color: u32, words: u32, variant: u32, near: u32, bits: u32, value: u32 },
}
gen_enum!(X4, 1 + 8, default X4::V0, count 2, {
    0 => { |_| X4::V0 } X4::V0, X4::V0 => [];
    1 => { |s| X4::V1 { up: Gen::gen(s), flags: Gen::gen(s), color: Gen::gen(s), words: Gen::gen(s), variant: Gen::gen(s), near: Gen::gen(s), bits: Gen::gen(s), value: Gen::gen(s) } } X4::V1 { up: x0, flags: x1, color: x2, words: x3, variant: x4, near: x5, bits: x6, value: x7 }, X4::V1 { up: x0b, flags: x1b, color: x2b, words: x3b, variant: x4b, near: x5b, bits: x6b, value: x7b } => [x0 x0b: u32, x1 x1b: u32, x2 x2b: u32, x3 x3b: u32, x4 x4b: u32, x5 x5b: u32, x6 x6b: u32, x7 x7b: u32];
});
#[derive(Clone, Debug, Default, SlabItem)]
pub enum X5 {
    V0(i64, i64, i64, u16, u32, glam::Vec2, u64, u64, u64),
    #[default]
    V1,
}
gen_enum!(X5, 1 + 16, default X5::V1, count 2, {
    0 => { |s| X5::V0(Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s)) } X5::V0(x0, x1, x2, x3, x4, x5, x6, x7, x8), X5::V0(x0b, x1b, x2b, x3b, x4b, x5b, x6b, x7b, x8b) => [x0 x0b: i64, x1 x1b: i64, x2 x2b: i64, x3 x3b: u16, x4 x4b: u32, x5 x5b: glam::Vec2, x6 x6b: u64, x7 x7b: u64, x8 x8b: u64];
    1 => { |_| X5::V1 } X5::V1, X5::V1 => [];
});
#[derive(Clone, Debug, Default, SlabItem)]
pub enum X6 {
    V0 { b: i64, first: T2, s: u32, age: u32, down: u64, count: u64, variant: EMixed, left: EMixed, bits: EMixed, word: u32 },
    #[default]
    V1,
}
gen_enum!(X6, 1 + 33, default X6::V1, count 2, {
    0 => { |s| X6::V0 { b: Gen::gen(s), first: Gen::gen(s), s: Gen::gen(s), age: Gen::gen(s), down: Gen::gen(s), count: Gen::gen(s), variant: Gen::gen(s), left: Gen::gen(s), bits: Gen::gen(s), word: Gen::gen(s) } } X6::V0 { b: x0, first: x1, s: x2, age: x3, down: x4, count: x5, variant: x6, left: x7, bits: x8, word: x9 }, X6::V0 { b: x0b, first: x1b, s: x2b, age: x3b, down: x4b, count: x5b, variant: x6b, left: x7b, bits: x8b, word: x9b } => [x0 x0b: i64, x1 x1b: T2, x2 x2b: u32, x3 x3b: u32, x4 x4b: u64, x5 x5b: u64, x6 x6b: EMixed, x7 x7b: EMixed, x8 x8b: EMixed, x9 x9b: u32];
    1 => { |_| X6::V1 } X6::V1, X6::V1 => [];
});
#[derive(Clone, Debug, Default, SlabItem)]
pub enum X7 {
    #[default]
    V0,
    V1(u64, i8, i8, i8, u32, u32, u32, u32, u32, u32, u64),
}
gen_enum!(X7, 1 + 13, default X7::V0, count 2, {
    0 => { |_| X7::V0 } X7::V0, X7::V0 => [];
    1 => { |s| X7::V1(Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s)) } X7::V1(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10), X7::V1(x0b, x1b, x2b, x3b, x4b, x5b, x6b, x7b, x8b, x9b, x10b) => [x0 x0b: u64, x1 x1b: i8, x2 x2b: i8, x3 x3b: i8, x4 x4b: u32, x5 x5b: u32, x6 x6b: u32, x7 x7b: u32, x8 x8b: u32, x9 x9b: u32, x10 x10b: u64];
});
#[derive(Clone, Debug, Default, SlabItem)]
pub enum X8 {
    V0 { name: u128, id: u128, far: i128, f: PhantomData<u8>, words: T2, more: i32, age: i32, d: i64, y: S2, mid: S2, other: [u32; 3], right: [u32; 3] },
    #[default]
    V1,
}
gen_enum!(X8, 1 + 31, default X8::V1, count 2, {
    0 => { |s| X8::V0 { name: Gen::gen(s), id: Gen::gen(s), far: Gen::gen(s), f: Gen::gen(s), words: Gen::gen(s), more: Gen::gen(s), age: Gen::gen(s), d: Gen::gen(s), y: Gen::gen(s), mid: Gen::gen(s), other: Gen::gen(s), right: Gen::gen(s) } } X8::V0 { name: x0, id: x1, far: x2, f: x3, words: x4, more: x5, age: x6, d: x7, y: x8, mid: x9, other: x10, right: x11 }, X8::V0 { name: x0b, id: x1b, far: x2b, f: x3b, words: x4b, more: x5b, age: x6b, d: x7b, y: x8b, mid: x9b, other: x10b, right: x11b } => [x0 x0b: u128, x1 x1b: u128, x2 x2b: i128, x3 x3b: PhantomData<u8>, x4 x4b: T2, x5 x5b: i32, x6 x6b: i32, x7 x7b: i64, x8 x8b: S2, x9 x9b: S2, x10 x10b: [u32; 3], x11 x11b: [u32; 3]];
    1 => { |_| X8::V1 } X8::V1, X8::V1 => [];
});
#[derive(Clone, Debug, Default, SlabItem)]
pub enum X9 {
    #[default]
    V0,
    V1(Option<PhantomData<u8>>, Option<PhantomData<u8>>, Option<PhantomData<u8>>, Option<PhantomData<u8>>, Option<PhantomData<u8>>, Array<u8>, Array<u8>, Array<u8>, Array<u8>, Array<u8>, Id<S2>, u64, u64),
}
gen_enum!(X9, 1 + 20, default X9::V0, count 2, {
    0 => { |_| X9::V0 } X9::V0, X9::V0 => [];
    1 => { |s| X9::V1(Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s)) } X9::V1(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12), X9::V1(x0b, x1b, x2b, x3b, x4b, x5b, x6b, x7b, x8b, x9b, x10b, x11b, x12b) => [x0 x0b: Option<PhantomData<u8>>, x1 x1b: Option<PhantomData<u8>>, x2 x2b: Option<PhantomData<u8>>, x3 x3b: Option<PhantomData<u8>>, x4 x4b: Option<PhantomData<u8>>, x5 x5b: Array<u8>, x6 x6b: Array<u8>, x7 x7b: Array<u8>, x8 x8b: Array<u8>, x9 x9b: Array<u8>, x10 x10b: Id<S2>, x11 x11b: u64, x12 x12b: u64];
});
#[derive(Clone, Debug, Default, SlabItem)]
pub enum X10 {
    V0 { right: Id<u8>, other: Id<u8>, e: Id<u8>, id: Id<u8>, first: Id<u8>, c: EMixed, words: S2, hash: S2, b: u64, up: u64, down: u64, kind: u64, name: u64, z: i64, flags: i64, it: i64 },
    #[default]
    V1,
}
gen_enum!(X10, 1 + 34, default X10::V1, count 2, {
    0 => { |s| X10::V0 { right: Gen::gen(s), other: Gen::gen(s), e: Gen::gen(s), id: Gen::gen(s), first: Gen::gen(s), c: Gen::gen(s), words: Gen::gen(s), hash: Gen::gen(s), b: Gen::gen(s), up: Gen::gen(s), down: Gen::gen(s), kind: Gen::gen(s), name: Gen::gen(s), z: Gen::gen(s), flags: Gen::gen(s), it: Gen::gen(s) } } X10::V0 { right: x0, other: x1, e: x2, id: x3, first: x4, c: x5, words: x6, hash: x7, b: x8, up: x9, down: x10, kind: x11, name: x12, z: x13, flags: x14, it: x15 }, X10::V0 { right: x0b, other: x1b, e: x2b, id: x3b, first: x4b, c: x5b, words: x6b, hash: x7b, b: x8b, up: x9b, down: x10b, kind: x11b, name: x12b, z: x13b, flags: x14b, it: x15b } => [x0 x0b: Id<u8>, x1 x1b: Id<u8>, x2 x2b: Id<u8>, x3 x3b: Id<u8>, x4 x4b: Id<u8>, x5 x5b: EMixed, x6 x6b: S2, x7 x7b: S2, x8 x8b: u64, x9 x9b: u64, x10 x10b: u64, x11 x11b: u64, x12 x12b: u64, x13 x13b: i64, x14 x14b: i64, x15 x15b: i64];
    1 => { |_| X10::V1 } X10::V1, X10::V1 => [];
});
#[derive(Clone, Debug, Default, SlabItem)]
pub enum X11 {
    V0(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64),
    #[default]
    V1,
}
gen_enum!(X11, 1 + 22, default X11::V1, count 2, {
    0 => { |s| X11::V0(Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s)) } X11::V0(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10), X11::V0(x0b, x1b, x2b, x3b, x4b, x5b, x6b, x7b, x8b, x9b, x10b) => [x0 x0b: u64, x1 x1b: u64, x2 x2b: u64, x3 x3b: u64, x4 x4b: u64, x5 x5b: u64, x6 x6b: u64, x7 x7b: u64, x8 x8b: u64, x9 x9b: u64, x10 x10b: u64];
    1 => { |_| X11::V1 } X11::V1, X11::V1 => [];
});
#[derive(Clone, Debug, Default, SlabItem)]
pub enum X12 {
    #[default]
    V0,
    V1(u32, PhantomData<u64>, Option<u32>, Option<u32>, u64, u32, u32, u32, u128, u128, u128, u128),
}
gen_enum!(X12, 1 + 26, default X12::V0, count 2, {
    0 => { |_| X12::V0 } X12::V0, X12::V0 => [];
    1 => { |s| X12::V1(Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s)) } X12::V1(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11), X12::V1(x0b, x1b, x2b, x3b, x4b, x5b, x6b, x7b, x8b, x9b, x10b, x11b) => [x0 x0b: u32, x1 x1b: PhantomData<u64>, x2 x2b: Option<u32>, x3 x3b: Option<u32>, x4 x4b: u64, x5 x5b: u32, x6 x6b: u32, x7 x7b: u32, x8 x8b: u128, x9 x9b: u128, x10 x10b: u128, x11 x11b: u128];
});
#[derive(Clone, Debug, Default, SlabItem)]
pub enum X13 {
    #[default]
    V0,
    V1(Array<u8>, Array<u8>, Array<u8>, u32, f64, f64, f64, f64, u16, u16, u16, u16, u16, u32),
}
gen_enum!(X13, 1 + 21, default X13::V0, count 2, {
    0 => { |_| X13::V0 } X13::V0, X13::V0 => [];
    1 => { |s| X13::V1(Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s)) } X13::V1(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13), X13::V1(x0b, x1b, x2b, x3b, x4b, x5b, x6b, x7b, x8b, x9b, x10b, x11b, x12b, x13b) => [x0 x0b: Array<u8>, x1 x1b: Array<u8>, x2 x2b: Array<u8>, x3 x3b: u32, x4 x4b: f64, x5 x5b: f64, x6 x6b: f64, x7 x7b: f64, x8 x8b: u16, x9 x9b: u16, x10 x10b: u16, x11 x11b: u16, x12 x12b: u16, x13 x13b: u32];
});
#[derive(Clone, Debug, Default, SlabItem)]
pub enum X14 {
    #[default]
    V0,
    V1(PhantomData<u8>),
    V2,
}
gen_enum!(X14, 1 + 0, default X14::V0, count 3, {
    0 => { |_| X14::V0 } X14::V0, X14::V0 => [];
    1 => { |s| X14::V1(Gen::gen(s)) } X14::V1(x0), X14::V1(x0b) => [x0 x0b: PhantomData<u8>];
    2 => { |_| X14::V2 } X14::V2, X14::V2 => [];
});
#[derive(Clone, Debug, Default, SlabItem)]
pub enum X15 {
    V0(u32),
    V1,
    #[default]
    V2,
    V3 { y: u128, first: glam::Vec2, words: glam::Vec2, e: u16 },
}
gen_enum!(X15, 1 + 9, default X15::V2, count 4, {
    0 => { |s| X15::V0(Gen::gen(s)) } X15::V0(x0), X15::V0(x0b) => [x0 x0b: u32];
    1 => { |_| X15::V1 } X15::V1, X15::V1 => [];
    2 => { |_| X15::V2 } X15::V2, X15::V2 => [];
    3 => { |s| X15::V3 { y: Gen::gen(s), first: Gen::gen(s), words: Gen::gen(s), e: Gen::gen(s) } } X15::V3 { y: x0, first: x1, words: x2, e: x3 }, X15::V3 { y: x0b, first: x1b, words: x2b, e: x3b } => [x0 x0b: u128, x1 x1b: glam::Vec2, x2 x2b: glam::Vec2, x3 x3b: u16];
});
#[derive(Clone, Debug, Default, SlabItem)]
pub enum X16 {
    V0 { it: f64 },
    V1 { ty: Array<u8>, more: u8, outer: u8, data: u8 },
    V2 { uv: Option<PhantomData<u8>>, hash: u32, age: Option<u32>, value: Option<u32> },
    V3,
    #[default]
    V4,
}
gen_enum!(X16, 1 + 6, default X16::V4, count 5, {
    0 => { |s| X16::V0 { it: Gen::gen(s) } } X16::V0 { it: x0 }, X16::V0 { it: x0b } => [x0 x0b: f64];
    1 => { |s| X16::V1 { ty: Gen::gen(s), more: Gen::gen(s), outer: Gen::gen(s), data: Gen::gen(s) } } X16::V1 { ty: x0, more: x1, outer: x2, data: x3 }, X16::V1 { ty: x0b, more: x1b, outer: x2b, data: x3b } => [x0 x0b: Array<u8>, x1 x1b: u8, x2 x2b: u8, x3 x3b: u8];
    2 => { |s| X16::V2 { uv: Gen::gen(s), hash: Gen::gen(s), age: Gen::gen(s), value: Gen::gen(s) } } X16::V2 { uv: x0, hash: x1, age: x2, value: x3 }, X16::V2 { uv: x0b, hash: x1b, age: x2b, value: x3b } => [x0 x0b: Option<PhantomData<u8>>, x1 x1b: u32, x2 x2b: Option<u32>, x3 x3b: Option<u32>];
    3 => { |_| X16::V3 } X16::V3, X16::V3 => [];
    4 => { |_| X16::V4 } X16::V4, X16::V4 => [];
});
#[derive(Clone, Debug, Default, SlabItem)]
pub enum X17 {
    #[default]
    V0,
    V1,
    V2,
    V3(u32, u128, f32, f32),
    V4 { words: u64, normal: u64, flags: u64, data: u64, first: u64, len: Option<u64> },
    V5 { other: S2, __x: S2, name: S2 },
}
gen_enum!(X17, 1 + 13, default X17::V0, count 6, {
    0 => { |_| X17::V0 } X17::V0, X17::V0 => [];
    1 => { |_| X17::V1 } X17::V1, X17::V1 => [];
    2 => { |_| X17::V2 } X17::V2, X17::V2 => [];
    3 => { |s| X17::V3(Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s)) } X17::V3(x0, x1, x2, x3), X17::V3(x0b, x1b, x2b, x3b) => [x0 x0b: u32, x1 x1b: u128, x2 x2b: f32, x3 x3b: f32];
    4 => { |s| X17::V4 { words: Gen::gen(s), normal: Gen::gen(s), flags: Gen::gen(s), data: Gen::gen(s), first: Gen::gen(s), len: Gen::gen(s) } } X17::V4 { words: x0, normal: x1, flags: x2, data: x3, first: x4, len: x5 }, X17::V4 { words: x0b, normal: x1b, flags: x2b, data: x3b, first: x4b, len: x5b } => [x0 x0b: u64, x1 x1b: u64, x2 x2b: u64, x3 x3b: u64, x4 x4b: u64, x5 x5b: Option<u64>];
    5 => { |s| X17::V5 { other: Gen::gen(s), __x: Gen::gen(s), name: Gen::gen(s) } } X17::V5 { other: x0, __x: x1, name: x2 }, X17::V5 { other: x0b, __x: x1b, name: x2b } => [x0 x0b: S2, x1 x1b: S2, x2 x2b: S2];
});
#[derive(Clone, Debug, Default, SlabItem)]
pub enum X18 {
    V0 { d: PhantomData<u8>, words: PhantomData<u8> },
    V1([u32; 0], T2, T2),
    V2,
    V3 { it: S2 },
    #[default]
    V4,
    V5([u64; 4], PhantomData<u8>, PhantomData<u8>, PhantomData<u8>, PhantomData<u8>, PhantomData<u8>),
    V6,
    V7,
}
gen_enum!(X18, 1 + 8, default X18::V4, count 8, {
    0 => { |s| X18::V0 { d: Gen::gen(s), words: Gen::gen(s) } } X18::V0 { d: x0, words: x1 }, X18::V0 { d: x0b, words: x1b } => [x0 x0b: PhantomData<u8>, x1 x1b: PhantomData<u8>];
    1 => { |s| X18::V1(Gen::gen(s), Gen::gen(s), Gen::gen(s)) } X18::V1(x0, x1, x2), X18::V1(x0b, x1b, x2b) => [x0 x0b: [u32; 0], x1 x1b: T2, x2 x2b: T2];
    2 => { |_| X18::V2 } X18::V2, X18::V2 => [];
    3 => { |s| X18::V3 { it: Gen::gen(s) } } X18::V3 { it: x0 }, X18::V3 { it: x0b } => [x0 x0b: S2];
    4 => { |_| X18::V4 } X18::V4, X18::V4 => [];
    5 => { |s| X18::V5(Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s)) } X18::V5(x0, x1, x2, x3, x4, x5), X18::V5(x0b, x1b, x2b, x3b, x4b, x5b) => [x0 x0b: [u64; 4], x1 x1b: PhantomData<u8>, x2 x2b: PhantomData<u8>, x3 x3b: PhantomData<u8>, x4 x4b: PhantomData<u8>, x5 x5b: PhantomData<u8>];
    6 => { |_| X18::V6 } X18::V6, X18::V6 => [];
    7 => { |_| X18::V7 } X18::V7, X18::V7 => [];
});
#[derive(Clone, Debug, Default, SlabItem)]
pub enum X19 {
    V0 { name: f64, __x: bool, outer: f32, uv: Array<u8>, right: u64, d: u64 },
    V1 { right: u64, y: u64, position: glam::Vec2, more: u32, a1: (u8, u64), ty: (u8, u64) },
    V2 { __x: f32 },
    V3,
    V4(PhantomData<u8>),
    #[default]
    V5,
    V6 { mid: f32 },
    V7 { right: EUnit },
    V8 { last: Id<S2> },
    V9,
}
gen_enum!(X19, 1 + 13, default X19::V5, count 10, {
    0 => { |s| X19::V0 { name: Gen::gen(s), __x: Gen::gen(s), outer: Gen::gen(s), uv: Gen::gen(s), right: Gen::gen(s), d: Gen::gen(s) } } X19::V0 { name: x0, __x: x1, outer: x2, uv: x3, right: x4, d: x5 }, X19::V0 { name: x0b, __x: x1b, outer: x2b, uv: x3b, right: x4b, d: x5b } => [x0 x0b: f64, x1 x1b: bool, x2 x2b: f32, x3 x3b: Array<u8>, x4 x4b: u64, x5 x5b: u64];
    1 => { |s| X19::V1 { right: Gen::gen(s), y: Gen::gen(s), position: Gen::gen(s), more: Gen::gen(s), a1: Gen::gen(s), ty: Gen::gen(s) } } X19::V1 { right: x0, y: x1, position: x2, more: x3, a1: x4, ty: x5 }, X19::V1 { right: x0b, y: x1b, position: x2b, more: x3b, a1: x4b, ty: x5b } => [x0 x0b: u64, x1 x1b: u64, x2 x2b: glam::Vec2, x3 x3b: u32, x4 x4b: (u8, u64), x5 x5b: (u8, u64)];
    2 => { |s| X19::V2 { __x: Gen::gen(s) } } X19::V2 { __x: x0 }, X19::V2 { __x: x0b } => [x0 x0b: f32];
    3 => { |_| X19::V3 } X19::V3, X19::V3 => [];
    4 => { |s| X19::V4(Gen::gen(s)) } X19::V4(x0), X19::V4(x0b) => [x0 x0b: PhantomData<u8>];
    5 => { |_| X19::V5 } X19::V5, X19::V5 => [];
    6 => { |s| X19::V6 { mid: Gen::gen(s) } } X19::V6 { mid: x0 }, X19::V6 { mid: x0b } => [x0 x0b: f32];
    7 => { |s| X19::V7 { right: Gen::gen(s) } } X19::V7 { right: x0 }, X19::V7 { right: x0b } => [x0 x0b: EUnit];
    8 => { |s| X19::V8 { last: Gen::gen(s) } } X19::V8 { last: x0 }, X19::V8 { last: x0b } => [x0 x0b: Id<S2>];
    9 => { |_| X19::V9 } X19::V9, X19::V9 => [];
});
#[derive(Clone, Debug, Default, SlabItem)]
pub enum X20 {
    #[default]
    V0,
    V1(u64, u64, glam::Vec3),
    V2 { w: f32, data: f32 },
    V3,
    V4(glam::Vec2),
    V5([u32; 0], u64),
    V6(PhantomData<u8>),
    V7(u64, u64, u64),
    V8(T2, T2, T2, PhantomData<u8>, glam::Vec2, Option<u32>),
    V9,
    V10,
    V11 { y: u128, outer: u64, count: u16 },
}
gen_enum!(X20, 1 + 13, default X20::V0, count 12, {
    0 => { |_| X20::V0 } X20::V0, X20::V0 => [];
    1 => { |s| X20::V1(Gen::gen(s), Gen::gen(s), Gen::gen(s)) } X20::V1(x0, x1, x2), X20::V1(x0b, x1b, x2b) => [x0 x0b: u64, x1 x1b: u64, x2 x2b: glam::Vec3];
    2 => { |s| X20::V2 { w: Gen::gen(s), data: Gen::gen(s) } } X20::V2 { w: x0, data: x1 }, X20::V2 { w: x0b, data: x1b } => [x0 x0b: f32, x1 x1b: f32];
    3 => { |_| X20::V3 } X20::V3, X20::V3 => [];
    4 => { |s| X20::V4(Gen::gen(s)) } X20::V4(x0), X20::V4(x0b) => [x0 x0b: glam::Vec2];
    5 => { |s| X20::V5(Gen::gen(s), Gen::gen(s)) } X20::V5(x0, x1), X20::V5(x0b, x1b) => [x0 x0b: [u32; 0], x1 x1b: u64];
    6 => { |s| X20::V6(Gen::gen(s)) } X20::V6(x0), X20::V6(x0b) => [x0 x0b: PhantomData<u8>];
    7 => { |s| X20::V7(Gen::gen(s), Gen::gen(s), Gen::gen(s)) } X20::V7(x0, x1, x2), X20::V7(x0b, x1b, x2b) => [x0 x0b: u64, x1 x1b: u64, x2 x2b: u64];
    8 => { |s| X20::V8(Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s)) } X20::V8(x0, x1, x2, x3, x4, x5), X20::V8(x0b, x1b, x2b, x3b, x4b, x5b) => [x0 x0b: T2, x1 x1b: T2, x2 x2b: T2, x3 x3b: PhantomData<u8>, x4 x4b: glam::Vec2, x5 x5b: Option<u32>];
    9 => { |_| X20::V9 } X20::V9, X20::V9 => [];
    10 => { |_| X20::V10 } X20::V10, X20::V10 => [];
    11 => { |s| X20::V11 { y: Gen::gen(s), outer: Gen::gen(s), count: Gen::gen(s) } } X20::V11 { y: x0, outer: x1, count: x2 }, X20::V11 { y: x0b, outer: x1b, count: x2b } => [x0 x0b: u128, x1 x1b: u64, x2 x2b: u16];
});
#[derive(Clone, Debug, Default, SlabItem)]
pub enum X21 {
    V0(PhantomData<u8>, u32, u32, i64, glam::UVec4, glam::UVec4),
    V1(f32),
    V2(Option<PhantomData<u8>>, Option<PhantomData<u8>>, Option<u64>, Option<u64>, Id<u8>, Id<u8>),
    V3 { inner: u32, uv: u64, far: u64 },
    V4,
    #[default]
    V5,
    V6,
    V7,
    V8 { other: u32, c: u32, data: u32, y: u32, a2: u32, age: u32 },
    V9 { far: Id<S2> },
    V10(PhantomData<u64>, PhantomData<u64>, PhantomData<u64>, PhantomData<u64>, PhantomData<u64>, PhantomData<u64>),
    V11(EUnit),
    V12,
    V13(EMixed),
    V14,
    V15 { f: u32 },
    V16,
    V17,
}
gen_enum!(X21, 1 + 12, default X21::V5, count 18, {
    0 => { |s| X21::V0(Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s)) } X21::V0(x0, x1, x2, x3, x4, x5), X21::V0(x0b, x1b, x2b, x3b, x4b, x5b) => [x0 x0b: PhantomData<u8>, x1 x1b: u32, x2 x2b: u32, x3 x3b: i64, x4 x4b: glam::UVec4, x5 x5b: glam::UVec4];
    1 => { |s| X21::V1(Gen::gen(s)) } X21::V1(x0), X21::V1(x0b) => [x0 x0b: f32];
    2 => { |s| X21::V2(Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s)) } X21::V2(x0, x1, x2, x3, x4, x5), X21::V2(x0b, x1b, x2b, x3b, x4b, x5b) => [x0 x0b: Option<PhantomData<u8>>, x1 x1b: Option<PhantomData<u8>>, x2 x2b: Option<u64>, x3 x3b: Option<u64>, x4 x4b: Id<u8>, x5 x5b: Id<u8>];
    3 => { |s| X21::V3 { inner: Gen::gen(s), uv: Gen::gen(s), far: Gen::gen(s) } } X21::V3 { inner: x0, uv: x1, far: x2 }, X21::V3 { inner: x0b, uv: x1b, far: x2b } => [x0 x0b: u32, x1 x1b: u64, x2 x2b: u64];
    4 => { |_| X21::V4 } X21::V4, X21::V4 => [];
    5 => { |_| X21::V5 } X21::V5, X21::V5 => [];
    6 => { |_| X21::V6 } X21::V6, X21::V6 => [];
    7 => { |_| X21::V7 } X21::V7, X21::V7 => [];
    8 => { |s| X21::V8 { other: Gen::gen(s), c: Gen::gen(s), data: Gen::gen(s), y: Gen::gen(s), a2: Gen::gen(s), age: Gen::gen(s) } } X21::V8 { other: x0, c: x1, data: x2, y: x3, a2: x4, age: x5 }, X21::V8 { other: x0b, c: x1b, data: x2b, y: x3b, a2: x4b, age: x5b } => [x0 x0b: u32, x1 x1b: u32, x2 x2b: u32, x3 x3b: u32, x4 x4b: u32, x5 x5b: u32];
    9 => { |s| X21::V9 { far: Gen::gen(s) } } X21::V9 { far: x0 }, X21::V9 { far: x0b } => [x0 x0b: Id<S2>];
    10 => { |s| X21::V10(Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s)) } X21::V10(x0, x1, x2, x3, x4, x5), X21::V10(x0b, x1b, x2b, x3b, x4b, x5b) => [x0 x0b: PhantomData<u64>, x1 x1b: PhantomData<u64>, x2 x2b: PhantomData<u64>, x3 x3b: PhantomData<u64>, x4 x4b: PhantomData<u64>, x5 x5b: PhantomData<u64>];
    11 => { |s| X21::V11(Gen::gen(s)) } X21::V11(x0), X21::V11(x0b) => [x0 x0b: EUnit];
    12 => { |_| X21::V12 } X21::V12, X21::V12 => [];
    13 => { |s| X21::V13(Gen::gen(s)) } X21::V13(x0), X21::V13(x0b) => [x0 x0b: EMixed];
    14 => { |_| X21::V14 } X21::V14, X21::V14 => [];
    15 => { |s| X21::V15 { f: Gen::gen(s) } } X21::V15 { f: x0 }, X21::V15 { f: x0b } => [x0 x0b: u32];
    16 => { |_| X21::V16 } X21::V16, X21::V16 => [];
    17 => { |_| X21::V17 } X21::V17, X21::V17 => [];
});

#[macro_export]
macro_rules! more_structs {
    ($m:ident) => {
        $m! { m0: derived_more::M0; m1: derived_more::M1; m2: derived_more::M2; m3: derived_more::M3; m4: derived_more::M4; m5: derived_more::M5; m6: derived_more::M6; m7: derived_more::M7; m8: derived_more::M8; m9: derived_more::M9; m10: derived_more::M10; m11: derived_more::M11; m12: derived_more::M12; m13: derived_more::M13; m14: derived_more::M14; m15: derived_more::M15; m16: derived_more::M16; m17: derived_more::M17; m18: derived_more::M18; m19: derived_more::M19; m20: derived_more::M20; m21: derived_more::M21; m22: derived_more::M22; m23: derived_more::M23; m24: derived_more::M24; m25: derived_more::M25; }
    };
}
#[macro_export]
macro_rules! more_enums {
    ($m:ident) => {
        $m! { x0: derived_more::X0; x1: derived_more::X1; x2: derived_more::X2; x3: derived_more::X3; x4: derived_more::X4; x5: derived_more::X5; x6: derived_more::X6; x7: derived_more::X7; x8: derived_more::X8; x9: derived_more::X9; x10: derived_more::X10; x11: derived_more::X11; x12: derived_more::X12; x13: derived_more::X13; x14: derived_more::X14; x15: derived_more::X15; x16: derived_more::X16; x17: derived_more::X17; x18: derived_more::X18; x19: derived_more::X19; x20: derived_more::X20; x21: derived_more::X21; }
    };
}
