//! C01, C02, C03, C04: contracts of `SlabItem` implementations.
use crate::gen::Gen;
use crate::src::Src;

/// Round trip at an arbitrary index of an arbitrary slab.
pub fn round_trip<T: Gen, S: Src>(slab: &mut [u32], s: &mut S) {
    let index = s.below((slab.len() - T::WANT + 1) as u32) as usize;
    let v = T::gen(s);
    v.write_slab(index, slab);
    s.check(T::read_slab(index, slab).same(&v), "reading back at the index gives the value written");
    if index > 0 {
        slab[index - 1] = s.word();
    }
    if index + T::WANT < slab.len() {
        slab[index + T::WANT] = s.word();
    }
    s.check(
        T::read_slab(index, slab).same(&v),
        "reading back gives the value written whatever its neighbours hold",
    );
}

/// Size, frame, returned index, and locality of reads.
pub fn footprint<T: Gen, S: Src>(slab: &mut [u32], before: &mut [u32], s: &mut S) {
    s.check(T::SLAB_SIZE == T::WANT, "SLAB_SIZE is the specified number of words");
    if T::SLAB_SIZE != T::WANT || slab.len() < T::WANT {
        return;
    }
    let index = s.below((slab.len() - T::WANT + 1) as u32) as usize;
    // reads depend only on the item's own words
    let a = T::read_slab(index, slab);
    let b = T::read_slab(0, &slab[index..index + T::WANT]);
    s.check(a.same(&b), "a read depends only on the SLAB_SIZE words at its index");
    before.copy_from_slice(slab);
    let v = T::gen(s);
    let next = v.write_slab(index, slab);
    s.check(next == index + T::WANT, "write_slab returns index + SLAB_SIZE");
    s.check(slab.len() == before.len(), "the slab keeps its length");
    let same = slab[..index] == before[..index] && slab[index + T::WANT..] == before[index + T::WANT..];
    s.check(same, "no word outside the footprint changes");
    v.layout(&slab[index..index + T::WANT], s);
}

/// Everything at once, for derived types.
pub fn derived<T: Gen, S: Src>(slab: &mut [u32], before: &mut [u32], s: &mut S) {
    footprint::<T, S>(slab, before, s);
    if T::SLAB_SIZE == T::WANT && slab.len() >= T::WANT {
        round_trip::<T, S>(slab, s);
    }
}

/// Calls `$run::<T>()` for every built-in item type under contract.
#[macro_export]
macro_rules! builtin_types {
    ($m:ident) => {
        $m! {
            u8: u8; i8: i8; u16: u16; i16: i16; u32: u32; i32: i32; u64: u64; i64: i64; u128: u128; i128: i128;
            f32: f32; f64: f64; bool: bool;
            id: crabslab::Id<f64>; array: crabslab::Array<u64>; phantom: core::marker::PhantomData<u64>;
            uvec2: glam::UVec2; uvec3: glam::UVec3; uvec4: glam::UVec4;
            vec2: glam::Vec2; vec3: glam::Vec3; vec4: glam::Vec4; quat: glam::Quat; mat4: glam::Mat4;
            opt_u8: Option<u8>; opt_i64: Option<i64>; opt_f32: Option<f32>; opt_opt_bool: Option<Option<bool>>;
            opt_id: Option<crabslab::Id<u32>>; opt_vec3: Option<glam::Vec3>; opt_arr: Option<[i16; 2]>; opt_tup: Option<(u8, u64)>;
            arr_u32_0: [u32; 0]; arr_u8_1: [u8; 1]; arr_i16_3: [i16; 3]; arr_u64_2: [u64; 2]; arr_f32_4: [f32; 4];
            arr_arr: [[i8; 2]; 3]; arr_opt: [Option<u16>; 3]; arr_vec2: [glam::Vec2; 2]; arr_i128: [i128; 2]; arr_tup: [(bool, u64); 2];
            arr_f64_7: [f64; 7];
            tup1: (u64,); tup2: (u8, i64); tup3: (Option<u32>, [u16; 2], f64); tup4: (bool, u128, i8, glam::Vec3);
            tup5: (u8, u16, u32, u64, u128); tup6: (i8, i16, i32, i64, i128, f32);
            tup7: (f64, bool, u64, crabslab::Id<u8>, crabslab::Array<f32>, i8, u16);
            tup8: (u32, u64, u32, u64, u32, u64, u32, u64);
            tup9: (u8, u64, u8, u64, u8, u64, u8, u64, u8);
            tup10: (u64, i64, f64, u32, i32, f32, bool, Option<u64>, [u8; 3], u128);
            tup11: (i8, u64, i8, u64, i8, u64, i8, u64, i8, u64, i8);
            tup12: (u32, u64, u32, i64, f32, f64, u8, u128, bool, i128, u16, i16);
            tup13: (u64, u8, i64, i8, u128, u16, i128, i16, f64, f32, bool, u32, i32);
            tup_nested: ((u8, u64), ((i16, f64), bool), core::marker::PhantomData<u8>, Option<(u32, i64)>);
            tup_phantom: (core::marker::PhantomData<f32>, u64, core::marker::PhantomData<u8>, u8);
        }
    };
}
