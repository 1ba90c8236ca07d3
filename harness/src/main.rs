//! Runs the contract harnesses natively: search for a failing input, and replay of one.
mod alloc;
#[macro_use]
mod derived;
mod derived_more;
mod built_more;
mod gen;
mod items;
mod ranges;
mod slabs;
mod src;
mod engine;

use derived::*;
use engine::{Harness, Native};
use src::Src;

fn with_slab<const MAX: usize>(want: usize, s: &mut Native, f: impl FnOnce(&mut [u32], &mut [u32], &mut Native)) {
    let mut slab: Vec<u32> = if s.below(2048) == 2047 {
        slabs::long(want, s)
    } else {
        let n = want + s.below(5) as usize;
        (0..n).map(|_| s.word()).collect()
    };
    let mut before = slab.clone();
    f(&mut slab, &mut before, s)
}

pub fn harnesses(prop: &str) -> Vec<Harness> {
    let mut v: Vec<Harness> = vec![];
    macro_rules! add {
        ($name:expr, $f:expr) => { add!($name, $f, 1, 0) };
        ($name:expr, $f:expr, $w:expr, $ex:expr) => {
            v.push(Harness { name: format!("{}/{}", prop, $name), f: $f, weight: $w, exhaustive: $ex })
        };
    }
    macro_rules! c01 { ($($n:ident : $t:ty;)*) => { $( add!(stringify!($n), |s| with_slab::<0>(<$t as gen::Gen>::WANT.max(<$t as crabslab::SlabItem>::SLAB_SIZE), s, |a, _, s| items::round_trip::<$t, _>(a, s))); )* } }
    macro_rules! c02 { ($($n:ident : $t:ty;)*) => { $( add!(stringify!($n), |s| with_slab::<0>(<$t as gen::Gen>::WANT, s, |a, b, s| items::footprint::<$t, _>(a, b, s))); )* } }
    macro_rules! c03 { ($($n:ident : $t:ty;)*) => { $( add!(stringify!($n), |s| with_slab::<0>(<$t as gen::Gen>::WANT, s, |a, b, s| items::derived::<$t, _>(a, b, s))); )* } }
    macro_rules! c04 { ($($n:ident : $t:ty;)*) => { $( add!(stringify!($n), |s| <$t as gen::Gen>::offsets(s)); )* } }
    macro_rules! c05 { ($($n:ident : $t:ty;)*) => { $( add!(stringify!($n), |s| slabs::checked_read::<$t, _>(s)); )* } }
    macro_rules! c06 { ($($n:ident : $t:ty;)*) => { $( add!(stringify!($n), |s| slabs::slices::<$t, _>(s)); )* } }
    macro_rules! c08 { ($($n:ident : $t:ty;)*) => { $( add!(concat!("array_", stringify!($n)), |s| slabs::array_handle::<$t, _>(s)); add!(concat!("sub_slab_", stringify!($n)), |s| slabs::sub_slab::<$t, _>(s)); )* } }
    macro_rules! few_types { ($m:ident) => { $m! {
        u32: u32; u64: u64; phantom: core::marker::PhantomData<u8>; tup: (u8, u64); opt: Option<i64>; arr: [u32; 3]; vec2: glam::Vec2; vec4: glam::Vec4;
        bool: bool; id: crabslab::Id<u8>; array: crabslab::Array<u8>; s2: S2; emixed: EMixed;
        mat4: glam::Mat4; nine: [u32; 9]; twelve: [u64; 6]; seven: (u32, [u64; 3]); five: (u128, u8); many: [u32; 32];
    } } }
    match prop {
        "C01" => { builtin_types!(c01); built_more!(c01); }
        "C02" => { builtin_types!(c02); built_more!(c02); }
        "C03" => { derived_structs!(c03); derived_enums!(c03); more_structs!(c03); more_enums!(c03); }
        "C04" => { derived_structs!(c04); more_structs!(c04); add!("far", |s| far_offsets(s)); }
        "C05" => { few_types!(c05); }
        "C06" => { few_types!(c06); }
        "C07" => {
            add!("growable", |s| slabs::growable(s), 4, 0);
            add!("expand_huge", |s| slabs::expand_huge(s));
        }
        "C08" => {
            few_types!(c08);
            add!("word_arrays", |s| slabs::word_arrays(s), 2, 0);
            add!("ids", |s| slabs::ids(s), 2, 0);
            add!("id_sums", |s| slabs::id_sums(s), 2, 0);
        }
        "C09" => {
            add!("enumerate", |s| ranges::free_ranges(0, 4, 4, s), 2, 400_000);
            add!("small", |s| { let n = s.below(24); ranges::free_ranges(10, 24, n, s) }, 4, 0);
            add!("wide", |s| { let n = s.below(16); ranges::free_ranges_wide(n, s) }, 4, 0);
            add!("many", |s| { let n = s.below(800); ranges::free_ranges(0, 4000, n, s) }, 1, 0);
            add!("laws", |s| ranges::range_laws(s), 1, 0);
        }
        "C10" => {
            add!("enumerate", |s| ranges::updates(4, 3, s), 2, 400_000);
            add!("small", |s| { let n = s.below(9); ranges::updates(16, n, s) }, 4, 0);
            add!("long", |s| { let n = s.below(24); ranges::updates(64, n, s) }, 2, 0);
            add!("many", |s| { let n = s.below(800); ranges::updates(4000, n, s) }, 1, 0);
        }
        "C11" => {
            add!("small", |s| alloc::history(alloc::P::C11, 24, true, false, s), 2, 0);
            add!("mixed", |s| alloc::history(alloc::P::C11, 32, false, false, s), 4, 0);
            add!("history", |s| alloc::history(alloc::P::C11, 40, false, true, s), 3, 0);
            add!("handles", |s| alloc::handles(alloc::P::C11, s), 1, 0);
            add!("crowd", |s| alloc::crowd(alloc::P::C11, s), 1, 0);
            add!("growth", |s| alloc::growth(alloc::P::C11, s), 1, 0);
        }
        "C12" => {
            add!("small", |s| alloc::history(alloc::P::C12, 24, true, false, s), 2, 0);
            add!("mixed", |s| alloc::history(alloc::P::C12, 32, false, false, s), 4, 0);
            add!("history", |s| alloc::history(alloc::P::C12, 40, false, true, s), 3, 0);
            add!("handles", |s| alloc::handles(alloc::P::C12, s), 1, 0);
            add!("crowd", |s| alloc::crowd(alloc::P::C12, s), 1, 0);
        }
        "C13" => {
            add!("small", |s| alloc::history(alloc::P::C13, 24, true, false, s), 2, 0);
            add!("mixed", |s| alloc::history(alloc::P::C13, 32, false, false, s), 4, 0);
            add!("history", |s| alloc::history(alloc::P::C13, 40, false, true, s), 3, 0);
            add!("handles", |s| alloc::handles(alloc::P::C13, s), 1, 0);
            add!("crowd", |s| alloc::crowd(alloc::P::C13, s), 1, 0);
            add!("runtime", |s| alloc::runtime(s), 1, 0);
            add!("growth", |s| alloc::growth(alloc::P::C13, s), 1, 0);
        }
        "C14" => {
            add!("small", |s| alloc::history(alloc::P::C14, 24, true, false, s), 2, 0);
            add!("mixed", |s| alloc::history(alloc::P::C14, 32, false, false, s), 4, 0);
            add!("history", |s| alloc::history(alloc::P::C14, 40, false, true, s), 3, 0);
            add!("crowd", |s| alloc::crowd(alloc::P::C14, s), 1, 0);
            add!("runtime", |s| alloc::runtime(s), 1, 0);
            add!("growth", |s| alloc::growth(alloc::P::C14, s), 1, 0);
        }
        "C15" => {
            add!("small", |s| alloc::history(alloc::P::C15, 24, true, false, s), 2, 0);
            add!("mixed", |s| alloc::history(alloc::P::C15, 32, false, false, s), 4, 0);
            add!("history", |s| alloc::history(alloc::P::C15, 40, false, true, s), 3, 0);
            add!("handles", |s| alloc::handles(alloc::P::C15, s), 1, 0);
            add!("arrays", |s| alloc::arrays(s), 2, 0);
        }
        "C16" => { add!("read_range", |s| alloc::read_range(s), 1, 2_000_000); }
        "C17" => {
            add!("small", |s| alloc::history(alloc::P::C17, 24, true, false, s), 2, 0);
            add!("mixed", |s| alloc::history(alloc::P::C17, 32, false, false, s), 4, 0);
            add!("history", |s| alloc::history(alloc::P::C17, 40, false, true, s), 3, 0);
            add!("crowd", |s| alloc::crowd(alloc::P::C17, s), 1, 0);
        }
        _ => {}
    }
    v
}

fn main() {
    engine::main()
}
