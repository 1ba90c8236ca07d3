//! Items: how to make one, how to compare two, and how many words it should take.
use crate::src::Src;
use core::marker::PhantomData;
use crabslab::{Array, Id, SlabItem};

/// An item type under contract. `WANT` is the specified size in words and is written
/// independently of the implementation.
pub trait Gen: SlabItem {
    const WANT: usize;
    fn gen<S: Src>(s: &mut S) -> Self;
    fn same(&self, other: &Self) -> bool;
    /// Layout obligations beyond the round trip (derived types only).
    fn layout<S: Src>(&self, _words: &[u32], _s: &mut S) {}
    /// The constants generated by the derive (derived types only).
    fn offsets<S: Src>(_s: &mut S) {}
}

macro_rules! gen_prim {
    ($t:ty, $want:expr, $s:ident => $e:expr, $a:ident $b:ident => $same:expr) => {
        impl Gen for $t {
            const WANT: usize = $want;
            fn gen<S: Src>($s: &mut S) -> Self {
                $e
            }
            fn same(&self, other: &Self) -> bool {
                let ($a, $b) = (self, other);
                $same
            }
        }
    };
}
gen_prim!(u8, 1, s => s.word() as u8, a b => a == b);
gen_prim!(i8, 1, s => s.word() as i8, a b => a == b);
gen_prim!(u16, 1, s => s.word() as u16, a b => a == b);
gen_prim!(i16, 1, s => s.word() as i16, a b => a == b);
gen_prim!(u32, 1, s => s.word(), a b => a == b);
gen_prim!(i32, 1, s => s.word() as i32, a b => a == b);
gen_prim!(u64, 2, s => s.w64(), a b => a == b);
gen_prim!(i64, 2, s => s.w64() as i64, a b => a == b);
gen_prim!(u128, 4, s => s.w128(), a b => a == b);
gen_prim!(i128, 4, s => s.w128() as i128, a b => a == b);
gen_prim!(f32, 1, s => f32::from_bits(s.word()), a b => a.to_bits() == b.to_bits());
gen_prim!(f64, 2, s => f64::from_bits(s.w64()), a b => a.to_bits() == b.to_bits());
gen_prim!(bool, 1, s => s.flip(), a b => a == b);
gen_prim!(glam::UVec2, 2, s => glam::UVec2 { x: s.word(), y: s.word() }, a b => a.x == b.x && a.y == b.y);
gen_prim!(glam::UVec3, 3, s => glam::UVec3 { x: s.word(), y: s.word(), z: s.word() },
    a b => a.x == b.x && a.y == b.y && a.z == b.z);
gen_prim!(glam::UVec4, 4, s => glam::UVec4 { x: s.word(), y: s.word(), z: s.word(), w: s.word() },
    a b => a.x == b.x && a.y == b.y && a.z == b.z && a.w == b.w);
gen_prim!(glam::Vec2, 2, s => glam::Vec2 { x: f32::gen(s), y: f32::gen(s) }, a b => a.x.same(&b.x) && a.y.same(&b.y));
gen_prim!(glam::Vec3, 3, s => glam::Vec3 { x: f32::gen(s), y: f32::gen(s), z: f32::gen(s) },
    a b => a.x.same(&b.x) && a.y.same(&b.y) && a.z.same(&b.z));
gen_prim!(glam::Vec4, 4, s => glam::Vec4::new(f32::gen(s), f32::gen(s), f32::gen(s), f32::gen(s)),
    a b => a.x.same(&b.x) && a.y.same(&b.y) && a.z.same(&b.z) && a.w.same(&b.w));
gen_prim!(glam::Quat, 4, s => glam::Quat::from_xyzw(f32::gen(s), f32::gen(s), f32::gen(s), f32::gen(s)),
    a b => a.x.same(&b.x) && a.y.same(&b.y) && a.z.same(&b.z) && a.w.same(&b.w));
gen_prim!(glam::Mat4, 16,
    s => glam::Mat4::from_cols(Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s)),
    a b => a.x_axis.same(&b.x_axis) && a.y_axis.same(&b.y_axis) && a.z_axis.same(&b.z_axis) && a.w_axis.same(&b.w_axis));

impl<T: Gen> Gen for Id<T> {
    const WANT: usize = 1;
    fn gen<S: Src>(s: &mut S) -> Self {
        Id::new(s.word())
    }
    fn same(&self, other: &Self) -> bool {
        self.inner() == other.inner()
    }
}
impl<T: Gen> Gen for Array<T> {
    const WANT: usize = 2;
    fn gen<S: Src>(s: &mut S) -> Self {
        Array::new(s.word(), s.word())
    }
    fn same(&self, other: &Self) -> bool {
        self.index == other.index && self.len == other.len
    }
}
impl<T: Gen> Gen for PhantomData<T> {
    const WANT: usize = 0;
    fn gen<S: Src>(_: &mut S) -> Self {
        PhantomData
    }
    fn same(&self, _: &Self) -> bool {
        true
    }
}
impl<T: Gen + Default> Gen for Option<T> {
    const WANT: usize = 1 + T::WANT;
    fn gen<S: Src>(s: &mut S) -> Self {
        if s.flip() {
            Some(T::gen(s))
        } else {
            None
        }
    }
    fn same(&self, other: &Self) -> bool {
        match (self, other) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(b),
            _ => false,
        }
    }
}
impl<T: Gen + Copy + Default, const N: usize> Gen for [T; N]
where
    [T; N]: Default,
{
    const WANT: usize = N * T::WANT;
    fn gen<S: Src>(s: &mut S) -> Self {
        let mut a: [T; N] = Default::default();
        let mut i = 0;
        while i < N {
            a[i] = T::gen(s);
            i += 1;
        }
        a
    }
    fn same(&self, other: &Self) -> bool {
        let mut i = 0;
        while i < N {
            if !self[i].same(&other[i]) {
                return false;
            }
            i += 1;
        }
        true
    }
    fn layout<S: Src>(&self, words: &[u32], s: &mut S) {
        let mut i = 0;
        while i < N {
            s.check(T::read_slab(i * T::WANT, words).same(&self[i]), "array element k lies at k times the element size");
            i += 1;
        }
    }
}
macro_rules! gen_tuple {
    ($($t:ident $i:tt),*) => {
        impl<$($t: Gen),*> Gen for ($($t,)*) {
            const WANT: usize = 0 $(+ $t::WANT)*;
            fn gen<S: Src>(s: &mut S) -> Self {
                ($($t::gen(s),)*)
            }
            fn same(&self, other: &Self) -> bool {
                true $(&& self.$i.same(&other.$i))*
            }
            fn layout<S: Src>(&self, words: &[u32], s: &mut S) {
                // elements lie one after the other, in order
                let mut off = 0usize;
                $(
                    s.check($t::read_slab(off, words).same(&self.$i), "tuple element lies after the previous ones");
                    off += $t::WANT;
                )*
                let _ = off;
            }
        }
    };
}
gen_tuple!(A 0);
gen_tuple!(A 0, B 1);
gen_tuple!(A 0, B 1, C 2);
gen_tuple!(A 0, B 1, C 2, D 3);
gen_tuple!(A 0, B 1, C 2, D 3, E 4);
gen_tuple!(A 0, B 1, C 2, D 3, E 4, F 5);
gen_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
gen_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
gen_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
gen_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
gen_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
gen_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);
gen_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12);
