//! C03, C04: types deriving `SlabItem`, with independently written specifications.
#![allow(dead_code)]
use crate::gen::Gen;
use crate::src::Src;
use core::marker::PhantomData;
use crabslab::{Array, Id, Slab, SlabItem};

/// Checks one field's offset constants. `$get` projects the field.
pub fn offset_contract<T: Gen, F: Gen, S: Src>(
    off: crabslab::offset::Offset<F, T>,
    off_again: crabslab::offset::Offset<F, T>,
    size_of: usize,
    get: impl Fn(&T) -> &F,
    same_otherwise: impl Fn(&T, &T) -> bool,
    s: &mut S,
) {
    s.check(size_of == F::WANT, "SLAB_SIZE_OF_x is the size of the field's type");
    // room for the item and one word on either side
    let mut slab = [0u32; 256];
    let n = T::WANT + 2;
    let mut i = 0;
    while i < n {
        slab[i] = s.word();
        i += 1;
    }
    let slab = &mut slab[..n];
    let at = s.below(3);
    let id = Id::<T>::new(at);
    let v = T::gen(s);
    slab.write(id, &v);
    let fid: Id<F> = id + off;
    let fid2: Id<F> = off_again + id;
    s.check(fid.inner() == fid2.inner(), "id + offset equals offset + id");
    let fits = fid.index() + F::WANT <= slab.len();
    s.check(fits, "the field's id lies within the item");
    if fits {
        s.check(slab.read_unchecked::<F>(fid).same(get(&v)), "reading at id + OFFSET_OF_x gives the field");
        let f = F::gen(s);
        slab.write(fid, &f);
        let w = slab.read_unchecked::<T>(id);
        s.check(get(&w).same(&f), "writing at id + OFFSET_OF_x changes the field");
        s.check(same_otherwise(&w, &v), "writing at id + OFFSET_OF_x changes no other field");
    }
}

macro_rules! dstruct {
    ($name:ident { $($f:ident $off:ident $sz:ident : $t:ty),* $(,)? }) => {
        #[derive(Clone, Debug, Default, SlabItem)]
        #[offsets]
        pub struct $name { $(pub $f: $t),* }
        dstruct!(@gen $name { $($f $off $sz: $t),* });
    };
    ($name:ident ( $($f:tt $off:ident $sz:ident : $t:ty),* $(,)? )) => {
        #[derive(Clone, Debug, Default, SlabItem)]
        #[offsets]
        pub struct $name ( $(pub $t),* );
        dstruct!(@gen $name { $($f $off $sz: $t),* });
    };
    (@gen $name:ty { $($f:tt $off:ident $sz:ident : $t:ty),* }) => {
        impl Gen for $name {
            const WANT: usize = 0 $(+ <$t as Gen>::WANT)*;
            fn gen<S: Src>(s: &mut S) -> Self { Self { $($f: <$t as Gen>::gen(s)),* } }
            fn same(&self, o: &Self) -> bool { true $(&& self.$f.same(&o.$f))* }
            fn layout<S: Src>(&self, words: &[u32], s: &mut S) {
                let mut off = 0usize;
                $(
                    s.check(<$t as SlabItem>::read_slab(off, words).same(&self.$f), "fields lie in declaration order");
                    off += <$t as Gen>::WANT;
                )*
                let _ = off;
            }
            fn offsets<S: Src>(s: &mut S) {
                dstruct!(@each s $name, [$($f),*], $($f $off $sz : $t),*);
            }
        }
    };
    (@each $s:ident $name:ty, $all:tt, ) => {};
    (@each $s:ident $name:ty, [$($g:tt),*], $f:tt $off:ident $sz:ident : $t:ty $(, $($rest:tt)*)?) => {
        offset_contract::<$name, $t, S>(<$name>::$off, <$name>::$off, <$name>::$sz, |v| &v.$f,
            |a, b| {
                // all fields but `$f` agree: overwrite `$f` and compare
                let mut a = a.clone();
                a.$f = b.$f.clone();
                a.same(b)
            }, $s);
        dstruct!(@each $s $name, [$($g),*], $($($rest)*)?);
    };
}

dstruct!(S1 { a OFFSET_OF_A SLAB_SIZE_OF_A: u32 });
dstruct!(S2 { a OFFSET_OF_A SLAB_SIZE_OF_A: u64, b OFFSET_OF_B SLAB_SIZE_OF_B: u8 });
dstruct!(S3 { a OFFSET_OF_A SLAB_SIZE_OF_A: Option<f32>, b OFFSET_OF_B SLAB_SIZE_OF_B: S2, c OFFSET_OF_C SLAB_SIZE_OF_C: [u16; 3] });
dstruct!(S5 { alpha OFFSET_OF_ALPHA SLAB_SIZE_OF_ALPHA: bool, beta_two OFFSET_OF_BETA_TWO SLAB_SIZE_OF_BETA_TWO: u128,
    gamma OFFSET_OF_GAMMA SLAB_SIZE_OF_GAMMA: PhantomData<u32>, delta OFFSET_OF_DELTA SLAB_SIZE_OF_DELTA: Id<S2>, e OFFSET_OF_E SLAB_SIZE_OF_E: Array<S3> });
dstruct!(SGlam { position OFFSET_OF_POSITION SLAB_SIZE_OF_POSITION: glam::Vec4, uv OFFSET_OF_UV SLAB_SIZE_OF_UV: glam::Vec2,
    normal OFFSET_OF_NORMAL SLAB_SIZE_OF_NORMAL: glam::Vec3, rot OFFSET_OF_ROT SLAB_SIZE_OF_ROT: glam::Quat, id OFFSET_OF_ID SLAB_SIZE_OF_ID: u32 });
dstruct!(SMat { m OFFSET_OF_M SLAB_SIZE_OF_M: glam::Mat4, n OFFSET_OF_N SLAB_SIZE_OF_N: glam::UVec3 });
dstruct!(T1 (0 OFFSET_OF_0 SLAB_SIZE_OF_0: i64));
dstruct!(T2 (0 OFFSET_OF_0 SLAB_SIZE_OF_0: u8, 1 OFFSET_OF_1 SLAB_SIZE_OF_1: f64));
dstruct!(T4 (0 OFFSET_OF_0 SLAB_SIZE_OF_0: (u8, u64), 1 OFFSET_OF_1 SLAB_SIZE_OF_1: T2, 2 OFFSET_OF_2 SLAB_SIZE_OF_2: bool, 3 OFFSET_OF_3 SLAB_SIZE_OF_3: Option<u64>));
dstruct!(S8 { a OFFSET_OF_A SLAB_SIZE_OF_A: u32, b OFFSET_OF_B SLAB_SIZE_OF_B: u64, c OFFSET_OF_C SLAB_SIZE_OF_C: u8, d OFFSET_OF_D SLAB_SIZE_OF_D: f32,
    e OFFSET_OF_E SLAB_SIZE_OF_E: i128, f OFFSET_OF_F SLAB_SIZE_OF_F: bool, g OFFSET_OF_G SLAB_SIZE_OF_G: i16, h OFFSET_OF_H SLAB_SIZE_OF_H: u64 });

/// A generic struct, used at several field types.
#[derive(Clone, Debug, Default, SlabItem)]
#[offsets]
pub struct Pair<A: SlabItem, B: SlabItem> {
    pub first: A,
    pub second: B,
}
dstruct!(@gen Pair<u64, Option<u8>> { first OFFSET_OF_FIRST SLAB_SIZE_OF_FIRST: u64, second OFFSET_OF_SECOND SLAB_SIZE_OF_SECOND: Option<u8> });
dstruct!(@gen Pair<T2, Pair<u64, Option<u8>>> { first OFFSET_OF_FIRST SLAB_SIZE_OF_FIRST: T2, second OFFSET_OF_SECOND SLAB_SIZE_OF_SECOND: Pair<u64, Option<u8>> });

/// Implements `Gen` for an enum from a list of (tag, generator, field projections).
macro_rules! gen_enum {
    ($name:ty, $want:expr, default $def:pat, count $count:expr, {
        $($tag:expr => { $make:expr } $pat_a:pat, $pat_b:pat => [$($fa:ident $fb:ident : $ft:ty),*];)*
    }) => {
        impl Gen for $name {
            const WANT: usize = $want;
            fn gen<S: Src>(s: &mut S) -> Self {
                let tag = s.below($count);
                $( if tag == $tag { let f: fn(&mut S) -> Self = $make; return f(s); } )*
                unreachable!()
            }
            fn same(&self, o: &Self) -> bool {
                match (self, o) {
                    $( ($pat_a, $pat_b) => true $(&& $fa.same($fb))*, )*
                    #[allow(unreachable_patterns)]
                    _ => false,
                }
            }
            fn layout<S: Src>(&self, words: &[u32], s: &mut S) {
                match self {
                    $( $pat_a => {
                        s.check(words[0] == $tag, "the first word is the variant's declaration-order number");
                        #[allow(unused_mut)]
                        let mut off = 1usize;
                        $(
                            s.check(<$ft as SlabItem>::read_slab(off, words).same($fa), "variant fields lie in declaration order after the tag");
                            off += <$ft as Gen>::WANT;
                        )*
                        let _ = off;
                    } )*
                }
                // an unknown tag reads as the default
                let mut copy = [0u32; 256];
                let mut i = 0;
                while i < Self::WANT {
                    copy[i] = words[i];
                    i += 1;
                }
                copy[0] = if s.flip() { $count } else { let w = s.word(); if w < $count { u32::MAX - w } else { w } };
                let r = Self::read_slab(0, &copy[..Self::WANT]);
                s.check(matches!(r, $def), "an unknown tag reads as the Default value");
            }
        }
    };
}

#[derive(Clone, Debug, Default, SlabItem)]
pub enum EUnit {
    A,
    #[default]
    B,
    C,
}
gen_enum!(EUnit, 1, default EUnit::B, count 3, {
    0 => { |_| EUnit::A } EUnit::A, EUnit::A => [];
    1 => { |_| EUnit::B } EUnit::B, EUnit::B => [];
    2 => { |_| EUnit::C } EUnit::C, EUnit::C => [];
});

#[derive(Clone, Debug, Default, SlabItem)]
pub enum EMixed {
    One,
    Two { a: u32, b: u64 },
    #[default]
    Three,
    Four(S2, u8),
    Five(f32),
    Six { z: [u16; 3], y: Option<u8>, x: bool },
}
gen_enum!(EMixed, 1 + 6, default EMixed::Three, count 6, {
    0 => { |_| EMixed::One } EMixed::One, EMixed::One => [];
    1 => { |s| EMixed::Two { a: Gen::gen(s), b: Gen::gen(s) } } EMixed::Two { a, b }, EMixed::Two { a: a2, b: b2 } => [a a2: u32, b b2: u64];
    2 => { |_| EMixed::Three } EMixed::Three, EMixed::Three => [];
    3 => { |s| EMixed::Four(Gen::gen(s), Gen::gen(s)) } EMixed::Four(a, b), EMixed::Four(a2, b2) => [a a2: S2, b b2: u8];
    4 => { |s| EMixed::Five(Gen::gen(s)) } EMixed::Five(a), EMixed::Five(a2) => [a a2: f32];
    5 => { |s| EMixed::Six { z: Gen::gen(s), y: Gen::gen(s), x: Gen::gen(s) } } EMixed::Six { z, y, x }, EMixed::Six { z: z2, y: y2, x: x2 } => [z z2: [u16; 3], y y2: Option<u8>, x x2: bool];
});

// the largest variant comes first, and last
#[derive(Clone, Debug, Default, SlabItem)]
pub enum EBigFirst {
    Big { a: u128, b: u64 },
    Small(u8),
    #[default]
    None,
}
gen_enum!(EBigFirst, 1 + 6, default EBigFirst::None, count 3, {
    0 => { |s| EBigFirst::Big { a: Gen::gen(s), b: Gen::gen(s) } } EBigFirst::Big { a, b }, EBigFirst::Big { a: a2, b: b2 } => [a a2: u128, b b2: u64];
    1 => { |s| EBigFirst::Small(Gen::gen(s)) } EBigFirst::Small(a), EBigFirst::Small(a2) => [a a2: u8];
    2 => { |_| EBigFirst::None } EBigFirst::None, EBigFirst::None => [];
});

#[derive(Clone, Debug, SlabItem)]
pub enum ENested {
    A(EMixed),
    B { p: EBigFirst, q: EUnit },
    C(PhantomData<u8>),
    D((u8, u64), T2, SGlam),
}
impl Default for ENested {
    fn default() -> Self {
        ENested::A(EMixed::One)
    }
}
gen_enum!(ENested, 1 + 20, default ENested::A(EMixed::One), count 4, {
    0 => { |s| ENested::A(Gen::gen(s)) } ENested::A(a), ENested::A(a2) => [a a2: EMixed];
    1 => { |s| ENested::B { p: Gen::gen(s), q: Gen::gen(s) } } ENested::B { p, q }, ENested::B { p: p2, q: q2 } => [p p2: EBigFirst, q q2: EUnit];
    2 => { |_| ENested::C(PhantomData) } ENested::C(a), ENested::C(a2) => [a a2: PhantomData<u8>];
    3 => { |s| ENested::D(Gen::gen(s), Gen::gen(s), Gen::gen(s)) } ENested::D(a, b, c), ENested::D(a2, b2, c2) => [a a2: (u8, u64), b b2: T2, c c2: SGlam];
});

#[derive(Clone, Debug, SlabItem)]
pub enum EGeneric<A, B: Clone> {
    L(A),
    R { b: B, a: A },
    LR(A, B),
    N,
}
impl<A, B: Clone> Default for EGeneric<A, B> {
    fn default() -> Self {
        EGeneric::N
    }
}
type EG1 = EGeneric<u64, S2>;
gen_enum!(EG1, 1 + 5, default EGeneric::N, count 4, {
    0 => { |s| EGeneric::L(Gen::gen(s)) } EGeneric::L(a), EGeneric::L(a2) => [a a2: u64];
    1 => { |s| EGeneric::R { b: Gen::gen(s), a: Gen::gen(s) } } EGeneric::R { b, a }, EGeneric::R { b: b2, a: a2 } => [b b2: S2, a a2: u64];
    2 => { |s| EGeneric::LR(Gen::gen(s), Gen::gen(s)) } EGeneric::LR(a, b), EGeneric::LR(a2, b2) => [a a2: u64, b b2: S2];
    3 => { |_| EGeneric::N } EGeneric::N, EGeneric::N => [];
});

#[derive(Clone, Debug, Default, SlabItem)]
pub enum EMany {
    #[default]
    V0,
    V1(u32),
    V2(u32, u32),
    V3(u64, u8, u64),
    V4 { a: u8 },
    V5,
    V6(bool),
    V7(f64),
    V8(i8, i8, i8, i8),
    V9(Id<u8>),
    V10(Array<u8>, u32),
    V11 { t: (u8, u8), u: u8, v: u8, w: u64 },
    // names that the generated code could use itself
    V12 { __hash: u32, hash: u8, variant: u32, value: u8 },
}
gen_enum!(EMany, 1 + 6, default EMany::V0, count 13, {
    0 => { |_| EMany::V0 } EMany::V0, EMany::V0 => [];
    1 => { |s| EMany::V1(Gen::gen(s)) } EMany::V1(a), EMany::V1(a2) => [a a2: u32];
    2 => { |s| EMany::V2(Gen::gen(s), Gen::gen(s)) } EMany::V2(a, b), EMany::V2(a2, b2) => [a a2: u32, b b2: u32];
    3 => { |s| EMany::V3(Gen::gen(s), Gen::gen(s), Gen::gen(s)) } EMany::V3(a, b, c), EMany::V3(a2, b2, c2) => [a a2: u64, b b2: u8, c c2: u64];
    4 => { |s| EMany::V4 { a: Gen::gen(s) } } EMany::V4 { a }, EMany::V4 { a: a2 } => [a a2: u8];
    5 => { |_| EMany::V5 } EMany::V5, EMany::V5 => [];
    6 => { |s| EMany::V6(Gen::gen(s)) } EMany::V6(a), EMany::V6(a2) => [a a2: bool];
    7 => { |s| EMany::V7(Gen::gen(s)) } EMany::V7(a), EMany::V7(a2) => [a a2: f64];
    8 => { |s| EMany::V8(Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s)) } EMany::V8(a, b, c, d), EMany::V8(a2, b2, c2, d2) => [a a2: i8, b b2: i8, c c2: i8, d d2: i8];
    9 => { |s| EMany::V9(Gen::gen(s)) } EMany::V9(a), EMany::V9(a2) => [a a2: Id<u8>];
    10 => { |s| EMany::V10(Gen::gen(s), Gen::gen(s)) } EMany::V10(a, b), EMany::V10(a2, b2) => [a a2: Array<u8>, b b2: u32];
    11 => { |s| EMany::V11 { t: Gen::gen(s), u: Gen::gen(s), v: Gen::gen(s), w: Gen::gen(s) } } EMany::V11 { t, u, v, w }, EMany::V11 { t: t2, u: u2, v: v2, w: w2 } => [t t2: (u8, u8), u u2: u8, v v2: u8, w w2: u64];
    12 => { |s| EMany::V12 { __hash: Gen::gen(s), hash: Gen::gen(s), variant: Gen::gen(s), value: Gen::gen(s) } } EMany::V12 { __hash: a, hash: b, variant: c, value: d }, EMany::V12 { __hash: a2, hash: b2, variant: c2, value: d2 } => [a a2: u32, b b2: u8, c c2: u32, d d2: u8];
});

// explicit discriminants are not the tags
#[derive(Clone, Copy, Debug, Default, SlabItem)]
pub enum EDisc {
    A = 3,
    #[default]
    B = 5,
    C,
    D = 1,
}
gen_enum!(EDisc, 1, default EDisc::B, count 4, {
    0 => { |_| EDisc::A } EDisc::A, EDisc::A => [];
    1 => { |_| EDisc::B } EDisc::B, EDisc::B => [];
    2 => { |_| EDisc::C } EDisc::C, EDisc::C => [];
    3 => { |_| EDisc::D } EDisc::D, EDisc::D => [];
});
#[derive(Clone, Debug, Default, SlabItem)]
#[repr(u32)]
pub enum EDiscFields {
    P(u64) = 7,
    Q { b: u8, a: u64 } = 2,
    R = 0,
    #[default]
    S,
}
gen_enum!(EDiscFields, 1 + 3, default EDiscFields::S, count 4, {
    0 => { |s| EDiscFields::P(Gen::gen(s)) } EDiscFields::P(a), EDiscFields::P(a2) => [a a2: u64];
    1 => { |s| EDiscFields::Q { b: Gen::gen(s), a: Gen::gen(s) } } EDiscFields::Q { b, a }, EDiscFields::Q { b: b2, a: a2 } => [b b2: u8, a a2: u64];
    2 => { |_| EDiscFields::R } EDiscFields::R, EDiscFields::R => [];
    3 => { |_| EDiscFields::S } EDiscFields::S, EDiscFields::S => [];
});

// more variants than a byte can tell apart
#[rustfmt::skip]
#[derive(Clone, Copy, Debug, Default, PartialEq, SlabItem)]
pub enum EWide {
    #[default] V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255, V256, V257, V258, V259, V260, V261, V262, V263, V264, V265, V266, V267, V268, V269, V270, V271, V272, V273, V274, V275, V276, V277, V278, V279, V280, V281, V282, V283, V284, V285, V286, V287, V288, V289, V290, V291, V292, V293, V294, V295, V296, V297, V298,
    Last(u64),
}
#[rustfmt::skip]
const WIDE: [EWide; 299] = { use EWide::*; [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255, V256, V257, V258, V259, V260, V261, V262, V263, V264, V265, V266, V267, V268, V269, V270, V271, V272, V273, V274, V275, V276, V277, V278, V279, V280, V281, V282, V283, V284, V285, V286, V287, V288, V289, V290, V291, V292, V293, V294, V295, V296, V297, V298] };
impl Gen for EWide {
    const WANT: usize = 3;
    fn gen<S: Src>(s: &mut S) -> Self {
        match s.below(300) {
            299 => EWide::Last(s.w64()),
            n => WIDE[n as usize],
        }
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn layout<S: Src>(&self, words: &[u32], s: &mut S) {
        let tag = WIDE.iter().position(|v| v == self).unwrap_or(299);
        s.check(words[0] == tag as u32, "the first word is the variant's declaration-order number");
        let w = match s.below(3) { 0 => 300, 1 => 300 + s.below(1000), _ => s.word().max(300) };
        s.check(EWide::read_slab(0, &[w, words[1], words[2]]) == EWide::V0, "an unknown tag reads as the Default value");
    }
}

/// Fields far into an item: addresses only, the item is never built.
#[derive(Clone, Copy, SlabItem)]
#[offsets]
pub struct SFar {
    pub a: [[u32; 32]; 8],
    pub b: u8,
    pub c: [[[u32; 32]; 32]; 32],
    pub d: u64,
    pub e: [[[[u32; 32]; 32]; 32]; 4],
    pub f: u32,
}
pub fn far_offsets<S: Src>(s: &mut S) {
    let at = s.below(1 << 20);
    let id = Id::<SFar>::new(at);
    let f = s.below(4);
    let (got, again, want) = match f {
        0 => ((id + SFar::OFFSET_OF_B).inner(), (SFar::OFFSET_OF_B + id).inner(), 256),
        1 => ((id + SFar::OFFSET_OF_C).inner(), (SFar::OFFSET_OF_C + id).inner(), 257),
        2 => ((id + SFar::OFFSET_OF_D).inner(), (SFar::OFFSET_OF_D + id).inner(), 257 + 32768),
        _ => ((id + SFar::OFFSET_OF_F).inner(), (SFar::OFFSET_OF_F + id).inner(), 257 + 32768 + 2 + 4 * 32768),
    };
    s.check(got == at + want, "id + OFFSET_OF_x is the id of the field, however far into the item it lies");
    s.check(again == got, "id + offset equals offset + id");
}

dstruct!(SEnums { a OFFSET_OF_A SLAB_SIZE_OF_A: EMixed, b OFFSET_OF_B SLAB_SIZE_OF_B: u64, c OFFSET_OF_C SLAB_SIZE_OF_C: EMany, d OFFSET_OF_D SLAB_SIZE_OF_D: u8 });


// many fields, and fields of the same types again and again
dstruct!(T13 (0 OFFSET_OF_0 SLAB_SIZE_OF_0: u8, 1 OFFSET_OF_1 SLAB_SIZE_OF_1: u64, 2 OFFSET_OF_2 SLAB_SIZE_OF_2: u8, 3 OFFSET_OF_3 SLAB_SIZE_OF_3: u64,
    4 OFFSET_OF_4 SLAB_SIZE_OF_4: u64, 5 OFFSET_OF_5 SLAB_SIZE_OF_5: u8, 6 OFFSET_OF_6 SLAB_SIZE_OF_6: f64, 7 OFFSET_OF_7 SLAB_SIZE_OF_7: u16,
    8 OFFSET_OF_8 SLAB_SIZE_OF_8: i64, 9 OFFSET_OF_9 SLAB_SIZE_OF_9: bool, 10 OFFSET_OF_10 SLAB_SIZE_OF_10: u64, 11 OFFSET_OF_11 SLAB_SIZE_OF_11: u8, 12 OFFSET_OF_12 SLAB_SIZE_OF_12: Option<u64>));
dstruct!(SRep { b OFFSET_OF_B SLAB_SIZE_OF_B: [u32; 3], a OFFSET_OF_A SLAB_SIZE_OF_A: [u32; 3], d OFFSET_OF_D SLAB_SIZE_OF_D: S2, c OFFSET_OF_C SLAB_SIZE_OF_C: S2,
    e2 OFFSET_OF_E2 SLAB_SIZE_OF_E2: PhantomData<u8>, e1 OFFSET_OF_E1 SLAB_SIZE_OF_E1: PhantomData<u8>, z OFFSET_OF_Z SLAB_SIZE_OF_Z: u32, a_b_c OFFSET_OF_A_B_C SLAB_SIZE_OF_A_B_C: [u32; 3] });

// the largest payload lies in the middle, the default late
#[derive(Clone, Debug, Default, SlabItem)]
pub enum ELate {
    A(u8, u8, u8),
    B(u64, u64, u64, u8),
    C(u8),
    D(u64, u64),
    E { x: u64, y: u64, z: u8 },
    #[default]
    F,
}
gen_enum!(ELate, 1 + 7, default ELate::F, count 6, {
    0 => { |s| ELate::A(Gen::gen(s), Gen::gen(s), Gen::gen(s)) } ELate::A(a, b, c), ELate::A(a2, b2, c2) => [a a2: u8, b b2: u8, c c2: u8];
    1 => { |s| ELate::B(Gen::gen(s), Gen::gen(s), Gen::gen(s), Gen::gen(s)) } ELate::B(a, b, c, d), ELate::B(a2, b2, c2, d2) => [a a2: u64, b b2: u64, c c2: u64, d d2: u8];
    2 => { |s| ELate::C(Gen::gen(s)) } ELate::C(a), ELate::C(a2) => [a a2: u8];
    3 => { |s| ELate::D(Gen::gen(s), Gen::gen(s)) } ELate::D(a, b), ELate::D(a2, b2) => [a a2: u64, b b2: u64];
    4 => { |s| ELate::E { x: Gen::gen(s), y: Gen::gen(s), z: Gen::gen(s) } } ELate::E { x, y, z }, ELate::E { x: x2, y: y2, z: z2 } => [x x2: u64, y y2: u64, z z2: u8];
    5 => { |_| ELate::F } ELate::F, ELate::F => [];
});
// a single variant has its tag too
#[derive(Clone, Debug, Default, SlabItem)]
pub enum EOnly {
    #[default]
    A,
}
gen_enum!(EOnly, 1, default EOnly::A, count 1, {
    0 => { |_| EOnly::A } EOnly::A, EOnly::A => [];
});
#[derive(Clone, Debug, SlabItem)]
pub enum EOnlyFields {
    A { b: u64, a: S2 },
}
impl Default for EOnlyFields {
    fn default() -> Self {
        EOnlyFields::A { b: 3, a: S2 { a: 5, b: 7 } }
    }
}
gen_enum!(EOnlyFields, 1 + 5, default EOnlyFields::A { b: 3, a: S2 { a: 5, b: 7 } }, count 1, {
    0 => { |s| EOnlyFields::A { b: Gen::gen(s), a: Gen::gen(s) } } EOnlyFields::A { b, a }, EOnlyFields::A { b: b2, a: a2 } => [b b2: u64, a a2: S2];
});
// no variant has a payload of any words
#[derive(Clone, Debug, Default, SlabItem)]
pub enum ENothing {
    A(PhantomData<u64>),
    B { x: PhantomData<u8>, y: PhantomData<u64> },
    #[default]
    C,
}
gen_enum!(ENothing, 1, default ENothing::C, count 3, {
    0 => { |_| ENothing::A(PhantomData) } ENothing::A(a), ENothing::A(a2) => [a a2: PhantomData<u64>];
    1 => { |_| ENothing::B { x: PhantomData, y: PhantomData } } ENothing::B { x, y }, ENothing::B { x: x2, y: y2 } => [x x2: PhantomData<u8>, y y2: PhantomData<u64>];
    2 => { |_| ENothing::C } ENothing::C, ENothing::C => [];
});
#[macro_export]
macro_rules! derived_structs {
    ($m:ident) => {
        $m! {
            s1: S1; s2: S2; s3: S3; s5: S5; s8: S8; sglam: SGlam; smat: SMat; t1: T1; t2: T2; t4: T4;
            pair1: Pair<u64, Option<u8>>; pair2: Pair<T2, Pair<u64, Option<u8>>>; senums: SEnums; t13: T13; srep: SRep;
        }
    };
}
#[macro_export]
macro_rules! derived_enums {
    ($m:ident) => {
        $m! {
            e_unit: EUnit; e_mixed: EMixed; e_big_first: EBigFirst; e_nested: ENested; e_generic: EGeneric<u64, S2>; e_many: EMany; e_disc: EDisc; e_disc_fields: EDiscFields; e_wide: EWide; e_late: ELate; e_only: EOnly; e_only_fields: EOnlyFields; e_nothing: ENothing;
        }
    };
}
