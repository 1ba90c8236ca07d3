//! Declarations on which the derive macros are verified; generated by /verif/verus/shapes.py.
#![allow(dead_code, non_camel_case_types)]
use core::marker::PhantomData;
use crabslab::{Array, Id, SlabItem};

#[derive(SlabItem)]
#[offsets]
pub struct S1<A: SlabItem> {
    pub a: A,
}

#[derive(SlabItem)]
#[offsets]
pub struct S2<A: SlabItem, B: SlabItem> {
    pub a: A,
    pub b: B,
}

#[derive(SlabItem)]
#[offsets]
pub struct S3<A: SlabItem, B: SlabItem, C: SlabItem> {
    pub zeta: C,
    pub alpha: A,
    pub mid_dle: B,
}

#[derive(SlabItem)]
#[offsets]
pub struct S4<A: SlabItem, B: SlabItem> {
    pub a: A,
    pub b: B,
    pub c: A,
    pub d: B,
}

#[derive(SlabItem)]
#[offsets]
pub struct S5<A: SlabItem, B: SlabItem, C: SlabItem, D: SlabItem, E: SlabItem> {
    pub a: A,
    pub b: B,
    pub c: C,
    pub d: D,
    pub e: E,
}

#[derive(SlabItem)]
#[offsets]
pub struct S8<A: SlabItem, B: SlabItem, C: SlabItem, D: SlabItem, E: SlabItem, F: SlabItem, G: SlabItem, H: SlabItem> {
    pub a: A,
    pub b: B,
    pub c: C,
    pub d: D,
    pub e: E,
    pub f: F,
    pub g: G,
    pub h: H,
}

#[derive(SlabItem)]
#[offsets]
pub struct T1<A: SlabItem>(pub A);

#[derive(SlabItem)]
#[offsets]
pub struct T2<A: SlabItem, B: SlabItem>(pub A, pub B);

#[derive(SlabItem)]
#[offsets]
pub struct T4<A: SlabItem, B: SlabItem, C: SlabItem, D: SlabItem>(pub A, pub B, pub C, pub D);

#[derive(SlabItem)]
#[offsets]
pub struct T11<A: SlabItem, B: SlabItem, C: SlabItem, D: SlabItem, E: SlabItem, F: SlabItem, G: SlabItem, H: SlabItem, I: SlabItem, J: SlabItem, K: SlabItem>(pub A, pub B, pub C, pub D, pub E, pub F, pub G, pub H, pub I, pub J, pub K);

#[derive(SlabItem)]
#[offsets]
pub struct Mixed<A: SlabItem, B: SlabItem + Default> {
    pub index: u32,
    pub slab: A,
    pub pair: (A, u64),
    pub hash: Option<B>,
    pub __0: bool,
    pub last: A,
}

#[derive(SlabItem)]
#[offsets]
pub struct Nested<A: SlabItem, B: SlabItem> {
    pub s: S2<A,B>,
    pub t: T2<B,A>,
    pub e: E3<A,B,A>,
    pub u: u8,
}

#[derive(SlabItem)]
#[offsets]
pub struct Handles<A: SlabItem, B: SlabItem> {
    pub id: Id<A>,
    pub array: Array<B>,
    pub ph: PhantomData<A>,
    pub a: A,
}

#[derive(SlabItem)]
#[offsets]
pub struct S6<A: SlabItem> {
    pub f5: A,
    pub f4: A,
    pub f3: A,
    pub f2: A,
    pub f1: A,
    pub f0: A,
}

#[derive(SlabItem)]
#[offsets]
pub struct S7<A: SlabItem, B: SlabItem> {
    pub p: PhantomData<A>,
    pub a: A,
    pub q: PhantomData<B>,
    pub r: PhantomData<A>,
    pub b: B,
    pub c: A,
}

#[derive(SlabItem)]
#[offsets]
pub struct S11<A: SlabItem, B: SlabItem, C: SlabItem> {
    pub k: A,
    pub j: B,
    pub i: C,
    pub h: A,
    pub g: A,
    pub f: B,
    pub e: C,
    pub d: B,
    pub c: A,
    pub b: C,
    pub a: B,
}

#[derive(SlabItem)]
#[offsets]
pub struct S15<A: SlabItem, B: SlabItem, C: SlabItem, D: SlabItem, E: SlabItem, F: SlabItem, G: SlabItem, H: SlabItem, I: SlabItem, J: SlabItem, K: SlabItem, L: SlabItem, M: SlabItem, N: SlabItem, O: SlabItem> {
    pub o: A,
    pub n: B,
    pub m: C,
    pub l: D,
    pub k: E,
    pub j: F,
    pub i: G,
    pub h: H,
    pub g: I,
    pub f: J,
    pub e: K,
    pub d: L,
    pub c: M,
    pub b: N,
    pub a: O,
}

#[derive(SlabItem)]
#[offsets]
pub struct T9<A: SlabItem>(pub A, pub A, pub A, pub A, pub A, pub A, pub A, pub A, pub A);

#[derive(SlabItem)]
#[offsets]
pub struct T16<A: SlabItem, B: SlabItem, C: SlabItem, D: SlabItem, E: SlabItem, F: SlabItem, G: SlabItem, H: SlabItem, I: SlabItem, J: SlabItem, K: SlabItem, L: SlabItem, M: SlabItem, N: SlabItem, O: SlabItem, P: SlabItem>(pub A, pub B, pub C, pub D, pub E, pub F, pub G, pub H, pub I, pub J, pub K, pub L, pub M, pub N, pub O, pub P);

#[derive(Default, SlabItem)]
pub enum E1 {
    #[default]
    Only,
}

#[derive(Default, SlabItem)]
pub enum EUnits {
    A,
    #[default]
    B,
    C,
}

#[derive(Default, SlabItem)]
pub enum E2<A: SlabItem> {
    Some(A),
    #[default]
    Nil,
}

#[derive(Default, SlabItem)]
pub enum E3<A: SlabItem, B: SlabItem, C: SlabItem> {
    #[default]
    X,
    Y { a: A, b: B },
    Z(C),
}

#[derive(Default, SlabItem)]
pub enum E4<A: SlabItem, B: SlabItem, C: SlabItem, D: SlabItem> {
    P(A, B, C),
    Q { d: D },
    #[default]
    R,
    S(D, A),
}

#[derive(Default, SlabItem)]
pub enum E5<A: SlabItem, B: SlabItem, C: SlabItem> {
    N { zeta: C, alpha: A, mid: B },
    #[default]
    Unit,
    M { mid: A, alpha: B, zeta: C },
    K(B, B, A, C),
}

#[derive(Default, SlabItem)]
pub enum EMany<A: SlabItem, B: SlabItem> {
    V0,
    V1(A),
    V2(A, A),
    V3(B, A, B),
    V4 { a: A },
    V5,
    V6(B),
    V7 { b: B, a: A },
    V8(A, A, A, A),
    #[default]
    V9,
    V10(A, B),
    V11 { t: B, u: A, v: A, w: B },
    V12,
}

#[derive(Default, SlabItem)]
pub enum EHygiene<A: SlabItem, B: SlabItem> {
    V { __hash: u32, hash: A, __size: B },
    W(A, B),
    #[default]
    U,
    X { __1: A, __0: B, variant: u32 },
}

#[derive(SlabItem)]
pub enum ENested<A: SlabItem + Default, B: SlabItem> {
    A0(E3<A,B,A>, u8),
    B0 { p: S2<A,B>, q: Option<A> },
    C0(PhantomData<A>),
    D0,
}

impl<A: SlabItem + Default, B: SlabItem> Default for ENested<A, B> {
    fn default() -> Self {
        ENested::D0
    }
}

#[derive(Default, SlabItem)]
pub enum E11<A: SlabItem, B: SlabItem, C: SlabItem, D: SlabItem, E: SlabItem, F: SlabItem, G: SlabItem, H: SlabItem, I: SlabItem, J: SlabItem, K: SlabItem> {
    Tup(A, B, C, D, E, F, G, H, I, J, K),
    #[default]
    U,
}

#[derive(Default, SlabItem)]
pub enum E11A<A: SlabItem, B: SlabItem> {
    Tup(A, B, A, A, B, B, A, A, A, B, B),
    #[default]
    U,
}

#[derive(Default, SlabItem)]
pub enum E12<A: SlabItem, B: SlabItem, C: SlabItem, D: SlabItem, E: SlabItem, F: SlabItem, G: SlabItem, H: SlabItem, I: SlabItem, J: SlabItem, K: SlabItem, L: SlabItem> {
    #[default]
    U,
    Nam { l: A, k: B, j: C, i: D, h: E, g: F, f: G, e: H, d: I, c: J, b: K, a: L },
}

#[derive(Default, SlabItem)]
pub enum ERun4<A: SlabItem, B: SlabItem> {
    R4(A, A, A, A),
    #[default]
    U,
    R3(B, B, B),
}

#[derive(Default, SlabItem)]
pub enum ERun5<A: SlabItem> {
    R5(A, A, A, A, A),
    R3(A, A, A),
    #[default]
    U,
}

#[derive(Default, SlabItem)]
pub enum ERun7<A: SlabItem, B: SlabItem> {
    R7(A, A, A, B, B, B, B),
    #[default]
    U,
}

#[derive(Default, SlabItem)]
pub enum ERun6<A: SlabItem> {
    #[default]
    U,
    R6 { f: A, e: A, d: A, c: A, b: A, a: A },
}

#[derive(Default, SlabItem)]
pub enum EEmpty<A: SlabItem> {
    T(),
    N {  },
    A(A),
    #[default]
    U,
}

#[derive(Default, SlabItem)]
pub enum EZero<A: SlabItem, B: SlabItem> {
    Ph(PhantomData<A>),
    PhA(PhantomData<A>, A),
    APhB(A, PhantomData<B>, B),
    Q { z: PhantomData<B>, y: B, x: PhantomData<A> },
    #[default]
    U,
}

#[derive(Default, SlabItem)]
pub enum ERepeat<A: SlabItem, B: SlabItem, C: SlabItem> {
    P(A, B, C),
    Q(A, B, C),
    R(C, B, A),
    S { a: A, b: B, c: C },
    T { c: C, b: B, a: A },
    #[default]
    U,
}

#[derive(Default, SlabItem)]
pub enum EDisc {
    A = 3,
    #[default]
    B = 5,
    C,
    D = 1,
}

#[repr(u32)]
#[derive(Default, SlabItem)]
pub enum EDiscFields<A: SlabItem, B: SlabItem> {
    P(A) = 7,
    Q { b: B, a: A } = 2,
    R = 0,
    #[default]
    S,
}

#[derive(Default, SlabItem)]
pub enum EWide<A: SlabItem> {
    W0,
    W1,
    W2,
    W3,
    W4,
    W5,
    W6,
    W7,
    W8,
    W9,
    W10,
    W11,
    W12,
    W13,
    W14,
    W15,
    W16,
    W17,
    W18,
    W19,
    W20,
    W21,
    W22,
    W23,
    W24,
    W25,
    W26,
    W27,
    W28,
    W29,
    W30,
    W31,
    W32,
    W33,
    W34,
    W35,
    W36,
    W37,
    W38,
    W39,
    W40,
    W41,
    W42,
    W43,
    W44,
    W45,
    W46,
    W47,
    W48,
    W49,
    W50,
    W51,
    W52,
    W53,
    W54,
    W55,
    W56,
    W57,
    W58,
    W59,
    W60,
    W61,
    W62,
    W63,
    W64,
    W65,
    W66,
    W67,
    W68,
    W69,
    W70,
    W71,
    W72,
    W73,
    W74,
    W75,
    W76,
    W77,
    W78,
    W79,
    W80,
    W81,
    W82,
    W83,
    W84,
    W85,
    W86,
    W87,
    W88,
    W89,
    W90,
    W91,
    W92,
    W93,
    W94,
    W95,
    W96,
    W97,
    W98,
    W99,
    W100,
    W101,
    W102,
    W103,
    W104,
    W105,
    W106,
    W107,
    W108,
    W109,
    W110,
    W111,
    W112,
    W113,
    W114,
    W115,
    W116,
    W117,
    W118,
    W119,
    W120,
    W121,
    W122,
    W123,
    W124,
    W125,
    W126,
    W127,
    W128,
    W129,
    W130,
    W131,
    W132,
    W133,
    W134,
    W135,
    W136,
    W137,
    W138,
    W139,
    W140,
    W141,
    W142,
    W143,
    W144,
    W145,
    W146,
    W147,
    W148,
    W149,
    W150,
    W151,
    W152,
    W153,
    W154,
    W155,
    W156,
    W157,
    W158,
    W159,
    W160,
    W161,
    W162,
    W163,
    W164,
    W165,
    W166,
    W167,
    W168,
    W169,
    W170,
    W171,
    W172,
    W173,
    W174,
    W175,
    W176,
    W177,
    W178,
    W179,
    W180,
    W181,
    W182,
    W183,
    W184,
    W185,
    W186,
    W187,
    W188,
    W189,
    W190,
    W191,
    W192,
    W193,
    W194,
    W195,
    W196,
    W197,
    W198,
    W199,
    W200,
    W201,
    W202,
    W203,
    W204,
    W205,
    W206,
    W207,
    W208,
    W209,
    W210,
    W211,
    W212,
    W213,
    W214,
    W215,
    W216,
    W217,
    W218,
    W219,
    W220,
    W221,
    W222,
    W223,
    W224,
    W225,
    W226,
    W227,
    W228,
    W229,
    W230,
    W231,
    W232,
    W233,
    W234,
    W235,
    W236,
    W237,
    W238,
    W239,
    W240,
    W241,
    W242,
    W243,
    W244,
    W245,
    W246,
    W247,
    W248,
    W249,
    W250,
    W251,
    W252,
    W253,
    W254,
    W255,
    W256,
    #[default]
    W257,
    Last(A),
}

