//! Generated by gen_derived.py: built-in types inside built-in types.
#[macro_export]
macro_rules! built_more {
    ($m:ident) => {
        $m! {
            b0: Option<u8>;
            b1: [Option<u8>; 2];
            b2: (u8, u8, [u8; 3]);
            b3: Option<i8>;
            b4: [Option<i8>; 2];
            b5: (i8, u8, [i8; 3]);
            b6: Option<u16>;
            b7: [Option<u16>; 2];
            b8: (u16, u8, [u16; 3]);
            b9: Option<i16>;
            b10: [Option<i16>; 2];
            b11: (i16, u8, [i16; 3]);
            b12: Option<u32>;
            b13: [Option<u32>; 2];
            b14: (u32, u8, [u32; 3]);
            b15: Option<i32>;
            b16: [Option<i32>; 2];
            b17: (i32, u8, [i32; 3]);
            b18: Option<u64>;
            b19: [Option<u64>; 2];
            b20: (u64, u8, [u64; 3]);
            b21: Option<i64>;
            b22: [Option<i64>; 2];
            b23: (i64, u8, [i64; 3]);
            b24: Option<u128>;
            b25: [Option<u128>; 2];
            b26: (u128, u8, [u128; 3]);
            b27: Option<i128>;
            b28: [Option<i128>; 2];
            b29: (i128, u8, [i128; 3]);
            b30: Option<f32>;
            b31: [Option<f32>; 2];
            b32: (f32, u8, [f32; 3]);
            b33: Option<f64>;
            b34: [Option<f64>; 2];
            b35: (f64, u8, [f64; 3]);
            b36: Option<bool>;
            b37: [Option<bool>; 2];
            b38: (bool, u8, [bool; 3]);
            b39: Option<crabslab::Id<u16>>;
            b40: [Option<crabslab::Id<u16>>; 2];
            b41: (crabslab::Id<u16>, u8, [crabslab::Id<u16>; 3]);
            b42: Option<crabslab::Array<f64>>;
            b43: [Option<crabslab::Array<f64>>; 2];
            b44: (crabslab::Array<f64>, u8, [crabslab::Array<f64>; 3]);
            b45: Option<core::marker::PhantomData<u32>>;
            b46: [Option<core::marker::PhantomData<u32>>; 2];
            b47: (core::marker::PhantomData<u32>, u8, [core::marker::PhantomData<u32>; 3]);
            b48: Option<glam::UVec2>;
            b49: [Option<glam::UVec2>; 2];
            b50: (glam::UVec2, u8, [glam::UVec2; 3]);
            b51: Option<glam::UVec3>;
            b52: [Option<glam::UVec3>; 2];
            b53: (glam::UVec3, u8, [glam::UVec3; 3]);
            b54: Option<glam::UVec4>;
            b55: [Option<glam::UVec4>; 2];
            b56: (glam::UVec4, u8, [glam::UVec4; 3]);
            b57: Option<glam::Vec2>;
            b58: [Option<glam::Vec2>; 2];
            b59: (glam::Vec2, u8, [glam::Vec2; 3]);
            b60: Option<glam::Vec3>;
            b61: [Option<glam::Vec3>; 2];
            b62: (glam::Vec3, u8, [glam::Vec3; 3]);
            b63: Option<glam::Vec4>;
            b64: [Option<glam::Vec4>; 2];
            b65: (glam::Vec4, u8, [glam::Vec4; 3]);
            b66: Option<glam::Quat>;
            b67: [Option<glam::Quat>; 2];
            b68: (glam::Quat, u8, [glam::Quat; 3]);
            b69: Option<glam::Mat4>;
            b70: [Option<glam::Mat4>; 2];
            b71: (glam::Mat4, u8, [glam::Mat4; 3]);
            b72: [core::marker::PhantomData<u8>; 3];
            b73: Option<[core::marker::PhantomData<u8>; 2]>;
            b74: (core::marker::PhantomData<u8>,);
            b75: [(core::marker::PhantomData<u8>, u8); 3];
            b76: Option<[u32; 0]>;
            b77: [[u8; 0]; 2];
            b78: [u32; 32];
            b79: [[u16; 16]; 3];
            b80: [glam::Mat4; 2];
            b81: Option<Option<Option<u64>>>;
            b82: ([u64; 5], Option<[Option<i128>; 3]>, bool);
            b83: [[[u32; 2]; 3]; 2];
            b84: [(u8, u64, [f32; 2]); 4];
            b85: Option<(core::marker::PhantomData<u8>, core::marker::PhantomData<u8>)>;
        }
    };
}
