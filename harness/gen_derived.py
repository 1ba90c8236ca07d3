#!/usr/bin/env python3
"""Writes src/derived_more.rs: many shapes of structs and enums for the derive macros (C03, C04), and src/built_more.rs:
built-in types inside built-in types (C01, C02). Deterministic; the output is committed."""
import os, random
R = random.Random(20)
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "src")
POOL = {"u8": 1, "u16": 1, "u32": 1, "i32": 1, "i8": 1, "u64": 2, "i64": 2, "f32": 1, "f64": 2, "bool": 1, "u128": 4, "i128": 4,
        "PhantomData<u8>": 0, "PhantomData<u64>": 0, "Id<u8>": 1, "Id<S2>": 1, "Array<u8>": 2, "Option<u32>": 2, "Option<u64>": 3,
        "Option<PhantomData<u8>>": 1, "[u32; 3]": 3, "[u8; 2]": 2, "[u64; 4]": 8, "[u32; 0]": 0, "(u8, u64)": 3, "glam::Vec3": 3, "glam::Vec2": 2,
        "glam::UVec4": 4, "S2": 3, "T2": 3, "EMixed": 7, "EUnit": 1}
NAMES = ("zeta alpha mid position normal a1 a10 a2 b c d e f len size value data key kind hash __x x y z w first last id ty t s tag variant count "
         "left right up down near far color uv name age flags bits word words other more rest it inner outer").split()

def types(n, cap):
    """n field types of at most `cap` words: runs of one type now and then"""
    out, left = [], cap
    while len(out) < n:
        t = R.choice(list(POOL))
        if R.random() < 0.3: t = R.choice(["u32", "u32", "f32", "u64", "PhantomData<u8>"])
        run = R.choice([1, 1, 1, 2, 3, 5])
        for _ in range(run):
            if len(out) < n:
                k = t if POOL[t] <= left else "PhantomData<u8>"
                left -= POOL[k]
                out.append(k)
    return out

def structs():
    o, names = "", []
    counts = list(range(1, 21)) + [R.randint(2, 9) for _ in range(6)]
    for i, n in enumerate(counts):
        ts = types(n, 100)
        tup = i % 2 == 1
        fs = [str(k) for k in range(n)] if tup else R.sample(NAMES, n)
        name = f"M{i}"
        body = ", ".join(f"{f} OFFSET_OF_{f.upper()} SLAB_SIZE_OF_{f.upper()}: {t}" for f, t in zip(fs, ts))
        o += f"dstruct!({name} " + (f"({body})" if tup else f"{{ {body} }}") + ");\n"
        names.append(name)
    return o, names

def enums():
    o, names = "", []
    specs = []
    # one variant with many fields, of any style; then mixtures
    for n in (4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16):
        specs.append([("t", n)] if n % 2 else [("n", n)])
    for n in (11, 12, 14):
        specs.append([("t", n)])
    for k in (2, 3, 4, 5, 7, 9, 11, 17):
        specs.append([(R.choice("utn"), R.choice([1, 1, 2, 3, 4, 6])) for _ in range(k)])
    for i, spec in enumerate(specs):
        name = f"X{i}"
        spec = [(st, 0 if st == "u" else n) for st, n in spec]
        at = R.randint(0, len(spec))
        spec = spec[:at] + [("u", 0)] + spec[at:]
        decl, rows, want = [], [], 0
        for tag, (st, n) in enumerate(spec):
            ts = types(n, 60)
            if i in (1, 4, 11) and n > 3: ts = [R.choice(["u32", "u64", "f32"])] * n
            want = max(want, sum(POOL[t] for t in ts))
            v = f"V{tag}"
            d = "    #[default]\n" if tag == at else ""
            fs = [f"x{k}" for k in range(n)]
            if st == "u":
                decl.append(f"{d}    {v},")
                rows.append(f"    {tag} => {{ |_| {name}::{v} }} {name}::{v}, {name}::{v} => [];")
                continue
            pairs = ", ".join(f"{f} {f}b: {t}" for f, t in zip(fs, ts))
            if st == "t":
                decl.append(f"{d}    {v}({', '.join(ts)}),")
                mk = f"{name}::{v}({', '.join('Gen::gen(s)' for _ in fs)})"
                pa, pb = f"{name}::{v}({', '.join(fs)})", f"{name}::{v}({', '.join(f + 'b' for f in fs)})"
            else:
                ns = R.sample(NAMES, n)
                decl.append(f"{d}    {v} {{ {', '.join(f'{a}: {t}' for a, t in zip(ns, ts))} }},")
                mk = f"{name}::{v} {{ {', '.join(f'{a}: Gen::gen(s)' for a in ns)} }}"
                pa = f"{name}::{v} {{ {', '.join(f'{a}: {f}' for a, f in zip(ns, fs))} }}"
                pb = f"{name}::{v} {{ {', '.join(f'{a}: {f}b' for a, f in zip(ns, fs))} }}"
            rows.append(f"    {tag} => {{ |s| {mk} }} {pa}, {pb} => [{pairs}];")
        o += f"#[derive(Clone, Debug, Default, SlabItem)]\npub enum {name} {{\n" + "\n".join(decl) + "\n}\n"
        o += f"gen_enum!({name}, 1 + {want}, default {name}::V{at}, count {len(spec)}, {{\n" + "\n".join(rows) + "\n});\n"
        names.append(name)
    return o, names

s, sn = structs()
e, en = enums()
head = "//! Generated by gen_derived.py: shapes for the derive macros.\n#![allow(dead_code, unused_variables)]\nuse crate::derived::*;\nuse crate::gen::Gen;\nuse crate::src::Src;\nuse core::marker::PhantomData;\nuse crabslab::{Array, Id, SlabItem};\n\n"
def lists(name, ns, pre):
    return f"#[macro_export]\nmacro_rules! {name} {{\n    ($m:ident) => {{\n        $m! {{ {' '.join(f'{n.lower()}: {pre}{n};' for n in ns)} }}\n    }};\n}}\n"
open(os.path.join(HERE, "derived_more.rs"), "w").write(head + s + "\n" + e + "\n" + lists("more_structs", sn, "derived_more::") + lists("more_enums", en, "derived_more::"))

LEAVES = "u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 f32 f64 bool crabslab::Id<u16> crabslab::Array<f64> core::marker::PhantomData<u32> glam::UVec2 glam::UVec3 glam::UVec4 glam::Vec2 glam::Vec3 glam::Vec4 glam::Quat glam::Mat4".split()
ts = []
for l in LEAVES:
    ts += [f"Option<{l}>", f"[Option<{l}>; 2]", f"({l}, u8, [{l}; 3])"]
ph = "core::marker::PhantomData<u8>"
ts += [f"[{ph}; 3]", f"Option<[{ph}; 2]>", f"({ph},)", f"[({ph}, u8); 3]", "Option<[u32; 0]>", "[[u8; 0]; 2]", "[u32; 32]", "[[u16; 16]; 3]", "[glam::Mat4; 2]",
       "Option<Option<Option<u64>>>", "([u64; 5], Option<[Option<i128>; 3]>, bool)", "[[[u32; 2]; 3]; 2]", "[(u8, u64, [f32; 2]); 4]", f"Option<({ph}, {ph})>"]
open(os.path.join(HERE, "built_more.rs"), "w").write("//! Generated by gen_derived.py: built-in types inside built-in types.\n#[macro_export]\nmacro_rules! built_more {\n    ($m:ident) => {\n        $m! {\n" +
    "".join(f"            b{i}: {t};\n" for i, t in enumerate(ts)) + "        }\n    };\n}\n")
