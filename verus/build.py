"""Assembles the Verus templates (contract text); `//@` directives are filled in by /verif/extract."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
def rd(f): return open(os.path.join(HERE, f)).read()

def impl(key, container, header, size, enc, dec, proof="", read="", write="", size_hint=""):
    """An implementation of SlabItem under the trait's contract."""
    return f"""
{header} {{
    open spec fn size() -> nat {{ {size} }}
    open spec fn enc_ok(self, s: Seq<u32>) -> bool {{ {enc} }}
    open spec fn dec(s: Seq<u32>) -> Self {{ {dec} }}
    proof fn round_trip(self, s: Seq<u32>) {{ broadcast use {{super::lemmas::lemma_sub_sub}}; {proof} }}
    //@const {key} :: {container} :: SLAB_SIZE
    {('//@start' + chr(10) + size_hint) if size_hint else ''}
    //@endfn
    //@fn {key} :: {container} :: read_slab
    {read}
    //@endfn
    //@fn {key} :: {container} :: write_slab
    {write}
    //@endfn
}}
"""

def small(t):
    bv = f"assert(forall|x: {t}| #[trigger] ((x as u32) as {t}) == x) by (bit_vector);" if t.startswith("i") else ""
    return impl("crabslab", f"impl SlabItem for {t}", f"impl SlabItem for {t}", "1", "s[0] == self as u32", f"s[0] as {t}", proof=bv)

def big(t, n):
    enc = " && ".join(f"s[{i}] == (self >> {32*i}) as u32" for i in range(n))
    dec = "{ let a: %s = 0; %s }" % (t, "a" + "".join(f" | ((s[{i}] as {t}) << {32*i})" for i in range(n)))
    words = ", ".join(f"w{i}: u32" for i in range(n))
    lhs = "0" + "".join(f" | ((w{i} as {t}) << {32*i})" for i in range(n))
    rt = (f"let v = self; " + "".join(f"let w{i}: u32 = (v >> {32*i}) as u32; " for i in range(n)) +
          f"assert(v == ({lhs})) by (bit_vector) requires " + ", ".join(f"w{i} == (v >> {32*i}) as u32" for i in range(n)) + ";")
    return impl("crabslab", f"impl SlabItem for {t}", f"impl SlabItem for {t}", str(n), enc, dec, proof=rt)

def handle_items():
    o = ""
    o += impl("crabslab", "impl SlabItem for Id<T>", "impl<T> SlabItem for Id<T>", "1", "s[0] == self.0", "Id(s[0], PhantomData)")
    o += impl("crabslab", "impl SlabItem for Array<T>", "impl<T: SlabItem> SlabItem for Array<T>", "2", "self.index.enc_ok(s.subrange(0, 1)) && self.len.enc_ok(s.subrange(1, 2))",
              "Array { index: s[0], len: s[1], _phantom: PhantomData }")
    return o

def special():
    o = impl("crabslab", "impl SlabItem for f32", "impl SlabItem for f32", "1", "s[0] == bits32(self)", "float32(s[0])",
             proof="broadcast use bits32_float32;")
    o += impl("crabslab", "impl SlabItem for f64", "impl SlabItem for f64", "2", "bits64(self).enc_ok(s)", "float64(u64::dec(s))",
              proof="broadcast use bits64_float64; bits64(self).round_trip(s);")
    o += impl("crabslab", "impl SlabItem for bool", "impl SlabItem for bool", "1", "s[0] == if self { 1u32 } else { 0u32 }", "s[0] == 1")
    o += impl("crabslab", "impl SlabItem for PhantomData<T>", "impl<T> SlabItem for PhantomData<T>", "0", "true", "PhantomData")
    o += impl("crabslab", "impl SlabItem for Option<T>", "impl<T: SlabItem + Default> SlabItem for Option<T>", "1 + T::size()",
              "match self { Some(t) => 1u32.enc_ok(s.subrange(0, 1)) && t.enc_ok(s.subrange(1, 1 + T::size() as int)), None => 0u32.enc_ok(s.subrange(0, 1)) }",
              "if s[0] == 1 { Some(T::dec(s.subrange(1, 1 + T::size() as int))) } else { None }")
    el = "s.subrange(nw(T::size(), k as nat) as int, (nw(T::size(), k as nat) + T::size()) as int)"
    o += impl("crabslab", "impl SlabItem for [T;N]", "impl<T: SlabItem + Copy + Default, const N: usize> SlabItem for [T; N] where [T; N]: Default",
              "nw(T::size(), N as nat)", f"forall|k: int| 0 <= k < N ==> #[trigger] self[k].enc_ok({el})",
              f"arr::<T, N>(Seq::new(N as nat, |k: int| T::dec({el})))",
              proof=f"""
        let q = Seq::new(N as nat, |k: int| T::dec({el}));
        assert forall|k: int| 0 <= k < N implies #[trigger] q[k] == self@[k] by {{
            assert(self[k].enc_ok({el}));
            lemma_nw_le(T::size(), (k + 1) as nat, N as nat);
            lemma_nw_step(T::size(), k as nat);
            self[k].round_trip({el});
        }}
        assert(q =~= self@);
        lemma_arr::<T, N>(self);""",
              read="""//@loop 0
        invariant __i0 <= __e0, __e0 == N, index + nw(T::size(), N as nat) <= slab@.len() <= usize::MAX,
            forall|k: int| 0 <= k < __i0 ==> #[trigger] array@[k] == T::dec(slab@.subrange(index + nw(T::size(), k as nat), index + nw(T::size(), k as nat) + T::size())),
        decreases __e0 - __i0
//@body 0
        proof { lemma_nw_le(T::size(), __i0 as nat, N as nat); lemma_nw_step(T::size(), (__i0 - 1) as nat); assert(T::size() <= usize::MAX);
            lemma_nw_def(T::size(), (__i0 - 1) as nat); }
//@end
        proof {
            let s0 = slab@.subrange(index as int, index + Self::size());
            let q = Seq::new(N as nat, |k: int| T::dec(s0.subrange(nw(T::size(), k as nat) as int, (nw(T::size(), k as nat) + T::size()) as int)));
            assert forall|k: int| 0 <= k < N implies #[trigger] q[k] == __r@[k] by {
                lemma_nw_le(T::size(), (k + 1) as nat, N as nat);
                lemma_nw_step(T::size(), k as nat);
            }
            assert(q =~= __r@);
            lemma_arr::<T, N>(__r);
        }
""",
              write="""//@start
        let ghost index0 = index as int;
//@loop 0
        invariant __i0 <= __e0, __e0 == N, 0 <= index0, index0 + nw(T::size(), N as nat) <= old(slab)@.len(), slab@.len() == old(slab)@.len(),
            index == index0 + nw(T::size(), __i0 as nat),
            forall|k: int| 0 <= k < __i0 ==> #[trigger] self[k].enc_ok(slab@.subrange(index0 + nw(T::size(), k as nat), index0 + nw(T::size(), k as nat) + T::size())),
            forall|i: int, j: int| 0 <= i <= j <= slab@.len() && (j <= index0 || index <= i) ==> #[trigger] slab@.subrange(i, j) == old(slab)@.subrange(i, j),
        decreases __e0 - __i0
//@body 0
        let ghost slab1 = slab@;
        proof { lemma_nw_le(T::size(), __i0 as nat, N as nat); lemma_nw_step(T::size(), (__i0 - 1) as nat); }
//@bodyend 0
        proof {
            assert forall|k: int| 0 <= k < __i0 implies #[trigger] self[k].enc_ok(slab@.subrange(index0 + nw(T::size(), k as nat), index0 + nw(T::size(), k as nat) + T::size())) by {
                if k < __i0 - 1 {
                    lemma_nw_le(T::size(), (k + 1) as nat, (__i0 - 1) as nat);
                    lemma_nw_step(T::size(), k as nat);
                    assert(nw(T::size(), k as nat) + T::size() <= nw(T::size(), (__i0 - 1) as nat));
                    assert(self[k].enc_ok(slab1.subrange(index0 + nw(T::size(), k as nat), index0 + nw(T::size(), k as nat) + T::size())));
                    assert(slab@.subrange(index0 + nw(T::size(), k as nat), index0 + nw(T::size(), k as nat) + T::size()) == slab1.subrange(index0 + nw(T::size(), k as nat), index0 + nw(T::size(), k as nat) + T::size()));
                }
            }
        }
//@end
        proof {
            assert forall|k: int| 0 <= k < N implies #[trigger] self[k].enc_ok(slab@.subrange(index0, index0 + Self::size()).subrange(nw(T::size(), k as nat) as int, (nw(T::size(), k as nat) + T::size()) as int)) by {
                lemma_nw_le(T::size(), (k + 1) as nat, N as nat);
                lemma_nw_step(T::size(), k as nat);
                assert(self[k].enc_ok(slab@.subrange(index0 + nw(T::size(), k as nat), index0 + nw(T::size(), k as nat) + T::size())));
            }
        }
""")
    return o

def tup(n):
    ns = [chr(65 + i) for i in range(n)]
    off = lambda i: " + ".join(f"{x}::size()" for x in ns[:i]) or "0"
    sub = lambda i: f"s.subrange({off(i)} as int, ({off(i+1)}) as int)" if i else f"s.subrange(0, {ns[0]}::size() as int)"
    ty = "(" + ", ".join(ns) + ",)"
    return impl("crabslab", f"impl SlabItem for ({','.join(ns)})", f"impl<{', '.join(x + ': SlabItem' for x in ns)}> SlabItem for {ty}",
                off(n), " && ".join(f"self.{i}.enc_ok({sub(i)})" for i in range(n)),
                "(" + ", ".join(f"{x}::dec({sub(i)})" for i, x in enumerate(ns)) + ",)")


def glam_struct(name, fields, ctor, elem):
    """glam is not verified: a stand-in with the same fields and constructor."""
    args = ", ".join(f"{f}: {elem}" for f in fields)
    ens = ", ".join(f"r.{f} == {f}" for f in fields)
    st = f"""
/// Stand-in for glam::{name} (assumed: the constructor sets the fields).
#[derive(Clone, Copy)]
pub struct {name} {{ {", ".join(f"pub {f}: {elem}" for f in fields)} }}
impl {name} {{
    pub fn {ctor}({args}) -> (r: {name}) ensures {ens} {{ {name} {{ {", ".join(fields)} }} }}
}}
"""
    n = 1 if elem in ("f32", "u32") else 4
    k = len(fields)
    sub = lambda i: f"s.subrange({i*n}, {i*n+n})"
    return st + impl("crabslab", f"impl SlabItem for {name}", f"impl SlabItem for {name}", str(n * k),
        " && ".join(f"self.{f}.enc_ok({sub(i)})" for i, f in enumerate(fields)),
        f"{name} {{ " + ", ".join(f"{f}: {elem}::dec({sub(i)})" for i, f in enumerate(fields)) + " }",
        proof=" ".join(f"self.{f}.round_trip({sub(i)});" for i, f in enumerate(fields)))

def glam():
    o = ""
    for name, fields, ctor, elem in [("Vec2", "x y", "new", "f32"), ("Vec3", "x y z", "new", "f32"), ("Vec4", "x y z w", "new", "f32"),
                                     ("Quat", "x y z w", "from_xyzw", "f32"), ("UVec2", "x y", "new", "u32"), ("UVec3", "x y z", "new", "u32"),
                                     ("UVec4", "x y z w", "new", "u32"), ("Mat4", "x_axis y_axis z_axis w_axis", "from_cols", "Vec4")]:
        o += glam_struct(name, fields.split(), ctor, elem)
    return o

def bits():
    """How words are put together may be written in any order, and a shift by 32 * i as one of i << 5."""
    o, ors, shifts = "", [], []
    def lemma(name, params, ens, req=""):
        nonlocal o
        ors.append(name)
        o += f"pub broadcast proof fn {name}({params}) {req} ensures {ens} {{ assert({ens.replace('#[trigger] ', '')}) by (bit_vector) {req}; }}\n"
    for t in ["u64", "i64", "u128", "i128"]:
        lemma(f"or_comm_{t}", f"a: {t}, b: {t}", f"#[trigger] (a | b) == (b | a)")
        lemma(f"or_zero_{t}", f"a: {t}", f"#[trigger] (a | 0) == a")
        lemma(f"or_assoc_{t}", f"a: {t}, b: {t}, c: {t}", f"#[trigger] ((a | b) | c) == (a | (b | c))")
    for t in ("usize", "u32", "u64"):
        for k in (1, 2, 5):
            shifts.append(f"shl_{k}_{t}")
            o += (f"pub broadcast proof fn shl_{k}_{t}(i: {t}) requires i * {2 ** k} <= {t}::MAX ensures #[trigger] (i << {k}) == i * {2 ** k} "
                  f"{{ vstd::arithmetic::power2::lemma2_to64(); vstd::bits::lemma_{t}_shl_is_mul(i, {k}); }}\n")
            shifts.append(f"shr_{k}_{t}")
            o += (f"pub broadcast proof fn shr_{k}_{t}(i: {t}) ensures #[trigger] (i >> {k}) == i / {2 ** k} "
                  f"{{ vstd::arithmetic::power2::lemma2_to64(); vstd::bits::lemma_{t}_shr_is_div(i, {k}); }}\n")
    for g, names in (("ors", ors), ("shifts", shifts)):
        o += f"pub broadcast group {g} {{ {', '.join(names)} }}\n"
    return f"pub mod bits {{\nuse super::*;\n{o}}}\npub use bits::*;\n"

def module(name, text, use=()):
    return f"""pub mod {name} {{
use super::*;
use core::marker::PhantomData;
broadcast use {{{", ".join(["lemma_sub_sub", "size_fits", "SlabItem::round_trip", *use])}}};
{text}
}}
pub use {name}::*;
"""

def base():
    return (rd("base.tmpl").replace("{{SPECS}}", rd("handle_specs.tmpl")) + bits() + rd("layout.tmpl")
            + rd("core_items.tmpl").replace("{{HANDLES}}", rd("handles.tmpl") + small("u32") + handle_items()))

def items():
    o = module("words", "".join(small(t) for t in ["u8", "i8", "u16", "i16", "i32"]))
    o += module("wide", "".join(big(t, n) for t, n in [("u64", 2), ("i64", 2), ("u128", 4), ("i128", 4)]), ["ors", "shifts"])
    o += module("special", special())
    o += module("vectors", glam())
    for ns in ([1, 2, 3, 4, 5, 6, 7], [8, 9, 10], [11], [12], [13]):
        o += module("tuples" + "_".join(map(str, ns)), "".join(tup(n) for n in ns))
    return o

def end(): return "\nfn main() {}\n} // verus!\n"

def core():
    """The items and handles of crabslab: C01, C02, C08 and what the others rest on."""
    return base() + items() + end()

def slabs():
    """The slabs of crabslab: C05 to C07 (module slabs; the rest is verified in core)."""
    return base() + rd("slabs.tmpl") + end()

def derived():
    """The derive macros: C03, C04 (modules shape_*; the rest is verified in core)."""
    import shapes
    o = base() + items() + module("shape_common", shapes.tmpl())
    for n, ps, tup_, fs in shapes.STRUCTS:
        o += module("shape_" + n, shapes.struct_tmpl(n, ps, tup_, fs))
    for n, ps, vs, d in shapes.ENUMS:
        o += module("shape_" + n, shapes.enum_tmpl(n, ps, vs, d))
    return o + end()

def ranges():
    """The range manager: C09, C10 (modules range*)."""
    return base() + rd("slabs.tmpl") + rd("ranges.tmpl") + rd("updates.tmpl") + end()

def alloc(more=""):
    """The allocator and its values: C11 to C17."""
    return (base() + rd("slabs.tmpl") + rd("ranges.tmpl") + rd("updates.tmpl") + rd("heap.tmpl") + rd("runtimes.tmpl")
            + rd("alloc.tmpl") + rd("values.tmpl") + rd("history.tmpl") + more + end()).replace("use vstd::prelude", "#![feature(allocator_api)]\nuse vstd::prelude", 1)

def gpu():
    """The runtime on wgpu: C19 (module gpu)."""
    return alloc(rd("gpu.tmpl"))

if __name__ == "__main__":
    import sys
    sys.stdout.write(globals()[sys.argv[1]]())
