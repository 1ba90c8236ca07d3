"""The shapes of types the derive macros are verified on: the declarations (/verif/shapes) and their contracts.

Every field type is a parameter unless noted, so a contract holds for all field types."""
import sys
# name, parameters, tuple style, fields (name, type)
STRUCTS = [
    ("S1", "A", False, "a:A"),
    ("S2", "A B", False, "a:A b:B"),
    ("S3", "A B C", False, "zeta:C alpha:A mid_dle:B"),
    ("S4", "A B", False, "a:A b:B c:A d:B"),
    ("S5", "A B C D E", False, "a:A b:B c:C d:D e:E"),
    ("S8", "A B C D E F G H", False, "a:A b:B c:C d:D e:E f:F g:G h:H"),
    ("T1", "A", True, "0:A"),
    ("T2", "A B", True, "0:A 1:B"),
    ("T4", "A B C D", True, "0:A 1:B 2:C 3:D"),
    ("T11", "A B C D E F G H I J K", True, "0:A 1:B 2:C 3:D 4:E 5:F 6:G 7:H 8:I 9:J 10:K"),
    ("Mixed", "A B", False, "index:u32 slab:A pair:(A,u64,) hash:Option<B> __0:bool last:A"),
    ("Nested", "A B", False, "s:S2<A,B> t:T2<B,A> e:E3<A,B,A> u:u8"),
    ("Handles", "A B", False, "id:Id<A> array:Array<B> ph:PhantomData<A> a:A"),
]
# many fields, none at all, runs of one type, fields without words
STRUCTS += [
    ("S6", "A", False, "f5:A f4:A f3:A f2:A f1:A f0:A"),
    ("S7", "A B", False, "p:PhantomData<A> a:A q:PhantomData<B> r:PhantomData<A> b:B c:A"),
    ("S11", "A B C", False, "k:A j:B i:C h:A g:A f:B e:C d:B c:A b:C a:B"),
    ("S15", "A B C D E F G H I J K L M N O", False, "o:A n:B m:C l:D k:E j:F i:G h:H g:I f:J e:K d:L c:M b:N a:O"),
    ("T9", "A", True, " ".join(f"{i}:A" for i in range(9))),
    ("T16", "A B C D E F G H I J K L M N O P", True, " ".join(f"{i}:{c}" for i, c in enumerate("ABCDEFGHIJKLMNOP"))),
]
# name, parameters, variants (name, style: u unit, t tuple, n named, fields), default variant
ENUMS = [
    ("E1", "", [("Only", "u", "")], "Only"),
    ("EUnits", "", [("A", "u", ""), ("B", "u", ""), ("C", "u", "")], "B"),
    ("E2", "A", [("Some", "t", "A"), ("Nil", "u", "")], "Nil"),
    ("E3", "A B C", [("X", "u", ""), ("Y", "n", "a:A b:B"), ("Z", "t", "C")], "X"),
    ("E4", "A B C D", [("P", "t", "A B C"), ("Q", "n", "d:D"), ("R", "u", ""), ("S", "t", "D A")], "R"),
    ("E5", "A B C", [("N", "n", "zeta:C alpha:A mid:B"), ("Unit", "u", ""), ("M", "n", "mid:A alpha:B zeta:C"), ("K", "t", "B B A C")], "Unit"),
    ("EMany", "A B", [("V0", "u", ""), ("V1", "t", "A"), ("V2", "t", "A A"), ("V3", "t", "B A B"), ("V4", "n", "a:A"), ("V5", "u", ""), ("V6", "t", "B"),
                      ("V7", "n", "b:B a:A"), ("V8", "t", "A A A A"), ("V9", "u", ""), ("V10", "t", "A B"), ("V11", "n", "t:B u:A v:A w:B"), ("V12", "u", "")], "V9"),
    ("EHygiene", "A B", [("V", "n", "__hash:u32 hash:A __size:B"), ("W", "t", "A B"), ("U", "u", ""), ("X", "n", "__1:A __0:B variant:u32")], "U"),
    ("ENested", "A B", [("A0", "t", "E3<A,B,A> u8"), ("B0", "n", "p:S2<A,B> q:Option<A>"), ("C0", "t", "PhantomData<A>"), ("D0", "u", "")], "D0"),
]
# many fields, none at all, runs of one type, fields without words
ENUMS += [
    ("E11", "A B C D E F G H I J K", [("Tup", "t", "A B C D E F G H I J K"), ("U", "u", "")], "U"),
    ("E11A", "A B", [("Tup", "t", "A B A A B B A A A B B"), ("U", "u", "")], "U"),
    ("E12", "A B C D E F G H I J K L", [("U", "u", ""), ("Nam", "n", "l:A k:B j:C i:D h:E g:F f:G e:H d:I c:J b:K a:L")], "U"),
    ("ERun4", "A B", [("R4", "t", "A A A A"), ("U", "u", ""), ("R3", "t", "B B B")], "U"),
    ("ERun5", "A", [("R5", "t", "A A A A A"), ("R3", "t", "A A A"), ("U", "u", "")], "U"),
    ("ERun7", "A B", [("R7", "t", "A A A B B B B"), ("U", "u", "")], "U"),
    ("ERun6", "A", [("U", "u", ""), ("R6", "n", "f:A e:A d:A c:A b:A a:A")], "U"),
    ("EEmpty", "A", [("T", "t", ""), ("N", "n", ""), ("A", "t", "A"), ("U", "u", "")], "U"),
    ("EZero", "A B", [("Ph", "t", "PhantomData<A>"), ("PhA", "t", "PhantomData<A> A"), ("APhB", "t", "A PhantomData<B> B"), ("Q", "n", "z:PhantomData<B> y:B x:PhantomData<A>"), ("U", "u", "")], "U"),
    ("ERepeat", "A B C", [("P", "t", "A B C"), ("Q", "t", "A B C"), ("R", "t", "C B A"), ("S", "n", "a:A b:B c:C"), ("T", "n", "c:C b:B a:A"), ("U", "u", "")], "U"),
]
# explicit discriminants say nothing about the tags
ENUMS += [
    ("EDisc", "", [("A", "u=3", ""), ("B", "u=5", ""), ("C", "u", ""), ("D", "u=1", "")], "B"),
    ("EDiscFields", "A B", [("P", "t=7", "A"), ("Q", "n=2", "b:B a:A"), ("R", "u=0", ""), ("S", "u", "")], "S"),
    ("EWide", "A", [(f"W{i}", "u", "") for i in range(258)] + [("Last", "t", "A")], "W257"),
]
DISC = {(e[0], v[0]): v[1].split("=")[1] for e in ENUMS for v in e[2] if "=" in v[1]}
ENUMS = [(n, ps, [(v, st.split("=")[0], fs) for v, st, fs in vs], d) for n, ps, vs, d in ENUMS]
HAND_DEFAULT = {"ENested"}

def params(ps, bound="SlabItem"):
    ps = ps.split()
    return ("<" + ", ".join(p + (": " + bound if bound else "") for p in ps) + ">") if ps else ""

def bounds(body):
    """Option<X> is an item only for X: Default."""
    import re
    return sorted(set(re.findall(r"Option<(\w)>", body)))

def gen(name, ps, body, with_default):
    need = set(bounds(body))
    # transitively: none of the nested shapes use Option
    out = ", ".join(p + ": SlabItem" + (" + Default" if p in need else "") for p in ps.split())
    return f"<{out}>" if out else ""

def strip(t): return t.replace("(A,u64,)", "(A, u64)")

def fields(s, style=True):
    return [tuple(f.split(":", 1)) for f in s.split()]

def body_of(vs): return any(v[2] for v in vs)

def rust():
    o = "//! Declarations on which the derive macros are verified; generated by /verif/verus/shapes.py.\n#![allow(dead_code, non_camel_case_types)]\nuse core::marker::PhantomData;\nuse crabslab::{Array, Id, SlabItem};\n\n"
    for n, ps, tup, fs in STRUCTS:
        g = gen(n, ps, fs, False)
        o += "#[derive(SlabItem)]\n#[offsets]\n"
        fl = fields(fs)
        if tup:
            o += f"pub struct {n}{g}({', '.join('pub ' + strip(t) for _, t in fl)});\n\n"
        else:
            o += f"pub struct {n}{g} {{\n" + "".join(f"    pub {f}: {strip(t)},\n" for f, t in fl) + "}\n\n"
    for n, ps, vs, d in ENUMS:
        g = gen(n, ps, " ".join(v[2] for v in vs), False)
        hand = n in HAND_DEFAULT
        if any(k[0] == n for k in DISC) and body_of(vs):
            o += "#[repr(u32)]\n"
        o += f"#[derive({'' if hand else 'Default, '}SlabItem)]\npub enum {n}{g} {{\n"
        for v, st, fs in vs:
            disc = f" = {DISC[n, v]}" if (n, v) in DISC else ""
            if v == d and not hand:
                o += "    #[default]\n"
            if st == "u":
                o += f"    {v}{disc},\n"
            elif st == "t":
                o += f"    {v}({', '.join(fs.split())}){disc},\n"
            else:
                o += f"    {v} {{ {', '.join(f'{a}: {strip(t)}' for a, t in fields(fs))} }}{disc},\n"
        o += "}\n\n"
        if hand:
            o += f"impl{g} Default for {n}{params(ps, '')} {{\n    fn default() -> Self {{\n        {n}::{d}\n    }}\n}}\n\n"
    return o

def szs(tys):
    return [f"<{t} as SlabItem>::size()" for t in tys]

def sub(tys, i, base="0"):
    pre = " + ".join([base] + szs(tys)[:i])
    post = " + ".join([base] + szs(tys)[:i + 1])
    return f"s.subrange(({pre}) as int, ({post}) as int)"

def struct_tmpl(n, ps, tup, fs):
    fl = fields(fs); tys = [t for _, t in fl]; names = [f for f, _ in fl]
    need = bounds(fs)
    g = gen(n, ps, fs, True)
    ty = n + params(ps, "")
    k = "shapes"
    size = " + ".join(szs(tys)) or "0"
    enc = " && ".join(f"self.{f}.enc_ok({sub(tys, i)})" for i, f in enumerate(names)) or "true"
    vals = [f"<{t} as SlabItem>::dec({sub(tys, i)})" for i, t in enumerate(tys)]
    mk = lambda vals: (f"{n}({', '.join(vals)})" if tup else f"{n} {{ {', '.join(f'{f}: {v}' for f, v in zip(names, vals))} }}")
    rt = " ".join(f"self.{f}.round_trip({sub(tys, i)});" for i, f in enumerate(names))
    import build
    o = f"//@struct {k} :: {n}\n"
    cont = f"impl SlabItem for {n}{('<' + ','.join(ps.split()) + '>') if ps else ''}"
    o += build.impl(k, cont, f"impl{g} SlabItem for {ty}", size, enc, mk(vals), proof=rt)
    ic = cont.replace("impl SlabItem for ", "impl ")
    o += f"impl{g} {ty} {{\n"
    for i, (f, t) in enumerate(fl):
        pre = " + ".join(["0"] + szs(tys)[:i])
        o += f"//@const {k} :: {ic} :: OFFSET_OF_{f.upper()}\n    ensures r.offset == ({pre}) as u32,\n//@start\n    proof {{ assert(<{ty} as SlabItem>::size() <= usize::MAX); }}\n//@endfn\n"
        o += f"//@const {k} :: {ic} :: SLAB_SIZE_OF_{f.upper()}\n    ensures r == {szs(tys)[i]},\n//@endfn\n"
    o += "}\n"
    # C04
    for i, (f, t) in enumerate(fl):
        pre = " + ".join(["0"] + szs(tys)[:i])
        others = []
        vals2 = [("f2" if j == i else f"v.{fj}") for j, fj in enumerate(names)]
        others = " ".join(f"assert(w2.subrange(id.0 + ({' + '.join(['0'] + szs(tys)[:j])}), id.0 + ({' + '.join(['0'] + szs(tys)[:j+1])})) == w.subrange(id.0 + ({' + '.join(['0'] + szs(tys)[:j])}), id.0 + ({' + '.join(['0'] + szs(tys)[:j+1])})));"
                          for j in range(len(fl)) if j != i)
        o += f"""
/// C04: `id + {n}::OFFSET_OF_{f.upper()}` is the id of field `{f}` of the value at `id`.
pub proof fn offset_{n}_{f}{g}(w: Seq<u32>, id: Id<{ty}>, v: {ty}, off: Offset<{t}, {ty}>, w2: Seq<u32>, f2: {t})
    requires
        has(w, id), v.enc_ok(w.subrange(id.0 as int, id.0 + <{ty} as SlabItem>::size())),
        off.offset == ({pre}) as u32, w.len() <= u32::MAX,
    ensures
        id.0 + off.offset <= u32::MAX,
        ({{ let fid: Id<{t}> = Id((id.0 + off.offset) as u32, PhantomData);
            &&& has(w, fid) && value(w, fid) == v.{f}
            &&& (f2.enc_ok(w2.subrange(fid.0 as int, fid.0 + {szs(tys)[i]})) && same_outside(w2, w, fid.0 as int, fid.0 + {szs(tys)[i]}))
                    ==> value(w2, id) == ({mk(vals2)}) }}),
{{
    let s = w.subrange(id.0 as int, id.0 + <{ty} as SlabItem>::size());
    let fid: Id<{t}> = Id((id.0 + off.offset) as u32, PhantomData);
    v.round_trip(s);
    v.{f}.round_trip({sub(tys, i)});
    assert({sub(tys, i)} == w.subrange(fid.0 as int, fid.0 + {szs(tys)[i]}));
    if f2.enc_ok(w2.subrange(fid.0 as int, fid.0 + {szs(tys)[i]})) && same_outside(w2, w, fid.0 as int, fid.0 + {szs(tys)[i]}) {{
        {others}
        let r: {ty} = {mk(vals2)};
        assert(r.enc_ok(w2.subrange(id.0 as int, id.0 + <{ty} as SlabItem>::size())));
        r.round_trip(w2.subrange(id.0 as int, id.0 + <{ty} as SlabItem>::size()));
    }}
}}
"""
    return o

def enum_tmpl(n, ps, vs, d):
    import build
    body = " ".join(v[2] for v in vs)
    g = gen(n, ps, body, True)
    ty = n + params(ps, "")
    k = "shapes"
    size = "0"
    info = []
    for v, st, fs in vs:
        fl = fields(fs) if st == "n" else [(f"x{i}", t) for i, t in enumerate(fs.split())]
        tys = [t for _, t in fl]
        info.append((v, st, fl, tys))
        if tys:
            size = f"mx({size}, {' + '.join(szs(tys))})"
    size = f"1 + {size}" if size != "0" else "1"
    def pat(v, st, fl):
        return f"{n}::{v}" + ("" if st == "u" else "(" + ", ".join(f for f, _ in fl) + ")" if st == "t" else " { " + ", ".join(f for f, _ in fl) + " }")
    def mk(v, st, fl, tys):
        vals = [f"<{t} as SlabItem>::dec({sub(tys, i, '1')})" for i, t in enumerate(tys)]
        return f"{n}::{v}" + ("" if st == "u" else "(" + ", ".join(vals) + ")" if st == "t" else " { " + ", ".join(f"{f}: {x}" for (f, _), x in zip(fl, vals)) + " }")
    enc = "match self { " + ", ".join(
        f"{pat(v, st, fl)} => " + " && ".join([f"{i}u32.enc_ok(s.subrange(0, 1))"] + [f"{f}.enc_ok({sub(tys, j, '1')})" for j, (f, _) in enumerate(fl)])
        for i, (v, st, fl, tys) in enumerate(info)) + " }"
    dec = " else ".join(f"if s[0] == {i} {{ {mk(v, st, fl, tys)} }}" for i, (v, st, fl, tys) in enumerate(info)) + f" else {{ {n}::{d} }}"
    rt = "match self { " + ", ".join(
        f"{pat(v, st, fl)} => {{ {i}u32.round_trip(s.subrange(0, 1)); " + " ".join(f"{f}.round_trip({sub(tys, j, '1')});" for j, (f, _) in enumerate(fl)) + " }"
        for i, (v, st, fl, tys) in enumerate(info)) + " }"
    gp = ('<' + ','.join(ps.split()) + '>') if ps else ''
    o = f"//@struct {k} :: {n}\n"
    o += f"impl{g} Default for {ty} {{\n//@fn {k} :: impl Default for {n}{gp} :: default\n    ensures r == ({n}{('::' + params(ps, '')) if ps else ''}::{d}),\n//@endfn\n}}\n"
    o += build.impl(k, f"impl SlabItem for {n}{gp}", f"impl{g} SlabItem for {ty}", size, enc, dec, proof=rt)
    return o

def tmpl():
    o = """
pub open spec fn mx(a: nat, b: nat) -> nat { if a >= b { a } else { b } }
"""
    return o

if __name__ == "__main__":
    sys.stdout.write(rust())
