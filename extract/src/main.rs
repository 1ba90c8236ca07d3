//! Mechanical extraction of the functions of /repo into Verus input.
//!
//! extract <template> <out.rs> <out.json> [--base <names-file>] key=path ...
//!
//! A template is Verus text (contracts, spec functions, lemmas, impl headers). Its directive lines
//! are replaced by the text of the functions found in the sources:
//!
//! //@fn <key> :: <container> :: <name>   function with its body; the following sections apply
//! //@const <key> :: <container> :: <NAME>  associated constant, lifted to a function of no arguments
//! //@struct <key> :: <Name>              type definition, fields made public
//! //@ignore <key> :: <container> :: <name>  a function that is knowingly not under contract
//!   (lines up to the next section)       the contract (requires/ensures)
//! //@ret <name>                          name of the return value (default r)
//! //@opt <word> ..                       selfmut: `&self` becomes `&mut self`; keepconst; nopub
//! //@sig <text>                          replaces the printed signature (reported as normalisation)
//! //@param <text>                       appends a parameter (the heap; see //@heap)
//! //@heap <recv>.<m> => <m2>(<args>)    calls of <m> on <recv> (last identifier of the receiver, `*` any, `A::f` a path)
//!                                       become <m2> with <args> appended: the heap that interior mutability refers to.
//!                                       Outside of a function it holds for all that follow, up to //@noheap
//! //@heapnew <name> <args>              cells created for the field or variable <name> get <args>
//! //@heapdefault <name> <expr>          `<name>: Default::default()` creates the cell <expr>
//! //@loop <n>                            invariants and decreases of loop n
//! //@byval <n>                           loop n iterates a Vec by value (items are Copy)
//! //@closure <n> <type> => <contract>   type of the parameter and contract of closure n; $0 is the parameter
//! //@body <n>  //@bodyend <n>            proof text at the start / end of the body of loop n
//! //@before <n>  //@after <n>            proof text before / after loop n
//! //@start  //@end                       proof text at the start / before the tail expression of the function
//! //@return <n>                          proof text before return number n (its value is __r)
//! //@pre <f> <n>  //@post <f> <n>        proof text before / after the statement with the n-th call of f
//! //@end..                               closes the function: `//@endfn`
//!
//! What the extraction drops or rewrites is listed in the `normalisations` of the JSON output.
mod heap;
mod index;
mod xform;

use index::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

#[derive(Default, Debug)]
pub struct Annot {
    pub spec: String,
    pub ret: String,
    pub opts: Vec<String>,
    pub sig: Option<String>,
    pub loops: BTreeMap<usize, BTreeMap<&'static str, String>>,
    pub byval: BTreeSet<usize>,
    pub start: String,
    pub end: String,
    /// proof text before a return, by its number
    pub rets: BTreeMap<usize, String>,
    /// proof text before ("pre") or after ("post") the statement with the n-th call of a function
    pub calls: BTreeMap<(String, usize, &'static str), String>,
    pub subst: Vec<(String, String)>,
    pub params: Vec<String>,
    pub heap: Heap,
    /// loops that consume a Vec ("move") or a set ("set")
    pub consume: BTreeMap<usize, &'static str>,
    /// type of the parameter and contract of closures, by their number
    pub closures: BTreeMap<usize, (String, String)>,
    /// what `E.into()` stands for
    pub into: Option<String>,
}

#[derive(Default, Debug, Clone)]
pub struct Heap {
    /// (receiver, method, new method, arguments)
    pub calls: Vec<(String, String, String, String)>,
    pub news: Vec<(String, String)>,
    pub defaults: Vec<(String, String)>,
}
impl Heap {
    fn read(&mut self, line: &str) -> bool {
        let Some((w, rest)) = line.trim().strip_prefix("//@").and_then(|d| d.split_once(' ')) else { return false };
        match w {
            "heap" => {
                let (pat, to) = rest.split_once("=>").expect("heap pattern => call");
                let (recv, m) = match pat.trim().rsplit_once("::") {
                    Some((a, f)) => (format!("{a}::"), f),
                    None => { let (r, m) = pat.trim().rsplit_once('.').expect("receiver.method"); (r.to_string(), m) }
                };
                let (name, args) = to.trim().split_once('(').expect("call");
                self.calls.push((recv, m.into(), name.trim().into(), args.trim().strip_suffix(')').expect("call").into()));
            }
            "heapnew" => { let (a, b) = rest.trim().split_once(' ').unwrap(); self.news.push((a.into(), b.into())) }
            "heapdefault" => { let (a, b) = rest.trim().split_once(' ').unwrap(); self.defaults.push((a.into(), b.into())) }
            _ => return false,
        }
        true
    }
}

pub struct Rec {
    pub id: String,
    pub kind: &'static str,
    pub first: usize,
    pub last: usize,
    pub skeleton: Vec<String>,
    pub norm: BTreeSet<String>,
    pub inlined: Vec<String>,
    pub file: String,
    pub unused_loops: bool,
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl<'a>(v: impl IntoIterator<Item = &'a String>) -> String {
    format!("[{}]", v.into_iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args[0] == "--names" {
        // names of all functions of a source, one per line
        for a in &args[1..] {
            let (k, p) = a.split_once('=').unwrap();
            let mut ix = Index::default();
            ix.load(k, p);
            for (_, c, n) in ix.fns.keys() {
                println!("{k} :: {c} :: {n}");
            }
        }
        return;
    }
    let (template, out_rs, out_json) = (&args[0], &args[1], &args[2]);
    let mut ix = Index::default();
    let mut base: BTreeSet<String> = BTreeSet::new();
    let mut it = args[3..].iter();
    while let Some(a) = it.next() {
        if a == "--base" {
            if let Ok(t) = std::fs::read_to_string(it.next().unwrap()) {
                base = t.lines().map(|l| l.to_string()).collect();
            }
            continue;
        }
        let (k, p) = a.split_once('=').expect("key=path");
        ix.load(k, p);
    }
    for (k, c, n) in ix.fns.keys() {
        let id = format!("{k} :: {c} :: {n}");
        if !base.is_empty() && !base.contains(&id) {
            ix.new_fns.insert((k.clone(), c.clone(), n.clone()));
        }
    }
    let text = std::fs::read_to_string(template).expect("template");
    let lines: Vec<&str> = text.lines().collect();
    // constants that are lifted
    for l in &lines {
        if let Some(r) = l.trim().strip_prefix("//@const ") {
            let (_, _, n) = split_id(r);
            ix.lifted.insert(n);
        }
    }
    let mut out: Vec<String> = vec![];
    let mut recs: Vec<Rec> = vec![];
    let mut missing: Vec<String> = vec![];
    let mut covered: BTreeSet<(String, String, String)> = BTreeSet::new();
    let mut containers: BTreeSet<(String, String)> = BTreeSet::new();
    let mut i = 0;
    let mut heap = Heap::default();
    while i < lines.len() {
        let l = lines[i].trim();
        if l == "//@noheap" {
            heap = Heap::default();
            i += 1;
        } else if heap.read(l) {
            i += 1;
        } else if let Some(r) = l.strip_prefix("//@ignore ") {
            let id = split_id(r);
            containers.insert((id.0.clone(), id.1.clone()));
            covered.insert(id);
            i += 1;
        } else if let Some(r) = l.strip_prefix("//@struct ") {
            let (k, n) = r.split_once(" :: ").unwrap();
            match ix.types.get(&(k.trim().to_string(), n.trim().to_string())) {
                Some(item) => {
                    let t = xform::type_text(item);
                    let first = out.len() + 1;
                    out.extend(t.lines().map(|s| s.to_string()));
                    recs.push(Rec { id: r.trim().to_string(), kind: "type", first, last: out.len(), skeleton: vec![], norm: BTreeSet::new(), inlined: vec![], file: ix.files[k.trim()].clone(), unused_loops: false });
                }
                None => missing.push(r.trim().to_string()),
            }
            i += 1;
        } else if l.starts_with("//@fn ") || l.starts_with("//@const ") {
            let is_fn = l.starts_with("//@fn ");
            let r = l.split_once(' ').unwrap().1;
            let id = split_id(r);
            let mut a = Annot { ret: "r".into(), heap: heap.clone(), ..Default::default() };
            let mut own = Heap::default();
            i += 1;
            enum Sec { Spec, Loop(usize, &'static str), Start, End, Ret(usize), Call(String, usize, &'static str) }
            let mut sec = Sec::Spec;
            loop {
                let raw = lines.get(i).unwrap_or_else(|| panic!("{r}: no //@endfn"));
                let t = raw.trim();
                i += 1;
                if t == "//@endfn" {
                    break;
                }
                if own.read(t) {
                    continue;
                }
                if let Some(d) = t.strip_prefix("//@") {
                    let (w, rest) = d.split_once(' ').unwrap_or((d, ""));
                    let n = || rest.trim().parse::<usize>().unwrap_or_else(|_| panic!("{r}: {t}"));
                    match w {
                        "ret" => a.ret = rest.trim().into(),
                        "opt" => a.opts.extend(rest.split_whitespace().map(|s| s.to_string())),
                        "sig" => a.sig = Some(rest.into()),
                        "subst" => {
                            let (x, y) = rest.split_once("=>").expect("subst a => b");
                            a.subst.push((x.trim().into(), y.trim().into()));
                        }
                        "closure" => {
                            let (k, x) = rest.trim().split_once(' ').expect("closure n type => contract");
                            let (ty, c) = x.split_once("=>").expect("closure n type => contract");
                            a.closures.insert(k.parse().expect("number"), (ty.trim().into(), c.trim().into()));
                        }
                        "param" => a.params.push(rest.into()),
                        "into" => a.into = Some(rest.trim().into()),
                        "bymove" => { a.consume.insert(n(), "move"); }
                        "byset" => { a.consume.insert(n(), "set"); }
                        "byval" => { a.byval.insert(n()); }
                        "loop" => sec = Sec::Loop(n(), "spec"),
                        "body" => sec = Sec::Loop(n(), "body"),
                        "bodyend" => sec = Sec::Loop(n(), "bodyend"),
                        "before" => sec = Sec::Loop(n(), "before"),
                        "after" => sec = Sec::Loop(n(), "after"),
                        "return" => sec = Sec::Ret(n()),
                        "pre" | "post" => {
                            let (f, k) = rest.trim().split_once(' ').unwrap_or((rest.trim(), "0"));
                            sec = Sec::Call(f.into(), k.trim().parse().expect("number"), if w == "pre" { "pre" } else { "post" });
                        }
                        "start" => sec = Sec::Start,
                        "end" => sec = Sec::End,
                        _ => panic!("{r}: unknown directive {t}"),
                    }
                    continue;
                }
                let dst = match &sec {
                    Sec::Spec => &mut a.spec,
                    Sec::Loop(n, w) => a.loops.entry(*n).or_default().entry(*w).or_default(),
                    Sec::Ret(n) => a.rets.entry(*n).or_default(),
                    Sec::Call(f, n, w) => a.calls.entry((f.clone(), *n, *w)).or_default(),
                    Sec::Start => &mut a.start,
                    Sec::End => &mut a.end,
                };
                let _ = writeln!(dst, "{raw}");
            }
            // what a function says of its own goes first
            own.calls.extend(std::mem::take(&mut a.heap.calls));
            own.news.extend(std::mem::take(&mut a.heap.news));
            own.defaults.extend(std::mem::take(&mut a.heap.defaults));
            a.heap = own;
            containers.insert((id.0.clone(), id.1.clone()));
            covered.insert(id.clone());
            let first = out.len() + 1;
            let res = if is_fn { xform::fn_text(&ix, &id, &a) } else { xform::const_text(&ix, &id, &a) };
            match res {
                Some(x) => {
                    out.extend(x.text.lines().map(|s| s.to_string()));
                    recs.push(Rec {
                        id: r.trim().to_string(), kind: if is_fn { "fn" } else { "const" }, first, last: out.len(),
                        skeleton: x.skeleton, norm: x.norm, inlined: x.inlined, file: ix.files[&id.0].clone(), unused_loops: x.unused_loops,
                    });
                }
                None => missing.push(r.trim().to_string()),
            }
        } else {
            out.push(lines[i].to_string());
            i += 1;
        }
    }
    let uncovered: Vec<String> = ix.fns.keys()
        .filter(|k| containers.contains(&(k.0.clone(), k.1.clone())) && !covered.contains(k) && k.1 != "fn")
        .map(|k| format!("{} :: {} :: {}", k.0, k.1, k.2)).collect();
    std::fs::write(out_rs, out.join("\n") + "\n").unwrap();
    let mut j = String::from("{\n\"functions\":[\n");
    for (n, r) in recs.iter().enumerate() {
        let _ = writeln!(j, "{{\"id\":{},\"kind\":\"{}\",\"first\":{},\"last\":{},\"file\":{},\"skeleton\":{},\"normalisations\":{},\"inlined\":{},\"unused_loops\":{}}}{}",
            js(&r.id), r.kind, r.first, r.last, js(&r.file), jl(&r.skeleton), jl(&r.norm), jl(&r.inlined), r.unused_loops, if n + 1 < recs.len() { "," } else { "" });
    }
    let _ = write!(j, "],\n\"missing\":{},\n\"uncovered\":{}\n}}\n", jl(&missing), jl(&uncovered));
    std::fs::write(out_json, j).unwrap();
}

fn split_id(r: &str) -> (String, String, String) {
    let v: Vec<&str> = r.split(" :: ").map(|s| s.trim()).collect();
    assert!(v.len() == 3, "bad id {r}");
    (v[0].into(), v[1].into(), v[2].into())
}
