//! Printing of one function as Verus input.
use crate::index::*;
use crate::Annot;
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::BTreeSet;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Stmt};

/// Methods of slices through `&mut self`.
const MUT_SLICE: [&str; 7] = ["copy_from_slice", "clone_from_slice", "copy_within", "swap", "fill", "reverse", "write_indexed_slice"];
const PRIMITIVE: [&str; 14] = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "bool", "char"];

/// How many variables from outside a loop its body assigns.
fn loop_state(body: &Block) -> usize {
    #[derive(Default)]
    struct S { assigned: BTreeSet<String>, own: BTreeSet<String> }
    fn root(e: &Expr) -> Option<String> {
        match e {
            Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
            Expr::Field(f) => root(&f.base),
            Expr::Index(i) => root(&i.expr),
            Expr::Paren(p) => root(&p.expr),
            Expr::Group(p) => root(&p.expr),
            _ => None,
        }
    }
    impl<'a> syn::visit::Visit<'a> for S {
        fn visit_expr_assign(&mut self, a: &'a syn::ExprAssign) {
            if let Some(r) = root(&a.left) { self.assigned.insert(r); }
            syn::visit::visit_expr_assign(self, a);
        }
        fn visit_expr_binary(&mut self, b: &'a syn::ExprBinary) {
            use syn::BinOp::*;
            if matches!(b.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_)) {
                if let Some(r) = root(&b.left) { self.assigned.insert(r); }
            }
            syn::visit::visit_expr_binary(self, b);
        }
        fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
            self.own.insert(p.ident.to_string());
            syn::visit::visit_pat_ident(self, p);
        }
    }
    let mut s = S::default();
    syn::visit::Visit::visit_block(&mut s, body);
    s.assigned.difference(&s.own).count()
}

/// The value of `size_of::<P>()` for a primitive type `P` of the same size everywhere.
fn size_of(p: &syn::ExprPath) -> Option<usize> {
    let last = p.path.segments.last()?;
    let syn::PathArguments::AngleBracketed(a) = &last.arguments else { return None };
    let Some(syn::GenericArgument::Type(syn::Type::Path(t))) = a.args.first() else { return None };
    if last.ident != "size_of" || a.args.len() != 1 { return None; }
    match t.path.get_ident()?.to_string().as_str() {
        "u8" | "i8" => Some(1),
        "u16" | "i16" => Some(2),
        "u32" | "i32" | "f32" => Some(4),
        "u64" | "i64" | "f64" => Some(8),
        _ => None,
    }
}

pub struct Out {
    pub text: String,
    pub skeleton: Vec<String>,
    pub norm: BTreeSet<String>,
    pub inlined: Vec<String>,
    pub unused_loops: bool,
}

// ---------------------------------------------------------------- paths, bounds, attributes

fn upper(s: &str) -> bool {
    s.chars().next().map_or(false, |c| c.is_uppercase())
}
fn flatten(p: &mut syn::Path) {
    let first = match p.segments.first() {
        Some(s) => s.ident.to_string(),
        None => return,
    };
    let n = p.segments.len();
    let cut = match first.as_str() {
        "crate" | "crabslab" | "craballoc" | "super" | "self" if n > 1 => {
            p.segments.iter().position(|s| upper(&s.ident.to_string())).unwrap_or(n - 1)
        }
        "std" | "core" | "alloc" if n > 1 => match p.segments.iter().position(|s| upper(&s.ident.to_string())) {
            Some(k) => k,
            None => return,
        },
        _ => return,
    };
    p.leading_colon = None;
    p.segments = p.segments.iter().skip(cut).cloned().collect();
}
fn dropped_bound(b: &syn::TypeParamBound) -> bool {
    match b {
        syn::TypeParamBound::Lifetime(l) => l.ident == "static",
        syn::TypeParamBound::Trait(t) => {
            let n = t.path.segments.last().unwrap().ident.to_string();
            ["Any", "Send", "Sync"].contains(&n.as_str())
        }
        _ => false,
    }
}
struct Common;
impl VisitMut for Common {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        flatten(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        if p.qself.is_some() {
            // <T as crabslab::SlabItem>::X
            let q = p.qself.as_mut().unwrap();
            let pos = q.position;
            if pos > 0 {
                let mut head = syn::Path { leading_colon: None, segments: p.path.segments.iter().take(pos).cloned().collect() };
                flatten(&mut head);
                q.position = head.segments.len();
                head.segments.extend(p.path.segments.iter().skip(pos).cloned());
                p.path.leading_colon = None;
                p.path.segments = head.segments;
            }
            self.visit_type_mut(&mut q.ty);
            for s in p.path.segments.iter_mut() {
                self.visit_path_arguments_mut(&mut s.arguments);
            }
            return;
        }
        visit_mut::visit_expr_path_mut(self, p);
    }
    fn visit_generics_mut(&mut self, g: &mut syn::Generics) {
        visit_mut::visit_generics_mut(self, g);
        for p in g.type_params_mut() {
            p.attrs.clear();
            p.bounds = p.bounds.iter().filter(|b| !dropped_bound(b)).cloned().collect();
            if p.bounds.is_empty() {
                p.colon_token = None;
            }
        }
        if let Some(w) = &mut g.where_clause {
            let mut preds = syn::punctuated::Punctuated::new();
            for p in &w.predicates {
                if let syn::WherePredicate::Type(t) = p {
                    let mut t = t.clone();
                    t.bounds = t.bounds.iter().filter(|b| !dropped_bound(b)).cloned().collect();
                    if !t.bounds.is_empty() {
                        preds.push(syn::WherePredicate::Type(t));
                    }
                } else {
                    preds.push(p.clone());
                }
            }
            w.predicates = preds;
        }
        if g.where_clause.as_ref().map_or(false, |w| w.predicates.is_empty()) {
            g.where_clause = None;
        }
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }
}

pub fn type_text(item: &syn::Item) -> String {
    let mut item = item.clone();
    let mut c = Common;
    c.visit_item_mut(&mut item);
    match &mut item {
        syn::Item::Struct(s) => {
            s.vis = parse_quote!(pub);
            for f in s.fields.iter_mut() {
                f.vis = parse_quote!(pub);
            }
        }
        syn::Item::Enum(e) => {
            e.vis = parse_quote!(pub);
            // explicit discriminants are no part of the value
            for v in e.variants.iter_mut() {
                v.discriminant = None;
            }
        }
        _ => {}
    }
    pretty(&item.to_token_stream().to_string())
}

// ---------------------------------------------------------------- inlining of new helpers

/// `if c { ..; return x; } rest` becomes `if c { ..; x } else { rest }`.
fn no_returns(b: &Block) -> Option<Block> {
    struct Has(bool);
    impl<'a> syn::visit::Visit<'a> for Has {
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    }
    fn has_stmt(s: &Stmt) -> bool {
        let mut h = Has(false);
        syn::visit::Visit::visit_stmt(&mut h, s);
        h.0
    }
    let mut out: Vec<Stmt> = vec![];
    for (i, s) in b.stmts.iter().enumerate() {
        if !has_stmt(s) {
            out.push(s.clone());
            continue;
        }
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                if let Some(e) = &r.expr {
                    out.push(Stmt::Expr((**e).clone(), None));
                }
                return Some(Block { brace_token: b.brace_token, stmts: out });
            }
            Stmt::Expr(Expr::If(f), semi) => {
                let then = no_returns(&f.then_branch)?;
                let rest = Block { brace_token: b.brace_token, stmts: b.stmts[i + 1..].to_vec() };
                let cond = &f.cond;
                match &f.else_branch {
                    None => {
                        // the branch must end in a return
                        if !matches!(f.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))) {
                            return None;
                        }
                        let rest = no_returns(&rest)?;
                        out.push(Stmt::Expr(parse_quote!(if #cond #then else #rest), None));
                        return Some(Block { brace_token: b.brace_token, stmts: out });
                    }
                    Some((_, e)) if semi.is_none() && rest.stmts.is_empty() => {
                        let e = match &**e {
                            Expr::Block(eb) => no_returns(&eb.block)?,
                            e => no_returns(&parse_quote!({ #e }))?,
                        };
                        out.push(Stmt::Expr(parse_quote!(if #cond #then else #e), None));
                        return Some(Block { brace_token: b.brace_token, stmts: out });
                    }
                    _ => return None,
                }
            }
            _ => return None,
        }
    }
    Some(Block { brace_token: b.brace_token, stmts: out })
}

struct SelfTo(TokenStream);
impl VisitMut for SelfTo {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident("self") {
                let t = &self.0;
                *e = parse_quote!(#t);
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct Inliner<'a> {
    ix: &'a Index,
    key: String,
    container: String,
    depth: usize,
    done: Vec<String>,
    n: usize,
}
impl<'a> Inliner<'a> {
    fn find(&self, name: &str, method: bool) -> Option<(Id, FnSrc)> {
        let mut hits: Vec<_> = self.ix.new_fns.iter().filter(|(k, c, n)| *k == self.key && n == name && (c == "fn") != method && !c.starts_with("trait ")).collect();
        if hits.len() > 1 {
            let own: Vec<_> = hits.iter().filter(|h| h.1 == self.container).cloned().collect();
            if own.len() == 1 {
                hits = own;
            }
        }
        match hits[..] {
            [id] => Some((id.clone(), self.ix.fns[id].clone())),
            _ => None,
        }
    }
    fn expand(&mut self, f: &FnSrc, recv: Option<&Expr>, args: &[Expr], turbofish: Option<&syn::AngleBracketedGenericArguments>) -> Option<Expr> {
        let mut body = no_returns(f.block.as_ref()?)?;
        self.n += 1;
        let mut binds: Vec<TokenStream> = vec![];
        let mut lets: Vec<TokenStream> = vec![];
        let mut args = args.iter();
        // generic parameters of the helper that are named in its body must be given by name
        let gens: Vec<syn::Ident> = f.sig.generics.type_params().map(|p| p.ident.clone()).collect();
        let mut map: Vec<(syn::Ident, syn::Type)> = vec![];
        if let Some(t) = turbofish {
            for (g, a) in gens.iter().zip(t.args.iter()) {
                if let syn::GenericArgument::Type(t) = a {
                    map.push((g.clone(), t.clone()));
                }
            }
        }
        for (i, p) in f.sig.inputs.iter().enumerate() {
            match p {
                syn::FnArg::Receiver(r) => {
                    let recv = match recv {
                        Some(x) => x,
                        None => args.next()?,
                    };
                    let is_self = matches!(recv, Expr::Path(p) if p.path.is_ident("self"));
                    if !is_self {
                        let v = syn::Ident::new(&format!("__self{}", self.n), proc_macro2::Span::call_site());
                        if r.reference.is_none() {
                            lets.push(quote!(let #v = #recv;));
                        } else if r.mutability.is_some() {
                            lets.push(quote!(let #v = &mut #recv;));
                        } else {
                            lets.push(quote!(let #v = &#recv;));
                        }
                        SelfTo(quote!(#v)).visit_block_mut(&mut body);
                    }
                }
                syn::FnArg::Typed(t) => {
                    let a = args.next()?;
                    let v = syn::Ident::new(&format!("__a{}_{i}", self.n), proc_macro2::Span::call_site());
                    let pat = &t.pat;
                    let ty = &t.ty;
                    binds.push(quote!(let #v = #a;));
                    let text = norm(ty);
                    if text.contains("impl ") || gens.iter().any(|g| text.contains(&g.to_string())) {
                        lets.push(quote!(let #pat = #v;));
                    } else {
                        lets.push(quote!(let #pat: #ty = #v;));
                    }
                }
            }
        }
        struct Sub<'b>(&'b [(syn::Ident, syn::Type)]);
        impl VisitMut for Sub<'_> {
            fn visit_type_mut(&mut self, t: &mut syn::Type) {
                if let syn::Type::Path(p) = t {
                    for (g, to) in self.0 {
                        if p.path.is_ident(g) {
                            *t = to.clone();
                            return;
                        }
                    }
                }
                visit_mut::visit_type_mut(self, t);
            }
            fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
                if p.qself.is_none() && p.path.segments.len() > 1 {
                    for (g, to) in self.0 {
                        if p.path.segments[0].ident == *g && p.path.segments[0].arguments.is_empty() {
                            let rest = p.path.segments.iter().skip(1);
                            *p = parse_quote!(<#to> #(:: #rest)*);
                            return;
                        }
                    }
                }
                visit_mut::visit_expr_path_mut(self, p);
            }
        }
        Sub(&map).visit_block_mut(&mut body);
        let stmts = &body.stmts;
        let ret = match &f.sig.output {
            syn::ReturnType::Default => quote!(),
            syn::ReturnType::Type(..) => quote!(),
        };
        let _ = ret;
        Some(parse_quote!({ #(#binds)* { #(#lets)* #(#stmts)* } }))
    }
}
impl VisitMut for Inliner<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if self.depth > 4 {
            return;
        }
        let found = match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                self.find(&name, true).and_then(|(id, f)| {
                    let args: Vec<Expr> = m.args.iter().cloned().collect();
                    Some((id, self.expand(&f, Some(&m.receiver), &args, m.turbofish.as_ref())?))
                })
            }
            Expr::Call(c) => {
                // std defines cmp::max and cmp::min as Ord's
                if let Expr::Path(p) = &*c.func {
                    let names: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let n = names.len();
                    if n >= 2 && names[n - 2] == "cmp" && (names[n - 1] == "max" || names[n - 1] == "min") {
                        let f = quote::format_ident!("{}", names[n - 1]);
                        c.func = parse_quote!(core::cmp::Ord::#f);
                    } else if n >= 2 && names[n - 2] == "mem" && names[n - 1] == "drop" {
                        c.func = parse_quote!(drop);
                    }
                }
                if let Expr::Path(p) = &*c.func {
                    let last = p.path.segments.last().unwrap();
                    let method = p.qself.is_some() || p.path.segments.len() > 1 && {
                        let s = p.path.segments[p.path.segments.len() - 2].ident.to_string();
                        upper(&s)
                    };
                    let turbofish = match &last.arguments {
                        syn::PathArguments::AngleBracketed(a) => Some(a.clone()),
                        _ => None,
                    };
                    self.find(&last.ident.to_string(), method).and_then(|(id, f)| {
                        let args: Vec<Expr> = c.args.iter().cloned().collect();
                        Some((id, self.expand(&f, None, &args, turbofish.as_ref())?))
                    })
                } else {
                    None
                }
            }
            _ => None,
        };
        if let Some((id, new)) = found {
            self.done.push(format!("{} :: {} :: {}", id.0, id.1, id.2));
            *e = new;
            self.depth += 1;
            visit_mut::visit_expr_mut(self, e);
            self.depth -= 1;
        }
    }
}

/// `E.into()` and `T::from(E)` by name.
struct Into(Expr);
impl VisitMut for Into {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let arg = match e {
            Expr::MethodCall(m) if m.method == "into" && m.args.is_empty() => (*m.receiver).clone(),
            Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, Expr::Path(p) if p.path.segments.len() == 2 && p.path.segments[1].ident == "from") => c.args[0].clone(),
            _ => return,
        };
        let f = &self.0;
        *e = parse_quote!(#f(#arg));
    }
}

// ---------------------------------------------------------------- lowering

struct Lower<'a> {
    ix: &'a Index,
    a: &'a Annot,
    loops: usize,
    rets: usize,
    calls: std::collections::BTreeMap<String, usize>,
    used_calls: usize,
    norm: BTreeSet<String>,
    texts: Vec<String>,
    skeleton: Vec<String>,
    head_used: BTreeSet<String>,
}
/// The functions a statement calls itself (not in blocks it contains), in order.
fn direct_calls(s: &Stmt) -> Vec<String> {
    struct D(Vec<String>);
    impl<'a> syn::visit::Visit<'a> for D {
        fn visit_block(&mut self, _: &'a Block) {}
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
        fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
            syn::visit::visit_expr_method_call(self, m);
            self.0.push(m.method.to_string());
        }
        fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
            syn::visit::visit_expr_call(self, c);
            if let Expr::Path(p) = &*c.func {
                self.0.push(p.path.segments.last().unwrap().ident.to_string());
            }
        }
    }
    let mut d = D(vec![]);
    syn::visit::Visit::visit_stmt(&mut d, s);
    d.0
}
fn lit(e: &Expr) -> Option<i64> {
    match e {
        Expr::Lit(l) => match &l.lit {
            syn::Lit::Int(i) => i.base10_parse().ok(),
            _ => None,
        },
        Expr::Paren(p) => lit(&p.expr),
        Expr::Group(p) => lit(&p.expr),
        _ => None,
    }
}
fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}
fn place(e: &Expr) -> bool {
    match strip(e) {
        Expr::Path(_) => true,
        Expr::Field(f) => place(&f.base),
        Expr::Reference(r) => place(&r.expr),
        Expr::Unary(u) => matches!(u.op, syn::UnOp::Deref(_)) && place(&u.expr),
        _ => false,
    }
}
fn jumps(b: &Block) -> bool {
    struct J(bool);
    impl<'a> syn::visit::Visit<'a> for J {
        fn visit_expr_break(&mut self, _: &'a syn::ExprBreak) { self.0 = true; }
        fn visit_expr_continue(&mut self, _: &'a syn::ExprContinue) { self.0 = true; }
    }
    let mut j = J(false);
    syn::visit::Visit::visit_block(&mut j, b);
    j.0
}
impl Lower<'_> {
    fn text(&mut self, s: Option<&String>) -> TokenStream {
        match s {
            Some(s) if !s.trim().is_empty() => {
                let k = proc_macro2::Literal::usize_unsuffixed(self.texts.len());
                self.texts.push(s.clone());
                quote!(__verus_text!(#k);)
            }
            _ => quote!(),
        }
    }
    fn part(&mut self, n: usize, w: &'static str) -> TokenStream {
        let s = self.a.loops.get(&n).and_then(|m| m.get(w)).cloned();
        self.text(s.as_ref())
    }
    fn for_loop(&mut self, f: &syn::ExprForLoop) -> Expr {
        let pat = &f.pat;
        let mut it = strip(&f.expr).clone();
        let mut enumerate = false;
        if let Expr::MethodCall(m) = &it {
            if m.method == "enumerate" && m.args.is_empty() {
                let r = strip(&m.receiver).clone();
                it = r;
                enumerate = true;
            }
        }
        // literal bounds: unroll
        if let Expr::Range(r) = &it {
            if let (Some(a), Some(b)) = (r.start.as_deref().and_then(lit), r.end.as_deref().and_then(lit)) {
                let b = if matches!(r.limits, syn::RangeLimits::Closed(_)) { b + 1 } else { b };
                if !enumerate && b - a <= 16 && !jumps(&f.body) {
                    self.norm.insert("for over literal bounds unrolled".into());
                    self.skeleton.push("unrolled".into());
                    let body = &f.body;
                    let parts = (a..b).map(|k| {
                        let k = proc_macro2::Literal::i64_unsuffixed(k);
                        quote!({ let #pat = #k; #body })
                    });
                    let mut e: Expr = parse_quote!({ #(#parts)* });
                    self.visit_expr_mut(&mut e);
                    return e;
                }
            }
        }
        let n = self.loops;
        self.loops += 1;
        let i = syn::Ident::new(&format!("__i{n}"), proc_macro2::Span::call_site());
        let s = syn::Ident::new(&format!("__s{n}"), proc_macro2::Span::call_site());
        let end = syn::Ident::new(&format!("__e{n}"), proc_macro2::Span::call_site());
        let (before, body0, body1, after) = (self.part(n, "before"), self.part(n, "body"), self.part(n, "bodyend"), self.part(n, "after"));
        let mark = proc_macro2::Literal::usize_unsuffixed(n);
        let stmts = &f.body.stmts;
        // `continue` would skip a text at the end of the body; it is proof text only
        let e: Expr = match &it {
            Expr::Range(r) if r.start.is_some() && r.end.is_some() && matches!(r.limits, syn::RangeLimits::HalfOpen(_)) && !enumerate => {
                self.norm.insert("`for i in a..b` as a while loop over its counter".into());
                let (a, b) = (r.start.as_ref().unwrap(), r.end.as_ref().unwrap());
                parse_quote!({
                    let #end = #b; let mut #i = #a; #before
                    while #i < #end { __verus_loop!(#mark); let #pat = #i; #i += 1; #body0 #(#stmts)* #body1 }
                    #after
                })
            }
            _ if self.a.consume.contains_key(&n) && !enumerate => {
                let base: Expr = match &it {
                    Expr::MethodCall(m) if m.args.is_empty() && m.method == "into_iter" => (*m.receiver).clone(),
                    e => e.clone(),
                };
                let base: Expr = if self.a.consume[&n] == "set" {
                    self.norm.insert("`for x in set` as a loop over its elements in some order".into());
                    parse_quote!(#base.into_vec())
                } else {
                    self.norm.insert("`for x in vec` as a loop taking the first element off".into());
                    base
                };
                parse_quote!({
                    let mut #s = #base; #before
                    while #s.len() > 0 { __verus_loop!(#mark); let #pat = #s.remove(0); #body0 #(#stmts)* #body1 }
                    #after
                })
            }
            _ => {
                self.norm.insert("`for x in slice` as a while loop over the index".into());
                let (mutable, base): (bool, Expr) = match &it {
                    Expr::MethodCall(m) if m.args.is_empty() && m.method == "iter_mut" => (true, (*m.receiver).clone()),
                    Expr::MethodCall(m) if m.args.is_empty() && (m.method == "iter" || m.method == "into_iter") => (false, (*m.receiver).clone()),
                    Expr::Reference(r) if r.mutability.is_some() => (true, (*r.expr).clone()),
                    e => (false, e.clone()),
                };
                let base = strip(&base).clone();
                let (bind, b): (TokenStream, TokenStream) = if place(&base) && !self.a.byval.contains(&n) {
                    (quote!(), quote!(#base))
                } else {
                    (quote!(let #s = #base;), quote!(#s))
                };
                let elem = if self.a.byval.contains(&n) {
                    self.norm.insert("a Vec iterated by value is read by index (its items are Copy)".into());
                    quote!(#b[#i])
                } else if mutable {
                    quote!(&mut #b[#i])
                } else {
                    quote!(&#b[#i])
                };
                let head: TokenStream = if enumerate {
                    match pat.as_ref() {
                        syn::Pat::Tuple(t) if t.elems.len() == 2 => {
                            let (p0, p1) = (&t.elems[0], &t.elems[1]);
                            quote!(let #p0 = #i; let #p1 = #elem;)
                        }
                        _ => quote!(let #pat = (#i, #elem);),
                    }
                } else {
                    quote!(let #pat = #elem;)
                };
                parse_quote!({
                    #bind let mut #i: usize = 0; #before
                    while #i < #b.len() { __verus_loop!(#mark); #head #i += 1; #body0 #(#stmts)* #body1 }
                    #after
                })
            }
        };
        let mut e = e;
        self.skeleton.push(format!("for {}", norm(&f.expr)));
        self.skeleton.push(format!("loop-state {}", loop_state(&f.body)));
        // children (the while loop itself is done)
        if let Expr::Block(b) = &mut e {
            for st in b.block.stmts.iter_mut() {
                if let Stmt::Expr(Expr::While(w), _) = st {
                    self.visit_expr_mut(&mut w.cond);
                    self.visit_block_mut(&mut w.body);
                } else {
                    self.visit_stmt_mut(st);
                }
            }
        }
        e
    }
    fn asserting(&mut self, name: &str, ts: TokenStream) -> Option<Expr> {
        use syn::parse::Parser;
        let p = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
        let v: Vec<Expr> = p.parse2(ts).ok()?.into_iter().collect();
        let c: Expr = match name {
            "debug_assert" | "assert" => v.first()?.clone(),
            "debug_assert_eq" | "assert_eq" => {
                let (a, b) = (v.first()?, v.get(1)?);
                parse_quote!((#a) == (#b))
            }
            "debug_assert_ne" | "assert_ne" => {
                let (a, b) = (v.first()?, v.get(1)?);
                parse_quote!((#a) != (#b))
            }
            _ => return None,
        };
        self.norm.insert(format!("`{name}!(c)` as an obligation that c holds"));
        let mut e: Expr = parse_quote!({ let __c = #c; assert(__c); });
        self.visit_expr_mut(&mut e);
        Some(e)
    }
}
fn dropped_macro(p: &syn::Path) -> bool {
    let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    s[0] == "log" || s[0] == "tracing" || ["println", "eprintln", "dbg", "trace", "debug", "info", "warn", "error"].contains(&s.last().unwrap().as_str())
}
/// Names that patterns or macros may refer to.
#[derive(Default)]
struct InPatterns(BTreeSet<String>);
impl<'ast> Visit<'ast> for InPatterns {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        self.0.insert(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        fn all(t: TokenStream, out: &mut BTreeSet<String>) {
            for t in t {
                match t {
                    proc_macro2::TokenTree::Group(g) => all(g.stream(), out),
                    t => { out.insert(t.to_string()); }
                }
            }
        }
        if !dropped_macro(&m.path) {
            all(m.tokens.clone(), &mut self.0);
        }
    }
}
impl VisitMut for Lower<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        // a constant of the block: its value under its name, known in all of the block
        let mut matched = InPatterns::default();
        matched.visit_block(b);
        let (consts, rest): (Vec<Stmt>, Vec<Stmt>) =
            b.stmts.drain(..).partition(|s| matches!(s, Stmt::Item(syn::Item::Const(c)) if !matched.0.contains(&c.ident.to_string())));
        for s in consts.into_iter().chain(rest) {
            let s = match s {
                Stmt::Item(syn::Item::Const(c)) if !matched.0.contains(&c.ident.to_string()) => {
                    self.norm.insert("constant of a body becomes a variable".into());
                    let (name, ty, e) = (&c.ident, &c.ty, &c.expr);
                    parse_quote! { let #name: #ty = #e; }
                }
                s => s,
            };
            match &s {
                Stmt::Macro(m) => {
                    if dropped_macro(&m.mac.path) {
                        self.norm.insert("logging macro dropped".into());
                        continue;
                    }
                    if m.mac.path.is_ident("__verus_loop") || m.mac.path.is_ident("__verus_text") {
                        out.push(s);
                        continue;
                    }
                    let name = m.mac.path.segments.last().unwrap().ident.to_string();
                    if let Some(e) = self.asserting(&name, m.mac.tokens.clone()) {
                        out.push(Stmt::Expr(e, None));
                        continue;
                    }
                    self.skeleton.push(format!("{name}!"));
                    out.push(s);
                }
                Stmt::Expr(Expr::Macro(m), _) if dropped_macro(&m.mac.path) => {
                    self.norm.insert("logging macro dropped".into());
                }
                Stmt::Item(_) => {
                    self.skeleton.push("item".into());
                    out.push(s);
                }
                _ => {
                    let mut s = s.clone();
                    let mut around: (Vec<String>, Vec<String>) = Default::default();
                    if !self.a.calls.is_empty() {
                        for f in direct_calls(&s) {
                            let k = self.calls.entry(f.clone()).or_default();
                            let (pre, post) = (self.a.calls.get(&(f.clone(), *k, "pre")), self.a.calls.get(&(f, *k, "post")));
                            *k += 1;
                            self.used_calls += pre.iter().len() + post.iter().len();
                            around.0.extend(pre.cloned());
                            around.1.extend(post.cloned());
                        }
                    }
                    for t in &around.0 {
                        let t = self.text(Some(t));
                        out.extend(syn::parse::Parser::parse2(Block::parse_within, t).unwrap());
                    }
                    self.visit_stmt_mut(&mut s);
                    out.push(s);
                    for t in &around.1 {
                        let t = self.text(Some(t));
                        out.extend(syn::parse::Parser::parse2(Block::parse_within, t).unwrap());
                    }
                }
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                let f = f.clone();
                *e = self.for_loop(&f);
                return;
            }
            Expr::While(w) => {
                let n = self.loops;
                self.loops += 1;
                self.skeleton.push(format!("while {}", norm(&w.cond)));
                self.skeleton.push(format!("loop-state {}", loop_state(&w.body)));
                let (before, body0, body1, after) = (self.part(n, "before"), self.part(n, "body"), self.part(n, "bodyend"), self.part(n, "after"));
                let mark = proc_macro2::Literal::usize_unsuffixed(n);
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                let (c, stmts, label) = (&w.cond, &w.body.stmts, &w.label);
                *e = if before.is_empty() && after.is_empty() {
                    parse_quote!(#label while #c { __verus_loop!(#mark); #body0 #(#stmts)* #body1 })
                } else {
                    parse_quote!({ #before #label while #c { __verus_loop!(#mark); #body0 #(#stmts)* #body1 } #after })
                };
                return;
            }
            Expr::Loop(w) => {
                let n = self.loops;
                self.loops += 1;
                self.skeleton.push("loop".into());
                self.skeleton.push(format!("loop-state {}", loop_state(&w.body)));
                let body0 = self.part(n, "body");
                let mark = proc_macro2::Literal::usize_unsuffixed(n);
                self.visit_block_mut(&mut w.body);
                let (stmts, label) = (&w.body.stmts, &w.label);
                *e = parse_quote!(#label loop { __verus_loop!(#mark); #body0 #(#stmts)* });
                return;
            }
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                if let Some(x) = self.asserting(&name, m.mac.tokens.clone()) {
                    *e = x;
                    return;
                }
                self.skeleton.push(format!("{name}!"));
                if name == "vec" {
                    // the arguments are expressions
                    use syn::parse::Parser;
                    let ts = m.mac.tokens.clone();
                    let rep = |i: syn::parse::ParseStream| -> syn::Result<(Expr, Expr)> {
                        let a: Expr = i.parse()?;
                        i.parse::<syn::Token![;]>()?;
                        Ok((a, i.parse()?))
                    };
                    if let Ok((mut a, mut b)) = rep.parse2(ts.clone()) {
                        self.visit_expr_mut(&mut a);
                        self.visit_expr_mut(&mut b);
                        *e = parse_quote!(vec![#a; #b]);
                    } else if let Ok(mut v) = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated.parse2(ts) {
                        for x in v.iter_mut() {
                            self.visit_expr_mut(x);
                        }
                        *e = parse_quote!(vec![#v]);
                    }
                }
                return;
            }
            // (a..b).fold(init, |acc, i| body) with literal bounds
            Expr::MethodCall(m) if m.method == "fold" && m.args.len() == 2 => {
                if let (Expr::Range(r), Expr::Closure(c)) = (strip(&m.receiver), strip(&m.args[1])) {
                    if let (Some(a), Some(b), 2) = (r.start.as_deref().and_then(lit), r.end.as_deref().and_then(lit), c.inputs.len()) {
                        self.norm.insert("fold over literal bounds unrolled".into());
                        self.skeleton.push("fold".into());
                        let (acc, i, body, init) = (&c.inputs[0], &c.inputs[1], &c.body, &m.args[0]);
                        let steps = (a..b).map(|k| {
                            let k = proc_macro2::Literal::i64_unsuffixed(k);
                            quote!(let __acc = { let #acc = __acc; let #i = #k; #body };)
                        });
                        let mut x: Expr = parse_quote!({ let __acc = #init; #(#steps)* __acc });
                        self.visit_expr_mut(&mut x);
                        *e = x;
                        return;
                    }
                }
            }
            Expr::Path(p) => {
                let n = p.path.segments.last().unwrap().ident.to_string();
                if self.ix.lifted.contains(&n) && (p.path.segments.len() > 1 || p.qself.is_some()) {
                    self.norm.insert("associated constants are functions of no arguments".into());
                    self.skeleton.push(format!("const {n}"));
                    let p = p.clone();
                    *e = parse_quote!(#p());
                    return;
                }
            }
            Expr::Call(c) => {
                // std defines cmp::max and cmp::min as Ord's
                if let Expr::Path(p) = &*c.func {
                    let names: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let n = names.len();
                    if let (Some(k), true) = (size_of(p), c.args.is_empty()) {
                        self.norm.insert("size_of of a primitive type as its value".into());
                        let k = proc_macro2::Literal::usize_suffixed(k);
                        *e = parse_quote!(#k);
                        return;
                    }
                    if n >= 2 && names[n - 2] == "cmp" && (names[n - 1] == "max" || names[n - 1] == "min") {
                        let f = quote::format_ident!("{}", names[n - 1]);
                        c.func = parse_quote!(core::cmp::Ord::#f);
                    } else if n >= 2 && names[n - 2] == "mem" && names[n - 1] == "drop" {
                        c.func = parse_quote!(drop);
                    }
                }
                if let Expr::Path(p) = &*c.func {
                    let last = p.path.segments.last().unwrap().ident.to_string();
                    let of = match &p.qself {
                        Some(q) => Some(norm(&q.ty)),
                        None => p.path.segments.iter().rev().nth(1).map(|s| s.ident.to_string()),
                    };
                    // conversions of the standard library are told apart by the type they belong to
                    self.skeleton.push(match of {
                        Some(t) if PRIMITIVE.contains(&t.as_str()) => format!("call {t}::{last}"),
                        _ => format!("call {last}"),
                    });
                }
            }
            Expr::Return(r) => {
                self.skeleton.push("return".into());
                let n = self.rets;
                self.rets += 1;
                if let Some(t) = self.a.rets.get(&n).cloned() {
                    let t = self.text(Some(&t));
                    let mut r = r.clone();
                    if let Some(x) = &mut r.expr {
                        self.visit_expr_mut(x);
                    }
                    *e = match &r.expr {
                        Some(x) => parse_quote!({ let __r = #x; #t return __r; }),
                        None => parse_quote!({ #t return; }),
                    };
                    return;
                }
            }
            Expr::Await(w) => {
                self.norm.insert("async dropped: what is awaited is called".into());
                let mut x = (*w.base).clone();
                self.visit_expr_mut(&mut x);
                *e = x;
                return;
            }
            // &mut v[a..b] of a Vec
            Expr::Reference(r) if r.mutability.is_some() && matches!(strip(&r.expr), Expr::Index(i) if matches!(strip(&i.index), Expr::Range(_))) => {
                if let Expr::Index(i) = strip(&r.expr) {
                    let (base, ix) = (&i.expr, &i.index);
                    self.norm.insert("`&mut v[a..b]` of a Vec as that of its slice".into());
                    let mut x: Expr = parse_quote!(&mut #base.as_mut_slice()[#ix]);
                    if let Expr::Reference(r) = &mut x { visit_mut::visit_expr_mut(self, &mut r.expr); }
                    *e = x;
                    return;
                }
            }
            // v[a..b].copy_from_slice(x) of a Vec, and the like
            Expr::MethodCall(m) if MUT_SLICE.contains(&m.method.to_string().as_str()) && matches!(strip(&m.receiver), Expr::Index(i) if matches!(strip(&i.index), Expr::Range(_))) => {
                if let Expr::Index(i) = strip(&m.receiver) {
                    let (base, mut ix, method, args) = (i.expr.clone(), strip(&i.index).clone(), m.method.clone(), m.args.clone());
                    if let Expr::Range(r) = &mut ix {
                        if r.start.is_none() && r.end.is_some() && matches!(r.limits, syn::RangeLimits::HalfOpen(_)) {
                            r.start = Some(parse_quote!(0));
                        }
                    }
                    let mut x: Expr = parse_quote!({ let __place = &mut #base[#ix]; __place.#method(#args) });
                    self.visit_expr_mut(&mut x);
                    *e = x;
                    return;
                }
            }
            // option.into_iter().flatten().for_each(|p| body)
            Expr::MethodCall(m) if m.method == "for_each" && m.args.len() == 1 => {
                if let (Expr::MethodCall(fl), Expr::Closure(c)) = (strip(&m.receiver), strip(&m.args[0])) {
                    if let Expr::MethodCall(it) = strip(&fl.receiver) {
                        if fl.method == "flatten" && it.method == "into_iter" && c.inputs.len() == 1 {
                            let (o, p, b) = (&it.receiver, &c.inputs[0], &c.body);
                            self.norm.insert("`option.into_iter().flatten().for_each(f)` as a loop over the content".into());
                            let mut x: Expr = parse_quote!(if let Some(__v) = #o { for #p in __v { #b; } });
                            self.visit_expr_mut(&mut x);
                            *e = x;
                            return;
                        }
                    }
                }
            }
            Expr::Break(_) => self.skeleton.push("break".into()),
            Expr::Continue(_) => self.skeleton.push("continue".into()),
            Expr::Closure(_) => self.skeleton.push("closure".into()),
            Expr::If(_) => self.skeleton.push("if".into()),
            Expr::Match(_) => self.skeleton.push("match".into()),
            _ => {}
        }
        if let Expr::MethodCall(m) = e {
            // the same method of two fields is told apart
            let of = match strip(&m.receiver) {
                Expr::Field(f) => format!(" of {}", norm(&f.member)),
                _ => String::new(),
            };
            self.skeleton.push(format!("method {}{of}", m.method));
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- printing

fn pretty(s: &str) -> String {
    let mut out = String::new();
    let mut paren = 0i32;
    let mut ind = 0usize;
    let mut in_str = false;
    let mut prev = ' ';
    for c in s.chars() {
        if in_str {
            out.push(c);
            if c == '"' && prev != '\\' {
                in_str = false;
            }
            prev = if prev == '\\' && c == '\\' { ' ' } else { c };
            continue;
        }
        match c {
            '"' => { in_str = true; out.push(c) }
            '(' | '[' => { paren += 1; out.push(c) }
            ')' | ']' => { paren -= 1; out.push(c) }
            '{' => { ind += 1; out.push_str("{\n"); out.push_str(&"    ".repeat(ind)) }
            '}' => { ind = ind.saturating_sub(1); out.push('\n'); out.push_str(&"    ".repeat(ind)); out.push_str("}\n"); out.push_str(&"    ".repeat(ind)) }
            ';' if paren == 0 => { out.push_str(";\n"); out.push_str(&"    ".repeat(ind)) }
            '\n' => out.push(' '),
            c => out.push(c),
        }
        prev = c;
    }
    let _ = paren;
    out.lines().filter(|l| !l.trim().is_empty()).map(|l| l.trim_end().to_string()).collect::<Vec<_>>().join("\n") + "\n"
}

/// The tokens of a pattern, as they are printed.
fn tokens(x: &str) -> TokenStream {
    match syn::parse_str::<Expr>(x) {
        Ok(e) => e.to_token_stream(),
        Err(_) => x.parse().expect("subst tokens"),
    }
}

fn finish(mut text: String, l: &Lower, a: &Annot) -> (String, bool) {
    let mut used = 0;
    for n in 0..l.loops {
        let spec = a.loops.get(&n).and_then(|m| m.get("spec")).cloned().unwrap_or_default();
        let pat = format!("{{ __verus_loop ! ({n}) ;");
        if text.contains(&pat) {
            used += 1;
            text = text.replace(&pat, &format!("__VERUS_LOOP_{n}__{{"));
            let _ = spec;
        }
    }
    let _ = used;
    let mut idle = false;
    for (x, y) in &a.subst {
        let t = tokens(x);
        idle |= !text.contains(&t.to_string()) && !l.head_used.contains(x);
        text = text.replace(&t.to_string(), y);
    }
    let mut text = pretty(&text);
    for n in 0..l.loops {
        let spec = a.loops.get(&n).and_then(|m| m.get("spec")).cloned().unwrap_or_default();
        text = text.replace(&format!("__VERUS_LOOP_{n}__{{"), &format!("\n{spec}{{"));
    }
    for (k, t) in l.texts.iter().enumerate() {
        text = text.replace(&format!("__verus_text ! ({k}) ;"), &format!("\n{t}\n"));
    }
    let unused = idle || a.loops.keys().any(|n| *n >= l.loops) || a.rets.keys().any(|n| *n >= l.rets) || l.used_calls != a.calls.len();
    (text, unused)
}

fn lower<'a>(ix: &'a Index, a: &'a Annot) -> Lower<'a> {
    Lower { ix, a, loops: 0, rets: 0, calls: Default::default(), used_calls: 0, norm: BTreeSet::new(), texts: vec![], skeleton: vec![], head_used: BTreeSet::new() }
}

pub fn const_text(ix: &Index, id: &Id, a: &Annot) -> Option<Out> {
    let (ty, expr) = ix.consts.get(id)?;
    let (mut ty, mut expr) = (ty.clone(), expr.clone());
    let mut inl = Inliner { ix, key: id.0.clone(), container: id.1.clone(), depth: 0, done: vec![], n: 0 };
    inl.visit_expr_mut(&mut expr);
    Common.visit_type_mut(&mut ty);
    Common.visit_expr_mut(&mut expr);
    let mut l = lower(ix, a);
    l.visit_expr_mut(&mut expr);
    l.norm.insert("associated constants are functions of no arguments".into());
    let vis = if id.1.contains(" for ") || id.1.starts_with("trait ") { "" } else { "pub " };
    let start = if a.start.is_empty() { String::new() } else { let t = l.text(Some(&a.start)); t.to_string() };
    let (body, unused) = finish(format!("{{ {start} {} }}", expr.to_token_stream()), &l, a);
    Some(Out {
        text: format!("{vis}fn {}() -> ({}: {})\n{}{}", id.2, a.ret, ty.to_token_stream(), a.spec, body),
        skeleton: l.skeleton, norm: l.norm, inlined: inl.done, unused_loops: unused,
    })
}

/// Spans of `tracing` time what they surround.
struct Spans<'a>(&'a mut BTreeSet<String>);
impl VisitMut for Spans<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            let span = |x: &Expr| matches!(x, Expr::Macro(m) if m.mac.path.segments.last().is_some_and(|s| s.ident.to_string().ends_with("span")));
            if name == "in_scope" && m.args.len() == 1 && span(strip(&m.receiver)) {
                if let Expr::Closure(c) = strip(&m.args[0]) {
                    // a `return` or `?` would leave the closure only
                    let t = c.body.to_token_stream().to_string();
                    if c.inputs.is_empty() && !t.contains('?') && !t.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == "return") {
                        let b = &c.body;
                        let x: Expr = match &**b { Expr::Block(b) => Expr::Block(b.clone()), b => parse_quote!({ #b }) };
                        self.0.insert("a tracing span is its body".into());
                        *e = x;
                    }
                }
            } else if name == "instrument" && m.args.len() == 1 && span(strip(&m.args[0])) {
                let x = (*m.receiver).clone();
                self.0.insert("a tracing span is its body".into());
                *e = x;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// Contracts of closures.
struct Closures<'a> {
    a: &'a Annot,
    n: usize,
    specs: Vec<(usize, String)>,
}
impl VisitMut for Closures<'_> {
    fn visit_expr_closure_mut(&mut self, c: &mut syn::ExprClosure) {
        let n = self.n;
        self.n += 1;
        syn::visit_mut::visit_expr_closure_mut(self, c);
        let Some((ty, spec)) = self.a.closures.get(&n) else { return };
        if c.inputs.len() != 1 {
            return;
        }
        let name = match &c.inputs[0] {
            syn::Pat::Ident(i) => i.ident.to_string(),
            syn::Pat::Type(t) => match &*t.pat { syn::Pat::Ident(i) => i.ident.to_string(), _ => return },
            _ => return,
        };
        let id = syn::Ident::new(&name, proc_macro2::Span::call_site());
        let t: syn::Type = syn::parse_str(ty).expect("type");
        let p: syn::FnArg = parse_quote!(#id: #t);
        if let syn::FnArg::Typed(p) = p {
            c.inputs[0] = syn::Pat::Type(p);
        }
        let body = match &*c.body {
            Expr::Block(b) => b.block.stmts.clone(),
            e => vec![Stmt::Expr(e.clone(), None)],
        };
        let k = syn::LitInt::new(&n.to_string(), proc_macro2::Span::call_site());
        *c.body = parse_quote!({ __verus_closure!(#k); #(#body)* });
        self.specs.push((n, spec.replace("$0", &name)));
    }
}

pub fn fn_text(ix: &Index, id: &Id, a: &Annot) -> Option<Out> {
    let src = ix.fns.get(id)?;
    let mut sig = src.sig.clone();
    Common.visit_signature_mut(&mut sig);
    let mut l = lower(ix, a);
    for (i, p) in sig.inputs.iter_mut().enumerate() {
        match p {
            syn::FnArg::Typed(t) => {
                t.attrs.clear();
                if matches!(*t.pat, syn::Pat::Wild(_)) {
                    let v = syn::Ident::new(&format!("__p{i}"), proc_macro2::Span::call_site());
                    *t.pat = parse_quote!(#v);
                }
            }
            syn::FnArg::Receiver(r) => {
                if a.opts.iter().any(|o| o == "selfmut") && r.reference.is_some() && r.mutability.is_none() {
                    *r = parse_quote!(&mut self);
                    l.norm.insert("&self of a handle to shared state as &mut self (sequential erasure)".into());
                }
            }
        }
    }
    for p in &a.params {
        let p: syn::FnArg = syn::parse_str(p).expect("param");
        sig.inputs.push(p);
        l.norm.insert("the heap behind interior mutability as a parameter".into());
    }
    let inputs = &sig.inputs;
    let (gen, wh) = (&sig.generics, &sig.generics.where_clause);
    let vis = if id.1.contains(" for ") || id.1.starts_with("trait ") || a.opts.iter().any(|o| o == "nopub") { "" } else { "pub " };
    let constness = if sig.constness.is_some() { "const " } else { "" };
    let mut g = gen.clone();
    g.where_clause = None;
    let output = match &sig.output {
        syn::ReturnType::Default => String::new(),
        syn::ReturnType::Type(_, t) => format!(" -> ({}: {})", a.ret, t.to_token_stream()),
    };
    let mut head = format!("{vis}{constness}fn {}{}({}){output} {}\n", sig.ident, g.to_token_stream(), inputs.to_token_stream(), wh.to_token_stream());
    if let Some(s) = &a.sig {
        head = format!("{s}\n");
        l.norm.insert(format!("signature written as `{s}`"));
    }
    for (x, y) in &a.subst {
        let t = tokens(x);
        if head.contains(&t.to_string()) { l.head_used.insert(x.clone()); }
        head = head.replace(&t.to_string(), y);
        l.norm.insert(format!("`{x}` written as `{y}`"));
    }
    let Some(block) = &src.block else {
        return Some(Out { text: format!("{head}{};\n", a.spec), skeleton: vec![], norm: l.norm, inlined: vec![], unused_loops: false });
    };
    let mut block = block.clone();
    Spans(&mut l.norm).visit_block_mut(&mut block);
    let mut inl = Inliner { ix, key: id.0.clone(), container: id.1.clone(), depth: 0, done: vec![], n: 0 };
    inl.visit_block_mut(&mut block);
    Common.visit_block_mut(&mut block);
    crate::heap::apply(&a.heap, &mut block, &mut l.norm);
    let mut cl = Closures { a, n: 0, specs: vec![] };
    cl.visit_block_mut(&mut block);
    let specs = cl.specs;
    if let Some(f) = &a.into {
        Into(syn::parse_str(f).expect("path")).visit_block_mut(&mut block);
        l.norm.insert(format!("`.into()` is {f}"));
    }
    let start = l.text(Some(&a.start));
    l.visit_block_mut(&mut block);
    let end = l.text(Some(&a.end));
    let mut stmts = block.stmts.clone();
    let tail: TokenStream = if end.is_empty() {
        quote!()
    } else {
        match stmts.last() {
            Some(Stmt::Expr(e, None)) => {
                let e = e.clone();
                stmts.pop();
                if matches!(sig.output, syn::ReturnType::Default) { quote!(#e; #end) } else { quote!(let __r = #e; #end __r) }
            }
            _ => quote!(#end),
        }
    };
    let b = quote!({ #start #(#stmts)* #tail });
    let mut b = b.to_string();
    for (n, t) in &specs {
        b = b.replace(&format!("{{ __verus_closure ! ({n}) ;"), &format!("{t} {{"));
    }
    let (body, unused) = finish(b, &l, a);
    Some(Out { text: format!("{head}{}{}", a.spec, body), skeleton: l.skeleton, norm: l.norm, inlined: inl.done, unused_loops: unused })
}
