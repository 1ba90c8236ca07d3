//! The heap behind interior mutability, made explicit (//@heap): a call that reads or changes a shared cell names
//! the part of the heap it refers to. Locks do not poison; a temporary strong handle is dropped where its block ends.
use crate::Heap;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Stmt};

type Args = syn::punctuated::Punctuated<Expr, syn::Token![,]>;

fn args(s: &str) -> Args {
    syn::parse::Parser::parse_str(Args::parse_terminated, s).unwrap_or_else(|e| panic!("{s}: {e}"))
}
fn transparent(m: &str) -> bool {
    ["clone", "as_ref", "as_mut", "unwrap", "expect", "upgrade", "borrow", "deref", "to_owned"].contains(&m)
}
/// The name by which a receiver is known.
fn root(e: &Expr, through: bool) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Field(f) => match &f.member {
            syn::Member::Named(n) => Some(n.to_string()),
            syn::Member::Unnamed(_) => root(&f.base, through),
        },
        Expr::Paren(p) => root(&p.expr, through),
        Expr::Group(p) => root(&p.expr, through),
        Expr::Reference(r) => root(&r.expr, through),
        Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => root(&u.expr, through),
        Expr::Try(t) => root(&t.expr, through),
        Expr::MethodCall(m) if through && transparent(&m.method.to_string()) => root(&m.receiver, through),
        _ => None,
    }
}

struct H<'a> {
    h: &'a Heap,
    alias: BTreeMap<String, String>,
    norm: &'a mut BTreeSet<String>,
}
impl H<'_> {
    fn canon(&self, n: String) -> String {
        let mut n = n;
        for _ in 0..4 {
            match self.alias.get(&n) {
                Some(m) if *m != n => n = m.clone(),
                _ => break,
            }
        }
        n
    }
    fn known(&self, n: &str) -> bool {
        self.h.calls.iter().any(|c| c.0 == n)
    }
    fn rule(&self, recv: Option<&str>, m: &str) -> Option<(String, String)> {
        self.h.calls.iter().find(|c| c.1 == m && !c.0.ends_with("::") && (c.0 == "*" || recv == Some(c.0.as_str()))).map(|c| (c.2.clone(), c.3.clone()))
    }
    fn cells(&self, name: &str, e: &mut Expr) {
        if let Some((_, x)) = self.h.defaults.iter().find(|d| d.0 == name) {
            if let Expr::Call(c) = e {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                if c.args.is_empty() && f.ends_with("::default") {
                    *e = syn::parse_str(x).expect("expression");
                    return;
                }
            }
        }
        if let Some((_, x)) = self.h.news.iter().find(|d| d.0 == name) {
            struct N(Args);
            impl VisitMut for N {
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    visit_mut::visit_expr_mut(self, e);
                    if let Expr::MethodCall(m) = e {
                        if m.method == "into" && m.args.is_empty() {
                            let (x, h) = (&m.receiver, &self.0);
                            match &*m.receiver {
                                Expr::Lit(l) if matches!(l.lit, syn::Lit::Bool(_)) => { *e = parse_quote!(AtomicBool::new(#x, #h)); return; }
                                Expr::Lit(l) if matches!(l.lit, syn::Lit::Int(_)) => { *e = parse_quote!(AtomicUsize::new(#x, #h)); return; }
                                _ => {}
                            }
                        }
                    }
                    if let Expr::Call(c) = e {
                        let f = c.func.to_token_stream().to_string().replace(' ', "");
                        if c.args.len() == 1 && ["Mutex::new", "RwLock::new", "AtomicUsize::new", "AtomicBool::new"].contains(&f.as_str()) {
                            c.args.extend(self.0.iter().cloned());
                        }
                    }
                }
            }
            N(args(x)).visit_expr_mut(e);
        }
    }
}

/// Local variables that are other names of known cells.
struct Aliases<'a, 'b>(&'a mut H<'b>);
impl<'ast> syn::visit::Visit<'ast> for Aliases<'_, '_> {
    fn visit_local(&mut self, l: &'ast syn::Local) {
        if let (syn::Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
            if let Some(r) = root(&i.expr, true) {
                let r = self.0.canon(r);
                let n = p.ident.to_string();
                if r != n && self.0.known(&r) && !self.0.known(&n) {
                    self.0.alias.insert(n, r);
                }
            }
        }
        syn::visit::visit_local(self, l);
    }
}

/// Whether a variable is used other than through a reference.
fn moved(x: &str, stmts: &[Stmt]) -> bool {
    struct M<'a>(&'a str, bool);
    impl<'ast> syn::visit::Visit<'ast> for M<'_> {
        fn visit_expr(&mut self, e: &'ast Expr) {
            match e {
                Expr::Path(p) if p.path.is_ident(self.0) => self.1 = true,
                Expr::Reference(r) if matches!(&*r.expr, Expr::Path(p) if p.path.is_ident(self.0)) => {}
                Expr::MethodCall(m) if matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident(self.0)) => {
                    for a in &m.args {
                        self.visit_expr(a);
                    }
                }
                _ => syn::visit::visit_expr(self, e),
            }
        }
        fn visit_field_value(&mut self, f: &'ast syn::FieldValue) {
            self.visit_expr(&f.expr);
        }
    }
    let mut m = M(x, false);
    for s in stmts {
        syn::visit::Visit::visit_stmt(&mut m, s);
    }
    m.1
}

impl VisitMut for H<'_> {
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if name.contains("assert") || name == "vec" {
            if let Ok(mut v) = syn::parse::Parser::parse2(Args::parse_terminated, m.tokens.clone()) {
                for e in v.iter_mut() {
                    self.visit_expr_mut(e);
                }
                m.tokens = v.to_token_stream();
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let recv = root(&m.receiver, false).map(|r| self.canon(r));
                if let Some((to, extra)) = self.rule(recv.as_deref(), &name) {
                    m.method = syn::Ident::new(&to, m.method.span());
                    for a in m.args.iter_mut() {
                        // an iterator over a Vec is passed as the Vec
                        while let Expr::MethodCall(i) = a {
                            if !["into_iter", "drain"].contains(&i.method.to_string().as_str()) {
                                break;
                            }
                            self.norm.insert("an iterator that is passed on is passed as the Vec it consumes".into());
                            *a = (*i.receiver).clone();
                        }
                    }
                    m.args.extend(args(&extra));
                    self.norm.insert("the heap behind interior mutability as a parameter".into());
                    return;
                }
                if (name == "unwrap" || name == "expect") && matches!(&*m.receiver, Expr::MethodCall(r) if ["lock", "read", "write"].contains(&r.method.to_string().as_str()) && r.args.len() == 1) {
                    self.norm.insert("locks do not poison".into());
                    *e = (*m.receiver).clone();
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &mut *c.func {
                    let n = p.path.segments.len();
                    let name = p.path.segments.last().unwrap().ident.to_string();
                    let owner = if n > 1 { format!("{}::", p.path.segments[n - 2].ident) } else { "::".into() };
                    if let Some(r) = self.h.calls.iter().find(|r| r.1 == name && (r.0 == owner || r.0 == "::")) {
                        p.path.segments.last_mut().unwrap().ident = syn::Ident::new(&r.2, proc_macro2::Span::call_site());
                        c.args.extend(args(&r.3));
                        self.norm.insert("the heap behind interior mutability as a parameter".into());
                    }
                }
            }
            Expr::Struct(s) => {
                for f in s.fields.iter_mut() {
                    if let syn::Member::Named(n) = &f.member {
                        let n = n.to_string();
                        self.cells(&n, &mut f.expr);
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut k = 0;
        while k < b.stmts.len() {
            let rest = b.stmts[k + 1..].to_vec();
            if let Stmt::Local(l) = &mut b.stmts[k] {
                if let (syn::Pat::Ident(p), Some(i)) = (&l.pat, &mut l.init) {
                    let name = p.ident.to_string();
                    self.cells(&name, &mut i.expr);
                    if p.mutability.is_none() && p.by_ref.is_none() {
                        if let Expr::MethodCall(m) = &mut *i.expr {
                            if m.method == "lock" && !m.args.is_empty() {
                                // nothing is changed through this guard, nor behind it while it is held
                                m.method = syn::Ident::new("snapshot", m.method.span());
                                self.norm.insert("a guard that is not mut is a copy of the content".into());
                            }
                        }
                    }
                    let mut x: &Expr = &i.expr;
                    let mut taken = false;
                    loop {
                        match x {
                            Expr::Try(t) => { taken = true; x = &t.expr; }
                            Expr::MethodCall(m) if m.method == "unwrap" => { taken = true; x = &m.receiver; }
                            _ => break,
                        }
                    }
                    if let Expr::MethodCall(m) = x {
                        if taken && m.method == "upgrade" && !m.args.is_empty() && !moved(&name, &rest) {
                            let id = syn::Ident::new(&name, proc_macro2::Span::call_site());
                            let extra = m.args.clone();
                            self.norm.insert("a temporary strong handle is dropped at the end of its block".into());
                            let drop: Stmt = parse_quote!(#id.__dropped(#extra););
                            match b.stmts.last().cloned() {
                                Some(Stmt::Expr(t, None)) => {
                                    b.stmts.pop();
                                    b.stmts.push(parse_quote!(let __t = #t;));
                                    b.stmts.push(drop);
                                    b.stmts.push(Stmt::Expr(parse_quote!(__t), None));
                                }
                                _ => b.stmts.push(drop),
                            }
                        }
                    }
                }
            }
            k += 1;
        }
    }
}

pub fn apply(h: &Heap, b: &mut Block, norm: &mut BTreeSet<String>) {
    if h.calls.is_empty() && h.news.is_empty() && h.defaults.is_empty() {
        return;
    }
    let mut x = H { h, alias: BTreeMap::new(), norm };
    let src = b.clone();
    for _ in 0..3 {
        syn::visit::Visit::visit_block(&mut Aliases(&mut x), &src);
    }
    x.visit_block_mut(b);
    let _ = quote!();
}
