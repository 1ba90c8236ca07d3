//! Where every function, constant and type of the sources is.
use std::collections::{BTreeMap, BTreeSet};
use quote::ToTokens;

pub type Id = (String, String, String);

#[derive(Clone)]
pub struct FnSrc {
    pub sig: syn::Signature,
    pub block: Option<syn::Block>,
}
#[derive(Default)]
pub struct Index {
    pub fns: BTreeMap<Id, FnSrc>,
    pub consts: BTreeMap<Id, (syn::Type, syn::Expr)>,
    pub types: BTreeMap<(String, String), syn::Item>,
    pub files: BTreeMap<String, String>,
    pub lifted: BTreeSet<String>,
    pub new_fns: BTreeSet<Id>,
}

/// Token text without spaces, paths reduced to their last segment.
pub fn norm(t: impl ToTokens) -> String {
    let s = t.to_token_stream().to_string();
    let mut out = String::new();
    // drop `a::` prefixes with a lower-case first letter, and leading `::`
    let toks: Vec<String> = tokens(t.to_token_stream());
    let _ = s;
    let mut i = 0;
    while i < toks.len() {
        if i + 2 < toks.len() && toks[i + 1] == ":" && toks[i + 2] == ":" && toks[i].chars().next().unwrap().is_lowercase() {
            i += 3;
            continue;
        }
        if toks[i] == ":" && i + 1 < toks.len() && toks[i + 1] == ":" && out.is_empty() {
            i += 2;
            continue;
        }
        let word = |s: &str| s.chars().next().map_or(false, |c| c.is_alphanumeric() || c == '_');
        if word(&toks[i]) && out.chars().last().map_or(false, |c| c.is_alphanumeric() || c == '_') {
            out.push(' ');
        }
        out.push_str(&toks[i]);
        i += 1;
    }
    out.replace(",)", ")")
}
fn tokens(ts: proc_macro2::TokenStream) -> Vec<String> {
    let mut v = vec![];
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                    proc_macro2::Delimiter::Brace => ("{", "}"),
                    proc_macro2::Delimiter::Bracket => ("[", "]"),
                    proc_macro2::Delimiter::None => ("", ""),
                };
                if !a.is_empty() { v.push(a.into()); }
                v.extend(tokens(g.stream()));
                if !b.is_empty() { v.push(b.into()); }
            }
            t => v.push(t.to_string()),
        }
    }
    v
}

fn skip(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        if !a.path().is_ident("cfg") {
            return false;
        }
        let t = norm(&a.meta);
        t == "cfg(test)" || t == "cfg(target_arch=\"spirv\")" || t == "cfg(kani)" || t == "cfg(doc)"
    })
}

impl Index {
    pub fn load(&mut self, key: &str, path: &str) {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
        let file = syn::parse_file(&text).unwrap_or_else(|e| panic!("{path}: {e} at {:?}", e.span().start()));
        self.files.insert(key.into(), path.into());
        self.items(key, &file.items);
    }
    fn items(&mut self, key: &str, items: &[syn::Item]) {
        for item in items {
            match item {
                syn::Item::Mod(m) if !skip(&m.attrs) => {
                    if let Some((_, items)) = &m.content {
                        self.items(key, items);
                    }
                }
                syn::Item::Fn(f) if !skip(&f.attrs) => {
                    let id = (key.to_string(), "fn".to_string(), f.sig.ident.to_string());
                    self.fns.insert(id, FnSrc { sig: f.sig.clone(), block: Some((*f.block).clone()) });
                }
                syn::Item::Struct(s) if !skip(&s.attrs) => {
                    self.types.insert((key.into(), s.ident.to_string()), item.clone());
                }
                syn::Item::Enum(s) if !skip(&s.attrs) => {
                    self.types.insert((key.into(), s.ident.to_string()), item.clone());
                }
                syn::Item::Const(c) if !skip(&c.attrs) => {
                    self.consts.insert((key.into(), "fn".into(), c.ident.to_string()), ((*c.ty).clone(), (*c.expr).clone()));
                }
                syn::Item::Trait(t) if !skip(&t.attrs) => {
                    let cont = format!("trait {}", t.ident);
                    for it in &t.items {
                        if let syn::TraitItem::Fn(f) = it {
                            if !skip(&f.attrs) {
                                self.fns.insert((key.into(), cont.clone(), f.sig.ident.to_string()),
                                    FnSrc { sig: f.sig.clone(), block: f.default.clone() });
                            }
                        }
                        if let syn::TraitItem::Const(c) = it {
                            if let Some((_, e)) = &c.default {
                                self.consts.insert((key.into(), cont.clone(), c.ident.to_string()), (c.ty.clone(), e.clone()));
                            }
                        }
                    }
                }
                syn::Item::Impl(im) if !skip(&im.attrs) => {
                    let cont = match &im.trait_ {
                        Some((_, p, _)) => format!("impl {} for {}", norm(p), norm(&im.self_ty)),
                        None => format!("impl {}", norm(&im.self_ty)),
                    };
                    for it in &im.items {
                        match it {
                            syn::ImplItem::Fn(f) if !skip(&f.attrs) => {
                                self.fns.insert((key.into(), cont.clone(), f.sig.ident.to_string()),
                                    FnSrc { sig: f.sig.clone(), block: Some(f.block.clone()) });
                            }
                            syn::ImplItem::Const(c) if !skip(&c.attrs) => {
                                self.consts.insert((key.into(), cont.clone(), c.ident.to_string()), (c.ty.clone(), c.expr.clone()));
                            }
                            _ => {}
                        }
                    }
                }
                _ => {}
            }
        }
    }
}
