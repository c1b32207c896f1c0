use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::*;

#[derive(Default)]
pub struct Index {
    pub impls: BTreeMap<String, Vec<ItemImpl>>,
    pub fns: BTreeMap<String, Vec<ItemFn>>,
    pub types: BTreeMap<String, Vec<Item>>,
    pub consts: BTreeMap<String, Vec<Item>>,
    pub traits: BTreeMap<String, Vec<ItemTrait>>,
}

/// names that several modules define, told apart: module -> (name -> new name); what the crate root re-exports
#[derive(Default)]
pub struct Renames { pub root: BTreeMap<String, String>, pub modules: BTreeMap<String, BTreeMap<String, String>> }
struct Ren<'a> { map: &'a BTreeMap<String, String>, r: &'a Renames }
impl<'a> syn::visit_mut::VisitMut for Ren<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        syn::visit_mut::visit_path_mut(self, p);
        let n = p.segments.len();
        let s0 = p.segments[0].ident.to_string();
        let set = |s: &mut PathSegment, m: &BTreeMap<String, String>| if let Some(x) = m.get(&s.ident.to_string()) { s.ident = quote::format_ident!("{}", x) };
        if s0 == "crate" || s0 == "crossmist" {
            if n >= 2 { set(&mut p.segments[1], &self.r.root) }
            if n >= 3 { if let Some(m) = self.r.modules.get(&p.segments[1].ident.to_string()) { set(&mut p.segments[2], m) } }
        } else if n >= 2 && self.r.modules.contains_key(&s0) { set(&mut p.segments[1], &self.r.modules[&s0]) }
        else if p.leading_colon.is_none() { set(&mut p.segments[0], self.map) }
    }
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        if let Some(x) = self.map.get(&f.sig.ident.to_string()) { f.sig.ident = quote::format_ident!("{}", x) }
        syn::visit_mut::visit_item_fn_mut(self, f)
    }
    fn visit_item_struct_mut(&mut self, f: &mut ItemStruct) {
        if let Some(x) = self.map.get(&f.ident.to_string()) { f.ident = quote::format_ident!("{}", x) }
        syn::visit_mut::visit_item_struct_mut(self, f)
    }
    fn visit_item_enum_mut(&mut self, f: &mut ItemEnum) {
        if let Some(x) = self.map.get(&f.ident.to_string()) { f.ident = quote::format_ident!("{}", x) }
        syn::visit_mut::visit_item_enum_mut(self, f)
    }
    fn visit_item_type_mut(&mut self, f: &mut ItemType) {
        if let Some(x) = self.map.get(&f.ident.to_string()) { f.ident = quote::format_ident!("{}", x) }
        syn::visit_mut::visit_item_type_mut(self, f)
    }
}
fn root_imports(u: &UseTree, root: &BTreeMap<String, String>, top: bool, out: &mut BTreeMap<String, String>) {
    match u {
        UseTree::Path(p) if top && (p.ident == "crate" || p.ident == "crossmist") => root_imports(&p.tree, root, false, out),
        UseTree::Name(n) if !top => { if let Some(x) = root.get(&n.ident.to_string()) { out.insert(n.ident.to_string(), x.clone()); } }
        UseTree::Group(g) => for u in &g.items { root_imports(u, root, top, out) },
        _ => {}
    }
}

/// names without what differs from build to build (`_0x7f..` at the end of generated names) and without
/// raw identifiers, which the verifier does not take everywhere
fn canonical(s: &str) -> String {
    let b = s.as_bytes();
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if word(b[i]) {
            let st = i;
            while i < b.len() && word(b[i]) { i += 1 }
            let w = &s[st..i];
            if w == "r" && i + 1 < b.len() && b[i] == b'#' && (b[i + 1].is_ascii_alphabetic() || b[i + 1] == b'_') { o.extend(b"vx_raw_"); i += 1; continue }
            match w.rfind("_0x") {
                Some(p) if w.contains("_crossmist_") && w[p + 3..].bytes().all(|c| c.is_ascii_hexdigit()) => o.extend(w[..p].bytes()),
                _ => o.extend(w.bytes()),
            }
        } else { o.push(b[i]); i += 1 }
    }
    String::from_utf8(o).unwrap()
}

impl Index {
    pub fn load(files: &[String], r: &Renames) -> Index {
        let mut idx = Index::default();
        for f in files {
            let s = std::fs::read_to_string(f).unwrap_or_else(|e| crate::die(&format!("cannot read {f}: {e}")));
            let s = canonical(&s);
            let file = syn::parse_file(&s).unwrap_or_else(|e| crate::die(&format!("cannot parse {f}: {e}")));
            idx.items(file.items, "", r);
        }
        idx
    }
    fn items(&mut self, items: Vec<Item>, module: &str, r: &Renames) {
        let mut map = r.modules.get(module).cloned().unwrap_or_default();
        for it in &items { if let Item::Use(u) = it { root_imports(&u.tree, &r.root, true, &mut map) } }
        for mut it in items {
            if !matches!(it, Item::Mod(_)) && (!map.is_empty() || !r.root.is_empty()) { syn::visit_mut::VisitMut::visit_item_mut(&mut Ren { map: &map, r }, &mut it); }
            match it {
                Item::Mod(m) => {
                    if m.attrs.iter().any(|a| a.path().is_ident("test")) { continue; }
                    if let Some((_, items)) = m.content { self.items(items, &m.ident.to_string(), r) }
                }
                Item::Impl(i) => {
                    let k = impl_key(&i);
                    self.impls.entry(k).or_default().push(i);
                }
                Item::Fn(f) => self.fns.entry(f.sig.ident.to_string()).or_default().push(f),
                Item::Struct(ref s) => { let k = s.ident.to_string(); self.types.entry(k).or_default().push(it) }
                Item::Enum(ref s) => { let k = s.ident.to_string(); self.types.entry(k).or_default().push(it) }
                Item::Type(ref s) => { let k = s.ident.to_string(); self.types.entry(k).or_default().push(it) }
                Item::Const(ref s) => {
                    let k = s.ident.to_string();
                    // derive-style anonymous consts hold items
                    if k == "_" {
                        if let Expr::Block(b) = &*s.expr {
                            let inner: Vec<Item> = b.block.stmts.iter().filter_map(|s| if let Stmt::Item(i) = s { Some(i.clone()) } else { None }).collect();
                            self.items(inner, module, r);
                        }
                    }
                    self.consts.entry(k).or_default().push(it)
                }
                Item::Static(ref s) => { let k = s.ident.to_string(); self.consts.entry(k).or_default().push(it) }
                Item::Trait(t) => self.traits.entry(t.ident.to_string()).or_default().push(t),
                _ => {}
            }
        }
    }
}

pub fn generic_names(g: &Generics) -> Vec<String> {
    g.params.iter().filter_map(|p| match p {
        GenericParam::Type(t) => Some(t.ident.to_string()),
        GenericParam::Const(c) => Some(c.ident.to_string()),
        _ => None,
    }).collect()
}

fn norm(ts: TokenStream, names: &[String], out: &mut String) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                    proc_macro2::Delimiter::Brace => ("{", "}"),
                    proc_macro2::Delimiter::Bracket => ("[", "]"),
                    _ => ("", ""),
                };
                out.push_str(a);
                norm(g.stream(), names, out);
                out.push_str(b);
            }
            TokenTree::Ident(id) => {
                let s = id.to_string();
                // last path segment only
                let is_path_prefix = matches!((v.get(i + 1), v.get(i + 2)), (Some(TokenTree::Punct(a)), Some(TokenTree::Punct(b))) if a.as_char() == ':' && b.as_char() == ':');
                if is_path_prefix { i += 3; continue; }
                if let Some(p) = names.iter().position(|n| *n == s) {
                    out.push_str(&format!("${p}"));
                } else {
                    if out.chars().last().map_or(false, |c| c.is_alphanumeric() || c == '_') { out.push(' '); }
                    out.push_str(&s);
                }
            }
            TokenTree::Punct(p) if p.as_char() == '\'' => {
                // lifetime: skip the tick, the ident, and a following comma
                i += 2;
                if let Some(TokenTree::Punct(c)) = v.get(i) { if c.as_char() == ',' { i += 1; } }
                continue;
            }
            TokenTree::Punct(p) if p.as_char() == ':' && out.is_empty() => {}
            TokenTree::Punct(p) => {
                // leading :: of an absolute path
                if p.as_char() == ':' && !out.ends_with(|c: char| c.is_alphanumeric() || c == '_') { i += 1; continue; }
                out.push(p.as_char())
            }
            TokenTree::Literal(l) => out.push_str(&l.to_string()),
        }
        i += 1;
    }
}

pub fn norm_str(ts: TokenStream, names: &[String]) -> String {
    let mut s = String::new();
    norm(ts, names, &mut s);
    s.replace("<>", "")
}

pub fn impl_key(i: &ItemImpl) -> String {
    let names = generic_names(&i.generics);
    let ty = norm_str(i.self_ty.to_token_stream(), &names);
    match &i.trait_ {
        Some((_, p, _)) => format!("{}@{}", norm_str(p.to_token_stream(), &names), ty),
        None => ty,
    }
}
