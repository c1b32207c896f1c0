use crate::index::{generic_names, Index};
use crate::rewrite::{Cfg, Rw};
use crate::die;
use proc_macro2::{TokenStream, TokenTree, Delimiter};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path as FsPath;
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Default)]
pub struct FnRec { pub key: String, pub mode: String, pub start: usize, pub end: usize, pub contracted: bool, pub calls: Vec<String>, pub loops: usize, pub loop_specs: usize, pub closures: usize, pub lets: Vec<String>, pub hints: bool, pub text: String }
pub static VACUITY: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
pub static ASSUME: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();

#[derive(Default)]
pub struct Out {
    pub text: String,
    pub fns: Vec<FnRec>,
    pub dropped: BTreeSet<String>,
    pub omitted: Vec<String>,
    pub claimed: BTreeSet<String>,
    pub lost: Vec<String>,
    pub pending: Vec<(String, String, String, String, Vec<String>)>,
    hoisted: Vec<(Cfg, String, ItemFn, FnSpec)>,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => {}, c => o.push(c) } }
    o.push('"'); o
}
fn jl(v: impl IntoIterator<Item = String>) -> String { format!("[{}]", v.into_iter().map(|s| js(&s)).collect::<Vec<_>>().join(",")) }

impl Out {
    fn line(&self) -> usize { self.text.matches('\n').count() + 1 }
    pub fn finish(&mut self) {}
    pub fn json(&self) -> String {
        let fns: Vec<String> = self.fns.iter().map(|f| format!(
            "{{\"key\":{},\"mode\":{},\"start\":{},\"end\":{},\"contracted\":{},\"loops\":{},\"loop_specs\":{},\"closures\":{},\"hints\":{},\"lets\":{},\"calls\":{},\"text\":{}}}",
            js(&f.key), js(&f.mode), f.start, f.end, f.contracted, f.loops, f.loop_specs, f.closures, f.hints, jl(f.lets.clone()), jl(f.calls.clone()), js(&f.text))).collect();
        format!("{{\"fns\":[{}],\n\"dropped\":{},\n\"omitted\":{},\n\"lost\":{}}}\n", fns.join(",\n"), jl(self.dropped.iter().cloned()), jl(self.omitted.clone()), jl(self.lost.clone()))
    }
}

// ---------------------------------------------------------------- token printing
fn put(ts: TokenStream, out: &mut String) {
    let mut prev_joint = false;
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"), Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{\n", "}\n"), Delimiter::None => ("", ""),
                };
                out.push_str(a);
                put(g.stream(), out);
                if b == "}\n" && !out.ends_with('\n') { out.push('\n') }
                out.push_str(b);
                if b == ")" || b == "]" { out.push(' ') }
                prev_joint = false;
            }
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                prev_joint = p.spacing() == proc_macro2::Spacing::Joint;
                if !prev_joint { if p.as_char() == ';' { out.push('\n') } else { out.push(' ') } }
            }
            TokenTree::Ident(i) => { out.push_str(&i.to_string()); out.push(' '); prev_joint = false; }
            TokenTree::Literal(l) => { out.push_str(&l.to_string()); out.push(' '); prev_joint = false; }
        }
    }
    let _ = prev_joint;
}
pub fn show(ts: TokenStream) -> String { let mut s = String::new(); put(ts, &mut s); s }

// ---------------------------------------------------------------- template blocks
#[derive(Default, Clone)]
struct FnSpec { mode: String, contract: String, loops: BTreeMap<usize, String>, loopbody: BTreeMap<usize, String>, loopend: BTreeMap<usize, String>, pre: String, post: String, after: Vec<(String, usize, String)>, attr: String, optional: bool, given: bool, clos: BTreeMap<usize, Clo>, ret: String, nested: String }
#[derive(Default, Clone)]
pub struct Clo { pub name: String, pub kind: String, pub head: String, pub pre: String }
#[derive(Default, Clone)]
struct Blk { kind: String, key: String, header: Option<String>, members: String, attr: String, only: Option<Vec<String>>, skip: Vec<String>, fns: BTreeMap<String, FnSpec>, optional: bool, mode: String, }

struct Binds { g: Vec<String>, fg: Vec<String>, muts: Vec<String>, lets: Vec<String>, args: Vec<String>, fields: Vec<String> }
fn subst(s: &str, b: &Binds) -> String {
    let mut out = String::new();
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '$' {
            let mut j = i + 1;
            let mut w = String::new();
            while j < c.len() && c[j].is_alphabetic() { w.push(c[j]); j += 1 }
            let mut d = String::new();
            while j < c.len() && c[j].is_ascii_digit() { d.push(c[j]); j += 1 }
            if let Ok(n) = d.parse::<usize>() {
                let r = match w.as_str() { "" => b.g.get(n), "g" => b.fg.get(n), "mut" => b.muts.get(n), "let" => b.lets.get(n), "arg" => b.args.get(n), "field" => b.fields.get(n), _ => None };
                match r { Some(x) => out.push_str(x), None => out.push_str(&format!("vx_missing_{w}{d}")) }
                i = j; continue;
            }
        }
        out.push(c[i]); i += 1;
    }
    out
}

struct CountClosures(usize);
impl<'ast> syn::visit::Visit<'ast> for CountClosures { fn visit_expr_closure(&mut self, c: &'ast ExprClosure) { self.0 += 1; syn::visit::visit_expr_closure(self, c) } }
struct LetNames { muts: Vec<String>, lets: Vec<String> }
impl<'ast> syn::visit::Visit<'ast> for LetNames {
    fn visit_local(&mut self, l: &'ast Local) {
        let mut p = &l.pat;
        while let Pat::Type(t) = p { p = &t.pat }
        if let Pat::Ident(i) = p { if i.ident.to_string().starts_with('_') { syn::visit::visit_local(self, l); return }
            self.lets.push(i.ident.to_string());
            if i.mutability.is_some() { self.muts.push(i.ident.to_string()) }
        }
        syn::visit::visit_local(self, l);
    }
}

fn contains_call(e: &impl ToTokens, name: &str) -> bool {
    fn rec(ts: TokenStream, name: &str) -> bool {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        for (i, t) in v.iter().enumerate() {
            match t {
                TokenTree::Ident(id) if id == name => {
                    // followed by (...) or ::<...>(...)
                    for u in v.iter().skip(i + 1) {
                        match u { TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => return true,
                                  TokenTree::Punct(p) if matches!(p.as_char(), ':' | '<' | '>' | ',' | '\'') => continue,
                                  TokenTree::Ident(_) => continue,
                                  _ => break }
                    }
                }
                TokenTree::Group(g) => if rec(g.stream(), name) { return true },
                _ => {}
            }
        }
        false
    }
    rec(e.to_token_stream(), name)
}

/// insert marker macro after the k-th innermost statement that contains a call to `name`
struct AfterIns<'a> { name: &'a str, k: usize, seen: usize, id: usize, done: bool }
impl<'a> VisitMut for AfterIns<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            if self.done { return }
            let has = contains_call(&b.stmts[i], self.name);
            if has {
                // is it inside a nested block?
                let before = self.seen;
                syn::visit_mut::visit_stmt_mut(self, &mut b.stmts[i]);
                if self.done { return }
                if self.seen == before {
                    if self.seen == self.k {
                        let lit = LitInt::new(&self.id.to_string(), proc_macro2::Span::call_site());
                        // a tail expression cannot be followed
                        if matches!(b.stmts[i], Stmt::Expr(_, None)) && i + 1 == b.stmts.len() {
                            if let Stmt::Expr(x, None) = b.stmts[i].clone() {
                                b.stmts[i] = parse_quote!(let vx_tail = #x;);
                                b.stmts.push(parse_quote!(__vx_after!(#lit);));
                                b.stmts.push(Stmt::Expr(parse_quote!(vx_tail), None));
                            }
                        } else {
                            b.stmts.insert(i + 1, parse_quote!(__vx_after!(#lit);));
                        }
                        self.done = true;
                        return;
                    }
                    self.seen += 1;
                }
            }
            i += 1;
        }
    }
}

fn brace_open_marker(text: &str, marker: &str, f: &dyn Fn(usize) -> (String, String)) -> String {
    // replaces "{ <ws> marker ! (N) ;" by "<invariants> { <body>"
    let mut out = String::new();
    let mut rest = text;
    loop {
        let Some(p) = rest.find(marker) else { out.push_str(rest); return out };
        let head = &rest[..p];
        let tail = &rest[p + marker.len()..];
        let q = tail.find('(').unwrap();
        let r = tail.find(')').unwrap();
        let n: usize = tail[q + 1..r].trim().parse().unwrap();
        let s = tail.find(';').unwrap();
        let brace = head.rfind('{').unwrap();
        let (inv, body) = f(n);
        out.push_str(&head[..brace]);
        out.push('\n'); out.push_str(&inv); out.push_str("\n{\n"); out.push_str(&head[brace + 1..]); out.push_str(&body);
        rest = &tail[s + 1..];
    }
}

/// `mut self` receivers: the verifier takes `self` by value, the body works on a local
struct SelfTo;
impl VisitMut for SelfTo {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { if p.path.is_ident("self") { *p = parse_quote!(vx_self) } else { syn::visit_mut::visit_expr_path_mut(self, p) } }
}

struct FnIn { sig: Signature, block: Option<Block> }

#[allow(clippy::too_many_arguments)]
fn emit_fn(out: &mut Out, cfg: &Cfg, key: &str, f: &FnIn, spec: &FnSpec, g: &[String], in_trait: bool) {
    let mut sig = f.sig.clone();
    let fg = generic_names(&sig.generics);
    let mut f = FnIn { sig: f.sig.clone(), block: f.block.clone() };
    if let Some(b) = &mut f.block { if !spec.nested.is_empty() { hoist(out, cfg, key, b, spec) } }
    let f = &f;
    // a parameter that is a boxed trait object: the caller's coercion is made at the entry instead
    let mut coerce: Vec<Stmt> = vec![];
    if cfg.dyns {
        let mut newg: Vec<GenericParam> = vec![];
        for a in sig.inputs.iter_mut() {
            let FnArg::Typed(p) = a else { continue };
            let Some((tr, args, o)) = dyn_fn(&p.ty) else { continue };
            let Pat::Ident(i) = &*p.pat else { continue };
            let (i, d) = (i.ident.clone(), quote::format_ident!("VxD{}", newg.len()));
            let as_dyn = quote::format_ident!("vx_as_dyn_{}", tr);
            let tr = quote::format_ident!("{}", tr);
            newg.push(parse_quote!(#d: #tr<#args, Output = #o>));
            *p.ty = parse_quote!(Box<#d>);
            coerce.push(parse_quote!(let #i = #as_dyn(#i);));
        }
        if !newg.is_empty() { out.dropped.insert("unsizing of a box to a trait object at a call (made at the callee's entry; the trait object is a value of type VxDyn*)".into()); }
        sig.generics.params.extend(newg);
    }
    let mut rw = Rw::new(cfg);
    let args: Vec<String> = sig.inputs.iter().filter_map(|a| if let FnArg::Typed(p) = a { if let Pat::Ident(i) = &*p.pat { Some(i.ident.to_string()) } else { Some(p.pat.to_token_stream().to_string()) } } else { None }).collect();
    rw.visit_signature_mut(&mut sig);
    let mut block = f.block.clone();
    if let Some(b) = &mut block { for c in coerce.into_iter().rev() { b.stmts.insert(0, c) } }
    if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.is_some() && r.colon_token.is_none() {
            r.mutability = None;
            if let Some(b) = &mut block { SelfTo.visit_block_mut(b); b.stmts.insert(0, parse_quote!(let mut vx_self = self;)); }
        }
    }
    let mut binds = Binds { g: g.to_vec(), fg, muts: vec![], lets: vec![], args, fields: vec![] };
    let mut unmatched = vec![];
    let mut closures = CountClosures(0);
    if let Some(b) = &mut block {
        let mut ln = LetNames { muts: vec![], lets: vec![] };
        syn::visit::Visit::visit_block(&mut ln, b);
        binds.muts = ln.muts; binds.lets = ln.lets;
        rw.locals = binds.lets.iter().chain(binds.args.iter()).cloned().collect();
        rw.clos = spec.clos.iter().map(|(k, c)| (*k, c.clone())).collect();
        rw.visit_block_mut(b);
        syn::visit::Visit::visit_block(&mut closures, b);
        for (id, (name, k, _)) in spec.after.iter().enumerate() {
            let mut ai = AfterIns { name, k: *k, seen: 0, id, done: false };
            ai.visit_block_mut(b);
            if !ai.done { unmatched.push(format!("{key}: no statement #{k} calling {name}")); }
        }
        if !spec.post.is_empty() {
            if let Some(Stmt::Expr(_, None)) = b.stmts.last() {
                let Some(Stmt::Expr(x, None)) = b.stmts.pop() else { unreachable!() };
                b.stmts.push(parse_quote!(let vx_res = #x;));
                b.stmts.push(parse_quote!(__vx_post!(0);));
                b.stmts.push(Stmt::Expr(parse_quote!(vx_res), None));
            } else {
                b.stmts.push(parse_quote!(__vx_post!(0);));
            }
        }
    }
    for e in rw.errors.drain(..) { out.lost.push(format!("{key}: {e}")); }
    for m in unmatched { out.lost.push(m); }
    out.dropped.extend(rw.dropped.iter().cloned());
    let start = out.line();
    let mut mode = if spec.mode.is_empty() { "verify" } else { &spec.mode };
    let forced = mode == "verify" && block.is_some() && ASSUME.get().map_or(false, |a| a.iter().any(|k| k == key));
    if forced { mode = "assumed" }
    if mode == "assumed" { out.text.push_str("#[verifier::external_body]\n"); }
    else if mode == "verify" && cfg.spinoff && block.is_some() { out.text.push_str("#[verifier::spinoff_prover]\n"); }
    if !spec.attr.is_empty() { out.text.push_str(&subst(&spec.attr, &binds)); }
    // signature text
    let ret = sig.output.clone();
    sig.output = ReturnType::Default;
    let wherec = sig.generics.where_clause.take();
    let mut t = String::new();
    if !in_trait { t.push_str("pub "); }
    t.push_str(&show(sig.to_token_stream()));
    if !spec.ret.is_empty() { t.push_str(&format!("-> (res: {}) ", spec.ret)); }
    else if let ReturnType::Type(_, ty) = &ret {
        if let Type::Never(_) = **ty { t.push_str("-> ! "); } else {
        t.push_str(&format!("-> (res: {}) ", show(ty.to_token_stream()))); }
    }
    if let Some(w) = wherec { t.push_str(&show(w.to_token_stream())); t.push('\n'); }
    out.text.push_str(&t); out.text.push('\n');
    if !spec.contract.trim().is_empty() { out.text.push_str(&subst(&spec.contract, &binds)); out.text.push('\n'); }
    let nl = rw.loops;
    match (&block, mode) {
        (None, _) => out.text.push_str(";\n"),
        (Some(_), "assumed") => out.text.push_str("{ unimplemented!() }\n"),
        (Some(_), "decl") => out.text.push_str(";\n"),
        (Some(b), _) => {
            let mut s = show(b.to_token_stream());
            s = brace_open_marker(&s, "__vx_inv", &|n| {
                (spec.loops.get(&n).map(|x| subst(x, &binds)).unwrap_or_default(),
                 spec.loopbody.get(&n).map(|x| subst(x, &binds)).unwrap_or_default())
            });
            for (id, (_, _, txt)) in spec.after.iter().enumerate() {
                s = replace_marker(&s, "__vx_after", id, &subst(txt, &binds));
            }
            if !spec.post.is_empty() { s = replace_marker(&s, "__vx_post", 0, &subst(&spec.post, &binds)); }
            if !spec.pre.is_empty() { let p = s.find('{').unwrap(); s.insert_str(p + 1, &format!("\n{}\n", subst(&spec.pre, &binds))); }
            if *VACUITY.get().unwrap() { let p = s.find('{').unwrap(); s.insert_str(p + 1, "\nproof { assert(false); }\n"); }
            out.text.push_str(&s);
            if !s.ends_with('\n') { out.text.push('\n') }
        }
    }
    let end = out.line();
    for (k, body) in std::mem::take(&mut rw.clo_bodies) {
        let c = &spec.clos[&k];
        let mut s = show(body.to_token_stream());
        if !s.trim_start().starts_with('{') { s = format!("{{ {s} }}") }
        if !c.pre.is_empty() { let p = s.find('{').unwrap(); s.insert_str(p + 1, &format!("\n{}\n", subst(&c.pre, &binds))); }
        out.pending.push((format!("{key}::{{closure{k}}}"), subst(&c.head, &binds), s, mode.to_string(), rw.calls.iter().cloned().collect()));
    }
    for k in spec.clos.keys() { if mode == "verify" && block.is_some() && !out.pending.iter().any(|p| p.0 == format!("{key}::{{closure{k}}}")) { out.lost.push(format!("{key}: closure {k} not found in the source")); } }
    if spec.loops.keys().any(|k| *k >= nl) || (nl != spec.loops.len() && mode == "verify" && block.is_some()) {
        out.lost.push(format!("{key}: {} loops in the source, {} loop invariants in the contract", nl, spec.loops.len()));
    }
    out.fns.push(FnRec { key: key.into(), mode: mode.into(), start, end, contracted: spec.given, calls: rw.calls.into_iter().collect(), loops: nl, loop_specs: spec.loops.len(), closures: closures.0, lets: binds.lets.clone(),
        hints: !spec.after.is_empty() || !spec.loops.is_empty() || spec.pre.contains("$let") || spec.pre.contains("$mut") || spec.post.contains("$let") || spec.post.contains("$mut"),
        text: format!("{:016x}", { let mut h: u64 = 0xcbf29ce484222325; for b in f.block.to_token_stream().to_string().bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); } h }) });
    if forced { out.fns.last_mut().unwrap().mode = "undecided".into() }
}

/// functions nested in a function body become free functions
fn hoist(out: &mut Out, cfg: &Cfg, key: &str, b: &mut Block, spec: &FnSpec) {
    struct Ren<'a>(&'a BTreeMap<String, String>);
    impl<'a> VisitMut for Ren<'a> {
        fn visit_path_mut(&mut self, p: &mut Path) {
            visit_mut::visit_path_mut(self, p);
            if p.segments.len() == 1 { if let Some(x) = self.0.get(&p.segments[0].ident.to_string()) { p.segments[0].ident = quote::format_ident!("{}", x) } }
        }
    }
    let mut m = BTreeMap::new();
    let mut fs = vec![];
    b.stmts.retain(|s| if let Stmt::Item(Item::Fn(f)) = s { fs.push(f.clone()); false } else { true });
    for f in fs.iter_mut() { let n = f.sig.ident.to_string(); let x = format!("vx_{}_{}", n, cfg.cur_self); f.sig.ident = quote::format_ident!("{}", x); m.insert(n, x); }
    if fs.is_empty() { return }
    out.dropped.insert("nesting of functions in function bodies".into());
    Ren(&m).visit_block_mut(b);
    for mut f in fs {
        Ren(&m).visit_block_mut(&mut f.block);
        let k = format!("{key}::{}", f.sig.ident);
        out.hoisted.push((cfg.clone(), k, f, FnSpec { given: true, mode: spec.mode.clone(), contract: spec.nested.clone(), ..Default::default() }));
    }
}

pub fn dyn_fn(t: &Type) -> Option<(String, Type, Type)> {
    let Type::Path(p) = t else { return None };
    let s = p.path.segments.last()?;
    if s.ident != "Box" { return None }
    let PathArguments::AngleBracketed(a) = &s.arguments else { return None };
    let Some(GenericArgument::Type(Type::TraitObject(o))) = a.args.first() else { return None };
    let TypeParamBound::Trait(tb) = o.bounds.iter().find(|b| matches!(b, TypeParamBound::Trait(_)))? else { return None };
    let s = tb.path.segments.last()?;
    if !matches!(s.ident.to_string().as_str(), "FnOnceObject" | "FnMutObject" | "FnObject") { return None }
    let PathArguments::AngleBracketed(a) = &s.arguments else { return None };
    let (mut args, mut out) = (None, None);
    for g in &a.args { match g { GenericArgument::Type(t) => args = Some(t.clone()), GenericArgument::AssocType(t) => out = Some(t.ty.clone()), _ => {} } }
    Some((s.ident.to_string(), args?, out?))
}

fn flush(out: &mut Out) {
    for (cfg, key, f, spec) in std::mem::take(&mut out.hoisted) {
        emit_fn(out, &cfg, &key, &FnIn { sig: f.sig.clone(), block: Some((*f.block).clone()) }, &spec, &[], false);
    }
    for (key, head, body, mode, calls) in std::mem::take(&mut out.pending) {
        out.text.push_str(&head);
        let start = out.line();
        let ret = head.lines().find_map(|l| l.trim().strip_prefix("//ret ")).unwrap_or("()").to_string();
        if mode == "assumed" { out.text.push_str("#[verifier::external_body]\n"); }
        out.text.push_str(&format!("fn vx_call(&mut self, vx_w: &mut World) -> (res: Result<{ret}>)\n{}\n}}\n", if mode == "assumed" { "{ unimplemented!() }".to_string() } else { body }));
        let end = out.line();
        out.fns.push(FnRec { key, mode: mode.clone(), start, end, contracted: true, calls, ..Default::default() });
    }
}

fn replace_marker(s: &str, marker: &str, id: usize, txt: &str) -> String {
    let mut from = 0;
    while let Some(p) = s[from..].find(marker) {
        let p = p + from;
        let tail = &s[p + marker.len()..];
        let q = tail.find('(').unwrap(); let r = tail.find(')').unwrap();
        let n: usize = tail[q + 1..r].trim().parse().unwrap();
        let e = tail.find(';').unwrap();
        if n == id { return format!("{}{}{}", &s[..p], txt, &tail[e + 1..]); }
        from = p + marker.len();
    }
    s.to_string()
}

/// `//@crateroot A=>B ...` and `//@module m A=>B ...`
pub fn renames(text: &str, dir: &FsPath) -> crate::index::Renames {
    let mut r = crate::index::Renames::default();
    for l in include(text, dir).lines() {
        let pairs = |s: &str| s.split_whitespace().map(|x| { let (a, b) = x.split_once("=>").unwrap(); (a.to_string(), b.to_string()) }).collect::<Vec<_>>();
        if let Some(s) = l.trim().strip_prefix("//@crateroot ") { r.root.extend(pairs(s)); }
        if let Some(s) = l.trim().strip_prefix("//@module ") { let (m, s) = s.split_once(' ').unwrap(); r.modules.entry(m.to_string()).or_default().extend(pairs(s)); }
    }
    r
}

pub fn process(text: &str, idx: &Index, dir: &FsPath) -> Out {
    let mut out = Out::default();
    let mut cfg = Cfg::default();
    let text = include(text, dir);
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        let t = l.trim();
        if let Some(d) = t.strip_prefix("//@") {
            let (w, rest) = d.split_once(' ').unwrap_or((d, ""));
            match w {
                "rename" => { let (a, b) = rest.split_once("=>").unwrap(); cfg.renames.insert(a.trim().into(), b.trim().into()); i += 1; }
                "method" => { let (a, b) = rest.split_once("=>").unwrap(); cfg.methods.insert(a.trim().into(), b.trim().into()); i += 1; }
                "closure" => { let (a, b) = rest.split_once("=>").unwrap(); cfg.closures.insert(a.trim().into(), b.trim().into()); i += 1; }
                "world" => { for x in rest.split_whitespace() { cfg.world.insert(x.into()); } i += 1; }
                "noworld" => { for x in rest.split_whitespace() { cfg.world.remove(x); } i += 1; }
                "dropbound" => { for x in rest.split_whitespace() { cfg.dropbounds.insert(x.into()); } i += 1; }
                "dynfn" => { for x in rest.split_whitespace() { cfg.dynfns.insert(x.into()); } i += 1; }
                "guarded" => { for x in rest.split_whitespace() { cfg.guarded.insert(x.into()); } i += 1; }
                "fnvalues" => { for x in rest.split_whitespace() { cfg.fnvalues.insert(x.into()); } i += 1; }
                "unsafefns" => { cfg.unsafefns = rest.trim() == "on"; i += 1; }
                "ptrcasts" => { cfg.ptrcasts = rest.trim() == "on"; i += 1; }
                "notpod" => { notpod(&mut out, idx, rest); i += 1; }
                "words" => { words(&mut out, idx, rest.trim()); i += 1; }
                "keeppath" => { for x in rest.split_whitespace() { cfg.keep_generic_path.insert(x.into()); } i += 1; }
                "crateroot" | "module" => i += 1,
                "tryconv" => { cfg.tryconv = rest.trim() == "on"; i += 1; }
                "spinoff" => { cfg.spinoff = rest.trim() == "on"; i += 1; }
                "panics" => { cfg.panics = rest.trim().into(); i += 1; }
                "podaxioms" => { podaxioms(&mut out, &cfg, idx, &rest.split_whitespace().collect::<Vec<_>>()); i += 1; }
                "dyn" => { cfg.dyns = rest.trim() == "on"; cfg.dyntypes = rest.trim() == "types"; i += 1; }
                "funcs" => { funcs(&mut out, &cfg, idx); i += 1; }
                "derived" => { derived(&mut out, &cfg, idx, &rest.split_whitespace().map(String::from).collect::<Vec<_>>()); i += 1; }
                "bound" => { bound(&mut out, &cfg, idx); i += 1; }
                "tuples" => { tuples(&mut out, &cfg, idx); i += 1; }
                "basepods" => { basepods(&mut out, &cfg, idx); i += 1; }
                "unrename" => { for x in rest.split_whitespace() { cfg.renames.remove(x); } i += 1; }
                "unmethod" => { for x in rest.split_whitespace() { cfg.methods.remove(x); } i += 1; }
                "inline" => { for x in rest.split_whitespace() { cfg.inlines.insert(x.into()); } i += 1; }
                "set" => { let (a, b) = rest.split_once(' ').unwrap(); cfg.sets.insert(a.trim().into(), b.trim().into()); i += 1; }
                "mode" => { cfg.mode = cfg.sets.get(rest.trim()).cloned().unwrap_or_else(|| "verify".into()); if cfg.mode == "verify" { cfg.mode.clear() } i += 1; }
                "ghostfield" => {
                    let (a, init) = rest.split_once('=').unwrap();
                    let (tn, ty) = a.split_once(':').unwrap();
                    let (t, n) = tn.trim().split_once(' ').unwrap();
                    cfg.ghostfields.entry(t.trim().into()).or_default().push((n.trim().into(), ty.trim().into(), init.trim().into()));
                    i += 1;
                }
                "podimpls" => { podimpls(&mut out, &cfg, idx, rest); i += 1; }
                "impl" | "fn" | "type" | "const" | "static" | "trait" => {
                    let mut blk = Blk { kind: w.into(), ..Default::default() };
                    let mut key = rest.trim().to_string();
                    if let Some(k) = key.strip_suffix(" optional") { key = k.trim().into(); blk.optional = true }
                    if let Some(k) = key.strip_suffix(" assumed") { key = k.trim().into(); blk.mode = "assumed".into() }
                    if blk.mode.is_empty() { blk.mode = cfg.mode.clone() }
                    blk.key = key;
                    i += 1;
                    let (mut cur, mut curfn): (String, String) = (if w == "fn" || w == "static" { "contract".into() } else { "members".into() }, "".into());
                    let mut arg = String::new();
                    if w == "static" { cfg.statics.insert(blk.key.clone()); }
                    if w == "fn" || w == "static" { curfn = "self".into(); blk.fns.insert("self".into(), FnSpec { mode: blk.mode.clone(), given: true, ..Default::default() }); }
                    while i < lines.len() && lines[i].trim() != "//@end" {
                        let l = lines[i];
                        if let Some(d) = l.trim().strip_prefix("//@") {
                            let (w, rest) = d.split_once(' ').unwrap_or((d, ""));
                            match w {
                                "header" => { blk.header = Some(rest.into()) }
                                "only" => blk.only = Some(rest.split_whitespace().map(|s| s.to_string()).collect()),
                                "skip" => blk.skip.extend(rest.split_whitespace().map(|s| s.to_string())),
                                "attr" => if curfn.is_empty() { blk.attr.push_str(rest); blk.attr.push('\n') } else { let a = &mut blk.fns.get_mut(&curfn).unwrap().attr; a.push_str(rest); a.push('\n') },
                                "members" => { cur = "members".into(); curfn.clear() }
                                "fn" => {
                                    let mut p = rest.split_whitespace();
                                    curfn = p.next().unwrap().into();
                                    let mut fs = FnSpec { given: true, mode: blk.mode.clone(), ..Default::default() };
                                    for m in p { if m == "optional" { fs.optional = true } else { fs.mode = m.into() } }
                                    blk.fns.insert(curfn.clone(), fs);
                                    cur = "contract".into();
                                }
                                "pre" | "post" | "clopre" => cur = w.into(),
                                "clo" => { cur = w.into();
                                    let mut p = rest.split_whitespace(); let k: usize = p.next().unwrap().parse().unwrap(); arg = k.to_string();
                                    let c = Clo { name: p.next().unwrap().into(), kind: p.next().unwrap_or("mut").into(), ..Default::default() };
                                    blk.fns.get_mut(&curfn).unwrap().clos.insert(k, c); }
                                "loop" | "loopbody" | "loopend" => { cur = w.into(); arg = rest.trim().into(); }
                                "after" => { cur = w.into();
                                    let mut p = rest.split_whitespace(); let n = p.next().unwrap().to_string(); let k = p.next().map_or(0, |x| x.parse().unwrap());
                                    blk.fns.get_mut(&curfn).unwrap().after.push((n, k, String::new())); }
                                x => die(&format!("template: unknown sub-directive {x}")),
                            }
                        } else {
                            let add = format!("{l}\n");
                            if curfn.is_empty() { blk.members.push_str(&add) } else {
                                let f = blk.fns.get_mut(&curfn).unwrap();
                                match cur.as_str() {
                                    "contract" => f.contract.push_str(&add),
                                    "pre" => f.pre.push_str(&add),
                                    "clo" => f.clos.get_mut(&arg.parse::<usize>().unwrap()).unwrap().head.push_str(&add),
                                    "clopre" => f.clos.get_mut(&arg.parse::<usize>().unwrap()).unwrap().pre.push_str(&add),
                                    "post" => f.post.push_str(&add),
                                    "loop" => f.loops.entry(arg.parse().unwrap()).or_default().push_str(&add),
                                    "loopbody" => f.loopbody.entry(arg.parse().unwrap()).or_default().push_str(&add),
                                    "loopend" => f.loopend.entry(arg.parse().unwrap()).or_default().push_str(&add),
                                    "after" => f.after.last_mut().unwrap().2.push_str(&add),
                                    _ => {}
                                }
                            }
                        }
                        i += 1;
                    }
                    i += 1;
                    block(&mut out, &cfg, idx, &blk);
                }
                x => die(&format!("template: unknown directive {x}")),
            }
        } else {
            out.text.push_str(l); out.text.push('\n');
            i += 1;
        }
    }
    out
}

fn include(text: &str, dir: &FsPath) -> String {
    let mut o = String::new();
    for l in text.lines() {
        if let Some(f) = l.trim().strip_prefix("//@include ") {
            let s = std::fs::read_to_string(dir.join(f.trim())).unwrap_or_else(|e| die(&format!("include {f}: {e}")));
            o.push_str(&include(&s, dir));
        } else { o.push_str(l); o.push('\n') }
    }
    o
}

fn pick<'a, T>(m: &'a BTreeMap<String, Vec<T>>, key: &str, what: &str, optional: bool) -> Option<&'a T> {
    // KEY#n picks the n-th when there are several
    let (k, n) = match key.rsplit_once('#') { Some((k, n)) => (k, Some(n.parse::<usize>().unwrap())), None => (key, None) };
    match m.get(k) {
        None => { if optional { None } else { die(&format!("{what} `{key}` not found in the source")) } }
        Some(v) => match n {
            Some(n) => v.get(n).or_else(|| die(&format!("{what} `{key}` not found"))),
            None => { if v.len() != 1 { die(&format!("{what} `{key}` is ambiguous ({} found)", v.len())) } v.first() }
        },
    }
}

fn block(out: &mut Out, cfg: &Cfg, idx: &Index, blk: &Blk) {
    match blk.kind.as_str() {
        "fn" => {
            let Some(f) = pick(&idx.fns, &blk.key, "function", blk.optional) else { return };
            let spec = blk.fns.get("self").cloned().unwrap_or_default();
            out.text.push_str(&blk.attr);
            emit_fn(out, cfg, &blk.key, &FnIn { sig: f.sig.clone(), block: Some((*f.block).clone()) }, &spec, &[], false);
            flush(out);
        }
        "type" => {
            let Some(t) = pick(&idx.types, &blk.key, "type", blk.optional) else { return };
            let mut t = t.clone();
            let mut rw = Rw::new(cfg);
            match &mut t {
                Item::Struct(s) => { s.attrs.clear(); for f in s.fields.iter_mut() { f.vis = parse_quote!(pub); f.attrs.clear() } rw.visit_item_struct_mut(s);
                    if let Some(gf) = cfg.ghostfields.get(&s.ident.to_string()) {
                        if let Fields::Named(nf) = &mut s.fields {
                            for (n, t, _) in gf { let n = quote::format_ident!("{}", n); let t: Type = syn::parse_str(t).unwrap(); nf.named.push(parse_quote!(pub #n: #t)); }
                        }
                    }
                }
                Item::Enum(e) => { e.attrs.clear(); rw.visit_item_enum_mut(e); for v in e.variants.iter_mut() { for f in v.fields.iter_mut() { f.vis = Visibility::Inherited; } } }
                Item::Type(e) => { e.attrs.clear(); rw.visit_item_type_mut(e) }
                _ => {}
            }
            out.dropped.extend(rw.dropped);
            out.text.push_str(&blk.attr);
            out.text.push_str(&show(t.to_token_stream()));
            out.text.push('\n');
        }
        "static" => {
            // a static is the function that yields its value
            let Some(Item::Static(t)) = pick(&idx.consts, &blk.key, "static", blk.optional) else { return };
            let (ty, init, name) = (&t.ty, &t.expr, quote::format_ident!("vx_static_{}", t.ident));
            let f: ItemFn = parse_quote!(pub fn #name() -> #ty { #init });
            let spec = blk.fns.get("self").cloned().unwrap_or_default();
            emit_fn(out, cfg, &blk.key, &FnIn { sig: f.sig.clone(), block: Some((*f.block).clone()) }, &spec, &[], false);
            flush(out);
        }
        "const" => {
            let Some(t) = pick(&idx.consts, &blk.key, "const", blk.optional) else { return };
            let mut t = t.clone();
            let mut rw = Rw::new(cfg);
            match &mut t { Item::Const(s) => { s.attrs.clear(); rw.visit_item_const_mut(s) } Item::Static(s) => { s.attrs.clear(); rw.visit_item_static_mut(s) } _ => {} }
            out.text.push_str(&blk.attr);
            out.text.push_str(&show(t.to_token_stream()));
            out.text.push('\n');
        }
        "trait" => {
            let Some(t) = pick(&idx.traits, &blk.key, "trait", blk.optional) else { return };
            let mut hdr = t.clone();
            hdr.items.clear(); hdr.attrs.clear(); hdr.unsafety = None;
            let mut rw = Rw::new(cfg);
            rw.visit_generics_mut(&mut hdr.generics);
            let mut sup: punctuated::Punctuated<TypeParamBound, Token![+]> = Default::default();
            for b in hdr.supertraits.iter() {
                if let TypeParamBound::Trait(tb) = b { let l = tb.path.segments.last().unwrap().ident.to_string(); if cfg.dropbounds.contains(&l) { continue } }
                let mut b = b.clone(); rw.visit_type_param_bound_mut(&mut b); sup.push(b);
            }
            hdr.supertraits = sup;
            if hdr.supertraits.is_empty() { hdr.colon_token = None }
            let names = generic_names(&t.generics);
            let binds = Binds { g: names.clone(), fg: vec![], muts: vec![], lets: vec![], args: vec![], fields: vec![] };
            let mut h = match &blk.header { Some(h) => h.clone(), None => { let s = show(hdr.to_token_stream()); s[..s.rfind('{').unwrap()].to_string() } };
            if !h.trim_start().starts_with("pub") { h = format!("pub {h}") }
            out.text.push_str(&blk.attr);
            out.text.push_str(&format!("{h} {{\n{}\n", subst(&blk.members, &binds)));
            for it in &t.items {
                match it {
                    TraitItem::Fn(f) => {
                        let n = f.sig.ident.to_string();
                        if blk.skip.contains(&n) || blk.only.as_ref().map_or(false, |o| !o.contains(&n)) { out.omitted.push(format!("trait {}::{}", blk.key, n)); continue }
                        let mut spec = blk.fns.get(&n).cloned().unwrap_or_default();
                        if f.default.is_none() { spec.mode = "decl".into() }
                        emit_fn(out, cfg, &format!("{}::{}", blk.key, n), &FnIn { sig: f.sig.clone(), block: f.default.clone() }, &spec, &names, true);
                    }
                    TraitItem::Type(t) => { if blk.skip.contains(&t.ident.to_string()) { continue } let mut t = t.clone(); t.attrs.clear(); rw.visit_trait_item_type_mut(&mut t); out.text.push_str(&show(t.to_token_stream())); out.text.push('\n') }
                    TraitItem::Const(t) => { if blk.skip.contains(&t.ident.to_string()) { continue } let mut t = t.clone(); t.attrs.clear(); out.text.push_str(&show(t.to_token_stream())); out.text.push('\n') }
                    _ => {}
                }
            }
            for (n, fs) in &blk.fns { if !fs.optional && !t.items.iter().any(|i| matches!(i, TraitItem::Fn(f) if f.sig.ident == n)) { out.lost.push(format!("{}::{}: not found in the source", blk.key, n)) } }
            out.text.push_str("}\n");
        }
        "impl" => {
            if let Some(k) = blk.key.strip_suffix("#*") {
                let Some(v) = idx.impls.get(k) else { if blk.optional { return } { out.lost.push(format!("{k}: impl not found in the source")); return } };
                for im in v { let mut b = blk.clone(); b.key = k.into(); emit_impl(out, cfg, idx, im, &b); }
                return;
            }
            if !idx.impls.contains_key(blk.key.rsplit_once('#').map_or(&blk.key[..], |x| x.0)) { if !blk.optional { out.lost.push(format!("{}: impl not found in the source", blk.key)) } return }
            let Some(im) = pick(&idx.impls, &blk.key, "impl", blk.optional) else { return };
            // inherent impls may be split in several blocks: merge them
            emit_impl(out, cfg, idx, im, blk);
        }
        _ => {}
    }
}

fn emit_impl(out: &mut Out, cfg: &Cfg, _idx: &Index, im: &ItemImpl, blk: &Blk) {
    let mut cfg = cfg.clone();
    if let Type::Path(p) = &*im.self_ty { cfg.cur_self = p.path.segments.last().unwrap().ident.to_string(); }
    let cfg = &cfg;
    let names = generic_names(&im.generics);
    let mut hdr = im.clone();
    hdr.items.clear(); hdr.attrs.clear(); hdr.unsafety = None;
    let mut rw = Rw::new(cfg);
    rw.visit_item_impl_mut(&mut hdr);
    let binds = Binds { g: names.clone(), fg: vec![], muts: vec![], lets: vec![], args: vec![], fields: vec![] };
    let h = match &blk.header { Some(h) => subst(h, &binds), None => { let s = show(hdr.to_token_stream()); s[..s.rfind('{').unwrap()].to_string() } };
    out.text.push_str(&blk.attr);
    out.text.push_str(&format!("{h} {{\n{}\n", subst(&blk.members, &binds)));
    let is_trait = im.trait_.is_some();
    let mut seen = BTreeSet::new();
    for it in &im.items {
        match it {
            ImplItem::Fn(f) => {
                let n = f.sig.ident.to_string();
                seen.insert(n.clone());
                if blk.skip.contains(&n) || blk.only.as_ref().map_or(false, |o| !o.contains(&n)) { out.omitted.push(format!("{}::{}", blk.key, n)); continue }
                let mut spec = blk.fns.get(&n).cloned().unwrap_or_default();
                if spec.mode.is_empty() { spec.mode = blk.mode.clone() }
                if is_trait { spec.given = true }
                emit_fn(out, cfg, &format!("{}::{}", blk.key, n), &FnIn { sig: f.sig.clone(), block: Some(f.block.clone()) }, &spec, &names, is_trait);
            }
            ImplItem::Type(t) => { if blk.skip.contains(&t.ident.to_string()) { continue } let mut t = t.clone(); t.attrs.clear(); t.vis = Visibility::Inherited; rw.visit_impl_item_type_mut(&mut t); if is_trait { t.vis = Visibility::Inherited; } out.text.push_str(&show(t.to_token_stream())); out.text.push('\n') }
            ImplItem::Const(t) => { if blk.skip.contains(&t.ident.to_string()) { continue } let mut t = t.clone(); t.attrs.clear(); rw.visit_impl_item_const_mut(&mut t); if is_trait { t.vis = Visibility::Inherited; } out.text.push_str(&show(t.to_token_stream())); out.text.push('\n') }
            _ => {}
        }
    }
    for (n, fs) in &blk.fns { if !fs.optional && !seen.contains(n) { out.lost.push(format!("{}::{}: not found in the source", blk.key, n)) } }
    out.text.push_str("}\n");
    flush(out);
    out.dropped.extend(rw.dropped);
    out.claimed.insert(blk.key.clone());
}

/// `unsafe impl PlainOldData for X` of the source, as the fact that X is one
fn podaxioms(out: &mut Out, cfg: &Cfg, idx: &Index, known: &[&str]) {
    let mut group = vec![];
    for (k, v) in &idx.impls {
        // (references to the image: the unit of those decides)
        if ["RelocatablePtr", "StaticRef", "StaticFn"].iter().any(|x| k.strip_prefix("PlainOldData@").map_or(false, |r| r.split('<').next() == Some(x))) { continue }
        if !k.starts_with("PlainOldData@") || k.starts_with("PlainOldData@T_crossmist") || k.starts_with("PlainOldData@Fx") { continue }
        for im in v {
            if im.generics.where_clause.is_some() { continue }
            let mut hdr = im.clone();
            let mut rw = Rw::new(cfg);
            hdr.items.clear();
            let mut req = vec![];
            for p in hdr.generics.params.iter_mut() {
                if let GenericParam::Type(t) = p {
                    if t.bounds.iter().any(|b| matches!(b, TypeParamBound::Trait(tb) if tb.path.segments.last().unwrap().ident == "PlainOldData")) { req.push(format!("is_pod::<{}>()", t.ident)); }
                    t.bounds = Default::default(); t.colon_token = None;
                }
            }
            rw.visit_item_impl_mut(&mut hdr);
            let g = show(hdr.generics.to_token_stream());
            let ty = show(hdr.self_ty.to_token_stream());
            let n = format!("is_pod_{}", group.len());
            let req = if req.is_empty() { "true".to_string() } else { req.join(" && ") };
            out.text.push_str(&format!("pub broadcast axiom fn {n}{g}() ensures #[trigger] is_pod::<{ty}>() == ({req});\n"));
            group.push(n);
        }
    }
    for (k, v) in &idx.impls {
        let Some(t) = k.strip_prefix("NonTrivialObject@") else { continue };
        if idx.impls.contains_key(&format!("PlainOldData@{t}")) || (idx.types.contains_key(t.split('<').next().unwrap()) && !known.contains(&t)) { continue }
        let mut done = BTreeSet::new();
        for im in v {
            let mut hdr = im.clone();
            let mut rw = Rw::new(cfg);
            hdr.items.clear();
            for p in hdr.generics.params.iter_mut() {
                if let GenericParam::Type(t) = p { t.bounds = Default::default(); t.colon_token = None; }
            }
            rw.visit_item_impl_mut(&mut hdr);
            let g = show(hdr.generics.to_token_stream());
            let ty = show(hdr.self_ty.to_token_stream());
            if ty.contains("dyn ") || ty.contains("fn") || !done.insert(ty.clone()) { continue }
            let n = format!("is_pod_{}", group.len());
            out.text.push_str(&format!("pub broadcast axiom fn {n}{g}() ensures !(#[trigger] is_pod::<{ty}>());\n"));
            group.push(n);
        }
    }
    out.text.push_str(&format!("pub broadcast group group_is_pod {{ {} }}\n", group.join(", ")));
}

/// every `NonTrivialObject` impl whose functions only panic: the plain types
fn basepods(out: &mut Out, cfg: &Cfg, idx: &Index) {
    for (k, v) in &idx.impls {
        if !k.starts_with("NonTrivialObject@") { continue }
        for im in v {
            let only_panics = im.items.iter().all(|i| match i {
                ImplItem::Fn(f) => { let mut b = f.block.clone(); let mut rw = Rw::new(cfg); rw.visit_block_mut(&mut b); b.to_token_stream().to_string().replace(' ', "").replace(';', "") == "{vx_panic()}" }
                _ => true });
            if !only_panics || im.items.is_empty() { continue }
            let blk = Blk { kind: "impl".into(), key: k.clone(), members: "open spec fn nt_ty() -> Ty { Ty::Nil }\nopen spec fn nt_repr(&self) -> Val { Val::Nil }\n".into(), mode: cfg.mode.clone(),
                fns: ["serialize_self_non_trivial", "deserialize_self_non_trivial"].iter().map(|n| (n.to_string(), FnSpec { given: true, mode: cfg.mode.clone(), pre: "broadcast use group_is_pod;".into(), ..Default::default() })).collect(), ..Default::default() };
            emit_impl(out, cfg, idx, im, &blk);
        }
    }
}

/// the tuple impls: the type is the product of the element types, in order
fn tuples(out: &mut Out, cfg: &Cfg, idx: &Index) {
    let mut group = vec![];
    for (_, v) in &idx.impls {
        for im in v {
            let Some((_, p, _)) = &im.trait_ else { continue };
            if p.segments.last().unwrap().ident != "NonTrivialObject" { continue }
            let Type::Tuple(tt) = &*im.self_ty else { continue };
            let el: Vec<String> = tt.elems.iter().map(|t| t.to_token_stream().to_string()).collect();
            let n = el.len();
            let mut ty = "Ty::Nil".to_string(); let mut v = "Val::Nil".to_string();
            for i in (0..n).rev() { ty = format!("pair({}::ty(), {ty})", el[i]); v = format!("vpair(self.{i}.repr(), {v})"); }
            let pre_s = "broadcast use group_ser;".to_string();
            let pre_d = "broadcast use group_de;".to_string();
            let mk = |p: &str| FnSpec { given: true, mode: cfg.mode.clone(), pre: p.into(), ..Default::default() };
            let mut fns = BTreeMap::new();
            fns.insert("serialize_self_non_trivial".to_string(), mk(&pre_s));
            fns.insert("deserialize_self_non_trivial".to_string(), mk(&pre_d));
            let blk = Blk { kind: "impl".into(), key: crate::index::impl_key(im), members: format!("open spec fn nt_ty() -> Ty {{ {ty} }}\nopen spec fn nt_repr(&self) -> Val {{ {v} }}\n"), mode: cfg.mode.clone(), fns, ..Default::default() };
            emit_impl(out, cfg, idx, im, &blk);
            let g = el.join(", ");
            let req = if n == 0 { String::new() } else { format!("requires {} ", el.iter().map(|t| format!("bitwise::<{t}>()")).collect::<Vec<_>>().join(", ")) };
            let tt = if n == 1 { format!("({g},)") } else { format!("({g})") };
            out.text.push_str(&format!("pub broadcast axiom fn bw_tuple{n}<{g}>() {req}ensures #[trigger] bitwise::<{tt}>();\n"));
            group.push(format!("bw_tuple{n}"));
        }
    }
    out.text.push_str(&format!("pub broadcast group group_bw_tuples {{ {} }}\n", group.join(", ")));
}

/// every `unsafe impl PlainOldData for X` of the source: the impl with its proof obligation
/// `//@notpod NAME: TYPE<..>...`: broadcast facts that the type is not plain data, by the absence of an
/// impl of PlainOldData that could hold.  One that could is an obligation that cannot be discharged.
fn notpod(out: &mut Out, idx: &Index, rest: &str) {
    let (name, types) = rest.split_once(':').unwrap();
    let heads: Vec<String> = types.split_whitespace().map(|t| t.split('<').next().unwrap().to_string()).collect();
    let mut ens = vec![];
    for (ty, head) in types.split_whitespace().zip(&heads) {
        ens.push(format!("!#[trigger] is_pod::<{ty}>()"));
        for (k, v) in &idx.impls {
            let Some(st) = k.strip_prefix("PlainOldData@") else { continue };
            if st.split('<').next().unwrap() != head { continue }
            for im in v {
                let w = im.generics.where_clause.as_ref().map_or(String::new(), |w| w.to_token_stream().to_string());
                if heads.iter().any(|h| h != head && w.contains(h.as_str())) { continue }
                let start = out.line();
                out.text.push_str(&format!("proof fn vx_plain_{head}() ensures false\n{{ /* the source says: {} is plain data */ }}\n", st));
                let end = out.line();
                out.fns.push(FnRec { key: format!("{k}::plain"), mode: "verify".into(), start, end, contracted: true, calls: vec![], ..Default::default() });
            }
        }
    }
    for (i, (e, ty)) in ens.iter().zip(types.split_whitespace()).enumerate() {
        let g = if ty.contains("<T>") { "<T>" } else { "<F: FnPtr>" };
        out.text.push_str(&format!("pub broadcast axiom fn {}_{i}{g}() ensures {e};\n", name.trim()));
    }
}

/// `//@words T`: the memory image of a repr(C) struct of pointers is its fields in the order they are declared
fn words(out: &mut Out, idx: &Index, name: &str) {
    let Some(Item::Struct(s)) = pick(&idx.types, name, "type", false) else { return };
    if !s.attrs.iter().any(|a| a.to_token_stream().to_string().replace(' ', "").contains("repr(C")) { return }
    let f: Vec<String> = s.fields.iter().map(|f| format!("self.{}.addr()", f.ident.as_ref().unwrap())).collect();
    out.text.push_str(&format!("impl VxWords for {name} {{\n    open spec fn words(&self) -> Seq<int> {{ seq![{}] }}\n    open spec fn width() -> nat {{ {} }}\n}}\n", f.join(", "), f.len()));
}

fn podimpls(out: &mut Out, cfg: &Cfg, idx: &Index, _rest: &str) {
    for (k, v) in &idx.impls {
        if !k.starts_with("PlainOldData@") || k.starts_with("PlainOldData@T_crossmist") || k.starts_with("PlainOldData@Fx") { continue }
        for im in v {
            let mut hdr = im.clone();
            hdr.items.clear(); hdr.attrs.clear(); hdr.unsafety = None;
            // which generic parameters carry the PlainOldData bound
            let mut calls = String::new();
            let mut bound: Vec<String> = vec![];
            for p in &im.generics.params {
                if let GenericParam::Type(t) = p {
                    if t.bounds.iter().any(|b| matches!(b, TypeParamBound::Trait(tb) if tb.path.segments.last().unwrap().ident == "PlainOldData")) { bound.push(t.ident.to_string()); }
                }
            }
            for b in &bound { calls.push_str(&format!("<{b} as PlainOldData>::pod_ax(); ")); }
            let mut rw = Rw::new(cfg);
            rw.visit_item_impl_mut(&mut hdr);
            if hdr.generics.where_clause.is_some() { continue }
            let s = show(hdr.to_token_stream());
            let h = s[..s.rfind('{').unwrap()].to_string();
            let start = out.line();
            out.text.push_str(&format!("{h} {{\nproof fn pod_flat() {{ broadcast use group_bitwise, group_flat; {calls} }}\n#[verifier::external_body] proof fn pod_ax() {{ }}\n}}\n"));
            let end = out.line();
            out.fns.push(FnRec { key: format!("{k}::pod_flat"), mode: "verify".into(), start, end, contracted: true, calls: vec![], ..Default::default() });
        }
    }
    let _ = quote!();
}

/// the call impls of bound functions and function pointers, and the binders: what a call is is read
/// off the impl header alone (which wrapper, which argument tuple), never off the body
fn bound(out: &mut Out, cfg: &Cfg, idx: &Index) {
    for (key, v) in &idx.impls {
        for im in v {
            let Some((_, p, _)) = &im.trait_ else { continue };
            let seg = p.segments.last().unwrap();
            let tr = seg.ident.to_string();
            let targs: Vec<Type> = match &seg.arguments { PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|g| if let GenericArgument::Type(t) = g { Some(t.clone()) } else { None }).collect(), _ => vec![] };
            let st = match &*im.self_ty { Type::Path(p) => p.path.segments.last().unwrap().clone(), _ => continue };
            let self_name = st.ident.to_string();
            let sargs: Vec<String> = match &st.arguments { PathArguments::AngleBracketed(a) => a.args.iter().map(|g| g.to_token_stream().to_string()).collect(), _ => vec![] };
            let assoc = im.items.iter().find_map(|i| if let ImplItem::Type(t) = i { Some(t.ty.to_token_stream().to_string()) } else { None });
            let mk = || FnSpec { given: true, mode: cfg.mode.clone(), ..Default::default() };
            let mut fns: BTreeMap<String, FnSpec> = BTreeMap::new();
            let mut members = String::new();
            if matches!(tr.as_str(), "BindValue" | "BindMut" | "BindRef") {
                fns.insert(match tr.as_str() { "BindValue" => "bind_value", "BindMut" => "bind_mut", _ => "bind_ref" }.into(), mk());
            } else if matches!(tr.as_str(), "FnOnceObject" | "FnMutObject" | "FnObject") {
                let Some(Type::Tuple(tt)) = targs.first() else { continue };
                let n = tt.elems.len();
                let at = if n == 0 { "()".to_string() } else { format!("({},)", tt.elems.iter().map(|t| t.to_token_stream().to_string()).collect::<Vec<_>>().join(", ")) };
                let tail: String = (0..n).map(|i| format!(", args.{i}")).collect();
                let meth = match tr.as_str() { "FnOnceObject" => "call_object_once", "FnMutObject" => "call_object_mut", _ => "call_object" };
                // the type of the result: the impl's own, or that of the once impl of the same family
                let hrtb = matches!(self_name.as_str(), "BoundMut" | "BoundRef");
                let outty = match (&assoc, self_name.as_str()) { (Some(t), _) => t.clone(), (None, "BoundValue") => format!("{}::Output", sargs[0]), _ => "Output".to_string() };
                let mut f = mk();
                if hrtb { f.ret = outty.clone(); }
                let mut bx = mk();
                if hrtb { bx.ret = outty.clone(); }
                let ctuple = |h: &str| if n == 0 { format!("({h},)") } else { format!("({h}{tail})") };
                match self_name.as_str() {
                    "BoundValue" | "BoundMut" | "BoundRef" => {
                        let (fun, head) = (&sargs[0], &sargs[1]);
                        let h = |who: &str| match self_name.as_str() { "BoundValue" => format!("{who}.head"), "BoundRef" => format!("&{who}.head"), _ => "m".to_string() };
                        let ex = |pre: &str, body: String| if self_name == "BoundMut" { format!("exists|m: &mut {head}| *m == {pre}.head && {body}") } else { body };
                        let exg = |pre: &str, extra: &str, body: String| if self_name == "BoundMut" { format!("exists|m: &mut {head}, g: {fun}| *m == {pre}.head && {extra} && g == post.func && {body}") } else { format!("post.head == pre.head && {body}") };
                        let all = |pre: &str, body: String| if self_name == "BoundMut" { format!("forall|m: &mut {head}| *m == {pre}.head ==> {body}") } else { body };
                        match tr.as_str() {
                            "FnOnceObject" => {
                                members.push_str(&format!("open spec fn once_ok(self, args: {at}) -> bool {{ {} }}\n", all("self", format!("#[trigger] self.func.once_ok({})", ctuple(&h("self"))))).replace(if hrtb && self_name == "BoundMut" { "\u{0}" } else { "#[trigger] " }, ""));
                                members.push_str(&format!("open spec fn once(self, args: {at}, out: {outty}) -> bool {{ {} }}\n", ex("self", format!("self.func.once({}, out)", ctuple(&h("self"))))));
                            }
                            "FnMutObject" => {
                                members.push_str(&format!("open spec fn many_ok(self, args: {at}) -> bool {{ {} }}\n", all("self", format!("#[trigger] self.func.many_ok({})", ctuple(&h("self"))))).replace(if hrtb && self_name == "BoundMut" { "\u{0}" } else { "#[trigger] " }, ""));
                                let body = if self_name == "BoundMut" { format!("{fun}::many(pre.func, {}, g, out)", ctuple("m")) } else { format!("{fun}::many(pre.func, {}, post.func, out)", ctuple(&h("pre"))) };
                                members.push_str(&format!("#[verifier::prophetic] open spec fn many(pre: Self, args: {at}, post: Self, out: {outty}) -> bool {{ {} }}\n", exg("pre", "*final(m) == post.head", body)));
                            }
                            _ => {
                                members.push_str(&format!("open spec fn shared_ok(self, args: {at}) -> bool {{ self.func.shared_ok({}) }}\n", ctuple(&h("self"))));
                                members.push_str(&format!("open spec fn shared(self, args: {at}, out: {outty}) -> bool {{ self.func.shared({}, out) }}\n", ctuple(&h("self"))));
                            }
                        }
                    }
                    "StaticFn" => {
                        let at2 = if n == 0 { "()".to_string() } else { format!("({})", (0..n).map(|i| format!("args.{i},")).collect::<String>()) };
                        f.ret = outty.clone(); bx.ret = outty.clone();
                        match tr.as_str() {
                            "FnOnceObject" => members.push_str(&format!("open spec fn once_ok(self, args: {at}) -> bool {{ call_requires(self.fun(), {at2}) }}\nopen spec fn once(self, args: {at}, out: {outty}) -> bool {{ call_ensures(self.fun(), {at2}, out) }}\n")),
                            "FnMutObject" => members.push_str(&format!("open spec fn many_ok(self, args: {at}) -> bool {{ call_requires(self.fun(), {at2}) }}\n#[verifier::prophetic] open spec fn many(pre: Self, args: {at}, post: Self, out: {outty}) -> bool {{ post == pre && call_ensures(pre.fun(), {at2}, out) }}\n")),
                            _ => members.push_str(&format!("open spec fn shared_ok(self, args: {at}) -> bool {{ call_requires(self.fun(), {at2}) }}\nopen spec fn shared(self, args: {at}, out: {outty}) -> bool {{ call_ensures(self.fun(), {at2}, out) }}\n")),
                        }
                    }
                    _ => continue,
                }
                fns.insert(meth.into(), f);
                if tr == "FnOnceObject" { fns.insert("call_object_box".into(), bx); }
            } else { continue }
            let blk = Blk { kind: "impl".into(), key: key.clone(), members, mode: cfg.mode.clone(), fns, ..Default::default() };
            emit_impl(out, cfg, idx, im, &blk);
        }
    }
}

/// derived types (`//@derived PREFIX-or-NAME...`; a name ending in `*` is a prefix): what the type is
/// on the wire is read off its definition, field after field in order and variants numbered from zero;
/// the derived impls have to compute exactly that, and their PlainOldData impl has to prove that all
/// fields may be transferred as memory images
fn derived(out: &mut Out, cfg: &Cfg, idx: &Index, want: &[String]) {
    let mut group = vec![];
    for (key, v) in &idx.impls {
        let Some(t) = key.strip_prefix("NonTrivialObject@") else { continue };
        let base = t.split('<').next().unwrap().to_string();
        if !want.iter().any(|w| w.strip_suffix('*').map_or(*w == base, |p| base.starts_with(p))) { continue }
        let Some(item) = idx.types.get(&base).and_then(|v| v.first()) else { out.lost.push(format!("{key}: type not found in the source")); continue };
        let im = &v[0];
        let mk = |p: &str| FnSpec { given: true, mode: cfg.mode.clone(), pre: p.into(), ..Default::default() };
        let mut fields_all: Vec<String> = vec![];
        let mut tyof = |f: &Field| { let mut t = f.ty.clone(); let mut rw = Rw::new(cfg); rw.visit_type_mut(&mut t); let s = show(t.to_token_stream()); fields_all.push(s.clone()); s };
        let prod = |ts: &[String]| ts.iter().rev().fold("Ty::Nil".to_string(), |acc, t| format!("pair(<{t}>::ty(), {acc})"));
        let vprod = |vs: &[String]| vs.iter().rev().fold("Val::Nil".to_string(), |acc, v| format!("vpair({v}.repr(), {acc})"));
        let (ty, repr, generics) = match item {
            Item::Struct(s) => {
                let ts: Vec<String> = s.fields.iter().map(&mut tyof).collect();
                let vs: Vec<String> = s.fields.iter().enumerate().map(|(i, f)| match &f.ident { Some(n) => format!("self.{n}"), None => format!("self.{i}") }).collect();
                (prod(&ts), vprod(&vs), s.generics.clone())
            }
            Item::Enum(e) => {
                let mut alts = vec![]; let mut arms = String::new();
                let unit = e.variants.iter().all(|v| v.fields.is_empty());
                for (k, v) in e.variants.iter().enumerate() {
                    let ts: Vec<String> = v.fields.iter().map(&mut tyof).collect();
                    let vs: Vec<String> = (0..ts.len()).map(|i| format!("vx_{i}")).collect();
                    let pat = match &v.fields {
                        Fields::Unit => String::new(),
                        Fields::Unnamed(_) => format!("({})", vs.join(", ")),
                        Fields::Named(n) => format!("{{ {} }}", n.named.iter().zip(&vs).map(|(f, v)| format!("{}: {v}", f.ident.as_ref().unwrap())).collect::<Vec<_>>().join(", ")),
                    };
                    arms.push_str(&format!("{base}::{}{pat} => Val::Alt({k}, Box::new({})),\n", v.ident, vprod(&vs)));
                    alts.push(prod(&ts));
                }
                let ty = if unit { format!("Ty::Sum(false, Seq::new({}, |i: int| Ty::Nil))", alts.len()) } else { format!("Ty::Sum(false, seq![{}])", alts.join(", ")) };
                (ty, if e.variants.is_empty() { "Val::Nil".into() } else { format!("match *self {{\n{arms}}}") }, e.generics.clone())
            }
            _ => continue,
        };
        let blk = Blk { kind: "type".into(), key: base.clone(), attr: generics.type_params().map(|p| format!("#[verifier::reject_recursive_types({})]\n", p.ident)).collect(), ..Default::default() };
        block(out, cfg, idx, &blk);
        let prims = if matches!(item, Item::Enum(_)) { ", group_imgs, group_is_pod" } else { "" };
        let lp = if matches!(item, Item::Enum(_)) { "\nproof { lemma_prims(); }" } else { "" };
        let mut fns = BTreeMap::new();
        fns.insert("serialize_self_non_trivial".to_string(), mk(&format!("broadcast use group_ser{prims};{lp}")));
        fns.insert("deserialize_self_non_trivial".to_string(), mk(&format!("broadcast use group_de{prims};{lp}")));
        let b = Blk { kind: "impl".into(), key: key.clone(), members: format!("open spec fn nt_ty() -> Ty {{ {ty} }}\nopen spec fn nt_repr(&self) -> Val {{ {repr} }}\n"), mode: cfg.mode.clone(), fns, ..Default::default() };
        emit_impl(out, cfg, idx, im, &b);
        // the memory image of the type is that of its fields
        let mut g = generics.clone();
        for p in g.type_params_mut() { p.attrs.clear(); }
        g.where_clause = None;
        let mut rw = Rw::new(cfg);
        rw.visit_generics_mut(&mut g);
        let (ig, tg, _) = generics.split_for_impl();
        let _ = ig;
        let names = tg.to_token_stream().to_string();
        let wc = { let mut w = generics.clone(); rw.visit_generics_mut(&mut w); w.where_clause.map(|w| show(w.to_token_stream())).unwrap_or_default() };
        let n = group.len();
        let mut uniq = fields_all.clone(); uniq.sort(); uniq.dedup();
        let req = if uniq.is_empty() { String::new() } else { format!("requires {} ", uniq.iter().map(|t| format!("bitwise::<{t}>()")).collect::<Vec<_>>().join(", ")) };
        out.text.push_str(&format!("pub broadcast axiom fn bw_derived{n}{}() {wc} {req}ensures #[trigger] bitwise::<{base}{names}>();\n", show(g.to_token_stream())));
        group.push(format!("bw_derived{n}"));
        // the PlainOldData impl as it is in the source
        let pk = format!("PlainOldData@{t}");
        let Some(pi) = idx.impls.get(&pk).and_then(|v| v.first()) else { out.omitted.push(format!("{pk}: never a memory image")); continue };
        let mut hdr = pi.clone();
        hdr.items.clear(); hdr.attrs.clear(); hdr.unsafety = None;
        let mut calls = String::new();
        let mut never = false;
        let tp: Vec<String> = pi.generics.type_params().map(|p| p.ident.to_string()).collect();
        let mut keep: punctuated::Punctuated<WherePredicate, Token![,]> = Default::default();
        if let Some(w) = &pi.generics.where_clause {
            for p in &w.predicates {
                let WherePredicate::Type(pt) = p else { keep.push(p.clone()); continue };
                let pod = pt.bounds.iter().any(|b| matches!(b, TypeParamBound::Trait(tb) if tb.path.segments.last().unwrap().ident == "PlainOldData"));
                if !pod { keep.push(p.clone()); continue }
                let mut x = pt.bounded_ty.clone();
                if let Type::Path(q) = &x { if let Some(s) = q.path.segments.last() { if s.ident == "Identity" { if let PathArguments::AngleBracketed(a) = &s.arguments { for g in &a.args { if let GenericArgument::Type(t) = g { x = t.clone(); break } } } } } }
                let mut y = x.clone(); rw.visit_type_mut(&mut y);
                let s = show(y.to_token_stream());
                let generic = { let mut found = false; fn rec(ts: TokenStream, tp: &[String], f: &mut bool) { for t in ts { match t { TokenTree::Ident(i) if tp.contains(&i.to_string()) => *f = true, TokenTree::Group(g) => rec(g.stream(), tp, f), _ => {} } } } rec(x.to_token_stream(), &tp, &mut found); found };
                if generic { keep.push(parse_quote!(#x: PlainOldData)); }
                // a bound nothing satisfies: the impl never applies
                let flat: String = s.split_whitespace().collect();
                if !generic && want.contains(&format!("!{flat}")) {
                    let src: String = show(x.to_token_stream()).split_whitespace().collect();
                    for k in [&flat, &src] { if idx.impls.contains_key(&format!("PlainOldData@{k}")) { out.lost.push(format!("PlainOldData@{k}: expected not to exist")); } }
                    never = true;
                }
                calls.push_str(&format!("<{s} as PlainOldData>::pod_ax(); "));
            }
        }
        if never { out.omitted.push(format!("{pk}: never applies")); continue }
        hdr.generics.where_clause = if keep.is_empty() { None } else { Some(WhereClause { where_token: Default::default(), predicates: keep }) };
        rw.visit_item_impl_mut(&mut hdr);
        let s = show(hdr.to_token_stream());
        let h = s[..s.rfind('{').unwrap()].to_string();
        let start = out.line();
        out.text.push_str(&format!("{h} {{\nproof fn pod_flat() {{ broadcast use group_bitwise, group_flat, bw_derived{n}; {calls} }}\n#[verifier::external_body] proof fn pod_ax() {{ }}\n}}\n"));
        let end = out.line();
        out.fns.push(FnRec { key: format!("{pk}::pod_flat"), mode: "verify".into(), start, end, contracted: true, calls: vec![], ..Default::default() });
    }
    if group.is_empty() { out.lost.push("no derived types found".into()); }
}

/// functions made by #[func] (types with an inherent `invoke`): what the function itself does is a
/// relation between its arguments in order of declaration and its result; everything generated around it
/// has to keep to that relation
fn funcs(out: &mut Out, cfg: &Cfg, idx: &Index) {
    let mut cfg = cfg.clone();
    cfg.dyns = true;
    let cfg = &cfg;
    let mk = |c: &str| FnSpec { given: true, mode: cfg.mode.clone(), contract: c.into(), ..Default::default() };
    let mut found = 0;
    for (key, v) in &idx.impls {
        let Some(inv) = v.iter().flat_map(|im| &im.items).find_map(|i| match i { ImplItem::Fn(f) if f.sig.ident == "invoke" => Some(f), _ => None }) else { continue };
        let ty = key.clone();
        if !idx.types.contains_key(&ty) { continue }
        let Some(name) = ty.split("_crossmist_").nth(1) else { continue };
        let entry = format!("E_crossmist_{name}");
        found += 1;
        let tys: Vec<String> = inv.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(p) = a { Some(p.ty.to_token_stream().to_string()) } else { None }).collect();
        let names: Vec<String> = inv.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(p) = a { if let Pat::Ident(i) = &*p.pat { Some(i.ident.to_string()) } else { None } } else { None }).collect();
        let n = tys.len();
        if names.len() != n { out.lost.push(format!("{key}: arguments without names")); continue }
        let tup = |xs: &[String]| if xs.is_empty() { "()".to_string() } else { format!("({},)", xs.join(", ")) };
        let at = tup(&tys);
        let ret = match &inv.sig.output { ReturnType::Default => "()".to_string(), ReturnType::Type(_, t) => show(t.to_token_stream()) };
        let ran = format!("ran_{name}");
        out.text.push_str(&format!("/// the function {name} returns `out` for `args`\npub uninterp spec fn {ran}(args: {at}, out: {ret}) -> bool;\n"));
        // what its body calls
        let dof = format!("do_{name}");
        if let Some(f) = idx.fns.get(&dof).and_then(|v| v.first()) {
            let ns: Vec<String> = f.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(p) = a { Some(p.pat.to_token_stream().to_string()) } else { None }).collect();
            let spec = FnSpec { given: true, mode: "assumed".into(), contract: format!("ensures {ran}({}, res),", tup(&ns)), ret: ret.clone(), ..Default::default() };
            emit_fn(out, cfg, &dof, &FnIn { sig: f.sig.clone(), block: Some((*f.block).clone()) }, &spec, &[], false);
        }
        for t in [&ty, &entry] { block(out, cfg, idx, &Blk { kind: "type".into(), key: t.clone(), ..Default::default() }); }
        block(out, cfg, idx, &Blk { kind: "const".into(), key: name.into(), ..Default::default() });
        // the three ways to call it
        let tkey: String = idx.impls.keys().filter(|k| k.ends_with(&format!("@{ty}"))).cloned().collect::<Vec<_>>().join("\n");
        for (tr, ok, rel, m) in [("InternalFnOnce", "i_once_ok(self, args: $A)", "i_once(self, args: $A, out: $R)", "call_object_once"), ("InternalFnMut", "i_many_ok(self, args: $A)", "i_many(pre: Self, args: $A, post: Self, out: $R)", "call_object_mut"), ("InternalFn", "i_shared_ok(self, args: $A)", "i_shared(self, args: $A, out: $R)", "call_object")] {
            let f = |s: &str| s.replace("$A", &at).replace("$R", &ret);
            let Some(k) = tkey.lines().find(|k| k.starts_with(&format!("{tr}<"))) else { out.lost.push(format!("{tr}@{ty}: not found in the source")); continue };
            let proph = if tr == "InternalFnMut" { "#[verifier::prophetic] " } else { "" };
            let members = format!("open spec fn {} -> bool {{ true }}\n{proph}open spec fn {} -> bool {{ {ran}(args, out) }}\n", f(ok), f(rel));
            let blk = Blk { kind: "impl".into(), key: k.into(), members, mode: cfg.mode.clone(), fns: [(m.to_string(), mk(""))].into(), ..Default::default() };
            emit_impl(out, cfg, idx, &idx.impls[k][0], &blk); flush(out);
        }
        // spawning: the entry that is started runs the function on the arguments
        let mut fns = BTreeMap::new();
        let mut iv = mk(&format!("ensures {ran}({}, res),", tup(&names)));
        iv.ret = ret.clone();
        fns.insert("invoke".to_string(), iv);
        let e = format!("(exists|e: CallWrapper<{entry}>| #[trigger] started(*old(vx_w), *final(vx_w), e) && e.0.func.inner().runs(()) && forall|out: {ret}| #[trigger] e.0.func.inner().gives((), out) ==> {ran}({}, out))", tup(&names));
        let mut sp = mk(&format!("ensures res is Ok ==> {e},"));
        sp.optional = true;
        fns.insert("spawn".to_string(), sp);
        let skip: Vec<String> = v.iter().flat_map(|im| &im.items).filter_map(|i| match i { ImplItem::Fn(f) if f.sig.ident != "invoke" && f.sig.ident != "spawn" => Some(f.sig.ident.to_string()), _ => None }).collect();
        emit_impl(out, cfg, idx, &v[0], &Blk { kind: "impl".into(), key: ty.clone(), fns, skip, mode: cfg.mode.clone(), ..Default::default() }); flush(out);
        // the entry: made of what it is given, and in the child it calls that once and sends the result
        if let Some(v) = idx.impls.get(&entry) {
            let mut nw = mk(&format!("requires ($arg0).once_ok(()),\nensures res.func.inner().runs(()), forall|out: {ret}| #[trigger] res.func.inner().gives((), out) ==> ($arg0).once((), out),"));
            nw.given = true;
            emit_impl(out, cfg, idx, &v[0], &Blk { kind: "impl".into(), key: entry.clone(), fns: [("new".to_string(), nw)].into(), mode: cfg.mode.clone(), ..Default::default() }); flush(out);
        } else { out.lost.push(format!("{entry}: impl not found in the source")); }
        if let Some((k, v)) = idx.impls.iter().find(|(k, _)| k.starts_with("InternalFnOnce<") && k.ends_with(&format!("@{entry}"))) {
            let mut f = mk("");
            f.nested = format!("requires ($arg0).func.inner().runs(()),\nensures ($arg0).func.inner().gives((), res),");
            let members = format!("open spec fn i_once_ok(self, args: (RawHandle,)) -> bool {{ self.func.inner().runs(()) }}\nopen spec fn i_once(self, args: (RawHandle,), out: i32) -> bool {{ out == 0 && exists|r: {ret}| #[trigger] self.func.inner().gives((), r) && (is_void::<{ret}>() || delivered::<{ret}>(args.0, r)) }}\n");
            emit_impl(out, cfg, idx, &v[0], &Blk { kind: "impl".into(), key: k.clone(), members, fns: [("call_object_once".to_string(), f)].into(), mode: cfg.mode.clone(), ..Default::default() }); flush(out);
        } else { out.lost.push(format!("InternalFnOnce@{entry}: not found in the source")); }
    }
    if found == 0 { out.lost.push("no functions made by #[func] found".into()); }
}
