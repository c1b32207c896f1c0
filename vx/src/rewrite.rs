//! The declared, mechanical rewrites from the crate's Rust to the subset Verus accepts.
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default, Clone)]
pub struct Cfg {
    pub spinoff: bool,
    pub dyns: bool,
    pub dyntypes: bool,
    pub tryconv: bool,
    pub panics: String,
    pub renames: BTreeMap<String, String>,
    pub methods: BTreeMap<String, String>,
    pub world: BTreeSet<String>,
    pub dropbounds: BTreeSet<String>,
    pub closures: BTreeMap<String, String>,
    pub keep_generic_path: BTreeSet<String>,
    pub ghostfields: BTreeMap<String, Vec<(String, String, String)>>,
    pub inlines: BTreeSet<String>,
    pub guarded: BTreeSet<String>,
    pub statics: BTreeSet<String>,
    pub fnvalues: BTreeSet<String>,
    pub ptrcasts: bool,
    /// keep the types of unsafe functions apart from those of safe ones
    pub unsafefns: bool,
    pub dynfns: BTreeSet<String>,
    pub mode: String,
    pub sets: BTreeMap<String, String>,
    pub cur_self: String,
}

pub struct Rw<'a> {
    pub cfg: &'a Cfg,
    pub loops: usize,
    pub dropped: BTreeSet<String>,
    pub errors: Vec<String>,
    pub calls: BTreeSet<String>,
    pub locals: BTreeSet<String>,
    pub clos: Vec<(usize, crate::template::Clo)>,
    pub nclo: usize,
    pub clo_bodies: Vec<(usize, Expr)>,
    pub ops: BTreeSet<String>,
    pub guards: Vec<String>,
}

impl<'a> Rw<'a> {
    pub fn new(cfg: &'a Cfg) -> Self {
        Rw { cfg, loops: 0, dropped: BTreeSet::new(), errors: vec![], calls: BTreeSet::new(), locals: BTreeSet::new(), clos: vec![], nclo: 0, clo_bodies: vec![], ops: BTreeSet::new(), guards: vec![] }
    }
    fn drop_note(&mut self, s: &str) { self.dropped.insert(s.to_string()); }
}

fn ts_eq(a: &TokenStream, b: &TokenStream) -> bool {
    a.to_string().replace(' ', "") == b.to_string().replace(' ', "")
}

struct StripAttrs;
impl VisitMut for StripAttrs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear() }
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) { f.attrs.clear(); visit_mut::visit_item_fn_mut(self, f) }
}

/// The expansion of the crate's `implements!` macro, recognised only when it is token-for-token the known one.
fn match_implements(b: &Block) -> Option<std::result::Result<(Type, String), String>> {
    let first = b.stmts.first()?;
    let Stmt::Item(Item::Fn(f)) = first else { return None };
    if f.sig.ident != "use_trait" { return None }
    let GenericParam::Type(tp) = f.sig.generics.params.first()? else { return None };
    let bounds = tp.bounds.to_token_stream();
    // find PhantomData::<TY>
    let mut ty: Option<Type> = None;
    struct F<'b>(&'b mut Option<Type>);
    impl<'ast, 'b> syn::visit::Visit<'ast> for F<'b> {
        fn visit_expr_path(&mut self, e: &'ast ExprPath) {
            if let Some(s) = e.path.segments.last() {
                if s.ident == "PhantomData" {
                    if let PathArguments::AngleBracketed(a) = &s.arguments {
                        if let Some(GenericArgument::Type(t)) = a.args.first() { *self.0 = Some(t.clone()); }
                    }
                }
            }
        }
    }
    syn::visit::Visit::visit_block(&mut F(&mut ty), b);
    let Some(ty) = ty else { return Some(Err("implements!: no probe type".into())) };
    let expect: Block = parse_quote!({
        fn use_trait<T: #bounds>(_: T) {}
        struct Probe<'a, T: ?Sized>(&'a std::cell::Cell<bool>, std::marker::PhantomData<T>);
        impl<T: ?Sized> Clone for Probe<'_, T> {
            fn clone(&self) -> Self { self.0.set(false); Self(self.0, self.1) }
        }
        impl<T: #bounds> Copy for Probe<'_, T> {}
        let cell = std::cell::Cell::new(true);
        let _ = [Probe(&cell, std::marker::PhantomData::<#ty>)].clone();
        cell.get()
    });
    let mut got = b.clone();
    StripAttrs.visit_block_mut(&mut got);
    if ts_eq(&got.to_token_stream(), &expect.to_token_stream()) {
        let tr = bounds.to_string().replace(' ', "");
        Some(Ok((ty, tr.rsplit("::").next().unwrap().to_string())))
    } else {
        Some(Err("implements!: expansion is not the known probe".into()))
    }
}

/// FnMut() -> O or Future<Output = O>
fn bound_arg(b: &TypeParamBound, name: &str, assoc: bool) -> Option<Type> {
    let TypeParamBound::Trait(t) = b else { return None };
    let s = t.path.segments.last()?;
    if s.ident != name { return None }
    match &s.arguments {
        PathArguments::Parenthesized(p) if !assoc => if let ReturnType::Type(_, t) = &p.output { Some((**t).clone()) } else { None },
        PathArguments::AngleBracketed(a) if assoc => a.args.iter().find_map(|x| if let GenericArgument::AssocType(t) = x { Some(t.ty.clone()) } else { None }),
        _ => None,
    }
}

/// the places a closure body uses, replaced by its captures
struct Capture<'a> { locals: &'a BTreeSet<String>, inner: Vec<String>, places: Vec<Expr> }
impl<'a> VisitMut for Capture<'a> {
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        let mut p = &l.pat; while let Pat::Type(t) = p { p = &t.pat }
        if let Pat::Ident(i) = p { self.inner.push(i.ident.to_string()) }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        fn root(e: &Expr) -> Option<String> {
            match e { Expr::Path(p) if p.path.segments.len() == 1 && p.qself.is_none() => Some(p.path.segments[0].ident.to_string()), Expr::Field(f) => root(&f.base), _ => None }
        }
        if matches!(e, Expr::Path(_) | Expr::Field(_)) {
            if let Some(r) = root(e) {
                if (r == "self" || self.locals.contains(&r)) && !self.inner.contains(&r) {
                    let s = e.to_token_stream().to_string();
                    let k = self.places.iter().position(|p| p.to_token_stream().to_string() == s).unwrap_or_else(|| { self.places.push(e.clone()); self.places.len() - 1 });
                    let c = format_ident!("c{}", k);
                    *e = parse_quote!((*self.#c));
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// X.lock() possibly followed by .expect(..)/.unwrap()/?
fn is_lock(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => is_lock(&p.expr),
        Expr::Try(t) => is_lock(&t.expr),
        Expr::MethodCall(m) => (m.method == "lock" && m.args.is_empty()) || (matches!(m.method.to_string().as_str(), "expect" | "unwrap") && is_lock(&m.receiver)),
        _ => false,
    }
}

fn is_panic_path(p: &Path) -> bool {
    let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    let n = segs.len();
    if n == 0 { return false }
    let last = segs[n - 1].as_str();
    (n >= 2 && segs[n - 2] == "panicking" && (last.starts_with("panic") || last.starts_with("unreachable") || last.starts_with("assert_failed")))
        || (n >= 2 && segs[n - 2] == "rt" && (last == "begin_panic" || last == "panic_fmt"))
}

fn peel_cast(e: &Expr) -> (&Expr, Vec<&Type>) {
    let mut tys = vec![];
    let mut e = e;
    loop {
        match e {
            Expr::Cast(c) => { tys.push(&*c.ty); e = &c.expr; }
            Expr::Paren(p) => e = &p.expr,
            _ => return (e, tys),
        }
    }
}

fn is_u8_ptr(t: &Type) -> bool {
    if let Type::Ptr(p) = t { p.elem.to_token_stream().to_string() == "u8" } else { false }
}

fn last_ident(p: &Path) -> String { p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default() }

impl<'a> VisitMut for Rw<'a> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear() }

    fn visit_signature_mut(&mut self, s: &mut Signature) {
        if s.unsafety.is_some() { self.drop_note("`unsafe` qualifiers"); s.unsafety = None; }
        s.abi = None;
        if s.asyncness.is_some() { s.asyncness = None; self.drop_note("async/.await (a future runs to completion where it is awaited)"); }
        if let ReturnType::Type(_, t) = &mut s.output {
            if let Type::ImplTrait(it) = &**t {
                if let Some(o) = it.bounds.iter().find_map(|b| bound_arg(b, "Future", true)) { **t = o; self.drop_note("async/.await (a future runs to completion where it is awaited)"); }
            }
        }
        let mut newg: Vec<GenericParam> = vec![];
        for a in s.inputs.iter_mut() {
            if let FnArg::Typed(p) = a {
                if let Type::ImplTrait(it) = &*p.ty {
                    if let Some(o) = it.bounds.iter().find_map(|b| bound_arg(b, "FnMut", false)) {
                        if let Pat::Ident(i) = &mut *p.pat { i.mutability = None; self.ops.insert(i.ident.to_string()); }
                        // Result<T> -> T
                        let t = if let Type::Path(tp) = &o { if let PathArguments::AngleBracketed(a) = &tp.path.segments.last().unwrap().arguments { a.args.first().cloned() } else { None } } else { None };
                        if let Some(t) = t { let f = format_ident!("VxF{}", newg.len()); p.ty = Box::new(parse_quote!(&mut #f)); newg.push(parse_quote!(#f: VxOp<#t>)); self.drop_note("callbacks passed as `impl FnMut` (a mutable borrow of a VxOp)"); }
                    }
                }
            }
        }
        s.generics.params.extend(newg);
        if self.cfg.world.contains(&s.ident.to_string()) {
            s.inputs.push(parse_quote!(vx_w: &mut World));
        }
        visit_mut::visit_signature_mut(self, s);
    }
    fn visit_visibility_mut(&mut self, v: &mut Visibility) { *v = parse_quote!(pub); }

    fn visit_generics_mut(&mut self, g: &mut Generics) {
        for p in g.params.iter_mut() {
            if let GenericParam::Type(t) = p { filter_bounds(&mut t.bounds, self.cfg); if t.bounds.is_empty() { t.colon_token = None } t.default = None; t.eq_token = None; }
        }
        if let Some(w) = &mut g.where_clause {
            let mut preds: punctuated::Punctuated<WherePredicate, Token![,]> = Default::default();
            for mut p in std::mem::take(&mut w.predicates) {
                if let WherePredicate::Type(t) = &mut p {
                    filter_bounds(&mut t.bounds, self.cfg);
                    if t.bounds.is_empty() { continue }
                }
                preds.push(p);
            }
            w.predicates = preds;
            if w.predicates.is_empty() { g.where_clause = None; }
        }
        visit_mut::visit_generics_mut(self, g);
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::ImplTrait(it) = t { filter_bounds(&mut it.bounds, self.cfg); }
        if self.cfg.dyns || self.cfg.dyntypes {
            if let Some((tr, mut a, mut o)) = crate::template::dyn_fn(t) {
                self.visit_type_mut(&mut a); self.visit_type_mut(&mut o);
                let d = format_ident!("VxDyn{}", tr);
                *t = parse_quote!(#d<#a, #o>);
                return;
            }
        }
        if let Type::Ptr(p) = t {
            let mut x = (*p.elem).clone();
            self.visit_type_mut(&mut x);
            self.drop_note("raw pointer types (an address, VxPtr)");
            *t = parse_quote!(VxPtr<#x>);
            return;
        }
        if let Type::BareFn(f) = t {
            let mut a: Vec<Type> = f.inputs.iter().map(|x| x.ty.clone()).collect();
            if let ReturnType::Type(_, r) = &f.output { a.push((**r).clone()) }
            for x in a.iter_mut() { self.visit_type_mut(x) }
            self.drop_note("function pointer types in markers (a marker over the same types)");
            *t = if self.cfg.unsafefns && f.unsafety.is_some() { parse_quote!(VxUnsafeFnPtr<(#(#a,)*)>) } else { parse_quote!(VxFnPtr<(#(#a,)*)>) };
            return;
        }
        if let Type::Path(p) = t {
            if p.qself.is_none() {
                let s = crate::index::norm_str(p.path.to_token_stream(), &[]);
                if let Some(n) = self.cfg.renames.get(&s).filter(|_| s.contains('<') || p.path.segments.last().map_or(false, |l| l.arguments.is_none())) {
                    if let Ok(nt) = syn::parse_str::<Type>(n) { *t = nt; return; }
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        flatten(p, self.cfg);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        // drop inner `use` items and const fn-items irrelevant to execution
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Use(_))));
        let n = self.guards.len();
        visit_mut::visit_block_mut(self, b);
        self.guards.truncate(n);
    }

    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.retain(|a| !a.path().is_ident("cfg"));
        let lock = !self.cfg.guarded.is_empty() && l.init.as_ref().map_or(false, |i| is_lock(&i.expr));
        visit_mut::visit_local_mut(self, l);
        let mut p = &l.pat; while let Pat::Type(t) = p { p = &t.pat }
        if let Pat::Ident(i) = p {
            let n = i.ident.to_string();
            self.guards.retain(|g| *g != n);
            if lock { self.guards.push(n); self.drop_note("the guard of a mutex dereferenced implicitly (vx_get/vx_set)"); }
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // ---- pre-order rewrites
        if !self.cfg.fnvalues.is_empty() {
            if let Expr::Call(c) = e {
                if let Expr::Path(p) = &mut *c.func {
                    if self.cfg.fnvalues.contains(&p.path.segments.last().unwrap().ident.to_string()) {
                        // a callee is not a value
                        self.visit_path_mut(&mut p.path);
                        for x in c.args.iter_mut() { self.visit_expr_mut(x) }
                        return;
                    }
                }
            }
            if let Expr::MethodCall(m) = e { m.attrs.clear(); }
        }
        // ---- addresses: statics, functions as values, casts to words, calls of function pointers
        if let Expr::Path(p) = e {
            if p.qself.is_none() {
                let l = p.path.segments.last().unwrap().ident.to_string();
                if self.cfg.statics.contains(&l) { let f = format_ident!("vx_static_{}", l); *e = parse_quote!(#f()); return }
                if self.cfg.fnvalues.contains(&l) {
                    let f = format_ident!("vx_fn_{}", l);
                    let n = p.path.segments.len();
                    let ty = if n >= 2 { let s = &p.path.segments[n - 2].ident; if s.to_string().starts_with(char::is_uppercase) { Some(s.clone()) } else { None } } else { None };
                    *e = match ty { Some(s) => parse_quote!(#f::<#s>()), None => parse_quote!(#f()) };
                    self.drop_note("functions used as values (their address)");
                    return;
                }
            }
        }
        if self.cfg.ptrcasts {
            if let Expr::Call(c) = e {
                let mut f = &*c.func; while let Expr::Paren(p) = f { f = &p.expr }
                if matches!(f, Expr::Call(_)) && c.args.len() == 1 {
                    let (f, a) = (f.clone(), c.args[0].clone());
                    *e = parse_quote!(vx_call_at(#f, #a));
                    self.drop_note("calls of function pointers (vx_call_at)");
                    self.visit_expr_mut(e); return;
                }
            }
            if let Expr::Cast(c) = e {
                if matches!(&*c.ty, Type::Path(p) if p.path.is_ident("usize")) {
                    let x = &c.expr; *e = parse_quote!(vx_as_usize(#x));
                    self.visit_expr_mut(e); return;
                }
            }
            if let Expr::MethodCall(m) = e {
                // (&mut P as *mut *mut _ as *mut *mut ()).write(V): the address part of a pointer that may be wide
                if m.method == "write" && m.args.len() == 1 {
                    let mut r = &*m.receiver; while let Expr::Paren(p) = r { r = &p.expr }
                    if let Expr::Cast(c2) = r { let mut r1 = &*c2.expr; while let Expr::Paren(p) = r1 { r1 = &p.expr } if let Expr::Cast(c1) = r1 { if let Expr::Reference(rf) = &*c1.expr {
                        let unit = |t: &Type| matches!(t, Type::Ptr(p) if matches!(&*p.elem, Type::Ptr(q) if matches!(&*q.elem, Type::Tuple(u) if u.elems.is_empty())));
                        if unit(&c2.ty) && rf.mutability.is_some() {
                            let (p, v) = (&rf.expr, &m.args[0]);
                            *e = parse_quote!(vx_write_address(&mut #p, #v));
                            self.drop_note("overwriting the address part of a wide pointer (vx_write_address)");
                            self.visit_expr_mut(e); return;
                        }
                    } } }
                }
            }
            if let Expr::Reference(r) = e {
                if r.mutability.is_none() {
                    if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = &*r.expr {
                        if let Expr::Field(_) = &**expr {
                            let x = expr.clone();
                            *e = parse_quote!(vx_ptr_ref(#x));
                            self.drop_note("references made from raw pointers (the value at the address)");
                            self.visit_expr_mut(e); return;
                        }
                    }
                }
            }
        }
        if !self.cfg.guarded.is_empty() {
            let is_guard = |x: &Expr| is_lock(x) || { let mut x = x; while let Expr::Paren(p) = x { x = &p.expr } matches!(x, Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.guards.contains(&i.to_string()))) };
            let mut ne: Option<Expr> = None;
            match e {
                Expr::Assign(a) => if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = &*a.left {
                    if is_guard(expr) { let r = &a.right; ne = Some(if is_lock(expr) { parse_quote!(vx_set_now(#expr, #r, vx_w)) } else { parse_quote!((#expr).vx_set(#r, vx_w)) }); }
                },
                Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => if is_guard(expr) { ne = Some(parse_quote!((#expr).vx_get())); },
                Expr::Call(c) => if let Expr::Path(p) = &*c.func {
                    let l = last_ident(&p.path);
                    if (l == "drop" || l == "mem_drop") && c.args.len() == 1 {
                        if let Expr::Path(x) = &c.args[0] { if let Some(i) = x.path.get_ident() { let i = i.to_string(); self.guards.retain(|g| *g != i); } }
                    }
                    if l == "retry_on_intr" && c.args.len() == 1 {
                        // F(|| f(args)): repeat f(args) while it is interrupted
                        if let Expr::Closure(k) = &c.args[0] {
                            let mut b = (*k.body).clone();
                            loop {
                                b = match b {
                                    Expr::Block(x) if x.block.stmts.len() == 1 && matches!(x.block.stmts[0], Stmt::Expr(_, None)) => { let Stmt::Expr(y, _) = &x.block.stmts[0] else { unreachable!() }; y.clone() }
                                    Expr::Paren(p) => *p.expr,
                                    b => { ne = if let Expr::Call(mut f) = b { if let Expr::Path(fp) = &mut *f.func { if let Some(s) = fp.path.segments.last_mut() { s.ident = format_ident!("{}_retry", s.ident); } } Some(Expr::Call(f)) } else { None }; break }
                                }
                            }
                            self.drop_note("retry_on_intr(|| f(x)) (f's contract without interruptions)");
                        }
                    }
                },
                _ => {}
            }
            if let Some(n) = ne { *e = n; self.visit_expr_mut(e); return; }
        }
        if let Expr::Block(b) = e {
            if let Some(r) = match_implements(&b.block) {
                match r {
                    Ok((mut ty, tr)) => {
                        self.visit_type_mut(&mut ty);
                        let f = format_ident!("vx_implements_{}", tr);
                        *e = parse_quote!(#f::<#ty>());
                        self.drop_note("the body of implements!() (its result is an assumed predicate of the type)");
                    }
                    Err(m) => self.errors.push(m),
                }
                return;
            }
        }
        if let Expr::Unsafe(u) = e {
            let b = &u.block;
            self.drop_note("`unsafe` qualifiers");
            let ne: Expr = if b.stmts.len() == 1 && matches!(b.stmts[0], Stmt::Expr(_, None)) {
                let Stmt::Expr(x, _) = &b.stmts[0] else { unreachable!() };
                Expr::Paren(ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(x.clone()) })
            } else { parse_quote!(#b) };
            *e = ne;
            self.visit_expr_mut(e);
            return;
        }
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if is_panic_path(&p.path) { let f = quote::format_ident!("{}", if self.cfg.panics.is_empty() { "vx_panic" } else { &self.cfg.panics }); *e = parse_quote!(#f()); return; }
                let l = last_ident(&p.path);
                if l == "format" && p.path.segments.len() >= 2 { *e = parse_quote!(vx_format()); self.drop_note("formatted message texts"); return; }
                if (l == "_print" || l == "_eprint") && p.path.segments.len() >= 2 { *e = parse_quote!(vx_print()); self.drop_note("printed texts"); return; }
                if (l == "from_raw_parts" || l == "from_raw_parts_mut") && c.args.len() == 2 {
                    let (base, tys) = peel_cast(&c.args[0]);
                    if !tys.is_empty() && is_u8_ptr(tys[0]) {
                        let len = c.args[1].clone();
                        let ne: Option<Expr> = match base {
                            Expr::MethodCall(m) if m.method == "as_mut_ptr" && m.args.is_empty() => { let r = &m.receiver; Some(parse_quote!((#r).vx_bytes_mut(#len))) }
                            Expr::MethodCall(m) if m.method == "as_ptr" && m.args.is_empty() => { let r = &m.receiver; Some(parse_quote!(vx_slice_bytes(#r, #len))) }
                            x if tys.len() == 2 => {
                                if let Type::Ptr(tp) = tys[1] { let t = &tp.elem; Some(parse_quote!(vx_value_bytes::<#t>(#x, #len))) } else { None }
                            }
                            _ => None,
                        };
                        if let Some(ne) = ne {
                            self.drop_note("raw-pointer views of values as bytes (from_raw_parts), replaced by contracted accessors");
                            *e = ne; self.visit_expr_mut(e); return;
                        }
                    }
                }
            }
        }
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let l = last_ident(&p.path);
                // a helper that is called with a closure, inlined at the call: F(|| E)
                if self.cfg.inlines.contains(&l) && c.args.len() == 1 {
                    if let Expr::Closure(k) = &c.args[0] {
                        if k.inputs.is_empty() { let f = format_ident!("vx_inline_{}", l); let b = &k.body; *e = parse_quote!(#f!(#b)); }
                    }
                }
            }
        }
        if let Expr::Try(t) = e {
            if self.cfg.tryconv {
                let x = &t.expr;
                *e = parse_quote!((match #x { Ok(vx_v) => vx_v, Err(vx_e) => return Err(From::from(vx_e)) }));
                self.drop_note("`?` desugared to match/return with From::from (Rust's own desugaring)");
                self.visit_expr_mut(e); return;
            }
        }
        if let Expr::Repeat(r) = e {
            // a buffer whose length is a computed constant
            if !matches!(&*r.len, Expr::Lit(_) | Expr::Path(_)) {
                let (x, n) = (&r.expr, &r.len);
                *e = parse_quote!(vx_repeat_buf(#x, #n));
                self.drop_note("array buffers of computed constant length (a buffer of that length)");
                self.visit_expr_mut(e); return;
            }
        }
        if let Expr::Reference(r) = e {
            if r.mutability.is_some() {
                if let Expr::Index(ix) = &*r.expr {
                    if let Expr::Range(rg) = &*ix.index {
                        if let (Some(a), None) = (&rg.start, &rg.end) {
                            let x = &ix.expr;
                            *e = parse_quote!((#x).vx_from_mut(#a));
                            self.visit_expr_mut(e); return;
                        }
                    }
                }
            }
        }
        if let Expr::Binary(b) = e {
            if matches!(b.op, BinOp::BitOr(_)) {
                let flag = |x: &Expr| matches!(x, Expr::Path(p) if p.path.segments.len() >= 2 && { let n = p.path.segments.len(); p.path.segments[n - 2].ident.to_string().chars().next().unwrap().is_uppercase() || p.path.segments[n - 1].ident.to_string().chars().all(|c| c.is_uppercase() || c == '_' || c.is_ascii_digit()) });
                if flag(&b.left) || flag(&b.right) {
                    let (l, r) = (&b.left, &b.right);
                    *e = parse_quote!((#l).vx_bitor(#r));
                    self.visit_expr_mut(e); return;
                }
            }
        }
        if let Expr::Struct(st) = e {
            let mut n = last_ident(&st.path);
            if n == "Self" { n = self.cfg.cur_self.clone(); }
            if let Some(fs) = self.cfg.ghostfields.get(&n) {
                for (f, _, init) in fs {
                    let f = format_ident!("{}", f);
                    let init: Expr = syn::parse_str(init).unwrap();
                    st.fields.push(parse_quote!(#f: #init));
                }
            }
        }
        if let Expr::Reference(r) = e {
            if r.mutability.is_none() {
                if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = &*r.expr {
                    if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = &**expr {
                        let x = expr.clone();
                        *e = parse_quote!((#x).vx_deref());
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
        }
        if let Expr::Lit(ExprLit { lit: Lit::CStr(c), .. }) = e {
            let t = c.value().to_string_lossy().into_owned();
            *e = parse_quote!(vx_cstr(#t));
            self.drop_note("C string literals (a function of their text)");
            return;
        }
        if let Expr::Reference(r) = e {
            if r.mutability.is_none() {
                if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = &*r.expr {
                    let mut x = &**expr; while let Expr::Paren(p) = x { x = &p.expr }
                    if matches!(x, Expr::Cast(c) if matches!(&*c.ty, Type::Ptr(_))) {
                        let x = x.clone();
                        *e = parse_quote!(vx_ptr_ref(#x));
                        self.drop_note("references made from raw pointers (the value at the address)");
                        self.visit_expr_mut(e); return;
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            // X.iter().map(F).collect(), X.into_iter().map(|a| F(a)).collect()
            if m.method == "collect" && m.args.is_empty() {
                if let Expr::MethodCall(mm) = &*m.receiver {
                    if mm.method == "map" && mm.args.len() == 1 {
                        if let Expr::MethodCall(mi) = &*mm.receiver {
                            if (mi.method == "iter" || mi.method == "into_iter") && mi.args.is_empty() {
                                fn eta(e: &Expr) -> Option<Path> {
                                    match e {
                                        Expr::Path(p) => Some(p.path.clone()),
                                        Expr::Closure(c) if c.inputs.len() == 1 => {
                                            let Pat::Ident(i) = &c.inputs[0] else { return None };
                                            let mut b = &*c.body;
                                            loop {
                                                match b {
                                                    Expr::Unsafe(u) if u.block.stmts.len() == 1 => { let Stmt::Expr(x, None) = &u.block.stmts[0] else { return None }; b = x }
                                                    Expr::Block(u) if u.block.stmts.len() == 1 => { let Stmt::Expr(x, None) = &u.block.stmts[0] else { return None }; b = x }
                                                    Expr::Paren(p) => b = &p.expr,
                                                    Expr::Call(k) if k.args.len() == 1 => {
                                                        let (Expr::Path(f), Expr::Path(a)) = (&*k.func, &k.args[0]) else { return None };
                                                        return if a.path.get_ident() == Some(&i.ident) { Some(f.path.clone()) } else { None };
                                                    }
                                                    Expr::MethodCall(k) if k.args.is_empty() => {
                                                        let Expr::Path(a) = &*k.receiver else { return None };
                                                        return if a.path.get_ident() == Some(&i.ident) { Some(Path::from(k.method.clone())) } else { None };
                                                    }
                                                    _ => return None,
                                                }
                                            }
                                        }
                                        _ => None,
                                    }
                                }
                                if let Some(f) = eta(&mm.args[0]) {
                                    let f = format_ident!("vx_{}_map_{}", mi.method, last_ident(&f));
                                    let x = &mi.receiver;
                                    *e = parse_quote!((#x).#f());
                                    self.drop_note("X.iter().map(F).collect() (the list of F of each element)");
                                    self.visit_expr_mut(e); return;
                                }
                            }
                        }
                    }
                }
            }
        }
        if let Expr::Call(c) = e {
            // clone(F, ..): a new process that runs F
            if let Expr::Path(p) = &*c.func {
                if last_ident(&p.path) == "clone" && p.path.segments.len() == 2 && p.path.segments[0].ident == "libc" && c.args.len() == 4 {
                    if let Expr::Path(f) = &c.args[0] {
                        let g = format_ident!("vx_clone_{}", last_ident(&f.path));
                        let rest: Vec<&Expr> = c.args.iter().skip(1).collect();
                        *e = parse_quote!(#g(#(#rest),*));
                        self.drop_note("libc::clone(F, ..) (a function per F, whose contract says what F is asked to do)");
                        self.visit_expr_mut(e); return;
                    }
                }
            }
        }
        if let Expr::Cast(c) = e {
            if let Type::Ptr(tp) = &*c.ty {
                let kind = if tp.mutability.is_some() { "mut" } else { "const" };
                let name = match &*tp.elem {
                    Type::Path(p) => last_ident(&p.path),
                    Type::Tuple(t) if t.elems.is_empty() => "unit".into(),
                    _ => "other".into(),
                };
                let f = format_ident!("vx_cast_{}_{}", kind, name);
                let x = &c.expr;
                *e = parse_quote!(#f(#x));
                self.visit_expr_mut(e);
                return;
            }
        }
        if let Expr::ForLoop(f) = e {
            let n = self.loops; self.loops += 1;
            let it = format_ident!("vx_it{}", n);
            let pat = &f.pat; let body = &f.body; let label = &f.label;
            let head: Expr = match &*f.expr {
                Expr::Range(r) if r.start.is_some() && r.end.is_some() && matches!(r.limits, RangeLimits::HalfOpen(_)) => {
                    let (a, b) = (&r.start, &r.end); parse_quote!(vx_range(#a, #b))
                }
                Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => { let r = &m.receiver; parse_quote!((#r).vx_iter()) }
                Expr::Reference(r) if r.mutability.is_none() => { let r = &r.expr; parse_quote!((#r).vx_iter()) }
                x => parse_quote!((#x).vx_into_iter()),
            };
            let lit = LitInt::new(&n.to_string(), Span::call_site());
            let ne: Expr = parse_quote!({
                let mut #it = #head;
                #label loop { __vx_inv!(#lit); match #it.next() { None => break, Some(#pat) => #body } }
            });
            self.drop_note("`for` desugared to loop/next (Rust's own desugaring)");
            *e = ne;
            // visit inside without counting the loop twice
            if let Expr::Block(b) = e {
                for s in b.block.stmts.iter_mut() {
                    match s {
                        Stmt::Local(l) => self.visit_local_mut(l),
                        Stmt::Expr(Expr::Loop(l), _) => {
                            for s in l.body.stmts.iter_mut().skip(1) { self.visit_stmt_mut(s) }
                        }
                        _ => {}
                    }
                }
            }
            return;
        }
        if let Expr::Loop(l) = e {
            let n = self.loops; self.loops += 1;
            let lit = LitInt::new(&n.to_string(), Span::call_site());
            visit_mut::visit_block_mut(self, &mut l.body);
            l.body.stmts.insert(0, parse_quote!(__vx_inv!(#lit);));
            return;
        }
        if let Expr::While(w) = e {
            let n = self.loops; self.loops += 1;
            let lit = LitInt::new(&n.to_string(), Span::call_site());
            self.visit_expr_mut(&mut w.cond);
            visit_mut::visit_block_mut(self, &mut w.body);
            if let Expr::Let(l) = &*w.cond {
                // while let P = E { B }  ==>  loop { match E { P => B, _ => break } }
                let (p, x, b) = (&l.pat, &l.expr, &w.body);
                let label = &w.label;
                *e = parse_quote!(#label loop { __vx_inv!(#lit); match #x { #p => #b, _ => break } });
            } else {
                w.body.stmts.insert(0, parse_quote!(__vx_inv!(#lit);));
            }
            return;
        }
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            if name == "ok_or_else" && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    let (r, b) = (&m.receiver, &c.body);
                    *e = parse_quote!((match #r { Some(vx_v) => Ok(vx_v), None => Err(#b) }));
                    self.visit_expr_mut(e); return;
                }
            }
            if name == "then" && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    let (r, b) = (&m.receiver, &c.body);
                    *e = parse_quote!((if #r { Some(#b) } else { None }));
                    self.visit_expr_mut(e); return;
                }
            }
            if (name == "map" || name == "map_err" || name == "and_then") && m.args.len() == 1 {
                if let Expr::Path(p) = &m.args[0] {
                    let l = last_ident(&p.path);
                    if name == "map" && l.chars().next().map_or(false, |c| c.is_uppercase()) {
                        let f = format_ident!("vx_map_{}", if l == "Self" { &self.cfg.cur_self } else { &l });
                        let r = &m.receiver;
                        *e = parse_quote!((#r).#f());
                        self.visit_expr_mut(e); return;
                    }
                }
            }
        }
        if let Expr::Await(a) = e { let x = (*a.base).clone(); *e = x; self.drop_note("async/.await (a future runs to completion where it is awaited)"); self.visit_expr_mut(e); return; }
        if let Expr::Call(c) = e {
            if c.args.is_empty() {
                if let Expr::Path(p) = &*c.func {
                    if p.path.segments.len() == 1 && self.ops.contains(&last_ident(&p.path)) { let f = &c.func; *e = parse_quote!(#f.vx_call(vx_w)); return; }
                }
            }
        }
        if let Expr::Closure(c) = e {
            // |_| f()  is  f
            if let Expr::Call(k) = &*c.body {
                if k.args.is_empty() && c.inputs.iter().all(|p| matches!(p, Pat::Wild(_))) {
                    if let Expr::Path(p) = &*k.func { if p.path.segments.len() == 1 && self.ops.contains(&last_ident(&p.path)) { let f = (*k.func).clone(); *e = f; return; } }
                }
            }
            let n = self.nclo; self.nclo += 1;
            if let Some((_, spec)) = self.clos.iter().find(|(k, _)| *k == n).cloned() {
                let mut body = (*c.body).clone();
                let mut cap = Capture { locals: &self.locals, inner: vec![], places: vec![] };
                cap.visit_expr_mut(&mut body);
                let places = cap.places;
                self.visit_expr_mut(&mut body);
                self.clo_bodies.push((n, body));
                let name = format_ident!("{}", spec.name);
                let ids: Vec<_> = (0..places.len()).map(|k| format_ident!("c{}", k)).collect();
                *e = if spec.kind == "mut" { parse_quote!(&mut #name { #(#ids: &mut #places),* }) } else { parse_quote!(&mut #name { #(#ids: &#places),* }) };
                self.drop_note("closures passed to retrying helpers (a struct of their captures whose method is the closure's body: closure conversion)");
                return;
            }
        }
        if let Expr::Closure(c) = e {
            if let Expr::MethodCall(m) = &*c.body {
                if let Some(ctor) = self.cfg.closures.get(&m.method.to_string()) {
                    let ctor: Path = syn::parse_str(ctor).unwrap();
                    let r = &m.receiver;
                    *e = parse_quote!(#ctor(&mut #r));
                    self.drop_note("closures capturing `&mut x` to call `x.m()`, replaced by a struct holding `&mut x` (closure conversion)");
                    return;
                }
            }
            if let Expr::Call(m) = &*c.body {
                if let Expr::Path(p) = &*m.func {
                    if let Some(ctor) = self.cfg.closures.get(&format!("call:{}", last_ident(&p.path))) {
                        let ctor: Path = syn::parse_str(ctor).unwrap();
                        let r = &p.path;
                        *e = parse_quote!(#ctor(#r));
                        return;
                    }
                }
            }
        }
        if let Expr::Macro(m) = e {
            let l = last_ident(&m.mac.path);
            if l == "format_args" { *e = parse_quote!(vx_fmt_args()); return; }
        }

        visit_mut::visit_expr_mut(self, e);

        // ---- post-order rewrites
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let l = last_ident(&p.path);
                    self.calls.insert(l.clone());
                    let l2 = { let n = p.path.segments.len(); if n >= 2 { format!("{}::{}", p.path.segments[n - 2].ident, l) } else { String::new() } };
                    if self.cfg.dynfns.contains(&l) {
                        // the type parameter that stands for the boxed trait object is inferred
                        if let Expr::Path(p) = &mut *c.func { if let Some(PathSegment { arguments: PathArguments::AngleBracketed(a), .. }) = p.path.segments.last_mut() { a.args.push(parse_quote!(_)); } }
                    }
                    if self.cfg.guarded.contains(&l) {
                        let g: Expr = match self.guards.last() { Some(g) => { let g = format_ident!("{}", g); parse_quote!(&#g) } None => parse_quote!(&vx_noguard()) };
                        c.args.push(g);
                    }
                    if self.cfg.world.contains(&l) || self.cfg.world.contains(&l2) { c.args.push(parse_quote!(vx_w)); }
                }
            }
            Expr::MethodCall(m) => {
                let l = m.method.to_string();
                self.calls.insert(l.clone());
                if self.cfg.world.contains(&l) { m.args.push(parse_quote!(vx_w)); }
                if let Some(n) = self.cfg.methods.get(&l) {
                    m.method = format_ident!("{}", n);
                }
            }
            Expr::If(i) => {
                // both branches are byte views of a buffer
                let view = match i.then_branch.stmts.last() { Some(Stmt::Expr(x, None)) => { let mut x = x; while let Expr::Paren(p) = x { x = &p.expr } matches!(x, Expr::MethodCall(m) if m.method == "vx_bytes_mut") } _ => false };
                if view {
                    if let Some((_, eb)) = &mut i.else_branch {
                        if let Expr::Block(b) = &mut **eb {
                            if let Some(Stmt::Expr(x, None)) = b.block.stmts.last_mut() {
                                if let Expr::Reference(r) = x { if r.mutability.is_some() { let y = r.expr.clone(); *x = parse_quote!((#y).vx_as_mut_slice()); } }
                            }
                        }
                    }
                }
            }
            Expr::Lit(ExprLit { lit: Lit::CStr(_), .. }) => {}
            _ => {}
        }
    }
}

fn filter_bounds(b: &mut punctuated::Punctuated<TypeParamBound, Token![+]>, cfg: &Cfg) {
    let v: Vec<TypeParamBound> = std::mem::take(b).into_iter().filter(|x| match x {
        TypeParamBound::Trait(t) => !cfg.dropbounds.contains(&last_ident(&t.path)),
        TypeParamBound::Lifetime(l) => !cfg.dropbounds.contains(&l.to_string()),
        _ => true,
    }).collect();
    for x in v { b.push(x) }
}

fn flatten(p: &mut Path, cfg: &Cfg) {
    let plain: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    let joined = plain.join("::");
    if let Some(n) = cfg.renames.get(&joined) {
        let args = p.segments.last().map(|s| s.arguments.clone()).unwrap_or(PathArguments::None);
        let mut np: Path = syn::parse_str(n).unwrap_or_else(|_| crate::die(&format!("bad rename {n}")));
        if let Some(l) = np.segments.last_mut() { if l.arguments.is_none() { l.arguments = args } }
        *p = np;
        return;
    }
    let n = plain.len();
    p.leading_colon = None;
    if n == 1 { return }
    if cfg.keep_generic_path.contains(&plain[0]) { return }
    let upper = |s: &str| s.chars().next().map_or(false, |c| c.is_uppercase());
    let keep = if n >= 2 && (upper(&plain[n - 2]) || !p.segments[n - 2].arguments.is_none()) { 2 }
        else if upper(&plain[n - 1]) { 1 }
        else if matches!(plain[n - 1].as_str(), "u8"|"usize"|"i32"|"bool"|"u32"|"u16"|"u64"|"isize") { 1 }
        else {
            // lowercase function: module_fn
            let name = format_ident!("{}_{}", plain[n - 2].trim_start_matches("r#"), plain[n - 1]);
            let args = p.segments.last().unwrap().arguments.clone();
            let mut segs: punctuated::Punctuated<PathSegment, Token![::]> = Default::default();
            if plain[n - 2] == "crate" || plain[n - 2] == "crossmist" || plain[n-2] == "super" || plain[n-2] == "self" {
                segs.push(PathSegment { ident: p.segments.last().unwrap().ident.clone(), arguments: args });
            } else {
                segs.push(PathSegment { ident: name, arguments: args });
            }
            p.segments = segs;
            return;
        };
    let v: Vec<PathSegment> = p.segments.iter().skip(n - keep).cloned().collect();
    let mut segs: punctuated::Punctuated<PathSegment, Token![::]> = Default::default();
    for s in v { segs.push(s) }
    p.segments = segs;
    if p.segments.len() == 1 && n > 1 && cfg.renames.contains_key(&p.segments[0].ident.to_string()) { flatten(p, cfg) }
}
