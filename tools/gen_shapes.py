#!/usr/bin/env python3
"""writes fixtures/shapes/src/lib.rs: one derived type per shape (generic in every field type), one #[func] per arity"""
N = 20
# names that could collide with what the derive macro itself binds or calls
TRICKY = ["s", "d", "value", "a0", "i", "ok", "data", "r#type", "serde", "result", "name", "x", "a1", "item", "r#match", "state", "b", "handle", "len", "index"]
o = ["#![allow(non_camel_case_types, clippy::all)]", "use crossmist::{func, Object};", "use std::marker::PhantomData;"]
def gens(n): return "" if n == 0 else "<" + ", ".join(f"T{i}: Object" for i in range(n)) + ">"
o += ["#[derive(Object)]", "pub struct FxUnit;", "#[derive(Object)]", "pub struct FxT0();", "#[derive(Object)]", "pub struct FxN0 {}"]
for n in range(1, N + 1):
    o += ["#[derive(Object)]", f"pub struct FxT{n}{gens(n)}({', '.join(f'pub T{i}' for i in range(n))});"]
    o += ["#[derive(Object)]", f"pub struct FxN{n}{gens(n)} {{ {', '.join(f'pub {TRICKY[i]}: T{i}' for i in range(n))} }}"]
# fields of one and the same type, fields declared out of order, repeated parameters, where clauses, const parameters
o += ["#[derive(Object)]", "pub struct FxSame<T0: Object>(pub T0, pub T0, pub T0, pub T0);"]
o += ["#[derive(Object)]", "pub struct FxSameNamed<T0: Object> { pub d: T0, pub c: T0, pub b: T0, pub a: T0 }"]
o += ["#[derive(Object)]", "pub struct FxRev<T0: Object, T1: Object, T2: Object> { pub z: T2, pub y: T1, pub x: T0, pub w: T2 }"]
o += ["#[derive(Object)]", "pub struct FxWhere<T0, T1> where T0: Object, T1: Object { pub s: T0, pub d: (T1, T0) }"]
o += ["#[derive(Object)]", "pub struct FxMixed<T0: Object> { pub a: u8, pub s: T0, pub b: u64, pub d: Option<T0>, pub e: bool, pub u: () }"]
# attributes, doc comments and visibilities carry no meaning for the transfer
o += ["#[derive(Object)]", "pub struct FxDocs<T0: Object> {", "    /// documented", "    pub d: T0,", "    c: T0,", "    #[allow(unused)]", "    #[doc(hidden)]", "    pub b: T0,", "    #[allow(unused)]", "    pub(crate) a: T0,", "}",
      "#[derive(Object)]", "pub struct FxDocsT<T0: Object>(T0, #[allow(unused)] #[doc(hidden)] pub T0, #[allow(unused)] T0, pub T0);",
      "#[derive(Object)]", "pub enum FxDocsV<T0: Object> {", "    /// documented", "    A { #[allow(unused)] x: T0, y: T0, #[allow(unused)] #[doc(hidden)] z: T0 },", "    #[allow(unused)]", "    B(T0, #[allow(unused)] T0, T0),", "    #[doc(hidden)]", "    C,", "    D,", "}"]
# enums: every number of unit variants around the sizes a narrower tag would break, every kind of variant at several positions
o += ["#[derive(Object)]", "pub enum FxE1 { A }"]
o += ["#[derive(Object)]", f"pub enum FxE48 {{ {', '.join(f'V{i}' for i in range(48))} }}"]
o += ["#[derive(Object)]", "pub enum FxExplicit { A = 7, B = 3, C = 200 }"]
for n in range(1, 13):
    o += ["#[derive(Object)]", f"pub enum FxV{n}{gens(n)} {{ {', '.join(f'V{i}(T{i})' if i % 3 != 2 else f'V{i} {{ s: T{i} }}' for i in range(n))}, U }}"]
    o += ["#[derive(Object)]", f"pub enum FxW{n}{gens(n)} {{ U, P({', '.join(f'T{i}' for i in range(n))}), N {{ {', '.join(f'{TRICKY[i]}: T{i}' for i in range(n))} }}, Z }}"]
o += ["#[derive(Object)]", "pub enum FxSameV<T0: Object> { A(T0), B(T0), C { s: T0, d: T0 }, D(T0, T0, T0), E, F { d: T0, s: T0 } }"]
o += ["#[derive(Object)]", "pub enum FxLastOnly<T0: Object> { A(u8), B(u32), C(T0) }"]
o += ["#[derive(Object)]", "pub enum FxFirstOnly<T0: Object> { C(T0), A(u8), B(u32) }"]
# fields whose types differ only in their arguments
o += ["#[derive(Object)]", "pub struct FxOpts<T0: Object, T1: Object> { pub a: Option<T0>, pub b: Option<T1>, pub c: (T0, T1), pub d: (T1, T0) }",
      "#[derive(Object)]", "pub struct FxOptsT<T0: Object, T1: Object>(pub Option<T0>, pub Option<T1>);",
      "#[derive(Object)]", "pub struct FxOptsR<T0: Object, T1: Object>(pub Option<T1>, pub Option<T0>);",
      "#[derive(Object)]", "pub struct FxPairs<T0: Object, T1: Object>((T0, u8), (T1, u8));",
      "#[derive(Object)]", "pub struct FxGen<T0: Object, T1: Object>(pub FxT2<T0, u8>, pub FxT2<T1, u8>);",
      "#[derive(Object)]", "pub enum FxOptsV<T0: Object, T1: Object> { A(Option<T0>), B(Option<T1>), C { x: (T0, u8), y: (T1, u8) } }",
      "#[derive(Object)]", "pub enum FxOptsW<T0: Object, T1: Object> { A(Option<T0>, Option<T1>), B { d: FxT2<T0, T0>, s: FxT2<T1, T0> } }"]
# functions: arguments of one type, so that any permutation of them type-checks
for n in range(0, N + 1):
    b = ', '.join(f'b{i}' for i in range(n)); a = ', '.join(f'b{i}: u64' for i in range(n))
    o += ["#[func]", f"pub fn fx{n}({a}) -> u64 {{ do_fx{n}({b}) }}", f"pub fn do_fx{n}({a}) -> u64 {{ let _ = ({b}); 0 }}"]
o += ["#[func]", "pub fn fxv(b0: u64, b1: u64) { do_fxv(b0, b1) }", "pub fn do_fxv(b0: u64, b1: u64) { let _ = (b0, b1); }",
      "#[func]", "pub fn fxr(b0: &u64, b1: &u64, b2: u64) -> u64 { do_fxr(b0, b1, b2) }", "pub fn do_fxr(b0: &u64, b1: &u64, b2: u64) -> u64 { let _ = (b0, b1, b2); 0 }"]
open(__import__("os").path.join(__import__("os").path.dirname(__file__), "../fixtures/shapes/src/lib.rs"), "w").write("\n".join(o) + "\n")
