#!/usr/bin/env python3
"""Generates harness/src/c10.rs: every supported arity of bound and wrapped functions."""
o = []
w = o.append
w('''//! C10 bound and wrapped functions (generated by tools/gen_c10.py)
#![allow(clippy::all)]
use crate::util::*;
use crate::Case;
use crossmist::{func, lambda, BindMut, BindRef, BindValue, FnMutObject, FnObject, FnOnceObject, Object, Serializer, Deserializer, StaticFn};

pub fn cases() -> Vec<Case> {
    vec![("C10", "value", by_value), ("C10", "mut", by_mut), ("C10", "ref", by_ref), ("C10", "chains", chains), ("C10", "static-fn", static_fn), ("C10", "lambda", lambdas), ("C10", "boxed", boxed)]
}
fn eq(ctx: &mut Ctx, what: &str, got: Vec<u64>, want: Vec<u64>) {
    ctx.case(what);
    assert_eq!(got, want, "{what}: the function saw other arguments");
}
fn moved<T: Object>(v: &T) -> T {
    let mut s = Serializer::new();
    s.serialize(v);
    let mut d = Deserializer::new(s.into_vec(), Vec::new());
    unsafe { d.deserialize().unwrap() }
}
''')
def tup(xs):
    return '(' + ''.join(f'{x},' for x in xs) + ')'
def args(xs):
    return ', '.join(xs)
for n in range(0, 21):
    a = [f'a{i}' for i in range(n)]
    sig = args(f'a{i}: u64' for i in range(n))
    w(f'#[func]\nfn v{n}({sig}) -> Vec<u64> {{ vec![{args(a)}] }}')
    w(f'fn p{n}({sig}) -> Vec<u64> {{ vec![{args(a)}] }}')
    if n:
        rest = ''.join(f', a{i}: u64' for i in range(1, n))
        w(f'#[func]\nfn m{n}(a0: &mut u64{rest}) -> Vec<u64> {{ *a0 += 1000; vec![{args(["*a0"] + a[1:])}] }}')
        w(f'#[func]\nfn r{n}(a0: &u64{rest}) -> Vec<u64> {{ vec![{args(["*a0"] + a[1:])}] }}')
        srest = ''.join(f', a{i}: u64' for i in range(1, n))
        w(f'#[func]\nfn s{n}(a0: String{srest}) -> Vec<u64> {{ vec![{args(["a0.parse().unwrap()"] + a[1:])}] }}')
def body(name, f):
    w(f'fn {name}(ctx: &mut Ctx) {{')
    f()
    w('}')
def val():
    for n in range(0, 21):
        xs = [str(11 + i) for i in range(n)]
        W = f'vec![{args(xs)}]'
        t = tup(xs)
        w(f'    eq(ctx, "v{n} once", v{n}.call_object_once({t}), {W});')
        w(f'    {{ let mut f = v{n}; eq(ctx, "v{n} mut", f.call_object_mut({t}), {W}); eq(ctx, "v{n} mut again", f.call_object_mut({t}), {W}); }}')
        w(f'    eq(ctx, "v{n} shared", v{n}.call_object({t}), {W});')
        if n:
            T = tup(['u64'] * (n - 1))
            r = tup(xs[1:])
            b = f'BindValue::<u64, {T}>::bind_value(v{n}, 11)'
            w(f'    eq(ctx, "bind_value v{n} once", {b}.call_object_once({r}), {W});')
            w(f'    {{ let mut f = {b}; for i in 0..2 {{ eq(ctx, &format!("bind_value v{n} mut {{i}}"), f.call_object_mut({r}), {W}); }} }}')
            w(f'    {{ let f = {b}; for i in 0..2 {{ eq(ctx, &format!("bind_value v{n} shared {{i}}"), f.call_object({r}), {W}); }} }}')
            w(f'    {{ let f = moved(&{b}); eq(ctx, "moved bind_value v{n}", f.call_object_once({r}), {W}); }}')
            w(f'    eq(ctx, "bind_value s{n} once", BindValue::<String, {T}>::bind_value(s{n}, "11".to_string()).call_object_once({r}), {W});')
body('by_value', val)
def mut():
    for n in range(1, 21):
        xs = [str(11 + i) for i in range(n)]
        T = tup(['u64'] * (n - 1))
        r = tup(xs[1:])
        b = f'BindMut::<u64, {T}>::bind_mut(m{n}, 11)'
        def W(k): return f'vec![{args([str(11 + 1000 * k)] + xs[1:])}]'
        w(f'    eq(ctx, "bind_mut m{n} once", {b}.call_object_once({r}), {W(1)});')
        w(f'    {{ let mut f = {b}; eq(ctx, "bind_mut m{n} 1", f.call_object_mut({r}), {W(1)}); eq(ctx, "bind_mut m{n} 2", f.call_object_mut({r}), {W(2)}); assert_eq!(f.head, 2011); let mut g = moved(&f); eq(ctx, "moved bind_mut m{n}", g.call_object_mut({r}), {W(3)}); eq(ctx, "bind_mut m{n} last", f.call_object_once({r}), {W(3)}); }}')
body('by_mut', mut)
def ref():
    for n in range(1, 21):
        xs = [str(11 + i) for i in range(n)]
        T = tup(['u64'] * (n - 1))
        r = tup(xs[1:])
        W = f'vec![{args(xs)}]'
        b = f'BindRef::<u64, {T}>::bind_ref(r{n}, 11)'
        w(f'    eq(ctx, "bind_ref r{n} once", {b}.call_object_once({r}), {W});')
        w(f'    {{ let mut f = {b}; for i in 0..2 {{ eq(ctx, &format!("bind_ref r{n} mut {{i}}"), f.call_object_mut({r}), {W}); }} let g = moved(&f); for i in 0..2 {{ eq(ctx, &format!("bind_ref r{n} shared {{i}}"), g.call_object({r}), {W}); }} }}')
body('by_ref', ref)
def ch():
    for n in (2, 3, 5, 8, 13, 20):
        xs = [str(11 + i) for i in range(n)]
        W = f'vec![{args(xs)}]'
        for k in sorted({1, 2, n // 2, n - 1, n}):
            e = f'v{n}'
            for i in range(k):
                e = f'BindValue::<u64, {tup(["u64"] * (n - 1 - i))}>::bind_value({e}, {xs[i]})'
            r = tup(xs[k:])
            w(f'    {{ let mut f = {e}; eq(ctx, "chain {n}/{k} shared", f.call_object({r}), {W}); eq(ctx, "chain {n}/{k} mut", f.call_object_mut({r}), {W}); let f = moved(&f); eq(ctx, "chain {n}/{k} once", f.call_object_once({r}), {W}); }}')
body('chains', ch)
def sf():
    for n in range(0, 21):
        xs = [str(11 + i) for i in range(n)]
        W = f'vec![{args(xs)}]'
        F = f'fn({args(["u64"] * n)}) -> Vec<u64>'
        t = tup(xs)
        w(f'    {{ let mut f = unsafe {{ StaticFn::<{F}>::new(p{n}) }}; eq(ctx, "static p{n} shared", f.call_object({t}), {W}); eq(ctx, "static p{n} mut", f.call_object_mut({t}), {W}); eq(ctx, "static p{n} once", f.call_object_once({t}), {W}); let g = moved(&f); eq(ctx, "moved static p{n}", g.call_object({t}), {W}); eq(ctx, "get_fn p{n}", (g.get_fn())({args(xs)}), {W}); }}')
body('static_fn', sf)
w('''
fn lambdas(ctx: &mut Ctx) {
    let (a, b, c) = (1u64, "2".to_string(), vec![3u64]);
    let f = lambda! { move(a: u64, b: String, c: Vec<u64>) |d: u64, e: u64| -> Vec<u64> { vec![a, b.parse().unwrap(), c[0], d, e] } };
    let g = moved(&f);
    eq(ctx, "lambda by value", g.call_object_once((4, 5)), vec![1, 2, 3, 4, 5]);
    let (a, b) = (1u64, vec![5u64]);
    let mut f = lambda! { move(a: u64, &mut b: &mut Vec<u64>) |d: u64, e: u64| -> Vec<u64> { b.push(d); let mut r = vec![a, e]; r.extend(b.iter()); r } };
    eq(ctx, "lambda value+mut 1", f.call_object_mut((7, 8)), vec![1, 8, 5, 7]);
    eq(ctx, "lambda value+mut 2", f.call_object_mut((9, 10)), vec![1, 10, 5, 7, 9]);
    let mut f = moved(&f);
    eq(ctx, "lambda value+mut 3", f.call_object_mut((1, 2)), vec![1, 2, 5, 7, 9, 1]);
    let (a, b, c) = (vec![1u64], vec![2u64], 3u64);
    let f = lambda! { move(&a: &Vec<u64>, &b: &Vec<u64>, c: u64) |d: u64| -> Vec<u64> { vec![a[0], b[0], c, d] } };
    for _ in 0..2 { eq(ctx, "lambda ref+ref+value", f.call_object((4,)), vec![1, 2, 3, 4]); }
    let (a, b, c) = (vec![1u64], 2u64, 3u64);
    let mut f = lambda! { move(&mut a: &mut Vec<u64>, &b: &u64, c: u64) || -> Vec<u64> { a.push(*b); let mut r = a.clone(); r.push(c); r } };
    eq(ctx, "lambda mut+ref+value 1", f.call_object_mut(()), vec![1, 2, 3]);
    eq(ctx, "lambda mut+ref+value 2", f.call_object_mut(()), vec![1, 2, 2, 3]);
    eq(ctx, "lambda no captures", lambda! { |x: u64, y: u64| -> Vec<u64> { vec![x, y] } }.call_object((1, 2)), vec![1, 2]);
    eq(ctx, "lambda nothing", lambda! { || -> Vec<u64> { vec![] } }.call_object(()), vec![]);
}

fn boxed(ctx: &mut Ctx) {
    let f: Box<dyn FnObject<(u64, u64), Output = Vec<u64>>> = Box::new(BindValue::<u64, (u64, u64)>::bind_value(v3, 1));
    for _ in 0..2 { eq(ctx, "Box<dyn FnObject>", f.call_object((2, 3)), vec![1, 2, 3]); }
    let f = moved(&f);
    eq(ctx, "moved Box<dyn FnObject>", f.call_object((2, 3)), vec![1, 2, 3]);
    eq(ctx, "Box<dyn FnObject> once", f.call_object_once((2, 3)), vec![1, 2, 3]);
    let mut f: Box<dyn FnMutObject<(u64, u64), Output = Vec<u64>>> = Box::new(BindMut::<u64, (u64, u64)>::bind_mut(m3, 1));
    eq(ctx, "Box<dyn FnMutObject>", f.call_object_mut((2, 3)), vec![1001, 2, 3]);
    let mut f = moved(&f);
    eq(ctx, "moved Box<dyn FnMutObject>", f.call_object_mut((2, 3)), vec![2001, 2, 3]);
    eq(ctx, "Box<dyn FnMutObject> once", f.call_object_once((2, 3)), vec![3001, 2, 3]);
    let f: Box<dyn FnOnceObject<(u64,), Output = Vec<u64>>> = Box::new(BindRef::<u64, (u64,)>::bind_ref(r2, 1));
    let f: Box<dyn FnOnceObject<(u64,), Output = Vec<u64>>> = Box::new(f);
    eq(ctx, "Box<Box<dyn FnOnceObject>>", moved(&f).call_object_once((2,)), vec![1, 2]);
    eq(ctx, "call_object_box", f.call_object_box((2,)), vec![1, 2]);
    let d: &u64 = &*std::mem::ManuallyDrop::new(Box::new(5u64));
    let _ = d;
}
''')
import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '../harness/src/c10.rs'), 'w').write('\n'.join(o))
