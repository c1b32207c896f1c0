//! C10 bound and wrapped functions (generated by tools/gen_c10.py)
#![allow(clippy::all)]
use crate::util::*;
use crate::Case;
use crossmist::{func, lambda, BindMut, BindRef, BindValue, FnMutObject, FnObject, FnOnceObject, Object, Serializer, Deserializer, StaticFn};

pub fn cases() -> Vec<Case> {
    vec![("C10", "value", by_value), ("C10", "mut", by_mut), ("C10", "ref", by_ref), ("C10", "chains", chains), ("C10", "static-fn", static_fn), ("C10", "lambda", lambdas), ("C10", "boxed", boxed)]
}
fn eq(ctx: &mut Ctx, what: &str, got: Vec<u64>, want: Vec<u64>) {
    ctx.case(what);
    assert_eq!(got, want, "{what}: the function saw other arguments");
}
fn moved<T: Object>(v: &T) -> T {
    let mut s = Serializer::new();
    s.serialize(v);
    let mut d = Deserializer::new(s.into_vec(), Vec::new());
    unsafe { d.deserialize().unwrap() }
}

#[func]
fn v0() -> Vec<u64> { vec![] }
fn p0() -> Vec<u64> { vec![] }
#[func]
fn v1(a0: u64) -> Vec<u64> { vec![a0] }
fn p1(a0: u64) -> Vec<u64> { vec![a0] }
#[func]
fn m1(a0: &mut u64) -> Vec<u64> { *a0 += 1000; vec![*a0] }
#[func]
fn r1(a0: &u64) -> Vec<u64> { vec![*a0] }
#[func]
fn s1(a0: String) -> Vec<u64> { vec![a0.parse().unwrap()] }
#[func]
fn v2(a0: u64, a1: u64) -> Vec<u64> { vec![a0, a1] }
fn p2(a0: u64, a1: u64) -> Vec<u64> { vec![a0, a1] }
#[func]
fn m2(a0: &mut u64, a1: u64) -> Vec<u64> { *a0 += 1000; vec![*a0, a1] }
#[func]
fn r2(a0: &u64, a1: u64) -> Vec<u64> { vec![*a0, a1] }
#[func]
fn s2(a0: String, a1: u64) -> Vec<u64> { vec![a0.parse().unwrap(), a1] }
#[func]
fn v3(a0: u64, a1: u64, a2: u64) -> Vec<u64> { vec![a0, a1, a2] }
fn p3(a0: u64, a1: u64, a2: u64) -> Vec<u64> { vec![a0, a1, a2] }
#[func]
fn m3(a0: &mut u64, a1: u64, a2: u64) -> Vec<u64> { *a0 += 1000; vec![*a0, a1, a2] }
#[func]
fn r3(a0: &u64, a1: u64, a2: u64) -> Vec<u64> { vec![*a0, a1, a2] }
#[func]
fn s3(a0: String, a1: u64, a2: u64) -> Vec<u64> { vec![a0.parse().unwrap(), a1, a2] }
#[func]
fn v4(a0: u64, a1: u64, a2: u64, a3: u64) -> Vec<u64> { vec![a0, a1, a2, a3] }
fn p4(a0: u64, a1: u64, a2: u64, a3: u64) -> Vec<u64> { vec![a0, a1, a2, a3] }
#[func]
fn m4(a0: &mut u64, a1: u64, a2: u64, a3: u64) -> Vec<u64> { *a0 += 1000; vec![*a0, a1, a2, a3] }
#[func]
fn r4(a0: &u64, a1: u64, a2: u64, a3: u64) -> Vec<u64> { vec![*a0, a1, a2, a3] }
#[func]
fn s4(a0: String, a1: u64, a2: u64, a3: u64) -> Vec<u64> { vec![a0.parse().unwrap(), a1, a2, a3] }
#[func]
fn v5(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4] }
fn p5(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4] }
#[func]
fn m5(a0: &mut u64, a1: u64, a2: u64, a3: u64, a4: u64) -> Vec<u64> { *a0 += 1000; vec![*a0, a1, a2, a3, a4] }
#[func]
fn r5(a0: &u64, a1: u64, a2: u64, a3: u64, a4: u64) -> Vec<u64> { vec![*a0, a1, a2, a3, a4] }
#[func]
fn s5(a0: String, a1: u64, a2: u64, a3: u64, a4: u64) -> Vec<u64> { vec![a0.parse().unwrap(), a1, a2, a3, a4] }
#[func]
fn v6(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4, a5] }
fn p6(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4, a5] }
#[func]
fn m6(a0: &mut u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64) -> Vec<u64> { *a0 += 1000; vec![*a0, a1, a2, a3, a4, a5] }
#[func]
fn r6(a0: &u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64) -> Vec<u64> { vec![*a0, a1, a2, a3, a4, a5] }
#[func]
fn s6(a0: String, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64) -> Vec<u64> { vec![a0.parse().unwrap(), a1, a2, a3, a4, a5] }
#[func]
fn v7(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4, a5, a6] }
fn p7(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4, a5, a6] }
#[func]
fn m7(a0: &mut u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64) -> Vec<u64> { *a0 += 1000; vec![*a0, a1, a2, a3, a4, a5, a6] }
#[func]
fn r7(a0: &u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64) -> Vec<u64> { vec![*a0, a1, a2, a3, a4, a5, a6] }
#[func]
fn s7(a0: String, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64) -> Vec<u64> { vec![a0.parse().unwrap(), a1, a2, a3, a4, a5, a6] }
#[func]
fn v8(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4, a5, a6, a7] }
fn p8(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4, a5, a6, a7] }
#[func]
fn m8(a0: &mut u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64) -> Vec<u64> { *a0 += 1000; vec![*a0, a1, a2, a3, a4, a5, a6, a7] }
#[func]
fn r8(a0: &u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64) -> Vec<u64> { vec![*a0, a1, a2, a3, a4, a5, a6, a7] }
#[func]
fn s8(a0: String, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64) -> Vec<u64> { vec![a0.parse().unwrap(), a1, a2, a3, a4, a5, a6, a7] }
#[func]
fn v9(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4, a5, a6, a7, a8] }
fn p9(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4, a5, a6, a7, a8] }
#[func]
fn m9(a0: &mut u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64) -> Vec<u64> { *a0 += 1000; vec![*a0, a1, a2, a3, a4, a5, a6, a7, a8] }
#[func]
fn r9(a0: &u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64) -> Vec<u64> { vec![*a0, a1, a2, a3, a4, a5, a6, a7, a8] }
#[func]
fn s9(a0: String, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64) -> Vec<u64> { vec![a0.parse().unwrap(), a1, a2, a3, a4, a5, a6, a7, a8] }
#[func]
fn v10(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9] }
fn p10(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9] }
#[func]
fn m10(a0: &mut u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64) -> Vec<u64> { *a0 += 1000; vec![*a0, a1, a2, a3, a4, a5, a6, a7, a8, a9] }
#[func]
fn r10(a0: &u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64) -> Vec<u64> { vec![*a0, a1, a2, a3, a4, a5, a6, a7, a8, a9] }
#[func]
fn s10(a0: String, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64) -> Vec<u64> { vec![a0.parse().unwrap(), a1, a2, a3, a4, a5, a6, a7, a8, a9] }
#[func]
fn v11(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10] }
fn p11(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10] }
#[func]
fn m11(a0: &mut u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64) -> Vec<u64> { *a0 += 1000; vec![*a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10] }
#[func]
fn r11(a0: &u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64) -> Vec<u64> { vec![*a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10] }
#[func]
fn s11(a0: String, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64) -> Vec<u64> { vec![a0.parse().unwrap(), a1, a2, a3, a4, a5, a6, a7, a8, a9, a10] }
#[func]
fn v12(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11] }
fn p12(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11] }
#[func]
fn m12(a0: &mut u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64) -> Vec<u64> { *a0 += 1000; vec![*a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11] }
#[func]
fn r12(a0: &u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64) -> Vec<u64> { vec![*a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11] }
#[func]
fn s12(a0: String, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64) -> Vec<u64> { vec![a0.parse().unwrap(), a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11] }
#[func]
fn v13(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12] }
fn p13(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12] }
#[func]
fn m13(a0: &mut u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64) -> Vec<u64> { *a0 += 1000; vec![*a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12] }
#[func]
fn r13(a0: &u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64) -> Vec<u64> { vec![*a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12] }
#[func]
fn s13(a0: String, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64) -> Vec<u64> { vec![a0.parse().unwrap(), a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12] }
#[func]
fn v14(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13] }
fn p14(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13] }
#[func]
fn m14(a0: &mut u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64) -> Vec<u64> { *a0 += 1000; vec![*a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13] }
#[func]
fn r14(a0: &u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64) -> Vec<u64> { vec![*a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13] }
#[func]
fn s14(a0: String, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64) -> Vec<u64> { vec![a0.parse().unwrap(), a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13] }
#[func]
fn v15(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14] }
fn p15(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14] }
#[func]
fn m15(a0: &mut u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64) -> Vec<u64> { *a0 += 1000; vec![*a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14] }
#[func]
fn r15(a0: &u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64) -> Vec<u64> { vec![*a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14] }
#[func]
fn s15(a0: String, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64) -> Vec<u64> { vec![a0.parse().unwrap(), a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14] }
#[func]
fn v16(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15] }
fn p16(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15] }
#[func]
fn m16(a0: &mut u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64) -> Vec<u64> { *a0 += 1000; vec![*a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15] }
#[func]
fn r16(a0: &u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64) -> Vec<u64> { vec![*a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15] }
#[func]
fn s16(a0: String, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64) -> Vec<u64> { vec![a0.parse().unwrap(), a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15] }
#[func]
fn v17(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64, a16: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16] }
fn p17(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64, a16: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16] }
#[func]
fn m17(a0: &mut u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64, a16: u64) -> Vec<u64> { *a0 += 1000; vec![*a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16] }
#[func]
fn r17(a0: &u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64, a16: u64) -> Vec<u64> { vec![*a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16] }
#[func]
fn s17(a0: String, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64, a16: u64) -> Vec<u64> { vec![a0.parse().unwrap(), a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16] }
#[func]
fn v18(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64, a16: u64, a17: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17] }
fn p18(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64, a16: u64, a17: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17] }
#[func]
fn m18(a0: &mut u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64, a16: u64, a17: u64) -> Vec<u64> { *a0 += 1000; vec![*a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17] }
#[func]
fn r18(a0: &u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64, a16: u64, a17: u64) -> Vec<u64> { vec![*a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17] }
#[func]
fn s18(a0: String, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64, a16: u64, a17: u64) -> Vec<u64> { vec![a0.parse().unwrap(), a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17] }
#[func]
fn v19(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64, a16: u64, a17: u64, a18: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18] }
fn p19(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64, a16: u64, a17: u64, a18: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18] }
#[func]
fn m19(a0: &mut u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64, a16: u64, a17: u64, a18: u64) -> Vec<u64> { *a0 += 1000; vec![*a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18] }
#[func]
fn r19(a0: &u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64, a16: u64, a17: u64, a18: u64) -> Vec<u64> { vec![*a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18] }
#[func]
fn s19(a0: String, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64, a16: u64, a17: u64, a18: u64) -> Vec<u64> { vec![a0.parse().unwrap(), a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18] }
#[func]
fn v20(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64, a16: u64, a17: u64, a18: u64, a19: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19] }
fn p20(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64, a16: u64, a17: u64, a18: u64, a19: u64) -> Vec<u64> { vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19] }
#[func]
fn m20(a0: &mut u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64, a16: u64, a17: u64, a18: u64, a19: u64) -> Vec<u64> { *a0 += 1000; vec![*a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19] }
#[func]
fn r20(a0: &u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64, a16: u64, a17: u64, a18: u64, a19: u64) -> Vec<u64> { vec![*a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19] }
#[func]
fn s20(a0: String, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64, a16: u64, a17: u64, a18: u64, a19: u64) -> Vec<u64> { vec![a0.parse().unwrap(), a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19] }
fn by_value(ctx: &mut Ctx) {
    eq(ctx, "v0 once", v0.call_object_once(()), vec![]);
    { let mut f = v0; eq(ctx, "v0 mut", f.call_object_mut(()), vec![]); eq(ctx, "v0 mut again", f.call_object_mut(()), vec![]); }
    eq(ctx, "v0 shared", v0.call_object(()), vec![]);
    eq(ctx, "v1 once", v1.call_object_once((11,)), vec![11]);
    { let mut f = v1; eq(ctx, "v1 mut", f.call_object_mut((11,)), vec![11]); eq(ctx, "v1 mut again", f.call_object_mut((11,)), vec![11]); }
    eq(ctx, "v1 shared", v1.call_object((11,)), vec![11]);
    eq(ctx, "bind_value v1 once", BindValue::<u64, ()>::bind_value(v1, 11).call_object_once(()), vec![11]);
    { let mut f = BindValue::<u64, ()>::bind_value(v1, 11); for i in 0..2 { eq(ctx, &format!("bind_value v1 mut {i}"), f.call_object_mut(()), vec![11]); } }
    { let f = BindValue::<u64, ()>::bind_value(v1, 11); for i in 0..2 { eq(ctx, &format!("bind_value v1 shared {i}"), f.call_object(()), vec![11]); } }
    { let f = moved(&BindValue::<u64, ()>::bind_value(v1, 11)); eq(ctx, "moved bind_value v1", f.call_object_once(()), vec![11]); }
    eq(ctx, "bind_value s1 once", BindValue::<String, ()>::bind_value(s1, "11".to_string()).call_object_once(()), vec![11]);
    eq(ctx, "v2 once", v2.call_object_once((11,12,)), vec![11, 12]);
    { let mut f = v2; eq(ctx, "v2 mut", f.call_object_mut((11,12,)), vec![11, 12]); eq(ctx, "v2 mut again", f.call_object_mut((11,12,)), vec![11, 12]); }
    eq(ctx, "v2 shared", v2.call_object((11,12,)), vec![11, 12]);
    eq(ctx, "bind_value v2 once", BindValue::<u64, (u64,)>::bind_value(v2, 11).call_object_once((12,)), vec![11, 12]);
    { let mut f = BindValue::<u64, (u64,)>::bind_value(v2, 11); for i in 0..2 { eq(ctx, &format!("bind_value v2 mut {i}"), f.call_object_mut((12,)), vec![11, 12]); } }
    { let f = BindValue::<u64, (u64,)>::bind_value(v2, 11); for i in 0..2 { eq(ctx, &format!("bind_value v2 shared {i}"), f.call_object((12,)), vec![11, 12]); } }
    { let f = moved(&BindValue::<u64, (u64,)>::bind_value(v2, 11)); eq(ctx, "moved bind_value v2", f.call_object_once((12,)), vec![11, 12]); }
    eq(ctx, "bind_value s2 once", BindValue::<String, (u64,)>::bind_value(s2, "11".to_string()).call_object_once((12,)), vec![11, 12]);
    eq(ctx, "v3 once", v3.call_object_once((11,12,13,)), vec![11, 12, 13]);
    { let mut f = v3; eq(ctx, "v3 mut", f.call_object_mut((11,12,13,)), vec![11, 12, 13]); eq(ctx, "v3 mut again", f.call_object_mut((11,12,13,)), vec![11, 12, 13]); }
    eq(ctx, "v3 shared", v3.call_object((11,12,13,)), vec![11, 12, 13]);
    eq(ctx, "bind_value v3 once", BindValue::<u64, (u64,u64,)>::bind_value(v3, 11).call_object_once((12,13,)), vec![11, 12, 13]);
    { let mut f = BindValue::<u64, (u64,u64,)>::bind_value(v3, 11); for i in 0..2 { eq(ctx, &format!("bind_value v3 mut {i}"), f.call_object_mut((12,13,)), vec![11, 12, 13]); } }
    { let f = BindValue::<u64, (u64,u64,)>::bind_value(v3, 11); for i in 0..2 { eq(ctx, &format!("bind_value v3 shared {i}"), f.call_object((12,13,)), vec![11, 12, 13]); } }
    { let f = moved(&BindValue::<u64, (u64,u64,)>::bind_value(v3, 11)); eq(ctx, "moved bind_value v3", f.call_object_once((12,13,)), vec![11, 12, 13]); }
    eq(ctx, "bind_value s3 once", BindValue::<String, (u64,u64,)>::bind_value(s3, "11".to_string()).call_object_once((12,13,)), vec![11, 12, 13]);
    eq(ctx, "v4 once", v4.call_object_once((11,12,13,14,)), vec![11, 12, 13, 14]);
    { let mut f = v4; eq(ctx, "v4 mut", f.call_object_mut((11,12,13,14,)), vec![11, 12, 13, 14]); eq(ctx, "v4 mut again", f.call_object_mut((11,12,13,14,)), vec![11, 12, 13, 14]); }
    eq(ctx, "v4 shared", v4.call_object((11,12,13,14,)), vec![11, 12, 13, 14]);
    eq(ctx, "bind_value v4 once", BindValue::<u64, (u64,u64,u64,)>::bind_value(v4, 11).call_object_once((12,13,14,)), vec![11, 12, 13, 14]);
    { let mut f = BindValue::<u64, (u64,u64,u64,)>::bind_value(v4, 11); for i in 0..2 { eq(ctx, &format!("bind_value v4 mut {i}"), f.call_object_mut((12,13,14,)), vec![11, 12, 13, 14]); } }
    { let f = BindValue::<u64, (u64,u64,u64,)>::bind_value(v4, 11); for i in 0..2 { eq(ctx, &format!("bind_value v4 shared {i}"), f.call_object((12,13,14,)), vec![11, 12, 13, 14]); } }
    { let f = moved(&BindValue::<u64, (u64,u64,u64,)>::bind_value(v4, 11)); eq(ctx, "moved bind_value v4", f.call_object_once((12,13,14,)), vec![11, 12, 13, 14]); }
    eq(ctx, "bind_value s4 once", BindValue::<String, (u64,u64,u64,)>::bind_value(s4, "11".to_string()).call_object_once((12,13,14,)), vec![11, 12, 13, 14]);
    eq(ctx, "v5 once", v5.call_object_once((11,12,13,14,15,)), vec![11, 12, 13, 14, 15]);
    { let mut f = v5; eq(ctx, "v5 mut", f.call_object_mut((11,12,13,14,15,)), vec![11, 12, 13, 14, 15]); eq(ctx, "v5 mut again", f.call_object_mut((11,12,13,14,15,)), vec![11, 12, 13, 14, 15]); }
    eq(ctx, "v5 shared", v5.call_object((11,12,13,14,15,)), vec![11, 12, 13, 14, 15]);
    eq(ctx, "bind_value v5 once", BindValue::<u64, (u64,u64,u64,u64,)>::bind_value(v5, 11).call_object_once((12,13,14,15,)), vec![11, 12, 13, 14, 15]);
    { let mut f = BindValue::<u64, (u64,u64,u64,u64,)>::bind_value(v5, 11); for i in 0..2 { eq(ctx, &format!("bind_value v5 mut {i}"), f.call_object_mut((12,13,14,15,)), vec![11, 12, 13, 14, 15]); } }
    { let f = BindValue::<u64, (u64,u64,u64,u64,)>::bind_value(v5, 11); for i in 0..2 { eq(ctx, &format!("bind_value v5 shared {i}"), f.call_object((12,13,14,15,)), vec![11, 12, 13, 14, 15]); } }
    { let f = moved(&BindValue::<u64, (u64,u64,u64,u64,)>::bind_value(v5, 11)); eq(ctx, "moved bind_value v5", f.call_object_once((12,13,14,15,)), vec![11, 12, 13, 14, 15]); }
    eq(ctx, "bind_value s5 once", BindValue::<String, (u64,u64,u64,u64,)>::bind_value(s5, "11".to_string()).call_object_once((12,13,14,15,)), vec![11, 12, 13, 14, 15]);
    eq(ctx, "v6 once", v6.call_object_once((11,12,13,14,15,16,)), vec![11, 12, 13, 14, 15, 16]);
    { let mut f = v6; eq(ctx, "v6 mut", f.call_object_mut((11,12,13,14,15,16,)), vec![11, 12, 13, 14, 15, 16]); eq(ctx, "v6 mut again", f.call_object_mut((11,12,13,14,15,16,)), vec![11, 12, 13, 14, 15, 16]); }
    eq(ctx, "v6 shared", v6.call_object((11,12,13,14,15,16,)), vec![11, 12, 13, 14, 15, 16]);
    eq(ctx, "bind_value v6 once", BindValue::<u64, (u64,u64,u64,u64,u64,)>::bind_value(v6, 11).call_object_once((12,13,14,15,16,)), vec![11, 12, 13, 14, 15, 16]);
    { let mut f = BindValue::<u64, (u64,u64,u64,u64,u64,)>::bind_value(v6, 11); for i in 0..2 { eq(ctx, &format!("bind_value v6 mut {i}"), f.call_object_mut((12,13,14,15,16,)), vec![11, 12, 13, 14, 15, 16]); } }
    { let f = BindValue::<u64, (u64,u64,u64,u64,u64,)>::bind_value(v6, 11); for i in 0..2 { eq(ctx, &format!("bind_value v6 shared {i}"), f.call_object((12,13,14,15,16,)), vec![11, 12, 13, 14, 15, 16]); } }
    { let f = moved(&BindValue::<u64, (u64,u64,u64,u64,u64,)>::bind_value(v6, 11)); eq(ctx, "moved bind_value v6", f.call_object_once((12,13,14,15,16,)), vec![11, 12, 13, 14, 15, 16]); }
    eq(ctx, "bind_value s6 once", BindValue::<String, (u64,u64,u64,u64,u64,)>::bind_value(s6, "11".to_string()).call_object_once((12,13,14,15,16,)), vec![11, 12, 13, 14, 15, 16]);
    eq(ctx, "v7 once", v7.call_object_once((11,12,13,14,15,16,17,)), vec![11, 12, 13, 14, 15, 16, 17]);
    { let mut f = v7; eq(ctx, "v7 mut", f.call_object_mut((11,12,13,14,15,16,17,)), vec![11, 12, 13, 14, 15, 16, 17]); eq(ctx, "v7 mut again", f.call_object_mut((11,12,13,14,15,16,17,)), vec![11, 12, 13, 14, 15, 16, 17]); }
    eq(ctx, "v7 shared", v7.call_object((11,12,13,14,15,16,17,)), vec![11, 12, 13, 14, 15, 16, 17]);
    eq(ctx, "bind_value v7 once", BindValue::<u64, (u64,u64,u64,u64,u64,u64,)>::bind_value(v7, 11).call_object_once((12,13,14,15,16,17,)), vec![11, 12, 13, 14, 15, 16, 17]);
    { let mut f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,)>::bind_value(v7, 11); for i in 0..2 { eq(ctx, &format!("bind_value v7 mut {i}"), f.call_object_mut((12,13,14,15,16,17,)), vec![11, 12, 13, 14, 15, 16, 17]); } }
    { let f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,)>::bind_value(v7, 11); for i in 0..2 { eq(ctx, &format!("bind_value v7 shared {i}"), f.call_object((12,13,14,15,16,17,)), vec![11, 12, 13, 14, 15, 16, 17]); } }
    { let f = moved(&BindValue::<u64, (u64,u64,u64,u64,u64,u64,)>::bind_value(v7, 11)); eq(ctx, "moved bind_value v7", f.call_object_once((12,13,14,15,16,17,)), vec![11, 12, 13, 14, 15, 16, 17]); }
    eq(ctx, "bind_value s7 once", BindValue::<String, (u64,u64,u64,u64,u64,u64,)>::bind_value(s7, "11".to_string()).call_object_once((12,13,14,15,16,17,)), vec![11, 12, 13, 14, 15, 16, 17]);
    eq(ctx, "v8 once", v8.call_object_once((11,12,13,14,15,16,17,18,)), vec![11, 12, 13, 14, 15, 16, 17, 18]);
    { let mut f = v8; eq(ctx, "v8 mut", f.call_object_mut((11,12,13,14,15,16,17,18,)), vec![11, 12, 13, 14, 15, 16, 17, 18]); eq(ctx, "v8 mut again", f.call_object_mut((11,12,13,14,15,16,17,18,)), vec![11, 12, 13, 14, 15, 16, 17, 18]); }
    eq(ctx, "v8 shared", v8.call_object((11,12,13,14,15,16,17,18,)), vec![11, 12, 13, 14, 15, 16, 17, 18]);
    eq(ctx, "bind_value v8 once", BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v8, 11).call_object_once((12,13,14,15,16,17,18,)), vec![11, 12, 13, 14, 15, 16, 17, 18]);
    { let mut f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v8, 11); for i in 0..2 { eq(ctx, &format!("bind_value v8 mut {i}"), f.call_object_mut((12,13,14,15,16,17,18,)), vec![11, 12, 13, 14, 15, 16, 17, 18]); } }
    { let f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v8, 11); for i in 0..2 { eq(ctx, &format!("bind_value v8 shared {i}"), f.call_object((12,13,14,15,16,17,18,)), vec![11, 12, 13, 14, 15, 16, 17, 18]); } }
    { let f = moved(&BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v8, 11)); eq(ctx, "moved bind_value v8", f.call_object_once((12,13,14,15,16,17,18,)), vec![11, 12, 13, 14, 15, 16, 17, 18]); }
    eq(ctx, "bind_value s8 once", BindValue::<String, (u64,u64,u64,u64,u64,u64,u64,)>::bind_value(s8, "11".to_string()).call_object_once((12,13,14,15,16,17,18,)), vec![11, 12, 13, 14, 15, 16, 17, 18]);
    eq(ctx, "v9 once", v9.call_object_once((11,12,13,14,15,16,17,18,19,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19]);
    { let mut f = v9; eq(ctx, "v9 mut", f.call_object_mut((11,12,13,14,15,16,17,18,19,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19]); eq(ctx, "v9 mut again", f.call_object_mut((11,12,13,14,15,16,17,18,19,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19]); }
    eq(ctx, "v9 shared", v9.call_object((11,12,13,14,15,16,17,18,19,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19]);
    eq(ctx, "bind_value v9 once", BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v9, 11).call_object_once((12,13,14,15,16,17,18,19,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19]);
    { let mut f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v9, 11); for i in 0..2 { eq(ctx, &format!("bind_value v9 mut {i}"), f.call_object_mut((12,13,14,15,16,17,18,19,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19]); } }
    { let f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v9, 11); for i in 0..2 { eq(ctx, &format!("bind_value v9 shared {i}"), f.call_object((12,13,14,15,16,17,18,19,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19]); } }
    { let f = moved(&BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v9, 11)); eq(ctx, "moved bind_value v9", f.call_object_once((12,13,14,15,16,17,18,19,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19]); }
    eq(ctx, "bind_value s9 once", BindValue::<String, (u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(s9, "11".to_string()).call_object_once((12,13,14,15,16,17,18,19,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19]);
    eq(ctx, "v10 once", v10.call_object_once((11,12,13,14,15,16,17,18,19,20,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20]);
    { let mut f = v10; eq(ctx, "v10 mut", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20]); eq(ctx, "v10 mut again", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20]); }
    eq(ctx, "v10 shared", v10.call_object((11,12,13,14,15,16,17,18,19,20,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20]);
    eq(ctx, "bind_value v10 once", BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v10, 11).call_object_once((12,13,14,15,16,17,18,19,20,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20]);
    { let mut f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v10, 11); for i in 0..2 { eq(ctx, &format!("bind_value v10 mut {i}"), f.call_object_mut((12,13,14,15,16,17,18,19,20,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20]); } }
    { let f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v10, 11); for i in 0..2 { eq(ctx, &format!("bind_value v10 shared {i}"), f.call_object((12,13,14,15,16,17,18,19,20,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20]); } }
    { let f = moved(&BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v10, 11)); eq(ctx, "moved bind_value v10", f.call_object_once((12,13,14,15,16,17,18,19,20,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20]); }
    eq(ctx, "bind_value s10 once", BindValue::<String, (u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(s10, "11".to_string()).call_object_once((12,13,14,15,16,17,18,19,20,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20]);
    eq(ctx, "v11 once", v11.call_object_once((11,12,13,14,15,16,17,18,19,20,21,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21]);
    { let mut f = v11; eq(ctx, "v11 mut", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,21,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21]); eq(ctx, "v11 mut again", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,21,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21]); }
    eq(ctx, "v11 shared", v11.call_object((11,12,13,14,15,16,17,18,19,20,21,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21]);
    eq(ctx, "bind_value v11 once", BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v11, 11).call_object_once((12,13,14,15,16,17,18,19,20,21,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21]);
    { let mut f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v11, 11); for i in 0..2 { eq(ctx, &format!("bind_value v11 mut {i}"), f.call_object_mut((12,13,14,15,16,17,18,19,20,21,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21]); } }
    { let f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v11, 11); for i in 0..2 { eq(ctx, &format!("bind_value v11 shared {i}"), f.call_object((12,13,14,15,16,17,18,19,20,21,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21]); } }
    { let f = moved(&BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v11, 11)); eq(ctx, "moved bind_value v11", f.call_object_once((12,13,14,15,16,17,18,19,20,21,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21]); }
    eq(ctx, "bind_value s11 once", BindValue::<String, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(s11, "11".to_string()).call_object_once((12,13,14,15,16,17,18,19,20,21,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21]);
    eq(ctx, "v12 once", v12.call_object_once((11,12,13,14,15,16,17,18,19,20,21,22,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22]);
    { let mut f = v12; eq(ctx, "v12 mut", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,21,22,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22]); eq(ctx, "v12 mut again", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,21,22,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22]); }
    eq(ctx, "v12 shared", v12.call_object((11,12,13,14,15,16,17,18,19,20,21,22,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22]);
    eq(ctx, "bind_value v12 once", BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v12, 11).call_object_once((12,13,14,15,16,17,18,19,20,21,22,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22]);
    { let mut f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v12, 11); for i in 0..2 { eq(ctx, &format!("bind_value v12 mut {i}"), f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22]); } }
    { let f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v12, 11); for i in 0..2 { eq(ctx, &format!("bind_value v12 shared {i}"), f.call_object((12,13,14,15,16,17,18,19,20,21,22,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22]); } }
    { let f = moved(&BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v12, 11)); eq(ctx, "moved bind_value v12", f.call_object_once((12,13,14,15,16,17,18,19,20,21,22,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22]); }
    eq(ctx, "bind_value s12 once", BindValue::<String, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(s12, "11".to_string()).call_object_once((12,13,14,15,16,17,18,19,20,21,22,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22]);
    eq(ctx, "v13 once", v13.call_object_once((11,12,13,14,15,16,17,18,19,20,21,22,23,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]);
    { let mut f = v13; eq(ctx, "v13 mut", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,21,22,23,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]); eq(ctx, "v13 mut again", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,21,22,23,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]); }
    eq(ctx, "v13 shared", v13.call_object((11,12,13,14,15,16,17,18,19,20,21,22,23,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]);
    eq(ctx, "bind_value v13 once", BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v13, 11).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]);
    { let mut f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v13, 11); for i in 0..2 { eq(ctx, &format!("bind_value v13 mut {i}"), f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]); } }
    { let f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v13, 11); for i in 0..2 { eq(ctx, &format!("bind_value v13 shared {i}"), f.call_object((12,13,14,15,16,17,18,19,20,21,22,23,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]); } }
    { let f = moved(&BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v13, 11)); eq(ctx, "moved bind_value v13", f.call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]); }
    eq(ctx, "bind_value s13 once", BindValue::<String, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(s13, "11".to_string()).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]);
    eq(ctx, "v14 once", v14.call_object_once((11,12,13,14,15,16,17,18,19,20,21,22,23,24,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24]);
    { let mut f = v14; eq(ctx, "v14 mut", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,21,22,23,24,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24]); eq(ctx, "v14 mut again", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,21,22,23,24,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24]); }
    eq(ctx, "v14 shared", v14.call_object((11,12,13,14,15,16,17,18,19,20,21,22,23,24,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24]);
    eq(ctx, "bind_value v14 once", BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v14, 11).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24]);
    { let mut f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v14, 11); for i in 0..2 { eq(ctx, &format!("bind_value v14 mut {i}"), f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24]); } }
    { let f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v14, 11); for i in 0..2 { eq(ctx, &format!("bind_value v14 shared {i}"), f.call_object((12,13,14,15,16,17,18,19,20,21,22,23,24,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24]); } }
    { let f = moved(&BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v14, 11)); eq(ctx, "moved bind_value v14", f.call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24]); }
    eq(ctx, "bind_value s14 once", BindValue::<String, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(s14, "11".to_string()).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24]);
    eq(ctx, "v15 once", v15.call_object_once((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25]);
    { let mut f = v15; eq(ctx, "v15 mut", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25]); eq(ctx, "v15 mut again", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25]); }
    eq(ctx, "v15 shared", v15.call_object((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25]);
    eq(ctx, "bind_value v15 once", BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v15, 11).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25]);
    { let mut f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v15, 11); for i in 0..2 { eq(ctx, &format!("bind_value v15 mut {i}"), f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,25,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25]); } }
    { let f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v15, 11); for i in 0..2 { eq(ctx, &format!("bind_value v15 shared {i}"), f.call_object((12,13,14,15,16,17,18,19,20,21,22,23,24,25,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25]); } }
    { let f = moved(&BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v15, 11)); eq(ctx, "moved bind_value v15", f.call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25]); }
    eq(ctx, "bind_value s15 once", BindValue::<String, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(s15, "11".to_string()).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25]);
    eq(ctx, "v16 once", v16.call_object_once((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26]);
    { let mut f = v16; eq(ctx, "v16 mut", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26]); eq(ctx, "v16 mut again", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26]); }
    eq(ctx, "v16 shared", v16.call_object((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26]);
    eq(ctx, "bind_value v16 once", BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v16, 11).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26]);
    { let mut f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v16, 11); for i in 0..2 { eq(ctx, &format!("bind_value v16 mut {i}"), f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26]); } }
    { let f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v16, 11); for i in 0..2 { eq(ctx, &format!("bind_value v16 shared {i}"), f.call_object((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26]); } }
    { let f = moved(&BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v16, 11)); eq(ctx, "moved bind_value v16", f.call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26]); }
    eq(ctx, "bind_value s16 once", BindValue::<String, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(s16, "11".to_string()).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26]);
    eq(ctx, "v17 once", v17.call_object_once((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27]);
    { let mut f = v17; eq(ctx, "v17 mut", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27]); eq(ctx, "v17 mut again", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27]); }
    eq(ctx, "v17 shared", v17.call_object((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27]);
    eq(ctx, "bind_value v17 once", BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v17, 11).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27]);
    { let mut f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v17, 11); for i in 0..2 { eq(ctx, &format!("bind_value v17 mut {i}"), f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27]); } }
    { let f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v17, 11); for i in 0..2 { eq(ctx, &format!("bind_value v17 shared {i}"), f.call_object((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27]); } }
    { let f = moved(&BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v17, 11)); eq(ctx, "moved bind_value v17", f.call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27]); }
    eq(ctx, "bind_value s17 once", BindValue::<String, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(s17, "11".to_string()).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27]);
    eq(ctx, "v18 once", v18.call_object_once((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28]);
    { let mut f = v18; eq(ctx, "v18 mut", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28]); eq(ctx, "v18 mut again", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28]); }
    eq(ctx, "v18 shared", v18.call_object((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28]);
    eq(ctx, "bind_value v18 once", BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v18, 11).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28]);
    { let mut f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v18, 11); for i in 0..2 { eq(ctx, &format!("bind_value v18 mut {i}"), f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28]); } }
    { let f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v18, 11); for i in 0..2 { eq(ctx, &format!("bind_value v18 shared {i}"), f.call_object((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28]); } }
    { let f = moved(&BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v18, 11)); eq(ctx, "moved bind_value v18", f.call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28]); }
    eq(ctx, "bind_value s18 once", BindValue::<String, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(s18, "11".to_string()).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28]);
    eq(ctx, "v19 once", v19.call_object_once((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29]);
    { let mut f = v19; eq(ctx, "v19 mut", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29]); eq(ctx, "v19 mut again", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29]); }
    eq(ctx, "v19 shared", v19.call_object((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29]);
    eq(ctx, "bind_value v19 once", BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v19, 11).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29]);
    { let mut f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v19, 11); for i in 0..2 { eq(ctx, &format!("bind_value v19 mut {i}"), f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29]); } }
    { let f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v19, 11); for i in 0..2 { eq(ctx, &format!("bind_value v19 shared {i}"), f.call_object((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29]); } }
    { let f = moved(&BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v19, 11)); eq(ctx, "moved bind_value v19", f.call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29]); }
    eq(ctx, "bind_value s19 once", BindValue::<String, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(s19, "11".to_string()).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29]);
    eq(ctx, "v20 once", v20.call_object_once((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]);
    { let mut f = v20; eq(ctx, "v20 mut", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]); eq(ctx, "v20 mut again", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]); }
    eq(ctx, "v20 shared", v20.call_object((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]);
    eq(ctx, "bind_value v20 once", BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v20, 11).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]);
    { let mut f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v20, 11); for i in 0..2 { eq(ctx, &format!("bind_value v20 mut {i}"), f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]); } }
    { let f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v20, 11); for i in 0..2 { eq(ctx, &format!("bind_value v20 shared {i}"), f.call_object((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]); } }
    { let f = moved(&BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v20, 11)); eq(ctx, "moved bind_value v20", f.call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]); }
    eq(ctx, "bind_value s20 once", BindValue::<String, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(s20, "11".to_string()).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]);
}
fn by_mut(ctx: &mut Ctx) {
    eq(ctx, "bind_mut m1 once", BindMut::<u64, ()>::bind_mut(m1, 11).call_object_once(()), vec![1011]);
    { let mut f = BindMut::<u64, ()>::bind_mut(m1, 11); eq(ctx, "bind_mut m1 1", f.call_object_mut(()), vec![1011]); eq(ctx, "bind_mut m1 2", f.call_object_mut(()), vec![2011]); assert_eq!(f.head, 2011); let mut g = moved(&f); eq(ctx, "moved bind_mut m1", g.call_object_mut(()), vec![3011]); eq(ctx, "bind_mut m1 last", f.call_object_once(()), vec![3011]); }
    eq(ctx, "bind_mut m2 once", BindMut::<u64, (u64,)>::bind_mut(m2, 11).call_object_once((12,)), vec![1011, 12]);
    { let mut f = BindMut::<u64, (u64,)>::bind_mut(m2, 11); eq(ctx, "bind_mut m2 1", f.call_object_mut((12,)), vec![1011, 12]); eq(ctx, "bind_mut m2 2", f.call_object_mut((12,)), vec![2011, 12]); assert_eq!(f.head, 2011); let mut g = moved(&f); eq(ctx, "moved bind_mut m2", g.call_object_mut((12,)), vec![3011, 12]); eq(ctx, "bind_mut m2 last", f.call_object_once((12,)), vec![3011, 12]); }
    eq(ctx, "bind_mut m3 once", BindMut::<u64, (u64,u64,)>::bind_mut(m3, 11).call_object_once((12,13,)), vec![1011, 12, 13]);
    { let mut f = BindMut::<u64, (u64,u64,)>::bind_mut(m3, 11); eq(ctx, "bind_mut m3 1", f.call_object_mut((12,13,)), vec![1011, 12, 13]); eq(ctx, "bind_mut m3 2", f.call_object_mut((12,13,)), vec![2011, 12, 13]); assert_eq!(f.head, 2011); let mut g = moved(&f); eq(ctx, "moved bind_mut m3", g.call_object_mut((12,13,)), vec![3011, 12, 13]); eq(ctx, "bind_mut m3 last", f.call_object_once((12,13,)), vec![3011, 12, 13]); }
    eq(ctx, "bind_mut m4 once", BindMut::<u64, (u64,u64,u64,)>::bind_mut(m4, 11).call_object_once((12,13,14,)), vec![1011, 12, 13, 14]);
    { let mut f = BindMut::<u64, (u64,u64,u64,)>::bind_mut(m4, 11); eq(ctx, "bind_mut m4 1", f.call_object_mut((12,13,14,)), vec![1011, 12, 13, 14]); eq(ctx, "bind_mut m4 2", f.call_object_mut((12,13,14,)), vec![2011, 12, 13, 14]); assert_eq!(f.head, 2011); let mut g = moved(&f); eq(ctx, "moved bind_mut m4", g.call_object_mut((12,13,14,)), vec![3011, 12, 13, 14]); eq(ctx, "bind_mut m4 last", f.call_object_once((12,13,14,)), vec![3011, 12, 13, 14]); }
    eq(ctx, "bind_mut m5 once", BindMut::<u64, (u64,u64,u64,u64,)>::bind_mut(m5, 11).call_object_once((12,13,14,15,)), vec![1011, 12, 13, 14, 15]);
    { let mut f = BindMut::<u64, (u64,u64,u64,u64,)>::bind_mut(m5, 11); eq(ctx, "bind_mut m5 1", f.call_object_mut((12,13,14,15,)), vec![1011, 12, 13, 14, 15]); eq(ctx, "bind_mut m5 2", f.call_object_mut((12,13,14,15,)), vec![2011, 12, 13, 14, 15]); assert_eq!(f.head, 2011); let mut g = moved(&f); eq(ctx, "moved bind_mut m5", g.call_object_mut((12,13,14,15,)), vec![3011, 12, 13, 14, 15]); eq(ctx, "bind_mut m5 last", f.call_object_once((12,13,14,15,)), vec![3011, 12, 13, 14, 15]); }
    eq(ctx, "bind_mut m6 once", BindMut::<u64, (u64,u64,u64,u64,u64,)>::bind_mut(m6, 11).call_object_once((12,13,14,15,16,)), vec![1011, 12, 13, 14, 15, 16]);
    { let mut f = BindMut::<u64, (u64,u64,u64,u64,u64,)>::bind_mut(m6, 11); eq(ctx, "bind_mut m6 1", f.call_object_mut((12,13,14,15,16,)), vec![1011, 12, 13, 14, 15, 16]); eq(ctx, "bind_mut m6 2", f.call_object_mut((12,13,14,15,16,)), vec![2011, 12, 13, 14, 15, 16]); assert_eq!(f.head, 2011); let mut g = moved(&f); eq(ctx, "moved bind_mut m6", g.call_object_mut((12,13,14,15,16,)), vec![3011, 12, 13, 14, 15, 16]); eq(ctx, "bind_mut m6 last", f.call_object_once((12,13,14,15,16,)), vec![3011, 12, 13, 14, 15, 16]); }
    eq(ctx, "bind_mut m7 once", BindMut::<u64, (u64,u64,u64,u64,u64,u64,)>::bind_mut(m7, 11).call_object_once((12,13,14,15,16,17,)), vec![1011, 12, 13, 14, 15, 16, 17]);
    { let mut f = BindMut::<u64, (u64,u64,u64,u64,u64,u64,)>::bind_mut(m7, 11); eq(ctx, "bind_mut m7 1", f.call_object_mut((12,13,14,15,16,17,)), vec![1011, 12, 13, 14, 15, 16, 17]); eq(ctx, "bind_mut m7 2", f.call_object_mut((12,13,14,15,16,17,)), vec![2011, 12, 13, 14, 15, 16, 17]); assert_eq!(f.head, 2011); let mut g = moved(&f); eq(ctx, "moved bind_mut m7", g.call_object_mut((12,13,14,15,16,17,)), vec![3011, 12, 13, 14, 15, 16, 17]); eq(ctx, "bind_mut m7 last", f.call_object_once((12,13,14,15,16,17,)), vec![3011, 12, 13, 14, 15, 16, 17]); }
    eq(ctx, "bind_mut m8 once", BindMut::<u64, (u64,u64,u64,u64,u64,u64,u64,)>::bind_mut(m8, 11).call_object_once((12,13,14,15,16,17,18,)), vec![1011, 12, 13, 14, 15, 16, 17, 18]);
    { let mut f = BindMut::<u64, (u64,u64,u64,u64,u64,u64,u64,)>::bind_mut(m8, 11); eq(ctx, "bind_mut m8 1", f.call_object_mut((12,13,14,15,16,17,18,)), vec![1011, 12, 13, 14, 15, 16, 17, 18]); eq(ctx, "bind_mut m8 2", f.call_object_mut((12,13,14,15,16,17,18,)), vec![2011, 12, 13, 14, 15, 16, 17, 18]); assert_eq!(f.head, 2011); let mut g = moved(&f); eq(ctx, "moved bind_mut m8", g.call_object_mut((12,13,14,15,16,17,18,)), vec![3011, 12, 13, 14, 15, 16, 17, 18]); eq(ctx, "bind_mut m8 last", f.call_object_once((12,13,14,15,16,17,18,)), vec![3011, 12, 13, 14, 15, 16, 17, 18]); }
    eq(ctx, "bind_mut m9 once", BindMut::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_mut(m9, 11).call_object_once((12,13,14,15,16,17,18,19,)), vec![1011, 12, 13, 14, 15, 16, 17, 18, 19]);
    { let mut f = BindMut::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_mut(m9, 11); eq(ctx, "bind_mut m9 1", f.call_object_mut((12,13,14,15,16,17,18,19,)), vec![1011, 12, 13, 14, 15, 16, 17, 18, 19]); eq(ctx, "bind_mut m9 2", f.call_object_mut((12,13,14,15,16,17,18,19,)), vec![2011, 12, 13, 14, 15, 16, 17, 18, 19]); assert_eq!(f.head, 2011); let mut g = moved(&f); eq(ctx, "moved bind_mut m9", g.call_object_mut((12,13,14,15,16,17,18,19,)), vec![3011, 12, 13, 14, 15, 16, 17, 18, 19]); eq(ctx, "bind_mut m9 last", f.call_object_once((12,13,14,15,16,17,18,19,)), vec![3011, 12, 13, 14, 15, 16, 17, 18, 19]); }
    eq(ctx, "bind_mut m10 once", BindMut::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_mut(m10, 11).call_object_once((12,13,14,15,16,17,18,19,20,)), vec![1011, 12, 13, 14, 15, 16, 17, 18, 19, 20]);
    { let mut f = BindMut::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_mut(m10, 11); eq(ctx, "bind_mut m10 1", f.call_object_mut((12,13,14,15,16,17,18,19,20,)), vec![1011, 12, 13, 14, 15, 16, 17, 18, 19, 20]); eq(ctx, "bind_mut m10 2", f.call_object_mut((12,13,14,15,16,17,18,19,20,)), vec![2011, 12, 13, 14, 15, 16, 17, 18, 19, 20]); assert_eq!(f.head, 2011); let mut g = moved(&f); eq(ctx, "moved bind_mut m10", g.call_object_mut((12,13,14,15,16,17,18,19,20,)), vec![3011, 12, 13, 14, 15, 16, 17, 18, 19, 20]); eq(ctx, "bind_mut m10 last", f.call_object_once((12,13,14,15,16,17,18,19,20,)), vec![3011, 12, 13, 14, 15, 16, 17, 18, 19, 20]); }
    eq(ctx, "bind_mut m11 once", BindMut::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_mut(m11, 11).call_object_once((12,13,14,15,16,17,18,19,20,21,)), vec![1011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21]);
    { let mut f = BindMut::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_mut(m11, 11); eq(ctx, "bind_mut m11 1", f.call_object_mut((12,13,14,15,16,17,18,19,20,21,)), vec![1011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21]); eq(ctx, "bind_mut m11 2", f.call_object_mut((12,13,14,15,16,17,18,19,20,21,)), vec![2011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21]); assert_eq!(f.head, 2011); let mut g = moved(&f); eq(ctx, "moved bind_mut m11", g.call_object_mut((12,13,14,15,16,17,18,19,20,21,)), vec![3011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21]); eq(ctx, "bind_mut m11 last", f.call_object_once((12,13,14,15,16,17,18,19,20,21,)), vec![3011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21]); }
    eq(ctx, "bind_mut m12 once", BindMut::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_mut(m12, 11).call_object_once((12,13,14,15,16,17,18,19,20,21,22,)), vec![1011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22]);
    { let mut f = BindMut::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_mut(m12, 11); eq(ctx, "bind_mut m12 1", f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,)), vec![1011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22]); eq(ctx, "bind_mut m12 2", f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,)), vec![2011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22]); assert_eq!(f.head, 2011); let mut g = moved(&f); eq(ctx, "moved bind_mut m12", g.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,)), vec![3011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22]); eq(ctx, "bind_mut m12 last", f.call_object_once((12,13,14,15,16,17,18,19,20,21,22,)), vec![3011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22]); }
    eq(ctx, "bind_mut m13 once", BindMut::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_mut(m13, 11).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,)), vec![1011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]);
    { let mut f = BindMut::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_mut(m13, 11); eq(ctx, "bind_mut m13 1", f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,)), vec![1011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]); eq(ctx, "bind_mut m13 2", f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,)), vec![2011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]); assert_eq!(f.head, 2011); let mut g = moved(&f); eq(ctx, "moved bind_mut m13", g.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,)), vec![3011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]); eq(ctx, "bind_mut m13 last", f.call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,)), vec![3011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]); }
    eq(ctx, "bind_mut m14 once", BindMut::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_mut(m14, 11).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,)), vec![1011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24]);
    { let mut f = BindMut::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_mut(m14, 11); eq(ctx, "bind_mut m14 1", f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,)), vec![1011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24]); eq(ctx, "bind_mut m14 2", f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,)), vec![2011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24]); assert_eq!(f.head, 2011); let mut g = moved(&f); eq(ctx, "moved bind_mut m14", g.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,)), vec![3011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24]); eq(ctx, "bind_mut m14 last", f.call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,)), vec![3011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24]); }
    eq(ctx, "bind_mut m15 once", BindMut::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_mut(m15, 11).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,)), vec![1011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25]);
    { let mut f = BindMut::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_mut(m15, 11); eq(ctx, "bind_mut m15 1", f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,25,)), vec![1011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25]); eq(ctx, "bind_mut m15 2", f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,25,)), vec![2011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25]); assert_eq!(f.head, 2011); let mut g = moved(&f); eq(ctx, "moved bind_mut m15", g.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,25,)), vec![3011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25]); eq(ctx, "bind_mut m15 last", f.call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,)), vec![3011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25]); }
    eq(ctx, "bind_mut m16 once", BindMut::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_mut(m16, 11).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,)), vec![1011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26]);
    { let mut f = BindMut::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_mut(m16, 11); eq(ctx, "bind_mut m16 1", f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,)), vec![1011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26]); eq(ctx, "bind_mut m16 2", f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,)), vec![2011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26]); assert_eq!(f.head, 2011); let mut g = moved(&f); eq(ctx, "moved bind_mut m16", g.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,)), vec![3011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26]); eq(ctx, "bind_mut m16 last", f.call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,)), vec![3011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26]); }
    eq(ctx, "bind_mut m17 once", BindMut::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_mut(m17, 11).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,)), vec![1011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27]);
    { let mut f = BindMut::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_mut(m17, 11); eq(ctx, "bind_mut m17 1", f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,)), vec![1011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27]); eq(ctx, "bind_mut m17 2", f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,)), vec![2011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27]); assert_eq!(f.head, 2011); let mut g = moved(&f); eq(ctx, "moved bind_mut m17", g.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,)), vec![3011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27]); eq(ctx, "bind_mut m17 last", f.call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,)), vec![3011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27]); }
    eq(ctx, "bind_mut m18 once", BindMut::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_mut(m18, 11).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,)), vec![1011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28]);
    { let mut f = BindMut::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_mut(m18, 11); eq(ctx, "bind_mut m18 1", f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,)), vec![1011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28]); eq(ctx, "bind_mut m18 2", f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,)), vec![2011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28]); assert_eq!(f.head, 2011); let mut g = moved(&f); eq(ctx, "moved bind_mut m18", g.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,)), vec![3011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28]); eq(ctx, "bind_mut m18 last", f.call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,)), vec![3011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28]); }
    eq(ctx, "bind_mut m19 once", BindMut::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_mut(m19, 11).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,)), vec![1011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29]);
    { let mut f = BindMut::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_mut(m19, 11); eq(ctx, "bind_mut m19 1", f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,)), vec![1011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29]); eq(ctx, "bind_mut m19 2", f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,)), vec![2011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29]); assert_eq!(f.head, 2011); let mut g = moved(&f); eq(ctx, "moved bind_mut m19", g.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,)), vec![3011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29]); eq(ctx, "bind_mut m19 last", f.call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,)), vec![3011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29]); }
    eq(ctx, "bind_mut m20 once", BindMut::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_mut(m20, 11).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,)), vec![1011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]);
    { let mut f = BindMut::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_mut(m20, 11); eq(ctx, "bind_mut m20 1", f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,)), vec![1011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]); eq(ctx, "bind_mut m20 2", f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,)), vec![2011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]); assert_eq!(f.head, 2011); let mut g = moved(&f); eq(ctx, "moved bind_mut m20", g.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,)), vec![3011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]); eq(ctx, "bind_mut m20 last", f.call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,)), vec![3011, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]); }
}
fn by_ref(ctx: &mut Ctx) {
    eq(ctx, "bind_ref r1 once", BindRef::<u64, ()>::bind_ref(r1, 11).call_object_once(()), vec![11]);
    { let mut f = BindRef::<u64, ()>::bind_ref(r1, 11); for i in 0..2 { eq(ctx, &format!("bind_ref r1 mut {i}"), f.call_object_mut(()), vec![11]); } let g = moved(&f); for i in 0..2 { eq(ctx, &format!("bind_ref r1 shared {i}"), g.call_object(()), vec![11]); } }
    eq(ctx, "bind_ref r2 once", BindRef::<u64, (u64,)>::bind_ref(r2, 11).call_object_once((12,)), vec![11, 12]);
    { let mut f = BindRef::<u64, (u64,)>::bind_ref(r2, 11); for i in 0..2 { eq(ctx, &format!("bind_ref r2 mut {i}"), f.call_object_mut((12,)), vec![11, 12]); } let g = moved(&f); for i in 0..2 { eq(ctx, &format!("bind_ref r2 shared {i}"), g.call_object((12,)), vec![11, 12]); } }
    eq(ctx, "bind_ref r3 once", BindRef::<u64, (u64,u64,)>::bind_ref(r3, 11).call_object_once((12,13,)), vec![11, 12, 13]);
    { let mut f = BindRef::<u64, (u64,u64,)>::bind_ref(r3, 11); for i in 0..2 { eq(ctx, &format!("bind_ref r3 mut {i}"), f.call_object_mut((12,13,)), vec![11, 12, 13]); } let g = moved(&f); for i in 0..2 { eq(ctx, &format!("bind_ref r3 shared {i}"), g.call_object((12,13,)), vec![11, 12, 13]); } }
    eq(ctx, "bind_ref r4 once", BindRef::<u64, (u64,u64,u64,)>::bind_ref(r4, 11).call_object_once((12,13,14,)), vec![11, 12, 13, 14]);
    { let mut f = BindRef::<u64, (u64,u64,u64,)>::bind_ref(r4, 11); for i in 0..2 { eq(ctx, &format!("bind_ref r4 mut {i}"), f.call_object_mut((12,13,14,)), vec![11, 12, 13, 14]); } let g = moved(&f); for i in 0..2 { eq(ctx, &format!("bind_ref r4 shared {i}"), g.call_object((12,13,14,)), vec![11, 12, 13, 14]); } }
    eq(ctx, "bind_ref r5 once", BindRef::<u64, (u64,u64,u64,u64,)>::bind_ref(r5, 11).call_object_once((12,13,14,15,)), vec![11, 12, 13, 14, 15]);
    { let mut f = BindRef::<u64, (u64,u64,u64,u64,)>::bind_ref(r5, 11); for i in 0..2 { eq(ctx, &format!("bind_ref r5 mut {i}"), f.call_object_mut((12,13,14,15,)), vec![11, 12, 13, 14, 15]); } let g = moved(&f); for i in 0..2 { eq(ctx, &format!("bind_ref r5 shared {i}"), g.call_object((12,13,14,15,)), vec![11, 12, 13, 14, 15]); } }
    eq(ctx, "bind_ref r6 once", BindRef::<u64, (u64,u64,u64,u64,u64,)>::bind_ref(r6, 11).call_object_once((12,13,14,15,16,)), vec![11, 12, 13, 14, 15, 16]);
    { let mut f = BindRef::<u64, (u64,u64,u64,u64,u64,)>::bind_ref(r6, 11); for i in 0..2 { eq(ctx, &format!("bind_ref r6 mut {i}"), f.call_object_mut((12,13,14,15,16,)), vec![11, 12, 13, 14, 15, 16]); } let g = moved(&f); for i in 0..2 { eq(ctx, &format!("bind_ref r6 shared {i}"), g.call_object((12,13,14,15,16,)), vec![11, 12, 13, 14, 15, 16]); } }
    eq(ctx, "bind_ref r7 once", BindRef::<u64, (u64,u64,u64,u64,u64,u64,)>::bind_ref(r7, 11).call_object_once((12,13,14,15,16,17,)), vec![11, 12, 13, 14, 15, 16, 17]);
    { let mut f = BindRef::<u64, (u64,u64,u64,u64,u64,u64,)>::bind_ref(r7, 11); for i in 0..2 { eq(ctx, &format!("bind_ref r7 mut {i}"), f.call_object_mut((12,13,14,15,16,17,)), vec![11, 12, 13, 14, 15, 16, 17]); } let g = moved(&f); for i in 0..2 { eq(ctx, &format!("bind_ref r7 shared {i}"), g.call_object((12,13,14,15,16,17,)), vec![11, 12, 13, 14, 15, 16, 17]); } }
    eq(ctx, "bind_ref r8 once", BindRef::<u64, (u64,u64,u64,u64,u64,u64,u64,)>::bind_ref(r8, 11).call_object_once((12,13,14,15,16,17,18,)), vec![11, 12, 13, 14, 15, 16, 17, 18]);
    { let mut f = BindRef::<u64, (u64,u64,u64,u64,u64,u64,u64,)>::bind_ref(r8, 11); for i in 0..2 { eq(ctx, &format!("bind_ref r8 mut {i}"), f.call_object_mut((12,13,14,15,16,17,18,)), vec![11, 12, 13, 14, 15, 16, 17, 18]); } let g = moved(&f); for i in 0..2 { eq(ctx, &format!("bind_ref r8 shared {i}"), g.call_object((12,13,14,15,16,17,18,)), vec![11, 12, 13, 14, 15, 16, 17, 18]); } }
    eq(ctx, "bind_ref r9 once", BindRef::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_ref(r9, 11).call_object_once((12,13,14,15,16,17,18,19,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19]);
    { let mut f = BindRef::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_ref(r9, 11); for i in 0..2 { eq(ctx, &format!("bind_ref r9 mut {i}"), f.call_object_mut((12,13,14,15,16,17,18,19,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19]); } let g = moved(&f); for i in 0..2 { eq(ctx, &format!("bind_ref r9 shared {i}"), g.call_object((12,13,14,15,16,17,18,19,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19]); } }
    eq(ctx, "bind_ref r10 once", BindRef::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_ref(r10, 11).call_object_once((12,13,14,15,16,17,18,19,20,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20]);
    { let mut f = BindRef::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_ref(r10, 11); for i in 0..2 { eq(ctx, &format!("bind_ref r10 mut {i}"), f.call_object_mut((12,13,14,15,16,17,18,19,20,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20]); } let g = moved(&f); for i in 0..2 { eq(ctx, &format!("bind_ref r10 shared {i}"), g.call_object((12,13,14,15,16,17,18,19,20,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20]); } }
    eq(ctx, "bind_ref r11 once", BindRef::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_ref(r11, 11).call_object_once((12,13,14,15,16,17,18,19,20,21,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21]);
    { let mut f = BindRef::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_ref(r11, 11); for i in 0..2 { eq(ctx, &format!("bind_ref r11 mut {i}"), f.call_object_mut((12,13,14,15,16,17,18,19,20,21,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21]); } let g = moved(&f); for i in 0..2 { eq(ctx, &format!("bind_ref r11 shared {i}"), g.call_object((12,13,14,15,16,17,18,19,20,21,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21]); } }
    eq(ctx, "bind_ref r12 once", BindRef::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_ref(r12, 11).call_object_once((12,13,14,15,16,17,18,19,20,21,22,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22]);
    { let mut f = BindRef::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_ref(r12, 11); for i in 0..2 { eq(ctx, &format!("bind_ref r12 mut {i}"), f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22]); } let g = moved(&f); for i in 0..2 { eq(ctx, &format!("bind_ref r12 shared {i}"), g.call_object((12,13,14,15,16,17,18,19,20,21,22,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22]); } }
    eq(ctx, "bind_ref r13 once", BindRef::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_ref(r13, 11).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]);
    { let mut f = BindRef::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_ref(r13, 11); for i in 0..2 { eq(ctx, &format!("bind_ref r13 mut {i}"), f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]); } let g = moved(&f); for i in 0..2 { eq(ctx, &format!("bind_ref r13 shared {i}"), g.call_object((12,13,14,15,16,17,18,19,20,21,22,23,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]); } }
    eq(ctx, "bind_ref r14 once", BindRef::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_ref(r14, 11).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24]);
    { let mut f = BindRef::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_ref(r14, 11); for i in 0..2 { eq(ctx, &format!("bind_ref r14 mut {i}"), f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24]); } let g = moved(&f); for i in 0..2 { eq(ctx, &format!("bind_ref r14 shared {i}"), g.call_object((12,13,14,15,16,17,18,19,20,21,22,23,24,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24]); } }
    eq(ctx, "bind_ref r15 once", BindRef::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_ref(r15, 11).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25]);
    { let mut f = BindRef::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_ref(r15, 11); for i in 0..2 { eq(ctx, &format!("bind_ref r15 mut {i}"), f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,25,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25]); } let g = moved(&f); for i in 0..2 { eq(ctx, &format!("bind_ref r15 shared {i}"), g.call_object((12,13,14,15,16,17,18,19,20,21,22,23,24,25,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25]); } }
    eq(ctx, "bind_ref r16 once", BindRef::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_ref(r16, 11).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26]);
    { let mut f = BindRef::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_ref(r16, 11); for i in 0..2 { eq(ctx, &format!("bind_ref r16 mut {i}"), f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26]); } let g = moved(&f); for i in 0..2 { eq(ctx, &format!("bind_ref r16 shared {i}"), g.call_object((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26]); } }
    eq(ctx, "bind_ref r17 once", BindRef::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_ref(r17, 11).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27]);
    { let mut f = BindRef::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_ref(r17, 11); for i in 0..2 { eq(ctx, &format!("bind_ref r17 mut {i}"), f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27]); } let g = moved(&f); for i in 0..2 { eq(ctx, &format!("bind_ref r17 shared {i}"), g.call_object((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27]); } }
    eq(ctx, "bind_ref r18 once", BindRef::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_ref(r18, 11).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28]);
    { let mut f = BindRef::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_ref(r18, 11); for i in 0..2 { eq(ctx, &format!("bind_ref r18 mut {i}"), f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28]); } let g = moved(&f); for i in 0..2 { eq(ctx, &format!("bind_ref r18 shared {i}"), g.call_object((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28]); } }
    eq(ctx, "bind_ref r19 once", BindRef::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_ref(r19, 11).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29]);
    { let mut f = BindRef::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_ref(r19, 11); for i in 0..2 { eq(ctx, &format!("bind_ref r19 mut {i}"), f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29]); } let g = moved(&f); for i in 0..2 { eq(ctx, &format!("bind_ref r19 shared {i}"), g.call_object((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29]); } }
    eq(ctx, "bind_ref r20 once", BindRef::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_ref(r20, 11).call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]);
    { let mut f = BindRef::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_ref(r20, 11); for i in 0..2 { eq(ctx, &format!("bind_ref r20 mut {i}"), f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]); } let g = moved(&f); for i in 0..2 { eq(ctx, &format!("bind_ref r20 shared {i}"), g.call_object((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]); } }
}
fn chains(ctx: &mut Ctx) {
    { let mut f = BindValue::<u64, (u64,)>::bind_value(v2, 11); eq(ctx, "chain 2/1 shared", f.call_object((12,)), vec![11, 12]); eq(ctx, "chain 2/1 mut", f.call_object_mut((12,)), vec![11, 12]); let f = moved(&f); eq(ctx, "chain 2/1 once", f.call_object_once((12,)), vec![11, 12]); }
    { let mut f = BindValue::<u64, ()>::bind_value(BindValue::<u64, (u64,)>::bind_value(v2, 11), 12); eq(ctx, "chain 2/2 shared", f.call_object(()), vec![11, 12]); eq(ctx, "chain 2/2 mut", f.call_object_mut(()), vec![11, 12]); let f = moved(&f); eq(ctx, "chain 2/2 once", f.call_object_once(()), vec![11, 12]); }
    { let mut f = BindValue::<u64, (u64,u64,)>::bind_value(v3, 11); eq(ctx, "chain 3/1 shared", f.call_object((12,13,)), vec![11, 12, 13]); eq(ctx, "chain 3/1 mut", f.call_object_mut((12,13,)), vec![11, 12, 13]); let f = moved(&f); eq(ctx, "chain 3/1 once", f.call_object_once((12,13,)), vec![11, 12, 13]); }
    { let mut f = BindValue::<u64, (u64,)>::bind_value(BindValue::<u64, (u64,u64,)>::bind_value(v3, 11), 12); eq(ctx, "chain 3/2 shared", f.call_object((13,)), vec![11, 12, 13]); eq(ctx, "chain 3/2 mut", f.call_object_mut((13,)), vec![11, 12, 13]); let f = moved(&f); eq(ctx, "chain 3/2 once", f.call_object_once((13,)), vec![11, 12, 13]); }
    { let mut f = BindValue::<u64, ()>::bind_value(BindValue::<u64, (u64,)>::bind_value(BindValue::<u64, (u64,u64,)>::bind_value(v3, 11), 12), 13); eq(ctx, "chain 3/3 shared", f.call_object(()), vec![11, 12, 13]); eq(ctx, "chain 3/3 mut", f.call_object_mut(()), vec![11, 12, 13]); let f = moved(&f); eq(ctx, "chain 3/3 once", f.call_object_once(()), vec![11, 12, 13]); }
    { let mut f = BindValue::<u64, (u64,u64,u64,u64,)>::bind_value(v5, 11); eq(ctx, "chain 5/1 shared", f.call_object((12,13,14,15,)), vec![11, 12, 13, 14, 15]); eq(ctx, "chain 5/1 mut", f.call_object_mut((12,13,14,15,)), vec![11, 12, 13, 14, 15]); let f = moved(&f); eq(ctx, "chain 5/1 once", f.call_object_once((12,13,14,15,)), vec![11, 12, 13, 14, 15]); }
    { let mut f = BindValue::<u64, (u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,)>::bind_value(v5, 11), 12); eq(ctx, "chain 5/2 shared", f.call_object((13,14,15,)), vec![11, 12, 13, 14, 15]); eq(ctx, "chain 5/2 mut", f.call_object_mut((13,14,15,)), vec![11, 12, 13, 14, 15]); let f = moved(&f); eq(ctx, "chain 5/2 once", f.call_object_once((13,14,15,)), vec![11, 12, 13, 14, 15]); }
    { let mut f = BindValue::<u64, (u64,)>::bind_value(BindValue::<u64, (u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,)>::bind_value(v5, 11), 12), 13), 14); eq(ctx, "chain 5/4 shared", f.call_object((15,)), vec![11, 12, 13, 14, 15]); eq(ctx, "chain 5/4 mut", f.call_object_mut((15,)), vec![11, 12, 13, 14, 15]); let f = moved(&f); eq(ctx, "chain 5/4 once", f.call_object_once((15,)), vec![11, 12, 13, 14, 15]); }
    { let mut f = BindValue::<u64, ()>::bind_value(BindValue::<u64, (u64,)>::bind_value(BindValue::<u64, (u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,)>::bind_value(v5, 11), 12), 13), 14), 15); eq(ctx, "chain 5/5 shared", f.call_object(()), vec![11, 12, 13, 14, 15]); eq(ctx, "chain 5/5 mut", f.call_object_mut(()), vec![11, 12, 13, 14, 15]); let f = moved(&f); eq(ctx, "chain 5/5 once", f.call_object_once(()), vec![11, 12, 13, 14, 15]); }
    { let mut f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v8, 11); eq(ctx, "chain 8/1 shared", f.call_object((12,13,14,15,16,17,18,)), vec![11, 12, 13, 14, 15, 16, 17, 18]); eq(ctx, "chain 8/1 mut", f.call_object_mut((12,13,14,15,16,17,18,)), vec![11, 12, 13, 14, 15, 16, 17, 18]); let f = moved(&f); eq(ctx, "chain 8/1 once", f.call_object_once((12,13,14,15,16,17,18,)), vec![11, 12, 13, 14, 15, 16, 17, 18]); }
    { let mut f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v8, 11), 12); eq(ctx, "chain 8/2 shared", f.call_object((13,14,15,16,17,18,)), vec![11, 12, 13, 14, 15, 16, 17, 18]); eq(ctx, "chain 8/2 mut", f.call_object_mut((13,14,15,16,17,18,)), vec![11, 12, 13, 14, 15, 16, 17, 18]); let f = moved(&f); eq(ctx, "chain 8/2 once", f.call_object_once((13,14,15,16,17,18,)), vec![11, 12, 13, 14, 15, 16, 17, 18]); }
    { let mut f = BindValue::<u64, (u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v8, 11), 12), 13), 14); eq(ctx, "chain 8/4 shared", f.call_object((15,16,17,18,)), vec![11, 12, 13, 14, 15, 16, 17, 18]); eq(ctx, "chain 8/4 mut", f.call_object_mut((15,16,17,18,)), vec![11, 12, 13, 14, 15, 16, 17, 18]); let f = moved(&f); eq(ctx, "chain 8/4 once", f.call_object_once((15,16,17,18,)), vec![11, 12, 13, 14, 15, 16, 17, 18]); }
    { let mut f = BindValue::<u64, (u64,)>::bind_value(BindValue::<u64, (u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v8, 11), 12), 13), 14), 15), 16), 17); eq(ctx, "chain 8/7 shared", f.call_object((18,)), vec![11, 12, 13, 14, 15, 16, 17, 18]); eq(ctx, "chain 8/7 mut", f.call_object_mut((18,)), vec![11, 12, 13, 14, 15, 16, 17, 18]); let f = moved(&f); eq(ctx, "chain 8/7 once", f.call_object_once((18,)), vec![11, 12, 13, 14, 15, 16, 17, 18]); }
    { let mut f = BindValue::<u64, ()>::bind_value(BindValue::<u64, (u64,)>::bind_value(BindValue::<u64, (u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v8, 11), 12), 13), 14), 15), 16), 17), 18); eq(ctx, "chain 8/8 shared", f.call_object(()), vec![11, 12, 13, 14, 15, 16, 17, 18]); eq(ctx, "chain 8/8 mut", f.call_object_mut(()), vec![11, 12, 13, 14, 15, 16, 17, 18]); let f = moved(&f); eq(ctx, "chain 8/8 once", f.call_object_once(()), vec![11, 12, 13, 14, 15, 16, 17, 18]); }
    { let mut f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v13, 11); eq(ctx, "chain 13/1 shared", f.call_object((12,13,14,15,16,17,18,19,20,21,22,23,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]); eq(ctx, "chain 13/1 mut", f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]); let f = moved(&f); eq(ctx, "chain 13/1 once", f.call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]); }
    { let mut f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v13, 11), 12); eq(ctx, "chain 13/2 shared", f.call_object((13,14,15,16,17,18,19,20,21,22,23,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]); eq(ctx, "chain 13/2 mut", f.call_object_mut((13,14,15,16,17,18,19,20,21,22,23,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]); let f = moved(&f); eq(ctx, "chain 13/2 once", f.call_object_once((13,14,15,16,17,18,19,20,21,22,23,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]); }
    { let mut f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v13, 11), 12), 13), 14), 15), 16); eq(ctx, "chain 13/6 shared", f.call_object((17,18,19,20,21,22,23,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]); eq(ctx, "chain 13/6 mut", f.call_object_mut((17,18,19,20,21,22,23,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]); let f = moved(&f); eq(ctx, "chain 13/6 once", f.call_object_once((17,18,19,20,21,22,23,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]); }
    { let mut f = BindValue::<u64, (u64,)>::bind_value(BindValue::<u64, (u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v13, 11), 12), 13), 14), 15), 16), 17), 18), 19), 20), 21), 22); eq(ctx, "chain 13/12 shared", f.call_object((23,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]); eq(ctx, "chain 13/12 mut", f.call_object_mut((23,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]); let f = moved(&f); eq(ctx, "chain 13/12 once", f.call_object_once((23,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]); }
    { let mut f = BindValue::<u64, ()>::bind_value(BindValue::<u64, (u64,)>::bind_value(BindValue::<u64, (u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v13, 11), 12), 13), 14), 15), 16), 17), 18), 19), 20), 21), 22), 23); eq(ctx, "chain 13/13 shared", f.call_object(()), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]); eq(ctx, "chain 13/13 mut", f.call_object_mut(()), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]); let f = moved(&f); eq(ctx, "chain 13/13 once", f.call_object_once(()), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]); }
    { let mut f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v20, 11); eq(ctx, "chain 20/1 shared", f.call_object((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]); eq(ctx, "chain 20/1 mut", f.call_object_mut((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]); let f = moved(&f); eq(ctx, "chain 20/1 once", f.call_object_once((12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]); }
    { let mut f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v20, 11), 12); eq(ctx, "chain 20/2 shared", f.call_object((13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]); eq(ctx, "chain 20/2 mut", f.call_object_mut((13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]); let f = moved(&f); eq(ctx, "chain 20/2 once", f.call_object_once((13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]); }
    { let mut f = BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v20, 11), 12), 13), 14), 15), 16), 17), 18), 19), 20); eq(ctx, "chain 20/10 shared", f.call_object((21,22,23,24,25,26,27,28,29,30,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]); eq(ctx, "chain 20/10 mut", f.call_object_mut((21,22,23,24,25,26,27,28,29,30,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]); let f = moved(&f); eq(ctx, "chain 20/10 once", f.call_object_once((21,22,23,24,25,26,27,28,29,30,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]); }
    { let mut f = BindValue::<u64, (u64,)>::bind_value(BindValue::<u64, (u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v20, 11), 12), 13), 14), 15), 16), 17), 18), 19), 20), 21), 22), 23), 24), 25), 26), 27), 28), 29); eq(ctx, "chain 20/19 shared", f.call_object((30,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]); eq(ctx, "chain 20/19 mut", f.call_object_mut((30,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]); let f = moved(&f); eq(ctx, "chain 20/19 once", f.call_object_once((30,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]); }
    { let mut f = BindValue::<u64, ()>::bind_value(BindValue::<u64, (u64,)>::bind_value(BindValue::<u64, (u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(BindValue::<u64, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,)>::bind_value(v20, 11), 12), 13), 14), 15), 16), 17), 18), 19), 20), 21), 22), 23), 24), 25), 26), 27), 28), 29), 30); eq(ctx, "chain 20/20 shared", f.call_object(()), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]); eq(ctx, "chain 20/20 mut", f.call_object_mut(()), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]); let f = moved(&f); eq(ctx, "chain 20/20 once", f.call_object_once(()), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]); }
}
fn static_fn(ctx: &mut Ctx) {
    { let mut f = unsafe { StaticFn::<fn() -> Vec<u64>>::new(p0) }; eq(ctx, "static p0 shared", f.call_object(()), vec![]); eq(ctx, "static p0 mut", f.call_object_mut(()), vec![]); eq(ctx, "static p0 once", f.call_object_once(()), vec![]); let g = moved(&f); eq(ctx, "moved static p0", g.call_object(()), vec![]); eq(ctx, "get_fn p0", (g.get_fn())(), vec![]); }
    { let mut f = unsafe { StaticFn::<fn(u64) -> Vec<u64>>::new(p1) }; eq(ctx, "static p1 shared", f.call_object((11,)), vec![11]); eq(ctx, "static p1 mut", f.call_object_mut((11,)), vec![11]); eq(ctx, "static p1 once", f.call_object_once((11,)), vec![11]); let g = moved(&f); eq(ctx, "moved static p1", g.call_object((11,)), vec![11]); eq(ctx, "get_fn p1", (g.get_fn())(11), vec![11]); }
    { let mut f = unsafe { StaticFn::<fn(u64, u64) -> Vec<u64>>::new(p2) }; eq(ctx, "static p2 shared", f.call_object((11,12,)), vec![11, 12]); eq(ctx, "static p2 mut", f.call_object_mut((11,12,)), vec![11, 12]); eq(ctx, "static p2 once", f.call_object_once((11,12,)), vec![11, 12]); let g = moved(&f); eq(ctx, "moved static p2", g.call_object((11,12,)), vec![11, 12]); eq(ctx, "get_fn p2", (g.get_fn())(11, 12), vec![11, 12]); }
    { let mut f = unsafe { StaticFn::<fn(u64, u64, u64) -> Vec<u64>>::new(p3) }; eq(ctx, "static p3 shared", f.call_object((11,12,13,)), vec![11, 12, 13]); eq(ctx, "static p3 mut", f.call_object_mut((11,12,13,)), vec![11, 12, 13]); eq(ctx, "static p3 once", f.call_object_once((11,12,13,)), vec![11, 12, 13]); let g = moved(&f); eq(ctx, "moved static p3", g.call_object((11,12,13,)), vec![11, 12, 13]); eq(ctx, "get_fn p3", (g.get_fn())(11, 12, 13), vec![11, 12, 13]); }
    { let mut f = unsafe { StaticFn::<fn(u64, u64, u64, u64) -> Vec<u64>>::new(p4) }; eq(ctx, "static p4 shared", f.call_object((11,12,13,14,)), vec![11, 12, 13, 14]); eq(ctx, "static p4 mut", f.call_object_mut((11,12,13,14,)), vec![11, 12, 13, 14]); eq(ctx, "static p4 once", f.call_object_once((11,12,13,14,)), vec![11, 12, 13, 14]); let g = moved(&f); eq(ctx, "moved static p4", g.call_object((11,12,13,14,)), vec![11, 12, 13, 14]); eq(ctx, "get_fn p4", (g.get_fn())(11, 12, 13, 14), vec![11, 12, 13, 14]); }
    { let mut f = unsafe { StaticFn::<fn(u64, u64, u64, u64, u64) -> Vec<u64>>::new(p5) }; eq(ctx, "static p5 shared", f.call_object((11,12,13,14,15,)), vec![11, 12, 13, 14, 15]); eq(ctx, "static p5 mut", f.call_object_mut((11,12,13,14,15,)), vec![11, 12, 13, 14, 15]); eq(ctx, "static p5 once", f.call_object_once((11,12,13,14,15,)), vec![11, 12, 13, 14, 15]); let g = moved(&f); eq(ctx, "moved static p5", g.call_object((11,12,13,14,15,)), vec![11, 12, 13, 14, 15]); eq(ctx, "get_fn p5", (g.get_fn())(11, 12, 13, 14, 15), vec![11, 12, 13, 14, 15]); }
    { let mut f = unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64) -> Vec<u64>>::new(p6) }; eq(ctx, "static p6 shared", f.call_object((11,12,13,14,15,16,)), vec![11, 12, 13, 14, 15, 16]); eq(ctx, "static p6 mut", f.call_object_mut((11,12,13,14,15,16,)), vec![11, 12, 13, 14, 15, 16]); eq(ctx, "static p6 once", f.call_object_once((11,12,13,14,15,16,)), vec![11, 12, 13, 14, 15, 16]); let g = moved(&f); eq(ctx, "moved static p6", g.call_object((11,12,13,14,15,16,)), vec![11, 12, 13, 14, 15, 16]); eq(ctx, "get_fn p6", (g.get_fn())(11, 12, 13, 14, 15, 16), vec![11, 12, 13, 14, 15, 16]); }
    { let mut f = unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64) -> Vec<u64>>::new(p7) }; eq(ctx, "static p7 shared", f.call_object((11,12,13,14,15,16,17,)), vec![11, 12, 13, 14, 15, 16, 17]); eq(ctx, "static p7 mut", f.call_object_mut((11,12,13,14,15,16,17,)), vec![11, 12, 13, 14, 15, 16, 17]); eq(ctx, "static p7 once", f.call_object_once((11,12,13,14,15,16,17,)), vec![11, 12, 13, 14, 15, 16, 17]); let g = moved(&f); eq(ctx, "moved static p7", g.call_object((11,12,13,14,15,16,17,)), vec![11, 12, 13, 14, 15, 16, 17]); eq(ctx, "get_fn p7", (g.get_fn())(11, 12, 13, 14, 15, 16, 17), vec![11, 12, 13, 14, 15, 16, 17]); }
    { let mut f = unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64) -> Vec<u64>>::new(p8) }; eq(ctx, "static p8 shared", f.call_object((11,12,13,14,15,16,17,18,)), vec![11, 12, 13, 14, 15, 16, 17, 18]); eq(ctx, "static p8 mut", f.call_object_mut((11,12,13,14,15,16,17,18,)), vec![11, 12, 13, 14, 15, 16, 17, 18]); eq(ctx, "static p8 once", f.call_object_once((11,12,13,14,15,16,17,18,)), vec![11, 12, 13, 14, 15, 16, 17, 18]); let g = moved(&f); eq(ctx, "moved static p8", g.call_object((11,12,13,14,15,16,17,18,)), vec![11, 12, 13, 14, 15, 16, 17, 18]); eq(ctx, "get_fn p8", (g.get_fn())(11, 12, 13, 14, 15, 16, 17, 18), vec![11, 12, 13, 14, 15, 16, 17, 18]); }
    { let mut f = unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64) -> Vec<u64>>::new(p9) }; eq(ctx, "static p9 shared", f.call_object((11,12,13,14,15,16,17,18,19,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19]); eq(ctx, "static p9 mut", f.call_object_mut((11,12,13,14,15,16,17,18,19,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19]); eq(ctx, "static p9 once", f.call_object_once((11,12,13,14,15,16,17,18,19,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19]); let g = moved(&f); eq(ctx, "moved static p9", g.call_object((11,12,13,14,15,16,17,18,19,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19]); eq(ctx, "get_fn p9", (g.get_fn())(11, 12, 13, 14, 15, 16, 17, 18, 19), vec![11, 12, 13, 14, 15, 16, 17, 18, 19]); }
    { let mut f = unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> Vec<u64>>::new(p10) }; eq(ctx, "static p10 shared", f.call_object((11,12,13,14,15,16,17,18,19,20,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20]); eq(ctx, "static p10 mut", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20]); eq(ctx, "static p10 once", f.call_object_once((11,12,13,14,15,16,17,18,19,20,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20]); let g = moved(&f); eq(ctx, "moved static p10", g.call_object((11,12,13,14,15,16,17,18,19,20,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20]); eq(ctx, "get_fn p10", (g.get_fn())(11, 12, 13, 14, 15, 16, 17, 18, 19, 20), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20]); }
    { let mut f = unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> Vec<u64>>::new(p11) }; eq(ctx, "static p11 shared", f.call_object((11,12,13,14,15,16,17,18,19,20,21,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21]); eq(ctx, "static p11 mut", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,21,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21]); eq(ctx, "static p11 once", f.call_object_once((11,12,13,14,15,16,17,18,19,20,21,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21]); let g = moved(&f); eq(ctx, "moved static p11", g.call_object((11,12,13,14,15,16,17,18,19,20,21,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21]); eq(ctx, "get_fn p11", (g.get_fn())(11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21]); }
    { let mut f = unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> Vec<u64>>::new(p12) }; eq(ctx, "static p12 shared", f.call_object((11,12,13,14,15,16,17,18,19,20,21,22,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22]); eq(ctx, "static p12 mut", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,21,22,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22]); eq(ctx, "static p12 once", f.call_object_once((11,12,13,14,15,16,17,18,19,20,21,22,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22]); let g = moved(&f); eq(ctx, "moved static p12", g.call_object((11,12,13,14,15,16,17,18,19,20,21,22,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22]); eq(ctx, "get_fn p12", (g.get_fn())(11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22]); }
    { let mut f = unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> Vec<u64>>::new(p13) }; eq(ctx, "static p13 shared", f.call_object((11,12,13,14,15,16,17,18,19,20,21,22,23,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]); eq(ctx, "static p13 mut", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,21,22,23,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]); eq(ctx, "static p13 once", f.call_object_once((11,12,13,14,15,16,17,18,19,20,21,22,23,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]); let g = moved(&f); eq(ctx, "moved static p13", g.call_object((11,12,13,14,15,16,17,18,19,20,21,22,23,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]); eq(ctx, "get_fn p13", (g.get_fn())(11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]); }
    { let mut f = unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> Vec<u64>>::new(p14) }; eq(ctx, "static p14 shared", f.call_object((11,12,13,14,15,16,17,18,19,20,21,22,23,24,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24]); eq(ctx, "static p14 mut", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,21,22,23,24,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24]); eq(ctx, "static p14 once", f.call_object_once((11,12,13,14,15,16,17,18,19,20,21,22,23,24,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24]); let g = moved(&f); eq(ctx, "moved static p14", g.call_object((11,12,13,14,15,16,17,18,19,20,21,22,23,24,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24]); eq(ctx, "get_fn p14", (g.get_fn())(11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24]); }
    { let mut f = unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> Vec<u64>>::new(p15) }; eq(ctx, "static p15 shared", f.call_object((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25]); eq(ctx, "static p15 mut", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25]); eq(ctx, "static p15 once", f.call_object_once((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25]); let g = moved(&f); eq(ctx, "moved static p15", g.call_object((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25]); eq(ctx, "get_fn p15", (g.get_fn())(11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25]); }
    { let mut f = unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> Vec<u64>>::new(p16) }; eq(ctx, "static p16 shared", f.call_object((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26]); eq(ctx, "static p16 mut", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26]); eq(ctx, "static p16 once", f.call_object_once((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26]); let g = moved(&f); eq(ctx, "moved static p16", g.call_object((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26]); eq(ctx, "get_fn p16", (g.get_fn())(11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26]); }
    { let mut f = unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> Vec<u64>>::new(p17) }; eq(ctx, "static p17 shared", f.call_object((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27]); eq(ctx, "static p17 mut", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27]); eq(ctx, "static p17 once", f.call_object_once((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27]); let g = moved(&f); eq(ctx, "moved static p17", g.call_object((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27]); eq(ctx, "get_fn p17", (g.get_fn())(11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27]); }
    { let mut f = unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> Vec<u64>>::new(p18) }; eq(ctx, "static p18 shared", f.call_object((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28]); eq(ctx, "static p18 mut", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28]); eq(ctx, "static p18 once", f.call_object_once((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28]); let g = moved(&f); eq(ctx, "moved static p18", g.call_object((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28]); eq(ctx, "get_fn p18", (g.get_fn())(11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28]); }
    { let mut f = unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> Vec<u64>>::new(p19) }; eq(ctx, "static p19 shared", f.call_object((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29]); eq(ctx, "static p19 mut", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29]); eq(ctx, "static p19 once", f.call_object_once((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29]); let g = moved(&f); eq(ctx, "moved static p19", g.call_object((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29]); eq(ctx, "get_fn p19", (g.get_fn())(11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29]); }
    { let mut f = unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> Vec<u64>>::new(p20) }; eq(ctx, "static p20 shared", f.call_object((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]); eq(ctx, "static p20 mut", f.call_object_mut((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]); eq(ctx, "static p20 once", f.call_object_once((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]); let g = moved(&f); eq(ctx, "moved static p20", g.call_object((11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,)), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]); eq(ctx, "get_fn p20", (g.get_fn())(11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30), vec![11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]); }
}

fn lambdas(ctx: &mut Ctx) {
    let (a, b, c) = (1u64, "2".to_string(), vec![3u64]);
    let f = lambda! { move(a: u64, b: String, c: Vec<u64>) |d: u64, e: u64| -> Vec<u64> { vec![a, b.parse().unwrap(), c[0], d, e] } };
    let g = moved(&f);
    eq(ctx, "lambda by value", g.call_object_once((4, 5)), vec![1, 2, 3, 4, 5]);
    let (a, b) = (1u64, vec![5u64]);
    let mut f = lambda! { move(a: u64, &mut b: &mut Vec<u64>) |d: u64, e: u64| -> Vec<u64> { b.push(d); let mut r = vec![a, e]; r.extend(b.iter()); r } };
    eq(ctx, "lambda value+mut 1", f.call_object_mut((7, 8)), vec![1, 8, 5, 7]);
    eq(ctx, "lambda value+mut 2", f.call_object_mut((9, 10)), vec![1, 10, 5, 7, 9]);
    let mut f = moved(&f);
    eq(ctx, "lambda value+mut 3", f.call_object_mut((1, 2)), vec![1, 2, 5, 7, 9, 1]);
    let (a, b, c) = (vec![1u64], vec![2u64], 3u64);
    let f = lambda! { move(&a: &Vec<u64>, &b: &Vec<u64>, c: u64) |d: u64| -> Vec<u64> { vec![a[0], b[0], c, d] } };
    for _ in 0..2 { eq(ctx, "lambda ref+ref+value", f.call_object((4,)), vec![1, 2, 3, 4]); }
    let (a, b, c) = (1u64, 2u64, 3u64);
    let f = lambda! { move(&a: &u64, &b: &u64, &c: &u64) |d: u64| -> Vec<u64> { vec![*a, *b, *c, d] } };
    for _ in 0..2 { eq(ctx, "lambda ref+ref+ref", f.call_object((4,)), vec![1, 2, 3, 4]); }
    let f = lambda! { move(a: u64, &b: &u64, c: u64) |d: u64, e: u64| -> Vec<u64> { vec![a, *b, c, d, e] } };
    for _ in 0..2 { eq(ctx, "lambda value+ref+value", f.call_object((4, 5)), vec![1, 2, 3, 4, 5]); }
    let mut f = lambda! { move(&mut a: &mut u64, &mut b: &mut u64, c: u64) |d: u64| -> Vec<u64> { *a += 10; *b += 20; vec![*a, *b, c, d] } };
    eq(ctx, "lambda mut+mut+value 1", f.call_object_mut((4,)), vec![11, 22, 3, 4]);
    eq(ctx, "lambda mut+mut+value 2", f.call_object_mut((4,)), vec![21, 42, 3, 4]);
    let (a, b, c) = (vec![1u64], 2u64, 3u64);
    let mut f = lambda! { move(&mut a: &mut Vec<u64>, &b: &u64, c: u64) || -> Vec<u64> { a.push(*b); let mut r = a.clone(); r.push(c); r } };
    eq(ctx, "lambda mut+ref+value 1", f.call_object_mut(()), vec![1, 2, 3]);
    eq(ctx, "lambda mut+ref+value 2", f.call_object_mut(()), vec![1, 2, 2, 3]);
    eq(ctx, "lambda no captures", lambda! { |x: u64, y: u64| -> Vec<u64> { vec![x, y] } }.call_object((1, 2)), vec![1, 2]);
    eq(ctx, "lambda nothing", lambda! { || -> Vec<u64> { vec![] } }.call_object(()), vec![]);
}

fn boxed(ctx: &mut Ctx) {
    let f: Box<dyn FnObject<(u64, u64), Output = Vec<u64>>> = Box::new(BindValue::<u64, (u64, u64)>::bind_value(v3, 1));
    for _ in 0..2 { eq(ctx, "Box<dyn FnObject>", f.call_object((2, 3)), vec![1, 2, 3]); }
    let f = moved(&f);
    eq(ctx, "moved Box<dyn FnObject>", f.call_object((2, 3)), vec![1, 2, 3]);
    eq(ctx, "Box<dyn FnObject> once", f.call_object_once((2, 3)), vec![1, 2, 3]);
    let mut f: Box<dyn FnMutObject<(u64, u64), Output = Vec<u64>>> = Box::new(BindMut::<u64, (u64, u64)>::bind_mut(m3, 1));
    eq(ctx, "Box<dyn FnMutObject>", f.call_object_mut((2, 3)), vec![1001, 2, 3]);
    let mut f = moved(&f);
    eq(ctx, "moved Box<dyn FnMutObject>", f.call_object_mut((2, 3)), vec![2001, 2, 3]);
    eq(ctx, "Box<dyn FnMutObject> once", f.call_object_once((2, 3)), vec![3001, 2, 3]);
    let f: Box<dyn FnOnceObject<(u64,), Output = Vec<u64>>> = Box::new(BindRef::<u64, (u64,)>::bind_ref(r2, 1));
    let f: Box<dyn FnOnceObject<(u64,), Output = Vec<u64>>> = Box::new(f);
    eq(ctx, "Box<Box<dyn FnOnceObject>>", moved(&f).call_object_once((2,)), vec![1, 2]);
    eq(ctx, "call_object_box", f.call_object_box((2,)), vec![1, 2]);
    let d: &u64 = &*std::mem::ManuallyDrop::new(Box::new(5u64));
    let _ = d;
}
