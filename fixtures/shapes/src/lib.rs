#![allow(non_camel_case_types, clippy::all)]
use crossmist::{func, Object};
use std::marker::PhantomData;
#[derive(Object)]
pub struct FxUnit;
#[derive(Object)]
pub struct FxT0();
#[derive(Object)]
pub struct FxN0 {}
#[derive(Object)]
pub struct FxT1<T0: Object>(pub T0);
#[derive(Object)]
pub struct FxN1<T0: Object> { pub s: T0 }
#[derive(Object)]
pub struct FxT2<T0: Object, T1: Object>(pub T0, pub T1);
#[derive(Object)]
pub struct FxN2<T0: Object, T1: Object> { pub s: T0, pub d: T1 }
#[derive(Object)]
pub struct FxT3<T0: Object, T1: Object, T2: Object>(pub T0, pub T1, pub T2);
#[derive(Object)]
pub struct FxN3<T0: Object, T1: Object, T2: Object> { pub s: T0, pub d: T1, pub value: T2 }
#[derive(Object)]
pub struct FxT4<T0: Object, T1: Object, T2: Object, T3: Object>(pub T0, pub T1, pub T2, pub T3);
#[derive(Object)]
pub struct FxN4<T0: Object, T1: Object, T2: Object, T3: Object> { pub s: T0, pub d: T1, pub value: T2, pub a0: T3 }
#[derive(Object)]
pub struct FxT5<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object>(pub T0, pub T1, pub T2, pub T3, pub T4);
#[derive(Object)]
pub struct FxN5<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object> { pub s: T0, pub d: T1, pub value: T2, pub a0: T3, pub i: T4 }
#[derive(Object)]
pub struct FxT6<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object>(pub T0, pub T1, pub T2, pub T3, pub T4, pub T5);
#[derive(Object)]
pub struct FxN6<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object> { pub s: T0, pub d: T1, pub value: T2, pub a0: T3, pub i: T4, pub ok: T5 }
#[derive(Object)]
pub struct FxT7<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object>(pub T0, pub T1, pub T2, pub T3, pub T4, pub T5, pub T6);
#[derive(Object)]
pub struct FxN7<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object> { pub s: T0, pub d: T1, pub value: T2, pub a0: T3, pub i: T4, pub ok: T5, pub data: T6 }
#[derive(Object)]
pub struct FxT8<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object>(pub T0, pub T1, pub T2, pub T3, pub T4, pub T5, pub T6, pub T7);
#[derive(Object)]
pub struct FxN8<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object> { pub s: T0, pub d: T1, pub value: T2, pub a0: T3, pub i: T4, pub ok: T5, pub data: T6, pub r#type: T7 }
#[derive(Object)]
pub struct FxT9<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object>(pub T0, pub T1, pub T2, pub T3, pub T4, pub T5, pub T6, pub T7, pub T8);
#[derive(Object)]
pub struct FxN9<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object> { pub s: T0, pub d: T1, pub value: T2, pub a0: T3, pub i: T4, pub ok: T5, pub data: T6, pub r#type: T7, pub serde: T8 }
#[derive(Object)]
pub struct FxT10<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object, T9: Object>(pub T0, pub T1, pub T2, pub T3, pub T4, pub T5, pub T6, pub T7, pub T8, pub T9);
#[derive(Object)]
pub struct FxN10<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object, T9: Object> { pub s: T0, pub d: T1, pub value: T2, pub a0: T3, pub i: T4, pub ok: T5, pub data: T6, pub r#type: T7, pub serde: T8, pub result: T9 }
#[derive(Object)]
pub struct FxT11<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object, T9: Object, T10: Object>(pub T0, pub T1, pub T2, pub T3, pub T4, pub T5, pub T6, pub T7, pub T8, pub T9, pub T10);
#[derive(Object)]
pub struct FxN11<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object, T9: Object, T10: Object> { pub s: T0, pub d: T1, pub value: T2, pub a0: T3, pub i: T4, pub ok: T5, pub data: T6, pub r#type: T7, pub serde: T8, pub result: T9, pub name: T10 }
#[derive(Object)]
pub struct FxT12<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object, T9: Object, T10: Object, T11: Object>(pub T0, pub T1, pub T2, pub T3, pub T4, pub T5, pub T6, pub T7, pub T8, pub T9, pub T10, pub T11);
#[derive(Object)]
pub struct FxN12<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object, T9: Object, T10: Object, T11: Object> { pub s: T0, pub d: T1, pub value: T2, pub a0: T3, pub i: T4, pub ok: T5, pub data: T6, pub r#type: T7, pub serde: T8, pub result: T9, pub name: T10, pub x: T11 }
#[derive(Object)]
pub struct FxT13<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object, T9: Object, T10: Object, T11: Object, T12: Object>(pub T0, pub T1, pub T2, pub T3, pub T4, pub T5, pub T6, pub T7, pub T8, pub T9, pub T10, pub T11, pub T12);
#[derive(Object)]
pub struct FxN13<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object, T9: Object, T10: Object, T11: Object, T12: Object> { pub s: T0, pub d: T1, pub value: T2, pub a0: T3, pub i: T4, pub ok: T5, pub data: T6, pub r#type: T7, pub serde: T8, pub result: T9, pub name: T10, pub x: T11, pub a1: T12 }
#[derive(Object)]
pub struct FxT14<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object, T9: Object, T10: Object, T11: Object, T12: Object, T13: Object>(pub T0, pub T1, pub T2, pub T3, pub T4, pub T5, pub T6, pub T7, pub T8, pub T9, pub T10, pub T11, pub T12, pub T13);
#[derive(Object)]
pub struct FxN14<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object, T9: Object, T10: Object, T11: Object, T12: Object, T13: Object> { pub s: T0, pub d: T1, pub value: T2, pub a0: T3, pub i: T4, pub ok: T5, pub data: T6, pub r#type: T7, pub serde: T8, pub result: T9, pub name: T10, pub x: T11, pub a1: T12, pub item: T13 }
#[derive(Object)]
pub struct FxT15<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object, T9: Object, T10: Object, T11: Object, T12: Object, T13: Object, T14: Object>(pub T0, pub T1, pub T2, pub T3, pub T4, pub T5, pub T6, pub T7, pub T8, pub T9, pub T10, pub T11, pub T12, pub T13, pub T14);
#[derive(Object)]
pub struct FxN15<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object, T9: Object, T10: Object, T11: Object, T12: Object, T13: Object, T14: Object> { pub s: T0, pub d: T1, pub value: T2, pub a0: T3, pub i: T4, pub ok: T5, pub data: T6, pub r#type: T7, pub serde: T8, pub result: T9, pub name: T10, pub x: T11, pub a1: T12, pub item: T13, pub r#match: T14 }
#[derive(Object)]
pub struct FxT16<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object, T9: Object, T10: Object, T11: Object, T12: Object, T13: Object, T14: Object, T15: Object>(pub T0, pub T1, pub T2, pub T3, pub T4, pub T5, pub T6, pub T7, pub T8, pub T9, pub T10, pub T11, pub T12, pub T13, pub T14, pub T15);
#[derive(Object)]
pub struct FxN16<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object, T9: Object, T10: Object, T11: Object, T12: Object, T13: Object, T14: Object, T15: Object> { pub s: T0, pub d: T1, pub value: T2, pub a0: T3, pub i: T4, pub ok: T5, pub data: T6, pub r#type: T7, pub serde: T8, pub result: T9, pub name: T10, pub x: T11, pub a1: T12, pub item: T13, pub r#match: T14, pub state: T15 }
#[derive(Object)]
pub struct FxT17<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object, T9: Object, T10: Object, T11: Object, T12: Object, T13: Object, T14: Object, T15: Object, T16: Object>(pub T0, pub T1, pub T2, pub T3, pub T4, pub T5, pub T6, pub T7, pub T8, pub T9, pub T10, pub T11, pub T12, pub T13, pub T14, pub T15, pub T16);
#[derive(Object)]
pub struct FxN17<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object, T9: Object, T10: Object, T11: Object, T12: Object, T13: Object, T14: Object, T15: Object, T16: Object> { pub s: T0, pub d: T1, pub value: T2, pub a0: T3, pub i: T4, pub ok: T5, pub data: T6, pub r#type: T7, pub serde: T8, pub result: T9, pub name: T10, pub x: T11, pub a1: T12, pub item: T13, pub r#match: T14, pub state: T15, pub b: T16 }
#[derive(Object)]
pub struct FxT18<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object, T9: Object, T10: Object, T11: Object, T12: Object, T13: Object, T14: Object, T15: Object, T16: Object, T17: Object>(pub T0, pub T1, pub T2, pub T3, pub T4, pub T5, pub T6, pub T7, pub T8, pub T9, pub T10, pub T11, pub T12, pub T13, pub T14, pub T15, pub T16, pub T17);
#[derive(Object)]
pub struct FxN18<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object, T9: Object, T10: Object, T11: Object, T12: Object, T13: Object, T14: Object, T15: Object, T16: Object, T17: Object> { pub s: T0, pub d: T1, pub value: T2, pub a0: T3, pub i: T4, pub ok: T5, pub data: T6, pub r#type: T7, pub serde: T8, pub result: T9, pub name: T10, pub x: T11, pub a1: T12, pub item: T13, pub r#match: T14, pub state: T15, pub b: T16, pub handle: T17 }
#[derive(Object)]
pub struct FxT19<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object, T9: Object, T10: Object, T11: Object, T12: Object, T13: Object, T14: Object, T15: Object, T16: Object, T17: Object, T18: Object>(pub T0, pub T1, pub T2, pub T3, pub T4, pub T5, pub T6, pub T7, pub T8, pub T9, pub T10, pub T11, pub T12, pub T13, pub T14, pub T15, pub T16, pub T17, pub T18);
#[derive(Object)]
pub struct FxN19<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object, T9: Object, T10: Object, T11: Object, T12: Object, T13: Object, T14: Object, T15: Object, T16: Object, T17: Object, T18: Object> { pub s: T0, pub d: T1, pub value: T2, pub a0: T3, pub i: T4, pub ok: T5, pub data: T6, pub r#type: T7, pub serde: T8, pub result: T9, pub name: T10, pub x: T11, pub a1: T12, pub item: T13, pub r#match: T14, pub state: T15, pub b: T16, pub handle: T17, pub len: T18 }
#[derive(Object)]
pub struct FxT20<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object, T9: Object, T10: Object, T11: Object, T12: Object, T13: Object, T14: Object, T15: Object, T16: Object, T17: Object, T18: Object, T19: Object>(pub T0, pub T1, pub T2, pub T3, pub T4, pub T5, pub T6, pub T7, pub T8, pub T9, pub T10, pub T11, pub T12, pub T13, pub T14, pub T15, pub T16, pub T17, pub T18, pub T19);
#[derive(Object)]
pub struct FxN20<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object, T9: Object, T10: Object, T11: Object, T12: Object, T13: Object, T14: Object, T15: Object, T16: Object, T17: Object, T18: Object, T19: Object> { pub s: T0, pub d: T1, pub value: T2, pub a0: T3, pub i: T4, pub ok: T5, pub data: T6, pub r#type: T7, pub serde: T8, pub result: T9, pub name: T10, pub x: T11, pub a1: T12, pub item: T13, pub r#match: T14, pub state: T15, pub b: T16, pub handle: T17, pub len: T18, pub index: T19 }
#[derive(Object)]
pub struct FxSame<T0: Object>(pub T0, pub T0, pub T0, pub T0);
#[derive(Object)]
pub struct FxSameNamed<T0: Object> { pub d: T0, pub c: T0, pub b: T0, pub a: T0 }
#[derive(Object)]
pub struct FxRev<T0: Object, T1: Object, T2: Object> { pub z: T2, pub y: T1, pub x: T0, pub w: T2 }
#[derive(Object)]
pub struct FxWhere<T0, T1> where T0: Object, T1: Object { pub s: T0, pub d: (T1, T0) }
#[derive(Object)]
pub struct FxMixed<T0: Object> { pub a: u8, pub s: T0, pub b: u64, pub d: Option<T0>, pub e: bool, pub u: () }
#[derive(Object)]
pub struct FxDocs<T0: Object> {
    /// documented
    pub d: T0,
    c: T0,
    #[allow(unused)]
    #[doc(hidden)]
    pub b: T0,
    #[allow(unused)]
    pub(crate) a: T0,
}
#[derive(Object)]
pub struct FxDocsT<T0: Object>(T0, #[allow(unused)] #[doc(hidden)] pub T0, #[allow(unused)] T0, pub T0);
#[derive(Object)]
pub enum FxDocsV<T0: Object> {
    /// documented
    A { #[allow(unused)] x: T0, y: T0, #[allow(unused)] #[doc(hidden)] z: T0 },
    #[allow(unused)]
    B(T0, #[allow(unused)] T0, T0),
    #[doc(hidden)]
    C,
    D,
}
#[derive(Object)]
pub enum FxE1 { A }
#[derive(Object)]
pub enum FxE48 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47 }
#[derive(Object)]
pub enum FxExplicit { A = 7, B = 3, C = 200 }
#[derive(Object)]
pub enum FxV1<T0: Object> { V0(T0), U }
#[derive(Object)]
pub enum FxW1<T0: Object> { U, P(T0), N { s: T0 }, Z }
#[derive(Object)]
pub enum FxV2<T0: Object, T1: Object> { V0(T0), V1(T1), U }
#[derive(Object)]
pub enum FxW2<T0: Object, T1: Object> { U, P(T0, T1), N { s: T0, d: T1 }, Z }
#[derive(Object)]
pub enum FxV3<T0: Object, T1: Object, T2: Object> { V0(T0), V1(T1), V2 { s: T2 }, U }
#[derive(Object)]
pub enum FxW3<T0: Object, T1: Object, T2: Object> { U, P(T0, T1, T2), N { s: T0, d: T1, value: T2 }, Z }
#[derive(Object)]
pub enum FxV4<T0: Object, T1: Object, T2: Object, T3: Object> { V0(T0), V1(T1), V2 { s: T2 }, V3(T3), U }
#[derive(Object)]
pub enum FxW4<T0: Object, T1: Object, T2: Object, T3: Object> { U, P(T0, T1, T2, T3), N { s: T0, d: T1, value: T2, a0: T3 }, Z }
#[derive(Object)]
pub enum FxV5<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object> { V0(T0), V1(T1), V2 { s: T2 }, V3(T3), V4(T4), U }
#[derive(Object)]
pub enum FxW5<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object> { U, P(T0, T1, T2, T3, T4), N { s: T0, d: T1, value: T2, a0: T3, i: T4 }, Z }
#[derive(Object)]
pub enum FxV6<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object> { V0(T0), V1(T1), V2 { s: T2 }, V3(T3), V4(T4), V5 { s: T5 }, U }
#[derive(Object)]
pub enum FxW6<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object> { U, P(T0, T1, T2, T3, T4, T5), N { s: T0, d: T1, value: T2, a0: T3, i: T4, ok: T5 }, Z }
#[derive(Object)]
pub enum FxV7<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object> { V0(T0), V1(T1), V2 { s: T2 }, V3(T3), V4(T4), V5 { s: T5 }, V6(T6), U }
#[derive(Object)]
pub enum FxW7<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object> { U, P(T0, T1, T2, T3, T4, T5, T6), N { s: T0, d: T1, value: T2, a0: T3, i: T4, ok: T5, data: T6 }, Z }
#[derive(Object)]
pub enum FxV8<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object> { V0(T0), V1(T1), V2 { s: T2 }, V3(T3), V4(T4), V5 { s: T5 }, V6(T6), V7(T7), U }
#[derive(Object)]
pub enum FxW8<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object> { U, P(T0, T1, T2, T3, T4, T5, T6, T7), N { s: T0, d: T1, value: T2, a0: T3, i: T4, ok: T5, data: T6, r#type: T7 }, Z }
#[derive(Object)]
pub enum FxV9<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object> { V0(T0), V1(T1), V2 { s: T2 }, V3(T3), V4(T4), V5 { s: T5 }, V6(T6), V7(T7), V8 { s: T8 }, U }
#[derive(Object)]
pub enum FxW9<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object> { U, P(T0, T1, T2, T3, T4, T5, T6, T7, T8), N { s: T0, d: T1, value: T2, a0: T3, i: T4, ok: T5, data: T6, r#type: T7, serde: T8 }, Z }
#[derive(Object)]
pub enum FxV10<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object, T9: Object> { V0(T0), V1(T1), V2 { s: T2 }, V3(T3), V4(T4), V5 { s: T5 }, V6(T6), V7(T7), V8 { s: T8 }, V9(T9), U }
#[derive(Object)]
pub enum FxW10<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object, T9: Object> { U, P(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9), N { s: T0, d: T1, value: T2, a0: T3, i: T4, ok: T5, data: T6, r#type: T7, serde: T8, result: T9 }, Z }
#[derive(Object)]
pub enum FxV11<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object, T9: Object, T10: Object> { V0(T0), V1(T1), V2 { s: T2 }, V3(T3), V4(T4), V5 { s: T5 }, V6(T6), V7(T7), V8 { s: T8 }, V9(T9), V10(T10), U }
#[derive(Object)]
pub enum FxW11<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object, T9: Object, T10: Object> { U, P(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10), N { s: T0, d: T1, value: T2, a0: T3, i: T4, ok: T5, data: T6, r#type: T7, serde: T8, result: T9, name: T10 }, Z }
#[derive(Object)]
pub enum FxV12<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object, T9: Object, T10: Object, T11: Object> { V0(T0), V1(T1), V2 { s: T2 }, V3(T3), V4(T4), V5 { s: T5 }, V6(T6), V7(T7), V8 { s: T8 }, V9(T9), V10(T10), V11 { s: T11 }, U }
#[derive(Object)]
pub enum FxW12<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object, T9: Object, T10: Object, T11: Object> { U, P(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11), N { s: T0, d: T1, value: T2, a0: T3, i: T4, ok: T5, data: T6, r#type: T7, serde: T8, result: T9, name: T10, x: T11 }, Z }
#[derive(Object)]
pub enum FxSameV<T0: Object> { A(T0), B(T0), C { s: T0, d: T0 }, D(T0, T0, T0), E, F { d: T0, s: T0 } }
#[derive(Object)]
pub enum FxLastOnly<T0: Object> { A(u8), B(u32), C(T0) }
#[derive(Object)]
pub enum FxFirstOnly<T0: Object> { C(T0), A(u8), B(u32) }
#[derive(Object)]
pub struct FxOpts<T0: Object, T1: Object> { pub a: Option<T0>, pub b: Option<T1>, pub c: (T0, T1), pub d: (T1, T0) }
#[derive(Object)]
pub struct FxOptsT<T0: Object, T1: Object>(pub Option<T0>, pub Option<T1>);
#[derive(Object)]
pub struct FxOptsR<T0: Object, T1: Object>(pub Option<T1>, pub Option<T0>);
#[derive(Object)]
pub struct FxPairs<T0: Object, T1: Object>((T0, u8), (T1, u8));
#[derive(Object)]
pub struct FxGen<T0: Object, T1: Object>(pub FxT2<T0, u8>, pub FxT2<T1, u8>);
#[derive(Object)]
pub enum FxOptsV<T0: Object, T1: Object> { A(Option<T0>), B(Option<T1>), C { x: (T0, u8), y: (T1, u8) } }
#[derive(Object)]
pub enum FxOptsW<T0: Object, T1: Object> { A(Option<T0>, Option<T1>), B { d: FxT2<T0, T0>, s: FxT2<T1, T0> } }
#[func]
pub fn fx0() -> u64 { do_fx0() }
pub fn do_fx0() -> u64 { let _ = (); 0 }
#[func]
pub fn fx1(b0: u64) -> u64 { do_fx1(b0) }
pub fn do_fx1(b0: u64) -> u64 { let _ = (b0); 0 }
#[func]
pub fn fx2(b0: u64, b1: u64) -> u64 { do_fx2(b0, b1) }
pub fn do_fx2(b0: u64, b1: u64) -> u64 { let _ = (b0, b1); 0 }
#[func]
pub fn fx3(b0: u64, b1: u64, b2: u64) -> u64 { do_fx3(b0, b1, b2) }
pub fn do_fx3(b0: u64, b1: u64, b2: u64) -> u64 { let _ = (b0, b1, b2); 0 }
#[func]
pub fn fx4(b0: u64, b1: u64, b2: u64, b3: u64) -> u64 { do_fx4(b0, b1, b2, b3) }
pub fn do_fx4(b0: u64, b1: u64, b2: u64, b3: u64) -> u64 { let _ = (b0, b1, b2, b3); 0 }
#[func]
pub fn fx5(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64) -> u64 { do_fx5(b0, b1, b2, b3, b4) }
pub fn do_fx5(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64) -> u64 { let _ = (b0, b1, b2, b3, b4); 0 }
#[func]
pub fn fx6(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64, b5: u64) -> u64 { do_fx6(b0, b1, b2, b3, b4, b5) }
pub fn do_fx6(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64, b5: u64) -> u64 { let _ = (b0, b1, b2, b3, b4, b5); 0 }
#[func]
pub fn fx7(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64, b5: u64, b6: u64) -> u64 { do_fx7(b0, b1, b2, b3, b4, b5, b6) }
pub fn do_fx7(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64, b5: u64, b6: u64) -> u64 { let _ = (b0, b1, b2, b3, b4, b5, b6); 0 }
#[func]
pub fn fx8(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64, b5: u64, b6: u64, b7: u64) -> u64 { do_fx8(b0, b1, b2, b3, b4, b5, b6, b7) }
pub fn do_fx8(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64, b5: u64, b6: u64, b7: u64) -> u64 { let _ = (b0, b1, b2, b3, b4, b5, b6, b7); 0 }
#[func]
pub fn fx9(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64, b5: u64, b6: u64, b7: u64, b8: u64) -> u64 { do_fx9(b0, b1, b2, b3, b4, b5, b6, b7, b8) }
pub fn do_fx9(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64, b5: u64, b6: u64, b7: u64, b8: u64) -> u64 { let _ = (b0, b1, b2, b3, b4, b5, b6, b7, b8); 0 }
#[func]
pub fn fx10(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64, b5: u64, b6: u64, b7: u64, b8: u64, b9: u64) -> u64 { do_fx10(b0, b1, b2, b3, b4, b5, b6, b7, b8, b9) }
pub fn do_fx10(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64, b5: u64, b6: u64, b7: u64, b8: u64, b9: u64) -> u64 { let _ = (b0, b1, b2, b3, b4, b5, b6, b7, b8, b9); 0 }
#[func]
pub fn fx11(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64, b5: u64, b6: u64, b7: u64, b8: u64, b9: u64, b10: u64) -> u64 { do_fx11(b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10) }
pub fn do_fx11(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64, b5: u64, b6: u64, b7: u64, b8: u64, b9: u64, b10: u64) -> u64 { let _ = (b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10); 0 }
#[func]
pub fn fx12(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64, b5: u64, b6: u64, b7: u64, b8: u64, b9: u64, b10: u64, b11: u64) -> u64 { do_fx12(b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11) }
pub fn do_fx12(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64, b5: u64, b6: u64, b7: u64, b8: u64, b9: u64, b10: u64, b11: u64) -> u64 { let _ = (b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11); 0 }
#[func]
pub fn fx13(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64, b5: u64, b6: u64, b7: u64, b8: u64, b9: u64, b10: u64, b11: u64, b12: u64) -> u64 { do_fx13(b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12) }
pub fn do_fx13(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64, b5: u64, b6: u64, b7: u64, b8: u64, b9: u64, b10: u64, b11: u64, b12: u64) -> u64 { let _ = (b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12); 0 }
#[func]
pub fn fx14(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64, b5: u64, b6: u64, b7: u64, b8: u64, b9: u64, b10: u64, b11: u64, b12: u64, b13: u64) -> u64 { do_fx14(b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13) }
pub fn do_fx14(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64, b5: u64, b6: u64, b7: u64, b8: u64, b9: u64, b10: u64, b11: u64, b12: u64, b13: u64) -> u64 { let _ = (b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13); 0 }
#[func]
pub fn fx15(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64, b5: u64, b6: u64, b7: u64, b8: u64, b9: u64, b10: u64, b11: u64, b12: u64, b13: u64, b14: u64) -> u64 { do_fx15(b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14) }
pub fn do_fx15(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64, b5: u64, b6: u64, b7: u64, b8: u64, b9: u64, b10: u64, b11: u64, b12: u64, b13: u64, b14: u64) -> u64 { let _ = (b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14); 0 }
#[func]
pub fn fx16(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64, b5: u64, b6: u64, b7: u64, b8: u64, b9: u64, b10: u64, b11: u64, b12: u64, b13: u64, b14: u64, b15: u64) -> u64 { do_fx16(b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15) }
pub fn do_fx16(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64, b5: u64, b6: u64, b7: u64, b8: u64, b9: u64, b10: u64, b11: u64, b12: u64, b13: u64, b14: u64, b15: u64) -> u64 { let _ = (b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15); 0 }
#[func]
pub fn fx17(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64, b5: u64, b6: u64, b7: u64, b8: u64, b9: u64, b10: u64, b11: u64, b12: u64, b13: u64, b14: u64, b15: u64, b16: u64) -> u64 { do_fx17(b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16) }
pub fn do_fx17(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64, b5: u64, b6: u64, b7: u64, b8: u64, b9: u64, b10: u64, b11: u64, b12: u64, b13: u64, b14: u64, b15: u64, b16: u64) -> u64 { let _ = (b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16); 0 }
#[func]
pub fn fx18(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64, b5: u64, b6: u64, b7: u64, b8: u64, b9: u64, b10: u64, b11: u64, b12: u64, b13: u64, b14: u64, b15: u64, b16: u64, b17: u64) -> u64 { do_fx18(b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16, b17) }
pub fn do_fx18(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64, b5: u64, b6: u64, b7: u64, b8: u64, b9: u64, b10: u64, b11: u64, b12: u64, b13: u64, b14: u64, b15: u64, b16: u64, b17: u64) -> u64 { let _ = (b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16, b17); 0 }
#[func]
pub fn fx19(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64, b5: u64, b6: u64, b7: u64, b8: u64, b9: u64, b10: u64, b11: u64, b12: u64, b13: u64, b14: u64, b15: u64, b16: u64, b17: u64, b18: u64) -> u64 { do_fx19(b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16, b17, b18) }
pub fn do_fx19(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64, b5: u64, b6: u64, b7: u64, b8: u64, b9: u64, b10: u64, b11: u64, b12: u64, b13: u64, b14: u64, b15: u64, b16: u64, b17: u64, b18: u64) -> u64 { let _ = (b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16, b17, b18); 0 }
#[func]
pub fn fx20(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64, b5: u64, b6: u64, b7: u64, b8: u64, b9: u64, b10: u64, b11: u64, b12: u64, b13: u64, b14: u64, b15: u64, b16: u64, b17: u64, b18: u64, b19: u64) -> u64 { do_fx20(b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16, b17, b18, b19) }
pub fn do_fx20(b0: u64, b1: u64, b2: u64, b3: u64, b4: u64, b5: u64, b6: u64, b7: u64, b8: u64, b9: u64, b10: u64, b11: u64, b12: u64, b13: u64, b14: u64, b15: u64, b16: u64, b17: u64, b18: u64, b19: u64) -> u64 { let _ = (b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16, b17, b18, b19); 0 }
#[func]
pub fn fxv(b0: u64, b1: u64) { do_fxv(b0, b1) }
pub fn do_fxv(b0: u64, b1: u64) { let _ = (b0, b1); }
#[func]
pub fn fxr(b0: &u64, b1: &u64, b2: u64) -> u64 { do_fxr(b0, b1, b2) }
pub fn do_fxr(b0: &u64, b1: &u64, b2: u64) -> u64 { let _ = (b0, b1, b2); 0 }
