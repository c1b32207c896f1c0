use crate::util::*;
use crate::Case;
use std::collections::*;
use std::ffi::{CString, OsString};
use std::num::*;
use std::os::unix::ffi::OsStringExt;
use std::path::PathBuf;
use std::time::{Duration, Instant, SystemTime};

pub fn cases() -> Vec<Case> {
    vec![
        ("C01", "pod", pod),
        ("C01", "text", text),
        ("C01", "sequences", sequences),
        ("C01", "maps", maps),
        ("C01", "tuples", tuples),
        ("C01", "nested", nested),
        ("C01", "slices", slices),
        ("C01", "large", large),
    ]
}

macro_rules! ints { ($ctx:ident, $($t:ty),*) => { $(
    { let mut v = vec![<$t>::MIN, <$t>::MAX, 0 as $t, 1 as $t, <$t>::MAX / 3];
      for _ in 0..$ctx.n(20, 500) { v.push(($ctx.rng.next() as u128 | (($ctx.rng.next() as u128) << 64)) as $t); }
      rt($ctx, stringify!($t), v); }
)* } }
macro_rules! nz { ($ctx:ident, $($t:ty : $i:ty),*) => { $(
    { let mut v = vec![<$t>::MIN, <$t>::MAX];
      for _ in 0..10 { if let Some(x) = <$t>::new($ctx.rng.next() as $i) { v.push(x); } }
      rt($ctx, stringify!($t), v.clone());
      rt($ctx, concat!("Option ", stringify!($t)), v.into_iter().map(Some).chain([None]).collect()); }
)* } }

fn pod(ctx: &mut Ctx) {
    ints!(ctx, i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
    nz!(ctx, NonZeroI8: i8, NonZeroI16: i16, NonZeroI32: i32, NonZeroI64: i64, NonZeroI128: i128, NonZeroIsize: isize,
        NonZeroU8: u8, NonZeroU16: u16, NonZeroU32: u32, NonZeroU64: u64, NonZeroU128: u128, NonZeroUsize: usize);
    rt(ctx, "bool", vec![true, false, false, true]);
    rt(ctx, "char", vec!['\0', 'a', '\u{D7FF}', '\u{E000}', '\u{10FFFF}', '🦀']);
    rt(ctx, "unit", vec![(), (), ()]);
    rt(ctx, "phantom", vec![std::marker::PhantomData::<String>; 3]);
    let f = vec![0.0f32, -0.0, f32::MIN, f32::MAX, f32::INFINITY, f32::NEG_INFINITY, f32::from_bits(0x7fc0_1234), f32::EPSILON];
    rt_many(ctx, "f32", f, |a, b| a.to_bits() == b.to_bits(), |x| format!("{x:?}"));
    let f = vec![0.0f64, -0.0, f64::MIN, f64::MAX, f64::INFINITY, f64::from_bits(0x7ff8_0000_dead_beef), 1.0 / 3.0];
    rt_many(ctx, "f64", f, |a, b| a.to_bits() == b.to_bits(), |x| format!("{x:?}"));
    rt(ctx, "Duration", vec![Duration::ZERO, Duration::MAX, Duration::new(5, 999_999_999)]);
    rt(ctx, "Instant", vec![Instant::now(), Instant::now() + Duration::new(1, 1)]);
    rt(ctx, "SystemTime", vec![SystemTime::UNIX_EPOCH, SystemTime::now()]);
    let f: Vec<Vec<f64>> = vec![vec![], vec![-0.0, 0.0, f64::from_bits(0xfff8_0000_0000_0001), f64::from_bits(1)]];
    rt_many(ctx, "Vec<f64>", f, |a, b| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits()), |x| format!("{x:?}"));
    rt_many(ctx, "Option<f32>", vec![Some(-0.0f32), None, Some(f32::from_bits(0x7f80_0001))], |a, b| a.map(f32::to_bits) == b.map(f32::to_bits), |x| format!("{x:?}"));
    rt(ctx, "Option<bool>", vec![Some(true), None, Some(false)]);
    rt(ctx, "Option<u64>", vec![Some(0u64), None, Some(u64::MAX)]);
    rt(ctx, "Result<u8,u64>", vec![Ok(3u8), Err(0u64), Err(u64::MAX), Ok(255)]);
    rt(ctx, "Result<u8,()>", vec![Ok(3u8), Err(())]);
    rt(ctx, "Result<u32,u32>", vec![Ok::<u32, u32>(3), Err(3)]);
    rt(ctx, "[u16;0]", vec![[0u16; 0]; 2]);
    rt(ctx, "[u16;5]", vec![[1u16, 2, 3, 4, 5], [9, 8, 7, 6, 5]]);
    rt(ctx, "[[u8;3];4]", vec![[[1u8, 2, 3]; 4], [[0; 3]; 4]]);
    rt(ctx, "Box<u32>", vec![Box::new(4u32), Box::new(77)]);
}

fn text(ctx: &mut Ctx) {
    for _ in 0..ctx.n(40, 1000) {
        let k = ctx.rng.below(5);
        let v: Vec<String> = (0..k).map(|_| ctx.rng.string(40)).collect();
        rt(ctx, "String", v);
        let v: Vec<CString> = (0..k)
            .map(|_| {
                let n = ctx.rng.below(30);
                CString::new(ctx.rng.bytes(n).into_iter().filter(|b| *b != 0).collect::<Vec<_>>()).unwrap()
            })
            .collect();
        rt(ctx, "CString", v);
        let v: Vec<OsString> = (0..k).map(|_| { let n = ctx.rng.below(30); OsString::from_vec(ctx.rng.bytes(n)) }).collect();
        // `==` on paths looks at components only
        rt_many(ctx, "PathBuf", v.iter().map(PathBuf::from).collect(), |a, b| a.as_os_str() == b.as_os_str(), |x| format!("{x:?}"));
        rt(ctx, "OsString", v);
    }
    let paths = ["", "/", "//", ".", "..", "a//b", "a/./b", "./a", "a/", "/a/../b/", "C:\\x", "a\n", "~"];
    rt_many(ctx, "PathBuf", paths.iter().map(PathBuf::from).collect(), |a, b| a.as_os_str() == b.as_os_str(), |x| format!("{x:?}"));
    rt(ctx, "OsString", paths.iter().map(OsString::from).collect());
    let big = ctx.rng.string(100_000);
    rt(ctx, "String", vec![big.clone(), String::new(), big]);
}

fn rng_u(ctx: &mut Ctx, max: usize) -> Vec<u32> {
    let n = ctx.rng.below(max + 1);
    (0..n).map(|_| ctx.rng.next() as u32 % 50).collect()
}
fn rng_s(ctx: &mut Ctx, max: usize) -> Vec<String> {
    let n = ctx.rng.below(max + 1);
    (0..n).map(|_| ctx.rng.string(6)).collect()
}

fn sequences(ctx: &mut Ctx) {
    for round in 0..ctx.n(40, 800) {
        let m = if round < 4 { round } else { 20 };
        let k = 1 + ctx.rng.below(3);
        let us: Vec<Vec<u32>> = (0..k).map(|_| rng_u(ctx, m)).collect();
        let ss: Vec<Vec<String>> = (0..k).map(|_| rng_s(ctx, m)).collect();
        rt(ctx, "Vec<u32>", us.clone());
        rt(ctx, "Vec<String>", ss.clone());
        rt(ctx, "Vec<Vec<String>>", vec![ss.clone(), vec![], ss.clone()]);
        rt(ctx, "Vec<Vec<u32>>", vec![us.clone(), vec![vec![]]]);
        rt(ctx, "Vec<()>", us.iter().map(|v| vec![(); v.len()]).collect());
        rt(ctx, "Vec<Option<String>>", ss.iter().map(|v| v.iter().map(|s| if s.len() % 2 == 0 { Some(s.clone()) } else { None }).collect()).collect::<Vec<Vec<_>>>());
        rt(ctx, "Box<[u32]>", us.iter().map(|v| v.clone().into_boxed_slice()).collect());
        rt(ctx, "Box<[String]>", ss.iter().map(|v| v.clone().into_boxed_slice()).collect());
        rt(ctx, "LinkedList<u32>", us.iter().map(|v| v.iter().copied().collect::<LinkedList<_>>()).collect());
        rt(ctx, "LinkedList<String>", ss.iter().map(|v| v.iter().cloned().collect::<LinkedList<_>>()).collect());
        let dq = |v: &Vec<u32>| {
            // wrap around the ring buffer
            let mut d: VecDeque<u32> = VecDeque::with_capacity(v.len() + 1);
            for _ in 0..3 { d.push_back(0); }
            for _ in 0..3 { d.pop_front(); }
            for (i, x) in v.iter().enumerate() { if i % 3 == 0 { d.push_front(*x) } else { d.push_back(*x) } }
            d
        };
        rt(ctx, "VecDeque<u32>", us.iter().map(dq).collect());
        rt(ctx, "VecDeque<String>", ss.iter().map(|v| v.iter().cloned().rev().collect::<VecDeque<_>>()).collect());
        rt_many(ctx, "BinaryHeap<u32>", us.iter().map(|v| v.iter().copied().collect::<BinaryHeap<_>>()).collect(),
            |a, b| a.clone().into_sorted_vec() == b.clone().into_sorted_vec(), |x| format!("{x:?}"));
        rt_many(ctx, "BinaryHeap<String>", ss.iter().map(|v| v.iter().cloned().collect::<BinaryHeap<_>>()).collect(),
            |a, b| a.clone().into_sorted_vec() == b.clone().into_sorted_vec(), |x| format!("{x:?}"));
    }
    rt(ctx, "[String;3]", vec![["a".to_string(), "".into(), "ccc".into()], ["x".into(), "y".into(), "z".into()]]);
    rt(ctx, "[String;0]", vec![<[String; 0]>::default(); 2]);
    rt(ctx, "[[String;2];2]", vec![[["a".to_string(), "b".into()], ["c".into(), "d".into()]]]);
    let long: Vec<String> = (0..5000).map(|i| i.to_string()).collect();
    rt(ctx, "Vec<String> long", vec![long]);
}

#[derive(Clone, Default)]
struct FixedHasher(std::collections::hash_map::DefaultHasher);
impl std::hash::Hasher for FixedHasher {
    fn finish(&self) -> u64 { self.0.finish() & 3 } // many collisions
    fn write(&mut self, b: &[u8]) { self.0.write(b) }
}
type Bh = std::hash::BuildHasherDefault<FixedHasher>;

fn maps(ctx: &mut Ctx) {
    for round in 0..ctx.n(40, 800) {
        let m = if round < 4 { round } else { 25 };
        let (a, b, c) = (rng_u(ctx, m), rng_s(ctx, m), rng_u(ctx, m));
        rt(ctx, "BTreeSet<u32>", vec![a.iter().copied().collect::<BTreeSet<_>>(), c.iter().copied().collect()]);
        rt(ctx, "BTreeSet<String>", vec![b.iter().cloned().collect::<BTreeSet<_>>()]);
        rt(ctx, "HashSet<u32>", vec![a.iter().copied().collect::<HashSet<u32>>(), HashSet::new()]);
        rt(ctx, "HashSet<String,Bh>", vec![b.iter().cloned().collect::<HashSet<String, Bh>>()]);
        rt(ctx, "BTreeMap<u32,String>", vec![a.iter().copied().zip(b.iter().cloned()).collect::<BTreeMap<_, _>>()]);
        rt(ctx, "BTreeMap<u32,u32>", vec![a.iter().copied().zip(c.iter().copied()).collect::<BTreeMap<_, _>>()]);
        rt(ctx, "BTreeMap<String,String>", vec![b.iter().cloned().zip(b.iter().rev().cloned()).collect::<BTreeMap<_, _>>()]);
        rt(ctx, "HashMap<String,u32>", vec![b.iter().cloned().zip(a.iter().copied()).collect::<HashMap<_, _>>()]);
        rt(ctx, "HashMap<u32,u32>", vec![a.iter().copied().zip(c.iter().copied()).collect::<HashMap<u32, u32>>()]);
        rt(ctx, "HashMap<u32,Vec<String>,Bh>", vec![a.iter().copied().map(|x| (x, b.clone())).collect::<HashMap<u32, Vec<String>, Bh>>()]);
    }
}

macro_rules! tup { ($ctx:ident, $($e:expr),*) => { rt($ctx, "tuple", vec![($($e,)*)]) } }
fn tuples(ctx: &mut Ctx) {
    let s = |x: &str| x.to_string();
    tup!(ctx, 1u8);
    tup!(ctx, s("one"));
    tup!(ctx, 1u8, 2u64);
    tup!(ctx, 2u64, 1u8);
    tup!(ctx, s("a"), 1u8);
    tup!(ctx, 1u8, s("a"));
    tup!(ctx, 1u8, 2u16, 3u32);
    tup!(ctx, s("a"), s("b"), s("c"));
    tup!(ctx, s("a"), 5u16, s("c"));
    tup!(ctx, s("a"), s("b"), s("c"), s("d"));
    tup!(ctx, (), s("b"), (), s("d"));
    tup!(ctx, s("a"), (s("b"), (s("c"), 4u8)), ((s("e"),), 6u64));
    tup!(ctx, 1u8, s("b"), 3u32, s("d"), 5u8, s("f"), 7u8);
    macro_rules! all_arities {
        ([$($acc:expr),*]) => { rt(ctx, "tuple of String", vec![($($acc,)*)]); };
        ([$($acc:expr),*] $h:expr $(, $t:expr)*) => {
            #[allow(unused_parens)]
            { all_arities!(@one [$($acc),*]); all_arities!([$($acc,)* $h] $($t),*); }
        };
        (@one []) => {};
        (@one [$($acc:expr),*]) => { rt_show(ctx, ($($acc,)*)); };
    }
    fn rt_show<T: crossmist::Object + PartialEq>(ctx: &mut Ctx, v: T) {
        rt_many(ctx, &format!("tuple {}", std::any::type_name::<T>()), vec![v], |a, b| a == b, |_| String::new());
    }
    all_arities!([] s("1"), s("2"), s("3"), s("4"), s("5"), s("6"), s("7"), s("8"), s("9"), s("10"), s("11"), s("12"));
    // std implements PartialEq up to 12 elements only
    macro_rules! bigtup {
        ($($i:tt)*) => {{
            let v = ($(format!("e{}", $i),)*);
            let r = roundtrip(&v);
            $( assert_eq!(v.$i, r.$i, "big tuple element {}", $i); )*
            let v = ($($i as u32 * 7 + 1,)*);
            let r = roundtrip(&v);
            $( assert_eq!(v.$i, r.$i, "big tuple element {}", $i); )*
            ctx.case(concat!("bigtuple", $(stringify!($i), " "),*));
        }};
    }
    bigtup!(0 1 2 3 4 5 6 7 8 9 10 11 12);
    bigtup!(0 1 2 3 4 5 6 7 8 9 10 11 12 13);
    bigtup!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14);
    bigtup!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);
    bigtup!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16);
    bigtup!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17);
    bigtup!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18);
}

fn nested(ctx: &mut Ctx) {
    for _ in 0..ctx.n(60, 1500) {
        let (a, b) = (rng_u(ctx, 6), rng_s(ctx, 6));
        let r = ctx.rng.next();
        let mut g = Rng(ctx.rng.next() | 1);
        rt(ctx, "Option<Option<String>>", vec![Some(Some(g.string(5))), Some(None), None]);
        rt(ctx, "Option<Vec<u32>>", vec![Some(a.clone()), None, Some(vec![])]);
        rt(ctx, "Result<String,Vec<u32>>", vec![Ok(g.string(5)), Err(a.clone()), Err(vec![]), Ok(String::new())]);
        rt(ctx, "Result<u8,String>", vec![Ok(r as u8), Err(g.string(3))]);
        rt(ctx, "Result<String,u8>", vec![Err(r as u8), Ok(g.string(3))]);
        rt(ctx, "Result<Option<u8>,()>", vec![Ok(Some(r as u8)), Ok(None), Err(())]);
        rt(ctx, "Option<Result<String,String>>", vec![Some(Ok(g.string(3))), Some(Err(g.string(3))), None]);
        rt(ctx, "mix", vec![(b.clone(), r, a.iter().map(|x| (*x, Some(b.clone()))).collect::<BTreeMap<u32, Option<Vec<String>>>>(), r as u8)]);
        rt(ctx, "Box<Vec<Box<String>>>", vec![Box::new(b.iter().cloned().map(Box::new).collect::<Vec<_>>())]);
        rt(ctx, "Vec<(u8,u64)>", vec![a.iter().map(|x| (*x as u8, r ^ *x as u64)).collect::<Vec<_>>()]);
        rt(ctx, "Vec<[Option<u16>;2]>", vec![a.iter().map(|x| [Some(*x as u16), None]).collect::<Vec<_>>()]);
        rt(ctx, "Vec<[String;2]>", vec![b.iter().map(|x| [x.clone(), x.to_uppercase()]).collect::<Vec<_>>()]);
        rt(ctx, "VecDeque<Result<BTreeSet<u32>,String>>", vec![a.iter().map(|x| if x % 2 == 0 { Ok(a.iter().copied().collect::<BTreeSet<u32>>()) } else { Err(g.string(4)) }).collect::<VecDeque<_>>()]);
        rt(ctx, "[(u8,String);3]", vec![[(1u8, g.string(4)), (2, g.string(4)), (3, g.string(4))]]);
    }
}

fn slices(ctx: &mut Ctx) {
    use crossmist::{Deserializer, Serializer};
    for _ in 0..ctx.n(30, 500) {
        let (a, b) = (rng_u(ctx, 8), rng_s(ctx, 8));
        ctx.case(format!("slice {a:?} {b:?}"));
        let mut s = Serializer::new();
        s.serialize_slice(&a);
        s.serialize_slice(&b);
        s.serialize_temporary(a.clone());
        s.write(&[1, 2, 3]);
        s.serialize_temporary(7u16);
        s.serialize_slice::<String>(&[]);
        s.serialize(&SENTINEL);
        let viaiter: Vec<u8> = s.into_iter().collect();
        let mut d = Deserializer::new(viaiter, vec![]);
        unsafe {
            for x in &a { assert_eq!(d.deserialize::<u32>().unwrap(), *x); }
            for x in &b { assert_eq!(d.deserialize::<String>().unwrap(), *x); }
            assert_eq!(d.deserialize::<Vec<u32>>().unwrap(), a);
            let mut buf = [0u8; 3];
            d.read(&mut buf);
            assert_eq!(buf, [1, 2, 3]);
            assert_eq!(d.deserialize::<u16>().unwrap(), 7);
            assert_eq!(d.deserialize::<u32>().unwrap(), SENTINEL);
        }
    }
}

/// Values whose size or number of elements crosses the powers of two a narrower counter would lose.
fn large(ctx: &mut Ctx) {
    fn big<T: crossmist::Object + PartialEq>(ctx: &mut Ctx, name: &str, vals: Vec<T>) {
        rt_many(ctx, name, vals, |a, b| a == b, |_| "..".into());
    }
    // one plain value read in a single piece
    let mut a = [0u8; 200_000];
    for (i, x) in a.iter_mut().enumerate() { *x = (i * 7 + i / 251) as u8; }
    let mut b = [0u64; 20_000];
    for (i, x) in b.iter_mut().enumerate() { *x = (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15); }
    big(ctx, "[u8;200000]", vec![a]);
    big(ctx, "[u64;20000]", vec![b, b]);
    big(ctx, "([u8;200000],String,[u64;20000])", vec![(a, "x".to_string(), b)]);
    big(ctx, "Box<[u8;200000]>", vec![Box::new(a)]);
    big(ctx, "Option<[u8;200000]>", vec![Some(a), None]);
    for n in [255usize, 256, 257, 4095, 4096, 65535, 65536, 65537, 70_001, 140_000] {
        let us: Vec<u32> = (0..n as u32).map(|i| i.wrapping_mul(2654435761)).collect();
        let by: Vec<u8> = us.iter().map(|x| (x >> 13) as u8).collect();
        let ss: Vec<String> = us.iter().map(|x| if x % 3 == 0 { String::new() } else { (x % 977).to_string() }).collect();
        ctx.case(format!("large {n}"));
        big(ctx, "Vec<u32> large", vec![us.clone(), vec![1]]);
        big(ctx, "Vec<u8> large", vec![by.clone()]);
        big(ctx, "Vec<()> large", vec![vec![(); n]]);
        big(ctx, "Vec<String> large", vec![ss.clone(), vec!["x".into()]]);
        big(ctx, "String large", vec![by.iter().map(|b| (b'a' + b % 26) as char).collect::<String>(), "y".into()]);
        big(ctx, "OsString large", vec![OsString::from_vec(by.clone())]);
        big(ctx, "PathBuf large", vec![PathBuf::from(OsString::from_vec(by.clone()))]);
        big(ctx, "CString large", vec![CString::new(by.iter().map(|b| b | 1).collect::<Vec<u8>>()).unwrap()]);
        big(ctx, "Box<[u32]> large", vec![us.clone().into_boxed_slice()]);
        big(ctx, "Box<[String]> large", vec![ss.clone().into_boxed_slice()]);
        if n < 100_000 {
            big(ctx, "LinkedList<String> large", vec![ss.iter().cloned().collect::<LinkedList<_>>()]);
            big(ctx, "LinkedList<u32> large", vec![us.iter().copied().collect::<LinkedList<_>>()]);
            big(ctx, "VecDeque<String> large", vec![ss.iter().cloned().collect::<VecDeque<_>>()]);
            big(ctx, "VecDeque<u32> large", vec![us.iter().copied().collect::<VecDeque<_>>()]);
            big(ctx, "BTreeSet<u32> large", vec![us.iter().copied().collect::<BTreeSet<_>>()]);
            big(ctx, "HashSet<u32> large", vec![us.iter().copied().collect::<HashSet<_>>()]);
            big(ctx, "BTreeMap<u32,String> large", vec![us.iter().copied().zip(ss.iter().cloned()).collect::<BTreeMap<_, _>>()]);
            big(ctx, "HashMap<u32,u8> large", vec![us.iter().copied().zip(by.iter().copied()).collect::<HashMap<_, _>>()]);
            big(ctx, "HashMap<u32,String> large", vec![us.iter().copied().zip(ss.iter().cloned()).collect::<HashMap<_, _>>()]);
            rt_many(ctx, "BinaryHeap<u32> large", vec![us.iter().copied().collect::<BinaryHeap<_>>()], |a, b| a.clone().into_sorted_vec() == b.clone().into_sorted_vec(), |_| "..".into());
            rt_many(ctx, "BinaryHeap<String> large", vec![ss.iter().cloned().collect::<BinaryHeap<_>>()], |a, b| a.clone().into_sorted_vec() == b.clone().into_sorted_vec(), |_| "..".into());
        }
    }
    let strs: [String; 300] = std::array::from_fn(|i| "z".repeat(i));
    big(ctx, "[String;300]", vec![strs]);
    let nest: Vec<Vec<String>> = (0..1000).map(|i| vec![i.to_string(); i % 70]).collect();
    big(ctx, "Vec<Vec<String>> large", vec![nest]);
}
