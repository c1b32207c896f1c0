//! C13 delayed values, C14 failing conversions
use crate::util::*;
use crate::Case;
use crossmist::{channel, func, Delayed, Deserializer, NonTrivialObject, Object, Serializer};
use std::fs::File;
use std::io::{Error, ErrorKind};
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::sync::Arc;

pub fn cases() -> Vec<Case> {
    vec![
        ("C13", "order", order),
        ("C13", "lazy", lazy),
        ("C13", "positions", positions),
        ("C13", "child", in_child),
        ("C14", "drops", drops),
        ("C14", "would-block", would_block),
        ("C14", "channel-blocking", ch_blocking),
        ("C14", "channel-tokio", ch_tokio),
        ("C14", "channel-smol", ch_smol),
        ("C14", "handles", leak_handles),
    ]
}

fn through<T: Object>(v: &T) -> T {
    let mut s = Serializer::new();
    s.serialize(v);
    let hs = s.drain_handles();
    let owned = hs.iter().map(|h| h.try_clone_to_owned().unwrap()).collect();
    let mut d = Deserializer::new(s.into_vec(), owned);
    unsafe { d.deserialize().expect("deserialize") }
}

#[derive(Object)]
struct Inner { a: String, f: Vec<File>, r: Vec<Rc<u32>>, n: u64 }
fn inner(ctx: &mut Ctx) -> Inner {
    let k = ctx.rng.below(5) as u64;
    let sh = Rc::new(ctx.rng.next() as u32);
    Inner { a: ctx.rng.string(20), f: (0..k).map(mkfile).collect(), r: vec![sh.clone(), Rc::new(5), sh], n: ctx.rng.next() }
}
struct Want { a: String, ids: Vec<(u64, u64)>, r: Vec<u32>, n: u64 }
fn want(i: &Inner) -> Want { Want { a: i.a.clone(), ids: i.f.iter().map(id_of).collect(), r: i.r.iter().map(|x| **x).collect(), n: i.n } }
fn check(i: &Inner, w: &Want, what: &str) {
    assert_eq!(i.a, w.a, "{what}");
    assert_eq!(i.n, w.n, "{what}");
    assert_eq!(i.r.iter().map(|x| **x).collect::<Vec<_>>(), w.r, "{what}");
    assert!(Rc::ptr_eq(&i.r[0], &i.r[2]) && !Rc::ptr_eq(&i.r[0], &i.r[1]), "{what}: sharing inside a delayed value");
    assert_eq!(i.f.iter().map(id_of).collect::<Vec<_>>(), w.ids, "{what}: handles of a delayed value");
}

#[derive(Object)]
struct Outer { h0: File, d: Vec<Delayed<Inner>>, h1: File, sh: (Rc<String>, Delayed<Rc<String>>, Rc<String>), opt: Option<Delayed<Vec<u8>>>, h2: File, tail: u64 }

fn order(ctx: &mut Ctx) {
    for round in 0..ctx.n(60, 2000) {
        let n = ctx.rng.below(5);
        let ins: Vec<Inner> = (0..n).map(|_| inner(ctx)).collect();
        let wants: Vec<Want> = ins.iter().map(want).collect();
        ctx.case(format!("{n} delayed values with {:?} handles, round {}", wants.iter().map(|w| w.ids.len()).collect::<Vec<_>>(), round % 3));
        let hs = [mkfile(1), mkfile(2), mkfile(3)];
        let ids: Vec<_> = hs.iter().map(id_of).collect();
        let [h0, h1, h2] = hs;
        let sh = Rc::new("shared".to_string());
        let o = Outer { h0, d: ins.into_iter().map(Delayed::new).collect(), h1, sh: (sh.clone(), Delayed::new(sh.clone()), sh.clone()), opt: Some(Delayed::new(vec![1, 2, 3])), h2, tail: 0xFEED };
        let r = if round % 3 == 0 {
            struct Sy(Outer);
            unsafe impl Send for Sy {}
            unsafe impl Sync for Sy {}
            let (mut tx, mut rx) = channel::<Outer>().unwrap();
            let o = Sy(o);
            std::thread::scope(|sc| {
                let o = &o;
                let h = sc.spawn(move || { let o: &Sy = o; tx.send(&o.0).unwrap() });
                let r = Sy(rx.recv().unwrap().unwrap());
                h.join().unwrap();
                r
            }).0
        } else { through(&o) };
        assert_eq!([id_of(&r.h0), id_of(&r.h1), id_of(&r.h2)].to_vec(), ids, "handles around delayed values");
        assert_eq!(r.tail, 0xFEED, "the fields after a delayed value are off");
        assert!(Rc::ptr_eq(&r.sh.0, &r.sh.2), "sharing around a delayed value was lost");
        assert_eq!(*r.sh.0, "shared");
        let mut ds: Vec<(usize, Delayed<Inner>)> = r.d.into_iter().enumerate().collect();
        assert_eq!(ds.len(), n);
        // everything else is gone before the values are unwrapped
        drop((r.h0, r.h1, r.h2));
        let mut kept = Vec::new();
        while !ds.is_empty() {
            let k = ctx.rng.below(ds.len());
            let (i, d) = ds.remove(k);
            let v = d.deserialize().expect("unwrap a delayed value");
            check(&v, &wants[i], &format!("delayed value {i} of {n}"));
            kept.push((i, v));
        }
        for (i, v) in &kept { check(v, &wants[*i], "after the others were unwrapped"); }
        assert_eq!(r.opt.unwrap().deserialize().unwrap(), vec![1, 2, 3]);
        assert_eq!(*r.sh.1.deserialize().unwrap(), "shared");
    }
}

static BUILT: AtomicI64 = AtomicI64::new(0);
struct Counted(u32);
unsafe impl NonTrivialObject for Counted {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) { s.serialize(&self.0) }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> std::io::Result<Self> { let x = d.deserialize()?; BUILT.fetch_add(1, SeqCst); Ok(Counted(x)) }
}
fn lazy(ctx: &mut Ctx) {
    ctx.case("nothing is constructed before the unwrapping");
    let v = (1u8, Delayed::new(Counted(5)), vec![Delayed::new(vec![Counted(6), Counted(7)])], "x".to_string());
    let r = through(&v);
    assert_eq!(BUILT.load(SeqCst), 0, "the inner value was constructed on receipt");
    assert_eq!((r.0, r.3.as_str()), (1, "x"));
    assert_eq!(r.1.deserialize().unwrap().0, 5);
    assert_eq!(BUILT.load(SeqCst), 1);
    for d in r.2 { assert_eq!(d.deserialize().unwrap().iter().map(|c| c.0).collect::<Vec<_>>(), vec![6, 7]); }
    assert_eq!(BUILT.load(SeqCst), 3);
    ctx.case("a failing inner value fails only when unwrapped");
    let r = through(&(Delayed::new(Fail::new(1, Some(ErrorKind::Other))), 9u8));
    assert_eq!(r.1, 9);
    assert!(r.0.deserialize().is_err());
    ctx.case("dropping a delayed value closes its handles");
    let n = fds().len();
    let r = through(&Delayed::new((mkfile(1), mkfile(2))));
    drop(r);
    assert_eq!(fds().len(), n, "handles of a dropped delayed value leak");
}
fn positions(ctx: &mut Ctx) {
    ctx.case("nested");
    #[derive(Object)]
    enum E { A(Delayed<E2>), B { x: u8, d: Box<Delayed<String>>, y: u8 } }
    #[derive(Object)]
    struct E2(Delayed<(File, Delayed<File>)>, File);
    let (a, b, c) = (mkfile(1), mkfile(2), mkfile(3));
    let ids = [id_of(&a), id_of(&b), id_of(&c)];
    // a delayed value inside a delayed value stays delayed
    let e = E::A(Delayed::new(E2(Delayed::new((a, Delayed::new(b))), c)));
    match through(&e) {
        E::A(d) => {
            let e2 = d.deserialize().unwrap();
            assert_eq!(id_of(&e2.1), ids[2]);
            let (x, y) = e2.0.deserialize().unwrap();
            assert_eq!(id_of(&x), ids[0]);
            assert_eq!(id_of(&y.deserialize().unwrap()), ids[1]);
        }
        _ => panic!(),
    }
    match through(&E::B { x: 1, d: Box::new(Delayed::new("q".to_string())), y: 2 }) {
        E::B { x: 1, d, y: 2 } => assert_eq!(d.deserialize().unwrap(), "q"),
        _ => panic!("delayed value inside an enum"),
    }
    let v: Vec<Delayed<()>> = (0..4).map(|_| Delayed::new(())).collect();
    ctx.case("units");
    assert_eq!(through(&v).len(), 4);
    let m: std::collections::BTreeMap<u32, Delayed<Arc<Vec<u8>>>> = (0..5u32).map(|i| (i, Delayed::new(Arc::new(vec![i as u8; i as usize * 9000])))).collect();
    for (k, d) in through(&m).into_iter().rev() { assert_eq!(*d.deserialize().unwrap(), vec![k as u8; k as usize * 9000]); }
    ctx.case("many handles");
    raise_nofile();
    let fs: Vec<File> = (0..300).map(mkfile).collect();
    let ids: Vec<_> = fs.iter().map(id_of).collect();
    let r = through(&Delayed::new(fs));
    assert_eq!(r.deserialize().unwrap().iter().map(id_of).collect::<Vec<_>>(), ids);
}
#[func]
fn unwrap_in_child(a: File, d: Delayed<(File, Vec<String>)>, b: File, e: Delayed<File>) -> (Vec<(u64, u64)>, Vec<String>) {
    let e = e.deserialize().unwrap();
    let (f, v) = d.deserialize().unwrap();
    (vec![id_of(&a), id_of(&f), id_of(&b), id_of(&e)], v)
}
fn in_child(ctx: &mut Ctx) {
    ctx.case("child");
    let f: Vec<File> = (0..4).map(mkfile).collect();
    let ids: Vec<_> = f.iter().map(id_of).collect();
    let mut f = f.into_iter();
    let mut nx = || f.next().unwrap();
    let (a, b, c, d) = (nx(), nx(), nx(), nx());
    let (got, v) = unwrap_in_child.run(a, Delayed::new((b, vec!["x".into(), "y".into()])), c, Delayed::new(d)).unwrap();
    assert_eq!(got, ids);
    assert_eq!(v, ["x", "y"]);
}

// ---- C14

static LIVE: AtomicI64 = AtomicI64::new(0);
thread_local! { static ALIVE: std::cell::RefCell<std::collections::HashMap<u64, i64>> = Default::default(); }
fn born(id: u64) { ALIVE.with(|a| *a.borrow_mut().entry(id).or_insert(0) += 1); }
/// Decoding fails if `fail` is set; construction and destruction are counted per id.
struct Fail { id: u64, fail: Option<u8>, live: bool, _h: Option<File> }
const KINDS: &[ErrorKind] = &[ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::Interrupted, ErrorKind::UnexpectedEof, ErrorKind::OutOfMemory];
impl Fail {
    fn new(id: u64, fail: Option<ErrorKind>) -> Self { Fail { id, fail: fail.map(|k| KINDS.iter().position(|x| *x == k).unwrap() as u8), live: false, _h: None } }
    fn with(id: u64, fail: Option<ErrorKind>) -> Self { Fail { _h: Some(mkfile(id)), ..Fail::new(id, fail) } }
}
impl Drop for Fail {
    fn drop(&mut self) {
        if self.live {
            LIVE.fetch_sub(1, SeqCst);
            ALIVE.with(|a| { let mut a = a.borrow_mut(); let n = a.get_mut(&self.id).expect("destroyed something that was never constructed"); *n -= 1; assert!(*n >= 0, "destroyed twice"); });
        }
    }
}
unsafe impl NonTrivialObject for Fail {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) { s.serialize(&self.id); s.serialize(&self.fail); s.serialize(&self._h); }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> std::io::Result<Self> {
        let id: u64 = d.deserialize()?;
        let fail: Option<u8> = d.deserialize()?;
        let h: Option<File> = d.deserialize()?;
        if let Some(k) = fail { return Err(Error::new(KINDS[k as usize], format!("construction {id}"))); }
        LIVE.fetch_add(1, SeqCst);
        born(id);
        Ok(Fail { id, fail: None, live: true, _h: h })
    }
}
fn all_dead(what: &str) {
    ALIVE.with(|a| {
        for (id, n) in a.borrow_mut().drain() { assert_eq!(n, 0, "{what}: part {id} was constructed {n} more times than it was destroyed"); }
    });
    assert_eq!(LIVE.swap(0, SeqCst), 0, "{what}");
}
/// Decode directly; expect the failure of part `bad`.
fn direct<T: Object>(ctx: &mut Ctx, what: &str, v: T, bad: u64) {
    ctx.case(what);
    let before = fds().len();
    let mut s = Serializer::new();
    s.serialize(&v);
    let hs = s.drain_handles().iter().map(|h| h.try_clone_to_owned().unwrap()).collect();
    let mut d = Deserializer::new(s.into_vec(), hs);
    match unsafe { d.deserialize::<T>() } {
        Ok(_) => panic!("{what}: no error"),
        Err(e) => assert_eq!(e.to_string(), format!("construction {bad}"), "{what}"),
    }
    drop(d);
    all_dead(what);
    assert_eq!(fds().len(), before, "{what}: descriptors leaked or closed twice");
}
#[derive(Object)]
struct St { a: Fail, b: Fail, s: String, c: Fail, f: Fail }
#[derive(Object)]
enum En { X(Fail, Fail, Fail), Y { p: Fail, q: Fail } }
trait Dy: Object { }
impl Dy for St {}
impl Dy for Fail {}

fn drops(ctx: &mut Ctx) {
    fn fl(i: u64, bad: u64) -> Fail { let k = if i == bad { Some(KINDS[(bad % 5) as usize]) } else { None }; if i % 2 == 0 { Fail::with(i, k) } else { Fail::new(i, k) } }
    fn arr<const N: usize>(ctx: &mut Ctx) {
        for bad in 0..N as u64 {
            let mut it = 0..N as u64;
            direct(ctx, &format!("[_; {N}] failing at {bad}"), [(); N].map(|_| fl(it.next().unwrap(), bad)), bad);
        }
    }
    arr::<1>(ctx); arr::<2>(ctx); arr::<3>(ctx); arr::<8>(ctx); arr::<33>(ctx);
    for bad in 0..6 {
        let v = |n: u64| -> Vec<Fail> { (0..n).map(|i| fl(i, bad)).collect() };
        direct(ctx, &format!("Vec {bad}"), v(6), bad);
        direct(ctx, &format!("Box<[_]> {bad}"), v(6).into_boxed_slice(), bad);
        direct(ctx, &format!("VecDeque {bad}"), v(6).into_iter().collect::<std::collections::VecDeque<_>>(), bad);
        direct(ctx, &format!("LinkedList {bad}"), v(6).into_iter().collect::<std::collections::LinkedList<_>>(), bad);
        direct(ctx, &format!("BTreeMap {bad}"), v(6).into_iter().enumerate().collect::<std::collections::BTreeMap<_, _>>(), bad);
        direct(ctx, &format!("HashMap {bad}"), std::iter::once((1u8, v(6))).collect::<std::collections::HashMap<_, _>>(), bad);
        direct(ctx, &format!("[Vec<_>; 3] {bad}"), { let mut i = v(6).into_iter(); [(); 3].map(|_| vec![i.next().unwrap(), i.next().unwrap()]) }, bad);
        direct(ctx, &format!("[[_; 2]; 3] {bad}"), { let mut i = v(6).into_iter(); [(); 3].map(|_| [i.next().unwrap(), i.next().unwrap()]) }, bad);
        direct(ctx, &format!("tuple {bad}"), { let mut i = v(6).into_iter(); let mut x = || i.next().unwrap(); (x(), x(), (x(), "s".to_string(), x()), x(), x()) }, bad);
        direct(ctx, &format!("nested {bad}"), { let mut i = v(6).into_iter(); let mut x = || i.next().unwrap(); (Some(x()), Ok::<_, u8>(x()), Rc::new(x()), Arc::new(vec![x()]), Box::new(x()), [Box::new([x()])]) }, bad);
        direct(ctx, &format!("dyn {bad}"), { let mut i = v(6).into_iter(); let mut x = || i.next().unwrap(); let b: Vec<Box<dyn Dy>> = vec![Box::new(x()), Box::new(St { a: x(), b: x(), s: "z".into(), c: x(), f: x() }), Box::new(x())]; b }, bad);
        direct(ctx, &format!("shared {bad}"), { let mut i = v(6).into_iter(); let mut x = || i.next().unwrap(); let (a, b) = (Rc::new(x()), Rc::new(x())); (a.clone(), (b.clone(), a.clone(), x()), (x(), a, x(), b, x())) }, bad);
        if bad < 4 { direct(ctx, &format!("struct {bad}"), { let mut i = v(6).into_iter(); let mut x = || i.next().unwrap(); St { a: x(), b: x(), s: "t".repeat(50), c: x(), f: x() } }, bad); }
        if bad < 3 { direct(ctx, &format!("enum {bad}"), { let mut i = v(6).into_iter(); let mut x = || i.next().unwrap(); En::X(x(), x(), x()) }, bad); }
        if bad < 2 { direct(ctx, &format!("enum named {bad}"), { let mut i = v(6).into_iter(); let mut x = || i.next().unwrap(); En::Y { p: x(), q: x() } }, bad); }
    }
    ctx.case("no failure");
    let a: [Fail; 5] = [0, 1, 2, 3, 4].map(|i| Fail::with(i, None));
    let r = through(&a);
    assert_eq!(LIVE.load(SeqCst), 5);
    drop(r);
    all_dead("array");
}

fn mix(k: ErrorKind) -> (String, Vec<Fail>, [Fail; 3]) {
    ("x".repeat(40_000), vec![Fail::with(1, None), Fail::new(2, None)], [Fail::with(3, None), Fail::with(4, Some(k)), Fail::with(5, None)])
}
fn good() -> (String, Vec<Fail>, [Fail; 3]) { ("ok".into(), vec![Fail::with(6, None)], [7, 8, 9].map(|i| Fail::with(i, None))) }
type Mix = (String, Vec<Fail>, [Fail; 3]);
fn expect_err(what: &str, k: ErrorKind, r: std::io::Result<Option<Mix>>) {
    match r {
        Ok(_) => panic!("{what} {k:?}: no error"),
        Err(e) if k == ErrorKind::WouldBlock => assert!(e.kind() != ErrorKind::WouldBlock, "{what}: a would-block error of the conversion came through"),
        Err(e) => assert_eq!((e.kind(), e.to_string()), (k, "construction 4".to_string()), "{what}"),
    }
}
fn would_block(ctx: &mut Ctx) { ch_blocking(ctx) }
fn ch_blocking(ctx: &mut Ctx) {
    for k in KINDS.iter().copied() {
        ctx.case(format!("blocking {k:?}"));
        let before = fds().len();
        let (mut tx, mut rx) = channel::<Mix>().unwrap();
        for _ in 0..2 { tx.send(&mix(k)).unwrap(); tx.send(&good()).unwrap(); }
        drop(tx);
        for _ in 0..2 {
            expect_err("blocking", k, rx.recv());
            all_dead("blocking");
            let g = rx.recv().expect("the channel is unusable after a failed conversion").expect("a message was lost");
            assert_eq!(g.0, "ok");
            drop(g);
        }
        assert!(rx.recv().unwrap().is_none());
        drop(rx);
        all_dead("blocking");
        assert_eq!(fds().len(), before, "blocking {k:?}: descriptors leaked");
    }
}
async fn limited<T>(f: impl std::future::Future<Output = T>) -> T {
    tokio::time::timeout(std::time::Duration::from_secs(20), f).await.expect("the receive waits for more data after a conversion error")
}
fn ch_tokio(ctx: &mut Ctx) {
    tokio_rt().block_on(async {
        for k in KINDS.iter().copied() {
            ctx.case(format!("tokio {k:?}"));
            let before = fds().len();
            let (mut tx, mut rx) = crossmist::tokio::channel::<Mix>().unwrap();
            for _ in 0..2 { tx.send(&mix(k)).await.unwrap(); tx.send(&good()).await.unwrap(); }
            for _ in 0..2 {
                expect_err("tokio", k, limited(rx.recv()).await);
                all_dead("tokio");
                let g = limited(rx.recv()).await.expect("the channel is unusable after a failed conversion").expect("a message was lost");
                assert_eq!(g.0, "ok");
            }
            drop(tx);
            assert!(limited(rx.recv()).await.unwrap().is_none());
            drop(rx);
            assert_eq!(fds().len(), before, "tokio {k:?}: descriptors leaked");
        }
    });
}
fn ch_smol(ctx: &mut Ctx) {
    for k in KINDS.iter().copied() {
        ctx.case(format!("smol {k:?}"));
        let kk = k;
        let h = std::thread::spawn(move || {
            async_io::block_on(async {
                let (mut tx, mut rx) = crossmist::smol::channel::<Mix>().unwrap();
                for _ in 0..2 { tx.send(&mix(kk)).await.unwrap(); tx.send(&good()).await.unwrap(); }
                for _ in 0..2 {
                    expect_err("smol", kk, rx.recv().await);
                    all_dead("smol");
                    let g = rx.recv().await.expect("the channel is unusable after a failed conversion").expect("a message was lost");
                    assert_eq!(g.0, "ok");
                }
                drop(tx);
                assert!(rx.recv().await.unwrap().is_none());
            })
        });
        for _ in 0..2000 {
            if h.is_finished() { break; }
            std::thread::sleep(std::time::Duration::from_millis(10));
        }
        assert!(h.is_finished(), "smol {k:?}: the receive waits for more data after a conversion error");
        if let Err(e) = h.join() { std::panic::resume_unwind(e); }
    }
}
fn leak_handles(ctx: &mut Ctx) {
    let before = fds().len();
    for bad in [0usize, 1, 150, 299] {
        ctx.case(format!("300 handles, failure at {bad}"));
        raise_nofile();
        let (mut tx, mut rx) = channel::<Vec<Fail>>().unwrap();
        let v: Vec<Fail> = (0..300).map(|i| Fail::with(i, if i as usize == bad { Some(ErrorKind::Other) } else { None })).collect();
        tx.send(&v).unwrap();
        drop(v);
        let e = rx.recv().err().expect("no error");
        assert_eq!(e.to_string(), format!("construction {bad}"));
        all_dead("300 handles");
        drop((tx, rx));
        assert_eq!(fds().len(), before, "descriptors leaked after a failed conversion");
    }
}
