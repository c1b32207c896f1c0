//! C15 duplex channels and requests, C16 spawning
use crate::util::*;
use crate::Case;
use crossmist::{duplex, func, Delayed, Duplex, FnObject, FnOnceObject, Object, Receiver, Sender, StaticRef, static_ref, lambda};
use std::collections::{BTreeMap, HashMap};
use std::fs::File;
use std::io::ErrorKind;
use std::os::fd::{AsRawFd, FromRawFd, IntoRawFd};
use std::rc::Rc;

pub fn cases() -> Vec<Case> {
    vec![
        ("C15", "independent", independent),
        ("C15", "request", request),
        ("C15", "close", close),
        ("C15", "tokio", d_tokio),
        ("C15", "smol", d_smol),
        ("C15", "convert", convert),
        ("C15", "child", with_child),
        ("C16", "args", args),
        ("C16", "low", low),
        ("C16", "once", once),
        ("C16", "large", large),
        ("C16", "async", spawn_async),
        ("C16", "generic", generic),
        ("C16", "fail", spawn_fail),
        ("C16", "returns", returns),
    ]
}

fn text(ctx: &mut Ctx) -> String { let n = [0, 10, 4000, 30_000][ctx.rng.below(4)]; ctx.rng.string(n) }

fn independent(ctx: &mut Ctx) {
    for round in 0..ctx.n(20, 400) {
        let (mut a, mut b) = duplex::<String, (u32, Vec<u8>)>().unwrap();
        let n = ctx.rng.below(6);
        let m = ctx.rng.below(6);
        ctx.case(format!("{n} one way, {m} the other way"));
        let xs: Vec<String> = (0..n).map(|_| text(ctx)).collect();
        let ys: Vec<(u32, Vec<u8>)> = (0..m).map(|i| (i as u32, { let k = ctx.rng.below(30_000); ctx.rng.bytes(k) })).collect();
        std::thread::scope(|sc| {
            let (xs, ys) = (&xs, &ys);
            let h = sc.spawn(move || {
                if round % 2 == 0 { for x in xs { a.send(x).unwrap(); } for y in ys { assert_eq!(a.recv().unwrap().as_ref(), Some(y)); } }
                else { let mut i = 0; let mut j = 0; while i < n || j < m { if i < n { a.send(&xs[i]).unwrap(); i += 1; } if j < m { assert_eq!(a.recv().unwrap().as_ref(), Some(&ys[j])); j += 1; } } }
                a
            });
            for y in ys { b.send(y).unwrap(); }
            for (i, x) in xs.iter().enumerate() { assert_eq!(b.recv().unwrap().as_ref(), Some(x), "message {i}"); }
            let a = h.join().unwrap();
            drop(a);
            assert!(b.recv().unwrap().is_none());
        });
    }
    ctx.case("own messages are not received back");
    let (mut a, mut b) = duplex::<u32, u32>().unwrap();
    a.send(&1).unwrap();
    b.send(&2).unwrap();
    assert_eq!(a.recv().unwrap(), Some(2));
    assert_eq!(b.recv().unwrap(), Some(1));
}

fn server(mut d: Duplex<(u64, String), (u64, String)>, extra: u64) {
    while let Some((i, s)) = d.recv().unwrap() {
        for _ in 0..(if i == 3 { extra } else { 0 }) { d.send(&(999, "extra".into())).unwrap(); }
        d.send(&(i * 2, s.chars().rev().collect())).unwrap();
    }
}
fn request(ctx: &mut Ctx) {
    let (mut a, b) = duplex::<(u64, String), (u64, String)>().unwrap();
    std::thread::scope(|sc| {
        sc.spawn(move || server(b, 0));
        for i in 0..ctx.n(30, 500) as u64 {
            let s = text(ctx);
            ctx.case(format!("request of {} characters", s.len()));
            let r = a.request(&(i, s.clone())).unwrap();
            assert_eq!(r, (i * 2, s.chars().rev().collect::<String>()), "response {i}");
        }
        drop(a);
    });
    ctx.case("values sent earlier come first");
    let (mut a, mut b) = duplex::<u8, u8>().unwrap();
    b.send(&10).unwrap();
    b.send(&20).unwrap();
    assert_eq!(a.request(&1).unwrap(), 10);
    assert_eq!(a.request(&2).unwrap(), 20);
    assert_eq!((b.recv().unwrap(), b.recv().unwrap()), (Some(1), Some(2)));
    b.send(&30).unwrap();
    assert_eq!(a.recv().unwrap(), Some(30));
    ctx.case("optional and unit responses");
    let (mut a, mut b) = duplex::<(), Option<()>>().unwrap();
    b.send(&None).unwrap();
    b.send(&Some(())).unwrap();
    assert_eq!(a.request(&()).unwrap(), None);
    assert_eq!(a.request(&()).unwrap(), Some(()));
    assert_eq!((b.recv().unwrap(), b.recv().unwrap()), (Some(()), Some(())));
}
fn close(ctx: &mut Ctx) {
    ctx.case("peer is gone");
    let (mut a, b) = duplex::<u8, u8>().unwrap();
    drop(b);
    assert!(a.request(&1).is_err());
    assert!(a.recv().unwrap_or(None).is_none());
    ctx.case("peer closes after the request");
    let (mut a, mut b) = duplex::<u8, String>().unwrap();
    std::thread::scope(|sc| {
        sc.spawn(move || { b.recv().unwrap(); drop(b); });
        let e = a.request(&1).expect_err("a request was answered by nobody");
        assert_eq!(e.kind(), ErrorKind::UnexpectedEof);
    });
    ctx.case("peer closes without reading the request");
    let (mut a, b) = duplex::<u8, String>().unwrap();
    std::thread::scope(|sc| {
        sc.spawn(move || { std::thread::sleep(std::time::Duration::from_millis(60)); drop(b); });
        let e = a.request(&1).expect_err("a request was answered by nobody");
        assert_eq!(e.kind(), ErrorKind::UnexpectedEof, "{e}");
    });
    ctx.case("peer sends and closes without reading");
    let (mut a, mut b) = duplex::<u8, String>().unwrap();
    a.send(&1).unwrap();
    b.send(&"early".into()).unwrap();
    drop(b);
    assert_eq!(a.recv().unwrap(), Some("early".into()));
    assert_eq!(a.recv().unwrap(), None);
    ctx.case("peer answers once and closes");
    let (mut a, mut b) = duplex::<u8, String>().unwrap();
    std::thread::scope(|sc| {
        sc.spawn(move || { b.recv().unwrap(); b.send(&"last".into()).unwrap(); b.recv().unwrap(); });
        assert_eq!(a.request(&1).unwrap(), "last");
        assert_eq!(a.request(&2).expect_err("second request").kind(), ErrorKind::UnexpectedEof);
    });
    ctx.case("an empty response is awaited too");
    let (mut a, mut b) = duplex::<u8, ()>().unwrap();
    std::thread::scope(|sc| {
        sc.spawn(move || { b.recv().unwrap(); b.send(&()).unwrap(); b.recv().unwrap(); });
        a.request(&1).unwrap();
        assert_eq!(a.request(&2).expect_err("second request").kind(), ErrorKind::UnexpectedEof);
    });
    let (mut a, mut b) = duplex::<u8, ()>().unwrap();
    let answered = &std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|sc| {
        sc.spawn(move || {
            b.recv().unwrap();
            std::thread::sleep(std::time::Duration::from_millis(30));
            answered.store(true, std::sync::atomic::Ordering::SeqCst);
            b.send(&()).unwrap();
        });
        a.request(&1).unwrap();
        assert!(answered.load(std::sync::atomic::Ordering::SeqCst), "request returned before the response was sent");
        assert_eq!(a.recv().unwrap(), None);
    });
    ctx.case("split off");
    let (a, b) = duplex::<u8, String>().unwrap();
    let fd = a.as_raw_fd();
    let mut tx: Sender<u8> = a.into_sender();
    assert_eq!(tx.as_raw_fd(), fd, "splitting off a side changed the underlying channel");
    let mut rx: Receiver<u8> = b.into_receiver();
    tx.send(&7).unwrap();
    assert_eq!(rx.recv().unwrap(), Some(7));
    drop(tx);
    assert_eq!(rx.recv().unwrap(), None);
    for way in 0..6 {
        ctx.case(format!("splitting off closes nothing and loses nothing, {way}"));
        let (mut a, mut b) = duplex::<u8, u8>().unwrap();
        a.send(&1).unwrap(); // waits at b
        if way != 4 { b.send(&2).unwrap(); } // waits at a
        let fd = b.as_raw_fd();
        let quiet = || {
            let mut p = libc::pollfd { fd, events: libc::POLLIN | libc::POLLRDHUP, revents: 0 };
            assert_eq!(unsafe { libc::poll(&mut p, 1, 0) }, 0, "the other side sees something: {:#x}", p.revents);
        };
        let rt = tokio_rt();
        let _in = rt.enter();
        match way {
            0 => { let mut a = a.into_receiver(); assert_eq!(a.recv().unwrap(), Some(2)); assert_eq!(b.recv().unwrap(), Some(1)); quiet(); drop(a); assert_eq!(b.recv().unwrap(), None); }
            1 => { let mut a = a.into_sender(); a.send(&3).unwrap(); assert_eq!(b.recv().unwrap(), Some(1)); assert_eq!(b.recv().unwrap(), Some(3)); quiet(); b.send(&4).unwrap(); quiet(); }
            2 => { let a: crossmist::tokio::Duplex<u8, u8> = a.try_into().unwrap(); let mut a = a.into_receiver(); assert_eq!(rt.block_on(a.recv()).unwrap(), Some(2)); assert_eq!(b.recv().unwrap(), Some(1)); quiet(); drop(a); assert_eq!(b.recv().unwrap(), None); }
            3 => { let a: crossmist::smol::Duplex<u8, u8> = a.try_into().unwrap(); let mut a = a.into_receiver(); assert_eq!(async_io::block_on(a.recv()).unwrap(), Some(2)); assert_eq!(b.recv().unwrap(), Some(1)); quiet(); drop(a); assert_eq!(b.recv().unwrap(), None); }
            4 => { let a: crossmist::smol::Duplex<u8, u8> = a.try_into().unwrap(); let mut a = a.into_sender(); async_io::block_on(a.send(&3)).unwrap(); assert_eq!(b.recv().unwrap(), Some(1)); assert_eq!(b.recv().unwrap(), Some(3)); quiet(); drop(a); assert_eq!(b.recv().unwrap(), None); }
            _ => { let a: crossmist::tokio::Duplex<u8, u8> = a.try_into().unwrap(); let mut a = a.into_sender(); rt.block_on(a.send(&3)).unwrap(); assert_eq!(b.recv().unwrap(), Some(1)); assert_eq!(b.recv().unwrap(), Some(3)); quiet(); b.send(&4).unwrap(); quiet(); }
        }
    }
}
macro_rules! async_body {
    ($ctx:ident, $m:ident, $join:ident) => {
        let (mut a, mut b) = crossmist::$m::duplex::<String, u64>().unwrap();
        for i in 0..10u64 {
            $ctx.case(format!("{} request {i}", stringify!($m)));
            let s = "q".repeat(i as usize * 9000);
            let (r, ()) = join(a.request(&s), async {
                let x = b.recv().await.unwrap().unwrap();
                b.send(&(x.len() as u64 + i)).await.unwrap();
            }).await;
            assert_eq!(r.unwrap(), s.len() as u64 + i);
        }
        b.send(&5).await.unwrap();
        a.send(&"x".into()).await.unwrap();
        assert_eq!(a.recv().await.unwrap(), Some(5));
        assert_eq!(b.recv().await.unwrap(), Some("x".to_string()));
        let (fa, fb) = (a.as_raw_fd(), b.as_raw_fd());
        let mut tx = b.into_sender();
        assert_eq!(tx.as_raw_fd(), fb);
        tx.send(&9).await.unwrap();
        drop(tx);
        let mut rx = a.into_receiver();
        assert_eq!(rx.as_raw_fd(), fa);
        assert_eq!(rx.recv().await.unwrap(), Some(9));
        assert_eq!(rx.recv().await.unwrap(), None);
        let (mut a, mut b) = crossmist::$m::duplex::<u8, u8>().unwrap();
        let (r, ()) = join(a.request(&1), async { b.recv().await.unwrap(); drop(b); }).await;
        assert_eq!(r.expect_err("answered by nobody").kind(), ErrorKind::UnexpectedEof);
        let (mut a, mut b) = crossmist::$m::duplex::<u8, ()>().unwrap();
        let (r, ()) = join(a.request(&1), async { b.recv().await.unwrap(); b.send(&()).await.unwrap(); }).await;
        r.unwrap();
        let (r, ()) = join(a.request(&1), async { b.recv().await.unwrap(); drop(b); }).await;
        assert_eq!(r.expect_err("answered by nobody").kind(), ErrorKind::UnexpectedEof);
    };
}
fn d_tokio(ctx: &mut Ctx) { tokio_rt().block_on(async { async_body!(ctx, tokio, join); }) }
fn d_smol(ctx: &mut Ctx) { async_io::block_on(async { async_body!(ctx, smol, join); }) }

fn convert(ctx: &mut Ctx) {
    ctx.case("blocking through raw descriptors");
    let (a, b) = duplex::<u8, String>().unwrap();
    let ia = id_of(&a);
    let fd = a.into_raw_fd();
    let mut a = unsafe { Duplex::<u8, String>::from_raw_fd(fd) };
    assert_eq!(id_of(&a), ia);
    let ib = id_of(&b);
    tokio_rt().block_on(async {
        ctx.case("to tokio");
        let mut b: crossmist::tokio::Duplex<String, u8> = b.try_into().unwrap();
        assert_eq!(id_of(&b), ib, "conversion changed the underlying channel");
        a.send(&3).unwrap();
        assert_eq!(b.recv().await.unwrap(), Some(3));
        b.send(&"back".into()).await.unwrap();
        assert_eq!(a.recv().unwrap(), Some("back".to_string()));
        let (s, r) = crossmist::channel::<u16>().unwrap();
        let (is, ir) = (id_of(&s), id_of(&r));
        let mut s: crossmist::tokio::Sender<u16> = s.try_into().unwrap();
        let mut r: crossmist::tokio::Receiver<u16> = r.try_into().unwrap();
        assert_eq!((id_of(&s), id_of(&r)), (is, ir));
        s.send(&8).await.unwrap();
        drop(s);
        assert_eq!((r.recv().await.unwrap(), r.recv().await.unwrap()), (Some(8), None));
    });
    async_io::block_on(async {
        ctx.case("to smol");
        let (a, b) = duplex::<u8, String>().unwrap();
        let (ia, ib) = (id_of(&a), id_of(&b));
        let mut a: crossmist::smol::Duplex<u8, String> = a.try_into().unwrap();
        let mut b: crossmist::smol::Duplex<String, u8> = b.try_into().unwrap();
        assert_eq!((id_of(&a), id_of(&b)), (ia, ib));
        a.send(&3).await.unwrap();
        assert_eq!(b.recv().await.unwrap(), Some(3));
        b.send(&"back".into()).await.unwrap();
        assert_eq!(a.recv().await.unwrap(), Some("back".to_string()));
        let (s, r) = crossmist::channel::<u16>().unwrap();
        let mut s: crossmist::smol::Sender<u16> = s.try_into().unwrap();
        let mut r: crossmist::smol::Receiver<u16> = r.try_into().unwrap();
        s.send(&8).await.unwrap();
        drop(s);
        assert_eq!((r.recv().await.unwrap(), r.recv().await.unwrap()), (Some(8), None));
    });
    ctx.case("conversions keep no copies");
    for i in 0..8 {
        let before = fds().len();
        let (a, b) = duplex::<u8, String>().unwrap();
        let (s, r) = crossmist::channel::<u16>().unwrap();
        let rt = tokio_rt();
        rt.block_on(async {
            let n = fds().len();
            match i % 4 {
                0 => {
                    let b: crossmist::tokio::Duplex<String, u8> = b.try_into().unwrap();
                    assert_eq!(fds().len(), n);
                    drop(b);
                    let mut a = a;
                    assert_eq!(a.recv().unwrap(), None);
                    let s: crossmist::tokio::Sender<u16> = s.try_into().unwrap();
                    assert_eq!(fds().len(), n - 1);
                    drop(s);
                    let mut r: crossmist::tokio::Receiver<u16> = r.try_into().unwrap();
                    assert_eq!(r.recv().await.unwrap(), None);
                }
                1 => {
                    let b: crossmist::smol::Duplex<String, u8> = b.try_into().unwrap();
                    drop(b);
                    let mut a = a;
                    assert_eq!(a.recv().unwrap(), None);
                    let s: crossmist::smol::Sender<u16> = s.try_into().unwrap();
                    drop(s);
                    let mut r: crossmist::smol::Receiver<u16> = r.try_into().unwrap();
                    assert_eq!(r.recv().await.unwrap(), None);
                }
                2 => {
                    let mut a: crossmist::tokio::Duplex<u8, String> = a.try_into().unwrap();
                    drop(b);
                    assert_eq!(a.recv().await.unwrap(), None);
                    let mut s: crossmist::tokio::Sender<u16> = s.try_into().unwrap();
                    let r: crossmist::tokio::Receiver<u16> = r.try_into().unwrap();
                    drop(r);
                    assert!(s.send(&1).await.is_err());
                }
                _ => {
                    let a = a.into_sender();
                    drop(a);
                    let mut b = b.into_receiver();
                    assert_eq!(b.recv().unwrap(), None);
                    let mut s = s;
                    drop(unsafe { Receiver::<u16>::from_raw_fd(r.into_raw_fd()) });
                    assert!(s.send(&1).is_err());
                }
            }
        });
        drop(rt);
        // the smol reactor keeps descriptors of its own from its first use on
        if i > 1 { assert_eq!(fds().len(), before, "a conversion leaked a descriptor"); }
    }
    ctx.case("sender and receiver through raw descriptors");
    let (s, r) = crossmist::channel::<u16>().unwrap();
    let (is, ir) = (id_of(&s), id_of(&r));
    let mut s = unsafe { Sender::<u16>::from_raw_fd(s.into_raw_fd()) };
    let mut r = unsafe { Receiver::<u16>::from_raw_fd(r.into_raw_fd()) };
    assert_eq!((id_of(&s), id_of(&r)), (is, ir));
    s.send(&1).unwrap();
    assert_eq!(r.recv().unwrap(), Some(1));
    ctx.case("channel ends inside messages");
    let (mut t, mut u) = crossmist::channel::<(Sender<u16>, Receiver<u16>, Duplex<u8, u8>)>().unwrap();
    let (d1, mut d2) = duplex::<u8, u8>().unwrap();
    let (s2, mut r2) = crossmist::channel::<u16>().unwrap();
    t.send(&(s2, r, d1)).unwrap();
    let (mut s2, mut r, mut d1) = u.recv().unwrap().unwrap();
    s.send(&40).unwrap();
    s2.send(&41).unwrap();
    d1.send(&42).unwrap();
    d2.send(&43).unwrap();
    assert_eq!((r.recv().unwrap(), r2.recv().unwrap(), d2.recv().unwrap(), d1.recv().unwrap()), (Some(40), Some(41), Some(42), Some(43)));
}
#[func]
fn echo(mut d: Duplex<(u64, String), (u64, String)>, k: u64) -> u64 {
    let mut n = 0;
    while let Some((i, s)) = d.recv().unwrap() { n += 1; d.send(&(i + k, s + "!")).unwrap(); }
    n
}
fn with_child(ctx: &mut Ctx) {
    let (mut a, b) = duplex::<(u64, String), (u64, String)>().unwrap();
    let c = echo.spawn(b, 100).unwrap();
    for i in 0..20 {
        ctx.case(format!("child request {i}"));
        let s = text(ctx);
        assert_eq!(a.request(&(i, s.clone())).unwrap(), (i + 100, s + "!"));
    }
    drop(a);
    assert_eq!(c.join().unwrap(), 20);
}

// ---- C16

#[derive(Object, PartialEq, Debug, Clone)]
enum Kind { A, B(String, u8), C { x: Vec<u16>, y: Option<Box<Kind>> } }
#[func]
fn many(a: u8, b: String, c: Vec<String>, d: Kind, e: (u16, char), f: BTreeMap<String, u32>, g: Option<u64>, h: [String; 2], i: f64, j: u8) -> (Vec<String>, u64) {
    (vec![format!("{a} {b} {c:?} {d:?} {e:?} {f:?} {g:?} {h:?} {i} {j}")], a as u64 * 1000 + j as u64)
}
#[func]
fn same_types(a: u32, b: u32, c: u32, d: u32, e: u32) -> Vec<u32> { vec![a, b, c, d, e] }
#[func]
fn pairs(a: String, b: String) -> (String, String) { (a, b) }
#[func]
fn files(a: File, n: u8, b: Vec<File>, s: String, c: Option<File>, d: (u8, File)) -> (Vec<(u64, u64)>, u8, String) {
    let mut v = vec![id_of(&a)];
    v.extend(b.iter().map(id_of));
    v.extend(c.iter().map(id_of));
    v.push(id_of(&d.1));
    (v, n, s)
}
#[func]
fn shared(a: Rc<String>, b: (Rc<String>, Rc<String>), c: Vec<Rc<Rc<String>>>) -> Vec<bool> {
    vec![Rc::ptr_eq(&b.0, &b.1), Rc::ptr_eq(&c[0], &c[1]), *a == "shared"]
}
#[func]
fn nothing() -> Vec<u8> { vec![1] }
#[func]
fn calls(f: Box<dyn FnObject<(u32, u32), Output = u32>>, g: Box<dyn FnOnceObject<(String,), Output = String>>, r: StaticRef<u32>) -> (u32, String) { (f.call_object((5, 3)) + *r, g.call_object_once(("z".into(),))) }
#[func]
fn twin_a(x: u32) -> String { format!("a{x}") }
#[func]
fn twin_b(x: u32) -> String { format!("b{x}") }
#[func]
fn wide(a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: u8, a9: u8, b0: u8, b1: u8, b2: u8, b3: u8, b4: u8, b5: u8, b6: u8, b7: u8, b8: u8, b9: u8) -> Vec<u8> {
    vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9]
}

/// Nothing depends on which numbers the descriptors have.
fn low(ctx: &mut Ctx) {
    raise_nofile();
    for k in 0..3 {
        for n in [0u64, 1, 4] {
            ctx.case(format!("{n} files, the lowest {k} descriptors free"));
            let (want, got) = with_low(k, || {
                let (a, b, c, d): (File, Vec<File>, File, File) = (mkfile(1), (0..n).map(mkfile).collect(), mkfile(2), mkfile(3));
                let mut want = vec![id_of(&a)];
                want.extend(b.iter().map(id_of));
                want.push(id_of(&c));
                want.push(id_of(&d));
                (want, files.run(a, 77, b, "txt".into(), Some(c), (1, d)))
            });
            let (v, k, s) = got.expect("a child with low descriptors");
            assert_eq!((k, s.as_str()), (77, "txt"));
            assert!(v == want, "{n} handles arrived in other positions");
            let got = with_low(k.min(2) as i32, || same_types.run(1, 2, 3, 4, 5));
            assert_eq!(got.expect("a child with a low control channel"), vec![1, 2, 3, 4, 5]);
        }
    }
}
fn args(ctx: &mut Ctx) {
    ctx.case("no arguments");
    assert_eq!(nothing.run().unwrap(), vec![1]);
    ctx.case("same types");
    assert_eq!(same_types.run(1, 2, 3, 4, 5).unwrap(), vec![1, 2, 3, 4, 5], "arguments in another order");
    assert_eq!(same_types.spawn(5, 4, 3, 2, 1).unwrap().join().unwrap(), vec![5, 4, 3, 2, 1]);
    ctx.case("20 arguments");
    assert_eq!(wide.run(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19).unwrap(), (0..20).collect::<Vec<u8>>());
    for _ in 0..ctx.n(4, 40) {
        let (s, t) = (text(ctx), text(ctx));
        ctx.case(format!("strings of {} and {}", s.len(), t.len()));
        assert_eq!(pairs.run(s.clone(), t.clone()).unwrap(), (s, t));
    }
    ctx.case("many types");
    let d = Kind::C { x: vec![1, 2], y: Some(Box::new(Kind::B("q".into(), 9))) };
    let f: BTreeMap<String, u32> = [("a".to_string(), 1), ("b".to_string(), 2)].into();
    let want = format!("{} {} {:?} {:?} {:?} {:?} {:?} {:?} {} {}", 7, "bb", vec!["c".to_string()], d, (3u16, 'é'), f, Some(5u64), ["h".to_string(), "".to_string()], 1.5, 9);
    assert_eq!(many.run(7, "bb".into(), vec!["c".into()], d, (3, 'é'), f, Some(5), ["h".into(), "".into()], 1.5, 9).unwrap(), (vec![want], 7009));
    ctx.case("handles among the arguments");
    raise_nofile();
    for n in [0u64, 1, 5, 260] {
        let (a, b, c, d): (File, Vec<File>, File, File) = (mkfile(1), (0..n).map(mkfile).collect(), mkfile(2), mkfile(3));
        let mut want = vec![id_of(&a)];
        want.extend(b.iter().map(id_of));
        want.push(id_of(&c));
        want.push(id_of(&d));
        let (v, k, s) = files.run(a, 77, b, "txt".into(), Some(c), (1, d)).unwrap();
        assert_eq!((k, s.as_str()), (77, "txt"));
        assert!(v == want, "{n} handles arrived in other positions");
    }
    ctx.case("shared pointers");
    let sh = Rc::new("shared".to_string());
    let rr = Rc::new(sh.clone());
    assert_eq!(shared.run(sh.clone(), (sh.clone(), sh.clone()), vec![rr.clone(), rr]).unwrap(), vec![true; 3]);
    ctx.case("functions");
    let k = 100u32;
    let p = "p".to_string();
    let (x, y) = calls.run(lambda! { move(k: u32) |a: u32, b: u32| -> u32 { k + a * 10 + b } }, lambda! { move(p: String) |s: String| -> String { p + &s } }, static_ref!(u32, 1000)).unwrap();
    assert_eq!((x, y.as_str()), (1153, "pz"));
    ctx.case("the function itself");
    let (a, b) = (twin_a.spawn(1).unwrap(), twin_b.spawn(2).unwrap());
    assert_eq!((a.join().unwrap(), b.join().unwrap()), ("a1".to_string(), "b2".to_string()));
}

#[func]
fn append(mut f: File, s: String) { use std::io::Write; f.write_all(s.as_bytes()).unwrap(); }
#[func]
fn append_val(mut f: File, s: String) -> u8 { use std::io::Write; f.write_all(s.as_bytes()).unwrap(); 3 }
fn once(ctx: &mut Ctx) {
    use std::io::{Read, Seek};
    for i in 0..5 {
        ctx.case("executed exactly once");
        let mut f = mkfile(i);
        append.spawn(f.try_clone().unwrap(), "x".into()).unwrap().join().unwrap();
        assert_eq!(append_val.spawn(f.try_clone().unwrap(), "y".into()).unwrap().join().unwrap(), 3);
        append.run(f.try_clone().unwrap(), "z".into()).unwrap();
        let mut s = String::new();
        f.rewind().unwrap();
        f.read_to_string(&mut s).unwrap();
        assert_eq!(s, "xyz", "a function was executed a different number of times");
    }
}
#[func]
fn sum(v: Vec<u64>, w: Vec<u8>) -> (u64, usize, Vec<u8>) { (v.iter().fold(0, |a, b| a.wrapping_add(*b)), v.len(), w) }
#[func]
fn count(v: Vec<File>) -> Vec<(u64, u64)> { v.iter().map(id_of).collect() }
fn large(ctx: &mut Ctx) {
    raise_nofile();
    for n in [0u64, 1, 100, 253, 254, 700] {
        ctx.case(format!("{n} files as arguments"));
        let v: Vec<File> = (0..n).map(mkfile).collect();
        let ids: Vec<_> = v.iter().map(id_of).collect();
        assert!(count.run(v).unwrap() == ids, "{n} files: others arrived");
    }
    for n in [0usize, 1, 2040, 2046, 2047, 2048, 100_000, 1_000_000] {
        let v: Vec<u64> = (0..n as u64).map(|x| x * 3).collect();
        let w = ctx.rng.bytes(n);
        ctx.case(format!("{} bytes of arguments", n * 9));
        let (a, b, c) = sum.run(v.clone(), w.clone()).unwrap();
        assert!(a == v.iter().fold(0u64, |a, b| a.wrapping_add(*b)) && b == n && c == w, "arguments of {n} elements changed");
    }
}
#[func(tokio(flavor = "current_thread"))]
async fn t_add(a: u32, s: String, f: File) -> (u32, String, (u64, u64)) { tokio::time::sleep(std::time::Duration::from_millis(2)).await; (a + 1, s + "t", id_of(&f)) }
#[func(smol)]
async fn s_add(a: u32, s: String, f: File) -> (u32, String, (u64, u64)) { (a + 2, s + "s", id_of(&f)) }
#[func]
fn b_add(a: u32, s: String, f: File) -> (u32, String, (u64, u64)) { (a + 3, s + "b", id_of(&f)) }
fn spawn_async(ctx: &mut Ctx) {
    macro_rules! go {
        ($f:ident, $m:ident $(, $aw:tt)?) => {{
            ctx.case(concat!(stringify!($f), " ", stringify!($m)));
            let f = mkfile(3);
            let id = id_of(&f);
            let (a, s, i) = $f.$m(10, "q".into(), f)$(.$aw)?.unwrap();
            let k = match stringify!($f) { "t_add" => (11, "qt"), "s_add" => (12, "qs"), _ => (13, "qb") };
            assert_eq!((a, s.as_str(), i), (k.0, k.1, id));
        }};
    }
    go!(t_add, run); go!(s_add, run); go!(b_add, run);
    tokio_rt().block_on(async { go!(t_add, run_tokio, await); go!(s_add, run_tokio, await); go!(b_add, run_tokio, await); });
    async_io::block_on(async { go!(t_add, run_smol, await); go!(s_add, run_smol, await); go!(b_add, run_smol, await); });
    ctx.case("delayed argument");
    assert_eq!(late.run(Delayed::new("w".to_string()), 4).unwrap(), "w4");
}
#[func]
fn late(d: Delayed<String>, n: u8) -> String { format!("{}{n}", d.deserialize().unwrap()) }
#[func]
fn gen<T: Object + 'static, U: Object + 'static>(a: T, b: U) -> (U, T) { (b, a) }
#[func]
fn map_of(a: HashMap<String, Vec<u8>>) -> HashMap<String, Vec<u8>> { a }
fn generic(ctx: &mut Ctx) {
    ctx.case("generic");
    assert_eq!(gen.run(1u8, "x".to_string()).unwrap(), ("x".to_string(), 1u8));
    assert_eq!(gen.run(vec![1u64], ((), Some(2u16))).unwrap(), (((), Some(2u16)), vec![1u64]));
    let m: HashMap<String, Vec<u8>> = (0..20u8).map(|i| (i.to_string(), vec![i; i as usize])).collect();
    assert_eq!(map_of.run(m.clone()).unwrap(), m);
}
#[derive(Object, Debug, PartialEq)]
struct Nil;
#[func]
fn r_nil() -> Nil { Nil }
#[func]
fn r_nils() -> ([Nil; 0], (), Nil) { ([], (), Nil) }
#[func]
fn r_unit() {}
#[func]
fn r_bool(x: bool) -> bool { !x }
/// What is returned may be of any type.
fn returns(ctx: &mut Ctx) {
    ctx.case("no contents");
    assert_eq!(r_nil.run().unwrap(), Nil);
    assert_eq!(r_nils.run().unwrap(), ([], (), Nil));
    r_unit.run().unwrap();
    assert!(r_bool.run(false).unwrap());
    tokio_rt().block_on(async { assert_eq!(r_nil.run_tokio().await.unwrap(), Nil); r_unit.run_tokio().await.unwrap(); });
    async_io::block_on(async { assert_eq!(r_nil.run_smol().await.unwrap(), Nil); r_unit.run_smol().await.unwrap(); });
}
fn spawn_fail(ctx: &mut Ctx) {
    ctx.case("no descriptors left");
    let n = fds().last().copied().unwrap_or(3) as u64;
    let keep: Vec<File> = (0..3).map(mkfile).collect();
    set_nofile(n + 4);
    let mut more = Vec::new();
    loop { let fd = unsafe { libc::dup(0) }; if fd < 0 { break; } more.push(unsafe { File::from_raw_fd(fd) }); }
    let r = nothing.spawn();
    assert!(r.is_err(), "a child was reported as started without descriptors for its channel");
    more.clear();
    set_nofile(1024);
    assert_eq!(nothing.run().unwrap(), vec![1]);
    drop(keep);
}
