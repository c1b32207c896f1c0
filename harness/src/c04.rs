use crate::util::*;
use crate::Case;
use crossmist::{channel, Delayed, Deserializer, Object, Serializer};
use std::fs::File;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};

pub fn cases() -> Vec<Case> {
    vec![
        ("C04", "serde", serde),
        ("C04", "counts", counts),
        ("C04", "counts-async", counts_async),
        ("C04", "nested", nested),
        ("C04", "exhaustion", exhaustion),
        ("C04", "channels", channels),
    ]
}

#[derive(Object)]
pub struct Tree { pub a: Option<OwnedFd>, pub s: String, pub kids: Vec<Tree>, pub b: Result<File, u8> }
pub fn tree(ctx: &mut Ctx, depth: usize) -> Tree {
    let k = if depth == 0 { 0 } else { ctx.rng.below(4) };
    Tree {
        a: ctx.rng.bool().then(|| mkfile(0).into()),
        s: ctx.rng.string(5),
        kids: (0..k).map(|_| tree(ctx, depth - 1)).collect(),
        b: if ctx.rng.bool() { Ok(mkfile(1)) } else { Err(3) },
    }
}
pub fn tree_eq(a: &Tree, b: &Tree) {
    assert_eq!(a.a.as_ref().map(id_of), b.a.as_ref().map(id_of), "handle field a");
    assert_eq!(a.s, b.s);
    assert_eq!(a.b.as_ref().ok().map(id_of), b.b.as_ref().ok().map(id_of), "handle field b");
    assert_eq!(a.kids.len(), b.kids.len());
    for (x, y) in a.kids.iter().zip(&b.kids) { tree_eq(x, y); }
}

fn serde(ctx: &mut Ctx) {
    for _ in 0..ctx.n(60, 1000) {
        let t = tree(ctx, 3);
        let t2 = tree(ctx, 1);
        let before = fds();
        let mut s = Serializer::new();
        s.serialize(&t);
        s.serialize(&t2);
        let hs = s.drain_handles();
        ctx.case(format!("{} handles, seed {}", hs.len(), ctx.rng.0));
        let owned: Vec<OwnedFd> = hs.iter().map(|h| h.try_clone_to_owned().unwrap()).collect();
        assert!(s.drain_handles().is_empty(), "drained handles are returned twice");
        let mut d = Deserializer::new(s.into_vec(), owned);
        let r: Tree = unsafe { d.deserialize().unwrap() };
        let r2: Tree = unsafe { d.deserialize().unwrap() };
        drop(d);
        tree_eq(&t, &r);
        tree_eq(&t2, &r2);
        drop((r, r2));
        assert_eq!(fds(), before, "descriptors leaked or closed twice");
    }
}

const COUNTS: &[usize] = &[0, 1, 2, 3, 100, 252, 253, 254, 255, 505, 506, 507, 508, 759, 760, 1000];

fn check(sent: &[File], got: Vec<File>, rest: &str, what: &str) {
    assert_eq!(sent.len(), got.len(), "{what}: number of handles");
    for (i, (a, b)) in sent.iter().zip(&got).enumerate() {
        assert_eq!(id_of(a), id_of(b), "{what}: handle {i}");
        assert!(cloexec(b.as_raw_fd()));
    }
    assert_eq!(rest, "after");
}

fn counts(ctx: &mut Ctx) {
    raise_nofile();
    for &n in COUNTS {
        for &len in &[0usize, 10, 16383 * 2, 16383 * 5 + 1] {
            if n > 600 && len > 20 { continue; }
            let what = format!("{n} handles, {len} bytes");
            ctx.case(&what);
            let files: Vec<File> = (0..n).map(|i| mkfile(i as u64)).collect();
            let before = fds();
            let (mut tx, mut rx) = channel::<(Vec<u8>, Vec<File>, String)>().unwrap();
            let payload = ctx.rng.bytes(len);
            let msg = (payload, files, "after".to_string());
            let next = (vec![1u8], vec![mkfile(7)], "next".to_string());
            std::thread::scope(|sc| {
                sc.spawn(|| { tx.send(&msg).unwrap(); tx.send(&next).unwrap(); });
                let (p, f, s) = rx.recv().unwrap().unwrap();
                assert!(p == msg.0, "{what}: bytes differ");
                check(&msg.1, f, &s, &what);
                let (p, f, s) = rx.recv().unwrap().unwrap();
                assert_eq!((&p[..], f.len(), &s[..]), (&[1u8][..], 1, "next"), "{what}: following message");
                assert_eq!(id_of(&f[0]), id_of(&next.1[0]), "{what}: following message's handle");
            });
            drop((tx, rx, next));
            assert_eq!(fds(), before, "{what}: descriptors leaked or closed twice");
        }
    }
    // no bytes at all, only handles
    let arr: [OwnedFd; 300] = std::array::from_fn(|i| mkfile(i as u64).into());
    let (mut tx, mut rx) = channel::<[OwnedFd; 300]>().unwrap();
    ctx.case("[OwnedFd;300]");
    std::thread::scope(|sc| {
        sc.spawn(|| tx.send(&arr).unwrap());
        let r = rx.recv().unwrap().unwrap();
        for i in 0..300 { assert_eq!(id_of(&arr[i]), id_of(&r[i]), "handle {i} of a message without bytes"); }
    });
}

fn counts_async(ctx: &mut Ctx) {
    raise_nofile();
    for &n in &[0usize, 1, 253, 254, 507, 800] {
        for rt in ["tokio", "smol"] {
            let what = format!("{rt}: {n} handles");
            ctx.case(&what);
            let files: Vec<File> = (0..n).map(|i| mkfile(i as u64)).collect();
            let msg = (files, vec![3u8; 40000], "after".to_string());
            let got = if rt == "tokio" {
                tokio_rt().block_on(async {
                    let (mut tx, mut rx) = crossmist::tokio::channel::<(Vec<File>, Vec<u8>, String)>().unwrap();
                    set_sndbuf(tx.as_raw_fd(), 20000);
                    let (a, b) = tokio::join!(tx.send(&msg), rx.recv());
                    a.unwrap();
                    b.unwrap().unwrap()
                })
            } else {
                async_io::block_on(async {
                    let (mut tx, mut rx) = crossmist::smol::channel::<(Vec<File>, Vec<u8>, String)>().unwrap();
                    set_sndbuf(tx.as_raw_fd(), 20000);
                    let (a, b) = join(tx.send(&msg), rx.recv()).await;
                    a.unwrap();
                    b.unwrap().unwrap()
                })
            };
            assert!(got.1 == msg.1, "{what}: bytes");
            check(&msg.0, got.0, &got.2, &what);
        }
    }
}
fn nested(ctx: &mut Ctx) {
    for _ in 0..ctx.n(60, 600) {
        let t: Vec<Tree> = (0..1 + ctx.rng.below(3)).map(|_| tree(ctx, 3)).collect();
        ctx.case(format!("tree {}", ctx.rng.0));
        let before = fds();
        let (mut tx, mut rx) = channel::<(Tree, Delayed<Tree>, Option<File>, Delayed<Vec<File>>, File)>().unwrap();
        for x in t {
            let (y, o, f) = (tree(ctx, 2), ctx.rng.bool().then(|| mkfile(8)), mkfile(9));
            let z: Vec<File> = (0..ctx.rng.below(4)).map(|i| mkfile(i as u64)).collect();
            let yid = tree_ids(&y);
            let zid: Vec<_> = z.iter().map(id_of).collect();
            let msg = (x, Delayed::new(y), o, Delayed::new(z), f);
            tx.send(&msg).unwrap();
            let r = rx.recv().unwrap().unwrap();
            tree_eq(&msg.0, &r.0);
            assert_eq!(msg.2.as_ref().map(id_of), r.2.as_ref().map(id_of), "handle between delayed values");
            assert_eq!(id_of(&msg.4), id_of(&r.4), "handle after delayed values");
            // unwrap in the opposite order
            assert_eq!(r.3.deserialize().unwrap().iter().map(id_of).collect::<Vec<_>>(), zid, "second delayed value");
            assert_eq!(tree_ids(&r.1.deserialize().unwrap()), yid, "first delayed value");
        }
        drop((tx, rx));
        let _ = before;
    }
    // other handle-like types
    ctx.case("handle-like types");
    let (a, b) = std::os::unix::net::UnixStream::pair().unwrap();
    let f = mkfile(1);
    let (mut tx, mut rx) = channel::<(std::os::unix::net::UnixStream, File, std::os::unix::net::UnixStream)>().unwrap();
    let msg = (a, f, b);
    tx.send(&msg).unwrap();
    let r = rx.recv().unwrap().unwrap();
    assert_eq!((id_of(&msg.0), id_of(&msg.1), id_of(&msg.2)), (id_of(&r.0), id_of(&r.1), id_of(&r.2)));
}
pub fn tree_ids(t: &Tree) -> Vec<Option<(u64, u64)>> {
    let mut v = vec![t.a.as_ref().map(id_of)];
    for k in &t.kids { v.extend(tree_ids(k)); }
    v.push(t.b.as_ref().ok().map(id_of));
    v
}

/// The receiver runs out of descriptors at every possible point.
fn exhaustion(ctx: &mut Ctx) {
    raise_nofile();
    for &(n, len) in &[(1usize, 0usize), (2, 0), (5, 10), (5, 40000), (300, 10), (300, 40000)] {
        let frees: Vec<usize> = if n < 10 { (0..n).collect() } else { vec![0, 1, 252, 253, 254, 299] };
        for free in frees {
            let what = format!("{n} handles, {len} bytes, room for {free}");
            ctx.case(&what);
            let (mut tx, mut rx) = channel::<(Vec<u8>, Vec<File>, String)>().unwrap();
            let msg = (vec![5u8; len], (0..n).map(|i| mkfile(i as u64)).collect::<Vec<_>>(), "after".to_string());
            tx.send(&msg).unwrap();
            let next = (vec![9u8], vec![], "next".to_string());
            tx.send(&next).unwrap();
            // occupy all numbers up to the limit except `free`
            let top = fds().last().unwrap() + 1 + 400;
            let mut fill = Vec::new();
            loop {
                let f: OwnedFd = mkfile(0).into();
                if f.as_raw_fd() >= top { break; }
                fill.push(f);
            }
            for _ in 0..free { fill.pop(); }
            set_nofile(top as u64);
            let before = fds_probe();
            let r = rx.recv();
            match r {
                Ok(v) => panic!("{what}: received a value: {}", v.map_or("none".into(), |v| format!("{} handles", v.1.len()))),
                Err(e) => assert_ne!(e.kind(), std::io::ErrorKind::WouldBlock, "{what}"),
            }
            assert_eq!(fds_probe(), before, "{what}: descriptors of the lost message leaked");
            let r = rx.recv().unwrap_or_else(|e| panic!("{what}: following message: {e}")).unwrap();
            assert_eq!(r.2, "next", "{what}: following message");
            raise_nofile();
        }
    }
}
/// number of open descriptors without opening any
fn fds_probe() -> usize {
    (0..4096).filter(|fd| unsafe { libc::fcntl(*fd, libc::F_GETFD) } >= 0).count()
}

/// Channel ends travel through channels.
fn channels(ctx: &mut Ctx) {
    ctx.case("channel ends in messages");
    let (mut tx, mut rx) = channel::<(crossmist::Sender<String>, crossmist::Receiver<u32>, crossmist::Duplex<u8, u16>)>().unwrap();
    let (s, mut sr) = channel::<String>().unwrap();
    let (mut rs, r) = channel::<u32>().unwrap();
    let (d, mut dp) = crossmist::duplex::<u8, u16>().unwrap();
    tx.send(&(s, r, d)).unwrap();
    let (mut s, mut r, mut d) = rx.recv().unwrap().unwrap();
    s.send(&"hi".to_string()).unwrap();
    rs.send(&5).unwrap();
    d.send(&3).unwrap();
    dp.send(&1000).unwrap();
    assert_eq!(sr.recv().unwrap().unwrap(), "hi");
    assert_eq!(r.recv().unwrap(), Some(5));
    assert_eq!(dp.recv().unwrap(), Some(3));
    assert_eq!(d.recv().unwrap(), Some(1000));
    let _ = unsafe { OwnedFd::from_raw_fd(std::os::fd::IntoRawFd::into_raw_fd(s)) };
}
