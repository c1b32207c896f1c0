//! C05 integrity, C06 resumption, C07 end of stream
use crate::util::*;
use crate::Case;
use crossmist::{channel, Deserializer, NonTrivialObject, Object, Serializer};
use std::fmt::Debug;
use std::fs::File;
use std::io::ErrorKind;
use std::os::fd::{AsRawFd, FromRawFd, IntoRawFd};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::time::Duration;

pub fn cases() -> Vec<Case> {
    vec![
        ("C05", "sizes", sizes),
        ("C05", "pod-sizes", pod_sizes),
        ("C05", "histories", histories),
        ("C05", "wire", wire),
        ("C05", "async", sizes_async),
        ("C06", "tokio", resume_tokio),
        ("C06", "smol", resume_smol),
        ("C06", "slow-peer", slow_peer),
        ("C06", "signals", signals),
        ("C06", "blocking-mode", blocking_mode),
        ("C07", "cut-blocking", cut_blocking),
        ("C07", "cut-tokio", cut_tokio),
        ("C07", "cut-smol", cut_smol),
        ("C07", "clean", clean),
        ("C07", "unread", unread),
        ("C07", "given", given),
    ]
}

fn interesting_sizes(ctx: &mut Ctx) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 7, 8, 9, 100, 16300];
    for k in [1usize, 2, 3, 4] {
        for base in [16383 * k, 16384 * k] {
            for d in -18i64..=18 {
                if k < 3 || d % 2 == 0 || d.abs() < 10 { v.push((base as i64 + d) as usize); }
            }
        }
    }
    v.push(1_000_003);
    v.push(16383 * 64);
    v.push(16383 * 64 - 8);
    for _ in 0..ctx.n(5, 200) { v.push(ctx.rng.below(200_000)); }
    v.sort();
    v.dedup();
    v
}

fn sizes(ctx: &mut Ctx) {
    let sz = interesting_sizes(ctx);
    let msgs: Vec<Vec<u8>> = sz.iter().map(|n| ctx.rng.bytes(*n)).collect();
    let (mut tx, mut rx) = channel::<Vec<u8>>().unwrap();
    std::thread::scope(|sc| {
        let m = &msgs;
        sc.spawn(move || { for x in m { tx.send(x).unwrap(); } });
        for x in &msgs {
            ctx.case(format!("{} bytes", x.len()));
            let r = rx.recv().unwrap_or_else(|e| panic!("message of {} bytes: {e}", x.len()));
            let r = r.unwrap_or_else(|| panic!("message of {} bytes: end of stream", x.len()));
            assert!(*x == r, "message of {} bytes arrived as {} bytes or changed", x.len(), r.len());
        }
        assert!(rx.recv().unwrap().is_none());
    });
}

fn pod_one<const N: usize>(ctx: &mut Ctx) {
    ctx.case(format!("[u8; {N}]"));
    let mut a = Box::new([0u8; N]);
    let b = ctx.rng.bytes(N);
    a.copy_from_slice(&b);
    let (mut tx, mut rx) = channel::<[u8; N]>().unwrap();
    std::thread::scope(|sc| {
        let a = &a;
        sc.spawn(move || { for _ in 0..3 { tx.send(a).unwrap(); } });
        for i in 0..3 {
            let r = rx.recv().unwrap().unwrap_or_else(|| panic!("[u8; {N}]: end of stream"));
            assert!(**a == r, "[u8; {N}] changed on the way (message {i})");
        }
        assert!(rx.recv().unwrap().is_none(), "[u8; {N}]: extra message");
    });
}
fn pod_sizes(ctx: &mut Ctx) {
    pod_one::<0>(ctx);
    pod_one::<1>(ctx);
    pod_one::<2>(ctx);
    pod_one::<4096>(ctx);
    pod_one::<16381>(ctx);
    pod_one::<16382>(ctx);
    pod_one::<16383>(ctx);
    pod_one::<16384>(ctx);
    pod_one::<16385>(ctx);
    pod_one::<32765>(ctx);
    pod_one::<32766>(ctx);
    pod_one::<32767>(ctx);
    pod_one::<32768>(ctx);
    pod_one::<49149>(ctx);
    pod_one::<49150>(ctx);
    pod_one::<200000>(ctx);
    let (mut tx, mut rx) = channel::<()>().unwrap();
    for _ in 0..5 { tx.send(&()).unwrap(); }
    drop(tx);
    for i in 0..5 { assert_eq!(rx.recv().unwrap(), Some(()), "unit message {i}"); }
    assert_eq!(rx.recv().unwrap(), None);
    #[derive(Object, PartialEq, Debug)]
    struct Empty;
    #[derive(Object, PartialEq, Debug)]
    struct NonPodEmpty(std::marker::PhantomData<String>, [String; 0]);
    let (mut tx, mut rx) = channel::<NonPodEmpty>().unwrap();
    let (mut tx2, mut rx2) = channel::<Empty>().unwrap();
    for _ in 0..3 {
        tx.send(&NonPodEmpty(std::marker::PhantomData, [])).unwrap();
        tx2.send(&Empty).unwrap();
    }
    drop((tx, tx2));
    for _ in 0..3 {
        ctx.case("empty");
        assert!(rx.recv().unwrap().is_some(), "empty message was lost");
        assert_eq!(rx2.recv().unwrap(), Some(Empty), "empty message was lost");
    }
    assert!(rx.recv().unwrap().is_none());
    assert_eq!(rx2.recv().unwrap(), None);
}

#[derive(Object, Debug)]
enum Msg { S(String), B(Vec<u8>), F(Vec<File>, Vec<u8>), U }

fn msg(ctx: &mut Ctx) -> Msg {
    let n = match ctx.rng.below(5) { 0 => 0, 1 => ctx.rng.below(50), 2 => 16383 - 20 + ctx.rng.below(40), 3 => 16383 * 3 - 20 + ctx.rng.below(40), _ => ctx.rng.below(120_000) };
    match ctx.rng.below(5) {
        0 => Msg::S(ctx.rng.string(n / 4)),
        1 | 2 => Msg::B(ctx.rng.bytes(n)),
        3 => { let k = ctx.rng.below(6); Msg::F((0..k).map(|i| mkfile(i as u64)).collect(), ctx.rng.bytes(n)) }
        _ => Msg::U,
    }
}
fn msg_eq(a: &Msg, b: &Msg, i: usize) {
    match (a, b) {
        (Msg::S(x), Msg::S(y)) => assert!(x == y, "message {i} differs"),
        (Msg::B(x), Msg::B(y)) => assert!(x == y, "message {i} differs ({} and {} bytes)", x.len(), y.len()),
        (Msg::F(f, x), Msg::F(g, y)) => {
            assert!(x == y, "message {i} differs");
            assert_eq!(f.iter().map(id_of).collect::<Vec<_>>(), g.iter().map(id_of).collect::<Vec<_>>(), "handles of message {i}");
        }
        (Msg::U, Msg::U) => {}
        _ => panic!("message {i} has another type"),
    }
}

fn histories(ctx: &mut Ctx) {
    for _ in 0..ctx.n(6, 80) {
        let msgs: Vec<Msg> = (0..40).map(|_| msg(ctx)).collect();
        ctx.case(format!("history {}", ctx.rng.0));
        let (mut tx, mut rx) = channel::<Msg>().unwrap();
        std::thread::scope(|sc| {
            let m = &msgs;
            sc.spawn(move || { for x in m { tx.send(x).unwrap(); } });
            for (i, x) in msgs.iter().enumerate() {
                let r = rx.recv().unwrap().unwrap_or_else(|| panic!("message {i}: end of stream"));
                msg_eq(x, &r, i);
            }
            assert!(rx.recv().unwrap().is_none(), "extra message");
        });
    }
}

/// What travels is one serialized object: packets of one marker byte and data; only the last marker is 1.
fn wire(ctx: &mut Ctx) {
    for n in [0usize, 1, 5, 16382, 16383 - 8, 16383 - 7, 16383 * 2 - 8, 16383 * 2 - 7, 100_000] {
        ctx.case(format!("wire {n}"));
        let v = ctx.rng.bytes(n);
        let mut s = Serializer::new();
        s.serialize(&v);
        let expect = s.into_vec();
        let p = packets_of(&v);
        let got: Vec<u8> = p.iter().flat_map(|p| p.data[1..].to_vec()).collect();
        assert!(got == expect, "{n} bytes: packets do not carry the serialized object");
    }
}

fn sizes_async(ctx: &mut Ctx) {
    let sz = [0usize, 1, 16370, 16375, 16376, 16383, 16384, 32758, 32759, 70000, 600_000];
    let msgs: Vec<Vec<u8>> = sz.iter().map(|n| ctx.rng.bytes(*n)).collect();
    for m in &msgs { ctx.case(format!("async {}", m.len())); }
    tokio_rt().block_on(async {
        let (mut tx, mut rx) = crossmist::tokio::channel::<Vec<u8>>().unwrap();
        join(async { for x in &msgs { tx.send(x).await.unwrap(); } drop(tx); },
             async { for x in &msgs { assert!(rx.recv().await.unwrap().unwrap() == *x, "tokio: message of {} bytes", x.len()); }
                     assert!(rx.recv().await.unwrap().is_none()); }).await;
    });
    async_io::block_on(async {
        let (mut tx, mut rx) = crossmist::smol::channel::<Vec<u8>>().unwrap();
        join(async { for x in &msgs { tx.send(x).await.unwrap(); } drop(tx); },
             async { for x in &msgs { assert!(rx.recv().await.unwrap().unwrap() == *x, "smol: message of {} bytes", x.len()); }
                     assert!(rx.recv().await.unwrap().is_none()); }).await;
    });
}

type Big = (Vec<u8>, Vec<File>, String);
fn bigmsg(ctx: &mut Ctx, n: usize, k: usize) -> Big {
    (ctx.rng.bytes(n), (0..k).map(|i| mkfile(i as u64)).collect(), format!("{n}/{k}"))
}
fn big_eq(a: &Big, b: &Big) {
    assert_eq!(a.2, b.2, "message was mixed up");
    assert!(a.0 == b.0, "bytes of message {} differ", a.2);
    assert_eq!(a.1.iter().map(id_of).collect::<Vec<_>>(), b.1.iter().map(id_of).collect::<Vec<_>>(), "handles of message {}", a.2);
}

fn resume_tokio(ctx: &mut Ctx) {
    raise_nofile();
    let msgs = vec![bigmsg(ctx, 300_000, 0), bigmsg(ctx, 5, 1), bigmsg(ctx, 200_000, 3), bigmsg(ctx, 10, 600), bigmsg(ctx, 120_000, 300), bigmsg(ctx, 0, 0), bigmsg(ctx, 1_000_000, 1)];
    let pods: Vec<[u8; 150_000]> = vec![[3; 150_000], [9; 150_000]];
    for m in &msgs { ctx.case(format!("tokio {}", m.2)); }
    // Sender and receiver share one thread: a transfer that blocks the thread would deadlock.
    tokio_rt().block_on(async {
        let (mut tx, mut rx) = crossmist::tokio::channel::<Big>().unwrap();
        set_sndbuf(tx.as_raw_fd(), 20000);
        join(async { for m in &msgs { tx.send(m).await.unwrap(); } },
             async { for m in &msgs { big_eq(m, &rx.recv().await.unwrap().unwrap()); } }).await;
        let (mut tx, mut rx) = crossmist::tokio::channel::<[u8; 150_000]>().unwrap();
        set_sndbuf(tx.as_raw_fd(), 20000);
        join(async { for m in &pods { tx.send(m).await.unwrap(); } },
             async { for m in &pods { assert!(rx.recv().await.unwrap().unwrap() == *m); } }).await;
        // Every message starts with handles, so a would-block hits packets that carry some.
        for (n, k) in [(5000, 1), (100, 3), (17000, 2), (0, 1)] {
            let many: Vec<Big> = (0..80).map(|_| bigmsg(ctx, n, k)).collect();
            ctx.case(format!("tokio queue of {}", many[0].2));
            let (mut tx, mut rx) = crossmist::tokio::channel::<Big>().unwrap();
            set_sndbuf(tx.as_raw_fd(), 20000);
            join(async { for m in &many { tx.send(m).await.unwrap(); } },
                 async { for m in &many { big_eq(m, &rx.recv().await.unwrap().unwrap()); } }).await;
        }
        let (mut a, mut b) = crossmist::tokio::duplex::<Big, Big>().unwrap();
        set_sndbuf(a.as_raw_fd(), 20000);
        set_sndbuf(b.as_raw_fd(), 20000);
        join(async { a.send(&msgs[0]).await.unwrap(); big_eq(&msgs[2], &a.recv().await.unwrap().unwrap()); },
             async { big_eq(&msgs[0], &b.recv().await.unwrap().unwrap()); b.send(&msgs[2]).await.unwrap(); }).await;
    });
}
fn resume_smol(ctx: &mut Ctx) {
    raise_nofile();
    let msgs = vec![bigmsg(ctx, 300_000, 0), bigmsg(ctx, 5, 1), bigmsg(ctx, 200_000, 3), bigmsg(ctx, 10, 600), bigmsg(ctx, 120_000, 300), bigmsg(ctx, 0, 0), bigmsg(ctx, 1_000_000, 1)];
    let pods: Vec<[u8; 150_000]> = vec![[3; 150_000], [9; 150_000]];
    for m in &msgs { ctx.case(format!("smol {}", m.2)); }
    async_io::block_on(async {
        let (mut tx, mut rx) = crossmist::smol::channel::<Big>().unwrap();
        set_sndbuf(tx.as_raw_fd(), 20000);
        join(async { for m in &msgs { tx.send(m).await.unwrap(); } },
             async { for m in &msgs { big_eq(m, &rx.recv().await.unwrap().unwrap()); } }).await;
        let (mut tx, mut rx) = crossmist::smol::channel::<[u8; 150_000]>().unwrap();
        set_sndbuf(tx.as_raw_fd(), 20000);
        join(async { for m in &pods { tx.send(m).await.unwrap(); } },
             async { for m in &pods { assert!(rx.recv().await.unwrap().unwrap() == *m); } }).await;
        // Every message starts with handles, so a would-block hits packets that carry some.
        for (n, k) in [(5000, 1), (100, 3), (17000, 2), (0, 1)] {
            let many: Vec<Big> = (0..80).map(|_| bigmsg(ctx, n, k)).collect();
            ctx.case(format!("smol queue of {}", many[0].2));
            let (mut tx, mut rx) = crossmist::smol::channel::<Big>().unwrap();
            set_sndbuf(tx.as_raw_fd(), 20000);
            join(async { for m in &many { tx.send(m).await.unwrap(); } },
                 async { for m in &many { big_eq(m, &rx.recv().await.unwrap().unwrap()); } }).await;
        }
        let (mut a, mut b) = crossmist::smol::duplex::<Big, Big>().unwrap();
        set_sndbuf(a.as_raw_fd(), 20000);
        set_sndbuf(b.as_raw_fd(), 20000);
        join(async { a.send(&msgs[0]).await.unwrap(); big_eq(&msgs[2], &a.recv().await.unwrap().unwrap()); },
             async { big_eq(&msgs[0], &b.recv().await.unwrap().unwrap()); b.send(&msgs[2]).await.unwrap(); }).await;
    });
}

/// A peer that delivers every packet separately with a pause, so that the receiver sees would-block
/// before every packet; and one that consumes packets with pauses.
fn slow_peer(ctx: &mut Ctx) {
    raise_nofile();
    for (n, k) in [(50_000usize, 0usize), (40_000, 5), (100, 700), (16383 * 2 - 24, 300)] {
        let m = bigmsg(ctx, n, k);
        for rt in ["blocking", "tokio", "smol"] {
            ctx.case(format!("slow {rt} {}", m.2));
            let packets = packets_of(&m);
            assert!(packets.len() > 1);
            let (a, b) = seqpair();
            let fd = b.into_raw_fd();
            std::thread::scope(|sc| {
                sc.spawn(move || {
                    for round in 0..2 {
                        for p in &packets {
                            std::thread::sleep(Duration::from_millis(if round == 0 { 8 } else { 1 }));
                            raw_send(a.as_raw_fd(), p);
                        }
                    }
                });
                let rx = unsafe { crossmist::Receiver::<Big>::from_raw_fd(fd) };
                match rt {
                    "blocking" => { let mut rx = rx; for _ in 0..2 { big_eq(&m, &rx.recv().unwrap().unwrap()); } }
                    "tokio" => tokio_rt().block_on(async {
                        let mut rx: crossmist::tokio::Receiver<Big> = rx.try_into().unwrap();
                        for _ in 0..2 { big_eq(&m, &rx.recv().await.unwrap().unwrap()); }
                    }),
                    _ => async_io::block_on(async {
                        let mut rx: crossmist::smol::Receiver<Big> = rx.try_into().unwrap();
                        for _ in 0..2 { big_eq(&m, &rx.recv().await.unwrap().unwrap()); }
                    }),
                }
            });
        }
        // slow consumer: packets on the wire must be exactly the undisturbed ones
        let reference = packets_of(&m);
        for rt in ["blocking", "tokio", "smol"] {
            ctx.case(format!("slow consumer {rt} {}", m.2));
            let (a, b) = seqpair();
            set_sndbuf(a.as_raw_fd(), 20000);
            let fd = a.into_raw_fd();
            let mut got = Vec::new();
            std::thread::scope(|sc| {
                let m = &m;
                sc.spawn(move || {
                    let tx = unsafe { crossmist::Sender::<Big>::from_raw_fd(fd) };
                    match rt {
                        "blocking" => { let mut tx = tx; tx.send(m).unwrap() }
                        "tokio" => tokio_rt().block_on(async { let mut tx: crossmist::tokio::Sender<Big> = tx.try_into().unwrap(); tx.send(m).await.unwrap() }),
                        _ => async_io::block_on(async { let mut tx: crossmist::smol::Sender<Big> = tx.try_into().unwrap(); tx.send(m).await.unwrap() }),
                    }
                });
                loop {
                    std::thread::sleep(Duration::from_millis(5));
                    match raw_recv(b.as_raw_fd(), false).unwrap() { Some(p) => got.push(p), None => break }
                }
            });
            let bytes = |v: &Vec<Packet>| v.iter().flat_map(|p| p.data[1..].to_vec()).collect::<Vec<u8>>();
            let hs = |v: &Vec<Packet>| v.iter().flat_map(|p| p.fds.iter().map(id_of).collect::<Vec<_>>()).collect::<Vec<_>>();
            assert!(bytes(&got) == bytes(&reference), "{rt}: bytes repeated or skipped after would-block");
            assert_eq!(hs(&got), hs(&reference), "{rt}: handles repeated or skipped after would-block");
        }
    }
}

/// Deliver SIGUSR1 (no SA_RESTART) to the calling thread all the time while `f` runs.
fn signals(ctx: &mut Ctx) {
    for (n, k) in [(400_000usize, 2usize), (40_000, 300)] {
        let m = bigmsg(ctx, n, k);
        ctx.case(format!("signals {}", m.2));
        // interrupted sender
        let (mut tx, mut rx) = channel::<Big>().unwrap();
        set_sndbuf(tx.as_raw_fd(), 20000);
        std::thread::scope(|sc| {
            let m = &m;
            sc.spawn(move || {
                std::thread::sleep(Duration::from_millis(30));
                for i in 0..2 {
                    let r = rx.recv().unwrap_or_else(|e| panic!("message {i} after an interrupted send: {e}"));
                    big_eq(m, &r.expect("end of stream"));
                }
            });
            with_signals(|| { for _ in 0..2 { tx.send(m).unwrap_or_else(|e| panic!("interrupted send: {e}")); } });
        });
        // interrupted receiver
        let packets = packets_of(&m);
        let (a, b) = seqpair();
        let fd = b.into_raw_fd();
        std::thread::scope(|sc| {
            sc.spawn(move || { for p in &packets { std::thread::sleep(Duration::from_millis(4)); raw_send(a.as_raw_fd(), p); } });
            let mut rx = unsafe { crossmist::Receiver::<Big>::from_raw_fd(fd) };
            with_signals(|| big_eq(&m, &rx.recv().unwrap_or_else(|e| panic!("interrupted receive: {e}")).unwrap()));
            assert!(rx.recv().unwrap().is_none());
        });
    }
}

/// Decoding that takes note of which thread state it ran in.
struct Slow(u8);
unsafe impl NonTrivialObject for Slow {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) { s.serialize(&self.0) }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> std::io::Result<Self> { Ok(Slow(d.deserialize()?)) }
}

/// Asynchronous ends stay usable when the descriptor itself is in blocking mode (the mode bit is shared
/// with whoever holds the same end), and blocking ends block.
fn blocking_mode(ctx: &mut Ctx) {
    fn make_blocking(fd: i32) {
        unsafe {
            let fl = libc::fcntl(fd, libc::F_GETFL);
            assert_eq!(libc::fcntl(fd, libc::F_SETFL, fl & !libc::O_NONBLOCK), 0);
        }
    }
    ctx.case("tokio ends with a blocking descriptor");
    let m = ctx.rng.bytes(400_000);
    tokio_rt().block_on(async {
        let (mut tx, mut rx) = crossmist::tokio::channel::<Vec<u8>>().unwrap();
        set_sndbuf(tx.as_raw_fd(), 20000);
        make_blocking(tx.as_raw_fd());
        make_blocking(rx.as_raw_fd());
        join(async { tx.send(&m).await.unwrap() }, async { assert!(rx.recv().await.unwrap().unwrap() == m) }).await;
    });
    ctx.case("smol ends with a blocking descriptor");
    async_io::block_on(async {
        let (mut tx, mut rx) = crossmist::smol::channel::<Vec<u8>>().unwrap();
        set_sndbuf(tx.as_raw_fd(), 20000);
        make_blocking(tx.as_raw_fd());
        make_blocking(rx.as_raw_fd());
        join(async { tx.send(&m).await.unwrap() }, async { assert!(rx.recv().await.unwrap().unwrap() == m) }).await;
    });
    ctx.case("blocking receive waits");
    let (mut tx, mut rx) = channel::<Slow>().unwrap();
    std::thread::scope(|sc| {
        sc.spawn(move || { std::thread::sleep(Duration::from_millis(60)); tx.send(&Slow(4)).unwrap(); std::thread::sleep(Duration::from_millis(30)); });
        assert_eq!(rx.recv().unwrap().unwrap().0, 4);
        assert!(rx.recv().unwrap().is_none());
    });
    ctx.case("blocking send waits");
    let (mut tx, mut rx) = channel::<Vec<u8>>().unwrap();
    set_sndbuf(tx.as_raw_fd(), 20000);
    std::thread::scope(|sc| {
        let m = &m;
        sc.spawn(move || { std::thread::sleep(Duration::from_millis(60)); assert!(rx.recv().unwrap().unwrap() == *m); });
        tx.send(m).unwrap();
    });
}

/// Feed the first `cut` packets of `m` (after `lead` whole messages), close, and look at what the receiver says.
fn cut<T: Object + Send + Sync>(ctx: &mut Ctx, name: &str, rt: &str, m: &T, eq: &dyn Fn(&T, &T)) {
    let total = packets_of(m).len();
    for lead in 0..2 {
        for cut in 0..=total {
            if total > 20 && cut > 3 && cut + 3 < total { continue; }
            let what = format!("{rt} {name}: {lead} whole messages and {cut} of {total} packets");
            ctx.case(&what);
            let (a, b) = seqpair();
            set_sndbuf(a.as_raw_fd(), 4_000_000);
            let (mut lead_p, part): (Vec<_>, Vec<_>) = (Vec::new(), packets_of(m));
            for _ in 0..lead { lead_p.extend(packets_of(m)); }
            let fd = b.into_raw_fd();
            let feeder = std::thread::spawn(move || {
                for p in lead_p.iter().chain(part.iter().take(cut)) { raw_send(a.as_raw_fd(), p); }
                drop(a);
            });
            let rx = unsafe { crossmist::Receiver::<T>::from_raw_fd(fd) };
            let mut results: Vec<std::io::Result<Option<T>>> = Vec::new();
            let want = lead + if cut == total { 2 } else { 1 };
            match rt {
                "blocking" => { let mut rx = rx; for _ in 0..want { results.push(rx.recv()); } }
                "tokio" => tokio_rt().block_on(async {
                    let mut rx: crossmist::tokio::Receiver<T> = rx.try_into().unwrap();
                    for _ in 0..want { results.push(rx.recv().await); }
                }),
                _ => async_io::block_on(async {
                    let mut rx: crossmist::smol::Receiver<T> = rx.try_into().unwrap();
                    for _ in 0..want { results.push(rx.recv().await); }
                }),
            }
            feeder.join().unwrap();
            let last = results.pop().unwrap();
            for r in results {
                match r {
                    Ok(Some(v)) => eq(m, &v),
                    Ok(None) => panic!("{what}: end of stream before a whole message"),
                    Err(e) => panic!("{what}: whole message reported as error {e}"),
                }
            }
            match last {
                Ok(Some(_)) => panic!("{what}: a truncated message was returned as a value"),
                Ok(None) => assert!(cut == 0 || cut == total, "{what}: truncated message reported as a clean end of stream"),
                Err(e) => {
                    assert!(cut != 0 && cut != total, "{what}: clean end of stream reported as error {e}");
                    assert_ne!(e.kind(), ErrorKind::WouldBlock, "{what}");
                }
            }
        }
    }
}
fn cuts(ctx: &mut Ctx, rt: &str) {
    raise_nofile();
    let v = |a: &Vec<u8>, b: &Vec<u8>| assert!(a == b);
    for n in [0usize, 10, 16383, 40_000, 16383 * 3 - 8] { let m = ctx.rng.bytes(n); cut(ctx, &format!("{n} bytes"), rt, &m, &v); }
    cut(ctx, "unit", rt, &(), &|_, _| {});
    cut(ctx, "pod", rt, &[7u8; 40_000], &|a, b| assert!(a == b));
    cut(ctx, "pod exact", rt, &[7u8; 16383 * 2], &|a, b| assert!(a == b));
    let m = bigmsg(ctx, 30_000, 300);
    cut(ctx, "bytes and handles", rt, &m, &|a, b| big_eq(a, b));
    let arr: [std::os::fd::OwnedFd; 300] = std::array::from_fn(|i| mkfile(i as u64).into());
    cut(ctx, "handles only", rt, &arr, &|a, b| for i in 0..300 { assert_eq!(id_of(&a[i]), id_of(&b[i])) });
}
fn cut_blocking(ctx: &mut Ctx) { cuts(ctx, "blocking") }
fn cut_tokio(ctx: &mut Ctx) { cuts(ctx, "tokio") }
fn cut_smol(ctx: &mut Ctx) { cuts(ctx, "smol") }

fn clean(ctx: &mut Ctx) {
    for k in 0..5 {
        ctx.case(format!("{k} messages then close"));
        let (mut tx, mut rx) = channel::<String>().unwrap();
        for i in 0..k { tx.send(&i.to_string()).unwrap(); }
        drop(tx);
        for i in 0..k { assert_eq!(rx.recv().unwrap(), Some(i.to_string())); }
        for _ in 0..3 { assert_eq!(rx.recv().unwrap(), None, "end of stream must stay"); }
        let (mut a, mut b) = crossmist::duplex::<u8, u8>().unwrap();
        for i in 0..k { a.send(&i).unwrap(); }
        drop(a);
        for i in 0..k { assert_eq!(b.recv().unwrap(), Some(i)); }
        assert_eq!(b.recv().unwrap(), None);
    }
    // sending to a closed peer is an error, not a crash and not success
    let (mut tx, rx) = channel::<String>().unwrap();
    drop(rx);
    assert!(tx.send(&"x".into()).is_err(), "send into a closed channel succeeded");
}

/// The peer goes away with unread data in its queue (the system then reports "connection reset" once): what it
/// sent before is still received, message by message, and then the end of the stream.
fn unread(ctx: &mut Ctx) {
    fn one(ctx: &mut Ctx, rt: &str, m: &Vec<u8>, n: usize, cut: usize, wait: bool) {
        let mut packets: Vec<Packet> = Vec::new();
        for _ in 0..n { packets.extend(packets_of(m)); }
        packets.truncate(packets.len() - cut);
        let what = format!("{rt}: {n} messages of {} bytes less {cut} packets, then a close with unread data, {}", m.len(), if wait { "received afterwards" } else { "received meanwhile" });
        ctx.case(&what);
        let (a, b) = seqpair();
        raw_send(b.as_raw_fd(), &Packet { data: vec![1, 2, 3], fds: vec![] });
        let feeder = std::thread::spawn(move || {
            for p in &packets { raw_send(a.as_raw_fd(), p); if !wait { std::thread::sleep(Duration::from_micros(300)); } }
            drop(a);
        });
        if wait { std::thread::sleep(Duration::from_millis(20)); }
        let rx = unsafe { crossmist::Receiver::<Vec<u8>>::from_raw_fd(b.into_raw_fd()) };
        let whole = if cut > 0 { n - 1 } else { n };
        let mut results = Vec::new();
        match rt {
            "blocking" => { let mut rx = rx; for _ in 0..whole + 1 { results.push(rx.recv()); } }
            "tokio" => tokio_rt().block_on(async {
                let mut rx: crossmist::tokio::Receiver<Vec<u8>> = rx.try_into().unwrap();
                for _ in 0..whole + 1 { results.push(rx.recv().await); }
            }),
            _ => async_io::block_on(async {
                let mut rx: crossmist::smol::Receiver<Vec<u8>> = rx.try_into().unwrap();
                for _ in 0..whole + 1 { results.push(rx.recv().await); }
            }),
        }
        feeder.join().unwrap();
        let last = results.pop().unwrap();
        for (i, r) in results.into_iter().enumerate() {
            match r {
                Ok(Some(v)) => assert!(v == *m, "{what}: message {i} changed"),
                Ok(None) => panic!("{what}: end of stream before message {i}"),
                Err(e) => panic!("{what}: message {i} reported as error {e}"),
            }
        }
        match last {
            Ok(Some(_)) => panic!("{what}: a value out of nothing"),
            Ok(None) => assert!(cut == 0, "{what}: truncated message reported as a clean end of stream"),
            Err(e) => assert!(cut > 0, "{what}: clean end of stream reported as error {e}"),
        }
    }
    for rt in ["blocking", "tokio", "smol"] {
        for wait in [true, false] {
            for (len, n, cut) in [(0, 0, 0), (3, 1, 0), (3, 2, 0), (40_000, 1, 0), (40_000, 2, 0), (40_000, 1, 1), (40_000, 2, 2), (400_000, 1, 0), (400_000, 1, 1), (400_000, 2, 0)] {
                let m = ctx.rng.bytes(len);
                one(ctx, rt, &m, n, cut, wait);
            }
        }
    }
}

// ---- ends of channels given to children: only the child has them afterwards
#[derive(Object)]
struct Held { tx: crossmist::Sender<Vec<u8>>, rest: Vec<Option<crossmist::Sender<Vec<u8>>>> }
#[crossmist::func]
fn g_plain(mut tx: crossmist::Sender<Vec<u8>>, n: usize, end: u8) { for i in 0..n { tx.send(&vec![i as u8; 40_000]).unwrap(); } finish(end) }
#[crossmist::func]
fn g_held(mut h: Held, n: usize, end: u8) { for i in 0..n { h.tx.send(&vec![i as u8; 40_000]).unwrap(); } drop(h.rest); finish(end) }
#[crossmist::func]
fn g_reads(mut rx: crossmist::Receiver<Vec<u8>>, n: usize, end: u8) { for _ in 0..n { rx.recv().unwrap().unwrap(); } finish(end) }
fn finish(end: u8) {
    unsafe { match end { 0 => {} 1 => libc::_exit(3), _ => { libc::kill(libc::getpid(), libc::SIGKILL); } } }
}
fn given(ctx: &mut Ctx) {
    for end in 0..3u8 {
        for n in [0usize, 1, 3] {
            for how in ["blocking", "tokio", "smol"] {
                ctx.case(format!("{how}: a child has the only sender, sends {n} messages and ends ({})", ["returns", "exits", "is killed"][end as usize]));
                let (tx, mut rx) = channel::<Vec<u8>>().unwrap();
                let (tx2, mut rx2) = channel::<Vec<u8>>().unwrap();
                let (tx3, mut rx3) = channel::<Vec<u8>>().unwrap();
                let (mut txr, rxr) = channel::<Vec<u8>>().unwrap();
                let mut expect = |what: &str, rx: &mut crossmist::Receiver<Vec<u8>>, n: usize| {
                    for i in 0..n { assert!(rx.recv().unwrap_or_else(|e| panic!("{what}: {e}")).expect(what) == vec![i as u8; 40_000], "{what}: message {i}"); }
                    match rx.recv() { Ok(None) => {} Ok(Some(_)) => panic!("{what}: a message nobody sent"), Err(e) => panic!("{what}: the end of the stream was reported as error {e}") }
                };
                macro_rules! go { ($s:ident, [$($aw:tt)*]) => {{
                    let a = g_plain.$s(tx, n, end)$($aw)*.unwrap();
                    expect("the sender as an argument", &mut rx, n);
                    assert_eq!(a.join()$($aw)*.is_ok(), end == 0);
                    let b = g_held.$s(Held { tx: tx2, rest: vec![None, Some(tx3)] }, n, end)$($aw)*.unwrap();
                    expect("a sender inside an argument", &mut rx2, n);
                    expect("another sender inside an argument", &mut rx3, 0);
                    assert_eq!(b.join()$($aw)*.is_ok(), end == 0);
                    let c = g_reads.$s(rxr, n, end)$($aw)*.unwrap();
                    for _ in 0..n { txr.send(&vec![7; 100]).expect("sending to the child"); }
                    assert_eq!(c.join()$($aw)*.is_ok(), end == 0);
                    assert!(txr.send(&vec![7; 100]).is_err(), "sending to a child that has ended succeeded");
                }} }
                match how {
                    "blocking" => go!(spawn, []),
                    "tokio" => tokio_rt().block_on(async { go!(spawn_tokio, [.await]) }),
                    _ => async_io::block_on(async { go!(spawn_smol, [.await]) }),
                }
            }
        }
    }
}
