//! C11 references to code and statics, C12 inheritance of handles
use crate::util::*;
use crate::Case;
use crossmist::{channel, duplex, func, lambda, static_ref, BindValue, Duplex, FnObject, FnOnceObject, FnMutObject, Object, Receiver, Sender, Serializer, StaticFn, StaticRef};
use std::fs::File;
use std::os::fd::{AsRawFd, OwnedFd};
use std::os::unix::process::CommandExt;
use std::process::Command;

pub fn cases() -> Vec<Case> {
    vec![
        ("C11", "child", in_child),
        ("C11", "bytes", bytes_stable),
        ("C11", "local", local),
        ("C12", "inherit", inherit),
        ("C12", "many", inherit_many),
        ("C12", "async", inherit_async),
        ("C12", "grandchild", grandchild),
        ("C12", "flags", flags),
        ("C12", "threads", threads),
        ("C12", "numbers", numbers),
        ("C12", "window", window),
        ("C12", "low", low),
        ("C12", "helper", fd_helper_case),
    ]
}

static S0: u64 = 0x1111;
static S1: [u64; 64] = { let mut a = [0; 64]; let mut i = 0; while i < 64 { a[i] = i as u64 * 7; i += 1; } a };
static S2: &str = "static text";
static S3: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(5);

#[repr(align(1024))]
struct Page(u32);
const PAGE: Page = Page(0x1234_5678);
struct Mark;
static MARK: Mark = Mark;
static TEXT: [u8; 7] = *b"unalign";

trait Shape: Object { fn name(&self) -> String; }
#[derive(Object)]
struct Sq(u32);
#[derive(Object)]
struct Named { n: String, k: u8 }
#[derive(Object)]
struct Nest(Vec<Box<dyn Shape>>, Box<dyn Shape>);
#[derive(Object)]
struct Empty;
#[derive(Object)]
struct Gen<T: Object>(T);
impl Shape for Sq { fn name(&self) -> String { format!("sq{}", self.0) } }
impl Shape for Named { fn name(&self) -> String { format!("named{}{}", self.n, self.k) } }
impl Shape for Nest { fn name(&self) -> String { format!("nest[{}|{}]", self.0.iter().map(|x| x.name()).collect::<Vec<_>>().join(","), self.1.name()) } }
impl Shape for Empty { fn name(&self) -> String { "empty".into() } }
impl<T: Object + std::fmt::Debug> Shape for Gen<T> { fn name(&self) -> String { format!("gen{:?}", self.0) } }
impl Shape for bool { fn name(&self) -> String { format!("bool{self}") } }

fn shapes() -> Vec<Box<dyn Shape>> {
    vec![
        Box::new(Sq(4)), Box::new(Named { n: "é".repeat(3), k: 200 }), Box::new(Empty), Box::new(Gen(5u8)), Box::new(Gen("str".to_string())), Box::new(Gen(vec![1u64, 2])), Box::new(true),
        Box::new(Nest(vec![Box::new(Empty), Box::new(Gen(Some(7i64)))], Box::new(Nest(vec![], Box::new(Sq(1)))))),
    ]
}
fn plus(a: u64, b: u64) -> u64 { a + b }
fn minus(a: u64, b: u64) -> u64 { a.wrapping_sub(b) }
fn one_more(mut a: Vec<u8>) -> Vec<u8> { a.push(1); a }

type Bin = fn(u64, u64) -> u64;
#[derive(Object)]
struct All {
    s0: StaticRef<u64>,
    s1: Vec<StaticRef<u64>>,
    s2: StaticRef<&'static str>,
    s3: StaticRef<std::sync::atomic::AtomicUsize>,
    c: StaticRef<[u8; 5]>,
    page: StaticRef<Page>,
    mark: StaticRef<Mark>,
    bytes: Vec<StaticRef<u8>>,
    d: StaticRef<&'static dyn std::fmt::Debug>,
    f: Vec<StaticFn<Bin>>,
    g: StaticFn<fn(Vec<u8>) -> Vec<u8>>,
    u: StaticFn<unsafe fn(u64, u64) -> u64>,
    shapes: Vec<Box<dyn Shape>>,
    call: Box<dyn FnObject<(u64,), Output = u64>>,
    callm: Box<dyn FnMutObject<(u64,), Output = u64>>,
    plain: Box<u64>,
    text: Box<String>,
    boxed: Box<Box<dyn Shape>>,
    opt: Option<Box<dyn Shape>>,
    tail: u32,
}
fn all() -> All {
    let k = 3u64;
    unsafe {
        All {
            s0: StaticRef::new_unchecked(&S0),
            s1: S1.iter().map(|x| StaticRef::new_unchecked(x)).collect(),
            s2: StaticRef::new_unchecked(&S2),
            s3: StaticRef::new_unchecked(&S3),
            c: static_ref!([u8; 5], [9, 8, 7, 6, 5]),
            page: static_ref!(Page, PAGE),
            mark: StaticRef::new_unchecked(&MARK),
            bytes: TEXT.iter().map(|x| StaticRef::new_unchecked(x)).collect(),
            d: static_ref!(&'static dyn std::fmt::Debug, &Some(3u8)),
            f: vec![StaticFn::new(plus), StaticFn::new(minus)],
            g: StaticFn::new(one_more),
            u: StaticFn::new(plus as unsafe fn(u64, u64) -> u64),
            shapes: shapes(),
            call: lambda! { move(k: u64) |x: u64| -> u64 { k * 100 + x } },
            callm: lambda! { move(&mut k: &mut u64) |x: u64| -> u64 { *k += x; *k } },
            plain: Box::new(77),
            text: Box::new("text".to_string()),
            boxed: Box::new(Box::new(Gen(1.5f32))),
            opt: Some(Box::new(Sq(9))),
            tail: 0xDEAD,
        }
    }
}
fn check_all(mut a: All) {
    assert!(std::ptr::eq(a.s0.get(), &S0), "static reference points elsewhere");
    assert_eq!(a.s1.len(), 64);
    for (i, r) in a.s1.iter().enumerate() {
        assert!(std::ptr::eq(r.get(), &S1[i]), "static reference {i} points elsewhere");
        assert_eq!(**r, i as u64 * 7);
    }
    assert!(std::ptr::eq(a.s2.get(), &S2));
    assert_eq!(*a.s2.get(), "static text");
    assert!(std::ptr::eq(a.s3.get(), &S3));
    assert_eq!(*a.c, [9, 8, 7, 6, 5]);
    assert_eq!(a.page.get() as *const Page as usize % 1024, 0, "static reference points elsewhere");
    assert_eq!(a.page.0, 0x1234_5678);
    assert!(std::ptr::eq(a.mark.get(), &MARK), "static reference to a value without size points elsewhere");
    for (i, r) in a.bytes.iter().enumerate() { assert!(std::ptr::eq(r.get(), &TEXT[i]), "static reference to byte {i} points elsewhere"); }
    assert_eq!(format!("{:?}", *a.d), "Some(3)");
    assert_eq!(a.f[0].get_fn() as usize, plus as usize);
    assert_eq!(a.f[1].get_fn() as usize, minus as usize);
    assert_eq!(a.f[0].call_object((5, 6)), 11);
    assert_eq!(a.f[1].call_object((5, 6)), u64::MAX);
    assert_eq!((a.g.get_fn())(vec![]), vec![1]);
    assert_eq!(unsafe { (a.u.get_fn())(1, 2) }, 3);
    let want: Vec<String> = shapes().iter().map(|x| x.name()).collect();
    let got: Vec<String> = a.shapes.iter().map(|x| x.name()).collect();
    assert_eq!(got, want, "boxed trait objects decoded to something else");
    assert_eq!(a.call.call_object((7,)), 307);
    assert_eq!((a.callm.call_object_mut((7,)), a.callm.call_object_mut((1,))), (10, 11));
    assert_eq!((*a.plain, a.text.as_str(), a.boxed.name(), a.opt.unwrap().name(), a.tail), (77, "text", "gen1.5".to_string(), "sq9".to_string(), 0xDEAD));
}

#[func]
fn child_all(a: All, parent_addr: usize) -> bool {
    check_all(a);
    parent_addr != &S0 as *const u64 as usize
}
#[func]
fn child_back() -> Vec<Box<dyn Shape>> { shapes() }
#[func]
fn child_refs() -> (StaticRef<u64>, StaticFn<Bin>, StaticRef<u64>) {
    unsafe { (StaticRef::new_unchecked(&S0), StaticFn::new(minus), StaticRef::new_unchecked(&S1[63])) }
}

fn in_child(ctx: &mut Ctx) {
    let mut moved = 0;
    for i in 0..ctx.n(6, 60) {
        ctx.case(format!("child {i}"));
        if child_all.run(all(), &S0 as *const u64 as usize).expect("a reference did not survive the way into a child") { moved += 1; }
        let v = child_back.run().unwrap();
        assert_eq!(v.iter().map(|x| x.name()).collect::<Vec<_>>(), shapes().iter().map(|x| x.name()).collect::<Vec<_>>());
        let (a, b, c) = child_refs.run().unwrap();
        assert!(std::ptr::eq(a.get(), &S0) && std::ptr::eq(c.get(), &S1[63]), "static reference from a child points elsewhere");
        assert_eq!(b.get_fn() as usize, minus as usize, "static function from a child points elsewhere");
    }
    ctx.case(format!("{}", if moved > 0 { "children ran at other addresses" } else { "no address randomization here" }));
}

fn serialized() -> Vec<u8> {
    let a = all();
    let mut s = Serializer::new();
    s.serialize(&a);
    s.into_vec()
}
/// Prints what is transmitted, for comparison between processes loaded at different addresses.
pub fn dump() {
    let hex: String = serialized().iter().map(|b| format!("{b:02x}")).collect();
    println!("{hex} {:x}", &S0 as *const u64 as usize);
}
fn bytes_stable(ctx: &mut Ctx) {
    let mut seen = std::collections::HashSet::new();
    let mut addrs = std::collections::HashSet::new();
    for i in 0..ctx.n(8, 40) {
        let mut c = Command::new("/proc/self/exe");
        c.arg("dump");
        if i % 4 == 3 {
            unsafe { c.pre_exec(|| { libc::personality(0x0040000); Ok(()) }); }
        }
        let out = String::from_utf8(c.output().unwrap().stdout).unwrap();
        let mut it = out.split_whitespace();
        seen.insert(it.next().unwrap().to_string());
        addrs.insert(it.next().unwrap().to_string());
        ctx.case(format!("load address {i}"));
    }
    assert_eq!(seen.len(), 1, "what is transmitted depends on where the image is loaded ({} addresses)", addrs.len());
}
fn local(ctx: &mut Ctx) {
    ctx.case("same process");
    check_all(roundtrip(&all()));
    let (mut tx, mut rx) = channel::<All>().unwrap();
    tx.send(&all()).unwrap();
    check_all(rx.recv().unwrap().unwrap());
}

// ---- C12

type FdInfo = (i32, (u64, u64), bool);
fn report() -> Vec<FdInfo> {
    fds().into_iter().filter(|f| *f > 2).map(|f| (f, ident(f), cloexec(f))).collect()
}
#[func]
fn r_none() -> Vec<FdInfo> { report() }
#[func]
fn r_files(files: Vec<File>, text: String) -> Vec<FdInfo> { let r = report(); drop(files); drop(text); r }
#[func]
fn r_mixed(f: File, tx: Sender<u8>, d: Duplex<u8, String>, o: Option<OwnedFd>) -> Vec<FdInfo> { let r = report(); drop((f, tx, d, o)); r }
#[func(tokio(flavor = "current_thread"))]
async fn r_tokio(f: File, tx: crossmist::tokio::Sender<u8>) -> (Vec<(u64, u64)>, Vec<FdInfo>) { let v = vec![id_of(&f), id_of(&tx)]; let r = report(); (v, r) }
#[func(smol)]
async fn r_smol(f: File, tx: crossmist::smol::Sender<u8>) -> (Vec<(u64, u64)>, Vec<FdInfo>) { let v = vec![id_of(&f), id_of(&tx)]; let r = report(); (v, r) }

fn check_child(ctx: &mut Ctx, what: &str, got: Vec<FdInfo>, given: Vec<(u64, u64)>) {
    ctx.case(what);
    let mut rest: Vec<_> = got.iter().map(|x| x.1).collect();
    for g in &given {
        let p = rest.iter().position(|x| x == g).unwrap_or_else(|| panic!("{what}: a handle given to the child is missing there"));
        rest.remove(p);
    }
    assert_eq!(rest.len(), 1, "{what}: the child has {} handles besides the control channel and the ones it was given", rest.len() as i64 - 1);
    for g in &got {
        assert!(g.2, "{what}: descriptor {} of the child can be inherited by unrelated programs", g.0);
    }
}
/// (all descriptors of this process with flags) must not change over `f`
fn unchanged<R>(f: impl FnOnce() -> R) -> R {
    let before: Vec<FdInfo> = report();
    let r = f();
    let after: Vec<FdInfo> = report();
    assert_eq!(before, after, "spawning changed the descriptors of the parent or their flags");
    r
}

fn inherit(ctx: &mut Ctx) {
    // things the children must not see
    let _c1 = channel::<String>().unwrap();
    let _c2 = duplex::<u8, u8>().unwrap();
    let (mut ftx, mut frx) = channel::<Vec<File>>().unwrap();
    ftx.send(&(0..5).map(mkfile).collect()).unwrap();
    let received = frx.recv().unwrap().unwrap();
    let got = unchanged(|| r_none.run().unwrap());
    check_child(ctx, "no handles", got, vec![]);
    for n in [0usize, 1, 2, 7, 60] {
        let files: Vec<File> = (0..n as u64).map(|i| mkfile(i)).collect();
        let ids: Vec<_> = files.iter().map(id_of).collect();
        let big = ctx.rng.string(30_000);
        let child = r_files.spawn(files, big).unwrap();
        let got = child.join().unwrap();
        check_child(ctx, &format!("{n} files"), got, ids);
    }
    let other = r_none.spawn().unwrap();
    let (tx, rx) = channel::<u8>().unwrap();
    let (d, d2) = duplex::<u8, String>().unwrap();
    let f = received.into_iter().next().unwrap();
    let of: OwnedFd = mkfile(99).into();
    let ids = vec![id_of(&f), id_of(&tx), id_of(&d), id_of(&of)];
    let got = r_mixed.spawn(f, tx, d, Some(of)).unwrap().join().unwrap();
    check_child(ctx, "mixed", got, ids);
    drop((rx, d2));
    let got = other.join().unwrap();
    check_child(ctx, "sibling", got, vec![]);
}

fn inherit_many(ctx: &mut Ctx) {
    raise_nofile();
    for n in [252u64, 253, 254, 255, 506, 507, 700] {
        let files: Vec<File> = (0..n).map(mkfile).collect();
        let ids: Vec<_> = files.iter().map(id_of).collect();
        let got = r_files.spawn(files, String::new()).unwrap().join().unwrap();
        check_child(ctx, &format!("{n} files"), got, ids);
    }
}

/// Tokio and smol keep descriptors of their own (epoll, eventfd, ...): only look at foreign ones.
fn inherit_async(ctx: &mut Ctx) {
    tokio_rt().block_on(async {
        let _keep = crossmist::tokio::channel::<u8>().unwrap();
        let (a, mut b) = crossmist::tokio::channel::<File>().unwrap();
        let mut a = a;
        a.send(&mkfile(7)).await.unwrap();
        let file = b.recv().await.unwrap().unwrap();
        assert!(cloexec(file.as_raw_fd()), "a received handle can be inherited by unrelated programs");
        let got = r_none.run_tokio().await.unwrap();
        check_child(ctx, "spawn_tokio, no handles", got, vec![]);
        let (tx, _rx) = crossmist::tokio::channel::<u8>().unwrap();
        let hide: Vec<_> = report().into_iter().map(|x| x.1).collect();
        let want = vec![id_of(&file), id_of(&tx)];
        let (v, got) = r_tokio.run_tokio(file, tx).await.unwrap();
        ctx.case("tokio child");
        assert_eq!(v, want);
        for g in got { assert!(g.2 && (want.contains(&g.1) || !is_sock_or_file(&g) || !hide.contains(&g.1)), "tokio child: foreign or inheritable descriptor {g:?}"); }
    });
    async_io::block_on(async {
        let _keep = crossmist::smol::channel::<u8>().unwrap();
        let got = r_none.run_smol().await.unwrap();
        check_child(ctx, "spawn_smol, no handles", got, vec![]);
        let file = mkfile(1);
        let (tx, _rx) = crossmist::smol::channel::<u8>().unwrap();
        let hide: Vec<_> = report().into_iter().map(|x| x.1).collect();
        let want = vec![id_of(&file), id_of(&tx)];
        let (v, got) = r_smol.run_smol(file, tx).await.unwrap();
        ctx.case("smol child");
        assert_eq!(v, want);
        for g in got { assert!(g.2 && (want.contains(&g.1) || !is_sock_or_file(&g) || !hide.contains(&g.1)), "smol child: foreign or inheritable descriptor {g:?}"); }
    });
}
fn is_sock_or_file(g: &FdInfo) -> bool {
    // anonymous inodes (epoll, eventfd, timerfd) share one inode number
    let mut st: libc::stat = unsafe { std::mem::zeroed() };
    unsafe {
        let e = libc::eventfd(0, libc::EFD_CLOEXEC);
        libc::fstat(e, &mut st);
        libc::close(e);
    }
    (st.st_dev as u64, st.st_ino as u64) != g.1
}

#[func]
fn parent_of(f: File, more: Vec<File>) -> (Vec<FdInfo>, Vec<FdInfo>, String, Vec<FdInfo>) {
    // grandchildren must not see what this child was given
    let a = unchanged(|| r_none.run().unwrap());
    let mine = report();
    let before = report();
    let b = r_files.run(more, "x".into()).unwrap();
    assert!(report().iter().all(|x| before.contains(x)), "spawning changed the flags of a descriptor of the parent");
    let ls = Command::new("/bin/ls").arg("/proc/self/fd").output().unwrap();
    drop(f);
    (a, b, String::from_utf8(ls.stdout).unwrap(), mine)
}
fn count_ls(s: &str) -> usize {
    s.split_whitespace().filter(|x| x.parse::<i32>().unwrap() > 2).count()
}
fn grandchild(ctx: &mut Ctx) {
    let f = mkfile(1);
    let more: Vec<File> = (0..3).map(mkfile).collect();
    let ids: Vec<_> = more.iter().map(id_of).collect();
    let (a, b, ls, mine) = parent_of.run(f, more).unwrap();
    check_child(ctx, "grandchild without handles", a, vec![]);
    check_child(ctx, "grandchild with handles", b, ids);
    // ls itself opens the directory
    assert!(count_ls(&ls) <= 1, "a program started by the child inherited descriptors: {ls:?}");
    assert!(mine.iter().all(|x| x.2));
}
fn flags(ctx: &mut Ctx) {
    let base = fds();
    let c = channel::<u8>().unwrap();
    let d = duplex::<u8, u8>().unwrap();
    let _t = tokio_rt();
    let (mut tx, mut rx) = channel::<(Vec<File>, Sender<u8>, Receiver<u8>, Duplex<u8, u8>, OwnedFd, std::os::unix::net::UnixStream)>().unwrap();
    let (s, r) = channel::<u8>().unwrap();
    let (x, _y) = duplex::<u8, u8>().unwrap();
    let (p, _q) = std::os::unix::net::UnixStream::pair().unwrap();
    let v = ((0..300).map(mkfile).collect(), s, r, x, mkfile(5).into(), p);
    raise_nofile();
    tx.send(&v).unwrap();
    let got = rx.recv().unwrap().unwrap();
    let check = |what: &str| {
        for fd in fds() {
            if fd > 2 && !base.contains(&fd) { assert!(cloexec(fd), "{what}: descriptor {fd} created by the library can be inherited by unrelated programs"); }
        }
    };
    ctx.case("created and received");
    check("after receive");
    let child = r_none.spawn().unwrap();
    ctx.case("after spawn");
    check("after spawn");
    let ls = Command::new("/bin/ls").arg("/proc/self/fd").output().unwrap();
    assert!(count_ls(&String::from_utf8(ls.stdout).unwrap()) <= 1 + base.iter().filter(|x| **x > 2 && !cloexec(**x)).count(), "an unrelated program inherited descriptors");
    child.join().unwrap();
    // spawning with handles keeps the flags of the parent's own copies
    let keep = mkfile(8);
    let dup = keep.try_clone().unwrap();
    unchanged(|| { let k = BindValue::<u64, ()>::bind_value(ident_fn, 3); assert_eq!(k.call_object_once(()), 3); });
    let before: Vec<FdInfo> = report();
    let child = r_files.spawn(vec![dup], String::new()).unwrap();
    let ctl = child_fd_count(&before);
    assert!(report().iter().all(|x| x.2 || before.contains(x)), "spawning cleared the protection of a descriptor ({ctl})");
    child.join().unwrap();
    drop((c, d, got, v, keep));
}
fn child_fd_count(before: &[FdInfo]) -> usize { report().len().saturating_sub(before.len()) }
#[func]
fn ident_fn(x: u64) -> u64 { x }

/// Make `t` the second lowest number that is free; what is needed to undo it, if it can be done.
fn leave_free(t: i32) -> Option<(Vec<File>, i32)> {
    let mut plugs: Vec<File> = Vec::new();
    loop {
        let f = File::open("/dev/null").unwrap();
        let n = f.as_raw_fd();
        plugs.push(f);
        if n > t { break; }
    }
    let i = plugs.iter().position(|f| f.as_raw_fd() == t)?;
    drop(plugs.remove(i));
    if i > 0 { drop(plugs.remove(0)); return Some((plugs, -1)); }
    // nothing lower is free: let go of the standard input for a while
    let saved = unsafe { libc::fcntl(0, libc::F_DUPFD_CLOEXEC, t + 50) };
    unsafe { libc::close(0); }
    Some((plugs, saved))
}
#[func]
fn r_low(files: Vec<File>) -> Vec<((u64, u64), bool)> { files.iter().map(|f| (id_of(f), cloexec(f.as_raw_fd()))).collect() }
/// Handles that got the numbers the standard streams usually have.
fn low(ctx: &mut Ctx) {
    raise_nofile();
    for k in 0..3 {
        for n in 0..3u64 {
            ctx.case(format!("{n} files and a control channel while the lowest {k} descriptors are free"));
            let (want, got, kept) = with_low(k, || {
                let files: Vec<File> = (0..n).map(mkfile).collect();
                let want: Vec<_> = files.iter().map(id_of).collect();
                let child = r_low.spawn(files).unwrap();
                let kept = fds().into_iter().filter(|fd| *fd < k).all(cloexec);
                (want, child.join(), kept)
            });
            let got = got.expect("a child with low descriptors");
            assert!(got.iter().map(|x| x.0).eq(want), "the handles of the child are not the ones it was given");
            assert!(got.iter().all(|x| x.1), "a handle of the child can be inherited by unrelated programs");
            assert!(kept, "spawning left a descriptor of the parent inheritable");
        }
    }
}
/// Whatever number the control channel and the handles get.
fn numbers(ctx: &mut Ctx) {
    let mut done = 0;
    for t in (3..=16).chain([31, 32, 63, 64, 100, 127, 128, 255, 256, 257, 300]) {
        let Some((plugs, saved)) = leave_free(t) else { continue };
        let got = std::panic::catch_unwind(|| r_none.run());
        if saved >= 0 { unsafe { libc::dup2(saved, 0); libc::close(saved); } }
        drop(plugs);
        check_child(ctx, &format!("control channel is {t}"), got.unwrap().unwrap(), vec![]);
        done += 1;
        let n = unsafe { libc::fcntl(mkfile(t as u64).as_raw_fd(), libc::F_DUPFD_CLOEXEC, t) };
        let files = vec![mkfile(1), unsafe { std::os::fd::FromRawFd::from_raw_fd(n) }];
        let ids: Vec<_> = files.iter().map(id_of).collect();
        check_child(ctx, &format!("a handle is {n}"), r_files.spawn(files, String::new()).unwrap().join().unwrap(), ids);
    }
    assert!(done >= 10);
}

fn threads(ctx: &mut Ctx) {
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..4).map(|_| sc.spawn(|| {
            let mut out = Vec::new();
            for n in 0..5u64 {
                let files: Vec<File> = (0..n).map(mkfile).collect();
                let ids: Vec<_> = files.iter().map(id_of).collect();
                let got = r_files.spawn(files, String::new()).unwrap().join().unwrap();
                out.push((n, got, ids));
            }
            out
        })).collect();
        for h in hs { for (n, got, ids) in h.join().unwrap() { check_child(ctx, &format!("parallel spawn, {n} files"), got, ids); } }
    });
}
/// No moment at which a handle that was just created or received could be inherited by a program
/// another thread starts: a thread watches the flags of all descriptors.
fn window(ctx: &mut Ctx) {
    use std::sync::atomic::{AtomicBool, AtomicI32, Ordering};
    let n = ctx.n(6000, 60000);
    let files: Vec<File> = (0..5).map(mkfile).collect();
    let ignore: Vec<i32> = (0..1024).filter(|fd| unsafe { libc::fcntl(*fd, libc::F_GETFD) } == 0).collect();
    let watched: Vec<i32> = (0..files[4].as_raw_fd() + 24).filter(|fd| !ignore.contains(fd)).collect();
    for mode in 0..3 {
        let (stop, seen) = (AtomicBool::new(false), AtomicI32::new(-1));
        ctx.case(format!("watched while {}", ["channels are created", "handles are received", "children are started"][mode]));
        std::thread::scope(|sc| {
            sc.spawn(|| while !stop.load(Ordering::Relaxed) {
                for fd in &watched { if unsafe { libc::fcntl(*fd, libc::F_GETFD) } == 0 { seen.store(*fd, Ordering::Relaxed); } }
            });
            match mode {
                0 => for _ in 0..n {
                    let _a = channel::<u8>().unwrap();
                    let _b = duplex::<u8, Vec<u8>>().unwrap();
                    if seen.load(Ordering::Relaxed) >= 0 { break; }
                },
                1 => {
                    let (mut tx, mut rx) = channel::<Vec<File>>().unwrap();
                    for _ in 0..n {
                        let v: Vec<File> = (0..4).map(|i| files[i].try_clone().unwrap()).collect();
                        tx.send(&v).unwrap();
                        drop(v);
                        drop(rx.recv().unwrap().unwrap());
                        if seen.load(Ordering::Relaxed) >= 0 { break; }
                    }
                }
                _ => for k in 0..n / 150 {
                    r_files.spawn(vec![files[k % 5].try_clone().unwrap()], String::new()).unwrap().join().unwrap();
                },
            }
            stop.store(true, Ordering::Relaxed);
        });
        let fd = seen.load(Ordering::Relaxed);
        assert!(fd < 0, "descriptor {fd} was inheritable for a moment");
    }
}
/// The helper used above really sees inheritable descriptors.
fn fd_helper_case(ctx: &mut Ctx) {
    ctx.case("self test");
    let f = mkfile(1);
    unsafe { libc::fcntl(f.as_raw_fd(), libc::F_SETFD, 0); }
    let ls = Command::new("/bin/ls").arg("/proc/self/fd").output().unwrap();
    assert!(count_ls(&String::from_utf8(ls.stdout).unwrap()) >= 2);
}
