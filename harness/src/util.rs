use crossmist::{Deserializer, Object, Serializer};
use std::collections::HashSet;
use std::fmt::Debug;
use std::fs::File;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd, RawFd};

pub struct Ctx {
    pub rng: Rng,
    pub thorough: bool,
    pub evals: u64,
    seen: HashSet<u64>,
    sample: String,
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool) -> Self {
        Ctx { rng: Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1), thorough, evals: 0, seen: HashSet::new(), sample: String::new() }
    }
    /// Count one evaluated case; `desc` identifies it.
    pub fn case(&mut self, desc: impl AsRef<str>) {
        use std::hash::{Hash, Hasher};
        let desc = desc.as_ref();
        self.evals += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        desc.hash(&mut h);
        if self.seen.insert(h.finish()) && (self.sample.is_empty() || self.seen.len() % 17 == 0) {
            self.sample = desc.chars().take(160).collect();
        }
    }
    pub fn distinct(&self) -> usize {
        self.seen.len()
    }
    pub fn sample(&self) -> String {
        self.sample.replace('\n', " ")
    }
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        let mut x = self.0;
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        self.0 = x;
        x.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() >> 11) as usize % n.max(1)
    }
    pub fn bool(&mut self) -> bool {
        self.next() >> 63 == 1
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| (self.next() >> 32) as u8).collect()
    }
    pub fn string(&mut self, max: usize) -> String {
        const A: &[char] = &['a', 'b', '\0', 'é', '漢', '🦀', ' ', '\n', '"', 'z'];
        let n = self.below(max + 1);
        (0..n).map(|_| A[self.below(A.len())]).collect()
    }
}

pub const SENTINEL: u32 = 0xC0FF_EE11;

/// Serialize `vals` back to back followed by a sentinel; decode and compare with `eq`.
pub fn rt_many<T: Object>(ctx: &mut Ctx, name: &str, vals: Vec<T>, eq: impl Fn(&T, &T) -> bool, show: impl Fn(&T) -> String) {
    let shown: Vec<String> = vals.iter().map(&show).collect();
    ctx.case(format!("{name}: {shown:?}"));
    let mut s = Serializer::new();
    s.serialize(&0xA5u8);
    for v in &vals {
        s.serialize(v);
    }
    s.serialize(&SENTINEL);
    let tail = "tail".to_string();
    s.serialize(&tail);
    assert!(s.drain_handles().is_empty(), "{name}: unexpected handles");
    let data = s.into_vec();
    let mut d = Deserializer::new(data, Vec::new());
    unsafe {
        assert_eq!(d.deserialize::<u8>().unwrap(), 0xA5);
        for (i, v) in vals.iter().enumerate() {
            let r: T = d.deserialize().expect("deserialize failed");
            assert!(eq(v, &r), "{name}: value {i} of {shown:?} decoded as {}", show(&r));
        }
        assert_eq!(d.deserialize::<u32>().unwrap(), SENTINEL, "{name}: stream position is off after {shown:?}");
        assert_eq!(d.deserialize::<String>().unwrap(), "tail", "{name}");
    }
}

pub fn rt<T: Object + PartialEq + Debug>(ctx: &mut Ctx, name: &str, vals: Vec<T>) {
    rt_many(ctx, name, vals, |a, b| a == b, |x| format!("{x:?}"))
}

pub fn roundtrip<T: Object>(v: &T) -> T {
    let mut s = Serializer::new();
    s.serialize(v);
    let n = s.drain_handles().len();
    assert_eq!(n, 0);
    let mut d = Deserializer::new(s.into_vec(), Vec::new());
    unsafe { d.deserialize().expect("deserialize failed") }
}

/// A distinct open file whose identity can be checked with fstat.
pub fn mkfile(tag: u64) -> File {
    let name = std::ffi::CString::new(format!("h{tag}")).unwrap();
    let fd = unsafe { libc::memfd_create(name.as_ptr(), libc::MFD_CLOEXEC) };
    assert!(fd >= 0, "memfd_create: {}", std::io::Error::last_os_error());
    unsafe { File::from_raw_fd(fd) }
}
pub fn ident(fd: RawFd) -> (u64, u64) {
    let mut st: libc::stat = unsafe { std::mem::zeroed() };
    assert_eq!(unsafe { libc::fstat(fd, &mut st) }, 0, "fstat({fd}): the descriptor is not open");
    (st.st_dev as u64, st.st_ino as u64)
}
pub fn id_of<F: AsRawFd>(f: &F) -> (u64, u64) {
    ident(f.as_raw_fd())
}
pub fn cloexec(fd: RawFd) -> bool {
    let r = unsafe { libc::fcntl(fd, libc::F_GETFD) };
    assert!(r >= 0);
    r & libc::FD_CLOEXEC != 0
}
/// Run something while the lowest `k` descriptors are free.
#[allow(dead_code)]
pub fn with_low<R>(k: i32, f: impl FnOnce() -> R) -> R {
    let saved: Vec<i32> = (0..k).map(|n| unsafe { libc::fcntl(n, libc::F_DUPFD_CLOEXEC, 500) }).collect();
    assert!(saved.iter().all(|n| *n >= 500));
    for n in 0..k { unsafe { libc::close(n); } }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    for (n, s) in saved.into_iter().enumerate() { unsafe { libc::dup2(s, n as i32); libc::close(s); } }
    r.unwrap_or_else(|e| std::panic::resume_unwind(e))
}
/// Open descriptors of this process.
pub fn fds() -> Vec<RawFd> {
    let dir = std::fs::read_dir("/proc/self/fd").unwrap();
    let all: Vec<RawFd> = dir.map(|e| e.unwrap().file_name().to_str().unwrap().parse().unwrap()).collect();
    let mut v: Vec<RawFd> = all.into_iter().filter(|fd| unsafe { libc::fcntl(*fd, libc::F_GETFD) } >= 0).collect();
    v.sort();
    v
}
pub fn raise_nofile() {
    unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        l.rlim_cur = l.rlim_max.min(65536);
        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
    }
}
pub fn set_nofile(n: u64) {
    unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        l.rlim_cur = n;
        assert_eq!(libc::setrlimit(libc::RLIMIT_NOFILE, &l), 0);
    }
}

/// A raw SOCK_SEQPACKET pair, to play a crafted peer.
pub fn seqpair() -> (OwnedFd, OwnedFd) {
    let mut sv = [0; 2];
    assert_eq!(unsafe { libc::socketpair(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0, sv.as_mut_ptr()) }, 0);
    unsafe { (OwnedFd::from_raw_fd(sv[0]), OwnedFd::from_raw_fd(sv[1])) }
}
pub fn set_sndbuf(fd: RawFd, n: i32) {
    assert_eq!(unsafe { libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_SNDBUF, &n as *const i32 as *const _, 4) }, 0);
}

/// One packet as seen on the wire.
pub struct Packet {
    pub data: Vec<u8>,
    pub fds: Vec<OwnedFd>,
}
/// Receive one raw packet (None at end of stream).
pub fn raw_recv(fd: RawFd, nonblock: bool) -> std::io::Result<Option<Packet>> {
    let mut data = vec![0u8; 1 << 18];
    let mut ctl = vec![0u64; 1024];
    let mut iov = libc::iovec { iov_base: data.as_mut_ptr() as *mut _, iov_len: data.len() };
    let mut msg: libc::msghdr = unsafe { std::mem::zeroed() };
    msg.msg_iov = &mut iov;
    msg.msg_iovlen = 1;
    msg.msg_control = ctl.as_mut_ptr() as *mut _;
    msg.msg_controllen = 8192;
    let n = unsafe { libc::recvmsg(fd, &mut msg, libc::MSG_CMSG_CLOEXEC | if nonblock { libc::MSG_DONTWAIT } else { 0 }) };
    if n < 0 {
        return Err(std::io::Error::last_os_error());
    }
    let mut fds = Vec::new();
    unsafe {
        let mut c = libc::CMSG_FIRSTHDR(&msg);
        while !c.is_null() {
            if (*c).cmsg_type == libc::SCM_RIGHTS {
                let cnt = ((*c).cmsg_len as usize - libc::CMSG_LEN(0) as usize) / 4;
                let p = libc::CMSG_DATA(c) as *const i32;
                for i in 0..cnt {
                    fds.push(OwnedFd::from_raw_fd(p.add(i).read_unaligned()));
                }
            }
            c = libc::CMSG_NXTHDR(&msg, c);
        }
    }
    if n == 0 && fds.is_empty() {
        return Ok(None);
    }
    data.truncate(n as usize);
    Ok(Some(Packet { data, fds }))
}
pub fn raw_send(fd: RawFd, p: &Packet) {
    let mut iov = libc::iovec { iov_base: p.data.as_ptr() as *mut _, iov_len: p.data.len() };
    let mut ctl = vec![0u64; 1024];
    let mut msg: libc::msghdr = unsafe { std::mem::zeroed() };
    msg.msg_iov = &mut iov;
    msg.msg_iovlen = 1;
    if !p.fds.is_empty() {
        unsafe {
            msg.msg_control = ctl.as_mut_ptr() as *mut _;
            msg.msg_controllen = libc::CMSG_SPACE(4 * p.fds.len() as u32) as usize;
            let c = libc::CMSG_FIRSTHDR(&msg);
            (*c).cmsg_level = libc::SOL_SOCKET;
            (*c).cmsg_type = libc::SCM_RIGHTS;
            (*c).cmsg_len = libc::CMSG_LEN(4 * p.fds.len() as u32) as usize;
            for (i, f) in p.fds.iter().enumerate() {
                (libc::CMSG_DATA(c) as *mut i32).add(i).write_unaligned(f.as_raw_fd());
            }
        }
    }
    let n = unsafe { libc::sendmsg(fd, &msg, libc::MSG_NOSIGNAL) };
    assert_eq!(n, p.data.len() as isize, "raw sendmsg: {}", std::io::Error::last_os_error());
}
/// All packets the library sends for `v`.
pub fn packets_of<T: Object + Send + Sync>(v: &T) -> Vec<Packet> {
    let (a, b) = seqpair();
    let mut out = Vec::new();
    std::thread::scope(|sc| {
        sc.spawn(move || {
            let mut tx = unsafe { <crossmist::Sender<T> as FromRawFd>::from_raw_fd(std::os::fd::IntoRawFd::into_raw_fd(a)) };
            tx.send(v).expect("send");
        });
        while let Some(p) = raw_recv(b.as_raw_fd(), false).unwrap() {
            out.push(p);
        }
    });
    out
}
pub fn tokio_rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}
pub fn panics<R>(f: impl FnOnce() -> R) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        f();
    }))
    .is_err()
}

pub async fn join<A: std::future::Future, B: std::future::Future>(a: A, b: B) -> (A::Output, B::Output) {
    let (mut a, mut b) = (Box::pin(a), Box::pin(b));
    let (mut ra, mut rb) = (None, None);
    std::future::poll_fn(|cx| {
        if ra.is_none() {
            if let std::task::Poll::Ready(x) = a.as_mut().poll(cx) { ra = Some(x); }
        }
        if rb.is_none() {
            if let std::task::Poll::Ready(x) = b.as_mut().poll(cx) { rb = Some(x); }
        }
        if ra.is_some() && rb.is_some() { std::task::Poll::Ready(()) } else { std::task::Poll::Pending }
    })
    .await;
    (ra.unwrap(), rb.unwrap())
}

extern "C" fn on_signal(_: i32) {}

pub fn with_signals<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_signal as usize;
        libc::sigaction(libc::SIGUSR1, &sa, std::ptr::null_mut());
    }
    let me = unsafe { libc::pthread_self() } as u64;
    let stop = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|sc| {
        let stop = &stop;
        sc.spawn(move || {
            while !stop.load(std::sync::atomic::Ordering::SeqCst) {
                std::thread::sleep(std::time::Duration::from_micros(700));
                unsafe { libc::pthread_kill(me as libc::pthread_t, libc::SIGUSR1) };
            }
        });
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        stop.store(true, std::sync::atomic::Ordering::SeqCst);
        match r { Ok(x) => x, Err(e) => std::panic::resume_unwind(e) }
    })
}
