//! C08 join outcomes, C09 kill handles
use crate::util::*;
use crate::Case;
use crossmist::{Deserializer, NonTrivialObject, Object, Serializer};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::Duration;

pub fn cases() -> Vec<Case> {
    vec![
        ("C08", "blocking", join_blocking),
        ("C08", "tokio", join_tokio),
        ("C08", "smol", join_smol),
        ("C08", "signals", join_signals),
        ("C08", "many", join_many),
        ("C08", "codes", codes),
        ("C08", "undecodable", join_undecodable),
        ("C08", "stopped", join_stopped),
        ("C09", "before-join", kill_before),
        ("C09", "after-join", kill_after),
        ("C09", "stubborn", kill_stubborn),
        ("C09", "together", kill_together),
        ("C09", "race", kill_race),
        ("C09", "slow-kill", kill_slow),
    ]
}

#[derive(Object, Debug, PartialEq)]
struct Z;
/// A zero-sized type that is not plain data.
#[derive(Object, Debug, PartialEq)]
struct ZN([String; 0]);

/// How the child ends.
#[derive(Object, Clone, Copy, Debug, PartialEq)]
enum End { Value, Panic, Exit(i32), Kill(i32), LateExit(i32), LateKill(i32), Closed(i32) }

static LATE: AtomicUsize = AtomicUsize::new(0);
extern "C" fn late_exit() {
    let n = LATE.load(SeqCst);
    unsafe {
        if n >= 1000 { die((n - 1000) as i32); }
        libc::_exit(n as i32)
    }
}
/// End this process by a signal, whatever is done about it otherwise.
unsafe fn die(s: i32) -> ! {
    let mut set: libc::sigset_t = std::mem::zeroed();
    libc::sigemptyset(&mut set);
    libc::sigaddset(&mut set, s);
    libc::sigprocmask(libc::SIG_UNBLOCK, &set, std::ptr::null_mut());
    libc::signal(s, libc::SIG_DFL);
    libc::kill(libc::getpid(), s);
    loop { libc::pause(); }
}
fn no_core() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
        libc::close(2);
        libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
    }
}
fn go<T>(e: End, v: T) -> T {
    no_core();
    match e {
        End::Value => {}
        End::Panic => panic!("child panics"),
        End::Exit(n) => std::process::exit(n),
        End::Kill(s) => unsafe { die(s) },
        End::LateExit(n) => { LATE.store(n as usize, SeqCst); unsafe { libc::atexit(late_exit); } }
        End::LateKill(s) => { LATE.store(1000 + s as usize, SeqCst); unsafe { libc::atexit(late_exit); } }
        End::Closed(n) => {
            // close everything (including the control channel), linger, then exit
            for fd in fds() { if fd > 2 { unsafe { libc::close(fd); } } }
            std::thread::sleep(Duration::from_millis(60));
            std::process::exit(n)
        }
    }
    v
}
#[crossmist::func]
fn f_unit(e: End) { go(e, ()) }
#[crossmist::func]
fn f_int(e: End, v: u64) -> u64 { go(e, v) }
#[crossmist::func]
fn f_string(e: End, v: String) -> String { go(e, v) }
#[crossmist::func]
fn f_big(e: End, n: usize) -> Vec<u64> { go(e, (0..n as u64).collect()) }
#[crossmist::func]
fn f_opt(e: End) -> Option<String> { go(e, None) }
#[crossmist::func]
fn f_res(e: End) -> Result<(), String> { go(e, Err("x".to_string())) }
#[crossmist::func]
fn f_z(e: End) -> Z { go(e, Z) }
#[crossmist::func]
fn f_zn(e: End) -> ZN { go(e, ZN([])) }
#[crossmist::func]
fn f_tuple(e: End) -> ((),) { go(e, ((),)) }
#[crossmist::func]
fn f_slow(ms: u64, code: i32) -> u64 { std::thread::sleep(Duration::from_millis(ms)); if code != 0 { std::process::exit(code) } 77 }
#[crossmist::func]
fn f_sleep() { std::thread::sleep(Duration::from_secs(100)); }
#[crossmist::func]
fn f_sleep_int() -> u32 { std::thread::sleep(Duration::from_secs(100)); 1 }

const ENDS: &[End] = &[
    End::Value, End::Panic, End::Exit(0), End::Exit(1), End::Exit(3), End::Exit(255), End::Exit(256), End::Kill(9), End::Kill(15), End::Kill(6),
    End::LateExit(0), End::LateExit(7), End::LateKill(9), End::LateKill(15), End::Closed(0), End::Closed(5),
];

/// (the child exited with status zero, it delivered a value)
fn meaning(e: End) -> (bool, bool) {
    match e {
        End::Value => (true, true),
        End::Panic => (false, false),
        End::Exit(n) | End::Closed(n) => (n & 255 == 0, false),
        End::Kill(_) => (false, false),
        End::LateExit(n) => (n & 255 == 0, true),
        End::LateKill(_) => (false, true),
    }
}
fn is_zombie_or_alive(pid: i32) -> bool {
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) != -1 }
}
fn check<T: PartialEq + std::fmt::Debug>(how: &str, name: &str, e: End, pid: i32, void: bool, r: std::io::Result<T>, expect: T) {
    let (ok, delivered) = meaning(e);
    if ok && (delivered || void) {
        match r {
            Ok(v) => assert_eq!(v, expect, "{how} {name} {e:?}: wrong value"),
            Err(x) => panic!("{how} {name} {e:?}: join failed with {x}"),
        }
    } else if let Ok(v) = r {
        panic!("{how} {name} {e:?}: join returned {v:?}")
    }
    assert!(!is_zombie_or_alive(pid), "{how} {name} {e:?}: the child has not been waited for");
}

macro_rules! one {
    ($ctx:ident, $how:literal, $spawn:ident, [$($aw:tt)*], $e:ident, $n:ident, $void:expr, $expect:expr $(, $a:expr)*) => {{
        $ctx.case(format!("{} {} {:?}", $how, stringify!($n), $e));
        let child = $n.$spawn($e $(, $a)*)$($aw)*.unwrap();
        let pid = child.id();
        let r = child.join()$($aw)*;
        check($how, stringify!($n), $e, pid, $void, r, $expect);
    }};
}
macro_rules! all {
    ($ctx:ident, $how:literal, $spawn:ident, $aw:tt) => {
        for e in ENDS.iter().copied() {
            one!($ctx, $how, $spawn, $aw, e, f_unit, true, ());
            one!($ctx, $how, $spawn, $aw, e, f_int, false, 12345678901234, 12345678901234);
            one!($ctx, $how, $spawn, $aw, e, f_string, false, "".to_string(), "".to_string());
            one!($ctx, $how, $spawn, $aw, e, f_string, false, "héllo".repeat(20000), "héllo".repeat(20000));
            one!($ctx, $how, $spawn, $aw, e, f_big, false, (0..60000u64).collect::<Vec<_>>(), 60000);
            one!($ctx, $how, $spawn, $aw, e, f_opt, false, None);
            one!($ctx, $how, $spawn, $aw, e, f_res, false, Err("x".to_string()));
            one!($ctx, $how, $spawn, $aw, e, f_z, false, Z);
            one!($ctx, $how, $spawn, $aw, e, f_zn, false, ZN([]));
            one!($ctx, $how, $spawn, $aw, e, f_tuple, false, ((),));
        }
    };
}
/// Every status a child can end with, with and without a value delivered.
fn codes(ctx: &mut Ctx) {
    let step = ctx.n(8, 64);
    let all: Vec<i32> = (0..256).chain([256, 257, 512, 768]).collect();
    for part in all.chunks(step) {
        let hs: Vec<_> = part.iter().map(|n| [End::LateExit(*n), End::Exit(*n)]).flatten().map(|e| (e, f_int.spawn(e, 5).unwrap(), f_unit.spawn(e).unwrap())).collect();
        for (e, a, b) in hs {
            let (p, q) = (a.id(), b.id());
            ctx.case(format!("{e:?}"));
            check("blocking", "f_int", e, p, false, a.join(), 5);
            check("blocking", "f_unit", e, q, true, b.join(), ());
        }
    }
    let sigs: Vec<i32> = (1..32).filter(|s| ![libc::SIGCHLD, libc::SIGCONT, libc::SIGSTOP, libc::SIGTSTP, libc::SIGTTIN, libc::SIGTTOU, libc::SIGURG, libc::SIGWINCH].contains(s)).chain([34, 40, 64]).collect();
    for part in sigs.chunks(step) {
        let hs: Vec<_> = part.iter().map(|n| [End::LateKill(*n), End::Kill(*n)]).flatten().map(|e| (e, f_int.spawn(e, 5).unwrap(), f_unit.spawn(e).unwrap())).collect();
        for (e, a, b) in hs {
            let (p, q) = (a.id(), b.id());
            ctx.case(format!("{e:?}"));
            check("blocking", "f_int", e, p, false, a.join(), 5);
            check("blocking", "f_unit", e, q, true, b.join(), ());
        }
    }
}
fn join_blocking(ctx: &mut Ctx) { all!(ctx, "blocking", spawn, []); }
fn join_tokio(ctx: &mut Ctx) { tokio_rt().block_on(async { all!(ctx, "tokio", spawn_tokio, [.await]); }) }
fn join_smol(ctx: &mut Ctx) { async_io::block_on(async { all!(ctx, "smol", spawn_smol, [.await]); }) }

fn join_signals(ctx: &mut Ctx) {
    for (ms, code) in [(0u64, 0), (30, 0), (30, 4), (80, 0)] {
        ctx.case(format!("signals during join: {ms} ms, {code}"));
        let child = f_slow.spawn(ms, code).unwrap();
        let pid = child.id();
        let r = with_signals(|| child.join());
        if code == 0 { assert_eq!(r.expect("join interrupted by a signal"), 77); } else { assert!(r.is_err()); }
        assert!(!is_zombie_or_alive(pid), "not waited for");
    }
    // the value arrives early, the process stays for a while
    for _ in 0..3 {
        ctx.case("signals while waiting for the exit");
        let child = f_lingers.spawn(60).unwrap();
        let r = with_signals(|| child.join());
        assert_eq!(r.expect("join interrupted by a signal"), 5);
        let child = f_lingers_unit.spawn(60).unwrap();
        let r = with_signals(|| child.join());
        r.expect("join interrupted by a signal");
    }
}
/// A child that is stopped for a while has not ended: join goes on waiting.
extern "C" fn stop_here() { unsafe { libc::raise(libc::SIGSTOP); if LATE.load(SeqCst) != 0 { libc::_exit(LATE.load(SeqCst) as i32) } } }
#[crossmist::func]
fn f_stops(code: usize) -> u8 { LATE.store(code, SeqCst); unsafe { libc::atexit(stop_here); } 5 }
#[crossmist::func]
fn f_stops_unit(code: usize) { LATE.store(code, SeqCst); unsafe { libc::atexit(stop_here); } }
/// Wait until the child has stopped, then let it go on.
fn resume(pid: i32) -> std::thread::JoinHandle<()> {
    std::thread::spawn(move || {
        for _ in 0..4000 {
            let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
            match s.rsplit(')').next().unwrap_or("").trim().chars().next() {
                Some('T') => { std::thread::sleep(Duration::from_millis(100)); break }
                None | Some('Z') | Some('X') => break,
                _ => std::thread::sleep(Duration::from_millis(2)),
            }
        }
        unsafe { libc::kill(pid, libc::SIGCONT); }
    })
}
fn join_stopped(ctx: &mut Ctx) {
    for code in [0usize, 6] {
        for how in ["blocking", "tokio", "smol"] {
            ctx.case(format!("{how}: a child that is stopped before it exits with {code}"));
            macro_rules! both { ($s:ident, [$($aw:tt)*]) => {{
                let child = f_stops.$s(code)$($aw)*.unwrap();
                let pid = child.id();
                let back = resume(pid);
                let r = child.join()$($aw)*;
                let child = f_stops_unit.$s(code)$($aw)*.unwrap();
                let t = resume(child.id());
                let q = child.join()$($aw)*;
                t.join().unwrap();
                (pid, back, r, q)
            }} }
            let (pid, back, r, q) = match how {
                "blocking" => both!(spawn, []),
                "tokio" => tokio_rt().block_on(async { both!(spawn_tokio, [.await]) }),
                _ => async_io::block_on(async { both!(spawn_smol, [.await]) }),
            };
            let waited = !is_zombie_or_alive(pid);
            back.join().unwrap();
            if code == 0 {
                assert_eq!(r.expect("join of a child that was stopped for a while"), 5);
                q.expect("join of a child that was stopped for a while");
            } else {
                assert!(r.is_err() && q.is_err(), "the exit status was ignored");
            }
            assert!(waited, "the child has not been waited for");
        }
    }
}
extern "C" fn linger() { std::thread::sleep(Duration::from_millis(LATE.load(SeqCst) as u64)); }
#[crossmist::func]
fn f_lingers(ms: usize) -> u8 { LATE.store(ms, SeqCst); unsafe { libc::atexit(linger); } 5 }
#[crossmist::func]
fn f_lingers_unit(ms: usize) {
    for fd in fds() { if fd > 2 { unsafe { libc::close(fd); } } }
    std::thread::sleep(Duration::from_millis(ms as u64));
}

/// Several children at once, joined in another order than they were started.
fn join_many(ctx: &mut Ctx) {
    let mut cs: Vec<_> = (0..8u64).map(|i| (i, f_int.spawn(if i % 3 == 2 { End::Exit(0) } else { End::Value }, 100 + i).unwrap())).collect();
    while !cs.is_empty() {
        let k = ctx.rng.below(cs.len());
        let (i, c) = cs.remove(k);
        ctx.case(format!("child {i}"));
        let r = c.join();
        if i % 3 == 2 { assert!(r.is_err()) } else { assert_eq!(r.unwrap(), 100 + i, "joined another child") }
    }
}

/// A value that cannot be decoded by the parent.
#[derive(Debug)]
struct Undec(Vec<u8>);
unsafe impl NonTrivialObject for Undec {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) { s.serialize(&self.0) }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> std::io::Result<Self> {
        let v: Vec<u8> = d.deserialize()?;
        Err(std::io::Error::new(std::io::ErrorKind::Other, format!("cannot decode {} bytes", v.len())))
    }
}
#[crossmist::func]
fn f_undec(n: usize, ms: usize) -> Undec { LATE.store(ms, SeqCst); unsafe { libc::atexit(linger); } Undec(vec![1; n]) }
fn join_undecodable(ctx: &mut Ctx) {
    for (n, ms) in [(0usize, 0usize), (10, 80), (100_000, 40)] {
        ctx.case(format!("{n} bytes, {ms} ms"));
        let c = f_undec.spawn(n, ms).unwrap();
        let (pid, k) = (c.id(), c.get_kill_handle());
        let e = c.join().expect_err("no error");
        assert_eq!(e.to_string(), format!("cannot decode {n} bytes"));
        assert!(!is_zombie_or_alive(pid), "the child has not been waited for");
        assert!(k.kill().expect_err("kill after join").raw_os_error().is_none());
    }
    for i in 0..10 {
        ctx.case("killed at once");
        let c = f_int.spawn(End::Value, i).unwrap();
        let (pid, k) = (c.id(), c.get_kill_handle());
        k.kill().unwrap();
        let _ = c.join();
        assert!(!is_zombie_or_alive(pid), "the child has not been waited for");
        assert!(k.kill().expect_err("kill after join").raw_os_error().is_none());
    }
}

fn wait_dead(pid: i32) {
    for _ in 0..2000 {
        let mut st: libc::siginfo_t = unsafe { std::mem::zeroed() };
        if unsafe { libc::waitid(libc::P_PID, pid as u32, &mut st, libc::WEXITED | libc::WNOWAIT | libc::WNOHANG) } == 0 && unsafe { st.si_pid() } == pid { return; }
        std::thread::sleep(Duration::from_millis(5));
    }
    panic!("the child was not terminated by its kill handle");
}

/// A child that ignores (or blocks) whatever can be ignored.
#[crossmist::func]
fn f_stubborn(block: bool, mut ready: crossmist::Sender<u8>) {
    unsafe {
        if block {
            let mut all: libc::sigset_t = std::mem::zeroed();
            libc::sigfillset(&mut all);
            libc::sigprocmask(libc::SIG_SETMASK, &all, std::ptr::null_mut());
        } else {
            for s in 1..=64 { libc::signal(s, libc::SIG_IGN); }
        }
    }
    ready.send(&1).unwrap();
    std::thread::sleep(std::time::Duration::from_secs(15));
}
fn kill_stubborn(ctx: &mut Ctx) {
    for mode in 0..3 {
        ctx.case(format!("a child that {}", ["ignores signals", "blocks signals", "is stopped"][mode]));
        let (tx, mut rx) = crossmist::channel::<u8>().unwrap();
        let child = f_stubborn.spawn(mode == 1, tx).unwrap();
        rx.recv().unwrap().unwrap();
        if mode == 2 { unsafe { libc::kill(child.id(), libc::SIGSTOP) }; }
        let k = child.get_kill_handle();
        k.kill().expect("kill");
        wait_dead(child.id());
        assert!(child.join().is_err(), "a killed child was reported as successful");
        assert!(k.kill().is_err());
    }
}
/// Every handle works until the child is joined, whatever other handles do at the same time.
fn kill_together(ctx: &mut Ctx) {
    for round in 0..ctx.n(12, 100) {
        ctx.case(format!("eight kill handles at once, round {round}"));
        let child = f_sleep.spawn().unwrap();
        let go = std::sync::Barrier::new(8);
        std::thread::scope(|sc| {
            let hs: Vec<_> = (0..8).map(|_| { let (k, go) = (child.get_kill_handle(), &go); sc.spawn(move || {
                go.wait();
                for _ in 0..200 { k.kill()?; }
                Ok::<(), std::io::Error>(())
            }) }).collect();
            for h in hs { h.join().unwrap().expect("a kill handle failed although the child was not joined"); }
        });
        assert!(child.join().is_err());
    }
}
fn kill_before(ctx: &mut Ctx) {
    for mode in 0..3 {
        ctx.case(format!("kill before join, mode {mode}"));
        let child = f_sleep.spawn().unwrap();
        let other = f_sleep.spawn().unwrap();
        let (pid, pid2) = (child.id(), other.id());
        let k = child.get_kill_handle();
        let k2 = if mode == 1 { child.get_kill_handle() } else { child.get_kill_handle() };
        k.kill().expect("kill");
        wait_dead(pid);
        // still not joined: further kills are allowed and hit nobody else
        k2.kill().expect("second kill before the join");
        let mut st: libc::siginfo_t = unsafe { std::mem::zeroed() };
        unsafe { libc::waitid(libc::P_PID, pid2 as u32, &mut st, libc::WEXITED | libc::WNOWAIT | libc::WNOHANG) };
        assert!(unsafe { st.si_pid() } != pid2, "another child was killed");
        let e = child.join();
        assert!(e.is_err(), "a killed child was reported as successful");
        assert!(k.kill().is_err() && k2.kill().is_err());
        let ko = other.get_kill_handle();
        if mode == 2 { drop(other); ko.kill().expect("kill of a dropped child"); wait_dead(pid2); }
        else { ko.kill().unwrap(); assert!(other.join().is_err()); assert!(ko.kill().is_err()); }
    }
    ctx.case("tokio");
    tokio_rt().block_on(async {
        let c = f_sleep_int.spawn_tokio().await.unwrap();
        let k = c.get_kill_handle();
        k.kill().unwrap();
        assert!(c.join().await.is_err());
        assert!(k.kill().is_err());
    });
    ctx.case("smol");
    async_io::block_on(async {
        let c = f_sleep_int.spawn_smol().await.unwrap();
        let k = c.get_kill_handle();
        k.kill().unwrap();
        assert!(c.join().await.is_err());
        assert!(k.kill().is_err());
    });
}

fn kill_after(ctx: &mut Ctx) {
    for e in ENDS.iter().copied() {
        ctx.case(format!("{e:?}"));
        let child = f_int.spawn(e, 1).unwrap();
        let ks = vec![child.get_kill_handle(), child.get_kill_handle(), child.get_kill_handle()];
        let _ = child.join();
        for k in ks {
            let err = k.kill().expect_err("kill succeeded after the child was joined");
            // ESRCH (or anything from the system call) means that the system call was made
            assert!(err.raw_os_error().is_none(), "{e:?}: a reaped process id was signalled ({err})");
        }
    }
}

/// Hold up the kill system calls of this thread: a filter turns them into SIGSYS, whose handler
/// waits and then makes the same call (with a mark, so that the filter lets it through).
const MARK: u32 = 0x6b17_5001;
static HOLD_MS: AtomicUsize = AtomicUsize::new(0);
#[cfg(target_arch = "x86_64")]
unsafe extern "C" fn held_kill(_: libc::c_int, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let regs = &mut (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs;
    let ts = libc::timespec { tv_sec: 0, tv_nsec: HOLD_MS.load(SeqCst) as i64 * 1_000_000 };
    libc::nanosleep(&ts, std::ptr::null_mut());
    let ret: i64;
    std::arch::asm!("syscall", inlateout("rax") libc::SYS_kill => ret, in("rdi") regs[libc::REG_RDI as usize], in("rsi") regs[libc::REG_RSI as usize],
        in("rdx") MARK as i64, lateout("rcx") _, lateout("r11") _);
    regs[libc::REG_RAX as usize] = ret;
}
#[cfg(target_arch = "x86_64")]
fn hold_kills() -> bool {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = held_kill as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGSYS, &sa, std::ptr::null_mut());
        let op = |code: u32, jt: u8, jf: u8, k: u32| libc::sock_filter { code: code as u16, jt, jf, k };
        let mut prog = [
            op(libc::BPF_LD | libc::BPF_W | libc::BPF_ABS, 0, 0, 0),
            op(libc::BPF_JMP | libc::BPF_JEQ | libc::BPF_K, 0, 3, libc::SYS_kill as u32),
            op(libc::BPF_LD | libc::BPF_W | libc::BPF_ABS, 0, 0, 32),
            op(libc::BPF_JMP | libc::BPF_JEQ | libc::BPF_K, 1, 0, MARK),
            op(libc::BPF_RET | libc::BPF_K, 0, 0, libc::SECCOMP_RET_TRAP),
            op(libc::BPF_RET | libc::BPF_K, 0, 0, libc::SECCOMP_RET_ALLOW),
        ];
        let prog = libc::sock_fprog { len: prog.len() as u16, filter: prog.as_mut_ptr() };
        libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0 && libc::prctl(libc::PR_SET_SECCOMP, libc::SECCOMP_MODE_FILTER, &prog) == 0
    }
}
#[cfg(not(target_arch = "x86_64"))]
fn hold_kills() -> bool { false }
/// The thread that kills is held up right before the signal while the child ends and is joined.
fn kill_slow(ctx: &mut Ctx) {
    for r in 0..ctx.n(24, 200) {
        let child = f_lingers.spawn(r % 4 * 3).unwrap();
        let k = child.get_kill_handle();
        HOLD_MS.store(30 + r % 3 * 10, SeqCst);
        let held = std::thread::scope(|sc| {
            let t = sc.spawn(move || { let held = hold_kills(); (held, k.kill()) });
            let _ = child.join();
            let (held, res) = t.join().unwrap();
            if let Err(e) = res {
                assert!(e.raw_os_error().is_none(), "a kill reached the system after the child was reaped: {e}");
            }
            held
        });
        ctx.case(format!("{}held {}", if held { "" } else { "not " }, r % 4));
    }
}

/// Kills racing with the join: each either happens before the reaping or is refused.
fn kill_race(ctx: &mut Ctx) {
    let rounds = ctx.n(60, 600);
    for r in 0..rounds {
        ctx.case(format!("race {}", r % 8));
        let child = f_lingers.spawn((r % 8) as usize).unwrap();
        let ks: Vec<_> = (0..3).map(|_| child.get_kill_handle()).collect();
        let delay = ctx.rng.below(3000) as u64;
        std::thread::scope(|sc| {
            let late = r % 2 == 0;
            for k in &ks {
                sc.spawn(move || {
                    if late { std::thread::sleep(Duration::from_micros(delay)); }
                    for _ in 0..2000 {
                        match k.kill() {
                            Ok(()) if late => {}
                            Ok(()) => std::thread::sleep(Duration::from_micros(20)),
                            Err(e) => {
                                assert!(e.raw_os_error().is_none(), "a kill reached the system after the child was reaped: {e}");
                                return;
                            }
                        }
                    }
                });
            }
            let _ = child.join();
        });
        for k in &ks { assert!(k.kill().expect_err("kill after join").raw_os_error().is_none()); }
    }
}
