// ------------------------------------------------------------------------------------------------
// src/asynchronous.rs, src/blocking.rs: children, joining and killing them (C08, C09)
// ------------------------------------------------------------------------------------------------
/// What this call did and what it knows of the flags that children share with their kill handles.
/// down: the flags that are false (a flag that is false stays false: nothing ever sets one); idle: the processes
/// whose flag is known to be down; cleared: the flags this call set to false; owed: the holders (guards) that reaped a
/// process whose flag was up, and have to lower it before they let go; sigs: the process ids this call tried to signal; waited: the processes it reaped
pub struct Os { pub down: ISet<int>, pub idle: ISet<i32>, pub cleared: ISet<int>, pub owed: ISet<int>, pub sigs: Seq<i32>, pub waited: Seq<i32>,
    /// the handles that would survive an exec (close-on-exec is not set)
    pub open: ISet<int>,
    /// processes started; messages sent on new control channels; entries run
    pub kids: Seq<Kid>, pub told: Seq<Told>, pub ran: Seq<Ran>,
    /// in a child that did not exec yet: what it was started for, and the programs it asked for
    pub task: Task, pub execs: nat,
    /// in a started program: its control handle
    pub ctl: int, pub fails: nat,
    /// init was called
    pub inited: bool }
pub struct Task { pub child: int, pub text: Seq<char>, pub inherited: Seq<int>, pub open: ISet<int> }
pub struct Kid { pub pid: i32, pub task: Task }
pub struct Told { pub sock: int, pub data: Seq<u8>, pub fds: Seq<int> }
pub struct Ran { pub entry: Val, pub ctl: int, pub code: i32, pub open: ISet<int> }
impl Os {
    /// what other threads may do in the meantime
    pub open spec fn lower(self, m: Mutex<bool>) -> Os { Os { down: self.down.insert(m.id()), idle: self.idle.union(ISet::new(|n: i32| guards(m, n))), cleared: self.cleared.insert(m.id()), ..self } }
    pub open spec fn later(self, b: Os) -> bool { self.down.subset_of(b.down) && self.idle.subset_of(b.idle) && b == (Os { down: b.down, idle: b.idle, ..self }) }
}
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum Errno { INTR, CHILD, SRCH, Else(i32) }
pub uninterp spec fn errno_of(e: Error) -> Option<Errno>;
impl From<Errno> for Error {
    #[verifier::external_body]
    fn from(e: Errno) -> (res: Error) ensures errno_of(res) == Some(e) { unimplemented!() }
}
/// errors the crate makes itself do not come from the system
pub trait VxExpect<T> : Sized { spec fn vx_ok(self) -> Option<T>; fn vx_expect(self, m: &str) -> (res: T) requires self.vx_ok() is Some ensures self.vx_ok() == Some(res); }
impl<T, E> VxExpect<T> for core::result::Result<T, E> {
    open spec fn vx_ok(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    #[verifier::external_body]
    fn vx_expect(self, m: &str) -> (res: T) { unimplemented!() }
}
// ---- process ids
pub type RawPid = i32;
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct Pid { pub n: i32 }
impl Pid {
    pub fn from_raw(n: i32) -> (res: Option<Pid>) ensures n > 0 ==> res == Some(Pid { n }) { if n > 0 { Some(Pid { n }) } else { None } }
    pub fn as_raw(p: Option<Pid>) -> (res: i32) ensures res == (match p { Some(p) => p.n, None => 0 }) { match p { Some(p) => p.n, None => 0 } }
}
/// no process of the crate has the id of a process group or "every process"
pub axiom fn ax_pid(p: Pid) ensures p.n > 0;

// ---- the flag shared by a child and its kill handles
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Mutex<T> { _p: core::marker::PhantomData<T> }
impl Mutex<bool> {
    pub uninterp spec fn id(&self) -> int;
    /// what it was made with
    pub uninterp spec fn first(&self) -> bool;
    #[verifier::external_body]
    pub fn new(v: bool) -> (res: Self) ensures res.first() == v { unimplemented!() }
    /// never poisoned: no holder panics (panics are unreachable below)
    #[verifier::external_body]
    pub fn lock<'a>(&'a self, vx_w: &mut World) -> (res: core::result::Result<MutexGuard<'a>, Poison>)
        ensures old(vx_w).os@.later(final(vx_w).os@), res matches Ok(g) && g.of() == *self && g.value() == !final(vx_w).os@.down.contains(self.id()) && !final(vx_w).os@.owed.contains(g.serial())
    { unimplemented!() }
}
pub struct Poison { pub p: u8 }
#[verifier::external_body]
pub struct MutexGuard<'a> { _p: core::marker::PhantomData<&'a u8> }
impl<'a> MutexGuard<'a> {
    pub uninterp spec fn of(&self) -> Mutex<bool>;
    pub uninterp spec fn value(&self) -> bool;
    /// which of all the times the mutex is taken this is
    pub uninterp spec fn serial(&self) -> int;
    #[verifier::external_body]
    pub fn vx_get(&self) -> (res: bool) ensures res == self.value() { unimplemented!() }
    /// a flag is only ever lowered
    #[verifier::external_body]
    pub fn vx_set(&mut self, v: bool, vx_w: &mut World)
        requires !v
        ensures final(self).of() == old(self).of(), final(self).value() == v, final(self).serial() == old(self).serial(),
            final(vx_w).os@ == (Os { owed: old(vx_w).os@.owed.remove(old(self).serial()), ..old(vx_w).os@.lower(old(self).of()) }) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_set_now<'a>(g: MutexGuard<'a>, v: bool, vx_w: &mut World)
    requires !v
    ensures final(vx_w).os@ == old(vx_w).os@.lower(g.of()) { unimplemented!() }
/// no guard is held
#[verifier::external_body]
pub fn vx_noguard() -> (res: MutexGuard<'static>) ensures forall|n: i32| !#[trigger] guards(res.of(), n) { unimplemented!() }
/// as long as this flag is up, the process with this id has not been reaped
pub uninterp spec fn guards(m: Mutex<bool>, n: i32) -> bool;
/// a flag that was made up is put in charge of a process that was just started
pub axiom fn ax_in_charge(m: &Mutex<bool>, n: i32) requires m.first() ensures guards(*m, n);

// ---- signalling and waiting
pub enum Signal { Kill, Term, Int, Hup, Quit, Stop, Cont, Usr1, Usr2 }
/// the process is signalled while its flag is held and is up
#[verifier::external_body]
pub fn process_kill_process(p: Pid, s: Signal, g: &MutexGuard<'_>, vx_w: &mut World) -> (res: core::result::Result<(), Errno>)
    requires s is Kill, guards(g.of(), p.n), g.value(), !old(vx_w).os@.owed.contains(g.serial())
    ensures final(vx_w).os@ == (Os { sigs: old(vx_w).os@.sigs.push(p.n), ..old(vx_w).os@ })
{ unimplemented!() }
pub struct WaitOptions { pub empty: bool }
impl WaitOptions {
    pub const NOHANG: WaitOptions = WaitOptions { empty: false };
    pub const UNTRACED: WaitOptions = WaitOptions { empty: false };
    pub const CONTINUED: WaitOptions = WaitOptions { empty: false };
    pub fn empty() -> (res: WaitOptions) ensures res.empty { WaitOptions { empty: true } }
}
#[verifier::external_body]
pub struct WaitStatus { _p: u8 }
impl WaitStatus {
    /// the exit code, unless a signal ended it
    pub uninterp spec fn code(&self) -> Option<u32>;
    #[verifier::external_body]
    pub fn exit_status(&self) -> (res: Option<u32>) ensures res == self.code() { unimplemented!() }
    #[verifier::external_body]
    pub fn exited(&self) -> (res: bool) ensures res == self.code().is_some() { unimplemented!() }
    #[verifier::external_body]
    pub fn signaled(&self) -> (res: bool) ensures res == self.code().is_none() { unimplemented!() }
}
/// how the process with this id ends
pub uninterp spec fn ended(n: i32) -> WaitStatus;
/// a child is reaped only after its flag was lowered, or by a holder of the flag, who then owes lowering it
pub open spec fn reapable(p: Option<Pid>, g: MutexGuard, w: World) -> bool {
    p is Some && (w.os@.idle.contains(p->0.n) || guards(g.of(), p->0.n))
}
pub open spec fn reaps(a: Os, n: i32, g: MutexGuard) -> Os { Os { waited: a.waited.push(n), owed: if a.idle.contains(n) { a.owed } else { a.owed.insert(g.serial()) }, ..a } }
#[verifier::external_body]
pub fn process_waitpid(p: Option<Pid>, o: WaitOptions, g: &MutexGuard<'_>, vx_w: &mut World) -> (res: core::result::Result<Option<WaitStatus>, Errno>)
    requires o.empty, reapable(p, *g, *old(vx_w))
    ensures res matches Ok(s) ==> s == Some(ended(p->0.n)) && final(vx_w).os@ == reaps(old(vx_w).os@, p->0.n, *g),
        res is Err ==> final(vx_w).os@ == old(vx_w).os@
{ unimplemented!() }
/// the same, repeated while it is interrupted
#[verifier::external_body]
pub fn process_waitpid_retry(p: Option<Pid>, o: WaitOptions, g: &MutexGuard<'_>, vx_w: &mut World) -> (res: core::result::Result<Option<WaitStatus>, Errno>)
    requires o.empty, reapable(p, *g, *old(vx_w))
    ensures res matches Ok(s) ==> s == Some(ended(p->0.n)) && final(vx_w).os@ == reaps(old(vx_w).os@, p->0.n, *g),
        res matches Err(e) ==> e != Errno::INTR && final(vx_w).os@ == old(vx_w).os@
{ unimplemented!() }

// ---- the channel the result arrives on (C05, C06 show what receiving does)
pub trait AsyncStream: Sized {}
pub trait Object: Sized {}
pub struct Blocking { pub p: u8 }
impl AsyncStream for Blocking {}
#[verifier::external_body]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(T)]
pub struct Receiver<S, T> { _p: core::marker::PhantomData<(S, T)> }
impl<S: AsyncStream, T: Object> Receiver<S, T> {
    pub uninterp spec fn sock(&self) -> int;
    /// what receiving on it gives next
    pub uninterp spec fn gets(&self) -> Result<Option<T>>;
    #[verifier::external_body]
    pub fn recv(&mut self, vx_w: &mut World) -> (res: Result<Option<T>>) ensures res == old(self).gets(), old(vx_w).os@.later(final(vx_w).os@) { unimplemented!() }
}
/// the unit type, and the value it has
pub uninterp spec fn is_void<T>() -> bool;
pub uninterp spec fn the_void<T>() -> T;
#[verifier::external_body]
pub fn vx_implements_IsVoid<T>() -> (res: bool) ensures res == is_void::<T>() { unimplemented!() }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct NonNull<T> { _p: core::marker::PhantomData<T> }
impl<T> NonNull<T> {
    #[verifier::external_body]
    pub fn dangling() -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ptr(self) -> Self { unimplemented!() }
    /// a read at a dangling address is one of nothing at all
    #[verifier::external_body]
    pub fn read(self) -> (res: T) requires is_void::<T>() ensures res == the_void::<T>() { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_format() -> (res: &'static str) { unimplemented!() }
pub fn must_use<T>(x: T) -> (res: T) ensures res == x { x }
/// src/blocking.rs: a future runs to completion
pub fn block_on<T>(x: T) -> (res: T) ensures res == x { x }
pub fn vx_drop<T>(x: T) {}

//@mode child
//@world lock kill recv join process_kill_process process_waitpid process_waitpid_retry
//@guarded process_kill_process process_waitpid process_waitpid_retry
//@method expect => vx_expect
//@rename drop => vx_drop
//@rename imp::if_void => if_void
//@rename alloc::__export::must_use => must_use
//@type Child
//@attr #[verifier::reject_recursive_types(Stream)]
//@attr #[verifier::reject_recursive_types(T)]
//@end
//@type KillHandle
//@end
//@type BChild
//@attr #[verifier::reject_recursive_types(T)]
//@end
impl<Stream: AsyncStream, T: Object> Child<Stream, T> {
    pub open spec fn pid(&self) -> i32 { self.proc_handle.n }
    pub open spec fn flag(&self) -> Mutex<bool> { *self.may_kill }
    pub open spec fn wf(&self) -> bool { guards(self.flag(), self.pid()) }
}
impl KillHandle {
    pub open spec fn pid(&self) -> i32 { self.proc_id }
    pub open spec fn flag(&self) -> Mutex<bool> { *self.may_kill }
    pub open spec fn wf(&self) -> bool { guards(self.flag(), self.pid()) && self.pid() > 0 }
}
/// how joining ends, given what was received and how the process ended
pub open spec fn outcome<T>(got: Result<Option<T>>, st: WaitStatus, r: Result<T>) -> bool {
    if got is Ok && st.code() == Some(0u32) && (is_void::<T>() || got->Ok_0 is Some) {
        r matches Ok(x) && x == (if is_void::<T>() { the_void::<T>() } else { got->Ok_0->0 })
    } else { r is Err }
}
//@fn if_void
    ensures res == (if is_void::<T>() { Some(the_void::<T>()) } else { None::<T> })
//@end
//@tryconv on
//@impl Child<$0,$1>
//@fn new
    ensures res.wf(), res.pid() == $arg0.n, res.output_rx == $arg1
//@post
    proof { ax_in_charge(&*vx_res.may_kill, vx_res.proc_handle.n); }
//@fn get_kill_handle
    requires self.wf()
    ensures res.wf(), res.pid() == self.pid(), res.flag() == self.flag()
//@pre
    proof { ax_pid(self.proc_handle); }
//@fn id
    ensures res == self.pid()
//@fn join
    requires self.wf()
    ensures final(vx_w).os@.sigs == old(vx_w).os@.sigs,
        // no kill after this, nor between reaping and letting go of the flag
        final(vx_w).os@.owed =~= old(vx_w).os@.owed,
        final(vx_w).os@.down.contains(self.flag().id()), final(vx_w).os@.cleared == old(vx_w).os@.cleared.insert(self.flag().id()),
        // reaped, unless the system reports why it cannot be
        final(vx_w).os@.waited == old(vx_w).os@.waited.push(self.pid()) && outcome(self.output_rx.gets(), ended(self.pid()), res)
            || final(vx_w).os@.waited == old(vx_w).os@.waited && (res matches Err(e) && errno_of(e) matches Some(x) && x != Errno::INTR),
//@pre
    assert(guards(self.flag(), self.pid()));
//@end
//@impl KillHandle
//@fn kill
    requires self.wf()
    ensures final(vx_w).os@.waited == old(vx_w).os@.waited, final(vx_w).os@.cleared == old(vx_w).os@.cleared,
        // signalled once, or refused because it was joined
        final(vx_w).os@.sigs == old(vx_w).os@.sigs.push(self.pid()) && (res matches Err(e) ==> errno_of(e) is Some)
            || final(vx_w).os@.sigs == old(vx_w).os@.sigs && res is Err && final(vx_w).os@.down.contains(self.flag().id()),
        old(vx_w).os@.down.contains(self.flag().id()) ==> res is Err && final(vx_w).os@.sigs == old(vx_w).os@.sigs,
//@end
//@tryconv off
//@impl BChild<$0>
//@fn get_kill_handle
    requires self.0.wf()
    ensures res.wf(), res.pid() == self.0.pid(), res.flag() == self.0.flag()
//@fn id
    ensures res == self.0.pid()
//@fn join
    requires self.0.wf()
    ensures final(vx_w).os@.sigs == old(vx_w).os@.sigs, final(vx_w).os@.owed =~= old(vx_w).os@.owed, final(vx_w).os@.down.contains(self.0.flag().id()), final(vx_w).os@.cleared == old(vx_w).os@.cleared.insert(self.0.flag().id()),
        final(vx_w).os@.waited == old(vx_w).os@.waited.push(self.0.pid()) && outcome(self.0.output_rx.gets(), ended(self.0.pid()), res)
            || final(vx_w).os@.waited == old(vx_w).os@.waited && (res matches Err(e) && errno_of(e) matches Some(x) && x != Errno::INTR),
//@end

// ---- any number of threads: what the contracts above make of every interleaving
pub enum Ev {
    /// a kill by a holder of the flag, who saw it up (process_kill_process's precondition)
    Sig(int, i32),
    Lower(int),
    /// process_waitpid's precondition
    Reap(int, i32),
}
/// the state an interleaving of events leads to: which flags are down
pub open spec fn downs(es: Seq<Ev>) -> ISet<int> decreases es.len() {
    if es.len() == 0 { ISet::empty() } else { match es.last() { Ev::Lower(m) => downs(es.drop_last()).insert(m), _ => downs(es.drop_last()) } }
}
/// every event fits the state it happens in (the mutex makes each test-and-act of kill one event, and reaping
/// and lowering by one holder of the flag two events in either order)
pub open spec fn legal(es: Seq<Ev>, own: spec_fn(i32) -> int) -> bool decreases es.len() {
    es.len() == 0 || (legal(es.drop_last(), own) && match es.last() {
        Ev::Sig(m, n) => m == own(n) && !downs(es.drop_last()).contains(m),
        Ev::Lower(_) => true,
        Ev::Reap(m, n) => m == own(n) && downs(es.drop_last()).contains(m),
    })
}
proof fn downs_grow(es: Seq<Ev>, i: int) requires 0 <= i <= es.len() ensures downs(es.take(i)).subset_of(downs(es)) decreases es.len()
{
    if i == es.len() { assert(es.take(i) =~= es); } else { assert(es.drop_last().take(i) =~= es.take(i)); downs_grow(es.drop_last(), i); }
}
proof fn legal_at(es: Seq<Ev>, own: spec_fn(i32) -> int, i: int) requires legal(es, own), 0 <= i <= es.len() ensures legal(es.take(i), own) decreases es.len()
{
    if i == es.len() { assert(es.take(i) =~= es); } else { assert(es.drop_last().take(i) =~= es.take(i)); legal_at(es.drop_last(), own, i); }
}
/// a process id is never signalled after it was reaped
pub proof fn c09_history(es: Seq<Ev>, own: spec_fn(i32) -> int, i: int, j: int, n: i32)
    requires legal(es, own), 0 <= i < j < es.len(), es[i] == Ev::Reap(own(n), n)
    ensures es[j] != Ev::Sig(own(n), n)
{
    let a = es.take(i + 1); let b = es.take(j + 1);
    legal_at(es, own, i + 1); legal_at(es, own, j + 1);
    assert(b.drop_last() =~= es.take(j));
    assert(es.take(j).take(i) =~= a.drop_last());
    downs_grow(es.take(j), i);
    assert(downs(a.drop_last()).contains(own(n)));
}
