// ------------------------------------------------------------------------------------------------
// src/asynchronous.rs spawn, src/platform/unix/{subprocess,entry}.rs: starting children (C12, C16)
// ------------------------------------------------------------------------------------------------
/// the meaning of a transferable value, and what it is sent as (C01, C02, C03, C10, C11 prove that decoding gives the
/// encoded value; lemma_rt in the units of these properties)
#[verifier::external_body]
pub struct Val { _p: u8 }
pub uninterp spec fn enc_data(v: Val) -> Seq<u8>;
pub uninterp spec fn enc_fds(v: Val) -> Seq<int>;
pub uninterp spec fn dec(data: Seq<u8>, fds: Seq<int>) -> Val;
pub axiom fn ax_dec(v: Val) ensures dec(enc_data(v), enc_fds(v)) == v;
// ---- handles: identified by their number in the descriptor table (a child's table is a copy)
#[derive(Clone, Copy)]
pub struct RawHandle { pub fd: i32, pub id: Ghost<int> }
pub uninterp spec fn decimal(n: int) -> Seq<char>;
pub uninterp spec fn undecimal(s: Seq<char>) -> int;
pub axiom fn ax_decimal(n: int) ensures undecimal(decimal(n)) == n;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct BorrowedHandle<'a> { _p: core::marker::PhantomData<&'a u8> }
impl<'a> BorrowedHandle<'a> {
    pub uninterp spec fn id(self) -> int;
    #[verifier::external_body]
    pub fn as_raw_handle(&self) -> (res: RawHandle) ensures res.id@ == self.id() { unimplemented!() }
}
#[verifier::external_body]
pub struct OwnedHandle { _p: u8 }
impl OwnedHandle {
    pub uninterp spec fn id(self) -> int;
    #[verifier::external_body]
    pub fn as_handle(&self) -> (res: BorrowedHandle<'_>) ensures res.id() == self.id() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_raw_handle(&self) -> (res: RawHandle) ensures res.id@ == self.id() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_raw_handle(h: RawHandle) -> (res: Self) ensures res.id() == h.id@ { unimplemented!() }
}
pub open spec fn bids(v: Seq<BorrowedHandle<'_>>) -> Seq<int> { v.map_values(|h: BorrowedHandle<'_>| h.id()) }
pub open spec fn oids(v: Seq<OwnedHandle>) -> Seq<int> { v.map_values(|h: OwnedHandle| h.id()) }
pub open spec fn rids(v: Seq<RawHandle>) -> Seq<int> { v.map_values(|h: RawHandle| h.id@) }
#[allow(non_snake_case)]
pub trait VxCollectRaw { fn vx_iter_map_as_raw_handle(&self) -> Vec<RawHandle>; }
impl VxCollectRaw for Vec<BorrowedHandle<'_>> {
    #[verifier::external_body]
    fn vx_iter_map_as_raw_handle(&self) -> (res: Vec<RawHandle>) ensures rids(res@) == bids(self@) { unimplemented!() }
}
pub trait VxCollectOwned { fn vx_into_iter_map_from_raw_handle(self) -> Vec<OwnedHandle>; }
impl VxCollectOwned for Vec<RawHandle> {
    #[verifier::external_body]
    fn vx_into_iter_map_from_raw_handle(self) -> (res: Vec<OwnedHandle>) ensures oids(res@) == rids(self@) { unimplemented!() }
}
// ---- iteration over slices
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxIter<'a, T> { _p: core::marker::PhantomData<&'a T> }
impl<'a, T> VxIter<'a, T> {
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (res: Option<&'a T>)
        ensures final(self).all() == old(self).all(), 0 <= old(self).pos() <= old(self).all().len(),
            old(self).pos() < old(self).all().len() ==> (res matches Some(x) && (*x == old(self).all()[old(self).pos()] && final(self).pos() == old(self).pos() + 1)),
            old(self).pos() >= old(self).all().len() ==> res is None && final(self).pos() == old(self).pos()
    { unimplemented!() }
}
pub trait VxIterable<T> { spec fn vx_seq(&self) -> Seq<T>; fn vx_iter(&self) -> (res: VxIter<'_, T>) ensures res.all() == self.vx_seq(), res.pos() == 0; }
impl<T> VxIterable<T> for [T] {
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter(&self) -> (res: VxIter<'_, T>) { unimplemented!() }
}
impl<T> VxIterable<T> for Vec<T> {
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter(&self) -> (res: VxIter<'_, T>) { unimplemented!() }
}
pub trait VxRefIterable<'a, T> { fn vx_into_iter(self) -> VxIter<'a, T>; }
impl<'a, T> VxRefIterable<'a, T> for &'a [T] {
    #[verifier::external_body]
    fn vx_into_iter(self) -> (res: VxIter<'a, T>) ensures res.all() == self@, res.pos() == 0 { unimplemented!() }
}
// ---- close-on-exec
#[derive(Clone, Copy)]
pub struct FdFlags { pub cloexec: bool }
impl FdFlags {
    pub const CLOEXEC: FdFlags = FdFlags { cloexec: true };
    pub fn empty() -> (res: FdFlags) ensures !res.cloexec { FdFlags { cloexec: false } }
}
#[verifier::external_body]
pub fn fcntl_setfd(h: BorrowedHandle<'_>, f: FdFlags, vx_w: &mut World) -> (res: core::result::Result<(), Errno>)
    ensures res is Ok ==> final(vx_w).os@ == (Os { open: if f.cloexec { old(vx_w).os@.open.remove(h.id()) } else { old(vx_w).os@.open.insert(h.id()) }, ..old(vx_w).os@ }),
        res is Err ==> final(vx_w).os@ == (Os { fails: old(vx_w).os@.fails + 1, ..old(vx_w).os@ })
{ unimplemented!() }
// ---- raw pointers: an address, and what lies there
#[allow(non_camel_case_types)]
pub struct c_void { _p: u8 }
#[allow(non_camel_case_types)]
pub struct c_char { _p: u8 }
#[allow(non_camel_case_types)]
pub type c_int = i32;
pub struct VxPtr<T> { pub a: Ghost<int>, pub _p: core::marker::PhantomData<T> }
impl<T> VxPtr<T> { pub open spec fn addr(self) -> int { self.a@ } }
impl<T> Clone for VxPtr<T> { fn clone(&self) -> (res: Self) ensures res == *self { *self } }
impl<T> Copy for VxPtr<T> {}
pub uninterp spec fn at<T>(a: int) -> T;
/// the C string at an address
pub uninterp spec fn text_at(a: int) -> Seq<char>;
/// the address is the end of a buffer (stacks grow downwards)
pub uninterp spec fn buffer_end(a: int) -> bool;
#[verifier::external_body]
#[allow(non_snake_case)]
pub fn vx_cast_const_CloneArg<'a>(x: &CloneArg<'a>) -> (res: VxPtr<CloneArg<'a>>) ensures at::<CloneArg<'a>>(res.addr()) == *x { unimplemented!() }
#[verifier::external_body]
pub fn vx_cast_mut_c_void<T>(p: VxPtr<T>) -> (res: VxPtr<c_void>) ensures res.addr() == p.addr() { unimplemented!() }
#[verifier::external_body]
pub fn vx_cast_const_c_void<T>(p: VxPtr<T>) -> (res: VxPtr<c_void>) ensures res.addr() == p.addr() { unimplemented!() }
#[verifier::external_body]
#[allow(non_snake_case)]
pub fn vx_cast_mut_CloneArg<'a, T>(p: VxPtr<T>) -> (res: VxPtr<CloneArg<'a>>) ensures res.addr() == p.addr() { unimplemented!() }
#[verifier::external_body]
pub fn vx_ptr_ref<'b, T>(p: VxPtr<T>) -> (res: &'b T) ensures *res == at::<T>(p.addr()) { unimplemented!() }
pub struct VxPtrRange { pub start: VxPtr<u8>, pub end: VxPtr<u8> }
pub trait VxMutPtrRange { fn vx_as_mut_ptr_range(&mut self) -> VxPtrRange; }
impl<const N: usize> VxMutPtrRange for [u8; N] {
    #[verifier::external_body]
    fn vx_as_mut_ptr_range(&mut self) -> (res: VxPtrRange) ensures N >= 4096 ==> buffer_end(res.end.addr()) { unimplemented!() }
}
// ---- C strings
#[verifier::external_body]
pub struct CStr { _p: u8 }
impl CStr {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn vx_as_ptr(&self) -> (res: VxPtr<c_char>) ensures res.addr() != 0, text_at(res.addr()) == self.text() { unimplemented!() }
}
impl CStr {
    #[verifier::external_body]
    pub fn new(t: Text) -> (res: core::result::Result<CStr, u8>) ensures res matches Ok(c) && c.text() == t.text() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_as_c_str(&self) -> (res: &CStr) ensures res.text() == self.text() { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_cstr(t: &str) -> (res: &'static CStr) ensures res.text() == t@ { unimplemented!() }
#[verifier::external_body]
pub fn ptr_null() -> (res: VxPtr<c_char>) ensures res.addr() == 0 { unimplemented!() }
/// std's String and str
#[verifier::external_body]
pub struct Text { _p: u8 }
impl Text {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn as_str(&self) -> (res: &str) ensures res@ == self.text() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> usize { unimplemented!() }
    /// anything that is not a number in decimal is an error
    #[verifier::external_body]
    pub fn vx_parse(&self) -> (res: Result<RawHandle>) ensures res matches Ok(h) ==> h.id@ == undecimal(self.text()) { unimplemented!() }
}
impl RawHandle {
    #[verifier::external_body]
    pub fn vx_to_string(&self) -> (res: Text) ensures res.text() == decimal(self.id@) { unimplemented!() }
}
pub type CString = CStr;
// ---- exec
pub open spec fn surviving(t: Task) -> ISet<int> { surv(t.open, t.child, t.inherited, t.inherited.len() as int) }
/// the handles that survive an exec once the control handle and the first k of the list were let through
pub open spec fn surv(o: ISet<int>, c: int, fds: Seq<int>, k: int) -> ISet<int> { o.insert(c).union(ISet::new(|h: int| fds.take(k).contains(h))) }
pub proof fn surv_step(o: ISet<int>, c: int, fds: Seq<int>, k: int) requires 0 <= k < fds.len() ensures surv(o, c, fds, k + 1) == surv(o, c, fds, k).insert(fds[k])
{
    let a = fds.take(k + 1); let b = fds.take(k);
    assert(a =~= b.push(fds[k]));
    assert forall|h: int| #[trigger] a.contains(h) <==> (b.contains(h) || h == fds[k]) by {
        if b.contains(h) { let i = choose|i: int| 0 <= i < b.len() && b[i] == h; assert(a[i] == h); }
        if h == fds[k] { assert(a[k] == h); }
    }
    assert(surv(o, c, fds, k + 1) =~= surv(o, c, fds, k).insert(fds[k]));
}
pub proof fn surv_0(o: ISet<int>, c: int, fds: Seq<int>) ensures surv(o, c, fds, 0) == o.insert(c) { assert(surv(o, c, fds, 0) =~= o.insert(c)); }
/// the program is this one, told where its control handle is, and it has exactly the handles it was given
pub open spec fn exec_ok(w: World, path: int, argv: Seq<VxPtr<c_char>>) -> bool {
    &&& text_at(path) == "/proc/self/exe"@
    &&& argv.len() == 3 && argv[0].addr() != 0 && argv[1].addr() != 0 && argv[2].addr() == 0
    &&& text_at(argv[0].addr()) == "_crossmist_"@ && text_at(argv[1].addr()) == w.os@.task.text
}
pub open spec fn handles_given(w: World) -> bool { w.os@.open == surviving(w.os@.task) }
pub uninterp spec fn array_at(a: int) -> Seq<VxPtr<c_char>>;
#[verifier::external_body]
pub fn vx_cast_const_other<const N: usize>(x: &[VxPtr<c_char>; N]) -> (res: VxPtr<VxPtr<c_char>>) ensures array_at(res.addr()) == x@ { unimplemented!() }
#[verifier::external_body]
pub fn libc_execv(path: VxPtr<c_char>, argv: VxPtr<VxPtr<c_char>>, vx_w: &mut World) -> (res: c_int)
    requires exec_ok(*old(vx_w), path.addr(), array_at(argv.addr())),
        handles_given(*old(vx_w))
    ensures final(vx_w).os@ == (Os { execs: old(vx_w).os@.execs + 1, ..old(vx_w).os@ })
{ unimplemented!() }
impl Error {
    #[verifier::external_body]
    pub fn last_os_error() -> (res: Error) ensures errno_of(res) is Some { unimplemented!() }
}
// ---- new processes
#[derive(Clone, Copy)]
pub struct CloneFlags { pub vm: bool, pub vfork: bool, pub files: bool, pub fs: bool, pub other: bool, pub sig: i32 }
pub const CLONE_VM: CloneFlags = CloneFlags { vm: true, vfork: false, files: false, fs: false, other: false, sig: 0 };
pub const CLONE_VFORK: CloneFlags = CloneFlags { vm: false, vfork: true, files: false, fs: false, other: false, sig: 0 };
pub const CLONE_FILES: CloneFlags = CloneFlags { vm: false, vfork: false, files: true, fs: false, other: false, sig: 0 };
pub const CLONE_FS: CloneFlags = CloneFlags { vm: false, vfork: false, files: false, fs: true, other: false, sig: 0 };
pub const CLONE_SIGHAND: CloneFlags = CloneFlags { vm: false, vfork: false, files: false, fs: false, other: true, sig: 0 };
pub const CLONE_THREAD: CloneFlags = CloneFlags { vm: false, vfork: false, files: false, fs: false, other: true, sig: 0 };
pub const CLONE_PARENT: CloneFlags = CloneFlags { vm: false, vfork: false, files: false, fs: false, other: true, sig: 0 };
pub const SIGCHLD: CloneFlags = CloneFlags { vm: false, vfork: false, files: false, fs: false, other: false, sig: 17 };
impl CloneFlags {
    pub fn vx_bitor(self, o: CloneFlags) -> (res: CloneFlags)
        ensures res == (CloneFlags { vm: self.vm || o.vm, vfork: self.vfork || o.vfork, files: self.files || o.files, fs: self.fs || o.fs, other: self.other || o.other, sig: if self.sig == 0 { o.sig } else { self.sig } })
    { CloneFlags { vm: self.vm || o.vm, vfork: self.vfork || o.vfork, files: self.files || o.files, fs: self.fs || o.fs, other: self.other || o.other, sig: if self.sig == 0 { o.sig } else { self.sig } } }
}
/// the child gets its own descriptor table (what it does to close-on-exec flags is not seen here), and the parent
/// does not reuse the stack before the child left it; its end is reported to waitpid
#[verifier::external_body]
pub fn vx_clone_clone_callback(stack: VxPtr<c_void>, f: CloneFlags, arg: VxPtr<c_void>, vx_w: &mut World) -> (res: c_int)
    requires buffer_end(stack.addr()), !f.files, !f.other, f.vm ==> f.vfork, f.sig == 17
    ensures res > 0 || res == -1,
        res > 0 ==> final(vx_w).os@ == (Os { kids: old(vx_w).os@.kids.push(Kid { pid: res, task: at::<CloneArg>(arg.addr()).task(old(vx_w).os@.open) }), ..old(vx_w).os@ }),
        res == -1 ==> final(vx_w).os@ == (Os { fails: old(vx_w).os@.fails + 1, ..old(vx_w).os@ }),
{ unimplemented!() }
#[verifier::external_body]
pub fn process_abort() -> ! { unimplemented!() }
pub fn vx_print() {}

// ---- channels (C05, C15)
pub uninterp spec fn peers(a: int, b: int) -> bool;
impl Object for (Vec<u8>, Vec<RawHandle>) {}
impl Blocking {
    pub uninterp spec fn sock(&self) -> int;
    #[verifier::external_body]
    pub fn as_handle(&self) -> (res: BorrowedHandle<'_>) ensures res.id() == self.sock() { unimplemented!() }
}
pub trait VxSock { spec fn stream_sock(&self) -> int; }
#[verifier::external_body]
#[verifier::reject_recursive_types(St)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(R)]
pub struct VxDuplexParts<St, S, R> { _p: core::marker::PhantomData<(St, S, R)> }
#[verifier::reject_recursive_types(St)]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(R)]
pub struct Duplex<St, S, R> { pub fd: St, pub p: core::marker::PhantomData<(S, R)> }
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(R)]
pub struct BDuplex<S, R>(pub Duplex<Blocking, S, R>);
pub uninterp spec fn stream_sock<St>(s: St) -> int;
impl<S, R> BDuplex<S, R> {
    pub open spec fn sock(&self) -> int { self.0.fd.sock() }
    #[verifier::external_body]
    pub fn as_raw_fd(&self) -> (res: RawHandle) ensures res.id@ == self.sock() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_try_into<St>(self) -> (res: Result<Duplex<St, S, R>>) ensures res matches Ok(d) ==> stream_sock(d.fd) == self.sock() { unimplemented!() }
}
#[verifier::external_body]
pub fn b_duplex<S, R>(vx_w: &mut World) -> (res: Result<(BDuplex<S, R>, BDuplex<R, S>)>)
    ensures old(vx_w).os@ == final(vx_w).os@, res matches Ok((a, b)) ==> peers(a.sock(), b.sock()) && peers(b.sock(), a.sock())
{ unimplemented!() }
impl<St, T> Duplex<St, (Vec<u8>, Vec<RawHandle>), T> {
    #[verifier::external_body]
    pub fn send(&mut self, v: &(Vec<u8>, Vec<RawHandle>), vx_w: &mut World) -> (res: Result<()>)
        ensures final(self).fd == old(self).fd, res is Ok ==> final(vx_w).os@ == (Os { told: old(vx_w).os@.told.push(Told { sock: stream_sock(old(self).fd), data: v.0@, fds: rids(v.1@) }), ..old(vx_w).os@ }),
            res is Err ==> final(vx_w).os@ == (Os { fails: old(vx_w).os@.fails + 1, ..old(vx_w).os@ })
    { unimplemented!() }
}
impl<S: AsyncStream, T: Object> Receiver<S, T> {

    #[verifier::external_body]
    pub fn from_stream(s: S) -> (res: Self) ensures res.sock() == stream_sock(s) { unimplemented!() }
}
// ---- serialization (C01 to C04): of one value
#[verifier::external_body]
pub struct Serializer<'a> { _p: core::marker::PhantomData<&'a u8> }
impl<'a> Serializer<'a> {
    pub uninterp spec fn content(&self) -> Seq<Val>;
    pub uninterp spec fn drained(&self) -> bool;
    #[verifier::external_body]
    pub fn new() -> (res: Self) ensures res.content() == Seq::<Val>::empty(), !res.drained() { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize(&mut self, v: &'a VxDynFnOnceObject<(RawHandle,), i32>) ensures final(self).content() == old(self).content().push(v.repr()), final(self).drained() == old(self).drained() { unimplemented!() }
    #[verifier::external_body]
    pub fn drain_handles(&mut self) -> (res: Vec<BorrowedHandle<'a>>)
        ensures final(self).drained(), final(self).content() == old(self).content(), old(self).content().len() == 1 && !old(self).drained() ==> bids(res@) == enc_fds(old(self).content()[0]) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_vec(self) -> (res: Vec<u8>) ensures self.content().len() == 1 ==> res@ == enc_data(self.content()[0]) { unimplemented!() }
}
#[verifier::external_body]
pub struct Deserializer { _p: u8 }
impl Deserializer {
    pub uninterp spec fn holds(&self) -> Option<Val>;
    #[verifier::external_body]
    pub fn new(data: Vec<u8>, hs: Vec<OwnedHandle>) -> (res: Self) ensures res.holds() == Some(dec(data@, oids(hs@))) { unimplemented!() }
    #[verifier::external_body]
    pub fn deserialize(&mut self) -> (res: Result<VxDynFnOnceObject<(RawHandle,), i32>>) ensures final(self).holds() is None, res matches Ok(x) && old(self).holds() matches Some(v) ==> x.repr() == v { unimplemented!() }
}
/// the boxed entry of a child
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(O)]
pub struct VxDynFnOnceObject<A, O> { _p: core::marker::PhantomData<(A, O)> }
impl VxDynFnOnceObject<(RawHandle,), i32> {
    pub uninterp spec fn repr(self) -> Val;
    #[verifier::external_body]
    pub fn call_object_once(self, a: (RawHandle,), vx_w: &mut World) -> (res: i32)
        ensures final(vx_w).os@ == (Os { ran: old(vx_w).os@.ran.push(Ran { entry: self.repr(), ctl: a.0.id@, code: res, open: old(vx_w).os@.open }), ..old(vx_w).os@ }) { unimplemented!() }
}
pub struct Tokio { pub p: u8 }
impl AsyncStream for Tokio {}
pub struct Smol { pub p: u8 }
impl AsyncStream for Smol {}
#[allow(non_snake_case)]
pub trait VxMapBChild<T: Object> { fn vx_map_BChild(self) -> Result<BChild<T>>; }
impl<T: Object> VxMapBChild<T> for Result<Child<Blocking, T>> {
    fn vx_map_BChild(self) -> (res: Result<BChild<T>>) ensures res == (match self { Ok(x) => Ok::<BChild<T>, Error>(BChild(x)), Err(e) => Err(e) }) { match self { Ok(x) => Ok(BChild(x)), Err(e) => Err(e) } }
}
/// exactly one process was started; it has the handles of the entry and a new control channel, whose number it is
/// told; and the entry was sent on that channel
pub open spec fn started(a: World, b: World, entry: Val, pid: i32, sock: int) -> bool {
    &&& b.os@.kids.len() == a.os@.kids.len() + 1 && b.os@.kids.drop_last() == a.os@.kids && b.os@.told.len() == a.os@.told.len() + 1 && b.os@.told.drop_last() == a.os@.told
    &&& ({ let k = b.os@.kids.last(); let t = b.os@.told.last();
        &&& k.pid == pid && k.task.text == decimal(k.task.child) && k.task.inherited == enc_fds(entry) && k.task.open == a.os@.open
        &&& t.sock == sock && peers(sock, k.task.child) && t.data == enc_data(entry) && t.fds == enc_fds(entry) })
}
/// what a started program runs is what it was started for
pub proof fn c16_entry(a: World, b: World, entry: Val, pid: i32, sock: int, w: World, code: i32)
    requires started(a, b, entry, pid, sock), exit_ok(w, code),
        // the program was told its control handle, and what was sent first on the channel arrives first (C05)
        w.os@.ctl == undecimal(b.os@.kids.last().task.text), first_data(w.os@.ctl) == b.os@.told.last().data, first_fds(w.os@.ctl) == b.os@.told.last().fds,
    ensures w.os@.ctl == b.os@.kids.last().task.child, w.os@.ran.len() == 1, w.os@.ran[0].entry == entry, w.os@.ran[0].code == code
{ ax_decimal(b.os@.kids.last().task.child); ax_dec(entry); }
/// a started program has the handles it was given and its control channel, and otherwise only those whose
/// close-on-exec flag was cleared explicitly in the parent; the parent's flags did not change
pub proof fn c12_inherited(a: World, b: World, entry: Val, pid: i32, sock: int, h: int)
    requires started(a, b, entry, pid, sock)
    ensures surviving(b.os@.kids.last().task).contains(h) <==> (h == b.os@.kids.last().task.child || enc_fds(entry).contains(h) || a.os@.open.contains(h))
{ let t = b.os@.kids.last().task; assert(t.inherited.take(t.inherited.len() as int) =~= t.inherited); }
// ---- whether the runtime was initialised in this process
#[derive(Clone, Copy)]
pub enum Ordering { Relaxed, Acquire, Release, AcqRel, SeqCst }
pub struct AtomicBool { p: u8 }
/// the only flag of this type in the crate is the one init sets; nothing clears it
impl AtomicBool {
    #[verifier::external_body]
    pub fn swap(&self, v: bool, o: Ordering, vx_w: &mut World) -> (res: bool)
        requires v ensures res == old(vx_w).os@.inited, final(vx_w).os@ == (Os { inited: true, ..old(vx_w).os@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_or(&self, v: bool, o: Ordering, vx_w: &mut World) -> (res: bool)
        ensures res == old(vx_w).os@.inited, final(vx_w).os@ == (Os { inited: old(vx_w).os@.inited || v, ..old(vx_w).os@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, v: bool, o: Ordering, vx_w: &mut World)
        requires v ensures final(vx_w).os@ == (Os { inited: true, ..old(vx_w).os@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, vx_w: &mut World) -> (res: bool)
        ensures res == old(vx_w).os@.inited, final(vx_w).os@ == old(vx_w).os@ { unimplemented!() }
    pub uninterp spec fn first(&self) -> bool;
    #[verifier::external_body]
    pub fn new(v: bool) -> (res: Self) ensures res.first() == v { unimplemented!() }
}
// ---- the start of a child program
#[verifier::external_body]
pub struct Args { _p: u8 }
impl Args {
    pub uninterp spec fn rest(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn len(&self) -> (res: usize) ensures res == self.rest().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (res: Option<Text>)
        ensures old(self).rest().len() == 0 ==> res is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> res is Some && res->0.text() == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first() { unimplemented!() }
}
/// the arguments this process was started with
pub uninterp spec fn argv() -> Seq<Seq<char>>;
#[verifier::external_body]
pub fn vx_args() -> (res: Args) ensures res.rest() == argv() { unimplemented!() }
impl vstd::std_specs::cmp::PartialEqSpecImpl<&'static str> for Text {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &&'static str) -> bool { self.text() == other@ }
}
impl PartialEq<&'static str> for Text {
    #[verifier::external_body]
    fn eq(&self, other: &&'static str) -> (res: bool) { unimplemented!() }
}
/// this process was started by the crate, for the control handle it was told
pub open spec fn is_child(w: World) -> bool { argv().len() == 2 && argv()[0] == "_crossmist_"@ && undecimal(argv()[1]) == w.os@.ctl && w.os@.ran.len() == 0 }
// failing here ends the child without a result (C08)
pub trait VxOrDie<T> : Sized { spec fn vx_val(self) -> Option<T>; fn vx_or_die(self, m: &str) -> (res: T) ensures self.vx_val() == Some(res); }
impl<T> VxOrDie<T> for Result<T> {
    open spec fn vx_val(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    #[verifier::external_body]
    fn vx_or_die(self, m: &str) -> (res: T) { unimplemented!() }
}
impl<T> VxOrDie<T> for Option<T> {
    open spec fn vx_val(self) -> Option<T> { self }
    #[verifier::external_body]
    fn vx_or_die(self, m: &str) -> (res: T) { unimplemented!() }
}
/// the first message that arrives on this handle
pub uninterp spec fn first_data(h: int) -> Seq<u8>;
pub uninterp spec fn first_fds(h: int) -> Seq<int>;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BReceiver<T> { _p: core::marker::PhantomData<T> }
impl BReceiver<(Vec<u8>, Vec<RawHandle>)> {
    pub uninterp spec fn sock(&self) -> int;
    pub uninterp spec fn taken(&self) -> bool;
    #[verifier::external_body]
    pub fn from_raw_handle(h: RawHandle) -> (res: Self) ensures res.sock() == h.id@, !res.taken() { unimplemented!() }
    #[verifier::external_body]
    pub fn recv(&mut self, vx_w: &mut World) -> (res: Result<Option<(Vec<u8>, Vec<RawHandle>)>>)
        ensures final(vx_w).os@ == old(vx_w).os@, final(self).sock() == old(self).sock(), final(self).taken(),
            !old(self).taken() ==> (res matches Ok(Some(m)) ==> m.0@ == first_data(old(self).sock()) && rids(m.1@) == first_fds(old(self).sock())) { unimplemented!() }
}
pub fn mem_forget<T>(x: T) { }
/// a started program ends with the result of the entry it was told to run, run once, with its control handle, when
/// none of its handles would have been inherited by another program
pub open spec fn exit_ok(w: World, code: i32) -> bool {
    let o = w.os@;
    &&& o.ran.len() == 1 && o.ran[0].code == code && o.ran[0].ctl == o.ctl
    &&& o.ran[0].entry == dec(first_data(o.ctl), first_fds(o.ctl))
}
pub open spec fn handles_protected(w: World) -> bool {
    let o = w.os@;
    o.ran.len() == 1 && !o.ran[0].open.contains(o.ctl) && forall|i: int| 0 <= i < first_fds(o.ctl).len() ==> !o.ran[0].open.contains(#[trigger] first_fds(o.ctl)[i])
}
#[verifier::external_body]
pub fn process_exit(code: i32, vx_w: &mut World) -> ! requires exit_ok(*old(vx_w), code),
        handles_protected(*old(vx_w))
{ unimplemented!() }

//@mode spawn
//@dyn types
//@rename asynchronous::a_spawn => a_spawn
//@type TChild
//@end
//@type SChild
//@end
//@world swap fetch_or store load init perform_sanity_checks start_root fcntl_setfd enable_cloexec disable_cloexec libc_execv vx_clone_clone_callback fork_child_main clone_callback _spawn_child b_duplex send a_spawn b_spawn t_spawn s_spawn call_object_once process_exit crossmist_main
//@rename BorrowedFd => BorrowedHandle
//@rename libc::execv => libc_execv
//@rename imp::perform_sanity_checks => perform_sanity_checks
//@rename std::env::args => vx_args
//@rename entry::crossmist_main => crossmist_main
//@rename entry::start_root => start_root
//@rename entry::disable_cloexec => disable_cloexec
//@rename entry::enable_cloexec => enable_cloexec
//@rename subprocess::_spawn_child => _spawn_child
//@rename str => Text
//@rename CStr => CStr
//@method expect => vx_or_die
//@method to_string => vx_to_string
//@method parse => vx_parse
//@method as_ptr => vx_as_ptr
//@method as_mut_ptr_range => vx_as_mut_ptr_range
//@method try_into => vx_try_into
//@type CloneArg
//@end
impl<'a> CloneArg<'a> {
    pub open spec fn task(&self, open: ISet<int>) -> Task { Task { child: self.child_fd.id(), text: self.child_fd_str.text(), inherited: bids(self.inherited_fds@), open } }
}
//@static INITIALIZED
    ensures !res.first()
//@end
//@fn perform_sanity_checks
    requires old(vx_w).os@.inited
    ensures final(vx_w).os@ == old(vx_w).os@
//@end
//@tryconv on
//@fn disable_cloexec
    ensures res is Ok ==> final(vx_w).os@ == (Os { open: old(vx_w).os@.open.insert($arg0.id()), ..old(vx_w).os@ }),
        res is Err ==> final(vx_w).os@ == (Os { fails: old(vx_w).os@.fails + 1, ..old(vx_w).os@ })
//@end
//@fn enable_cloexec
    ensures res is Ok ==> final(vx_w).os@ == (Os { open: old(vx_w).os@.open.remove($arg0.id()), ..old(vx_w).os@ }),
        res is Err ==> final(vx_w).os@ == (Os { fails: old(vx_w).os@.fails + 1, ..old(vx_w).os@ })
//@end
//@fn fork_child_main
    requires old(vx_w).os@.task == $arg0.task(old(vx_w).os@.open)
    ensures res is Err, final(vx_w).os@.execs == old(vx_w).os@.execs + 1 || final(vx_w).os@.fails > old(vx_w).os@.fails
//@pre
    proof { surv_0(vx_w.os@.open, $arg0.child_fd.id(), bids($arg0.inherited_fds@)); }
//@loop 0
    invariant
        vx_it0.all() == $arg0.inherited_fds@, 0 <= vx_it0.pos() <= vx_it0.all().len(), vx_w.os@.execs == old(vx_w).os@.execs, vx_w.os@.fails == old(vx_w).os@.fails, vx_w.os@.task == old(vx_w).os@.task,
        vx_w.os@.open == surv(old(vx_w).os@.open, $arg0.child_fd.id(), bids($arg0.inherited_fds@), vx_it0.pos()),
    ensures vx_it0.pos() == vx_it0.all().len()
    decreases vx_it0.all().len() - vx_it0.pos()
//@loopbody 0
    proof { if vx_it0.pos() < vx_it0.all().len() { surv_step(old(vx_w).os@.open, $arg0.child_fd.id(), bids($arg0.inherited_fds@), vx_it0.pos()); } }
//@end
//@fn clone_callback
    requires old(vx_w).os@.task == at::<CloneArg>($arg0.addr()).task(old(vx_w).os@.open)
//@end
//@fn _spawn_child
    ensures final(vx_w).os@.open == old(vx_w).os@.open, final(vx_w).os@.told == old(vx_w).os@.told,
        res matches Ok(p) ==> final(vx_w).os@ == (Os { kids: old(vx_w).os@.kids.push(Kid { pid: p.n, task: Task { child: $arg0.sock(), text: decimal($arg0.sock()), inherited: bids($arg1@), open: old(vx_w).os@.open } }), ..old(vx_w).os@ }),
        res is Err ==> final(vx_w).os@.kids == old(vx_w).os@.kids
//@end
//@fn a_spawn
    requires old(vx_w).os@.inited
    ensures final(vx_w).os@.open == old(vx_w).os@.open,
        res matches Ok(c) ==> started(*old(vx_w), *final(vx_w), $arg0.repr(), c.pid(), c.output_rx.sock()) && c.wf()
//@post
    proof { if vx_res is Ok { assert(vx_w.os@.kids.drop_last() =~= old(vx_w).os@.kids); assert(vx_w.os@.told.drop_last() =~= old(vx_w).os@.told); } }
//@end
//@fn b_spawn
    requires old(vx_w).os@.inited
    ensures final(vx_w).os@.open == old(vx_w).os@.open,
        res matches Ok(c) ==> started(*old(vx_w), *final(vx_w), $arg0.repr(), c.0.pid(), c.0.output_rx.sock()) && c.0.wf()
//@end
//@fn t_spawn
    requires old(vx_w).os@.inited
    ensures final(vx_w).os@.open == old(vx_w).os@.open,
        res matches Ok(c) ==> started(*old(vx_w), *final(vx_w), $arg0.repr(), c.pid(), c.output_rx.sock()) && c.wf()
//@end
//@fn s_spawn
    requires old(vx_w).os@.inited
    ensures final(vx_w).os@.open == old(vx_w).os@.open,
        res matches Ok(c) ==> started(*old(vx_w), *final(vx_w), $arg0.repr(), c.pid(), c.output_rx.sock()) && c.wf()
//@end
//@fn parse_handle
    ensures res.id() == undecimal($arg0.text())
//@end
//@fn crossmist_main
    requires $arg0.rest().len() >= 1, undecimal($arg0.rest()[0]) == old(vx_w).os@.ctl, old(vx_w).os@.ran.len() == 0
//@loop 0
    invariant
        0 <= vx_it0.pos() <= vx_it0.all().len(), oids(vx_it0.all()) == first_fds(vx_w.os@.ctl), vx_w.os@.ctl == old(vx_w).os@.ctl, vx_w.os@.ran == old(vx_w).os@.ran, !vx_w.os@.open.contains(vx_w.os@.ctl),
        forall|i: int| 0 <= i < vx_it0.pos() ==> !vx_w.os@.open.contains(#[trigger] oids(vx_it0.all())[i]),
    ensures vx_it0.pos() == vx_it0.all().len()
    decreases vx_it0.all().len() - vx_it0.pos()
//@end
//@fn start_root
    ensures final(vx_w).os@ == old(vx_w).os@
//@end
//@fn init
    requires argv().len() > 0 && argv()[0] == "_crossmist_"@ && !old(vx_w).os@.inited ==> is_child(*old(vx_w))
    ensures final(vx_w).os@ == (Os { inited: true, ..old(vx_w).os@ }), old(vx_w).os@.inited || argv().len() == 0 || argv()[0] != "_crossmist_"@
//@end
