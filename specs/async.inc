// ------------------------------------------------------------------------------------------------
// src/asynchronous.rs, blocking.rs, tokio.rs, smol.rs: channels on top of one-message transfers
// ------------------------------------------------------------------------------------------------
// ---- the outcome of a whole transfer
/// only this socket's outgoing side changed
pub open spec fn only_out(a: World, b: World, s: int) -> bool { b.same(a) && b.os@.rpos == a.os@.rpos && b.os@.out.remove(s) == a.os@.out.remove(s) }
/// only this socket's incoming side changed
pub open spec fn only_in(a: World, b: World, s: int) -> bool { b.cells@ == a.cells@ && b.os@.out == a.os@.out && b.os@.rpos.remove(s) == a.os@.rpos.remove(s) }
pub open spec fn idle(w: World, s: int) -> bool { bound(wire(w.os@.sent(s))) }
pub open spec fn listening(w: World, s: int) -> bool { w.os@.ok(s) && bound(wire(w.os@.seen(s))) }
/// exactly one message was added, or the system's error is returned
pub open spec fn send_ok(a: World, b: World, s: int, data: Seq<u8>, fds: Seq<int>, r: Result<()>) -> bool {
    &&& only_out(a, b, s)
    &&& (forall|ty: Ty| #[trigger] chan_ok(ty, a.os@.sent(s)) && good(ty, data, fds) ==> chan_ok(ty, b.os@.sent(s)))
    &&& (r is Ok ==> wire(b.os@.sent(s)).msgs == wire(a.os@.sent(s)).msgs.push(Msg { data, fds, lost: false }) && idle(b, s) && b.os@.fails == a.os@.fails)
    &&& (r matches Err(e) ==> wire(b.os@.sent(s)).msgs == wire(a.os@.sent(s)).msgs && e.k() != ErrorKind::Interrupted
        && (errno_of(e) matches Some(x) && x != Errno::INTR && b.os@.fails == a.os@.report(x).fails && (x == Errno::AGAIN <==> e.k() == ErrorKind::WouldBlock)))
}
/// exactly one message was taken and is returned, or the stream is used up, or there is an error
pub open spec fn recv_ok<T: Object>(a: World, b: World, s: int, r: Result<Option<T>>) -> bool {
    &&& only_in(a, b, s) && b.os@.ok(s)
    &&& (r matches Ok(Some(x)) ==> b.same(a) && b.os@.fails == a.os@.fails
        && exists|m: Msg| #[trigger] took(a.os@, b.os@, s, m) && !m.lost && exists|sid: int| rv(de(T::ty(), #[trigger] de0(m.data, m.fds, sid))) == x.repr())
    &&& (r matches Ok(None) ==> b.same(a) && b.os@.fails == a.os@.fails && b.os@.rpos[s] == inq(s).len() && bound(wire(inq(s))) && wire(inq(s)).msgs == wire(a.os@.seen(s)).msgs)
    &&& (r matches Err(e) ==> (e.k() == ErrorKind::WouldBlock ==> b.same(a) && b.os@.fails == a.os@.fails && wire(b.os@.seen(s)).msgs == wire(a.os@.seen(s)).msgs) && {
            ||| (errno_of(e) matches Some(x) && x != Errno::INTR && x != Errno::CONNRESET && b.os@.fails == a.os@.report(x).fails && b.same(a) && wire(b.os@.seen(s)).msgs == wire(a.os@.seen(s)).msgs)
            ||| (b.os@.fails == a.os@.fails && b.same(a) && exists|m: Msg| #[trigger] took(a.os@, b.os@, s, m) && m.lost)
            ||| (b.os@.fails == a.os@.fails && (exists|m: Msg| #[trigger] took(a.os@, b.os@, s, m) && !m.lost) && one_err(a, b, e))
            ||| (b.os@.fails == a.os@.fails && b.same(a) && b.os@.rpos[s] == inq(s).len() && !bound(wire(inq(s))) && wire(inq(s)).msgs == wire(a.os@.seen(s)).msgs)
        })
}
/// the conversion reported one error, and it is the one returned (its kind must not be mistaken for would-block)
pub open spec fn one_err(a: World, b: World, e: Error) -> bool {
    let f = b.errs@.last();
    b.errs@.len() == a.errs@.len() + 1 && b.errs@ == a.errs@.push(f) && if f.k() == ErrorKind::WouldBlock { e.k() == ErrorKind::Other } else { e == f }
}

// ---- callbacks that are retried
/// something that may be tried again after it would have blocked
pub trait VxOp<T>: Sized {
    spec fn fits(&self, w: World) -> bool;
    spec fn step(&self, a: World, b: Self, w: World, r: Result<T>) -> bool;
    spec fn dontwait(&self) -> bool;
    spec fn writes(&self) -> bool;
    fn vx_call(&mut self, vx_w: &mut World) -> (res: Result<T>)
        requires old(self).fits(*old(vx_w))
        ensures old(self).step(*old(vx_w), *final(self), *final(vx_w), res), final(self).dontwait() == old(self).dontwait(), final(self).writes() == old(self).writes(),
            res matches Err(e) ==> (e.k() == ErrorKind::WouldBlock ==> old(self).dontwait());
    /// after would-block it can be tried again, and that is as good as having tried once
    proof fn again(&self, a: World, b: Self, w: World, e: Error)
        requires self.fits(a), self.step(a, b, w, Err(e)), e.k() == ErrorKind::WouldBlock
        ensures b.fits(w);
    proof fn chain(&self, a: World, b: Self, w: World, e: Error, c: Self, v: World, r: Result<T>)
        requires self.fits(a), self.step(a, b, w, Err(e)), e.k() == ErrorKind::WouldBlock, b.step(w, c, v, r)
        ensures self.step(a, c, v, r);
}
/// the runtimes: wait for readiness, try, and wait again as long as it would have blocked
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct Interest { pub writable: bool }
impl Interest {
    pub const WRITABLE: Interest = Interest { writable: true };
    pub const READABLE: Interest = Interest { writable: false };
}
impl TokioUnixStream {
    #[verifier::external_body]
    pub fn async_io<T, F: VxOp<T>>(&self, i: Interest, f: &mut F, vx_w: &mut World) -> (res: Result<T>)
        requires old(f).fits(*old(vx_w)), old(f).dontwait(), i.writable == old(f).writes()
        ensures old(f).step(*old(vx_w), *final(f), *final(vx_w), res), res matches Err(e) ==> e.k() != ErrorKind::WouldBlock
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_raw_handle(&self) -> (res: RawHandle) ensures res.id@ == self.id() { unimplemented!() }
}
impl Async<UnixStream> {
    #[verifier::external_body]
    pub fn write_with<T, F: VxOp<T>>(&self, f: &mut F, vx_w: &mut World) -> (res: Result<T>)
        requires old(f).fits(*old(vx_w)), old(f).dontwait(), old(f).writes()
        ensures old(f).step(*old(vx_w), *final(f), *final(vx_w), res), res matches Err(e) ==> e.k() != ErrorKind::WouldBlock
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_with<T, F: VxOp<T>>(&self, f: &mut F, vx_w: &mut World) -> (res: Result<T>)
        requires old(f).fits(*old(vx_w)), old(f).dontwait(), !old(f).writes()
        ensures old(f).step(*old(vx_w), *final(f), *final(vx_w), res), res matches Err(e) ==> e.k() != ErrorKind::WouldBlock
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_handle(&self) -> (res: BorrowedHandle<'_>) ensures res.id() == self.inner().id() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_raw_handle(&self) -> (res: RawHandle) ensures res.id@ == self.inner().id() { unimplemented!() }
}
impl UnixStream {
    #[verifier::external_body]
    pub fn as_raw_handle(&self) -> (res: RawHandle) ensures res.id@ == self.id() { unimplemented!() }
    #[verifier::external_body]
    pub fn into_raw_fd(self) -> (res: RawHandle) ensures res.id@ == self.id() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_raw_fd(h: RawHandle) -> (res: Self) ensures res.id() == h.id@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_raw_handle(h: RawHandle) -> (res: Self) ensures res.id() == h.id@ { unimplemented!() }
}
// ---- conversions that can fail
pub trait VxTryFrom<A>: Sized {
    spec fn vx_converted(a: A, r: Self) -> bool;
    fn try_from(value: A, vx_w: &mut World) -> (res: Result<Self>)
        ensures final(vx_w).outcome(*old(vx_w), res), res matches Ok(r) ==> Self::vx_converted(value, r);
}
pub trait VxTryInto<B>: Sized { spec fn vx_ti(self, r: B) -> bool; fn vx_try_into(self, vx_w: &mut World) -> (res: Result<B>) ensures final(vx_w).outcome(*old(vx_w), res), res matches Ok(r) ==> self.vx_ti(r); }
impl<A, B: VxTryFrom<A>> VxTryInto<B> for A {
    open spec fn vx_ti(self, r: B) -> bool { B::vx_converted(self, r) }
    fn vx_try_into(self, vx_w: &mut World) -> (res: Result<B>) { B::try_from(self, vx_w) }
}
impl VxTryFrom<UnixStream> for TokioUnixStream {
    open spec fn vx_converted(a: UnixStream, r: Self) -> bool { r.id() == a.id() }
    #[verifier::external_body]
    fn try_from(value: UnixStream, vx_w: &mut World) -> (res: Result<Self>) { unimplemented!() }
}
impl VxTryFrom<UnixStream> for Async<UnixStream> {
    open spec fn vx_converted(a: UnixStream, r: Self) -> bool { r.inner().id() == a.id() }
    #[verifier::external_body]
    fn try_from(value: UnixStream, vx_w: &mut World) -> (res: Result<Self>) { unimplemented!() }
}
pub trait AsRawFd { spec fn vx_fd(&self) -> int; fn as_raw_fd(&self) -> (res: RawHandle) ensures res.id@ == self.vx_fd(); }
pub trait AsRawHandle: AsRawFd { fn as_raw_handle(&self) -> (res: RawHandle) ensures res.id@ == self.vx_fd(); }
impl<T: AsRawFd> AsRawHandle for T { fn as_raw_handle(&self) -> (res: RawHandle) { self.as_raw_fd() } }
pub trait IntoRawFd: Sized { spec fn vx_own_fd(&self) -> int; fn into_raw_fd(self) -> (res: RawHandle) ensures res.id@ == self.vx_own_fd(); }
pub trait FromRawFd: Sized { spec fn vx_from_fd(&self) -> int; fn from_raw_fd(fd: RawHandle) -> (res: Self) ensures res.vx_from_fd() == fd.id@; }

// ---- new sockets
pub enum AddressFamily { UNIX, INET }
pub enum SocketType { SEQPACKET, STREAM, DGRAM }
#[derive(Clone, Copy)]
pub struct SocketFlags { pub cloexec: bool, pub nonblock: bool }
impl SocketFlags {
    pub const CLOEXEC: SocketFlags = SocketFlags { cloexec: true, nonblock: false };
    pub const NONBLOCK: SocketFlags = SocketFlags { cloexec: false, nonblock: true };
    pub fn empty() -> (res: SocketFlags) ensures !res.cloexec, !res.nonblock { SocketFlags { cloexec: false, nonblock: false } }
    pub fn vx_bitor(self, o: SocketFlags) -> (res: SocketFlags) ensures res.cloexec == (self.cloexec || o.cloexec), res.nonblock == (self.nonblock || o.nonblock) { SocketFlags { cloexec: self.cloexec || o.cloexec, nonblock: self.nonblock || o.nonblock } }
}
/// what is sent into one arrives at the other
pub uninterp spec fn peers(a: int, b: int) -> bool;
pub open spec fn fresh(w: World, s: int) -> bool { w.os@.out.dom().contains(s) && w.os@.sent(s).len() == 0 && w.os@.rpos[s] == 0 }
pub open spec fn untouched(a: Os, b: Os) -> bool { b.fails == a.fails && forall|s: int| #[trigger] a.out.dom().contains(s) ==> b.out.dom().contains(s) && b.out[s] == a.out[s] && b.rpos[s] == a.rpos[s] }
/// what protects a handle later than at its creation says nothing about the time before
pub struct FdFlags { pub cloexec: bool }
impl FdFlags {
    pub const CLOEXEC: FdFlags = FdFlags { cloexec: true };
    pub fn empty() -> (res: FdFlags) ensures !res.cloexec { FdFlags { cloexec: false } }
}
#[verifier::external_body]
pub fn io_fcntl_setfd<H>(h: H, f: FdFlags) -> (res: core::result::Result<(), Errno>) { unimplemented!() }
#[verifier::external_body]
pub fn net_socketpair(f: AddressFamily, t: SocketType, flags: SocketFlags, p: Option<u8>, vx_w: &mut World) -> (res: core::result::Result<(OwnedHandle, OwnedHandle), Errno>)
    requires f is UNIX, t is SEQPACKET, flags.cloexec, !flags.nonblock
    ensures final(vx_w).same(*old(vx_w)),
        res matches Ok((a, b)) ==> untouched(old(vx_w).os@, final(vx_w).os@) && a.id() != b.id() && peers(a.id(), b.id()) && peers(b.id(), a.id())
            && !old(vx_w).os@.out.dom().contains(a.id()) && !old(vx_w).os@.out.dom().contains(b.id()) && fresh(*final(vx_w), a.id()) && fresh(*final(vx_w), b.id()),
        res matches Err(e) ==> final(vx_w).os@ == old(vx_w).os@.fail(e)
{ unimplemented!() }

//@mode async
//@world net_socketpair try_from try_into try_new try_into blocking_write blocking_read async_io write_with read_with socketpair a_duplex a_channel b_duplex b_channel t_channel t_duplex s_channel s_duplex send recv request
//@method into => vx_into
//@method try_into => vx_try_into
//@rename tokio::net::UnixStream => TokioUnixStream
//@method into_raw_handle => into_raw_fd
//@type SyncStream
//@end
//@rename asynchronous::a_channel => a_channel
//@rename asynchronous::a_duplex => a_duplex
//@tryconv on
//@fn socketpair
    ensures
        res matches Ok((a, b)) ==> final(vx_w).same(*old(vx_w)) && untouched(old(vx_w).os@, final(vx_w).os@) && a.id() != b.id() && peers(a.id(), b.id()) && peers(b.id(), a.id())
            && !old(vx_w).os@.out.dom().contains(a.id()) && !old(vx_w).os@.out.dom().contains(b.id()) && fresh(*final(vx_w), a.id()) && fresh(*final(vx_w), b.id()),
        res is Err ==> final(vx_w).same(*old(vx_w)) && final(vx_w).os@.out == old(vx_w).os@.out && final(vx_w).os@.rpos == old(vx_w).os@.rpos
//@end
//@tryconv off
//@trait AsyncStream
//@header pub trait AsyncStream: Sized
//@members
    spec fn sock(&self) -> int;
//@fn try_new
    ensures final(vx_w).outcome(*old(vx_w), res), res matches Ok(s) ==> s.sock() == $arg0.id()
//@fn as_handle
    ensures res.id() == self.sock()
//@fn as_raw_handle
    ensures res.id@ == self.sock()
//@fn blocking_write
    requires old($arg0).fits(*old(vx_w)), old($arg0).dontwait() == !Self::IS_BLOCKING, old($arg0).writes()
    ensures old($arg0).step(*old(vx_w), *final($arg0), *final(vx_w), res), res matches Err(e) ==> e.k() != ErrorKind::WouldBlock
//@fn blocking_read
    requires old($arg0).fits(*old(vx_w)), old($arg0).dontwait() == !Self::IS_BLOCKING, !old($arg0).writes()
    ensures old($arg0).step(*old(vx_w), *final($arg0), *final(vx_w), res), res matches Err(e) ==> e.k() != ErrorKind::WouldBlock
//@end


// ---- one message as a retried callback
pub struct VxSendOp<'c, 'a> { pub c0: &'c mut SingleObjectSender<'a> }
#[verifier::reject_recursive_types(T)]
pub struct VxRecvOp<'c, 'a, T: Object> { pub c0: &'c mut SingleObjectReceiver<'a, T> }
pub struct VxDSendOp<'c, 'a> { pub c0: &'c mut SingleObjectSender<'a> }
#[verifier::reject_recursive_types(T)]
pub struct VxDRecvOp<'c, 'a, T: Object> { pub c0: &'c mut SingleObjectReceiver<'a, T> }
/// two fresh ends of one socket pair
pub open spec fn paired(a: World, b: World, x: int, y: int) -> bool {
    &&& b.cells@ == a.cells@ && untouched(a.os@, b.os@) && x != y && peers(x, y) && peers(y, x)
    &&& !a.os@.out.dom().contains(x) && !a.os@.out.dom().contains(y) && fresh(b, x) && fresh(b, y)
}
/// one message out, then the next message in is the answer
// src/imp.rs if_void (verified in unit u4)
pub uninterp spec fn is_void<T>() -> bool;
#[verifier::external_body]
pub fn imp_if_void<T>() -> (res: Option<T>) ensures res is Some <==> is_void::<T>() { unimplemented!() }
pub open spec fn request_ok<R: Object>(a: World, b: World, s: int, data: Seq<u8>, fds: Seq<int>, r: Result<R>) -> bool {
    match r {
        Ok(x) => exists|m: World| #[trigger] send_ok(a, m, s, data, fds, Ok(())) && recv_ok(m, b, s, Ok(Some(x))),
        Err(e) => send_ok(a, b, s, data, fds, Err(e)) || exists|m: World| #[trigger] send_ok(a, m, s, data, fds, Ok(())) && (recv_ok::<R>(m, b, s, Err(e)) || (recv_ok::<R>(m, b, s, Ok(None)) && e.k() == ErrorKind::UnexpectedEof)),
    }
}
pub open spec fn send_op(c: &SingleObjectSender<'_>, a: World, d: &SingleObjectSender<'_>, b: World, r: Result<()>) -> bool {
    &&& d.bytes_of() == c.bytes_of() && d.fds_of() == c.fds_of() && d.sock() == c.sock() && d.flags == c.flags
    &&& send_ok(a, b, c.sock(), c.bytes_of(), c.fds_of(), r)
    &&& (r is Err ==> d.sending(b.os@))
}
pub open spec fn recv_op<T: Object>(c: &SingleObjectReceiver<'_, T>, a: World, d: &SingleObjectReceiver<'_, T>, b: World, r: Result<Option<T>>) -> bool {
    &&& d.sock() == c.sock() && d.flags == c.flags
    &&& recv_ok(a, b, c.sock(), r)
    &&& (r matches Err(e) && e.k() == ErrorKind::WouldBlock ==> d.resumed(b.os@))
}

//@type Sender
//@attr #[verifier::reject_recursive_types(T)]
//@end
//@type Receiver
//@attr #[verifier::reject_recursive_types(T)]
//@end
//@type Duplex
//@attr #[verifier::reject_recursive_types(S)]
//@attr #[verifier::reject_recursive_types(R)]
//@end
//@impl Sender<$0,$1>
//@fn from_stream
    ensures res.fd == $arg0
//@fn send
    requires idle(*old(vx_w), old(self).fd.sock())
    ensures final(self).fd == old(self).fd, send_ok(*old(vx_w), *final(vx_w), old(self).fd.sock(), ser($1::ty(), $arg0.repr(), ser0()).data, ser($1::ty(), $arg0.repr(), ser0()).hs, res), res matches Err(e) ==> e.k() != ErrorKind::WouldBlock
//@pre
    proof { let w = wire(vx_w.os@.sent(self.fd.sock())); assert(w.data =~= Seq::<u8>::empty()); assert(w.fds =~= Seq::<int>::empty()); }
//@clo 0 VxSendOp mut
//ret ()
impl<'c, 'a> VxOp<()> for VxSendOp<'c, 'a> {
    open spec fn fits(&self, w: World) -> bool { self.c0.sending(w.os@) }
    open spec fn step(&self, a: World, b: Self, w: World, r: Result<()>) -> bool { send_op(self.c0, a, b.c0, w, r) }
    open spec fn dontwait(&self) -> bool { self.c0.flags.dontwait }
    open spec fn writes(&self) -> bool { true }
    proof fn again(&self, a: World, b: Self, w: World, e: Error) {}
    proof fn chain(&self, a: World, b: Self, w: World, e: Error, c: Self, v: World, r: Result<()>) {}
//@end
//@impl Receiver<$0,$1>
//@fn from_stream
    ensures res.fd == $arg0
//@fn recv
    requires listening(*old(vx_w), old(self).fd.sock()), chan_ok($1::ty(), inq(old(self).fd.sock()))
    ensures final(self).fd == old(self).fd, recv_ok(*old(vx_w), *final(vx_w), old(self).fd.sock(), res), res matches Err(e) ==> e.k() != ErrorKind::WouldBlock
//@pre
    proof { let w = wire(vx_w.os@.seen(self.fd.sock())); assert(w.data =~= Seq::<u8>::empty()); assert(w.fds =~= Seq::<int>::empty()); }
//@clo 0 VxRecvOp mut
//ret Option<T>
impl<'c, 'a, T: Object> VxOp<Option<T>> for VxRecvOp<'c, 'a, T> {
    open spec fn fits(&self, w: World) -> bool { self.c0.resumed(w.os@) && chan_ok(T::ty(), inq(self.c0.sock())) }
    open spec fn step(&self, a: World, b: Self, w: World, r: Result<Option<T>>) -> bool { recv_op(self.c0, a, b.c0, w, r) }
    open spec fn dontwait(&self) -> bool { self.c0.flags.dontwait }
    open spec fn writes(&self) -> bool { false }
    proof fn again(&self, a: World, b: Self, w: World, e: Error) {}
    proof fn chain(&self, a: World, b: Self, w: World, e: Error, c: Self, v: World, r: Result<Option<T>>) {
        let s = self.c0.sock();
        assert forall|m: Msg| #[trigger] took(w.os@, v.os@, s, m) implies took(a.os@, v.os@, s, m) by {}
    }
//@end
//@impl Duplex<$0,$1,$2>
//@fn from_stream
    ensures res.fd == $arg0
//@fn send
    requires idle(*old(vx_w), old(self).fd.sock())
    ensures final(self).fd == old(self).fd, send_ok(*old(vx_w), *final(vx_w), old(self).fd.sock(), ser($1::ty(), $arg0.repr(), ser0()).data, ser($1::ty(), $arg0.repr(), ser0()).hs, res), res matches Err(e) ==> e.k() != ErrorKind::WouldBlock
//@pre
    proof { let w = wire(vx_w.os@.sent(self.fd.sock())); assert(w.data =~= Seq::<u8>::empty()); assert(w.fds =~= Seq::<int>::empty()); }
//@clo 0 VxDSendOp mut
//ret ()
impl<'c, 'a> VxOp<()> for VxDSendOp<'c, 'a> {
    open spec fn fits(&self, w: World) -> bool { self.c0.sending(w.os@) }
    open spec fn step(&self, a: World, b: Self, w: World, r: Result<()>) -> bool { send_op(self.c0, a, b.c0, w, r) }
    open spec fn dontwait(&self) -> bool { self.c0.flags.dontwait }
    open spec fn writes(&self) -> bool { true }
    proof fn again(&self, a: World, b: Self, w: World, e: Error) {}
    proof fn chain(&self, a: World, b: Self, w: World, e: Error, c: Self, v: World, r: Result<()>) {}
//@fn recv
    requires listening(*old(vx_w), old(self).fd.sock()), chan_ok($2::ty(), inq(old(self).fd.sock()))
    ensures final(self).fd == old(self).fd, recv_ok(*old(vx_w), *final(vx_w), old(self).fd.sock(), res), res matches Err(e) ==> e.k() != ErrorKind::WouldBlock
//@pre
    proof { let w = wire(vx_w.os@.seen(self.fd.sock())); assert(w.data =~= Seq::<u8>::empty()); assert(w.fds =~= Seq::<int>::empty()); }
//@clo 0 VxDRecvOp mut
//ret Option<T>
impl<'c, 'a, T: Object> VxOp<Option<T>> for VxDRecvOp<'c, 'a, T> {
    open spec fn fits(&self, w: World) -> bool { self.c0.resumed(w.os@) && chan_ok(T::ty(), inq(self.c0.sock())) }
    open spec fn step(&self, a: World, b: Self, w: World, r: Result<Option<T>>) -> bool { recv_op(self.c0, a, b.c0, w, r) }
    open spec fn dontwait(&self) -> bool { self.c0.flags.dontwait }
    open spec fn writes(&self) -> bool { false }
    proof fn again(&self, a: World, b: Self, w: World, e: Error) {}
    proof fn chain(&self, a: World, b: Self, w: World, e: Error, c: Self, v: World, r: Result<Option<T>>) {
        let s = self.c0.sock();
        assert forall|m: Msg| #[trigger] took(w.os@, v.os@, s, m) implies took(a.os@, v.os@, s, m) by {}
    }
//@fn request
    requires idle(*old(vx_w), old(self).fd.sock()), listening(*old(vx_w), old(self).fd.sock()), chan_ok($2::ty(), inq(old(self).fd.sock()))
    ensures final(self).fd == old(self).fd, request_ok(*old(vx_w), *final(vx_w), old(self).fd.sock(), ser($1::ty(), $arg0.repr(), ser0()).data, ser($1::ty(), $arg0.repr(), ser0()).hs, res)
//@fn into_sender
    ensures res.fd == self.fd
//@fn into_receiver
    ensures res.fd == self.fd
//@end
//@impl TryFrom<BSender<$1>>@Sender<$0,$1>
//@header impl<$0: AsyncStream, $1: Object> VxTryFrom<BSender<$1>> for Sender<$0, $1>
//@members
    open spec fn vx_converted(a: BSender<$1>, r: Self) -> bool { r.fd.sock() == a.0.fd.sock() }
//@skip Error
//@fn try_from
//@end
//@impl AsRawFd@Sender<$0,$1>
//@members
    open spec fn vx_fd(&self) -> int { self.fd.sock() }
//@fn as_raw_fd
//@end
//@impl TryFrom<BReceiver<$1>>@Receiver<$0,$1>
//@header impl<$0: AsyncStream, $1: Object> VxTryFrom<BReceiver<$1>> for Receiver<$0, $1>
//@members
    open spec fn vx_converted(a: BReceiver<$1>, r: Self) -> bool { r.fd.sock() == a.0.fd.sock() }
//@skip Error
//@fn try_from
//@end
//@impl AsRawFd@Receiver<$0,$1>
//@members
    open spec fn vx_fd(&self) -> int { self.fd.sock() }
//@fn as_raw_fd
//@end
//@impl TryFrom<BDuplex<$1,$2>>@Duplex<$0,$1,$2>
//@header impl<$0: AsyncStream, $1: Object, $2: Object> VxTryFrom<BDuplex<$1, $2>> for Duplex<$0, $1, $2>
//@members
    open spec fn vx_converted(a: BDuplex<$1, $2>, r: Self) -> bool { r.fd.sock() == a.0.fd.sock() }
//@skip Error
//@fn try_from
//@end
//@impl AsRawFd@Duplex<$0,$1,$2>
//@members
    open spec fn vx_fd(&self) -> int { self.fd.sock() }
//@fn as_raw_fd
//@end
//@fn a_duplex
    ensures res matches Ok((a, b)) ==> paired(*old(vx_w), *final(vx_w), a.fd.sock(), b.fd.sock())
//@end
//@fn a_channel
    ensures res matches Ok((a, b)) ==> paired(*old(vx_w), *final(vx_w), a.fd.sock(), b.fd.sock())
//@end
// ---- the three runtimes
/// blocking futures are ready when first polled: nothing in them waits (assumed: the body of block_on)
pub fn block_on<T>(x: T) -> (res: T) ensures res == x { x }
//@type Blocking
//@end
//@impl AsyncStream@Blocking
//@members
    open spec fn sock(&self) -> int { self.0.id() }
//@end
//@type Tokio
//@end
pub trait VxMapTokio { fn vx_map_Tokio(self) -> Result<Tokio>; }
impl VxMapTokio for Result<TokioUnixStream> {
    fn vx_map_Tokio(self) -> (res: Result<Tokio>) ensures match self { Ok(x) => res matches Ok(y) && y.0 == x, Err(e) => res == Err::<Tokio, Error>(e) } { match self { Ok(x) => Ok(Tokio(x)), Err(e) => Err(e) } }
}
//@impl AsyncStream@Tokio
//@members
    open spec fn sock(&self) -> int { self.0.id() }
//@end
//@type Smol
//@end
pub trait VxMapSmol { fn vx_map_Smol(self) -> Result<Smol>; }
impl VxMapSmol for Result<Async<UnixStream>> {
    fn vx_map_Smol(self) -> (res: Result<Smol>) ensures match self { Ok(x) => res matches Ok(y) && y.0 == x, Err(e) => res == Err::<Smol, Error>(e) } { match self { Ok(x) => Ok(Smol(x)), Err(e) => Err(e) } }
}
//@impl AsyncStream@Smol
//@members
    open spec fn sock(&self) -> int { self.0.inner().id() }
//@end
//@type BSender
//@attr #[verifier::reject_recursive_types(T)]
//@end
//@impl BSender<$0>
//@fn send
    requires idle(*old(vx_w), old(self).0.fd.sock())
    ensures final(self).0.fd == old(self).0.fd, send_ok(*old(vx_w), *final(vx_w), old(self).0.fd.sock(), ser($0::ty(), $arg0.repr(), ser0()).data, ser($0::ty(), $arg0.repr(), ser0()).hs, res)
//@end
//@impl AsRawFd@BSender<$0>
//@members
    open spec fn vx_fd(&self) -> int { self.0.fd.sock() }
//@fn as_raw_fd
//@end
//@impl IntoRawFd@BSender<$0>
//@members
    open spec fn vx_own_fd(self) -> int { self.0.fd.sock() }
//@fn into_raw_fd
//@end
//@impl FromRawFd@BSender<$0>
//@members
    open spec fn vx_from_fd(&self) -> int { self.0.fd.sock() }
//@fn from_raw_fd
//@end
//@type BReceiver
//@attr #[verifier::reject_recursive_types(T)]
//@end
//@impl BReceiver<$0>
//@fn recv
    requires listening(*old(vx_w), old(self).0.fd.sock()), chan_ok($0::ty(), inq(old(self).0.fd.sock()))
    ensures final(self).0.fd == old(self).0.fd, recv_ok(*old(vx_w), *final(vx_w), old(self).0.fd.sock(), res)
//@end
//@impl AsRawFd@BReceiver<$0>
//@members
    open spec fn vx_fd(&self) -> int { self.0.fd.sock() }
//@fn as_raw_fd
//@end
//@impl IntoRawFd@BReceiver<$0>
//@members
    open spec fn vx_own_fd(self) -> int { self.0.fd.sock() }
//@fn into_raw_fd
//@end
//@impl FromRawFd@BReceiver<$0>
//@members
    open spec fn vx_from_fd(&self) -> int { self.0.fd.sock() }
//@fn from_raw_fd
//@end
//@type BDuplex
//@attr #[verifier::reject_recursive_types(S)]
//@attr #[verifier::reject_recursive_types(R)]
//@end
//@impl BDuplex<$0,$1>
//@fn send
    requires idle(*old(vx_w), old(self).0.fd.sock())
    ensures final(self).0.fd == old(self).0.fd, send_ok(*old(vx_w), *final(vx_w), old(self).0.fd.sock(), ser($0::ty(), $arg0.repr(), ser0()).data, ser($0::ty(), $arg0.repr(), ser0()).hs, res)
//@fn recv
    requires listening(*old(vx_w), old(self).0.fd.sock()), chan_ok($1::ty(), inq(old(self).0.fd.sock()))
    ensures final(self).0.fd == old(self).0.fd, recv_ok(*old(vx_w), *final(vx_w), old(self).0.fd.sock(), res)
//@fn request
    requires idle(*old(vx_w), old(self).0.fd.sock()), listening(*old(vx_w), old(self).0.fd.sock()), chan_ok($1::ty(), inq(old(self).0.fd.sock()))
    ensures final(self).0.fd == old(self).0.fd, request_ok(*old(vx_w), *final(vx_w), old(self).0.fd.sock(), ser($0::ty(), $arg0.repr(), ser0()).data, ser($0::ty(), $arg0.repr(), ser0()).hs, res)
//@fn into_sender
    ensures res.0.fd == self.0.fd
//@fn into_receiver
    ensures res.0.fd == self.0.fd
//@end
//@impl AsRawFd@BDuplex<$0,$1>
//@members
    open spec fn vx_fd(&self) -> int { self.0.fd.sock() }
//@fn as_raw_fd
//@end
//@impl IntoRawFd@BDuplex<$0,$1>
//@members
    open spec fn vx_own_fd(self) -> int { self.0.fd.sock() }
//@fn into_raw_fd
//@end
//@impl FromRawFd@BDuplex<$0,$1>
//@members
    open spec fn vx_from_fd(&self) -> int { self.0.fd.sock() }
//@fn from_raw_fd
//@end
//@type TSender
//@end
//@type TReceiver
//@end
//@type TDuplex
//@end
//@type SSender
//@end
//@type SReceiver
//@end
//@type SDuplex
//@end
//@fn b_channel
    ensures res matches Ok((a, b)) ==> paired(*old(vx_w), *final(vx_w), a.0.fd.sock(), b.0.fd.sock())
//@end
//@fn b_duplex
    ensures res matches Ok((a, b)) ==> paired(*old(vx_w), *final(vx_w), a.0.fd.sock(), b.0.fd.sock())
//@end
//@fn t_channel
    ensures res matches Ok((a, b)) ==> paired(*old(vx_w), *final(vx_w), a.fd.sock(), b.fd.sock())
//@end
//@fn t_duplex
    ensures res matches Ok((a, b)) ==> paired(*old(vx_w), *final(vx_w), a.fd.sock(), b.fd.sock())
//@end
//@fn s_channel
    ensures res matches Ok((a, b)) ==> paired(*old(vx_w), *final(vx_w), a.fd.sock(), b.fd.sock())
//@end
//@fn s_duplex
    ensures res matches Ok((a, b)) ==> paired(*old(vx_w), *final(vx_w), a.fd.sock(), b.fd.sock())
//@end
