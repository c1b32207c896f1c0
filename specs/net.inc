// ------------------------------------------------------------------------------------------------
// The operating system's sockets, and rustix's names for them: assumed contracts (external bodies).
// Sockets are identified by their open file description.
// ------------------------------------------------------------------------------------------------
/// out: everything handed over to the system for sending, per socket; rpos: how many packets were taken from
/// it; fails: the errors the system calls reported (other than
/// interruptions and would-block), in order
pub struct Os { pub out: IMap<int, Seq<Packet>>, pub rpos: IMap<int, int>, pub fails: Seq<Errno> }
/// every packet that ever arrives at this end, in order; when all of them were taken the peer is gone
pub uninterp spec fn inq(sock: int) -> Seq<Packet>;
impl Os {
    pub open spec fn sent(self, s: int) -> Seq<Packet> { self.out[s] }
    pub open spec fn seen(self, s: int) -> Seq<Packet> { inq(s).take(self.rpos[s]) }
    pub open spec fn send(self, s: int, p: Packet) -> Os { Os { out: self.out.insert(s, self.out[s].push(p)), ..self } }
    pub open spec fn recv(self, s: int) -> Os { Os { rpos: self.rpos.insert(s, self.rpos[s] + 1), ..self } }
    pub open spec fn report(self, e: Errno) -> Os { if e == Errno::INTR || e == Errno::AGAIN { self } else { self.fail(e) } }
    pub open spec fn fail(self, e: Errno) -> Os { Os { fails: self.fails.push(e), ..self } }
    pub open spec fn ok(self, s: int) -> bool { 0 <= self.rpos[s] <= inq(s).len() }
}
impl World {
    /// only the system's state changed
    pub open spec fn same(self, old: World) -> bool { self.errs@ == old.errs@ && self.cells@ == old.cells@ }
}

#[derive(PartialEq, Eq, Structural, Clone, Copy)]
/// CONNRESET: when receiving, the peer closed without reading everything; what it had sent can still be received
pub enum Errno { INTR, AGAIN, CONNRESET, Else(i32) }
pub open spec fn kind_of(e: Errno) -> ErrorKind { match e { Errno::INTR => ErrorKind::Interrupted, Errno::AGAIN => ErrorKind::WouldBlock, Errno::CONNRESET => ErrorKind::ConnectionReset, Errno::Else(c) => other_kind(c) } }
pub uninterp spec fn other_kind(c: i32) -> ErrorKind;
pub broadcast axiom fn ax_other_kind(c: i32) ensures #[trigger] other_kind(c) != ErrorKind::WouldBlock, other_kind(c) != ErrorKind::Interrupted;
pub uninterp spec fn errno_of(e: Error) -> Option<Errno>;
impl From<Errno> for Error {
    #[verifier::external_body]
    fn from(e: Errno) -> (res: Error) ensures res.k() == kind_of(e), errno_of(res) == Some(e) { unimplemented!() }
}

#[derive(Clone, Copy)]
pub struct SendFlags { pub dontwait: bool }
impl SendFlags {
    pub const DONTWAIT: SendFlags = SendFlags { dontwait: true };
    pub fn empty() -> (res: SendFlags) ensures !res.dontwait { SendFlags { dontwait: false } }
    pub fn vx_bitor(self, o: SendFlags) -> (res: SendFlags) ensures res.dontwait == (self.dontwait || o.dontwait) { SendFlags { dontwait: self.dontwait || o.dontwait } }
}
#[derive(Clone, Copy)]
pub struct RecvFlags { pub dontwait: bool, pub cloexec: bool }
impl RecvFlags {
    pub const DONTWAIT: RecvFlags = RecvFlags { dontwait: true, cloexec: false };
    pub const CMSG_CLOEXEC: RecvFlags = RecvFlags { dontwait: false, cloexec: true };
    pub fn empty() -> (res: RecvFlags) ensures !res.dontwait, !res.cloexec { RecvFlags { dontwait: false, cloexec: false } }
    pub fn vx_bitor(self, o: RecvFlags) -> (res: RecvFlags) ensures res.dontwait == (self.dontwait || o.dontwait), res.cloexec == (self.cloexec || o.cloexec) { RecvFlags { dontwait: self.dontwait || o.dontwait, cloexec: self.cloexec || o.cloexec } }
}

// ---- ancillary buffers: room for a number of handles
pub uninterp spec fn cmsg_space(n: int) -> int;
pub uninterp spec fn cmsg_room(len: int) -> int;
/// CMSG_SPACE is enough for what it was computed for
pub axiom fn ax_cmsg_room(n: int) requires n >= 0 ensures cmsg_room(cmsg_space(4 * n)) >= n;
pub axiom fn ax_fd_size() ensures vsz::<u8>() == 1, vsz::<BorrowedHandle<'static>>() == 4, vsz::<OwnedHandle>() == 4;
#[allow(non_snake_case)]
#[verifier::external_body]
pub fn net___cmsg_space(n: usize) -> (res: usize) ensures res == cmsg_space(n as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_repeat_buf(x: u8, n: usize) -> (res: Vec<u8>) ensures res@.len() == n { unimplemented!() }
pub enum SendAncillaryMessage<'a, 'b> { ScmRights(&'b [BorrowedHandle<'a>]), ScmCredentials(u8) }
#[verifier::external_body]
pub struct SendAncillaryBuffer<'a> { _p: core::marker::PhantomData<&'a u8> }
impl<'a> SendAncillaryBuffer<'a> {
    pub uninterp spec fn room(&self) -> int;
    pub uninterp spec fn used(&self) -> bool;
    pub uninterp spec fn fds(&self) -> Seq<int>;
    #[verifier::external_body]
    pub fn new(space: &'a mut Vec<u8>) -> (res: Self) ensures res.room() == cmsg_room(old(space)@.len() as int), res.fds().len() == 0, !res.used() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).room() == old(self).room(), final(self).fds().len() == 0, !final(self).used() { unimplemented!() }
    /// one message of handles per packet
    #[verifier::external_body]
    pub fn push(&mut self, m: SendAncillaryMessage<'_, '_>) -> (res: bool)
        requires m is ScmRights, !old(self).used()
        ensures final(self).room() == old(self).room(), final(self).used(),
            m->ScmRights_0@.len() <= old(self).room() ==> res,
            res ==> final(self).fds() == bids(m->ScmRights_0@) { unimplemented!() }
}
pub struct IoSlice<'a> { pub s: &'a [u8] }
impl<'a> IoSlice<'a> { pub fn new(s: &'a [u8]) -> (res: IoSlice<'a>) ensures res.s@ == s@ { IoSlice { s } } }
pub open spec fn iocat(v: Seq<IoSlice<'_>>) -> Seq<u8> decreases v.len() { if v.len() == 0 { seq![] } else { iocat(v.drop_last()) + v.last().s@ } }
pub broadcast proof fn iocat_0(v: Seq<IoSlice<'_>>) requires v.len() == 0 ensures #[trigger] iocat(v) == Seq::<u8>::empty() {}
pub broadcast proof fn iocat_1(v: Seq<IoSlice<'_>>) requires v.len() == 1 ensures #[trigger] iocat(v) == v[0].s@
{ iocat_0(v.drop_last()); assert(iocat(v) =~= v[0].s@); }
pub broadcast proof fn iocat_2(v: Seq<IoSlice<'_>>) requires v.len() == 2 ensures #[trigger] iocat(v) == v[0].s@ + v[1].s@
{ iocat_1(v.drop_last()); }
/// sendmsg on a SOCK_SEQPACKET socket: all or nothing.  The system accepts at most 253 handles in one packet
/// (SCM_MAX_FD) and packets up to the socket's buffer size.
#[verifier::external_body]
pub fn sendmsg(fd: BorrowedHandle<'_>, iov: &[IoSlice<'_>], c: &mut SendAncillaryBuffer<'_>, flags: SendFlags, vx_w: &mut World) -> (res: core::result::Result<usize, Errno>)
    requires old(c).fds().len() <= 253, iocat(iov@).len() <= 65536
    ensures final(vx_w).same(*old(vx_w)), final(c).room() == old(c).room(), final(c).fds() == old(c).fds(), final(c).used() == old(c).used(),
        match res {
            Ok(n) => n == iocat(iov@).len() && final(vx_w).os@ == old(vx_w).os@.send(fd.id(), Packet { data: iocat(iov@), fds: old(c).fds(), lost: false }),
            Err(e) => final(vx_w).os@ == old(vx_w).os@.report(e) && (e == Errno::AGAIN ==> flags.dontwait),
        }
{ unimplemented!() }

#[verifier::external_body]
pub struct Rights { _p: u8 }
impl Rights { pub uninterp spec fn all(&self) -> Seq<OwnedHandle>; }
pub enum RecvAncillaryMessage { ScmRights(Rights), ScmCredentials(u8) }
pub open spec fn cmsg_fds(v: Seq<RecvAncillaryMessage>) -> Seq<int> decreases v.len() {
    if v.len() == 0 { seq![] } else { cmsg_fds(v.drop_last()) + (match v.last() { RecvAncillaryMessage::ScmRights(r) => oids(r.all()), _ => seq![] }) }
}
pub proof fn cmsg_fds_nil(v: Seq<RecvAncillaryMessage>) requires v.len() == 0 ensures cmsg_fds(v) == Seq::<int>::empty() {}
pub proof fn cmsg_fds_step(v: Seq<RecvAncillaryMessage>, i: int) requires 0 <= i < v.len(), v[i] is ScmRights ensures cmsg_fds(v.take(i + 1)) == cmsg_fds(v.take(i)) + oids(v[i]->ScmRights_0.all())
{ assert(v.take(i + 1).drop_last() =~= v.take(i)); }
#[verifier::external_body]
pub struct RecvAncillaryBuffer<'a> { _p: core::marker::PhantomData<&'a u8> }
impl<'a> RecvAncillaryBuffer<'a> {
    pub uninterp spec fn room(&self) -> int;
    pub uninterp spec fn pend(&self) -> Seq<RecvAncillaryMessage>;
    #[verifier::external_body]
    pub fn new(space: &'a mut Vec<u8>) -> (res: Self) ensures res.room() == cmsg_room(old(space)@.len() as int), res.pend().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn drain(&mut self) -> (res: VxDrain) ensures final(self).room() == old(self).room(), final(self).pend().len() == 0, res.all() == old(self).pend() { unimplemented!() }
}
#[verifier::external_body]
pub struct VxDrain { _p: u8 }
impl VxDrain {
    pub uninterp spec fn all(&self) -> Seq<RecvAncillaryMessage>;
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (res: IntoIter<RecvAncillaryMessage>) ensures res.all() == self.all(), res.pos() == 0 { unimplemented!() }
}
pub trait VxExtend { fn vx_extend(&mut self, r: Rights); }
impl VxExtend for Vec<OwnedHandle> {
    #[verifier::external_body]
    fn vx_extend(&mut self, r: Rights) ensures final(self)@ == old(self)@ + r.all() { unimplemented!() }
}
pub struct ReturnFlags { pub b: u32 }
impl ReturnFlags { pub fn bits(&self) -> (res: u32) ensures res == self.b { self.b } }
pub const MSG_CTRUNC: i32 = 8;
pub struct RecvMsg { pub bytes: usize, pub flags: ReturnFlags }
impl RecvMsg { pub open spec fn ctrunc(&self) -> bool { self.flags.b & (MSG_CTRUNC as u32) != 0 } }

/// a byte buffer lent to recvmsg: room, and what it will hold when it is given back
#[verifier::external_body]
pub struct IoSliceMut<'a> { _p: core::marker::PhantomData<&'a u8> }
impl<'a> IoSliceMut<'a> {
    pub uninterp spec fn was(&self) -> Seq<u8>;
    pub uninterp spec fn fin(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new<B: VxBuf + ?Sized>(b: &'a mut B) -> (res: IoSliceMut<'a>) ensures res.was() == old(b).vx_buf(), res.fin() == final(b).vx_buf() { unimplemented!() }
}
pub trait VxBuf { spec fn vx_buf(&self) -> Seq<u8>; }
impl VxBuf for [u8] { open spec fn vx_buf(&self) -> Seq<u8> { self@ } }
impl<const N: usize> VxBuf for [u8; N] { open spec fn vx_buf(&self) -> Seq<u8> { self@ } }
pub trait VxFromMut { spec fn vx_fm(&self) -> Seq<u8>; fn vx_from_mut(&mut self, a: usize) -> (res: &mut [u8])
    requires a <= old(self).vx_fm().len()
    ensures res@ == old(self).vx_fm().skip(a as int), final(res)@.len() == res@.len() ==> final(self).vx_fm() == old(self).vx_fm().take(a as int) + final(res)@,
        final(res)@ == res@ ==> final(self).vx_fm() == old(self).vx_fm(); }
impl VxFromMut for [u8] {
    open spec fn vx_fm(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_from_mut(&mut self, a: usize) -> (res: &mut [u8]) { unimplemented!() }
}
impl VxFromMut for Vec<u8> {
    open spec fn vx_fm(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_from_mut(&mut self, a: usize) -> (res: &mut [u8]) { unimplemented!() }
}
pub trait VxMutSlice { fn vx_as_mut_slice(&mut self) -> &mut [u8]; }
impl VxMutSlice for Vec<u8> {
    #[verifier::external_body]
    fn vx_as_mut_slice(&mut self) -> (res: &mut [u8]) ensures res@ == old(self)@, final(self)@ == final(res)@ { unimplemented!() }
}
/// the two buffers hold the bytes b, one after the other, and whatever they held before after that
pub open spec fn laid(iov: Seq<IoSliceMut<'_>>, b: Seq<u8>) -> bool {
    let n0 = iov[0].was().len(); let n1 = iov[1].was().len();
    if b.len() == 0 { iov[0].fin() == iov[0].was() && iov[1].fin() == iov[1].was() }
    else if b.len() <= n0 { iov[0].fin() == b + iov[0].was().skip(b.len() as int) && iov[1].fin() == iov[1].was() }
    else { iov[0].fin() == b.take(n0 as int) && iov[1].fin() == b.skip(n0 as int) + iov[1].was().skip(b.len() - n0) }
}
pub open spec fn min(a: int, b: int) -> int { if a <= b { a } else { b } }
/// recvmsg on a SOCK_SEQPACKET socket: one packet, cut to the room given; handles that do not fit, or that the
/// system cannot create, are dropped and flagged
#[verifier::external_body]
pub fn recvmsg(fd: BorrowedHandle<'_>, iov: &mut [IoSliceMut<'_>; 2], c: &mut RecvAncillaryBuffer<'_>, flags: RecvFlags, vx_w: &mut World) -> (res: core::result::Result<RecvMsg, Errno>)
    requires flags.cloexec, old(c).pend().len() == 0, old(vx_w).os@.ok(fd.id())
    ensures final(vx_w).same(*old(vx_w)), final(c).room() == old(c).room(), final(vx_w).os@.ok(fd.id()),
        match res {
            Ok(m) => ({
                let q = inq(fd.id()); let r = old(vx_w).os@.rpos[fd.id()]; let n = old(iov)@[0].was().len() + old(iov)@[1].was().len();
                if r < q.len() {
                    let p = q[r];
                    let dropped = p.lost || p.fds.len() > old(c).room();
                    &&& final(vx_w).os@ == old(vx_w).os@.recv(fd.id())
                    &&& m.bytes == min(p.data.len() as int, n as int)
                    &&& laid(old(iov)@, p.data.take(m.bytes as int))
                    &&& m.ctrunc() == dropped
                    &&& (forall|i: int| 0 <= i < final(c).pend().len() ==> (#[trigger] final(c).pend()[i]) is ScmRights)
                    &&& (!dropped ==> cmsg_fds(final(c).pend()) == p.fds)
                } else {
                    &&& final(vx_w).os@ == old(vx_w).os@ && m.bytes == 0 && laid(old(iov)@, seq![]) && !m.ctrunc() && final(c).pend().len() == 0
                }
            }),
            Err(e) => final(vx_w).os@ == (if e == Errno::CONNRESET { old(vx_w).os@ } else { old(vx_w).os@.report(e) }) && (e == Errno::AGAIN ==> flags.dontwait)
                && laid(old(iov)@, seq![]) && final(c).pend().len() == 0,
        }
{ unimplemented!() }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxFnPtr<T> { _p: core::marker::PhantomData<T> }
/// no allocation is larger than isize::MAX bytes
pub axiom fn ax_slice_len(v: &[u8]) ensures v@.len() <= isize::MAX;
pub axiom fn ax_vec_len<T>(v: &Vec<T>) ensures vsz::<T>() > 0 ==> v@.len() <= isize::MAX;
