// ------------------------------------------------------------------------------------------------
// src/platform/unix/internals.rs: one message in, one message out
// ------------------------------------------------------------------------------------------------
//@mode channel
//@tryconv on
//@type SingleObjectSender
//@end
//@type SingleObjectReceiver
//@attr #[verifier::reject_recursive_types(T)]
//@end
impl<'a> SingleObjectSender<'a> {
    /// the message being sent
    pub open spec fn bytes_of(&self) -> Seq<u8> { self.bytes@ + self.buffer@ }
    /// it lies in one place
    pub open spec fn one_source(&self) -> bool { self.bytes@.len() == 0 || self.buffer@.len() == 0 }
    pub open spec fn fds_of(&self) -> Seq<int> { bids(self.fds@) }
    pub open spec fn sock(&self) -> int { self.socket_fd.id() }
    /// what was sent of it is exactly what the channel ends with
    pub open spec fn sending(&self, os: Os) -> bool {
        let w = wire(os.sent(self.sock()));
        &&& self.one_source() && self.data_pos <= self.bytes_of().len() && self.fds_pos <= self.fds_of().len() && !w.lost
        &&& w.data == self.bytes_of().take(self.data_pos as int) && w.fds == self.fds_of().take(self.fds_pos as int)
    }
}
//@impl SingleObjectSender
//@fn new
    ensures res.one_source(), res.bytes_of() == ser(T::ty(), $arg1.repr(), ser0()).data, res.fds_of() == ser(T::ty(), $arg1.repr(), ser0()).hs,
        res.data_pos == 0, res.fds_pos == 0, res.sock() == $arg0.id(), res.flags.dontwait == !$arg2,
        res.bytes_of().take(0) == Seq::<u8>::empty(), res.fds_of().take(0) == Seq::<int>::empty()
//@pre
    broadcast use group_ser, ax_vsz;
    proof { $arg1.pod_view(); }
//@post
    proof { assert(vx_res.fds_of() =~= ser(T::ty(), $arg1.repr(), ser0()).hs); assert(vx_res.bytes_of() =~= ser(T::ty(), $arg1.repr(), ser0()).data); assert(vx_res.bytes_of().take(0) =~= Seq::<u8>::empty()); assert(vx_res.fds_of().take(0) =~= Seq::<int>::empty()); }
//@fn send_next
    requires old(self).sending(old(vx_w).os@)
    ensures final(vx_w).same(*old(vx_w)), final(self).bytes_of() == old(self).bytes_of(), final(self).fds_of() == old(self).fds_of(), final(self).sock() == old(self).sock(), final(self).flags == old(self).flags,
        final(vx_w).os@.rpos == old(vx_w).os@.rpos, final(vx_w).os@.out.remove(old(self).sock()) == old(vx_w).os@.out.remove(old(self).sock()),
        // everything on the channel is still of its type
        forall|ty: Ty| #[trigger] chan_ok(ty, old(vx_w).os@.sent(old(self).sock())) && good(ty, old(self).bytes_of(), old(self).fds_of()) ==> chan_ok(ty, final(vx_w).os@.sent(old(self).sock())),
        res is Ok ==> ({ let a = wire(old(vx_w).os@.sent(old(self).sock())); let b = wire(final(vx_w).os@.sent(old(self).sock()));
            b.msgs == a.msgs.push(Msg { data: old(self).bytes_of(), fds: old(self).fds_of(), lost: false }) && bound(b) && final(vx_w).os@.fails == old(vx_w).os@.fails }),
        res matches Err(e) ==> final(self).sending(final(vx_w).os@) && wire(final(vx_w).os@.sent(old(self).sock())).msgs == wire(old(vx_w).os@.sent(old(self).sock())).msgs
            && e.k() != ErrorKind::Interrupted && (e.k() == ErrorKind::WouldBlock ==> old(self).flags.dontwait)
            && (errno_of(e) matches Some(x) && x != Errno::INTR && final(vx_w).os@.fails == old(vx_w).os@.report(x).fails && (x == Errno::AGAIN <==> e.k() == ErrorKind::WouldBlock)),
//@attr #[verifier::exec_allows_no_decreases_clause]
//@pre
    broadcast use ax_other_kind, iocat_2, iocat_1;
    proof { ax_cmsg_room(MAX_PACKET_FDS as int); ax_fd_size(); }
    proof { ax_slice_len(self.bytes); ax_vec_len(&self.buffer); ax_vec_len(&self.fds); }
    let ghost vx_s = self.sock();
    let ghost vx_d = self.bytes_of();
    let ghost vx_f = self.fds_of();
//@loop 0
    invariant
        vx_d.len() <= isize::MAX, vx_f.len() <= isize::MAX, $mut1.room() >= MAX_PACKET_FDS, self.sock() == vx_s, self.bytes_of() == vx_d, self.fds_of() == vx_f, self.flags == old(self).flags, self.sending(vx_w.os@),
        vx_s == old(self).sock(), vx_d == old(self).bytes_of(), vx_f == old(self).fds_of(),
        vx_w.same(*old(vx_w)), vx_w.os@.rpos == old(vx_w).os@.rpos, vx_w.os@.fails == old(vx_w).os@.fails,
        vx_w.os@.out.remove(vx_s) == old(vx_w).os@.out.remove(vx_s),
        wire(vx_w.os@.sent(vx_s)).msgs == wire(old(vx_w).os@.sent(vx_s)).msgs,
        forall|ty: Ty| #[trigger] chan_ok(ty, old(vx_w).os@.sent(vx_s)) && good(ty, vx_d, vx_f) ==> chan_ok(ty, vx_w.os@.sent(vx_s)),
//@loopbody 0
    broadcast use ax_other_kind, iocat_2, iocat_1;
    let ghost vx_o = vx_w.os@.sent(vx_s);
    let ghost vx_dp = self.data_pos as int;
    let ghost vx_fp = self.fds_pos as int;
//@after sendmsg 0
    proof {
        let o = vx_w.os@.sent(vx_s);
        let p = o.last();
        assert(o =~= vx_o.push(p));
        wire_push(vx_o, p);
        assert(p.data.skip(1) =~= vx_d.subrange(vx_dp, vx_dp + p.data.len() - 1));
        assert(p.fds =~= vx_f.subrange(vx_fp, vx_fp + p.fds.len()));
        assert(vx_d.take(vx_dp) + p.data.skip(1) =~= vx_d.take(vx_dp + p.data.len() - 1));
        assert(vx_f.take(vx_fp) + p.fds =~= vx_f.take(vx_fp + p.fds.len()));
        assert(vx_w.os@.out.remove(vx_s) =~= old(vx_w).os@.out.remove(vx_s));
        assert(vx_d.take(vx_d.len() as int) =~= vx_d); assert(vx_f.take(vx_f.len() as int) =~= vx_f);
        assert forall|ty: Ty| #[trigger] chan_ok(ty, old(vx_w).os@.sent(vx_s)) && good(ty, vx_d, vx_f) implies chan_ok(ty, o) by {
            assert(chan_ok(ty, vx_o));
            assert(vx_d.take(vx_dp + p.data.len() - 1) =~= vx_d.take(vx_d.take(vx_dp + p.data.len() - 1).len() as int));
            assert(vx_f.take(vx_fp + p.fds.len()) =~= vx_f.take(vx_f.take(vx_fp + p.fds.len()).len() as int));
            chan_push(ty, vx_o, p, vx_d, vx_f);
        }
    }
//@fn data
    requires self.one_source()
    ensures res@ == self.bytes_of()
//@post
    proof { assert(vx_res@ =~= self.bytes_of()); }
//@end
impl<'a, T: Object> SingleObjectReceiver<'a, T> {
    pub open spec fn sock(&self) -> int { self.socket_fd.id() }
    pub open spec fn bytes(&self) -> Seq<u8> { if is_pod::<T>() { self.value.img().unwrap() } else { self.buffer@ } }
    /// what was taken from the channel of the current message is what is kept here
    pub open spec fn resumed(&self, os: Os) -> bool {
        let w = wire(os.seen(self.sock()));
        &&& !self.terminated && os.ok(self.sock()) && self.data_pos <= self.bytes().len() && (is_pod::<T>() ==> self.value.img() is Some && self.bytes().len() == vsz::<T>())
        &&& w.data == self.bytes().take(self.data_pos as int) && self.fds_truncated == w.lost && (!w.lost ==> w.fds == oids(self.fds@))
    }
}
/// one call took exactly the rest of one message m from the channel
pub open spec fn took(a: Os, b: Os, s: int, m: Msg) -> bool {
    wire(b.seen(s)).msgs == wire(a.seen(s)).msgs.push(m) && bound(wire(b.seen(s)))
}
//@impl SingleObjectReceiver<$0>
//@fn new
    ensures res.sock() == $arg0.id(), res.flags.dontwait == !$arg1, res.data_pos == 0, !res.terminated, !res.fds_truncated, oids(res.fds@) == Seq::<int>::empty(), res.bytes().take(0) == Seq::<u8>::empty(),
        is_pod::<T>() ==> res.value.img() is Some && res.bytes().len() == vsz::<T>()
//@post
    proof { assert(vx_res.bytes().take(0) =~= Seq::<u8>::empty()); assert(oids(vx_res.fds@) =~= Seq::<int>::empty()); }
//@fn recv_next
    requires old(self).resumed(old(vx_w).os@), chan_ok(T::ty(), inq(old(self).sock()))
    ensures final(vx_w).cells@ == old(vx_w).cells@, final(self).sock() == old(self).sock(), final(self).flags == old(self).flags, final(vx_w).os@.out == old(vx_w).os@.out,
        final(vx_w).os@.ok(old(self).sock()), final(vx_w).os@.rpos.remove(old(self).sock()) == old(vx_w).os@.rpos.remove(old(self).sock()),
        res matches Ok(Some(x)) ==> final(self).terminated && final(vx_w).same(*old(vx_w)) && final(vx_w).os@.fails == old(vx_w).os@.fails
            && (exists|m: Msg| #[trigger] took(old(vx_w).os@, final(vx_w).os@, old(self).sock(), m) && !m.lost
                && exists|sid: int| rv(de(T::ty(), #[trigger] de0(m.data, m.fds, sid))) == x.repr()),
        // end of stream: only when the peer is gone and nothing is left
        res matches Ok(None) ==> final(vx_w).same(*old(vx_w)) && final(vx_w).os@.fails == old(vx_w).os@.fails
            && final(vx_w).os@.rpos[old(self).sock()] == inq(old(self).sock()).len() && bound(wire(inq(old(self).sock())))
            && wire(inq(old(self).sock())).msgs == wire(old(vx_w).os@.seen(old(self).sock())).msgs,
        // would-block: only from the system, and then the transfer can be continued
        res matches Err(e) ==> (e.k() == ErrorKind::WouldBlock ==> old(self).flags.dontwait && errno_of(e) == Some(Errno::AGAIN) && final(self).resumed(final(vx_w).os@)
            && final(vx_w).same(*old(vx_w)) && final(vx_w).os@.fails == old(vx_w).os@.fails && wire(final(vx_w).os@.seen(old(self).sock())).msgs == wire(old(vx_w).os@.seen(old(self).sock())).msgs),
        res matches Err(e) ==> {
            ||| (errno_of(e) matches Some(x) && x != Errno::INTR && x != Errno::CONNRESET && final(vx_w).os@.fails == old(vx_w).os@.report(x).fails && final(vx_w).same(*old(vx_w)) && final(self).resumed(final(vx_w).os@)
                && wire(final(vx_w).os@.seen(old(self).sock())).msgs == wire(old(vx_w).os@.seen(old(self).sock())).msgs)
            ||| (final(vx_w).os@.fails == old(vx_w).os@.fails && (exists|m: Msg| #[trigger] took(old(vx_w).os@, final(vx_w).os@, old(self).sock(), m) && m.lost) && final(vx_w).same(*old(vx_w)))
            ||| (final(vx_w).os@.fails == old(vx_w).os@.fails && (exists|m: Msg| #[trigger] took(old(vx_w).os@, final(vx_w).os@, old(self).sock(), m) && !m.lost)
                && final(vx_w).errs@.len() == old(vx_w).errs@.len() + 1 && final(vx_w).errs@ == old(vx_w).errs@.push(final(vx_w).errs@.last())
                && (final(vx_w).errs@.last().k() == ErrorKind::WouldBlock ==> e.k() == ErrorKind::Other) && (final(vx_w).errs@.last().k() != ErrorKind::WouldBlock ==> e == final(vx_w).errs@.last()))
            ||| (final(vx_w).os@.fails == old(vx_w).os@.fails && final(vx_w).os@.rpos[old(self).sock()] == inq(old(self).sock()).len() && !bound(wire(inq(old(self).sock())))
                && wire(inq(old(self).sock())).msgs == wire(old(vx_w).os@.seen(old(self).sock())).msgs && final(vx_w).same(*old(vx_w)))
        },
//@attr #[verifier::exec_allows_no_decreases_clause]
//@pre
    broadcast use ax_other_kind;
    proof { ax_cmsg_room(MAX_PACKET_FDS as int); ax_fd_size(); }
    proof { <T as Object>::pod_type(); ax_vec_len(&self.buffer); }
    let ghost vx_s = self.sock();
    let ghost vx_q = inq(vx_s);
    let ghost vx_r0 = vx_w.os@.rpos[vx_s];
//@loop 0
    invariant
        $mut1.room() >= MAX_PACKET_FDS, $mut1.pend().len() == 0, vx_s == old(self).sock(), vx_q == inq(vx_s), vx_r0 == old(vx_w).os@.rpos[vx_s], chan_ok(T::ty(), vx_q), is_pod::<T>() ==> T::ty() == pod_ty::<T>(),
        self.sock() == vx_s, self.flags == old(self).flags, self.resumed(vx_w.os@),
        vx_w.same(*old(vx_w)), vx_w.os@.out == old(vx_w).os@.out, vx_w.os@.fails == old(vx_w).os@.fails, vx_w.os@.rpos.remove(vx_s) == old(vx_w).os@.rpos.remove(vx_s), old(vx_w).os@.ok(vx_s),
        wire(vx_w.os@.seen(vx_s)).msgs == wire(old(vx_w).os@.seen(vx_s)).msgs,
//@loopbody 0
    broadcast use ax_other_kind;
    let ghost vx_r = vx_w.os@.rpos[vx_s];
    let ghost vx_d0 = self.bytes().take(self.data_pos as int);
    let ghost vx_f0 = oids(self.fds@);
    let ghost vx_w0 = wire(vx_q.take(vx_r));
    proof {
        ax_fd_size(); ax_vec_len(&self.buffer);
        if vx_r < vx_q.len() {
            chan_next(T::ty(), vx_q, vx_r);
            let p = vx_q[vx_r];
            if is_pod::<T>() {
                if p.data[0] == 1 { good_pod(pid::<T>(), vsz::<T>(), vx_d0 + p.data.skip(1), vx_w0.fds + p.fds); } else { begun_pod(pid::<T>(), vsz::<T>(), vx_d0 + p.data.skip(1), vx_w0.fds + p.fds); }
            }
        }
    }
    let ghost vx_dp = self.data_pos as int;
//@after resize 0
    assert(self.buffer@.take(vx_dp) =~= vx_d0);
//@after recvmsg 0
    let ghost vx_p = if vx_r < vx_q.len() { vx_q[vx_r] } else { Packet { data: seq![], fds: seq![], lost: false } };
    let ghost vx_c = $mut1.pend();
    let ghost vx_b = self.bytes();
    proof {
        if vx_r < vx_q.len() {
            assert(vx_b.take(vx_dp + vx_p.data.len() - 1) =~= vx_d0 + vx_p.data.skip(1));
            assert($mut2@[0] == vx_p.data[0]);
        }
        assert(vx_b.take(vx_dp) =~= vx_d0);
        assert(vx_c.take(vx_c.len() as int) =~= vx_c);
        assert(vx_q.take(vx_q.len() as int) =~= vx_q);
        assert(vx_c.take(0).len() == 0);
        cmsg_fds_nil(vx_c.take(0));
        assert(vx_f0 + Seq::<int>::empty() =~= vx_f0);
        assert(vx_w.os@.rpos.remove(vx_s) =~= old(vx_w).os@.rpos.remove(vx_s));
    }
    let ghost vx_m = completed(vx_w0, vx_p);
    proof {
        if vx_r < vx_q.len() && vx_p.data[0] == 1 {
            assert(took(old(vx_w).os@, vx_w.os@, vx_s, vx_m));
            assert forall|sid: int| de(T::ty(), #[trigger] de0(vx_m.data, vx_m.fds, sid)) is Some by { good_at(T::ty(), vx_m.data, vx_m.fds, sid); }
            if is_pod::<T>() {
                good_pod(pid::<T>(), vsz::<T>(), vx_m.data, vx_m.fds);
                assert(vx_b =~= vx_m.data);
                de_pod(pid::<T>(), vsz::<T>(), de0(vx_m.data, vx_m.fds, 0));
                assert(de0(vx_m.data, vx_m.fds, 0).peek(vsz::<T>()) =~= vx_m.data);
                assert forall|x: T| is_pod::<T>() implies #[trigger] x.repr() == Val::Pod(pod_bytes(x)) by { x.pod_view(); }
            }
        }
    }
//@loop 1
    invariant
        vx_it1.all() == vx_c, 0 <= vx_it1.pos() <= vx_c.len(), self.sock() == vx_s, self.flags == old(self).flags, self.data_pos == vx_dp, !self.terminated, self.bytes() == vx_b,
        is_pod::<T>() ==> self.value.img() is Some, self.fds_truncated == vx_w0.lost, $mut1.room() >= MAX_PACKET_FDS, $mut1.pend().len() == 0,
        forall|i: int| 0 <= i < vx_c.len() ==> (#[trigger] vx_c[i]) is ScmRights, oids(self.fds@) == vx_f0 + cmsg_fds(vx_c.take(vx_it1.pos())),
    ensures vx_it1.pos() == vx_c.len()
    decreases vx_c.len() - vx_it1.pos()
//@loopbody 1
    let ghost vx_i = vx_it1.pos();
    let ghost vx_fi = oids(self.fds@);
    proof { if vx_i < vx_c.len() { cmsg_fds_step(vx_c, vx_i); } }
//@after vx_extend 0
    proof {
        let r = oids(vx_c[vx_i]->ScmRights_0.all());
        assert(oids(self.fds@) =~= vx_fi + r);
        assert((vx_f0 + cmsg_fds(vx_c.take(vx_i))) + r =~= vx_f0 + (cmsg_fds(vx_c.take(vx_i)) + r));
    }
//@end
