// ------------------------------------------------------------------------------------------------
// What a channel carries: packets, and the messages they spell.  Mathematical side; nothing here comes from
// the crate.
// ------------------------------------------------------------------------------------------------
/// one SOCK_SEQPACKET datagram: its bytes, the handles attached to it, and whether the receiving system drops
/// some of the handles on delivery
pub struct Packet { pub data: Seq<u8>, pub fds: Seq<int>, pub lost: bool }
pub struct Msg { pub data: Seq<u8>, pub fds: Seq<int>, pub lost: bool }
/// the messages completed so far, and the beginning of the next one
pub struct Wire { pub msgs: Seq<Msg>, pub data: Seq<u8>, pub fds: Seq<int>, pub lost: bool }
pub open spec fn wire0() -> Wire { Wire { msgs: seq![], data: seq![], fds: seq![], lost: false } }
pub open spec fn wire_step(w: Wire, p: Packet) -> Wire {
    if p.data.len() == 0 { w } else {
        let d = w.data + p.data.skip(1); let f = w.fds + p.fds; let l = w.lost || p.lost;
        if p.data[0] == 1 { Wire { msgs: w.msgs.push(Msg { data: d, fds: f, lost: l }), ..wire0() } } else { Wire { msgs: w.msgs, data: d, fds: f, lost: l } }
    }
}
#[verifier::opaque]
pub open spec fn wire(ps: Seq<Packet>) -> Wire
    decreases ps.len()
{
    if ps.len() == 0 { wire0() } else { wire_step(wire(ps.drop_last()), ps.last()) }
}
pub proof fn wire_nil(ps: Seq<Packet>) requires ps.len() == 0 ensures wire(ps) == wire0() { reveal(wire); }
pub broadcast proof fn wire_push(ps: Seq<Packet>, p: Packet) ensures #[trigger] wire(ps.push(p)) == wire_step(wire(ps), p)
{ reveal(wire); assert(ps.push(p).drop_last() =~= ps); }
pub proof fn wire_take(ps: Seq<Packet>, i: int) requires 0 <= i < ps.len() ensures wire(ps.take(i + 1)) == wire_step(wire(ps.take(i)), ps[i])
{ assert(ps.take(i + 1) =~= ps.take(i).push(ps[i])); wire_push(ps.take(i), ps[i]); }
pub open spec fn bound(w: Wire) -> bool { w.data.len() == 0 && w.fds.len() == 0 && !w.lost }

/// a message of this type: decoding succeeds and uses all of it
pub open spec fn whole(ty: Ty, data: Seq<u8>, fds: Seq<int>, sid: int) -> bool {
    de(ty, de0(data, fds, sid)) matches Some((_, e)) && e.pos == data.len() && e.hpos == fds.len()
}
#[verifier::opaque]
pub open spec fn good(ty: Ty, data: Seq<u8>, fds: Seq<int>) -> bool { forall|sid: int| #[trigger] whole(ty, data, fds, sid) }
pub open spec fn prefix<A>(a: Seq<A>, b: Seq<A>) -> bool { a.len() <= b.len() && a == b.take(a.len() as int) }
/// the unfinished message is the beginning of one of this type
#[verifier::opaque]
pub open spec fn begun(ty: Ty, data: Seq<u8>, fds: Seq<int>) -> bool {
    (data.len() == 0 && fds.len() == 0) || exists|d: Seq<u8>, f: Seq<int>| #[trigger] good(ty, d, f) && prefix(data, d) && prefix(fds, f)
}
pub open spec fn packet_ok(p: Packet) -> bool {
    1 <= p.data.len() <= MAX_PACKET_SIZE && p.fds.len() <= MAX_PACKET_FDS && (p.data[0] != 1 ==> p.data.len() + p.fds.len() > 1)
}
/// the packets of a channel that carries values of type ty
#[verifier::opaque]
pub open spec fn chan_ok(ty: Ty, ps: Seq<Packet>) -> bool {
    &&& forall|i: int| 0 <= i < ps.len() ==> packet_ok(#[trigger] ps[i])
    &&& forall|i: int| 0 <= i <= ps.len() ==> begun(ty, (#[trigger] wire(ps.take(i))).data, wire(ps.take(i)).fds)
    &&& forall|i: int| 0 <= i < wire(ps).msgs.len() ==> good(ty, (#[trigger] wire(ps).msgs[i]).data, wire(ps).msgs[i].fds)
}
pub proof fn chan_msgs_mono(ps: Seq<Packet>, i: int, j: int)
    requires 0 <= i <= j <= ps.len()
    ensures prefix(wire(ps.take(i)).msgs, wire(ps.take(j)).msgs)
    decreases j - i
{
    if i < j { chan_msgs_mono(ps, i, j - 1); wire_take(ps, j - 1); 
        let a = wire(ps.take(i)).msgs; let b = wire(ps.take(j - 1)).msgs; let c = wire(ps.take(j)).msgs;
        assert(a =~= c.take(a.len() as int)); }
    else { let a = wire(ps.take(i)).msgs; assert(a =~= a.take(a.len() as int)); }
}
/// a packet that continues (or completes) a message of the type keeps the channel well formed
pub proof fn chan_push(ty: Ty, ps: Seq<Packet>, p: Packet, d: Seq<u8>, f: Seq<int>)
    requires chan_ok(ty, ps), packet_ok(p), good(ty, d, f),
        prefix(wire(ps).data + p.data.skip(1), d), prefix(wire(ps).fds + p.fds, f),
        p.data[0] == 1 ==> wire(ps).data + p.data.skip(1) == d && wire(ps).fds + p.fds == f,
    ensures chan_ok(ty, ps.push(p))
{
    reveal(chan_ok); reveal(begun);
    let q = ps.push(p);
    wire_push(ps, p);
    assert forall|i: int| 0 <= i < q.len() implies packet_ok(#[trigger] q[i]) by { if i < ps.len() { assert(q[i] == ps[i]); } }
    assert forall|i: int| 0 <= i <= q.len() implies begun(ty, (#[trigger] wire(q.take(i))).data, wire(q.take(i)).fds) by {
        if i <= ps.len() { assert(q.take(i) =~= ps.take(i)); }
        else {
            assert(q.take(i) =~= q);
            if p.data[0] != 1 { assert(good(ty, d, f) && prefix(wire(q).data, d) && prefix(wire(q).fds, f)); }
        }
    }
    assert forall|i: int| 0 <= i < wire(q).msgs.len() implies good(ty, (#[trigger] wire(q).msgs[i]).data, wire(q).msgs[i].fds) by {
        if i < wire(ps).msgs.len() { assert(wire(q).msgs[i] == wire(ps).msgs[i]); }
    }
}
/// a receiver that is in the middle of a well-formed channel: nothing it can see is too long for it
pub proof fn chan_next(ty: Ty, ps: Seq<Packet>, i: int)
    requires chan_ok(ty, ps), 0 <= i < ps.len()
    ensures packet_ok(ps[i]), wire(ps.take(i + 1)) == wire_step(wire(ps.take(i)), ps[i]),
        ps[i].data[0] == 1 ==> good(ty, wire(ps.take(i)).data + ps[i].data.skip(1), wire(ps.take(i)).fds + ps[i].fds),
        ps[i].data[0] != 1 ==> begun(ty, wire(ps.take(i)).data + ps[i].data.skip(1), wire(ps.take(i)).fds + ps[i].fds),
{
    reveal(chan_ok);
    wire_take(ps, i);
    assert(begun(ty, wire(ps.take(i + 1)).data, wire(ps.take(i + 1)).fds));
    assert(ps.take(ps.len() as int) =~= ps);
    chan_msgs_mono(ps, i + 1, ps.len() as int);
    if ps[i].data[0] == 1 {
        let a = wire(ps.take(i + 1)).msgs;
        assert(wire(ps).msgs[a.len() - 1] == a.last());
    }
}
pub proof fn good_pod(id: int, n: nat, data: Seq<u8>, fds: Seq<int>)
    requires good(Ty::Pod(id, n), data, fds)
    ensures data.len() == n, valid_pod(id, data), fds.len() == 0
{
    broadcast use group_de;
    reveal(good);
    assert(whole(Ty::Pod(id, n), data, fds, 0));
    assert(data.subrange(0, n as int) =~= data);
}
/// what a value of the type is sent as is a message of the type
pub proof fn lemma_good(ty: Ty, v: Val, h: Heap)
    requires wt(ty, v, h), ser(ty, v, ser0()).n <= usize::MAX
    ensures good(ty, ser(ty, v, ser0()).data, ser(ty, v, ser0()).hs)
{
    reveal(good);
    let s = ser(ty, v, ser0());
    assert forall|sid: int| #[trigger] whole(ty, s.data, s.hs, sid) by {
        let d = de0(s.data, s.hs, sid);
        assert(d.data.subrange(0, s.data.len() as int) =~= s.data);
        assert(d.hs.subrange(0, s.hs.len() as int) =~= s.hs);
        lemma_rt(ty, v, ser0(), d, h, size(v));
    }
}
pub proof fn begun_pod(id: int, n: nat, data: Seq<u8>, fds: Seq<int>)
    requires begun(Ty::Pod(id, n), data, fds)
    ensures data.len() <= n
{
    reveal(begun);
    if data.len() > 0 || fds.len() > 0 {
        let (d, f) = choose|d: Seq<u8>, f: Seq<int>| #[trigger] good(Ty::Pod(id, n), d, f) && prefix(data, d) && prefix(fds, f);
        good_pod(id, n, d, f);
    }
}
pub proof fn good_at(ty: Ty, data: Seq<u8>, fds: Seq<int>, sid: int)
    requires good(ty, data, fds)
    ensures de(ty, de0(data, fds, sid)) is Some
{ reveal(good); assert(whole(ty, data, fds, sid)); }
/// the message that packet r completes
pub open spec fn completed(w: Wire, p: Packet) -> Msg { Msg { data: w.data + p.data.skip(1), fds: w.fds + p.fds, lost: w.lost || p.lost } }
