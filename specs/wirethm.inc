// ------------------------------------------------------------------------------------------------
// The channel properties, from the contracts of send_next and recv_next
// ------------------------------------------------------------------------------------------------
/// what arrives is the beginning of what was sent (the system may drop handles, and says so)
pub open spec fn delivered(out: Seq<Packet>, q: Seq<Packet>) -> bool {
    q.len() <= out.len() && forall|j: int| 0 <= j < q.len() ==> (#[trigger] q[j]).data == out[j].data && q[j].fds == out[j].fds
}
pub open spec fn same_but_lost(a: Wire, b: Wire) -> bool {
    a.data == b.data && a.fds == b.fds && a.msgs.len() == b.msgs.len() && forall|k: int| 0 <= k < a.msgs.len() ==> (#[trigger] a.msgs[k]).data == b.msgs[k].data && a.msgs[k].fds == b.msgs[k].fds
}
pub proof fn wire_delivered(out: Seq<Packet>, q: Seq<Packet>, i: int)
    requires delivered(out, q), 0 <= i <= q.len()
    ensures same_but_lost(wire(q.take(i)), wire(out.take(i)))
    decreases i
{
    if i == 0 { wire_nil(q.take(0)); wire_nil(out.take(0)); }
    else {
        wire_delivered(out, q, i - 1); wire_take(q, i - 1); wire_take(out, i - 1);
        assert(q[i - 1].data == out[i - 1].data);
    }
}
/// C05: the messages taken so far are the first messages sent, in order, with their handles
pub proof fn c05_delivery(out: Seq<Packet>, q: Seq<Packet>, i: int, k: int)
    requires delivered(out, q), 0 <= i <= q.len(), 0 <= k < wire(q.take(i)).msgs.len()
    ensures k < wire(out).msgs.len(), wire(q.take(i)).msgs[k].data == wire(out).msgs[k].data, wire(q.take(i)).msgs[k].fds == wire(out).msgs[k].fds
{
    wire_delivered(out, q, i);
    chan_msgs_mono(out, i, out.len() as int);
    assert(out.take(out.len() as int) =~= out);
    let a = wire(out.take(i)).msgs; let b = wire(out).msgs;
    assert(a[k] == b.take(a.len() as int)[k]);
}
/// C05, C04: each received value is the one that was sent in its place, handles included
pub proof fn c05_values(ty: Ty, v: Val, h: Heap, m: Msg, sid: int)
    requires wt(ty, v, h), ser(ty, v, ser0()).n <= usize::MAX, m.data == ser(ty, v, ser0()).data, m.fds == ser(ty, v, ser0()).hs
    ensures de(ty, de0(m.data, m.fds, sid)) is Some, iso(v, rv(de(ty, de0(m.data, m.fds, sid))), ser(ty, v, ser0()).cyc, sid), whole(ty, m.data, m.fds, sid)
{
    let d = de0(m.data, m.fds, sid);
    assert(d.data.subrange(0, m.data.len() as int) =~= m.data);
    assert(d.hs.subrange(0, m.fds.len() as int) =~= m.fds);
    lemma_rt(ty, v, ser0(), d, h, size(v));
}
/// what a receiver needs to know of its channel holds of every channel into which values of its type are sent
pub proof fn c05_chan_start(ty: Ty) ensures chan_ok(ty, seq![])
{
    reveal(chan_ok); reveal(begun); wire_nil(seq![]);
    assert forall|i: int| 0 <= i <= 0 implies begun(ty, (#[trigger] wire(Seq::<Packet>::empty().take(i))).data, wire(Seq::<Packet>::empty().take(i)).fds) by { wire_nil(Seq::<Packet>::empty().take(i)); }
}
pub proof fn c05_chan_delivered(ty: Ty, out: Seq<Packet>, q: Seq<Packet>)
    requires chan_ok(ty, out), delivered(out, q)
    ensures chan_ok(ty, q)
{
    reveal(chan_ok);
    assert forall|i: int| 0 <= i < q.len() implies packet_ok(#[trigger] q[i]) by { assert(packet_ok(out[i])); }
    assert forall|i: int| 0 <= i <= q.len() implies begun(ty, (#[trigger] wire(q.take(i))).data, wire(q.take(i)).fds) by {
        wire_delivered(out, q, i); assert(begun(ty, wire(out.take(i)).data, wire(out.take(i)).fds));
    }
    assert(q.take(q.len() as int) =~= q);
    assert forall|i: int| 0 <= i < wire(q).msgs.len() implies good(ty, (#[trigger] wire(q).msgs[i]).data, wire(q).msgs[i].fds) by {
        c05_delivery(out, q, q.len() as int, i); let m = wire(out).msgs[i];
    }
}
/// C07: a peer that sent whole messages leaves a bound channel; one that vanished inside a message does not
pub proof fn c07_cut(ty: Ty, out: Seq<Packet>, n: int)
    requires chan_ok(ty, out), 0 <= n <= out.len(), forall|j: int| 0 <= j < out.len() ==> !(#[trigger] out[j]).lost
    ensures n > 0 && out[n - 1].data[0] == 1 ==> bound(wire(out.take(n))), n > 0 && out[n - 1].data[0] != 1 ==> !bound(wire(out.take(n))), n == 0 ==> bound(wire(out.take(n)))
{
    if n == 0 { wire_nil(out.take(0)); } else { chan_next(ty, out, n - 1); }
}
