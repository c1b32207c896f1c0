// ------------------------------------------------------------------------------------------------
// The properties of whole channels, from the contracts of send, recv and request
// ------------------------------------------------------------------------------------------------
/// C15: if n messages were sent and n were taken before, a request sends message n and returns what message n of the peer says
pub proof fn c15_pairing<R: Object>(a: World, b: World, s: int, data: Seq<u8>, fds: Seq<int>, x: R, n: nat)
    requires request_ok::<R>(a, b, s, data, fds, Ok(x)), listening(a, s), wire(a.os@.sent(s)).msgs.len() == n, wire(a.os@.seen(s)).msgs.len() == n
    ensures
        wire(b.os@.sent(s)).msgs == wire(a.os@.sent(s)).msgs.push(Msg { data, fds, lost: false }),
        wire(b.os@.seen(s)).msgs.len() == n + 1, n < wire(inq(s)).msgs.len(), listening(b, s), idle(b, s), b.os@.fails == a.os@.fails,
        exists|sid: int| rv(de(R::ty(), #[trigger] de0(wire(inq(s)).msgs[n as int].data, wire(inq(s)).msgs[n as int].fds, sid))) == x.repr(),
{
    let w = choose|w: World| #[trigger] send_ok(a, w, s, data, fds, Ok(())) && recv_ok::<R>(w, b, s, Ok(Some(x)));
    let m = choose|m: Msg| #[trigger] took(w.os@, b.os@, s, m) && !m.lost && exists|sid: int| rv(de(R::ty(), #[trigger] de0(m.data, m.fds, sid))) == x.repr();
    assert(b.os@.out == w.os@.out);
    let q = inq(s); let r = b.os@.rpos[s];
    chan_msgs_mono(q, r, q.len() as int);
    assert(q.take(q.len() as int) =~= q);
    let t = wire(q.take(r)).msgs;
    assert(t == wire(a.os@.seen(s)).msgs.push(m));
    assert(t[n as int] == m);
    assert(wire(q).msgs.take(t.len() as int)[n as int] == wire(q).msgs[n as int]);
}
/// C15: sending never changes what there is to receive, receiving never changes what was sent
pub proof fn c15_directions<R: Object>(a: World, b: World, c: World, s: int, data: Seq<u8>, fds: Seq<int>, r: Result<()>, t: Result<Option<R>>)
    requires send_ok(a, b, s, data, fds, r), recv_ok::<R>(b, c, s, t)
    ensures b.os@.seen(s) == a.os@.seen(s), listening(a, s) ==> listening(b, s), c.os@.sent(s) == b.os@.sent(s), idle(b, s) ==> idle(c, s),
        forall|o: int| o != s && a.os@.out.dom().contains(o) ==> #[trigger] b.os@.out[o] == a.os@.out[o]
{
    assert forall|o: int| o != s && a.os@.out.dom().contains(o) implies #[trigger] b.os@.out[o] == a.os@.out[o] by {
        assert(a.os@.out.remove(s)[o] == a.os@.out[o]); assert(b.os@.out.remove(s)[o] == b.os@.out[o]);
    }
}
/// C15: the peer closed before answering: end of stream is an error
pub proof fn c15_closed<R: Object>(a: World, b: World, s: int, data: Seq<u8>, fds: Seq<int>, r: Result<R>)
    requires request_ok::<R>(a, b, s, data, fds, r), listening(a, s), a.os@.rpos[s] == inq(s).len()
    ensures r is Err
{
    if r is Ok {
        let x = r->Ok_0;
        let w = choose|w: World| #[trigger] send_ok(a, w, s, data, fds, Ok(())) && recv_ok::<R>(w, b, s, Ok(Some(x)));
        let m = choose|m: Msg| #[trigger] took(w.os@, b.os@, s, m);
        let q = inq(s);
        chan_msgs_mono(q, b.os@.rpos[s], q.len() as int);
        assert(q.take(q.len() as int) =~= q);
    }
}
/// both ends of a new channel can be used at once
pub proof fn c15_fresh(a: World, b: World, x: int, y: int)
    requires paired(a, b, x, y)
    ensures idle(b, x), idle(b, y), listening(b, x), listening(b, y), forall|ty: Ty| #[trigger] chan_ok(ty, b.os@.sent(x)), forall|ty: Ty| #[trigger] chan_ok(ty, b.os@.sent(y))
{
    assert(b.os@.sent(x) =~= seq![]); assert(b.os@.sent(y) =~= seq![]); assert(b.os@.seen(x) =~= seq![]); assert(b.os@.seen(y) =~= seq![]);
    wire_nil(seq![]);
    assert forall|ty: Ty| #[trigger] chan_ok(ty, b.os@.sent(x)) by { c05_chan_start(ty); }
    assert forall|ty: Ty| #[trigger] chan_ok(ty, b.os@.sent(y)) by { c05_chan_start(ty); }
}
