// ------------------------------------------------------------------------------------------------
// de is the inverse of ser, up to the names of shared allocations (lemma_rt).
// ------------------------------------------------------------------------------------------------
pub type Heap = IMap<AllocId, (Ty, Val)>;

pub open spec fn wt(ty: Ty, v: Val, h: Heap) -> bool
    decreases ty
{
    match ty {
        Ty::Pod(id, n) => v is Pod && v->Pod_0.len() == n && valid_pod(id, v->Pod_0),
        Ty::Handle => v is Handle,
        Ty::Nil => v is Nil,
        Ty::Cons(a, b) => v is Cons && wt(*a, *v->Cons_0, h) && wt(*b, *v->Cons_1, h),
        Ty::Sum(bt, ts) => v is Alt && v->Alt_0 < ts.len() <= usize::MAX && (bt ==> ts.len() == 2) && wt(ts[v->Alt_0 as int], *v->Alt_1, h),
        Ty::Rep(n, t) => v is List && v->List_0.len() == n && forall|i: int| 0 <= i < v->List_0.len() ==> wt(*t, #[trigger] v->List_0[i], h),
        Ty::List(t) => v is List && v->List_0.len() <= usize::MAX && forall|i: int| 0 <= i < v->List_0.len() ==> wt(*t, #[trigger] v->List_0[i], h),
        Ty::Shared(_, t) => v is Shared && h.contains_key(v->Shared_0) && h[v->Shared_0] == (ty, *v->Shared_1) && wt(*t, *v->Shared_1, h),
    }
}

pub open spec fn size(v: Val) -> nat
    decreases v, 0nat
{
    match v {
        Val::Cons(x, y) => 1 + size(*x) + size(*y),
        Val::Alt(_, x) => 1 + size(*x),
        Val::List(vs) => 1 + size_seq(vs),
        Val::Shared(_, x) => 1 + size(*x),
        _ => 1,
    }
}
pub open spec fn size_seq(vs: Seq<Val>) -> nat
    decreases vs, vs.len()
{
    if vs.len() == 0 { 0 } else { size(vs[0]) + size_seq(vs.drop_first()) }
}

/// r is v with every shared allocation a renamed to the allocation made for number m[a]
pub open spec fn iso(v: Val, r: Val, m: IMap<AllocId, int>, sid: int) -> bool
    decreases v
{
    match (v, r) {
        (Val::Pod(a), Val::Pod(b)) => a == b,
        (Val::Handle(a), Val::Handle(b)) => a == b,
        (Val::Nil, Val::Nil) => true,
        (Val::Cons(x, y), Val::Cons(p, q)) => iso(*x, *p, m, sid) && iso(*y, *q, m, sid),
        (Val::Alt(k, x), Val::Alt(l, y)) => k == l && iso(*x, *y, m, sid),
        (Val::List(xs), Val::List(ys)) => xs.len() == ys.len() && forall|i: int| 0 <= i < xs.len() ==> iso(#[trigger] xs[i], ys[i], m, sid),
        (Val::Shared(a, x), Val::Shared(b, y)) => m.contains_key(a) && b == alloc_name(sid, m[a]) && iso(*x, *y, m, sid),
        _ => false,
    }
}
pub open spec fn isos(xs: Seq<Val>, ys: Seq<Val>, m: IMap<AllocId, int>, sid: int) -> bool {
    xs.len() == ys.len() && forall|i: int| 0 <= i < xs.len() ==> iso(#[trigger] xs[i], ys[i], m, sid)
}
pub open spec fn sub(m: IMap<AllocId, int>, m2: IMap<AllocId, int>) -> bool {
    forall|a: AllocId| #[trigger] m.contains_key(a) ==> m2.contains_key(a) && m2[a] == m[a]
}
pub proof fn lemma_iso_mono(v: Val, r: Val, m: IMap<AllocId, int>, m2: IMap<AllocId, int>, sid: int)
    requires iso(v, r, m, sid), sub(m, m2)
    ensures iso(v, r, m2, sid)
    decreases v
{
    match (v, r) {
        (Val::Cons(x, y), Val::Cons(p, q)) => { lemma_iso_mono(*x, *p, m, m2, sid); lemma_iso_mono(*y, *q, m, m2, sid); }
        (Val::Alt(k, x), Val::Alt(l, y)) => { lemma_iso_mono(*x, *y, m, m2, sid); }
        (Val::List(xs), Val::List(ys)) => {
            assert forall|i: int| 0 <= i < xs.len() implies iso(#[trigger] xs[i], ys[i], m2, sid) by { lemma_iso_mono(xs[i], ys[i], m, m2, sid); }
        }
        (Val::Shared(a, x), Val::Shared(b, y)) => { lemma_iso_mono(*x, *y, m, m2, sid); }
        _ => {}
    }
}

pub open spec fn pre<A>(a: Seq<A>, b: Seq<A>) -> bool { a.len() <= b.len() && b.subrange(0, a.len() as int) == a }
pub proof fn lemma_pre_trans<A>(a: Seq<A>, b: Seq<A>, c: Seq<A>)
    requires pre(a, b), pre(b, c) ensures pre(a, c)
{ assert(c.subrange(0, a.len() as int) =~= c.subrange(0, b.len() as int).subrange(0, a.len() as int)); }

/// what one serialization step may change
pub open spec fn grows(s: SerSt, t: SerSt) -> bool {
    &&& pre(s.data, t.data) && pre(s.hs, t.hs) && s.n <= t.n && sub(s.cyc, t.cyc)
    &&& forall|a: AllocId| #[trigger] t.cyc.contains_key(a) && !s.cyc.contains_key(a) ==> s.n < t.cyc[a] <= t.n
}
pub proof fn lemma_grows_trans(a: SerSt, b: SerSt, c: SerSt)
    requires grows(a, b), grows(b, c) ensures grows(a, c)
{ lemma_pre_trans(a.data, b.data, c.data); lemma_pre_trans(a.hs, b.hs, c.hs); }
pub proof fn lemma_put(s: SerSt, b: Seq<u8>) ensures grows(s, s.put(b))
{ assert((s.data + b).subrange(0, s.data.len() as int) =~= s.data); assert(s.hs.subrange(0, s.hs.len() as int) =~= s.hs); }
pub proof fn lemma_push(s: SerSt, h: int) ensures grows(s, s.push(h))
{ assert(s.data.subrange(0, s.data.len() as int) =~= s.data); assert(s.hs.push(h).subrange(0, s.hs.len() as int) =~= s.hs); }
pub proof fn lemma_grows_refl(s: SerSt) ensures grows(s, s)
{ assert(s.data.subrange(0, s.data.len() as int) =~= s.data); assert(s.hs.subrange(0, s.hs.len() as int) =~= s.hs); }

pub proof fn lemma_ser_grows(ty: Ty, v: Val, s: SerSt)
    ensures grows(s, ser(ty, v, s))
    decreases ty, 0nat
{
    reveal(ser); reveal(ser_rep);
    lemma_grows_refl(s);
    match (ty, v) {
        (Ty::Pod(..), Val::Pod(b)) => { lemma_put(s, b); }
        (Ty::Handle, Val::Handle(h)) => { lemma_push(s, h); }
        (Ty::Cons(a, b), Val::Cons(x, y)) => {
            lemma_ser_grows(*a, *x, s);
            lemma_ser_grows(*b, *y, ser(*a, *x, s));
            lemma_grows_trans(s, ser(*a, *x, s), ser(*b, *y, ser(*a, *x, s)));
        }
        (Ty::Sum(bt, ts), Val::Alt(k, x)) => if k < ts.len() {
            let s1 = s.put(tag_bytes(bt, k));
            lemma_put(s, tag_bytes(bt, k)); lemma_ser_grows(ts[k as int], *x, s1); lemma_grows_trans(s, s1, ser(ts[k as int], *x, s1));
        },
        (Ty::Rep(_, t), Val::List(vs)) => { lemma_rep_grows(*t, vs, s); }
        (Ty::List(t), Val::List(vs)) => {
            let s1 = s.put(word_bytes(vs.len() as int));
            lemma_put(s, word_bytes(vs.len() as int)); lemma_rep_grows(*t, vs, s1); lemma_grows_trans(s, s1, ser_rep(*t, vs, s1));
        }
        (Ty::Shared(_, t), Val::Shared(a, x)) => if s.cyc.contains_key(a) { lemma_put(s, word_bytes(s.cyc[a])); } else {
            let s0 = s.learn(a);
            assert(grows(s, s0));
            let s1 = s0.put(word_bytes(0));
            lemma_put(s0, word_bytes(0)); lemma_grows_trans(s, s0, s1);
            lemma_ser_grows(*t, *x, s1); lemma_grows_trans(s, s1, ser(*t, *x, s1));
        },
        _ => {}
    }
}
pub proof fn lemma_rep_grows(t: Ty, vs: Seq<Val>, s: SerSt)
    ensures grows(s, ser_rep(t, vs, s))
    decreases t, vs.len() + 1
{
    reveal(ser); reveal(ser_rep);
    lemma_grows_refl(s);
    if vs.len() > 0 {
        let s1 = ser(t, vs[0], s);
        lemma_ser_grows(t, vs[0], s);
        lemma_rep_grows(t, vs.drop_first(), s1);
        lemma_grows_trans(s, s1, ser_rep(t, vs.drop_first(), s1));
    }
}

/// the decoder stands where the encoder stands.  b bounds the size of what may still refer to an
/// allocation whose contents are being built.
pub open spec fn inv(s: SerSt, d: DeSt, h: Heap, b: nat) -> bool {
    &&& d.pos == s.data.len() && d.hpos == s.hs.len() && d.cyc.len() == s.n
    &&& forall|a: AllocId| #[trigger] s.cyc.contains_key(a) ==> h.contains_key(a) && 1 <= s.cyc[a] <= s.n
            && (match d.cyc[s.cyc[a] - 1] { None => size(h[a].1) >= b, Some((i, y)) => h[a].0 is Shared && i == h[a].0->Shared_0 && iso(h[a].1, y, s.cyc, d.sid) })
    &&& forall|a: AllocId, c: AllocId| #[trigger] s.cyc.contains_key(a) && #[trigger] s.cyc.contains_key(c) && s.cyc[a] == s.cyc[c] ==> a == c
}
/// the decoder only advances, and leaves older entries of the table alone
pub open spec fn de_frame(d: DeSt, e: DeSt) -> bool {
    &&& e.data == d.data && e.hs == d.hs && e.sid == d.sid
    &&& d.cyc.len() <= e.cyc.len()
    &&& forall|k: int| 0 <= k < d.cyc.len() ==> #[trigger] e.cyc[k] == d.cyc[k]
}

pub proof fn lemma_inv_put(s: SerSt, d: DeSt, h: Heap, b: nat, n: nat, bytes: Seq<u8>)
    requires inv(s, d, h, b), bytes.len() == n
    ensures inv(s.put(bytes), d.adv(n), h, b)
{}
pub proof fn lemma_peek(s: SerSt, d: DeSt, bytes: Seq<u8>, t: SerSt)
    requires d.pos == s.data.len(), grows(s.put(bytes), t), pre(t.data, d.data)
    ensures d.can(bytes.len()), d.peek(bytes.len()) == bytes
{
    let m = s.data + bytes;
    lemma_pre_trans(m, t.data, d.data);
    assert(d.peek(bytes.len()) =~= d.data.subrange(0, m.len() as int).subrange(s.data.len() as int, m.len() as int));
    assert(m.subrange(s.data.len() as int, m.len() as int) =~= bytes);
}
pub proof fn lemma_inv_smaller(s: SerSt, d: DeSt, h: Heap, b: nat, c: nat)
    requires inv(s, d, h, b), c <= b ensures inv(s, d, h, c)
{}

pub proof fn lemma_rt(ty: Ty, v: Val, s: SerSt, d: DeSt, h: Heap, b: nat)
    requires
        wt(ty, v, h), inv(s, d, h, b), b >= size(v),
        pre(ser(ty, v, s).data, d.data), pre(ser(ty, v, s).hs, d.hs), ser(ty, v, s).n <= usize::MAX,
    ensures
        de(ty, d) is Some,
        inv(ser(ty, v, s), rd(de(ty, d)), h, b),
        de_frame(d, rd(de(ty, d))),
        iso(v, rv(de(ty, d)), ser(ty, v, s).cyc, d.sid),
    decreases ty, 0nat
{
    reveal(ser); reveal(de); reveal(ser_rep); reveal(de_rep);
    broadcast use ax_word_len, ax_bool_len;
    ax_bool_inj();
    let t = ser(ty, v, s);
    lemma_ser_grows(ty, v, s);
    match ty {
        Ty::Pod(_, n) => { let bs = v->Pod_0; lemma_grows_refl(t); lemma_peek(s, d, bs, t); }
        Ty::Handle => {
            let hh = v->Handle_0;
            assert(d.hs.subrange(0, t.hs.len() as int)[s.hs.len() as int] == hh);
        }
        Ty::Nil => {}
        Ty::Cons(ta, tb) => {
            let x = *v->Cons_0; let y = *v->Cons_1;
            let s1 = ser(*ta, x, s);
            lemma_ser_grows(*ta, x, s);
            lemma_ser_grows(*tb, y, s1);
            lemma_pre_trans(s1.data, t.data, d.data); lemma_pre_trans(s1.hs, t.hs, d.hs);
            lemma_rt(*ta, x, s, d, h, b);
            let (rx, d1) = de(*ta, d)->0;
            lemma_rt(*tb, y, s1, d1, h, b);
            lemma_iso_mono(x, rx, s1.cyc, t.cyc, d.sid);
        }
        Ty::Sum(bt, ts) => {
            let k = v->Alt_0; let x = *v->Alt_1;
            let tag = tag_bytes(bt, k);
            let s1 = s.put(tag);
            lemma_ser_grows(ts[k as int], x, s1);
            lemma_peek(s, d, tag, t);
            lemma_inv_put(s, d, h, b, tag.len(), tag);
            if !bt { de_word_is(d, k as int); }
            assert(de_tag(bt, d) == Some(k as int));
            lemma_rt(ts[k as int], x, s1, d.adv(tag.len()), h, b);
        }
        Ty::Rep(n, e) => { lemma_rt_rep(*e, v->List_0, s, d, h, b); }
        Ty::List(e) => {
            let vs = v->List_0;
            let tag = word_bytes(vs.len() as int);
            let s1 = s.put(tag);
            lemma_rep_grows(*e, vs, s1);
            lemma_peek(s, d, tag, t);
            lemma_inv_put(s, d, h, b, tag.len(), tag);
            de_word_is(d, vs.len() as int);
            lemma_rt_rep(*e, vs, s1, d.adv(tag.len()), h, b);
        }
        Ty::Shared(id, e) => {
            let a = v->Shared_0; let x = *v->Shared_1;
            if s.cyc.contains_key(a) {
                let num = s.cyc[a];
                let tag = word_bytes(num);
                lemma_grows_refl(t);
                lemma_peek(s, d, tag, t);
                de_word_is(d, num);
                lemma_inv_put(s, d, h, b, tag.len(), tag);
                assert(d.cyc[num - 1] is Some);
            } else {
                let tag = word_bytes(0);
                let s0 = s.learn(a);
                let s1 = s0.put(tag);
                lemma_ser_grows(*e, x, s1);
                assert(s0.data == s.data);
                assert(grows(s.put(tag), s1)) by { lemma_grows_refl(s.put(tag)); }
                lemma_grows_trans(s.put(tag), s1, t);
                lemma_peek(s, d, tag, t);
                de_word_is(d, 0);
                let d0 = d.adv(WORD()).reserve();
                assert(inv(s1, d0, h, size(x))) by {
                    assert forall|c: AllocId| #[trigger] s1.cyc.contains_key(c) implies h.contains_key(c) && 1 <= s1.cyc[c] <= s1.n
                        && (match d0.cyc[s1.cyc[c] - 1] { None => size(h[c].1) >= size(x), Some((i, y)) => h[c].0 is Shared && i == h[c].0->Shared_0 && iso(h[c].1, y, s1.cyc, d.sid) }) by {
                        if c != a {
                            assert(s.cyc.contains_key(c));
                            assert(d0.cyc[s.cyc[c] - 1] == d.cyc[s.cyc[c] - 1]);
                            if let Some((_, y)) = d.cyc[s.cyc[c] - 1] { lemma_iso_mono(h[c].1, y, s.cyc, s1.cyc, d.sid); }
                        }
                    }
                }
                lemma_rt(*e, x, s1, d0, h, size(x));
                let (rx, d1) = de(*e, d0)->0;
                let i = d.cyc.len() as int;
                let d2 = d1.fill(i, id, rx);
                assert(d0.cyc[i] is None);
                assert(d1.cyc.len() > i);
                assert(s1.cyc.contains_key(a) && s1.cyc[a] == i + 1);
                assert(t.cyc.contains_key(a) && t.cyc[a] == i + 1);
                assert(inv(t, d2, h, b)) by {
                    assert forall|c: AllocId| #[trigger] t.cyc.contains_key(c) implies h.contains_key(c) && 1 <= t.cyc[c] <= t.n
                        && (match d2.cyc[t.cyc[c] - 1] { None => size(h[c].1) >= b, Some((i, y)) => h[c].0 is Shared && i == h[c].0->Shared_0 && iso(h[c].1, y, t.cyc, d.sid) }) by {
                        if c != a {
                            assert(t.cyc[c] != t.cyc[a]);
                            assert(d2.cyc[t.cyc[c] - 1] == d1.cyc[t.cyc[c] - 1]);
                            if s.cyc.contains_key(c) {
                                assert(t.cyc[c] == s.cyc[c]);
                                assert(d1.cyc[t.cyc[c] - 1] == d0.cyc[t.cyc[c] - 1]);
                                assert(d0.cyc[t.cyc[c] - 1] == d.cyc[t.cyc[c] - 1]);
                            } else {
                                assert(!s1.cyc.contains_key(c));
                                assert(t.cyc[c] > s1.n);
                                lemma_filled(*e, d0, t.cyc[c] - 1);
                            }
                        }
                    }
                }
                assert forall|k: int| 0 <= k < d.cyc.len() implies #[trigger] d2.cyc[k] == d.cyc[k] by {
                    assert(d1.cyc[k] == d0.cyc[k]);
                }
            }
        }
    }
}
pub proof fn lemma_rt_rep(t: Ty, vs: Seq<Val>, s: SerSt, d: DeSt, h: Heap, b: nat)
    requires
        forall|i: int| 0 <= i < vs.len() ==> wt(t, #[trigger] vs[i], h), inv(s, d, h, b), b >= size_seq(vs),
        pre(ser_rep(t, vs, s).data, d.data), pre(ser_rep(t, vs, s).hs, d.hs), ser_rep(t, vs, s).n <= usize::MAX,
    ensures
        de_rep(t, vs.len(), d) is Some,
        inv(ser_rep(t, vs, s), rd(de_rep(t, vs.len(), d)), h, b),
        de_frame(d, rd(de_rep(t, vs.len(), d))),
        isos(vs, rv(de_rep(t, vs.len(), d)), ser_rep(t, vs, s).cyc, d.sid),
    decreases t, vs.len() + 1
{
    reveal(ser); reveal(de); reveal(ser_rep); reveal(de_rep);
    if vs.len() > 0 {
        let s1 = ser(t, vs[0], s);
        let s2 = ser_rep(t, vs.drop_first(), s1);
        lemma_ser_grows(t, vs[0], s);
        lemma_rep_grows(t, vs.drop_first(), s1);
        lemma_pre_trans(s1.data, s2.data, d.data); lemma_pre_trans(s1.hs, s2.hs, d.hs);
        lemma_rt(t, vs[0], s, d, h, b);
        let (x, d1) = de(t, d)->0;
        assert forall|i: int| 0 <= i < vs.drop_first().len() implies wt(t, #[trigger] vs.drop_first()[i], h) by { assert(vs.drop_first()[i] == vs[i + 1]); }
        lemma_rt_rep(t, vs.drop_first(), s1, d1, h, b);
        let (xs, d2) = de_rep(t, (vs.len() - 1) as nat, d1)->0;
        lemma_iso_mono(vs[0], x, s1.cyc, s2.cyc, d.sid);
        let all = seq![x] + xs;
        assert forall|i: int| 0 <= i < vs.len() implies iso(#[trigger] vs[i], all[i], s2.cyc, d.sid) by {
            if i > 0 { assert(vs[i] == vs.drop_first()[i - 1]); assert(all[i] == xs[i - 1]); }
        }
    }
}
/// everything a decoding step adds to the table is complete when the step ends
pub proof fn lemma_filled(ty: Ty, d: DeSt, k: int)
    ensures de(ty, d) matches Some((_, e)) ==> d.cyc.len() <= e.cyc.len() && (d.cyc.len() <= k < e.cyc.len() ==> e.cyc[k] is Some)
    decreases ty, 0nat
{
    reveal(de); reveal(de_rep);
    match ty {
        Ty::Cons(a, b) => { lemma_filled(*a, d, k); if let Some((x, d1)) = de(*a, d) { lemma_filled(*b, d1, k); lemma_kept(*b, d1, k); } }
        Ty::Sum(bt, ts) => { if let Some(i) = de_tag(bt, d) { if 0 <= i < ts.len() { lemma_filled(ts[i], d.adv(tag_len(bt)), k); } } }
        Ty::Rep(n, t) => { lemma_filled_rep(*t, n, d, k); }
        Ty::List(t) => { if let Some(n) = de_word(d) { lemma_filled_rep(*t, n as nat, d.adv(WORD()), k); } }
        Ty::Shared(_, t) => { lemma_filled(*t, d.adv(WORD()).reserve(), k); }
        _ => {}
    }
}
pub proof fn lemma_filled_rep(ty: Ty, n: nat, d: DeSt, k: int)
    ensures de_rep(ty, n, d) matches Some((_, e)) ==> d.cyc.len() <= e.cyc.len() && (d.cyc.len() <= k < e.cyc.len() ==> e.cyc[k] is Some)
    decreases ty, n + 1
{
    reveal(de); reveal(de_rep);
    if n > 0 { lemma_filled(ty, d, k); if let Some((x, d1)) = de(ty, d) { lemma_filled_rep(ty, (n - 1) as nat, d1, k); lemma_kept_rep(ty, (n - 1) as nat, d1, k); } }
}
pub proof fn lemma_kept(ty: Ty, d: DeSt, k: int)
    ensures de(ty, d) matches Some((_, e)) ==> d.cyc.len() <= e.cyc.len() && e.sid == d.sid && e.data == d.data && e.hs == d.hs && (0 <= k < d.cyc.len() ==> e.cyc[k] == d.cyc[k])
    decreases ty, 0nat
{
    reveal(de); reveal(de_rep);
    match ty {
        Ty::Cons(a, b) => { lemma_kept(*a, d, k); if let Some((x, d1)) = de(*a, d) { lemma_kept(*b, d1, k); } }
        Ty::Sum(bt, ts) => { if let Some(i) = de_tag(bt, d) { if 0 <= i < ts.len() { lemma_kept(ts[i], d.adv(tag_len(bt)), k); } } }
        Ty::Rep(n, t) => { lemma_kept_rep(*t, n, d, k); }
        Ty::List(t) => { if let Some(n) = de_word(d) { lemma_kept_rep(*t, n as nat, d.adv(WORD()), k); } }
        Ty::Shared(_, t) => { lemma_kept(*t, d.adv(WORD()).reserve(), k); }
        _ => {}
    }
}
pub proof fn lemma_kept_rep(ty: Ty, n: nat, d: DeSt, k: int)
    ensures de_rep(ty, n, d) matches Some((_, e)) ==> d.cyc.len() <= e.cyc.len() && e.sid == d.sid && e.data == d.data && e.hs == d.hs && (0 <= k < d.cyc.len() ==> e.cyc[k] == d.cyc[k])
    decreases ty, n + 1
{
    reveal(de); reveal(de_rep);
    if n > 0 { lemma_kept(ty, d, k); if let Some((x, d1)) = de(ty, d) { lemma_kept_rep(ty, (n - 1) as nat, d1, k); } }
}

/// C03: in a decoded stream two shared pointers are the same allocation exactly when the originals were
pub proof fn lemma_sharing(s: SerSt, d: DeSt, h: Heap, b: nat, a: AllocId, c: AllocId)
    requires inv(s, d, h, b), s.cyc.contains_key(a), s.cyc.contains_key(c),
        forall|i: int, j: int| alloc_name(d.sid, i) == alloc_name(d.sid, j) ==> i == j,   // the allocations made by one decoder are distinct objects
    ensures alloc_name(d.sid, s.cyc[a]) == alloc_name(d.sid, s.cyc[c]) <==> a == c
{}
