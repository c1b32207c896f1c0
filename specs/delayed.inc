// ------------------------------------------------------------------------------------------------
// src/delayed.rs: the payload is a stream of its own, with its own handles
// ------------------------------------------------------------------------------------------------
#[verifier::external_body]
pub fn vx_documented_panic() -> ! ensures false { unimplemented!() }
pub open spec fn hvals(hs: Seq<int>) -> Seq<Val> { Seq::new(hs.len(), |i: int| Val::Handle(hs[i])) }
pub open spec fn delayed_ty() -> Ty { pair(list_of(Ty::Handle), pair(list_of(u8::ty()), Ty::Nil)) }
pub open spec fn delayed_val(data: Seq<u8>, hs: Seq<int>) -> Val { vpair(Val::List(hvals(hs)), vpair(u8s(data), Val::Nil)) }
//@type Delayed
//@end
//@type DelayedInner
//@end
impl<T: Object> Delayed<T> {
    /// what is, or would be, sent for it: the bytes and handles of the payload's own stream
    pub open spec fn payload(&self) -> (Seq<u8>, Seq<int>) {
        match self.inner {
            DelayedInner::Serialized(data, hs) => (data@, oids(hs@)),
            DelayedInner::Deserialized(x) => (ser(T::ty(), x.repr(), ser0()).data, ser(T::ty(), x.repr(), ser0()).hs),
        }
    }
}
/// the crate has no PlainOldData implementation for it (checked by the extractor only for types of std)
pub broadcast axiom fn is_pod_delayed<T: Object>() ensures !#[trigger] is_pod::<Delayed<T>>();
//@panics vx_documented_panic
//@impl Delayed<$0>
//@fn new
    ensures res.payload() == (ser(T::ty(), $arg0.repr(), ser0()).data, ser(T::ty(), $arg0.repr(), ser0()).hs), res.inner is Deserialized
//@fn deserialize
    requires forall|sid: int| de(T::ty(), #[trigger] de0(self.payload().0, self.payload().1, sid)) is Some
    ensures final(vx_w).outcome(*old(vx_w), res), self.inner is Serialized,
        res matches Ok(x) ==> exists|sid: int| rv(de(T::ty(), #[trigger] de0(self.payload().0, self.payload().1, sid))) == x.repr()
//@pre
    let ghost vx_p = self.payload();
    assert(self.inner matches DelayedInner::Serialized(data, hs) ==> vx_p == (data@, oids(hs@)));
    assert(forall|sid: int| de(T::ty(), #[trigger] de0(vx_p.0, vx_p.1, sid)) is Some);
//@end
//@impl NonTrivialObject@Delayed<$0>
//@members
    open spec fn nt_ty() -> Ty { delayed_ty() }
    open spec fn nt_repr(&self) -> Val { delayed_val(self.payload().0, self.payload().1) }
//@fn serialize_self_non_trivial
//@pre
    broadcast use group_ser, group_imgs, group_is_pod, group_flat, is_pod_delayed;
    proof { lemma_prims(); }
//@loop 0
    invariant
        self.inner is Deserialized, vx_it0.all() == vx_hs, 0 <= vx_it0.pos() <= vx_hs.len(), bids(vx_hs) == self.payload().1, $let0.st().data == self.payload().0,
        ser_from(Ty::Handle, hvals(bids(vx_hs)), vx_it0.pos(), s.st()) == ser(list_of(Ty::Handle), Val::List(hvals(bids(vx_hs))), old(s).st()),
    ensures vx_it0.pos() == vx_hs.len()
    decreases vx_hs.len() - vx_it0.pos()
//@loopbody 0
    broadcast use ser_from_end, group_ser;
    proof { if vx_it0.pos() < vx_hs.len() { ser_from_step(Ty::Handle, hvals(bids(vx_hs)), vx_it0.pos(), s.st()); } }
//@after drain_handles 0
    let ghost vx_hs = $let1@;
//@fn deserialize_self_non_trivial
//@pre
    broadcast use group_de, group_imgs, group_is_pod, is_pod_delayed;
    proof { lemma_prims(); }
//@loop 0
    invariant
        vx_it0.n == $let0, 0 <= vx_it0.i <= vx_it0.n, d.wf(), vx_w.quiet(*old(vx_w)), $mut0@.len() == vx_it0.i,
        de_more(hvals(oids($mut0@)), Ty::Handle, $let0 - vx_it0.i, d.st()) is Some,
        de(list_of(Ty::Handle), old(d).st()) == Some((Val::List(rv(de_more(hvals(oids($mut0@)), Ty::Handle, $let0 - vx_it0.i, d.st()))), rd(de_more(hvals(oids($mut0@)), Ty::Handle, $let0 - vx_it0.i, d.st())))),
    ensures vx_it0.i == vx_it0.n
    decreases vx_it0.n - vx_it0.i
//@loopbody 0
    broadcast use de_more_end, group_de, group_is_pod, is_pod_delayed;
    proof { if $let0 - vx_it0.i > 0 { de_more_step(hvals(oids($mut0@)), Ty::Handle, $let0 - vx_it0.i, d.st()); } }
    let ghost vx_acc = $mut0@;
//@after push 0
    proof { assert($mut0@ =~= vx_acc.push($mut0@.last())); assert(hvals(oids($mut0@)) =~= hvals(oids(vx_acc)).push(Val::Handle($mut0@.last().id()))); }
//@post
    proof { if let Ok(ref x) = vx_res { assert(x.inner is Serialized); assert(u8s(x.payload().0) == rv(de(list_of(u8::ty()), rd(de(list_of(Ty::Handle), old(d).st()))))); } }
//@end
//@panics vx_panic

/// C13: whatever surrounds it in the message, unwrapping a received delayed value gives the original, up to the
/// names of the shared allocations inside it; two delayed values do not depend on each other.
pub proof fn c13_delayed<T: Object>(v: Val, sent: Delayed<T>, got: Delayed<T>, h: Heap, sid: int)
    requires wt(T::ty(), v, h), sent.inner == DelayedInner::Deserialized(sent.inner->Deserialized_0), sent.inner->Deserialized_0.repr() == v,
        got.payload() == sent.payload(), ser(T::ty(), v, ser0()).n <= usize::MAX
    ensures de(T::ty(), de0(got.payload().0, got.payload().1, sid)) matches Some((x, e)) && iso(v, x, ser(T::ty(), v, ser0()).cyc, sid)
{
    let s = ser(T::ty(), v, ser0());
    let d = de0(got.payload().0, got.payload().1, sid);
    assert(d.data.subrange(0, s.data.len() as int) =~= s.data);
    assert(d.hs.subrange(0, s.hs.len() as int) =~= s.hs);
    lemma_rt(T::ty(), v, ser0(), d, h, size(v));
}
