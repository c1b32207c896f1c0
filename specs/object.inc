// ------------------------------------------------------------------------------------------------
// the traits (src/serde.rs, src/pod.rs)
// ------------------------------------------------------------------------------------------------
pub open spec fn reprs<T: Object>(xs: Seq<T>) -> Seq<Val> { Seq::new(xs.len(), |i: int| xs[i].repr()) }
pub proof fn reprs_push<T: Object>(xs: Seq<T>, x: T) ensures reprs(xs.push(x)) == reprs(xs).push(x.repr())
{ assert(reprs(xs.push(x)) =~= reprs(xs).push(x.repr())); }
/// the memory image alone determines the value, in every process: no pointer, no handle, no padding-dependent meaning
pub uninterp spec fn bitwise<T: ?Sized>() -> bool;
#[verifier::external_body]
pub fn vx_implements_PlainOldData<T>() -> (res: bool) ensures res == is_pod::<T>() { unimplemented!() }

//@trait NonTrivialObject
//@members
    spec fn nt_ty() -> Ty;
    spec fn nt_repr(&self) -> Val;
//@fn serialize_self_non_trivial
    requires !is_pod::<Self>()
    ensures final($arg0).st() == ser(Self::nt_ty(), self.nt_repr(), old($arg0).st())
//@fn deserialize_self_non_trivial
    requires !is_pod::<Self>(), old($arg0).wf(), de(Self::nt_ty(), old($arg0).st()) is Some
    ensures final(vx_w).outcome(*old(vx_w), res), final($arg0).wf(),
        res matches Ok(x) ==> de(Self::nt_ty(), old($arg0).st()) == Some((x.nt_repr(), final($arg0).st()))
//@end

//@trait Object
//@skip deserialize_on_heap deserialize_on_heap_get deserialize_on_heap_ptr
//@members
    spec fn ty() -> Ty;
    spec fn repr(&self) -> Val;
    /// plain types are transferred as their memory image
    proof fn pod_view(&self) where Self: Sized ensures is_pod::<Self>() ==> Self::ty() == pod_ty::<Self>() && self.repr() == Val::Pod(pod_bytes(*self));
    proof fn pod_type() where Self: Sized ensures is_pod::<Self>() ==> Self::ty() == pod_ty::<Self>();
//@fn serialize_self
    ensures final($arg0).st() == ser(Self::ty(), self.repr(), old($arg0).st())
//@fn serialize_slice
    ensures forall|vs: Seq<Val>| vs.len() == $arg0@.len() && (forall|i: int| 0 <= i < vs.len() ==> vs[i] == (#[trigger] $arg0@[i]).repr()) ==> final($arg1).st() == #[trigger] ser_rep(Self::ty(), vs, old($arg1).st())
//@fn deserialize_self
    requires old($arg0).wf(), de(Self::ty(), old($arg0).st()) is Some
    ensures final(vx_w).outcome(*old(vx_w), res), final($arg0).wf(),
        res matches Ok(x) ==> de(Self::ty(), old($arg0).st()) == Some((x.repr(), final($arg0).st()))
//@end

//@trait PlainOldData
//@members
    proof fn pod_flat() ensures flat(Self::nt_ty()), bitwise::<Self>();
    proof fn pod_ax() ensures flat(Self::nt_ty()), bitwise::<Self>();
//@end

pub open spec fn flat(ty: Ty) -> bool
    decreases ty
{
    match ty {
        Ty::Pod(..) => true, Ty::Handle => false, Ty::Nil => true,
        Ty::Cons(a, b) => flat(*a) && flat(*b),
        Ty::Sum(_, ts) => forall|i: int| 0 <= i < ts.len() ==> flat(#[trigger] ts[i]),
        Ty::Rep(_, t) => flat(*t), Ty::List(t) => flat(*t), Ty::Shared(..) => false,
    }
}
pub proof fn lemma_flat_ser(ty: Ty, v: Val, s: SerSt)
    requires flat(ty)
    ensures ser(ty, v, s) == s.put(ser(ty, v, ser0n(s.n)).data), ser(ty, v, ser0n(s.n)).hs == Seq::<int>::empty(), ser(ty, v, ser0n(s.n)).n == s.n, ser(ty, v, ser0n(s.n)).cyc == IMap::<AllocId, int>::empty()
    decreases ty, 0nat
{
    reveal(ser); reveal(ser_rep);
    let z = ser0n(s.n);
    assert(z.data + Seq::<u8>::empty() =~= z.data);
    assert(s.put(Seq::<u8>::empty()).data =~= s.data);
    match (ty, v) {
        (Ty::Pod(..), Val::Pod(b)) => { assert(z.data + b =~= b); }
        (Ty::Cons(a, b), Val::Cons(x, y)) => {
            lemma_flat_ser(*a, *x, s); lemma_flat_ser(*a, *x, z);
            let s1 = ser(*a, *x, s); let z1 = ser(*a, *x, z);
            lemma_flat_ser(*b, *y, s1); lemma_flat_ser(*b, *y, z1);
            assert(s.data + (z1.data + ser(*b, *y, z).data) =~= (s.data + z1.data) + ser(*b, *y, z).data);
        }
        (Ty::Sum(bt, ts), Val::Alt(k, x)) => if k < ts.len() {
            let t = tag_bytes(bt, k);
            assert(flat(ts[k as int]));
            lemma_flat_ser(ts[k as int], *x, s.put(t)); lemma_flat_ser(ts[k as int], *x, z.put(t));
            let r = ser(ts[k as int], *x, z).data;
            assert(s.data + ((z.data + t) + r) =~= (s.data + t) + r);
        },
        (Ty::Rep(_, t), Val::List(vs)) => { lemma_flat_rep(*t, vs, s); }
        (Ty::List(t), Val::List(vs)) => {
            let w = word_bytes(vs.len() as int);
            lemma_flat_rep(*t, vs, s.put(w)); lemma_flat_rep(*t, vs, z.put(w));
            let r = ser_rep(*t, vs, z).data;
            assert(s.data + ((z.data + w) + r) =~= (s.data + w) + r);
        }
        _ => {}
    }
}
pub proof fn lemma_flat_rep(t: Ty, vs: Seq<Val>, s: SerSt)
    requires flat(t)
    ensures ser_rep(t, vs, s) == s.put(ser_rep(t, vs, ser0n(s.n)).data), ser_rep(t, vs, ser0n(s.n)).hs == Seq::<int>::empty(), ser_rep(t, vs, ser0n(s.n)).n == s.n, ser_rep(t, vs, ser0n(s.n)).cyc == IMap::<AllocId, int>::empty()
    decreases t, vs.len() + 1
{
    reveal(ser); reveal(ser_rep);
    let z = ser0n(s.n);
    assert(s.put(Seq::<u8>::empty()).data =~= s.data);
    if vs.len() > 0 {
        lemma_flat_ser(t, vs[0], s); lemma_flat_ser(t, vs[0], z);
        let s1 = ser(t, vs[0], s); let z1 = ser(t, vs[0], z);
        lemma_flat_rep(t, vs.drop_first(), s1); lemma_flat_rep(t, vs.drop_first(), z1);
        let r = ser_rep(t, vs.drop_first(), z).data;
        assert(s.data + (z1.data + r) =~= (s.data + z1.data) + r);
    }
}
/// a slice of plain values is written as one block
pub proof fn lemma_pods_ser<T>(xs: Seq<T>, vs: Seq<Val>, s: SerSt)
    requires vs.len() == xs.len(), forall|i: int| 0 <= i < vs.len() ==> #[trigger] vs[i] == Val::Pod(pod_bytes(xs[i]))
    ensures ser_rep(pod_ty::<T>(), vs, s) == s.put(pods(xs))
    decreases xs.len()
{
    broadcast use group_ser;
    if xs.len() == 0 { ser_rep_nil(pod_ty::<T>(), vs, s); assert(s.put(pods(xs)).data =~= s.data); }
    else {
        ser_rep_step(pod_ty::<T>(), vs, s);
        let s1 = s.put(pod_bytes(xs[0]));
        assert(vs[0] == Val::Pod(pod_bytes(xs[0])));
        assert forall|i: int| 0 <= i < vs.drop_first().len() implies #[trigger] vs.drop_first()[i] == Val::Pod(pod_bytes(xs.drop_first()[i])) by { assert(vs[i + 1] == Val::Pod(pod_bytes(xs[i + 1]))); }
        lemma_pods_ser(xs.drop_first(), vs.drop_first(), s1);
        assert((s.data + pod_bytes(xs[0])) + pods(xs.drop_first()) =~= s.data + pods(xs));
    }
}

// ---- uninitialized storage for one plain value
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct MaybeUninit<T> { _p: core::marker::PhantomData<T> }
impl<T> MaybeUninit<T> {
    pub uninterp spec fn img(&self) -> Option<Seq<u8>>;
    #[verifier::external_body]
    pub fn uninit() -> (res: Self) ensures res.img() is None { unimplemented!() }
    #[verifier::external_body]
    pub fn zeroed() -> (res: Self) ensures res.img() matches Some(b) && b.len() == vsz::<T>() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_bytes_mut(&mut self, n: usize) -> (res: &mut [u8])
        requires n == vsz::<T>()
        ensures res@.len() == n, final(self).img() == Some(final(res)@), (old(self).img() is Some && old(self).img().unwrap().len() == n) ==> res@ == old(self).img().unwrap() { unimplemented!() }
    #[verifier::external_body]
    pub fn assume_init_read(&self) -> (res: T)
        requires self.img() is Some, valid_pod(pid::<T>(), self.img().unwrap())
        ensures pod_bytes(res) == self.img().unwrap() { unimplemented!() }
    #[verifier::external_body]
    pub fn assume_init(self) -> (res: T)
        requires self.img() is Some, valid_pod(pid::<T>(), self.img().unwrap())
        ensures pod_bytes(res) == self.img().unwrap() { unimplemented!() }
}

//@mode pod
//@impl Object@$0
//@skip deserialize_on_heap deserialize_on_heap_get deserialize_on_heap_ptr
//@members
    open spec fn ty() -> Ty { if is_pod::<$0>() { pod_ty::<$0>() } else { <$0 as NonTrivialObject>::nt_ty() } }
    open spec fn repr(&self) -> Val { if is_pod::<$0>() { Val::Pod(pod_bytes(*self)) } else { self.nt_repr() } }
    proof fn pod_view(&self) {}
    proof fn pod_type() {}
//@fn serialize_self
//@pre
    broadcast use group_ser;
//@fn serialize_slice
//@pre
    broadcast use group_ser;
    let ghost vx_vs = Seq::<Val>::new($arg0@.len(), |i: int| $arg0@[i].repr());
    assert forall|vs: Seq<Val>| vs.len() == $arg0@.len() && (forall|i: int| 0 <= i < vs.len() ==> vs[i] == (#[trigger] $arg0@[i]).repr()) implies vs == vx_vs by { assert(vs =~= vx_vs); }
    proof { if is_pod::<$0>() { lemma_pods_ser($arg0@, vx_vs, $arg1.st()); } }
//@loop 0
    invariant
        !is_pod::<$0>(), vx_it0.all() == $arg0@, vx_vs.len() == $arg0@.len(), forall|i: int| 0 <= i < vx_vs.len() ==> vx_vs[i] == (#[trigger] $arg0@[i]).repr(), 0 <= vx_it0.pos() <= $arg0@.len(),
        ser_from(Self::ty(), vx_vs, vx_it0.pos(), $arg1.st()) == ser_rep(Self::ty(), vx_vs, old($arg1).st()),
    ensures vx_it0.pos() == $arg0@.len()
    decreases $arg0@.len() - vx_it0.pos()
//@loopbody 0
    broadcast use ser_from_end, group_ser;
    proof { if vx_it0.pos() < vx_vs.len() { ser_from_step(Self::ty(), vx_vs, vx_it0.pos(), $arg1.st()); } }
//@fn deserialize_self
//@pre
    broadcast use group_de;
//@end
