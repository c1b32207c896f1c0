// ------------------------------------------------------------------------------------------------
// src/serde.rs
// ------------------------------------------------------------------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(S)]
pub struct HashMap<K, V, S = RandomState> { _p: core::marker::PhantomData<(K, V, S)> }
pub struct RandomState { _p: u8 }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Occupied<'a, K, V> { _p: core::marker::PhantomData<(&'a K, V)> }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Vacant<'a, K, V> { pub m: &'a mut HashMap<K, V, RandomState>, pub k: Ghost<K> }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub enum Entry<'a, K, V> { Occupied(Occupied<'a, K, V>), Vacant(Vacant<'a, K, V>) }
impl<'a, K, V> Occupied<'a, K, V> {
    pub uninterp spec fn val(&self) -> V;
    #[verifier::external_body]
    pub fn get(&self) -> (res: &V) ensures *res == self.val() { unimplemented!() }
}
impl<'a, K, V> Vacant<'a, K, V> {
    #[verifier::external_body]
    pub fn insert(self, v: V) ensures final(self.m).mm() == old(self.m).mm().insert(self.k@, v) { unimplemented!() }
}
impl<K, V> HashMap<K, V, RandomState> {
    #[verifier::external_body]
    pub fn new() -> (res: Self) ensures res.mm() == IMap::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&mut self, k: K) -> (res: Entry<'_, K, V>)
        ensures match res {
            Entry::Occupied(o) => old(self).mm().contains_key(k) && o.val() == old(self).mm()[k] && final(self).mm() == old(self).mm(),
            Entry::Vacant(v) => !old(self).mm().contains_key(k) && v.m.mm() == old(self).mm() && v.k@ == k && final(self).mm() == final(v.m).mm(),
        }
    { unimplemented!() }
}
impl<K, V> HashMap<K, V, RandomState> {
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (res: Option<&V>) ensures self.mm().contains_key(*k) ==> res == Some(&self.mm()[*k]), !self.mm().contains_key(*k) ==> res is None { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (res: bool) ensures res == self.mm().contains_key(*k) { unimplemented!() }
}
impl<K, V, S> HashMap<K, V, S> {
    /// all: decoded keys are distinct
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (res: Option<V>) ensures final(self).mm() == old(self).mm().insert(k, v), final(self).all() == old(self).all().push((k, v)),
        res == (if old(self).mm().contains_key(k) { Some(old(self).mm()[k]) } else { None }) { unimplemented!() }
    pub uninterp spec fn mm(&self) -> IMap<K, V>;
    pub uninterp spec fn all(&self) -> Seq<(K, V)>;      // the entries in iteration order
}

pub open spec fn ptr_at(a: int) -> VxPtr<c_void> { VxPtr { a: Ghost(a), _p: core::marker::PhantomData } }
pub open spec fn ids(m: IMap<VxPtr<c_void>, NonZeroUsize>) -> IMap<AllocId, int> {
    IMap::new(|a: AllocId| m.contains_key(ptr_at(a)), |a: AllocId| m[ptr_at(a)].v as int)
}
pub broadcast proof fn ids_insert(m: IMap<VxPtr<c_void>, NonZeroUsize>, p: VxPtr<c_void>, n: NonZeroUsize)
    ensures #[trigger] ids(m.insert(p, n)) == ids(m).insert(p.addr(), n.v as int)
{ 
    assert(p == ptr_at(p.addr()));
    assert forall|a: int| a != p.addr() implies ptr_at(a) != p by { assert(ptr_at(a).addr() == a); }
    assert(ids(m.insert(p, n)) =~= ids(m).insert(p.addr(), n.v as int));
}
pub broadcast proof fn ids_empty()
    ensures #[trigger] ids(IMap::<VxPtr<c_void>, NonZeroUsize>::empty()) == IMap::<AllocId, int>::empty()
{ assert(ids(IMap::<VxPtr<c_void>, NonZeroUsize>::empty()) =~= IMap::<AllocId, int>::empty()); }

// ---- Box<dyn Any> holding a shared pointer
pub uninterp spec fn any_tid<T>() -> int;
pub uninterp spec fn any_val<T>(x: T) -> Val;         // contents of the pointer
pub uninterp spec fn any_alloc<T>(x: T) -> AllocId;
#[verifier::external_body]
pub struct AnyBox { _p: u8 }
impl AnyBox {
    pub uninterp spec fn tid(&self) -> int;
    pub uninterp spec fn val(&self) -> Val;
    pub uninterp spec fn alloc(&self) -> AllocId;
    #[verifier::external_body]
    pub fn new<T: 'static>(x: T) -> (res: AnyBox) ensures res.tid() == any_tid::<T>(), res.val() == any_val(x), res.alloc() == any_alloc(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn downcast_ref<T: 'static>(&self) -> (res: Option<&T>)
        ensures self.tid() == any_tid::<T>() ==> (res matches Some(x) && (any_val(*x) == self.val() && any_alloc(*x) == self.alloc()))
    { unimplemented!() }
}
pub open spec fn slot(b: Option<AnyBox>) -> Option<(int, Val)> { match b { None => None, Some(x) => Some((x.tid(), x.val())) } }

//@rename Box::new => AnyBox::new
//@rename Box<dyn Any> => AnyBox
//@rename HashMap => HashMap
//@ghostfield Deserializer vx_sid : Ghost<int> = Ghost(arbitrary())
//@type Serializer
//@end
//@type Deserializer
//@end

impl<'fd> Serializer<'fd> {
    pub open spec fn st(&self) -> SerSt { SerSt { data: self.data@, hs: bids(self.handles@), cyc: ids(self.cyclic_ids.mm()), n: self.cyclic_count as int } }
}
impl Deserializer {
    pub open spec fn st(&self) -> DeSt {
        DeSt { data: self.data@, pos: self.pos as int, hs: oids(self.handles.all()), hpos: self.handles.pos(), sid: self.vx_sid@,
            cyc: self.cyclics@.map_values(|b: Option<AnyBox>| slot(b)) }
    }
    /// every filled slot holds the allocation named after its number
    pub open spec fn wf(&self) -> bool {
        forall|k: int| 0 <= k < self.cyclics@.len() ==> ((#[trigger] self.cyclics@[k]) matches Some(b) ==> b.alloc() == alloc_name(self.vx_sid@, k + 1))
    }
}
/// The name of the k-th allocation of a decoding session is *defined* to be the allocation that is
/// registered for it (each number is registered at most once: the slot is required to be empty).
#[verifier::external_body]
pub proof fn define_alloc_name(sid: int, k: int, a: AllocId) ensures alloc_name(sid, k) == a { }

//@impl Serializer
//@skip fmt
//@fn new
    ensures res.st() == ser0()
//@post
    proof { broadcast use ids_empty; assert(vx_res.st().hs =~= seq![]); assert(vx_res.st().data =~= seq![]); }
//@fn write
    ensures final(self).st() == old(self).st().put($arg0@)
//@post
    proof { assert(self.st().data =~= old(self).st().put($arg0@).data); }
//@fn serialize
    ensures final(self).st() == ser(T::ty(), $arg0.repr(), old(self).st())
//@fn serialize_slice
    ensures final(self).st() == ser_rep(T::ty(), reprs($arg0@), old(self).st())
//@fn serialize_temporary
    requires flat(T::ty())
    ensures final(self).st() == ser(T::ty(), $arg0.repr(), old(self).st())
//@after serialize 0
    proof { lemma_flat_ser(T::ty(), $arg0.repr(), self.st()); assert($mut0.st().hs.len() == $mut0.handles@.len()); }
//@fn serialize_handle
    ensures final(self).st() == old(self).st().push($arg0.id())
//@post
    proof { assert(self.st().hs =~= old(self).st().hs.push($arg0.id())); }
//@fn drain_handles
    ensures bids(res@) == old(self).st().hs, final(self).st() == (SerSt { hs: seq![], ..old(self).st() })
//@post
    proof { assert(self.st().hs =~= seq![]); }
//@fn learn_cyclic
    ensures
        ids_wf(old(self).st()) ==> ids_wf(final(self).st()),
        match res {
            Some(id) => old(self).st().cyc.contains_key($arg0.addr()) && id.v == old(self).st().cyc[$arg0.addr()] && final(self).st() == old(self).st(),
            None => !old(self).st().cyc.contains_key($arg0.addr()) && final(self).st() == old(self).st().learn($arg0.addr()),
        }
//@pre
    // ASSUMPTION: fewer than 2^64 - 1 shared pointers are ever numbered in one stream
    assume(self.cyclic_count < usize::MAX);
    broadcast use ids_insert;
    assert(ptr_at($arg0.addr()) == $arg0);
//@fn into_vec
    ensures res@ == self.st().data
//@end
// the default and the bytes one by one
pub trait VxDefault: Sized { spec fn vx_is_default(&self) -> bool; fn default() -> (res: Self) ensures res.vx_is_default(); }
pub trait VxOwnIter: Sized { type Item; type IntoIter; spec fn vx_gives(&self, r: Self::IntoIter) -> bool; fn into_iter(self) -> (res: Self::IntoIter) ensures self.vx_gives(res); }
//@impl Default@Serializer
//@header impl<'fd> VxDefault for Serializer<'fd>
//@members
    open spec fn vx_is_default(&self) -> bool { self.st() == ser0() }
//@fn default
//@end
//@impl IntoIterator@Serializer
//@header impl<'fd> VxOwnIter for Serializer<'fd>
//@skip Item IntoIter
//@members
    type Item = u8;
    type IntoIter = IntoIter<u8>;
    open spec fn vx_gives(&self, r: IntoIter<u8>) -> bool { r.all() == self.st().data && r.pos() == 0 }
//@fn into_iter
//@end
pub open spec fn ids_wf(s: SerSt) -> bool { forall|a: AllocId| #[trigger] s.cyc.contains_key(a) ==> 1 <= s.cyc[a] <= s.n }

//@mode serde
//@impl Deserializer
//@skip fmt get_rest
//@fn new
    ensures exists|sid: int| res.st() == de0($arg0@, oids($arg1@), sid), res.wf()
//@post
    proof {
        assert(vx_res.st().cyc =~= seq![]); assert(vx_res.st().hs =~= oids($arg1@)); assert(vx_res.st() == de0($arg0@, oids($arg1@), vx_res.vx_sid@));
    }
//@fn read
    requires old(self).st().can(old($arg0)@.len() as nat)
    ensures final($arg0)@ == old(self).st().peek(old($arg0)@.len() as nat), final(self).st() == old(self).st().adv(old($arg0)@.len() as nat),
        old(self).wf() ==> final(self).wf()
//@pre
    assert(self.data@.len() == self.data.len()); assert($arg0@.len() == $arg0.len()); assert(self.st().can($arg0@.len() as nat)); assert(self.pos + $arg0@.len() <= self.data@.len());
//@fn deserialize
    requires old(self).wf(), de(T::ty(), old(self).st()) is Some
    ensures final(vx_w).outcome(*old(vx_w), res), final(self).wf(),
        res matches Ok(x) ==> de(T::ty(), old(self).st()) == Some((x.repr(), final(self).st()))
//@fn reserve_cyclic
    requires old(self).st().cyc.len() < usize::MAX
    ensures final(self).st() == old(self).st().reserve(), res.v == old(self).st().cyc.len() + 1, old(self).wf() ==> final(self).wf()
//@post
    proof { assert(self.st().cyc =~= old(self).st().reserve().cyc); }
//@fn learn_cyclic
    requires old(self).st().cyc.len() < usize::MAX, old(self).wf()
    ensures final(self).st() == old(self).st().reserve().fill(old(self).st().cyc.len() as int, any_tid::<T>(), any_val($arg0)),
        any_alloc($arg0) == alloc_name(old(self).st().sid, old(self).st().cyc.len() as int + 1), final(self).wf()
//@fn learn_reserved_cyclic
    requires old(self).wf(), 1 <= $arg0.v <= old(self).st().cyc.len(), old(self).st().cyc[$arg0.v - 1] is None
    ensures final(self).st() == old(self).st().fill($arg0.v - 1, any_tid::<T>(), any_val($arg1)), final(self).wf(),
        any_alloc($arg1) == alloc_name(old(self).st().sid, $arg0.v as int)
//@pre
    proof { define_alloc_name(self.vx_sid@, $arg0.v as int, any_alloc($arg1)); }
//@post
    proof { assert(self.st().cyc =~= old(self).st().fill($arg0.v - 1, any_tid::<T>(), any_val($arg1)).cyc); }
//@fn get_cyclic
    requires self.wf(), 1 <= $arg0.v <= self.st().cyc.len(), self.st().cyc[$arg0.v - 1] matches Some((t, _)) && t == any_tid::<T>()
    ensures self.st().cyc[$arg0.v - 1] == Some((any_tid::<T>(), any_val(*res))), any_alloc(*res) == alloc_name(self.st().sid, $arg0.v as int)
//@end
