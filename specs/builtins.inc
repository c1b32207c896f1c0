// ------------------------------------------------------------------------------------------------
// src/builtins.rs.  The collections of std are external; the view of a collection is the sequence of its
// elements in iteration order.  ASSUMPTION: inserting an enumeration of a collection into an empty one
// of the same type gives an equal collection, so `insert`/`push` is specified as appending to the view.
// ------------------------------------------------------------------------------------------------
#[verifier::external_body]
pub fn vx_mk_iter<'a, T>(s: Ghost<Seq<T>>) -> (res: VxIter<'a, T>) ensures res.all() == s@, res.pos() == 0 { unimplemented!() }
impl<'a, T> VxRefIterable<'a, T> for &'a BinaryHeap<T> { fn vx_into_iter(self) -> (res: VxIter<'a, T>) ensures res.all() == self.all(), res.pos() == 0 { self.vx_iter() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BinaryHeap<T> { _p: core::marker::PhantomData<T> }
impl<T> BinaryHeap<T> {
    pub uninterp spec fn all(&self) -> Seq<T>;      // the elements in iteration order
    #[verifier::external_body]
    pub fn new() -> (res: Self) ensures res.all() == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (res: Self) ensures res.all() == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: T) ensures final(self).all() == old(self).all().push(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (res: usize) ensures res == self.all().len() { unimplemented!() }
    pub fn vx_iter(&self) -> (res: VxIter<'_, T>) ensures res.all() == self.all(), res.pos() == 0 { vx_mk_iter(Ghost(self.all())) }
}
impl<'a, T> VxRefIterable<'a, T> for &'a BTreeSet<T> { fn vx_into_iter(self) -> (res: VxIter<'a, T>) ensures res.all() == self.all(), res.pos() == 0 { self.vx_iter() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BTreeSet<T> { _p: core::marker::PhantomData<T> }
impl<T> BTreeSet<T> {
    pub uninterp spec fn all(&self) -> Seq<T>;      // the elements in iteration order
    #[verifier::external_body]
    pub fn new() -> (res: Self) ensures res.all() == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (res: Self) ensures res.all() == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) ensures final(self).all() == old(self).all().push(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (res: usize) ensures res == self.all().len() { unimplemented!() }
    pub fn vx_iter(&self) -> (res: VxIter<'_, T>) ensures res.all() == self.all(), res.pos() == 0 { vx_mk_iter(Ghost(self.all())) }
}
impl<'a, T> VxRefIterable<'a, T> for &'a LinkedList<T> { fn vx_into_iter(self) -> (res: VxIter<'a, T>) ensures res.all() == self.all(), res.pos() == 0 { self.vx_iter() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct LinkedList<T> { _p: core::marker::PhantomData<T> }
impl<T> LinkedList<T> {
    pub uninterp spec fn all(&self) -> Seq<T>;      // the elements in iteration order
    #[verifier::external_body]
    pub fn new() -> (res: Self) ensures res.all() == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (res: Self) ensures res.all() == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, x: T) ensures final(self).all() == old(self).all().push(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (res: usize) ensures res == self.all().len() { unimplemented!() }
    pub fn vx_iter(&self) -> (res: VxIter<'_, T>) ensures res.all() == self.all(), res.pos() == 0 { vx_mk_iter(Ghost(self.all())) }
}
impl<'a, T> VxRefIterable<'a, T> for &'a VecDeque<T> { fn vx_into_iter(self) -> (res: VxIter<'a, T>) ensures res.all() == self.all(), res.pos() == 0 { self.vx_iter() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VecDeque<T> { _p: core::marker::PhantomData<T> }
impl<T> VecDeque<T> {
    pub uninterp spec fn all(&self) -> Seq<T>;      // the elements in iteration order
    #[verifier::external_body]
    pub fn new() -> (res: Self) ensures res.all() == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (res: Self) ensures res.all() == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, x: T) ensures final(self).all() == old(self).all().push(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (res: usize) ensures res == self.all().len() { unimplemented!() }
    pub fn vx_iter(&self) -> (res: VxIter<'_, T>) ensures res.all() == self.all(), res.pos() == 0 { vx_mk_iter(Ghost(self.all())) }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(S)]
pub struct HashSet<T, S> { _p: core::marker::PhantomData<(T, S)> }
impl<T, S> HashSet<T, S> {
    pub uninterp spec fn all(&self) -> Seq<T>;      // the elements in iteration order
    #[verifier::external_body]
    pub fn with_capacity_and_hasher(n: usize, h: S) -> (res: Self) ensures res.all() == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) ensures final(self).all() == old(self).all().push(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (res: usize) ensures res == self.all().len() { unimplemented!() }
    pub fn vx_iter(&self) -> (res: VxIter<'_, T>) ensures res.all() == self.all(), res.pos() == 0 { vx_mk_iter(Ghost(self.all())) }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VxPairIter<'a, K, V> { _p: core::marker::PhantomData<&'a (K, V)> }
impl<'a, K, V> VxPairIter<'a, K, V> {
    pub uninterp spec fn all(&self) -> Seq<(K, V)>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (res: Option<(&'a K, &'a V)>)
        ensures final(self).all() == old(self).all(), 0 <= old(self).pos() <= old(self).all().len(),
            old(self).pos() < old(self).all().len() ==> (res matches Some((k, v)) && ((*k, *v) == old(self).all()[old(self).pos()] && final(self).pos() == old(self).pos() + 1)),
            old(self).pos() >= old(self).all().len() ==> res is None && final(self).pos() == old(self).pos()
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { _p: core::marker::PhantomData<(K, V)> }
impl<K, V> BTreeMap<K, V> {
    pub uninterp spec fn all(&self) -> Seq<(K, V)>;
    #[verifier::external_body]
    pub fn new() -> (res: Self) ensures res.all() == Seq::<(K, V)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) ensures final(self).all() == old(self).all().push((k, v)) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (res: usize) ensures res == self.all().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter(&self) -> (res: VxPairIter<'_, K, V>) ensures res.all() == self.all(), res.pos() == 0 { unimplemented!() }
}
impl<K, V, S> HashMap<K, V, S> {
    #[verifier::external_body]
    pub fn with_capacity_and_hasher(n: usize, h: S) -> (res: Self) ensures res.all() == Seq::<(K, V)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (res: usize) ensures res == self.all().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter(&self) -> (res: VxPairIter<'_, K, V>) ensures res.all() == self.all(), res.pos() == 0 { unimplemented!() }
}
pub trait Default: Sized { fn default() -> Self; }


// ---- other plain types of std
#[verifier::external_body]
pub struct Duration { _p: u8 }
#[verifier::external_body]
pub struct Infallible { _p: u8 }
#[verifier::external_body]
pub struct Instant { _p: u8 }
#[verifier::external_body]
pub struct SystemTime { _p: u8 }
#[verifier::external_body]
pub struct NonZeroI8 { _p: u8 }
#[verifier::external_body]
pub struct NonZeroI16 { _p: u8 }
#[verifier::external_body]
pub struct NonZeroI32 { _p: u8 }
#[verifier::external_body]
pub struct NonZeroI64 { _p: u8 }
#[verifier::external_body]
pub struct NonZeroI128 { _p: u8 }
#[verifier::external_body]
pub struct NonZeroIsize { _p: u8 }
#[verifier::external_body]
pub struct NonZeroU8 { _p: u8 }
#[verifier::external_body]
pub struct NonZeroU16 { _p: u8 }
#[verifier::external_body]
pub struct NonZeroU32 { _p: u8 }
#[verifier::external_body]
pub struct NonZeroU64 { _p: u8 }
#[verifier::external_body]
pub struct NonZeroU128 { _p: u8 }

// ---- strings and paths: their bytes
#[verifier::external_body]
pub struct String { _p: u8 }
impl String {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn len(&self) -> (res: usize) ensures res == self.bytes().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (res: &[u8]) ensures res@ == self.bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_utf8_unchecked(v: Vec<u8>) -> (res: Self) ensures res.bytes() == v@ { unimplemented!() }
}
#[verifier::external_body]
pub struct CString { _p: u8 }
impl CString {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (res: &[u8]) ensures res@ == self.bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes_with_nul(&self) -> (res: &[u8]) ensures res@ == self.bytes().push(0) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_vec_unchecked(v: Vec<u8>) -> (res: Self) ensures res.bytes() == v@ { unimplemented!() }
}
#[verifier::external_body]
pub struct OsString { _p: u8 }
impl OsString {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn as_encoded_bytes(&self) -> (res: &[u8]) ensures res@ == self.bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (res: usize) ensures res == self.bytes().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_encoded_bytes_unchecked(v: Vec<u8>) -> (res: Self) ensures res.bytes() == v@ { unimplemented!() }
}
#[verifier::external_body]
pub struct PathBuf { _p: u8 }
impl PathBuf {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn as_os_str(&self) -> (res: &OsStr) ensures res.bytes() == self.bytes() { unimplemented!() }
}
#[verifier::external_body]
pub struct OsStr { _p: u8 }
impl OsStr {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn as_encoded_bytes(&self) -> (res: &[u8]) ensures res@ == self.bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (res: usize) ensures res == self.bytes().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_encoded_bytes_unchecked(v: Vec<u8>) -> (res: Self) ensures res.bytes() == v@ { unimplemented!() }
}
impl VxInto<PathBuf> for OsString {
    open spec fn vx_converts(self, r: PathBuf) -> bool { r.bytes() == self.bytes() }
    #[verifier::external_body]
    fn vx_into(self) -> (res: PathBuf) { unimplemented!() }
}
pub open spec fn u8s(b: Seq<u8>) -> Val { Val::List(reprs::<u8>(b)) }
pub open spec fn list_of(t: Ty) -> Ty { Ty::List(Box::new(t)) }
pub open spec fn pair(a: Ty, b: Ty) -> Ty { Ty::Cons(Box::new(a), Box::new(b)) }
pub open spec fn vpair(a: Val, b: Val) -> Val { Val::Cons(Box::new(a), Box::new(b)) }

// ---- reference counting
pub broadcast group group_shared { ax_rc_any, ax_arc_any }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Rc<T> { _p: core::marker::PhantomData<T> }
impl<T> Rc<T> {
    pub uninterp spec fn a(&self) -> AllocId;
    pub uninterp spec fn inner(&self) -> T;
    #[verifier::external_body]
    pub fn new(x: T) -> (res: Self) ensures res.inner() == x { unimplemented!() }
    #[verifier::external_body]
    pub fn strong_count(this: &Self) -> (res: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn weak_count(this: &Self) -> (res: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn ptr_eq(this: &Self, other: &Self) -> (res: bool) ensures res == (this.a() == other.a()) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ptr(this: &Self) -> (res: VxPtr<T>) ensures res.addr() == this.a() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_deref(&self) -> (res: &T) ensures *res == self.inner() { unimplemented!() }
}
impl<T> Clone for Rc<T> {
    #[verifier::external_body]
    fn clone(&self) -> (res: Self) ensures res == *self { unimplemented!() }
}
pub broadcast axiom fn ax_rc_any<T: Object>(x: Rc<T>) ensures (#[trigger] any_val(x)) == x.inner().repr(), any_alloc(x) == x.a();
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Arc<T> { _p: core::marker::PhantomData<T> }
impl<T> Arc<T> {
    pub uninterp spec fn a(&self) -> AllocId;
    pub uninterp spec fn inner(&self) -> T;
    #[verifier::external_body]
    pub fn new(x: T) -> (res: Self) ensures res.inner() == x { unimplemented!() }
    #[verifier::external_body]
    pub fn strong_count(this: &Self) -> (res: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn weak_count(this: &Self) -> (res: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn ptr_eq(this: &Self, other: &Self) -> (res: bool) ensures res == (this.a() == other.a()) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ptr(this: &Self) -> (res: VxPtr<T>) ensures res.addr() == this.a() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_deref(&self) -> (res: &T) ensures *res == self.inner() { unimplemented!() }
}
impl<T> Clone for Arc<T> {
    #[verifier::external_body]
    fn clone(&self) -> (res: Self) ensures res == *self { unimplemented!() }
}
pub broadcast axiom fn ax_arc_any<T: Object>(x: Arc<T>) ensures (#[trigger] any_val(x)) == x.inner().repr(), any_alloc(x) == x.a();

// ---- storage for an array that is being built: cell base() + k holds element k (addresses count elements)
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct MaybeUninitArr<A> { _p: core::marker::PhantomData<A> }
pub open spec fn minus(m: IMap<int, Val>, b: int, n: int) -> IMap<int, Val> { IMap::new(|a: int| m.contains_key(a) && !(b <= a < b + n), |a: int| m[a]) }
pub open spec fn vals_at(m: IMap<int, Val>, b: int, n: int) -> Seq<Val> { Seq::new(n as nat, |k: int| m[b + k]) }
/// besides what was live before, exactly the elements lo..hi of the array at b are live
#[verifier::opaque]
pub open spec fn arr(m: IMap<int, Val>, old: IMap<int, Val>, b: int, n: int, lo: int, hi: int) -> bool {
    &&& forall|a: int| #[trigger] m.contains_key(a) == (old.contains_key(a) || b + lo <= a < b + hi)
    &&& forall|a: int| #[trigger] old.contains_key(a) ==> m[a] == old[a] && !(b <= a < b + n)
    &&& 0 <= lo <= hi <= n
}
pub proof fn arr_init(m: IMap<int, Val>, b: int, n: int)
    requires 0 <= n, forall|a: int| b <= a < b + n ==> !(#[trigger] m.contains_key(a)) ensures arr(m, m, b, n, 0, 0), vals_at(m, b, 0) == Seq::<Val>::empty()
{ reveal(arr); assert(vals_at(m, b, 0) =~= Seq::<Val>::empty()); }
pub proof fn arr_push(m: IMap<int, Val>, old: IMap<int, Val>, b: int, n: int, hi: int, v: Val)
    requires arr(m, old, b, n, 0, hi), hi < n
    ensures arr(m.insert(b + hi, v), old, b, n, 0, hi + 1), vals_at(m.insert(b + hi, v), b, hi + 1) == vals_at(m, b, hi).push(v)
{ reveal(arr); assert(vals_at(m.insert(b + hi, v), b, hi + 1) =~= vals_at(m, b, hi).push(v)); }
pub proof fn arr_free(m: IMap<int, Val>, old: IMap<int, Val>, b: int, n: int, lo: int, hi: int, a: int)
    requires arr(m, old, b, n, lo, hi), b <= a < b + n ensures m.contains_key(a) == (b + lo <= a < b + hi)
{ reveal(arr); }
pub proof fn arr_pop(m: IMap<int, Val>, old: IMap<int, Val>, b: int, n: int, lo: int, hi: int)
    requires arr(m, old, b, n, lo, hi), lo < hi
    ensures arr(m.remove(b + lo), old, b, n, lo + 1, hi)
{ reveal(arr); }
pub proof fn arr_empty(m: IMap<int, Val>, old: IMap<int, Val>, b: int, n: int, lo: int)
    requires arr(m, old, b, n, lo, lo) ensures m == old
{ reveal(arr); assert(m =~= old); }
pub proof fn arr_full(m: IMap<int, Val>, old: IMap<int, Val>, b: int, n: int)
    requires arr(m, old, b, n, 0, n) ensures minus(m, b, n) == old, forall|a: int| b <= a < b + n ==> #[trigger] m.contains_key(a)
{ reveal(arr); assert(minus(m, b, n) =~= old); }
impl<T: Object, const N: usize> MaybeUninitArr<[T; N]> {
    pub uninterp spec fn base(&self) -> int;
    #[verifier::external_body]
    pub fn uninit(vx_w: &mut World) -> (res: Self)
        ensures final(vx_w).quiet(*old(vx_w)),
            forall|a: int| res.base() <= a < res.base() + N ==> !(#[trigger] old(vx_w).cells@.contains_key(a)), forall|a: int| res.base() <= a < res.base() + N ==> #[trigger] room(a) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_mut_ptr(&self) -> (res: VxPtr<[T; N]>) ensures res.addr() == self.base() { unimplemented!() }
    #[verifier::external_body]
    pub fn assume_init(self, vx_w: &mut World) -> (res: [T; N])
        requires forall|a: int| self.base() <= a < self.base() + N ==> #[trigger] old(vx_w).cells@.contains_key(a)
        ensures reprs(res@) == vals_at(old(vx_w).cells@, self.base(), N as int), final(vx_w).calm(*old(vx_w)),
            final(vx_w).cells@ == minus(old(vx_w).cells@, self.base(), N as int) { unimplemented!() }
}
#[allow(non_snake_case)]
#[verifier::external_body]
pub fn vx_cast_mut_T<T, const N: usize>(p: VxPtr<[T; N]>) -> (res: VxPtr<T>) ensures res.addr() == p.addr() { unimplemented!() }
impl<T: Object> VxPtr<T> {
    #[verifier::external_body]
    pub fn add(self, n: usize) -> (res: Self) ensures res.addr() == self.addr() + n { unimplemented!() }
    /// overwrites without dropping: writing over a live value would leak it
    #[verifier::external_body]
    pub fn write(self, x: T, vx_w: &mut World)
        requires room(self.addr()), !old(vx_w).cells@.contains_key(self.addr())
        ensures final(vx_w).calm(*old(vx_w)), final(vx_w).cells@ == old(vx_w).cells@.insert(self.addr(), x.repr()) { unimplemented!() }
    #[verifier::external_body]
    pub fn drop_in_place(self, vx_w: &mut World)
        requires old(vx_w).cells@.contains_key(self.addr())
        ensures final(vx_w).calm(*old(vx_w)), final(vx_w).cells@ == old(vx_w).cells@.remove(self.addr()) { unimplemented!() }
}

pub open spec fn pairs<K: Object, V: Object>(xs: Seq<(K, V)>) -> Seq<Val> { Seq::new(xs.len(), |i: int| vpair(xs[i].0.repr(), xs[i].1.repr())) }
pub proof fn pairs_push<K: Object, V: Object>(xs: Seq<(K, V)>, x: (K, V)) ensures pairs(xs.push(x)) == pairs(xs).push(vpair(x.0.repr(), x.1.repr()))
{ assert(pairs(xs.push(x)) =~= pairs(xs).push(vpair(x.0.repr(), x.1.repr()))); }
//@podaxioms OwnedHandle
// the types used as tags and lengths
pub open spec fn prims() -> bool {
    &&& usize::ty() == Ty::Pod(pid::<usize>(), WORD()) && NonZeroUsize::ty() == Ty::Pod(pid::<NonZeroUsize>(), WORD()) && bool::ty() == Ty::Pod(pid::<bool>(), 1) && u8::ty() == Ty::Pod(pid::<u8>(), 1)
    &&& forall|n: usize| #[trigger] n.repr() == Val::Pod(word_bytes(n as int))
    &&& forall|n: NonZeroUsize| #[trigger] n.repr() == Val::Pod(word_bytes(n.v as int))
    &&& forall|n: bool| #[trigger] n.repr() == Val::Pod(bool_bytes(n))
    &&& forall|n: u8| #[trigger] n.repr() == Val::Pod(seq![n])
    &&& flat(usize::ty()) && flat(NonZeroUsize::ty()) && flat(bool::ty()) && flat(u8::ty())
}
pub broadcast proof fn de_usize(d: DeSt)
    requires de_word(d) is Some, prims()
    ensures #[trigger] de(usize::ty(), d) == Some((Val::Pod(word_bytes(de_word(d).unwrap())), d.adv(WORD())))
{
    broadcast use de_pod;
    let k = de_word(d).unwrap();
    assert(0 <= k <= usize::MAX && word_bytes(k) == d.peek(WORD()));
    ax_pod_bytes(k as usize); ax_img_usize(k as usize);
}
pub broadcast proof fn de_bool(d: DeSt)
    requires de_tag(true, d) is Some, prims()
    ensures #[trigger] de(bool::ty(), d) == Some((Val::Pod(bool_bytes(de_tag(true, d).unwrap() == 1)), d.adv(1)))
{
    broadcast use de_pod;
    ax_pod_bytes(true); ax_img_bool(true); ax_pod_bytes(false); ax_img_bool(false); ax_bool_inj();
}
pub broadcast proof fn bool_bytes_inj(a: bool, b: bool)
    requires #[trigger] bool_bytes(a) == #[trigger] bool_bytes(b)
    ensures a == b
{ ax_bool_inj(); }
pub proof fn lemma_prims() ensures prims()
{
    broadcast use ax_img_usize, ax_img_nz, ax_img_bool, ax_img_u8;
    broadcast use group_is_pod;
    ax_img_sizes();
}
pub broadcast proof fn flat_cons(a: Box<Ty>, b: Box<Ty>) ensures #[trigger] flat(Ty::Cons(a, b)) == (flat(*a) && flat(*b)) { }
pub broadcast proof fn flat_sum(k: bool, ts: Seq<Ty>) requires forall|i: int| 0 <= i < ts.len() ==> flat(#[trigger] ts[i]) ensures #[trigger] flat(Ty::Sum(k, ts)) { }
pub broadcast proof fn flat_rep(n: nat, t: Box<Ty>) ensures #[trigger] flat(Ty::Rep(n, t)) == flat(*t) { }
pub broadcast proof fn flat_nil() ensures #[trigger] flat(Ty::Nil) { }
pub broadcast proof fn flat_pod(k: int, n: nat) ensures #[trigger] flat(Ty::Pod(k, n)) { }
pub broadcast proof fn flat_list(t: Box<Ty>) ensures #[trigger] flat(Ty::List(t)) == flat(*t) { }
pub broadcast group group_flat { flat_list, flat_cons, flat_sum, flat_rep, flat_nil, flat_pod }
pub broadcast group group_imgs { de_usize, de_bool, bool_bytes_inj, ax_word_inj }

//@mode builtins
//@rename tokio::fs::File => TokioFile
//@rename async_fs::File => SmolFile
//@rename tokio::net::UnixStream => TokioUnixStream
//@dropbound Ord Eq Hash BuildHasher AsFd
//@method into => vx_into
//@world from_std Async::new
//@basepods
//@impl NonTrivialObject@String
//@members
    open spec fn nt_ty() -> Ty { list_of(u8::ty()) }
    open spec fn nt_repr(&self) -> Val { u8s(self.bytes()) }
//@fn serialize_self_non_trivial
//@pre
    broadcast use group_ser, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@fn deserialize_self_non_trivial
//@pre
    broadcast use group_de, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@end
//@impl NonTrivialObject@CString
//@members
    open spec fn nt_ty() -> Ty { list_of(u8::ty()) }
    open spec fn nt_repr(&self) -> Val { u8s(self.bytes()) }
//@fn serialize_self_non_trivial
//@pre
    broadcast use group_ser, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@fn deserialize_self_non_trivial
//@pre
    broadcast use group_de, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@end
//@impl NonTrivialObject@OsString
//@members
    open spec fn nt_ty() -> Ty { list_of(u8::ty()) }
    open spec fn nt_repr(&self) -> Val { u8s(self.bytes()) }
//@fn serialize_self_non_trivial
//@pre
    broadcast use group_ser, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@fn deserialize_self_non_trivial
//@pre
    broadcast use group_de, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@end
//@impl NonTrivialObject@PathBuf
//@members
    open spec fn nt_ty() -> Ty { list_of(u8::ty()) }
    open spec fn nt_repr(&self) -> Val { u8s(self.bytes()) }
//@fn serialize_self_non_trivial
//@pre
    broadcast use group_ser, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@fn deserialize_self_non_trivial
//@pre
    broadcast use group_de, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@end
//@impl NonTrivialObject@Option<$0>
//@members
    open spec fn nt_ty() -> Ty { Ty::Sum(true, seq![Ty::Nil, $0::ty()]) }
    open spec fn nt_repr(&self) -> Val { match *self { None => Val::Alt(0, Box::new(Val::Nil)), Some(x) => Val::Alt(1, Box::new(x.repr())) } }
//@fn serialize_self_non_trivial
//@pre
    broadcast use group_ser, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@fn deserialize_self_non_trivial
//@pre
    broadcast use group_de, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@end
//@impl NonTrivialObject@Result<$0,$1>
//@members
    open spec fn nt_ty() -> Ty { Ty::Sum(true, seq![$1::ty(), $0::ty()]) }
    open spec fn nt_repr(&self) -> Val { match *self { Err(x) => Val::Alt(0, Box::new(x.repr())), Ok(x) => Val::Alt(1, Box::new(x.repr())) } }
//@fn serialize_self_non_trivial
//@pre
    broadcast use group_ser, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@fn deserialize_self_non_trivial
//@pre
    broadcast use group_de, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@end
//@impl NonTrivialObject@Vec<$0>
//@members
    open spec fn nt_ty() -> Ty { list_of($0::ty()) }
    open spec fn nt_repr(&self) -> Val { Val::List(reprs(self@)) }
//@fn serialize_self_non_trivial
//@pre
    broadcast use group_ser, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@fn deserialize_self_non_trivial
//@pre
    broadcast use group_de, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@loop 0
    invariant
        vx_it0.n == $let0, 0 <= vx_it0.i <= vx_it0.n, d.wf(), vx_w.quiet(*old(vx_w)), reprs($mut0@).len() == vx_it0.i,
        de_more(reprs($mut0@), $0::ty(), $let0 - vx_it0.i, d.st()) is Some,
        de(Self::nt_ty(), old(d).st()) == Some((Val::List(rv(de_more(reprs($mut0@), $0::ty(), $let0 - vx_it0.i, d.st()))), rd(de_more(reprs($mut0@), $0::ty(), $let0 - vx_it0.i, d.st())))),
    ensures vx_it0.i == vx_it0.n
    decreases vx_it0.n - vx_it0.i
//@loopbody 0
    broadcast use de_more_end, group_de;
    proof { if $let0 - vx_it0.i > 0 { de_more_step(reprs($mut0@), $0::ty(), $let0 - vx_it0.i, d.st()); } }
    let ghost vx_acc = $mut0@;
//@after push 0
    proof { reprs_push(vx_acc, $mut0@.last()); assert($mut0@ =~= vx_acc.push($mut0@.last())); }
//@end
//@impl NonTrivialObject@LinkedList<$0>
//@members
    open spec fn nt_ty() -> Ty { list_of($0::ty()) }
    open spec fn nt_repr(&self) -> Val { Val::List(reprs(self.all())) }
//@fn serialize_self_non_trivial
//@pre
    broadcast use group_ser, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@loop 0
    invariant
        vx_it0.all() == self.all(), 0 <= vx_it0.pos() <= self.all().len(),
        ser_from($0::ty(), reprs(self.all()), vx_it0.pos(), s.st()) == ser(Self::nt_ty(), self.nt_repr(), old(s).st()),
    ensures vx_it0.pos() == self.all().len()
    decreases self.all().len() - vx_it0.pos()
//@loopbody 0
    broadcast use ser_from_end, group_ser;
    proof { if vx_it0.pos() < reprs(self.all()).len() { ser_from_step($0::ty(), reprs(self.all()), vx_it0.pos(), s.st()); } }
//@fn deserialize_self_non_trivial
//@pre
    broadcast use group_de, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@loop 0
    invariant
        vx_it0.n == $let0, 0 <= vx_it0.i <= vx_it0.n, d.wf(), vx_w.quiet(*old(vx_w)), reprs($mut0.all()).len() == vx_it0.i,
        de_more(reprs($mut0.all()), $0::ty(), $let0 - vx_it0.i, d.st()) is Some,
        de(Self::nt_ty(), old(d).st()) == Some((Val::List(rv(de_more(reprs($mut0.all()), $0::ty(), $let0 - vx_it0.i, d.st()))), rd(de_more(reprs($mut0.all()), $0::ty(), $let0 - vx_it0.i, d.st())))),
    ensures vx_it0.i == vx_it0.n
    decreases vx_it0.n - vx_it0.i
//@loopbody 0
    broadcast use de_more_end, group_de;
    proof { if $let0 - vx_it0.i > 0 { de_more_step(reprs($mut0.all()), $0::ty(), $let0 - vx_it0.i, d.st()); } }
    let ghost vx_acc = $mut0.all();
//@after push_back 0
    proof { reprs_push(vx_acc, $mut0.all().last()); assert($mut0.all() =~= vx_acc.push($mut0.all().last())); }
//@end
//@impl NonTrivialObject@VecDeque<$0>
//@members
    open spec fn nt_ty() -> Ty { list_of($0::ty()) }
    open spec fn nt_repr(&self) -> Val { Val::List(reprs(self.all())) }
//@fn serialize_self_non_trivial
//@pre
    broadcast use group_ser, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@loop 0
    invariant
        vx_it0.all() == self.all(), 0 <= vx_it0.pos() <= self.all().len(),
        ser_from($0::ty(), reprs(self.all()), vx_it0.pos(), s.st()) == ser(Self::nt_ty(), self.nt_repr(), old(s).st()),
    ensures vx_it0.pos() == self.all().len()
    decreases self.all().len() - vx_it0.pos()
//@loopbody 0
    broadcast use ser_from_end, group_ser;
    proof { if vx_it0.pos() < reprs(self.all()).len() { ser_from_step($0::ty(), reprs(self.all()), vx_it0.pos(), s.st()); } }
//@fn deserialize_self_non_trivial
//@pre
    broadcast use group_de, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@loop 0
    invariant
        vx_it0.n == $let0, 0 <= vx_it0.i <= vx_it0.n, d.wf(), vx_w.quiet(*old(vx_w)), reprs($mut0.all()).len() == vx_it0.i,
        de_more(reprs($mut0.all()), $0::ty(), $let0 - vx_it0.i, d.st()) is Some,
        de(Self::nt_ty(), old(d).st()) == Some((Val::List(rv(de_more(reprs($mut0.all()), $0::ty(), $let0 - vx_it0.i, d.st()))), rd(de_more(reprs($mut0.all()), $0::ty(), $let0 - vx_it0.i, d.st())))),
    ensures vx_it0.i == vx_it0.n
    decreases vx_it0.n - vx_it0.i
//@loopbody 0
    broadcast use de_more_end, group_de;
    proof { if $let0 - vx_it0.i > 0 { de_more_step(reprs($mut0.all()), $0::ty(), $let0 - vx_it0.i, d.st()); } }
    let ghost vx_acc = $mut0.all();
//@after push_back 0
    proof { reprs_push(vx_acc, $mut0.all().last()); assert($mut0.all() =~= vx_acc.push($mut0.all().last())); }
//@end
//@impl NonTrivialObject@BTreeSet<$0>
//@members
    open spec fn nt_ty() -> Ty { list_of($0::ty()) }
    open spec fn nt_repr(&self) -> Val { Val::List(reprs(self.all())) }
//@fn serialize_self_non_trivial
//@pre
    broadcast use group_ser, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@loop 0
    invariant
        vx_it0.all() == self.all(), 0 <= vx_it0.pos() <= self.all().len(),
        ser_from($0::ty(), reprs(self.all()), vx_it0.pos(), s.st()) == ser(Self::nt_ty(), self.nt_repr(), old(s).st()),
    ensures vx_it0.pos() == self.all().len()
    decreases self.all().len() - vx_it0.pos()
//@loopbody 0
    broadcast use ser_from_end, group_ser;
    proof { if vx_it0.pos() < reprs(self.all()).len() { ser_from_step($0::ty(), reprs(self.all()), vx_it0.pos(), s.st()); } }
//@fn deserialize_self_non_trivial
//@pre
    broadcast use group_de, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@loop 0
    invariant
        vx_it0.n == $let0, 0 <= vx_it0.i <= vx_it0.n, d.wf(), vx_w.quiet(*old(vx_w)), reprs($mut0.all()).len() == vx_it0.i,
        de_more(reprs($mut0.all()), $0::ty(), $let0 - vx_it0.i, d.st()) is Some,
        de(Self::nt_ty(), old(d).st()) == Some((Val::List(rv(de_more(reprs($mut0.all()), $0::ty(), $let0 - vx_it0.i, d.st()))), rd(de_more(reprs($mut0.all()), $0::ty(), $let0 - vx_it0.i, d.st())))),
    ensures vx_it0.i == vx_it0.n
    decreases vx_it0.n - vx_it0.i
//@loopbody 0
    broadcast use de_more_end, group_de;
    proof { if $let0 - vx_it0.i > 0 { de_more_step(reprs($mut0.all()), $0::ty(), $let0 - vx_it0.i, d.st()); } }
    let ghost vx_acc = $mut0.all();
//@after insert 0
    proof { reprs_push(vx_acc, $mut0.all().last()); assert($mut0.all() =~= vx_acc.push($mut0.all().last())); }
//@end
//@impl NonTrivialObject@BinaryHeap<$0>
//@members
    open spec fn nt_ty() -> Ty { list_of($0::ty()) }
    open spec fn nt_repr(&self) -> Val { Val::List(reprs(self.all())) }
//@fn serialize_self_non_trivial
//@pre
    broadcast use group_ser, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@loop 0
    invariant
        vx_it0.all() == self.all(), 0 <= vx_it0.pos() <= self.all().len(),
        ser_from($0::ty(), reprs(self.all()), vx_it0.pos(), s.st()) == ser(Self::nt_ty(), self.nt_repr(), old(s).st()),
    ensures vx_it0.pos() == self.all().len()
    decreases self.all().len() - vx_it0.pos()
//@loopbody 0
    broadcast use ser_from_end, group_ser;
    proof { if vx_it0.pos() < reprs(self.all()).len() { ser_from_step($0::ty(), reprs(self.all()), vx_it0.pos(), s.st()); } }
//@fn deserialize_self_non_trivial
//@pre
    broadcast use group_de, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@loop 0
    invariant
        vx_it0.n == $let0, 0 <= vx_it0.i <= vx_it0.n, d.wf(), vx_w.quiet(*old(vx_w)), reprs($mut0.all()).len() == vx_it0.i,
        de_more(reprs($mut0.all()), $0::ty(), $let0 - vx_it0.i, d.st()) is Some,
        de(Self::nt_ty(), old(d).st()) == Some((Val::List(rv(de_more(reprs($mut0.all()), $0::ty(), $let0 - vx_it0.i, d.st()))), rd(de_more(reprs($mut0.all()), $0::ty(), $let0 - vx_it0.i, d.st())))),
    ensures vx_it0.i == vx_it0.n
    decreases vx_it0.n - vx_it0.i
//@loopbody 0
    broadcast use de_more_end, group_de;
    proof { if $let0 - vx_it0.i > 0 { de_more_step(reprs($mut0.all()), $0::ty(), $let0 - vx_it0.i, d.st()); } }
    let ghost vx_acc = $mut0.all();
//@after push 0
    proof { reprs_push(vx_acc, $mut0.all().last()); assert($mut0.all() =~= vx_acc.push($mut0.all().last())); }
//@end
//@impl NonTrivialObject@HashSet<$0,$1>
//@members
    open spec fn nt_ty() -> Ty { list_of($0::ty()) }
    open spec fn nt_repr(&self) -> Val { Val::List(reprs(self.all())) }
//@fn serialize_self_non_trivial
//@pre
    broadcast use group_ser, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@loop 0
    invariant
        vx_it0.all() == self.all(), 0 <= vx_it0.pos() <= self.all().len(),
        ser_from($0::ty(), reprs(self.all()), vx_it0.pos(), s.st()) == ser(Self::nt_ty(), self.nt_repr(), old(s).st()),
    ensures vx_it0.pos() == self.all().len()
    decreases self.all().len() - vx_it0.pos()
//@loopbody 0
    broadcast use ser_from_end, group_ser;
    proof { if vx_it0.pos() < reprs(self.all()).len() { ser_from_step($0::ty(), reprs(self.all()), vx_it0.pos(), s.st()); } }
//@fn deserialize_self_non_trivial
//@pre
    broadcast use group_de, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@loop 0
    invariant
        vx_it0.n == $let0, 0 <= vx_it0.i <= vx_it0.n, d.wf(), vx_w.quiet(*old(vx_w)), reprs($mut0.all()).len() == vx_it0.i,
        de_more(reprs($mut0.all()), $0::ty(), $let0 - vx_it0.i, d.st()) is Some,
        de(Self::nt_ty(), old(d).st()) == Some((Val::List(rv(de_more(reprs($mut0.all()), $0::ty(), $let0 - vx_it0.i, d.st()))), rd(de_more(reprs($mut0.all()), $0::ty(), $let0 - vx_it0.i, d.st())))),
    ensures vx_it0.i == vx_it0.n
    decreases vx_it0.n - vx_it0.i
//@loopbody 0
    broadcast use de_more_end, group_de;
    proof { if $let0 - vx_it0.i > 0 { de_more_step(reprs($mut0.all()), $0::ty(), $let0 - vx_it0.i, d.st()); } }
    let ghost vx_acc = $mut0.all();
//@after insert 0
    proof { reprs_push(vx_acc, $mut0.all().last()); assert($mut0.all() =~= vx_acc.push($mut0.all().last())); }
//@end
//@impl NonTrivialObject@BTreeMap<$0,$1>
//@members
    open spec fn nt_ty() -> Ty { list_of(pair($0::ty(), $1::ty())) }
    open spec fn nt_repr(&self) -> Val { Val::List(pairs(self.all())) }
//@fn serialize_self_non_trivial
//@pre
    broadcast use group_ser, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@loop 0
    invariant
        vx_it0.all() == self.all(), 0 <= vx_it0.pos() <= self.all().len(),
        ser_from(pair($0::ty(), $1::ty()), pairs(self.all()), vx_it0.pos(), s.st()) == ser(Self::nt_ty(), self.nt_repr(), old(s).st()),
    ensures vx_it0.pos() == self.all().len()
    decreases self.all().len() - vx_it0.pos()
//@loopbody 0
    broadcast use ser_from_end, group_ser;
    proof { if vx_it0.pos() < pairs(self.all()).len() { ser_from_step(pair($0::ty(), $1::ty()), pairs(self.all()), vx_it0.pos(), s.st()); } }
//@fn deserialize_self_non_trivial
//@pre
    broadcast use group_de, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@loop 0
    invariant
        vx_it0.n == $let0, 0 <= vx_it0.i <= vx_it0.n, d.wf(), vx_w.quiet(*old(vx_w)), pairs($mut0.all()).len() == vx_it0.i,
        de_more(pairs($mut0.all()), pair($0::ty(), $1::ty()), $let0 - vx_it0.i, d.st()) is Some,
        de(Self::nt_ty(), old(d).st()) == Some((Val::List(rv(de_more(pairs($mut0.all()), pair($0::ty(), $1::ty()), $let0 - vx_it0.i, d.st()))), rd(de_more(pairs($mut0.all()), pair($0::ty(), $1::ty()), $let0 - vx_it0.i, d.st())))),
    ensures vx_it0.i == vx_it0.n
    decreases vx_it0.n - vx_it0.i
//@loopbody 0
    broadcast use de_more_end, group_de;
    proof { if $let0 - vx_it0.i > 0 { de_more_step(pairs($mut0.all()), pair($0::ty(), $1::ty()), $let0 - vx_it0.i, d.st()); } }
    let ghost vx_acc = $mut0.all();
//@after insert 0
    proof { pairs_push(vx_acc, $mut0.all().last()); assert($mut0.all() =~= vx_acc.push($mut0.all().last())); }
//@end
//@impl NonTrivialObject@HashMap<$0,$1,$2>
//@members
    open spec fn nt_ty() -> Ty { list_of(pair($0::ty(), $1::ty())) }
    open spec fn nt_repr(&self) -> Val { Val::List(pairs(self.all())) }
//@fn serialize_self_non_trivial
//@pre
    broadcast use group_ser, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@loop 0
    invariant
        vx_it0.all() == self.all(), 0 <= vx_it0.pos() <= self.all().len(),
        ser_from(pair($0::ty(), $1::ty()), pairs(self.all()), vx_it0.pos(), s.st()) == ser(Self::nt_ty(), self.nt_repr(), old(s).st()),
    ensures vx_it0.pos() == self.all().len()
    decreases self.all().len() - vx_it0.pos()
//@loopbody 0
    broadcast use ser_from_end, group_ser;
    proof { if vx_it0.pos() < pairs(self.all()).len() { ser_from_step(pair($0::ty(), $1::ty()), pairs(self.all()), vx_it0.pos(), s.st()); } }
//@fn deserialize_self_non_trivial
//@pre
    broadcast use group_de, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@loop 0
    invariant
        vx_it0.n == $let0, 0 <= vx_it0.i <= vx_it0.n, d.wf(), vx_w.quiet(*old(vx_w)), pairs($mut0.all()).len() == vx_it0.i,
        de_more(pairs($mut0.all()), pair($0::ty(), $1::ty()), $let0 - vx_it0.i, d.st()) is Some,
        de(Self::nt_ty(), old(d).st()) == Some((Val::List(rv(de_more(pairs($mut0.all()), pair($0::ty(), $1::ty()), $let0 - vx_it0.i, d.st()))), rd(de_more(pairs($mut0.all()), pair($0::ty(), $1::ty()), $let0 - vx_it0.i, d.st())))),
    ensures vx_it0.i == vx_it0.n
    decreases vx_it0.n - vx_it0.i
//@loopbody 0
    broadcast use de_more_end, group_de;
    proof { if $let0 - vx_it0.i > 0 { de_more_step(pairs($mut0.all()), pair($0::ty(), $1::ty()), $let0 - vx_it0.i, d.st()); } }
    let ghost vx_acc = $mut0.all();
//@after insert 0
    proof { pairs_push(vx_acc, $mut0.all().last()); assert($mut0.all() =~= vx_acc.push($mut0.all().last())); }
//@end
//@impl NonTrivialObject@Rc<$0>
//@members
    open spec fn nt_ty() -> Ty { Ty::Shared(any_tid::<Rc<$0>>(), Box::new($0::ty())) }
    open spec fn nt_repr(&self) -> Val { Val::Shared(self.a(), Box::new(self.inner().repr())) }
//@fn serialize_self_non_trivial
//@pre
    broadcast use group_ser, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@fn deserialize_self_non_trivial
//@pre
    broadcast use group_de, group_imgs, group_is_pod, group_shared;
    proof { lemma_prims(); lemma_kept($0::ty(), d.st().adv(WORD()).reserve(), d.st().cyc.len() as int); }
//@end
//@impl NonTrivialObject@Arc<$0>
//@members
    open spec fn nt_ty() -> Ty { Ty::Shared(any_tid::<Arc<$0>>(), Box::new($0::ty())) }
    open spec fn nt_repr(&self) -> Val { Val::Shared(self.a(), Box::new(self.inner().repr())) }
//@fn serialize_self_non_trivial
//@pre
    broadcast use group_ser, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@fn deserialize_self_non_trivial
//@pre
    broadcast use group_de, group_imgs, group_is_pod, group_shared;
    proof { lemma_prims(); lemma_kept($0::ty(), d.st().adv(WORD()).reserve(), d.st().cyc.len() as int); }
//@end
//@impl NonTrivialObject@OwnedHandle
//@members
    open spec fn nt_ty() -> Ty { Ty::Handle }
    open spec fn nt_repr(&self) -> Val { Val::Handle(self.id()) }
//@fn serialize_self_non_trivial
//@pre
    broadcast use group_ser, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@fn deserialize_self_non_trivial
//@pre
    broadcast use group_de, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@end
//@impl NonTrivialObject@File#*
//@members
    open spec fn nt_ty() -> Ty { Ty::Handle }
    open spec fn nt_repr(&self) -> Val { Val::Handle(self.id()) }
//@fn serialize_self_non_trivial
//@pre
    broadcast use group_ser, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@fn deserialize_self_non_trivial
//@pre
    broadcast use group_de, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@end
//@impl NonTrivialObject@UnixStream#*
//@members
    open spec fn nt_ty() -> Ty { Ty::Handle }
    open spec fn nt_repr(&self) -> Val { Val::Handle(self.id()) }
//@fn serialize_self_non_trivial
//@pre
    broadcast use group_ser, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@fn deserialize_self_non_trivial
//@pre
    broadcast use group_de, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@end
//@impl NonTrivialObject@Async<$0>
//@members
    open spec fn nt_ty() -> Ty { $0::ty() }
    open spec fn nt_repr(&self) -> Val { self.inner().repr() }
//@fn serialize_self_non_trivial
//@pre
    broadcast use group_ser, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@fn deserialize_self_non_trivial
//@pre
    broadcast use group_de, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@end
//@rename MaybeUninit => MaybeUninitArr
//@rename MaybeUninit::uninit => MaybeUninitArr::uninit
//@world uninit write drop_in_place assume_init
//@impl NonTrivialObject@[$0;$1]
//@members
    open spec fn nt_ty() -> Ty { Ty::Rep($1 as nat, Box::new($0::ty())) }
    open spec fn nt_repr(&self) -> Val { Val::List(reprs(self@)) }
//@fn serialize_self_non_trivial
//@pre
    broadcast use group_ser, group_imgs, group_is_pod;
    proof { lemma_prims(); }
//@fn deserialize_self_non_trivial
//@pre
    broadcast use group_de, group_imgs, group_is_pod;
//@after uninit 0
    proof { arr_init(vx_w.cells@, $let0.base(), $1 as int); }
    let ghost vx_b = $let0.base();
//@loop 0
    invariant
        vx_it0.n == $1, 0 <= vx_it0.i <= vx_it0.n, d.wf(), $let1.addr() == vx_b, $let0.base() == vx_b, vx_w.calm(*old(vx_w)),
        forall|a: int| vx_b <= a < vx_b + $1 ==> #[trigger] room(a),
        arr(vx_w.cells@, old(vx_w).cells@, vx_b, $1 as int, 0, vx_it0.i as int),
        de_more(vals_at(vx_w.cells@, vx_b, vx_it0.i as int), $0::ty(), $1 - vx_it0.i, d.st()) is Some,
        de(Self::nt_ty(), old(d).st()) == Some((Val::List(rv(de_more(vals_at(vx_w.cells@, vx_b, vx_it0.i as int), $0::ty(), $1 - vx_it0.i, d.st()))),
            rd(de_more(vals_at(vx_w.cells@, vx_b, vx_it0.i as int), $0::ty(), $1 - vx_it0.i, d.st())))),
    ensures vx_it0.i == vx_it0.n, minus(vx_w.cells@, vx_b, $1 as int) == old(vx_w).cells@, forall|a: int| vx_b <= a < vx_b + $1 ==> #[trigger] vx_w.cells@.contains_key(a)
    decreases vx_it0.n - vx_it0.i
//@loopbody 0
    broadcast use de_more_end, group_de;
    proof { if $1 - vx_it0.i > 0 { de_more_step(vals_at(vx_w.cells@, vx_b, vx_it0.i as int), $0::ty(), $1 - vx_it0.i, d.st()); } }
    let ghost vx_c = vx_w.cells@;
    let ghost vx_i = vx_it0.i as int;
    proof {
        if vx_i < $1 { arr_free(vx_w.cells@, old(vx_w).cells@, vx_b, $1 as int, 0, vx_i, vx_b + vx_i); }
        else { arr_full(vx_w.cells@, old(vx_w).cells@, vx_b, $1 as int); }
    }
//@loop 1
    invariant
        vx_it1.n == vx_i, 0 <= vx_it1.i <= vx_it1.n, vx_i < $1, d.wf(), $let1.addr() == vx_b, vx_w.errs@ == old(vx_w).errs@.push(e), vx_w.os@ == old(vx_w).os@,
        arr(vx_w.cells@, old(vx_w).cells@, vx_b, $1 as int, vx_it1.i as int, vx_i),
    ensures vx_w.cells@ == old(vx_w).cells@
    decreases vx_it1.n - vx_it1.i
//@loopbody 1
    let ghost vx_j = vx_it1.i as int;
    proof { 
        if vx_j < vx_i { arr_free(vx_w.cells@, old(vx_w).cells@, vx_b, $1 as int, vx_j, vx_i, vx_b + vx_j); arr_pop(vx_w.cells@, old(vx_w).cells@, vx_b, $1 as int, vx_j, vx_i); }
        else { arr_empty(vx_w.cells@, old(vx_w).cells@, vx_b, $1 as int, vx_i); }
    }
//@after write 0
    proof { arr_push(vx_c, old(vx_w).cells@, vx_b, $1 as int, vx_i, vx_w.cells@[vx_b + vx_i]); }
//@end
//@unrename MaybeUninit MaybeUninit::uninit
//@noworld uninit write drop_in_place assume_init
//@tuples
// which types are determined by their memory image alone
pub broadcast axiom fn bw_bool() ensures #[trigger] bitwise::<bool>();
pub broadcast axiom fn bw_char() ensures #[trigger] bitwise::<char>();
pub broadcast axiom fn bw_infallible() ensures #[trigger] bitwise::<Infallible>();
pub broadcast axiom fn bw_i8() ensures #[trigger] bitwise::<i8>();
pub broadcast axiom fn bw_i16() ensures #[trigger] bitwise::<i16>();
pub broadcast axiom fn bw_i32() ensures #[trigger] bitwise::<i32>();
pub broadcast axiom fn bw_i64() ensures #[trigger] bitwise::<i64>();
pub broadcast axiom fn bw_i128() ensures #[trigger] bitwise::<i128>();
pub broadcast axiom fn bw_isize() ensures #[trigger] bitwise::<isize>();
pub broadcast axiom fn bw_u8() ensures #[trigger] bitwise::<u8>();
pub broadcast axiom fn bw_u16() ensures #[trigger] bitwise::<u16>();
pub broadcast axiom fn bw_u32() ensures #[trigger] bitwise::<u32>();
pub broadcast axiom fn bw_u64() ensures #[trigger] bitwise::<u64>();
pub broadcast axiom fn bw_u128() ensures #[trigger] bitwise::<u128>();
pub broadcast axiom fn bw_usize() ensures #[trigger] bitwise::<usize>();
pub broadcast axiom fn bw_f32() ensures #[trigger] bitwise::<f32>();
pub broadcast axiom fn bw_f64() ensures #[trigger] bitwise::<f64>();
pub broadcast axiom fn bw_duration() ensures #[trigger] bitwise::<Duration>();
pub broadcast axiom fn bw_instant() ensures #[trigger] bitwise::<Instant>();
pub broadcast axiom fn bw_systemtime() ensures #[trigger] bitwise::<SystemTime>();
pub broadcast axiom fn bw_nonzeroi8() ensures #[trigger] bitwise::<NonZeroI8>();
pub broadcast axiom fn bw_nonzeroi16() ensures #[trigger] bitwise::<NonZeroI16>();
pub broadcast axiom fn bw_nonzeroi32() ensures #[trigger] bitwise::<NonZeroI32>();
pub broadcast axiom fn bw_nonzeroi64() ensures #[trigger] bitwise::<NonZeroI64>();
pub broadcast axiom fn bw_nonzeroi128() ensures #[trigger] bitwise::<NonZeroI128>();
pub broadcast axiom fn bw_nonzeroisize() ensures #[trigger] bitwise::<NonZeroIsize>();
pub broadcast axiom fn bw_nonzerou8() ensures #[trigger] bitwise::<NonZeroU8>();
pub broadcast axiom fn bw_nonzerou16() ensures #[trigger] bitwise::<NonZeroU16>();
pub broadcast axiom fn bw_nonzerou32() ensures #[trigger] bitwise::<NonZeroU32>();
pub broadcast axiom fn bw_nonzerou64() ensures #[trigger] bitwise::<NonZeroU64>();
pub broadcast axiom fn bw_nonzerou128() ensures #[trigger] bitwise::<NonZeroU128>();
pub broadcast axiom fn bw_nonzerousize() ensures #[trigger] bitwise::<NonZeroUsize>();
pub broadcast axiom fn bw_phantom<T>() ensures #[trigger] bitwise::<PhantomData<T>>();
pub broadcast axiom fn bw_option<T>() requires bitwise::<T>() ensures #[trigger] bitwise::<Option<T>>();
pub broadcast axiom fn bw_result<T, E>() requires bitwise::<T>(), bitwise::<E>() ensures #[trigger] bitwise::<Result<T, E>>();
pub broadcast axiom fn bw_array<T, const N: usize>() requires bitwise::<T>() ensures #[trigger] bitwise::<[T; N]>();
pub broadcast group group_bitwise { group_bw_tuples, bw_phantom, bw_option, bw_result, bw_array, bw_bool, bw_char, bw_infallible, bw_i8, bw_i16, bw_i32, bw_i64, bw_i128, bw_isize, bw_u8, bw_u16, bw_u32, bw_u64, bw_u128, bw_usize, bw_f32, bw_f64, bw_duration, bw_instant, bw_systemtime, bw_nonzeroi8, bw_nonzeroi16, bw_nonzeroi32, bw_nonzeroi64, bw_nonzeroi128, bw_nonzeroisize, bw_nonzerou8, bw_nonzerou16, bw_nonzerou32, bw_nonzerou64, bw_nonzerou128, bw_nonzerousize }
//@podimpls
