// ------------------------------------------------------------------------------------------------
// Stand-ins for the parts of std the crate uses here: assumed contracts (external bodies).
// ------------------------------------------------------------------------------------------------
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum ErrorKind { Other, WouldBlock, Interrupted, UnexpectedEof, InvalidInput, BrokenPipe, ConnectionReset }
#[verifier::external_body]
pub struct Error { e: u8 }
impl Error {
    pub uninterp spec fn k(self) -> ErrorKind;
    #[verifier::external_body]
    pub fn kind(&self) -> (res: ErrorKind) ensures res == self.k() { unimplemented!() }
    #[verifier::external_body]
    pub fn new(k: ErrorKind, m: &str) -> (res: Error) ensures res.k() == k { unimplemented!() }
    #[verifier::external_body]
    pub fn other(m: &str) -> (res: Error) ensures res.k() == ErrorKind::Other { unimplemented!() }
}
pub type Result<T, E = Error> = core::result::Result<T, E>;

/// What the process did so far that is not visible in the values: the errors the operating system (or a
/// failed conversion) reported, in order, and the memory cells that hold a live value outside any Rust variable.
/// os: what the operating system knows of it (each unit declares the part it needs)
pub struct World { pub errs: Ghost<Seq<Error>>, pub cells: Ghost<IMap<int, Val>>, pub os: Ghost<Os> }
/// the address lies in storage that was set aside for an array under construction
pub uninterp spec fn room(a: int) -> bool;
impl World {
    pub open spec fn calm(self, old: World) -> bool { self.errs@ == old.errs@ && self.os@ == old.os@ }
    pub open spec fn quiet(self, old: World) -> bool { self.calm(old) && self.cells@ == old.cells@ }
    pub open spec fn failed(self, old: World, e: Error) -> bool { self.errs@ == old.errs@.push(e) && self.cells@ == old.cells@ && self.os@ == old.os@ }
    /// Ok: nothing was reported; Err: exactly one error was reported, and it is the one returned
    pub open spec fn outcome<T>(self, old: World, r: Result<T>) -> bool { match r { Ok(_) => self.quiet(old), Err(e) => self.failed(old, e) } }
}

#[verifier::external_body]
pub fn vx_panic() -> ! requires false { unimplemented!() }

pub use core::marker::PhantomData;

#[allow(non_camel_case_types)]
pub struct c_void { _p: u8 }
pub struct VxPtr<T> { pub a: Ghost<int>, pub _p: core::marker::PhantomData<T> }
impl<T> VxPtr<T> { pub open spec fn addr(self) -> int { self.a@ } }
impl<T> Clone for VxPtr<T> { fn clone(&self) -> (res: Self) ensures res == *self { *self } }
impl<T> Copy for VxPtr<T> {}
#[verifier::external_body]
pub fn vx_cast_const_c_void<T>(p: VxPtr<T>) -> (res: VxPtr<c_void>) ensures res.addr() == p.addr() { unimplemented!() }

#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct NonZeroUsize { pub v: usize }
impl NonZeroUsize {
    pub fn new(n: usize) -> (res: Option<NonZeroUsize>) ensures res == (if n == 0 { None } else { Some(NonZeroUsize { v: n }) }) { if n == 0 { None } else { Some(NonZeroUsize { v: n }) } }
    pub fn get(self) -> (res: usize) ensures res == self.v, self.v != 0 ==> res != 0 { self.v }
}

#[verifier::external_body]
pub fn mem_replace<T>(v: &mut T, w: T) -> (res: T) ensures res == *old(v), *final(v) == w { unimplemented!() }
#[verifier::external_body]
pub fn mem_swap<T>(v: &mut T, w: &mut T) ensures *final(v) == *old(w), *final(w) == *old(v) { unimplemented!() }
pub fn cmp_min(a: usize, b: usize) -> (res: usize) ensures res == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn u8_from(b: bool) -> (res: u8) ensures res == (if b { 1u8 } else { 0u8 }) { if b { 1 } else { 0 } }
pub fn usize_from(b: bool) -> (res: usize) ensures res == (if b { 1usize } else { 0usize }) { if b { 1 } else { 0 } }
pub fn cmp_max(a: usize, b: usize) -> (res: usize) ensures res == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
#[verifier::external_body]
pub fn mem_take<T>(v: &mut Vec<T>) -> (res: Vec<T>) ensures res@ == old(v)@, final(v)@ == Seq::<T>::empty() { unimplemented!() }

// ---- memory images
pub uninterp spec fn is_pod<T: ?Sized>() -> bool;
pub uninterp spec fn pid<T: ?Sized>() -> int;
pub uninterp spec fn vsz<T: ?Sized>() -> nat;
pub uninterp spec fn pod_bytes<T>(x: T) -> Seq<u8>;
pub broadcast axiom fn ax_pod_bytes<T>(x: T)
    ensures (#[trigger] pod_bytes(x)).len() == vsz::<T>(), valid_pod(pid::<T>(), pod_bytes(x));
pub broadcast axiom fn ax_vsz<T>() ensures #[trigger] vsz::<T>() <= isize::MAX;
pub open spec fn pod_ty<T: ?Sized>() -> Ty { Ty::Pod(pid::<T>(), vsz::<T>()) }
pub broadcast axiom fn ax_img_usize(n: usize)
    ensures #[trigger] pod_bytes(n) == word_bytes(n as int), vsz::<usize>() == WORD();
pub broadcast axiom fn ax_img_nz(n: NonZeroUsize)
    ensures #[trigger] pod_bytes(n) == word_bytes(n.v as int), vsz::<NonZeroUsize>() == WORD();
pub broadcast axiom fn ax_img_bool(b: bool)
    ensures #[trigger] pod_bytes(b) == bool_bytes(b), vsz::<bool>() == 1;
pub broadcast axiom fn ax_img_u8(b: u8)
    ensures #[trigger] pod_bytes(b) == seq![b];
pub axiom fn ax_img_sizes() ensures vsz::<usize>() == WORD(), vsz::<NonZeroUsize>() == WORD(), vsz::<bool>() == 1, vsz::<u8>() == 1;

pub open spec fn pods<T>(xs: Seq<T>) -> Seq<u8> decreases xs.len() { if xs.len() == 0 { seq![] } else { pod_bytes(xs[0]) + pods(xs.drop_first()) } }
pub uninterp spec fn val_sz<T: ?Sized>(x: &T) -> nat;
#[verifier::external_body]
pub fn mem_size_of<T>() -> (res: usize) ensures res == vsz::<T>() { unimplemented!() }
pub uninterp spec fn vx_align<T>() -> usize;
#[verifier::external_body]
pub fn mem_align_of<T>() -> (res: usize) ensures res == vx_align::<T>(), res >= 1 { unimplemented!() }
#[verifier::external_body]
pub fn mem_size_of_val<T>(x: &[T]) -> (res: usize) ensures res == pods(x@).len() { unimplemented!() }
#[verifier::external_body]
pub fn vx_slice_bytes<T>(x: &[T], n: usize) -> (res: &[u8]) requires n == pods(x@).len() ensures res@ == pods(x@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_value_bytes<T>(x: &T, n: usize) -> (res: &[u8]) requires n == vsz::<T>() ensures res@ == pod_bytes(*x) { unimplemented!() }

// ---- Option / Result helpers
pub trait VxBytes {
    spec fn vx_b(&self) -> Seq<u8>;
    fn vx_clone_from_slice(&mut self, src: &[u8]) requires old(self).vx_b().len() == src@.len() ensures final(self).vx_b() == src@;
}
impl VxBytes for [u8] {
    open spec fn vx_b(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_clone_from_slice(&mut self, src: &[u8]) { unimplemented!() }
}
#[allow(non_snake_case)]
pub trait VxMapSome<T, E>: Sized { fn vx_map_Some(self) -> Result<Option<T>, E>; }
impl<T, E> VxMapSome<T, E> for Result<T, E> {
    fn vx_map_Some(self) -> (res: Result<Option<T>, E>) ensures res == (match self { Ok(x) => Ok(Some(x)), Err(e) => Err(e) }) { match self { Ok(x) => Ok(Some(x)), Err(e) => Err(e) } }
}

// ---- borrowed and owned handles: identified by the open file description they refer to
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct BorrowedHandle<'a> { _p: core::marker::PhantomData<&'a u8> }
impl<'a> BorrowedHandle<'a> { pub uninterp spec fn id(self) -> int; }
#[verifier::external_body]
pub struct OwnedHandle { _p: u8 }
impl OwnedHandle {
    pub uninterp spec fn id(self) -> int;
    #[verifier::external_body]
    pub fn as_handle(&self) -> (res: BorrowedHandle<'_>) ensures res.id() == self.id() { unimplemented!() }
}
pub open spec fn bids(v: Seq<BorrowedHandle<'_>>) -> Seq<int> { v.map_values(|h: BorrowedHandle<'_>| h.id()) }
pub open spec fn oids(v: Seq<OwnedHandle>) -> Seq<int> { v.map_values(|h: OwnedHandle| h.id()) }

// ---- iteration
pub struct VxRange { pub i: usize, pub n: usize }
pub fn vx_range(a: usize, b: usize) -> (res: VxRange) ensures res.i == a, res.n == b { VxRange { i: a, n: b } }
impl VxRange {
    pub fn next(&mut self) -> (res: Option<usize>)
        ensures final(self).n == old(self).n,
            old(self).i < old(self).n ==> res == Some(old(self).i) && final(self).i == old(self).i + 1,
            old(self).i >= old(self).n ==> res is None && final(self).i == old(self).i
    { if self.i < self.n { let r = self.i; self.i = self.i + 1; Some(r) } else { None } }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxIter<'a, T> { _p: core::marker::PhantomData<&'a T> }
impl<'a, T> VxIter<'a, T> {
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (res: Option<&'a T>)
        ensures final(self).all() == old(self).all(), 0 <= old(self).pos() <= old(self).all().len(),
            old(self).pos() < old(self).all().len() ==> (res matches Some(x) && (*x == old(self).all()[old(self).pos()] && final(self).pos() == old(self).pos() + 1)),
            old(self).pos() >= old(self).all().len() ==> res is None && final(self).pos() == old(self).pos()
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct IntoIter<T> { _p: core::marker::PhantomData<T> }
impl<T> IntoIter<T> {
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (res: Option<T>)
        ensures final(self).all() == old(self).all(), 0 <= old(self).pos() <= old(self).all().len(),
            old(self).pos() < old(self).all().len() ==> res == Some(old(self).all()[old(self).pos()]) && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).all().len() ==> res is None && final(self).pos() == old(self).pos()
    { unimplemented!() }
}
pub trait VxIterable<T> { spec fn vx_seq(&self) -> Seq<T>; fn vx_iter(&self) -> (res: VxIter<'_, T>) ensures res.all() == self.vx_seq(), res.pos() == 0; }
impl<T> VxIterable<T> for [T] {
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter(&self) -> (res: VxIter<'_, T>) { unimplemented!() }
}
impl<T> VxIterable<T> for Vec<T> {
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter(&self) -> (res: VxIter<'_, T>) { unimplemented!() }
}
pub trait VxRefIterable<'a, T> { fn vx_into_iter(self) -> VxIter<'a, T>; }
impl<'a, T> VxRefIterable<'a, T> for &'a [T] {
    #[verifier::external_body]
    fn vx_into_iter(self) -> (res: VxIter<'a, T>) ensures res.all() == self@, res.pos() == 0 { unimplemented!() }
}
pub trait VxIntoIterable<T>: Sized { spec fn vx_iseq(&self) -> Seq<T>; fn vx_into_iter(self) -> (res: IntoIter<T>) ensures res.all() == self.vx_iseq(), res.pos() == 0; }
impl<T> VxIntoIterable<T> for Vec<T> {
    open spec fn vx_iseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (res: IntoIter<T>) { unimplemented!() }
}
