// ------------------------------------------------------------------------------------------------
// References to code and statics (src/relocation.rs, src/static_ref.rs, src/unsized_builtins.rs, the
// heap half of src/pod.rs, StaticFn of src/fns.rs).
//
// The executable image of a process is loaded somewhere: an address inside it is base() + its position
// in the image, where base() is the load address of this process (of its anchor), and the position is
// the same in every process that runs the same executable.
// ------------------------------------------------------------------------------------------------
global size_of usize == 8;
pub uninterp spec fn base() -> usize;
pub open spec fn wrap(x: int) -> int { x % 0x1_0000_0000_0000_0000 }
pub open spec fn pos_in(base: int, a: int) -> int { wrap(a - base) }
pub open spec fn at_in(base: int, p: int) -> int { wrap(base + p) }
pub open spec fn pos_of(a: int) -> int { pos_in(base() as int, a) }
pub open spec fn at_pos(p: int) -> int { at_in(base() as int, p) }

pub struct Error { pub e: u8 }
pub type Result<T, E = Error> = core::result::Result<T, E>;
#[verifier::external_body]
pub fn vx_panic() -> ! requires false { unimplemented!() }

// ---- pointers: an address and, for a pointer to a trait object, the address of the implementation's table
pub struct VxPtr<T: ?Sized> { pub a: Ghost<int>, pub m: Ghost<int>, pub _p: core::marker::PhantomData<T> }
impl<T: ?Sized> VxPtr<T> {
    pub open spec fn addr(self) -> int { self.a@ }
    pub open spec fn meta(self) -> int { self.m@ }
}
impl<T: ?Sized> Clone for VxPtr<T> { #[verifier::external_body] fn clone(&self) -> (res: Self) ensures res == *self { unimplemented!() } }
impl<T: ?Sized> Copy for VxPtr<T> {}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxFnPtr<T> { _p: core::marker::PhantomData<T> }
impl<T> VxFnPtr<T> { pub uninterp spec fn addr(self) -> int; }
impl<T> Clone for VxFnPtr<T> { #[verifier::external_body] fn clone(&self) -> (res: Self) ensures res == *self { unimplemented!() } }
impl<T> Copy for VxFnPtr<T> {}
pub uninterp spec fn ref_addr<T: ?Sized>(x: &T) -> int;
/// what is stored at an address
pub uninterp spec fn at<T>(a: int) -> T;

/// things with an address
pub trait VxAddr: Sized { spec fn va(self) -> int; }
impl<T: ?Sized> VxAddr for VxPtr<T> { open spec fn va(self) -> int { self.addr() } }
impl<T> VxAddr for VxFnPtr<T> { open spec fn va(self) -> int { self.addr() } }
impl<'b, T> VxAddr for &'b T { open spec fn va(self) -> int { ref_addr(self) } }
impl VxAddr for usize { open spec fn va(self) -> int { self as int } }
#[verifier::external_body]
pub fn vx_as_usize<X: VxAddr>(x: X) -> (res: usize) ensures res as int == x.va() { unimplemented!() }
#[verifier::external_body]
pub fn vx_cast_const_T<X: VxAddr, T>(x: X) -> (res: VxPtr<T>) ensures res.addr() == x.va() { unimplemented!() }
#[verifier::external_body]
pub fn vx_cast_const_unit<X: VxAddr>(x: X) -> (res: VxPtr<()>) ensures res.addr() == x.va() { unimplemented!() }
#[verifier::external_body]
pub fn vx_cast_mut_unit<X: VxAddr>(x: X) -> (res: VxPtr<()>) ensures res.addr() == x.va() { unimplemented!() }
#[verifier::external_body]
pub fn vx_ptr_ref<'b, T>(p: VxPtr<T>) -> (res: &'b T) ensures *res == at::<T>(p.addr()), ref_addr(res) == p.addr() { unimplemented!() }
#[verifier::external_body]
pub fn ptr_null<T>() -> (res: VxPtr<T>) ensures res.addr() == 0 { unimplemented!() }

// ---- memory images made of words
/// a reference or pointer to T is two words: T is a trait object
pub uninterp spec fn is_dyn<T: ?Sized>() -> bool;
pub trait VxWords { spec fn words(&self) -> Seq<int>; spec fn width() -> nat; }
impl VxWords for usize { open spec fn words(&self) -> Seq<int> { seq![*self as int] } open spec fn width() -> nat { 1 } }
impl<T: ?Sized> VxWords for VxPtr<T> {
    open spec fn words(&self) -> Seq<int> { if is_dyn::<T>() { seq![self.addr(), self.meta()] } else { seq![self.addr()] } }
    open spec fn width() -> nat { if is_dyn::<T>() { 2 } else { 1 } }
}
/// the position of the table of implementations for the type of the value
pub uninterp spec fn vtable<T: ?Sized>(x: &T) -> usize;
impl<'b, T: ?Sized> VxWords for &'b T {
    open spec fn words(&self) -> Seq<int> { if is_dyn::<T>() { seq![ref_addr(*self), at_pos(vtable(*self) as int)] } else { seq![ref_addr(*self)] } }
    open spec fn width() -> nat { if is_dyn::<T>() { 2 } else { 1 } }
}
impl<T> VxWords for VxFnPtr<T> { open spec fn words(&self) -> Seq<int> { seq![self.addr()] } open spec fn width() -> nat { 1 } }
impl<T> VxWords for RelocatablePtr<T> { open spec fn words(&self) -> Seq<int> { seq![self.0.addr()] } open spec fn width() -> nat { 1 } }
#[verifier::external_body]
pub fn mem_size_of<X: VxWords>() -> (res: usize) ensures res == 8 * X::width() { unimplemented!() }
pub uninterp spec fn vx_align<X>() -> usize;
#[verifier::external_body]
pub fn mem_align_of<X>() -> (res: usize) ensures res == vx_align::<X>(), res >= 1 { unimplemented!() }
#[verifier::external_body]
pub fn mem_transmute_copy<S: VxWords, D: VxWords>(x: &S) -> (res: D)
    requires S::width() >= D::width()
    ensures D::width() >= 1 ==> res.words()[0] == x.words()[0], D::width() >= 2 ==> res.words()[1] == x.words()[1] { unimplemented!() }
#[verifier::external_body]
pub fn mem_transmute<S: VxWords, D: VxWords>(x: S) -> (res: D)
    requires S::width() == D::width()
    ensures D::width() >= 1 ==> res.words()[0] == x.words()[0], D::width() >= 2 ==> res.words()[1] == x.words()[1] { unimplemented!() }
#[verifier::external_body]
pub fn vx_write_address<T: ?Sized, U>(p: &mut VxPtr<T>, v: VxPtr<U>) ensures final(p).addr() == v.addr(), final(p).meta() == old(p).meta() { unimplemented!() }

// ---- the serializer and the deserializer (contracts: unit u1)
#[verifier::external_body]
pub struct Serializer<'fd> { _p: core::marker::PhantomData<&'fd u8> }
#[verifier::external_body]
pub struct Deserializer { _p: u8 }
pub open spec fn put_word(n: int, s: SerSt, t: SerSt) -> bool { t == s.put(word_bytes(n)) }
pub open spec fn get_word(n: int, d: DeSt, e: DeSt) -> bool { d.can(WORD()) && d.peek(WORD()) == word_bytes(n) && e == d.adv(WORD()) }
/// values without handles and shared pointers: what may be serialized although it does not stay
pub trait VxPlain {}
impl VxPlain for usize {}
impl<T> VxPlain for RelocatablePtr<T> {}
impl<'fd> Serializer<'fd> {
    pub uninterp spec fn st(&self) -> SerSt;
    #[verifier::external_body]
    pub fn serialize<T: Object>(&mut self, x: &'fd T) ensures x.enc(old(self).st(), final(self).st()) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_temporary<T: Object + VxPlain>(&mut self, x: T) ensures x.enc(old(self).st(), final(self).st()) { unimplemented!() }
}
impl Deserializer {
    pub uninterp spec fn st(&self) -> DeSt;
    #[verifier::external_body]
    pub fn deserialize<T: Object>(&mut self) -> (res: Result<T>)
        requires exists|x: T, e: DeSt| #[trigger] x.dec(old(self).st(), e)
        ensures res matches Ok(x) ==> x.dec(old(self).st(), final(self).st())
    { unimplemented!() }
}

// ---- the traits.  enc/dec: what serializing the value appends, what deserializing it reads.  For a
// trait object: those of the value behind it, whatever its type.
pub uninterp spec fn is_pod<T: ?Sized>() -> bool;
//@trait NonTrivialObject
//@members
    spec fn nt_enc(&self, s: SerSt, t: SerSt) -> bool;
    spec fn nt_dec(&self, d: DeSt, e: DeSt) -> bool;
//@fn serialize_self_non_trivial
    requires !is_pod::<Self>()
    ensures self.nt_enc(old($arg0).st(), final($arg0).st())
//@fn deserialize_self_non_trivial
    requires !is_pod::<Self>(), exists|x: Self, e: DeSt| #[trigger] x.nt_dec(old($arg0).st(), e)
    ensures res matches Ok(x) ==> x.nt_dec(old($arg0).st(), final($arg0).st())
//@end
/// the position of the function that decodes a T onto the heap
pub uninterp spec fn decoder<T>() -> usize;
/// at this address on the heap is a value of the type whose decoder is at this position, read from d up to e
pub uninterp spec fn made(a: int, dec: int, d: DeSt, e: DeSt) -> bool;
/// the decoder at this position can decode what comes next
pub uninterp spec fn readable(dec: int, d: DeSt) -> bool;
//@trait Object
//@skip serialize_slice
//@members
    spec fn enc(&self, s: SerSt, t: SerSt) -> bool;
    spec fn dec(&self, d: DeSt, e: DeSt) -> bool;
    /// the position of the decoder of the type of the value
    spec fn kind(&self) -> usize;
//@fn serialize_self
    ensures self.enc(old($arg0).st(), final($arg0).st())
//@fn deserialize_self
    requires exists|x: Self, e: DeSt| #[trigger] x.dec(old($arg0).st(), e)
    ensures res matches Ok(x) ==> x.dec(old($arg0).st(), final($arg0).st())
//@fn deserialize_on_heap
    requires exists|x: Self, e: DeSt| #[trigger] x.dec(old($arg0).st(), e)
    ensures res matches Ok(p) ==> made(p.addr(), decoder::<Self>() as int, old($arg0).st(), final($arg0).st())
//@fn deserialize_on_heap_get
    ensures res.addr() == at_pos(self.kind() as int)
//@end
/// the memory image of a plain value
pub uninterp spec fn image<T>(x: T) -> Seq<u8>;
pub open spec fn reads<T: NonTrivialObject>(x: T, d: DeSt, e: DeSt) -> bool {
    if is_pod::<T>() { d.can(image(x).len()) && d.peek(image(x).len()) == image(x) && e == d.adv(image(x).len()) } else { x.nt_dec(d, e) }
}
//@impl Object@$0
//@skip serialize_slice
//@members
    open spec fn enc(&self, s: SerSt, t: SerSt) -> bool { if is_pod::<$0>() { t == s.put(image(*self)) } else { self.nt_enc(s, t) } }
    open spec fn dec(&self, d: DeSt, e: DeSt) -> bool { reads(*self, d, e) }
    open spec fn kind(&self) -> usize { decoder::<$0>() }
//@fn serialize_self assumed
//@fn deserialize_self assumed
//@fn deserialize_on_heap
//@fn deserialize_on_heap_get
//@end
pub broadcast axiom fn ax_usize_pod() ensures #[trigger] is_pod::<usize>();
pub broadcast axiom fn ax_usize_image(x: usize) ensures #[trigger] image(x) == word_bytes(x as int);
impl NonTrivialObject for usize {
    open spec fn nt_enc(&self, s: SerSt, t: SerSt) -> bool { false }
    open spec fn nt_dec(&self, d: DeSt, e: DeSt) -> bool { false }
    #[verifier::external_body] fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) { unimplemented!() }
    #[verifier::external_body] fn deserialize_self_non_trivial(d: &mut Deserializer) -> Result<Self> { unimplemented!() }
}
impl<T> NonTrivialObject for core::marker::PhantomData<T> {
    uninterp spec fn nt_enc(&self, s: SerSt, t: SerSt) -> bool;
    uninterp spec fn nt_dec(&self, d: DeSt, e: DeSt) -> bool;
    #[verifier::external_body] fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) { unimplemented!() }
    #[verifier::external_body] fn deserialize_self_non_trivial(d: &mut Deserializer) -> Result<Self> { unimplemented!() }
}
use core::marker::PhantomData;
use core::ops::Deref;

// ---- boxes and the heap
#[verifier::external_body]
pub fn vx_box_into_raw<T: NonTrivialObject>(b: Box<T>) -> (res: VxPtr<T>)
    ensures forall|d: DeSt, e: DeSt| #[trigger] reads(*b, d, e) ==> made(res.addr(), decoder::<T>() as int, d, e) { unimplemented!() }
/// a pointer to what a decoder made, with the table of its type if it is a trait object, is that value
#[verifier::external_body]
pub fn vx_box_from_raw<T: Object + ?Sized>(p: VxPtr<T>) -> (res: Box<T>)
    ensures forall|b: Box<T>, d: DeSt, e: DeSt| #[trigger] made(p.addr(), (*b).kind() as int, d, e) && (is_dyn::<T>() ==> p.meta() == at_pos(vtable(&*b) as int))
        ==> (*res).kind() == (*b).kind() && vtable(&*res) == vtable(&*b) && (*res).dec(d, e) { unimplemented!() }
/// what can be read as a value of some type can be read by the decoder of that type
pub axiom fn ax_fits<T: Object + ?Sized>(x: &T, d: DeSt, e: DeSt) requires x.dec(d, e) ensures readable(x.kind() as int, d);
#[verifier::external_body]
pub fn vx_call_at<X>(f: VxFnPtr<X>, d: &mut Deserializer) -> (res: Result<VxPtr<()>>)
    requires readable(pos_of(f.addr()), old(d).st())
    ensures res matches Ok(p) ==> made(p.addr(), pos_of(f.addr()), old(d).st(), final(d).st()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fn_deserialize_on_heap<T>() -> (res: VxFnPtr<(&'static mut Deserializer, Result<VxPtr<()>>)>) ensures res.addr() == at_pos(decoder::<T>() as int) { unimplemented!() }
/// a function of the executable
#[verifier::external_body]
pub fn vx_fn_drop<X>() -> (res: VxFnPtr<X>) ensures res.addr() == base() { unimplemented!() }
pub trait VxBoxRef<T: ?Sized> { fn vx_as_ref(&self) -> &T; }
impl<T: ?Sized> VxBoxRef<T> for Box<T> {
    #[verifier::external_body]
    fn vx_as_ref(&self) -> (res: &T) ensures res == &**self { unimplemented!() }
}

// ---- positions
//@static BASE_ADDRESS
    ensures res.addr() == base()
//@end
//@type RelocatablePtr
//@end
//@impl Clone@RelocatablePtr<$0>
//@fn clone
    ensures res == *self
//@end
//@impl Copy@RelocatablePtr<$0>
//@end
//@impl NonTrivialObject@RelocatablePtr<$0>
//@members
    open spec fn nt_enc(&self, s: SerSt, t: SerSt) -> bool { put_word(pos_of(self.0.addr()), s, t) }
    open spec fn nt_dec(&self, d: DeSt, e: DeSt) -> bool { get_word(pos_of(self.0.addr()), d, e) && 0 <= self.0.addr() <= usize::MAX }
//@fn serialize_self_non_trivial
//@pre
    broadcast use ax_usize_pod, ax_usize_image;
//@fn deserialize_self_non_trivial
//@pre
    broadcast use ax_usize_pod, ax_usize_image, ax_word_len;
    proof {
        let (x, e) = choose|x: Self, e: DeSt| #[trigger] x.nt_dec($arg0.st(), e);
        let w = pos_of(x.0.addr()) as usize;
        assert(w as int == pos_of(x.0.addr()));
        assert(w.dec($arg0.st(), e));
    }
//@end
/// the pointer is transferred as its position (the type is not plain data)
//@notpod ax_not_pod: RelocatablePtr<T> StaticRef<T> StaticFn<F> Box<T>
broadcast group ax_ptr_not_pod { ax_not_pod_0, ax_not_pod_1, ax_not_pod_2, ax_not_pod_3 }
//@type StaticRef
//@end
//@impl Clone@StaticRef<$0>
//@fn clone
    ensures res == *self
//@end
//@impl Copy@StaticRef<$0>
//@end
//@impl StaticRef<$0>
//@fn new_unchecked
    ensures res.ptr.0.addr() == ref_addr($arg0)
//@fn get
    ensures ref_addr(res) == self.ptr.0.addr(), *res == at::<$0>(self.ptr.0.addr())
//@end
//@impl Deref@StaticRef<$0>
//@fn deref
    ensures ref_addr(res) == self.ptr.0.addr(), *res == at::<$0>(self.ptr.0.addr())
//@end
//@impl NonTrivialObject@StaticRef<$0>
//@members
    open spec fn nt_enc(&self, s: SerSt, t: SerSt) -> bool { self.ptr.enc(s, t) }
    open spec fn nt_dec(&self, d: DeSt, e: DeSt) -> bool { self.ptr.dec(d, e) }
//@fn serialize_self_non_trivial
//@fn deserialize_self_non_trivial
//@pre
    proof {
        let (x, e) = choose|x: Self, e: DeSt| #[trigger] x.nt_dec($arg0.st(), e);
        assert(x.ptr.dec($arg0.st(), e));
    }
//@end

// ---- functions
pub trait FnPtr: Copy + VxWords {
    proof fn one_word() ensures Self::width() == 1;
    fn addr(self) -> (res: VxPtr<()>) ensures self.words()[0] == res.addr();
}
//@type StaticFn
//@end
//@impl StaticFn<$0>
//@skip _F_IS_POINTER_SIZED
//@fn new
    ensures $arg0.words()[0] == res.ptr.0.addr()
//@fn get_fn
    ensures res.words()[0] == self.ptr.0.addr()
//@pre
    proof { $0::one_word(); }
//@end
//@impl NonTrivialObject@StaticFn<$0>
//@members
    open spec fn nt_enc(&self, s: SerSt, t: SerSt) -> bool { exists|u: SerSt| #[trigger] self.ptr.enc(s, u) && self.phantom.enc(u, t) }
    open spec fn nt_dec(&self, d: DeSt, e: DeSt) -> bool { exists|u: DeSt| #[trigger] self.ptr.dec(d, u) && self.phantom.dec(u, e) }
//@fn serialize_self_non_trivial
//@fn deserialize_self_non_trivial
//@pre
    broadcast use ax_ptr_not_pod;
    proof {
        let (x, e) = choose|x: Self, e: DeSt| #[trigger] x.nt_dec($arg0.st(), e);
        let u = choose|u: DeSt| #[trigger] x.ptr.dec($arg0.st(), u) && x.phantom.dec(u, e);
        assert(x.ptr.dec($arg0.st(), u));
        assert(u == $arg0.st().adv(WORD()));
        assert(x.phantom.dec(u, e));
    }
//@end

pub open spec fn pointer_to(a: int) -> RelocatablePtr<()> { RelocatablePtr(VxPtr { a: Ghost(a), m: Ghost(0), _p: core::marker::PhantomData }) }
// ---- boxed values, sized and trait objects
//@type DynFatPtr
//@end
//@words DynFatPtr
//@type TypeClass
//@attr #[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@end
//@impl TypeClass
//@fn of
    ensures res == (if is_dyn::<T>() { TypeClass::Dyn } else { TypeClass::Sized })
//@end
//@impl NonTrivialObject@Box<$0>
//@members
    open spec fn nt_enc(&self, s: SerSt, t: SerSt) -> bool {
        let u = if is_dyn::<$0>() { s.put(word_bytes(vtable(&**self) as int)) } else { s };
        (**self).enc(u.put(word_bytes((**self).kind() as int)), t)
    }
    open spec fn nt_dec(&self, d: DeSt, e: DeSt) -> bool {
        let u = if is_dyn::<$0>() { d.adv(WORD()) } else { d };
        (is_dyn::<$0>() ==> get_word(vtable(&**self) as int, d, u)) && get_word((**self).kind() as int, u, u.adv(WORD())) && (**self).dec(u.adv(WORD()), e)
    }
//@fn serialize_self_non_trivial
//@pre
    broadcast use ax_ptr_not_pod;
//@fn deserialize_self_non_trivial
//@pre
    broadcast use ax_ptr_not_pod, ax_word_len, ax_word_inj;
    let ghost d0 = $arg0.st();
    let ghost (b, e) = choose|b: Self, e: DeSt| #[trigger] b.nt_dec(d0, e);
    let ghost u = if is_dyn::<$0>() { d0.adv(WORD()) } else { d0 };
    proof {
        if is_dyn::<$0>() { assert(pointer_to(at_pos(vtable(&*b) as int)).dec(d0, u)); }
        assert(pointer_to(at_pos((*b).kind() as int)).dec(u, u.adv(WORD())));
        ax_fits(&*b, u.adv(WORD()), e);
    }
//@end

/// any message: references are transferred as the positions they point to
pub proof fn c11_references<T, F: FnPtr>(r: StaticRef<T>, f: StaticFn<F>, s: SerSt, t: SerSt, d: DeSt, e: DeSt)
    ensures r.enc(s, t) ==> put_word(pos_of(r.ptr.0.addr()), s, t), r.dec(d, e) ==> get_word(pos_of(r.ptr.0.addr()), d, e),
        f.enc(s, t) ==> f.phantom.enc(s.put(word_bytes(pos_of(f.ptr.0.addr()))), t), f.dec(d, e) ==> f.phantom.dec(d.adv(WORD()), e) && get_word(pos_of(f.ptr.0.addr()), d, d.adv(WORD()))
{ broadcast use ax_ptr_not_pod; }
// ---- what it comes to: two processes, whose images are loaded at a and at b
/// what is sent for a pointer is its position: it does not depend on where the image is loaded
pub proof fn c11_position_only(a: usize, b: usize, off: int)
    ensures pos_in(a as int, at_in(a as int, off)) == pos_in(b as int, at_in(b as int, off))
{ }
/// and what is received for it points to the same place of the other image
pub proof fn c11_relocated(a: usize, b: usize, off: int, q: int)
    requires 0 <= q <= usize::MAX, word_bytes(pos_in(b as int, q)) == word_bytes(pos_in(a as int, at_in(a as int, off)))
    ensures q == at_in(b as int, off)
{ broadcast use ax_word_inj; }
/// a box that was read from what was written for another one has the same implementation and the same contents' type
pub proof fn c11_same_implementation<T: Object + ?Sized>(x: Box<T>, y: Box<T>, s: SerSt, t: SerSt, d: DeSt, e: DeSt)
    requires x.nt_enc(s, t), y.nt_dec(d, e),
        is_dyn::<T>() ==> d.peek(2 * WORD()) == word_bytes(vtable(&*x) as int) + word_bytes((*x).kind() as int),
        !is_dyn::<T>() ==> d.peek(WORD()) == word_bytes((*x).kind() as int)
    ensures (*x).kind() == (*y).kind(), is_dyn::<T>() ==> vtable(&*x) == vtable(&*y)
{
    broadcast use ax_word_len, ax_word_inj;
    if is_dyn::<T>() {
        let p = d.peek(2 * WORD());
        assert(d.peek(WORD()) =~= p.take(WORD() as int));
        assert(p.take(WORD() as int) =~= word_bytes(vtable(&*x) as int));
        assert(d.adv(WORD()).peek(WORD()) =~= p.skip(WORD() as int));
        assert(p.skip(WORD() as int) =~= word_bytes((*x).kind() as int));
    }
}
