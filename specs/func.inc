// ---------------------------------------------------------------- #[func]: what surrounds the generated code
pub type RawHandle = i32;
pub struct IoError { pub k: int }
pub type Result<T> = core::result::Result<T, IoError>;
/// the operating system: processes and sockets
pub struct World { pub any: int }
/// between these two states a child was started whose entry is `e`
pub uninterp spec fn started<E>(a: World, b: World, e: E) -> bool;
/// the message `v` was sent on the channel end `h`
pub uninterp spec fn delivered<T>(h: RawHandle, v: T) -> bool;
pub uninterp spec fn is_void<T>() -> bool;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Child<T> { _p: core::marker::PhantomData<T> }
// a boxed trait object: ASSUMPTION it behaves as what was boxed
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(O)]
pub struct VxDynFnOnceObject<A, O> { _p: core::marker::PhantomData<(A, O)> }
impl<A, O> VxDynFnOnceObject<A, O> {
    pub uninterp spec fn runs(self, args: A) -> bool;
    pub uninterp spec fn gives(self, args: A, out: O) -> bool;
    #[verifier::external_body]
    pub fn call_object_box(self, args: A) -> (res: O) requires self.runs(args), ensures self.gives(args, res) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_as_dyn_FnOnceObject<A, O, F: FnOnceObject<A, Output = O>>(f: Box<F>) -> (res: VxDynFnOnceObject<A, O>)
    ensures forall|a: A| (*f).once_ok(a) ==> #[trigger] res.runs(a), forall|a: A, o: O| #[trigger] res.gives(a, o) ==> (*f).once(a, o) { unimplemented!() }
// proved elsewhere (C13): unwrapping a delayed value gives the value it was made of, here or in the child
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Delayed<T> { _p: core::marker::PhantomData<T> }
impl<T> Delayed<T> {
    pub uninterp spec fn inner(self) -> T;
    #[verifier::external_body]
    pub fn new(v: T) -> (res: Self) ensures res.inner() == v { unimplemented!() }
    #[verifier::external_body]
    pub fn deserialize(self) -> (res: Result<T>) ensures res is Ok ==> res->Ok_0 == self.inner() { unimplemented!() }
}
// a panic of the child ends it without a result (C08)
pub trait VxExpect<T> : Sized { spec fn vx_ok(self) -> Option<T>; fn vx_expect(self, m: &str) -> (res: T) ensures self.vx_ok() == Some(res); }
impl<T> VxExpect<T> for Result<T> {
    open spec fn vx_ok(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    #[verifier::external_body]
    fn vx_expect(self, m: &str) -> (res: T) { unimplemented!() }
}
// the sending end a child is given for its result: one message may be sent on it (C05 shows what sending does)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Sender<T> { _p: core::marker::PhantomData<T> }
impl<T> Sender<T> {
    pub uninterp spec fn raw(&self) -> RawHandle;
    pub uninterp spec fn used(&self) -> bool;
    #[verifier::external_body]
    pub fn from_raw_handle(h: RawHandle) -> (res: Self) ensures res.raw() == h, !res.used() { unimplemented!() }
    #[verifier::external_body]
    pub fn send(&mut self, v: &T) -> (res: Result<()>)
        requires !old(self).used(),
        ensures final(self).used(), final(self).raw() == old(self).raw(), res is Ok ==> delivered(old(self).raw(), *v) { unimplemented!() }
}
#[verifier::external_body]
pub fn imp_if_void<T>() -> (res: Option<T>) ensures res is Some <==> is_void::<T>() { unimplemented!() }
// src/asynchronous.rs spawn (verified in its own unit)
#[verifier::external_body]
pub fn blocking_spawn<T, E: FnOnceObject<(RawHandle,), Output = i32>>(entry: Box<E>, vx_w: &mut World) -> (res: Result<Child<T>>)
    requires forall|h: RawHandle| (*entry).once_ok((h,)),
    ensures res is Ok ==> started(*old(vx_w), *final(vx_w), *entry) { unimplemented!() }
//@world spawn blocking_spawn
//@method expect => vx_expect
//@mode func
//@funcs
