//@mode fns
// ---------------------------------------------------------------- C10: what a call of a function object is
// A function object is described by relations between its state, the argument tuple and the result:
//   once_ok/once, many_ok/many, shared_ok/shared for the three ways of calling it.
// `many` also relates the state before and after the call.
//@trait FnOnceObject
//@header pub trait FnOnceObject<Args>: Sized
//@members
spec fn once_ok(self, args: Args) -> bool;
spec fn once(self, args: Args, out: Self::Output) -> bool;
//@fn call_object_once
requires self.once_ok(args),
ensures self.once(args, res),
//@fn call_object_box
requires (*self).once_ok(args),
ensures (*self).once(args, res),
//@end
//@trait FnMutObject
//@members
spec fn many_ok(self, args: Args) -> bool;
#[verifier::prophetic] spec fn many(pre: Self, args: Args, post: Self, out: Self::Output) -> bool;
//@fn call_object_mut
requires (*old(self)).many_ok(args),
ensures Self::many(*old(self), args, *final(self), res),
//@end
//@trait FnObject
//@members
spec fn shared_ok(self, args: Args) -> bool;
spec fn shared(self, args: Args, out: Self::Output) -> bool;
//@fn call_object
requires (*self).shared_ok(args),
ensures (*self).shared(args, res),
//@end
//@trait InternalFnOnce
//@header pub trait InternalFnOnce<Args>: Sized
//@members
spec fn i_once_ok(self, args: Args) -> bool;
spec fn i_once(self, args: Args, out: Self::Output) -> bool;
//@fn call_object_once
requires self.i_once_ok(args),
ensures self.i_once(args, res),
//@end
//@trait InternalFnMut
//@members
spec fn i_many_ok(self, args: Args) -> bool;
#[verifier::prophetic] spec fn i_many(pre: Self, args: Args, post: Self, out: Self::Output) -> bool;
//@fn call_object_mut
requires (*old(self)).i_many_ok(args),
ensures Self::i_many(*old(self), args, *final(self), res),
//@end
//@trait InternalFn
//@members
spec fn i_shared_ok(self, args: Args) -> bool;
spec fn i_shared(self, args: Args, out: Self::Output) -> bool;
//@fn call_object
requires (*self).i_shared_ok(args),
ensures (*self).i_shared(args, res),
//@end
//@type CallWrapper
//@end
// a wrapped function is the function
use core::ops::Deref;
//@impl Deref@CallWrapper<$0>
//@fn deref
    ensures *res == self.0
//@end
//@impl FnOnceObject<$0>@CallWrapper<$1>
//@members
open spec fn once_ok(self, args: $0) -> bool { self.0.i_once_ok(args) }
open spec fn once(self, args: $0, out: $1::Output) -> bool { self.0.i_once(args, out) }
//@end
//@impl FnMutObject<$0>@CallWrapper<$1>
//@members
open spec fn many_ok(self, args: $0) -> bool { self.0.i_many_ok(args) }
#[verifier::prophetic] open spec fn many(pre: Self, args: $0, post: Self, out: $1::Output) -> bool { $1::i_many(pre.0, args, post.0, out) }
//@end
//@impl FnObject<$0>@CallWrapper<$1>
//@members
open spec fn shared_ok(self, args: $0) -> bool { self.0.i_shared_ok(args) }
open spec fn shared(self, args: $0, out: $1::Output) -> bool { self.0.i_shared(args, out) }
//@end
// a boxed function is the function
//@impl FnOnceObject<$0>@Box<$1>
//@members
open spec fn once_ok(self, args: $0) -> bool { (*self).once_ok(args) }
open spec fn once(self, args: $0, out: $1::Output) -> bool { (*self).once(args, out) }
//@end
//@type BoundValue
//@end
//@type BoundMut
//@end
//@type BoundRef
//@end
//@trait BindValue
//@fn bind_value
ensures res.func == self, res.head == head,
//@end
//@trait BindMut
//@fn bind_mut
ensures res.func == self, res.head == head,
//@end
//@trait BindRef
//@fn bind_ref
ensures res.func == self, res.head == head,
//@end
// function pointers: the stored address stands for the function it was made from
pub struct VxPtr<T> { pub a: Ghost<int>, pub _p: core::marker::PhantomData<T> }
impl<T> Clone for VxPtr<T> { fn clone(&self) -> (res: Self) ensures res == *self { *self } }
impl<T> Copy for VxPtr<T> {}
pub uninterp spec fn fn_at<F>(p: VxPtr<()>) -> F;
pub struct RelocatablePtr<T>(pub VxPtr<T>);
impl<T> Clone for RelocatablePtr<T> { #[verifier::external_body] fn clone(&self) -> (res: Self) ensures res == *self { unimplemented!() } }
impl<T> Copy for RelocatablePtr<T> {}
use std::marker::PhantomData;
pub trait FnPtr: Copy {
    fn addr(self) -> (res: VxPtr<()>) ensures fn_at::<Self>(res) == self;
}
#[verifier::external_body]
pub fn mem_transmute_copy<S, F>(p: &VxPtr<()>) -> (res: F) ensures res == fn_at::<F>(*p) { unimplemented!() }
//@type StaticFn
//@end
impl<F: FnPtr> Clone for StaticFn<F> { #[verifier::external_body] fn clone(&self) -> (res: Self) ensures res == *self { unimplemented!() } }
impl<F: FnPtr> Copy for StaticFn<F> {}
impl<F: FnPtr> StaticFn<F> {
    pub closed spec fn fun(self) -> F { fn_at(self.ptr.0) }
}
//@impl StaticFn<$0>
//@skip _F_IS_POINTER_SIZED
//@fn new
ensures res.fun() == f,
//@fn get_fn
ensures res == self.fun(),
//@end
//@bound
