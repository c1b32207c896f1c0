// ---------------------------------------------------------------- C10: theorems over the contracts
// values bound one after another reach the function in the order of binding, before the arguments of the call
pub proof fn c10_values<F: FnOnceObject<(A, B, C, D)>, A, B, C, D>(f: BoundValue<BoundValue<F, A>, B>, c: C, d: D, out: F::Output)
    ensures
        f.once_ok((c, d)) == f.func.func.once_ok((f.func.head, f.head, c, d)),
        f.once((c, d), out) == f.func.func.once((f.func.head, f.head, c, d), out),
{ }
// the same for a shared call, whichever way each is bound
pub proof fn c10_shared<F: Copy + for<'a, 'b> FnOnceObject<(&'a A, &'b B, C), Output = O> + for<'a, 'b> FnMutObject<(&'a A, &'b B, C)> + for<'a, 'b> FnObject<(&'a A, &'b B, C)>, A, B, C, O>(f: BoundRef<BoundRef<F, A>, B>, c: C, out: O)
    ensures
        f.func.shared((&f.head, c), out) == f.func.func.shared((&f.func.head, &f.head, c), out),
{ }
// through any number of wrappers and boxes
pub proof fn c10_wrapped<F: InternalFnOnce<(A, B)>, A, B>(f: BoundValue<CallWrapper<F>, A>, b: B, out: F::Output)
    ensures
        Box::new(f).once((b,), out) == f.func.0.i_once((f.head, b), out),
{ }
// a captured mutable reference: what one call leaves behind is what the next call starts from
#[verifier::prophetic]
pub open spec fn calls<F: for<'a> FnMutObject<(&'a mut A, B), Output = O> + for<'a> FnOnceObject<(&'a mut A, B), Output = O>, A, B, O>(st: Seq<BoundMut<F, A>>, args: Seq<B>, outs: Seq<O>) -> bool {
    &&& st.len() == args.len() + 1
    &&& outs.len() == args.len()
    &&& forall|i: int| 0 <= i < args.len() ==> BoundMut::<F, A>::many(#[trigger] st[i], (args[i],), st[i + 1], outs[i])
}
pub proof fn c10_persist<F: for<'a> FnMutObject<(&'a mut A, B), Output = O> + for<'a> FnOnceObject<(&'a mut A, B), Output = O>, A, B, O>(st: Seq<BoundMut<F, A>>, args: Seq<B>, outs: Seq<O>, i: int)
    requires calls::<F, A, B, O>(st, args, outs), 0 <= i < args.len(),
    ensures exists|m: &mut A, g: F| *m == st[i].head && *final(m) == st[i + 1].head && g == st[i + 1].func && F::many(st[i].func, (m, args[i]), g, outs[i]),
{ assert(BoundMut::<F, A>::many(st[i], (args[i],), st[i + 1], outs[i])); }
