// the address of a function is what calling through it later gives back (fn_at): every impl of FnPtr
//@unsafefns on
pub struct VxFnPtr<T> { _p: core::marker::PhantomData<T> }
impl<T> Clone for VxFnPtr<T> { #[verifier::external_body] fn clone(&self) -> (res: Self) ensures res == *self { unimplemented!() } }
impl<T> Copy for VxFnPtr<T> {}
pub struct VxUnsafeFnPtr<T> { _p: core::marker::PhantomData<T> }
impl<T> Clone for VxUnsafeFnPtr<T> { #[verifier::external_body] fn clone(&self) -> (res: Self) ensures res == *self { unimplemented!() } }
impl<T> Copy for VxUnsafeFnPtr<T> {}
#[verifier::external_body]
pub fn vx_cast_const_unit<F>(f: F) -> (res: VxPtr<()>) ensures fn_at::<F>(res) == f { unimplemented!() }
//@impl FnPtr@fn()->$0
//@fn addr
//@end
//@impl FnPtr@fn($1)->$0
//@fn addr
//@end
//@impl FnPtr@fn($1,$2)->$0
//@fn addr
//@end
//@impl FnPtr@fn($1,$2,$3)->$0
//@fn addr
//@end
//@impl FnPtr@fn($1,$2,$3,$4)->$0
//@fn addr
//@end
//@impl FnPtr@fn($1,$2,$3,$4,$5)->$0
//@fn addr
//@end
//@impl FnPtr@fn($1,$2,$3,$4,$5,$6)->$0
//@fn addr
//@end
//@impl FnPtr@fn($1,$2,$3,$4,$5,$6,$7)->$0
//@fn addr
//@end
//@impl FnPtr@fn($1,$2,$3,$4,$5,$6,$7,$8)->$0
//@fn addr
//@end
//@impl FnPtr@fn($1,$2,$3,$4,$5,$6,$7,$8,$9)->$0
//@fn addr
//@end
//@impl FnPtr@fn($1,$2,$3,$4,$5,$6,$7,$8,$9,$10)->$0
//@fn addr
//@end
//@impl FnPtr@fn($1,$2,$3,$4,$5,$6,$7,$8,$9,$10,$11)->$0
//@fn addr
//@end
//@impl FnPtr@fn($1,$2,$3,$4,$5,$6,$7,$8,$9,$10,$11,$12)->$0
//@fn addr
//@end
//@impl FnPtr@fn($1,$2,$3,$4,$5,$6,$7,$8,$9,$10,$11,$12,$13)->$0
//@fn addr
//@end
//@impl FnPtr@fn($1,$2,$3,$4,$5,$6,$7,$8,$9,$10,$11,$12,$13,$14)->$0
//@fn addr
//@end
//@impl FnPtr@fn($1,$2,$3,$4,$5,$6,$7,$8,$9,$10,$11,$12,$13,$14,$15)->$0
//@fn addr
//@end
//@impl FnPtr@fn($1,$2,$3,$4,$5,$6,$7,$8,$9,$10,$11,$12,$13,$14,$15,$16)->$0
//@fn addr
//@end
//@impl FnPtr@fn($1,$2,$3,$4,$5,$6,$7,$8,$9,$10,$11,$12,$13,$14,$15,$16,$17)->$0
//@fn addr
//@end
//@impl FnPtr@fn($1,$2,$3,$4,$5,$6,$7,$8,$9,$10,$11,$12,$13,$14,$15,$16,$17,$18)->$0
//@fn addr
//@end
//@impl FnPtr@fn($1,$2,$3,$4,$5,$6,$7,$8,$9,$10,$11,$12,$13,$14,$15,$16,$17,$18,$19)->$0
//@fn addr
//@end
//@impl FnPtr@fn($1,$2,$3,$4,$5,$6,$7,$8,$9,$10,$11,$12,$13,$14,$15,$16,$17,$18,$19,$20)->$0
//@fn addr
//@end
//@impl FnPtr@fn($1,$2,$3,$4,$5,$6,$7,$8,$9,$10,$11,$12,$13,$14,$15,$16,$17,$18,$19,$20,$21)->$0
//@fn addr
//@end
//@impl FnPtr@unsafe fn()->$0
//@fn addr
//@end
//@impl FnPtr@unsafe fn($1)->$0
//@fn addr
//@end
//@impl FnPtr@unsafe fn($1,$2)->$0
//@fn addr
//@end
//@impl FnPtr@unsafe fn($1,$2,$3)->$0
//@fn addr
//@end
//@impl FnPtr@unsafe fn($1,$2,$3,$4)->$0
//@fn addr
//@end
//@impl FnPtr@unsafe fn($1,$2,$3,$4,$5)->$0
//@fn addr
//@end
//@impl FnPtr@unsafe fn($1,$2,$3,$4,$5,$6)->$0
//@fn addr
//@end
//@impl FnPtr@unsafe fn($1,$2,$3,$4,$5,$6,$7)->$0
//@fn addr
//@end
//@impl FnPtr@unsafe fn($1,$2,$3,$4,$5,$6,$7,$8)->$0
//@fn addr
//@end
//@impl FnPtr@unsafe fn($1,$2,$3,$4,$5,$6,$7,$8,$9)->$0
//@fn addr
//@end
//@impl FnPtr@unsafe fn($1,$2,$3,$4,$5,$6,$7,$8,$9,$10)->$0
//@fn addr
//@end
//@impl FnPtr@unsafe fn($1,$2,$3,$4,$5,$6,$7,$8,$9,$10,$11)->$0
//@fn addr
//@end
//@impl FnPtr@unsafe fn($1,$2,$3,$4,$5,$6,$7,$8,$9,$10,$11,$12)->$0
//@fn addr
//@end
//@impl FnPtr@unsafe fn($1,$2,$3,$4,$5,$6,$7,$8,$9,$10,$11,$12,$13)->$0
//@fn addr
//@end
//@impl FnPtr@unsafe fn($1,$2,$3,$4,$5,$6,$7,$8,$9,$10,$11,$12,$13,$14)->$0
//@fn addr
//@end
//@impl FnPtr@unsafe fn($1,$2,$3,$4,$5,$6,$7,$8,$9,$10,$11,$12,$13,$14,$15)->$0
//@fn addr
//@end
//@impl FnPtr@unsafe fn($1,$2,$3,$4,$5,$6,$7,$8,$9,$10,$11,$12,$13,$14,$15,$16)->$0
//@fn addr
//@end
//@impl FnPtr@unsafe fn($1,$2,$3,$4,$5,$6,$7,$8,$9,$10,$11,$12,$13,$14,$15,$16,$17)->$0
//@fn addr
//@end
//@impl FnPtr@unsafe fn($1,$2,$3,$4,$5,$6,$7,$8,$9,$10,$11,$12,$13,$14,$15,$16,$17,$18)->$0
//@fn addr
//@end
//@impl FnPtr@unsafe fn($1,$2,$3,$4,$5,$6,$7,$8,$9,$10,$11,$12,$13,$14,$15,$16,$17,$18,$19)->$0
//@fn addr
//@end
//@impl FnPtr@unsafe fn($1,$2,$3,$4,$5,$6,$7,$8,$9,$10,$11,$12,$13,$14,$15,$16,$17,$18,$19,$20)->$0
//@fn addr
//@end
//@impl FnPtr@unsafe fn($1,$2,$3,$4,$5,$6,$7,$8,$9,$10,$11,$12,$13,$14,$15,$16,$17,$18,$19,$20,$21)->$0
//@fn addr
//@end
