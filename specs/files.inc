pub trait VxInto<T>: Sized { spec fn vx_converts(self, r: T) -> bool; fn vx_into(self) -> (res: T) ensures self.vx_converts(res); }
// ---- objects that hold one file
#[verifier::external_body]
pub struct File { _p: u8 }
impl File {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn as_handle(&self) -> (res: BorrowedHandle<'_>) ensures res.id() == self.id() { unimplemented!() }
}
#[verifier::external_body]
pub struct TokioFile { _p: u8 }
impl TokioFile {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn as_handle(&self) -> (res: BorrowedHandle<'_>) ensures res.id() == self.id() { unimplemented!() }
}
#[verifier::external_body]
pub struct SmolFile { _p: u8 }
impl SmolFile {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn as_handle(&self) -> (res: BorrowedHandle<'_>) ensures res.id() == self.id() { unimplemented!() }
}
#[verifier::external_body]
pub struct UnixStream { _p: u8 }
impl UnixStream {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn as_handle(&self) -> (res: BorrowedHandle<'_>) ensures res.id() == self.id() { unimplemented!() }
}
#[verifier::external_body]
pub struct TokioUnixStream { _p: u8 }
impl TokioUnixStream {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn as_handle(&self) -> (res: BorrowedHandle<'_>) ensures res.id() == self.id() { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct RawHandle { pub fd: i32, pub id: Ghost<int> }
impl OwnedHandle {
    #[verifier::external_body]
    pub fn into_raw_handle(self) -> (res: RawHandle) ensures res.id@ == self.id() { unimplemented!() }
}
pub trait FromRawHandle: Sized { spec fn fd_id(&self) -> int; fn from_raw_handle(h: RawHandle) -> (res: Self) ensures res.fd_id() == h.id@; }
impl FromRawHandle for TokioFile {
    open spec fn fd_id(&self) -> int { self.id() }
    #[verifier::external_body]
    fn from_raw_handle(h: RawHandle) -> (res: Self) { unimplemented!() }
}
impl TokioUnixStream {
    #[verifier::external_body]
    pub fn from_std(s: UnixStream, vx_w: &mut World) -> (res: Result<TokioUnixStream>)
        ensures final(vx_w).outcome(*old(vx_w), res), res matches Ok(x) ==> x.id() == s.id() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Async<T> { _p: core::marker::PhantomData<T> }
impl<T> Async<T> {
    pub uninterp spec fn inner(&self) -> T;
    #[verifier::external_body]
    pub fn get_ref(&self) -> (res: &T) ensures *res == self.inner() { unimplemented!() }
    #[verifier::external_body]
    pub fn new(x: T, vx_w: &mut World) -> (res: Result<Async<T>>)
        ensures final(vx_w).outcome(*old(vx_w), res), res matches Ok(y) ==> y.inner() == x { unimplemented!() }
}
impl VxInto<File> for OwnedHandle {
    open spec fn vx_converts(self, r: File) -> bool { r.id() == self.id() }
    #[verifier::external_body]
    fn vx_into(self) -> (res: File) { unimplemented!() }
}
impl VxInto<UnixStream> for OwnedHandle {
    open spec fn vx_converts(self, r: UnixStream) -> bool { r.id() == self.id() }
    #[verifier::external_body]
    fn vx_into(self) -> (res: UnixStream) { unimplemented!() }
}
impl VxInto<SmolFile> for File {
    open spec fn vx_converts(self, r: SmolFile) -> bool { r.id() == self.id() }
    #[verifier::external_body]
    fn vx_into(self) -> (res: SmolFile) { unimplemented!() }
}

