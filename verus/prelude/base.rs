// stand-ins for the parts of core/alloc the code uses; every contract here is trusted
#[verifier::external_body]
pub fn vp_panic<T>() -> (res: T) requires false { panic!() }
pub fn vp_assert(b: bool) requires b { }

/// a raw pointer, with the value it is made from
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Ptr<T> { p: *const T }
impl<T> Ptr<T> {
    pub uninterp spec fn v(self) -> T;
    #[verifier::external_body]
    pub fn of(r: &T) -> (res: Ptr<T>) ensures res.v() == *r { Ptr { p: r } }
}

pub trait VpClone: Sized { fn vp_clone(&self) -> (res: Self) ensures res == *self; }
impl<T> VpClone for T {
    #[verifier::external_body]
    fn vp_clone(&self) -> (res: Self) { unimplemented!() }
}

pub uninterp spec fn dflt<T>() -> T;
pub trait VpDefault: Sized { fn vp_default() -> (res: Self) ensures res == dflt::<Self>(); }
impl<T> VpDefault for T {
    #[verifier::external_body]
    fn vp_default() -> (res: Self) { unimplemented!() }
}

pub trait VpInto<T>: Sized {
    spec fn into_rel(self, res: T) -> bool;
    fn vp_into(self) -> (res: T) ensures self.into_rel(res);
}
pub trait VpFrom<T>: Sized {
    spec fn from_rel(other: T, res: Self) -> bool;
    fn vp_from(other: T) -> (res: Self) ensures Self::from_rel(other, res);
}
impl<T, U: VpFrom<T>> VpInto<U> for T {
    open spec fn into_rel(self, res: U) -> bool { U::from_rel(self, res) }
    fn vp_into(self) -> (res: U) { U::vp_from(self) }
}
impl<T> VpFrom<T> for T {
    open spec fn from_rel(other: T, res: T) -> bool { res == other }
    fn vp_from(other: T) -> (res: T) { other }
}
impl<T> VpFrom<Box<T>> for Arc<T> {
    open spec fn from_rel(other: Box<T>, res: Arc<T>) -> bool { *res == *other }
    #[verifier::external_body]
    fn vp_from(other: Box<T>) -> (res: Arc<T>) { unimplemented!() }
}

pub trait VpUnwrap: Sized { type Out; spec fn un_ok(self) -> bool; spec fn un(self) -> Self::Out;
    fn vp_unwrap(self) -> (res: Self::Out) requires self.un_ok() ensures res == self.un(); }
impl<T> VpUnwrap for Option<T> { type Out = T;
    open spec fn un_ok(self) -> bool { self is Some }
    open spec fn un(self) -> T { self->0 }
    fn vp_unwrap(self) -> (res: T) { match self { Some(x) => x, None => vp_panic() } } }
impl<T, E> VpUnwrap for Result<T, E> { type Out = T;
    open spec fn un_ok(self) -> bool { self is Ok }
    open spec fn un(self) -> T { self->Ok_0 }
    fn vp_unwrap(self) -> (res: T) { match self { Ok(x) => x, Err(_) => vp_panic() } } }

pub enum Cow<'a, T> { Borrowed(&'a T), Owned(T) }
impl<'a, T> Cow<'a, T> {
    pub open spec fn val(self) -> T { match self { Cow::Borrowed(x) => *x, Cow::Owned(x) => x } }
    pub fn vp_into_owned(self) -> (res: T) ensures res == self.val() { match self { Cow::Borrowed(x) => x.vp_clone(), Cow::Owned(x) => x } }
}

pub trait VpPtrEq { spec fn same(&self, o: &Self) -> bool; /* the converse reads an equal value as the same allocation, which is right for clones */ fn vp_ptr_eq(a: &Self, b: &Self) -> (res: bool) ensures res == a.same(b); }
impl<T> VpPtrEq for Arc<T> {
    open spec fn same(&self, o: &Self) -> bool { *self == *o }
    #[verifier::external_body]
    fn vp_ptr_eq(a: &Self, b: &Self) -> (res: bool) { Arc::ptr_eq(a, b) }
}

pub trait VpAsRef<'a> { type Out; spec fn ar(&'a self, o: Self::Out) -> bool; fn vp_as_ref(&'a self) -> (res: Self::Out) ensures self.ar(res); }
impl<'a, T: 'a> VpAsRef<'a> for Option<T> { type Out = Option<&'a T>;
    open spec fn ar(&'a self, o: Option<&'a T>) -> bool { match *self { Some(x) => o == Some(&x), None => o is None } }
    fn vp_as_ref(&'a self) -> (res: Option<&'a T>) { match self { Some(x) => Some(x), None => None } } }
impl<'a, T: 'a> VpAsRef<'a> for Arc<T> { type Out = &'a T;
    open spec fn ar(&'a self, o: &'a T) -> bool { *o == **self }
    fn vp_as_ref(&'a self) -> (res: &'a T) { &**self } }

// ---- what a visitor does, as a log of events of any kind ----
#[verifier::external_body]
pub struct Ev { }
pub type VpLog = Ghost<Seq<Ev>>;
pub fn vp_nil() -> (res: VpLog) ensures res@ == Seq::<Ev>::empty() { Ghost(Seq::empty()) }
pub fn vp_add(log: &mut VpLog, e: VpLog) ensures final(log)@ == old(log)@ + e@ { *log = Ghost(log@ + e@); }
