// ------------------------------------------------------------------------------------------------
// The wire format and the round-trip argument.  Nothing in this file comes from the crate; it is the
// mathematical side: what a value is (Val), what its type is (Ty), what serializing means (ser), what
// deserializing means (de), and the proof that they are inverse (lemma_rt).  The contracts say that the
// crate's functions compute exactly ser and de.
// ------------------------------------------------------------------------------------------------
pub type AllocId = int;

pub enum Ty {
    Pod(int, nat),            // memory image of a plain type (its TypeId, its size)
    Handle,
    Nil,
    Cons(Box<Ty>, Box<Ty>),
    Sum(bool, Seq<Ty>),       // true: one-byte tag, false: word-sized tag
    Rep(nat, Box<Ty>),        // fixed number of elements, no length
    List(Box<Ty>),            // length, then elements
    Shared(int, Box<Ty>),     // of one pointer type (its TypeId)
}

pub enum Val {
    Pod(Seq<u8>),
    Handle(int),              // open file description
    Nil,
    Cons(Box<Val>, Box<Val>),
    Alt(nat, Box<Val>),
    List(Seq<Val>),
    Shared(AllocId, Box<Val>),
}

pub uninterp spec fn word_bytes(n: int) -> Seq<u8>;       // memory image of a usize
pub uninterp spec fn bool_bytes(b: bool) -> Seq<u8>;      // memory image of a bool
pub broadcast axiom fn ax_word_len(n: int)
    ensures #[trigger] word_bytes(n).len() == WORD();
pub broadcast axiom fn ax_word_inj(a: int, b: int)
    requires 0 <= a <= usize::MAX, 0 <= b <= usize::MAX, #[trigger] word_bytes(a) == #[trigger] word_bytes(b),
    ensures a == b;
pub broadcast axiom fn ax_bool_len(b: bool)
    ensures #[trigger] bool_bytes(b).len() == 1;
pub axiom fn ax_bool_inj()
    ensures bool_bytes(true) != bool_bytes(false);
pub uninterp spec fn valid_pod(id: int, b: Seq<u8>) -> bool;   // the bytes are the image of some value of the type
pub uninterp spec fn WORD() -> nat;
pub axiom fn ax_word_size() ensures WORD() == 8;

pub open spec fn tag_bytes(small: bool, k: nat) -> Seq<u8> {
    if small { bool_bytes(k == 1) } else { word_bytes(k as int) }
}
pub open spec fn tag_len(small: bool) -> nat { if small { 1 } else { WORD() } }

// ---- serialization state
pub struct SerSt { pub data: Seq<u8>, pub hs: Seq<int>, pub cyc: IMap<AllocId, int>, pub n: int }
impl SerSt {
    pub open spec fn put(self, b: Seq<u8>) -> SerSt { SerSt { data: self.data + b, ..self } }
    pub open spec fn push(self, h: int) -> SerSt { SerSt { hs: self.hs.push(h), ..self } }
    pub open spec fn learn(self, a: AllocId) -> SerSt { SerSt { cyc: self.cyc.insert(a, self.n + 1), n: self.n + 1, ..self } }
}
pub open spec fn ser0() -> SerSt { SerSt { data: seq![], hs: seq![], cyc: IMap::empty(), n: 0 } }
pub open spec fn ser0n(n: int) -> SerSt { SerSt { data: seq![], hs: seq![], cyc: IMap::empty(), n } }

#[verifier::opaque]
pub open spec fn ser(ty: Ty, v: Val, s: SerSt) -> SerSt
    decreases ty, 0nat
{
    match (ty, v) {
        (Ty::Pod(..), Val::Pod(b)) => s.put(b),
        (Ty::Handle, Val::Handle(h)) => s.push(h),
        (Ty::Cons(a, b), Val::Cons(x, y)) => ser(*b, *y, ser(*a, *x, s)),
        (Ty::Sum(bt, ts), Val::Alt(k, x)) => if k < ts.len() { ser(ts[k as int], *x, s.put(tag_bytes(bt, k))) } else { s },
        (Ty::Rep(_, t), Val::List(vs)) => ser_rep(*t, vs, s),
        (Ty::List(t), Val::List(vs)) => ser_rep(*t, vs, s.put(word_bytes(vs.len() as int))),
        (Ty::Shared(_, t), Val::Shared(a, x)) => if s.cyc.contains_key(a) { s.put(word_bytes(s.cyc[a])) }
            else { ser(*t, *x, s.learn(a).put(word_bytes(0))) },
        _ => s,
    }
}
#[verifier::opaque]
pub open spec fn ser_rep(ty: Ty, vs: Seq<Val>, s: SerSt) -> SerSt
    decreases ty, vs.len() + 1
{
    if vs.len() == 0 { s } else { ser_rep(ty, vs.drop_first(), ser(ty, vs[0], s)) }
}

pub broadcast proof fn ser_pod(id: int, n: nat, b: Seq<u8>, s: SerSt)
    ensures #[trigger] ser(Ty::Pod(id, n), Val::Pod(b), s) == s.put(b)
{ reveal(ser); reveal(ser_rep); }
pub broadcast proof fn ser_handle(h: int, s: SerSt)
    ensures #[trigger] ser(Ty::Handle, Val::Handle(h), s) == s.push(h)
{ reveal(ser); reveal(ser_rep); }
pub broadcast proof fn ser_nil(s: SerSt)
    ensures #[trigger] ser(Ty::Nil, Val::Nil, s) == s
{ reveal(ser); reveal(ser_rep); }
pub broadcast proof fn ser_cons(a: Box<Ty>, b: Box<Ty>, x: Box<Val>, y: Box<Val>, s: SerSt)
    ensures #[trigger] ser(Ty::Cons(a, b), Val::Cons(x, y), s) == ser(*b, *y, ser(*a, *x, s))
{ reveal(ser); reveal(ser_rep); }
pub broadcast proof fn ser_sum(bt: bool, ts: Seq<Ty>, k: nat, x: Box<Val>, s: SerSt)
    requires k < ts.len()
    ensures #[trigger] ser(Ty::Sum(bt, ts), Val::Alt(k, x), s) == ser(ts[k as int], *x, s.put(tag_bytes(bt, k)))
{ reveal(ser); reveal(ser_rep); }
pub broadcast proof fn ser_repeat(n: nat, t: Box<Ty>, vs: Seq<Val>, s: SerSt)
    ensures #[trigger] ser(Ty::Rep(n, t), Val::List(vs), s) == ser_rep(*t, vs, s)
{ reveal(ser); reveal(ser_rep); }
pub broadcast proof fn ser_list(t: Box<Ty>, vs: Seq<Val>, s: SerSt)
    ensures #[trigger] ser(Ty::List(t), Val::List(vs), s) == ser_rep(*t, vs, s.put(word_bytes(vs.len() as int)))
{ reveal(ser); reveal(ser_rep); }
pub broadcast proof fn ser_shared(id: int, t: Box<Ty>, a: AllocId, x: Box<Val>, s: SerSt)
    ensures #[trigger] ser(Ty::Shared(id, t), Val::Shared(a, x), s) == (if s.cyc.contains_key(a) { s.put(word_bytes(s.cyc[a])) }
            else { ser(*t, *x, s.learn(a).put(word_bytes(0))) })
{ reveal(ser); reveal(ser_rep); }
pub proof fn ser_rep_nil(t: Ty, vs: Seq<Val>, s: SerSt)
    requires vs.len() == 0
    ensures ser_rep(t, vs, s) == s
{ reveal(ser); reveal(ser_rep); }
pub proof fn ser_rep_step(t: Ty, vs: Seq<Val>, s: SerSt)
    requires vs.len() > 0
    ensures ser_rep(t, vs, s) == ser_rep(t, vs.drop_first(), ser(t, vs[0], s))
{ reveal(ser); reveal(ser_rep); }
/// what is left after the first i elements
pub open spec fn ser_from(t: Ty, vs: Seq<Val>, i: int, s: SerSt) -> SerSt { ser_rep(t, vs.skip(i), s) }
pub broadcast proof fn ser_from_zero(t: Ty, vs: Seq<Val>, s: SerSt)
    ensures #[trigger] ser_from(t, vs, 0, s) == ser_rep(t, vs, s)
{ assert(vs.skip(0) =~= vs); }
pub broadcast proof fn ser_from_end(t: Ty, vs: Seq<Val>, i: int, s: SerSt)
    requires i == vs.len()
    ensures #[trigger] ser_from(t, vs, i, s) == s
{ assert(vs.skip(i).len() == 0); ser_rep_nil(t, vs.skip(i), s); }
pub proof fn ser_from_step(t: Ty, vs: Seq<Val>, i: int, s: SerSt)
    requires 0 <= i < vs.len()
    ensures ser_from(t, vs, i, s) == ser_from(t, vs, i + 1, ser(t, vs[i], s))
{ ser_rep_step(t, vs.skip(i), s); assert(vs.skip(i).drop_first() =~= vs.skip(i + 1)); assert(vs.skip(i)[0] == vs[i]); }
pub broadcast proof fn ser_from_step_b(t: Ty, vs: Seq<Val>, i: int, s: SerSt)
    requires 0 <= i < vs.len()
    ensures #[trigger] ser_from(t, vs, i, s) == ser_from(t, vs, i + 1, ser(t, vs[i], s))
{ ser_from_step(t, vs, i, s) }

// ---- deserialization state.  cyc[k]: contents of the (k+1)-th shared pointer, None while it is being built.
pub struct DeSt { pub data: Seq<u8>, pub pos: int, pub hs: Seq<int>, pub hpos: int, pub cyc: Seq<Option<(int, Val)>>, pub sid: int }
impl DeSt {
    pub open spec fn can(self, n: nat) -> bool { 0 <= self.pos && self.pos + n <= self.data.len() }
    pub open spec fn peek(self, n: nat) -> Seq<u8> { self.data.subrange(self.pos, self.pos + n) }
    pub open spec fn adv(self, n: nat) -> DeSt { DeSt { pos: self.pos + n, ..self } }
    pub open spec fn reserve(self) -> DeSt { DeSt { cyc: self.cyc.push(None), ..self } }
    pub open spec fn fill(self, i: int, id: int, v: Val) -> DeSt { DeSt { cyc: self.cyc.update(i, Some((id, v))), ..self } }
}
pub open spec fn de0(data: Seq<u8>, hs: Seq<int>, sid: int) -> DeSt { DeSt { data, pos: 0, hs, hpos: 0, cyc: seq![], sid } }
/// the allocation made for the k-th shared pointer of a decoding session
pub uninterp spec fn alloc_name(sid: int, k: int) -> AllocId;

pub open spec fn de_word(d: DeSt) -> Option<int> {
    if d.can(WORD()) && (exists|k: int| 0 <= k <= usize::MAX && word_bytes(k) == d.peek(WORD())) {
        Some(choose|k: int| 0 <= k <= usize::MAX && word_bytes(k) == d.peek(WORD()))
    } else { None }
}
pub open spec fn de_tag(small: bool, d: DeSt) -> Option<int> {
    if small {
        if !d.can(1) { None } else if d.peek(1) == bool_bytes(false) { Some(0int) } else if d.peek(1) == bool_bytes(true) { Some(1int) } else { None }
    } else { de_word(d) }
}
pub broadcast proof fn de_word_is(d: DeSt, k: int)
    requires 0 <= k <= usize::MAX, d.can(WORD()), d.peek(WORD()) == #[trigger] word_bytes(k)
    ensures #[trigger] de_word(d) == Some(k)
{
    broadcast use ax_word_inj;
    let c = choose|k: int| 0 <= k <= usize::MAX && word_bytes(k) == d.peek(WORD());
    assert(0 <= c <= usize::MAX && word_bytes(c) == d.peek(WORD()));
    ax_word_inj(c, k);
}

#[verifier::opaque]
pub open spec fn de(ty: Ty, d: DeSt) -> Option<(Val, DeSt)>
    decreases ty, 0nat
{
    match ty {
        Ty::Pod(id, n) => if d.can(n) && valid_pod(id, d.peek(n)) { Some((Val::Pod(d.peek(n)), d.adv(n))) } else { None },
        Ty::Handle => if 0 <= d.hpos < d.hs.len() { Some((Val::Handle(d.hs[d.hpos]), DeSt { hpos: d.hpos + 1, ..d })) } else { None },
        Ty::Nil => Some((Val::Nil, d)),
        Ty::Cons(a, b) => match de(*a, d) {
            None => None,
            Some((x, d1)) => match de(*b, d1) { None => None, Some((y, d2)) => Some((Val::Cons(Box::new(x), Box::new(y)), d2)) },
        },
        Ty::Sum(bt, ts) => match de_tag(bt, d) {
            None => None,
            Some(k) => if 0 <= k < ts.len() {
                match de(ts[k], d.adv(tag_len(bt))) { None => None, Some((x, d1)) => Some((Val::Alt(k as nat, Box::new(x)), d1)) }
            } else { None },
        },
        Ty::Rep(n, t) => match de_rep(*t, n, d) { None => None, Some((vs, d1)) => Some((Val::List(vs), d1)) },
        Ty::List(t) => match de_word(d) {
            None => None,
            Some(k) => match de_rep(*t, k as nat, d.adv(WORD())) { None => None, Some((vs, d1)) => Some((Val::List(vs), d1)) },
        },
        Ty::Shared(id, t) => match de_word(d) {
            None => None,
            Some(k) => if k == 0 {
                match de(*t, d.adv(WORD()).reserve()) {
                    None => None,
                    Some((x, d1)) => if d.cyc.len() < d1.cyc.len() <= usize::MAX {
                        Some((Val::Shared(alloc_name(d.sid, d.cyc.len() as int + 1), Box::new(x)), d1.fill(d.cyc.len() as int, id, x)))
                    } else { None },
                }
            } else if 1 <= k <= d.cyc.len() {
                match d.cyc[k - 1] { None => None, Some((i, x)) => if i == id { Some((Val::Shared(alloc_name(d.sid, k), Box::new(x)), d.adv(WORD()))) } else { None } }
            } else { None },
        },
    }
}
#[verifier::opaque]
pub open spec fn de_rep(ty: Ty, n: nat, d: DeSt) -> Option<(Seq<Val>, DeSt)>
    decreases ty, n + 1
{
    if n == 0 { Some((seq![], d)) } else {
        match de(ty, d) {
            None => None,
            Some((x, d1)) => match de_rep(ty, (n - 1) as nat, d1) { None => None, Some((vs, d2)) => Some((seq![x] + vs, d2)) },
        }
    }
}
pub broadcast proof fn de_pod(id: int, n: nat, d: DeSt)
    ensures #[trigger] de(Ty::Pod(id, n), d) == (if d.can(n) && valid_pod(id, d.peek(n)) { Some((Val::Pod(d.peek(n)), d.adv(n))) } else { None })
{ reveal(de); reveal(de_rep); }
pub broadcast proof fn de_handle(d: DeSt)
    ensures #[trigger] de(Ty::Handle, d) == (if 0 <= d.hpos < d.hs.len() { Some((Val::Handle(d.hs[d.hpos]), DeSt { hpos: d.hpos + 1, ..d })) } else { None })
{ reveal(de); reveal(de_rep); }
pub broadcast proof fn de_nil(d: DeSt)
    ensures #[trigger] de(Ty::Nil, d) == Some((Val::Nil, d))
{ reveal(de); reveal(de_rep); }
pub broadcast proof fn de_cons(a: Box<Ty>, b: Box<Ty>, d: DeSt)
    ensures #[trigger] de(Ty::Cons(a, b), d) == (match de(*a, d) {
            None => None,
            Some((x, d1)) => match de(*b, d1) { None => None, Some((y, d2)) => Some((Val::Cons(Box::new(x), Box::new(y)), d2)) },
        })
{ reveal(de); reveal(de_rep); }
pub broadcast proof fn de_sum(bt: bool, ts: Seq<Ty>, d: DeSt)
    ensures #[trigger] de(Ty::Sum(bt, ts), d) == (match de_tag(bt, d) {
            None => None,
            Some(k) => if 0 <= k < ts.len() {
                match de(ts[k], d.adv(tag_len(bt))) { None => None, Some((x, d1)) => Some((Val::Alt(k as nat, Box::new(x)), d1)) }
            } else { None },
        })
{ reveal(de); reveal(de_rep); }
pub broadcast proof fn de_repeat(n: nat, t: Box<Ty>, d: DeSt)
    ensures #[trigger] de(Ty::Rep(n, t), d) == (match de_rep(*t, n, d) { None => None, Some((vs, d1)) => Some((Val::List(vs), d1)) })
{ reveal(de); reveal(de_rep); }
pub broadcast proof fn de_list(t: Box<Ty>, d: DeSt)
    ensures #[trigger] de(Ty::List(t), d) == (match de_word(d) {
            None => None,
            Some(k) => match de_rep(*t, k as nat, d.adv(WORD())) { None => None, Some((vs, d1)) => Some((Val::List(vs), d1)) },
        })
{ reveal(de); reveal(de_rep); }
pub broadcast proof fn de_shared(id: int, t: Box<Ty>, d: DeSt)
    ensures #[trigger] de(Ty::Shared(id, t), d) == (match de_word(d) {
            None => None,
            Some(k) => if k == 0 {
                match de(*t, d.adv(WORD()).reserve()) {
                    None => None,
                    Some((x, d1)) => if d.cyc.len() < d1.cyc.len() <= usize::MAX {
                        Some((Val::Shared(alloc_name(d.sid, d.cyc.len() as int + 1), Box::new(x)), d1.fill(d.cyc.len() as int, id, x)))
                    } else { None },
                }
            } else if 1 <= k <= d.cyc.len() {
                match d.cyc[k - 1] { None => None, Some((i, x)) => if i == id { Some((Val::Shared(alloc_name(d.sid, k), Box::new(x)), d.adv(WORD()))) } else { None } }
            } else { None },
        })
{ reveal(de); reveal(de_rep); }
pub broadcast proof fn de_rep_zero(t: Ty, d: DeSt)
    ensures #[trigger] de_rep(t, 0, d) == Some((Seq::<Val>::empty(), d))
{ reveal(de_rep); reveal(de); }
pub proof fn de_rep_step(t: Ty, n: nat, d: DeSt)
    requires n > 0
    ensures de_rep(t, n, d) == (match de(t, d) {
            None => None,
            Some((x, d1)) => match de_rep(t, (n - 1) as nat, d1) { None => None, Some((vs, d2)) => Some((seq![x] + vs, d2)) },
        })
{ reveal(de_rep); reveal(de); }
/// `acc` elements are already decoded, `n` are left
pub open spec fn de_more(acc: Seq<Val>, t: Ty, n: int, d: DeSt) -> Option<(Seq<Val>, DeSt)> {
    match de_rep(t, n as nat, d) { None => None, Some((vs, d1)) => Some((acc + vs, d1)) }
}
pub broadcast proof fn de_more_start(t: Ty, n: int, d: DeSt)
    ensures #[trigger] de_more(Seq::<Val>::empty(), t, n, d) == de_rep(t, n as nat, d)
{ if let Some((vs, d1)) = de_rep(t, n as nat, d) { assert(Seq::<Val>::empty() + vs =~= vs); } }
pub broadcast proof fn de_more_end(acc: Seq<Val>, t: Ty, d: DeSt)
    ensures #[trigger] de_more(acc, t, 0, d) == Some((acc, d))
{ de_rep_zero(t, d); assert(acc + Seq::<Val>::empty() =~= acc); }
pub broadcast proof fn de_more_step(acc: Seq<Val>, t: Ty, n: int, d: DeSt)
    requires n > 0
    ensures #[trigger] de_more(acc, t, n, d) == (match de(t, d) { None => None, Some((x, d1)) => de_more(acc.push(x), t, n - 1, d1) })
{
    de_rep_step(t, n as nat, d);
    if let Some((x, d1)) = de(t, d) {
        if let Some((vs, d2)) = de_rep(t, (n - 1) as nat, d1) {
            assert(acc + (seq![x] + vs) =~= acc.push(x) + vs);
        }
    }
}
pub broadcast group group_ser { ser_pod, ser_handle, ser_nil, ser_cons, ser_sum, ser_repeat, ser_list, ser_shared, ser_from_zero, ser_from_end }
pub broadcast group group_de { de_pod, de_handle, de_nil, de_cons, de_sum, de_repeat, de_list, de_shared, de_more_start, de_more_end }

pub open spec fn rv<A>(o: Option<(A, DeSt)>) -> A { o.unwrap().0 }
pub open spec fn rd<A>(o: Option<(A, DeSt)>) -> DeSt { o.unwrap().1 }
