use crate::util::*;
use crate::Case;
use crossmist::{Deserializer, NonTrivialObject, Object, Serializer};
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;

pub fn cases() -> Vec<Case> {
    vec![("C03", "dag", dag), ("C03", "shapes", shapes), ("C03", "custom", custom), ("C03", "temporary", temporary)]
}

#[derive(Object)]
enum Ptr { R(Rc<Node>), A(Arc<Node2>), S(Rc<String>), N }
#[derive(Object)]
struct Node { name: String, kids: Vec<Ptr>, tail: Option<Rc<u32>> }
#[derive(Object)]
struct Node2 { kids: Vec<Ptr>, name: u32 }

fn addr(p: &Ptr) -> Option<usize> {
    Some(match p {
        Ptr::R(x) => Rc::as_ptr(x) as usize,
        Ptr::A(x) => Arc::as_ptr(x) as usize,
        Ptr::S(x) => Rc::as_ptr(x) as usize,
        Ptr::N => return None,
    })
}

#[derive(Default)]
struct Iso { fwd: HashMap<usize, usize>, bwd: HashMap<usize, usize> }
impl Iso {
    /// true if the pair was visited already
    fn pair(&mut self, a: usize, b: usize, what: &str) -> bool {
        let seen = self.fwd.contains_key(&a);
        assert_eq!(*self.fwd.entry(a).or_insert(b), b, "{what}: sharing was lost");
        assert_eq!(*self.bwd.entry(b).or_insert(a), a, "{what}: different objects were merged");
        seen
    }
    fn ptr(&mut self, a: &Ptr, b: &Ptr, what: &str) {
        assert_eq!(std::mem::discriminant(a), std::mem::discriminant(b), "{what}: variant");
        let (Some(x), Some(y)) = (addr(a), addr(b)) else { return };
        if self.pair(x, y, what) { return; }
        match (a, b) {
            (Ptr::R(a), Ptr::R(b)) => self.node(a, b, what),
            (Ptr::A(a), Ptr::A(b)) => {
                assert_eq!(a.name, b.name, "{what}: contents");
                self.ptrs(&a.kids, &b.kids, what)
            }
            (Ptr::S(a), Ptr::S(b)) => assert_eq!(a, b, "{what}: contents"),
            _ => unreachable!(),
        }
    }
    fn node(&mut self, a: &Node, b: &Node, what: &str) {
        assert_eq!(a.name, b.name, "{what}: contents");
        self.ptrs(&a.kids, &b.kids, what);
        match (&a.tail, &b.tail) {
            (Some(x), Some(y)) => {
                assert_eq!(x, y, "{what}: contents");
                self.pair(Rc::as_ptr(x) as usize, Rc::as_ptr(y) as usize, what);
            }
            (None, None) => {}
            _ => panic!("{what}: tail"),
        }
    }
    fn ptrs(&mut self, a: &[Ptr], b: &[Ptr], what: &str) {
        assert_eq!(a.len(), b.len(), "{what}: length");
        for (x, y) in a.iter().zip(b) { self.ptr(x, y, what); }
    }
}
fn clone(p: &Ptr) -> Ptr {
    match p { Ptr::R(x) => Ptr::R(x.clone()), Ptr::A(x) => Ptr::A(x.clone()), Ptr::S(x) => Ptr::S(x.clone()), Ptr::N => Ptr::N }
}

fn dag(ctx: &mut Ctx) {
    for round in 0..ctx.n(300, 8000) {
        let n = 1 + ctx.rng.below(if round % 10 == 0 { 30 } else { 6 });
        let mut pool: Vec<Ptr> = vec![Ptr::N];
        let tails: Vec<Rc<u32>> = (0..3).map(|i| Rc::new(i * 0 + 7)).collect();
        let mut desc = String::new();
        for i in 0..n {
            let k = ctx.rng.below(4);
            let ids: Vec<usize> = (0..k).map(|_| ctx.rng.below(pool.len())).collect();
            let kids: Vec<Ptr> = ids.iter().map(|j| clone(&pool[*j])).collect();
            let kind = ctx.rng.below(3);
            desc += &format!("{}{ids:?} ", ["R", "A", "S"][kind]);
            pool.push(match kind {
                0 => Ptr::R(Rc::new(Node { name: format!("n{}", i % 3), kids, tail: if ctx.rng.bool() { Some(tails[ctx.rng.below(3)].clone()) } else { None } })),
                1 => Ptr::A(Arc::new(Node2 { name: i as u32 % 2, kids })),
                _ => Ptr::S(Rc::new("same".to_string())),
            });
        }
        // several values in one stream, in random order, with repetitions
        let roots: Vec<Vec<Ptr>> = (0..2).map(|_| (0..1 + ctx.rng.below(6)).map(|_| clone(&pool[ctx.rng.below(pool.len())])).collect()).collect();
        ctx.case(&desc);
        // nobody else may hold the pointers that occur once
        if round % 2 == 0 { drop((pool, tails)); }
        let mut s = Serializer::new();
        for r in &roots { s.serialize(r); }
        s.serialize(&SENTINEL);
        let mut d = Deserializer::new(s.into_vec(), vec![]);
        let mut iso = Iso::default();
        let mut keep = Vec::new();
        for r in &roots {
            let q: Vec<Ptr> = unsafe { d.deserialize().expect("deserialize") };
            iso.ptrs(r, &q, &format!("graph {desc}"));
            keep.push(q);
        }
        assert_eq!(unsafe { d.deserialize::<u32>().unwrap() }, SENTINEL, "graph {desc}: stream position is off");
    }
}

fn shapes(ctx: &mut Ctx) {
    // deep chain, shared at several depths
    for depth in [1usize, 2, 3, 10, 300] {
        ctx.case(format!("chain {depth}"));
        let mut all: Vec<Ptr> = vec![Ptr::S(Rc::new("end".into()))];
        for i in 0..depth {
            let kid = clone(all.last().unwrap());
            all.push(if i % 2 == 0 { Ptr::R(Rc::new(Node { name: i.to_string(), kids: vec![kid], tail: None })) } else { Ptr::A(Arc::new(Node2 { name: i as u32, kids: vec![kid] })) });
        }
        for order in 0..3 {
            let v: Vec<Ptr> = match order {
                0 => all.iter().rev().map(clone).collect(),
                1 => all.iter().map(clone).collect(),
                _ => all.iter().rev().chain(all.iter()).map(clone).collect(),
            };
            Iso::default().ptrs(&v, &roundtrip(&v), &format!("chain {depth} order {order}"));
        }
    }
    // many distinct pointers with equal contents stay distinct
    ctx.case("distinct");
    let v: Vec<Rc<u8>> = (0..1000).map(|_| Rc::new(1)).collect();
    let w: Vec<Rc<u8>> = v.iter().chain(v.iter()).cloned().collect();
    let r = roundtrip(&w);
    for i in 0..1000 {
        assert!(Rc::ptr_eq(&r[i], &r[i + 1000]), "pointer {i}: sharing was lost");
        assert_eq!(Rc::strong_count(&r[i]), 2, "pointer {i}: reference count");
    }
    // more pointers than fit a narrow counter; the last ones are met again
    for n in [255usize, 256, 257, 70_000] {
        ctx.case(format!("{n} shared objects"));
        let mut v: Vec<Rc<u32>> = (0..n as u32).map(Rc::new).collect();
        for i in [0, n / 2, n - 2, n - 1] { let x = v[i].clone(); v.push(x); }
        let r = roundtrip(&v);
        assert!(v == r, "{n} objects: contents changed");
        for (k, i) in [0, n / 2, n - 2, n - 1].into_iter().enumerate() { assert!(Rc::ptr_eq(&r[n + k], &r[i]), "object {i} of {n}: sharing was lost"); }
        let mut v: Vec<Arc<String>> = (0..n).map(|i| Arc::new(i.to_string())).collect();
        for i in [n - 1, n / 2] { let x = v[i].clone(); v.push(x); }
        let r = roundtrip(&v);
        assert!(v == r && Arc::ptr_eq(&r[n], &r[n - 1]) && Arc::ptr_eq(&r[n + 1], &r[n / 2]), "{n} Arcs: contents or sharing changed");
    }
    // Rc<Rc<..>> and sharing of inner and outer
    ctx.case("rc of rc");
    let inner = Rc::new("x".to_string());
    let outer = Rc::new((inner.clone(), inner.clone()));
    let (a, b, c, e) = roundtrip(&(outer.clone(), inner.clone(), outer.clone(), Rc::new(inner.clone())));
    assert!(Rc::ptr_eq(&a, &c) && Rc::ptr_eq(&a.0, &b) && Rc::ptr_eq(&a.0, &a.1) && Rc::ptr_eq(&*e, &b));
    ctx.case("rc of unit");
    let u = Rc::new(());
    let (a, b, c) = roundtrip(&(u.clone(), u.clone(), Rc::new(())));
    assert!(Rc::ptr_eq(&a, &b) && !Rc::ptr_eq(&a, &c));
}

struct MyRc<T: 'static>(Rc<T>);
unsafe impl<T: 'static + Object> NonTrivialObject for MyRc<T> {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) {
        match s.learn_cyclic(Rc::as_ptr(&self.0) as *const std::os::raw::c_void) {
            None => {
                s.serialize_temporary(0usize);
                s.serialize(&*self.0);
            }
            Some(id) => s.serialize_temporary(id),
        }
    }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> std::io::Result<Self> {
        match std::num::NonZeroUsize::new(d.deserialize::<usize>()?) {
            None => {
                let id = d.reserve_cyclic();
                let rc = Rc::<T>::new(d.deserialize()?);
                d.learn_reserved_cyclic(id, rc.clone());
                Ok(Self(rc))
            }
            Some(id) => Ok(Self(d.get_cyclic::<Rc<T>>(id).clone())),
        }
    }
}
/// Flat pointer by the simple protocol: learn after the (pointer-free) contents.
struct FlatRc(Rc<String>);
unsafe impl NonTrivialObject for FlatRc {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) {
        match s.learn_cyclic(Rc::as_ptr(&self.0) as *const std::os::raw::c_void) {
            None => {
                s.serialize_temporary(0usize);
                s.serialize(&*self.0);
            }
            Some(id) => s.serialize_temporary(id),
        }
    }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> std::io::Result<Self> {
        match std::num::NonZeroUsize::new(d.deserialize::<usize>()?) {
            None => {
                let rc = Rc::<String>::new(d.deserialize()?);
                d.learn_cyclic(rc.clone());
                Ok(Self(rc))
            }
            Some(id) => Ok(Self(d.get_cyclic::<Rc<String>>(id).clone())),
        }
    }
}

fn custom(ctx: &mut Ctx) {
    ctx.case("custom");
    let s = Rc::new("s".to_string());
    let t = Rc::new("t".to_string());
    let m = Rc::new((MyRc(s.clone()), FlatRc(t.clone()), 4u8));
    let v = (FlatRc(s.clone()), MyRc(m.clone()), s.clone(), m.clone(), FlatRc(t.clone()), MyRc(s.clone()));
    let r = roundtrip(&v);
    assert!(Rc::ptr_eq(&r.0 .0, &r.2) && Rc::ptr_eq(&r.1 .0, &r.3) && Rc::ptr_eq(&r.5 .0, &r.2));
    assert!(Rc::ptr_eq(&r.3 .0 .0, &r.2) && Rc::ptr_eq(&r.3 .1 .0, &r.4 .0) && !Rc::ptr_eq(&r.2, &r.4 .0));
    assert_eq!((&**r.2, &**r.4 .0, r.3 .2), ("s", "t", 4));
}

struct Tmp(Rc<u32>);
unsafe impl NonTrivialObject for Tmp {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) {
        let t = Rc::new(*self.0 + 100);
        s.serialize_temporary((t.clone(), t));
        s.serialize(&self.0);
    }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> std::io::Result<Self> {
        let (a, b): (Rc<u32>, Rc<u32>) = d.deserialize()?;
        assert!(Rc::ptr_eq(&a, &b), "temporary: sharing was lost");
        let p = Self(d.deserialize()?);
        assert_eq!(*p.0 + 100, *a, "temporary: contents");
        Ok(p)
    }
}
fn temporary(ctx: &mut Ctx) {
    ctx.case("temporary");
    let r = Rc::new(5);
    let v = vec![Tmp(r.clone()), Tmp(r.clone()), Tmp(Rc::new(7)), Tmp(r)];
    let w = roundtrip(&v);
    assert_eq!(w.iter().map(|x| *x.0).collect::<Vec<_>>(), [5, 5, 7, 5]);
    assert!(Rc::ptr_eq(&w[0].0, &w[1].0) && Rc::ptr_eq(&w[0].0, &w[3].0) && !Rc::ptr_eq(&w[0].0, &w[2].0));
}
