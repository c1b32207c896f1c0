use crate::util::*;
use crate::Case;
use crossmist::Object;

pub fn cases() -> Vec<Case> {
    vec![("C02", "structs", structs), ("C02", "enums", enums), ("C02", "big-enum", big), ("C02", "pod-decision", pod_decision), ("C02", "field-names", names), ("C02", "attributes", attributes)]
}

#[derive(Object, Debug, PartialEq, Clone)]
struct Unit;
#[derive(Object, Debug, PartialEq, Clone)]
struct Tup0();
#[derive(Object, Debug, PartialEq, Clone)]
struct Named0 {}
#[derive(Object, Debug, PartialEq, Clone)]
struct One(String);
#[derive(Object, Debug, PartialEq, Clone)]
struct Pods { a: u8, b: u64, c: u16, d: [u32; 3], e: bool }
#[derive(Object, Debug, PartialEq, Clone)]
struct SameStr { a: String, b: String, c: String, d: String }
#[derive(Object, Debug, PartialEq, Clone)]
struct SameTup(String, String, String, Vec<String>, String);
#[derive(Object, Debug, PartialEq, Clone)]
struct Mixed { x: u8, s1: String, y: u64, s2: Option<String>, z: u8, u: Unit, v: Vec<Pods> }
#[derive(Object, Debug, PartialEq, Clone)]
struct Gen<T: Object, U: Object + Clone>(T, U, T);
#[derive(Object, Debug, PartialEq, Clone)]
struct GenWhere<T> where T: Object { a: T, b: Vec<T> }
#[derive(Object, Debug, PartialEq, Clone)]
struct Konst<T: Object, const N: usize>([T; N], u8);
#[derive(Object, Debug, PartialEq, Clone)]
struct Ten { a: u16, b: u16, c: u16, d: u16, e: u16, f: u16, g: u16, h: u16, i: u16, j: u16 }
#[derive(Object, Debug, PartialEq, Clone)]
struct LastNonPod(u8, u16, u32, String);
#[derive(Object, Debug, PartialEq, Clone)]
struct FirstNonPod(String, u8, u16, u32);
#[derive(Object, Debug, PartialEq, Clone)]
struct Nest { a: Gen<String, u8>, b: (Mixed2, Mixed2), c: Option<Box<Nest>> }
#[derive(Object, Debug, PartialEq, Clone)]
struct Mixed2 { b: u8, a: String }
#[derive(Object, Debug, PartialEq, Clone)]
struct Ph<T> { m: std::marker::PhantomData<fn(T) -> T>, x: u32, s: String }

fn structs(ctx: &mut Ctx) {
    rt(ctx, "Unit", vec![Unit; 3]);
    rt(ctx, "Tup0", vec![Tup0(), Tup0()]);
    rt(ctx, "Named0", vec![Named0 {}]);
    for _ in 0..ctx.n(50, 1000) {
        let mut s = || ctx.rng.string(6);
        let (a, b, c, d) = (s(), s(), s(), s());
        let x = ctx.rng.next();
        rt(ctx, "One", vec![One(a.clone()), One(b.clone())]);
        let pods = Pods { a: x as u8, b: x, c: (x >> 8) as u16, d: [x as u32, 1, (x >> 20) as u32], e: x & 1 == 1 };
        rt(ctx, "Pods", vec![pods.clone(), pods.clone()]);
        rt(ctx, "SameStr", vec![SameStr { a: a.clone(), b: b.clone(), c: c.clone(), d: d.clone() }]);
        rt(ctx, "SameTup", vec![SameTup(a.clone(), b.clone(), c.clone(), vec![d.clone(), a.clone()], c.clone())]);
        rt(ctx, "Mixed", vec![Mixed { x: x as u8, s1: a.clone(), y: x, s2: if x & 2 == 0 { Some(b.clone()) } else { None }, z: (x >> 3) as u8, u: Unit, v: vec![pods.clone(); (x & 3) as usize] }]);
        rt(ctx, "Gen", vec![Gen(a.clone(), x as u8, b.clone())]);
        rt(ctx, "Gen2", vec![Gen(x as u8, a.clone(), 7u8)]);
        rt(ctx, "Gen3", vec![Gen(x as u8, x, 7u8)]);
        rt(ctx, "GenWhere", vec![GenWhere { a: a.clone(), b: vec![b.clone(), c.clone()] }]);
        rt(ctx, "GenWhere", vec![GenWhere { a: x, b: vec![1, x] }]);
        rt(ctx, "Konst", vec![Konst([a.clone(), b.clone(), c.clone()], 5)]);
        rt(ctx, "Konst", vec![Konst([x as u16, 3], 5), Konst([9, 8], 6)]);
        rt(ctx, "Ten", vec![Ten { a: x as u16, b: 2, c: 3, d: 4, e: 5, f: 6, g: 7, h: 8, i: 9, j: (x >> 16) as u16 }]);
        rt(ctx, "LastNonPod", vec![LastNonPod(x as u8, x as u16, x as u32, a.clone()); 2]);
        rt(ctx, "FirstNonPod", vec![FirstNonPod(a.clone(), x as u8, x as u16, x as u32); 2]);
        let m = |i: u8, s: &str| Mixed2 { b: i, a: s.into() };
        let leaf = Nest { a: Gen(a.clone(), 1, b.clone()), b: (m(1, &c), m(2, &d)), c: None };
        rt(ctx, "Nest", vec![Nest { c: Some(Box::new(leaf.clone())), ..leaf.clone() }]);
        rt(ctx, "Ph", vec![Ph::<std::rc::Rc<u8>> { m: std::marker::PhantomData, x: x as u32, s: a.clone() }]);
    }
}

#[derive(Object, Debug, PartialEq, Clone)]
enum AllUnit { A, B, C, D }
#[derive(Object, Debug, PartialEq, Clone)]
#[allow(dead_code)]
enum Explicit { A = 7, B = 3, C = 200 }
#[derive(Object, Debug, PartialEq, Clone)]
enum PodEnum { A(u8), B { x: u64, y: u8 }, C, D(u16, u16) }
#[derive(Object, Debug, PartialEq, Clone)]
enum Same { A(String, String), B(String, String), C { p: String, q: String }, D { q: String, p: String } }
#[derive(Object, Debug, PartialEq, Clone)]
enum Mix<T: Object> { A, B(T), C(u8, T, u8), D { s: T, d: u32, t: Vec<T> }, E(Box<Mix<T>>), F() , G {} }
#[derive(Object, Debug, PartialEq, Clone)]
enum Single { Only(String) }
#[derive(Object, Debug, PartialEq, Clone)]
enum LateNonPod { A(u8), B(u8, u32), C(u8, String) }

fn enums(ctx: &mut Ctx) {
    use AllUnit as U;
    rt(ctx, "AllUnit", vec![U::A, U::B, U::C, U::D, U::A]);
    rt(ctx, "Explicit", vec![Explicit::A, Explicit::B, Explicit::C]);
    rt(ctx, "Vec<AllUnit>", vec![vec![U::D, U::C, U::B, U::A], vec![]]);
    for _ in 0..ctx.n(50, 1000) {
        let x = ctx.rng.next();
        let (a, b) = (ctx.rng.string(5), ctx.rng.string(5));
        rt(ctx, "PodEnum", vec![PodEnum::A(x as u8), PodEnum::B { x, y: 3 }, PodEnum::C, PodEnum::D(1, x as u16)]);
        rt(ctx, "Same", vec![
            Same::A(a.clone(), b.clone()), Same::B(a.clone(), b.clone()),
            Same::C { p: a.clone(), q: b.clone() }, Same::D { p: a.clone(), q: b.clone() },
        ]);
        let mk = |s: &String| vec![
            Mix::A, Mix::B(s.clone()), Mix::C(x as u8, s.clone(), (x >> 8) as u8),
            Mix::D { s: s.clone(), d: x as u32, t: vec![s.clone(); (x & 3) as usize] },
            Mix::E(Box::new(Mix::E(Box::new(Mix::B(s.clone()))))), Mix::F(), Mix::G {},
        ];
        rt(ctx, "Mix<String>", mk(&a));
        rt(ctx, "Vec<Mix<String>>", vec![mk(&a), mk(&b)]);
        rt(ctx, "Mix<u16>", vec![Mix::A, Mix::B(x as u16), Mix::C(1, x as u16, 2), Mix::D { s: 4u16, d: 5, t: vec![6] }, Mix::E(Box::new(Mix::A)), Mix::F(), Mix::G {}]);
        rt(ctx, "Single", vec![Single::Only(a.clone())]);
        rt(ctx, "LateNonPod", vec![LateNonPod::A(1), LateNonPod::B(2, x as u32), LateNonPod::C(3, a.clone())]);
        rt(ctx, "Option<Mix>", vec![Some(Mix::B(a.clone())), None, Some(Mix::A)]);
    }
}

macro_rules! digits { ($m:ident) => { $m! { 
 V000 V001 V002 V003 V004 V005 V006 V007 V008 V009 V010 V011 V012 V013 V014 V015 V016 V017 V018 V019 V020 V021 V022 V023 V024 V025 V026 V027 V028 V029 V030 V031
 V032 V033 V034 V035 V036 V037 V038 V039 V040 V041 V042 V043 V044 V045 V046 V047 V048 V049 V050 V051 V052 V053 V054 V055 V056 V057 V058 V059 V060 V061 V062 V063
 V064 V065 V066 V067 V068 V069 V070 V071 V072 V073 V074 V075 V076 V077 V078 V079 V080 V081 V082 V083 V084 V085 V086 V087 V088 V089 V090 V091 V092 V093 V094 V095
 V096 V097 V098 V099 V100 V101 V102 V103 V104 V105 V106 V107 V108 V109 V110 V111 V112 V113 V114 V115 V116 V117 V118 V119 V120 V121 V122 V123 V124 V125 V126 V127
 V128 V129 V130 V131 V132 V133 V134 V135 V136 V137 V138 V139 V140 V141 V142 V143 V144 V145 V146 V147 V148 V149 V150 V151 V152 V153 V154 V155 V156 V157 V158 V159
 V160 V161 V162 V163 V164 V165 V166 V167 V168 V169 V170 V171 V172 V173 V174 V175 V176 V177 V178 V179 V180 V181 V182 V183 V184 V185 V186 V187 V188 V189 V190 V191
 V192 V193 V194 V195 V196 V197 V198 V199 V200 V201 V202 V203 V204 V205 V206 V207 V208 V209 V210 V211 V212 V213 V214 V215 V216 V217 V218 V219 V220 V221 V222 V223
 V224 V225 V226 V227 V228 V229 V230 V231 V232 V233 V234 V235 V236 V237 V238 V239 V240 V241 V242 V243 V244 V245 V246 V247 V248 V249 V250 V251 V252 V253 V254 V255
 V256 V257 V258 V259 V260 V261 V262 V263 V264 V265 V266 V267 V268 V269 V270 V271 V272 V273 V274 V275 V276 V277 V278 V279 V280 V281 V282 V283 V284 V285 V286 V287
} } }
macro_rules! mkbig { ($($v:ident)*) => {
    #[derive(Object, Debug, PartialEq, Clone)]
    enum Big { $($v(String),)* Last { s: String, n: u64 } }
    fn bigs(s: &str) -> Vec<Big> { let mut v = vec![$(Big::$v(s.to_string())),*]; v.push(Big::Last { s: s.into(), n: 5 }); v }
    #[derive(Object, Debug, PartialEq, Clone)]
    enum BigUnit { $($v,)* S(String) }
    fn bigunits() -> Vec<BigUnit> { vec![$(BigUnit::$v,)* BigUnit::S("x".into())] }
} }
digits!(mkbig);

fn big(ctx: &mut Ctx) {
    for s in ["", "x", "longer string"] {
        for v in bigs(s) {
            rt(ctx, "Big", vec![v]);
        }
        rt(ctx, "Vec<Big>", vec![bigs(s)]);
    }
    rt(ctx, "BigUnit", bigunits());
}

/// A type with a field that is not plain data must never be copied as a memory image:
/// the decoded value must own fresh allocations and fields with custom conversions must run them.
#[derive(Object, Debug, PartialEq, Clone)]
struct OptsA { a: Option<u8>, b: Option<String> }
#[derive(Object, Debug, PartialEq, Clone)]
struct OptsB { a: Option<String>, b: Option<u8> }
#[derive(Object, Debug, PartialEq, Clone)]
struct Pairs((u8, u16), (u8, String), [u8; 2]);
#[derive(Object, Debug, PartialEq, Clone)]
enum OptsE { A(Option<u8>), B(Option<String>), C { x: Vec<u8>, y: Option<u16> } }

fn pod_decision(ctx: &mut Ctx) {
    fn ptr_differs(ctx: &mut Ctx, name: &str, a: &str, b: &str) {
        ctx.case(name);
        assert_eq!(a, b, "{name}");
        assert_ne!(a.as_ptr(), b.as_ptr(), "{name}: transferred as a memory image");
    }
    let v = OptsA { a: Some(1), b: Some("hello".into()) };
    ptr_differs(ctx, "OptsA", v.b.as_ref().unwrap(), std::mem::ManuallyDrop::new(roundtrip(&v)).b.as_ref().unwrap());
    let v = OptsB { a: Some("hello".into()), b: Some(1) };
    ptr_differs(ctx, "OptsB", v.a.as_ref().unwrap(), std::mem::ManuallyDrop::new(roundtrip(&v)).a.as_ref().unwrap());
    let v = Pairs((1, 2), (3, "hello".into()), [4, 5]);
    ptr_differs(ctx, "Pairs", &v.1.1, &std::mem::ManuallyDrop::new(roundtrip(&v)).1.1);
    let v = OptsE::B(Some("hello".into()));
    let r = std::mem::ManuallyDrop::new(roundtrip(&v));
    match (&v, &*r) {
        (OptsE::B(Some(a)), OptsE::B(Some(b))) => ptr_differs(ctx, "OptsE", a, b),
        _ => panic!("OptsE: wrong variant"),
    }
    let v = LastNonPod(1, 2, 3, "hello".into());
    ptr_differs(ctx, "LastNonPod", &v.3, &std::mem::ManuallyDrop::new(roundtrip(&v)).3);
    let v = FirstNonPod("hello".into(), 1, 2, 3);
    ptr_differs(ctx, "FirstNonPod", &v.0, &std::mem::ManuallyDrop::new(roundtrip(&v)).0);
    let v = LateNonPod::C(1, "hello".into());
    let r = std::mem::ManuallyDrop::new(roundtrip(&v));
    match (&v, &*r) {
        (LateNonPod::C(_, a), LateNonPod::C(_, b)) => ptr_differs(ctx, "LateNonPod", a, b),
        _ => panic!("LateNonPod: wrong variant"),
    }
    let v = (Some(Gen(1u8, "hello".to_string(), 2u8)), 3u8);
    let r = std::mem::ManuallyDrop::new(roundtrip(&v));
    ptr_differs(ctx, "Option<Gen>", &v.0.as_ref().unwrap().1, &r.0.as_ref().unwrap().1);
    let v = [Konst(["hello".to_string()], 1)];
    let r = std::mem::ManuallyDrop::new(roundtrip(&v));
    ptr_differs(ctx, "[Konst]", &v[0].0[0], &r[0].0[0]);
    let v = Ok::<LateNonPod, u8>(LateNonPod::C(1, "hello".into()));
    let r = std::mem::ManuallyDrop::new(roundtrip(&v));
    match (&v, &*r) {
        (Ok(LateNonPod::C(_, a)), Ok(LateNonPod::C(_, b))) => ptr_differs(ctx, "Result", a, b),
        _ => panic!("wrong variant"),
    }
    let v = Err::<u8, String>("hello".into());
    let r = std::mem::ManuallyDrop::new(roundtrip(&v));
    ptr_differs(ctx, "Err", v.as_ref().unwrap_err(), r.as_ref().unwrap_err());
}

#[derive(Object, Debug, PartialEq, Clone)]
#[allow(non_snake_case)]
struct Names { s: String, d: u8, self_: u16, data: String, r#type: u32, a0: String, a1: String, e: u8, i: u8, result: String, value: u8 }
#[derive(Object, Debug, PartialEq, Clone)]
enum NamesE { V { s: String, d: String, a0: String, a1: String, r#fn: u8, a2: String }, W { a1: String, a0: String } , X { d: u8, s: u64 } }

fn names(ctx: &mut Ctx) {
    let t = |x: &str| x.to_string();
    rt(ctx, "Names", vec![Names { s: t("s"), d: 1, self_: 2, data: t("data"), r#type: 3, a0: t("a0"), a1: t("a1"), e: 4, i: 5, result: t("result"), value: 6 }]);
    rt(ctx, "NamesE", vec![
        NamesE::V { s: t("s"), d: t("d"), a0: t("a0"), a1: t("a1"), r#fn: 9, a2: t("a2") },
        NamesE::W { a1: t("a1"), a0: t("a0") },
        NamesE::X { d: 1, s: 2 },
    ]);
}

/// Attributes, doc comments and visibilities on fields and variants carry no meaning for the transfer.
#[derive(Object, Debug, PartialEq, Clone)]
#[repr(C)]
struct Docs {
    /// documented,
    /// at length
    pub a: String,
    b: String,
    #[allow(unused)]
    pub(crate) c: String,
    /// documented
    #[doc(hidden)]
    #[allow(dead_code)]
    d: String,
    e: String,
    #[cfg(not(unix))]
    gone: u8,
    #[cfg(unix)]
    pub f: String,
}
#[derive(Object, Debug, PartialEq, Clone)]
struct DocsT(String, #[allow(unused)] pub String, #[doc = "doc"] #[allow(unused)] String, #[cfg(not(unix))] u8, #[cfg(unix)] String, pub(crate) String);
#[derive(Object, Debug, PartialEq, Clone)]
struct DocsPod { pub a: u32, /** doc */ b: u32, #[allow(unused)] c: u32, d: u32 }
#[derive(Object, Debug, PartialEq, Clone)]
#[allow(dead_code)]
enum DocsE {
    /// documented
    A { /** doc */ x: String, y: String, #[allow(unused)] #[doc(hidden)] z: String },
    B(String, #[doc = "doc"] String, #[allow(unused)] #[doc(hidden)] String, String),
    #[cfg(not(unix))]
    Gone(u8),
    #[allow(unused)]
    #[doc(hidden)]
    C,
    D { y: String, #[allow(unused)] x: String },
    /// documented
    E,
}
#[derive(Object, Debug, PartialEq, Clone)]
struct Defaulted<T: Object, const N: usize> { v: [T; N], #[allow(unused)] w: T }
trait Assoc { type Out: Object + std::fmt::Debug + PartialEq + Clone; }
#[derive(Debug, PartialEq, Clone)]
struct Pick;
impl Assoc for Pick { type Out = String; }
#[derive(Object, Debug, PartialEq, Clone)]
struct ByAssoc<A: Assoc> where A::Out: Object { o: A::Out, p: Vec<A::Out>, q: u8, m: std::marker::PhantomData<A> }
#[derive(Object, Debug, PartialEq, Clone)]
#[repr(u8)]
#[allow(dead_code)]
enum Repr { A = 9, B(String) = 3, C { x: u8, s: String } = 200, D }
#[derive(Object, Debug, PartialEq, Clone, Copy)]
#[repr(i64)]
#[allow(dead_code)]
enum Wide { A = -5, B = i64::MAX, C = 0, D = 4 }

fn attributes(ctx: &mut Ctx) {
    let t = |x: &str| x.to_string();
    rt(ctx, "Docs", vec![Docs { a: t("a"), b: t("b"), c: t("c"), d: t("d"), e: t("e"), f: t("f") }]);
    rt(ctx, "DocsT", vec![DocsT(t("a"), t("b"), t("c"), t("d"), t("e"))]);
    rt(ctx, "DocsPod", vec![DocsPod { a: 1, b: 2, c: 3, d: 4 }]);
    let e = vec![
        DocsE::A { x: t("x"), y: t("y"), z: t("z") }, DocsE::B(t("a"), t("b"), t("c"), t("d")), DocsE::C,
        DocsE::D { x: t("x"), y: t("y") }, DocsE::E,
    ];
    rt(ctx, "DocsE", e.clone());
    rt(ctx, "Vec<DocsE>", vec![e]);
    rt(ctx, "Defaulted", vec![Defaulted::<String, 2> { v: [t("a"), t("b")], w: t("c") }]);
    rt(ctx, "Defaulted", vec![Defaulted::<u16, 3> { v: [1, 2, 3], w: 4 }]);
    rt(ctx, "ByAssoc", vec![ByAssoc::<Pick> { o: t("o"), p: vec![t("p"), t("q")], q: 7, m: std::marker::PhantomData }]);
    rt(ctx, "Repr", vec![Repr::A, Repr::B(t("b")), Repr::C { x: 1, s: t("s") }, Repr::D, Repr::A]);
    rt(ctx, "Wide", vec![Wide::A, Wide::B, Wide::C, Wide::D]);
    // constructed from the outside in: a type transferred inside itself
    #[derive(Object, Debug, PartialEq, Clone)]
    enum Tree { Leaf(String), Node { l: Box<Tree>, /** key */ k: u64, r: Box<Tree> } }
    fn tree(n: u64) -> Tree {
        if n == 0 { Tree::Leaf("l".into()) } else { Tree::Node { l: Box::new(tree(n / 2)), k: n, r: Box::new(tree((n - 1) / 2)) } }
    }
    rt(ctx, "Tree", vec![tree(40), tree(0), tree(7)]);
}
