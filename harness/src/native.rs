//! Rust types with derived encodings: what the native encoder writes for random data, and the same
//! data as an untyped value.
#![allow(non_snake_case)]
use std::cell::RefCell;
use std::collections::BTreeMap;

use amplify::ascii::AsciiString;
use amplify::confinement::{Confined, MediumBlob, SmallString, SmallVec, TinyAscii, TinyBlob, TinyOrdMap, TinyOrdSet, TinyString, TinyVec, U32 as MAX32};
use amplify::num::{i256, u1024, u24, u256, u40, u48, u56};
use serde_json::{json, Value as J};
use strict_encoding::*;
use strict_types::stl::{std_stl, strict_types_stl};
use strict_types::typesys::SystemBuilder;
use strict_types::{LibBuilder, SemId, TypeSystem};

use crate::rng::Rng;
use crate::s_val::{exercise, num_j, tree_of};
use crate::Out;

const LIB: &str = "VerifLib";

#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB, tags = repr, into_u8, try_from_u8)]
#[repr(u8)]
pub enum Flag {
    #[strict_type(dumb)]
    Low = 1,
    Mid = 7,
    High = 200,
}
#[derive(Clone, Eq, PartialEq, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Nums {
    pub a: u8,
    pub b: u16,
    pub c: u24,
    pub d: u32,
    pub e: u40,
    pub f: u48,
    pub g: u56,
    pub h: u64,
    pub i: u128,
    pub j: u256,
    pub k: i8,
    pub l: i16,
    pub m: i32,
    pub n: i64,
    pub o: i128,
    pub p: i256,
    pub q: u1024,
}
#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB, tags = custom, dumb = { Shape::Point(()) })]
pub enum Shape {
    #[strict_type(tag = 0)]
    Point(()),
    #[strict_type(tag = 3)]
    Circle(u16),
    #[strict_type(tag = 9)]
    Rect { wid: u8, hei: Flag },
    #[strict_type(tag = 10)]
    Pair(u8, i8),
    #[strict_type(tag = 255)]
    Word(TinyString),
}
#[derive(Clone, Eq, PartialEq, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Texts {
    pub uni: TinyString,
    pub long: SmallString,
    pub ascii: TinyAscii,
    pub name: FieldName,
    pub ty: TypeName,
    pub ok: bool,
}
#[derive(Clone, Eq, PartialEq, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Colls {
    pub bytes: TinyBlob,
    pub words: TinyVec<u16>,
    pub set: TinyOrdSet<u8>,
    pub neg: TinyOrdSet<i8>,
    pub wide: SmallVec<Flag>,
    pub map: TinyOrdMap<u8, TinyString>,
    pub arr: [u16; 3],
    pub barr: [u8; 5],
    pub flags: TinyOrdSet<Flag>,
    pub shapes: TinyOrdMap<Shape, Flag>,
    pub names: TinyOrdSet<TinyString>,
    pub nested: TinyVec<TinyVec<Flag>>,
    pub lists: TinyOrdSet<TinyVec<u8>>,
    pub strs: TinyOrdSet<TinyVec<i16>>,
    pub big: TinyOrdSet<u256>,
}
#[derive(Clone, Eq, PartialEq, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Opts {
    pub a: Option<u8>,
    pub b: Option<Shape>,
    pub c: TinyVec<Option<Flag>>,
    pub d: Option<Wrap>,
    pub e: Wrap,
}
#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Wrap(pub u32);
#[derive(Clone, Eq, PartialEq, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB, dumb = { large(&mut Rng::new(0)).0 })]
pub struct Large {
    pub medium: MediumBlob,
    pub large: Confined<Vec<u8>, 1, MAX32>,
    pub text: Confined<String, 0, MAX32>,
    pub ascii: Confined<AsciiString, 2, 1000>,
    pub items: Confined<Vec<u16>, 0, MAX32>,
    pub map: Confined<BTreeMap<TinyString, Wrap>, 1, 70000>,
    pub edge: Confined<Vec<i8>, 0, 255>,
    pub edge2: Confined<Vec<i8>, 0, 256>,
}
#[derive(Clone, Eq, PartialEq, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct All(pub Nums, pub Opts, pub Texts, pub Wrap);

pub const N: usize = 9;

// ---- random data, natively and as a value -----------------------------------------------------
fn n_u(b: &[u8], signed: bool) -> J {
    let big = b.len() > 8;
    let mut b = b.to_vec();
    let ext = if signed && b[b.len() - 1] >= 128 { 255 } else { 0 };
    b.resize(if big { 128 } else { 8 }, ext);
    num_j(
        match (big, signed) {
            (false, false) => "u",
            (false, true) => "i",
            (true, false) => "bu",
            (true, true) => "bi",
        },
        b,
    )
}
fn raw<const L: usize>(r: &mut Rng) -> [u8; L] {
    let v = match r.below(5) {
        0 => vec![0; L],
        1 => vec![255; L],
        2 => {
            let mut v = vec![0; L];
            v[L - 1] = 0x80;
            v
        }
        3 => {
            let mut v = vec![255; L];
            v[L - 1] = 0x7f;
            v
        }
        _ => r.bytes(L),
    };
    v.try_into().unwrap()
}
macro_rules! num {
    ($r:expr, $t:ty, $l:literal, $s:literal) => {{
        let b = raw::<$l>($r);
        (<$t>::from_le_bytes(b), n_u(&b, $s))
    }};
}
fn st(s: &str) -> J { json!({"v": "str", "b": s.as_bytes()}) }
fn seq(k: &str, f: Vec<J>) -> J { json!({"v": k, "f": f}) }
fn strukt(f: Vec<(&str, J)>) -> J { json!({"v": "struct", "f": f.into_iter().map(|(n, x)| json!({"n": n, "x": x})).collect::<Vec<_>>()}) }
fn en(n: &str) -> J { json!({"v": "enum", "t": {"k": "n", "n": n}}) }
fn un(n: &str, x: J) -> J { json!({"v": "union", "t": {"k": "n", "n": n}, "x": x}) }
fn unit() -> J { json!({"v": "unit"}) }
fn opt(x: Option<J>) -> J { x.map(|x| un("some", x)).unwrap_or_else(|| un("none", unit())) }
fn flag(r: &mut Rng) -> (Flag, J) { r.pick(&[(Flag::Low, en("low")), (Flag::Mid, en("mid")), (Flag::High, en("high"))]).clone() }
fn uni(r: &mut Rng, max: usize) -> String {
    let n = r.below(max);
    (0..n).map(|_| *r.pick(&['a', 'Z', '~', 'é', '€', '😀', '\0'])).collect()
}
fn ascii(r: &mut Rng, lo: usize, hi: usize) -> String {
    let n = r.range(lo, hi);
    (0..n).map(|_| *r.pick(&['a', 'Z', '~', ' ', '0'])).collect()
}
fn ident(r: &mut Rng, first: &[char]) -> String {
    let mut s = r.pick(first).to_string();
    for _ in 0..r.below(6) {
        s.push(*r.pick(&['a', 'Z', '_', '7']));
    }
    s
}
/// the ASCII repertoire includes control characters, so that such data are lists of characters, not strings
fn chars(s: &str) -> J { seq("list", s.chars().map(|c| st(&c.to_string())).collect()) }
fn tiny(s: String) -> TinyString { Confined::try_from(s).unwrap() }
fn nums(r: &mut Rng) -> (Nums, J) {
    let (a, ja) = num!(r, u8, 1, false);
    let (b, jb) = num!(r, u16, 2, false);
    let (c, jc) = num!(r, u24, 3, false);
    let (d, jd) = num!(r, u32, 4, false);
    let (e, je) = num!(r, u40, 5, false);
    let (f, jf) = num!(r, u48, 6, false);
    let (g, jg) = num!(r, u56, 7, false);
    let (h, jh) = num!(r, u64, 8, false);
    let (i, ji) = num!(r, u128, 16, false);
    let (j, jj) = num!(r, u256, 32, false);
    let (k, jk) = num!(r, i8, 1, true);
    let (l, jl) = num!(r, i16, 2, true);
    let (m, jm) = num!(r, i32, 4, true);
    let (n, jn) = num!(r, i64, 8, true);
    let (o, jo) = num!(r, i128, 16, true);
    let (p, jp) = num!(r, i256, 32, true);
    let (q, jq) = num!(r, u1024, 128, false);
    (
        Nums { a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p, q },
        strukt(vec![
            ("a", ja), ("b", jb), ("c", jc), ("d", jd), ("e", je), ("f", jf), ("g", jg), ("h", jh), ("i", ji), ("j", jj), ("k", jk), ("l", jl),
            ("m", jm), ("n", jn), ("o", jo), ("p", jp), ("q", jq),
        ]),
    )
}
fn shape(r: &mut Rng) -> (Shape, J) {
    match r.below(5) {
        0 => (Shape::Point(()), un("point", seq("tuple", vec![unit()]))),
        1 => {
            let (n, j) = num!(r, u16, 2, false);
            (Shape::Circle(n), un("circle", seq("tuple", vec![j])))
        }
        2 => {
            let ((w, jw), (h, jh)) = (num!(r, u8, 1, false), flag(r));
            (Shape::Rect { wid: w, hei: h }, un("rect", strukt(vec![("wid", jw), ("hei", jh)])))
        }
        3 => {
            let ((a, ja), (b, jb)) = (num!(r, u8, 1, false), num!(r, i8, 1, true));
            (Shape::Pair(a, b), un("pair", seq("tuple", vec![ja, jb])))
        }
        _ => {
            let s = uni(r, 6);
            (Shape::Word(tiny(s.clone())), un("word", seq("tuple", vec![st(&s)])))
        }
    }
}
fn texts(r: &mut Rng) -> (Texts, J) {
    let (u, l, a) = (uni(r, 9), uni(r, 300), ascii(r, 0, 20));
    let (n, t, ok) = (ident(r, &['a', '_']), ident(r, &['A', 'Z']), r.chance(1, 2));
    (
        Texts {
            uni: tiny(u.clone()),
            long: Confined::try_from(l.clone()).unwrap(),
            ascii: Confined::try_from(AsciiString::from_ascii(a.clone()).unwrap()).unwrap(),
            name: FieldName::try_from(n.clone()).unwrap(),
            ty: TypeName::try_from(t.clone()).unwrap(),
            ok,
        },
        // the ASCII repertoire includes control characters: such data are lists of characters
        strukt(vec![
            ("uni", st(&u)),
            ("long", st(&l)),
            ("ascii", if r.chance(1, 2) { chars(&a) } else { st(&a) }),
            ("name", st(&n)),
            ("ty", st(&t)),
            ("ok", en(if ok { "true" } else { "false" })),
        ]),
    )
}
/// `n` random elements
fn many<T>(r: &mut Rng, n: usize, mut f: impl FnMut(&mut Rng) -> (T, J)) -> (Vec<T>, Vec<J>) { (0..n).map(|_| f(r)).unzip() }
/// the same elements in any order of the value: the canonical order is up to the library
fn set<T: Ord, const HI: usize>(r: &mut Rng, n: usize, mut f: impl FnMut(&mut Rng) -> (T, J)) -> (Confined<std::collections::BTreeSet<T>, 0, HI>, J) {
    let mut m = BTreeMap::new();
    for _ in 0..n {
        let (x, j) = f(r);
        m.insert(x, j);
    }
    let mut js: Vec<J> = m.values().cloned().collect();
    r.shuffle(&mut js);
    (Confined::try_from(m.into_keys().collect::<std::collections::BTreeSet<_>>()).unwrap(), seq("set", js))
}
fn map<K: Ord, V>(r: &mut Rng, n: usize, mut f: impl FnMut(&mut Rng) -> (K, J, V, J)) -> (BTreeMap<K, V>, J) {
    let mut m = BTreeMap::new();
    for _ in 0..n {
        let (k, jk, v, jv) = f(r);
        m.insert(k, (jk, v, jv));
    }
    let mut js = vec![];
    let mut out = BTreeMap::new();
    for (k, (jk, v, jv)) in m {
        js.push(json!({"k": jk, "x": jv}));
        out.insert(k, v);
    }
    r.shuffle(&mut js);
    (out, json!({"v": "map", "f": js}))
}
fn blob(r: &mut Rng, lo: usize, hi: usize) -> (Vec<u8>, J) {
    let n = r.range(lo, hi);
    let b = r.bytes(n);
    let j = json!({"v": "bytes", "b": b});
    (b, j)
}
fn s_j(r: &mut Rng) -> (TinyString, J) {
    let s = uni(r, 4);
    (tiny(s.clone()), st(&s))
}
fn colls(r: &mut Rng) -> (Colls, J) {
    let c = |r: &mut Rng| if r.chance(1, 20) { 40 } else { r.below(5) };
    let (bytes, j0) = blob(r, 0, 9);
    let n = c(r);
    let (words, j1) = many(r, n, |r| num!(r, u16, 2, false));
    let n = c(r);
    let (set0, j2) = set(r, n, |r| num!(r, u8, 1, false));
    let n = c(r);
    let (neg, j3) = set(r, n, |r| num!(r, i8, 1, true));
    let n = *r.pick(&[0usize, 1, 3, 300]);
    let (wide, j4) = many(r, n, flag);
    let n = c(r);
    let (map0, j5) = map(r, n, |r| {
        let ((a, ja), (b, jb)) = (num!(r, u8, 1, false), s_j(r));
        (a, ja, b, jb)
    });
    let (arr, j6) = many(r, 3, |r| num!(r, u16, 2, false));
    let (barr, j7) = blob(r, 5, 5);
    let n = c(r);
    let (flags, j8) = set(r, n, flag);
    let n = c(r);
    let (shapes, j9) = map(r, n, |r| {
        let ((a, ja), (b, jb)) = (shape(r), flag(r));
        (a, ja, b, jb)
    });
    let n = c(r);
    let (names, j10) = set(r, n, s_j);
    let n = c(r);
    let (nested, j11) = many(r, n, |r| {
        let n = r.below(4);
        let (v, j) = many(r, n, flag);
        (Confined::try_from(v).unwrap(), seq("list", j))
    });
    let n = c(r);
    let (lists, j12) = set(r, n, |r| {
        let (v, j) = blob(r, 0, 3);
        (Confined::try_from(v).unwrap(), j)
    });
    let n = c(r);
    let (strs, j13) = set(r, n, |r| {
        let n = r.below(3);
        let (v, j) = many(r, n, |r| num!(r, i16, 2, true));
        (Confined::try_from(v).unwrap(), seq("list", j))
    });
    let n = c(r);
    let (big, j14) = set(r, n, |r| num!(r, u256, 32, false));
    (
        Colls {
            bytes: Confined::try_from(bytes).unwrap(),
            words: Confined::try_from(words).unwrap(),
            set: set0,
            neg,
            wide: Confined::try_from(wide).unwrap(),
            map: Confined::try_from(map0).unwrap(),
            arr: arr.try_into().unwrap(),
            barr: barr.try_into().unwrap(),
            flags,
            shapes: Confined::try_from(shapes).unwrap(),
            names,
            nested: Confined::try_from(nested).unwrap(),
            lists,
            strs,
            big,
        },
        strukt(vec![
            ("bytes", j0), ("words", seq("list", j1)), ("set", j2), ("neg", j3), ("wide", seq("list", j4)), ("map", j5), ("arr", seq("list", j6)),
            ("barr", j7), ("flags", j8), ("shapes", j9), ("names", j10), ("nested", seq("list", j11)), ("lists", j12), ("strs", j13), ("big", j14),
        ]),
    )
}
fn wrap(r: &mut Rng) -> (Wrap, J) {
    let (n, j) = num!(r, u32, 4, false);
    (Wrap(n), if r.chance(1, 2) { j } else { seq("tuple", vec![j]) })
}
fn opts(r: &mut Rng) -> (Opts, J) {
    fn o<T>(r: &mut Rng, f: impl Fn(&mut Rng) -> (T, J)) -> (Option<T>, J) {
        if r.chance(1, 2) {
            return (None, opt(None));
        }
        let (x, j) = f(r);
        // the payload of `Option` is a tuple of one field
        (Some(x), opt(Some(if r.chance(1, 2) { seq("tuple", vec![j]) } else { j })))
    }
    let (a, ja) = o(r, |r| num!(r, u8, 1, false));
    let (b, jb) = o(r, shape);
    let n = r.below(4);
    let (c, jc) = many(r, n, |r| o(r, flag));
    let (d, jd) = o(r, wrap);
    let (e, je) = wrap(r);
    (
        Opts { a, b, c: Confined::try_from(c).unwrap(), d, e },
        strukt(vec![("a", ja), ("b", jb), ("c", seq("list", jc)), ("d", jd), ("e", je)]),
    )
}
fn large(r: &mut Rng) -> (Large, J) {
    let (medium, j0) = blob(r, 0, 300);
    let (large, j1) = blob(r, 1, 9);
    let (t, a) = (uni(r, 20), ascii(r, 2, 30));
    let n = r.below(4);
    let (items, j4) = many(r, n, |r| num!(r, u16, 2, false));
    let n = r.range(1, 4);
    let (m, j5) = map(r, n, |r| {
        let ((a, ja), (b, jb)) = (s_j(r), wrap(r));
        (a, ja, b, jb)
    });
    let n = *r.pick(&[0usize, 2, 255]);
    let (e, j6) = many(r, n, |r| num!(r, i8, 1, true));
    let n = *r.pick(&[0usize, 2, 256]);
    let (e2, j7) = many(r, n, |r| num!(r, i8, 1, true));
    (
        Large {
            medium: Confined::try_from(medium).unwrap(),
            large: Confined::try_from(large).unwrap(),
            text: Confined::try_from(t.clone()).unwrap(),
            ascii: Confined::try_from(AsciiString::from_ascii(a.clone()).unwrap()).unwrap(),
            items: Confined::try_from(items).unwrap(),
            map: Confined::try_from(m).unwrap(),
            edge: Confined::try_from(e).unwrap(),
            edge2: Confined::try_from(e2).unwrap(),
        },
        strukt(vec![
            ("medium", j0), ("large", j1), ("text", st(&t)), ("ascii", if r.chance(1, 2) { chars(&a) } else { st(&a) }), ("items", seq("list", j4)), ("map", j5), ("edge", seq("list", j6)),
            ("edge2", seq("list", j7)),
        ]),
    )
}

struct Sys {
    sys: TypeSystem,
    ids: BTreeMap<String, SemId>,
    trees: RefCell<BTreeMap<String, J>>,
}
thread_local! { static SYS: RefCell<Option<std::rc::Rc<Sys>>> = const { RefCell::new(None) }; }
fn sys() -> std::rc::Rc<Sys> {
    SYS.with(|s| {
        s.borrow_mut()
            .get_or_insert_with(|| {
                let (std, st) = (std_stl(), strict_types_stl());
                let lib = LibBuilder::with(libname!(LIB), [std.to_dependency_types(), st.to_dependency_types()])
                    .transpile::<All>()
                    .transpile::<Colls>()
                    .transpile::<Large>()
                    .compile()
                    .expect("compiles");
                let mut ids: BTreeMap<String, SemId> = BTreeMap::new();
                for l in [&lib, &st] {
                    for (n, ty) in l.types.iter() {
                        ids.insert(n.to_string(), ty.sem_id_named(n));
                    }
                }
                let sys = SystemBuilder::new().import(lib).unwrap().import(std).unwrap().import(st).unwrap().finalize().unwrap();
                let sys = sys.as_types().clone();
                std::rc::Rc::new(Sys { sys, ids, trees: RefCell::new(BTreeMap::new()) })
            })
            .clone()
    })
}
pub fn enc(x: &impl StrictEncode) -> Vec<u8> {
    let mut v = vec![];
    x.strict_encode(StrictWriter::with(StreamWriter::new::<{ usize::MAX }>(&mut v))).expect("native encoding");
    v
}
pub fn run(k: usize, seed: u64, r: &mut Rng, out: &mut Out) {
    let mut q = Rng::new(seed);
    let q = &mut q;
    let (name, bytes, val) = match k {
        0 => {
            let (x, j) = nums(q);
            ("Nums", enc(&x), j)
        }
        1 => {
            let (x, j) = shape(q);
            ("Shape", enc(&x), j)
        }
        2 => {
            let (x, j) = texts(q);
            ("Texts", enc(&x), j)
        }
        3 | 4 => {
            let (x, j) = colls(q);
            ("Colls", enc(&x), j)
        }
        5 => {
            let (x, j) = opts(q);
            ("Opts", enc(&x), j)
        }
        6 => {
            let (x, j) = large(q);
            ("Large", enc(&x), j)
        }
        7 => {
            let (x, j) = wrap(q);
            ("Wrap", enc(&x), j)
        }
        _ => {
            let ((a, ja), (b, jb), (c, jc), (d, jd)) = (nums(q), opts(q), texts(q), wrap(q));
            ("All", enc(&All(a, b, c, d)), seq("tuple", vec![ja, jb, jc, jd]))
        }
    };
    let s = match std::panic::catch_unwind(sys) {
        Ok(s) => s,
        Err(_) => return out.ev(json!({"e": "nosys"})),
    };
    let id = s.ids[name];
    let ty = s.trees.borrow_mut().entry(name.to_owned()).or_insert_with(|| tree_of(&s.sys, id)).clone();
    out.ev(json!({"e": "ty", "ty": ty}));
    out.ev(json!({"e": "native", "name": name, "v": val, "b": bytes}));
    exercise(&s.sys, None, id, &[val], &[bytes], r, out);
}
