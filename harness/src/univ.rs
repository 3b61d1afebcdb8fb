//! Run-time defined data types that go through the real transpiler.
//!
//! `S<L, I>` is the type in column `I` of library `L`; what it is (struct, tuple, enum, union, its
//! name, its fields) is looked up in a thread-local universe, so that one compiled harness can
//! describe arbitrarily many "Rust programs".  `E<K>` is an unnamed field type (primitive,
//! collection, option, string) of the same universe.
use std::cell::RefCell;
use std::io;
use std::rc::Rc;

use serde_json::{json, Value as J};
use strict_encoding::{
    DefineStruct, DefineTuple, DefineUnion, Primitive, Sizing, StrictDumb, StrictEncode, StrictEnum, StrictProduct,
    StrictStruct, StrictSum, StrictTuple, StrictType, StrictUnion, TypeName, TypedWrite, VariantError, WriteStruct,
    WriteTuple, WriteUnion,
};
use strict_types::LibBuilder;

use crate::proj::{fieldname, tname, un8, varname};

pub const LIBS: [&str; 3] = ["Alpha", "Beta", "AlphaX"];
pub const NL: usize = 3;
pub const NI: usize = 11;
pub const NE: usize = 20;

/// Variant sets available to enums and unions, by column (the trait wants a constant).
pub const VARS: [&[(u8, &str)]; NI] = [
    &[(0, "none"), (1, "some")],
    &[(0, "a"), (1, "b"), (2, "c")],
    &[(0x41, "upA"), (0x42, "upB"), (0x43, "upC")],
    &[(7, "only")],
    &[(3, "three"), (1, "one"), (200, "many")],
    &[(0, "x"), (1, "y")],
    &[(0, "some"), (1, "none")],
    &[(33, "c1"), (32, "c0"), (126, "c9")],
    &[(1, "none"), (2, "some")],
    &[(0, "red"), (1, "green"), (2, "blue"), (255, "other")],
    // more than fit where small collections are kept inline
    &[
        (3, "v3"), (7, "v7"), (13, "v13"), (26, "v26"), (28, "v28"), (40, "v40"), (46, "v46"), (55,
        "v55"), (63, "v63"), (71, "v71"), (91, "v91"), (95, "v95"), (97, "v97"), (99, "v99"), (104,
        "v104"), (119, "v119"), (120, "v120"), (130, "v130"), (135, "v135"), (139, "v139"), (146,
        "v146"), (166, "v166"), (176, "v176"), (187, "v187"), (189, "v189"), (195, "v195"), (196,
        "v196"), (198, "v198"), (203, "v203"), (215, "v215"), (222, "v222"), (230, "v230"), (231,
        "v231"), (236, "v236"), (240, "v240"), (241, "v241"), (246, "v246"), (247, "v247"), (249,
        "v249"), (254, "v254"),
    ],
];

#[derive(Clone, Debug)]
pub enum T {
    Slot(usize, usize),
    Emb(usize),
}
#[derive(Clone, Debug)]
pub enum Node {
    Prim(u8),
    Str(Sizing),
    RStr(T, T, Sizing),
    Arr(T, u16),
    List(T, Sizing),
    Set(T, Sizing),
    Map(T, T, Sizing),
    Opt(T),
}
#[derive(Clone, Debug)]
pub enum Body {
    Unit,
    Tuple(Vec<T>),
    Struct(Vec<(String, T)>),
}
#[derive(Clone, Debug)]
pub enum Def {
    Struct(Vec<(String, T)>),
    Tuple(Vec<T>),
    Enum,
    Union(Vec<(String, Body)>),
}
#[derive(Clone, Debug, Default)]
pub struct Universe {
    /// (name or "", definition) by library and column
    pub slots: Vec<Vec<Option<(String, Def)>>>,
    pub emb: Vec<Node>,
}
thread_local! {
    static U: RefCell<Rc<Universe>> = RefCell::new(Rc::new(Universe::default()));
}
pub fn install(u: Universe) { U.with(|x| *x.borrow_mut() = Rc::new(u)); }
fn uni() -> Rc<Universe> { U.with(|x| x.borrow().clone()) }

#[derive(Copy, Clone, PartialEq, Eq, Debug, Default)]
pub struct S<const L: usize, const I: usize>;
#[derive(Copy, Clone, PartialEq, Eq, Debug, Default)]
pub struct E<const K: usize>;

impl<const L: usize, const I: usize> StrictType for S<L, I> {
    const STRICT_LIB_NAME: &'static str = LIBS[L];
    fn strict_name() -> Option<TypeName> {
        let u = uni();
        let n = &u.slots[L][I].as_ref().expect("slot").0;
        if n.is_empty() {
            None
        } else {
            Some(tname(n))
        }
    }
}
impl<const L: usize, const I: usize> StrictProduct for S<L, I> {}
impl<const L: usize, const I: usize> StrictTuple for S<L, I> {
    const FIELD_COUNT: u8 = 1;
}
impl<const L: usize, const I: usize> StrictStruct for S<L, I> {
    const ALL_FIELDS: &'static [&'static str] = &["dummy"];
}
impl<const L: usize, const I: usize> StrictSum for S<L, I> {
    const ALL_VARIANTS: &'static [(u8, &'static str)] = VARS[I];
    fn variant_name(&self) -> &'static str { VARS[I][0].1 }
}
impl<const L: usize, const I: usize> StrictUnion for S<L, I> {}
impl<const L: usize, const I: usize> TryFrom<u8> for S<L, I> {
    type Error = VariantError<u8>;
    fn try_from(_: u8) -> Result<Self, Self::Error> { Ok(S) }
}
impl<const L: usize, const I: usize> From<S<L, I>> for u8 {
    fn from(_: S<L, I>) -> u8 { VARS[I][0].0 }
}
impl<const L: usize, const I: usize> StrictEnum for S<L, I> {}
impl<const L: usize, const I: usize> StrictEncode for S<L, I> {
    fn strict_encode<W: TypedWrite>(&self, writer: W) -> io::Result<W> {
        let u = uni();
        match &u.slots[L][I].as_ref().expect("slot").1 {
            Def::Struct(f) => writer.write_struct::<Self>(|w| write_struct(w, f)),
            Def::Tuple(f) => writer.write_tuple::<Self>(|w| write_tuple(w, f)),
            Def::Enum => writer.write_enum::<Self>(*self),
            Def::Union(v) => writer.write_union::<Self>(|d| write_union(d, v)),
        }
    }
}

impl<const K: usize> StrictType for E<K> {
    const STRICT_LIB_NAME: &'static str = strict_encoding::LIB_EMBEDDED;
    fn strict_name() -> Option<TypeName> { None }
}
impl<const K: usize> StrictEncode for E<K> {
    fn strict_encode<W: TypedWrite>(&self, writer: W) -> io::Result<W> { write_node(writer, &uni().emb[K]) }
}

// ---- dispatch from run-time references to types ------------------------------------------------
pub trait Visit {
    type Out;
    fn go<X: StrictEncode + StrictDumb>(self) -> Self::Out;
}
macro_rules! dispatch {
    ($v:expr, $t:expr; $($l:literal: $($i:literal)*;)* | $($k:literal)*) => {
        match $t {
            $($(T::Slot($l, $i) => $v.go::<S<$l, $i>>(),)*)*
            $(T::Emb($k) => $v.go::<E<$k>>(),)*
            x => panic!("no such type {x:?}"),
        }
    };
}
pub fn visit<V: Visit>(t: &T, v: V) -> V::Out {
    dispatch!(v, t;
        0: 0 1 2 3 4 5 6 7 8 9 10;
        1: 0 1 2 3 4 5 6 7 8 9 10;
        2: 0 1 2 3 4 5 6 7 8 9 10;
        | 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19)
}

struct Field<W>(W, String);
impl<W: WriteStruct> Visit for Field<W> {
    type Out = io::Result<W>;
    fn go<X: StrictEncode + StrictDumb>(self) -> io::Result<W> { self.0.write_field(fieldname(&self.1), &X::strict_dumb()) }
}
fn write_struct<W: WriteStruct>(mut w: W, f: &[(String, T)]) -> io::Result<W::Parent> {
    for (n, t) in f {
        w = visit(t, Field(w, n.clone()))?;
    }
    Ok(w.complete())
}
struct Pos<W>(W);
impl<W: WriteTuple> Visit for Pos<W> {
    type Out = io::Result<W>;
    fn go<X: StrictEncode + StrictDumb>(self) -> io::Result<W> { self.0.write_field(&X::strict_dumb()) }
}
fn write_tuple<W: WriteTuple>(mut w: W, f: &[T]) -> io::Result<W::Parent> {
    for t in f {
        w = visit(t, Pos(w))?;
    }
    Ok(w.complete())
}
struct DField<W>(W, String);
impl<W: DefineStruct> Visit for DField<W> {
    type Out = W;
    fn go<X: StrictEncode + StrictDumb>(self) -> W { self.0.define_field::<X>(fieldname(&self.1)) }
}
struct DPos<W>(W);
impl<W: DefineTuple> Visit for DPos<W> {
    type Out = W;
    fn go<X: StrictEncode + StrictDumb>(self) -> W { self.0.define_field::<X>() }
}
fn write_union<D: DefineUnion>(mut d: D, vs: &[(String, Body)]) -> io::Result<D::Parent> {
    for (n, b) in vs {
        let n = varname(n);
        d = match b {
            Body::Unit => d.define_unit(n),
            Body::Tuple(f) => d.define_tuple(n, |mut w| {
                for t in f {
                    w = visit(t, DPos(w));
                }
                DefineTuple::complete(w)
            }),
            Body::Struct(f) => d.define_struct(n, |mut w| {
                for (fname, t) in f {
                    w = visit(t, DField(w, fname.clone()));
                }
                DefineStruct::complete(w)
            }),
        };
    }
    let u = d.complete();
    // write the value of the first variant, as a derived encoder does for its dummy
    let (n, b) = &vs[0];
    let n = varname(n);
    let u = match b {
        Body::Unit => u.write_unit(n)?,
        Body::Tuple(f) => u.write_tuple(n, |w| write_tuple(w, f))?,
        Body::Struct(f) => u.write_struct(n, |w| write_struct(w, f))?,
    };
    Ok(u.complete())
}
struct Enc<W>(W);
impl<W: TypedWrite> Visit for Enc<W> {
    type Out = io::Result<W>;
    fn go<X: StrictEncode + StrictDumb>(self) -> io::Result<W> { X::strict_dumb().strict_encode(self.0) }
}
struct Opt<W>(W);
impl<W: TypedWrite> Visit for Opt<W> {
    type Out = io::Result<W>;
    fn go<X: StrictEncode + StrictDumb>(self) -> io::Result<W> { Option::<X>::None.strict_encode(self.0) }
}
enum Reg {
    Arr(u16),
    List(Sizing),
    Set(Sizing),
}
struct RegV<W>(W, Reg);
impl<W: TypedWrite> Visit for RegV<W> {
    type Out = W;
    fn go<X: StrictEncode + StrictDumb>(self) -> W {
        let x = X::strict_dumb();
        unsafe {
            match self.1 {
                Reg::Arr(n) => self.0.register_array(&x, n),
                Reg::List(s) => self.0.register_list(&x, s),
                Reg::Set(s) => self.0.register_set(&x, s),
            }
        }
    }
}
/// A value of a run-time chosen type, for the two-argument registrations.
struct Any(T);
impl StrictType for Any {
    const STRICT_LIB_NAME: &'static str = strict_encoding::LIB_EMBEDDED;
    fn strict_name() -> Option<TypeName> { None }
}
impl StrictEncode for Any {
    fn strict_encode<W: TypedWrite>(&self, w: W) -> io::Result<W> { visit(&self.0, Enc(w)) }
}
fn write_node<W: TypedWrite>(w: W, n: &Node) -> io::Result<W> {
    Ok(match n {
        Node::Prim(p) => unsafe { w.register_primitive(Primitive::from_code(*p)) },
        Node::Str(s) => unsafe { w.register_unicode(*s) },
        Node::RStr(c1, c, s) => unsafe { w.register_rstring(&Any(c.clone()), &Any(c1.clone()), *s) },
        Node::Arr(t, n) => visit(t, RegV(w, Reg::Arr(*n))),
        Node::List(t, s) => visit(t, RegV(w, Reg::List(*s))),
        Node::Set(t, s) => visit(t, RegV(w, Reg::Set(*s))),
        Node::Map(k, t, s) => unsafe { w.register_map(&Any(k.clone()), &Any(t.clone()), *s) },
        Node::Opt(t) => visit(t, Opt(w))?,
    })
}

struct Root(LibBuilder);
impl Visit for Root {
    type Out = LibBuilder;
    fn go<X: StrictEncode + StrictDumb>(self) -> LibBuilder { self.0.transpile::<X>() }
}
pub fn transpile(b: LibBuilder, l: usize, i: usize) -> LibBuilder { visit(&T::Slot(l, i), Root(b)) }

// ---- declarations as JSON (the specification's form) -------------------------------------------
/// slots in declaration order: (library, column); `decls[k]` describes slot number k+1.
pub struct Prog {
    pub at: Vec<(usize, usize)>,
    pub decls: J,
}
/// Parses `[{l, n, d}]` where field types are `{"k":"slot","i":n}` (1-based) or inline nodes.
pub fn parse(decls: &J) -> (Universe, Prog) {
    let ds = decls.as_array().unwrap();
    let mut at = vec![];
    let mut used = vec![vec![false; NI]; NL];
    for d in ds {
        let l = LIBS.iter().position(|x| *x == d["l"]).expect("lib");
        let i = if let Some(c) = d.get("col").and_then(|x| x.as_u64()) {
            c as usize
        } else {
            (0..NI).find(|i| !used[l][*i]).expect("free column")
        };
        assert!(!used[l][i], "column used twice");
        used[l][i] = true;
        at.push((l, i));
    }
    let mut u = Universe { slots: vec![vec![None; NI]; NL], emb: vec![] };
    for (k, d) in ds.iter().enumerate() {
        let (l, i) = at[k];
        let def = &d["d"];
        let mut fields = |f: &J| -> Vec<(String, T)> {
            f.as_array().unwrap().iter().map(|x| (x["n"].as_str().unwrap().to_owned(), tref(&x["t"], &mut u.emb, &at))).collect()
        };
        let dd = match def["k"].as_str().unwrap() {
            "struct" => Def::Struct(fields(&def["f"])),
            "tuple" => Def::Tuple(trefs(&def["f"], &mut u.emb, &at)),
            "enum" => Def::Enum,
            _ => {
                let mut vs = vec![];
                for v in def["v"].as_array().unwrap() {
                    let b = &v["b"];
                    let body = match b["k"].as_str().unwrap() {
                        "unit" => Body::Unit,
                        "tuple" => Body::Tuple(trefs(&b["f"], &mut u.emb, &at)),
                        _ => Body::Struct(
                            b["f"].as_array().unwrap().iter()
                                .map(|x| (x["n"].as_str().unwrap().to_owned(), tref(&x["t"], &mut u.emb, &at)))
                                .collect(),
                        ),
                    };
                    vs.push((v["n"].as_str().unwrap().to_owned(), body));
                }
                Def::Union(vs)
            }
        };
        u.slots[l][i] = Some((d["n"].as_str().unwrap().to_owned(), dd));
    }
    (u, Prog { at, decls: decls.clone() })
}
fn trefs(f: &J, emb: &mut Vec<Node>, at: &[(usize, usize)]) -> Vec<T> {
    f.as_array().unwrap().iter().map(|x| tref(x, emb, at)).collect()
}
fn tref(t: &J, emb: &mut Vec<Node>, at: &[(usize, usize)]) -> T {
    let s = || Sizing::new(un8(&t["lo"]), un8(&t["hi"]));
    let node = match t["k"].as_str().unwrap() {
        "slot" => {
            let (l, i) = at[t["i"].as_u64().unwrap() as usize - 1];
            return T::Slot(l, i);
        }
        "prim" => Node::Prim(t["p"].as_u64().unwrap() as u8),
        "str" => Node::Str(s()),
        "rstr" => {
            let c1 = tref(&t["c1"], emb, at);
            let c = tref(&t["c0"], emb, at);
            Node::RStr(c1, c, s())
        }
        "arr" => Node::Arr(tref(&t["t"], emb, at), t["len"].as_u64().unwrap() as u16),
        "list" => Node::List(tref(&t["t"], emb, at), s()),
        "set" => Node::Set(tref(&t["t"], emb, at), s()),
        "map" => {
            let k = tref(&t["key"], emb, at);
            let v = tref(&t["t"], emb, at);
            Node::Map(k, v, s())
        }
        "opt" => Node::Opt(tref(&t["t"], emb, at)),
        x => panic!("tref {x}"),
    };
    // share equal nodes: the embedded table is small
    if let Some(k) = emb.iter().position(|n| format!("{n:?}") == format!("{node:?}")) {
        return T::Emb(k);
    }
    emb.push(node);
    assert!(emb.len() <= NE, "too many embedded nodes");
    T::Emb(emb.len() - 1)
}
/// Number of distinct embedded nodes a declaration list needs.
pub fn emb_count(decls: &J) -> usize {
    std::panic::catch_unwind(|| parse(decls).0.emb.len()).unwrap_or(usize::MAX)
}
pub fn enum_decl(col: usize) -> J {
    json!({"k": "enum", "v": VARS[col].iter().map(|(g, n)| json!({"n": n, "g": g})).collect::<Vec<_>>()})
}
