//! Projections of the implementation's public state to the JSON shapes of the TLA+ specification,
//! and the inverse constructors.
use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::Confined;
use amplify::{ByteArray, Wrapper};
use serde_json::{json, Value as J};
use strict_encoding::{FieldName, LibName, Primitive, Sizing, TypeName, Variant, VariantName};
use strict_types::ast::{EnumVariants, Field, NamedFields, UnionVariants, UnnamedFields};
use strict_types::typelib::{ExternRef, ExternTypes, InlineRef, InlineRef1, InlineRef2};
use strict_types::*;

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}
pub fn id32(s: &str) -> [u8; 32] { unhex(s).try_into().expect("32 bytes") }
pub fn sid(id: &SemId) -> String { hex(&id.to_byte_array()) }
pub fn lid(id: &TypeLibId) -> String { hex(&id.to_byte_array()) }
pub fn le8(n: u64) -> J { json!(n.to_le_bytes().to_vec()) }
pub fn un8(j: &J) -> u64 {
    let v: Vec<u8> = j.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
    u64::from_le_bytes(v.try_into().unwrap())
}

pub trait RefProj: TypeRef {
    fn proj(&self) -> J;
    fn unproj(j: &J) -> Self;
}
fn rk(j: &J) -> &str { j["r"].as_str().expect("ref kind") }
impl RefProj for SemId {
    fn proj(&self) -> J { json!({"r": "id", "id": sid(self)}) }
    fn unproj(j: &J) -> Self { SemId::from(id32(j["id"].as_str().unwrap())) }
}
fn proj_ex(e: &ExternRef) -> J {
    json!({"r": "ex", "lib": hex(&e.lib_id.to_byte_array()), "id": sid(&e.sem_id)})
}
fn unproj_ex(j: &J) -> ExternRef {
    ExternRef::with(
        TypeLibId::from(id32(j["lib"].as_str().unwrap())),
        SemId::from(id32(j["id"].as_str().unwrap())),
    )
}
fn proj_nm(id: &SemId) -> J { json!({"r": "nm", "id": sid(id)}) }
macro_rules! lib_ref {
    ($t:ident, $inner:ty) => {
        impl RefProj for $t {
            fn proj(&self) -> J {
                match self {
                    $t::Inline(ty) => json!({"r": "in", "ty": proj_ty(ty)}),
                    $t::Named(id) => proj_nm(id),
                    $t::Extern(e) => proj_ex(e),
                }
            }
            fn unproj(j: &J) -> Self {
                match rk(j) {
                    "in" => $t::Inline(unproj_ty::<$inner>(&j["ty"])),
                    "nm" => $t::Named(SemId::unproj(j)),
                    _ => $t::Extern(unproj_ex(j)),
                }
            }
        }
    };
}
lib_ref!(LibRef, InlineRef);
lib_ref!(InlineRef, InlineRef1);
lib_ref!(InlineRef1, InlineRef2);
impl RefProj for InlineRef2 {
    fn proj(&self) -> J {
        match self {
            InlineRef2::Named(id) => proj_nm(id),
            InlineRef2::Extern(e) => proj_ex(e),
        }
    }
    fn unproj(j: &J) -> Self {
        match rk(j) {
            "nm" => InlineRef2::Named(SemId::unproj(j)),
            _ => InlineRef2::Extern(unproj_ex(j)),
        }
    }
}
impl RefProj for TranspileRef {
    fn proj(&self) -> J {
        match self {
            TranspileRef::Embedded(ty) => json!({"r": "em", "ty": proj_ty(ty)}),
            TranspileRef::Named(n) => json!({"r": "tn", "name": n.as_str()}),
            TranspileRef::Extern(s) => json!({"r": "tx", "lib": s.lib_name.as_str(), "name": s.ty_name.as_str(),
                "lid": lid(&s.lib_id), "id": sid(&s.sem_id)}),
        }
    }
    fn unproj(j: &J) -> Self {
        let s = |k: &str| j[k].as_str().unwrap().to_owned();
        match rk(j) {
            "em" => TranspileRef::Embedded(Box::new(unproj_ty(&j["ty"]))),
            "tn" => TranspileRef::Named(tname(&s("name"))),
            _ => TranspileRef::Extern(SymbolRef::with(
                lname(&s("lib")),
                tname(&s("name")),
                TypeLibId::from(id32(&s("lid"))),
                SemId::from(id32(&s("id"))),
            )),
        }
    }
}
pub fn tname(s: &str) -> TypeName { TypeName::try_from(s.to_owned()).expect("type name") }
pub fn lname(s: &str) -> LibName { LibName::try_from(s.to_owned()).expect("lib name") }
pub fn fieldname(s: &str) -> FieldName { FieldName::try_from(s.to_owned()).expect("field name") }
pub fn varname(s: &str) -> VariantName { VariantName::try_from(s.to_owned()).expect("variant name") }

pub fn proj_ty<R: RefProj>(ty: &Ty<R>) -> J {
    let sz = |c: &str, t: &R, s: &Sizing| json!({"c": c, "t": t.proj(), "lo": le8(s.min), "hi": le8(s.max)});
    match ty {
        Ty::Primitive(p) => json!({"c": "prim", "p": p.into_code()}),
        Ty::UnicodeChar => json!({"c": "uni"}),
        Ty::Enum(v) => {
            json!({"c": "enum", "v": v.iter().map(|v| json!({"n": v.name.as_str(), "g": v.tag})).collect::<Vec<_>>()})
        }
        Ty::Union(v) => {
            json!({"c": "union", "v": v.iter().map(|(v, t)| json!({"n": v.name.as_str(), "g": v.tag, "t": t.proj()})).collect::<Vec<_>>()})
        }
        Ty::Tuple(f) => json!({"c": "tuple", "f": f.iter().map(|t| t.proj()).collect::<Vec<_>>()}),
        Ty::Struct(f) => {
            json!({"c": "struct", "f": f.iter().map(|f| json!({"n": f.name.as_str(), "t": f.ty.proj()})).collect::<Vec<_>>()})
        }
        Ty::Array(t, len) => json!({"c": "array", "t": t.proj(), "len": len}),
        Ty::List(t, s) => sz("list", t, s),
        Ty::Set(t, s) => sz("set", t, s),
        Ty::Map(k, t, s) => {
            json!({"c": "map", "k": k.proj(), "t": t.proj(), "lo": le8(s.min), "hi": le8(s.max)})
        }
    }
}
fn arr(j: &J) -> &Vec<J> { j.as_array().expect("array") }
pub fn unproj_ty<R: RefProj>(j: &J) -> Ty<R> {
    let sizing = || Sizing::new(un8(&j["lo"]), un8(&j["hi"]));
    let name = |x: &J| varname(x["n"].as_str().unwrap());
    let tag = |x: &J| x["g"].as_u64().unwrap() as u8;
    match j["c"].as_str().expect("class") {
        "prim" => Ty::Primitive(Primitive::from_code(j["p"].as_u64().unwrap() as u8)),
        "uni" => Ty::UnicodeChar,
        "enum" => {
            let v: BTreeSet<Variant> = arr(&j["v"]).iter().map(|x| Variant { name: name(x), tag: tag(x) }).collect();
            Ty::Enum(EnumVariants::try_from(v).expect("variants"))
        }
        "union" => {
            let v: BTreeMap<Variant, R> = arr(&j["v"])
                .iter()
                .map(|x| (Variant { name: name(x), tag: tag(x) }, R::unproj(&x["t"])))
                .collect();
            Ty::Union(UnionVariants::try_from(v).expect("variants"))
        }
        "tuple" => Ty::Tuple(
            UnnamedFields::try_from(arr(&j["f"]).iter().map(R::unproj).collect::<Vec<_>>()).expect("fields"),
        ),
        "struct" => Ty::Struct(
            NamedFields::try_from(
                arr(&j["f"])
                    .iter()
                    .map(|x| Field { name: fieldname(x["n"].as_str().unwrap()), ty: R::unproj(&x["t"]) })
                    .collect::<Vec<_>>(),
            )
            .expect("fields"),
        ),
        "array" => Ty::Array(R::unproj(&j["t"]), j["len"].as_u64().unwrap() as u16),
        "list" => Ty::List(R::unproj(&j["t"]), sizing()),
        "set" => Ty::Set(R::unproj(&j["t"]), sizing()),
        "map" => Ty::Map(R::unproj(&j["k"]), R::unproj(&j["t"]), sizing()),
        x => panic!("class {x}"),
    }
}
pub fn proj_ext(e: &ExternTypes) -> J {
    J::Array(
        e.iter()
            .map(|(lib, m)| {
                json!({"lib": lib.as_str(), "types": m.iter().map(|(id, n)| json!({"id": sid(id), "n": n.as_str()})).collect::<Vec<_>>()})
            })
            .collect(),
    )
}
pub fn unproj_ext(j: &J) -> ExternTypes {
    let m: BTreeMap<LibName, _> = arr(j)
        .iter()
        .map(|x| {
            let t: BTreeMap<SemId, TypeName> = arr(&x["types"])
                .iter()
                .map(|y| (SemId::from(id32(y["id"].as_str().unwrap())), tname(y["n"].as_str().unwrap())))
                .collect();
            (lname(x["lib"].as_str().unwrap()), Confined::try_from(t).unwrap())
        })
        .collect();
    Confined::try_from(m).unwrap()
}
pub fn proj_dep(d: &Dependency) -> J { json!({"id": lid(&d.id), "name": d.name.as_str()}) }
pub fn unproj_dep(j: &J) -> Dependency {
    Dependency::with(TypeLibId::from(id32(j["id"].as_str().unwrap())), lname(j["name"].as_str().unwrap()))
}
pub fn proj_deps<'a>(d: impl IntoIterator<Item = &'a Dependency>) -> J {
    J::Array(d.into_iter().map(proj_dep).collect())
}
pub fn proj_types<'a, R: RefProj + 'a>(m: impl IntoIterator<Item = (&'a TypeName, &'a Ty<R>)>) -> J {
    J::Array(m.into_iter().map(|(n, t)| json!({"n": n.as_str(), "ty": proj_ty(t)})).collect())
}
pub fn proj_lib(l: &TypeLib) -> J {
    json!({"name": l.name.as_str(), "deps": proj_deps(l.dependencies.iter()), "ext": proj_ext(&l.extern_types), "types": proj_types(l.types.iter())})
}
pub fn proj_sym(l: &SymbolicLib) -> J {
    json!({"name": l.name().as_str(), "deps": proj_deps(l.dependencies().iter()), "ext": proj_ext(l.extern_types()), "types": proj_types(l.types().iter())})
}
pub fn unproj_types<R: RefProj>(j: &J) -> BTreeMap<TypeName, Ty<R>> {
    arr(j).iter().map(|x| (tname(x["n"].as_str().unwrap()), unproj_ty(&x["ty"]))).collect()
}
pub fn unproj_lib(j: &J) -> TypeLib {
    let mut deps = BTreeSet::new();
    arr(&j["deps"]).iter().for_each(|d| {
        deps.insert(unproj_dep(d));     // one by one: collecting would drop some of those with the same name
    });
    TypeLib {
        name: lname(j["name"].as_str().unwrap()),
        dependencies: Confined::try_from(deps).unwrap(),
        extern_types: unproj_ext(&j["ext"]),
        types: Confined::try_from(unproj_types::<LibRef>(&j["types"])).unwrap(),
    }
}
#[allow(dead_code)]
pub fn wrapper_len<R: TypeRef>(f: &NamedFields<R>) -> usize { f.as_inner().len() }

/// Type system and symbols.
pub fn proj_sys_types(t: &TypeSystem) -> J {
    J::Array(t.iter().map(|(id, ty)| json!({"id": sid(id), "ty": proj_ty(ty)})).collect())
}
