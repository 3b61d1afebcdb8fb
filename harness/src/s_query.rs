//! Questions about one definition: class, kind, components, variants and fields.
use serde_json::{json, Value as J};
use strict_types::ast::ItemCase;
use strict_types::typelib::TranspileRef;
use strict_types::{LibRef, SemId, Ty, TypeRef};

use crate::gen;
use crate::proj::*;
use crate::rng::Rng;
use crate::{call, Out};

fn case(c: &ItemCase) -> J {
    match c {
        ItemCase::UnionVariant(g, n) => json!({"k": "variant", "g": g, "n": n.as_str()}),
        ItemCase::NamedField(i, n) => json!({"k": "field", "i": i, "n": n.as_str()}),
        ItemCase::UnnamedField(i) => json!({"k": "pos", "i": i}),
        ItemCase::ArrayItem => json!({"k": "array"}),
        ItemCase::ListItem => json!({"k": "list"}),
        ItemCase::SetItem => json!({"k": "set"}),
        ItemCase::MapKey => json!({"k": "key"}),
        ItemCase::MapValue => json!({"k": "value"}),
    }
}
fn label(v: &strict_encoding::Variant) -> J { json!({"n": v.name.as_str(), "g": v.tag}) }
fn opt<T>(x: Option<T>, f: impl FnOnce(T) -> J) -> J { J::Array(x.map(f).into_iter().collect()) }

fn comps<'a, R: RefProj + TypeRef + 'a>(i: impl Iterator<Item = (&'a R, Option<ItemCase>)>) -> J {
    J::Array(i.take(1000).map(|(r, c)| json!({"t": r.proj(), "c": c.as_ref().map(case).unwrap_or(J::Null)})).collect())
}

fn about<R: RefProj + TypeRef>(j: &J, unwraps: bool) -> J {
    let ty: Ty<R> = unproj_ty(j);
    let len = match &ty {
        Ty::Enum(v) => v.len(),
        Ty::Union(v) => v.len(),
        Ty::Struct(f) => f.len(),
        Ty::Tuple(f) => f.len(),
        _ => 0,
    };
    let ends = match &ty {
        Ty::Union(v) => json!([label(v.unwrap_first()), label(v.unwrap_last())]),
        _ => json!([]),
    };
    // the parts as they are taken out of the definition
    let (labels, types) = match ty.clone() {
        Ty::Enum(v) => (v.into_inner().iter().map(label).collect::<Vec<_>>(), vec![]),
        Ty::Union(v) => {
            assert!(v.clone().into_inner().into_iter().eq(v.clone().into_keys().zip(v.clone().into_values())));
            (v.clone().into_keys().map(|v| label(&v)).collect(), v.into_values().map(|r| r.proj()).collect())
        }
        Ty::Struct(f) => f.into_inner().into_iter().map(|f| (json!(f.name.as_str()), f.ty.proj())).unzip(),
        Ty::Tuple(f) => (vec![], f.into_inner().iter().map(|r| r.proj()).collect()),
        _ => (vec![], vec![]),
    };
    let wrapped = if unwraps { opt(ty.as_wrapped_ty(), |t| proj_ty(t)) } else { json!([]) };
    let iter = comps(ty.iter());
    let again = comps(ty.type_refs());
    assert_eq!(iter, again);
    json!({"e": "ty", "ty": j, "cls": ty.cls().to_string(), "is": {
        "charenum": ty.is_char_enum(), "compound": ty.is_compound(), "primitive": ty.is_primitive(), "collection": ty.is_collection(),
        "newtype": ty.is_newtype(), "bytearray": ty.is_byte_array(), "option": ty.is_option(), "byte": ty.is_byte(),
        "unicode": ty.is_unicode_char()},
        "some": opt(ty.as_some(), |r| r.proj()), "wrapped": wrapped, "iter": iter,
        "into": ty.clone().into_iter().take(1000).map(|r| r.proj()).collect::<Vec<_>>(), "len": len, "ends": ends,
        "count": ty.count_type_refs(), "labels": labels, "types": types})
}
fn at<R: RefProj + TypeRef>(j: &J, p: u8) -> J {
    let ty: Ty<R> = unproj_ty(j);
    let name = match &ty {
        Ty::Union(v) => opt(v.name_by_pos(p), |n| json!(n.as_str())),
        _ => json!([]),
    };
    let part = match &ty {
        Ty::Union(v) => opt(v.ty_by_pos(p), |r| r.proj()),
        Ty::Struct(f) => opt(f.ty_by_pos(p), |r| r.proj()),
        Ty::Tuple(f) => opt(f.ty_by_pos(p), |r| r.proj()),
        _ => json!([]),
    };
    json!({"e": "at", "p": p, "t": opt(ty.ty_at(p), |r| r.proj()), "c": opt(ty.case_at(p), |c| case(&c)), "name": name, "part": part})
}
fn tag<R: RefProj + TypeRef>(j: &J, g: u8) -> J {
    let ty: Ty<R> = unproj_ty(j);
    let (has, name, by, t, t2) = match &ty {
        Ty::Enum(v) => (v.has_tag(g), opt(v.name_by_tag(g), |n| json!(n.as_str())), opt(v.by_tag(g), label), json!([]), json!([])),
        Ty::Union(v) => (
            v.has_tag(g),
            opt(v.name_by_tag(g), |n| json!(n.as_str())),
            opt(v.by_tag(g), |(v, _)| label(v)),
            opt(v.ty_by_tag(g), |r| r.proj()),
            opt(v.by_tag(g), |(_, r)| r.proj()),
        ),
        _ => return J::Null,
    };
    json!({"e": "tag", "g": g, "has": has, "name": name, "by": by, "t": t, "t2": t2})
}
fn name<R: RefProj + TypeRef>(j: &J, s: &str) -> J {
    let ty: Ty<R> = unproj_ty(j);
    let n = varname(s);
    let none = || json!([]);
    let (has, tag, by, t, t2, field) = match &ty {
        Ty::Enum(v) => (v.has_name(&n), opt(v.tag_by_name(&n), |g| json!(g)), opt(v.by_name(&n), label), none(), none(), none()),
        Ty::Union(v) => (
            v.by_name(&n).is_some(),
            opt(v.tag_by_name(&n), |g| json!(g)),
            opt(v.by_name(&n), |(v, _)| label(v)),
            opt(v.ty_by_name(&n), |r| r.proj()),
            opt(v.by_name(&n), |(_, r)| r.proj()),
            none(),
        ),
        Ty::Struct(f) => (false, none(), none(), none(), none(), opt(f.ty_by_name(&fieldname(s)), |r| r.proj())),
        _ => return J::Null,
    };
    json!({"e": "name", "n": s, "has": has, "tag": tag, "by": by, "t": t, "t2": t2, "field": field})
}
fn reference<R: RefProj + TypeRef>(j: &J) -> J {
    let r = R::unproj(j);
    json!({"e": "ref", "ref": j, "compound": r.is_compound(), "unit": r.is_unit(), "byte": r.is_byte(), "uni": r.is_unicode_char(),
        "ty": opt(r.as_ty(), |t| proj_ty(t)), "refs": comps(r.type_refs())})
}

/// Puts a panicking question on record as an answer nothing allows.
fn ask(out: &mut Out, e: &str, f: impl FnOnce() -> J) {
    let (o, _) = call(|| Ok::<_, String>(f()), |v| v.clone(), |e| e.clone());
    match o["k"].as_str() {
        Some("ok") if o["v"].is_null() => {}
        Some("ok") => out.ev(o["v"].clone()),
        _ => out.ev(json!({"e": "abort", "how": format!("panics: {e}"), "at": o["at"]})),
    }
}
fn kids(j: &J) -> Vec<J> {
    match j["c"].as_str().unwrap() {
        "union" => j["v"].as_array().unwrap().iter().map(|x| x["t"].clone()).collect(),
        "struct" => j["f"].as_array().unwrap().iter().map(|x| x["t"].clone()).collect(),
        "tuple" => j["f"].as_array().unwrap().clone(),
        "array" | "list" | "set" => vec![j["t"].clone()],
        "map" => vec![j["k"].clone(), j["t"].clone()],
        _ => vec![],
    }
}
fn all<R: RefProj + TypeRef>(j: &J, names: &J, unwraps: bool, out: &mut Out) {
    ask(out, "type", || about::<R>(j, unwraps));
    let n = kids(j).len();
    let mut ps: Vec<u8> = if n <= 8 { (0..=(n as u8 + 1)).collect() } else { vec![0, 1, 127, 128, (n - 1).min(255) as u8, n.min(255) as u8] };
    ps.push(255);
    for p in ps {
        ask(out, "position", || at::<R>(j, p));
    }
    let mut tags: Vec<u8> = vec![0, 1, 2, 31, 32, 127, 128, 254, 255];
    for v in j["v"].as_array().into_iter().flatten().take(20) {
        let g = v["g"].as_u64().unwrap() as u8;
        tags.extend([g, g.wrapping_add(1), g.wrapping_sub(1)]);
    }
    tags.sort();
    tags.dedup();
    for g in tags {
        ask(out, "tag", || tag::<R>(j, g));
    }
    for s in names.as_array().unwrap() {
        ask(out, "name", || name::<R>(j, s.as_str().unwrap()));
    }
    for r in kids(j).into_iter().take(4) {
        ask(out, "reference", || reference::<R>(&r));
    }
}

pub fn run(scn: &J, out: &mut Out) {
    for t in scn["tys"].as_array().unwrap() {
        match scn["kind"].as_str().unwrap() {
            "sym" => all::<TranspileRef>(t, &scn["names"], true, out),
            "lib" => all::<LibRef>(t, &scn["names"], true, out),
            _ => all::<SemId>(t, &scn["names"], true, out),
        }
    }
}

const NAMES: [&str; 12] = ["a", "b", "c", "value", "kind", "items", "x", "y", "none", "some", "a0", "_"];
fn id(r: &mut Rng) -> String {
    let n = r.below(6);
    match n {
        0 => sid(&Ty::<SemId>::UNIT.sem_id_unnamed()),
        1 => sid(&Ty::<SemId>::BYTE.sem_id_unnamed()),
        2 => sid(&Ty::<SemId>::U8.sem_id_unnamed()),
        3 => sid(&Ty::<SemId>::UNICODE.sem_id_unnamed()),
        _ => hex(&[r.next() as u8; 32]),
    }
}
pub fn leaf(r: &mut Rng, kind: &str) -> J {
    let prim = |r: &mut Rng| json!({"c": "prim", "p": r.pick(&[0u8, 1, 0x40, 0x41, 2])});
    match (kind, r.below(6)) {
        ("sys", _) => json!({"r": "id", "id": id(r)}),
        ("lib", 0 | 1) => json!({"r": "nm", "id": hex(&[r.next() as u8; 32])}),
        ("lib", 2) => json!({"r": "ex", "lib": hex(&[7u8; 32]), "id": id(r)}),
        ("lib", 3) => json!({"r": "in", "ty": {"c": "uni"}}),
        ("lib", _) => json!({"r": "in", "ty": prim(r)}),
        (_, 0 | 1) => json!({"r": "tn", "name": "Data"}),
        (_, 2) => json!({"r": "tx", "lib": "Lib", "name": "Data", "lid": hex(&[7u8; 32]), "id": id(r)}),
        (_, 3) => json!({"r": "em", "ty": {"c": "uni"}}),
        _ => json!({"r": "em", "ty": prim(r)}),
    }
}
fn option(r: &mut Rng, kind: &str) -> J {
    let unit = match kind {
        "sys" => json!({"r": "id", "id": sid(&Ty::<SemId>::UNIT.sem_id_unnamed())}),
        "lib" => json!({"r": "in", "ty": {"c": "prim", "p": 0}}),
        _ => json!({"r": "em", "ty": {"c": "prim", "p": 0}}),
    };
    let mut v = vec![json!({"n": "none", "g": 0, "t": unit}), json!({"n": "some", "g": 1, "t": leaf(r, kind)})];
    match r.below(10) {
        0 => v[0]["t"] = leaf(r, kind),
        1 => v[1]["n"] = json!("a"),
        2 => v[0]["n"] = json!("b"),
        3 => v[1]["g"] = json!(2),
        4 => v.push(json!({"n": "x", "g": 9, "t": leaf(r, kind)})),
        5 => {
            v.pop();
        }
        6 => {
            v[0]["n"] = json!("some");
            v[1]["n"] = json!("none");
        }
        7 => {
            v[0]["t"] = leaf(r, kind);
            v[1]["t"] = unit;
        }
        _ => {}
    }
    json!({"c": "union", "v": v})
}
fn chars(r: &mut Rng) -> J {
    let mut g: Vec<u8> = (0..r.range(1, 5)).map(|_| *r.pick(&[31u8, 32, 33, 65, 97, 126, 127, 128, 0])).collect();
    g.sort();
    g.dedup();
    json!({"c": "enum", "v": g.iter().map(|g| json!({"n": format!("c{g}"), "g": g})).collect::<Vec<_>>()})
}
fn wide(r: &mut Rng, kind: &str) -> J {
    let n = *r.pick(&[9usize, 127, 128, 129, 254, 255]);
    let nm = |i: usize| format!("f{i}");
    match r.below(4) {
        0 => json!({"c": "struct", "f": (0..n).map(|i| json!({"n": nm(i), "t": leaf(r, kind)})).collect::<Vec<_>>()}),
        1 => json!({"c": "tuple", "f": (0..n).map(|_| leaf(r, kind)).collect::<Vec<_>>()}),
        2 => json!({"c": "union", "v": (0..n).map(|i| json!({"n": nm(i), "g": i, "t": leaf(r, kind)})).collect::<Vec<_>>()}),
        _ => json!({"c": "enum", "v": (0..n).map(|i| json!({"n": nm(i), "g": i})).collect::<Vec<_>>()}),
    }
}
pub fn gen(r: &mut Rng) -> J {
    let kind = *r.pick(&["sym", "lib", "sys"]);
    let (emb, max) = match kind {
        "sym" => ("em", 3),
        "lib" => ("in", 2),
        _ => ("id", 0),
    };
    let big = r.chance(1, 12);
    let tys: Vec<J> = (0..if big { 1 } else { 4 })
        .map(|_| match r.below(8) {
            _ if big => wide(r, kind),
            0 => option(r, kind),
            1 => chars(r),
            2 if kind == "sym" => json!({"c": "tuple", "f": [{"r": "em", "ty": chars(r)}]}),
            2 if kind == "lib" => json!({"c": "tuple", "f": [{"r": "in", "ty": chars(r)}]}),
            _ => {
                let d = r.range(0, max);
                gen::ty(r, d, emb, &mut |r| leaf(r, kind))
            }
        })
        .collect();
    let mut names: Vec<&str> = NAMES.to_vec();
    r.shuffle(&mut names);
    names.truncate(4);
    for n in ["f0", "f127", "f254"] {
        if big {
            names.push(n);
        }
    }
    json!({"kind": kind, "tys": tys, "names": names})
}
