//! Component trees and memory layouts.
use std::collections::{BTreeMap, BTreeSet};

use serde_json::{json, Value as J};
use strict_encoding::TypeName;
use strict_types::ast::ItemCase;
use strict_types::layout::MemoryLayout;
use strict_types::typesys::{NestedCase, TypeFqn, TypeInfo};
use strict_types::{SemId, SymbolicSys, SystemBuilder, Ty};

use crate::proj::*;
use crate::rng::Rng;
use crate::{call, gen, s_art, s_sys, Out};

const LEAVES: [&str; 9] = [
    r#"{"c":"prim","p":1}"#, r#"{"c":"prim","p":64}"#, r#"{"c":"prim","p":0}"#, r#"{"c":"uni"}"#, r#"{"c":"prim","p":1}"#,
    r#"{"c":"enum","v":[{"n":"a","g":65},{"n":"b","g":66}]}"#, r#"{"c":"enum","v":[{"n":"a","g":0},{"n":"b","g":66}]}"#,
    r#"{"c":"enum","v":[{"n":"sp","g":32},{"n":"a","g":65},{"n":"del","g":127}]}"#, r#"{"c":"prim","p":4}"#,
];
const TN: [&str; 8] = ["Data", "DataX", "Kind", "Kind", "T", "_", "A_b", "Zeta"];

fn num(n: u64) -> J { le8(n) }
/// a complete type system
pub fn system(r: &mut Rng) -> J {
    let mut ids: Vec<String> = vec![];
    let mut types: BTreeMap<String, J> = BTreeMap::new();
    let mut syms: BTreeSet<(String, String, String)> = BTreeSet::new();
    let n = r.range(4, 14);
    for k in 0..n {
        let rf = |r: &mut Rng| {
            // rather recent ones, so that trees get deep
            let i = if r.chance(1, 2) { ids.len() - 1 - r.below(ids.len().min(3)) } else { r.below(ids.len()) };
            json!({"r": "id", "id": ids[i]})
        };
        let chars = |r: &mut Rng, types: &BTreeMap<String, J>| {
            let c: Vec<_> = types.iter().filter(|(_, t)| t["c"] == "enum").map(|(i, _)| i.clone()).collect();
            if c.is_empty() { None } else { Some(json!({"r": "id", "id": r.pick(&c)})) }
        };
        let unit = Ty::<SemId>::UNIT.sem_id_unnamed();
        let ty = if k < 2 || r.chance(1, 6) {
            serde_json::from_str(r.pick(&LEAVES)).unwrap()
        } else {
            match r.below(16) {
                0 => json!({"c": "tuple", "f": [rf(r)]}),
                1 | 2 => {
                    let u = if r.chance(1, 8) { rf(r) } else { json!({"r": "id", "id": sid(&unit)}) };
                    if u["id"] == sid(&unit).as_str() && !types.contains_key(&sid(&unit)) {
                        types.insert(sid(&unit), json!({"c": "prim", "p": 0}));
                    }
                    let (a, b) = *r.pick(&[(0, 1), (0, 1), (0, 1), (0, 2), (1, 2)]);
                    json!({"c": "union", "v": [{"n": "none", "g": a, "t": u}, {"n": "some", "g": b, "t": rf(r)}]})
                }
                3 | 12 => match chars(r, &types) {
                    Some(c) => {
                        let (lo, hi) = *r.pick(&[(0u64, 255u64), (1, 20), (0, u64::MAX), (0, 0), (0, 65534)]);
                        json!({"c": "list", "t": c, "lo": num(lo), "hi": num(hi)})
                    }
                    None => json!({"c": "tuple", "f": [rf(r)]}),
                },
                4 | 13 => {
                    let ls: Vec<_> = types.iter().filter(|(_, t)| t["c"] == "list" && (k % 4 == 0 || types[t["t"]["id"].as_str().unwrap()]["c"] == "enum")).map(|(i, _)| i.clone()).collect();
                    match chars(r, &types) {
                        Some(c) if !ls.is_empty() => json!({"c": "tuple", "f": [c, {"r": "id", "id": r.pick(&ls)}]}),
                        _ => json!({"c": "tuple", "f": [rf(r), rf(r)]}),
                    }
                }
                11 => {
                    let b: Vec<_> = types.iter().filter(|(_, t)| t["c"] == "prim" && (t["p"] == 1 || t["p"] == 64)).map(|(i, _)| i.clone()).collect();
                    let t = if b.is_empty() { rf(r) } else { json!({"r": "id", "id": r.pick(&b)}) };
                    if r.chance(1, 2) {
                        json!({"c": "array", "t": t, "len": r.below(40)})
                    } else {
                        let hi = *r.pick(&[255u64, 65535, 0xFFFFFF, 0xFFFFFFFF, u64::MAX, 32]);
                        json!({"c": r.pick(&["list", "list", "set"]), "t": t, "lo": num(r.below(2) as u64), "hi": num(hi)})
                    }
                }
                5 => {
                    let n = r.range(1, 30);
                    let base = r.range(0, 120) as u8;
                    json!({"c": "enum", "v": (0..n as u8).map(|i| json!({"n": format!("v{i}"), "g": base + i})).collect::<Vec<_>>()})
                }
                _ => gen::ty(r, 0, "id", &mut |r| rf(r)),
            }
        };
        let t = unproj_ty::<SemId>(&ty);
        let id = if r.chance(1, 2) {
            let name = *r.pick(&TN);
            let id = sid(&unproj_ty::<strict_types::typelib::LibRef>(&serde_json::from_str(&ty.to_string().replace(r#""r":"id""#, r#""r":"nm""#)).unwrap()).sem_id_named(&TypeName::try_from(name).expect("name")));
            syms.insert((id.clone(), r.pick(&["Lib", "Other"]).to_string(), name.to_owned()));
            if r.chance(1, 10) {
                syms.insert((id.clone(), "Third".into(), name.to_owned()));
            }
            id
        } else {
            let id = sid(&t.sem_id_unnamed());
            if r.chance(1, 2) {
                syms.insert((id.clone(), String::new(), String::new()));
            }
            id
        };
        types.insert(id.clone(), ty);
        ids.push(id);
    }
    json!({"types": types.into_iter().map(|(id, ty)| json!({"id": id, "ty": ty})).collect::<Vec<_>>(),
        "syms": syms.into_iter().map(|(id, lib, name)| json!({"id": id, "lib": lib, "name": name})).collect::<Vec<_>>()})
}
/// `{sys}` a type system with symbols; `{u}` a program; `{stl}`; `{chain}` that many nested wrappers
pub fn gen(r: &mut Rng) -> J {
    if r.chance(1, 4) {
        let nl = r.range(1, 3);
        json!({"u": gen::program(r, nl, *[3usize, 4, 7].get(nl - 1).unwrap())})
    } else {
        json!({"sys": system(r)})
    }
}
fn fqn(f: &Option<TypeFqn>) -> J {
    match f {
        Some(f) => json!({"lib": f.lib.to_string(), "name": f.name.to_string()}),
        None => json!({"lib": "", "name": ""}),
    }
}
pub fn entry(i: &TypeInfo) -> J {
    let item = match &i.item {
        None => json!({"k": "none"}),
        Some(ItemCase::UnnamedField(g)) => json!({"k": "pos", "g": g}),
        Some(ItemCase::NamedField(g, n)) => json!({"k": "field", "g": g, "n": n.to_string()}),
        Some(ItemCase::UnionVariant(g, n)) => json!({"k": "variant", "g": g, "n": n.to_string()}),
        Some(ItemCase::ArrayItem) => json!({"k": "array"}),
        Some(ItemCase::ListItem) => json!({"k": "list"}),
        Some(ItemCase::SetItem) => json!({"k": "set"}),
        Some(ItemCase::MapKey) => json!({"k": "key"}),
        Some(ItemCase::MapValue) => json!({"k": "value"}),
    };
    let w: Vec<J> = i
        .nested
        .iter()
        .map(|n| match n {
            NestedCase::NewType(f) => json!({"k": "new", "f": fqn(f)}),
            NestedCase::Option => json!({"k": "opt"}),
            NestedCase::ByteStr => json!({"k": "bytes"}),
            NestedCase::AsciiStr(f) => json!({"k": "ascii", "f": fqn(f)}),
            NestedCase::UniStr => json!({"k": "uni"}),
            NestedCase::RStr(a, b, s) => json!({"k": "rstr", "first": fqn(a), "rest": fqn(b), "lo": le8(s.min), "hi": le8(s.max)}),
        })
        .collect();
    json!({"depth": i.depth, "ty": proj_ty(&i.ty), "f": fqn(&i.fqn), "item": item, "w": w})
}
/// size of the fully expanded tree, up to a bound
pub fn size(t: &BTreeMap<String, J>, id: &str, left: &mut usize) {
    if *left == 0 {
        return;
    }
    *left -= 1;
    let Some(ty) = t.get(id) else { return };
    let mut go = |r: &J| size(t, r["id"].as_str().unwrap(), left);
    for k in ["t", "k"] {
        if !ty[k].is_null() {
            go(&ty[k])
        }
    }
    for x in ty["f"].as_array().into_iter().flatten() {
        go(if x["t"].is_null() { x } else { &x["t"] })
    }
    for x in ty["v"].as_array().into_iter().flatten() {
        if !x["t"].is_null() {
            go(&x["t"])
        }
    }
}
fn layouts(s: &SymbolicSys, max: usize, roots: &J, out: &mut Out) {
    let (_, syms) = s_sys::symbols_j(s);
    let types = proj_sys_types(s.as_types());
    out.ev(json!({"e": "system", "types": types, "syms": syms}));
    let t: BTreeMap<String, J> =
        types.as_array().unwrap().iter().map(|x| (x["id"].as_str().unwrap().to_owned(), x["ty"].clone())).collect();
    for id in t.keys() {
        if roots.as_array().is_some_and(|r| !r.iter().any(|x| x == id.as_str())) {
            continue;
        }
        let mut left = max;
        size(&t, id, &mut left);
        if left == 0 {
            continue;
        }
        let sem = SemId::from(id32(id));
        let (list, _) = call(
            || s.type_tree(sem).ok_or("absent").map(|t| t.iter().map(|i| entry(&i)).collect::<Vec<_>>()),
            |l| json!(l),
            |e| e.to_string(),
        );
        let (text, _) = call(|| s.type_tree(sem).ok_or("absent").map(|t| t.to_layout().to_string()), |l| json!(l), |e| e.to_string());
        let (text2, _) = call(
            || s.type_tree(sem).ok_or("absent").map(|t| (t.to_string(), MemoryLayout::from(t).to_string())),
            |(a, b)| json!(a == b && Some(a.as_str()) == text["v"].as_str()),
            |e| e.to_string(),
        );
        out.ev(json!({"e": "layout", "id": id, "list": list, "text": text, "same": text2}));
    }
    let absent = SemId::from([0xABu8; 32]);
    out.ev(json!({"e": "absent", "none": s.type_tree(absent).is_none() && s.type_tree("Nowhere.Nothing").is_none()}));
    // by name: the same tree
    for x in syms.as_array().unwrap() {
        if x["lib"] != "" {
            let name = format!("{}.{}", x["lib"].as_str().unwrap(), x["name"].as_str().unwrap());
            let spec: &'static str = Box::leak(name.clone().into_boxed_str());
            let (o, _) = call(|| s.type_tree(spec).ok_or("absent").map(|t| json!(proj_ty(t.get()))), |l| l.clone(), |e| e.to_string());
            out.ev(json!({"e": "byname", "id": x["id"], "lib": x["lib"], "name": x["name"], "out": o}));
        }
    }
}
pub fn run(scn: &J, out: &mut Out) {
    if let Some(n) = scn["chain"].as_u64() {
        let mut ids = vec![sid(&Ty::<SemId>::U8.sem_id_unnamed())];
        let mut types: BTreeMap<String, J> = [(ids[0].clone(), json!({"c": "prim", "p": 1}))].into();
        for _ in 0..n {
            let ty = json!({"c": "tuple", "f": [{"r": "id", "id": ids.last()}]});
            ids.push(sid(&unproj_ty::<SemId>(&ty).sem_id_unnamed()));
            types.insert(ids.last().unwrap().clone(), ty);
        }
        let types: Vec<J> = types.into_iter().map(|(id, ty)| json!({"id": id, "ty": ty})).collect();
        let s = s_art::load_ssys(&json!({"types": types, "syms": []})).expect("chain");
        return layouts(&s, n as usize + 5, &json!([ids.last()]), out);
    }
    let max = scn["max"].as_u64().unwrap_or(300) as usize;
    if !scn["sys"].is_null() {
        match s_art::load_ssys(&scn["sys"]) {
            Ok(s) => layouts(&s, max, &scn["roots"], out),
            Err(e) => panic!("system does not load: {e}"),
        }
    } else {
        let libs = if scn["stl"].is_null() {
            s_sys::compile_libs(&scn["u"])
        } else {
            vec![strict_types::stl::std_stl(), strict_types::stl::strict_types_stl()]
        };
        let mut b = Some(SystemBuilder::new());
        for l in &libs {
            b = b.and_then(|b| b.import(l.clone()).ok());
        }
        if let Some(Ok(sys)) = b.map(|b| b.finalize()) {
            layouts(&sys, max, &scn["roots"], out);
        }
    }
}
pub fn defs(s: &SymbolicSys) -> BTreeMap<String, J> {
    let types = proj_sys_types(s.as_types());
    types.as_array().unwrap().iter().map(|x| (x["id"].as_str().unwrap().to_owned(), x["ty"].clone())).collect()
}
