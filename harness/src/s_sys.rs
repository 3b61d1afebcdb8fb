//! Type systems: importing, finalizing, lookups, extraction, merging.
use std::collections::HashSet;

use amplify::confinement::Confined;
use serde_json::{json, Value as J};
use sha2::{Digest, Sha256};
use strict_encoding::StrictSerialize;
use strict_types::typesys::{Error as SysError, SystemBuilder, TypeFqn};
use strict_types::{Dependency, LibBuilder, SemId, SymbolicSys, Ty, TypeLib, TypeSystem};

use crate::proj::*;
use crate::rng::Rng;
use crate::univ::{self, LIBS};
use crate::{call, gen, kind, Out};

/// `{u, mods:[{i, drop:"type"|"dep"}], imports:[[lib number]], pick}` or `{direct:[types], pick}`
pub fn gen(r: &mut Rng) -> J {
    if r.chance(1, 5) {
        return json!({"direct": direct(r), "pick": r.below(1000)});
    }
    let nl = r.range(1, 3);
    let max = *r.pick(&[3usize, 5, 8]);
    let mut u = gen::program(r, nl, max);
    // the same definition under the same name in two libraries
    if nl > 1 && r.chance(1, 4) {
        let ds = u.as_array_mut().unwrap();
        for n in 0..2 {
            if (0..univ::NI).all(|c| ds.iter().any(|d| d["l"] == LIBS[n] && d["col"] == c)) {
                continue;
            }
            let col = (0..univ::NI).find(|c| !ds.iter().any(|d| d["l"] == LIBS[n] && d["col"] == *c)).unwrap();
            ds.push(json!({"l": LIBS[n], "n": "Twin", "col": col, "d": {"k": "struct", "f": [{"n": "twin", "t": {"k": "prim", "p": 2}}]}}));
        }
    }
    let n = nl + 2;
    let mods: Vec<J> = (0..2)
        .map(|_| json!({"i": r.range(1, nl), "drop": *r.pick(&["type", "dep", "types"]), "pick": r.below(1000)}))
        .collect();
    let imports: Vec<J> = (0..5)
        .map(|k| {
            let mut v: Vec<usize> = (1..=nl).collect();
            r.shuffle(&mut v);
            if k >= 3 {
                let extra = r.range(1, n);
                let at = r.below(v.len() + 1);
                v.insert(at, extra);
                if r.chance(1, 3) {
                    let at = r.below(v.len());
                    v.remove(at);
                }
            }
            json!(v)
        })
        .collect();
    json!({"u": u, "mods": mods, "imports": imports, "pick": r.below(1000)})
}
/// Arbitrary graph of definitions (also cyclic or incomplete); identifiers are arbitrary.
pub fn direct(r: &mut Rng) -> J {
    let n = r.range(1, 8);
    let id = |k: usize| hex(&[(k * 37 % 256) as u8; 32]);
    let types: Vec<J> = (0..n)
        .map(|k| {
            let mut rf = |r: &mut Rng| {
                let over = if r.chance(1, 12) { 2 } else { 0 };
                json!({"r": "id", "id": id(r.below(n + over))})
            };
            let fields = |r: &mut Rng, rf: &mut dyn FnMut(&mut Rng) -> J, m: usize| -> Vec<J> {
                (0..m).map(|i| json!({"n": format!("f{i}"), "t": rf(r)})).collect()
            };
            let ty = match r.below(8) {
                0 => json!({"c": "prim", "p": 1}),
                1 => {
                    let m = *r.pick(&[1usize, 2, 3, 254, 255]);
                    json!({"c": "struct", "f": fields(r, &mut rf, m)})
                }
                2 => {
                    let m = *r.pick(&[1usize, 2, 3, 255]);
                    json!({"c": "tuple", "f": (0..m).map(|_| rf(r)).collect::<Vec<_>>()})
                }
                3 => json!({"c": "union", "v": [{"n": "a", "g": 0, "t": rf(r)}, {"n": "b", "g": 7, "t": rf(r)}]}),
                4 => json!({"c": "array", "t": rf(r), "len": 3}),
                5 => json!({"c": "list", "t": rf(r), "lo": le8(0), "hi": le8(255)}),
                6 => json!({"c": "map", "k": rf(r), "t": rf(r), "lo": le8(0), "hi": le8(255)}),
                _ => json!({"c": "uni"}),
            };
            json!({"id": id(k), "ty": ty})
        })
        .collect();
    json!(types)
}

/// Compiles the libraries of a program, lower ones first.
pub fn compile_libs(u: &J) -> Vec<TypeLib> {
    let (uni, p) = univ::parse(u);
    univ::install(uni);
    let ds = u.as_array().unwrap();
    let mut deps: Vec<(Dependency, HashSet<SemId>)> = vec![];
    let mut out = vec![];
    for (l, name) in LIBS.iter().enumerate() {
        if !ds.iter().any(|d| d["l"] == *name) {
            continue;
        }
        let mut b = LibBuilder::with(lname(name), deps.clone());
        for k in 0..ds.len() {
            if p.at[k].0 == l {
                b = univ::transpile(b, l, p.at[k].1);
            }
        }
        let Ok(lib) = b.compile() else { break };
        deps.push(lib.to_dependency_types());
        out.push(lib);
    }
    out
}
pub fn symbols_j(s: &SymbolicSys) -> (J, J) {
    let j = serde_json::to_value(s.as_symbols()).expect("serde");
    let libs = j["libs"].as_array().unwrap().iter().map(|d| json!({"id": serde_lid(&d["id"]), "name": d["name"]})).collect::<Vec<_>>();
    let syms = j["symbols"]
        .as_array()
        .unwrap()
        .iter()
        .map(|t| {
            json!({"id": serde_sid(&t["id"]), "lib": if t["fqn"].is_null() { "".into() } else { t["fqn"]["lib"].clone() },
            "name": if t["fqn"].is_null() { "".into() } else { t["fqn"]["name"].clone() }})
        })
        .collect::<Vec<_>>();
    (J::Array(libs), J::Array(syms))
}
fn serde_sid(j: &J) -> String { sid(&serde_json::from_value::<SemId>(j.clone()).expect("id")) }
fn serde_lid(j: &J) -> String { lid(&serde_json::from_value::<strict_types::TypeLibId>(j.clone()).expect("id")) }
pub fn sys_hash(s: &SymbolicSys) -> String {
    match s.to_strict_serialized::<{ u32::MAX as usize }>() {
        Ok(b) => hex(&Sha256::digest(b.as_slice())),
        Err(_) => "toolarge".into(),
    }
}
pub fn sys_j(s: &SymbolicSys) -> J {
    let (libs, syms) = symbols_j(s);
    json!({"types": proj_sys_types(s.as_types()), "libs": libs, "syms": syms, "id": hex(&amplify::ByteArray::to_byte_array(&s.id())), "hash": sys_hash(s), "count": s.as_types().count_types().into_u32(), "into": s.clone().into_type_system() == *s.as_types()})
}
pub fn direct_sys(types: &J) -> TypeSystem {
    let m = types
        .as_array()
        .unwrap()
        .iter()
        .map(|x| (SemId::from(id32(x["id"].as_str().unwrap())), unproj_ty::<SemId>(&x["ty"])))
        .collect::<std::collections::BTreeMap<_, Ty<SemId>>>();
    TypeSystem::from(Confined::try_from(m).expect("size"))
}
pub fn modify(lib: &TypeLib, m: &J) -> TypeLib {
    let mut j = proj_lib(lib);
    let pick = m["pick"].as_u64().unwrap() as usize;
    let k = if m["drop"] == "dep" { "deps" } else { "types" };
    let a = j[k].as_array_mut().unwrap();
    if a.len() > 1 || (k == "deps" && !a.is_empty()) {
        a.remove(pick % a.len());
        if m["drop"] == "types" && a.len() > 1 {
            a.remove(pick / 7 % a.len());
        }
    }
    unproj_lib(&j)
}

/// A system of types each wrapping the one before, and parts of it, also with one missing.
fn chain(n: u64, r: &mut Rng, out: &mut Out) {
    let mut last = Ty::<SemId>::U8;
    let mut types = vec![(last.sem_id_unnamed(), last.clone())];
    for k in 0..n {
        let id = last.sem_id_unnamed();
        last = if k % 5 == 4 { unproj_ty(&json!({"c": "tuple", "f": [{"r": "id", "id": sid(&id)}, {"r": "id", "id": sid(&types[0].0)}]})) } else { Ty::Array(id, k as u16) };
        types.push((last.sem_id_unnamed(), last.clone()));
    }
    for gone in [None, Some(0), Some(r.below(n as usize))] {
        let m: std::collections::BTreeMap<_, _> = types.iter().enumerate().filter(|(k, _)| Some(*k) != gone).map(|(_, x)| x.clone()).collect();
        let t = TypeSystem::from(Confined::try_from(m).expect("size"));
        out.ev(json!({"e": "direct", "types": proj_sys_types(&t), "syms": [], "id": hex(&amplify::ByteArray::to_byte_array(&t.id()))}));
        let mut parts = vec![];
        for at in [n as usize, n as usize / 2, 1] {
            let ids = [types[at].0];
            let (o, v) = call(|| t.extract(ids), proj_sys_types, |e| unknown_id(&format!("{e:?}"), &types.iter().map(|x| x.0).collect::<Vec<_>>(), &ids, &t));
            let sysid = v.as_ref().map(|v| hex(&amplify::ByteArray::to_byte_array(&v.id()))).unwrap_or_default();
            out.ev(json!({"e": "extract", "ids": [sid(&ids[0])], "out": o, "id": sysid}));
            parts.extend(v);
        }
        for w in parts.windows(2) {
            for (a, b) in [(&w[0], &w[1]), (&w[1], &w[0])] {
                let mut c = a.clone();
                let (o, _) = call(|| c.extend(b.clone()).map(|_| c), proj_sys_types, kind);
                out.ev(json!({"e": "extend", "a": proj_sys_types(a), "b": proj_sys_types(b), "out": o}));
            }
        }
    }
}
/// Libraries each of which uses the one before, or the last of which uses all others.
fn row(n: usize, wide: bool) -> Vec<TypeLib> {
    let mut libs: Vec<(TypeLib, SemId)> = vec![];
    for k in 0..n {
        let used: Vec<&(TypeLib, SemId)> = if !wide { libs.last().into_iter().collect() } else if k + 1 == n { libs.iter().collect() } else { vec![] };
        let deps: Vec<J> = used.iter().map(|(l, _)| json!({"id": lid(&l.id()), "name": l.name.as_str()})).collect();
        let ext: Vec<J> = used.iter().map(|(l, id)| json!({"lib": l.name.as_str(), "types": [{"id": sid(id), "n": "Data"}]})).collect();
        let refs: Vec<J> = used.iter().map(|(l, id)| json!({"r": "ex", "lib": lid(&l.id()), "id": sid(id)})).collect();
        let own = json!({"r": "in", "ty": {"c": "array", "t": {"r": "in", "ty": {"c": "prim", "p": 1}}, "len": k}});
        let ty = json!({"c": "tuple", "f": ([vec![own], refs].concat())});
        let l = unproj_lib(&json!({"name": format!("Row{k}"), "deps": deps, "ext": ext, "types": [{"n": "Data", "ty": ty}]}));
        let (name, ty) = l.types.iter().next().unwrap();
        let id = ty.sem_id_named(name);
        libs.push((l, id));
    }
    libs.into_iter().map(|x| x.0).collect()
}
pub fn run(scn: &J, out: &mut Out) {
    let mut r = Rng::new(scn["pick"].as_u64().unwrap());
    if !scn["direct"].is_null() {
        let t = direct_sys(&scn["direct"]);
        out.ev(json!({"e": "direct", "types": proj_sys_types(&t), "syms": [], "id": hex(&amplify::ByteArray::to_byte_array(&t.id()))}));
        extracts(&t, &mut r, out, 6);
        return;
    }
    if let Some(n) = scn["chain"].as_u64() {
        return chain(n, &mut r, out);
    }
    let mut libs = if let Some(n) = scn["row"].as_u64() {
        row(n as usize, scn["wide"] == true)
    } else if let Some(n) = scn["many"].as_u64() {
        vec![crate::gen::many(n as usize, 0, 1)]
    } else {
        compile_libs(&scn["u"])
    };
    let n = libs.len();
    if n == 0 {
        return;
    }
    for m in scn["mods"].as_array().unwrap() {
        let i = m["i"].as_u64().unwrap() as usize - 1;
        libs.push(modify(&libs[i.min(n - 1)], m));
    }
    for l in &libs {
        out.ev(json!({"e": "lib", "lib": proj_lib(l), "id": lid(&l.id())}));
    }
    for (k, h) in scn["imports"].as_array().unwrap().iter().enumerate() {
        out.ev(json!({"e": "start"}));
        let mut b = SystemBuilder::new();
        let h: Vec<usize> = h.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).filter(|i| *i <= libs.len()).collect();
        for (step, i) in h.iter().enumerate() {
            let (o, v) = call(|| b.clone().import(libs[i - 1].clone()), |_| json!(true), kind);
            out.ev(json!({"e": "import", "i": i, "out": o}));
            let Some(v) = v else { break };
            b = v;
            let (o, sys, deps, types) = finalize(&b);
            out.ev(json!({"e": "finalize", "out": o, "deps": deps, "types": types}));
            let Some(sys) = sys else { continue };
            if step + 1 == h.len() && (k == 0 || k > 2) {
                lookups(&sys, &mut r, out);
                extracts(sys.as_types(), &mut r, out, 4);
            }
        }
    }
}
pub fn finalize(b: &SystemBuilder) -> (J, Option<SymbolicSys>, Vec<String>, Vec<String>) {
    let (mut deps, mut types) = (vec![], vec![]);
    let (o, v) = call(
        || b.clone().finalize(),
        sys_j,
        |e| {
            for x in e {
                match x {
                    SysError::AbsentImport(d) => deps.push(lid(&d.id)),
                    SysError::InnerTypeAbsent { unknown, .. } => types.push(sid(unknown)),
                    other => types.push(kind(other)),
                }
            }
            String::new()
        },
    );
    (o, v, deps, types)
}
fn ty_j(t: Option<&Ty<SemId>>) -> J {
    match t {
        None => json!({"k": "none"}),
        Some(t) => json!({"k": "some", "v": proj_ty(t)}),
    }
}
/// A name which is almost that of a type.
fn near_name(r: &mut Rng, lib: String, name: String) -> (String, String) {
    let cut = |s: &str| if s.len() > 1 { s[..s.len() - 1].to_string() } else { format!("{s}q") };
    match r.below(7) {
        0 | 1 => (lib, cut(&name)),
        2 => (lib, format!("{name}X")),
        3 => (lib, name.to_uppercase()),
        4 => (lib, format!("{}{}", &name[..1], name[1..].to_lowercase())),
        5 => (cut(&lib), name),
        _ => (format!("{lib}2"), name),
    }
}
pub fn lookups(s: &SymbolicSys, r: &mut Rng, out: &mut Out) {
    let mut names: Vec<(String, String)> = vec![("Alpha".into(), "Nothing".into()), ("Nolib".into(), "Data".into())];
    let (_, syms) = symbols_j(s);
    for x in syms.as_array().unwrap() {
        let st = |k: &str| x[k].as_str().unwrap().to_string();
        if x["name"] != "" {
            names.push((st("lib"), st("name")));
            if r.chance(1, 4) {
                names.push((LIBS[r.below(3)].into(), st("name")));
            }
            if r.chance(1, 2) {
                names.push(near_name(r, st("lib"), st("name")));
            }
        }
    }
    for (lib, name) in names {
        let fqn = || TypeFqn::with(lname(&lib), tname(&name));
        let id = s.resolve(fqn()).map(sid).unwrap_or_default();
        let toid = s.to_sem_id(fqn()).map(|x| sid(&x)).unwrap_or_default();
        // the qualified name as text, and indexing by it
        let text: &'static str = Box::leak(format!("{lib}.{name}").into_boxed_str());
        let spelled = s.to_sem_id(text).map(|x| sid(&x)).unwrap_or_default();
        let index = call(|| Ok::<_, ()>(s.as_symbols()[text]), |x| json!(sid(x)), |_| String::new()).0;
        let tree = ty_j(s.type_tree(fqn()).as_ref().map(|t| t.get()));
        out.ev(json!({"e": "resolve", "lib": lib, "name": name, "out": id, "toid": toid, "ty": ty_j(s.get(fqn())), "spelled": spelled, "index": index, "tree": tree}));
    }
    let mut ids: Vec<SemId> = s.as_types().keys().copied().collect();
    ids.push(SemId::from([9u8; 32]));
    let mut near = amplify::ByteArray::to_byte_array(&ids[0]);
    near[31] ^= 1;
    ids.push(SemId::from(near));
    for id in ids {
        let o = s.lookup(id).map(|f| json!([f.lib.as_str(), f.name.as_str()])).unwrap_or(json!(["", ""]));
        let index = call(|| Ok::<_, ()>(&s.as_types()[id]), |t| proj_ty(*t), |_| String::new()).0;
        let tree = ty_j(s.type_tree(id).as_ref().map(|t| t.get()));
        let toid = s.to_sem_id(id).map(|x| sid(&x)).unwrap_or_default();
        out.ev(json!({"e": "lookup", "id": sid(&id), "out": o, "ty": ty_j(s.get(id)), "find": ty_j(s.as_types().find(id)), "index": index, "tree": tree, "toid": toid}));
    }
}
pub fn extracts(t: &TypeSystem, r: &mut Rng, out: &mut Out, n: usize) {
    let all: Vec<SemId> = t.keys().copied().collect();
    let mut parts = vec![];
    for k in 0..n {
        let m = if k == 0 { 1 } else { r.below(4) };
        let mut ids: Vec<SemId> = (0..m).map(|_| *r.pick(&all)).collect();
        if k > 0 && r.chance(1, 5) {
            ids.push(SemId::from([r.below(3) as u8 + 200; 32]));
        }
        let (o, v) = call(|| t.extract(ids.iter().copied()), proj_sys_types, |e| {
            // the only public view of the identifier is the error's Debug and Display form
            let s = format!("{e:?}");
            unknown_id(&s, &all, &ids, t)
        });
        let sysid = v.as_ref().map(|v| hex(&amplify::ByteArray::to_byte_array(&v.id()))).unwrap_or_default();
        out.ev(json!({"e": "extract", "ids": ids.iter().map(sid).collect::<Vec<_>>(), "out": o, "id": sysid}));
        if let Some(v) = v {
            parts.push(v);
        }
    }
    for w in parts.windows(2) {
        let (o, _) = call(
            || {
                let mut a = w[0].clone();
                a.extend(w[1].clone()).map(|_| a)
            },
            proj_sys_types,
            kind,
        );
        out.ev(json!({"e": "extend", "a": proj_sys_types(&w[0]), "b": proj_sys_types(&w[1]), "out": o}));
    }
}
/// Finds the identifier which an error text shows, among all that occur.
fn unknown_id(text: &str, all: &[SemId], ids: &[SemId], t: &TypeSystem) -> String {
    let mut c: Vec<SemId> = all.to_vec();
    c.extend(ids);
    for ty in t.values() {
        c.extend(ty.iter().map(|x| *x.0).take(255));
    }
    c.iter().find(|id| text.contains(&format!("{id:?}")) || text.contains(&id.to_string())).map(sid).unwrap_or_else(|| "?".into())
}
