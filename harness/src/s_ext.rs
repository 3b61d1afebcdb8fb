//! Extending a compiled library by dependencies and types.
use amplify::confinement::Confined;
use serde_json::{json, Value as J};
use strict_types::{LibRef, SemId, Ty, TypeLib, TypeLibId};

use crate::proj::*;
use crate::rng::Rng;
use crate::s_build::lib_j;
use crate::{call, gen, kind, Out};

const LIBS: [&str; 6] = ["Alpha", "Beta", "AlphaX", "ALPHA", "Lib", "Other"];
const NAMES: [&str; 8] = ["Data", "DataX", "DATA", "Point", "T", "Tx", "Meta", "Zeta"];

fn id(k: usize) -> String { hex(&[k as u8 + 1; 32]) }
fn dep(r: &mut Rng) -> J {
    let k = r.below(6);
    // the name mostly goes with the id
    let n = if r.chance(1, 5) { r.below(6) } else { k };
    let mut b = [k as u8 + 1; 32];
    if r.chance(1, 6) {
        b[r.below(32)] ^= 1;
    }
    json!({"id": hex(&b), "name": LIBS[n]})
}
fn ty(r: &mut Rng) -> J {
    let d = r.below(3);
    gen::ty(r, d, "in", &mut |r| match r.below(3) {
        0 => json!({"r": "ex", "lib": id(r.below(6)), "id": id(r.below(9))}),
        1 if d < 2 => json!({"r": "in", "ty": {"c": "prim", "p": r.pick(&gen::PRIMS)}}),
        _ => json!({"r": "nm", "id": id(r.below(9))}),
    })
}
/// `{lib, ops: [{op, ..}]}` or `{bulk}`
pub fn gen(r: &mut Rng) -> J {
    let mut deps: Vec<J> = vec![];
    for _ in 0..r.below(4) {
        let d = dep(r);
        if !deps.iter().any(|x| x["id"] == d["id"] || x["name"] == d["name"]) {
            deps.push(d);
        }
    }
    let ext: Vec<J> = deps
        .iter()
        .map(|d| json!({"lib": d["name"], "types": [{"id": id(r.below(9)), "n": NAMES[r.below(8)]}]}))
        .collect();
    let mut names = NAMES.to_vec();
    r.shuffle(&mut names);
    let n = r.range(1, 4);
    let types: Vec<J> = names[..n].iter().map(|n| json!({"n": n, "ty": ty(r)})).collect();
    let nops = r.range(4, 14);
    let ops: Vec<J> = (0..nops)
        .map(|_| match r.below(2) {
            0 => json!({"op": "import", "dep": dep(r)}),
            _ => json!({"op": "populate", "n": r.pick(&NAMES), "ty": ty(r)}),
        })
        .collect();
    json!({"lib": {"name": r.pick(&LIBS), "deps": deps, "ext": ext, "types": types}, "ops": ops})
}
fn step(l: &mut TypeLib, op: &J) -> J {
    let o = if op["op"] == "import" {
        let d = unproj_dep(&op["dep"]);
        call(|| l.import(d), |_| json!(true), kind).0
    } else {
        let (n, t) = (tname(op["n"].as_str().unwrap()), unproj_ty::<LibRef>(&op["ty"]));
        call(|| l.populate(n, t), |_| json!(true), kind).0
    };
    o
}
pub fn run(scn: &J, out: &mut Out) {
    if !scn["bulk"].is_null() {
        return bulk(out);
    }
    let mut l = unproj_lib(&scn["lib"]);
    out.ev(json!({"e": "start", "v": lib_j(&l)}));
    for op in scn["ops"].as_array().unwrap() {
        let o = step(&mut l, op);
        let mut e = json!({"e": op["op"], "out": o, "after": lib_j(&l)});
        if op["op"] == "import" {
            e["dep"] = proj_dep(&unproj_dep(&op["dep"]));
        } else {
            e["n"] = op["n"].clone();
            e["ty"] = proj_ty(&unproj_ty::<LibRef>(&op["ty"]));
        }
        out.ev(e);
    }
}
/// At the limits of what a library can hold; only the counts are given.
fn bulk(out: &mut Out) {
    let t = |k: usize| Ty::<LibRef>::Array(LibRef::Named(SemId::from([7u8; 32])), k as u16);
    for nt in [65533usize, 65534, 65535] {
        let types = (0..nt).map(|k| (tname(&format!("T{k}")), t(k))).collect::<std::collections::BTreeMap<_, _>>();
        let mut l = TypeLib { name: lname("Big"), dependencies: default(), extern_types: default(), types: Confined::try_from(types).unwrap() };
        for (n, taken) in [("T0", true), ("T60000", true), ("Ta", false), ("Tb", false), ("Ta", nt < 65535)] {
            let before = l.clone();
            let ib = lid(&l.id());
            let o = call(|| l.populate(tname(n), t(3)), |_| json!(true), kind).0;
            let same = before == l;
            let mut rest = l.types.clone().release();
            let got = rest.remove(&tname(n));
            let only = rest == *before.types && l.dependencies == before.dependencies && l.extern_types == before.extern_types && l.name == before.name;
            out.ev(json!({"e": "count", "what": "types", "max": 65535, "n": before.types.len(), "taken": taken, "out": o, "after": l.types.len(),
                "same": same, "only": only && (taken || got == Some(t(3)) || same), "idchg": ib != lid(&l.id())}));
        }
    }
    let d = |k: usize| {
        let mut b = [3u8; 32];
        b[5] = k as u8;
        b[9] = (k >> 8) as u8;
        (TypeLibId::from(b), lname(&format!("Lib{k}")))
    };
    let mut l = TypeLib {
        name: lname("Big"),
        dependencies: default(),
        extern_types: default(),
        types: Confined::try_from(std::collections::BTreeMap::from([(tname("T"), t(1))])).unwrap(),
    };
    for k in (0..258).chain([0, 254, 255, 300]) {
        let (id, n) = d(k);
        let dep = strict_types::Dependency::with(id, n);
        let before = l.clone();
        let ib = lid(&l.id());
        let taken = before.dependencies.iter().any(|x| x.id == dep.id);
        let o = call(|| l.import(dep.clone()), |_| json!(true), kind).0;
        let same = proj_lib(&before) == proj_lib(&l);
        let mut rest: Vec<J> = l.dependencies.iter().map(proj_dep).collect();
        if let Some(p) = rest.iter().position(|x| *x == proj_dep(&dep)) {
            if !taken {
                rest.remove(p);
            }
        }
        let only = J::Array(rest) == proj_deps(before.dependencies.iter()) && l.types == before.types && l.extern_types == before.extern_types;
        out.ev(json!({"e": "count", "what": "deps", "max": 255, "n": before.dependencies.len(), "taken": taken, "out": o, "after": l.dependencies.len(),
            "same": same, "only": only, "idchg": ib != lid(&l.id())}));
    }
}
fn default<T: Default>() -> T { T::default() }
