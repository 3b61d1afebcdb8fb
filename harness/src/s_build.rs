//! Building libraries: histories of the library builder.
use std::collections::{BTreeMap, HashSet};

use serde_json::{json, Value as J};
use sha2::{Digest, Sha256};
use strict_encoding::StrictSerialize;
use strict_types::{Dependency, LibBuilder, SemId, SymbolicLib, TypeLib, TypeLibId};

use crate::proj::*;
use crate::rng::Rng;
use crate::univ::{self, LIBS};
use crate::{call, gen, kind, Out};

pub type Dep = (Dependency, Vec<(String, SemId)>);

/// Scenario: `u` declarations, `runs` a sequence of builder histories
/// `{lib, adds:[slot], deps:[{name, mode}], damage}`.
pub fn gen(r: &mut Rng) -> J {
    let nlibs = r.range(1, 3);
    let max = *r.pick(&[3usize, 5, 8]);
    let mut u = gen::program(r, nlibs, max);
    // two declarations of the last library under one name
    let last: Vec<usize> = (0..u.as_array().unwrap().len()).filter(|k| u[*k]["l"] == LIBS[nlibs - 1] && u[*k]["n"] != "").collect();
    if last.len() > 1 && r.chance(1, 6) {
        let (a, b) = (*r.pick(&last), *r.pick(&last));
        u[a]["n"] = u[b]["n"].clone();
    }
    let mut runs = vec![];
    let ds = u.as_array().unwrap();
    for l in 0..nlibs {
        let own: Vec<usize> = (0..ds.len()).filter(|k| ds[*k]["l"] == LIBS[l]).map(|k| k + 1).collect();
        // everything there is, so that later libraries find what they need
        runs.push(json!({"lib": LIBS[l], "adds": own, "deps": full(l), "keep": true}));
        let top = l + 1 == nlibs;
        for _ in 0..if top { 3 } else { 1 } {
            let mut o = own.clone();
            r.shuffle(&mut o);
            if r.chance(1, 2) {
                o.truncate(r.range(1, o.len()));
            }
            if r.chance(1, 2) {
                let again = *r.pick(&o);
                let at = r.below(o.len() + 1);
                o.insert(at, again);
            }
            let mut deps = full(l);
            r.shuffle(&mut deps);
            if !deps.is_empty() && r.chance(1, 3) {
                let k = r.below(deps.len());
                match r.below(3) {
                    0 => {
                        deps.remove(k);
                    }
                    m => deps[k]["mode"] = json!(if m == 1 { "missing" } else { "stale" }),
                }
            }
            // another version of a dependency besides it
            if !deps.is_empty() && r.chance(1, 6) {
                let mut d = r.pick(&deps).clone();
                d["mode"] = json!("stale");
                let at = r.below(deps.len() + 1);
                deps.insert(at, d);
            }
            // types of lower libraries given to this builder as roots, too
            if r.chance(1, 6) {
                let at = r.below(o.len() + 1);
                let any = r.range(1, ds.len());
                if LIBS.iter().position(|x| *x == ds[any - 1]["l"]).unwrap() <= l {
                    o.insert(at, any);
                }
            }
            runs.push(json!({"lib": LIBS[l], "adds": o, "deps": deps, "pick": r.below(97)}));
        }
    }
    json!({"u": u, "runs": runs, "pick": r.below(1000)})
}
fn full(l: usize) -> Vec<J> { (0..l).map(|k| json!({"name": LIBS[k], "mode": "full"})).collect() }

fn builder(lib: &str, deps: &[Dep]) -> LibBuilder {
    LibBuilder::with(
        lname(lib),
        deps.iter().map(|(d, t)| (d.clone(), t.iter().map(|x| x.1).collect::<HashSet<_>>())).collect::<Vec<_>>(),
    )
}
pub fn sym_hash(l: &SymbolicLib) -> String {
    match l.to_strict_serialized::<{ u32::MAX as usize }>() {
        Ok(b) => hex(&Sha256::digest(b.as_slice())),
        Err(_) => "toolarge".into(),
    }
}
pub fn lib_hash(l: &TypeLib) -> String {
    match l.to_strict_serialized::<{ u32::MAX as usize }>() {
        Ok(b) => hex(&Sha256::digest(b.as_slice())),
        Err(_) => "toolarge".into(),
    }
}
fn sym_j(l: &SymbolicLib) -> J { json!({"lib": proj_sym(l), "hash": sym_hash(l)}) }
pub fn lib_j(l: &TypeLib) -> J {
    let ids: Vec<J> = l.types.iter().map(|(n, ty)| json!(sid(&ty.sem_id_named(n)))).collect();
    json!({"lib": proj_lib(l), "hash": lib_hash(l), "id": lid(&l.id()), "ids": ids})
}

pub fn run(scn: &J, out: &mut Out) {
    let (u, p) = univ::parse(&scn["u"]);
    univ::install(u);
    out.ev(json!({"e": "univ", "u": scn["u"]}));
    let mut built: BTreeMap<String, Dep> = BTreeMap::new();
    for run in scn["runs"].as_array().unwrap() {
        let lib = run["lib"].as_str().unwrap();
        let pick = run["pick"].as_u64().unwrap_or(0) as usize;
        let deps: Vec<Dep> = run["deps"]
            .as_array()
            .unwrap()
            .iter()
            .filter_map(|d| {
                let (mut dep, mut types) = built.get(d["name"].as_str().unwrap())?.clone();
                match d["mode"].as_str().unwrap() {
                    "missing" => {
                        let k = pick % types.len();
                        types.remove(k);
                    }
                    "stale" => {
                        // its own ids for every library
                        let b = pick as u8 ^ dep.name.as_str().as_bytes()[0];
                        dep.id = TypeLibId::from([b; 32]);
                        types.iter_mut().step_by(2).for_each(|t| t.1 = SemId::from([b; 32]));
                    }
                    _ => {}
                }
                Some((dep, types))
            })
            .collect();
        out.ev(json!({"e": "begin", "lib": lib, "deps": deps.iter().map(|(d, t)| json!({
            "id": lid(&d.id), "name": d.name.as_str(), "types": t.iter().map(|x| sid(&x.1)).collect::<Vec<_>>()})).collect::<Vec<_>>()}));
        let adds: Vec<usize> = run["adds"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
        let make = |n: usize| {
            let mut b = builder(lib, &deps);
            for i in &adds[..n] {
                let (l, c) = p.at[*i - 1];
                b = univ::transpile(b, l, c);
            }
            b
        };
        let mut stop = false;
        for n in 1..=adds.len() {
            let (o, _) = call(|| Ok::<_, ()>(make(n)), |_| json!(true), |_| String::new());
            stop = o["k"] == "panic";
            let sym = if stop { json!({"k": "none"}) } else { call(|| make(n).compile_symbols(), sym_j, kind).0 };
            out.ev(json!({"e": "add", "i": adds[n - 1], "out": o, "sym": sym}));
            if stop {
                break;
            }
        }
        if stop {
            continue;
        }
        let (o, v) = call(|| make(adds.len()).compile(), lib_j, kind);
        out.ev(json!({"e": "compile", "out": o}));
        let Some(v) = v else { continue };
        // the two-step way must be the same
        let (o, _) = call(|| make(adds.len()).compile_symbols().expect("as before").compile(), lib_j, kind);
        out.ev(json!({"e": "compile2", "out": o}));
        if run["keep"] == true {
            let (d, ids) = v.to_dependency_types();
            let t: Vec<(String, SemId)> =
                v.types.iter().map(|(n, ty)| (n.to_string(), ty.sem_id_named(n))).filter(|(_, id)| ids.contains(id)).collect();
            let mut x = ids.iter().map(sid).collect::<Vec<_>>();
            x.sort();
            out.ev(json!({"e": "todep", "id": lid(&d.id), "name": d.name.as_str(), "types": x}));
            built.insert(lib.to_string(), (d, t));
        }
        back(&v, out);
        damage(&v, pick + scn["pick"].as_u64().unwrap_or(0) as usize, out);
    }
}
pub fn back(v: &TypeLib, out: &mut Out) {
    let (o, s) = call(|| v.to_symbolic(), sym_j, kind);
    out.ev(json!({"e": "tosym", "out": o}));
    if let Some(s) = s {
        let (o, _) = call(|| s.compile(), lib_j, kind);
        out.ev(json!({"e": "recompile", "out": o}));
    }
}
/// References that do not resolve any more must be reported.
pub fn damage(v: &TypeLib, pick: usize, out: &mut Out) {
    let j = proj_lib(v);
    let mut alts = vec![];
    let n = |x: &J| x.as_array().unwrap().len();
    if n(&j["types"]) > 1 {
        let mut d = j.clone();
        d["types"].as_array_mut().unwrap().remove(pick % n(&j["types"]));
        alts.push(d);
    }
    if n(&j["deps"]) > 0 {
        let mut d = j.clone();
        d["deps"].as_array_mut().unwrap().remove(pick % n(&j["deps"]));
        alts.push(d);
        let mut d = j.clone();
        d["ext"].as_array_mut().unwrap().remove(pick % n(&j["ext"]));
        alts.push(d);
        let mut d = j.clone();
        let k = pick % n(&j["ext"]);
        let t = d["ext"][k]["types"].as_array_mut().unwrap();
        let m = t.len();
        t.remove(pick % m);
        alts.push(d);
        let mut d = j.clone();
        d["deps"][pick % n(&j["deps"])]["id"] = json!(hex(&[7u8; 32]));
        alts.push(d);
        // a record in the wrong table, under the wrong name, next to a wrong one
        let k = pick % n(&j["ext"]);
        let i = (pick / 3) % n(&j["ext"][k]["types"]);
        let mut d = j.clone();
        let t = d["ext"][k]["types"].as_array_mut().unwrap().remove(i);
        let m = n(&j["ext"]);
        if m > 1 {
            let o = &mut d["ext"][(k + 1) % m]["types"];
            if !o.as_array().unwrap().iter().any(|x| x["id"] == t["id"]) {
                o.as_array_mut().unwrap().push(t.clone());
            }
        } else {
            d["ext"].as_array_mut().unwrap().push(json!({"lib": "Foreign", "types": [t.clone()]}));
        }
        alts.push(d);
        let mut d = j.clone();
        d["ext"][k]["types"][i]["n"] = json!("Renamed");
        alts.push(d);
        let mut d = j.clone();
        d["ext"][k]["types"][i]["id"] = json!(hex(&[8u8; 32]));
        alts.push(d);
        if m > 1 {
            let mut d = j.clone();
            let (a, b) = (j["ext"][k]["lib"].clone(), j["ext"][(k + 1) % m]["lib"].clone());
            d["ext"][k]["lib"] = b;
            d["ext"][(k + 1) % m]["lib"] = a;
            alts.push(d);
        }
        // the table stays, the dependency has another name
        let mut d = j.clone();
        d["deps"][pick % n(&j["deps"])]["name"] = json!("Misnamed");
        alts.push(d);
    }
    for d in alts {
        let l = unproj_lib(&d);
        let (o, _) = call(|| l.to_symbolic(), sym_j, kind);
        out.ev(json!({"e": "damaged", "lib": proj_lib(&l), "out": o}));
    }
}
