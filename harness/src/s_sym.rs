//! Compiling symbolic libraries which no builder made: loaded from storage, with undefined, circular,
//! foreign and deeply nested references.
use amplify::confinement::Confined;
use serde_json::{json, Value as J};
use strict_encoding::{StrictDeserialize, StrictEncode, StrictWriter};
use strict_types::typelib::CompileError;
use strict_types::{SymbolicLib, TranspileRef};

use crate::proj::*;
use crate::rng::Rng;
use crate::s_build::{back, damage, lib_j};
use crate::{call, gen, Out};

const LIBS: [&str; 5] = ["Alpha", "Beta", "AlphaX", "ALPHA", "Other"];
const NAMES: [&str; 12] = ["Data", "DataX", "DATA", "Point", "T", "Tx", "Meta", "Zeta", "A_b", "Kind", "KindOf", "B"];
const EXT: [&str; 4] = ["Data", "Amount", "T", "Out"];

fn id(k: usize) -> String { hex(&[k as u8 + 1; 32]) }

pub fn gen(r: &mut Rng) -> J {
    let mut libs = LIBS.to_vec();
    r.shuffle(&mut libs);
    let nd = r.below(4);
    let mut deps: Vec<(String, String)> = libs[..nd].iter().enumerate().map(|(k, n)| (id(k + 40), n.to_string())).collect();
    // another version of one of them
    if nd > 0 && r.chance(1, 4) {
        let name = deps[r.below(nd)].1.clone();
        deps.push((id(*r.pick(&[30, 60])), name));
    }
    let nd = deps.len();
    let mut names = NAMES.to_vec();
    r.shuffle(&mut names);
    let n = r.range(1, 8);
    // where references may go to, beyond types ready before
    let style = r.below(6);
    let mut used: Vec<(usize, usize)> = vec![];
    let mut types = vec![];
    for k in 0..n {
        let depth = if r.chance(1, 10) { r.range(3, 5) } else { r.range(0, 3) };
        let t = gen::ty(r, depth, "em", &mut |r| {
            if nd > 0 && r.chance(1, 3) {
                let (l, t) = (r.below(nd), r.below(4));
                used.push((l, t));
                json!({"r": "tx", "lib": deps[l].1, "lid": deps[l].0, "name": EXT[t], "id": id(t + 10 * l)})
            } else {
                let to = match style {
                    0 if r.chance(1, 6) => r.below(12),
                    1 if r.chance(1, 6) => r.below(n),
                    2 if r.chance(1, 8) => k,
                    _ if k == 0 => return json!({"r": "tx", "lib": "Zzz", "lid": id(99), "name": "Z", "id": id(98)}),
                    _ => r.below(k),
                };
                json!({"r": "tn", "name": names[to]})
            }
        });
        types.push((names[k], t));
    }
    // a first type has nothing local to refer to
    let t0 = serde_json::to_string(&types).unwrap();
    let unknown_lib = t0.contains("\"Zzz\"");
    let mut ext: std::collections::BTreeMap<String, std::collections::BTreeMap<String, String>> = Default::default();
    for (l, t) in used {
        ext.entry(deps[l].1.clone()).or_default().insert(id(t + 10 * l), EXT[t].to_string());
    }
    let mut dj: Vec<J> = deps.iter().map(|(i, n)| json!({"id": i, "name": n})).collect();
    if unknown_lib && r.chance(9, 10) {
        dj.push(json!({"id": id(99), "name": "Zzz"}));
        ext.entry("Zzz".into()).or_default().insert(id(98), "Z".into());
    }
    if r.chance(1, 3) {
        dj.retain(|d| ext.contains_key(d["name"].as_str().unwrap()));
    }
    let mut ej: Vec<J> = ext
        .iter()
        .map(|(l, m)| json!({"lib": l, "types": m.iter().map(|(i, n)| json!({"id": i, "n": n})).collect::<Vec<_>>()}))
        .collect();
    // something may be missing or different
    match r.below(12) {
        0 if !dj.is_empty() => {
            let k = r.below(dj.len());
            dj.remove(k);
        }
        1 if !dj.is_empty() => {
            let k = r.below(dj.len());
            dj[k]["id"] = json!(id(77));
        }
        2 if !ej.is_empty() => {
            let k = r.below(ej.len());
            ej.remove(k);
        }
        3 if !ej.is_empty() => {
            let k = r.below(ej.len());
            let t = ej[k]["types"].as_array_mut().unwrap();
            let i = r.below(t.len());
            t.remove(i);
        }
        4 if !ej.is_empty() => {
            let k = r.below(ej.len());
            let t = ej[k]["types"].as_array_mut().unwrap();
            let i = r.below(t.len());
            t[i]["n"] = json!("Renamed");
        }
        5 => ej.push(json!({"lib": "Unused", "types": [{"id": id(5), "n": "U"}]})),
        _ => {}
    }
    types.sort_by_key(|t| t.0);
    let name = *r.pick(&["Lib", "Alpha", "Zeta"]);
    json!({"sym": {"name": name, "deps": dj, "ext": ej,
        "types": types.iter().map(|(n, t)| json!({"n": n, "ty": t})).collect::<Vec<_>>()}})
}

/// The binary form of a symbolic library, part by part.
pub fn sym_bytes(j: &J) -> Vec<u8> {
    fn w<T: StrictEncode>(t: &T) -> Vec<u8> {
        t.strict_encode(StrictWriter::in_memory::<{ u32::MAX as usize }>()).expect("in memory").unbox().unconfine()
    }
    let mut deps = std::collections::BTreeSet::new();
    j["deps"].as_array().unwrap().iter().for_each(|d| {
        deps.insert(unproj_dep(d));     // one by one: collecting would drop some of those with the same name
    });
    let deps: amplify::confinement::TinyOrdSet<strict_types::Dependency> = Confined::try_from(deps).unwrap();
    let types: amplify::confinement::NonEmptyOrdMap<_, _> = Confined::try_from(unproj_types::<TranspileRef>(&j["types"])).unwrap();
    let mut b = w(&lname(j["name"].as_str().unwrap()));
    b.extend(w(&deps));
    b.extend(w(&unproj_ext(&j["ext"])));
    b.extend(w(&types));
    b
}
pub fn load(b: Vec<u8>) -> Result<SymbolicLib, String> {
    let c = Confined::<Vec<u8>, 0, { u32::MAX as usize }>::try_from(b).map_err(|e| e.to_string())?;
    SymbolicLib::from_strict_serialized::<{ u32::MAX as usize }>(c).map_err(|e| e.to_string())
}
pub fn cerr(e: &CompileError) -> String {
    match e {
        CompileError::UnknownType { unknown, .. } => format!("UnknownType {unknown}"),
        CompileError::NestedInline(n, ..) => format!("NestedInline {n}"),
        CompileError::UnknownLib(n) => format!("UnknownLib {n}"),
        CompileError::DependencyMissesType(_, _, n) => format!("DependencyMissesType {n}"),
        e => format!("{} ", crate::kind(e)),
    }
}
fn outcome(mut o: J) -> J {
    if let Some(e) = o["e"].as_str().map(str::to_owned) {
        let (k, n) = e.split_once(' ').unwrap();
        o["e"] = json!(k);
        o["of"] = json!(n);
    }
    o
}
pub fn run(scn: &J, out: &mut Out) {
    if let Some(n) = scn["bulk"].as_u64() {
        let types: Vec<J> = (0..n).map(|k| json!({"n": format!("T{k:05}"), "ty": {"c": "prim", "p": 1}})).collect();
        let s = load(sym_bytes(&json!({"name": "Big", "deps": [], "ext": [], "types": types}))).expect("valid");
        let (o, l) = call(|| s.compile(), |l| json!(l.types.len()), cerr);
        out.ev(json!({"e": "symcount", "n": n, "out": outcome(o)}));
        if let Some(l) = l {
            let (o, _) = call(|| l.to_symbolic(), |s| json!(s.types().len()), crate::kind);
            out.ev(json!({"e": "symcount", "n": n, "out": o}));
        }
        return;
    }
    let (l, _) = call(|| load(sym_bytes(&scn["sym"])), |_| json!(true), Clone::clone);
    if l["k"] != "ok" {
        out.ev(json!({"e": "load", "out": l}));
        return;
    }
    let s = load(sym_bytes(&scn["sym"])).unwrap();
    let sj = proj_sym(&s);
    let (o, v) = call(|| s.compile(), lib_j, cerr);
    out.ev(json!({"e": "symcompile", "sym": sj, "out": outcome(o)}));
    if let Some(v) = v {
        back(&v, out);
        damage(&v, sj.to_string().len(), out);
    }
}
