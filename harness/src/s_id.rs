//! Identifiers: what they commit to.
use std::panic::{catch_unwind, AssertUnwindSafe};

use amplify::ByteArray;
use serde_json::{json, Value as J};
use strict_types::stl::{std_stl, strict_types_stl};
use strict_types::{LibRef, SemId, SystemBuilder, TranspileRef, Ty, TypeLib};

use crate::proj::*;
use crate::rng::Rng;
use crate::{gen, s_build, s_sys, Out};

/// `{u, pick}`: definitions of a program and mutations of them; `{pairs}`; `{stl}`
pub fn gen(r: &mut Rng) -> J {
    let nl = r.range(1, 3);
    let max = *r.pick(&[3usize, 5, 8]);
    json!({"u": gen::program(r, nl, max), "pick": r.below(100000)})
}

fn def_ev<R: RefProj>(flavor: &str, n: &str, ty: &Ty<R>, id: Option<SemId>, idu: Option<SemId>) -> J {
    let f = |x: Option<SemId>| x.map_or(json!(""), |i| json!(sid(&i)));
    json!({"e": "def", "flavor": flavor, "n": n, "ty": proj_ty(ty), "id": f(id), "idu": f(idu)})
}
pub fn run(scn: &J, out: &mut Out) {
    if let Some(ps) = scn["pairs"].as_array() {
        for p in ps {
            pair(true, p["na"].as_str().unwrap(), &p["a"], p["nb"].as_str().unwrap(), &p["b"], out);
        }
        return;
    }
    if let Some(n) = scn["many"].as_u64() {
        let l = gen::many(n as usize, scn["deps"].as_u64().unwrap() as usize, scn["pick"].as_u64().unwrap());
        out.ev(json!({"e": "lib", "v": s_build::lib_j(&l)}));
        lib_mutants(&l, &mut Rng::new(7), out);
        return;
    }
    if let Some(n) = scn["keys"].as_u64() {
        // a system of many types; its identifier is that of its keys
        let mut m: std::collections::BTreeMap<SemId, Ty<SemId>> = (0..n)
            .map(|k| {
                let mut b = [9u8; 32];
                b[k as usize % 3] = k as u8;
                b[7..10].copy_from_slice(&k.to_le_bytes()[..3]);
                (SemId::from(b), Ty::U8)
            })
            .collect();
        for _ in 0..3 {
            let ids: Vec<String> = m.keys().map(sid).collect();
            let s = strict_types::TypeSystem::from(amplify::confinement::Confined::try_from(m.clone()).unwrap());
            out.ev(json!({"e": "sysid", "ids": ids, "id": hex(&s.id().to_byte_array())}));
            m.pop_last();
        }
        return;
    }
    if !scn["stl"].is_null() {
        for l in [std_stl(), strict_types_stl()] {
            one_lib(&l, out);
            let mut r = Rng::new(7);
            mutants(&l, &mut r, 40, out);
        }
        return;
    }
    let mut r = Rng::new(scn["pick"].as_u64().unwrap());
    let libs = s_sys::compile_libs(&scn["u"]);
    let mut b = Some(SystemBuilder::new());
    for l in &libs {
        one_lib(l, out);
        mutants(l, &mut r, 12, out);
        lib_mutants(l, &mut r, out);
        b = b.and_then(|b| b.import(l.clone()).ok());
        if let Some(Ok(sys)) = b.clone().map(|b| b.finalize()) {
            let t = sys.as_types();
            for (id, ty) in t.iter() {
                if r.chance(1, 3) {
                    out.ev(def_ev("sys", "Any", ty, None, Some(ty.sem_id_unnamed())));
                }
                let _ = id;
            }
            let all: Vec<SemId> = t.keys().copied().collect();
            for k in 0..4 {
                let mut m = std::collections::BTreeMap::new();
                for id in &all {
                    if k == 0 || r.chance(1, 2) {
                        m.insert(*id, t[*id].clone());
                    }
                }
                let ids: Vec<String> = m.keys().map(sid).collect();
                let s = strict_types::TypeSystem::from(amplify::confinement::Confined::try_from(m).unwrap());
                out.ev(json!({"e": "sysid", "ids": ids, "id": hex(&s.id().to_byte_array())}));
            }
        }
    }
}
fn one_lib(l: &TypeLib, out: &mut Out) {
    out.ev(json!({"e": "lib", "v": s_build::lib_j(l)}));
    for (n, ty) in &l.types {
        out.ev(def_ev("lib", n.as_str(), ty, Some(ty.sem_id_named(n)), Some(ty.sem_id_unnamed())));
    }
    if let Ok(Ok(s)) = catch_unwind(AssertUnwindSafe(|| l.to_symbolic())) {
        for (n, ty) in s.types() {
            let r = TranspileRef::Embedded(Box::new(ty.clone()));
            out.ev(def_ev("sym", n.as_str(), ty, Some(ty.sem_id_named(n)), Some(r.id())));
        }
    }
}
fn pair(listed: bool, na: &str, a: &J, nb: &str, b: &J, out: &mut Out) {
    let Ok((ta, tb)) = catch_unwind(AssertUnwindSafe(|| (unproj_ty::<LibRef>(a), unproj_ty::<LibRef>(b)))) else { return };
    out.ev(json!({"e": "pair", "listed": listed, "na": na, "nb": nb, "a": proj_ty(&ta), "b": proj_ty(&tb),
        "ida": sid(&ta.sem_id_named(&tname(na))), "idb": sid(&tb.sem_id_named(&tname(nb)))}));
}
fn mutants(l: &TypeLib, r: &mut Rng, n: usize, out: &mut Out) {
    let types: Vec<(String, J)> = l.types.iter().map(|(n, ty)| (n.to_string(), proj_ty(ty))).collect();
    for _ in 0..n {
        let (name, ty) = r.pick(&types).clone();
        if r.chance(1, 8) {
            let other = if r.chance(1, 2) { format!("{name}X") } else { format!("X{}", &name[1..]) };
            pair(false, &name, &ty, &other, &ty, out);
            continue;
        }
        let mut m = ty.clone();
        if mutate(&mut m, r) {
            pair(false, &name, &ty, &name, &m, out);
        }
    }
}
fn flip(j: &mut J, r: &mut Rng) {
    let mut b = unhex(j.as_str().unwrap());
    let k = r.below(b.len());
    b[k] ^= 1 << r.below(8);
    *j = json!(hex(&b));
}
fn rename(j: &mut J, r: &mut Rng) {
    let s = j.as_str().unwrap().to_string();
    *j = json!(match r.below(3) {
        0 => format!("{s}x"),
        1 if s.len() > 1 => s[..s.len() - 1].to_string(),
        _ => format!("q{}", &s[1..]),
    });
}
fn le(j: &mut J, r: &mut Rng) {
    let k = r.below(8);
    let a = j.as_array_mut().unwrap();
    a[k] = json!((a[k].as_u64().unwrap() as u8) ^ (1 << r.below(8)));
}
fn mut_ref(j: &mut J, r: &mut Rng) -> bool {
    match j["r"].as_str().unwrap() {
        "in" => mutate(&mut j["ty"], r),
        _ => {
            flip(&mut j["id"], r);
            true
        }
    }
}
/// Changes one component of a definition.
pub fn mutate(ty: &mut J, r: &mut Rng) -> bool {
    match ty["c"].as_str().unwrap() {
        "prim" => {
            let p = ty["p"].as_u64().unwrap() as u8;
            ty["p"] = json!(if r.chance(1, 2) { p ^ 0x40 } else { p.wrapping_add(1) });
            true
        }
        "uni" => {
            *ty = json!({"c": "prim", "p": 1});
            true
        }
        c @ ("enum" | "union" | "struct" | "tuple") => {
            let (key, named, tagged, typed) = match c {
                "enum" => ("v", true, true, false),
                "union" => ("v", true, true, true),
                "struct" => ("f", true, false, true),
                _ => ("f", false, false, true),
            };
            let a = ty[key].as_array_mut().unwrap();
            let k = r.below(a.len());
            match r.below(6) {
                0 if named => rename(&mut a[k]["n"], r),
                1 if tagged => a[k]["g"] = json!(a[k]["g"].as_u64().unwrap() as u8 ^ (1 << r.below(8))),
                2 if a.len() > 1 => {
                    a.remove(k);
                }
                3 if a.len() > 1 && !tagged => a.swap(k, 0),
                4 => {
                    let mut x = a[k].clone();
                    if named {
                        x["n"] = json!("extra");
                    }
                    if tagged {
                        x["g"] = json!(251);
                    }
                    a.push(x);
                }
                5 if tagged && a.len() > 1 => {
                    // exchange two names
                    let n = a[0]["n"].clone();
                    a[0]["n"] = a[k]["n"].clone();
                    a[k]["n"] = n;
                }
                _ if typed => return mut_ref(if named { &mut a[k]["t"] } else { &mut a[k] }, r),
                _ => return false,
            }
            true
        }
        "array" => {
            if r.chance(1, 2) {
                return mut_ref(&mut ty["t"], r);
            }
            ty["len"] = json!(ty["len"].as_u64().unwrap() as u16 ^ (1 << r.below(16)));
            true
        }
        _ => {
            match r.below(5) {
                0 => le(&mut ty["lo"], r),
                1 => le(&mut ty["hi"], r),
                2 if ty["c"] == "map" => return mut_ref(&mut ty["k"], r),
                2 => ty["c"] = json!(if ty["c"] == "list" { "set" } else { "list" }),
                3 if ty["c"] == "map" => {
                    let k = ty["k"].clone();
                    ty["k"] = ty["t"].clone();
                    ty["t"] = k;
                }
                _ => return mut_ref(&mut ty["t"], r),
            }
            true
        }
    }
}
fn lib_mutants(l: &TypeLib, r: &mut Rng, out: &mut Out) {
    let j = proj_lib(l);
    for _ in 0..6 {
        let mut m = j.clone();
        let nt = m["types"].as_array().unwrap().len();
        match r.below(6) {
            0 => m["name"] = json!("Delta"),
            1 if nt > 1 => {
                m["types"].as_array_mut().unwrap().remove(r.below(nt));
            }
            2 if m["deps"][0].is_object() => {
                m["deps"].as_array_mut().unwrap().remove(0);
            }
            3 if m["deps"][0].is_object() => flip(&mut m["deps"][0]["id"], r),
            4 => {
                let k = r.below(nt);
                m["types"][k]["n"] = json!("Other");
            }
            _ => {
                let k = r.below(nt);
                if !mutate(&mut m["types"][k]["ty"], r) {
                    continue;
                }
            }
        }
        let Ok(b) = catch_unwind(AssertUnwindSafe(|| unproj_lib(&m))) else { continue };
        out.ev(json!({"e": "libpair", "a": j, "b": proj_lib(&b), "ida": lid(&l.id()), "idb": lid(&b.id())}));
    }
}
