//! Source listings.
use serde_json::{json, Value as J};
use strict_types::typesys::TypeSymbol;
use strict_types::{SemId, SystemBuilder};

use crate::proj::*;
use crate::rng::Rng;
use crate::{call, gen, s_art, s_sym, s_sys, Out};

/// `{u}` a program; `{lib|sym|sys: object}` one object; `{stl}`
pub fn gen(r: &mut Rng) -> J {
    match r.below(6) {
        0 | 1 => {
            let nl = r.range(1, 3);
            json!({"u": gen::program(r, nl, *[3usize, 4, 7].get(nl - 1).unwrap())})
        }
        2 => json!({"lib": s_art::lib(r)}),
        3 | 4 => json!({"sym": s_sym::gen(r)["sym"]}),
        _ => json!({"sys": {"types": s_art::sys(r)}}),
    }
}
fn listing(kind: &str, v: J, f: impl FnOnce() -> String, out: &mut Out) {
    let (o, _) = call(|| Ok::<_, ()>(f()), |s| json!(s), |_| String::new());
    out.ev(json!({"e": "listing", "kind": kind, "v": v, "out": o}));
}
fn sym(s: &strict_types::SymbolicLib, out: &mut Out) {
    listing("sym", proj_sym(s), || format!("{s}"), out);
    listing("symalt", proj_sym(s), || format!("{s:#}"), out);
}
fn lib(l: &strict_types::TypeLib, out: &mut Out) {
    listing("lib", proj_lib(l), || format!("{l}"), out);
    if let Ok(s) = l.to_symbolic() {
        sym(&s, out)
    }
}
pub fn run(scn: &J, out: &mut Out) {
    if !scn["lib"].is_null() {
        lib(&unproj_lib(&scn["lib"]), out)
    } else if !scn["sym"].is_null() {
        if let Ok(s) = s_sym::load(s_sym::sym_bytes(&scn["sym"])) {
            sym(&s, out)
        }
    } else if !scn["sys"].is_null() {
        let s = s_sys::direct_sys(&scn["sys"]["types"]);
        listing("sys", json!({"types": proj_sys_types(&s)}), || format!("{s}"), out)
    } else {
        let libs_in = if let Some(n) = scn["many"].as_u64() {
            vec![crate::gen::many(n as usize, scn["deps"].as_u64().unwrap() as usize, scn["pick"].as_u64().unwrap())]
        } else if scn["stl"].is_null() {
            s_sys::compile_libs(&scn["u"])
        } else {
            vec![strict_types::stl::std_stl(), strict_types::stl::strict_types_stl()]
        };
        let mut b = Some(SystemBuilder::new());
        for l in &libs_in {
            lib(l, out);
            b = b.and_then(|b| b.import(l.clone()).ok());
        }
        if let Some(Ok(sys)) = b.map(|b| b.finalize()) {
            let t = sys.as_types();
            listing("sys", json!({"types": proj_sys_types(t)}), || format!("{t}"), out);
            let (libs, syms) = s_sys::symbols_j(&sys);
            let x = sys.as_symbols();
            listing("symbols", json!({"libs": libs, "syms": syms}), || format!("{x}"), out);
            for l in &libs_in {
                let d = l.to_dependency();
                listing("dep", json!({"id": lid(&l.id()), "name": l.name.as_str()}), || format!("{d}"), out);
            }
            for j in syms.as_array().unwrap().iter().take(10) {
                let id = SemId::from(id32(j["id"].as_str().unwrap()));
                let t = if j["lib"] == "" { TypeSymbol::unnamed(id) } else { TypeSymbol::named(id, lname(j["lib"].as_str().unwrap()), tname(j["name"].as_str().unwrap())) };
                listing("symbol", j.clone(), || format!("{t}"), out);
            }
            listing("ssys", json!({"types": proj_sys_types(t), "libs": libs, "syms": syms}), || format!("{sys}"), out);
        }
    }
}
