//! The crate's own stored data, decoded under the types published for it.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

use serde_json::{json, Value as J};
use strict_encoding::StrictEncode;
use strict_types::layout::MemoryLayout;
use strict_types::stl::{std_stl, strict_types_stl};
use strict_types::{SemId, SymbolicSys, SystemBuilder, TypeLib, TypeSystem};

use crate::native::enc;
use crate::proj::*;
use crate::rng::Rng;
use crate::s_val::proj_val;
use crate::{call, gen as g, s_art, s_layout, s_sys, Out};

struct Own {
    sys: TypeSystem,
    ids: BTreeMap<String, SemId>,
    j: J,
}
thread_local!(static OWN: RefCell<Option<Rc<Own>>> = const { RefCell::new(None) });
const STD: [&str; 4] = ["AlphaCapsLodash", "AlphaSmallLodash", "AlphaLodash", "AlphaNumLodash"];
fn own() -> Rc<Own> {
    OWN.with(|o| {
        o.borrow_mut()
            .get_or_insert_with(|| {
                let (std, st) = (std_stl(), strict_types_stl());
                let mut ids = BTreeMap::new();
                for (l, all) in [(&std, false), (&st, true)] {
                    for (n, ty) in l.types.iter() {
                        if all || STD.contains(&n.as_str()) {
                            ids.insert(n.to_string(), ty.sem_id_named(n));
                        }
                    }
                }
                let types: Vec<J> = ids.iter().map(|(n, id)| json!({"n": n, "id": sid(id)})).collect();
                let sys = SystemBuilder::new().import(std).unwrap().import(st).unwrap().finalize().unwrap();
                Rc::new(Own { sys: sys.as_types().clone(), ids, j: json!({"e": "own", "types": types}) })
            })
            .clone()
    })
}
fn name(kind: &str) -> &'static str {
    match kind {
        "lib" => "TypeLib",
        "sys" => "TypeSystem",
        "ssys" => "SymbolicSys",
        _ => "MemoryLayout",
    }
}
/// decodes under the published type, and encodes again
fn decode(kind: &str, b: &[u8]) -> (J, J) {
    let o = own();
    let (out, v) = call(|| o.sys.strict_deserialize_type(o.ids[name(kind)], b), |t| proj_val(t.as_val()), |e| crate::kind(e));
    let back = match v {
        None => json!({"k": "none"}),
        Some(t) => call(|| o.sys.strict_serialize_value::<0xFFFFFF>(&t), |b| json!(hex(b)), |e| e.to_string()).0,
    };
    (out, back)
}
fn stored(kind: &str, o: J, b: &[u8], out: &mut Out) {
    let (v, back) = decode(kind, b);
    out.ev(json!({"e": "stored", "kind": kind, "o": o, "bin": hex(b), "out": v, "back": back}));
}
fn bytes(kind: &str, b: &[u8], out: &mut Out) {
    let (v, back) = decode(kind, b);
    let native = std::panic::catch_unwind(|| s_art::loads(kind, b)).unwrap_or(false);
    out.ev(json!({"e": "bytes", "kind": kind, "b": hex(b), "out": v, "back": back, "native": native}));
}
fn object(kind: &str, o: J, b: &[u8], r: &mut Rng, out: &mut Out) {
    if b.len() > 6000 {
        return;
    }
    stored(kind, o, b, out);
    for _ in 0..if b.len() > 1500 { 2 } else { 12 } {
        let y = s_art::alter(b, r);
        bytes(kind, &y, out);
    }
}
fn layouts(s: &SymbolicSys, r: &mut Rng, out: &mut Out) {
    let ids: Vec<SemId> = s.as_types().keys().copied().collect();
    for _ in 0..4 {
        if ids.is_empty() {
            return;
        }
        let id = *r.pick(&ids);
        let mut left = 120;
        s_layout::size(&s_layout::defs(s), &sid(&id), &mut left);
        let Some(t) = s.type_tree(id).filter(|_| left > 0) else { continue };
        let (items, l) = call(|| Ok::<_, ()>(MemoryLayout::from(&t)), |_| json!(t.iter().map(|i| s_layout::entry(&i)).collect::<Vec<_>>()), |_| String::new());
        if let Some(l) = l {
            object("layout", items["v"].clone(), &enc(&l), r, out);
        }
    }
}
fn lib(l: &TypeLib, r: &mut Rng, out: &mut Out) { object("lib", proj_lib(l), &enc(l), r, out) }
fn system(s: &SymbolicSys, r: &mut Rng, out: &mut Out) {
    let (libs, syms) = s_sys::symbols_j(s);
    let types = proj_sys_types(s.as_types());
    object("sys", json!({"types": types}), &enc(s.as_types()), r, out);
    object("ssys", json!({"types": types, "libs": libs, "syms": syms}), &enc(s), r, out);
    layouts(s, r, out)
}
/// `{u}` a program; `{libs, sys, ssys}` objects; `{raw: [{kind, b}]}` bytes of any origin; `{stl}`
pub fn run(scn: &J, out: &mut Out) {
    let mut r = Rng::new(scn["pick"].as_u64().unwrap_or(0));
    let r = &mut r;
    out.ev(own().j.clone());
    for x in scn["raw"].as_array().into_iter().flatten() {
        bytes(x["kind"].as_str().unwrap(), &unhex(x["b"].as_str().unwrap()), out);
    }
    for x in scn["libs"].as_array().into_iter().flatten() {
        lib(&unproj_lib(x), r, out);
    }
    if !scn["sys"].is_null() {
        let t = s_sys::direct_sys(&scn["sys"]);
        object("sys", json!({"types": proj_sys_types(&t)}), &enc(&t), r, out);
    }
    if !scn["ssys"].is_null() {
        system(&s_art::load_ssys(&scn["ssys"]).expect("system"), r, out);
    }
    let libs = if !scn["stl"].is_null() {
        vec![std_stl()]
    } else if !scn["u"].is_null() {
        s_sys::compile_libs(&scn["u"])
    } else {
        return;
    };
    let mut b = Some(SystemBuilder::new());
    for l in &libs {
        lib(l, r, out);
        b = b.and_then(|b| b.import(l.clone()).ok());
    }
    if let Some(Ok(s)) = b.map(|b| b.finalize()) {
        system(&s, r, out);
    }
}
pub fn gen(r: &mut Rng) -> J {
    let pick = r.below(100000);
    match r.below(4) {
        0 => {
            let nl = r.range(1, 3);
            json!({"u": g::program(r, nl, 3), "pick": pick})
        }
        1 => json!({"libs": [s_art::lib(r), s_art::lib(r)], "pick": pick}),
        2 => json!({"sys": s_art::sys(r), "pick": pick}),
        _ => json!({"ssys": s_layout::system(r), "pick": pick}),
    }
}
