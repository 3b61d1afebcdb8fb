//! Paths through values and through type definitions.
use amplify::confinement::{Confined, TinyBlob, TinyString};
use serde_json::{json, Value as J};
use strict_types::ast;
use strict_types::{KeyStep, PathError, Step, StrictVal, TranspileRef, Ty};

use crate::proj::*;
use crate::rng::Rng;
use crate::s_val::{deep_parts, gen_ty, gen_val, jbytes, map_refs, proj_val, unproj_val};
use crate::{call, Out};

pub fn vstep(j: &J) -> Step {
    match j["s"].as_str().unwrap() {
        "f" => Step::NamedField(fieldname(j["n"].as_str().unwrap())),
        "u" => Step::UnnamedField(j["i"].as_u64().unwrap() as u8),
        "i" => Step::Index(u32::from_le_bytes(jbytes(&j["b"]).try_into().unwrap())),
        _ => {
            let b = jbytes(&j["key"]["b"]);
            Step::Key(match j["key"]["k"].as_str().unwrap() {
                "num" => KeyStep::Number(u128::from_le_bytes(b.try_into().unwrap())),
                "blob" => KeyStep::TinyBlob(TinyBlob::try_from(b).unwrap()),
                _ => KeyStep::TinyString(TinyString::try_from(String::from_utf8(b).unwrap()).unwrap()),
            })
        }
    }
}
fn proj_key(k: &KeyStep) -> J {
    match k {
        KeyStep::Number(n) => json!({"k": "num", "b": n.to_le_bytes().to_vec()}),
        KeyStep::TinyBlob(b) => json!({"k": "blob", "b": b.as_slice()}),
        KeyStep::TinyString(s) => json!({"k": "str", "b": s.as_bytes()}),
        _ => json!({"k": "?"}),
    }
}
pub fn proj_vstep(s: &Step) -> J {
    match s {
        Step::NamedField(n) => json!({"s": "f", "n": n.as_str()}),
        Step::UnnamedField(i) => json!({"s": "u", "i": i}),
        Step::Index(i) => json!({"s": "i", "b": i.to_le_bytes().to_vec()}),
        Step::Key(k) => json!({"s": "k", "key": proj_key(k)}),
    }
}
pub fn tstep(j: &J) -> ast::Step {
    match j["s"].as_str().unwrap() {
        "f" => ast::Step::NamedField(fieldname(j["n"].as_str().unwrap())),
        "u" => ast::Step::UnnamedField(j["i"].as_u64().unwrap() as u8),
        "v" => ast::Step::Variant(varname(j["n"].as_str().unwrap())),
        "ix" => ast::Step::Index,
        "ls" => ast::Step::List,
        "st" => ast::Step::Set,
        "mk" => ast::Step::MapKey,
        _ => ast::Step::MapValue,
    }
}
pub fn proj_tstep(s: &ast::Step) -> J {
    match s {
        ast::Step::NamedField(n) => json!({"s": "f", "n": n.as_str()}),
        ast::Step::UnnamedField(i) => json!({"s": "u", "i": i}),
        ast::Step::Variant(n) => json!({"s": "v", "n": n.as_str()}),
        ast::Step::Index => json!({"s": "ix"}),
        ast::Step::List => json!({"s": "ls"}),
        ast::Step::Set => json!({"s": "st"}),
        ast::Step::MapKey => json!({"s": "mk"}),
        ast::Step::MapValue => json!({"s": "mv"}),
    }
}
fn vpath(v: &StrictVal, p: &[J], out: &mut Out) -> bool {
    let steps: Vec<Step> = p.iter().map(vstep).collect();
    let mut e = J::Null;
    let (mut o, r) = call(
        || v.at_path(&steps),
        |x| proj_val(x),
        |x| {
            e = match x {
                PathError::CollectionIndexOutOfBounds(i, n) => json!(["CollectionIndexOutOfBounds", i.to_le_bytes().to_vec(), n]),
                PathError::FieldNoOutOfBounds(i, n) => json!(["FieldNoOutOfBounds", i, n]),
                PathError::UnknownFieldName(n) => json!(["UnknownFieldName", n.as_str()]),
                PathError::UnknownKey(k) => json!(["UnknownKey", proj_key(k)]),
                PathError::TypeMismatch(s, v) => json!(["TypeMismatch", proj_vstep(s), proj_val(v)]),
            };
            let _ = x.to_string();
            String::new()
        },
    );
    let ok = r.is_some();
    if e != J::Null {
        o["e"] = e;
    }
    out.ev(json!({"e": "vpath", "path": p, "out": o}));
    ok
}
fn tpath(t: &Ty<TranspileRef>, p: &[J], out: &mut Out) -> bool {
    let mut of = true;
    let mut path = ast::Path::new();
    p.iter().for_each(|s| path.push(tstep(s)).unwrap());
    let mut e = J::Null;
    let (mut o, r) = call(
        || t.at_path(&path),
        |x| proj_ty(*x),
        |x| {
            e = x.path.iter().map(proj_tstep).collect();
            of = std::ptr::eq(x.ty, t) || x.ty == t;
            let _ = x.to_string();
            String::new()
        },
    );
    let ok = r.is_some();
    if e != J::Null {
        o["e"] = e;
    }
    out.ev(json!({"e": "tpath", "path": p, "out": o, "of": of}));
    ok
}
/// Takes every path up to `n` steps which leads somewhere, and now and then goes on after a failure.
fn walk(steps: &[J], n: usize, p: &mut Vec<J>, r: &mut Rng, f: &mut dyn FnMut(&[J]) -> bool) {
    let ok = f(p);
    if p.len() >= n {
        return;
    }
    if !ok {
        if r.chance(1, 6) {
            p.push(r.pick(steps).clone());
            f(p);
            p.pop();
        }
        return;
    }
    for s in steps {
        p.push(s.clone());
        walk(steps, n, p, r, f);
        p.pop();
    }
}
/// `{k: "v"|"t", roots, steps, n, pick}`
pub fn run(scn: &J, out: &mut Out) {
    let mut r = Rng::new(scn["pick"].as_u64().unwrap_or(0));
    let n = scn["n"].as_u64().unwrap() as usize;
    for root in scn["roots"].as_array().unwrap() {
        let own;
        let mut steps = scn["steps"].as_array().unwrap();
        out.ev(json!({"e": "root", "v": root}));
        if scn["k"] == "v" {
            let v = unproj_val(root);
            if steps.is_empty() {
                own = vsteps_of(root, &mut r);
                steps = &own;
            }
            walk(steps, n, &mut vec![], &mut r, &mut |p| vpath(&v, p, out));
        } else {
            let t: Ty<TranspileRef> = unproj_ty(root);
            if steps.is_empty() {
                own = tsteps_of(root, &mut r);
                steps = &own;
            }
            walk(steps, n, &mut vec![], &mut r, &mut |p| tpath(&t, p, out));
        }
    }
}
// ---- random roots and the steps that make sense in them --------------------------------------------
fn key_of(k: &J) -> Option<J> {
    Some(match k["v"].as_str().unwrap() {
        "num" => {
            let mut b = jbytes(&k["b"]);
            b.resize(16, 0);
            json!({"k": "num", "b": b})
        }
        "enum" if k["t"]["k"] == "o" => {
            let mut b = vec![k["t"]["g"].as_u64().unwrap() as u8];
            b.resize(16, 0);
            json!({"k": "num", "b": b})
        }
        "enum" => json!({"k": "str", "b": k["t"]["n"].as_str().unwrap().as_bytes()}),
        "bytes" if jbytes(&k["b"]).len() < 256 => json!({"k": "blob", "b": k["b"]}),
        "str" if jbytes(&k["b"]).len() < 256 => json!({"k": "str", "b": k["b"]}),
        _ => return None,
    })
}
fn vsteps_of(v: &J, r: &mut Rng) -> Vec<J> {
    let mut s = vec![json!({"s": "f", "n": "nope"}), json!({"s": "i", "b": *r.pick(&[[1, 1, 0, 1], [0, 1, 0, 0], [0, 0, 1, 0], [1, 0, 1, 0], [0, 0, 0, 1], [0, 0, 0, 128], [255, 255, 255, 255], [254, 255, 255, 255]])})];
    fn go(v: &J, s: &mut Vec<J>, r: &mut Rng) {
        match v["v"].as_str().unwrap() {
            k @ ("tuple" | "list" | "set") => {
                let f = v["f"].as_array().unwrap();
                for (i, x) in f.iter().enumerate().take(5) {
                    s.push(if k == "tuple" { json!({"s": "u", "i": i}) } else { json!({"s": "i", "b": (i as u32).to_le_bytes()}) });
                    go(x, s, r);
                }
                let n = f.len() as u32;
                s.push(if k == "tuple" { json!({"s": "u", "i": n.min(255)}) } else { json!({"s": "i", "b": n.to_le_bytes()}) });
            }
            "struct" => v["f"].as_array().unwrap().iter().for_each(|x| {
                s.push(json!({"s": "f", "n": x["n"]}));
                go(&x["x"], s, r);
            }),
            "map" => v["f"].as_array().unwrap().iter().for_each(|x| {
                if let Some(k) = key_of(&x["k"]) {
                    s.push(json!({"s": "k", "key": k}));
                    if k["k"] != "num" {
                        let b = jbytes(&k["b"]);
                        s.push(json!({"s": "k", "key": {"k": if k["k"] == "str" { "blob" } else { "str" }, "b": if b.is_ascii() { b } else { vec![] }}}));
                    } else {
                        let mut b = jbytes(&k["b"]);
                        b[r.range(8, 15)] ^= 1;
                        s.push(json!({"s": "k", "key": {"k": "num", "b": b}}));
                    }
                }
                go(&x["x"], s, r);
            }),
            _ => {}
        }
    }
    go(v, &mut s, r);
    let mut seen = std::collections::BTreeSet::new();
    s.retain(|x| seen.insert(x.to_string()));
    while s.len() > 14 {
        s.swap_remove(r.below(s.len()));
    }
    s
}
fn tsteps_of(t: &J, r: &mut Rng) -> Vec<J> {
    let mut s: Vec<J> = ["ix", "ls", "st", "mk", "mv"].iter().map(|x| json!({"s": x})).collect();
    fn go(t: &J, s: &mut Vec<J>) {
        if let Some(v) = t["v"].as_array() {
            for x in v {
                s.push(json!({"s": "v", "n": x["n"]}));
                s.push(json!({"s": "u", "i": x["g"]}));
            }
        }
        if let Some(f) = t["f"].as_array() {
            for (i, x) in f.iter().enumerate() {
                s.push(json!({"s": "u", "i": i}));
                if x.get("n").is_some() {
                    s.push(json!({"s": "f", "n": x["n"]}));
                }
            }
            s.push(json!({"s": "u", "i": f.len()}));
        }
        map_refs(t, &mut |x| {
            if x["r"] == "em" {
                go(&x["ty"], s)
            }
            x.clone()
        });
    }
    go(t, &mut s);
    let mut seen = std::collections::BTreeSet::new();
    s.retain(|x| seen.insert(x.to_string()));
    while s.len() > 14 {
        s.swap_remove(r.below(s.len()));
    }
    s
}
pub fn gen(r: &mut Rng) -> J {
    let pick = r.below(1 << 30);
    if r.chance(1, 40) {
        let n = r.range(6, 24);
        let (_, mut vals) = deep_parts(r, n, false);
        vals.truncate(1);
        return json!({"k": "v", "roots": vals, "steps": [], "n": 26, "pick": pick});
    }
    if r.chance(1, 2) {
        let mut roots = vec![];
        while roots.len() < 4 {
            let d = r.range(2, 4);
            let t = gen_ty(r, d);
            let Some(v) = gen_val(r, &t, 0) else { continue };
            if v.to_string().len() < 4000 {
                roots.push(v);
            }
        }
        json!({"k": "v", "roots": roots, "steps": [], "n": 4, "pick": pick})
    } else {
        fn embed(t: &J, r: &mut Rng) -> J {
            map_refs(t, &mut |x| if r.chance(1, 12) { json!({"r": "tn", "name": "Other"}) } else { json!({"r": "em", "ty": embed(&x["ty"], r)}) })
        }
        if r.chance(1, 20) {
            let n = r.range(6, 24);
            let ty = deep_parts(r, n, true).0;
            return json!({"k": "t", "roots": [embed(&ty, r)], "steps": [], "n": 26, "pick": pick});
        }
        let roots: Vec<J> = (0..4)
            .map(|_| {
                let d = r.range(2, 4);
                let t = gen_ty(r, d);
                embed(&t, r)
            })
            .collect();
        json!({"k": "t", "roots": roots, "steps": [], "n": 4, "pick": pick})
    }
}
