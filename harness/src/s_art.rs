//! Storing and loading: binary, ASCII armor, JSON, YAML, files; and damaged copies of each.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use amplify::confinement::Confined;
use amplify::ByteArray;
use armor::AsciiArmor;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value as J};
use strict_encoding::{StrictDeserialize, StrictSerialize};
use strict_types::{StlFormat, SymbolicLib, SymbolicSys, SystemBuilder, TypeLib, TypeSystem};

use crate::proj::*;
use crate::rng::Rng;
use crate::{call, gen, s_sym, s_sys, Out};

const MAX: usize = 0xFFFFFF;

/// `{u, pick}` a program; `{lib|sym|sys: object, pick}` one object; `{raw: [{kind, o}], pick}` objects as
/// they may be found in storage, well-formed or not; `{deep: n}`
pub fn gen(r: &mut Rng) -> J {
    let pick = r.below(100000);
    match r.below(6) {
        0 | 1 => {
            let nl = r.range(1, 3);
            let max = *r.pick(&[3usize, 4, 7]);
            json!({"u": gen::program(r, nl, max), "pick": pick})
        }
        2 => json!({"lib": lib(r), "pick": pick}),
        3 => json!({"sym": s_sym::gen(r)["sym"], "pick": pick}),
        4 => json!({"sys": {"types": sys(r)}, "pick": pick}),
        _ => {
            let raw: Vec<J> = (0..12)
                .map(|_| {
                    let kind = *r.pick(&["lib", "sym", "sys"]);
                    let mut o = match kind {
                        "lib" => lib(r),
                        "sym" => s_sym::gen(r)["sym"].clone(),
                        _ => json!({"types": sys(r)}),
                    };
                    spoil(&mut o, r);
                    json!({"kind": kind, "o": o})
                })
                .collect();
            json!({"raw": raw, "pick": pick})
        }
    }
}
fn rid(r: &mut Rng) -> String { hex(&[r.below(256) as u8; 32]) }
fn libty(r: &mut Rng) -> J {
    let depth = r.range(0, 3);
    let deeper = |r: &mut Rng| {
        if r.chance(1, 2) {
            json!({"r": "nm", "id": rid(r)})
        } else {
            json!({"r": "ex", "lib": rid(r), "id": rid(r)})
        }
    };
    gen::ty(r, depth, "in", &mut { deeper })
}
/// Any compiled library (its references are arbitrary).
pub fn lib(r: &mut Rng) -> J {
    let sorted = |r: &mut Rng, n: usize| {
        let mut v: Vec<String> = (0..n).map(|_| rid(r)).collect();
        v.sort();
        v.dedup();
        v
    };
    let nd = r.below(4);
    let names = ["Alpha", "Beta", "_X9", "Gamma_2"];
    let deps: Vec<J> = sorted(r, nd).into_iter().enumerate().map(|(k, id)| json!({"id": id, "name": names[k]})).collect();
    let ne = r.below(3);
    let ext: Vec<J> = ["Alpha", "Beta", "Zed"][..ne]
        .iter()
        .map(|l| {
            let n = r.below(4);
            json!({"lib": l, "types": sorted(r, n).into_iter().map(|id| json!({"id": id, "n": *r.pick(&["Data", "T1"])})).collect::<Vec<_>>()})
        })
        .collect();
    let mut tn = vec!["A", "Aa", "B", "Data", "T_1", "Zz9"];
    r.shuffle(&mut tn);
    tn.truncate(r.range(1, 5));
    tn.sort();
    let types: Vec<J> = tn.iter().map(|n| json!({"n": n, "ty": libty(r)})).collect();
    json!({"name": r.pick(&["Lib", "Std", "L_2"]), "deps": deps, "ext": ext, "types": types})
}
pub fn sys(r: &mut Rng) -> J {
    let mut v: BTreeMap<String, J> = BTreeMap::new();
    for _ in 0..r.below(6) {
        let id = hex(&r.bytes(32));
        v.insert(id, gen::ty(r, 0, "id", &mut |r| json!({"r": "id", "id": rid(r)})));
    }
    J::Array(v.into_iter().map(|(id, ty)| json!({"id": id, "ty": ty})).collect())
}
/// Breaks some rule of well-formed objects, or none.
fn spoil(o: &mut J, r: &mut Rng) {
    let which = r.below(8);
    if (which == 3 || which == 4) && !o["deps"].is_null() {
        let d = o[if which == 3 { "deps" } else { "ext" }].as_array_mut().unwrap();
        if let Some(x) = d.first().cloned() {
            if r.chance(1, 2) { d.push(x) } else { d.reverse() }
        }
        return;
    }
    let ts = o["types"].as_array_mut().unwrap();
    if ts.is_empty() {
        return;
    }
    let k = r.below(ts.len());
    match which {
        0 => {
            let x = ts[k].clone();
            ts.insert(k, x);
        }
        1 => ts.reverse(),
        2 => ts.clear(),
        _ => spoil_ty(&mut ts[k]["ty"], r),
    }
}
fn spoil_ty(t: &mut J, r: &mut Rng) {
    // go down into an inline definition at times
    let inner = match t["c"].as_str().unwrap() {
        "union" => Some("v"),
        "struct" => Some("f"),
        _ => None,
    };
    if let Some(k) = inner {
        let v = t[k].as_array_mut().unwrap();
        if let Some(x) = v.iter_mut().find(|x| !x["t"]["ty"].is_null()) {
            if r.chance(1, 2) {
                return spoil_ty(&mut x["t"]["ty"], r);
            }
        }
    }
    match t["c"].as_str().unwrap() {
        "enum" | "union" => {
            let v = t["v"].as_array_mut().unwrap();
            match r.below(5) {
                0 => v.clear(),
                1 => v.reverse(),
                // one name under two tags
                _ => {
                    let mut x = v[r.below(v.len())].clone();
                    let used: Vec<u64> = v.iter().map(|x| x["g"].as_u64().unwrap()).collect();
                    let g = (0..255u64).filter(|g| !used.contains(g)).nth(r.below(8) * 20).unwrap();
                    x["g"] = json!(g);
                    v.push(x);
                    v.sort_by_key(|x| x["g"].as_u64());
                }
            }
        }
        "tuple" | "struct" => {
            let v = t["f"].as_array_mut().unwrap();
            if r.chance(1, 2) {
                v.clear()
            } else {
                let x = v[0].clone();
                v.push(x);
            }
        }
        "prim" => t["p"] = json!(r.below(256)),
        "list" | "set" | "map" => {
            let x = t["lo"].take();
            t["lo"] = t["hi"].take();
            t["hi"] = x;
        }
        _ => {}
    }
}

// ---- binary forms of descriptions, well-formed or not --------------------------------
fn s(b: &mut Vec<u8>, j: &J) {
    let x = j.as_str().unwrap().as_bytes();
    b.push(x.len() as u8);
    b.extend(x);
}
fn h(b: &mut Vec<u8>, j: &J) { b.extend(unhex(j.as_str().unwrap())) }
fn rf(b: &mut Vec<u8>, j: &J, d: usize) {
    match j["r"].as_str().unwrap() {
        "id" => h(b, &j["id"]),
        "in" | "em" => {
            b.push(0);
            tb(b, &j["ty"], d + 1)
        }
        "nm" => {
            b.push(if d == 3 { 0 } else { 1 });
            h(b, &j["id"])
        }
        "ex" => {
            b.push(if d == 3 { 1 } else { 2 });
            h(b, &j["lib"]);
            h(b, &j["id"])
        }
        "tn" => {
            b.push(1);
            s(b, &j["name"])
        }
        _ => {
            b.push(2);
            s(b, &j["lib"]);
            s(b, &j["name"]);
            h(b, &j["lid"]);
            h(b, &j["id"])
        }
    }
}
fn tb(b: &mut Vec<u8>, t: &J, d: usize) {
    let sz = |b: &mut Vec<u8>| {
        b.extend(un8(&t["lo"]).to_le_bytes());
        b.extend(un8(&t["hi"]).to_le_bytes())
    };
    let n = |k: &str| t[k].as_array().unwrap();
    match t["c"].as_str().unwrap() {
        "prim" => b.extend([0, t["p"].as_u64().unwrap() as u8]),
        "uni" => b.push(1),
        "enum" => {
            b.extend([3, n("v").len() as u8]);
            for v in n("v") {
                s(b, &v["n"]);
                b.push(v["g"].as_u64().unwrap() as u8)
            }
        }
        "union" => {
            b.extend([4, n("v").len() as u8]);
            for v in n("v") {
                b.push(v["g"].as_u64().unwrap() as u8);
                s(b, &v["n"]);
                rf(b, &v["t"], d)
            }
        }
        "tuple" => {
            b.extend([5, n("f").len() as u8]);
            n("f").iter().for_each(|x| rf(b, x, d))
        }
        "struct" => {
            b.extend([6, n("f").len() as u8]);
            for x in n("f") {
                s(b, &x["n"]);
                rf(b, &x["t"], d)
            }
        }
        "array" => {
            b.push(7);
            rf(b, &t["t"], d);
            b.extend((t["len"].as_u64().unwrap() as u16).to_le_bytes())
        }
        c => {
            b.push(match c { "list" => 8, "set" => 9, _ => 10 });
            if c == "map" {
                rf(b, &t["k"], d)
            }
            rf(b, &t["t"], d);
            sz(b)
        }
    }
}
pub fn bin_j(kind: &str, o: &J) -> Vec<u8> {
    let mut b = vec![];
    let ts = o["types"].as_array().unwrap();
    if kind == "ssys" {
        let (ls, ss) = (o["libs"].as_array().cloned().unwrap_or_default(), o["syms"].as_array().unwrap());
        b.extend((ls.len() as u16).to_le_bytes());
        for d in &ls {
            h(&mut b, &d["id"]);
            s(&mut b, &d["name"])
        }
        b.extend(&(ss.len() as u32).to_le_bytes()[..3]);
        for x in ss {
            h(&mut b, &x["id"]);
            b.push((x["lib"] != "") as u8);
            if x["lib"] != "" {
                s(&mut b, &x["lib"]);
                s(&mut b, &x["name"])
            }
        }
    }
    if kind == "sys" || kind == "ssys" {
        b.extend(&(ts.len() as u32).to_le_bytes()[..3]);
        for t in ts {
            h(&mut b, &t["id"]);
            tb(&mut b, &t["ty"], 0)
        }
        return b;
    }
    s(&mut b, &o["name"]);
    let ds = o["deps"].as_array().unwrap();
    b.push(ds.len() as u8);
    for d in ds {
        h(&mut b, &d["id"]);
        s(&mut b, &d["name"])
    }
    let es = o["ext"].as_array().unwrap();
    b.push(es.len() as u8);
    for e in es {
        s(&mut b, &e["lib"]);
        let ts = e["types"].as_array().unwrap();
        b.extend((ts.len() as u16).to_le_bytes());
        for t in ts {
            h(&mut b, &t["id"]);
            s(&mut b, &t["n"])
        }
    }
    if kind == "lib" {
        b.extend((ts.len() as u16).to_le_bytes())
    } else {
        b.extend((ts.len() as u64).to_le_bytes())
    }
    for t in ts {
        s(&mut b, &t["n"]);
        tb(&mut b, &t["ty"], 0)
    }
    b
}

// ---- objects ---------------------------------------------------------------------------
trait Obj: Sized + PartialEq + Serialize + DeserializeOwned + StrictSerialize + StrictDeserialize {
    const KIND: &'static str;
    fn p(&self) -> J;
    fn ident(&self) -> String;
    fn armored(&self) -> Option<String>;
    fn unarmor(s: &str) -> Result<Self, String>;
}
macro_rules! armor_fns {
    () => {
        fn armored(&self) -> Option<String> { Some(self.to_ascii_armored_string()) }
        fn unarmor(s: &str) -> Result<Self, String> { Self::from_ascii_armored_str(s).map_err(|e| format!("{e:?}")) }
    };
}
impl Obj for TypeLib {
    const KIND: &'static str = "lib";
    fn p(&self) -> J { proj_lib(self) }
    fn ident(&self) -> String { lid(&self.id()) }
    armor_fns!();
}
impl Obj for SymbolicLib {
    const KIND: &'static str = "sym";
    fn p(&self) -> J { proj_sym(self) }
    fn ident(&self) -> String { String::new() }
    fn armored(&self) -> Option<String> { None }
    fn unarmor(_: &str) -> Result<Self, String> { Err(String::new()) }
}
impl Obj for TypeSystem {
    const KIND: &'static str = "sys";
    fn p(&self) -> J { json!({"types": proj_sys_types(self)}) }
    fn ident(&self) -> String { hex(&self.id().to_byte_array()) }
    armor_fns!();
}
impl Obj for SymbolicSys {
    const KIND: &'static str = "ssys";
    fn p(&self) -> J {
        let (libs, syms) = s_sys::symbols_j(self);
        json!({"types": proj_sys_types(self.as_types()), "libs": libs, "syms": syms})
    }
    fn ident(&self) -> String { hex(&self.id().to_byte_array()) }
    armor_fns!();
}
fn bytes<T: Obj>(t: &T) -> Vec<u8> { t.to_strict_serialized::<MAX>().expect("small").release() }
fn load<T: Obj>(b: &[u8]) -> Result<T, String> {
    T::from_strict_serialized::<MAX>(Confined::try_from(b.to_vec()).unwrap()).map_err(|e| e.to_string())
}
fn loaded<T: Obj>(t: &T) -> J { json!({"v": t.p(), "id": t.ident()}) }

fn exercise<T: Obj>(t: &T, r: &mut Rng, out: &mut Out) {
    let b = bytes(t);
    out.ev(json!({"e": "obj", "kind": T::KIND, "v": t.p(), "id": t.ident(), "bin": hex(&b)}));
    let back = |form: &str, out: &mut Out, f: &dyn Fn() -> Result<Result<T, String>, String>| {
        let mut wrote = true;
        let (mut o, v) = call(
            || {
                f().unwrap_or_else(|e| {
                    wrote = false;
                    Err(e)
                })
            },
            loaded,
            |e| e.clone(),
        );
        if let Some(v) = v {
            o["v"]["eq"] = json!(&v == t && t == &v);
            o["v"]["same"] = json!(bytes(&v) == b);
        }
        out.ev(json!({"e": "load", "kind": T::KIND, "form": form, "wrote": wrote, "out": o}));
    };
    back("bin", out, &|| Ok(load(&b)));
    let json = || serde_json::to_string(t).map_err(|e| e.to_string());
    back("json", out, &|| json().map(|s| serde_json::from_str(&s).map_err(|e| e.to_string())));
    back("yaml", out, &|| serde_yaml::to_string(t).map_err(|e| e.to_string()).map(|s| serde_yaml::from_str(&s).map_err(|e| e.to_string())));
    // damaged binaries
    let at: Vec<usize> = if b.len() <= 500 { (0..b.len()).collect() } else { (0..60).map(|_| r.below(b.len())).chain(b.len() - 40..b.len()).collect() };
    let mut worst = vec![];
    let n = at.len();
    for k in at {
        let (o, _) = call(|| load::<T>(&b[..k]), |_| json!(k), |e| e.clone());
        if o["k"] != "err" {
            worst.push(o);
        }
    }
    let exts: Vec<Vec<u8>> = vec![vec![0], vec![1, 2], r.bytes(32), b.clone()];
    for x in exts {
        let mut y = b.clone();
        y.extend(&x);
        let (o, _) = call(|| load::<T>(&y), |_| json!(hex(&x)), |e| e.clone());
        if o["k"] != "err" {
            worst.push(o);
        }
    }
    out.ev(json!({"e": "cut", "kind": T::KIND, "n": n, "bad": worst}));
    let mut shown = [0; 2];
    for _ in 0..if b.is_empty() { 0 } else { 80 } {
        let y = alter(&b, r);
        if y == b {
            continue;
        }
        altered::<T>(&y, &mut shown, 5, out);
    }
    if let Ok(js) = json() {
        for _ in 0..25 {
            let mut y = js.clone().into_bytes();
            let k = r.below(y.len());
            match r.below(3) {
                0 => y[k] = *r.pick(b"{}[]\",:0aA-"),
                1 => {
                    y.remove(k);
                }
                _ => y.truncate(k),
            }
            let Ok(y) = String::from_utf8(y) else { continue };
            let (o, _) = call(|| serde_json::from_str::<T>(&y).map_err(|e| e.to_string()), |_| json!(true), |e| e.clone());
            if o["k"] == "panic" {
                out.ev(json!({"e": "text", "kind": T::KIND, "form": "json", "text": y, "out": o}));
            }
        }
    }
    if let Some(text) = call(|| t.armored().ok_or(()), |_| json!(true), |_| String::new()).1 {
        back("armor", out, &|| Ok(T::unarmor(&text)));
        armor_damage(t, &text, r, out);
    } else if T::KIND != "sym" {
        out.ev(json!({"e": "load", "kind": T::KIND, "form": "armor", "wrote": false, "out": {"k": "err", "e": "not written"}}));
    }
}
/// Loads bytes of any origin; `shown`: how many accepted and refused ones were reported, of `max` each
fn altered<T: Obj>(y: &[u8], shown: &mut [usize; 2], max: usize, out: &mut Out) {
    let mut same = true;
    let (o, v) = call(|| load::<T>(y), |_| json!(true), |e| e.clone());
    if let Some(v) = &v {
        same = bytes(v) == y;
    }
    let n = &mut shown[v.is_some() as usize];
    if o["k"] == "panic" || !same || *n < max {
        *n += 1;
        let o = if let Some(v) = v { json!({"k": "ok", "v": loaded(&v)}) } else { o };
        out.ev(json!({"e": "altered", "kind": T::KIND, "bytes": hex(y), "out": o}));
    }
}
pub fn alter(b: &[u8], r: &mut Rng) -> Vec<u8> {
    let mut y = b.to_vec();
    let k = r.below(y.len());
    match r.below(8) {
        0 => y[k] ^= 1 << r.below(8),
        1 => y[k] = *r.pick(&[0, 1, 2, 3, 255, 127, 32]),
        2 => y[k] = y[k].wrapping_add(1),
        3 => y[k] = y[k].wrapping_sub(1),
        4 => {
            y.remove(k);
        }
        5 => y.insert(k, *r.pick(&[0, 1, 65, 97, 255])),
        6 => {
            let l = r.below(b.len());
            y.swap(k, l)
        }
        _ => {
            let w = r.range(1, 12).min(b.len() - k);
            let c = y[k..k + w].to_vec();
            let at = r.below(y.len() - w + 1);
            y[at..at + w].copy_from_slice(&c);
        }
    }
    y
}
/// One alteration of an armored text, and what its headers then declare.
fn armor_damage<T: Obj>(t: &T, text: &str, r: &mut Rng, out: &mut Out) {
    let lines: Vec<String> = text.lines().map(str::to_owned).collect();
    let blank = lines.iter().position(|l| l.is_empty()).unwrap_or(0);
    let body: Vec<usize> = (blank + 1..lines.len()).filter(|k| !lines[*k].is_empty() && !lines[*k].starts_with("-----END")).collect();
    let idl = lines.iter().position(|l| l.starts_with("Id:"));
    let sum = lines.iter().position(|l| l.starts_with("Check-SHA256:"));
    let b85 = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&()*+-;<=>?@^_`{|}~ \"',./:[]\\";
    let chr = |l: &mut String, r: &mut Rng, from: usize| {
        let mut c = l.clone().into_bytes();
        if c.len() > from {
            let k = r.range(from, c.len() - 1);
            c[k] = *r.pick(b85);
        }
        *l = String::from_utf8(c).unwrap();
    };
    let data = bytes(t);
    let p = t.p();
    for n in 0..46 {
        let mut ls = lines.clone();
        let op = match n {
            0..=15 => {
                if body.is_empty() {
                    continue;
                }
                let k = *r.pick(&body);
                chr(&mut ls[k], r, 0);
                "body"
            }
            16..=18 => {
                if body.is_empty() {
                    continue;
                }
                let k = *r.pick(&body);
                match n {
                    16 => {
                        ls.remove(k);
                    }
                    17 => {
                        let x = ls[k].clone();
                        ls.insert(k, x)
                    }
                    _ => ls[k] = String::new(),
                }
                "lines"
            }
            19..=29 => {
                let Some(k) = idl else { continue };
                chr(&mut ls[k], r, 4);
                "id"
            }
            30 => {
                let Some(k) = idl else { continue };
                ls.remove(k);
                "noid"
            }
            31 => {
                let Some(k) = idl else { continue };
                ls[k] = format!("Id: {}", strict_types::TypeLibId::from([7u8; 32]));
                "otherkind"
            }
            32 => {
                let Some(k) = idl else { continue };
                let mut b = id32(&if t.ident().is_empty() { "00".repeat(32) } else { t.ident() });
                b[r.below(32)] ^= 1 << r.below(8);
                ls[k] = match T::KIND {
                    "lib" => format!("Id: {}", strict_types::TypeLibId::from(b)),
                    _ => format!("Id: {}", strict_types::TypeSysId::from(b)),
                };
                "otherid"
            }
            33..=37 => {
                let Some(k) = sum else { continue };
                chr(&mut ls[k], r, 14);
                "checksum"
            }
            38 => {
                let Some(k) = sum else { continue };
                ls.remove(k);
                "nochecksum"
            }
            39 => {
                chr(&mut ls[0], r, 0);
                "title"
            }
            40 => {
                let k = ls.len() - 1;
                chr(&mut ls[k], r, 0);
                "end"
            }
            _ => {
                // other content, with a checksum of its own, under this object's identifier
                let y = alter(&data, r);
                let Some(Some(o)) = catch_unwind(AssertUnwindSafe(|| load::<T>(&y).ok())).ok() else { continue };
                let Some(k) = idl else { continue };
                let Ok(Some(s)) = catch_unwind(AssertUnwindSafe(|| o.armored())) else { continue };
                ls = s.lines().map(str::to_owned).collect();
                let Some(m) = ls.iter().position(|l| l.starts_with("Id:")) else { continue };
                ls[m] = lines[k].clone();
                "content"
            }
        };
        let y = ls.join("\n") + "\n";
        if y == text {
            continue;
        }
        let decl = ls.iter().take_while(|l| !l.is_empty()).find(|l| l.starts_with("Id:")).map(|l| l[3..].trim().as_bytes().to_vec());
        let (o, v) = call(|| T::unarmor(&y), |_| json!(true), |e| e.clone());
        let mut o = o;
        let mut same = false;
        if let Some(v) = v {
            same = v.p() == p;
            o["v"] = if same { json!(true) } else { loaded(&v) };
        }
        out.ev(json!({"e": "armor", "kind": T::KIND, "op": op, "decl": decl.unwrap_or_default(), "same": same, "out": o}));
    }
}
pub fn load_ssys(o: &J) -> Result<SymbolicSys, String> { load(&bin_j("ssys", o)) }
fn scratch(write: impl Fn(&std::path::Path) -> std::io::Result<()>) -> (J, usize, String, Vec<u8>) {
    let dir = std::env::temp_dir().join(format!("harness-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("scratch");
    let (mut o, _) = call(|| write(&dir), |_| json!(true), |e| e.to_string());
    let files = || -> Vec<_> { std::fs::read_dir(&dir).unwrap().map(|e| e.unwrap().path()).collect() };
    if let Some(p) = files().first() {
        // once more, over a longer file of the same name
        let mut b = std::fs::read(p).unwrap();
        b.extend([b'x'; 77]);
        std::fs::write(p, b).expect("scratch");
        o = call(|| write(&dir), |_| json!(true), |e| e.to_string()).0;
    }
    let fs = files();
    let name = fs.first().map(|p| p.file_name().unwrap().to_string_lossy().to_string()).unwrap_or_default();
    let b = fs.first().map(|p| std::fs::read(p).unwrap()).unwrap_or_default();
    let n = fs.len();
    let _ = std::fs::remove_dir_all(&dir);
    (o, n, name, b)
}
const VER: [&str; 3] = ["1.2.3", "0.1.0-beta.2", "17"];
const HDR: [Option<&str>; 3] = [Some("\n  Author: Me"), None, Some("\n  Author: Me\n  License: Any")];
fn files(l: &TypeLib, out: &mut Out) {
    for (k, (f, ext)) in [(StlFormat::Binary, "stl"), (StlFormat::Armored, "sta"), (StlFormat::Source, "sty")].into_iter().enumerate() {
        let (ver, hdr) = (VER[(k + l.types.len()) % 3], HDR[l.types.len() % 3]);
        let (o, n, name, b) = scratch(|dir| l.serialize(f, Some(dir), ver, hdr));
        let back = match ext {
            "stl" => call(|| load::<TypeLib>(&b), loaded, |e| e.clone()).0,
            "sta" => call(|| TypeLib::unarmor(&String::from_utf8_lossy(&b)), loaded, |e| e.clone()).0,
            _ => json!({"k": "none"}),
        };
        let text = if ext == "sty" { b } else { vec![] };
        out.ev(json!({"e": "file", "ext": ext, "ver": ver, "hdr": hdr.unwrap_or_default(), "wrote": o, "n": n, "name": name, "back": back, "text": text}));
    }
}
fn sym_file(l: &SymbolicLib, out: &mut Out) {
    let (ver, hdr) = (VER[l.types().len() % 3], HDR[(l.types().len() + 1) % 3]);
    let (o, n, name, text) = scratch(|dir| l.serialize(Some(dir), ver, hdr));
    out.ev(json!({"e": "file", "ext": "sty", "ver": ver, "hdr": hdr.unwrap_or_default(), "wrote": o, "n": n, "name": name, "back": {"k": "none"}, "text": text}));
}

pub fn run(scn: &J, out: &mut Out) {
    if let Some(n) = scn["deep"].as_u64() {
        return deep(n as usize, out);
    }
    let mut r = Rng::new(scn["pick"].as_u64().unwrap_or(1));
    if let Some(raw) = scn["raw"].as_array() {
        for x in raw {
            let kind = x["kind"].as_str().unwrap();
            let b = bin_j(kind, &x["o"]);
            out.ev(json!({"e": "raw", "kind": kind, "o": x["o"], "bin": hex(&b)}));
            let mut k = [0; 2];
            match kind {
                "lib" => altered::<TypeLib>(&b, &mut k, 1, out),
                "sym" => altered::<SymbolicLib>(&b, &mut k, 1, out),
                _ => altered::<TypeSystem>(&b, &mut k, 1, out),
            }
        }
        return;
    }
    if let Some(bs) = scn["bytes"].as_array() {
        for x in bs {
            let b = unhex(x["b"].as_str().unwrap());
            match x["kind"].as_str().unwrap() {
                "lib" => altered::<TypeLib>(&b, &mut [0; 2], 1, out),
                "sym" => altered::<SymbolicLib>(&b, &mut [0; 2], 1, out),
                "sys" => altered::<TypeSystem>(&b, &mut [0; 2], 1, out),
                _ => altered::<SymbolicSys>(&b, &mut [0; 2], 1, out),
            }
        }
        return;
    }
    if !scn["lib"].is_null() {
        let l = unproj_lib(&scn["lib"]);
        exercise(&l, &mut r, out);
    } else if !scn["sym"].is_null() {
        match s_sym::load(s_sym::sym_bytes(&scn["sym"])) {
            Ok(s) => exercise(&s, &mut r, out),
            Err(e) => out.ev(json!({"e": "load", "kind": "sym", "form": "bin", "wrote": true, "out": {"k": "err", "e": e}})),
        }
    } else if !scn["sys"].is_null() {
        exercise(&s_sys::direct_sys(&scn["sys"]["types"]), &mut r, out);
    } else {
        let libs = if let Some(n) = scn["many"].as_u64() {
            vec![crate::gen::many(n as usize, scn["deps"].as_u64().unwrap() as usize, scn["pick"].as_u64().unwrap())]
        } else if scn["stl"].is_null() {
            s_sys::compile_libs(&scn["u"])
        } else {
            vec![strict_types::stl::std_stl(), strict_types::stl::strict_types_stl()]
        };
        let mut b = Some(SystemBuilder::new());
        for l in &libs {
            exercise(l, &mut r, out);
            files(l, out);
            if let Ok(s) = l.to_symbolic() {
                exercise(&s, &mut r, out);
                sym_file(&s, out);
            }
            b = b.and_then(|b| b.import(l.clone()).ok());
        }
        if let Some(Ok(sys)) = b.map(|b| b.finalize()) {
            exercise(sys.as_types(), &mut r, out);
            exercise(&sys, &mut r, out);
        }
    }
}
/// A symbolic library with `n` definitions inside each other, loaded on a stack of ordinary size.
fn deep(n: usize, out: &mut Out) {
    let mut b = bin_j("sym", &json!({"name": "Deep", "deps": [], "ext": [], "types": []}));
    let k = b.len();
    b[k - 8] = 1;
    b.extend(b"\x04Data");
    for _ in 0..n {
        b.extend([7, 0]);
    }
    b.extend([0, 1]);
    for _ in 0..n {
        b.extend([1, 0]);
    }
    let t = std::thread::Builder::new().stack_size(2 << 20);
    let (o, same) = t
        .spawn(move || {
            let (mut o, v) = call(|| load::<SymbolicLib>(&b), |_| json!(true), |e| e.clone());
            let same = v.as_ref().map(|v| bytes(v) == b).unwrap_or(true);
            if let Some(v) = v {
                let c = call(|| v.compile(), |_| json!(true), |e| format!("{e:?}").chars().take(12).collect()).0;
                o["compile"] = c;
            }
            (o, same)
        })
        .unwrap()
        .join()
        .unwrap();
    out.ev(json!({"e": "deep", "n": n, "same": same, "out": o}));
}
/// whether the native loader takes these bytes
pub fn loads(kind: &str, b: &[u8]) -> bool {
    match kind {
        "lib" => load::<TypeLib>(b).is_ok(),
        "sys" => load::<TypeSystem>(b).is_ok(),
        "ssys" => load::<SymbolicSys>(b).is_ok(),
        _ => false,
    }
}
