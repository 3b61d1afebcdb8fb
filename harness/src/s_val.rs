//! Values: giving types to untyped data, encoding, decoding, streams, native encodings.
use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::{Confined, U32 as MAX32};
use amplify::num::{i1024, u1024};
use indexmap::IndexMap;
use serde_json::{json, Value as J};
use strict_encoding::{StreamReader, StrictEncode};
use strict_types::value::{Blob, EnumTag, StrictNum};
use strict_types::typesys::TypeFqn;
use strict_types::typify::TypeSpec;
use strict_types::{SemId, StrictVal, SymbolicSys, Ty, TypeSystem};

use crate::proj::*;
use crate::rng::Rng;
use crate::{call, mem, native, s_art, Out};

// ---- projections -------------------------------------------------------------------------------
pub fn bytes_j(b: &[u8]) -> J { J::Array(b.iter().map(|x| json!(x)).collect()) }
pub fn jbytes(j: &J) -> Vec<u8> { j.as_array().expect("bytes").iter().map(|x| x.as_u64().unwrap() as u8).collect() }
fn proj_tag(t: &EnumTag) -> J {
    match t {
        EnumTag::Name(n) => json!({"k": "n", "n": n.as_str()}),
        EnumTag::Ord(g) => json!({"k": "o", "g": g}),
    }
}
pub fn proj_val(v: &StrictVal) -> J {
    let num = |k: &str, b: &[u8]| json!({"v": "num", "k": k, "b": b});
    let seq = |k: &str, f: &[StrictVal]| json!({"v": k, "f": f.iter().map(proj_val).collect::<Vec<_>>()});
    match v {
        StrictVal::Unit => json!({"v": "unit"}),
        StrictVal::Number(StrictNum::Uint(n)) => num("u", &n.to_le_bytes()),
        StrictVal::Number(StrictNum::Int(n)) => num("i", &n.to_le_bytes()),
        StrictVal::Number(StrictNum::BigUint(n)) => num("bu", &n.to_le_bytes()),
        StrictVal::Number(StrictNum::BigInt(n)) => num("bi", &n.to_le_bytes()),
        StrictVal::Number(_) => json!({"v": "?"}),
        StrictVal::String(s) => json!({"v": "str", "b": s.as_bytes()}),
        StrictVal::Bytes(b) => json!({"v": "bytes", "b": b.0}),
        StrictVal::Tuple(f) => seq("tuple", f),
        StrictVal::List(f) => seq("list", f),
        StrictVal::Set(f) => seq("set", f),
        StrictVal::Struct(f) => {
            json!({"v": "struct", "f": f.iter().map(|(n, x)| json!({"n": n.as_str(), "x": proj_val(x)})).collect::<Vec<_>>()})
        }
        StrictVal::Map(f) => {
            json!({"v": "map", "f": f.iter().map(|(k, x)| json!({"k": proj_val(k), "x": proj_val(x)})).collect::<Vec<_>>()})
        }
        StrictVal::Enum(t) => json!({"v": "enum", "t": proj_tag(t)}),
        StrictVal::Union(t, x) => json!({"v": "union", "t": proj_tag(t), "x": proj_val(x)}),
    }
}
fn unproj_tag(j: &J) -> EnumTag {
    match j["k"].as_str().unwrap() {
        "n" => EnumTag::Name(varname(j["n"].as_str().unwrap())),
        _ => EnumTag::Ord(j["g"].as_u64().unwrap() as u8),
    }
}
pub fn unproj_val(j: &J) -> StrictVal {
    let seq = || j["f"].as_array().unwrap().iter().map(unproj_val).collect::<Vec<_>>();
    match j["v"].as_str().expect("value") {
        "unit" => StrictVal::Unit,
        "num" => {
            let b = jbytes(&j["b"]);
            StrictVal::Number(match j["k"].as_str().unwrap() {
                "u" => StrictNum::Uint(u64::from_le_bytes(b.try_into().unwrap())),
                "i" => StrictNum::Int(i64::from_le_bytes(b.try_into().unwrap())),
                "bu" => StrictNum::BigUint(u1024::from_le_bytes(b.try_into().unwrap())),
                _ => StrictNum::BigInt(i1024::from_le_bytes(b.try_into().unwrap())),
            })
        }
        "str" => StrictVal::String(String::from_utf8(jbytes(&j["b"])).expect("UTF-8")),
        "bytes" => StrictVal::Bytes(Blob(jbytes(&j["b"]))),
        "tuple" => StrictVal::Tuple(seq()),
        "list" => StrictVal::List(seq()),
        "set" => StrictVal::Set(seq()),
        "struct" => StrictVal::Struct(
            j["f"].as_array().unwrap().iter().map(|x| (fieldname(x["n"].as_str().unwrap()), unproj_val(&x["x"]))).collect::<IndexMap<_, _>>(),
        ),
        "map" => StrictVal::Map(j["f"].as_array().unwrap().iter().map(|x| (unproj_val(&x["k"]), unproj_val(&x["x"]))).collect()),
        "enum" => StrictVal::Enum(unproj_tag(&j["t"])),
        _ => StrictVal::Union(unproj_tag(&j["t"]), Box::new(unproj_val(&j["x"]))),
    }
}

/// Applies `f` to every reference of a definition.
pub fn map_refs(ty: &J, f: &mut dyn FnMut(&J) -> J) -> J {
    let mut t = ty.clone();
    match ty["c"].as_str().unwrap() {
        "union" => t["v"].as_array_mut().unwrap().iter_mut().for_each(|v| v["t"] = f(&v["t"])),
        "tuple" => t["f"].as_array_mut().unwrap().iter_mut().for_each(|v| *v = f(v)),
        "struct" => t["f"].as_array_mut().unwrap().iter_mut().for_each(|v| v["t"] = f(&v["t"])),
        "array" | "list" | "set" => t["t"] = f(&ty["t"]),
        "map" => {
            t["k"] = f(&ty["k"]);
            t["t"] = f(&ty["t"]);
        }
        _ => {}
    }
    t
}
/// Type system holding exactly the nodes of a closed tree; returns the root's identifier.
pub fn sys_of_tree(ty: &J, sys: &mut BTreeMap<SemId, Ty<SemId>>) -> SemId {
    let flat = map_refs(ty, &mut |r| json!({"r": "id", "id": sid(&sys_of_tree(&r["ty"], sys))}));
    let t: Ty<SemId> = unproj_ty(&flat);
    let id = t.sem_id_unnamed();
    sys.insert(id, t);
    id
}
pub fn system(m: BTreeMap<SemId, Ty<SemId>>) -> TypeSystem { TypeSystem::from(Confined::try_from(m).expect("size")) }
/// Closed tree below a type of a system.
pub fn tree_of(sys: &TypeSystem, id: SemId) -> J {
    let ty = if id == SemId::unit() { Ty::UNIT } else { sys.find(id).expect("type").clone() };
    map_refs(&proj_ty(&ty), &mut |r| json!({"r": "in", "ty": tree_of(sys, SemId::unproj(r))}))
}

// ---- execution ----------------------------------------------------------------------------------
/// A symbolic system over the same types, in which the type has a name: the same operations by name.
pub struct Named {
    sys: SymbolicSys,
    id: SemId,
    turn: std::cell::Cell<usize>,
}
impl Named {
    pub fn new(types: &TypeSystem, id: SemId) -> Self {
        let mut syms = vec![json!({"id": sid(&id), "lib": "Lib", "name": "Root"})];
        for (k, t) in types.keys().filter(|t| **t != id).enumerate().take(4) {
            let (lib, name) = [("Lib", "RootX"), ("Libr", "Root"), ("Li", "Root"), ("Lib", "Roo")][k];
            syms.push(json!({"id": sid(t), "lib": lib, "name": name}));
        }
        // all of them sorted by identifier, as they are stored
        syms.sort_by_key(|x| x["id"].as_str().unwrap().to_owned());
        let sys = s_art::load_ssys(&json!({"types": proj_sys_types(types), "libs": [], "syms": syms})).expect("symbolic system");
        Named { sys, id, turn: Default::default() }
    }
    fn spec(&self) -> TypeSpec {
        self.turn.set(self.turn.get() + 1);
        match self.turn.get() % 3 {
            0 => TypeSpec::from(self.id),
            1 => TypeSpec::from("Lib.Root"),
            _ => TypeSpec::from(TypeFqn::with("Lib", "Root")),
        }
    }
    fn absent(&self, v: &J, b: &[u8], out: &mut Out) {
        let sp = || [TypeSpec::from("Lib.Rooot"), TypeSpec::from(TypeFqn::with("Libs", "Root")), TypeSpec::from(SemId::from([7u8; 32]))];
        let mut outs = vec![];
        for s in sp() {
            outs.push(call(|| self.sys.typify(unproj_val(v), s), |_| json!(0), |e| e.to_string()).0["k"].clone());
        }
        for s in sp() {
            outs.push(call(|| self.sys.strict_deserialize_type(s, b), |_| json!(0), |e| e.to_string()).0["k"].clone());
        }
        for s in sp() {
            outs.push(call(|| self.sys.strict_read_type(s, &mut StreamReader::cursor::<MAX32>(b)), |_| json!(0), |e| e.to_string()).0["k"].clone());
        }
        out.ev(json!({"e": "absent", "outs": outs}));
    }
}
/// the second outcome, if it differs from the first
fn same(a: &J, b: J) -> J { if a["k"] == b["k"] && a["v"] == b["v"] { json!({"k": "same"}) } else { b } }
fn typify(sys: &TypeSystem, by: Option<&Named>, id: SemId, v: &J, out: &mut Out) -> Option<strict_types::typify::TypedVal> {
    let val = unproj_val(v);
    let (o, t) = call(
        || sys.typify(val, id),
        |t| json!({"v": proj_val(t.as_val()), "orig": t.as_orig().id == id}),
        |e| {
            let _ = e.to_string();
            String::new()
        },
    );
    let by = by.map(|by| same(&o, call(|| by.sys.typify(unproj_val(v), by.spec()), |t| json!({"v": proj_val(t.as_val()), "orig": t.as_orig().id == id}), |e| e.to_string()).0));
    out.ev(json!({"e": "typify", "v": v, "out": o, "by": by.unwrap_or(json!({"k": "same"}))}));
    t
}
struct Narrow {
    buf: Vec<u8>,
    room: usize,
}
impl std::io::Write for Narrow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(1).min(self.room - self.buf.len());
        self.buf.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn write_into(sys: &TypeSystem, t: &strict_types::typify::TypedVal, room: usize, old: bool) -> J {
    call(
        || {
            let mut w = Narrow { buf: vec![], room };
            #[allow(deprecated)]
            if old { sys.strict_write_type(t, &mut w) } else { sys.strict_write_value(t, &mut w) }.map_err(|_| ())?;
            Ok::<_, ()>(w.buf)
        },
        |b| bytes_j(b),
        |_| String::new(),
    )
    .0
}
fn encode(sys: &TypeSystem, t: &strict_types::typify::TypedVal, out: &mut Out) -> Option<Vec<u8>> {
    let (o, b) = call(|| sys.strict_serialize_value::<MAX32>(t), |b| bytes_j(b), |_| String::new());
    let (small, _) = call(|| sys.strict_serialize_value::<6>(t), |b| bytes_j(b), |_| String::new());
    #[allow(deprecated)]
    let (old, _) = call(
        || {
            let s = sys.strict_serialize_type::<MAX32>(t).map_err(|_| ())?;
            let mut buf = Vec::new();
            s.strict_write(strict_encoding::StreamWriter::new::<MAX32>(&mut buf)).map_err(|_| ())?;
            Ok::<_, ()>(buf)
        },
        |b| bytes_j(b),
        |_| String::new(),
    );
    // writers which take a byte at a time, and as many as there are or one less
    let n = b.as_ref().map(|b| b.len()).unwrap_or(0);
    let tries = if n > 600 { J::Array(vec![]) } else { json!([write_into(sys, t, n, false), write_into(sys, t, n, true), write_into(sys, t, n.wrapping_sub(1).min(n), n % 2 == 0)]) };
    out.ev(json!({"e": "encode", "v": proj_val(t.as_val()), "out": o, "small": small, "old": old, "narrow": tries}));
    b.map(|b| b.release())
}
fn decode(sys: &TypeSystem, by: Option<&Named>, id: SemId, b: &[u8], out: &mut Out) -> Option<strict_types::typify::TypedVal> {
    let base = mem::reset();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sys.strict_deserialize_type(id, b)));
    let peak = mem::peak().saturating_sub(base);
    let (o, t) = call(
        || r.unwrap_or_else(|e| std::panic::resume_unwind(e)),
        |t| json!({"v": proj_val(t.as_val()), "orig": t.as_orig().id == id}),
        |e| {
            let _ = e.to_string();
            String::new()
        },
    );
    let by = by.map(|by| {
        same(&o, call(|| by.sys.strict_deserialize_type(by.spec(), b), |t| json!({"v": proj_val(t.as_val()), "orig": t.as_orig().id == id}), |e| e.to_string()).0)
    });
    out.ev(json!({"e": "decode", "b": b, "out": o, "kb": peak / 1024, "by": by.unwrap_or(json!({"k": "same"}))}));
    t
}
struct Slow<'a>(&'a [u8], usize);
impl std::io::Read for Slow<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(1).min(self.0.len() - self.1);
        b[..n].copy_from_slice(&self.0[self.1..self.1 + n]);
        self.1 += n;
        Ok(n)
    }
}
fn stream(sys: &TypeSystem, by: Option<&Named>, id: SemId, b: &[u8], out: &mut Out) {
    let (o, _) = call(
        || {
            let mut c = StreamReader::cursor::<MAX32>(b);
            let t = sys.strict_read_type(id, &mut c)?;
            Ok::<_, strict_types::value::decode::Error>((t, c.unconfine().position() as usize))
        },
        |(t, n)| json!({"v": proj_val(t.as_val()), "n": n}),
        |_| String::new(),
    );
    let by = by.map(|by| {
        let r = || {
            let mut c = StreamReader::cursor::<MAX32>(b);
            let t = by.sys.strict_read_type(by.spec(), &mut c)?;
            Ok::<_, strict_types::value::decode::Error>((t, c.unconfine().position() as usize))
        };
        same(&o, call(r, |(t, n)| json!({"v": proj_val(t.as_val()), "n": n}), |e| e.to_string()).0)
    });
    // a source which gives a byte at a time
    let slow = call(
        || {
            let mut c = StreamReader::new::<MAX32>(Slow(b, 0));
            let t = sys.strict_read_type(id, &mut c)?;
            Ok::<_, strict_types::value::decode::Error>((t, c.unconfine().1))
        },
        |(t, n)| json!({"v": proj_val(t.as_val()), "n": n}),
        |_| String::new(),
    )
    .0;
    let slow = same(&o, slow);
    out.ev(json!({"e": "stream", "b": b, "out": o, "slow": slow, "by": by.unwrap_or(json!({"k": "same"}))}));
}
/// Values of `n` items for types whose bounds are near to it, or to what is left of it in one or two bytes.
fn bulk(n: usize, part: usize, of: usize, out: &mut Out) {
    let list = |c: &str, t: J, lo: usize, hi: usize| json!({"c": c, "t": inl(t), "lo": le8(lo as u64), "hi": le8(hi as u64)});
    let arr = |t: J, len: usize| json!({"c": "array", "t": inl(t), "len": len});
    let (byte, u16_, uni) = (json!({"c": "prim", "p": 64}), json!({"c": "prim", "p": 2}), json!({"c": "uni"}));
    let chars = json!({"c": "enum", "v": [{"n": "a", "g": 97}, {"n": "b", "g": 98}]});
    let value = |k: &str| {
        let num = |i: usize| num_j("u", (i as u64 % 60000).to_le_bytes().to_vec());
        match k {
            "bytes" | "str" => json!({"v": k, "b": vec![97u8; n]}),
            "map" => json!({"v": k, "f": (0..n).map(|i| json!({"k": num(i), "x": {"v": "unit"}})).collect::<Vec<_>>()}),
            _ => json!({"v": k, "f": (0..n).map(num).collect::<Vec<_>>()}),
        }
    };
    let mut cases = vec![];
    for len in BTreeSet::from([n & 0xff, n & 0xffff, n.saturating_sub(1).min(65535)]) {
        cases.push((arr(byte.clone(), len), "bytes"));
        cases.push((arr(byte.clone(), len), "str"));
        cases.push((arr(chars.clone(), len), "str"));
        if n <= 300 || n != len {
            cases.push((arr(u16_.clone(), len), "list"));
        }
    }
    for (lo, hi) in [(0, n & 0xff), (0, n & 0xffff), (0, n), (n, n), (n + 1, n + 2), (0, 65535), (0, 0xff_ffff), (n & 0xffff, 0x100_0000)] {
        if lo > hi {
            continue;
        }
        for t in [&byte, &uni, &chars] {
            cases.push((list("list", t.clone(), lo, hi), "str"));
        }
        cases.push((list("list", byte.clone(), lo, hi), "bytes"));
        let str_ = json!({"c": "tuple", "f": [inl(chars.clone()), inl(list("list", chars.clone(), lo, hi))]});
        cases.push((str_, "str"));
        // all distinct: costly to make sure of
        if n < lo || n > hi || (n <= 300 && lo == n) {
            cases.push((list("list", u16_.clone(), lo, hi), "list"));
            cases.push((list("set", u16_.clone(), lo, hi), "set"));
            cases.push((json!({"c": "map", "k": inl(u16_.clone()), "t": inl(json!({"c": "prim", "p": 0})), "lo": le8(lo as u64), "hi": le8(hi as u64)}), "map"));
        }
    }
    for (ty, k) in cases.into_iter().skip(part).step_by(of) {
        let mut m = BTreeMap::new();
        let id = sys_of_tree(&ty, &mut m);
        let sys = system(m);
        out.ev(json!({"e": "ty", "ty": ty}));
        let Some(t) = typify(&sys, None, id, &value(k), out) else { continue };
        let Some(b) = encode(&sys, &t, out) else { continue };
        decode(&sys, None, id, &b, out);
        decode(&sys, None, id, &b[..b.len().saturating_sub(1)], out);
    }
}
/// `{ty, vals, bytes, pick}` or `{native: k, seed, pick}` or `{bulk: n}`
pub fn run(scn: &J, out: &mut Out) {
    let mut r = Rng::new(scn["pick"].as_u64().unwrap_or(0));
    if let Some(k) = scn.get("native") {
        return native::run(k.as_u64().unwrap() as usize, scn["seed"].as_u64().unwrap(), &mut r, out);
    }
    if let Some(n) = scn["bulk"].as_u64() {
        return bulk(n as usize, scn["part"].as_u64().unwrap_or(0) as usize, scn["of"].as_u64().unwrap_or(1) as usize, out);
    }
    let mut m = BTreeMap::new();
    let id = sys_of_tree(&scn["ty"], &mut m);
    let sys = system(m);
    out.ev(json!({"e": "ty", "ty": scn["ty"]}));
    let by = Named::new(&sys, id);
    by.absent(&json!({"v": "unit"}), &[], out);
    // too many items to be listed in a trace
    for b in scn["hollow"].as_array().into_iter().flatten().map(jbytes) {
        let base = mem::reset();
        let (o, t) = call(|| sys.strict_deserialize_type(id, &b), |_| json!(true), |_| String::new());
        let peak = mem::peak().saturating_sub(base);
        drop(t);
        out.ev(json!({"e": "hollow", "b": b, "out": o, "kb": peak / 1024}));
    }
    exercise(&sys, Some(&by), id, scn["vals"].as_array().unwrap(), &scn["bytes"].as_array().unwrap().iter().map(jbytes).collect::<Vec<_>>(), &mut r, out);
}
pub fn exercise(sys: &TypeSystem, by: Option<&Named>, id: SemId, vals: &[J], bytes: &[Vec<u8>], r: &mut Rng, out: &mut Out) {
    let mut seen = BTreeSet::new();
    for v in vals {
        let Some(t) = typify(sys, by, id, v, out) else { continue };
        // one-step canonical form
        let again = proj_val(t.as_val());
        if again != *v {
            typify(sys, by, id, &again, out);
        }
        let Some(b) = encode(sys, &t, out) else { continue };
        if !seen.insert(b.clone()) {
            continue;
        }
        decode(sys, by, id, &b, out);
        if vals.len() <= 40 {
            for d in damage(&b, r) {
                if seen.insert(d.clone()) {
                    decode_encode(sys, by, id, &d, out);
                }
            }
            let tail = r.range(1, 3);
            let mut s = b.clone();
            s.extend(r.bytes(tail));
            stream(sys, by, id, &s, out);
        }
    }
    for b in bytes {
        decode_encode(sys, by, id, b, out);
        if r.chance(1, 8) {
            stream(sys, by, id, b, out);
        }
    }
}
fn decode_encode(sys: &TypeSystem, by: Option<&Named>, id: SemId, b: &[u8], out: &mut Out) {
    if let Some(t) = decode(sys, by, id, b, out) {
        encode(sys, &t, out);
    }
}
/// Realistic damage to an encoding: truncations, extensions, changed and swapped bytes.
fn damage(b: &[u8], r: &mut Rng) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut longer = b.to_vec();
    longer.push(r.next() as u8);
    v.push(longer);
    if b.is_empty() {
        return v;
    }
    for _ in 0..2 {
        v.push(b[..r.below(b.len())].to_vec());
    }
    v.push(b[..b.len() - 1].to_vec());
    for _ in 0..5 {
        let mut d = b.to_vec();
        let i = if r.chance(1, 2) { r.below(b.len().min(4)) } else { r.below(b.len()) };
        d[i] = *r.pick(&[0, 1, 2, 3, 0x20, 0x41, 0x7f, 0x80, 0xc3, 0xe2, 0xf0, 0xff, b[i].wrapping_add(1), b[i].wrapping_sub(1), r.clone().next() as u8]);
        v.push(d);
    }
    let i = r.below(b.len());
    let j = r.below(b.len());
    let mut d = b.to_vec();
    d.swap(i, j);
    v.push(d);
    // duplicate or remove a run of bytes
    let (i, j) = (i.min(j), i.max(j) + 1);
    let mut d = b[..j].to_vec();
    d.extend(&b[i..]);
    v.push(d);
    let mut d = b[..i].to_vec();
    d.extend(&b[j..]);
    v.push(d);
    v
}

// ---- generation ------------------------------------------------------------------------------------
pub fn gen(r: &mut Rng) -> J {
    if r.chance(1, 4) {
        return json!({"native": r.below(native::N), "seed": r.next() >> 16, "pick": r.below(1 << 30)});
    }
    if r.chance(1, 50) || std::env::var_os("DEEP").is_some() {
        return deep(r);
    }
    let depth = r.range(1, 4);
    let ty = gen_ty(r, depth);
    let mut vals = vec![];
    for _ in 0..6 {
        let Some(v) = gen_val(r, &ty, 0) else { continue };
        if r.chance(1, 2) {
            vals.push(mutate(r, &v));
        }
        vals.push(v);
    }
    let bytes: Vec<J> = (0..6)
        .map(|_| {
            let n = r.below(12);
            let b: Vec<u8> = (0..n).map(|_| *r.pick(&[0, 0, 1, 1, 2, 3, 0x41, 0x61, 0x80, 0xc3, 0xff, r.clone().next() as u8])).collect();
            bytes_j(&b)
        })
        .collect();
    json!({"ty": ty, "vals": vals, "bytes": bytes, "pick": r.below(1 << 30)})
}
/// Definitions nested many times, with values nested as often, right and wrong at the bottom.
fn deep(r: &mut Rng) -> J {
    let n = r.range(6, 26);
    let (ty, vals) = deep_parts(r, n, true);
    json!({"ty": ty, "vals": vals, "bytes": [], "pick": r.below(1 << 30)})
}
pub fn deep_parts(r: &mut Rng, n: usize, unions: bool) -> (J, Vec<J>) {
    let leaf = num_j("u", 7u64.to_le_bytes().to_vec());
    let wrong = *r.pick(&[0, 1, 2]);
    let wrong = match wrong {
        0 => num_j("u", 256u64.to_le_bytes().to_vec()),
        1 => str_j(b"x"),
        _ => json!({"v": "tuple", "f": [leaf.clone()]}),
    };
    let u8_ = || inl(json!({"c": "prim", "p": 1}));
    let (mut ty, mut vals) = (json!({"c": "prim", "p": 1}), vec![leaf.clone(), wrong]);
    let (lo, hi) = (|| le8(0), || le8(255));
    for _ in 0..n {
        let k = if unions { r.below(9) } else { *r.pick(&[0, 1, 2, 3, 4, 7, 8]) };
        let t = inl(ty);
        ty = match k {
            0 => json!({"c": "tuple", "f": [t]}),
            1 => json!({"c": "tuple", "f": [u8_(), t]}),
            2 => json!({"c": "list", "t": t, "lo": lo(), "hi": hi()}),
            3 => json!({"c": "struct", "f": [{"n": "a", "t": t}]}),
            4 => json!({"c": "map", "k": u8_(), "t": t, "lo": lo(), "hi": hi()}),
            5 => json!({"c": "union", "v": [{"n": "none", "g": 0, "t": inl(json!({"c": "prim", "p": 0}))}, {"n": "some", "g": 1, "t": t}]}),
            6 => json!({"c": "union", "v": [{"n": "b", "g": 3, "t": t}]}),
            7 => json!({"c": "set", "t": t, "lo": lo(), "hi": hi()}),
            _ => json!({"c": "struct", "f": [{"n": "b", "t": t}, {"n": "c", "t": u8_()}]}),
        };
        for v in vals.iter_mut() {
            let x = v.take();
            *v = match k {
                0 => json!({"v": "tuple", "f": [x]}),
                1 => json!({"v": "tuple", "f": [leaf.clone(), x]}),
                2 => json!({"v": "list", "f": [x]}),
                3 => json!({"v": "struct", "f": [{"n": "a", "x": x}]}),
                4 => json!({"v": "map", "f": [{"k": leaf.clone(), "x": x}]}),
                5 => json!({"v": "union", "t": {"k": "n", "n": "some"}, "x": x}),
                6 => json!({"v": "union", "t": {"k": "o", "g": 3}, "x": x}),
                7 => json!({"v": "set", "f": [x]}),
                _ => json!({"v": "struct", "f": [{"n": "b", "x": x}, {"n": "c", "x": leaf.clone()}]}),
            };
        }
    }
    (ty, vals)
}
fn inl(t: J) -> J { json!({"r": "in", "ty": t}) }
const NAMES: &[&str] = &["a", "b", "none", "some", "aA", "bB", "x9", "_0", "dot", "z"];
pub fn prim(r: &mut Rng) -> J {
    let p = *r.pick(&[
        1u8, 1, 64, 64, 2, 3, 4, 5, 6, 7, 8, 16, 9, 31, 0x20, 0x22, 0x3f, 0x41, 0x42, 0x43, 0x44, 0x45, 0x48, 0x50, 0x5f, 0x60, 0x66, 0x26, 0x27,
        0x67, 0x7f, 0x82, 0xc4,
    ]);
    json!({"c": "prim", "p": p})
}
pub fn char_enum(r: &mut Rng) -> J {
    let sets: [&[(u8, &str)]; 4] = [
        &[(48, "_0"), (49, "_1"), (50, "_2")],
        &[(65, "aA"), (66, "bB"), (67, "c"), (97, "d")],
        &[(32, "space"), (45, "dash"), (127, "del")],
        &[(97, "b"), (98, "a"), (122, "z")],
    ];
    let s = r.pick(&sets);
    json!({"c": "enum", "v": s.iter().map(|(g, n)| json!({"n": n, "g": g})).collect::<Vec<_>>()})
}
fn distinct(r: &mut Rng, n: usize) -> Vec<&'static str> {
    let mut v = NAMES.to_vec();
    r.shuffle(&mut v);
    v.truncate(n);
    v
}
fn tags(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut s = BTreeSet::new();
    let pool = *r.pick(&[3usize, 6, 256]);
    while s.len() < n {
        s.insert(r.below(pool.max(n + 1)) as u8);
    }
    s.into_iter().collect()
}
pub fn bounds(r: &mut Rng) -> (J, J) {
    let lo = *r.pick(&[0u64, 0, 0, 0, 1, 1, 2, 3]);
    let hi = *r.pick(&[0u64, 1, 2, 3, 4, 255, 255, 256, 65535, 65536, 0xff_ffff, 0x100_0000, 0xffff_ffff, 0x1_0000_0000, u64::MAX]);
    (le8(lo), le8(hi.max(lo)))
}
/// At least one byte in every encoding: items that take no space allow gigantic collections.
fn sized(ty: &J) -> bool {
    match ty["c"].as_str().unwrap() {
        "prim" => ty["p"] != 0,
        "tuple" => ty["f"].as_array().unwrap().iter().any(|t| sized(&t["ty"])),
        "struct" => ty["f"].as_array().unwrap().iter().any(|t| sized(&t["t"]["ty"])),
        "array" => ty["len"] != 0 && sized(&ty["t"]["ty"]),
        _ => true,
    }
}
pub fn gen_ty(r: &mut Rng, depth: usize) -> J {
    let t = narrow(r, depth);
    // now and then, a definition with many members
    let wide = r.chance(1, 25);
    if wide {
        crate::gen::widen(r, t, &mut |r| inl(prim(r)))
    } else {
        t
    }
}
fn narrow(r: &mut Rng, depth: usize) -> J {
    if depth == 0 || r.chance(1, 8) {
        return match r.below(8) {
            0 => json!({"c": "uni"}),
            1 => char_enum(r),
            2 => {
                let n = r.range(1, 4);
                let (ns, gs) = (distinct(r, n), tags(r, n));
                json!({"c": "enum", "v": ns.iter().zip(gs).map(|(n, g)| json!({"n": n, "g": g})).collect::<Vec<_>>()})
            }
            3 => json!({"c": "prim", "p": 0}),
            _ => prim(r),
        };
    }
    let sub = |r: &mut Rng| {
        let d = r.below(depth);
        inl(gen_ty(r, d))
    };
    match r.below(11) {
        0 => {
            let n = r.range(1, 3);
            let (ns, gs) = (distinct(r, n), tags(r, n));
            json!({"c": "union", "v": ns.iter().zip(gs).map(|(n, g)| json!({"n": n, "g": g, "t": sub(r)})).collect::<Vec<_>>()})
        }
        1 => {
            // an option, or what only looks like one
            let none = if r.chance(1, 6) { sub(r) } else { inl(json!({"c": "prim", "p": 0})) };
            json!({"c": "union", "v": [{"n": "none", "g": 0, "t": none}, {"n": "some", "g": 1, "t": sub(r)}]})
        }
        2 => {
            // restricted string
            let (lo, hi) = bounds(r);
            let (a, b) = (char_enum(r), char_enum(r));
            json!({"c": "tuple", "f": [inl(a), inl(json!({"c": "list", "t": inl(b), "lo": lo, "hi": hi}))]})
        }
        3 => {
            let n = r.range(1, 3);
            json!({"c": "tuple", "f": (0..n).map(|_| sub(r)).collect::<Vec<_>>()})
        }
        4 => {
            let n = r.range(1, 4);
            let ns = distinct(r, n);
            json!({"c": "struct", "f": ns.iter().map(|n| json!({"n": n, "t": sub(r)})).collect::<Vec<_>>()})
        }
        5 => {
            let t = match r.below(4) {
                0 => inl(json!({"c": "prim", "p": 64})),
                1 => inl(char_enum(r)),
                2 => inl(json!({"c": "uni"})),
                _ => sub(r),
            };
            json!({"c": "array", "t": t, "len": *r.pick(&[0, 1, 2, 3, 5, 20])})
        }
        6 | 7 => {
            let t = match r.below(6) {
                0 => inl(json!({"c": "prim", "p": *r.pick(&[64, 1])})),
                1 => inl(char_enum(r)),
                2 => inl(json!({"c": "uni"})),
                _ => sub(r),
            };
            col(r, "list", t)
        }
        8 | 9 => {
            let t = sub(r);
            col(r, "set", t)
        }
        _ => {
            let (lo, hi) = bounds(r);
            let mut k = sub(r);
            while !sized(&k["ty"]) {
                k = sub(r);
            }
            json!({"c": "map", "k": k, "t": sub(r), "lo": lo, "hi": hi})
        }
    }
}
fn col(r: &mut Rng, c: &str, t: J) -> J {
    let (lo, mut hi) = bounds(r);
    if !sized(&t["ty"]) && un8(&hi) > 256 {
        hi = le8(*r.pick(&[3, 255, 256]));
    }
    json!({"c": c, "t": t, "lo": lo, "hi": hi})
}
pub fn num_j(k: &str, b: Vec<u8>) -> J { json!({"v": "num", "k": k, "b": b}) }
pub fn str_j(s: &[u8]) -> J { json!({"v": "str", "b": s}) }
/// A representation of a random inhabitant, in one of the accepted shapes; `None` when a bound asks for too much.
pub fn gen_val(r: &mut Rng, ty: &J, level: usize) -> Option<J> {
    let sub = |r: &mut Rng, t: &J| gen_val(r, &t["ty"], level + 1);
    Some(match ty["c"].as_str().unwrap() {
        "prim" => {
            let p = ty["p"].as_u64().unwrap() as usize;
            if p == 0 {
                return Some(r.pick(&[json!({"v": "unit"}), json!({"v": "unit"}), json!({"v": "tuple", "f": []}), json!({"v": "struct", "f": []})]).clone());
            }
            let m = p % 64;
            let s = (if p == 64 { 1 } else if m < 32 { m } else { 16 * (m - 30) }).min(128);
            let signed = p > 64;
            let mut b = match r.below(4) {
                0 => vec![0; s],
                1 => vec![255; s],
                2 => {
                    let mut b = vec![0; s];
                    b[s - 1] = *r.pick(&[127, 128]);
                    b
                }
                _ => r.bytes(s),
            };
            let ext = if signed && b[s - 1] >= 128 { 255 } else { 0 };
            // sometimes with another representation of the same number
            let big = s > 8 || r.chance(1, 5);
            b.resize(if big { 128 } else { 8 }, ext);
            let other = r.chance(1, 6) && b[b.len() - 1] < 128;
            num_j(
                match (big, signed != other) {
                    (false, false) => "u",
                    (false, true) => "i",
                    (true, false) => "bu",
                    (true, true) => "bi",
                },
                b,
            )
        }
        "uni" => str_j(r.pick(&["x", "A", "é", "€", "😀", "\0", "\u{7f}"]).as_bytes()),
        "enum" => {
            let v = r.pick(ty["v"].as_array().unwrap()).clone();
            let (n, g) = (v["n"].as_str().unwrap(), v["g"].as_u64().unwrap());
            match r.below(5) {
                0 => json!({"v": "enum", "t": {"k": "o", "g": g}}),
                1 => str_j(n.as_bytes()),
                2 => num_j("u", g.to_le_bytes().to_vec()),
                3 if g < 128 => str_j(&[g as u8]),
                _ => json!({"v": "enum", "t": {"k": "n", "n": n}}),
            }
        }
        "union" => {
            let v = r.pick(ty["v"].as_array().unwrap()).clone();
            let x = sub(r, &v["t"])?;
            let tag = if r.chance(1, 2) { json!({"k": "n", "n": v["n"]}) } else { json!({"k": "o", "g": v["g"]}) };
            match r.below(6) {
                0 => json!({"v": "list", "f": [str_j(v["n"].as_str().unwrap().as_bytes()), x]}),
                1 => json!({"v": "tuple", "f": [str_j(v["n"].as_str().unwrap().as_bytes()), x]}),
                2 => x,
                _ => json!({"v": "union", "t": tag, "x": x}),
            }
        }
        "tuple" => {
            let f = ty["f"].as_array().unwrap();
            let fs = f.iter().map(|t| sub(r, t)).collect::<Option<Vec<_>>>()?;
            if fs.len() == 2 && r.chance(1, 2) {
                if let Some(s) = rstring(r, ty) {
                    return Some(s);
                }
            }
            match r.below(6) {
                0 if fs.len() == 1 => fs[0].clone(),
                1 => json!({"v": "list", "f": fs}),
                _ => json!({"v": "tuple", "f": fs}),
            }
        }
        "struct" => {
            let mut f = ty["f"].as_array().unwrap().clone();
            if r.chance(1, 3) {
                r.shuffle(&mut f);
            }
            let fs = f.iter().map(|t| Some((t["n"].as_str().unwrap().to_owned(), sub(r, &t["t"])?))).collect::<Option<Vec<_>>>()?;
            if r.chance(1, 5) {
                json!({"v": "map", "f": fs.iter().map(|(n, x)| json!({"k": str_j(n.as_bytes()), "x": x})).collect::<Vec<_>>()})
            } else {
                json!({"v": "struct", "f": fs.iter().map(|(n, x)| json!({"n": n, "x": x})).collect::<Vec<_>>()})
            }
        }
        "array" => {
            let n = ty["len"].as_u64().unwrap() as usize;
            items(r, ty, n, level)?
        }
        "list" => {
            let n = count(r, ty, level)?;
            items(r, ty, n, level)?
        }
        "set" => {
            let n = count(r, ty, level)?;
            let f = (0..n).map(|_| sub(r, &ty["t"])).collect::<Option<Vec<_>>>()?;
            json!({"v": if r.chance(1, 5) { "list" } else { "set" }, "f": f})
        }
        _ => {
            let n = count(r, ty, level)?;
            let f = (0..n).map(|_| Some((sub(r, &ty["k"])?, sub(r, &ty["t"])?))).collect::<Option<Vec<_>>>()?;
            if r.chance(1, 5) {
                json!({"v": "list", "f": f.iter().map(|(k, x)| json!({"v": "list", "f": [k, x]})).collect::<Vec<_>>()})
            } else {
                json!({"v": "map", "f": f.iter().map(|(k, x)| json!({"k": k, "x": x})).collect::<Vec<_>>()})
            }
        }
    })
}
fn count(r: &mut Rng, ty: &J, level: usize) -> Option<usize> {
    let (lo, hi) = (un8(&ty["lo"]), un8(&ty["hi"]));
    let top = if level == 0 && r.chance(1, 10) { 300 } else { 4 };
    if lo > top {
        return None;
    }
    let n = r.below((hi.min(top) - lo.min(hi) + 1) as usize) as u64 + lo;
    // now and then outside of the bounds
    Some((if r.chance(1, 15) { r.below(6) as u64 } else if r.chance(1, 15) && hi < 300 { hi + 1 } else { n }) as usize)
}
fn items(r: &mut Rng, ty: &J, n: usize, level: usize) -> Option<J> {
    let t = &ty["t"]["ty"];
    let byte = t["c"] == "prim" && (t["p"] == 64 || t["p"] == 1);
    if byte && r.chance(3, 4) {
        return Some(if r.chance(1, 4) { str_j(&vec![b'k'; n]) } else { json!({"v": "bytes", "b": r.bytes(n)}) });
    }
    if t["c"] == "uni" && r.chance(3, 4) {
        let s: String = (0..n).map(|_| *r.pick(&['a', 'Z', 'é', '€', '😀'])).collect();
        return Some(str_j(s.as_bytes()));
    }
    let cs = |t: &J| t["c"] == "enum" && t["v"].as_array().unwrap().iter().all(|v| (32..=127).contains(&v["g"].as_u64().unwrap()));
    if cs(t) && r.chance(3, 4) {
        let s: Vec<u8> = (0..n).map(|_| r.pick(t["v"].as_array().unwrap())["g"].as_u64().unwrap() as u8).collect();
        return Some(str_j(&s));
    }
    let f = (0..n).map(|_| gen_val(r, t, level + 1)).collect::<Option<Vec<_>>>()?;
    Some(json!({"v": "list", "f": f}))
}
fn rstring(r: &mut Rng, ty: &J) -> Option<J> {
    let (a, l) = (&ty["f"][0]["ty"], &ty["f"][1]["ty"]);
    if a["c"] != "enum" || l["c"] != "list" || l["t"]["ty"]["c"] != "enum" {
        return None;
    }
    let n = count(r, l, 1)?;
    let g = |r: &mut Rng, t: &J| (r.pick(t["v"].as_array().unwrap())["g"].as_u64().unwrap() as u8) & 0x7f;
    let mut s = vec![g(r, a)];
    s.extend((0..n).map(|_| g(r, &l["t"]["ty"])));
    Some(str_j(&s))
}
/// One change somewhere inside a value.
pub fn mutate(r: &mut Rng, v: &J) -> J {
    let mut v = v.clone();
    let here = r.chance(1, 3);
    if !here {
        if let Some(f) = v.get_mut("f").and_then(|f| f.as_array_mut()).filter(|f| !f.is_empty()) {
            let i = r.below(f.len());
            let part = match f[i].get("v") {
                Some(_) => None,
                None if f[i].get("k").is_some() && r.chance(1, 2) => Some("k"),
                None => Some("x"),
            };
            let inner = match part {
                None => mutate(r, &f[i]),
                Some(p) => mutate(r, &f[i][p]),
            };
            match part {
                None => f[i] = inner,
                Some(p) => f[i][p] = inner,
            }
            return v;
        }
        if v.get("x").is_some() {
            v["x"] = mutate(r, &v["x"].clone());
            return v;
        }
    }
    match v["v"].as_str().unwrap() {
        "num" => {
            let n = v["b"].as_array().unwrap().len();
            let i = if r.chance(1, 2) { r.below(n) } else { r.below(n.min(9)) };
            v["b"][i] = json!(r.next() as u8);
            v
        }
        "str" => {
            let mut s = String::from_utf8(jbytes(&v["b"])).unwrap();
            match r.below(4) {
                0 => {
                    s.pop();
                }
                1 => s.push(*r.pick(&['a', 'A', '0', 'é', ' '])),
                2 => s.insert(0, *r.pick(&['a', 'A', '0', 'é'])),
                _ => s = s.chars().rev().collect(),
            }
            str_j(s.as_bytes())
        }
        "bytes" => {
            let mut b = jbytes(&v["b"]);
            if r.chance(1, 2) {
                b.push(1)
            } else {
                b.pop();
            }
            json!({"v": "bytes", "b": b})
        }
        "tuple" | "list" | "set" => match r.below(4) {
            0 => {
                v["v"] = json!(*r.pick(&["tuple", "list", "set"]));
                v
            }
            1 => {
                v["f"].as_array_mut().unwrap().pop();
                v
            }
            2 => {
                let f = v["f"].as_array_mut().unwrap();
                let x = if f.is_empty() { json!({"v": "unit"}) } else { r.pick(f).clone() };
                f.push(x);
                v
            }
            _ => {
                r.shuffle(v["f"].as_array_mut().unwrap());
                v
            }
        },
        "struct" => {
            let f = v["f"].as_array_mut().unwrap();
            match r.below(3) {
                0 => {
                    f.pop();
                }
                1 => {
                    if !f.iter().any(|x| x["n"] == "zz") {
                        f.push(json!({"n": "zz", "x": {"v": "unit"}}));
                    }
                }
                _ => {
                    if let Some(x) = f.first_mut() {
                        x["n"] = json!("yy");
                    }
                }
            }
            v
        }
        "map" => {
            let f = v["f"].as_array_mut().unwrap();
            if r.chance(1, 2) && !f.is_empty() {
                let x = r.pick(f).clone();
                f.push(x);
            } else {
                f.pop();
            }
            v
        }
        "enum" | "union" => {
            v["t"] = r.pick(&[json!({"k": "n", "n": "nope"}), json!({"k": "n", "n": "some"}), json!({"k": "o", "g": 200}), json!({"k": "o", "g": 1})]).clone();
            v
        }
        _ => r.pick(&[json!({"v": "tuple", "f": []}), num_j("u", vec![0; 8]), str_j(b"")]).clone(),
    }
}
