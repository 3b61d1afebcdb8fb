//! Random type declarations ("Rust programs").
use serde_json::{json, Value as J};

use crate::proj::le8;
use crate::rng::Rng;
use crate::univ::{emb_count, enum_decl, LIBS, NE, NI, VARS};

pub const PRIMS: [u8; 18] =
    [1, 1, 1, 2, 4, 8, 16, 0x20, 0x40, 0x40, 0, 0x41, 0x42, 0x48, 0x81, 0x88, 3, 0xC2];
const NAMES: [&str; 14] = [
    "Data", "DataX", "DATA", "Point", "PointData", "Kind", "KindOf", "T", "Tx", "TX", "Tx2", "Meta", "A_b", "Zeta",
];
const FIELDS: [&str; 10] = ["a", "b", "c", "value", "kind", "items", "x", "y", "meta", "next"];

pub fn sizing(r: &mut Rng, min1: bool) -> (J, J) {
    let c: [(u64, u64); 10] = [
        (0, 0xFF),
        (0, 0xFFFF),
        (1, 0xFF),
        (0, 4),
        (0, 0xFF_FFFF),
        (0, 0xFFFF_FFFF),
        (0, u64::MAX),
        (2, 3),
        (1, 0xFFFF),
        (1, 1),
    ];
    let (lo, hi) = *r.pick(&c);
    (le8(if min1 && lo == 0 { 1 } else { lo }), le8(hi))
}
/// slots usable from slot `k` of library `l`: (1-based index, column is an enum with printable tags)
struct Ctx<'a> {
    prev: &'a [usize],
    chars: &'a [usize],
}
fn field(r: &mut Rng, c: &Ctx, depth: usize) -> J {
    let slot = !c.prev.is_empty() && r.chance(1, 2);
    if slot {
        return json!({"k": "slot", "i": r.pick(c.prev)});
    }
    let prim = |r: &mut Rng| json!({"k": "prim", "p": r.pick(&PRIMS)});
    if depth == 0 || r.chance(1, 3) {
        return prim(r);
    }
    match r.below(8) {
        0 => {
            let (lo, hi) = sizing(r, false);
            json!({"k": "str", "lo": lo, "hi": hi})
        }
        1 if !c.chars.is_empty() => {
            let (lo, hi) = sizing(r, true);
            json!({"k": "rstr", "c1": {"k": "slot", "i": r.pick(c.chars)}, "c0": {"k": "slot", "i": r.pick(c.chars)}, "lo": lo, "hi": hi})
        }
        1 | 2 => json!({"k": "arr", "t": field(r, c, depth - 1), "len": *r.pick(&[0u16, 1, 2, 3, 20, 32, 300, 65535])}),
        3 => {
            let (lo, hi) = sizing(r, false);
            json!({"k": "list", "t": field(r, c, depth - 1), "lo": lo, "hi": hi})
        }
        4 => {
            let (lo, hi) = sizing(r, false);
            json!({"k": "set", "t": field(r, c, depth - 1), "lo": lo, "hi": hi})
        }
        5 => {
            let (lo, hi) = sizing(r, false);
            let key = if r.chance(1, 2) || c.prev.is_empty() { prim(r) } else { json!({"k": "slot", "i": r.pick(c.prev)}) };
            json!({"k": "map", "key": key, "t": field(r, c, depth - 1), "lo": lo, "hi": hi})
        }
        _ => json!({"k": "opt", "t": field(r, c, depth - 1)}),
    }
}
fn fields(r: &mut Rng, c: &Ctx, n: usize, depth: usize) -> J {
    let mut names = FIELDS.map(str::to_owned).to_vec();
    names.extend((names.len()..n).map(|i| format!("w{i}")));
    r.shuffle(&mut names);
    J::Array((0..n).map(|i| json!({"n": names[i], "t": field(r, c, if i < 6 { depth } else { 0 })})).collect())
}
fn tuple(r: &mut Rng, c: &Ctx, n: usize, depth: usize) -> J {
    J::Array((0..n).map(|i| field(r, c, if i < 6 { depth } else { 0 })).collect())
}
/// Few members, now and then many.
fn members(r: &mut Rng, most: usize) -> usize {
    if r.chance(1, 60) {
        *r.pick(&[9usize, 15, 16, 17, 32, 33, 64, 65, 128, 129, 200, 254, 255])
    } else {
        r.range(1, most)
    }
}
/// A program over `nlibs` libraries (by index into LIBS), layered: a declaration mentions only earlier
/// ones of its own or lower libraries.
pub fn program(r: &mut Rng, nlibs: usize, maxslots: usize) -> J {
    loop {
        let n = r.range(nlibs.max(2), maxslots);
        let mut libs: Vec<usize> = (0..n).map(|k| if k < nlibs { k } else { r.below(nlibs) }).collect();
        r.shuffle(&mut libs);
        libs.sort_by_key(|l| if r.chance(2, 3) { *l } else { 0 });
        let mut cols: Vec<Vec<usize>> = (0..nlibs)
            .map(|_| {
                let mut v: Vec<usize> = (0..NI).collect();
                r.shuffle(&mut v);
                v
            })
            .collect();
        let mut names: Vec<Vec<&str>> = (0..nlibs)
            .map(|_| {
                let mut v = NAMES.to_vec();
                r.shuffle(&mut v);
                v
            })
            .collect();
        let mut chars = vec![];
        let mut decls: Vec<J> = vec![];
        let mut ok = true;
        for (k, &l) in libs.iter().enumerate() {
            let prev: Vec<usize> = (0..k).filter(|j| libs[*j] <= l).map(|j| j + 1).collect();
            let chs: Vec<usize> = chars.iter().copied().filter(|j: &usize| libs[*j - 1] <= l).collect();
            let c = Ctx { prev: &prev, chars: &chs };
            let Some(mut col) = cols[l].pop() else {
                ok = false;
                break;
            };
            let depth = if r.chance(1, 12) { 4 } else { r.range(0, 2) };
            let mut name = if r.chance(1, 5) { "" } else { names[l].pop().unwrap() };
            let d = match r.below(8) {
                0..=2 => {
                    let n = members(r, 4);
                    json!({"k": "struct", "f": fields(r, &c, n, depth)})
                }
                3 | 4 => {
                    let n = members(r, 3);
                    json!({"k": "tuple", "f": tuple(r, &c, n, depth)})
                }
                5 | 6 => {
                    if r.chance(1, 2) {
                        for want in [2usize, 7] {
                            if let Some(p) = cols[l].iter().position(|x| *x == want) {
                                cols[l].push(col);
                                col = cols[l].remove(p);
                                break;
                            }
                        }
                    }
                    if col == 2 || col == 7 {
                        chars.push(k + 1);
                    }
                    enum_decl(col)
                }
                _ => {
                    let vs: Vec<J> = VARS[col]
                        .iter()
                        .map(|(g, n)| {
                            let b = match r.below(4) {
                                0 | 1 => json!({"k": "unit", "f": []}),
                                2 => {
                                    let n = r.range(1, 2);
                                    json!({"k": "tuple", "f": tuple(r, &c, n, depth.min(1))})
                                }
                                _ => {
                                    let n = r.range(1, 3);
                                    json!({"k": "struct", "f": fields(r, &c, n, depth.min(1))})
                                }
                            };
                            json!({"n": n, "g": g, "b": b})
                        })
                        .collect();
                    json!({"k": "union", "v": vs})
                }
            };
            // the last declaration of a library is always named, so that no library is empty
            if name.is_empty() && !(k + 1..n).any(|j| libs[j] == l) {
                name = names[l].pop().unwrap();
            }
            decls.push(json!({"l": LIBS[l], "n": name, "col": col, "d": d}));
        }
        let decls = J::Array(decls);
        if ok && emb_count(&decls) <= NE {
            return decls;
        }
    }
}

/// A type definition in JSON: references are embedded definitions (`emb`: "in" or "em") down to `depth`
/// or what `leaf` makes.
pub fn ty(r: &mut Rng, depth: usize, emb: &str, leaf: &mut dyn FnMut(&mut Rng) -> J) -> J {
    let t = narrow(r, depth, emb, leaf);
    if r.chance(1, 120) {
        widen(r, t, leaf)
    } else {
        t
    }
}
/// The same definition with many members (a definition without members stays as it is).
pub fn widen(r: &mut Rng, mut ty: J, leaf: &mut dyn FnMut(&mut Rng) -> J) -> J {
    let n = *r.pick(&[9usize, 9, 12, 15, 16, 17, 20, 31, 32, 33, 33, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255]);
    let c = ty["c"].as_str().unwrap().to_owned();
    let key = match c.as_str() {
        "tuple" | "struct" => "f",
        "enum" | "union" => "v",
        _ => return ty,
    };
    let v = ty[key].as_array_mut().unwrap();
    let mut tags: Vec<u8> = (0..=255).filter(|t| !v.iter().any(|x| x["g"].as_u64() == Some(*t as u64))).collect();
    if r.chance(1, 2) {
        r.shuffle(&mut tags);
    }
    let mut i = 0;
    while v.len() < n {
        let name = format!("w{i}");
        v.push(match c.as_str() {
            "tuple" => leaf(r),
            "struct" => json!({"n": name, "t": leaf(r)}),
            "enum" => json!({"n": name, "g": tags[i]}),
            _ => json!({"n": name, "g": tags[i], "t": leaf(r)}),
        });
        i += 1;
    }
    if key == "v" {
        v.sort_by_key(|x| x["g"].as_u64());
    }
    ty
}
fn narrow(r: &mut Rng, depth: usize, emb: &str, leaf: &mut dyn FnMut(&mut Rng) -> J) -> J {
    fn rf(r: &mut Rng, depth: usize, emb: &str, leaf: &mut dyn FnMut(&mut Rng) -> J) -> J {
        if depth == 0 || r.chance(2, 5) {
            leaf(r)
        } else {
            json!({"r": emb, "ty": ty(r, depth - 1, emb, leaf)})
        }
    }
    let class = r.below(12);
    let nv = r.range(1, 3);
    let mut names = FIELDS.to_vec();
    r.shuffle(&mut names);
    let mut tags: Vec<u8> = vec![0, 1, 2, 3, 7, 65, 255];
    r.shuffle(&mut tags);
    tags.truncate(nv);
    tags.sort();
    let (lo, hi) = sizing(r, false);
    match class {
        0 | 1 => json!({"c": "prim", "p": r.pick(&PRIMS)}),
        2 => json!({"c": "uni"}),
        3 => json!({"c": "enum", "v": (0..nv).map(|i| json!({"n": names[i], "g": tags[i]})).collect::<Vec<_>>()}),
        4 => json!({"c": "union", "v": (0..nv).map(|i| json!({"n": names[i], "g": tags[i], "t": rf(r, depth, emb, leaf)})).collect::<Vec<_>>()}),
        5 | 6 => json!({"c": "tuple", "f": (0..nv).map(|_| rf(r, depth, emb, leaf)).collect::<Vec<_>>()}),
        7 | 8 => json!({"c": "struct", "f": (0..nv).map(|i| json!({"n": names[i], "t": rf(r, depth, emb, leaf)})).collect::<Vec<_>>()}),
        9 => json!({"c": "array", "t": rf(r, depth, emb, leaf), "len": *r.pick(&[0u16, 1, 2, 32, 65535])}),
        10 => json!({"c": r.pick(&["list", "set"]), "t": rf(r, depth, emb, leaf), "lo": lo, "hi": hi}),
        _ => json!({"c": "map", "k": rf(r, depth, emb, leaf), "t": rf(r, depth, emb, leaf), "lo": lo, "hi": hi}),
    }
}

/// A library of `n` small types and `d` dependencies, put together by hand.
pub fn many(n: usize, d: usize, pick: u64) -> strict_types::TypeLib {
    use amplify::confinement::Confined;
    use strict_types::typelib::ExternRef;
    use strict_types::{Dependency, LibRef, Ty, TypeLib, TypeLibId};
    let mut r = Rng::new(pick);
    let dep = |k: usize| {
        let mut b = [3u8; 32];
        b[5] = k as u8;
        b[9] = (k * 7) as u8;
        (TypeLibId::from(b), k)
    };
    let mut deps = std::collections::BTreeSet::new();
    let mut ext = std::collections::BTreeMap::new();
    let (mut types, mut made) = (std::collections::BTreeMap::new(), vec![]);
    let foreign = |k: usize| strict_types::SemId::from([k as u8 ^ 0x5a; 32]);
    for k in 0..d {
        let name = crate::proj::lname(&format!("Lib{k}"));
        deps.insert(Dependency::with(dep(k).0, name.clone()));
        let t = std::collections::BTreeMap::from([(foreign(k), crate::proj::tname("Far"))]);
        ext.insert(name, Confined::try_from(t).unwrap());
    }
    for k in 0..n {
        let name = crate::proj::tname(&format!("T{}x{k}", r.below(1000)));
        let inner = match r.below(3) {
            0 if !made.is_empty() => LibRef::Named(*r.pick(&made)),
            1 if d > 0 => {
                let k = r.below(d);
                LibRef::Extern(ExternRef { lib_id: dep(k).0, sem_id: foreign(k) })
            }
            _ => LibRef::Inline(Ty::U16),
        };
        let ty: Ty<LibRef> = Ty::Array(inner, k as u16);
        made.push(ty.sem_id_named(&name));
        types.insert(name, ty);
    }
    TypeLib {
        name: crate::proj::lname("Many"),
        dependencies: Confined::try_from(deps).unwrap(),
        extern_types: Confined::try_from(ext).unwrap(),
        types: Confined::try_from(types).unwrap(),
    }
}
