//! Building values and reading parts out of them.
use amplify::num::{u24, u40, u48, u56};
use serde_json::{json, Value as J};
use strict_types::value::{Blob, EnumTag, StrictNum};
use strict_types::{ston, sv, svbytes, svenum, svlist, svnewtype, svnone, svnum, svset, svsome, svstr, StrictVal};

use crate::native::Flag;
use crate::proj::*;
use crate::rng::Rng;
use crate::s_val::*;
use crate::{call, Out};

fn leak(s: &str) -> &'static str { Box::leak(s.to_owned().into_boxed_str()) }
fn mktag(t: &EnumTag) -> EnumTag {
    match t {
        EnumTag::Name(n) => EnumTag::from(leak(n.as_str())),
        EnumTag::Ord(g) => EnumTag::from(*g),
    }
}
/// The same value put together by the constructors of the public interface.
fn make(v: &StrictVal) -> StrictVal {
    let all = |f: &[StrictVal]| f.iter().map(make).collect::<Vec<_>>();
    match v {
        StrictVal::Unit => sv!(()),
        StrictVal::Number(StrictNum::Uint(n)) => match *n {
            n if n <= 0xFF => svnum!(n as u8),
            n if n <= 0xFFFF => sv!(n as u16),
            n if n <= 0xFF_FFFF => svnum!(u24::try_from(n as u32).unwrap()),
            n if n <= 0xFFFF_FFFF => ston!(n as u32),
            n => svnum!(n),
        },
        StrictVal::Number(StrictNum::Int(n)) => match (i8::try_from(*n), i16::try_from(*n), i32::try_from(*n)) {
            (Ok(n), _, _) => sv!(n),
            (_, Ok(n), _) => svnum!(n),
            (_, _, Ok(n)) => sv!(n),
            _ => svnum!(*n),
        },
        StrictVal::Number(StrictNum::BigUint(n)) => svnum!(*n),
        StrictVal::Number(n) => svnum!(*n),
        StrictVal::String(s) => {
            if s.len() % 2 == 0 {
                svstr!(s)
            } else {
                sv!(s.as_str())
            }
        }
        StrictVal::Bytes(b) => {
            if b.0.len() % 2 == 0 {
                svbytes!(&b.0)
            } else {
                sv!(Blob(b.0.clone()))
            }
        }
        StrictVal::Tuple(f) if f.len() == 1 => svnewtype!(&make(&f[0])),
        StrictVal::Tuple(f) => StrictVal::tuple(all(f)),
        StrictVal::List(f) => svlist!(all(f)),
        StrictVal::Set(f) => svset!(all(f)),
        StrictVal::Struct(f) => StrictVal::struc(f.iter().map(|(n, x)| (leak(n.as_str()), make(x)))),
        StrictVal::Map(f) => StrictVal::map(f.iter().map(|(k, x)| (make(k), make(x)))),
        StrictVal::Enum(EnumTag::Ord(g)) if *g < 2 => StrictVal::bool(*g == 1),
        StrictVal::Enum(t) => sv!(mktag(t)),
        StrictVal::Union(EnumTag::Name(n), x) if n.as_str() == "none" && **x == StrictVal::Unit => sv!(None::<StrictVal>),
        StrictVal::Union(EnumTag::Name(n), x) if n.as_str() == "some" => sv!(Some(make(x))),
        StrictVal::Union(t, x) => StrictVal::union(mktag(t), make(x)),
    }
}
fn constants() -> Vec<(J, StrictVal)> {
    let n = |x: u8| num_j("u", vec![x, 0, 0, 0, 0, 0, 0, 0]);
    let i = |x: u8| num_j("i", vec![x, 0, 0, 0, 0, 0, 0, 0]);
    let s = |x: &str| str_j(x.as_bytes());
    let t = |x: &str| json!({"k": "n", "n": x});
    let unit = json!({"v": "unit"});
    use strict_types::{fname, vname};
    let _ = fname!("a");
    vec![
        (json!({"v": "union", "t": t("none"), "x": unit}), ston!(~)),
        (json!({"v": "union", "t": t("none"), "x": unit}), svnone!()),
        (json!({"v": "union", "t": t("some"), "x": s("val")}), svsome!("val")),
        (json!({"v": "tuple", "f": [i(1), s("some"), n(2)]}), ston!(1, "some", 2u8)),
        (json!({"v": "struct", "f": [{"n": "name", "x": s("A")}, {"n": "prec", "x": n(8)}]}), ston!(name "A", prec 8u8)),
        (json!({"v": "list", "f": [i(1), i(2), i(3)]}), svlist!([1, 2, 3])),
        (json!({"v": "set", "f": [s("a"), s("b")]}), svset!(["a", "b"])),
        (json!({"v": "enum", "t": t("mid")}), svenum!(mid)),
        (json!({"v": "enum", "t": t("mid")}), svenum!("mid")),
        (json!({"v": "enum", "t": {"k": "o", "g": 7}}), svenum!(7u8)),
        (json!({"v": "union", "t": t("mid"), "x": n(5)}), ston!("mid" 5u8)),
        (json!({"v": "union", "t": {"k": "o", "g": 3}, "x": n(5)}), ston!(3u8 5u8)),
        (json!({"v": "tuple", "f": [n(5)]}), svnewtype!(5u8)),
        (json!({"v": "bytes", "b": [1, 2]}), svbytes!([1, 2])),
        (unit, sv!(())),
    ]
}

fn read(v: &StrictVal, how: &str, arg: &J) -> J {
    let n = || arg.as_u64().unwrap();
    match how {
        "skip" => proj_val(v.skip_wrapper()),
        "option" => J::Array(v.unwrap_option().into_iter().map(proj_val).collect()),
        "num" => proj_val(&StrictVal::Number(*v.unwrap_num())),
        "uint" => match n() {
            1 => json!(v.unwrap_uint::<u8>().to_le_bytes()),
            2 => json!(v.unwrap_uint::<u16>().to_le_bytes()),
            4 => json!(v.unwrap_uint::<u32>().to_le_bytes()),
            _ => json!(v.unwrap_uint::<u64>().to_le_bytes()),
        },
        "string" => json!(v.unwrap_string().as_bytes()),
        "bytes" => json!(v.unwrap_bytes()),
        "tag" => proj_val(&StrictVal::Enum(v.unwrap_enum_tag().clone()))["t"].clone(),
        "flag" => json!(u8::from(v.unwrap_enum::<Flag>())),
        "union" => {
            let (t, x) = v.unwrap_union();
            json!({"t": proj_val(&StrictVal::Enum(t.clone()))["t"], "x": proj_val(x)})
        }
        "tuple" => proj_val(v.unwrap_tuple(n() as u16)),
        "pos" => proj_val(v.unwrap_pos(n() as usize)),
        "field" => proj_val(v.unwrap_struct(leak(arg.as_str().unwrap()))),
        _ => proj_val(v.unwrap_key(&unproj_val(arg))),
    }
}
fn part(v: &StrictVal, how: &str, arg: J, out: &mut Out) {
    let (o, _) = call(|| Ok::<_, String>(read(v, how, &arg)), |x| x.clone(), |e| e.clone());
    out.ev(json!({"e": "part", "how": how, "arg": arg, "out": o}));
}
fn all(j: &J, keys: &[J], out: &mut Out) {
    let v = unproj_val(j);
    out.ev(json!({"e": "val", "v": proj_val(&v), "made": proj_val(&make(&v))}));
    for how in ["skip", "option", "num", "string", "bytes", "tag", "flag", "union"] {
        part(&v, how, json!(0), out);
    }
    for w in [1, 2, 4, 8] {
        part(&v, "uint", json!(w), out);
    }
    let x = v.skip_wrapper();
    let len = match x {
        StrictVal::Tuple(f) | StrictVal::List(f) | StrictVal::Set(f) => f.len(),
        _ => 0,
    };
    let mut at = vec![0, 1, 2, len.saturating_sub(1), len, len + 1, 255, 256, 65535];
    at.sort();
    at.dedup();
    for i in at {
        part(&v, "tuple", json!(i), out);
        part(&v, "pos", json!(i), out);
    }
    let mut names = vec!["a".to_owned(), "zz".to_owned()];
    if let StrictVal::Struct(f) = x {
        names.extend(f.keys().take(6).map(|n| n.as_str().to_owned()));
    }
    names.dedup();
    for n in names {
        part(&v, "field", json!(n), out);
    }
    for k in keys {
        part(&v, "key", k.clone(), out);
    }
    if let StrictVal::Map(f) = x {
        for (k, _) in f.iter().take(6) {
            part(&v, "key", proj_val(k), out);
        }
    }
    for o in keys {
        let w = unproj_val(o);
        out.ev(json!({"e": "eq", "other": o, "out": v == w}));
    }
    out.ev(json!({"e": "eq", "other": proj_val(&make(&v)), "out": v == make(&v)}));
}

pub fn run(scn: &J, out: &mut Out) {
    let keys = scn["keys"].as_array().unwrap();
    for v in scn["vals"].as_array().unwrap() {
        all(v, keys, out);
    }
    for b in scn["nums"].as_array().into_iter().flatten() {
        let b: [u8; 8] = jbytes(b).try_into().unwrap();
        let n = u64::from_le_bytes(b);
        let mut ev = |w: usize, s: bool, v: StrictVal| out.ev(json!({"e": "from", "b": b[..w], "s": s, "got": proj_val(&v)}));
        ev(1, false, sv!(n as u8));
        ev(2, false, sv!(n as u16));
        ev(3, false, sv!(u24::try_from(n as u32 & 0xFF_FFFF).unwrap()));
        ev(4, false, sv!(n as u32));
        ev(5, false, sv!(u40::try_from(n & 0xFF_FFFF_FFFF).unwrap()));
        ev(6, false, sv!(u48::try_from(n & 0xFFFF_FFFF_FFFF).unwrap()));
        ev(7, false, sv!(u56::try_from(n & 0xFF_FFFF_FFFF_FFFF).unwrap()));
        ev(8, false, sv!(n));
        ev(1, true, sv!(n as i8));
        ev(2, true, sv!(n as i16));
        ev(4, true, sv!(n as i32));
        ev(8, true, sv!(n as i64));
    }
    if scn["constants"] == true {
        for (want, got) in constants() {
            out.ev(json!({"e": "val", "v": want, "made": proj_val(&got)}));
        }
    }
}

fn leaf(r: &mut Rng) -> J {
    let tag = |r: &mut Rng| {
        if r.chance(1, 2) {
            json!({"k": "o", "g": *r.pick(&[0u8, 1, 2, 7, 65, 127, 128, 200, 255])})
        } else {
            json!({"k": "n", "n": *r.pick(&["low", "mid", "high", "none", "some", "a"])})
        }
    };
    match r.below(10) {
        0 => json!({"v": "unit"}),
        1 | 2 => {
            let n = *r.pick(&[0u64, 1, 255, 256, 65535, 65536, 0xFFFF_FFFF, 0x1_0000_0000, u64::MAX, 7]);
            num_j("u", n.to_le_bytes().to_vec())
        }
        3 => num_j("i", r.pick(&[0i64, 1, -1, 127, -128, 255, -256, i64::MAX, i64::MIN]).to_le_bytes().to_vec()),
        4 => {
            let mut b = vec![0; 128];
            b[0] = 9;
            num_j(if r.chance(1, 2) { "bu" } else { "bi" }, b)
        }
        5 => str_j(r.pick(&["", "a", "é", "mid", "some"]).as_bytes()),
        6 => json!({"v": "bytes", "b": r.pick(&[vec![], vec![97], vec![255], vec![0xC3, 0xA9], vec![0xC3], vec![0xED, 0xA0, 0x80], vec![0xC0, 0x80]])}),
        7 => {
            let n = r.range(0, 3);
            let f: Vec<J> = (0..n).map(|_| json!({"v": "enum", "t": {"k": "o", "g": *r.pick(&[65u8, 97, 0xC3, 0xA9, 0xFF])}})).collect();
            json!({"v": "list", "f": f})
        }
        _ => json!({"v": "enum", "t": tag(r)}),
    }
}
fn val(r: &mut Rng, depth: usize) -> J {
    if depth == 0 || r.chance(1, 5) {
        return leaf(r);
    }
    let some = |r: &mut Rng| {
        let n = r.range(0, 3);
        (0..n).map(|_| val(r, depth - 1)).collect::<Vec<_>>()
    };
    match r.below(9) {
        0 | 1 => json!({"v": "tuple", "f": [val(r, depth - 1)]}),
        2 => json!({"v": "tuple", "f": some(r)}),
        3 => json!({"v": "list", "f": some(r)}),
        4 => json!({"v": "set", "f": some(r)}),
        5 => {
            let mut names = vec!["a", "b", "c", "d"];
            r.shuffle(&mut names);
            json!({"v": "struct", "f": some(r).into_iter().zip(names).map(|(x, n)| json!({"n": n, "x": x})).collect::<Vec<_>>()})
        }
        6 => json!({"v": "map", "f": some(r).into_iter().map(|x| json!({"k": val(r, depth - 1), "x": x})).collect::<Vec<_>>()}),
        _ => {
            let t = r
                .pick(&[json!({"k": "n", "n": "none"}), json!({"k": "n", "n": "some"}), json!({"k": "o", "g": 0}), json!({"k": "o", "g": 1}), json!({"k": "o", "g": 2}), json!({"k": "n", "n": "high"})])
                .clone();
            json!({"v": "union", "t": t, "x": if r.chance(1, 3) { json!({"v": "unit"}) } else { val(r, depth - 1) }})
        }
    }
}
fn other(r: &mut Rng, v: &J) -> J {
    if r.chance(1, 2) {
        let mut w = v.clone();
        if let Some(f) = w.get_mut("f").and_then(|f| f.as_array_mut()) {
            r.shuffle(f);
            if r.chance(1, 3) {
                f.pop();
            }
        }
        return w;
    }
    mutate(r, v)
}
pub fn gen(r: &mut Rng) -> J {
    let vals: Vec<J> = (0..6)
        .map(|_| {
            let d = r.range(0, 4);
            val(r, d)
        })
        .collect();
    let mut keys: Vec<J> = (0..2).map(|_| leaf(r)).collect();
    for _ in 0..3 {
        let i = r.below(vals.len());
        keys.push(other(r, &vals[i]));
    }
    json!({"vals": vals, "keys": keys, "nums": [r.bytes(8), [128, 128, 128, 128, 128, 128, 128, 128]], "constants": r.chance(1, 20)})
}
