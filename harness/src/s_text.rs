//! Identifiers as text.
use std::fmt::{Display, LowerHex, UpperHex};
use std::str::FromStr;

use amplify::hex::FromHex;
use serde_json::{json, Value as J};
use strict_types::{SemId, TypeLibId, TypeSysId};

use crate::proj::*;
use crate::rng::Rng;
use crate::{call, Out};

/// `{ids: [hex], mut: n, seed}`
pub fn gen(r: &mut Rng) -> J {
    let id = match r.below(6) {
        0 => vec![*r.pick(&[0u8, 1, 0x7F, 0x80, 0xFF]); 32],
        1 => {
            let mut b = vec![0; 32];
            b[r.below(32)] = 1 << r.below(8);
            b
        }
        _ => r.bytes(32),
    };
    json!({"id": hex(&id), "mut": 60, "seed": r.below(1 << 30)})
}

trait Id: Display + LowerHex + UpperHex + FromStr + FromHex + serde::Serialize + serde::de::DeserializeOwned + From<[u8; 32]> {
    const KIND: &'static str;
    fn h(&self) -> String;
}
macro_rules! id {
    ($t:ty, $k:literal) => {
        impl Id for $t {
            const KIND: &'static str = $k;
            fn h(&self) -> String { hex(&amplify::ByteArray::to_byte_array(self)) }
        }
    };
}
id!(SemId, "semid");
id!(TypeLibId, "stl");
id!(TypeSysId, "sts");

fn forms<T: Id>(id: &T) -> Vec<(&'static str, String)> {
    vec![
        ("", format!("{id}")),
        ("-", format!("{id:-}")),
        ("#", format!("{id:#}")),
        ("-#", format!("{id:-#}")),
        ("x", format!("{id:x}")),
        ("X", format!("{id:X}")),
        ("json", serde_json::to_string(id).unwrap()),
    ]
}
fn parse<T: Id>(how: &str, s: &str) -> J {
    let ok = |x: &T| json!(x.h());
    match how {
        "x" | "X" => call(|| T::from_hex(s).map_err(|_| ()), ok, |_| String::new()).0,
        "json" => call(|| serde_json::from_str::<T>(s).map_err(|_| ()), ok, |_| String::new()).0,
        _ => call(|| T::from_str(s).map_err(|_| ()), ok, |_| String::new()).0,
    }
}
fn edit(s: &str, r: &mut Rng) -> String {
    let c: Vec<char> = s.chars().collect();
    let set: Vec<char> = "AaZz09_~-#:=+/ .sSéß\u{1F600}".chars().collect();
    let mut c2 = c.clone();
    let k = r.below(c.len());
    match r.below(12) {
        0..=4 => c2[k] = *r.pick(&set),
        5 => {
            c2[k] = char::from_u32(c[k] as u32 ^ (1 << r.below(6))).unwrap_or('?');
        }
        6 => {
            c2.remove(k);
        }
        7 => c2.insert(k, *r.pick(&set)),
        8 => c2.truncate(k),
        9 => {
            c2 = c[k..].to_vec();
        }
        10 => {
            let j = r.below(c.len());
            c2.swap(j, k);
        }
        _ => c2.push(*r.pick(&set)),
    }
    c2.into_iter().collect()
}
fn one<T: Id, A: Id, B: Id>(scn: &J, out: &mut Out) {
    let bytes = id32(scn["id"].as_str().unwrap());
    let id = T::from(bytes);
    let mut r = Rng::new(scn["seed"].as_u64().unwrap_or(0));
    let fs = forms(&id);
    for (f, s) in &fs {
        out.ev(json!({"e": "idtext", "kind": T::KIND, "id": id.h(), "f": f, "s": s, "back": parse::<T>(f, s)}));
    }
    let mut texts: Vec<(String, String)> = vec![];
    let base = ["", "-", "#", "-#"];
    let texts_of = |o: &[(&'static str, String)]| o.iter().map(|(f, s)| (f.to_string(), s.clone())).collect::<Vec<_>>();
    // the same bytes as another kind of identifier, and words or bodies of others
    let mut other = bytes;
    other[r.below(32)] ^= 1 << r.below(8);
    let (a, b, t2) = (forms(&A::from(bytes)), forms(&B::from(bytes)), forms(&T::from(other)));
    texts.extend(texts_of(&a));
    texts.extend(texts_of(&b));
    let body = |s: &str| s.rsplit(':').next().unwrap().split('#').next().unwrap().to_owned();
    let words = |s: &str| s.split('#').nth(1).unwrap().to_owned();
    let w = words(&fs[0].1);
    let ws: Vec<&str> = w.split('-').collect();
    for o in [&a, &b, &t2] {
        texts.push((String::new(), format!("{}:{}#{}", T::KIND, body(&fs[0].1), words(&o[0].1))));
        texts.push((String::new(), format!("{}#{}", body(&fs[0].1), words(&o[0].1))));
        texts.push((String::new(), format!("{}:{}#{}", T::KIND, body(&o[0].1), w)));
        texts.push((String::new(), format!("{}:{}", T::KIND, o[0].1)));
    }
    for x in [
        format!("{}-{}-{}", ws[1], ws[0], ws[2]),
        format!("{}-{}-{}", ws[0], ws[2], ws[1]),
        format!("{}-{}", ws[0], ws[1]),
        format!("{}-{}-{}-{}", ws[0], ws[1], ws[2], ws[0]),
        format!("{}-{}-{}", ws[0], ws[1], "yes"),
        format!("{w}--{w}"),
        format!("{}{}{}", ws[0], ws[1], ws[2]),
        format!("{} {} {}", ws[0], ws[1], ws[2]),
        String::new(),
        format!("#{w}"),
        w.to_uppercase(),
    ] {
        texts.push((String::new(), format!("{}:{}#{}", T::KIND, body(&fs[0].1), x)));
        texts.push((String::new(), format!("{}#{}", body(&fs[0].1), x)));
    }
    for p in ["", "SEMID", "Semid", "stl ", " stl", "strict", &T::KIND.to_uppercase(), &format!("{}:{}", T::KIND, T::KIND), &format!("x{}", T::KIND)] {
        for f in [1, 3] {
            texts.push((String::new(), format!("{p}:{}", fs[f].1)));
        }
    }
    let nodash = body(&fs[0].1).replace('-', "");
    texts.push((String::new(), nodash.clone()));
    texts.push((String::new(), format!("{nodash}#{w}")));
    texts.push((String::new(), format!("{}AAAA", nodash)));
    texts.push((String::new(), nodash[..40].to_owned()));
    texts.push((String::new(), String::new()));
    for _ in 0..scn["mut"].as_u64().unwrap_or(40) {
        let (f, s) = if r.chance(1, 6) { r.pick(&fs).clone() } else { let k = r.below(4); (base[k], fs[k].1.clone()) };
        let mut t = edit(&s, &mut r);
        if r.chance(1, 6) && !t.is_empty() {
            t = edit(&t, &mut r);
        }
        texts.push((f.to_owned(), t));
    }
    // every single character replaced by its neighbour in the alphabet
    if scn["all"] == true {
        for f in 0..4 {
            let c: Vec<char> = fs[f].1.chars().collect();
            for k in 0..c.len() {
                for n in ['A', 'B', 'a', '0', '~', '-', 'e'] {
                    let mut d = c.clone();
                    d[k] = n;
                    texts.push((base[f].to_owned(), d.into_iter().collect()));
                }
                let mut d = c.clone();
                d.remove(k);
                texts.push((base[f].to_owned(), d.into_iter().collect()));
            }
        }
    }
    let v: Vec<J> = texts.iter().map(|(f, s)| json!({"f": f, "s": s, "out": parse::<T>(f, s)})).collect();
    out.ev(json!({"e": "idparse", "kind": T::KIND, "id": id.h(), "texts": v}));
}
pub fn run(scn: &J, out: &mut Out) {
    one::<SemId, TypeLibId, TypeSysId>(scn, out);
    one::<TypeLibId, TypeSysId, SemId>(scn, out);
    one::<TypeSysId, SemId, TypeLibId>(scn, out);
}
