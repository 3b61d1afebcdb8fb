//! Versions, locators, file formats and arguments of programs.
use std::str::FromStr;

use amplify::confinement::TinyVec;
use serde_json::{json, Value as J};
use strict_encoding::{Ident, StreamReader, StrictDecode, StrictReader};
use strict_types::{BuildFragment, PreFragment, SemId, SemVer, StlFormat, TypeLibId, Urn};

use crate::native::enc;
use crate::proj::*;
use crate::rng::Rng;
use crate::{call, Out};

fn ident(j: &J) -> Ident { Ident::try_from(j["n"].as_str().unwrap().to_owned()).unwrap() }
fn le<const N: usize>(j: &J) -> [u8; N] { j.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect::<Vec<_>>().try_into().unwrap() }
fn pre(j: &J) -> PreFragment {
    match j["f"].as_str().unwrap() {
        "id" => PreFragment::Ident(ident(j)),
        _ => PreFragment::Digits(u128::from_le_bytes(le(&j["b"]))),
    }
}
fn build(j: &J) -> BuildFragment {
    match j["f"].as_str().unwrap() {
        "id" => BuildFragment::Ident(ident(j)),
        _ => BuildFragment::Digits(ident(j)),
    }
}
fn ver(j: &J) -> SemVer {
    let n = |i: usize| u16::from_le_bytes(le(&j["v"][i]));
    let mut v = SemVer::new(n(0), n(1), n(2));
    j["pre"].as_array().unwrap().iter().for_each(|x| v.pre.push(pre(x)).unwrap());
    j["build"].as_array().unwrap().iter().for_each(|x| v.build.push(build(x)).unwrap());
    v
}
fn proj(v: &SemVer) -> J {
    let pre: Vec<J> = v
        .pre
        .iter()
        .map(|x| match x {
            PreFragment::Ident(n) => json!({"f": "id", "n": n.as_str()}),
            PreFragment::Digits(n) => json!({"f": "num", "b": n.to_le_bytes()}),
        })
        .collect();
    let build: Vec<J> = v
        .build
        .iter()
        .map(|x| match x {
            BuildFragment::Ident(n) => json!({"f": "id", "n": n.as_str()}),
            BuildFragment::Digits(n) => json!({"f": "num", "n": n.as_str()}),
        })
        .collect();
    json!({"v": [v.major.to_le_bytes(), v.minor.to_le_bytes(), v.patch.to_le_bytes()], "pre": pre, "build": build})
}
fn version(j: &J, out: &mut Out) -> Vec<u8> {
    let v = ver(j);
    let same = call(
        || {
            let w = SemVer {
                major: v.major,
                minor: v.minor,
                patch: v.patch,
                pre: TinyVec::try_from(j["pre"].as_array().unwrap().iter().map(pre).collect::<Vec<_>>()).unwrap(),
                build: TinyVec::try_from(j["build"].as_array().unwrap().iter().map(build).collect::<Vec<_>>()).unwrap(),
            };
            let mut x = w.clone();
            x.patch = x.patch.wrapping_add(1);
            let mut y = w.clone();
            let longer = y.pre.push(PreFragment::from(1u128)).is_ok();
            Ok::<_, String>(w == v && x != v && (y != v || !longer))
        },
        |v| json!(v),
        |e| e.clone(),
    )
    .0;
    let text = call(|| Ok::<_, String>(v.to_string()), |t| json!(t.as_bytes()), |e| e.clone()).0;
    let (bin, b) = call(|| Ok::<_, String>(enc(&v)), |b| json!(b), |e| e.clone());
    out.ev(json!({"e": "ver", "ver": j, "same": same, "text": text, "bin": bin}));
    b.unwrap_or_default()
}
fn load(b: &[u8]) -> Result<(SemVer, usize), String> {
    let mut r = StrictReader::with(StreamReader::cursor::<{ u32::MAX as usize }>(b));
    let x = SemVer::strict_decode(&mut r).map_err(|e| e.to_string())?;
    Ok((x, r.unbox().unconfine().position() as usize))
}
fn loaded(b: &[u8], out: &mut Out) {
    let o = call(|| load(b), |(v, n)| json!({"ver": proj(v), "n": n}), |_| String::new()).0;
    let o = if o["k"] == "err" { json!({"k": "err"}) } else { o };
    out.ev(json!({"e": "verload", "b": b, "out": o}));
}
fn damage(b: &[u8], r: &mut Rng, out: &mut Out) {
    loaded(b, out);
    for n in 0..b.len().min(60) {
        if r.chance(1, 6) {
            loaded(&b[..n], out);
        }
    }
    for _ in 0..5 {
        let mut c = b.to_vec();
        let i = r.below(c.len());
        match r.below(3) {
            0 => c.insert(i, *r.pick(&[0, 1, 2, 48, 65, 95, 255])),
            1 => {
                c.remove(i);
            }
            _ => c[i] = *r.pick(&[0, 1, 2, 3, 45, 46, 48, 97, 101, 128, 255]),
        }
        loaded(&c, out);
    }
}
fn urn(id: [u8; 32], out: &mut Out) {
    for (kind, u) in [("stl", Urn::from(TypeLibId::from(id))), ("semid", Urn::from(SemId::from(id)))] {
        for f in ["", "#"] {
            let text = call(|| Ok::<_, String>(if f.is_empty() { format!("{u}") } else { format!("{u:#}") }), |t| json!(t.as_bytes()), |e| e.clone()).0;
            out.ev(json!({"e": "urn", "kind": kind, "f": f, "id": hex(&id), "text": text}));
        }
    }
}
fn name(f: &StlFormat) -> &'static str {
    match f {
        StlFormat::Source => "source",
        StlFormat::Binary => "binary",
        StlFormat::Armored => "armored",
    }
}
fn format(s: &str, out: &mut Out) {
    let (o, f) = call(|| StlFormat::from_str(s), |f| json!(name(f)), |e| e.to_string());
    out.ev(json!({"e": "format", "s": s, "out": o, "back": f.map(|f| f.to_string()).unwrap_or_default()}));
}
/// what `parse_args` makes of these arguments, in a process of its own
fn args(a: &[String], out: &mut Out) {
    let p = std::process::Command::new(std::env::current_exe().unwrap()).args(a).env("HARNESS_ARGS", "1").output().unwrap();
    let o = match p.status.code() {
        Some(0) => serde_json::from_slice(&p.stdout).unwrap(),
        _ => json!({"k": "refused"}),
    };
    out.ev(json!({"e": "args", "args": a, "out": o}));
}
pub fn print_args() {
    let (f, d) = strict_types::parse_args();
    println!("{}", json!({"k": "ok", "f": name(&f), "d": d.map(|d| format!("={d}")).unwrap_or("-".into())}));
}
/// `{vers, ids, formats, args, pick}`
pub fn run(scn: &J, out: &mut Out) {
    let mut r = Rng::new(scn["pick"].as_u64().unwrap_or(0));
    let list = |k: &str| scn[k].as_array().cloned().unwrap_or_default();
    for v in list("vers") {
        let b = version(&v, out);
        if r.chance(1, 3) {
            damage(&b, &mut r, out);
        }
    }
    for id in list("ids") {
        urn(unhex(id.as_str().unwrap()).try_into().unwrap(), out);
    }
    for f in list("formats") {
        format(f.as_str().unwrap(), out);
    }
    for a in list("args") {
        args(&a.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_owned()).collect::<Vec<_>>(), out);
    }
}
fn word(r: &mut Rng) -> String {
    let n = if r.chance(1, 12) { 100 } else { r.range(1, 8) };
    let mut s = String::from(*r.pick(&["a", "Z", "_", "rc", "alpha"]));
    while s.len() < n {
        s.push_str(*r.pick(&["a", "Z", "_", "0", "9"]));
    }
    s
}
fn num<const N: usize>(r: &mut Rng) -> Vec<u8> {
    match r.below(4) {
        0 => vec![*r.pick(&[0u8, 255]); N],
        1 => {
            let mut b = vec![0; N];
            b[r.below(N)] = r.below(256) as u8;
            b
        }
        _ => r.bytes(N),
    }
}
pub fn gen(r: &mut Rng) -> J {
    let n = |r: &mut Rng| if r.chance(1, 30) { 255 } else { *r.pick(&[0usize, 0, 1, 2, 3, 9]) };
    let vers: Vec<J> = (0..8)
        .map(|_| {
            let (p, b) = (n(r), n(r));
            let pre: Vec<J> = (0..p).map(|_| if r.chance(1, 2) { json!({"f": "id", "n": word(r)}) } else { json!({"f": "num", "b": num::<16>(r)}) }).collect();
            let build: Vec<J> = (0..b).map(|_| json!({"f": *r.pick(&["id", "num"]), "n": word(r)})).collect();
            json!({"v": [num::<2>(r), num::<2>(r), num::<2>(r)], "pre": pre, "build": build})
        })
        .collect();
    let formats: Vec<String> = (0..4)
        .map(|_| {
            let mut s = String::from(*r.pick(&["stl", "sta", "sty", "sts", ""]));
            for _ in 0..r.below(2) {
                let c = *r.pick(&['-', 's', 't', 'a', 'l', 'y', 'S', ' ', '.']);
                let i = r.below(s.len() + 1);
                s.insert(i, c);
            }
            s
        })
        .collect();
    let n = if r.chance(1, 4) { r.range(0, 4) } else { 0 };
    let args: Vec<Vec<String>> = (0..n.min(1))
        .map(|_| (0..n - 1).map(|i| String::from(if i == 0 { *r.pick(&["--stl", "--sta", "--sty", "stl", "sta", "sty", "-stl", "--sts", "--", ""]) } else { *r.pick(&["stl", "/tmp/x y", "--stl", "-", "", "."]) })).collect())
        .collect();
    json!({"vers": vers, "ids": [hex(&r.bytes(32))], "formats": formats, "args": args, "pick": r.below(1 << 30)})
}
