//! Paths as objects: built, listed, printed, stored and loaded.
use serde_json::{json, Value as J};
use strict_encoding::{StreamReader, StrictDecode, StrictEncode, StrictReader, StrictWriter};
use strict_types::{ast, value};

use crate::proj::*;
use crate::rng::Rng;
use crate::s_path::{proj_tstep, proj_vstep, tstep, vstep};
use crate::{call, Out};

const MAX: usize = u32::MAX as usize;

fn bin<T: StrictEncode>(x: &T) -> Result<Vec<u8>, String> {
    let w = x.strict_encode(StrictWriter::in_memory::<MAX>()).map_err(|e| e.to_string())?;
    Ok(w.unbox().unconfine())
}
fn load<T: StrictDecode>(b: &[u8]) -> Result<(T, usize), String> {
    let mut r = StrictReader::with(StreamReader::cursor::<MAX>(b));
    let x = T::strict_decode(&mut r).map_err(|e| e.to_string())?;
    Ok((x, r.unbox().unconfine().position() as usize))
}
fn flat(r: Vec<Result<Vec<u8>, String>>) -> Result<Vec<u8>, String> { Ok(r.into_iter().collect::<Result<Vec<_>, _>>()?.concat()) }

macro_rules! way {
    ($fn:ident, $mod:ident, $k:expr, $step:path, $proj:path, $bin:expr, $json:expr) => {
        fn $fn(j: &[J], out: &mut Out) -> Vec<u8> {
            let steps: Vec<$mod::Step> = j.iter().map(|s| $step(s)).collect();
            let mut path = $mod::Path::new();
            steps.iter().for_each(|s| path.push(s.clone()).unwrap());
            let list = call(|| Ok::<_, String>(path.iter().map($proj).collect::<Vec<_>>()), |v| json!(v), |e| e.clone()).0;
            let same = call(
                || {
                    let mut other = match steps.first() {
                        Some(s) => $mod::Path::with(s.clone()),
                        None => $mod::Path::default(),
                    };
                    steps.iter().skip(1).for_each(|s| other.push(s.clone()).unwrap());
                    let mut ok = other == path && other.len() == steps.len() && (&path).into_iter().eq(steps.iter());
                    if let Some(s) = steps.first() {
                        // a longer path is another one, until it is shortened again
                        other.push(s.clone()).unwrap();
                        ok &= other != path && other > path;
                        other.pop();
                        ok &= other == path && other.iter().last() == steps.last();
                    }
                    Ok::<_, String>(ok)
                },
                |v| json!(v),
                |e| e.clone(),
            )
            .0;
            let text = call(|| Ok::<_, String>(path.to_string()), |t| json!(t.as_bytes()), |e| e.clone()).0;
            let (b, bytes) = call(|| $bin(&path), |b| json!(b), |e: &String| e.clone());
            let json_ = call(|| $json(&path), |v: &Vec<J>| json!(v), |e: &String| e.clone()).0;
            out.ev(json!({"e": "way", "k": $k, "path": j, "steps": list, "same": same, "text": text, "bin": b, "json": json_}));
            bytes.unwrap_or_default()
        }
    };
}
way!(vway, value, "v", vstep, proj_vstep, |p: &value::Path| bin(p), |p: &value::Path| {
    let text = serde_json::to_string(p).map_err(|e| e.to_string())?;
    let back: value::Path = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    Ok::<Vec<J>, String>(back.iter().map(proj_vstep).collect())
});
way!(tway, ast, "t", tstep, proj_tstep, |p: &ast::Path| flat(p.iter().map(bin).collect()), |p: &ast::Path| Ok::<Vec<J>, String>(p.iter().map(proj_tstep).collect()));

fn loaded(k: &str, b: &[u8], out: &mut Out) {
    let o = if k == "v" {
        call(|| load::<value::Path>(b), |(p, n)| json!({"p": p.iter().map(proj_vstep).collect::<Vec<_>>(), "n": n}), |e| e.clone()).0
    } else {
        call(|| load::<ast::Step>(b), |(s, n)| json!({"p": [proj_tstep(s)], "n": n}), |e| e.clone()).0
    };
    let o = if o["k"] == "err" { json!({"k": "err"}) } else { o };
    out.ev(json!({"e": "wayload", "k": k, "b": b, "out": o}));
}
fn damage(k: &str, b: &[u8], r: &mut Rng, out: &mut Out) {
    loaded(k, b, out);
    for n in 0..b.len().min(40) {
        if b.len() < 12 || r.chance(1, 3) {
            loaded(k, &b[..n], out);
        }
    }
    for _ in 0..8 {
        let mut c = b.to_vec();
        match r.below(4) {
            0 => c.push(r.below(256) as u8),
            1 if !c.is_empty() => {
                let i = r.below(c.len());
                c.remove(i);
            }
            2 => {
                let i = r.below(c.len() + 1);
                c.insert(i, *r.pick(&[0, 1, 2, 3, 7, 8, 65, 97, 128, 255]));
            }
            _ if !c.is_empty() => {
                let i = r.below(c.len());
                c[i] = if r.chance(1, 2) { c[i] ^ (1 << r.below(8)) } else { *r.pick(&[0, 1, 2, 3, 4, 7, 8, 9, 195]) };
            }
            _ => {}
        }
        loaded(k, &c, out);
    }
}
/// `{k, steps, n, pick}`: every path of up to `n` of the steps; `{k, paths, pick}`: these paths
pub fn run(scn: &J, out: &mut Out) {
    let mut r = Rng::new(scn["pick"].as_u64().unwrap_or(0));
    let k = scn["k"].as_str().unwrap();
    let one = |p: &[J], r: &mut Rng, out: &mut Out| {
        let b = if k == "v" { vway(p, out) } else { tway(p, out) };
        if p.len() < 2 || r.chance(1, 8) {
            damage(k, &b, r, out);
        }
    };
    if let Some(paths) = scn["paths"].as_array() {
        paths.iter().for_each(|p| one(p.as_array().unwrap(), &mut r, out));
        return;
    }
    let steps = scn["steps"].as_array().unwrap();
    let mut todo: Vec<Vec<J>> = vec![vec![]];
    while let Some(p) = todo.pop() {
        one(&p, &mut r, out);
        if p.len() < scn["n"].as_u64().unwrap() as usize {
            todo.extend(steps.iter().map(|s| [p.clone(), vec![s.clone()]].concat()));
        }
    }
}
fn word(r: &mut Rng) -> String {
    let n = if r.chance(1, 10) { 100 } else { r.range(1, 8) };
    let mut s = String::from(*r.pick(&["a", "z", "_", "m"]));
    while s.len() < n {
        s.push_str(*r.pick(&["a", "Z", "_", "0", "9", "q"]));
    }
    s
}
pub fn gen(r: &mut Rng) -> J {
    let v = r.chance(1, 2);
    let paths: Vec<J> = (0..6)
        .map(|_| {
            let n = match r.below(12) {
                0 => 0,
                1 => 40,
                2 => 300,
                _ => r.range(1, 6),
            };
            let steps: Vec<J> = (0..n)
                .map(|_| {
                    if v {
                        match r.below(6) {
                            0 => json!({"s": "f", "n": word(r)}),
                            1 => json!({"s": "u", "i": r.below(256)}),
                            2 => json!({"s": "i", "b": (r.next() as u32 >> r.below(32)).to_le_bytes()}),
                            3 => {
                                let x = ((r.next() as u128) << 64 | r.next() as u128) >> r.below(128);
                                json!({"s": "k", "key": {"k": "num", "b": x.to_le_bytes().to_vec()}})
                            }
                            4 => {
                                let n = if r.chance(1, 12) { 255 } else { r.below(6) };
                                json!({"s": "k", "key": {"k": "blob", "b": (0..n).map(|_| r.below(256)).collect::<Vec<_>>()}})
                            }
                            _ => {
                                let n = if r.chance(1, 12) { 63 } else { r.below(6) };
                                let t: String = (0..n).map(|_| *r.pick(&['a', '"', '\\', ' ', '.', '}', '0', 'é', '€', '𝄞', '\u{0}'])).collect();
                                json!({"s": "k", "key": {"k": "str", "b": t.as_bytes()}})
                            }
                        }
                    } else {
                        match r.below(8) {
                            0 => json!({"s": "f", "n": word(r)}),
                            1 => json!({"s": "v", "n": word(r)}),
                            2 => json!({"s": "u", "i": r.below(256)}),
                            _ => json!({"s": r.pick(&["ix", "ls", "st", "mk", "mv"])}),
                        }
                    }
                })
                .collect();
            json!(steps)
        })
        .collect();
    json!({"k": if v { "v" } else { "t" }, "paths": paths, "pick": r.below(1 << 30)})
}
