//! Text forms of values: JSON, YAML and TOML documents, and the native notation.
use std::collections::BTreeMap;

use serde_json::{json, Value as J};
use strict_types::typify::TypedVal;
use strict_types::{SemId, StrictVal, TypeSystem};

use crate::rng::Rng;
use crate::s_val::*;
use crate::{call, Out};

// ---- documents ----------------------------------------------------------------------------------
fn dstr(s: &str) -> J { json!({"d": "str", "b": s.as_bytes()}) }
fn dnum(n: i128) -> J {
    if n < 0 {
        json!({"d": "num", "k": "i", "b": (n as i64).to_le_bytes()})
    } else {
        json!({"d": "num", "k": "u", "b": (n as u64).to_le_bytes()})
    }
}
fn dreal(s: impl ToString) -> J { json!({"d": "real", "b": s.to_string().as_bytes()}) }
fn dseq(f: Vec<J>) -> J { json!({"d": "seq", "f": f}) }
/// maps are compared up to the order of their entries
fn dmap(f: Vec<(J, J)>) -> J { canon(&json!({"d": "map", "f": f.into_iter().map(|(k, x)| json!({"k": k, "x": x})).collect::<Vec<_>>()})) }
fn proj_json(v: &J) -> J {
    match v {
        J::Null => json!({"d": "null"}),
        J::Bool(x) => json!({"d": "bool", "x": x}),
        J::Number(n) => match (n.as_u64(), n.as_i64()) {
            (Some(n), _) => dnum(n as i128),
            (_, Some(n)) => dnum(n as i128),
            _ => dreal(n),
        },
        J::String(s) => dstr(s),
        J::Array(q) => dseq(q.iter().map(proj_json).collect()),
        J::Object(m) => dmap(m.iter().map(|(k, x)| (dstr(k), proj_json(x))).collect()),
    }
}
fn proj_yaml(v: &serde_yaml::Value) -> J {
    use serde_yaml::Value::*;
    match v {
        Null => json!({"d": "null"}),
        Bool(x) => json!({"d": "bool", "x": x}),
        Number(n) => match (n.as_u64(), n.as_i64()) {
            (Some(n), _) => dnum(n as i128),
            (_, Some(n)) => dnum(n as i128),
            _ => dreal(n),
        },
        String(s) => dstr(s),
        Sequence(q) => dseq(q.iter().map(proj_yaml).collect()),
        Mapping(m) => dmap(m.iter().map(|(k, x)| (proj_yaml(k), proj_yaml(x))).collect()),
        Tagged(t) => proj_yaml(&t.value),
    }
}
fn proj_toml(v: &toml::Value) -> J {
    use toml::Value::*;
    match v {
        Boolean(x) => json!({"d": "bool", "x": x}),
        Integer(n) => dnum(*n as i128),
        Float(x) => dreal(x),
        Datetime(t) => json!({"d": "time", "b": t.to_string().as_bytes()}),
        String(s) => dstr(s),
        Array(q) => dseq(q.iter().map(proj_toml).collect()),
        Table(m) => dmap(m.iter().map(|(k, x)| (dstr(k), proj_toml(x))).collect()),
    }
}
/// Entries of maps and structures in one order.
fn canon(v: &J) -> J {
    match v {
        J::Array(q) => J::Array(q.iter().map(canon).collect()),
        J::Object(m) => {
            let mut m: serde_json::Map<String, J> = m.iter().map(|(k, x)| (k.clone(), canon(x))).collect();
            let sorts = m.get("d") == Some(&json!("map")) || m.get("v") == Some(&json!("map")) || m.get("v") == Some(&json!("struct"));
            if sorts {
                let key = |e: &J| match e.get("n") {
                    Some(n) => n.as_str().unwrap().as_bytes().to_vec(),
                    None => e["k"]["b"].as_array().map(|b| b.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default(),
                };
                m["f"].as_array_mut().unwrap().sort_by_key(key);
            }
            J::Object(m)
        }
        v => v.clone(),
    }
}

struct Text {
    text: String,
    doc: J,
}
/// What a format makes of the value.
fn write(fmt: &str, v: &StrictVal) -> Result<Text, String> {
    match fmt {
        "json" => serde_json::to_string(v).map_err(|e| e.to_string()),
        "pretty" => serde_json::to_string_pretty(v).map_err(|e| e.to_string()),
        "yaml" => serde_yaml::to_string(v).map_err(|e| e.to_string()),
        _ => toml::to_string(&BTreeMap::from([("v", v)])).map_err(|e| e.to_string()),
    }
    .and_then(|text| Ok(Text { doc: parse(fmt, &text)?, text }))
}
/// The document of a text, according to the format.
fn parse(fmt: &str, s: &str) -> Result<J, String> {
    Ok(match fmt {
        "json" | "pretty" => proj_json(&serde_json::from_str(s).map_err(|e| e.to_string())?),
        "yaml" => proj_yaml(&serde_yaml::from_str(s).map_err(|e| e.to_string())?),
        _ => proj_toml(&toml::from_str::<toml::Table>(s).map_err(|e| e.to_string())?["v"]),
    })
}
fn read(fmt: &str, s: &str) -> Result<StrictVal, String> {
    match fmt {
        "json" | "pretty" => serde_json::from_str(s).map_err(|e| e.to_string()),
        "yaml" => serde_yaml::from_str(s).map_err(|e| e.to_string()),
        _ => toml::from_str::<BTreeMap<String, StrictVal>>(s).map_err(|e| e.to_string()).map(|mut m| m.remove("v").expect("v")),
    }
}
fn convert(fmt: &str, s: &str) -> Result<StrictVal, String> {
    Ok(match fmt {
        "json" | "pretty" => StrictVal::from(serde_json::from_str::<J>(s).map_err(|e| e.to_string())?),
        "yaml" => StrictVal::from(serde_yaml::from_str::<serde_yaml::Value>(s).map_err(|e| e.to_string())?),
        _ => StrictVal::from(toml::from_str::<toml::Table>(s).map_err(|e| e.to_string())?["v"].clone()),
    })
}
const FMTS: [&str; 4] = ["json", "yaml", "toml", "pretty"];

// ---- execution ----------------------------------------------------------------------------------
fn trips(sys: &TypeSystem, id: SemId, t: &TypedVal, strict: bool, out: &mut Out) {
    for fmt in FMTS {
        let mut text = String::new();
        let (wrote, w) = call(|| write(fmt, t.as_val()), |t| t.doc.clone(), |e| e.clone());
        if let Some(w) = w {
            text = w.text;
        }
        let typed = |v: Result<StrictVal, String>| v.and_then(|v| sys.typify(v, id).map_err(|e| e.to_string()));
        let none = json!({"k": "err", "e": ""});
        let (read, conv) = if wrote["k"] == "ok" {
            let p = |t: &TypedVal| proj_val(t.as_val());
            let e = |_: &String| String::new();
            (call(|| typed(read(fmt, &text)), p, e).0, call(|| typed(convert(fmt, &text)), p, e).0)
        } else {
            (none.clone(), none)
        };
        out.ev(json!({"e": "trip", "v": proj_val(t.as_val()), "fmt": fmt, "wrote": wrote, "read": read, "conv": conv, "strict": strict}));
    }
}
/// `{ty, vals, strict?}`, `{fmt, text}` or `{docs: [document]}`
pub fn run(scn: &J, out: &mut Out) {
    if let Some(docs) = scn.get("docs") {
        for d in docs.as_array().unwrap() {
            for fmt in ["json", "yaml", "toml"] {
                if let Some(text) = render(fmt, d) {
                    document(fmt, &text, out);
                }
            }
        }
        return;
    }
    if let Some(text) = scn.get("text") {
        document(scn["fmt"].as_str().unwrap(), text.as_str().unwrap(), out);
        return;
    }
    let mut m = BTreeMap::new();
    let id = sys_of_tree(&scn["ty"], &mut m);
    let sys = system(m);
    out.ev(json!({"e": "ty", "ty": scn["ty"]}));
    let mut seen = vec![];
    for v in scn["vals"].as_array().unwrap() {
        let Ok(Ok(t)) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sys.typify(unproj_val(v), id))) else { continue };
        let p = proj_val(t.as_val());
        if seen.contains(&p) {
            continue;
        }
        let (o, _) = call(|| Ok::<_, ()>(t.as_val().to_string()), |s| bytes_j(s.as_bytes()), |_| String::new());
        out.ev(json!({"e": "ston", "v": p, "out": o}));
        trips(&sys, id, &t, scn["strict"] == 1, out);
        seen.push(p);
    }
}
fn document(fmt: &str, text: &str, out: &mut Out) {
    // not a document of the format: nothing to read
    let Ok(d) = parse(fmt, text) else { return };
    let p = |v: &StrictVal| canon(&proj_val(v));
    let (r, _) = call(|| read(fmt, text), p, |_| String::new());
    let (c, _) = call(|| convert(fmt, text), p, |_| String::new());
    out.ev(json!({"e": "doc", "fmt": fmt, "d": d, "read": r, "conv": c}));
}

// ---- generation ----------------------------------------------------------------------------------
fn text_of(d: &J) -> String { String::from_utf8(jbytes(&d["b"])).expect("UTF-8") }
fn number(d: &J) -> i128 {
    let b: [u8; 8] = jbytes(&d["b"]).try_into().unwrap();
    if d["k"] == "i" { i64::from_le_bytes(b) as i128 } else { u64::from_le_bytes(b) as i128 }
}
fn render(fmt: &str, d: &J) -> Option<String> {
    match fmt {
        "json" => Some(json_text(d)?),
        // JSON is YAML but for keys and dates
        "yaml" => Some(json_text(d).unwrap_or(serde_yaml::to_string(&yaml(d)).ok()?)),
        _ => Some(format!("v = {}", toml_text(d)?)),
    }
}
fn json_text(d: &J) -> Option<String> {
    Some(match d["d"].as_str().unwrap() {
        "null" => "null".into(),
        "bool" => d["x"].to_string(),
        "num" => number(d).to_string(),
        "real" => text_of(d),
        "time" => return None,
        "str" => J::String(text_of(d)).to_string(),
        "seq" => format!("[{}]", d["f"].as_array().unwrap().iter().map(json_text).collect::<Option<Vec<_>>>()?.join(", ")),
        _ => {
            let e = |e: &J| if e["k"]["d"] == "str" { Some(format!("{}: {}", json_text(&e["k"])?, json_text(&e["x"])?)) } else { None };
            format!("{{{}}}", d["f"].as_array().unwrap().iter().map(e).collect::<Option<Vec<_>>>()?.join(", "))
        }
    })
}
fn yaml(d: &J) -> serde_yaml::Value {
    use serde_yaml::Value as Y;
    match d["d"].as_str().unwrap() {
        "null" => Y::Null,
        "bool" => Y::Bool(d["x"] == true),
        "num" => match number(d) {
            n if n < 0 => Y::from(n as i64),
            n => Y::from(n as u64),
        },
        "real" => text_of(d).parse::<f64>().map(Y::from).unwrap_or(Y::Null),
        "time" | "str" => Y::String(text_of(d)),
        "seq" => Y::Sequence(d["f"].as_array().unwrap().iter().map(yaml).collect()),
        _ => Y::Mapping(d["f"].as_array().unwrap().iter().map(|e| (yaml(&e["k"]), yaml(&e["x"]))).collect()),
    }
}
fn toml_text(d: &J) -> Option<String> {
    Some(match d["d"].as_str().unwrap() {
        "null" => return None,
        "bool" => d["x"].to_string(),
        "num" => number(d).to_string(),
        "real" | "time" => text_of(d),
        "str" => toml::Value::String(text_of(d)).to_string(),
        "seq" => format!("[{}]", d["f"].as_array().unwrap().iter().map(toml_text).collect::<Option<Vec<_>>>()?.join(", ")),
        _ => {
            let e = |e: &J| if e["k"]["d"] == "str" { Some(format!("{} = {}", J::String(text_of(&e["k"])), toml_text(&e["x"])?)) } else { None };
            format!("{{{}}}", d["f"].as_array().unwrap().iter().map(e).collect::<Option<Vec<_>>>()?.join(", "))
        }
    })
}
const WORDS: [&str; 22] = [
    "", "a", "none", "some", "a b", "A", "~", "null", "true", "1", "-5", "0x10", "1.5", "é", "\"", "\\", "a\", \"b", "'", "\n", "_0", "x9", "2020-01-01",
];
fn gen_doc(r: &mut Rng, depth: usize) -> J {
    let leaf = depth == 0 || r.chance(1, 3);
    match if leaf { r.below(9) } else { 9 + r.below(4) } {
        0 => json!({"d": "null"}),
        1 => json!({"d": "bool", "x": r.chance(1, 2)}),
        2 | 3 => dnum(*r.pick(&[0, 1, 5, 255, 256, 65536, i64::MAX as i128, i64::MAX as i128 + 1, u64::MAX as i128, -1, -128, i64::MIN as i128])),
        4 => dreal(*r.pick(&["1.5", "-0.25", "1e300", "0.0", "18446744073709551616.0", "-0.0", "123456789.125"])),
        5 if r.chance(1, 2) => json!({"d": "time", "b": r.pick(&["1979-05-27T07:32:00Z", "1979-05-27", "07:32:00", "1979-05-27T00:32:00.999999-07:00"]).as_bytes()}),
        6 if r.chance(1, 8) => {
            let n = *r.pick(&[255usize, 256, 256, 257]);
            dstr(&(0..n).map(|_| *r.pick(&['0', '9', 'a', 'F'])).collect::<String>())
        }
        5..=8 => dstr(*r.pick(&WORDS[..])),
        9 | 10 => {
            let n = *r.pick(&[0usize, 1, 2, 2, 2, 3]);
            dseq((0..n).map(|_| gen_doc(r, depth - 1)).collect())
        }
        _ => {
            let n = r.below(4);
            let odd = r.chance(1, 5);
            let mut keys = WORDS.to_vec();
            r.shuffle(&mut keys);
            let safe = r.chance(1, 2);
            dmap((0..n)
                .map(|i| {
                    let k = if safe {
                        dstr(["a", "b", "some", "x9"][i])
                    } else if odd && i == 1 {
                        dnum(7)
                    } else {
                        dstr(keys[i])
                    };
                    (k, gen_doc(r, depth - 1))
                })
                .collect())
        }
    }
}
/// Replaces some text inside a value by text which is hard to print, where the type has room for it.
fn nasty(r: &mut Rng, v: &mut J) {
    match v {
        J::Object(m) => {
            if m.get("v") == Some(&json!("str")) {
                let n = m["b"].as_array().unwrap().len();
                if n > 0 && r.chance(1, 2) {
                    let i = r.below(n);
                    if m["b"][i].as_u64().unwrap() < 128 {
                        m["b"][i] = json!(*r.pick(b"\"\\', ~0-:#\n{"));
                    }
                }
            } else {
                m.iter_mut().for_each(|(k, x)| {
                    if k == "f" || k == "x" || k == "k" {
                        nasty(r, x)
                    }
                });
            }
        }
        J::Array(q) => q.iter_mut().for_each(|x| nasty(r, x)),
        _ => {}
    }
}
pub fn gen(r: &mut Rng) -> J {
    if r.chance(1, 5) {
        return json!({"docs": (0..6).map(|_| gen_doc(r, 3)).collect::<Vec<_>>()});
    }
    if r.chance(1, 60) {
        let n = r.range(6, 24);
        let (ty, mut vals) = deep_parts(r, n, true);
        vals.truncate(1);
        return json!({"ty": ty, "vals": vals});
    }
    let depth = r.range(1, 4);
    let ty = gen_ty(r, depth);
    let mut vals = vec![];
    for _ in 0..8 {
        let Some(v) = gen_val(r, &ty, 0) else { continue };
        if r.chance(1, 3) {
            let mut w = v.clone();
            nasty(r, &mut w);
            vals.push(w);
        }
        vals.push(v);
    }
    json!({"ty": ty, "vals": vals})
}
