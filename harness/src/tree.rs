//! Loaded trees as JSON.
use crate::ev::{bytes, for_each_input};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use yam_core::parsing::Parser;
use yam_core::prelude::{StrSource, Yaml, YamlData, YamlError, YamlLoader, YamlScalar};

pub fn int_json(v: i128) -> Value {
    let s = v.unsigned_abs().to_string();
    json!(["int", (v < 0) as u8, s.bytes().map(|b| b - b'0').collect::<Vec<u8>>()])
}
/// digits and exponent such that the value is 0.d1d2.. * 10^exponent, from the shortest text that
/// reads back as the same float
pub fn float_json(f: f64) -> Value {
    if f.is_nan() { return json!(["nan"]); }
    let neg = f.is_sign_negative() as u8;
    if f.is_infinite() { return json!(["inf", neg]); }
    let s = format!("{:e}", f.abs());
    let (m, e) = s.split_once('e').unwrap();
    let mut d: Vec<u8> = m.bytes().filter(|b| *b != b'.').map(|b| b - b'0').collect();
    while d.last() == Some(&0) { d.pop(); }
    if d.is_empty() { return json!(["float", neg, [], 0]); }
    json!(["float", neg, d, e.parse::<i32>().unwrap() + 1])
}
pub fn tree_json(y: &Yaml) -> Value {
    match &y.0 {
        YamlData::BadValue => json!(["bad"]),
        YamlData::Scalar(YamlScalar::Null(_)) => json!(["null"]),
        YamlData::Scalar(YamlScalar::Bool(b)) => json!(["bool", *b as u8]),
        YamlData::Scalar(YamlScalar::Integer(i)) => int_json(*i as i128),
        YamlData::Scalar(YamlScalar::FloatingPoint(f)) => float_json(*f),
        YamlData::Scalar(YamlScalar::String(s)) => json!(["str", bytes(s)]),
        YamlData::Sequence(v) => json!(["seq", v.iter().map(tree_json).collect::<Vec<_>>()]),
        YamlData::Mapping(m) => json!(["map", m.iter().map(|e| json!([tree_json(&e.key), tree_json(&e.value)])).collect::<Vec<_>>()]),
        YamlData::Tagged(t, n) => json!(["tag", bytes(&t.handle), bytes(&t.suffix), tree_json(n)]),
        YamlData::Alias(n) => json!(["alias", n]),
    }
}
fn all(r: Result<Vec<Yaml>, YamlError>) -> Value {
    match r { Ok(v) => json!(["ok", v.iter().map(tree_json).collect::<Vec<_>>()]), Err(_) => json!(["ERR"]) }
}
fn one(r: Result<Yaml, YamlError>) -> Value {
    match r { Ok(v) => json!(["ok", tree_json(&v)]), Err(YamlError::NoDocument) => json!(["none"]), Err(_) => json!(["ERR"]) }
}
fn guard(f: impl FnOnce() -> Value) -> Value { catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| json!(["PANIC"])) }

pub fn main_batch() {
    for_each_input(|mut inp| {
        let keep = inp.raw["keep"].as_u64() == Some(1);
        let x = &inp.text;
        let p = || Parser::new(StrSource::new(x)).keep_tags(keep);
        let docs = guard(|| all(YamlLoader::<Yaml>::load_from_parser(&mut p())));
        let single = guard(|| one(YamlLoader::<Yaml>::load_single_from_parser(&mut p())));
        let mut same = true;
        if !keep {
            same &= guard(|| all(Yaml::load_from(x))) == docs;
            same &= guard(|| all(YamlLoader::<Yaml>::load_from(x))) == docs;
            same &= guard(|| one(Yaml::load_single(x))) == single;
            same &= guard(|| one(YamlLoader::<Yaml>::load_single(x))) == single;
            same &= guard(|| one(YamlLoader::<Yaml>::load_single_source(StrSource::new(x)))) == single;
        }
        let o = inp.raw.as_object_mut().unwrap();
        o.insert("keep".into(), json!(keep as u8));
        o.insert("docs".into(), docs);
        o.insert("single".into(), single);
        o.insert("same".into(), json!(same as u8));
        inp.raw
    });
}
