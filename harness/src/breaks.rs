//! The same text with each style of line break.
use crate::ev::{bytes, for_each_input, run_iter};
use serde_json::{json, Value};
use yam_core::prelude::StrSource;

pub fn main_breaks() {
    for_each_input(|mut inp| {
        let keep = inp.raw["keep"].as_u64() == Some(1);
        let x = inp.text.replace("\r\n", "\n").replace('\r', "\n");
        let runs: Vec<Value> = [x.clone(), x.replace('\n', "\r\n"), x.replace('\n', "\r")].iter()
            .map(|y| { let r = run_iter(StrSource::new(y), keep, y.len()); json!({"e": r.0, "f": r.1, "g": r.2}) }).collect();
        let o = inp.raw.as_object_mut().unwrap();
        o.insert("keep".into(), json!(keep as u8));
        o.insert("i".into(), bytes(&x));
        o.insert("runs".into(), Value::Array(runs));
        inp.raw
    });
}
