//! Histories of calls of the reading interface of one parser.
use crate::ev::{bytes, err_json, ev_json, for_each_input};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use yam_core::parsing::parser_iter::YamEvent;
use yam_core::parsing::{Event, EventReceiver, Parser, ParserIter, SpannedEventReceiver};
use yam_core::prelude::{Marker, Span, StrSource};

struct Rec(Vec<Value>);
impl<'i> SpannedEventReceiver<'i> for Rec {
    fn on_event(&mut self, ev: Event<'i>, s: Span) { self.0.push(ev_json(&ev, &s)); }
}
/// receives events without their locations
struct Plain(Vec<Value>);
impl<'i> EventReceiver<'i> for Plain {
    fn on_event(&mut self, ev: Event<'i>) {
        let z = || Marker { pos: 0, line: 0, col: 0 };
        let mut v = ev_json(&ev, &Span { start: z(), end: z() });
        v.as_array_mut().unwrap().truncate(7);
        self.0.push(v);
    }
}
fn bare(e: &YamEvent) -> Value {
    let z = || Span { start: Marker { pos: 0, line: 0, col: 0 }, end: Marker { pos: 0, line: 0, col: 0 } };
    let ev = match e.clone() {
        YamEvent::DocStart => Event::DocumentStart(false),
        YamEvent::DocEnd => Event::DocumentEnd,
        YamEvent::StreamEnd => Event::StreamEnd,
        YamEvent::Alias(a) => Event::Alias(a),
        YamEvent::Scalar(s) => Event::Scalar(s),
        YamEvent::SeqStart(a, t) => Event::SequenceStart(a, t),
        YamEvent::SeqEnd => Event::SequenceEnd,
        YamEvent::MapStart(a, t) => Event::MappingStart(a, t),
        YamEvent::MapEnd => Event::MappingEnd,
    };
    let mut v = ev_json(&ev, &z());
    v.as_array_mut().unwrap().truncate(7);
    v
}
fn run(x: &str, keep: bool, ops: &[u64]) -> Vec<Value> {
    let mut p = Parser::new(StrSource::new(x)).keep_tags(keep);
    let mut res = vec![];
    let mut last = String::from("SS"); // before the stream: a document boundary
    for op in ops {
        let boundary = last == "SS" || last == "DE" || last == "SE";
        let r = match op {
            0 => match p.next() {
                None => json!(["none"]),
                Some(Ok((e, s))) => { let v = ev_json(&e, &s); last = v[0].as_str().unwrap().into(); json!(["ev", v]) }
                Some(Err(e)) => json!(["err", err_json(&e)[2]]),
            },
            1 => match p.peek() {
                None => json!(["none"]),
                Some(Ok((e, s))) => json!(["ev", ev_json(e, s)]),
                Some(Err(e)) => json!(["err", err_json(&e)[2]]),
            },
            2 | 3 if boundary => {
                let mut r = Rec(vec![]);
                let q = p.load(&mut r, *op == 3);
                if let Some(v) = r.0.last() { last = v[0].as_str().unwrap().into(); }
                match q { Ok(()) => json!(["ok", r.0]), Err(e) => json!(["stop", r.0, err_json(&e)[2]]) }
            }
            4 | 5 if boundary => {
                let mut r = Plain(vec![]);
                let q = p.load(&mut r, *op == 5);
                if let Some(v) = r.0.last() { last = v[0].as_str().unwrap().into(); }
                match q { Ok(()) => json!(["ok", r.0]), Err(e) => json!(["stop", r.0, err_json(&e)[2]]) }
            }
            6 => json!(["names", (1..=4).map(|j| match p.get_anchor(j) { None => json!([]), Some(n) => json!([bytes(n)]) }).collect::<Vec<_>>()]),
            _ => json!(["skip"]),
        };
        // an error that was only looked at is still to come
        let stop = (r[0] == "err" && *op != 1) || r[0] == "stop";
        res.push(r);
        if stop { break; }
    }
    res
}
fn flat(x: &str) -> (Vec<Value>, &'static str) {
    let mut p = ParserIter::new(StrSource::new(x));
    let mut out = vec![];
    while let Some(e) = p.next() {
        out.push(bare(&e));
        if out.len() > 16 * x.len() + 64 { return (out, "RUNAWAY"); }
    }
    for _ in 0..8 { let _ = p.next(); }
    let again: Vec<Value> = ParserIter::from_str_ref(&x).map(|e| bare(&e)).take(16 * x.len() + 64).collect();
    // polling past the first None is allowed to go on; a fresh iterator must repeat the same
    let same = again == out;
    (out, if same { "ok" } else { "DIFFERENT" })
}
pub fn main_batch() {
    for_each_input(|mut inp| {
        let keep = inp.raw["keep"].as_u64() == Some(1);
        let ops: Vec<u64> = inp.raw["ops"].as_array().map(|a| a.iter().map(|v| v.as_u64().unwrap()).collect()).unwrap_or_default();
        let x = inp.text.clone();
        let res = catch_unwind(AssertUnwindSafe(|| Value::Array(run(&x, keep, &ops)))).unwrap_or_else(|_| json!([["PANIC"]]));
        let (it, itg) = catch_unwind(AssertUnwindSafe(|| flat(&x))).unwrap_or_else(|_| (vec![], "PANIC"));
        let o = inp.raw.as_object_mut().unwrap();
        o.insert("keep".into(), json!(keep as u8));
        o.insert("ops".into(), json!(ops));
        o.insert("res".into(), res);
        o.insert("it".into(), Value::Array(it));
        o.insert("itg".into(), json!(itg));
        inp.raw
    });
}
