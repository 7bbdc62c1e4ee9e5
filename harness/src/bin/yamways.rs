//! The same text read in every way there is: how each of them ends.
#[path = "../ev.rs"]
#[allow(dead_code)]
mod ev;
use ev::{ev_json, for_each_input, run_iter};
use serde::de::IgnoredAny;
use serde::Deserialize;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use yam_core::parsing::parser_iter::{ParserIter, YamEvent};
use yam_core::parsing::{Event, Parser, SpannedEventReceiver};
use yam_core::prelude::{Marker, Span, StrSource, Yaml, YamlError, YamlLoader};
use yam_serde::from_str;

fn guard(f: impl FnOnce() -> Value) -> Value { catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| json!(["PANIC", 0])) }
/// the number of top-level documents, or the error
fn docs(r: Result<Vec<Yaml>, YamlError>) -> Value {
    match r { Ok(v) => { let n = v.len(); json!(["ok", n]) } Err(_) => json!(["err", 0]) }
}
fn one(r: Result<Yaml, YamlError>) -> Value {
    match r { Ok(_) => json!(["ok", 1]), Err(YamlError::NoDocument) => json!(["none", 0]), Err(_) => json!(["err", 0]) }
}
fn de<'a, T: Deserialize<'a>>(x: &'a str) -> Value { guard(|| match from_str::<T>(x) { Ok(_) => json!(["ok", 1]), Err(_) => json!(["err", 0]) }) }
/// numbers for events, the same for events that differ in their location (or the explicit start of a document) only
#[derive(Default)]
struct Names(HashMap<String, usize>);
impl Names {
    fn of_json(&mut self, e: &Value) -> usize {
        let mut e = e.as_array().unwrap()[..7].to_vec();
        if e[0] == "DS" { e[1] = json!(0); }
        let n = self.0.len() + 1;
        *self.0.entry(Value::Array(e).to_string()).or_insert(n)
    }
    fn of(&mut self, e: &Event) -> usize {
        let z = || Marker { pos: 0, line: 0, col: 0 };
        self.of_json(&ev_json(e, &Span { start: z(), end: z() }))
    }
}
struct Rec<'n>(&'n RefCell<Names>, Vec<usize>);
impl<'a> SpannedEventReceiver<'a> for Rec<'_> { fn on_event(&mut self, e: Event<'a>, _: Span) { let n = self.0.borrow_mut().of(&e); self.1.push(n); } }
fn event(e: YamEvent) -> Event {
    match e {
        YamEvent::DocStart => Event::DocumentStart(false),
        YamEvent::DocEnd => Event::DocumentEnd,
        YamEvent::StreamEnd => Event::StreamEnd,
        YamEvent::Alias(a) => Event::Alias(a),
        YamEvent::Scalar(s) => Event::Scalar(s),
        YamEvent::SeqStart(a, t) => Event::SequenceStart(a, t),
        YamEvent::SeqEnd => Event::SequenceEnd,
        YamEvent::MapStart(a, t) => Event::MappingStart(a, t),
        YamEvent::MapEnd => Event::MappingEnd,
    }
}
#[derive(Deserialize)]
#[allow(dead_code)]
struct Fields { #[serde(default)] a: Option<String>, #[serde(default)] b: Vec<i64> }
#[derive(Deserialize)]
#[allow(dead_code)]
enum En { A, B(String), C(i32, i32), D { x: f64 } }

fn main() {
    for_each_input(|mut inp| {
        let x = inp.text.as_str();
        let len = x.len();
        let (evs, fin, after) = run_iter(StrSource::new(x), false, len);
        let names = RefCell::new(Names::default());
        let kinds: Vec<Value> = evs.iter().map(|e| json!([e[0], names.borrow_mut().of_json(e)])).collect();
        let w = json!({
            "load": guard(|| docs(Yaml::load_from(x))),
            "parser": guard(|| docs(YamlLoader::<Yaml>::load_from_parser(&mut Parser::new(StrSource::new(x))))),
            "single": guard(|| one(Yaml::load_single(x))),
            "source": guard(|| one(YamlLoader::<Yaml>::load_single_source(StrSource::new(x)))),
            "events": guard(|| { let mut c = Rec(&names, vec![]); match Parser::new_from_str(x).load(&mut c, true) { Ok(()) => json!(["ok", c.1]), Err(_) => json!(["err", c.1]) } }),
            "first": guard(|| { let mut c = Rec(&names, vec![]); match Parser::new_from_str(x).load(&mut c, false) { Ok(()) => json!(["ok", c.1]), Err(_) => json!(["err", c.1]) } }),
            "peeked": guard(|| { let mut p = Parser::new_from_str(x); let mut n = vec![]; loop {
                match p.peek() { None => return json!(["ok", n]), Some(Err(_)) => return json!(["err", n]), Some(Ok(_)) => {} }
                match p.next() { None => return json!(["gone", n]), Some(Err(_)) => return json!(["changed", n]), Some(Ok((e, _))) => n.push(names.borrow_mut().of(&e)) }
                if n.len() > 16 * len + 64 { return json!(["RUNAWAY", 0]) } } }),
            "iter": guard(|| { let x = x.to_string(); let mut p = ParserIter::from_str_ref(&x); let mut n = vec![];
                while let Some(e) = p.next() { n.push(names.borrow_mut().of(&event(e))); if n.len() > 16 * len + 64 { return json!(["RUNAWAY", 0]) } }
                for _ in 0..3 { if p.next().is_some() { return json!(["EXTRA", n]) } }
                json!(["ok", n]) }),
            "ignored": de::<IgnoredAny>(x),
            "value": de::<Value>(x),
            "strings": de::<Vec<String>>(x),
            "map": de::<BTreeMap<String, Option<i64>>>(x),
            "float": de::<Option<f64>>(x),
            "text": de::<String>(x),
            "record": de::<Fields>(x),
            "choice": de::<En>(x),
            "bytes": de::<(bool, char, u8)>(x),
        });
        let o = inp.raw.as_object_mut().unwrap();
        o.insert("e".into(), json!(kinds));
        o.insert("f".into(), fin[0].clone());
        o.insert("g".into(), json!(after));
        o.insert("w".into(), w);
        inp.raw
    });
}
