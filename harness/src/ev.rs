//! Reads one JSON input per line, runs the real parser, writes one JSON record per line.
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};
use serde_json::{json, Value};
use yam_core::parsing::{Event, Parser, Source, Tag};
use yam_core::prelude::{Marker, ScalarType, Span, StrSource, YamlError};

static TICK: AtomicU64 = AtomicU64::new(0);

/// CPU time of this process in clock ticks (user and system), so that a busy machine is no hang
fn ticks() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}
/// ends the process when one input takes more than `limit` of CPU time (or far more of real time)
pub fn watchdog(limit: Duration) {
    std::thread::spawn(move || {
        let mut last = 0;
        let mut since = (Instant::now(), ticks());
        loop {
            std::thread::sleep(Duration::from_millis(100));
            let t = TICK.load(Ordering::Relaxed);
            if t != last { last = t; since = (Instant::now(), ticks()); }
            else if ticks() - since.1 > 100 * limit.as_secs() || since.0.elapsed() > 12 * limit { eprintln!("HANG"); std::process::exit(97); }
        }
    });
}

pub fn bytes(s: &str) -> Value { Value::Array(s.as_bytes().iter().map(|b| json!(b)).collect()) }
pub fn style(t: &ScalarType) -> u8 {
    match t { ScalarType::Plain => 0, ScalarType::SingleQuote => 1, ScalarType::DoubleQuote => 2,
      ScalarType::Literal => 3, ScalarType::Folded => 4 }
}
fn mk(m: &Marker) -> [u64; 3] { [m.pos as u64, m.line as u64, m.col as u64] }
fn sp(s: &Span) -> Value { let a = mk(&s.start); let b = mk(&s.end); json!([a[0],a[1],a[2],b[0],b[1],b[2]]) }
fn tag(t: Option<&Tag>) -> (Value, Value, u8) {
    match t { None => (json!([]), json!([]), 0), Some(t) => (bytes(&t.handle), bytes(&t.suffix), 1) }
}

/// <<kind, style/explicit, value, anchor, hasTag, handle, suffix, span>>
pub fn ev_json(e: &Event, s: &Span) -> Value {
    let z = || json!([]);
    let rec = |k: &str, st: u8, v: Value, a: usize, t: Option<&Tag>| {
        let (h, x, has) = tag(t);
        json!([k, st, v, a, has, h, x, sp(s)])
    };
    match e {
        Event::Nothing => rec("NO", 0, z(), 0, None),
        Event::StreamStart => rec("SS", 0, z(), 0, None),
        Event::StreamEnd => rec("SE", 0, z(), 0, None),
        Event::DocumentStart(b) => rec("DS", *b as u8, z(), 0, None),
        Event::DocumentEnd => rec("DE", 0, z(), 0, None),
        Event::Alias(a) => rec("AL", 0, z(), *a, None),
        Event::Comment(c) => rec("CO", 0, bytes(c), 0, None),
        Event::Scalar(v) => rec("SC", style(&v.scalar_type), bytes(&v.value), v.anchor_id, v.tag.as_deref()),
        Event::SequenceStart(a, t) => rec("QS", 0, z(), *a, t.as_deref()),
        Event::SequenceEnd => rec("QE", 0, z(), 0, None),
        Event::MappingStart(a, t) => rec("MS", 0, z(), *a, t.as_deref()),
        Event::MappingEnd => rec("ME", 0, z(), 0, None),
    }
}
pub fn err_json(e: &YamlError) -> Value {
    match e {
        YamlError::ScannerErr { mark, info } => { let a = mk(mark); json!(["ERR", info, a]) }
        other => json!(["ERR", format!("{other}"), [0,0,0]]),
    }
}
/// Outcome of polling beyond the end or the first error: "ok", "EXTRA" item after the end, "PANIC".
pub fn run_iter<S: Source>(src: S, keep: bool, len: usize) -> (Vec<Value>, Value, &'static str) {
    let mut evs = vec![];
    let mut p = Parser::new(src).keep_tags(keep);
    let cap = 16 * len + 64;
    let r = catch_unwind(AssertUnwindSafe(|| {
        loop {
            if evs.len() > cap { return json!(["RUNAWAY", "", [0,0,0]]); }
            match p.next() {
                None => return json!(["END", "", [0,0,0]]),
                Some(Ok((e, s))) => evs.push(ev_json(&e, &s)),
                Some(Err(e)) => return err_json(&e),
            }
        }
    }));
    let fin = match r { Ok(v) => v, Err(_) => json!(["PANIC", "", [0,0,0]]) };
    let after = match fin[0].as_str().unwrap() {
        "END" => catch_unwind(AssertUnwindSafe(|| {
            let mut extra = false;
            for _ in 0..3 { extra |= p.next().is_some() || p.peek().is_some(); }
            if extra { "EXTRA" } else { "ok" }
        })).unwrap_or("PANIC"),
        "ERR" => catch_unwind(AssertUnwindSafe(|| {
            for j in 0..32 { if j % 3 == 1 { let _ = p.peek(); } else { let _ = p.next(); } }
            "ok"
        })).unwrap_or("PANIC"),
        _ => "ok",
    };
    (evs, fin, after)
}

pub struct Input { pub raw: Value, pub text: String }
/// One input per line: an array of bytes, or an object with the bytes in "i".
pub fn for_each_input(mut f: impl FnMut(Input) -> Value) {
    std::panic::set_hook(Box::new(|_| {}));
    watchdog(Duration::from_secs(10));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout().lock();
    for line in stdin.lock().lines() {
        TICK.fetch_add(1, Ordering::Relaxed);
        let line = line.unwrap();
        let mut v: Value = serde_json::from_str(&line).unwrap();
        if v.is_array() { v = json!({"i": v}); }
        let b: Vec<u8> = v["i"].as_array().unwrap_or(&vec![]).iter().map(|x| x.as_u64().unwrap() as u8).collect();
        let text = String::from_utf8(b).unwrap();
        let r = f(Input { raw: v, text });
        serde_json::to_writer(&mut out, &r).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}
pub fn main_batch() {
    for_each_input(|mut inp| {
        let keep = inp.raw["keep"].as_u64() == Some(1);
        let (evs, fin, after) = run_iter(StrSource::new(&inp.text), keep, inp.text.len());
        let o = inp.raw.as_object_mut().unwrap();
        o.insert("keep".into(), json!(keep as u8));
        o.insert("e".into(), Value::Array(evs));
        o.insert("f".into(), fin);
        o.insert("g".into(), json!(after));
        inp.raw
    });
}
