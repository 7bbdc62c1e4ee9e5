//! Histories of reads and writes through the accessors of a node, for both node types.
use crate::ev::{bytes, for_each_input};
use crate::tree::{float_json, int_json};
use serde_json::{json, Value};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::ops::{Index, IndexMut};
use std::panic::{catch_unwind, AssertUnwindSafe};
use yam_core::parsing::Tag;
use yam_core::prelude::*;

type Seq<N> = Vec<N>;
type Map<N> = Vec<YamlEntry<'static, N>>;
trait Node: YamlDocAccess<'static, SequenceNode = Seq<Self>, MappingNode = Map<Self>> {
    const HAS_INDEX: bool;
    fn data(&self) -> &YamlData<'static, Self>;
    fn data_mut(&mut self) -> &mut YamlData<'static, Self>;
    fn of(d: YamlData<'static, Self>) -> Self;
    fn idx(&self, _n: usize) -> &Self { unreachable!() }
    fn idx_s(&self, _n: &str) -> &Self { unreachable!() }
    fn idx_mut(&mut self, _n: usize) -> &mut Self { unreachable!() }
    fn idx_s_mut(&mut self, _n: &str) -> &mut Self { unreachable!() }
    fn equal(&self, _o: &Self) -> Option<bool> { None }
    fn leaf(v: &Value) -> Option<Self>;
    /// give the node a span of its own, number `id`
    fn mark(self, _id: usize) -> Self { self }
    fn span_id(&self) -> usize { 0 }
}
fn span_no(id: usize) -> Span { Span::new(Marker::new(id, id as u32, id as u32), Marker::new(id + 1, id as u32, id as u32)) }
thread_local! { static SPANS: Cell<usize> = const { Cell::new(0) }; }
impl Node for Yaml<'static> {
    const HAS_INDEX: bool = true;
    fn data(&self) -> &YamlData<'static, Self> { &self.0 }
    fn data_mut(&mut self) -> &mut YamlData<'static, Self> { &mut self.0 }
    fn of(d: YamlData<'static, Self>) -> Self { Yaml::from(d) }
    fn idx(&self, n: usize) -> &Self { self.index(n) }
    fn idx_s(&self, n: &str) -> &Self { self.index(n) }
    fn idx_mut(&mut self, n: usize) -> &mut Self { self.index_mut(n) }
    fn idx_s_mut(&mut self, n: &str) -> &mut Self { self.index_mut(n) }
    fn equal(&self, o: &Self) -> Option<bool> { Some(self == o) }
    fn leaf(v: &Value) -> Option<Self> {
        Some(match v[0].as_str().unwrap() {
            "bool" => Yaml::from(v[1] == 1),
            "int" => { let n = int_of(v); match n % 4 { 0 if n.abs() < 100 => Yaml::from(n as i8), 1 if n.abs() < 100 => Yaml::from(n as i16), 2 if n.abs() < 100 => Yaml::from(n as i32), _ => Yaml::from(n) } }
            "float" => { let f = float_of(v); if (f as f32) as f64 == f && v[1] == 0 { Yaml::from(f as f32) } else { Yaml::from(f) } }
            "str" => { let s: &'static str = Box::leak(str_of(&v[1]).into_boxed_str()); if s.len() % 2 == 0 { Yaml::from(s) } else { <Yaml as YamlDocAccess>::key_from_str(s) } }
            "seq" => Yaml::from(v[1].as_array().unwrap().iter().map(build::<Self>).collect::<Vec<_>>()),
            "null" => <Yaml as YamlDocAccess>::null(),
            "bad" => <Yaml as YamlDocAccess>::bad_value(),
            _ => return None,
        })
    }
}
impl Node for SpannedYaml<'static> {
    const HAS_INDEX: bool = false;
    fn data(&self) -> &YamlData<'static, Self> { &self.yaml }
    fn data_mut(&mut self) -> &mut YamlData<'static, Self> { &mut self.yaml }
    fn of(d: YamlData<'static, Self>) -> Self { SpannedYaml { span: Span::default(), yaml: d } }
    fn leaf(v: &Value) -> Option<Self> {
        Some(match v[0].as_str().unwrap() {
            "null" => <SpannedYaml as YamlDocAccess>::null(),
            "bad" => <SpannedYaml as YamlDocAccess>::bad_value(),
            "str" => <SpannedYaml as YamlDocAccess>::key_from_str(&str_of(&v[1])),
            "int" if int_of(v) >= 0 => <SpannedYaml as YamlDocAccess>::key_from_usize(int_of(v) as usize),
            _ => return None,
        })
    }
    fn mark(mut self, id: usize) -> Self { self.span = span_no(id); self }
    fn span_id(&self) -> usize {
        let (s, id) = (self.span, self.span.start.pos);
        if s == Span::default() { 0 } else if s == span_no(id) { id } else { usize::MAX >> 40 }
    }
}
fn str_of(v: &Value) -> String { String::from_utf8(v.as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect()).unwrap() }
fn int_of(v: &Value) -> i64 {
    let d: String = v[2].as_array().unwrap().iter().map(|d| (b'0' + d.as_u64().unwrap() as u8) as char).collect();
    format!("{}{}", if v[1] == 1 { "-" } else { "" }, d).parse().unwrap()
}
fn float_of(v: &Value) -> f64 {
    let sign = if v[1] == 1 { -1.0 } else { 1.0 };
    match v[0].as_str().unwrap() {
        "nan" => f64::NAN,
        "inf" => sign * f64::INFINITY,
        _ => { let d: String = v[2].as_array().unwrap().iter().map(|d| (b'0' + d.as_u64().unwrap() as u8) as char).collect();
            sign * format!("0.{}e{}", if d.is_empty() { "0".into() } else { d }, v[3]).parse::<f64>().unwrap() }
    }
}
fn tag_of(v: &Value) -> Tag { Tag { handle: str_of(&v[1]), suffix: str_of(&v[2]) } }
fn build<N: Node>(v: &Value) -> N {
    let id = SPANS.with(|c| { c.set(c.get() + 1); c.get() });
    build_bare::<N>(v).mark(id)
}
fn build_bare<N: Node>(v: &Value) -> N {
    if let Some(n) = N::leaf(v) { return n; }
    N::of(match v[0].as_str().unwrap() {
        "bad" => YamlData::BadValue,
        "null" => YamlData::Scalar(YamlScalar::Null(Default::default())),
        "bool" => YamlData::Scalar(YamlScalar::Bool(v[1] == 1)),
        "int" => YamlData::Scalar(YamlScalar::Integer(int_of(v))),
        "float" | "inf" | "nan" => YamlData::Scalar(YamlScalar::FloatingPoint(float_of(v))),
        "str" => YamlData::Scalar(YamlScalar::String(Cow::Owned(str_of(&v[1])))),
        "seq" => YamlData::Sequence(v[1].as_array().unwrap().iter().map(build).collect()),
        "map" => YamlData::Mapping(v[1].as_array().unwrap().iter().map(|e| YamlEntry::new(build(&e[0]), build(&e[1]))).collect()),
        "tag" => YamlData::Tagged(Cow::Owned(tag_of(v)), Box::new(build(&v[3]))),
        _ => YamlData::Alias(v[1].as_u64().unwrap() as usize),
    })
}
fn show<N: Node>(n: &N) -> Value {
    match n.data() {
        YamlData::BadValue => json!(["bad"]),
        YamlData::Scalar(YamlScalar::Null(_)) => json!(["null"]),
        YamlData::Scalar(YamlScalar::Bool(b)) => json!(["bool", *b as u8]),
        YamlData::Scalar(YamlScalar::Integer(i)) => int_json(*i as i128),
        YamlData::Scalar(YamlScalar::FloatingPoint(f)) => float_json(*f),
        YamlData::Scalar(YamlScalar::String(s)) => json!(["str", bytes(s)]),
        YamlData::Sequence(v) => json!(["seq", v.iter().map(show).collect::<Vec<_>>()]),
        YamlData::Mapping(m) => json!(["map", m.iter().map(|e| json!([show(&e.key), show(&e.value)])).collect::<Vec<_>>()]),
        YamlData::Tagged(t, n) => json!(["tag", bytes(&t.handle), bytes(&t.suffix), show(&**n)]),
        YamlData::Alias(n) => json!(["alias", n]),
    }
}
/// the spans of a node and its parts: [number, [those of the elements; of key, value..; of the tagged node]]
fn spans<N: Node>(n: &N) -> Value {
    let kids: Vec<Value> = match n.data() {
        YamlData::Sequence(v) => v.iter().map(spans).collect(),
        YamlData::Mapping(m) => m.iter().flat_map(|e| [spans(&e.key), spans(&e.value)]).collect(),
        YamlData::Tagged(_, c) => vec![spans(&**c)],
        _ => vec![],
    };
    json!([n.span_id(), kids])
}
fn copy<N: Node>(y: &Yaml) -> N { build(&crate::tree::tree_json(y)) }

/// positions of all nodes, outermost first: 0-based element, or entry and 0 for its key, 1 for its value
fn paths<N: Node>(n: &N, here: Vec<Vec<usize>>, out: &mut Vec<Vec<Vec<usize>>>) {
    out.push(here.clone());
    let go = |step: Vec<usize>, c: &N, out: &mut Vec<_>| { let mut h = here.clone(); h.push(step); paths(c, h, out); };
    match n.data() {
        YamlData::Sequence(v) => for (j, c) in v.iter().enumerate() { go(vec![j + 1], c, out); },
        YamlData::Mapping(m) => for (j, e) in m.iter().enumerate() { go(vec![j + 1, 1], &e.key, out); go(vec![j + 1, 2], &e.value, out); },
        YamlData::Tagged(_, c) => go(vec![], c, out),
        _ => {}
    }
}
fn at<'n, N: Node>(n: &'n mut N, path: &[Vec<usize>]) -> &'n mut N {
    let Some(s) = path.first() else { return n };
    let c = match n.data_mut() {
        YamlData::Sequence(v) => &mut v[s[0] - 1],
        YamlData::Mapping(m) => { let e = &mut m[s[0] - 1]; if s[1] == 1 { &mut e.key } else { &mut e.value } }
        YamlData::Tagged(_, c) => &mut **c,
        _ => unreachable!(),
    };
    at(c, &path[1..])
}
fn guard<R>(f: impl FnOnce() -> R) -> Option<R> { catch_unwind(AssertUnwindSafe(f)).ok() }
fn opt(v: Option<Value>) -> Value { match v { None => json!([]), Some(v) => json!([v]) } }
fn kind(e: YamlAccessError) -> &'static str { match e { YamlAccessError::ExpectedMapping => "mapping", YamlAccessError::ExpectedSequence => "sequence" } }

fn probe<N: Node>(n: &N) -> Value {
    let seq = |v: &Vec<N>| json!(v.iter().map(show).collect::<Vec<_>>());
    let map = |m: &Map<N>| json!(m.iter().map(|e| json!([show(&e.key), show(&e.value)])).collect::<Vec<_>>());
    let mut m = n.clone();
    let muts = json!([opt(m.as_bool_mut().map(|b| json!(*b as u8))), opt(m.as_i64_mut().map(|i| int_json(*i as i128))),
        opt(m.as_f64_mut().map(|f| float_json(*f))), opt(m.as_str_mut().map(|s| bytes(s))),
        match m.as_sequence_mut() { Ok(v) => json!(["ok", seq(v)]), Err(e) => json!(["expected", kind(e)]) },
        match m.as_mapping_mut() { Ok(v) => json!(["ok", map(v)]), Err(e) => json!(["expected", kind(e)]) },
        opt(guard(|| seq(n.clone().sequence_mut()))), opt(guard(|| map(n.clone().mapping_mut())))]);
    json!([
        [n.is_bad_value() as u8, n.is_null() as u8, n.is_string() as u8, n.is_bool() as u8, n.is_floating_point() as u8, n.is_integer() as u8,
         n.is_alias() as u8, n.is_mapping() as u8, n.is_sequence() as u8, n.is_collection() as u8, n.is_non_empty_collection() as u8],
        format!("{:?}", n.get_type()),
        [opt(n.as_bool().map(|b| json!(b as u8))), opt(n.as_i64().map(|i| int_json(i as i128))), opt(n.as_f64().map(float_json)), opt(n.as_str().map(bytes)),
         match n.as_sequence() { Ok(v) => json!(["ok", seq(v)]), Err(e) => json!(["expected", kind(e)]) },
         match n.as_mapping() { Ok(v) => json!(["ok", map(v)]), Err(e) => json!(["expected", kind(e)]) },
         opt(guard(|| seq(n.sequence()))), opt(guard(|| map(n.mapping())))],
        muts,
        [opt(n.clone().into_bool().map(|b| json!(b as u8))), opt(n.clone().into_i64().map(|i| int_json(i as i128))), opt(n.clone().into_f64().map(float_json)),
         opt(n.clone().into_string().map(|s| bytes(&s))), opt(n.clone().into_sequence().map(|v| seq(&v))), opt(n.clone().into_mapping().map(|v| map(&v)))],
        opt(n.get_tag().map(|t| json!([bytes(&t.handle), bytes(&t.suffix)]))),
        show(&n.clone()),
    ])
}
thread_local! { static NEW: RefCell<Value> = RefCell::new(json!([0, []])); }
fn history<N: Node>(root: &mut N, steps: &[Value], out: &mut Vec<Value>) {
    for st in steps {
        let mut ps = vec![];
        paths(root, vec![], &mut ps);
        let path = &ps[st[1].as_u64().unwrap() as usize % ps.len()];
        let (arg, new) = (&st[2], &st[3]);
        let num = arg.as_u64().unwrap_or(0) as usize;
        let key = if arg.is_array() { str_of(arg) } else { String::new() };
        let op = st[0].as_str().unwrap();
        let mut other = json!([]);
        let new: &dyn Fn() -> N = &|| { let n = build(new); NEW.with(|c| c.replace(spans(&n))); n };
        let mut copies = json!([]);
        let res = {
            let n = at(root, path);
            let done = |o: Option<()>| match o { Some(()) => json!(["ok"]), None => json!(["none"]) };
            match op {
                "probe" => {
                    let (a, b) = (n.clone().into_sequence().unwrap_or_default(), n.clone().into_mapping().unwrap_or_default());
                    copies = json!([spans(&n.clone()), a.iter().map(spans).chain(b.iter().flat_map(|e| [spans(&e.key), spans(&e.value)])).collect::<Vec<_>>()]);
                    probe(n)
                }
                "read" if N::HAS_INDEX => if arg.is_array() { opt(guard(|| show(n.idx_s(&key)))) } else { opt(guard(|| show(n.idx(num)))) },
                "write" if N::HAS_INDEX => done(if arg.is_array() { guard(|| *n.idx_s_mut(&key) = new()) } else { guard(|| *n.idx_mut(num) = new()) }),
                "bool" => done(n.as_bool_mut().map(|b| *b = num % 2 == 1)),
                "int" => done(n.as_i64_mut().map(|b| *b = -(num as i64))),
                "float" => done(n.as_f64_mut().map(|b| *b = num as f64 + 0.5)),
                "upper" => done(n.as_str_mut().map(|s| s.make_ascii_uppercase())),
                "push" => done(n.as_sequence_mut().ok().map(|v| v.push(new()))),
                "set" => done(guard(|| { let v = n.sequence_mut(); let l = v.len(); v[num % l] = new(); })),
                "entry" => done(n.as_mapping_mut().ok().map(|m| m.push(YamlEntry::new(new(), N::key_from_usize(num))))),
                "value" => done(guard(|| { let m = n.mapping_mut(); let l = m.len(); m[num % l].value = new(); })),
                "take" => { let v = n.take(); copies = spans(&v); json!(["took", show(&v)]) }
                "tag" => { let v = n.take(); *n = v.into_tagged(Cow::Owned(Tag { handle: "!".into(), suffix: "t".into() })); json!(["ok"]) }
                "equal" => {
                    let a = n.clone();
                    other = json!(ps[num % ps.len()]);
                    match a.equal(at(root, &ps[num % ps.len()])) { None => json!([]), Some(b) => json!([b as u8]) }
                }
                _ => json!(["skip"]),
            }
        };
        out.push(json!({"key": arg.is_array() as u8, "op": op, "at": path, "arg": arg, "new": st[3], "other": other, "res": res, "tree": show(root), "sp": spans(root), "nsp": NEW.with(|c| c.replace(json!([0, []]))), "copies": copies}));
    }
}
fn owned(v: &Value) -> YamlOwned {
    YamlOwned(match v[0].as_str().unwrap() {
        "bad" => YamlData::BadValue,
        "null" => YamlData::Scalar(YamlScalar::Null(Default::default())),
        "bool" => YamlData::Scalar(YamlScalar::Bool(v[1] == 1)),
        "int" => YamlData::Scalar(YamlScalar::Integer(int_of(v))),
        "float" | "inf" | "nan" => YamlData::Scalar(YamlScalar::FloatingPoint(float_of(v))),
        "str" => YamlData::Scalar(YamlScalar::String(str_of(&v[1]))),
        "seq" => YamlData::Sequence(v[1].as_array().unwrap().iter().map(owned).collect()),
        "map" => YamlData::Mapping(v[1].as_array().unwrap().iter().map(|e| YamlEntry::new(owned(&e[0]), owned(&e[1]))).collect()),
        "tag" => YamlData::Tagged(Cow::Owned(tag_of(v)), Box::new(owned(&v[3]))),
        _ => YamlData::Alias(v[1].as_u64().unwrap() as usize),
    })
}
/// {"i": text of the document, or "t": a tree; "steps": [[operation, node, argument, new node]..]}
pub fn main_batch() {
    for_each_input(|mut inp| {
        let spanned = inp.raw["spanned"] == 1;
        let t0 = match inp.raw.get("t") {
            Some(t) if t.is_array() => Some(t.clone()),
            _ => Yaml::load_single(&inp.text).ok().map(|y| crate::tree::tree_json(&y)),
        };
        let mut out = vec![];
        let mut clone_ok = 1;
        let (mut start, mut places) = (json!([]), json!([0, []]));
        SPANS.with(|c| c.set(0));
        if let Some(t) = t0 {
            let steps = inp.raw["steps"].as_array().unwrap().clone();
            if spanned {
                let y: Yaml = build(&t);
                let mut n: SpannedYaml<'static> = copy(&y);
                (start, places) = (show(&n), spans(&n));
                history(&mut n, &steps, &mut out);
            } else {
                let mut y: Yaml<'static> = build(&t);
                (start, places) = (show(&y), spans(&y));
                history(&mut y, &steps, &mut out);
            }
            let o = owned(&t);
            clone_ok = (start == t && ((o.clone() == o) == (o == o))) as u8;
        }
        let o = inp.raw.as_object_mut().unwrap();
        o.remove("steps");
        o.insert("t".into(), start);
        o.insert("sp".into(), places);
        o.insert("spanned".into(), json!(spanned as u8));
        o.insert("ok".into(), json!(clone_ok));
        o.insert("h".into(), Value::Array(out));
        inp.raw
    });
}
