//! Typed deserialization: a shape of type is a value, so that any nesting can be tried, and a few
//! derived types are tried next to the same shape.
#[path = "../ev.rs"]
#[allow(dead_code)]
mod ev;
#[path = "../tree.rs"]
#[allow(dead_code)]
mod tree;
use ev::{bytes, for_each_input};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::Deserialize;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::fmt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use tree::{float_json, int_json};
use yam_serde::from_str;

fn intern(s: &str) -> &'static str {
    static T: Mutex<Option<HashMap<String, &'static str>>> = Mutex::new(None);
    let mut t = T.lock().unwrap();
    t.get_or_insert_with(HashMap::new).entry(s.to_string()).or_insert_with(|| Box::leak(s.to_string().into_boxed_str()))
}
fn intern_all(v: &[(String, Value)]) -> &'static [&'static str] {
    static T: Mutex<Option<HashMap<String, &'static [&'static str]>>> = Mutex::new(None);
    let key: String = v.iter().map(|x| x.0.clone() + "\n").collect();
    let mut t = T.lock().unwrap();
    t.get_or_insert_with(HashMap::new).entry(key).or_insert_with(|| Box::leak(v.iter().map(|x| intern(&x.0)).collect::<Vec<_>>().into_boxed_slice()))
}
fn text(v: &Value) -> String { String::from_utf8(v.as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect()).unwrap() }
fn named(v: &Value) -> Vec<(String, Value)> { v.as_array().unwrap().iter().map(|f| (text(&f[0]), f[1].clone())).collect() }

struct Seed<'s>(&'s Value);
fn leaf<'de, T: Deserialize<'de>, D: Deserializer<'de>>(d: D, f: impl Fn(T) -> Value) -> Result<Value, D::Error> { T::deserialize(d).map(f) }
fn f32_json(f: f32) -> Value { if f.is_finite() { let v: f64 = format!("{f:e}").parse().unwrap(); float_json(v) } else { float_json(f as f64) } }

impl<'de> DeserializeSeed<'de> for Seed<'_> {
    type Value = Value;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> {
        let s = self.0;
        macro_rules! int { ($t:ty) => { leaf::<$t, D>(d, |v| int_json(v as i128)) } }
        match s[0].as_str().unwrap() {
            "bool" => leaf::<bool, D>(d, |v| json!(["bool", v as u8])),
            "i8" => int!(i8), "i16" => int!(i16), "i32" => int!(i32), "i64" => int!(i64), "i128" => int!(i128),
            "u8" => int!(u8), "u16" => int!(u16), "u32" => int!(u32), "u64" => int!(u64), "u128" => int!(u128),
            "f32" => leaf::<f32, D>(d, f32_json),
            "f64" => leaf::<f64, D>(d, float_json),
            "char" => leaf::<char, D>(d, |c| json!(["char", bytes(&c.to_string())])),
            "string" => leaf::<String, D>(d, |c| json!(["str", bytes(&c)])),
            "unit" => leaf::<(), D>(d, |_| json!(["unit"])),
            "ignored" => leaf::<IgnoredAny, D>(d, |_| json!(["ignored"])),
            "any" => d.deserialize_any(Any),
            "opt" => d.deserialize_option(Opt(&s[1])),
            "new" => d.deserialize_newtype_struct("New", New(&s[1])),
            "seq" => d.deserialize_seq(Seq(&s[1])),
            "map" => d.deserialize_map(Map(&s[1], &s[2])),
            "tup" => { let v = s[1].as_array().unwrap(); d.deserialize_tuple(v.len(), Tup(v, "tup")) }
            "tups" => { let v = s[1].as_array().unwrap(); d.deserialize_tuple_struct("T", v.len(), Tup(v, "tup")) }
            "struct" => { let f = named(&s[1]); let n = intern_all(&f); d.deserialize_struct("S", n, Struct(&f, true)) }
            "enum" => { let f = named(&s[1]); let n = intern_all(&f); d.deserialize_enum("E", n, Enum(&f)) }
            x => panic!("shape {x}"),
        }
    }
}
macro_rules! expecting { () => { fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a value of the shape") } } }
struct Any;
impl<'de> DeserializeSeed<'de> for Any { type Value = Value; fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> { d.deserialize_any(Any) } }
impl<'de> Visitor<'de> for Any {
    type Value = Value;
    expecting!();
    fn visit_bool<E>(self, v: bool) -> Result<Value, E> { Ok(json!(["bool", v as u8])) }
    fn visit_i64<E>(self, v: i64) -> Result<Value, E> { Ok(int_json(v as i128)) }
    fn visit_u64<E>(self, v: u64) -> Result<Value, E> { Ok(int_json(v as i128)) }
    fn visit_f64<E>(self, v: f64) -> Result<Value, E> { Ok(float_json(v)) }
    fn visit_str<E>(self, v: &str) -> Result<Value, E> { Ok(json!(["str", bytes(v)])) }
    fn visit_unit<E>(self) -> Result<Value, E> { Ok(json!(["unit"])) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_element_seed(Any)? { v.push(x); }
        Ok(json!(["seq", v]))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_entry_seed(Any, Any)? { v.push(json!([x.0, x.1])); }
        Ok(json!(["map", v]))
    }
}
struct Opt<'s>(&'s Value);
impl<'de> Visitor<'de> for Opt<'_> {
    type Value = Value;
    expecting!();
    fn visit_none<E>(self) -> Result<Value, E> { Ok(json!(["none"])) }
    fn visit_unit<E>(self) -> Result<Value, E> { Ok(json!(["none"])) }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> { Ok(json!(["some", Seed(self.0).deserialize(d)?])) }
}
struct New<'s>(&'s Value);
impl<'de> Visitor<'de> for New<'_> {
    type Value = Value;
    expecting!();
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> { Ok(json!(["new", Seed(self.0).deserialize(d)?])) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
        match a.next_element_seed(Seed(self.0))? { Some(v) => Ok(json!(["new", v])), None => Err(de::Error::invalid_length(0, &self)) }
    }
}
struct Seq<'s>(&'s Value);
impl<'de> Visitor<'de> for Seq<'_> {
    type Value = Value;
    expecting!();
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_element_seed(Seed(self.0))? { v.push(x); }
        Ok(json!(["seq", v]))
    }
}
struct Map<'s>(&'s Value, &'s Value);
impl<'de> Visitor<'de> for Map<'_> {
    type Value = Value;
    expecting!();
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_entry_seed(Seed(self.0), Seed(self.1))? { v.push(json!([x.0, x.1])); }
        Ok(json!(["map", v]))
    }
}
struct Tup<'s>(&'s Vec<Value>, &'s str);
impl<'de> Visitor<'de> for Tup<'_> {
    type Value = Value;
    expecting!();
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
        let mut v = vec![];
        for (j, s) in self.0.iter().enumerate() {
            match a.next_element_seed(Seed(s))? { Some(x) => v.push(x), None => return Err(de::Error::invalid_length(j, &self)) }
        }
        Ok(json!([self.1, v]))
    }
}
struct Name<'s>(&'s [(String, Value)]);
impl<'de> DeserializeSeed<'de> for Name<'_> { type Value = Option<usize>; fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Option<usize>, D::Error> { d.deserialize_identifier(self) } }
impl<'de> Visitor<'de> for Name<'_> {
    type Value = Option<usize>;
    expecting!();
    fn visit_str<E>(self, v: &str) -> Result<Option<usize>, E> { Ok(self.0.iter().position(|f| f.0 == v)) }
}
struct Struct<'s>(&'s Vec<(String, Value)>, bool);
impl<'de> Visitor<'de> for Struct<'_> {
    type Value = Value;
    expecting!();
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
        let mut v = vec![];
        for (j, s) in self.0.iter().enumerate() {
            match a.next_element_seed(Seed(&s.1))? { Some(x) => v.push(x), None => return Err(de::Error::invalid_length(j, &self)) }
        }
        Ok(json!(["struct", v]))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
        let mut v: Vec<Option<Value>> = vec![None; self.0.len()];
        while let Some(k) = a.next_key_seed(Name(self.0))? {
            match k {
                None => { a.next_value::<IgnoredAny>()?; }
                Some(j) if v[j].is_some() => return Err(de::Error::duplicate_field("field")),
                Some(j) => v[j] = Some(a.next_value_seed(Seed(&self.0[j].1))?),
            }
        }
        let mut out = vec![];
        for (j, x) in v.into_iter().enumerate() {
            match x { Some(x) => out.push(x), None if self.0[j].1[0] == "opt" => out.push(json!(["none"])), None => return Err(de::Error::missing_field("field")) }
        }
        Ok(json!(["struct", out]))
    }
}
struct Enum<'s>(&'s Vec<(String, Value)>);
impl<'de> Visitor<'de> for Enum<'_> {
    type Value = Value;
    expecting!();
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Value, A::Error> {
        let (j, a) = a.variant_seed(Name(self.0))?;
        let Some(j) = j else { return Err(de::Error::unknown_variant("?", &[])) };
        let (name, s) = &self.0[j];
        let v = match s[0].as_str().unwrap() {
            "unit" => { a.unit_variant()?; json!(["unit"]) }
            "tup" => { let v = s[1].as_array().unwrap(); a.tuple_variant(v.len(), Tup(v, "tup"))? }
            "struct" => { let f = named(&s[1]); a.struct_variant(intern_all(&f), Struct(&f, false))? }
            _ => a.newtype_variant_seed(Seed(&s[1]))?,
        };
        Ok(json!(["enum", bytes(name), v]))
    }
}

// ------------------------------------------------------------- derived types
trait Show { fn shape() -> Value; fn show(&self) -> Value; }
fn b(s: &str) -> Value { bytes(s) }
macro_rules! ints { ($($t:ident)*) => { $(impl Show for $t { fn shape() -> Value { json!([stringify!($t)]) } fn show(&self) -> Value { int_json(*self as i128) } })* } }
ints!(i8 i32 i64 u8 u64);
impl Show for bool { fn shape() -> Value { json!(["bool"]) } fn show(&self) -> Value { json!(["bool", *self as u8]) } }
impl Show for f64 { fn shape() -> Value { json!(["f64"]) } fn show(&self) -> Value { float_json(*self) } }
impl Show for String { fn shape() -> Value { json!(["string"]) } fn show(&self) -> Value { json!(["str", bytes(self)]) } }
impl Show for () { fn shape() -> Value { json!(["unit"]) } fn show(&self) -> Value { json!(["unit"]) } }
impl<T: Show> Show for Option<T> { fn shape() -> Value { json!(["opt", T::shape()]) } fn show(&self) -> Value { match self { None => json!(["none"]), Some(v) => json!(["some", v.show()]) } } }
impl<T: Show> Show for Box<T> { fn shape() -> Value { T::shape() } fn show(&self) -> Value { (**self).show() } }
impl<T: Show> Show for Vec<T> { fn shape() -> Value { json!(["seq", T::shape()]) } fn show(&self) -> Value { json!(["seq", self.iter().map(Show::show).collect::<Vec<_>>()]) } }
impl<T: Show, U: Show> Show for (T, U) { fn shape() -> Value { json!(["tup", [T::shape(), U::shape()]]) } fn show(&self) -> Value { json!(["tup", [self.0.show(), self.1.show()]]) } }
impl<T: Show, const N: usize> Show for [T; N] { fn shape() -> Value { json!(["tup", vec![T::shape(); N]]) } fn show(&self) -> Value { json!(["tup", self.iter().map(Show::show).collect::<Vec<_>>()]) } }
#[derive(Deserialize)] struct P { a: i32, b: String }
impl Show for P { fn shape() -> Value { json!(["struct", [[b("a"), i32::shape()], [b("b"), String::shape()]]]) } fn show(&self) -> Value { json!(["struct", [self.a.show(), self.b.show()]]) } }
#[derive(Deserialize)] struct Q { a: Option<Box<Q>>, b: Vec<i32>, c: Option<P> }
impl Show for Q {
    fn shape() -> Value { fn go(n: u8) -> Value { json!(["struct", [[b("a"), ["opt", if n == 0 { json!(["unit"]) } else { go(n - 1) }]], [b("b"), Vec::<i32>::shape()], [b("c"), Option::<P>::shape()]]]) } go(6) }
    fn show(&self) -> Value { json!(["struct", [self.a.show(), self.b.show(), self.c.show()]]) }
}
#[derive(Deserialize)] struct N(i32);
impl Show for N { fn shape() -> Value { json!(["new", i32::shape()]) } fn show(&self) -> Value { json!(["new", self.0.show()]) } }
#[derive(Deserialize)] struct T2(i32, String);
impl Show for T2 { fn shape() -> Value { json!(["tups", [i32::shape(), String::shape()]]) } fn show(&self) -> Value { json!(["tup", [self.0.show(), self.1.show()]]) } }
#[derive(Deserialize)] enum E { A, B(i32), C(i32, String), D { a: i32, b: Option<String> }, F(Vec<E>), G(Option<i32>) }
impl Show for E {
    fn shape() -> Value { fn go(n: u8) -> Value { json!(["enum", [[b("A"), ["unit"]], [b("B"), ["new", i32::shape()]], [b("C"), ["tup", [i32::shape(), String::shape()]]],
        [b("D"), ["struct", [[b("a"), i32::shape()], [b("b"), Option::<String>::shape()]]]], [b("F"), ["new", ["seq", if n == 0 { json!(["unit"]) } else { go(n - 1) }]]], [b("G"), ["new", Option::<i32>::shape()]]]]) } go(5) }
    fn show(&self) -> Value {
        let (n, v) = match self { E::A => ("A", json!(["unit"])), E::B(x) => ("B", x.show()), E::C(x, y) => ("C", json!(["tup", [x.show(), y.show()]])),
            E::D { a, b } => ("D", json!(["struct", [a.show(), b.show()]])), E::F(v) => ("F", v.show()), E::G(v) => ("G", v.show()) };
        json!(["enum", b(n), v])
    }
}
#[derive(Deserialize)] struct U;
impl Show for U { fn shape() -> Value { json!(["units"]) } fn show(&self) -> Value { json!(["unit"]) } }
fn try_type<T: Show + for<'a> Deserialize<'a>>(x: &str) -> (Value, Value) { (T::shape(), match from_str::<T>(x) { Ok(v) => json!(["ok", v.show()]), Err(_) => json!(["ERR"]) }) }
type Try = fn(&str) -> (Value, Value);
const TYPES: [Try; 22] = [try_type::<P>, try_type::<Q>, try_type::<N>, try_type::<T2>, try_type::<E>, try_type::<Vec<P>>, try_type::<Vec<E>>, try_type::<Vec<Option<i32>>>,
    try_type::<Option<Vec<i32>>>, try_type::<(i32, String)>, try_type::<[i32; 2]>, try_type::<Vec<[i32; 2]>>, try_type::<Vec<(Option<i32>, E)>>, try_type::<Option<Q>>, try_type::<Vec<Vec<i32>>>,
    try_type::<Vec<Q>>, try_type::<(P, P)>, try_type::<Vec<N>>, try_type::<Option<()>>, try_type::<Vec<bool>>, try_type::<Vec<f64>>, try_type::<Vec<T2>>];

/// {"i": text, "s": shape} or {"i": text, "n": number of a derived type}
fn main() {
    if std::env::args().nth(1).as_deref() == Some("ser") { return ser_main(); }
    for_each_input(|mut inp| {
        let x: &str = &inp.text;
        let (shape, r) = match inp.raw.get("n").and_then(Value::as_u64) {
            Some(n) => catch_unwind(AssertUnwindSafe(|| TYPES[n as usize % TYPES.len()](x))).unwrap_or((json!([]), json!(["PANIC"]))),
            None => {
                let s = inp.raw["s"].clone();
                let r = catch_unwind(AssertUnwindSafe(|| { CUR.with(|c| c.replace(s.clone())); match from_str::<Dyn>(x) { Ok(v) => json!(["ok", v.0]), Err(_) => json!(["ERR"]) } })).unwrap_or(json!(["PANIC"]));
                (s, r)
            }
        };
        let o = inp.raw.as_object_mut().unwrap();
        o.insert("s".into(), shape);
        o.insert("r".into(), r);
        inp.raw
    });
}
thread_local! { static CUR: std::cell::RefCell<Value> = const { std::cell::RefCell::new(Value::Null) }; }
struct Dyn(Value);
impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let s = CUR.with(|c| c.borrow().clone()); Seed(&s).deserialize(d).map(Dyn) }
}

// ------------------------------------------------------------- serialization
/// a value to serialize: ["bool",b] ["i8",text].. ["f32",bits] ["f64",bits] ["char",bytes] ["str",bytes] ["unit"] ["none"] ["some",value]
struct Val<'s>(&'s Value);
fn parsed<T: std::str::FromStr>(v: &Value) -> T { v.as_str().unwrap().parse().ok().unwrap() }
impl serde::Serialize for Val<'_> {
    fn serialize<S: serde::Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        let v = &self.0[1];
        match self.0[0].as_str().unwrap() {
            "bool" => (v == 1).serialize(z),
            "i8" => parsed::<i8>(v).serialize(z), "i16" => parsed::<i16>(v).serialize(z), "i32" => parsed::<i32>(v).serialize(z), "i64" => parsed::<i64>(v).serialize(z),
            "u8" => parsed::<u8>(v).serialize(z), "u16" => parsed::<u16>(v).serialize(z), "u32" => parsed::<u32>(v).serialize(z), "u64" => parsed::<u64>(v).serialize(z),
            "f32" => f32::from_bits(parsed(v)).serialize(z),
            "f64" => f64::from_bits(parsed(v)).serialize(z),
            "char" => text(v).chars().next().unwrap().serialize(z),
            "str" => text(v).serialize(z),
            "unit" => ().serialize(z),
            "none" => None::<()>.serialize(z),
            "some" => Some(Val(v)).serialize(z),
            x => panic!("value {x}"),
        }
    }
}
/// what the value is when read, and the shape to read it with
fn reading(v: &Value) -> (Value, Value) {
    let k = v[0].as_str().unwrap();
    match k {
        "bool" => (v.clone(), json!(["bool"])),
        "f32" => (f32_json(f32::from_bits(parsed(&v[1]))), json!(["f32"])),
        "f64" => (float_json(f64::from_bits(parsed(&v[1]))), json!(["f64"])),
        "char" => (v.clone(), json!(["char"])),
        "str" => (v.clone(), json!(["string"])),
        "unit" => (v.clone(), json!(["unit"])),
        "none" => (v.clone(), json!(["opt", ["any"]])),
        "some" => { let (x, s) = reading(&v[1]); (json!(["some", x]), json!(["opt", s])) }
        _ => (int_json(parsed(&v[1])), json!([k])),
    }
}
/// {"v": value, "f": [pretty, preferred length (-1: none), depth limit (-1: none), indentor], "any": read it without a type}
fn ser_main() {
    use yam_serde::ser::{PrettyFormatter, YamSerializer};
    for_each_input(|mut inp| {
        let v = inp.raw["v"].clone();
        let f = &inp.raw["f"];
        let mut p = if f[0] == 1 { PrettyFormatter::pretty() } else { PrettyFormatter::default() };
        let size = |v: &Value| v.as_i64().map(|n| if n < 0 { usize::MAX } else { n as usize }).unwrap();
        p.pref_string_length = size(&f[1]);
        p.depth_limit = size(&f[2]);
        p.indentor = f[3].as_str().unwrap().to_string().into();
        let simple = f[0] == 2;
        let w = catch_unwind(AssertUnwindSafe(|| {
            if simple {
                let mut out = String::new();
                let mut z = YamSerializer::new_simple(&mut out);
                serde::Serialize::serialize(&Val(&v), &mut z).map(|_| out)
            } else { yam_serde::to_pretty_string(&Val(&v), p) }
        }));
        let (mut val, mut shape) = reading(&v);
        if inp.raw["any"] == 1 {
            while val[0] == "some" { val = val[1].clone(); }
            if val[0] == "none" { val = json!(["unit"]); }
            if val[0] == "char" { val = json!(["str", val[1]]); }
            shape = json!(["any"]);
        }
        let (t, r) = match w {
            Ok(Ok(t)) => {
                let r = catch_unwind(AssertUnwindSafe(|| { CUR.with(|c| c.replace(shape.clone())); match from_str::<Dyn>(&t) { Ok(v) => json!(["ok", v.0]), Err(_) => json!(["ERR"]) } })).unwrap_or(json!(["PANIC"]));
                (bytes(&t), r)
            }
            Ok(Err(_)) => (json!([]), json!(["NOT WRITTEN"])),
            Err(_) => (json!([]), json!(["PANIC"])),
        };
        json!({"i": t, "s": shape, "v": val, "r": r})
    });
}
