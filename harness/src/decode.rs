//! Targets for query, form, map and JSON decoding, chosen at run time: `Dyn` asks the
//! deserializer for exactly what a derived type of the wanted shape would ask for, and keeps a
//! canonical text of what it was given. A few really derived types are there as well.
use crate::util::hex;
use serde::de::{self, DeserializeSeed, Deserializer, IgnoredAny, MapAccess, SeqAccess, Visitor};
use serde::Deserialize;
use serde_json::Value;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::fmt;

thread_local! {
    static SHAPE: RefCell<Value> = RefCell::new(Value::Null);
}

pub fn set_shape(v: &Value) {
    SHAPE.with(|s| *s.borrow_mut() = v.clone());
}

pub struct Dyn(pub String);

impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let shape = SHAPE.with(|s| s.borrow().clone());
        Shape(&shape).deserialize(d).map(Dyn)
    }
}

struct Shape<'a>(&'a Value);

fn text(s: &str) -> String {
    format!("s:{}", hex(s.as_bytes()))
}

macro_rules! int {
    ($t:ty, $d:expr) => {
        <$t>::deserialize($d).map(|n| format!("n:{}", n))
    };
}

impl<'de, 'a> DeserializeSeed<'de> for Shape<'a> {
    type Value = String;

    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        let t = self.0["t"].as_str().unwrap();
        match t {
            "bool" => bool::deserialize(d).map(|b| format!("b:{}", b)),
            "char" => char::deserialize(d).map(|c| text(&c.to_string())),
            "string" => String::deserialize(d).map(|s| text(&s)),
            "u8" => int!(u8, d),
            "u16" => int!(u16, d),
            "u32" => int!(u32, d),
            "u64" => int!(u64, d),
            "i8" => int!(i8, d),
            "i16" => int!(i16, d),
            "i32" => int!(i32, d),
            "i64" => int!(i64, d),
            "f32" => int!(f32, d),
            "f64" => int!(f64, d),
            "unit" => <()>::deserialize(d).map(|_| "unit".to_string()),
            "opt" => d.deserialize_option(OptV(&self.0["s"])),
            "list" => d.deserialize_seq(ListV(&self.0["s"])),
            "tuple" => {
                let ss = self.0["ss"].as_array().unwrap();
                d.deserialize_tuple(ss.len(), TupleV(ss))
            }
            "new" => d.deserialize_newtype_struct("New", NewV(&self.0["s"])),
            "map" => d.deserialize_map(MapV(&self.0["s"])),
            "struct" => {
                let fields = self.0["fields"].as_array().unwrap();
                let names: Vec<&'static str> =
                    fields.iter().map(|f| crate::util::leak(f["n"].as_str().unwrap())).collect();
                let names: &'static [&'static str] = Box::leak(names.into_boxed_slice());
                d.deserialize_struct("Target", names, StructV(fields))
            }
            other => panic!("unknown shape {}", other),
        }
    }
}

struct OptV<'a>(&'a Value);
impl<'de, 'a> Visitor<'de> for OptV<'a> {
    type Value = String;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("option")
    }
    fn visit_none<E>(self) -> Result<String, E> {
        Ok("none".into())
    }
    fn visit_unit<E>(self) -> Result<String, E> {
        Ok("none".into())
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        Shape(self.0).deserialize(d).map(|s| format!("some({})", s))
    }
}

struct ListV<'a>(&'a Value);
impl<'de, 'a> Visitor<'de> for ListV<'a> {
    type Value = String;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a sequence")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<String, A::Error> {
        let mut out = vec![];
        while let Some(x) = a.next_element_seed(Shape(self.0))? {
            out.push(x);
        }
        Ok(format!("[{}]", out.join(",")))
    }
}

struct TupleV<'a>(&'a Vec<Value>);
impl<'de, 'a> Visitor<'de> for TupleV<'a> {
    type Value = String;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a tuple")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<String, A::Error> {
        let mut out = vec![];
        for (i, s) in self.0.iter().enumerate() {
            match a.next_element_seed(Shape(s))? {
                Some(x) => out.push(x),
                None => return Err(de::Error::invalid_length(i, &"a longer tuple")),
            }
        }
        Ok(format!("({})", out.join(",")))
    }
}

struct NewV<'a>(&'a Value);
impl<'de, 'a> Visitor<'de> for NewV<'a> {
    type Value = String;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("newtype struct")
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        Shape(self.0).deserialize(d).map(|s| format!("new({})", s))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<String, A::Error> {
        match a.next_element_seed(Shape(self.0))? {
            Some(s) => Ok(format!("new({})", s)),
            None => Err(de::Error::invalid_length(0, &"newtype struct")),
        }
    }
}

struct MapV<'a>(&'a Value);
impl<'de, 'a> Visitor<'de> for MapV<'a> {
    type Value = String;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a map")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<String, A::Error> {
        let mut out = BTreeMap::new();
        while let Some(k) = a.next_key::<String>()? {
            let v = a.next_value_seed(Shape(self.0))?;
            out.insert(k.into_bytes(), v);
        }
        let parts: Vec<String> = out.iter().map(|(k, v)| format!("{}={}", hex(k), v)).collect();
        Ok(format!("{{{}}}", parts.join(";")))
    }
}

struct Ident;
impl<'de> DeserializeSeed<'de> for Ident {
    type Value = String;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        d.deserialize_identifier(IdentV)
    }
}
struct IdentV;
impl<'de> Visitor<'de> for IdentV {
    type Value = String;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("field identifier")
    }
    fn visit_str<E>(self, s: &str) -> Result<String, E> {
        Ok(s.to_string())
    }
}

/// What serde's derive does for an absent field: None for an option, else an error.
struct Missing<E>(std::marker::PhantomData<E>, &'static str);
impl<'de, E: de::Error> Deserializer<'de> for Missing<E> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, _v: V) -> Result<V::Value, E> {
        Err(E::missing_field(self.1))
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_none()
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

struct StructV<'a>(&'a Vec<Value>);
impl<'de, 'a> Visitor<'de> for StructV<'a> {
    type Value = String;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("struct Target")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<String, A::Error> {
        let mut got: HashMap<String, String> = HashMap::new();
        while let Some(k) = a.next_key_seed(Ident)? {
            match self.0.iter().find(|f| f["n"].as_str() == Some(&k)) {
                Some(f) => {
                    if got.contains_key(&k) {
                        return Err(de::Error::duplicate_field(crate::util::leak(&k)));
                    }
                    let v = a.next_value_seed(Shape(&f["s"]))?;
                    got.insert(k, v);
                }
                None => {
                    a.next_value::<IgnoredAny>()?;
                }
            }
        }
        let mut out = vec![];
        for f in self.0 {
            let n = f["n"].as_str().unwrap();
            match got.remove(n) {
                Some(v) => out.push(v),
                None => {
                    if f["d"].as_bool() == Some(true) {
                        out.push("default".to_string());
                    } else {
                        let m: Missing<A::Error> =
                            Missing(std::marker::PhantomData, crate::util::leak(n));
                        out.push(Shape(&f["s"]).deserialize(m)?);
                    }
                }
            }
        }
        Ok(format!("{{{}}}", out.join(";")))
    }
}

// ---------------------------------------------------------------- derived types
pub trait Canon {
    fn canon(&self) -> String;
}
impl Canon for Dyn {
    fn canon(&self) -> String {
        self.0.clone()
    }
}
impl Canon for bool {
    fn canon(&self) -> String {
        format!("b:{}", self)
    }
}
impl Canon for char {
    fn canon(&self) -> String {
        text(&self.to_string())
    }
}
impl Canon for String {
    fn canon(&self) -> String {
        text(self)
    }
}
macro_rules! canon_int { ($($t:ty)*) => { $(impl Canon for $t { fn canon(&self) -> String { format!("n:{}", self) } })* } }
canon_int!(u8 u16 u32 u64 i8 i16 i32 i64 f32 f64);
impl<T: Canon> Canon for Option<T> {
    fn canon(&self) -> String {
        match self {
            Some(x) => format!("some({})", x.canon()),
            None => "none".into(),
        }
    }
}
impl<T: Canon> Canon for Vec<T> {
    fn canon(&self) -> String {
        format!("[{}]", self.iter().map(|x| x.canon()).collect::<Vec<_>>().join(","))
    }
}
impl<A: Canon, B: Canon> Canon for (A, B) {
    fn canon(&self) -> String {
        format!("({},{})", self.0.canon(), self.1.canon())
    }
}
impl<T: Canon> Canon for HashMap<String, T> {
    fn canon(&self) -> String {
        let m: BTreeMap<_, _> = self.iter().map(|(k, v)| (k.clone().into_bytes(), v.canon())).collect();
        let parts: Vec<String> = m.iter().map(|(k, v)| format!("{}={}", hex(k), v)).collect();
        format!("{{{}}}", parts.join(";"))
    }
}

#[derive(Deserialize)]
pub struct Wrap(i32);
impl Canon for Wrap {
    fn canon(&self) -> String {
        format!("new({})", self.0.canon())
    }
}
#[derive(Deserialize)]
pub struct Plain {
    id: i32,
    mode: String,
}
impl Canon for Plain {
    fn canon(&self) -> String {
        format!("{{{};{}}}", self.id.canon(), self.mode.canon())
    }
}
#[derive(Deserialize)]
pub struct Lists {
    a: Vec<i32>,
    b: Vec<String>,
    c: i32,
}
impl Canon for Lists {
    fn canon(&self) -> String {
        format!("{{{};{};{}}}", self.a.canon(), self.b.canon(), self.c.canon())
    }
}
#[derive(Deserialize)]
pub struct Opts {
    a: Option<i32>,
    b: Option<String>,
    c: Option<Vec<bool>>,
    d: u8,
}
impl Canon for Opts {
    fn canon(&self) -> String {
        format!("{{{};{};{};{}}}", self.a.canon(), self.b.canon(), self.c.canon(), self.d.canon())
    }
}
#[derive(Deserialize)]
pub struct Pairs {
    a: (i32, String),
    b: Vec<(u8, u8)>,
    w: Wrap,
    ch: char,
    bo: bool,
}
impl Canon for Pairs {
    fn canon(&self) -> String {
        format!(
            "{{{};{};{};{};{}}}",
            self.a.canon(),
            self.b.canon(),
            self.w.canon(),
            self.ch.canon(),
            self.bo.canon()
        )
    }
}

/// Run `$body` with type `T` standing for the wanted target.
#[macro_export]
macro_rules! with_target {
    ($shape:expr, $T:ident => $body:expr) => {{
        let shape: &serde_json::Value = $shape;
        match shape["k"].as_str().unwrap_or("") {
            "Plain" => { type $T = $crate::decode::Plain; $body }
            "Lists" => { type $T = $crate::decode::Lists; $body }
            "Opts" => { type $T = $crate::decode::Opts; $body }
            "Pairs" => { type $T = $crate::decode::Pairs; $body }
            "MapList" => { type $T = std::collections::HashMap<String, Vec<String>>; $body }
            "MapOne" => { type $T = std::collections::HashMap<String, String>; $body }
            _ => { $crate::decode::set_shape(shape); type $T = $crate::decode::Dyn; $body }
        }
    }};
}

/// Canonical text of a JSON value: keys sorted by bytes, strings and keys in hex, numbers as
/// serde_json prints them.
pub fn json_canon(v: &Value) -> String {
    match v {
        Value::Null => "null".into(),
        Value::Bool(b) => format!("b:{}", b),
        Value::Number(n) if n.is_f64() => "n:f".into(),
        Value::Number(n) => format!("n:{}", n),
        Value::String(s) => text(s),
        Value::Array(a) => format!("[{}]", a.iter().map(json_canon).collect::<Vec<_>>().join(",")),
        Value::Object(o) => {
            let m: BTreeMap<_, _> = o.iter().map(|(k, v)| (k.clone().into_bytes(), json_canon(v))).collect();
            let parts: Vec<String> = m.iter().map(|(k, v)| format!("{}={}", hex(k), v)).collect();
            format!("{{{}}}", parts.join(";"))
        }
    }
}
