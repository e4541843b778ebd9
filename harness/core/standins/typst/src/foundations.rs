use crate::diag::{SourceResult, StrResult};
use crate::engine::Engine;
use ecow::EcoString;
use std::collections::BTreeMap;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::ops::Deref;
use std::sync::Arc;

#[derive(Clone)]
pub struct Bytes(Arc<dyn AsRef<[u8]> + Send + Sync>);
struct Text<T>(T);
impl<T: AsRef<str>> AsRef<[u8]> for Text<T> {
    fn as_ref(&self) -> &[u8] {
        self.0.as_ref().as_bytes()
    }
}
impl Bytes {
    pub fn new<T: AsRef<[u8]> + Send + Sync + 'static>(data: T) -> Self {
        Self(Arc::new(data))
    }
    pub fn from_string<T: AsRef<str> + Send + Sync + 'static>(data: T) -> Self {
        Self(Arc::new(Text(data)))
    }
    pub fn len(&self) -> usize {
        self.as_slice().len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn as_slice(&self) -> &[u8] {
        (*self.0).as_ref()
    }
    pub fn as_str(&self) -> Result<&str, std::str::Utf8Error> {
        std::str::from_utf8(self.as_slice())
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.as_slice().to_vec()
    }
}
impl Deref for Bytes {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        self.as_slice()
    }
}
impl AsRef<[u8]> for Bytes {
    fn as_ref(&self) -> &[u8] {
        self
    }
}
impl Eq for Bytes {}
impl PartialEq for Bytes {
    fn eq(&self, other: &Self) -> bool {
        self.as_slice() == other.as_slice()
    }
}
impl Hash for Bytes {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.as_slice().hash(state)
    }
}
impl fmt::Debug for Bytes {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Bytes({})", self.len())
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Default)]
pub enum Target {
    #[default]
    Paged,
    Html,
}

#[derive(Debug, Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Str(pub EcoString);
impl Str {
    pub fn as_str(&self) -> &str {
        &self.0
    }
}
impl<T: Into<EcoString>> From<T> for Str {
    fn from(s: T) -> Self {
        Self(s.into())
    }
}
impl std::borrow::Borrow<str> for Str {
    fn borrow(&self) -> &str {
        &self.0
    }
}
impl Deref for Str {
    type Target = str;
    fn deref(&self) -> &str {
        &self.0
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
pub enum Value {
    #[default]
    None,
    Bool(bool),
    Int(i64),
    Str(Str),
    Dict(Dict),
}
pub trait IntoValue {
    fn into_value(self) -> Value;
}
impl IntoValue for Value {
    fn into_value(self) -> Value {
        self
    }
}
macro_rules! into_str {
    ($($t:ty),*) => {$(impl IntoValue for $t {
        fn into_value(self) -> Value {
            Value::Str(Str::from(EcoString::from(self)))
        }
    })*};
}
into_str!(&str, String, EcoString);
impl IntoValue for Str {
    fn into_value(self) -> Value {
        Value::Str(self)
    }
}
impl IntoValue for bool {
    fn into_value(self) -> Value {
        Value::Bool(self)
    }
}
impl IntoValue for i64 {
    fn into_value(self) -> Value {
        Value::Int(self)
    }
}

impl serde::Serialize for Value {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(&format!("{self:?}"))
    }
}
impl serde::Serialize for Dict {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_map(self.0.iter().map(|(k, v)| (k.as_str(), format!("{v:?}"))))
    }
}
impl<'de> serde::Deserialize<'de> for Dict {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let m = BTreeMap::<String, String>::deserialize(d)?;
        Ok(m.into_iter().map(|(k, v)| (Str::from(k), v.into_value())).collect())
    }
}
#[derive(Debug, Clone, Default, PartialEq, Eq, Hash)]
pub struct Dict(Arc<BTreeMap<Str, Value>>);
impl Dict {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn get(&self, key: &str) -> StrResult<&Value> {
        self.0.get(key).ok_or_else(|| ecow::eco_format!("no key {key}"))
    }
    pub fn insert(&mut self, key: Str, value: Value) {
        Arc::make_mut(&mut self.0).insert(key, value);
    }
    pub fn contains(&self, key: &str) -> bool {
        self.0.contains_key(key)
    }
    pub fn iter(&self) -> std::collections::btree_map::Iter<Str, Value> {
        self.0.iter()
    }
}
impl FromIterator<(Str, Value)> for Dict {
    fn from_iter<T: IntoIterator<Item = (Str, Value)>>(t: T) -> Self {
        Self(Arc::new(t.into_iter().collect()))
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Datetime {
    Date(time::Date),
    Time(time::Time),
    Datetime(time::PrimitiveDateTime),
}
impl Datetime {
    pub fn from_ymd(year: i32, month: u8, day: u8) -> Option<Self> {
        Some(Self::Date(time::Date::from_calendar_date(year, month.try_into().ok()?, day).ok()?))
    }
    pub fn from_hms(hour: u8, minute: u8, second: u8) -> Option<Self> {
        Some(Self::Time(time::Time::from_hms(hour, minute, second).ok()?))
    }
    pub fn from_ymd_hms(y: i32, mo: u8, d: u8, h: u8, mi: u8, s: u8) -> Option<Self> {
        let date = time::Date::from_calendar_date(y, mo.try_into().ok()?, d).ok()?;
        Some(Self::Datetime(time::PrimitiveDateTime::new(date, time::Time::from_hms(h, mi, s).ok()?)))
    }
    fn date(&self) -> Option<time::Date> {
        match self {
            Self::Date(d) => Some(*d),
            Self::Time(_) => None,
            Self::Datetime(d) => Some(d.date()),
        }
    }
    pub fn year(&self) -> Option<i32> {
        Some(self.date()?.year())
    }
    pub fn month(&self) -> Option<u8> {
        Some(self.date()?.month().into())
    }
    pub fn day(&self) -> Option<u8> {
        Some(self.date()?.day())
    }
}

#[derive(Debug, Clone, Default, Hash)]
pub struct Module;
#[derive(Debug, Clone, Default, Hash)]
pub struct Scope;
#[derive(Debug, Clone, Default, PartialEq, Hash)]
pub struct Content;
#[derive(Debug, Clone, Default, PartialEq, Hash)]
pub struct Label;
#[derive(Debug, Clone, Default, Hash)]
pub struct Func;
#[derive(Debug, Clone, Default, Hash)]
pub struct Context;
#[comemo::track]
impl Context {
    pub fn location(&self) -> u64 {
        0
    }
}
impl Func {
    pub fn call(&self, _: &mut Engine, _: comemo::Tracked<Context>, _: Vec<Value>) -> SourceResult<Value> {
        Ok(Value::None)
    }
}
