//! Building client blocks from model blocks, by rows and by typed columns.
use crate::gen::Src;
use crate::model::*;
use chrono::{DateTime, NaiveDate, TimeZone};
use chrono_tz::Tz;
use clickhouse_rs::types::{Decimal, Enum16, Enum8, FromSql, Value, ValueRef};
use clickhouse_rs::Block;
use std::collections::HashMap;
use std::net::{Ipv4Addr, Ipv6Addr};

pub fn date_of(d: u16) -> NaiveDate {
    NaiveDate::from_ymd_opt(1970, 1, 1).unwrap() + chrono::Duration::days(d as i64)
}
pub fn dt_of(sec: u32, z: &str) -> DateTime<Tz> {
    tz(z).timestamp_opt(sec as i64, 0).unwrap()
}
pub fn dt64_of(v: i64, p: u32, z: &str) -> DateTime<Tz> {
    let f = 10i64.pow(p);
    let s = v.div_euclid(f);
    let n = v.rem_euclid(f) * 10i64.pow(9 - p);
    tz(z).timestamp_opt(s, n as u32).unwrap()
}

/// Conversion of a model scalar into the Rust type that builds such a column.
pub trait FromVal: Sized {
    fn fv(t: &Ty, v: &Val, z: &str) -> Option<Self>;
}
macro_rules! fv_int {
    ($($t:ty: $tag:ident $bits:expr),*) => { $(
        impl FromVal for $t {
            fn fv(t: &Ty, v: &Val, _: &str) -> Option<Self> {
                match (t, v) { (Ty::$tag($bits), Val::$tag(x)) => Some(*x as $t), _ => None }
            }
        }
    )* };
}
fv_int! { u8: U 8, u16: U 16, u32: U 32, u64: U 64, u128: U 128, i8: I 8, i16: I 16, i32: I 32, i64: I 64, i128: I 128 }
macro_rules! fv {
    ($t:ty, |$ty:ident, $v:ident, $z:ident| $e:expr) => {
        impl FromVal for $t {
            fn fv($ty: &Ty, $v: &Val, $z: &str) -> Option<Self> {
                $e
            }
        }
    };
}
fv!(bool, |_t, v, _z| if let Val::Bool(b) = v { Some(*b) } else { None });
fv!(f32, |_t, v, _z| if let Val::F32(b) = v { Some(f32::from_bits(*b)) } else { None });
fv!(f64, |_t, v, _z| if let Val::F64(b) = v { Some(f64::from_bits(*b)) } else { None });
fv!(String, |_t, v, _z| if let Val::Str(b) = v { String::from_utf8(b.clone()).ok() } else { None });
fv!(Vec<u8>, |_t, v, _z| if let Val::Str(b) = v { Some(b.clone()) } else { None });
fv!(NaiveDate, |_t, v, _z| if let Val::Date(b) = v { Some(date_of(*b)) } else { None });
fv!(DateTime<Tz>, |t, v, z| match (t, v) {
    (Ty::DateTime(q), Val::DateTime(x)) => Some(dt_of(*x, q.as_deref().unwrap_or(z))),
    (Ty::DT64(p, q), Val::DT64(x)) => Some(dt64_of(*x, *p, q.as_deref().unwrap_or(z))),
    (Ty::Lc(t), v) | (Ty::Agg(_, t), v) => DateTime::<Tz>::fv(t, v, z),
    _ => None,
});
fv!(Ipv4Addr, |_t, v, _z| if let Val::Ip4(b) = v { Some(Ipv4Addr::from(*b)) } else { None });
fv!(Ipv6Addr, |_t, v, _z| if let Val::Ip6(b) = v { Some(Ipv6Addr::from(*b)) } else { None });
fv!(uuid::Uuid, |_t, v, _z| if let Val::Uuid(b) = v { Some(uuid::Uuid::from_bytes(*b)) } else { None });
fv!(Decimal, |t, v, _z| match (t, v) {
    (Ty::Dec(_, s), Val::Dec(x)) => Some(Decimal::new(*x, *s)),
    _ => None,
});
fv!(Enum8, |_t, v, _z| if let Val::E8(b) = v { Some(Enum8::of(*b)) } else { None });
fv!(Enum16, |_t, v, _z| if let Val::E16(b) = v { Some(Enum16::of(*b)) } else { None });
impl<T: FromVal> FromVal for Option<T> {
    fn fv(t: &Ty, v: &Val, z: &str) -> Option<Self> {
        match (t, v) {
            (Ty::Null(_), Val::Null) => Some(None),
            (Ty::Null(t), v) => T::fv(t, v, z).map(Some),
            _ => None,
        }
    }
}
pub struct VecOf<T>(pub Vec<T>);
impl<T: FromVal> FromVal for VecOf<T> {
    fn fv(t: &Ty, v: &Val, z: &str) -> Option<Self> {
        match (t, v) {
            (Ty::Arr(t), Val::Arr(vs)) => vs.iter().map(|v| T::fv(t, v, z)).collect::<Option<Vec<T>>>().map(VecOf),
            _ => None,
        }
    }
}
pub struct MapOf<K, V>(pub HashMap<K, V>);
impl<K: FromVal + std::hash::Hash + Eq, V: FromVal> FromVal for MapOf<K, V> {
    fn fv(t: &Ty, v: &Val, z: &str) -> Option<Self> {
        match (t, v) {
            (Ty::Map(k, x), Val::Map(vs)) => vs
                .iter()
                .map(|(a, b)| Some((K::fv(k, a, z)?, V::fv(x, b, z)?)))
                .collect::<Option<HashMap<K, V>>>()
                .map(MapOf),
            _ => None,
        }
    }
}
pub fn all<T: FromVal>(c: &Col, z: &str) -> Option<Vec<T>> {
    c.vals.iter().map(|v| T::fv(&c.ty, v, z)).collect()
}

/// Adds the column through the typed-vector constructors. Err(block) when there is none for the type.
pub fn add_typed(b: Block, c: &Col, z: &str, g: &mut Src) -> Result<Block, Block> {
    macro_rules! put {
        ($t:ty) => {
            match all::<$t>(c, z) {
                Some(v) => Ok(b.column(&c.name, v)),
                None => Err(b),
            }
        };
    }
    macro_rules! putv {
        ($t:ty) => {
            match all::<VecOf<$t>>(c, z) {
                Some(v) => Ok(b.column(&c.name, v.into_iter().map(|x| x.0).collect::<Vec<_>>())),
                None => Err(b),
            }
        };
    }
    macro_rules! putm {
        ($k:ty, $v:ty) => {
            match all::<MapOf<$k, $v>>(c, z) {
                Some(v) => Ok(b.column(&c.name, v.into_iter().map(|x| x.0).collect::<Vec<_>>())),
                None => Err(b),
            }
        };
    }
    match &c.ty {
        Ty::Bool => put!(bool),
        Ty::U(8) => put!(u8),
        Ty::U(16) => put!(u16),
        Ty::U(32) => put!(u32),
        Ty::U(64) => put!(u64),
        Ty::U(_) => put!(u128),
        Ty::I(8) => put!(i8),
        Ty::I(16) => put!(i16),
        Ty::I(32) => put!(i32),
        Ty::I(64) => put!(i64),
        Ty::I(_) => put!(i128),
        Ty::F32 => put!(f32),
        Ty::F64 => put!(f64),
        Ty::Str => {
            if g.bool() {
                match all::<String>(c, z) {
                    Some(v) => {
                        if g.bool() {
                            let r: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
                            return Ok(b.column(&c.name, r));
                        }
                        return Ok(b.column(&c.name, v));
                    }
                    None => {}
                }
            }
            let v = all::<Vec<u8>>(c, z).unwrap();
            if g.bool() {
                let r: Vec<&[u8]> = v.iter().map(|s| s.as_slice()).collect();
                return Ok(b.column(&c.name, r));
            }
            Err(b)
        }
        Ty::Date => put!(NaiveDate),
        Ty::DateTime(_) => put!(DateTime<Tz>),
        Ty::Ip4 => put!(Ipv4Addr),
        Ty::Ip6 => put!(Ipv6Addr),
        Ty::Uuid => put!(uuid::Uuid),
        Ty::Dec(18, _) => put!(Decimal),
        Ty::E8(_) => put!(Enum8),
        Ty::E16(_) => put!(Enum16),
        Ty::Null(t) => match &**t {
            Ty::Bool => put!(Option<bool>),
            Ty::U(8) => put!(Option<u8>),
            Ty::U(16) => put!(Option<u16>),
            Ty::U(32) => put!(Option<u32>),
            Ty::U(64) => put!(Option<u64>),
            Ty::U(_) => put!(Option<u128>),
            Ty::I(8) => put!(Option<i8>),
            Ty::I(16) => put!(Option<i16>),
            Ty::I(32) => put!(Option<i32>),
            Ty::I(64) => put!(Option<i64>),
            Ty::I(_) => put!(Option<i128>),
            Ty::F32 => put!(Option<f32>),
            Ty::F64 => put!(Option<f64>),
            Ty::Str => {
                if g.bool() {
                    match all::<Option<String>>(c, z) {
                        Some(v) => {
                            if g.bool() {
                                let r: Vec<Option<&str>> = v.iter().map(|s| s.as_deref()).collect();
                                return Ok(b.column(&c.name, r));
                            }
                            return Ok(b.column(&c.name, v));
                        }
                        None => {}
                    }
                }
                put!(Option<Vec<u8>>)
            }
            Ty::Date => put!(Option<NaiveDate>),
            Ty::DateTime(_) => put!(Option<DateTime<Tz>>),
            Ty::Ip4 => put!(Option<Ipv4Addr>),
            Ty::Ip6 => put!(Option<Ipv6Addr>),
            Ty::Uuid => put!(Option<uuid::Uuid>),
            Ty::Dec(18, _) => put!(Option<Decimal>),
            Ty::E8(_) => put!(Option<Enum8>),
            Ty::E16(_) => put!(Option<Enum16>),
            _ => Err(b),
        },
        Ty::Arr(t) => match &**t {
            Ty::U(8) => putv!(u8),
            Ty::U(16) => putv!(u16),
            Ty::U(32) => putv!(u32),
            Ty::U(64) => putv!(u64),
            Ty::I(8) => putv!(i8),
            Ty::I(16) => putv!(i16),
            Ty::I(32) => putv!(i32),
            Ty::I(64) => putv!(i64),
            Ty::F32 => putv!(f32),
            Ty::F64 => putv!(f64),
            Ty::U(_) => putv!(u128),
            Ty::I(_) => putv!(i128),
            Ty::Bool => putv!(bool),
            Ty::E8(_) => putv!(Enum8),
            Ty::E16(_) => putv!(Enum16),
            Ty::Str => {
                if g.bool() {
                    match all::<VecOf<String>>(c, z) {
                        Some(v) => {
                            let r: Vec<Vec<&str>> = v.iter().map(|x| x.0.iter().map(|s| s.as_str()).collect()).collect();
                            return Ok(b.column(&c.name, r));
                        }
                        None => return Err(b),
                    }
                }
                putv!(String)
            }
            Ty::Date => putv!(NaiveDate),
            Ty::DateTime(_) => putv!(DateTime<Tz>),
            _ => Err(b),
        },
        Ty::Map(k, v) => match (&**k, &**v) {
            (Ty::Str, Ty::U(8)) => putm!(String, u8),
            (Ty::Str, Ty::I(64)) => putm!(String, i64),
            (Ty::Str, Ty::F64) => putm!(String, f64),
            (Ty::U(8), Ty::U(8)) => putm!(u8, u8),
            (Ty::I(32), Ty::I(32)) => putm!(i32, i32),
            (Ty::U(64), Ty::F64) => putm!(u64, f64),
            _ => Err(b),
        },
        _ => Err(b),
    }
}

/// one row as the client's row type
pub fn row_of(b: &Blk, i: usize, z: &str) -> Vec<(String, Value)> {
    b.cols.iter().map(|c| (c.name.clone(), to_value(&c.ty, &c.vals[i], z))).collect()
}

// ------------------------------------------------------------------ typed cell access
pub trait Same {
    fn same(&self, o: &Self) -> bool;
}
macro_rules! same_eq {
    ($($t:ty),*) => { $( impl Same for $t { fn same(&self, o: &Self) -> bool { self == o } } )* };
}
same_eq!(bool, u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, String, NaiveDate, Ipv4Addr, Ipv6Addr, uuid::Uuid);
impl Same for f32 {
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl Same for f64 {
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl Same for Decimal {
    fn same(&self, o: &Self) -> bool {
        self.internal::<i64>() == o.internal::<i64>() && self.scale() == o.scale()
    }
}
impl Same for Enum8 {
    fn same(&self, o: &Self) -> bool {
        self.internal() == o.internal()
    }
}
impl Same for Enum16 {
    fn same(&self, o: &Self) -> bool {
        self.internal() == o.internal()
    }
}
impl Same for DateTime<Tz> {
    fn same(&self, o: &Self) -> bool {
        self.timestamp() == o.timestamp()
            && self.timestamp_subsec_nanos() == o.timestamp_subsec_nanos()
            && self.timezone() == o.timezone()
    }
}
impl<T: Same> Same for Option<T> {
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(b),
            _ => false,
        }
    }
}
impl<T: Same> Same for Vec<T> {
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b))
    }
}
impl<K: std::hash::Hash + Eq, V: Same> Same for HashMap<K, V> {
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).map(|w| v.same(w)).unwrap_or(false))
    }
}
/// model value -> the natural Rust value for cell access (also through dictionary and aggregate types)
pub trait Nat: Sized {
    fn fits(t: &Ty) -> bool;
    fn nat(t: &Ty, v: &Val, z: &str) -> Option<Self>;
}
macro_rules! nat_fv {
    ($($t:ty: $p:pat),*) => { $( impl Nat for $t {
        fn fits(t: &Ty) -> bool {
            match t { Ty::Lc(t) | Ty::Agg(_, t) => <$t as Nat>::fits(t), $p => true, _ => false }
        }
        fn nat(t: &Ty, v: &Val, z: &str) -> Option<Self> {
            if !Self::fits(t) { return None; }
            match t { Ty::Lc(t) | Ty::Agg(_, t) => <$t as Nat>::nat(t, v, z), t => <$t as FromVal>::fv(t, v, z) }
        }
    } )* };
}
nat_fv!(
    bool: Ty::Bool, u8: Ty::U(8), u16: Ty::U(16), u32: Ty::U(32), u64: Ty::U(64), u128: Ty::U(128), i8: Ty::I(8),
    i16: Ty::I(16), i32: Ty::I(32), i64: Ty::I(64), i128: Ty::I(128), f32: Ty::F32, f64: Ty::F64,
    String: Ty::Str | Ty::Fixed(_), NaiveDate: Ty::Date, DateTime<Tz>: Ty::DateTime(_) | Ty::DT64(..), Ipv4Addr: Ty::Ip4,
    Ipv6Addr: Ty::Ip6, uuid::Uuid: Ty::Uuid, Decimal: Ty::Dec(..), Enum8: Ty::E8(_), Enum16: Ty::E16(_)
);
impl<T: Nat> Nat for Option<T> {
    fn fits(t: &Ty) -> bool {
        match t {
            Ty::Agg(_, t) => Self::fits(t),
            Ty::Null(t) => T::fits(t),
            _ => false,
        }
    }
    fn nat(t: &Ty, v: &Val, z: &str) -> Option<Self> {
        match (t, v) {
            (Ty::Agg(_, t), v) => Self::nat(t, v, z),
            (Ty::Null(t), Val::Null) if T::fits(t) => Some(None),
            (Ty::Null(t), v) => T::nat(t, v, z).map(Some),
            _ => None,
        }
    }
}
/// byte strings
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Bytes(pub Vec<u8>);
impl Nat for Bytes {
    fn fits(t: &Ty) -> bool {
        match t {
            Ty::Lc(t) | Ty::Agg(_, t) => Bytes::fits(t),
            Ty::Str | Ty::Fixed(_) => true,
            _ => false,
        }
    }
    fn nat(t: &Ty, v: &Val, z: &str) -> Option<Self> {
        match (t, v) {
            (Ty::Lc(t), v) | (Ty::Agg(_, t), v) => Bytes::nat(t, v, z),
            (Ty::Str, Val::Str(b)) | (Ty::Fixed(_), Val::Str(b)) => Some(Bytes(b.clone())),
            _ => None,
        }
    }
}
impl Same for Bytes {
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<'a> clickhouse_rs::types::FromSql<'a> for Bytes {
    fn from_sql(v: clickhouse_rs::types::ValueRef<'a>) -> clickhouse_rs::types::FromSqlResult<Self> {
        <&[u8] as clickhouse_rs::types::FromSql>::from_sql(v).map(|b| Bytes(b.to_vec()))
    }
}
impl<T: Nat> Nat for Vec<T> {
    fn fits(t: &Ty) -> bool {
        match t {
            Ty::Agg(_, t) => Self::fits(t),
            Ty::Arr(t) => T::fits(t),
            _ => false,
        }
    }
    fn nat(t: &Ty, v: &Val, z: &str) -> Option<Self> {
        match (t, v) {
            (Ty::Agg(_, t), v) => Self::nat(t, v, z),
            // typed vectors are offered for strings, not for fixed strings
            (Ty::Arr(t), Val::Arr(vs)) if T::fits(t) && !matches!(**t, Ty::Fixed(_)) => {
                vs.iter().map(|v| T::nat(t, v, z)).collect()
            }
            _ => None,
        }
    }
}
impl<K: Nat + std::hash::Hash + Eq, V: Nat> Nat for HashMap<K, V> {
    fn fits(t: &Ty) -> bool {
        match t {
            Ty::Agg(_, t) => Self::fits(t),
            Ty::Map(k, v) => K::fits(k) && V::fits(v),
            _ => false,
        }
    }
    fn nat(t: &Ty, v: &Val, z: &str) -> Option<Self> {
        match (t, v) {
            (Ty::Agg(_, t), v) => Self::nat(t, v, z),
            (Ty::Map(k, x), Val::Map(vs)) if Self::fits(t) => vs.iter().map(|(a, b)| Some((K::nat(k, a, z)?, V::nat(x, b, z)?))).collect(),
            _ => None,
        }
    }
}
/// Reads cell (row, col) with every natural Rust type for the column's type.
/// Ok(number of typed reads) or the first difference.
pub fn typed_cell<K: clickhouse_rs::types::ColumnType>(
    b: &Block<K>,
    row: usize,
    col: usize,
    t: &Ty,
    v: &Val,
    z: &str,
) -> Result<usize, String> {
    let k = (t.clone(), v.clone(), z.to_string());
    CELL.with(|c| c.set(&k));
    b.get::<All, _>(row, col).map_err(|e| format!("{e}"))?.0.map_err(|e| format!("cell ({row},{col}) of {e}"))
}
thread_local! {
    static CELL: std::cell::Cell<*const (Ty, Val, String)> = const { std::cell::Cell::new(std::ptr::null()) };
}
/// reads a cell with all the Rust types at once
struct All(Result<usize, String>);
impl<'a> FromSql<'a> for All {
    fn from_sql(v: ValueRef<'a>) -> clickhouse_rs::types::FromSqlResult<Self> {
        let c = unsafe { &*CELL.with(|c| c.get()) };
        Ok(All(all_types(v, &c.0, &c.1, &c.2)))
    }
}
fn all_types(cell: ValueRef, t: &Ty, v: &Val, z: &str) -> Result<usize, String> {
    let mut n = 0;
    macro_rules! t {
        ($t:ty) => {
            if let Some(want) = <$t as Nat>::nat(t, v, z) {
                n += 1;
                match <$t as FromSql>::from_sql(cell.clone()) {
                    Ok(x) if x.same(&want) => {}
                    Ok(x) => {
                        return Err(format!(
                            "{} read as {}: got {:?}, expected {:?}",
                            t.name(),
                            stringify!($t),
                            x,
                            want
                        ))
                    }
                    Err(e) => {
                        return Err(format!(
                            "{} read as {}: error {e}, expected {:?}",
                            t.name(),
                            stringify!($t),
                            want
                        ))
                    }
                }
            }
        };
    }
    macro_rules! all_t {
        ($($t:ty),*) => { $( t!($t); t!(Option<$t>); )* };
    }
    all_t!(
        bool, u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, String, Bytes, NaiveDate, DateTime<Tz>, Ipv4Addr,
        Ipv6Addr, uuid::Uuid, Decimal, Enum8, Enum16
    );
    macro_rules! vec_t {
        ($($t:ty),*) => { $( t!(Vec<$t>); )* };
    }
    vec_t!(bool, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, String, NaiveDate, DateTime<Tz>, Enum8, Enum16);
    // Vec<u8> doubles as bytes of a string
    if let (Ty::Arr(e), Val::Arr(_)) = (t, v) {
        if **e == Ty::U(8) {
            t!(Vec<u8>);
        }
    }
    if matches!(t, Ty::Str | Ty::Fixed(_)) {
        n += 1;
        let want = Bytes::nat(t, v, z).unwrap().0;
        match <Vec<u8> as FromSql>::from_sql(cell.clone()) {
            Ok(x) if x == want => {}
            r => return Err(format!("{} as Vec<u8>: {r:?}, expected {want:?}", t.name())),
        }
    }
    if let (Ty::Map(..), _) | (Ty::Agg(..), _) = (t, v) {
        macro_rules! maps {
            ($k:ty: $($t:ty),*) => { $( t!(HashMap<$k, $t>); t!(HashMap<$k, Option<$t>>); )* };
        }
        maps!(String: u8, u64, i32, i64, f64, String, NaiveDate, uuid::Uuid, Bytes);
        maps!(u8: u8, u64, i32, String);
        maps!(u64: u8, u64, i32, String, f32);
        maps!(i32: u8, u64, i32, String);
        maps!(i64: u8, u64, i64, String);
        t!(HashMap<String, Vec<i32>>);
        t!(HashMap<String, Vec<String>>);
        t!(HashMap<String, HashMap<String, u64>>);
    }
    Ok(n)
}
