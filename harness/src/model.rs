//! Reference model of ClickHouse columns: types, values, type-name grammar and native encoding.

use crate::gen::Src;
use crate::wire::*;
use chrono_tz::Tz;
use clickhouse_rs::types::{
    DateTimeType, Decimal, Enum16, Enum8, FromSql, FromSqlResult, SimpleAggFunc, SqlType, Value, ValueRef,
};
use either::Either;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Ty {
    Bool,
    U(u32),
    I(u32),
    F32,
    F64,
    Str,
    Fixed(usize),
    Date,
    DateTime(Option<String>),
    DT64(u32, Option<String>),
    Ip4,
    Ip6,
    Uuid,
    Dec(u8, u8),
    E8(Vec<(String, i8)>),
    E16(Vec<(String, i16)>),
    Null(Box<Ty>),
    Arr(Box<Ty>),
    Lc(Box<Ty>),
    Agg(String, Box<Ty>),
    Map(Box<Ty>, Box<Ty>),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Val {
    Bool(bool),
    U(u128),
    I(i128),
    F32(u32),
    F64(u64),
    Str(Vec<u8>),
    Date(u16),
    DateTime(u32),
    DT64(i64),
    Ip4([u8; 4]),
    Ip6([u8; 16]),
    Uuid([u8; 16]),
    Dec(i64),
    E8(i8),
    E16(i16),
    Null,
    Arr(Vec<Val>),
    Map(Vec<(Val, Val)>),
}

pub const TZS: &[&str] = &[
    "UTC",
    "Europe/Moscow",
    "America/New_York",
    "Asia/Kolkata",
    "Pacific/Auckland",
    "America/St_Johns",
    "Asia/Kathmandu",
    "Pacific/Apia",
    "Etc/GMT+12",
    "Etc/GMT-14",
    "Africa/Monrovia",
    "Australia/Lord_Howe",
    "America/Los_Angeles",
    "Zulu",
];
pub const AGGS: &[&str] = &[
    "any",
    "anyLast",
    "min",
    "max",
    "sum",
    "sumWithOverflow",
    "groupBitAnd",
    "groupBitOr",
    "groupBitXor",
    "groupArrayArray",
    "groupUniqArrayArray",
    "sumMap",
    "minMap",
    "maxMap",
    "argMin",
    "argMax",
];

pub fn quote(s: &str) -> String {
    let mut o = String::from("'");
    for c in s.chars() {
        if c == '\'' || c == '\\' {
            o.push('\\');
        }
        o.push(c);
    }
    o.push('\'');
    o
}

impl Ty {
    /// canonical ClickHouse spelling
    pub fn name(&self) -> String {
        match self {
            Ty::Bool => "Bool".into(),
            Ty::U(b) => format!("UInt{b}"),
            Ty::I(b) => format!("Int{b}"),
            Ty::F32 => "Float32".into(),
            Ty::F64 => "Float64".into(),
            Ty::Str => "String".into(),
            Ty::Fixed(n) => format!("FixedString({n})"),
            Ty::Date => "Date".into(),
            Ty::DateTime(None) => "DateTime".into(),
            Ty::DateTime(Some(z)) => format!("DateTime('{z}')"),
            Ty::DT64(p, None) => format!("DateTime64({p})"),
            Ty::DT64(p, Some(z)) => format!("DateTime64({p}, '{z}')"),
            Ty::Ip4 => "IPv4".into(),
            Ty::Ip6 => "IPv6".into(),
            Ty::Uuid => "UUID".into(),
            Ty::Dec(p, s) => format!("Decimal({p}, {s})"),
            Ty::E8(v) => {
                let a: Vec<_> = v.iter().map(|(n, x)| format!("{} = {}", quote(n), x)).collect();
                format!("Enum8({})", a.join(", "))
            }
            Ty::E16(v) => {
                let a: Vec<_> = v.iter().map(|(n, x)| format!("{} = {}", quote(n), x)).collect();
                format!("Enum16({})", a.join(", "))
            }
            Ty::Null(t) => format!("Nullable({})", t.name()),
            Ty::Arr(t) => format!("Array({})", t.name()),
            Ty::Lc(t) => format!("LowCardinality({})", t.name()),
            Ty::Agg(f, t) => format!("SimpleAggregateFunction({f}, {})", t.name()),
            Ty::Map(k, v) => format!("Map({}, {})", k.name(), v.name()),
        }
    }
    /// what the client can tell about the type: DateTime carries no zone, DateTime64 always does
    pub fn norm(&self, server_tz: &str) -> Ty {
        match self {
            Ty::DateTime(_) => Ty::DateTime(None),
            Ty::DT64(p, z) => Ty::DT64(*p, Some(z.clone().unwrap_or(server_tz.into()))),
            Ty::Null(t) => Ty::Null(Box::new(t.norm(server_tz))),
            Ty::Arr(t) => Ty::Arr(Box::new(t.norm(server_tz))),
            Ty::Lc(t) => Ty::Lc(Box::new(t.norm(server_tz))),
            Ty::Agg(f, t) => Ty::Agg(f.clone(), Box::new(t.norm(server_tz))),
            Ty::Map(k, v) => Ty::Map(Box::new(k.norm(server_tz)), Box::new(v.norm(server_tz))),
            t => t.clone(),
        }
    }
    pub fn any(&self, f: &mut dyn FnMut(&Ty) -> bool) -> bool {
        if f(self) {
            return true;
        }
        match self {
            Ty::Null(t) | Ty::Arr(t) | Ty::Lc(t) | Ty::Agg(_, t) => t.any(f),
            Ty::Map(k, v) => k.any(f) || v.any(f),
            _ => false,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Ty::Null(t) | Ty::Arr(t) | Ty::Lc(t) | Ty::Agg(_, t) => 1 + t.depth(),
            Ty::Map(k, v) => 1 + k.depth().max(v.depth()),
            _ => 0,
        }
    }
}

// ------------------------------------------------------------------ type-name parser
struct P<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn ch(&mut self, c: u8) -> Result<(), String> {
        self.ws();
        if self.s.get(self.i) == Some(&c) {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected {:?} at {}", c as char, self.i))
        }
    }
    fn peek(&mut self, c: u8) -> bool {
        self.ws();
        self.s.get(self.i) == Some(&c)
    }
    fn word(&mut self) -> String {
        self.ws();
        let b = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_') {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[b..self.i]).into_owned()
    }
    fn int(&mut self) -> Result<i64, String> {
        self.ws();
        let b = self.i;
        if self.s.get(self.i) == Some(&b'-') {
            self.i += 1;
        }
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[b..self.i])
            .unwrap()
            .parse()
            .map_err(|e| format!("int: {e}"))
    }
    fn quoted(&mut self) -> Result<String, String> {
        self.ch(b'\'')?;
        let mut out = vec![];
        loop {
            match self.s.get(self.i) {
                None => return Err("unterminated string".into()),
                Some(b'\'') => {
                    self.i += 1;
                    break;
                }
                Some(b'\\') => {
                    let c = *self.s.get(self.i + 1).ok_or("escape")?;
                    out.push(match c {
                        b'n' => b'\n',
                        b't' => b'\t',
                        b'r' => b'\r',
                        b'0' => 0,
                        c => c,
                    });
                    self.i += 2;
                }
                Some(c) => {
                    out.push(*c);
                    self.i += 1;
                }
            }
        }
        String::from_utf8(out).map_err(|e| e.to_string())
    }
    fn ty(&mut self) -> Result<Ty, String> {
        let w = self.word();
        let t = match w.as_str() {
            "Bool" => Ty::Bool,
            "UInt8" => Ty::U(8),
            "UInt16" => Ty::U(16),
            "UInt32" => Ty::U(32),
            "UInt64" => Ty::U(64),
            "UInt128" => Ty::U(128),
            "Int8" => Ty::I(8),
            "Int16" => Ty::I(16),
            "Int32" => Ty::I(32),
            "Int64" => Ty::I(64),
            "Int128" => Ty::I(128),
            "Float32" => Ty::F32,
            "Float64" => Ty::F64,
            "String" => Ty::Str,
            "Date" => Ty::Date,
            "IPv4" => Ty::Ip4,
            "IPv6" => Ty::Ip6,
            "UUID" => Ty::Uuid,
            "FixedString" => {
                self.ch(b'(')?;
                let n = self.int()?;
                self.ch(b')')?;
                Ty::Fixed(n as usize)
            }
            "DateTime" => {
                if self.peek(b'(') {
                    self.ch(b'(')?;
                    let z = self.quoted()?;
                    self.ch(b')')?;
                    Ty::DateTime(Some(z))
                } else {
                    Ty::DateTime(None)
                }
            }
            "DateTime64" => {
                self.ch(b'(')?;
                let p = self.int()?;
                let z = if self.peek(b',') {
                    self.ch(b',')?;
                    Some(self.quoted()?)
                } else {
                    None
                };
                self.ch(b')')?;
                Ty::DT64(p as u32, z)
            }
            "Decimal" => {
                self.ch(b'(')?;
                let p = self.int()?;
                self.ch(b',')?;
                let s = self.int()?;
                self.ch(b')')?;
                Ty::Dec(p as u8, s as u8)
            }
            "Enum8" | "Enum16" => {
                self.ch(b'(')?;
                let mut v = vec![];
                if !self.peek(b')') {
                    loop {
                        let n = self.quoted()?;
                        self.ch(b'=')?;
                        v.push((n, self.int()?));
                        if self.peek(b',') {
                            self.ch(b',')?;
                        } else {
                            break;
                        }
                    }
                }
                self.ch(b')')?;
                if w == "Enum8" {
                    Ty::E8(v.into_iter().map(|(n, x)| (n, x as i8)).collect())
                } else {
                    Ty::E16(v.into_iter().map(|(n, x)| (n, x as i16)).collect())
                }
            }
            "Nullable" | "Array" | "LowCardinality" => {
                self.ch(b'(')?;
                let t = Box::new(self.ty()?);
                self.ch(b')')?;
                match w.as_str() {
                    "Nullable" => Ty::Null(t),
                    "Array" => Ty::Arr(t),
                    _ => Ty::Lc(t),
                }
            }
            "Map" => {
                self.ch(b'(')?;
                let k = Box::new(self.ty()?);
                self.ch(b',')?;
                let v = Box::new(self.ty()?);
                self.ch(b')')?;
                Ty::Map(k, v)
            }
            "SimpleAggregateFunction" => {
                self.ch(b'(')?;
                let f = self.word();
                self.ch(b',')?;
                let t = Box::new(self.ty()?);
                self.ch(b')')?;
                Ty::Agg(f, t)
            }
            _ => return Err(format!("unknown type {w:?}")),
        };
        Ok(t)
    }
}
pub fn parse_ty(s: &str) -> Result<Ty, String> {
    let mut p = P { s: s.as_bytes(), i: 0 };
    let t = p.ty()?;
    p.ws();
    if p.i != s.len() {
        return Err(format!("trailing text in type name {s:?}"));
    }
    Ok(t)
}

// ------------------------------------------------------------------ native encoding
#[derive(Clone, Default)]
pub struct EncOpts {
    /// index width override for LowCardinality (0..=3), and extra unused dictionary entries
    pub lc_width: u64,
    pub lc_extra: u64,
    /// bytes written under NULLs: false = default value, true = arbitrary bits
    pub junk_under_null: bool,
}

pub fn default_val(t: &Ty) -> Val {
    match t {
        Ty::Bool => Val::Bool(false),
        Ty::U(_) => Val::U(0),
        Ty::I(_) => Val::I(0),
        Ty::F32 => Val::F32(0),
        Ty::F64 => Val::F64(0),
        Ty::Str => Val::Str(vec![]),
        Ty::Fixed(n) => Val::Str(vec![0; *n]),
        Ty::Date => Val::Date(0),
        Ty::DateTime(_) => Val::DateTime(0),
        Ty::DT64(..) => Val::DT64(0),
        Ty::Ip4 => Val::Ip4([0; 4]),
        Ty::Ip6 => Val::Ip6([0; 16]),
        Ty::Uuid => Val::Uuid([0; 16]),
        Ty::Dec(..) => Val::Dec(0),
        Ty::E8(v) => Val::E8(v.first().map(|x| x.1).unwrap_or(0)),
        Ty::E16(v) => Val::E16(v.first().map(|x| x.1).unwrap_or(0)),
        Ty::Null(_) => Val::Null,
        Ty::Arr(_) => Val::Arr(vec![]),
        Ty::Map(..) => Val::Map(vec![]),
        Ty::Lc(t) | Ty::Agg(_, t) => default_val(t),
    }
}

pub fn enc_col(w: &mut W, t: &Ty, vs: &[Val], o: &EncOpts) {
    match t {
        Ty::Null(inner) => {
            for v in vs {
                w.u8(matches!(v, Val::Null) as u8);
            }
            let d = default_val(inner);
            let junk = match (&**inner, o.junk_under_null) {
                (Ty::U(8), true) => Some(Val::U(77)),
                (Ty::U(_), true) => Some(Val::U(200)),
                (Ty::I(_), true) => Some(Val::I(-3)),
                (Ty::Str, true) => Some(Val::Str(b"junk".to_vec())),
                _ => None,
            };
            let d = junk.unwrap_or(d);
            let inner_vs: Vec<Val> = vs
                .iter()
                .map(|v| if let Val::Null = v { d.clone() } else { v.clone() })
                .collect();
            enc_col(w, inner, &inner_vs, o);
        }
        Ty::Arr(inner) => {
            let mut off = 0u64;
            let mut flat = vec![];
            for v in vs {
                let Val::Arr(a) = v else { panic!("model: array") };
                off += a.len() as u64;
                w.u64(off);
                flat.extend(a.iter().cloned());
            }
            enc_col(w, inner, &flat, o);
        }
        Ty::Map(k, v) => {
            let mut off = 0u64;
            let (mut ks, mut xs) = (vec![], vec![]);
            for m in vs {
                let Val::Map(m) = m else { panic!("model: map") };
                off += m.len() as u64;
                w.u64(off);
                for (a, b) in m {
                    ks.push(a.clone());
                    xs.push(b.clone());
                }
            }
            enc_col(w, k, &ks, o);
            enc_col(w, v, &xs, o);
        }
        Ty::Agg(_, t) => enc_col(w, t, vs, o),
        Ty::Lc(inner) => {
            if vs.is_empty() {
                return;
            }
            let mut dict: Vec<Val> = vec![default_val(inner)];
            for _ in 0..o.lc_extra {
                dict.push(default_val(inner));
            }
            let mut map: HashMap<Vec<u8>, u64> = HashMap::new();
            let key = |v: &Val| format!("{v:?}").into_bytes();
            map.insert(key(&dict[0]), 0);
            let mut idx = vec![];
            for v in vs {
                let n = dict.len() as u64;
                let i = *map.entry(key(v)).or_insert_with(|| {
                    dict.push(v.clone());
                    n
                });
                idx.push(i);
            }
            let mut width = match dict.len() {
                0..=0x100 => 0,
                0x101..=0x1_0000 => 1,
                _ => 2,
            };
            width = width.max(o.lc_width);
            w.u64(1);
            w.u64(width | 0x600);
            w.u64(dict.len() as u64);
            enc_col(w, inner, &dict, o);
            w.u64(vs.len() as u64);
            for i in idx {
                w.bytes(&i.to_le_bytes()[..1 << width]);
            }
        }
        _ => {
            for v in vs {
                enc_scalar(w, t, v);
            }
        }
    }
}
fn enc_scalar(w: &mut W, t: &Ty, v: &Val) {
    match (t, v) {
        (Ty::Bool, Val::Bool(b)) => {
            w.u8(*b as u8);
        }
        (Ty::U(b), Val::U(x)) => {
            w.bytes(&x.to_le_bytes()[..*b as usize / 8]);
        }
        (Ty::I(b), Val::I(x)) => {
            w.bytes(&x.to_le_bytes()[..*b as usize / 8]);
        }
        (Ty::F32, Val::F32(x)) => {
            w.u32(*x);
        }
        (Ty::F64, Val::F64(x)) => {
            w.u64(*x);
        }
        (Ty::Str, Val::Str(s)) => {
            w.str(s);
        }
        (Ty::Fixed(n), Val::Str(s)) => {
            assert_eq!(s.len(), *n);
            w.bytes(s);
        }
        (Ty::Date, Val::Date(d)) => {
            w.bytes(&d.to_le_bytes());
        }
        (Ty::DateTime(_), Val::DateTime(d)) => {
            w.u32(*d);
        }
        (Ty::DT64(..), Val::DT64(d)) => {
            w.bytes(&d.to_le_bytes());
        }
        (Ty::Ip4, Val::Ip4(a)) => {
            w.u32(u32::from_be_bytes(*a));
        }
        (Ty::Ip6, Val::Ip6(a)) => {
            w.bytes(a);
        }
        (Ty::Uuid, Val::Uuid(a)) => {
            w.u64(u64::from_be_bytes(a[..8].try_into().unwrap()));
            w.u64(u64::from_be_bytes(a[8..].try_into().unwrap()));
        }
        (Ty::Dec(p, _), Val::Dec(x)) => {
            if *p <= 9 {
                w.i32(*x as i32);
            } else {
                w.bytes(&x.to_le_bytes());
            }
        }
        (Ty::E8(_), Val::E8(x)) => {
            w.u8(*x as u8);
        }
        (Ty::E16(_), Val::E16(x)) => {
            w.bytes(&x.to_le_bytes());
        }
        _ => panic!("model: {t:?} / {v:?}"),
    }
}

pub fn dec_col(r: &mut R, t: &Ty, n: usize) -> RRes<Vec<Val>> {
    if n > 1 << 26 {
        return bad("row count");
    }
    match t {
        Ty::Null(inner) => {
            let nulls = r.take(n)?.to_vec();
            if nulls.iter().any(|b| *b > 1) {
                return bad("null map byte is neither 0 nor 1");
            }
            let vs = dec_col(r, inner, n)?;
            Ok(vs
                .into_iter()
                .zip(nulls)
                .map(|(v, z)| if z == 1 { Val::Null } else { v })
                .collect())
        }
        Ty::Arr(inner) => {
            let offs = dec_offsets(r, n)?;
            let total = offs.last().copied().unwrap_or(0);
            let flat = dec_col(r, inner, total)?;
            Ok(split(flat, &offs).into_iter().map(Val::Arr).collect())
        }
        Ty::Map(k, v) => {
            let offs = dec_offsets(r, n)?;
            let total = offs.last().copied().unwrap_or(0);
            let ks = dec_col(r, k, total)?;
            let vs = dec_col(r, v, total)?;
            let flat: Vec<(Val, Val)> = ks.into_iter().zip(vs).collect();
            Ok(split(flat, &offs).into_iter().map(Val::Map).collect())
        }
        Ty::Agg(_, t) => dec_col(r, t, n),
        Ty::Lc(inner) => {
            if n == 0 {
                return Ok(vec![]);
            }
            let ver = r.u64()?;
            if ver != 1 {
                return bad(format!("LowCardinality version {ver}"));
            }
            let flags = r.u64()?;
            let width = flags & 0xff;
            if width > 3 || flags & 0x100 != 0 || flags & 0x200 == 0 {
                return bad(format!("LowCardinality flags {flags:#x}"));
            }
            let dn = r.u64()? as usize;
            let dict = dec_col(r, inner, dn)?;
            let rows = r.u64()? as usize;
            if rows != n {
                return bad(format!("LowCardinality rows {rows} != {n}"));
            }
            let mut out = Vec::with_capacity(n);
            for _ in 0..n {
                let b = r.take(1 << width)?;
                let mut x = [0u8; 8];
                x[..b.len()].copy_from_slice(b);
                let i = u64::from_le_bytes(x) as usize;
                match dict.get(i) {
                    Some(v) => out.push(v.clone()),
                    None => return bad(format!("LowCardinality index {i} of {dn}")),
                }
            }
            Ok(out)
        }
        _ => {
            let mut out = Vec::with_capacity(n);
            for _ in 0..n {
                out.push(dec_scalar(r, t)?);
            }
            Ok(out)
        }
    }
}
fn dec_offsets(r: &mut R, n: usize) -> RRes<Vec<usize>> {
    let mut out = Vec::with_capacity(n);
    let mut prev = 0;
    for _ in 0..n {
        let o = r.u64()? as usize;
        if o < prev || o > 1 << 28 {
            return bad(format!("offset {o} after {prev}"));
        }
        prev = o;
        out.push(o);
    }
    Ok(out)
}
fn split<T>(flat: Vec<T>, offs: &[usize]) -> Vec<Vec<T>> {
    let mut it = flat.into_iter();
    let mut prev = 0;
    offs.iter()
        .map(|o| {
            let k = o - prev;
            prev = *o;
            it.by_ref().take(k).collect()
        })
        .collect()
}
fn dec_scalar(r: &mut R, t: &Ty) -> RRes<Val> {
    Ok(match t {
        Ty::Bool => match r.u8()? {
            0 => Val::Bool(false),
            1 => Val::Bool(true),
            x => return bad(format!("bool byte {x}")),
        },
        Ty::U(b) => {
            let s = r.take(*b as usize / 8)?;
            let mut x = [0u8; 16];
            x[..s.len()].copy_from_slice(s);
            Val::U(u128::from_le_bytes(x))
        }
        Ty::I(b) => {
            let s = r.take(*b as usize / 8)?;
            let mut x = [if s[s.len() - 1] & 0x80 != 0 { 0xff } else { 0 }; 16];
            x[..s.len()].copy_from_slice(s);
            Val::I(i128::from_le_bytes(x))
        }
        Ty::F32 => Val::F32(r.u32()?),
        Ty::F64 => Val::F64(r.u64()?),
        Ty::Str => Val::Str(r.str()?),
        Ty::Fixed(n) => Val::Str(r.take(*n)?.to_vec()),
        Ty::Date => Val::Date(u16::from_le_bytes(r.take(2)?.try_into().unwrap())),
        Ty::DateTime(_) => Val::DateTime(r.u32()?),
        Ty::DT64(..) => Val::DT64(r.u64()? as i64),
        Ty::Ip4 => Val::Ip4(r.u32()?.to_be_bytes()),
        Ty::Ip6 => Val::Ip6(r.take(16)?.try_into().unwrap()),
        Ty::Uuid => {
            let a = r.u64()?.to_be_bytes();
            let b = r.u64()?.to_be_bytes();
            let mut x = [0; 16];
            x[..8].copy_from_slice(&a);
            x[8..].copy_from_slice(&b);
            Val::Uuid(x)
        }
        Ty::Dec(p, _) => {
            if *p <= 9 {
                Val::Dec(r.i32()? as i64)
            } else {
                Val::Dec(r.u64()? as i64)
            }
        }
        Ty::E8(_) => Val::E8(r.u8()? as i8),
        Ty::E16(_) => Val::E16(i16::from_le_bytes(r.take(2)?.try_into().unwrap())),
        _ => unreachable!(),
    })
}

// ------------------------------------------------------------------ blocks
#[derive(Clone, Debug, PartialEq)]
pub struct Col {
    pub name: String,
    pub ty: Ty,
    pub vals: Vec<Val>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Blk {
    pub cols: Vec<Col>,
}
impl Blk {
    pub fn rows(&self) -> usize {
        self.cols.first().map(|c| c.vals.len()).unwrap_or(0)
    }
    pub fn header(&self) -> Blk {
        self.slice(0, 0)
    }
    pub fn slice(&self, a: usize, b: usize) -> Blk {
        Blk {
            cols: self
                .cols
                .iter()
                .map(|c| Col {
                    name: c.name.clone(),
                    ty: c.ty.clone(),
                    vals: c.vals[a..b].to_vec(),
                })
                .collect(),
        }
    }
    pub fn encode(&self, o: &EncOpts) -> Vec<u8> {
        self.encode_named(o, &mut |t| t.name())
    }
    pub fn encode_named(&self, o: &EncOpts, name: &mut dyn FnMut(&Ty) -> String) -> Vec<u8> {
        let mut w = W::new();
        w.uv(1).u8(0).uv(2).i32(-1).uv(0);
        w.uv(self.cols.len() as u64).uv(self.rows() as u64);
        for c in &self.cols {
            w.str(c.name.as_bytes());
            w.str(name(&c.ty).as_bytes());
            enc_col(&mut w, &c.ty, &c.vals, o);
        }
        w.0
    }
    pub fn decode(r: &mut R) -> RRes<Blk> {
        // info
        loop {
            match r.uv()? {
                0 => break,
                1 => {
                    let b = r.u8()?;
                    if b > 1 {
                        return bad("is_overflows");
                    }
                }
                2 => {
                    r.i32()?;
                }
                x => return bad(format!("block info field {x}")),
            }
        }
        let nc = r.uv()? as usize;
        let nr = r.uv()? as usize;
        if nc > 10000 {
            return bad("column count");
        }
        let mut cols = vec![];
        for _ in 0..nc {
            let name = r.string()?;
            let tn = r.string()?;
            let ty = match parse_ty(&tn) {
                Ok(t) => t,
                Err(e) => return bad(format!("type name {tn:?}: {e}")),
            };
            let vals = dec_col(r, &ty, nr)?;
            cols.push(Col { name, ty, vals });
        }
        if nc == 0 && nr != 0 {
            return bad("rows without columns");
        }
        Ok(Blk { cols })
    }
}

// ------------------------------------------------------------------ generators
pub struct TyCfg {
    pub nested: bool,
    pub lc: bool,
    pub agg: bool,
    pub map: bool,
    pub fixed: bool,
    pub wide_map_keys: bool,
    /// enum names may contain quotes and backslashes
    pub odd_enum: bool,
}
impl TyCfg {
    pub fn server() -> Self {
        TyCfg {
            nested: true,
            lc: true,
            agg: true,
            map: true,
            fixed: true,
            wide_map_keys: true,
            odd_enum: true,
        }
    }
    /// types a user can build from values
    pub fn client() -> Self {
        TyCfg {
            lc: false,
            agg: false,
            fixed: false,
            ..Self::server()
        }
    }
}

pub fn gen_tz(g: &mut Src) -> String {
    g.pick(TZS).to_string()
}
pub fn gen_enum_name(g: &mut Src, odd: bool) -> String {
    const A: &[char] = &['a', 'b', 'z', '_', ' ', '&', ',', '=', '(', ')', 'é', '中', '-', '1'];
    const B: &[char] = &['\'', '\\', '"'];
    let n = g.usize(0, 6);
    (0..n)
        .map(|_| if odd && g.chance(1, 6) { *g.pick(B) } else { *g.pick(A) })
        .collect()
}

pub fn gen_scalar_ty(g: &mut Src, c: &TyCfg) -> Ty {
    loop {
        return match g.below(21) {
            0 => Ty::U(8),
            1 => Ty::I(32),
            2 => Ty::Str,
            3 => Ty::U(*g.pick(&[16, 32, 64, 128])),
            4 => Ty::I(*g.pick(&[8, 16, 64, 128])),
            5 => Ty::F32,
            6 => Ty::F64,
            7 => Ty::Bool,
            8 => {
                if !c.fixed {
                    continue;
                }
                Ty::Fixed(if g.chance(1, 12) { g.usize(21, 300) } else { g.usize(1, 20) })
            }
            9 => Ty::Date,
            10 => {
                if g.bool() {
                    Ty::DateTime(None)
                } else {
                    Ty::DateTime(Some(gen_tz(g)))
                }
            }
            11 | 12 => {
                let p = g.below(10) as u32;
                if g.bool() {
                    Ty::DT64(p, None)
                } else {
                    Ty::DT64(p, Some(gen_tz(g)))
                }
            }
            13 => Ty::Ip4,
            14 => Ty::Ip6,
            15 => Ty::Uuid,
            16 | 17 => {
                let p = g.usize(1, 18) as u8;
                let s = g.usize(0, p as usize) as u8;
                Ty::Dec(p, s)
            }
            18 => Ty::E8(gen_enum(g, c.odd_enum, i8::MIN as i64, i8::MAX as i64).into_iter().map(|(n, v)| (n, v as i8)).collect()),
            19 => Ty::E16(gen_enum(g, c.odd_enum, i16::MIN as i64, i16::MAX as i64).into_iter().map(|(n, v)| (n, v as i16)).collect()),
            _ => Ty::U(64),
        };
    }
}
fn gen_enum(g: &mut Src, odd: bool, lo: i64, hi: i64) -> Vec<(String, i64)> {
    let n = g.usize(1, 5);
    let mut out: Vec<(String, i64)> = vec![];
    for _ in 0..n {
        let name = gen_enum_name(g, odd);
        let v = match g.below(3) {
            0 => g.range_i64(0, 10),
            1 => g.range_i64(lo, hi),
            _ => *g.pick(&[lo, hi, -1]),
        };
        if !out.iter().any(|(a, b)| *a == name || *b == v) {
            out.push((name, v));
        }
    }
    if out.is_empty() {
        out.push(("a".into(), 1));
    }
    out
}
pub fn gen_map_key(g: &mut Src, c: &TyCfg) -> Ty {
    match g.below(if c.wide_map_keys { 15 } else { 8 }) {
        0..=2 => Ty::Str,
        3 => Ty::U(*g.pick(&[8, 16, 32, 64, 128])),
        4..=7 => Ty::I(*g.pick(&[8, 16, 32, 64, 128])),
        8 => Ty::Date,
        9 => Ty::DateTime(None),
        10 => Ty::Uuid,
        11 => Ty::E8(gen_enum(g, c.odd_enum, i8::MIN as i64, i8::MAX as i64).into_iter().map(|(n, v)| (n, v as i8)).collect()),
        12 => Ty::E16(gen_enum(g, c.odd_enum, i16::MIN as i64, i16::MAX as i64).into_iter().map(|(n, v)| (n, v as i16)).collect()),
        13 => Ty::DateTime(Some(gen_tz(g))),
        _ => {
            if c.fixed {
                Ty::Fixed(g.usize(1, 8))
            } else {
                Ty::Str
            }
        }
    }
}
pub fn gen_ty(g: &mut Src, c: &TyCfg, depth: usize) -> Ty {
    if depth == 0 || !c.nested {
        return gen_scalar_ty(g, c);
    }
    match g.below(12) {
        0..=5 => gen_scalar_ty(g, c),
        6 | 7 => Ty::Null(Box::new(gen_scalar_ty(g, c))),
        8 => Ty::Arr(Box::new(gen_ty_nolc(g, c, depth - 1))),
        9 => {
            if c.map {
                let k = gen_map_key(g, c);
                Ty::Map(Box::new(k), Box::new(gen_ty_nolc(g, c, depth - 1)))
            } else {
                Ty::Arr(Box::new(gen_ty_nolc(g, c, depth - 1)))
            }
        }
        10 => {
            if c.lc {
                Ty::Lc(Box::new(gen_lc_inner(g)))
            } else {
                gen_scalar_ty(g, c)
            }
        }
        _ => {
            if c.agg {
                let f = g.pick(AGGS).to_string();
                Ty::Agg(f, Box::new(gen_ty_nolc(g, c, depth - 1)))
            } else {
                Ty::Arr(Box::new(gen_ty_nolc(g, c, depth - 1)))
            }
        }
    }
}
fn gen_ty_nolc(g: &mut Src, c: &TyCfg, depth: usize) -> Ty {
    let c2 = TyCfg {
        lc: false,
        agg: false,
        nested: c.nested,
        map: c.map,
        fixed: c.fixed,
        wide_map_keys: c.wide_map_keys,
        odd_enum: c.odd_enum,
    };
    gen_ty(g, &c2, depth)
}
pub fn gen_lc_inner(g: &mut Src) -> Ty {
    match g.below(8) {
        0..=2 => Ty::Str,
        3 => Ty::Fixed(if g.chance(1, 6) { g.usize(9, 200) } else { g.usize(1, 8) }),
        4 => Ty::Date,
        5 => Ty::DateTime(if g.bool() { None } else { Some(gen_tz(g)) }),
        6 => Ty::U(*g.pick(&[8, 16, 32, 64])),
        _ => Ty::I(*g.pick(&[8, 16, 32, 64])),
    }
}

pub fn dt64_range(p: u32) -> (i64, i64) {
    // 1900-01-01 .. 2299-12-31, and what fits in i64 nanoseconds (ClickHouse's own range for p=9)
    let f = 10i128.pow(p);
    let lo = (-2208988800i128 * f).max(-9223372036i128 * f);
    let hi = (10413791999i128 * f + (f - 1)).min(9223372036i128 * f);
    (lo as i64, hi as i64)
}

pub fn gen_val(g: &mut Src, t: &Ty) -> Val {
    match t {
        Ty::Bool => Val::Bool(g.bool()),
        Ty::U(b) => Val::U(g.uint(*b)),
        Ty::I(b) => {
            let u = g.uint(*b);
            let sh = 128 - b;
            Val::I(((u << sh) as i128) >> sh)
        }
        Ty::F32 => Val::F32(match g.below(6) {
            0 => (g.range_i64(-1000, 1000) as f32).to_bits(),
            1 => *g.pick(&[0x8000_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 1, 0x7f7f_ffff]),
            _ => g.uint(32) as u32,
        }),
        Ty::F64 => Val::F64(match g.below(6) {
            0 => (g.range_i64(-1000, 1000) as f64).to_bits(),
            1 => *g.pick(&[
                0x8000_0000_0000_0000,
                0x7ff0_0000_0000_0000,
                0xfff0_0000_0000_0000,
                0x7ff8_0000_0000_0000,
                1,
            ]),
            _ => g.uint(64) as u64,
        }),
        Ty::Str => {
            let n = g.strlen();
            if g.chance(1, 4) {
                Val::Str(g.bytes(n))
            } else {
                Val::Str(g.utf8(n).into_bytes())
            }
        }
        Ty::Fixed(n) => {
            if g.bool() {
                Val::Str(g.bytes(*n))
            } else {
                let k = g.usize(0, *n);
                let mut s: Vec<u8> = (0..k).map(|_| b'a' + g.below(26) as u8).collect();
                s.resize(*n, 0);
                Val::Str(s)
            }
        }
        Ty::Date => Val::Date(g.uint(16) as u16),
        Ty::DateTime(_) => Val::DateTime(g.uint(32) as u32),
        Ty::DT64(p, _) => {
            let (lo, hi) = dt64_range(*p);
            let f = 10i64.pow(*p);
            Val::DT64(match g.below(6) {
                0 => g.range_i64(0, 5),
                1 => g.range_i64(-5 * f, 5 * f),
                2 => g.range_i64(0, 4294967295) * f.min(2_000_000_000) ,
                3 => *g.pick(&[lo, hi, 0, -1]),
                4 => g.range_i64(lo, -1),
                _ => g.range_i64(lo, hi),
            }
            .clamp(lo, hi))
        }
        Ty::Ip4 => Val::Ip4((g.uint(32) as u32).to_be_bytes()),
        Ty::Ip6 => Val::Ip6(g.uint(128).to_be_bytes()),
        Ty::Uuid => Val::Uuid(g.uint(128).to_be_bytes()),
        Ty::Dec(p, _) => {
            let m = 10i64.pow(*p as u32) - 1;
            Val::Dec(match g.below(4) {
                0 => g.range_i64(-20, 20).clamp(-m, m),
                1 => *g.pick(&[m, -m, 0]),
                _ => g.range_i64(-m, m),
            })
        }
        Ty::E8(v) => Val::E8(g.pick(v).1),
        Ty::E16(v) => Val::E16(g.pick(v).1),
        Ty::Null(t) => {
            if g.chance(1, 3) {
                Val::Null
            } else {
                gen_val(g, t)
            }
        }
        Ty::Arr(t) => {
            let n = match g.below(4) {
                0 => 0,
                1 => 1,
                2 => g.usize(0, 4),
                _ => g.usize(0, 8),
            };
            Val::Arr((0..n).map(|_| gen_val(g, t)).collect())
        }
        Ty::Map(k, v) => {
            let n = g.usize(0, 4);
            let mut out: Vec<(Val, Val)> = vec![];
            for _ in 0..n {
                let kk = gen_val(g, k);
                if !out.iter().any(|(x, _)| *x == kk) {
                    out.push((kk, gen_val(g, v)));
                }
            }
            Val::Map(out)
        }
        Ty::Lc(t) => gen_val(g, t),
        Ty::Agg(_, t) => gen_val(g, t),
    }
}

pub fn gen_vals(g: &mut Src, t: &Ty, n: usize) -> Vec<Val> {
    match t {
        Ty::Lc(inner) => {
            let k = g.usize(1, 6);
            let pool: Vec<Val> = (0..k).map(|_| gen_val(g, inner)).collect();
            (0..n).map(|_| g.pick(&pool).clone()).collect()
        }
        _ => (0..n).map(|_| gen_val(g, t)).collect(),
    }
}

pub const ODD_NAMES: &[&str] = &[
    "½", "²", "٣4", "1½", "a\\", "\\", "a\\nb", "\\\\", "a\\'", "-1", "1e5", "0x1", "a, b", "a)", "(", "--", "/*", "a\"b", "a.b", "a\nb", "INSERT", "VALUES", " a ", "0",
];

pub fn gen_names(g: &mut Src, n: usize) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    while out.len() < n {
        let mut s = match g.below(6) {
            0 => {
                let k = g.usize(1, 5);
                g.utf8(k).replace('`', "q").replace('\0', "z")
            }
            1 if g.chance(1, 3) => g.pick(ODD_NAMES).to_string(),
            1 => format!("{}", g.below(1000)),
            _ => g.ident(),
        };
        if s.is_empty() {
            s = "c".into();
        }
        while out.contains(&s) {
            s.push('x');
        }
        out.push(s);
    }
    out
}

pub fn gen_blk(g: &mut Src, c: &TyCfg, max_cols: usize, max_rows: usize, depth: usize) -> Blk {
    let nc = g.usize(1, max_cols);
    let nr = g.size(max_rows);
    gen_blk_sized(g, c, nc, nr, depth)
}
pub fn gen_blk_sized(g: &mut Src, c: &TyCfg, nc: usize, nr: usize, depth: usize) -> Blk {
    let names = gen_names(g, nc);
    let cols = names
        .into_iter()
        .map(|name| {
            let ty = gen_ty(g, c, depth);
            let vals = gen_vals(g, &ty, nr);
            Col { name, ty, vals }
        })
        .collect();
    Blk { cols }
}

/// A type name the client documents/accepts for the type (aliases, case, spacing).
pub fn alias_name(g: &mut Src, t: &Ty) -> String {
    fn case(g: &mut Src, s: &str) -> String {
        match g.below(4) {
            0 => s.to_uppercase(),
            1 => s.to_lowercase(),
            _ => s.into(),
        }
    }
    match t {
        Ty::I(8) => {
            let s = *g.pick(&["Int8", "TinyInt"]);
            case(g, s)
        }
        Ty::I(16) => {
            let s = *g.pick(&["Int16", "SmallInt"]);
            case(g, s)
        }
        Ty::I(32) => {
            let s = *g.pick(&["Int32", "Int", "Integer"]);
            case(g, s)
        }
        Ty::I(64) => {
            let s = *g.pick(&["Int64", "BigInt"]);
            case(g, s)
        }
        Ty::F32 => {
            let s = *g.pick(&["Float32", "Float"]);
            case(g, s)
        }
        Ty::F64 => {
            let s = *g.pick(&["Float64", "Double"]);
            case(g, s)
        }
        Ty::Str => {
            let s = *g.pick(&[
                "String", "Char", "Varchar", "Text", "TinyText", "MediumText", "LongText", "Blob", "TinyBlob",
                "MediumBlob", "LongBlob",
            ]);
            case(g, s)
        }
        Ty::Bool | Ty::U(_) | Ty::I(128) | Ty::Date | Ty::Ip4 | Ty::Ip6 | Ty::Uuid => case(g, &t.name()),
        Ty::DateTime(None) => g.pick(&["DateTime", "Timestamp"]).to_string(),
        Ty::DateTime(Some(z)) => match g.below(3) {
            0 => format!("DateTime('{z}')"),
            1 => format!("DateTime ( '{z}' )"),
            _ => format!("Timestamp('{z}')"),
        },
        Ty::DT64(p, Some(z)) => match g.below(2) {
            0 => format!("DateTime64({p}, '{z}')"),
            _ => format!("DateTime64 ( {p} ,'{z}' )"),
        },
        Ty::Dec(9, s) if g.bool() => format!("Decimal32({s})"),
        Ty::Dec(18, s) if g.bool() => format!("Decimal64({s})"),
        Ty::Null(t) => format!("Nullable({})", alias_name(g, t)),
        Ty::Arr(t) => format!("Array({})", alias_name(g, t)),
        Ty::Lc(t) => {
            let n = alias_name(g, t);
            match g.below(2) {
                0 => format!("LowCardinality({n})"),
                _ => format!("LowCardinality ( {n} )"),
            }
        }
        Ty::Agg(f, t) => {
            let n = alias_name(g, t);
            format!("SimpleAggregateFunction({f}, {n})")
        }
        Ty::Map(k, v) => {
            let a = alias_name(g, k);
            let b = alias_name(g, v);
            match g.below(2) {
                0 => format!("Map({a}, {b})"),
                _ => format!("Map({a},{b})"),
            }
        }
        t => t.name(),
    }
}

// ------------------------------------------------------------------ to/from the client's values
pub fn tz(s: &str) -> Tz {
    s.parse().unwrap()
}
pub fn sql_type(t: &Ty, server_tz: &str) -> SqlType {
    fn st(t: &Ty, z: &str) -> &'static SqlType {
        sql_type(t, z).into()
    }
    let z = server_tz;
    match t {
        Ty::Bool => SqlType::Bool,
        Ty::U(8) => SqlType::UInt8,
        Ty::U(16) => SqlType::UInt16,
        Ty::U(32) => SqlType::UInt32,
        Ty::U(64) => SqlType::UInt64,
        Ty::U(_) => SqlType::UInt128,
        Ty::I(8) => SqlType::Int8,
        Ty::I(16) => SqlType::Int16,
        Ty::I(32) => SqlType::Int32,
        Ty::I(64) => SqlType::Int64,
        Ty::I(_) => SqlType::Int128,
        Ty::F32 => SqlType::Float32,
        Ty::F64 => SqlType::Float64,
        Ty::Str => SqlType::String,
        Ty::Fixed(n) => SqlType::FixedString(*n),
        Ty::Date => SqlType::Date,
        Ty::DateTime(_) => SqlType::DateTime(DateTimeType::DateTime32),
        Ty::DT64(p, zz) => SqlType::DateTime(DateTimeType::DateTime64(*p, tz(zz.as_deref().unwrap_or(z)))),
        Ty::Ip4 => SqlType::Ipv4,
        Ty::Ip6 => SqlType::Ipv6,
        Ty::Uuid => SqlType::Uuid,
        Ty::Dec(p, s) => SqlType::Decimal(*p, *s),
        Ty::E8(v) => SqlType::Enum8(v.clone()),
        Ty::E16(v) => SqlType::Enum16(v.clone()),
        Ty::Null(t) => SqlType::Nullable(st(t, z)),
        Ty::Arr(t) => SqlType::Array(st(t, z)),
        Ty::Lc(t) => SqlType::LowCardinality(st(t, z)),
        Ty::Agg(f, t) => {
            let f: SimpleAggFunc = f.parse().unwrap();
            SqlType::SimpleAggregateFunction(f, st(t, z))
        }
        Ty::Map(k, v) => SqlType::Map(st(k, z), st(v, z)),
    }
}

/// client value for a model value (for pushing rows)
pub fn to_value(t: &Ty, v: &Val, server_tz: &str) -> Value {
    match (t, v) {
        (Ty::Null(t), Val::Null) => Value::Nullable(Either::Left(sql_type(t, server_tz).into())),
        (Ty::Null(t), v) => Value::Nullable(Either::Right(Box::new(to_value(t, v, server_tz)))),
        (Ty::Arr(t), Val::Arr(vs)) => Value::Array(
            sql_type(t, server_tz).into(),
            Arc::new(vs.iter().map(|v| to_value(t, v, server_tz)).collect()),
        ),
        (Ty::Map(k, x), Val::Map(vs)) => Value::Map(
            sql_type(k, server_tz).into(),
            sql_type(x, server_tz).into(),
            Arc::new(
                vs.iter()
                    .map(|(a, b)| (to_value(k, a, server_tz), to_value(x, b, server_tz)))
                    .collect(),
            ),
        ),
        (Ty::Lc(t), v) | (Ty::Agg(_, t), v) => to_value(t, v, server_tz),
        (_, Val::Bool(b)) => Value::Bool(*b),
        (Ty::U(8), Val::U(x)) => Value::UInt8(*x as u8),
        (Ty::U(16), Val::U(x)) => Value::UInt16(*x as u16),
        (Ty::U(32), Val::U(x)) => Value::UInt32(*x as u32),
        (Ty::U(64), Val::U(x)) => Value::UInt64(*x as u64),
        (Ty::U(_), Val::U(x)) => Value::UInt128(*x),
        (Ty::I(8), Val::I(x)) => Value::Int8(*x as i8),
        (Ty::I(16), Val::I(x)) => Value::Int16(*x as i16),
        (Ty::I(32), Val::I(x)) => Value::Int32(*x as i32),
        (Ty::I(64), Val::I(x)) => Value::Int64(*x as i64),
        (Ty::I(_), Val::I(x)) => Value::Int128(*x),
        (_, Val::F32(x)) => Value::Float32(f32::from_bits(*x)),
        (_, Val::F64(x)) => Value::Float64(f64::from_bits(*x)),
        (_, Val::Str(s)) => Value::String(Arc::new(s.clone())),
        (_, Val::Date(d)) => Value::Date(*d),
        (Ty::DateTime(z), Val::DateTime(d)) => Value::DateTime(*d, tz(z.as_deref().unwrap_or(server_tz))),
        (Ty::DT64(p, z), Val::DT64(d)) => Value::DateTime64(*d, (*p, tz(z.as_deref().unwrap_or(server_tz)))),
        (_, Val::Ip4(a)) => {
            let mut b = *a;
            b.reverse();
            Value::Ipv4(b)
        }
        (_, Val::Ip6(a)) => Value::Ipv6(*a),
        (_, Val::Uuid(a)) => Value::from(uuid::Uuid::from_bytes(*a)),
        (Ty::Dec(_, s), Val::Dec(x)) => Value::Decimal(Decimal::new(*x, *s)),
        (Ty::E8(e), Val::E8(x)) => Value::Enum8(e.clone(), Enum8::of(*x)),
        (Ty::E16(e), Val::E16(x)) => Value::Enum16(e.clone(), Enum16::of(*x)),
        _ => panic!("model: to_value {t:?} {v:?}"),
    }
}

/// What cell access returned, with everything observable about it.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Got {
    Bool(bool),
    U(u32, u128),
    I(u32, i128),
    F32(u32),
    F64(u64),
    Str(Vec<u8>),
    Date(u16),
    DateTime(u32, String),
    DT64(i64, u32, String),
    Ip4([u8; 4]),
    Ip6([u8; 16]),
    Uuid([u8; 16]),
    Dec(i64, u8, u8),
    E8(Vec<(String, i8)>, i8),
    E16(Vec<(String, i16)>, i16),
    Null(Ty),
    Some(Box<Got>),
    Arr(Ty, Vec<Got>),
    Map(Ty, Ty, Vec<(Got, Got)>),
    BadType(String),
}

pub fn lib_ty(s: &SqlType) -> Result<Ty, String> {
    parse_ty(&format!("{s}"))
}

pub fn got(v: &ValueRef) -> Got {
    match v {
        ValueRef::Bool(b) => Got::Bool(*b),
        ValueRef::UInt8(x) => Got::U(8, *x as u128),
        ValueRef::UInt16(x) => Got::U(16, *x as u128),
        ValueRef::UInt32(x) => Got::U(32, *x as u128),
        ValueRef::UInt64(x) => Got::U(64, *x as u128),
        ValueRef::UInt128(x) => Got::U(128, *x),
        ValueRef::Int8(x) => Got::I(8, *x as i128),
        ValueRef::Int16(x) => Got::I(16, *x as i128),
        ValueRef::Int32(x) => Got::I(32, *x as i128),
        ValueRef::Int64(x) => Got::I(64, *x as i128),
        ValueRef::Int128(x) => Got::I(128, *x),
        ValueRef::Float32(x) => Got::F32(x.to_bits()),
        ValueRef::Float64(x) => Got::F64(x.to_bits()),
        ValueRef::String(s) => Got::Str(s.to_vec()),
        ValueRef::Date(d) => Got::Date(*d),
        ValueRef::DateTime(d, z) => Got::DateTime(*d, z.name().into()),
        ValueRef::DateTime64(d, p) => Got::DT64(*d, p.0, p.1.name().into()),
        ValueRef::Ipv4(a) => {
            let mut b = *a;
            b.reverse();
            Got::Ip4(b)
        }
        ValueRef::Ipv6(a) => Got::Ip6(*a),
        ValueRef::Uuid(a) => {
            let mut b = *a;
            b[..8].reverse();
            b[8..].reverse();
            Got::Uuid(b)
        }
        ValueRef::Decimal(d) => {
            let t = SqlType::from(ValueRef::Decimal(d.clone()));
            match t {
                SqlType::Decimal(p, s) => Got::Dec(d.internal::<i64>(), p, s),
                t => Got::BadType(format!("{t}")),
            }
        }
        ValueRef::Enum8(v, e) => Got::E8(v.clone(), e.internal()),
        ValueRef::Enum16(v, e) => Got::E16(v.clone(), e.internal()),
        ValueRef::Nullable(Either::Left(t)) => match lib_ty(t) {
            Ok(t) => Got::Null(t),
            Err(e) => Got::BadType(e),
        },
        ValueRef::Nullable(Either::Right(v)) => Got::Some(Box::new(got(v))),
        ValueRef::Array(t, vs) => match lib_ty(t) {
            Ok(t) => Got::Arr(t, vs.iter().map(got).collect()),
            Err(e) => Got::BadType(e),
        },
        ValueRef::Map(k, x, vs) => match (lib_ty(k), lib_ty(x)) {
            (Ok(k), Ok(x)) => {
                let mut m: Vec<_> = vs.iter().map(|(a, b)| (got(a), got(b))).collect();
                m.sort();
                Got::Map(k, x, m)
            }
            (a, b) => Got::BadType(format!("{a:?} {b:?}")),
        },
    }
}
pub fn got_value(v: &Value) -> Got {
    match v {
        // no borrowed form
        Value::ChronoDateTime(dt) => Got::DateTime(dt.timestamp() as u32, dt.timezone().name().into()),
        v => got(&ValueRef::from(v)),
    }
}

/// what cell access must return
pub fn expect(t: &Ty, v: &Val, server_tz: &str) -> Got {
    match (t, v) {
        (Ty::Null(t), Val::Null) => Got::Null(t.norm(server_tz)),
        (Ty::Null(t), v) => Got::Some(Box::new(expect(t, v, server_tz))),
        (Ty::Arr(t), Val::Arr(vs)) => Got::Arr(t.norm(server_tz), vs.iter().map(|v| expect(t, v, server_tz)).collect()),
        (Ty::Map(k, x), Val::Map(vs)) => {
            let mut m: Vec<_> = vs
                .iter()
                .map(|(a, b)| (expect(k, a, server_tz), expect(x, b, server_tz)))
                .collect();
            m.sort();
            Got::Map(k.norm(server_tz), x.norm(server_tz), m)
        }
        (Ty::Lc(t), v) | (Ty::Agg(_, t), v) => expect(t, v, server_tz),
        (_, Val::Bool(b)) => Got::Bool(*b),
        (Ty::U(b), Val::U(x)) => Got::U(*b, *x),
        (Ty::I(b), Val::I(x)) => Got::I(*b, *x),
        (_, Val::F32(x)) => Got::F32(*x),
        (_, Val::F64(x)) => Got::F64(*x),
        (_, Val::Str(s)) => Got::Str(s.clone()),
        (_, Val::Date(d)) => Got::Date(*d),
        (Ty::DateTime(z), Val::DateTime(d)) => Got::DateTime(*d, z.clone().unwrap_or(server_tz.into())),
        (Ty::DT64(p, z), Val::DT64(d)) => Got::DT64(*d, *p, z.clone().unwrap_or(server_tz.into())),
        (_, Val::Ip4(a)) => Got::Ip4(*a),
        (_, Val::Ip6(a)) => Got::Ip6(*a),
        (_, Val::Uuid(a)) => Got::Uuid(*a),
        (Ty::Dec(p, s), Val::Dec(x)) => Got::Dec(*x, *p, *s),
        (Ty::E8(e), Val::E8(x)) => Got::E8(e.clone(), *x),
        (Ty::E16(e), Val::E16(x)) => Got::E16(e.clone(), *x),
        _ => panic!("model: expect {t:?} {v:?}"),
    }
}

/// reads any cell
pub struct Any(pub Got);
impl<'a> FromSql<'a> for Any {
    fn from_sql(v: ValueRef<'a>) -> FromSqlResult<Self> {
        Ok(Any(got(&v)))
    }
}

/// the value as text, borrowed and owned
pub struct Text(pub String, pub String);
impl<'a> FromSql<'a> for Text {
    fn from_sql(v: ValueRef<'a>) -> FromSqlResult<Self> {
        let a = format!("{v} {v:?}");
        let o = clickhouse_rs::types::Value::from(v);
        Ok(Text(a, format!("{o} {o:?}")))
    }
}

/// canonical form for comparing values received by the server: map entries sorted
pub fn canon(v: &Val) -> Val {
    match v {
        Val::Arr(a) => Val::Arr(a.iter().map(canon).collect()),
        Val::Map(m) => {
            let mut m: Vec<_> = m.iter().map(|(a, b)| (canon(a), canon(b))).collect();
            m.sort();
            Val::Map(m)
        }
        v => v.clone(),
    }
}
pub fn canon_all(v: &[Val]) -> Vec<Val> {
    v.iter().map(canon).collect()
}
