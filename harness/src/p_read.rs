//! C05 (typed iteration), C06 (ways of reading a result), C22 (wrong types).
use crate::gen::Src;
use crate::model::*;
use crate::p_data::*;
use crate::run::*;
use crate::server::*;
use chrono::{DateTime, NaiveDate, NaiveDateTime};
use chrono_tz::Tz;
use clickhouse_rs::types::{Block, Column, Complex, Decimal, Enum16, Enum8, FromSql, FromSqlResult, Simple, ValueRef};
use clickhouse_rs::Pool;
use futures_util::{StreamExt, TryStreamExt};
use std::collections::HashMap;
use std::hash::Hash;
use std::net::{Ipv4Addr, Ipv6Addr};
use uuid::Uuid;

/// Does a Rust element type match a column type?
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fit {
    /// iteration has to work
    Yes,
    /// may be refused, but must be right if it is accepted
    May,
    /// has to be refused
    No,
}
impl Fit {
    fn and(self, o: Fit) -> Fit {
        match (self, o) {
            (Fit::Yes, x) | (x, Fit::Yes) => x,
            (Fit::No, _) | (_, Fit::No) => Fit::No,
            _ => Fit::May,
        }
    }
}
/// element types
pub trait Elem {
    fn fit(t: &Ty) -> Fit;
}
/// items produced by the iterators
pub trait Item {
    fn same(&self, t: &Ty, v: &Val, z: &str) -> bool;
    fn text(&self) -> String;
}
fn inner(t: &Ty) -> (&Ty, bool) {
    match t {
        Ty::Lc(t) => (inner(t).0, true),
        Ty::Agg(_, t) => inner(t),
        t => (t, false),
    }
}
macro_rules! leaf {
    ($($e:ty, $i:ty, $p:pat, |$s:ident, $t:ident, $v:ident, $z:ident| $same:expr;)*) => { $(
        impl Elem for $e {
            fn fit(t: &Ty) -> Fit {
                let (x, lc) = inner(t);
                match x { $p if lc => Fit::May, $p => Fit::Yes, _ => Fit::No }
            }
        }
        impl Item for $i {
            #[allow(unused_variables)]
            fn same(&self, $t: &Ty, $v: &Val, $z: &str) -> bool { let $s = self; let $t = inner($t).0; $same }
            fn text(&self) -> String { format!("{:?}", self) }
        }
    )* };
}
fn secs(p: u32, v: i64) -> (i64, u32) {
    let f = 10i64.pow(p);
    (v.div_euclid(f), (v.rem_euclid(f) * 10i64.pow(9 - p)) as u32)
}
leaf! {
    u8, &u8, Ty::U(8), |s, t, v, z| *v == Val::U(**s as u128);
    u16, &u16, Ty::U(16), |s, t, v, z| *v == Val::U(**s as u128);
    u32, &u32, Ty::U(32), |s, t, v, z| *v == Val::U(**s as u128);
    u64, &u64, Ty::U(64), |s, t, v, z| *v == Val::U(**s as u128);
    u128, &u128, Ty::U(128), |s, t, v, z| *v == Val::U(**s);
    i8, &i8, Ty::I(8), |s, t, v, z| *v == Val::I(**s as i128);
    i16, &i16, Ty::I(16), |s, t, v, z| *v == Val::I(**s as i128);
    i32, &i32, Ty::I(32), |s, t, v, z| *v == Val::I(**s as i128);
    i64, &i64, Ty::I(64), |s, t, v, z| *v == Val::I(**s as i128);
    i128, &i128, Ty::I(128), |s, t, v, z| *v == Val::I(**s);
    f32, &f32, Ty::F32, |s, t, v, z| *v == Val::F32(s.to_bits());
    f64, &f64, Ty::F64, |s, t, v, z| *v == Val::F64(s.to_bits());
    bool, &bool, Ty::Bool, |s, t, v, z| *v == Val::Bool(**s);
    Ipv4Addr, Ipv4Addr, Ty::Ip4, |s, t, v, z| *v == Val::Ip4(s.octets());
    Ipv6Addr, Ipv6Addr, Ty::Ip6, |s, t, v, z| *v == Val::Ip6(s.octets());
    Uuid, Uuid, Ty::Uuid, |s, t, v, z| *v == Val::Uuid(*s.as_bytes());
    Decimal, Decimal, Ty::Dec(..), |s, t, v, z| match (t, v) {
        (Ty::Dec(_, sc), Val::Dec(x)) => s.internal::<i64>() == *x && s.scale() == *sc as usize,
        _ => false,
    };
    NaiveDate, NaiveDate, Ty::Date, |s, t, v, z| match v { Val::Date(d) => *s == crate::lib_build::date_of(*d), _ => false };
    DateTime<Tz>, DateTime<Tz>, Ty::DateTime(_) | Ty::DT64(..), |s, t, v, z| match (t, v) {
        (Ty::DateTime(q), Val::DateTime(x)) => (s.timestamp(), s.timestamp_subsec_nanos()) == (*x as i64, 0)
            && s.timezone() == tz(q.as_deref().unwrap_or(z)),
        (Ty::DT64(p, q), Val::DT64(x)) => (s.timestamp(), s.timestamp_subsec_nanos()) == secs(*p, *x)
            && s.timezone() == tz(q.as_deref().unwrap_or(z)),
        _ => false,
    };
    NaiveDateTime, NaiveDateTime, Ty::DateTime(_) | Ty::DT64(..), |s, t, v, z| match (t, v) {
        (Ty::DateTime(_), Val::DateTime(x)) => (s.timestamp(), s.timestamp_subsec_nanos()) == (*x as i64, 0),
        (Ty::DT64(p, _), Val::DT64(x)) => (s.timestamp(), s.timestamp_subsec_nanos()) == secs(*p, *x),
        _ => false,
    };
}
/// byte strings, dates and times are also iterable through a dictionary
fn lc_ok(t: &Ty) -> bool {
    matches!(inner(t).0, Ty::Str | Ty::Fixed(_) | Ty::Date | Ty::DateTime(_))
}
impl Elem for &[u8] {
    fn fit(t: &Ty) -> Fit {
        match inner(t).0 {
            Ty::Str | Ty::Fixed(_) => Fit::Yes,
            _ => Fit::No,
        }
    }
}
impl Item for &[u8] {
    fn same(&self, _: &Ty, v: &Val, _: &str) -> bool {
        matches!(v, Val::Str(b) if b.as_slice() == *self)
    }
    fn text(&self) -> String {
        format!("{:?}", self)
    }
}
fn strip(t: &Ty) -> &Ty {
    match t {
        Ty::Agg(_, t) => strip(t),
        t => t,
    }
}
impl<T: Elem> Elem for Option<T> {
    fn fit(t: &Ty) -> Fit {
        match strip(t) {
            Ty::Null(t) => T::fit(t),
            _ => Fit::No,
        }
    }
}
impl<T: Item> Item for Option<T> {
    fn same(&self, t: &Ty, v: &Val, z: &str) -> bool {
        match (strip(t), v, self) {
            (Ty::Null(_), Val::Null, None) => true,
            (Ty::Null(t), v, Some(x)) => *v != Val::Null && x.same(t, v, z),
            _ => false,
        }
    }
    fn text(&self) -> String {
        match self {
            None => "None".into(),
            Some(x) => format!("Some({})", x.text()),
        }
    }
}
impl<T: Elem> Elem for Vec<T> {
    fn fit(t: &Ty) -> Fit {
        match strip(t) {
            Ty::Arr(t) => T::fit(t),
            _ => Fit::No,
        }
    }
}
impl<T: Item> Item for Vec<T> {
    fn same(&self, t: &Ty, v: &Val, z: &str) -> bool {
        match (strip(t), v) {
            (Ty::Arr(t), Val::Arr(vs)) => vs.len() == self.len() && self.iter().zip(vs).all(|(x, v)| x.same(t, v, z)),
            _ => false,
        }
    }
    fn text(&self) -> String {
        format!("[{}]", self.iter().map(|x| x.text()).collect::<Vec<_>>().join(", "))
    }
}
impl<K: Elem, V: Elem> Elem for HashMap<K, V> {
    fn fit(t: &Ty) -> Fit {
        match strip(t) {
            Ty::Map(k, v) => K::fit(k).and(V::fit(v)),
            _ => Fit::No,
        }
    }
}
impl<K: Item + Hash + Eq, V: Item> Item for HashMap<K, V> {
    fn same(&self, t: &Ty, v: &Val, z: &str) -> bool {
        match (strip(t), v) {
            (Ty::Map(k, w), Val::Map(vs)) => {
                vs.len() == self.len()
                    && vs.iter().all(|(a, b)| self.iter().any(|(x, y)| x.same(k, a, z) && y.same(w, b, z)))
            }
            _ => false,
        }
    }
    fn text(&self) -> String {
        format!("{{{}}}", self.iter().map(|(a, b)| format!("{}: {}", a.text(), b.text())).collect::<Vec<_>>().join(", "))
    }
}

/// an iterator with its item type erased, to keep the many element types cheap to compile
trait Walk {
    fn next(&mut self) -> Option<Box<dyn Item + '_>>;
    fn nth(&mut self, n: usize) -> Option<Box<dyn Item + '_>>;
    fn size(&self) -> (usize, Option<usize>);
    fn count(&mut self) -> usize;
    fn last(&mut self) -> Option<Box<dyn Item + '_>>;
}
struct Er<I>(Option<I>);
impl<I: Iterator> Walk for Er<I>
where
    I::Item: Item,
{
    fn next(&mut self) -> Option<Box<dyn Item + '_>> {
        self.0.as_mut().unwrap().next().map(|x| Box::new(x) as Box<dyn Item>)
    }
    fn nth(&mut self, n: usize) -> Option<Box<dyn Item + '_>> {
        self.0.as_mut().unwrap().nth(n).map(|x| Box::new(x) as Box<dyn Item>)
    }
    fn size(&self) -> (usize, Option<usize>) {
        self.0.as_ref().unwrap().size_hint()
    }
    fn count(&mut self) -> usize {
        self.0.take().unwrap().count()
    }
    fn last(&mut self) -> Option<Box<dyn Item + '_>> {
        self.0.take().unwrap().last().map(|x| Box::new(x) as Box<dyn Item>)
    }
}
/// as the plan of `walk`: read everything, compare nothing
pub const DRAIN: &[u64] = &[u64::MAX];
/// compare the items of an iterator with the model, in several ways of walking
fn walk<'a>(mk: &dyn Fn() -> Option<Box<dyn Walk + 'a>>, c: &Col, z: &str, plan: &[u64], exact: bool, elem: &str) -> Res {
    let n = c.vals.len();
    let at = |i: usize, x: &dyn Item, how: &str| -> Res {
        if i >= n {
            return err(format!("column {} as {elem}: {how} gave item {i} of {n} rows", c.ty.name()));
        }
        if !x.same(&c.ty, &c.vals[i], z) {
            return err(format!(
                "column {} as {elem}: {how} gave {} for row {i}, cell is {:?}",
                c.ty.name(),
                x.text(),
                c.vals[i]
            ));
        }
        Ok(())
    };
    let again = || mk().ok_or(format!("column {} as {elem}: a second iteration is refused", c.ty.name()));
    let mut it = again()?;
    if plan == DRAIN {
        // only touch every item
        while let Some(x) = it.next() {
            std::hint::black_box(x.text());
        }
        return Ok(());
    }
    let mut k = 0;
    loop {
        if exact {
            let (lo, hi) = it.size();
            if lo != n - k.min(n) || hi != Some(lo) {
                return err(format!("column {} as {elem}: size hint ({lo},{hi:?}) with {} items left", c.ty.name(), n - k.min(n)));
            }
        }
        match it.next() {
            None => break,
            Some(x) => {
                at(k, &*x, "iteration")?;
                k += 1;
            }
        }
    }
    if k != n {
        return err(format!("column {} as {elem}: {k} items for {n} rows", c.ty.name()));
    }
    let cnt = again()?.count();
    if cnt != n {
        return err(format!("column {} as {elem}: count() is {cnt} for {n} rows", c.ty.name()));
    }
    // skips
    let mut it = again()?;
    let mut k = 0usize;
    for s in plan {
        let s = *s as usize;
        k += s;
        match it.nth(s) {
            Some(x) => at(k, &*x, &format!("nth({s})"))?,
            None => {
                if k < n {
                    return err(format!("column {} as {elem}: nth({s}) ended before row {k} of {n}", c.ty.name()));
                }
                break;
            }
        }
        k += 1;
        // what is left after a skip is counted right, and single steps follow
        if exact && it.size().0 != n - k {
            return err(format!("column {} as {elem}: size hint {:?} after nth with {} items left", c.ty.name(), it.size(), n - k));
        }
        if let Some(x) = it.next() {
            at(k, &*x, "next after nth")?;
            k += 1;
        } else if k < n {
            return err(format!("column {} as {elem}: ended at row {k} of {n} after nth", c.ty.name()));
        }
    }
    // what is left after some steps, counted and walked to its end
    let taken = plan.iter().fold(plan.len(), |a, s| a.wrapping_add(*s as usize)) % (n + 1);
    for last in [false, true] {
        let mut it = again()?;
        for i in 0..taken {
            match it.next() {
                Some(x) => at(i, &*x, "the first steps")?,
                None => return err(format!("column {} as {elem}: ended at row {i} of {n}", c.ty.name())),
            }
        }
        if !last {
            let cnt = it.count();
            if cnt != n - taken {
                return err(format!("column {} as {elem}: count() is {cnt} with {} items left", c.ty.name(), n - taken));
            }
            continue;
        }
        match it.last() {
            Some(x) => at(n - 1, &*x, "last after some steps")?,
            None if n == taken => (),
            None => return err(format!("column {} as {elem}: no last item of {} left", c.ty.name(), n - taken)),
        };
    }
    // an iterator that has ended stays at its end
    let mut it = again()?;
    for i in 0..n {
        if it.next().is_none() {
            return err(format!("column {} as {elem}: ended at row {i} of {n}", c.ty.name()));
        }
    }
    for k in 0..3 {
        let more = if k == 1 { it.nth(taken).is_some() } else { it.next().is_some() };
        if more {
            return err(format!("column {} as {elem}: an item after the end", c.ty.name()));
        }
    }
    if exact && it.size() != (0, Some(0)) {
        return err(format!("column {} as {elem}: size hint {:?} at the end", c.ty.name(), it.size()));
    }
    let mut w = again()?;
    let r = match w.last() {
        Some(x) => at(n.wrapping_sub(1), &*x, "last"),
        None if n == 0 => Ok(()),
        None => err(format!("column {} as {elem}: no last item of {n}", c.ty.name())),
    };
    r
}

/// visit all element types
macro_rules! elems {
    ($m:ident) => {
        elems!(@l $m, u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, bool, &[u8], Decimal, Ipv4Addr, Ipv6Addr, Uuid,
            NaiveDate, DateTime<Tz>, NaiveDateTime);
        elems!(@k $m, u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, &[u8], Uuid, NaiveDate, DateTime<Tz>, Ipv4Addr, Ipv6Addr, bool);
    };
    (@l $m:ident, $($t:ty),*) => { $(
        $m!($t); $m!(Option<$t>); $m!(Vec<$t>); $m!(Vec<Option<$t>>); $m!(Vec<Vec<$t>>); $m!(HashMap<&[u8], $t>);
        $m!(HashMap<u64, Option<$t>>); $m!(HashMap<&[u8], Vec<$t>>); $m!(Vec<HashMap<&[u8], $t>>); $m!(HashMap<i32, HashMap<&[u8], $t>>);
        $m!(Vec<HashMap<u8, Vec<$t>>>);
    )* };
    (@k $m:ident, $($t:ty),*) => { $(
        $m!(HashMap<$t, u8>); $m!(HashMap<$t, &[u8]>); $m!(HashMap<&[u8], HashMap<$t, u16>>); $m!(HashMap<$t, Vec<HashMap<$t, &[u8]>>>);
        $m!(HashMap<u8, HashMap<&[u8], HashMap<$t, $t>>>); $m!(Vec<HashMap<$t, Vec<HashMap<$t, HashMap<$t, u8>>>>>);
    )* };
}

pub struct Stat {
    pub yes: usize,
    pub no: usize,
}
macro_rules! iterate {
    ($name:ident, $k:ty, $exact:expr) => {
        /// iterate a column with every element type; mismatches have to be refused
        pub fn $name(col: &Column<$k>, c: &Col, z: &str, plan: &[u64], st: &mut Stat, positive: bool, negative: bool) -> Res {
            macro_rules! one {
                ($e:ty) => {{
                    let fit = match <$e as Elem>::fit(&c.ty) {
                        Fit::May if lc_ok(&c.ty) => Fit::Yes,
                        f => f,
                    };
                    if if fit == Fit::No { negative } else { positive } {
                        match col.iter::<$e>() {
                            Err(e) => {
                                if fit == Fit::Yes && plan != DRAIN {
                                    return err(format!("column {} cannot be iterated as {}: {e}", c.ty.name(), stringify!($e)));
                                }
                                st.no += 1;
                            }
                            Ok(_) if fit == Fit::No => {
                                return err(format!("column {} can be iterated as {}", c.ty.name(), stringify!($e)));
                            }
                            Ok(_) => {
                                st.yes += 1;
                                walk(&|| col.iter::<$e>().ok().map(|i| Box::new(Er(Some(i))) as Box<dyn Walk + '_>), c, z, plan, $exact, stringify!($e))?;
                            }
                        }
                    }
                }};
            }
            elems!(one);
            Ok(())
        }
    };
}
iterate!(iterate_simple, Simple, true);
iterate!(iterate_complex, Complex, false);

/// leaf types that have an element type
fn gen_leaf(g: &mut Src) -> Ty {
    let c = TyCfg::server();
    loop {
        let t = gen_scalar_ty(g, &c);
        if !matches!(t, Ty::E8(_) | Ty::E16(_)) || g.chance(1, 10) {
            return t;
        }
    }
}
fn b(t: Ty) -> Box<Ty> {
    Box::new(t)
}
/// types of the shapes that `elems!` visits
pub fn gen_iter_ty(g: &mut Src) -> Ty {
    let s = Ty::Str;
    let t = match g.below(16) {
        0..=2 => gen_leaf(g),
        3 => Ty::Null(b(gen_leaf(g))),
        4 => Ty::Arr(b(gen_leaf(g))),
        5 => Ty::Arr(b(Ty::Null(b(gen_leaf(g))))),
        6 => Ty::Arr(b(Ty::Arr(b(gen_leaf(g))))),
        7 => Ty::Map(b(if g.bool() { s } else { Ty::Fixed(g.usize(1, 6)) }), b(gen_leaf(g))),
        8 => Ty::Map(b(Ty::U(64)), b(Ty::Null(b(gen_leaf(g))))),
        9 => Ty::Map(b(s), b(Ty::Arr(b(gen_leaf(g))))),
        10 => Ty::Arr(b(Ty::Map(b(s), b(gen_leaf(g))))),
        11 => Ty::Map(b(Ty::I(32)), b(Ty::Map(b(s), b(gen_leaf(g))))),
        12 => {
            let k = gen_map_key(g, &TyCfg::server());
            match g.below(6) {
                4 => Ty::Map(b(Ty::U(8)), b(Ty::Map(b(s), b(Ty::Map(b(k.clone()), b(k)))))),
                5 => Ty::Arr(b(Ty::Map(b(k.clone()), b(Ty::Arr(b(Ty::Map(b(k.clone()), b(Ty::Map(b(k), b(Ty::U(8))))))))))),
                0 => Ty::Map(b(k), b(Ty::U(8))),
                1 => Ty::Map(b(k), b(if g.bool() { Ty::Str } else { Ty::Fixed(3) })),
                2 => Ty::Map(b(s), b(Ty::Map(b(k), b(Ty::U(16))))),
                _ => Ty::Map(b(k.clone()), b(Ty::Arr(b(Ty::Map(b(k), b(Ty::Str)))))),
            }
        }
        13 => return Ty::Lc(b(gen_lc_inner(g))),
        14 => Ty::Arr(b(Ty::Map(b(Ty::U(8)), b(Ty::Arr(b(gen_leaf(g))))))),
        _ => gen_ty(g, &TyCfg::server(), 2),
    };
    if g.chance(1, 8) && !matches!(t, Ty::Agg(..)) {
        Ty::Agg(g.pick(AGGS).to_string(), b(t))
    } else {
        t
    }
}
pub fn gen_iter_blk(g: &mut Src, rows: usize) -> Blk {
    let nc = g.usize(1, 3);
    let names = gen_names(g, nc);
    let mut cols = vec![];
    for name in names {
        let ty = gen_iter_ty(g);
        let vals = gen_vals(g, &ty, rows);
        cols.push(Col { name, ty, vals });
    }
    Blk { cols }
}
/// cut `n` rows into block sizes
pub fn gen_partition(g: &mut Src, n: usize) -> Vec<usize> {
    let mut out = vec![];
    let mut left = n;
    while left > 0 {
        if g.chance(1, 5) {
            out.push(0);
        }
        let k = if g.chance(1, 3) { 1 } else { g.usize(1, left) };
        out.push(k.min(left));
        left -= k.min(left);
    }
    if g.chance(1, 5) {
        out.push(0);
    }
    out
}
pub fn slice(b: &Blk, from: usize, n: usize) -> Blk {
    Blk {
        cols: b
            .cols
            .iter()
            .map(|c| Col {
                name: c.name.clone(),
                ty: c.ty.clone(),
                vals: c.vals[from..from + n].to_vec(),
            })
            .collect(),
    }
}
/// the reply to a query: header, blocks of the given sizes, notices in between, end of stream
pub fn reply_of(b: &Blk, part: &[usize], g: &mut Src, lz4: bool, wild: bool, rev: u64) -> Vec<u8> {
    let mut r = vec![];
    let notice = |g: &mut Src, r: &mut Vec<u8>| {
        while wild && g.chance(1, 4) {
            r.extend(if g.bool() { progress(g, rev) } else { profile(g) });
        }
    };
    notice(g, &mut r);
    r.extend(encode_wild(&b.header(), g, lz4, false));
    let mut at = 0;
    for n in part {
        notice(g, &mut r);
        r.extend(encode_wild(&slice(b, at, *n), g, lz4, wild));
        at += n;
    }
    notice(g, &mut r);
    r.extend(eos());
    r
}

fn c05_iter(g: &mut Src) -> Res {
    let z = gen_tz(g);
    let rows = if g.chance(1, 6) { g.usize(0, 1) } else { g.usize(0, 24) };
    let b = gen_iter_blk(g, rows);
    let lz4 = g.bool();
    let part = gen_partition(g, rows);
    let complex = g.bool();
    let plan: Vec<u64> = (0..6).map(|_| g.below(5)).collect();
    let reply = reply_of(&b, &part, g, lz4, true, REV);
    g.say(format!("{} in blocks of {part:?}, server tz {z}: {}", if complex { "collected" } else { "streamed" }, describe(&b)));
    type_labels(g, &b);
    g.label(if complex { "collected from blocks" } else { "single blocks" });
    g.nontrivial = rows > 0;
    let hello = HelloCfg {
        tz: z.clone(),
        ..Default::default()
    };
    let reclone = g.bool();
    let st = block_on(30, async move {
        let srv = reply_server(hello, Frag::default(), vec![reply]).await;
        let pool = Pool::new(srv.url(if lz4 { "compression=lz4" } else { "" }));
        let mut c = pool.get_handle().await.map_err(|e| format!("connect: {e}"))?;
        let mut st = Stat { yes: 0, no: 0 };
        if complex {
            let r: Block<Complex> = c.query("SELECT 1").fetch_all().await.map_err(|e| format!("fetch_all failed: {e}"))?;
            let r = if reclone { let x = r.clone(); drop(r); x } else { r };
            for (j, col) in r.columns().iter().enumerate() {
                iterate_complex(col, &b.cols[j], &z, &plan, &mut st, true, false)?;
            }
            // cell access agrees
            check_block(&r, &b, &z, false)?;
        } else {
            let v: Vec<Block> = c.query("SELECT 1").stream_blocks().try_collect().await.map_err(|e| format!("stream_blocks failed: {e}"))?;
            let mut at = 0;
            for r in v {
                let r = if reclone { let x = r.clone(); drop(r); x } else { r };
                let n = r.row_count();
                if at + n > b.rows() {
                    return err("too many rows");
                }
                let s = slice(&b, at, n);
                at += n;
                if r.columns().len() != s.cols.len() {
                    return err("column count");
                }
                for (j, col) in r.columns().iter().enumerate() {
                    iterate_simple(col, &s.cols[j], &z, &plan, &mut st, true, false)?;
                }
                check_block(&r, &s, &z, false)?;
            }
            if at != b.rows() {
                return err(format!("{at} rows instead of {}", b.rows()));
            }
        }
        Ok(st)
    })?;
    if st.yes == 0 {
        g.nontrivial = false;
    }
    Ok(())
}

pub static C05: Prop = Prop {
    id: "C05",
    rule: "at least one row and at least one column with a matching element type; distinct by the choices that generated the result",
    level: "exploration",
    assumptions: &["a scripted server with an independent codec stands in for ClickHouse", "fetched columns (one block or collected from several)"],
    checks: &[Check {
        name: "iterate",
        what: "random columns iterated with every matching element type (about 300 element types): items, count, size hints, nth/skip/step_by/last/count from the start and after some steps, the end stays the end, repeated and after cloning, compared with the model and with cell access",
        quick: 40000,
        thorough: 1500000,
        threads: 0,
        f: c05_iter,
    }],
    findings: &[],
};

// ------------------------------------------------------------------ C06
pub fn c06_ways(g: &mut Src) -> Res {
    let z = gen_tz(g);
    let rows = match g.below(4) {
        0 => g.usize(0, 2),
        1 => g.usize(0, 60),
        _ => g.usize(0, 20),
    };
    let nc = g.usize(1, 3);
    let b = gen_blk_sized(g, &TyCfg::server(), nc, rows, 2);
    let lz4 = g.bool();
    let part = gen_partition(g, rows);
    let mut replies = vec![];
    for _ in 0..3 {
        replies.push(reply_of(&b, &part, g, lz4, true, REV));
    }
    // the number of columns may be zero: a result without columns
    let frag = Frag::gen(g, replies[0].len());
    g.say(format!("blocks of {part:?}, lz4={lz4}: {}", describe(&b)));
    g.nontrivial = part.iter().filter(|n| **n > 0).count() > 1;
    if part.contains(&0) {
        g.label("empty block inside");
    }
    if rows == 0 {
        g.label("no rows");
    }
    g.label(match part.iter().filter(|n| **n > 0).count() {
        0 => "0 blocks",
        1 => "1 block",
        2..=4 => "2-4 blocks",
        _ => "5+ blocks",
    });
    let hello = HelloCfg {
        tz: z.clone(),
        ..Default::default()
    };
    let order = g.below(6);
    block_on(30, async move {
        let srv = reply_server(hello, frag, replies).await;
        let pool = Pool::new(srv.url(if lz4 { "compression=lz4" } else { "" }));
        let mut c = pool.get_handle().await.map_err(|e| format!("connect: {e}"))?;
        for k in 0..3u64 {
            match (order + k) % 3 {
                0 => {
                    let r = c.query("SELECT 1").fetch_all().await.map_err(|e| format!("fetch_all failed: {e}"))?;
                    check_block(&r, &b, &z, false).map_err(|e| format!("fetch_all: {e}"))?;
                }
                1 => {
                    let mut s = c.query("SELECT 1").stream();
                    let mut i = 0;
                    while let Some(row) = s.next().await {
                        let row = row.map_err(|e| format!("stream failed: {e}"))?;
                        if i >= b.rows() {
                            return err(format!("stream gave more than {} rows", b.rows()));
                        }
                        if row.len() != b.cols.len() {
                            return err(format!("streamed row {i} has {} columns", row.len()));
                        }
                        for (j, c) in b.cols.iter().enumerate() {
                            let a: Any = row.get(j).map_err(|e| format!("stream row {i}: {e}"))?;
                            let w = expect(&c.ty, &c.vals[i], &z);
                            if a.0 != w {
                                return err(format!("stream: row {i} column {j} is {:?}, sent {w:?}", a.0));
                            }
                            if row.name(j).ok() != Some(c.name.as_str()) {
                                return err(format!("stream: row {i} column {j} named {:?}", row.name(j)));
                            }
                            let t = row.sql_type(j).map_err(|e| format!("stream row {i}: {e}"))?;
                            if lib_ty(&t) != Ok(c.ty.norm(&z)) {
                                return err(format!("stream: row {i} column {j} has type {t}, sent {}", c.ty.name()));
                            }
                        }
                        i += 1;
                    }
                    if i != b.rows() {
                        return err(format!("stream gave {i} rows instead of {}", b.rows()));
                    }
                }
                _ => {
                    let mut s = c.query("SELECT 1").stream_blocks();
                    let mut at = 0;
                    while let Some(r) = s.next().await {
                        let r = r.map_err(|e| format!("stream_blocks failed: {e}"))?;
                        let n = r.row_count();
                        if at + n > b.rows() {
                            return err(format!("stream_blocks gave more than {} rows", b.rows()));
                        }
                        check_block(&r, &slice(&b, at, n), &z, false).map_err(|e| format!("stream_blocks at row {at}: {e}"))?;
                        at += n;
                    }
                    if at != b.rows() {
                        return err(format!("stream_blocks gave {at} rows instead of {}", b.rows()));
                    }
                }
            }
        }
        let e = srv.errors();
        if !e.is_empty() {
            return err(format!("protocol error: {}", e.join("; ")));
        }
        Ok(())
    })
}

pub static C06: Prop = Prop {
    id: "C06",
    rule: "the rows arrive in at least two non-empty blocks; distinct by the choices that generated the result and its packets",
    level: "exploration",
    assumptions: &["a scripted server stands in for ClickHouse", "no totals or extremes packets (the client documents no meaning for them)"],
    checks: &[Check {
        name: "ways",
        what: "random results in random block partitions with empty blocks and progress/profile notices; fetch_all, stream and stream_blocks compared with the model, in any order on one connection",
        quick: 16000,
        thorough: 1000000,
        threads: 0,
        f: c06_ways,
    }],
    findings: &[],
};

// ------------------------------------------------------------------ C22
fn c22_iter(g: &mut Src) -> Res {
    let z = gen_tz(g);
    let rows = g.usize(0, 4);
    let b = gen_iter_blk(g, rows);
    let part = gen_partition(g, rows);
    let complex = g.bool();
    let reply = reply_of(&b, &part, g, false, false, REV);
    g.say(format!("{} {part:?}: {}", if complex { "collected" } else { "streamed" }, describe(&b)));
    type_labels(g, &b);
    g.nontrivial = true;
    let hello = HelloCfg {
        tz: z.clone(),
        ..Default::default()
    };
    block_on(30, async move {
        let srv = reply_server(hello, Frag::default(), vec![reply]).await;
        let pool = Pool::new(srv.url(""));
        let mut c = pool.get_handle().await.map_err(|e| format!("connect: {e}"))?;
        let mut st = Stat { yes: 0, no: 0 };
        if complex {
            let r = c.query("SELECT 1").fetch_all().await.map_err(|e| format!("fetch_all failed: {e}"))?;
            for (j, col) in r.columns().iter().enumerate() {
                iterate_complex(col, &b.cols[j], &z, &[1], &mut st, false, true)?;
            }
        } else {
            let v: Vec<Block> = c.query("SELECT 1").stream_blocks().try_collect().await.map_err(|e| format!("stream_blocks failed: {e}"))?;
            for r in v {
                for (j, col) in r.columns().iter().enumerate() {
                    iterate_simple(col, &b.cols[j], &z, &[1], &mut st, false, true)?;
                }
            }
        }
        Ok(())
    })
}

/// Does reading this cell as a Rust type have to work?
trait Cell {
    fn fit(t: &Ty, v: &Val) -> Fit;
}
macro_rules! cell {
    ($($e:ty: $p:pat),*) => { $( impl Cell for $e {
        fn fit(t: &Ty, _: &Val) -> Fit {
            match inner(t).0 { $p => Fit::Yes, _ => Fit::No }
        }
    } )* };
}
cell! {
    u8: Ty::U(8), u16: Ty::U(16), u32: Ty::U(32), u64: Ty::U(64), u128: Ty::U(128), i8: Ty::I(8), i16: Ty::I(16), i32: Ty::I(32),
    i64: Ty::I(64), i128: Ty::I(128), f32: Ty::F32, f64: Ty::F64, bool: Ty::Bool, &[u8]: Ty::Str | Ty::Fixed(_), Decimal: Ty::Dec(..),
    Ipv4Addr: Ty::Ip4, Ipv6Addr: Ty::Ip6, Uuid: Ty::Uuid, NaiveDate: Ty::Date, DateTime<Tz>: Ty::DateTime(_) | Ty::DT64(..),
    Enum8: Ty::E8(_), Enum16: Ty::E16(_)
}
fn text_fit(t: &Ty, v: &Val) -> Fit {
    match (inner(t).0, v) {
        (Ty::Str | Ty::Fixed(_), Val::Str(b)) if std::str::from_utf8(b).is_ok() => Fit::Yes,
        _ => Fit::No,
    }
}
impl Cell for &str {
    fn fit(t: &Ty, v: &Val) -> Fit {
        text_fit(t, v)
    }
}
impl Cell for String {
    fn fit(t: &Ty, v: &Val) -> Fit {
        text_fit(t, v)
    }
}
/// bytes of a string or an array of numbers
struct ByteVec;
impl Cell for ByteVec {
    fn fit(t: &Ty, _: &Val) -> Fit {
        match inner(t).0 {
            Ty::Str | Ty::Fixed(_) => Fit::Yes,
            Ty::Arr(t) if **t == Ty::U(8) => Fit::Yes,
            _ => Fit::No,
        }
    }
}
impl<T: Cell> Cell for Option<T> {
    fn fit(t: &Ty, v: &Val) -> Fit {
        match (strip(t), v) {
            (Ty::Null(_), Val::Null) => Fit::May,
            (Ty::Null(t), v) => T::fit(t, v),
            _ => Fit::No,
        }
    }
}
impl<T: Cell> Cell for Vec<T> {
    fn fit(t: &Ty, v: &Val) -> Fit {
        match (strip(t), v) {
            (Ty::Arr(t), Val::Arr(vs)) => {
                if vs.is_empty() {
                    return match T::fit(t, &default_val(t)) {
                        Fit::Yes => Fit::May,
                        f => f,
                    };
                }
                let f = vs.iter().fold(Fit::Yes, |f, v| f.and(T::fit(t, v)));
                if matches!(**t, Ty::Fixed(_)) {
                    f.and(Fit::May)
                } else {
                    f
                }
            }
            _ => Fit::No,
        }
    }
}
impl<K: Cell, V: Cell> Cell for HashMap<K, V> {
    fn fit(t: &Ty, v: &Val) -> Fit {
        match (strip(t), v) {
            (Ty::Map(..), Val::Map(vs)) if vs.is_empty() => Fit::May,
            (Ty::Map(k, w), Val::Map(vs)) => vs.iter().fold(Fit::Yes, |f, (a, b)| f.and(K::fit(k, a)).and(V::fit(w, b))),
            _ => Fit::No,
        }
    }
}
thread_local! {
    static CELL: std::cell::Cell<*const (Ty, Val)> = const { std::cell::Cell::new(std::ptr::null()) };
}
/// reads a cell with all the Rust types at once
struct All(Result<usize, String>);
impl<'a> FromSql<'a> for All {
    fn from_sql(v: ValueRef<'a>) -> FromSqlResult<Self> {
        let c = unsafe { &*CELL.with(|c| c.get()) };
        Ok(All(all_types(v, &c.0, &c.1)))
    }
}
fn wrong_cells<K: clickhouse_rs::types::ColumnType>(b: &Block<K>, i: usize, j: usize, c: &Col, row: usize) -> Result<usize, String> {
    let k = (c.ty.clone(), c.vals[row].clone());
    CELL.with(|c| c.set(&k));
    b.get::<All, _>(i, j).map_err(|e| format!("{e}"))?.0
}
fn all_types(cell: ValueRef, ty: &Ty, v: &Val) -> Result<usize, String> {
    let mut n = 0;
    macro_rules! one {
        ($e:ty, $f:ty) => {{
            let fit = <$f as Cell>::fit(ty, v);
            let r = <$e as FromSql>::from_sql(cell.clone());
            match (fit, r.is_ok()) {
                (Fit::No, true) => {
                    return err(format!("cell {v:?} of {} can be read as {}: {:?}", ty.name(), stringify!($e), r.ok()));
                }
                (Fit::Yes, false) => {
                    return err(format!("cell {v:?} of {} cannot be read as {}", ty.name(), stringify!($e)));
                }
                (Fit::No, _) => n += 1,
                _ => {}
            }
        }};
        ($e:ty) => { one!($e, $e) };
    }
    macro_rules! leaves {
        ($($e:ty),*) => { $( one!($e); one!(Option<$e>); one!(HashMap<&str, $e>); one!(HashMap<i64, Option<$e>>); )* };
    }
    leaves!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, bool, &[u8], &str, String, Decimal, Ipv4Addr, Ipv6Addr, Uuid,
        NaiveDate, DateTime<Tz>, Enum8, Enum16);
    macro_rules! vecs {
        ($($e:ty),*) => { $( one!(Vec<$e>); one!(HashMap<&[u8], Vec<$e>>); )* };
    }
    vecs!(u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, bool, &[u8], &str, String, NaiveDate, DateTime<Tz>, Enum8, Enum16);
    one!(Vec<u8>, ByteVec);
    one!(Option<Vec<u8>>, Option<ByteVec>);
    one!(Option<Option<u8>>);
    one!(HashMap<u8, HashMap<u8, u8>>);
    Ok(n)
}
fn c22_cells(g: &mut Src) -> Res {
    let z = gen_tz(g);
    let rows = g.usize(1, 3);
    let b = if g.bool() { gen_iter_blk(g, rows) } else { let nc = g.usize(1, 3); gen_blk_sized(g, &TyCfg::server(), nc, rows, 2) };
    let complex = g.bool();
    let reply = reply_of(&b, &[rows], g, false, false, REV);
    g.say(format!("{}: {}", if complex { "collected" } else { "streamed" }, describe(&b)));
    type_labels(g, &b);
    g.nontrivial = true;
    let hello = HelloCfg {
        tz: z.clone(),
        ..Default::default()
    };
    let missing: String = {
        let mut m = g.ident();
        while b.cols.iter().any(|c| c.name == m) {
            m.push('_');
        }
        m
    };
    // near misses of existing names
    let mut near: Vec<String> = vec![missing, String::new()];
    for c in &b.cols {
        near.push(format!("{} ", c.name));
        near.push(c.name.to_uppercase());
        near.push(c.name.chars().skip(1).collect());
        near.push(format!("{}x", c.name));
    }
    near.retain(|m| !b.cols.iter().any(|c| c.name == *m));
    let beyond = g.usize(0, 3);
    fn misses<K: clickhouse_rs::types::ColumnType>(r: &Block<K>, near: &[String], beyond: usize) -> Res {
        for m in near {
            if r.get::<Any, _>(0, m.as_str()).is_ok() {
                return err(format!("a value was returned for the column {m:?} that does not exist"));
            }
            for row in r.rows() {
                if row.get::<Any, _>(m.as_str()).is_ok() || row.name(m.as_str()).is_ok() || row.sql_type(m.as_str()).is_ok() {
                    return err(format!("a row answered for the column {m:?} that does not exist"));
                }
            }
        }
        // rows and columns beyond the end: refused (an error or a panic, as for slices), never a value
        for j in 0..r.column_count() {
            let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| r.get::<Any, _>(r.row_count() + beyond, j).map(|a| format!("{:?}", a.0))));
            take_panic();
            if let Ok(Ok(x)) = x {
                return err(format!("row {} of {} rows of column {} reads {x}", r.row_count() + beyond, r.row_count(), r.columns()[j].sql_type()));
            }
        }
        Ok(())
    }
    block_on(30, async move {
        let srv = reply_server(hello, Frag::default(), vec![reply]).await;
        let pool = Pool::new(srv.url(""));
        let mut c = pool.get_handle().await.map_err(|e| format!("connect: {e}"))?;
        if complex {
            let r = c.query("SELECT 1").fetch_all().await.map_err(|e| format!("fetch_all failed: {e}"))?;
            for (j, c) in b.cols.iter().enumerate() {
                for i in 0..r.row_count() {
                    wrong_cells(&r, i, j, c, i)?;
                }
            }
            misses(&r, &near, beyond)?;
        } else {
            let v: Vec<Block> = c.query("SELECT 1").stream_blocks().try_collect().await.map_err(|e| format!("stream_blocks failed: {e}"))?;
            for r in v {
                for (j, c) in b.cols.iter().enumerate() {
                    for i in 0..r.row_count() {
                        wrong_cells(&r, i, j, c, i)?;
                    }
                }
                misses(&r, &near, beyond)?;
            }
        }
        Ok(())
    })
}
/// the same for blocks built by the user
fn c22_built(g: &mut Src) -> Res {
    let z = gen_tz(g);
    let rows = g.usize(1, 3);
    let nc = g.usize(1, 3);
    let mut b = as_client(gen_blk_sized(g, &TyCfg::client(), nc, rows, 2));
    plain_names(&mut b);
    let by_cols = g.bool();
    g.say(format!("built by {}: {}", if by_cols { "columns" } else { "rows" }, describe(&b)));
    type_labels(g, &b);
    g.nontrivial = true;
    let block = if by_cols { build_cols(&b, &z, g)? } else { build_rows(&b, &z, g)? };
    for (j, c) in b.cols.iter().enumerate() {
        // the client's own timestamps are compared in C19
        for i in 0..rows {
            wrong_cells(&block, i, j, c, i)?;
        }
        let mut st = Stat { yes: 0, no: 0 };
        iterate_simple(&block.columns()[j], c, &z, &[1], &mut st, false, true)?;
    }
    Ok(())
}
pub static C22: Prop = Prop {
    id: "C22",
    rule: "every case reads columns with many non-matching types; distinct by the choices that generated the columns",
    level: "exploration",
    assumptions: &["a NULL read as an Option of another type and an empty map read as another map type may succeed (there is no value to reinterpret)", "indexes beyond the end may panic as slices do, but never return a value"],
    checks: &[
        Check {
            name: "iterate",
            what: "random fetched columns iterated with all non-matching element types (about 300): each has to be refused",
            quick: 15000,
            thorough: 500000,
            threads: 0,
            f: c22_iter,
        },
        Check {
            name: "cells",
            what: "random fetched cells read with about 150 Rust types: accepted exactly for matching ones; unknown column names and indexes beyond the end are refused",
            quick: 40000,
            thorough: 800000,
            threads: 0,
            f: c22_cells,
        },
        Check {
            name: "built",
            what: "the same for blocks built by rows or columns",
            quick: 40000,
            thorough: 800000,
            threads: 0,
            f: c22_built,
        },
    ],
    findings: &[],
};
