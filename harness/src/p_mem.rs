//! C17 blocks in memory, C18 decimals, C19 dates and times, C23 values.
use crate::gen::*;
use crate::lib_build::*;
use crate::model::*;
use crate::p_data::*;
use crate::run::*;
use crate::server::*;
use chrono::Datelike;
use chrono::{DateTime, NaiveDate, NaiveDateTime, TimeZone, Utc};
use chrono_tz::Tz;
use clickhouse_rs::types::{Complex, Decimal, Enum16, Enum8, RNil, SqlType, Value, ValueRef};
use clickhouse_rs::{Block, Pool};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

/// what ordinary equality of the held values says: None where the client may choose
pub fn eqv(t1: &Ty, v1: &Val, t2: &Ty, v2: &Val, z: &str) -> Option<bool> {
    use Val::*;
    match (t1, t2) {
        (Ty::Lc(t) | Ty::Agg(_, t), _) => return eqv(t, v1, t2, v2, z),
        (_, Ty::Lc(t) | Ty::Agg(_, t)) => return eqv(t1, v1, t, v2, z),
        _ => {}
    }
    let same_ty = |a: &Ty, b: &Ty| sql_type(a, z) == sql_type(b, z);
    match (t1, v1, t2, v2) {
        (Ty::Null(a), Null, Ty::Null(b), Null) => Some(same_ty(a, b)),
        (Ty::Null(_), Null, Ty::Null(_), _) | (Ty::Null(_), _, Ty::Null(_), Null) => Some(false),
        (Ty::Null(a), x, Ty::Null(b), y) => eqv(a, x, b, y, z),
        (Ty::Null(_), ..) | (_, _, Ty::Null(_), _) => Some(false),
        (Ty::Arr(a), Arr(x), Ty::Arr(b), Arr(y)) => {
            if !same_ty(a, b) || x.len() != y.len() {
                return Some(false);
            }
            all_eq(x.iter().zip(y).map(|(p, q)| eqv(a, p, b, q, z)))
        }
        (Ty::Map(k, a), Map(x), Ty::Map(l, b), Map(y)) => {
            if !same_ty(k, l) || !same_ty(a, b) || x.len() != y.len() {
                return Some(false);
            }
            let mut out = vec![];
            for (p, q) in x {
                match y.iter().find(|(r, _)| eqv(k, p, l, r, z) == Some(true)) {
                    None => return Some(false),
                    Some((_, s)) => out.push(eqv(a, q, b, s, z)),
                }
            }
            all_eq(out.into_iter())
        }
        (Ty::U(a), U(x), Ty::U(b), U(y)) => Some(a == b && x == y),
        (Ty::I(a), I(x), Ty::I(b), I(y)) => Some(a == b && x == y),
        (_, F32(x), _, F32(y)) => Some(f32::from_bits(*x) == f32::from_bits(*y)),
        (_, F64(x), _, F64(y)) => Some(f64::from_bits(*x) == f64::from_bits(*y)),
        (Ty::Dec(_, s), Dec(x), Ty::Dec(_, u), Dec(y)) => Some(*x as i128 * 10i128.pow(*u as u32) == *y as i128 * 10i128.pow(*s as u32)),
        (Ty::E8(a), E8(x), Ty::E8(b), E8(y)) => Some(a == b && x == y),
        (Ty::E16(a), E16(x), Ty::E16(b), E16(y)) => Some(a == b && x == y),
        (Ty::DT64(p, _), DT64(x), Ty::DT64(q, _), DT64(y)) => {
            if p == q {
                Some(x == y)
            } else if *x as i128 * 10i128.pow(9 - p) == *y as i128 * 10i128.pow(9 - q) {
                None
            } else {
                Some(false)
            }
        }
        (_, a, _, b) => Some(a == b),
    }
}
fn all_eq(it: impl Iterator<Item = Option<bool>>) -> Option<bool> {
    let mut r = Some(true);
    for x in it {
        match x {
            Some(false) => return Some(false),
            None => r = None,
            Some(true) => {}
        }
    }
    r
}
fn blk_eq(a: &Blk, b: &Blk, z: &str) -> Option<bool> {
    if a.cols.len() != b.cols.len() {
        return Some(false);
    }
    all_eq(a.cols.iter().zip(&b.cols).map(|(x, y)| {
        if x.vals.len() != y.vals.len() || sql_type(&x.ty, z) != sql_type(&y.ty, z) {
            return Some(false);
        }
        all_eq(x.vals.iter().zip(&y.vals).map(|(p, q)| eqv(&x.ty, p, &y.ty, q, z)))
    }))
}

// ------------------------------------------------------------------ C17
/// push through the chained builder the row! macro makes
fn push_chain(b: &mut Block, row: Vec<(String, Value)>) -> clickhouse_rs::errors::Result<()> {
    // the first cell is the outermost and is applied first
    let mut it = row.into_iter();
    macro_rules! nx {
        ($c:expr) => {{
            let (k, v) = it.next().unwrap();
            $c.put(k.into(), v)
        }};
    }
    match it.len() {
        0 => b.push(RNil),
        1 => b.push(nx!(RNil)),
        2 => b.push(nx!(nx!(RNil))),
        3 => b.push(nx!(nx!(nx!(RNil)))),
        4 => b.push(nx!(nx!(nx!(nx!(RNil))))),
        5 => b.push(nx!(nx!(nx!(nx!(nx!(RNil)))))),
        _ => b.push(nx!(nx!(nx!(nx!(nx!(nx!(RNil))))))),
    }
}
/// the typed constructor gives the column exactly this type (enum columns have no names, empty decimals a default scale)
fn typed_ok(c: &Col) -> bool {
    !c.ty.any(&mut |t| matches!(t, Ty::E8(_) | Ty::E16(_))) && !(c.ty.any(&mut |t| matches!(t, Ty::Dec(..))) && !c.vals.iter().any(|v| matches!(v, Val::Dec(_))))
}
fn cols17(m: &Blk, z: &str, g: &mut Src) -> Result<Block, String> {
    let mut out = Block::new();
    for c in &m.cols {
        let r = if typed_ok(c) { add_typed(out, c, z, g) } else { Err(out) };
        out = match r {
            Ok(b) => b,
            Err(_) if c.vals.is_empty() => return err("SKIP"),
            Err(b) => {
                let t = build_rows(&Blk { cols: vec![c.clone()] }, z, g)?;
                b.add_column(&c.name, t.columns()[0].clone())
            }
        };
    }
    Ok(out)
}
struct Ent {
    b: Block,
    m: Blk,
}
fn fresh_name(g: &mut Src, m: &Blk) -> String {
    let mut n = if g.bool() { g.ident() } else { gen_names(g, 1).pop().unwrap() };
    while m.cols.iter().any(|c| c.name == n) {
        n.push('x');
    }
    n
}
fn shuffle<T>(g: &mut Src, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = i - g.usize(0, i);
        v.swap(i, j);
    }
}
fn c17_history(g: &mut Src) -> Res {
    let z = gen_tz(g);
    let cfg = TyCfg::client();
    let steps = g.usize(2, 14);
    let mut es: Vec<Ent> = vec![];
    let mut log: Vec<String> = vec![];
    let mut rejected = 0;
    let mut pushes = 0;
    for step in 0..steps {
        let op = if es.is_empty() { 0 } else { g.weighted(&[2, 8, 4, 3, 3, 2, 3, 2, 2]) };
        let k = if es.is_empty() { 0 } else { g.usize(0, es.len() - 1) };
        match op {
            0 => {
                // a new block, empty or by rows or by columns
                let nc = g.usize(0, 4);
                let nr = g.usize(0, 4);
                let mut m = as_client(gen_blk_sized(g, &cfg, nc, nr, 2));
                let how = g.below(3);
                log.push(format!("new({how}) {}", describe(&m)));
                let b = if nc == 0 || how == 0 || (nr == 0 && how == 1) {
                    m = Blk { cols: vec![] };
                    if g.bool() {
                        Block::new()
                    } else {
                        Block::with_capacity(g.usize(0, 9))
                    }
                } else if how == 1 {
                    build_rows(&m, &z, g)?
                } else {
                    match cols17(&m, &z, g) {
                        Ok(b) => b,
                        Err(e) if e == "SKIP" => {
                            m = Blk { cols: vec![] };
                            Block::new()
                        }
                        Err(e) => return Err(e),
                    }
                };
                if es.len() < 4 {
                    es.push(Ent { b, m });
                } else {
                    es[k] = Ent { b, m };
                }
            }
            1 => {
                // a good row
                if es[k].m.cols.is_empty() {
                    let nc = g.usize(1, 4);
                    es[k].m = as_client(gen_blk_sized(g, &cfg, nc, 0, 2));
                    let row: Vec<Val> = es[k].m.cols.iter().map(|c| gen_val(g, &c.ty)).collect();
                    es[k].m.cols.iter_mut().zip(row).for_each(|(c, v)| c.vals.push(v));
                    let i = 0;
                    let row = row_of(&es[k].m, i, &z);
                    log.push(format!("first row of {k}: {}", describe(&es[k].m)));
                    let r = if g.bool() { push_chain(&mut es[k].b, row) } else { es[k].b.push(row) };
                    r.map_err(|e| format!("step {step}: first row rejected: {e}"))?;
                } else {
                    let vs: Vec<Val> = es[k].m.cols.iter().map(|c| gen_val(g, &c.ty)).collect();
                    let e = &mut es[k];
                    e.m.cols.iter_mut().zip(vs).for_each(|(c, v)| c.vals.push(v));
                    let mut row = row_of(&e.m, e.m.rows() - 1, &z);
                    shuffle(g, &mut row);
                    let chain = g.bool();
                    log.push(format!("push to {k} (chain {chain}) {}", row.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join(",")));
                    let r = if chain { push_chain(&mut e.b, row) } else { e.b.push(row) };
                    r.map_err(|e| format!("step {step}: good row rejected: {e}"))?;
                }
                pushes += 1;
            }
            2 => {
                // a bad row
                let e = &mut es[k];
                if e.m.rows() == 0 {
                    continue;
                }
                let i = g.usize(0, e.m.rows() - 1);
                let mut row = row_of(&e.m, i, &z);
                let extra = fresh_name(g, &e.m);
                let kind = g.below(5);
                let at = g.usize(0, row.len() - 1);
                match kind {
                    0 => row.push((extra, row[at].1.clone())),
                    1 => row[at].0 = extra,
                    2 => {
                        row.remove(at);
                    }
                    3 => {
                        let d = row[at].clone();
                        row.push(d);
                    }
                    _ => {
                        let other = g.usize(0, row.len() - 1);
                        if row.len() < 2 || other == at {
                            continue;
                        }
                        row[at] = row[other].clone();
                    }
                }
                shuffle(g, &mut row);
                let chain = g.bool() && row.len() <= 6;
                log.push(format!("bad row {kind} to {k} (chain {chain}) {}", row.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join(",")));
                let what = ["unknown extra column", "unknown column", "missing column", "column named twice", "column named twice"][kind as usize];
                let r = if chain { push_chain(&mut e.b, row) } else { e.b.push(row) };
                if r.is_ok() {
                    g.say(log.join("; "));
                    return err(format!("step {step}: a row with {what} was accepted"));
                }
                rejected += 1;
            }
            3 => {
                let c = Ent { b: es[k].b.clone(), m: es[k].m.clone() };
                log.push(format!("clone {k}"));
                if es.len() < 4 {
                    es.push(c);
                } else {
                    let j = (k + 1) % 4;
                    es[j] = c;
                }
            }
            4 => {
                // another column
                let e = &es[k];
                if e.m.cols.len() >= 6 || (e.m.rows() == 0 && !e.m.cols.is_empty()) {
                    continue;
                }
                let n = if e.m.cols.is_empty() { g.usize(1, 5) } else { e.m.rows() };
                let mut one = as_client(gen_blk_sized(g, &cfg, 1, n, 2));
                one.cols[0].name = fresh_name(g, &e.m);
                let c = one.cols.pop().unwrap();
                log.push(format!("column {} {} to {k}", c.name, c.ty.name()));
                let e = &mut es[k];
                let b = std::mem::take(&mut e.b);
                let typed = g.bool();
                e.b = match if typed && typed_ok(&c) { add_typed(b, &c, &z, g) } else { Err(b) } {
                    Ok(b) => b,
                    Err(b) => {
                        let t = build_rows(&Blk { cols: vec![c.clone()] }, &z, g)?;
                        b.add_column(&c.name, t.columns()[0].clone())
                    }
                };
                e.m.cols.push(c);
            }
            5 => {
                // a column of one block becomes a column of a new one
                let e = &es[k];
                if e.m.cols.is_empty() {
                    continue;
                }
                let j = g.usize(0, e.m.cols.len() - 1);
                let name = fresh_name(g, &e.m);
                let b = Block::new().column(&name, e.b.columns()[j].clone());
                let mut c = e.m.cols[j].clone();
                log.push(format!("column {j} of {k} into a new block as {name}"));
                c.name = name;
                let n = Ent { b, m: Blk { cols: vec![c] } };
                if es.len() < 4 {
                    es.push(n);
                } else {
                    es[(k + 1) % 4] = n;
                }
            }
            6 => {
                // built again another way, under other names: equal
                let e = &es[k];
                if e.m.rows() == 0 {
                    continue;
                }
                let mut m = e.m.clone();
                let rename = g.bool();
                if rename {
                    for c in &mut m.cols {
                        c.name = format!("r{}", c.name);
                    }
                }
                let cols = g.bool();
                let b = if cols { cols17(&m, &z, g)? } else { build_rows(&m, &z, g)? };
                log.push(format!("rebuild {k} cols={cols} rename={rename}"));
                if let Some(w) = blk_eq(&e.m, &m, &z) {
                    // a typed column of zoned timestamps has its own type until it is sent
                    let chrono = m.cols.iter().any(|c| c.ty.any(&mut |t| matches!(t, Ty::DateTime(_))));
                    if !chrono && ((e.b == b) != w || (b == e.b) != w) {
                        g.say(log.join("; "));
                        return err(format!("step {step}: a block built again from the same data compares {} (expected {w})", e.b == b));
                    }
                }
            }
            7 => {
                // compare two blocks
                let j = g.usize(0, es.len() - 1);
                let chrono = |m: &Blk| m.cols.iter().any(|c| c.ty.any(&mut |t| matches!(t, Ty::DateTime(_))));
                if chrono(&es[k].m) || chrono(&es[j].m) {
                    continue;
                }
                if let Some(w) = blk_eq(&es[k].m, &es[j].m, &z) {
                    let (a, b) = (es[k].b == es[j].b, es[j].b == es[k].b);
                    log.push(format!("compare {k} {j}: {w}"));
                    if a != w || b != w {
                        g.say(log.join("; "));
                        return err(format!("step {step}: comparing blocks gives {a} and {b} (expected {w})"));
                    }
                }
            }
            _ => {
                log.push(format!("drop {k}"));
                es.swap_remove(k);
            }
        }
        for (i, e) in es.iter().enumerate() {
            let fail = |m: String| format!("step {step}, block {i}: {m}");
            let empty = e.m.cols.is_empty();
            if e.b.is_empty() != empty || e.b.column_count() != e.m.cols.len() {
                g.say(log.join("; "));
                return Err(fail(format!("is_empty {} with {} columns, expected {} columns", e.b.is_empty(), e.b.column_count(), e.m.cols.len())));
            }
            for c in &e.b.columns()[..] {
                // every column has as many cells as the block has rows
                let n = c.iter_len();
                if n != e.m.rows() {
                    g.say(log.join("; "));
                    return Err(fail(format!("column {} has {n} cells, expected {}", c.name(), e.m.rows())));
                }
            }
            if let Err(m) = check_block(&e.b, &e.m, &z, false) {
                g.say(log.join("; "));
                return Err(fail(m));
            }
            if step + 1 == steps && !e.m.cols.is_empty() {
                let text = format!("{:?}", e.b);
                for c in &e.m.cols {
                    if !text.contains(&c.name) {
                        return Err(fail(format!("printed block lacks column {:?}", c.name)));
                    }
                }
                let nope = fresh_name(g, &e.m);
                if e.b.get_column(nope.as_str()).is_ok() {
                    return Err(fail(format!("found column {nope:?}")));
                }
            }
        }
    }
    if rejected > 0 {
        g.label("rejected row");
    }
    if pushes > 0 {
        g.label("row pushed");
    }
    g.say(log.join("; "));
    g.nontrivial = pushes + rejected > 0;
    Ok(())
}
trait IterLen {
    fn iter_len(&self) -> usize;
}
impl IterLen for clickhouse_rs::types::Column<clickhouse_rs::types::Simple> {
    fn iter_len(&self) -> usize {
        // the length is not public: the block of this column alone tells it
        Block::new().column("x", self.clone()).row_count()
    }
}
fn c17_sizes(g: &mut Src) -> Res {
    // columns of different sizes must not get into one block
    let z = gen_tz(g);
    let (a, b) = (g.usize(0, 6), g.usize(0, 6));
    let cfg = TyCfg::client();
    let m = as_client(gen_blk_sized(g, &cfg, 1, a, 1));
    let x = match cols17(&m, &z, g) {
        Ok(b) => b,
        Err(_) => return Ok(()),
    };
    g.say(format!("{a} rows then a column of {b}"));
    g.nontrivial = a != b;
    let r = catch_unwind(AssertUnwindSafe(move || x.column("second", vec![7u8; b])));
    take_panic();
    match r {
        Ok(blk) if a != b => err(format!("a column of {b} cells was added to a block of {} rows", blk.row_count())),
        Err(_) if a == b => err("a column of the block's size was refused"),
        Ok(blk) => {
            let mut want = m.clone();
            want.cols.push(Col { name: "second".into(), ty: Ty::U(8), vals: vec![Val::U(7); b] });
            check_block(&blk, &want, &z, false).map(|_| ())
        }
        _ => Ok(()),
    }
}
pub static C17: Prop = Prop {
    id: "C17",
    rule: "at least one row was pushed (accepted or rejected), or the two columns have different sizes; distinct by the recorded choices",
    level: "exploration",
    assumptions: &["zoned timestamps in memory have whole seconds in the DateTime range", "values of a type other than the column's panic by design and are not generated"],
    checks: &[
        Check {
            name: "history",
            what: "random histories of new/push/rejected push/clone/add column/share column/compare/drop over up to four blocks against a model, every block checked in full after every step",
            quick: 180000,
            thorough: 3600000,
            threads: 0,
            f: c17_history,
        },
        Check {
            name: "sizes",
            what: "a column is added exactly when its size is the block's",
            quick: 30000,
            thorough: 600000,
            threads: 0,
            f: c17_sizes,
        },
    ],
    findings: &[],
};

// ------------------------------------------------------------------ C18
fn dec_text(u: i128, s: u32) -> String {
    let f = 10i128.pow(s);
    let (i, r) = (u.abs() / f, u.abs() % f);
    let sign = if u < 0 { "-" } else { "" };
    if s == 0 {
        format!("{sign}{i}")
    } else {
        format!("{sign}{i}.{r:0w$}", w = s as usize)
    }
}
fn gen_underlying(g: &mut Src) -> i64 {
    match g.below(6) {
        0 => g.range_i64(-20, 20),
        1 => {
            let k = g.below(19) as u32;
            let b = 10i64.pow(k);
            let b = b.saturating_add(g.range_i64(-1, 1));
            if g.bool() {
                -b
            } else {
                b
            }
        }
        2 => {
            // trailing zeros
            let k = g.below(18) as u32;
            let m = g.range_i64(-999, 999);
            m.checked_mul(10i64.pow(k)).unwrap_or(m)
        }
        3 => *g.pick(&[i64::MIN, i64::MAX, i64::MIN + 1, i32::MIN as i64, i32::MAX as i64, 999_999_999_999_999_999, -999_999_999_999_999_999]),
        _ => g.raw() as i64,
    }
}
fn near(a: f64, b: f64, eps: f64) -> bool {
    a == b || (a - b).abs() <= b.abs() * eps
}
fn check_dec(d: &Decimal, u: i64, s: u8) -> Res {
    let want = dec_text(u as i128, s as u32);
    if d.to_string() != want || format!("{d:?}") != want {
        return err(format!("{u} with scale {s} prints {d}, expected {want}"));
    }
    if d.scale() != s as usize {
        return err(format!("{want} has scale {}, expected {s}", d.scale()));
    }
    let i: i64 = d.internal();
    if i != u {
        return err(format!("{want}: internal {i}, expected {u}"));
    }
    if let Ok(x) = i32::try_from(u) {
        let i: i32 = d.internal();
        if i != x {
            return err(format!("{want}: internal i32 {i}, expected {x}"));
        }
    }
    // the nearest double of the exact number; the client's division may be off by an ulp or so
    let exact: f64 = want.parse().unwrap();
    let f = f64::from(d.clone());
    if !near(f, exact, 4.0 * f64::EPSILON) {
        return err(format!("{want} as f64 is {f:e}, expected {exact:e}"));
    }
    let exact32: f32 = want.parse().unwrap();
    let f = f32::from(d.clone());
    if !near(f as f64, exact32 as f64, 4.0 * f32::EPSILON as f64) {
        return err(format!("{want} as f32 is {f:e}, expected {exact32:e}"));
    }
    Ok(())
}
fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn c18_number(g: &mut Src) -> Res {
    let s = g.below(19) as u8;
    match g.below(4) {
        0 => {
            let u = gen_underlying(g);
            g.say(format!("new({u}, {s})"));
            g.nontrivial = u != 0;
            check_dec(&Decimal::new(u, s), u, s)
        }
        1 => {
            // from integers of every width
            let bits = *g.pick(&[8u32, 16, 32, 64]);
            let signed = g.bool();
            let x: i128 = match g.below(3) {
                0 => {
                    let u = g.uint(bits);
                    if signed {
                        let sh = 128 - bits;
                        ((u << sh) as i128) >> sh
                    } else {
                        u as i128
                    }
                }
                1 => g.range_i64(if signed { -100 } else { 0 }, 100) as i128,
                _ => {
                    // near the largest that fits
                    let m = 10i128.pow(18 - s as u32);
                    let v = m + g.range_i64(-2, 2) as i128;
                    if signed && g.bool() {
                        -v
                    } else {
                        v.max(0)
                    }
                }
            };
            let fits = if signed { x >= -(1i128 << (bits - 1)) && x < (1i128 << (bits - 1)) } else { x >= 0 && x < (1i128 << bits) };
            if !fits {
                return Ok(());
            }
            g.say(format!("of({x} as {}{bits}, {s})", if signed { 'i' } else { 'u' }));
            g.nontrivial = x != 0;
            let r = catch_unwind(AssertUnwindSafe(|| match (signed, bits) {
                (true, 8) => Decimal::of(x as i8, s),
                (true, 16) => Decimal::of(x as i16, s),
                (true, 32) => Decimal::of(x as i32, s),
                (true, _) => Decimal::of(x as i64, s),
                (false, 8) => Decimal::of(x as u8, s),
                (false, 16) => Decimal::of(x as u16, s),
                (false, 32) => Decimal::of(x as u32, s),
                (false, _) => Decimal::of(x as u64, s),
            }));
            take_panic();
            let u = x * 10i128.pow(s as u32);
            let lim = 10i128.pow(18);
            match r {
                Ok(d) => {
                    if u.abs() > lim {
                        return err(format!("of({x}, {s}) needs more than 18 digits and became {d}"));
                    }
                    check_dec(&d, u as i64, s)
                }
                Err(_) if u.abs() >= lim => Ok(()),
                Err(_) => err(format!("of({x}, {s}) panicked")),
            }
        }
        2 => {
            // from floats: exact when the product is, else off by less than a unit (and the float's own error)
            let s = s.min(15);
            let single = g.bool();
            let x: f64 = match g.below(3) {
                0 => g.range_i64(-1_000_000, 1_000_000) as f64 / (1u64 << g.below(12)) as f64,
                1 => {
                    let k = g.range_i64(-999_999, 999_999) as f64;
                    k / 10f64.powi(g.below(6) as i32)
                }
                _ => g.range_i64(-(1 << 40), 1 << 40) as f64 / 1e6,
            };
            let x = if single { x as f32 as f64 } else { x };
            if (x * 10f64.powi(s as i32)).abs() > 9e17 {
                return Ok(());
            }
            g.say(format!("of({x:?} as {}, {s})", if single { "f32" } else { "f64" }));
            g.nontrivial = x != 0.0;
            let d = if single { Decimal::of(x as f32, s) } else { Decimal::of(x, s) };
            let i: i64 = d.internal();
            check_dec(&d, i, s)?;
            // exact value of x is m * 2^e
            let (m, e) = {
                let b = x.abs().to_bits();
                let ex = (b >> 52) as i64;
                let fr = (b & ((1 << 52) - 1)) as i128;
                if ex == 0 {
                    (fr, -1074)
                } else {
                    (fr | 1 << 52, ex - 1075)
                }
            };
            // x = 0 or |x| >= 2^-20ish here: e > -80
            let num = m * 10i128.pow(s as u32);
            let (q, exact) = if e >= 0 {
                (num << e, true)
            } else if e > -127 {
                (num >> (-e), num & ((1i128 << (-e)) - 1) == 0)
            } else {
                (0, m == 0)
            };
            let got = (i as i128).abs();
            let prec = if single { 24 } else { 53 };
            let slack = (q >> (prec - 1)) + 1;
            if (got - q).abs() > slack || (i < 0 && x > 0.0) || (i > 0 && x < 0.0) {
                return err(format!("of({x:?}, {s}) is {d}"));
            }
            if exact && q < (1i128 << prec) && got != q {
                return err(format!("of({x:?}, {s}) is {d}, not exact"));
            }
            Ok(())
        }
        _ => {
            let s = 19 + g.below(237) as u8;
            g.say(format!("scale {s}"));
            g.nontrivial = true;
            let a = catch_unwind(|| Decimal::new(1, s));
            let b = catch_unwind(|| Decimal::of(1, s));
            let c = catch_unwind(|| Decimal::of(0.0, s));
            take_panic();
            if let Ok(d) = a.or(b).or(c) {
                return err(format!("a decimal of scale {s} was accepted: scale {}", d.scale()));
            }
            Ok(())
        }
    }
}
fn c18_compare(g: &mut Src) -> Res {
    let (s, t) = (g.below(19) as u8, g.below(19) as u8);
    let x = gen_underlying(g);
    let y = match g.below(4) {
        // the same number at the other scale if there is one, or a neighbour
        0..=2 => {
            let n = x as i128 * 10i128.pow(t as u32) / 10i128.pow(s as u32);
            let n = if g.chance(1, 3) { n + g.range_i64(-1, 1) as i128 } else { n };
            n.clamp(i64::MIN as i128, i64::MAX as i128) as i64
        }
        _ => gen_underlying(g),
    };
    g.say(format!("{} and {}", dec_text(x as i128, s as u32), dec_text(y as i128, t as u32)));
    let (a, b) = (Decimal::new(x, s), Decimal::new(y, t));
    let want = x as i128 * 10i128.pow(t as u32) == y as i128 * 10i128.pow(s as u32);
    g.nontrivial = s != t;
    g.label(if want { "equal" } else { "different" });
    if (a == b) != want || (b == a) != want || (a != b) == want {
        return err(format!("{a} == {b} is {}", a == b));
    }
    let (va, vb) = (Value::Decimal(a.clone()), Value::Decimal(b.clone()));
    if (va == vb) != want {
        return err(format!("as values, {a} == {b} is {}", va == vb));
    }
    let (ra, rb) = (ValueRef::from(&va), ValueRef::from(&vb));
    if (ra == rb) != want {
        return err(format!("as borrowed values, {a} == {b} is {}", ra == rb));
    }
    if want && (hash_of(&a) != hash_of(&b) || hash_of(&va) != hash_of(&vb) || hash_of(&ra) != hash_of(&rb)) {
        return err(format!("{a} and {b} are equal with different hashes"));
    }
    Ok(())
}
/// decimals of many scales pushed into one column: stored exactly or refused
fn c18_column(g: &mut Src) -> Res {
    let s0 = g.below(19) as u8;
    let first = gen_underlying(g);
    let nullable = g.bool();
    let wrap = |d: Decimal| if nullable { Value::Nullable(either::Either::Right(Box::new(Value::Decimal(d)))) } else { Value::Decimal(d) };
    let mut b = Block::new();
    b.push(vec![("d".to_string(), wrap(Decimal::new(first, s0)))]).map_err(|e| format!("push: {e}"))?;
    let mut want = vec![(first as i128, s0)];
    for _ in 0..g.usize(1, 4) {
        let s = g.below(19) as u8;
        let x = gen_underlying(g);
        let n = x as i128 * 10i128.pow(s0 as u32);
        let f = 10i128.pow(s as u32);
        let exact = n % f == 0 && i64::try_from(n / f).is_ok();
        let row = vec![("d".to_string(), wrap(Decimal::new(x, s)))];
        let before = b.clone();
        let r = catch_unwind(AssertUnwindSafe(|| b.push(row).map_err(|e| e.to_string())));
        take_panic();
        g.label(if exact { "representable" } else { "not representable" });
        match r {
            Ok(Ok(())) if exact => want.push((n / f, s0)),
            Ok(Ok(())) => {
                let got: Result<Option<Decimal>, _> = if nullable { b.get(want.len(), 0) } else { b.get::<Decimal, _>(want.len(), 0).map(Some) };
                return err(format!("{} pushed into a column of scale {s0} became {got:?}", dec_text(x as i128, s as u32)));
            }
            _ if !exact => b = before,
            Ok(Err(e)) => return err(format!("{} refused by a column of scale {s0}: {e}", dec_text(x as i128, s as u32))),
            Err(_) => return err(format!("{} into a column of scale {s0} panicked", dec_text(x as i128, s as u32))),
        }
    }
    g.say(format!("scale {s0}: {want:?}"));
    g.nontrivial = want.len() > 1;
    for (i, (u, s)) in want.iter().enumerate() {
        let d: Decimal = if nullable {
            b.get::<Option<Decimal>, _>(i, 0).map_err(|e| e.to_string())?.ok_or("null")?
        } else {
            b.get(i, 0).map_err(|e| e.to_string())?
        };
        check_dec(&d, *u as i64, *s)?;
    }
    Ok(())
}
/// the first element of an array of decimals
struct FirstDec(Option<Decimal>);
impl<'a> clickhouse_rs::types::FromSql<'a> for FirstDec {
    fn from_sql(v: ValueRef<'a>) -> clickhouse_rs::types::FromSqlResult<Self> {
        Ok(FirstDec(match v {
            ValueRef::Array(_, vs) => match vs.first() {
                Some(ValueRef::Decimal(d)) if vs.len() == 1 => Some(d.clone()),
                _ => None,
            },
            _ => None,
        }))
    }
}
/// every (precision, scale) the server may declare
fn c18_wire(g: &mut Src) -> Res {
    let p = g.below(24) as u32;
    let s = g.below(22) as u32;
    let spell = g.below(3);
    let name = match spell {
        0 => format!("Decimal({p}, {s})"),
        1 => format!("Decimal({p},{s})"),
        _ => format!("Decimal{}({s})", if g.bool() { 32 } else { 64 }),
    };
    let (p, s) = match spell {
        2 if name.starts_with("Decimal32") => (9, s),
        2 => (18, s),
        _ => (p, s),
    };
    let valid = p >= 1 && p <= 18 && s <= p;
    let wrapn = g.below(3);
    let full = match wrapn {
        1 => format!("Nullable({name})"),
        2 => format!("Array({name})"),
        _ => name.clone(),
    };
    let n = g.usize(1, 6);
    let narrow = p <= 9;
    let vals: Vec<i64> = (0..n)
        .map(|_| {
            let u = gen_underlying(g);
            if narrow {
                u as i32 as i64
            } else {
                u
            }
        })
        .collect();
    // the block, by hand: one column
    let mut w = crate::wire::W::new();
    w.uv(1);
    w.u8(0);
    w.uv(2);
    w.bytes(&(-1i32).to_le_bytes());
    w.uv(0);
    w.uv(1);
    w.uv(n as u64);
    w.str(b"d");
    w.str(full.as_bytes());
    match wrapn {
        1 => vals.iter().for_each(|_| {
            w.u8(0);
        }),
        2 => (0..n).for_each(|i| {
            w.u64(i as u64 + 1);
        }),
        _ => {}
    }
    for v in &vals {
        if narrow {
            w.bytes(&(*v as i32).to_le_bytes());
        } else {
            w.bytes(&v.to_le_bytes());
        }
    }
    let body = w.0;
    let mut reply = data_packet(&body, false, None);
    reply.extend(eos());
    g.say(format!("{full}: {vals:?}"));
    g.label(if valid { "valid" } else { "invalid" });
    g.nontrivial = true;
    block_on(30, async move {
        let srv = reply_server(HelloCfg::default(), Frag::default(), vec![reply]).await;
        let pool = Pool::new(srv.url(""));
        let mut c = pool.get_handle().await.map_err(|e| format!("connect: {e}"))?;
        let r = c.query("SELECT 1").fetch_all().await;
        let b: Block<Complex> = match r {
            Ok(_) if !valid => return err(format!("{full} was accepted")),
            Ok(b) => b,
            // precision 0 does not exist either way
            Err(_) if !valid => return Ok(()),
            Err(e) => return err(format!("{full} failed: {e}")),
        };
        if b.row_count() != n {
            return err(format!("{} rows", b.row_count()));
        }
        let t = b.columns()[0].sql_type();
        let dt = SqlType::Decimal(p as u8, s as u8);
        let want_t = match wrapn {
            1 => SqlType::Nullable(dt.into()),
            2 => SqlType::Array(dt.into()),
            _ => dt,
        };
        if t != want_t {
            return err(format!("{full} has type {t}"));
        }
        for (i, v) in vals.iter().enumerate() {
            let d: Decimal = match wrapn {
                1 => b.get::<Option<Decimal>, _>(i, "d").map_err(|e| e.to_string())?.ok_or("null")?,
                2 => b.get::<FirstDec, _>(i, "d").map_err(|e| e.to_string())?.0.ok_or("no decimal in the array")?,
                _ => b.get(i, "d").map_err(|e| e.to_string())?,
            };
            check_dec(&d, *v, s as u8)?;
        }
        let col = &b.columns()[0];
        let it: Vec<Decimal> = match wrapn {
            1 => col.iter::<Option<Decimal>>().map_err(|e| e.to_string())?.map(|x| x.unwrap_or_default()).collect(),
            2 => col.iter::<Vec<Decimal>>().map_err(|e| e.to_string())?.flatten().collect(),
            _ => col.iter::<Decimal>().map_err(|e| e.to_string())?.collect(),
        };
        if it.len() != n {
            return err(format!("{} items", it.len()));
        }
        for (d, v) in it.iter().zip(&vals) {
            check_dec(d, *v, s as u8)?;
        }
        Ok(())
    })
}
pub static C18: Prop = Prop {
    id: "C18",
    rule: "the number is not zero, the two scales differ, or more than one decimal is stored; distinct by the recorded choices",
    level: "exploration",
    assumptions: &["decimals made from floats are the float scaled and cut; they may be off by less than one unit of the last digit plus the float's own error", "float forms may be off by four units in the last place"],
    checks: &[
        Check { name: "number", what: "decimals from integers of every width, floats and internal representations against exact arithmetic; too large numbers and scales are refused", quick: 5000000, thorough: 100000000, threads: 0, f: c18_number },
        Check { name: "compare", what: "equality and hashes of decimals of any two scales against exact arithmetic, plain, owned and borrowed", quick: 5000000, thorough: 100000000, threads: 0, f: c18_compare },
        Check { name: "column", what: "decimals of any scale pushed into a column are stored exactly or refused", quick: 1000000, thorough: 20000000, threads: 0, f: c18_column },
        Check { name: "wire", what: "every declared precision and scale (valid or not) and spelling, plain, nullable and array, by cell access and iteration", quick: 60000, thorough: 1200000, threads: 0, f: c18_wire },
    ],
    findings: &[],
};

// ------------------------------------------------------------------ C19
#[derive(Clone, Copy, Debug, PartialEq)]
enum Build {
    Zoned,
    OptZoned,
    ArrZoned,
    RowChrono,
    RowUtc,
    RowRaw,
    RowRaw64,
    Dates,
    OptDates,
    ArrDates,
    RowDate,
    RowRawDate,
    RowOptDate,
    RowOptChrono,
}
const BUILDS: &[Build] = &[
    Build::Zoned,
    Build::OptZoned,
    Build::ArrZoned,
    Build::RowChrono,
    Build::RowUtc,
    Build::RowRaw,
    Build::RowRaw64,
    Build::Dates,
    Build::OptDates,
    Build::ArrDates,
    Build::RowDate,
    Build::RowRawDate,
    Build::RowOptDate,
    Build::RowOptChrono,
];
fn gen_sec32(g: &mut Src) -> u32 {
    match g.below(5) {
        0 => g.below(3) as u32 * 86399,
        1 => u32::MAX - g.below(3) as u32,
        2 => (1u32 << 31).wrapping_add(g.range_i64(-2, 2) as u32),
        // around daylight saving changes of 2021
        3 => {
            let t = *g.pick(&[1615705200u32, 1636268400, 1616893200, 1635642000, 1617462000, 1632578400, 1325239200]);
            t.wrapping_add(g.range_i64(-3700, 3700) as u32)
        }
        _ => g.uint(32) as u32,
    }
}
type Store = Rc<RefCell<Vec<Blk>>>;
/// a server with one table: INSERT stores, anything else returns what is stored
async fn table_server(header: Blk, hello: HelloCfg, store: Store) -> Srv {
    Srv::start(hello, Frag::default(), move |mut c| {
        let header = header.clone();
        let store = store.clone();
        async move {
            c.greet().await?;
            loop {
                let q = c.next_query().await?;
                if q.sql.starts_with("INSERT") {
                    let p = c.data_packet(&header.encode(&EncOpts::default()), None);
                    if !c.send(&p).await {
                        return Ok(());
                    }
                    let blocks = c.read_insert().await?;
                    store.borrow_mut().extend(blocks);
                    if !c.send(&eos()).await {
                        return Ok(());
                    }
                } else {
                    let mut out = vec![];
                    let bs = store.borrow().clone();
                    for b in bs {
                        // the server sends its own declared type, with the zone it declared
                        let mut h = header.clone();
                        for (a, b) in h.cols.iter_mut().zip(b.cols) {
                            a.vals = b.vals;
                        }
                        out.extend(c.data_packet(&h.encode(&EncOpts::default()), None));
                    }
                    out.extend(eos());
                    if !c.send(&out).await {
                        return Ok(());
                    }
                }
            }
        }
    })
    .await
}
fn c19_paths(g: &mut Src) -> Res {
    let z = gen_tz(g);
    let build = *g.pick(BUILDS);
    let n = g.usize(1, 6);
    let src = gen_tz(g);
    let col_tz = if g.bool() { None } else { Some(gen_tz(g)) };
    use Build::*;
    let dates = matches!(build, Dates | OptDates | ArrDates | RowDate | RowRawDate | RowOptDate);
    // declared scalar type
    let p = g.below(10) as u32;
    let ty = if dates {
        Ty::Date
    } else {
        match build {
            RowRaw64 => Ty::DT64(p, Some(src.clone())),
            RowUtc | RowRaw | RowOptChrono => Ty::DateTime(col_tz.clone()),
            RowChrono => Ty::DateTime(col_tz.clone()),
            _ => {
                if g.bool() {
                    Ty::DateTime(col_tz.clone())
                } else {
                    Ty::DT64(p, col_tz.clone())
                }
            }
        }
    };
    // instants: seconds and nanoseconds (dates: days)
    let mut ins: Vec<(i64, u32)> = vec![];
    for _ in 0..n {
        ins.push(match &ty {
            Ty::Date => (g.uint(16) as i64, 0),
            Ty::DateTime(_) => (gen_sec32(g) as i64, if g.bool() { 0 } else { g.below(1_000_000_000) as u32 }),
            Ty::DT64(p, _) => {
                let (lo, hi) = match *p {
                    9 => (-9_000_000_000, 9_000_000_000),
                    8 => (-62_135_596_800, 92_000_000_000),
                    _ => (-62_135_596_800, 250_000_000_000),
                };
                let s = match g.below(4) {
                    0 => g.range_i64(-3, 3),
                    1 => gen_sec32(g) as i64,
                    _ => g.range_i64(lo, hi),
                };
                let ns = match g.below(3) {
                    0 => 0,
                    1 => *g.pick(&[1, 999_999_999, 500_000_000, 1000, 999_999]),
                    _ => g.below(1_000_000_000) as u32,
                };
                if build == RowRaw64 {
                    let q = 10u32.pow(9 - p);
                    (s, ns / q * q)
                } else {
                    (s, ns)
                }
            }
            _ => unreachable!(),
        });
    }
    let raw: Vec<Val> = ins
        .iter()
        .map(|(s, ns)| match &ty {
            Ty::Date => Val::Date(*s as u16),
            Ty::DateTime(_) => Val::DateTime(*s as u32),
            Ty::DT64(p, _) => Val::DT64((*s as i128 * 10i128.pow(*p) + (*ns / 10u32.pow(9 - p)) as i128) as i64),
            _ => unreachable!(),
        })
        .collect();
    let zoned: Vec<DateTime<Tz>> = if dates { vec![] } else { ins.iter().map(|(s, n)| tz(&src).timestamp_opt(*s, *n).unwrap()).collect() };
    let days: Vec<NaiveDate> = if dates { ins.iter().map(|(s, _)| date_of(*s as u16)).collect() } else { vec![] };
    let mut b = Block::new();
    let by_rows = |vs: Vec<Value>| -> Result<Block, String> {
        let mut b = Block::new();
        for v in vs {
            b.push(vec![("t".to_string(), v)]).map_err(|e| format!("push: {e}"))?;
        }
        Ok(b)
    };
    let mut wrap = 0;
    let cut = g.usize(0, n);
    match build {
        Zoned => b = b.column("t", zoned.clone()),
        OptZoned => {
            wrap = 1;
            b = b.column("t", zoned.iter().map(|t| Some(*t)).chain([None]).collect::<Vec<_>>())
        }
        ArrZoned => {
            wrap = 2;
            b = b.column("t", vec![zoned[..cut].to_vec(), vec![], zoned[cut..].to_vec()])
        }
        RowChrono => b = by_rows(zoned.iter().map(|t| Value::from(*t)).collect())?,
        RowUtc => b = by_rows(zoned.iter().map(|t| Value::from(t.with_timezone(&Utc))).collect())?,
        RowRaw => b = by_rows(zoned.iter().map(|t| Value::DateTime(t.timestamp() as u32, tz(&src))).collect())?,
        RowRaw64 => {
            b = by_rows(
                raw.iter()
                    .map(|v| match v {
                        Val::DT64(x) => Value::DateTime64(*x, (p, tz(&src))),
                        _ => unreachable!(),
                    })
                    .collect(),
            )?
        }
        Dates => b = b.column("t", days.clone()),
        OptDates => {
            wrap = 1;
            b = b.column("t", days.iter().map(|t| Some(*t)).chain([None]).collect::<Vec<_>>())
        }
        ArrDates => {
            wrap = 2;
            b = b.column("t", vec![days[..cut].to_vec(), vec![], days[cut..].to_vec()])
        }
        RowDate => b = by_rows(days.iter().map(|t| Value::from(*t)).collect())?,
        RowRawDate => b = by_rows(ins.iter().map(|t| Value::Date(t.0 as u16)).collect())?,
        RowOptDate => {
            wrap = 1;
            b = by_rows(days.iter().map(|t| Value::from(Some(*t))).chain([Value::from(None::<NaiveDate>)]).collect())?
        }
        RowOptChrono => {
            wrap = 1;
            let mut v: Vec<Value> = zoned.iter().map(|t| Value::from(Some(*t))).collect();
            v.push(Value::from(None::<DateTime<Tz>>));
            b = by_rows(v)?
        }
    }
    let (dty, vals) = match wrap {
        1 => (Ty::Null(Box::new(ty.clone())), raw.iter().cloned().chain([Val::Null]).collect()),
        2 => (Ty::Arr(Box::new(ty.clone())), vec![Val::Arr(raw[..cut].to_vec()), Val::Arr(vec![]), Val::Arr(raw[cut..].to_vec())]),
        _ => (ty.clone(), raw.clone()),
    };
    let want = Blk { cols: vec![Col { name: "t".into(), ty: dty, vals }] };
    g.say(format!("{build:?} in {src} into {} of a server in {z}: {ins:?}", want.cols[0].ty.name()));
    g.label(match build {
        Zoned | OptZoned | ArrZoned => "zoned columns",
        RowChrono | RowOptChrono => "zoned rows",
        RowUtc => "UTC rows",
        RowRaw | RowRaw64 => "raw rows",
        _ => "dates",
    });
    g.nontrivial = true;
    let hello = HelloCfg { tz: z.clone(), ..Default::default() };
    let lz4 = g.bool();
    let zone = match &ty {
        Ty::DateTime(q) | Ty::DT64(_, q) => q.clone().unwrap_or(z.clone()),
        _ => z.clone(),
    };
    block_on(30, async move {
        let store: Store = Default::default();
        let srv = table_server(want.header(), hello, store.clone()).await;
        let pool = Pool::new(srv.url(if lz4 { "compression=lz4" } else { "" }));
        let mut c = pool.get_handle().await.map_err(|e| format!("connect: {e}"))?;
        c.insert("t", &b).await.map_err(|e| format!("insert: {e}"))?;
        {
            let s = store.borrow();
            if s.len() != 1 || canon_all(&s[0].cols[0].vals) != canon_all(&want.cols[0].vals) {
                return err(format!("the server received {:?}, expected {:?}", s.iter().map(|b| &b.cols[0].vals).collect::<Vec<_>>(), want.cols[0].vals));
            }
        }
        let r: Block<Complex> = c.query("SELECT t FROM t").fetch_all().await.map_err(|e| format!("fetch_all: {e}"))?;
        check_block(&r, &want, &z, true)?;
        // what the instants are, independently of the client's values
        let local = |s: i64, ns: u32| tz(&zone).timestamp_opt(s, ns).unwrap();
        let cutns = |ns: u32| match &ty {
            Ty::DT64(p, _) => ns / 10u32.pow(9 - p) * 10u32.pow(9 - p),
            _ => 0,
        };
        let col = &r.columns()[0];
        if dates {
            let got: Vec<NaiveDate> = match wrap {
                0 => col.iter::<NaiveDate>().map_err(|e| format!("iter: {e}"))?.collect(),
                1 => {
                    let v: Vec<Option<NaiveDate>> = col.iter::<Option<NaiveDate>>().map_err(|e| format!("iter: {e}"))?.collect();
                    if v.len() != n + 1 || v[n].is_some() {
                        return err(format!("iterated {v:?}"));
                    }
                    v.into_iter().flatten().collect()
                }
                _ => col.iter::<Vec<NaiveDate>>().map_err(|e| format!("iter: {e}"))?.flatten().collect(),
            };
            if got != days {
                return err(format!("iterated dates {got:?}, inserted {days:?}"));
            }
            let cells: Vec<NaiveDate> = match wrap {
                0 => (0..n).map(|i| r.get::<NaiveDate, _>(i, 0)).collect::<Result<Vec<_>, _>>(),
                1 => (0..n).map(|i| r.get::<Option<NaiveDate>, _>(i, 0).map(|x| x.unwrap_or_default())).collect(),
                _ => (0..3).map(|i| r.get::<Vec<NaiveDate>, _>(i, 0)).collect::<Result<Vec<_>, _>>().map(|v| v.into_iter().flatten().collect()),
            }
            .map_err(|e| format!("get: {e}"))?;
            if cells != days {
                return err(format!("cells {cells:?}, inserted {days:?}"));
            }
            if wrap == 0 {
                for (i, d) in days.iter().enumerate() {
                    let t: String = r.get::<Text, _>(i, 0).map_err(|e| e.to_string())?.0;
                    if t != d.format("%Y-%m-%d").to_string() {
                        return err(format!("date {d} printed as {t}"));
                    }
                }
            }
            return Ok(());
        }
        let want_z: Vec<DateTime<Tz>> = ins.iter().map(|(s, ns)| local(*s, cutns(*ns))).collect();
        let iterated: Vec<DateTime<Tz>> = match wrap {
            0 => col.iter::<DateTime<Tz>>().map_err(|e| format!("iter: {e}"))?.collect(),
            1 => col.iter::<Option<DateTime<Tz>>>().map_err(|e| format!("iter: {e}"))?.flatten().collect(),
            _ => col.iter::<Vec<DateTime<Tz>>>().map_err(|e| format!("iter: {e}"))?.flatten().collect(),
        };
        let naive: Vec<NaiveDateTime> = match wrap {
            0 => col.iter::<NaiveDateTime>().map_err(|e| format!("iter naive: {e}"))?.collect(),
            1 => col.iter::<Option<NaiveDateTime>>().map_err(|e| format!("iter naive: {e}"))?.flatten().collect(),
            _ => col.iter::<Vec<NaiveDateTime>>().map_err(|e| format!("iter naive: {e}"))?.flatten().collect(),
        };
        let cells: Vec<DateTime<Tz>> = match wrap {
            0 => (0..n).map(|i| r.get::<DateTime<Tz>, _>(i, 0)).collect::<Result<Vec<_>, _>>(),
            1 => (0..n).map(|i| r.get::<Option<DateTime<Tz>>, _>(i, 0).map(|x| x.unwrap_or(Tz::UTC.timestamp_opt(0, 0).unwrap()))).collect(),
            _ => (0..3).map(|i| r.get::<Vec<DateTime<Tz>>, _>(i, 0)).collect::<Result<Vec<_>, _>>().map(|v| v.into_iter().flatten().collect()),
        }
        .map_err(|e| format!("get: {e}"))?;
        if iterated.len() != n || cells.len() != n || naive.len() != n {
            return err(format!("{} iterated, {} cells, {} naive of {n}", iterated.len(), cells.len(), naive.len()));
        }
        for i in 0..n {
            let w = want_z[i];
            for (how, x) in [("iterated", iterated[i]), ("cell", cells[i])] {
                if x != w || x.timezone() != w.timezone() || x.naive_local() != w.naive_local() {
                    return err(format!("{how} {x:?} in {:?}, inserted {w:?} in {zone}", x.timezone()));
                }
            }
            if naive[i] != w.naive_utc() {
                return err(format!("naive item {:?}, inserted {w:?}", naive[i]));
            }
            if wrap == 0 {
                let t: String = r.get::<Text, _>(i, 0).map_err(|e| e.to_string())?.0;
                if t != w.format("%Y-%m-%d %H:%M:%S").to_string() {
                    return err(format!("{w:?} printed as {t}"));
                }
            }
        }
        Ok(())
    })
}
/// the text form of a cell
struct Text(String);
impl<'a> clickhouse_rs::types::FromSql<'a> for Text {
    fn from_sql(v: ValueRef<'a>) -> clickhouse_rs::types::FromSqlResult<Self> {
        Ok(Text(format!("{v}")))
    }
}
/// values in memory: every way from a date or an instant and back
fn c19_values(g: &mut Src) -> Res {
    let z = gen_tz(g);
    match g.below(4) {
        0 => {
            let d = date_of(g.uint(16) as u16);
            g.say(format!("date {d}"));
            let v = Value::from(d);
            let back = NaiveDate::from(v.clone());
            let r = NaiveDate::from(ValueRef::from(&v));
            if back != d || r != d || v.to_string() != d.format("%Y-%m-%d").to_string() {
                return err(format!("{d} came back as {back} and {r}, printed {v}"));
            }
        }
        1 => {
            let s = gen_sec32(g) as i64;
            let ns = if g.bool() { 0 } else { g.below(1_000_000_000) as u32 };
            let t = tz(&z).timestamp_opt(s, ns).unwrap();
            g.say(format!("zoned {t:?}"));
            let v = Value::from(t);
            let back = DateTime::<Tz>::from(v.clone());
            if back != t || back.timezone() != t.timezone() {
                return err(format!("{t:?} came back as {back:?}"));
            }
            let rv = ValueRef::from(&v);
            let r = DateTime::<Tz>::from(rv);
            if r != tz(&z).timestamp_opt(s, 0).unwrap() || r.timezone() != t.timezone() {
                return err(format!("{t:?} borrowed is {r:?}"));
            }
            let u = Value::from(t.with_timezone(&Utc));
            let back = DateTime::<Tz>::from(u);
            if back.timestamp() != s {
                return err(format!("{t:?} through UTC came back as {back:?}"));
            }
        }
        2 => {
            let s = gen_sec32(g);
            let v = Value::DateTime(s, tz(&z));
            g.say(format!("raw {s} {z}"));
            let t = DateTime::<Tz>::from(v.clone());
            let r = DateTime::<Tz>::from(ValueRef::from(&v));
            let o = Value::from(ValueRef::from(&v));
            let o = DateTime::<Tz>::from(o);
            for x in [t, r, o] {
                if x.timestamp() != s as i64 || x.timestamp_subsec_nanos() != 0 || x.timezone() != tz(&z) {
                    return err(format!("raw {s} in {z} is {x:?}"));
                }
            }
        }
        _ => {
            let p = g.below(10) as u32;
            let (lo, hi) = dt64_range(p);
            let x = match g.below(3) {
                0 => g.range_i64(-3, 3),
                _ => g.range_i64(lo, hi),
            };
            g.say(format!("raw {x} with precision {p} {z}"));
            let v = Value::DateTime64(x, (p, tz(&z)));
            let t = DateTime::<Tz>::from(v.clone());
            let r = DateTime::<Tz>::from(ValueRef::from(&v));
            let o = DateTime::<Tz>::from(Value::from(ValueRef::from(&v)));
            let w = x as i128 * 10i128.pow(9 - p);
            for t in [t, r, o] {
                let got = t.timestamp() as i128 * 1_000_000_000 + t.timestamp_subsec_nanos() as i128;
                if got != w || t.timezone() != tz(&z) {
                    return err(format!("raw {x} with precision {p} is {t:?}"));
                }
            }
        }
    }
    g.nontrivial = true;
    Ok(())
}
pub static C19: Prop = Prop {
    id: "C19",
    rule: "every case carries at least one date or instant; distinct by the recorded choices",
    level: "exploration",
    assumptions: &["DateTime64 of precision 9 is limited to what 64 bits hold", "zone data is that of the bundled tz database on both sides", "a zoned value borrowed from a row drops its fraction (DateTime has none)"],
    checks: &[
        Check { name: "paths", what: "dates and instants built in fourteen ways, inserted into DateTime/DateTime64/Date columns of a scripted table and fetched back: raw values at the server, cells, items, naive items, zones and texts", quick: 100000, thorough: 2000000, threads: 0, f: c19_paths },
        Check { name: "values", what: "conversions between dates, instants and values in memory, owned and borrowed", quick: 5000000, thorough: 100000000, threads: 0, f: c19_values },
    ],
    findings: &[],
};

// ------------------------------------------------------------------ C23
/// a value related to the given one: equal in another guise, or slightly different
fn variant(g: &mut Src, t: &Ty, v: &Val) -> (Ty, Val) {
    match (t, v) {
        (Ty::DateTime(_), v) if g.bool() => (Ty::DateTime(Some(gen_tz(g))), v.clone()),
        (Ty::DT64(p, _), v) if g.bool() => (Ty::DT64(*p, Some(gen_tz(g))), v.clone()),
        (Ty::Dec(p, s), Val::Dec(x)) if g.bool() => {
            if *s < 18 {
                if let Some(y) = x.checked_mul(10) {
                    return (Ty::Dec(*p, s + 1), Val::Dec(y));
                }
            }
            (t.clone(), v.clone())
        }
        (Ty::Null(t), v) if *v != Val::Null => {
            let (t, v) = variant(g, t, v);
            (Ty::Null(Box::new(t)), v)
        }
        (t, v) => (t.clone(), nudge(g, t, v)),
    }
}
/// another value of the same type, near the given one
fn nudge(g: &mut Src, t: &Ty, v: &Val) -> Val {
    match (t, v) {
        (Ty::Null(_), Val::Null) => {
            if g.bool() {
                Val::Null
            } else {
                gen_val(g, t)
            }
        }
        (Ty::Null(i), v) => {
            if g.chance(1, 4) {
                Val::Null
            } else {
                nudge(g, i, v)
            }
        }
        (Ty::Arr(i), Val::Arr(x)) => {
            let mut x = x.clone();
            match g.below(4) {
                0 if !x.is_empty() => {
                    x.pop();
                }
                1 if x.len() > 1 => x.swap(0, 1),
                2 => x.push(gen_val(g, i)),
                _ if !x.is_empty() => {
                    let k = g.usize(0, x.len() - 1);
                    x[k] = nudge(g, i, &x[k]);
                }
                _ => {}
            }
            Val::Arr(x)
        }
        (Ty::Map(_, i), Val::Map(x)) => {
            let mut x = x.clone();
            match g.below(3) {
                0 if !x.is_empty() => {
                    x.pop();
                }
                1 => x.reverse(),
                _ if !x.is_empty() => {
                    let k = g.usize(0, x.len() - 1);
                    x[k].1 = nudge(g, i, &x[k].1);
                }
                _ => {}
            }
            Val::Map(x)
        }
        (_, Val::F32(x)) => Val::F32(x ^ *g.pick(&[0, 1 << 31, 1])),
        (_, Val::F64(x)) => Val::F64(x ^ *g.pick(&[0, 1 << 63, 1])),
        (_, Val::Str(s)) => {
            let mut s = s.clone();
            match g.below(3) {
                0 => s.push(0),
                1 if !s.is_empty() => {
                    s.pop();
                }
                _ => {}
            }
            if let Ty::Fixed(n) = t {
                s.resize(*n, 0);
            }
            Val::Str(s)
        }
        (_, Val::DateTime(x)) => Val::DateTime(x ^ g.below(2) as u32),
        (_, Val::Date(x)) => Val::Date(x ^ g.below(2) as u16),
        (_, Val::Dec(x)) => Val::Dec(x ^ g.below(2) as i64),
        _ => {
            if g.bool() {
                v.clone()
            } else {
                gen_val(g, t)
            }
        }
    }
}
fn has_nan(v: &Val) -> bool {
    match v {
        Val::F32(x) => f32::from_bits(*x).is_nan(),
        Val::F64(x) => f64::from_bits(*x).is_nan(),
        Val::Arr(x) => x.iter().any(has_nan),
        Val::Map(x) => x.iter().any(|(a, b)| has_nan(a) || has_nan(b)),
        _ => false,
    }
}
/// text form of a value; None where only parts are specified (enums, maps)
fn text(t: &Ty, v: &Val, z: &str, borrowed: bool) -> Option<String> {
    Some(match (t, v) {
        (Ty::Lc(t) | Ty::Agg(_, t), v) => text(t, v, z, borrowed)?,
        (Ty::Null(_), Val::Null) => "NULL".into(),
        (Ty::Null(t), v) => text(t, v, z, borrowed)?,
        (Ty::Arr(t), Val::Arr(x)) => {
            let c: Option<Vec<String>> = x.iter().map(|v| text(t, v, z, borrowed)).collect();
            format!("[{}]", c?.join(", "))
        }
        (_, Val::Bool(b)) => b.to_string(),
        (_, Val::U(x)) => x.to_string(),
        (_, Val::I(x)) => x.to_string(),
        (_, Val::F32(x)) => f32::from_bits(*x).to_string(),
        (_, Val::F64(x)) => f64::from_bits(*x).to_string(),
        (_, Val::Str(s)) => match std::str::from_utf8(s) {
            Ok(s) => s.to_string(),
            Err(_) => format!("{s:?}"),
        },
        (_, Val::Date(d)) => date_of(*d).format("%Y-%m-%d").to_string(),
        (Ty::DateTime(q), Val::DateTime(x)) => {
            let t = dt_of(*x, q.as_deref().unwrap_or(z));
            if borrowed {
                t.format("%Y-%m-%d %H:%M:%S").to_string()
            } else {
                t.to_rfc2822()
            }
        }
        (Ty::DT64(p, q), Val::DT64(x)) => {
            let t = dt64_of(*x, *p, q.as_deref().unwrap_or(z));
            if borrowed {
                t.format("%Y-%m-%d %H:%M:%S").to_string()
            } else {
                t.to_rfc2822()
            }
        }
        (_, Val::Ip4(a)) => std::net::Ipv4Addr::from(*a).to_string(),
        (_, Val::Ip6(a)) => std::net::Ipv6Addr::from(*a).to_string(),
        (_, Val::Uuid(a)) => uuid::Uuid::from_bytes(*a).to_string(),
        (Ty::Dec(_, s), Val::Dec(x)) => dec_text(*x as i128, *s as u32),
        _ => return None,
    })
}
/// the type a value made by to_value has: decimals have precision 18, fixed strings are strings
fn value_ty(t: &Ty) -> Ty {
    match t {
        Ty::Lc(t) | Ty::Agg(_, t) => value_ty(t),
        Ty::Null(t) => Ty::Null(Box::new(value_ty(t))),
        Ty::Fixed(_) => Ty::Str,
        t => client_ty(t),
    }
}
fn c23_value(g: &mut Src) -> Res {
    let z = gen_tz(g);
    let mut cfg = TyCfg::client();
    cfg.lc = false;
    let t = value_ty(&gen_ty(g, &cfg, 3));
    let v = gen_val(g, &t);
    g.say(format!("{}: {v:?}", t.name()));
    g.nontrivial = true;
    let a = to_value(&t, &v, &z);
    let want = expect(&t, &v, &z);
    let r = ValueRef::from(&a);
    if got(&r) != want {
        return err(format!("borrowed value is {:?}, expected {want:?}", got(&r)));
    }
    let o = Value::from(r.clone());
    if got_value(&o) != want {
        return err(format!("owned again it is {:?}, expected {want:?}", got_value(&o)));
    }
    let c = a.clone();
    if got_value(&c) != want || got(&r.clone()) != want {
        return err("a clone differs");
    }
    // its type
    let st = sql_type(&t, &z);
    for (how, s) in [("owned", SqlType::from(a.clone())), ("borrowed", SqlType::from(r.clone()))] {
        // the time zone of a DateTime is not part of its SqlType
        if s != st {
            return err(format!("the {how} value has type {s}, expected {st}"));
        }
    }
    // its text
    if let Some(w) = text(&t, &v, &z, false) {
        if a.to_string() != w {
            return err(format!("prints {:?}, expected {w:?}", a.to_string()));
        }
    }
    if let Some(w) = text(&t, &v, &z, true) {
        if r.to_string() != w {
            return err(format!("borrowed prints {:?}, expected {w:?}", r.to_string()));
        }
    }
    match (&t, &v) {
        (Ty::E8(_), Val::E8(x)) => {
            if !a.to_string().contains(&x.to_string()) || !r.to_string().contains(&x.to_string()) {
                return err(format!("enum {x} prints {a} and {r}"));
            }
        }
        (Ty::E16(_), Val::E16(x)) => {
            if !a.to_string().contains(&x.to_string()) || !r.to_string().contains(&x.to_string()) {
                return err(format!("enum {x} prints {a} and {r}"));
            }
        }
        (Ty::Map(tk, tv), Val::Map(m)) => {
            for (k, x) in m {
                for (q, w) in [(tk, k), (tv, x)] {
                    if let Some(w) = text(q, w, &z, false) {
                        if !a.to_string().contains(&w) {
                            return err(format!("map prints {a} without {w}"));
                        }
                    }
                    if let Some(w) = text(q, w, &z, true) {
                        if !r.to_string().contains(&w) {
                            return err(format!("borrowed map prints {r} without {w}"));
                        }
                    }
                }
            }
        }
        _ => {}
    }
    // text and bytes of text values, and only of those
    match (&t, &v) {
        (Ty::Str, Val::Str(s)) => {
            if r.as_bytes().ok() != Some(&s[..]) || r.as_str().ok() != std::str::from_utf8(s).ok() || r.as_string().ok() != String::from_utf8(s.clone()).ok() {
                return err("as_bytes/as_str/as_string differ from the text");
            }
        }
        _ => {
            if r.as_bytes().is_ok() || r.as_str().is_ok() || r.as_string().is_ok() {
                return err(format!("a {} gave text", t.name()));
            }
        }
    }
    // equality laws
    if !has_nan(&v) {
        if a != a || a != c || a != o || r != r.clone() {
            return err("a value is not equal to itself, its clone or its re-owned form");
        }
        if hash_of(&a) != hash_of(&c) || hash_of(&a) != hash_of(&o) || hash_of(&r) != hash_of(&ValueRef::from(&o)) {
            return err("equal values have different hashes");
        }
    }
    Ok(())
}
fn c23_pairs(g: &mut Src) -> Res {
    let z = gen_tz(g);
    let mut cfg = TyCfg::client();
    cfg.lc = false;
    let t = value_ty(&gen_ty(g, &cfg, 3));
    let v = gen_val(g, &t);
    let (t2, v2) = match g.below(8) {
        0 => {
            let t2 = value_ty(&gen_ty(g, &cfg, 2));
            let v2 = gen_val(g, &t2);
            (t2, v2)
        }
        1 => (t.clone(), gen_val(g, &t)),
        2 => (t.clone(), v.clone()),
        _ => variant(g, &t, &v),
    };
    g.say(format!("{}: {v:?} and {}: {v2:?}", t.name(), t2.name()));
    let (a, b) = (to_value(&t, &v, &z), to_value(&t2, &v2, &z));
    let (ra, rb) = (ValueRef::from(&a), ValueRef::from(&b));
    g.nontrivial = true;
    let (ab, ba) = (a == b, b == a);
    let (rab, rba) = (ra == rb, rb == ra);
    if ab != ba || rab != rba || (a != b) == ab || (ra != rb) == rab {
        return err(format!("equality is not symmetric: {ab} {ba} {rab} {rba}"));
    }
    if let Some(w) = eqv(&t, &v, &t2, &v2, &z) {
        g.label(if w { "equal" } else { "different" });
        if ab != w {
            return err(format!("values compare {ab}, expected {w}"));
        }
        if rab != w {
            return err(format!("borrowed values compare {rab}, expected {w}"));
        }
    }
    if ab && hash_of(&a) != hash_of(&b) {
        return err("equal values have different hashes");
    }
    if rab && hash_of(&ra) != hash_of(&rb) {
        return err("equal borrowed values have different hashes");
    }
    // as keys
    if !has_nan(&v) && !has_nan(&v2) {
        let mut m: HashMap<Value, u8> = HashMap::new();
        m.insert(a.clone(), 1);
        m.insert(b.clone(), 2);
        let n = if ab { 1 } else { 2 };
        if m.len() != n || m.get(&b) != Some(&2) || m.get(&a) != Some(if ab { &2 } else { &1 }) {
            return err(format!("a map keyed by the two values has {} entries: {m:?}", m.len()));
        }
        let mut m: HashMap<ValueRef, u8> = HashMap::new();
        m.insert(ra.clone(), 1);
        m.insert(rb.clone(), 2);
        let n = if rab { 1 } else { 2 };
        if m.len() != n || m.get(&rb) != Some(&2) || m.get(&ra) != Some(if rab { &2 } else { &1 }) {
            return err(format!("a map keyed by the two borrowed values has {} entries", m.len()));
        }
    }
    Ok(())
}
fn c23_rust(g: &mut Src) -> Res {
    let z = gen_tz(g);
    g.nontrivial = true;
    /// to a value and back
    macro_rules! rt {
        ($t:ty, $ty:expr) => {{
            let ty: Ty = $ty;
            let v = gen_val(g, &ty);
            g.say(format!("{} <-> {}: {v:?}", stringify!($t), ty.name()));
            let x = match <$t>::fv(&ty, &v, &z) {
                Some(x) => x,
                None => return Ok(()),
            };
            let val = Value::from(x.clone());
            let w = expect(&ty, &v, &z);
            if got_value(&val) != w {
                return err(format!("{} became {:?}, expected {w:?}", stringify!($t), got_value(&val)));
            }
            let back: $t = val.clone().into();
            if !back.same(&x) {
                return err(format!("{} {x:?} came back as {back:?}", stringify!($t)));
            }
            // nullable forms
            let some = Value::from(Some(x.clone()));
            if got_value(&some) != Got::Some(Box::new(w)) {
                return err(format!("Some({x:?}) became {some:?}"));
            }
            let none = Value::from(None::<$t>);
            if !matches!(got_value(&none), Got::Null(_)) {
                return err(format!("None became {none:?}"));
            }
            let tn = SqlType::from(none);
            let ts = SqlType::from(some);
            let same = tn == ts || stringify!($t) == "DateTime<Tz>";
            if !same {
                return err(format!("None is {tn} and Some is {ts}"));
            }
        }};
    }
    /// to a value only
    macro_rules! to {
        ($t:ty, $ty:expr) => {{
            let ty: Ty = $ty;
            let v = gen_val(g, &ty);
            g.say(format!("{} -> {}: {v:?}", stringify!($t), ty.name()));
            let x = match <$t>::fv(&ty, &v, &z) {
                Some(x) => x,
                None => return Ok(()),
            };
            let val = Value::from(x);
            let w = expect(&ty, &v, &z);
            if got_value(&val) != w {
                return err(format!("{} became {:?}, expected {w:?}", stringify!($t), got_value(&val)));
            }
        }};
    }
    macro_rules! toarr {
        ($t:ty, $ty:expr) => {{
            let ty: Ty = Ty::Arr(Box::new($ty));
            let v = gen_val(g, &ty);
            g.say(format!("Vec<{}> -> {}: {v:?}", stringify!($t), ty.name()));
            let x = match VecOf::<$t>::fv(&ty, &v, &z) {
                Some(x) => x.0,
                None => return Ok(()),
            };
            let val = Value::from(x);
            let w = expect(&ty, &v, &z);
            if got_value(&val) != w {
                return err(format!("Vec<{}> became {:?}, expected {w:?}", stringify!($t), got_value(&val)));
            }
        }};
    }
    macro_rules! tomap {
        ($k:ty, $t:ty, $kt:expr, $ty:expr) => {{
            let ty: Ty = Ty::Map(Box::new($kt), Box::new($ty));
            let v = gen_val(g, &ty);
            g.say(format!("HashMap<{}, {}>: {v:?}", stringify!($k), stringify!($t)));
            let x = match MapOf::<$k, $t>::fv(&ty, &v, &z) {
                Some(x) => x.0,
                None => return Ok(()),
            };
            let val = Value::from(x);
            let w = expect(&ty, &v, &z);
            if got_value(&val) != w {
                return err(format!("map became {:?}, expected {w:?}", got_value(&val)));
            }
        }};
    }
    match g.below(44) {
        0 => rt!(bool, Ty::Bool),
        1 => rt!(u8, Ty::U(8)),
        2 => rt!(u16, Ty::U(16)),
        3 => rt!(u32, Ty::U(32)),
        4 => rt!(u64, Ty::U(64)),
        5 => rt!(u128, Ty::U(128)),
        6 => rt!(i8, Ty::I(8)),
        7 => rt!(i16, Ty::I(16)),
        8 => rt!(i32, Ty::I(32)),
        9 => rt!(i64, Ty::I(64)),
        10 => rt!(i128, Ty::I(128)),
        11 => rt!(f32, Ty::F32),
        12 => rt!(f64, Ty::F64),
        13 => rt!(String, Ty::Str),
        14 => {
            let n = g.strlen();
            let b = g.bytes(n);
            g.say(format!("bytes {b:?}"));
            let v = Value::from(b.clone());
            let w = Value::from(&b[..]);
            let back: Vec<u8> = v.clone().into();
            if back != b || v != w || got_value(&w) != Got::Str(b.clone()) {
                return err("bytes changed");
            }
            let r = ValueRef::from(&b[..]);
            if r.as_bytes().ok() != Some(&b[..]) {
                return err("borrowed bytes changed");
            }
        }
        15 => {
            let n = g.strlen();
            let s = g.utf8(n);
            g.say(format!("text {s:?}"));
            let v = Value::from(s.as_str());
            let back: String = v.clone().into();
            if back != s || v != Value::from(s.clone()) || v.to_string() != s || ValueRef::from(s.as_str()).to_string() != s {
                return err("text changed");
            }
        }
        16 => rt!(NaiveDate, Ty::Date),
        17 => rt!(DateTime<Tz>, Ty::DateTime(Some(gen_tz(g)))),
        18 => {
            let a = g.uint(32) as u32;
            let v = Value::from(a.to_le_bytes());
            g.say(format!("[u8;4] {a:x}"));
            let back: [u8; 4] = v.clone().into();
            if back != a.to_le_bytes() || v.to_string() != std::net::Ipv4Addr::from(a.to_be_bytes()).to_string() {
                return err(format!("{a:x} became {v}"));
            }
        }
        19 => {
            let a = g.uint(128).to_be_bytes();
            let v = Value::from(a);
            g.say(format!("[u8;16] {a:?}"));
            if got_value(&v) != Got::Ip6(a) || v.to_string() != std::net::Ipv6Addr::from(a).to_string() {
                return err(format!("{a:?} became {v}"));
            }
        }
        20 => to!(uuid::Uuid, Ty::Uuid),
        21 => to!(Decimal, Ty::Dec(18, g.below(19) as u8)),
        22 => {
            let x = g.uint(8) as i8;
            let v = Value::from(Enum8::of(x));
            g.say(format!("Enum8 {x}"));
            let r = ValueRef::from(&v);
            if Enum8::from(r).internal() != x {
                return err(format!("enum {x} became {v}"));
            }
        }
        23 => {
            let x = g.uint(16) as i16;
            let v = Value::from(Enum16::of(x));
            g.say(format!("Enum16 {x}"));
            let r = ValueRef::from(&v);
            if Enum16::from(r).internal() != x {
                return err(format!("enum {x} became {v}"));
            }
        }
        24 => {
            let s = gen_sec32(g);
            g.say(format!("DateTime<Utc> {s}"));
            let v = Value::from(Utc.timestamp_opt(s as i64, 0).unwrap());
            if got_value(&v) != Got::DateTime(s, "UTC".into()) {
                return err(format!("{s} became {v:?}"));
            }
        }
        25 => toarr!(String, Ty::Str),
        26 => toarr!(u16, Ty::U(16)),
        27 => toarr!(u32, Ty::U(32)),
        28 => toarr!(u64, Ty::U(64)),
        29 => toarr!(u128, Ty::U(128)),
        30 => toarr!(i8, Ty::I(8)),
        31 => toarr!(i16, Ty::I(16)),
        32 => toarr!(i32, Ty::I(32)),
        33 => toarr!(i64, Ty::I(64)),
        34 => toarr!(i128, Ty::I(128)),
        35 => toarr!(f32, Ty::F32),
        36 => toarr!(f64, Ty::F64),
        37 => tomap!(String, u64, Ty::Str, Ty::U(64)),
        38 => tomap!(u32, String, Ty::U(32), Ty::Str),
        39 => tomap!(i64, f64, Ty::I(64), Ty::F64),
        40 => tomap!(u8, i8, Ty::U(8), Ty::I(8)),
        41 => tomap!(String, String, Ty::Str, Ty::Str),
        42 => {
            // borrowed numbers
            macro_rules! num {
                ($($t:ty),*) => { $( {
                    let x = g.uint(128) as $t;
                    let r = ValueRef::from(x);
                    let back = <$t>::from(r.clone());
                    if back != x || Value::from(r) != Value::from(x) {
                        return err(format!("{x} as a borrowed {} became {back}", stringify!($t)));
                    }
                } )* };
            }
            g.say("borrowed numbers".into());
            num!(u8, u16, u32, u64, i8, i16, i32, i64, u128, i128, f32, f64);
        }
        _ => {
            let b = g.bool();
            let r = ValueRef::from(b);
            g.say(format!("bool {b}"));
            if Value::from(r.clone()) != Value::Bool(b) || r.to_string() != b.to_string() {
                return err("bool changed");
            }
        }
    }
    Ok(())
}
/// type names print and compare as what they are
fn c23_types(g: &mut Src) -> Res {
    let z = gen_tz(g);
    let cfg = TyCfg::server();
    let t = gen_ty(g, &cfg, 3);
    let u = if g.bool() { t.clone() } else { gen_ty(g, &cfg, 3) };
    g.say(format!("{} and {}", t.name(), u.name()));
    g.nontrivial = true;
    let (a, b) = (sql_type(&t, &z), sql_type(&u, &z));
    let (na, nb) = (t.norm(&z), u.norm(&z));
    let p = parse_ty(&a.to_string()).map_err(|e| format!("{a}: {e}"))?;
    if p != na {
        return err(format!("type {} prints as {a}", na.name()));
    }
    if (a == b) != (na == nb) || (b == a) != (na == nb) {
        return err(format!("types {a} and {b} compare {}", a == b));
    }
    Ok(())
}
/// times far from today, which the server's types hold though its range ends in 2299
fn c23_times(g: &mut Src) -> Res {
    let z = gen_tz(g);
    let p = g.below(10) as u32;
    let f = 10i64.pow(p);
    // seconds of the years -250000 to 250000
    let year = |y: i64| y * 31_556_952 - 62_167_219_200;
    let edges = [0, 1, 1900, 1970, 2299, 9999, 10_000, 262_000];
    let sec = match g.below(4) {
        0 => g.range_i64(year(-250_000), year(250_000)),
        1 => g.range_i64(year(-20), year(12_000)),
        2 => year(*g.pick(&edges[..7])) + g.range_i64(-200_000, 200_000),
        _ => -year(*g.pick(&edges[..7])) + g.range_i64(-200_000, 200_000),
    };
    let sec = sec.clamp(i64::MIN / f + 1, i64::MAX / f - 1);
    let raw = sec * f + g.range_i64(0, f - 1);
    let (ds, rest) = (raw.div_euclid(f), raw.rem_euclid(f));
    let t = tz(&z).timestamp_opt(ds, (rest * 10i64.pow(9 - p)) as u32).unwrap();
    g.say(format!("{raw} of precision {p} in {z}: {t:?}"));
    let far = !(0..=9999).contains(&t.year());
    g.label(if far { "beyond four digits" } else { "four digits" });
    g.nontrivial = true;
    let a = Value::DateTime64(raw, (p, tz(&z)));
    let b = Value::from(t);
    for (how, v) in [("raw", &a), ("zoned", &b)] {
        let back = DateTime::<Tz>::from(v.clone());
        if back != t || back.timezone() != t.timezone() {
            return err(format!("{how} {t:?} came back as {back:?}"));
        }
        let s = v.to_string();
        let good = if far { s.contains(&t.year().unsigned_abs().to_string()) } else { s == t.to_rfc2822() };
        if !good {
            return err(format!("{how} {t:?} prints {s}"));
        }
        let _ = format!("{v:?} {v:#}");
        if *v != v.clone() || hash_of(v) != hash_of(&v.clone()) {
            return err(format!("{how} {t:?} is not equal to its clone"));
        }
    }
    let r = ValueRef::from(&a);
    if r.to_string() != t.format("%Y-%m-%d %H:%M:%S").to_string() {
        return err(format!("borrowed {t:?} prints {r}"));
    }
    if DateTime::<Tz>::from(r.clone()) != t || Value::from(r.clone()) != a {
        return err(format!("borrowed {t:?} is {r:?}"));
    }
    Ok(())
}
pub static C23: Prop = Prop {
    id: "C23",
    rule: "every case holds a value; distinct by the recorded choices",
    level: "exploration",
    assumptions: &["NaN is not equal to itself, as in Rust", "values of DateTime64 of different precision may or may not compare equal when they are the same instant", "DateTime values compare by instant"],
    checks: &[
        Check { name: "value", what: "random values of random types: borrowing, re-owning, cloning, type, text, reflexivity and hash", quick: 1500000, thorough: 30000000, threads: 0, f: c23_value },
        Check { name: "pairs", what: "pairs of related values: symmetry, equality against the model, hash agreement, behaviour as map keys", quick: 2000000, thorough: 40000000, threads: 0, f: c23_pairs },
        Check { name: "rust", what: "Rust values of every convertible type to values and back", quick: 4000000, thorough: 80000000, threads: 0, f: c23_rust },
        Check { name: "times", what: "instants of the years -250000 to 250000 as DateTime64 values and zoned values: back, text, borrowed", quick: 1000000, thorough: 20000000, threads: 0, f: c23_times },
        Check { name: "types", what: "type names and type equality", quick: 2000000, thorough: 40000000, threads: 0, f: c23_types },
    ],
    findings: &[],
};
