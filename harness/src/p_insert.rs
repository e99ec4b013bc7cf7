//! C02, C03, C09: conversions on insert, large inserts, re-inserting fetched blocks.
use crate::gen::Src;
use crate::hook;
use crate::lib_build::*;
use crate::model::*;
use crate::p_data::*;
use crate::run::*;
use crate::server::*;
use chrono::TimeZone;
use clickhouse_rs::types::{Block, Complex};
use clickhouse_rs::Pool;
use futures_util::TryStreamExt;

// ------------------------------------------------------------------ C02
#[derive(Debug, Clone, PartialEq)]
enum Conv {
    /// the conversion must be accepted and give this value
    Is(Val),
    /// it may be refused, but if accepted gives this value
    May(Val),
    /// it must be refused
    No,
    /// outside the range of the declared type: not specified
    Out,
}
use Conv::*;

fn rescale(v: i64, from: u8, p: u8, to: u8) -> Option<i64> {
    let x = v as i128;
    let y = if to >= from {
        x * 10i128.pow((to - from) as u32)
    } else {
        x / 10i128.pow((from - to) as u32)
    };
    if p <= 9 {
        i32::try_from(y).ok().map(|v| v as i64)
    } else {
        i64::try_from(y).ok()
    }
}
fn fixed(b: &[u8], n: usize) -> Val {
    let mut v = b[..b.len().min(n)].to_vec();
    v.resize(n, 0);
    Val::Str(v)
}
/// value in the destination type; `typed`: the source column was built from typed vectors
fn conv(s: &Ty, v: &Val, d: &Ty, typed: bool, z: &str) -> Conv {
    if s.norm(z) == d.norm(z) {
        return Is(v.clone());
    }
    match (s, v, d) {
        (_, _, Ty::Agg(_, d)) => conv(s, v, d, typed, z),
        (Ty::Str, Val::Str(b), Ty::Fixed(n)) => Is(fixed(b, *n)),
        (Ty::Null(a), v, Ty::Null(b)) if **a == Ty::Str && matches!(**b, Ty::Fixed(_)) => match (v, &**b) {
            (Val::Null, _) => Is(Val::Null),
            (Val::Str(x), Ty::Fixed(n)) => Is(fixed(x, *n)),
            _ => unreachable!(),
        },
        (Ty::Arr(a), Val::Arr(xs), Ty::Str | Ty::Fixed(_)) if **a == Ty::U(8) => {
            let b: Vec<u8> = xs.iter().map(|x| if let Val::U(u) = x { *u as u8 } else { unreachable!() }).collect();
            match d {
                Ty::Fixed(n) => Is(fixed(&b, *n)),
                _ => Is(Val::Str(b)),
            }
        }
        (Ty::Str, Val::Str(b), Ty::Ip4) => match std::str::from_utf8(b).ok().and_then(|s| s.parse::<std::net::Ipv4Addr>().ok()) {
            Some(ip) => Is(Val::Ip4(ip.octets())),
            None => No,
        },
        (Ty::Str, Val::Str(b), Ty::Ip6) => match std::str::from_utf8(b).ok().and_then(|s| s.parse::<std::net::Ipv6Addr>().ok()) {
            Some(ip) => Is(Val::Ip6(ip.octets())),
            None => No,
        },
        (Ty::Dec(_, a), Val::Dec(x), Ty::Dec(p, b)) => match rescale(*x, *a, *p, *b) {
            Some(y) => Is(Val::Dec(y)),
            None => No,
        },
        (Ty::E8(_), _, Ty::E8(_)) | (Ty::E16(_), _, Ty::E16(_)) => Is(v.clone()),
        (Ty::DateTime(_), Val::DateTime(x), Ty::DateTime(_)) => Is(Val::DateTime(*x)),
        (Ty::DateTime(_), Val::DateTime(x), Ty::DT64(p, _)) => {
            let y = Val::DT64(*x as i64 * 10i64.pow(*p));
            if typed {
                Is(y)
            } else {
                May(y)
            }
        }
        // what the client does with raw DateTime64 values of another precision is its choice, unless it changes the instant
        (Ty::DT64(p, _), Val::DT64(x), Ty::DT64(q, _)) => {
            if p == q {
                May(Val::DT64(*x))
            } else {
                let y = *x as i128 * 10i128.pow(*q) / 10i128.pow(*p);
                match i64::try_from(y) {
                    Ok(y) if q >= p => May(Val::DT64(y)),
                    _ => No,
                }
            }
        }
        (Ty::Null(a), v, Ty::Null(b)) => {
            let must = matches!(
                (&**a, &**b),
                (Ty::Dec(..), Ty::Dec(..)) | (Ty::E8(_), Ty::E8(_)) | (Ty::E16(_), Ty::E16(_))
            ) || (typed && matches!((&**a, &**b), (Ty::DateTime(_), Ty::DateTime(_) | Ty::DT64(..))));
            let inner = match v {
                // a column of NULLs still needs a conversion of its type
                Val::Null => match conv(a, &default_val(a), b, typed, z) {
                    Is(_) => Is(Val::Null),
                    May(_) => May(Val::Null),
                    x => x,
                },
                v => conv(a, v, b, typed, z),
            };
            match inner {
                Is(v) if !must => May(v),
                x => x,
            }
        }
        (Ty::Arr(a), Val::Arr(xs), Ty::Arr(b)) => {
            let must = matches!((&**a, &**b), (Ty::E8(_), Ty::E8(_)) | (Ty::E16(_), Ty::E16(_)))
                || (typed && matches!((&**a, &**b), (Ty::DateTime(_), Ty::DateTime(_) | Ty::DT64(..))));
            let mut out = vec![];
            let mut may = !must;
            if let No = conv(a, &default_val(a), b, typed, z) {
                // whether an empty array converts is the client's choice
                if !matches!((&**a, &**b), (Ty::Str, Ty::Ip4 | Ty::Ip6)) {
                    return No;
                }
                may = true;
            }
            for x in xs {
                match conv(a, x, b, typed, z) {
                    Is(v) => out.push(v),
                    May(v) => {
                        may = true;
                        out.push(v)
                    }
                    x => return x,
                }
            }
            if may {
                May(Val::Arr(out))
            } else {
                Is(Val::Arr(out))
            }
        }
        (Ty::Map(k, a), Val::Map(xs), Ty::Map(k2, b)) => {
            let mut out = vec![];
            if conv(k, &default_val(k), k2, typed, z) == No || conv(a, &default_val(a), b, typed, z) == No {
                return No;
            }
            for (x, y) in xs {
                match (conv(k, x, k2, typed, z), conv(a, y, b, typed, z)) {
                    (Is(x) | May(x), Is(y) | May(y)) => out.push((x, y)),
                    _ => return No,
                }
            }
            May(Val::Map(out))
        }
        (s, v, Ty::Lc(d)) => {
            let dict = matches!(s, Ty::Str | Ty::Fixed(_) | Ty::Date | Ty::DateTime(_) | Ty::U(8 | 16 | 32 | 64) | Ty::I(8 | 16 | 32 | 64));
            if s.norm(z) == d.norm(z) && dict {
                return Is(v.clone());
            }
            match conv(s, v, d, typed, z) {
                Is(v) if matches!((s, &**d), (Ty::Str, Ty::Fixed(_)) | (Ty::DateTime(_), Ty::DateTime(_))) => Is(v),
                Is(v) | May(v) => May(v),
                x => x,
            }
        }
        (Ty::DT64(p, _), Val::DT64(x), Ty::DateTime(_)) => match u32::try_from(x.div_euclid(10i64.pow(*p))) {
            Ok(x) => May(Val::DateTime(x)),
            Err(_) => Out,
        },
        // widening of plain values would be harmless, but the client does not offer it
        (Ty::Fixed(_), Val::Str(b), Ty::Str) => May(Val::Str(b.clone())),
        (Ty::U(8), Val::U(x), Ty::Bool) if *x < 2 => May(Val::Bool(*x == 1)),
        (Ty::Bool, Val::Bool(x), Ty::U(8)) => May(Val::U(*x as u128)),
        _ => No,
    }
}

fn ip_text(g: &mut Src, v6: bool) -> Val {
    let s = match g.below(if v6 { 6 } else { 5 }) {
        0 | 1 if !v6 => std::net::Ipv4Addr::from(g.uint(32) as u32).to_string(),
        0 | 1 => std::net::Ipv6Addr::from(g.uint(128)).to_string(),
        2 if v6 => format!("::ffff:{}", std::net::Ipv4Addr::from(g.uint(32) as u32)),
        2 => "0.0.0.0".into(),
        3 if v6 => "::".into(),
        3 => "255.255.255.255".into(),
        4 if v6 => std::net::Ipv6Addr::from(g.uint(64)).to_string().to_uppercase(),
        _ => std::net::Ipv4Addr::from(g.uint(32) as u32).to_string(),
    };
    Val::Str(s.into_bytes())
}
/// a source column, the declared type and the values
fn gen_pair(g: &mut Src, n: usize) -> (Ty, Ty, Vec<Val>) {
    let cc = TyCfg::client();
    let cs = TyCfg::server();
    let bx = Box::new;
    let (s, d): (Ty, Ty) = match g.below(16) {
        0 => (Ty::Str, Ty::Fixed(g.usize(1, 12))),
        1 => (Ty::Null(bx(Ty::Str)), Ty::Null(bx(Ty::Fixed(g.usize(1, 12))))),
        2 => (Ty::Arr(bx(Ty::U(8))), if g.bool() { Ty::Str } else { Ty::Fixed(g.usize(1, 6)) }),
        3 => {
            let v6 = g.bool();
            let mut vals: Vec<Val> = (0..n).map(|_| ip_text(g, v6)).collect();
            if n > 0 && g.chance(1, 5) {
                // a wrong address somewhere
                let k = g.usize(0, n - 1);
                vals[k] = Val::Str(match g.below(6) {
                    0 => b"".to_vec(),
                    1 => b"1.2.3".to_vec(),
                    2 => b"256.1.1.1".to_vec(),
                    3 => vec![0xff, 0xfe],
                    4 => b" 1.2.3.4".to_vec(),
                    _ => g.utf8(6).into_bytes(),
                });
            }
            return (Ty::Str, if v6 { Ty::Ip6 } else { Ty::Ip4 }, vals);
        }
        4 | 5 => {
            let s1 = g.usize(0, 18) as u8;
            let p = g.usize(1, 18) as u8;
            let s2 = g.usize(0, p as usize) as u8;
            let a = Ty::Dec(18, s1);
            let b = Ty::Dec(p, s2);
            let null = g.bool();
            let lim = g.usize(1, 18) as u32;
            let m = 10i64.pow(lim) - 1;
            // mostly small enough to fit, sometimes not
            let fit = g.chance(4, 5);
            let vals = (0..n)
                .map(|_| {
                    if null && g.chance(1, 3) {
                        return Val::Null;
                    }
                    let mut x = g.range_i64(-m, m);
                    if fit {
                        while rescale(x, s1, p, s2).is_none() {
                            x /= 10;
                        }
                    }
                    Val::Dec(x)
                })
                .collect();
            return if null { (Ty::Null(bx(a)), Ty::Null(bx(b)), vals) } else { (a, b, vals) };
        }
        6 => {
            let e = gen_scalar_enum(g);
            let d = other_enum(g, &e);
            match g.below(3) {
                0 => (e, d),
                1 => (Ty::Null(bx(e)), Ty::Null(bx(d))),
                _ => (Ty::Arr(bx(e)), Ty::Arr(bx(d))),
            }
        }
        7 | 8 => {
            let a = Ty::DateTime(if g.bool() { None } else { Some(gen_tz(g)) });
            let z = if g.bool() { None } else { Some(gen_tz(g)) };
            let b = if g.chance(1, 3) { Ty::DateTime(z) } else { Ty::DT64(g.below(10) as u32, z) };
            match g.below(4) {
                0 => (Ty::Null(bx(a)), Ty::Null(bx(b))),
                1 => (Ty::Arr(bx(a)), Ty::Arr(bx(b))),
                _ => (a, b),
            }
        }
        9 | 10 => {
            let mut a = gen_lc_inner(g);
            if let Ty::Fixed(_) = a {
                a = Ty::Str;
            }
            let d = match &a {
                Ty::Str if g.bool() => Ty::Fixed(g.usize(1, 8)),
                Ty::DateTime(_) => Ty::DateTime(if g.bool() { None } else { Some(gen_tz(g)) }),
                a => a.clone(),
            };
            let pool: Vec<Val> = (0..g.usize(1, 8)).map(|_| gen_val(g, &a)).collect();
            let vals = (0..n).map(|_| g.pick(&pool).clone()).collect();
            return (a, Ty::Lc(bx(d)), vals);
        }
        11 => {
            let a = client_ty(&gen_ty(g, &cc, 1));
            let d = Ty::Agg(g.pick(AGGS).to_string(), bx(a.clone()));
            (a, d)
        }
        12 => {
            // an aggregate over one of the conversions
            let (a, d, v) = gen_pair_simple(g, n);
            return (a, Ty::Agg(g.pick(AGGS).to_string(), bx(d)), v);
        }
        13 => (client_ty(&gen_ty(g, &cc, 1)), gen_ty(g, &cs, 1)),
        14 => (client_ty(&gen_scalar_ty(g, &cc)), Ty::Lc(bx(gen_lc_inner(g)))),
        _ => {
            let a = client_ty(&gen_ty(g, &cc, 2));
            (a.clone(), a)
        }
    };
    let v = gen_vals(g, &s, n);
    (s, d, v)
}
fn gen_pair_simple(g: &mut Src, n: usize) -> (Ty, Ty, Vec<Val>) {
    let (s, d) = match g.below(3) {
        0 => (Ty::Str, Ty::Fixed(g.usize(1, 12))),
        1 => (Ty::DateTime(None), Ty::DT64(g.below(10) as u32, None)),
        _ => {
            let e = gen_scalar_enum(g);
            let d = other_enum(g, &e);
            (e, d)
        }
    };
    let v = gen_vals(g, &s, n);
    (s, d, v)
}
fn gen_scalar_enum(g: &mut Src) -> Ty {
    loop {
        let t = gen_scalar_ty(g, &TyCfg::client());
        if matches!(t, Ty::E8(_) | Ty::E16(_)) {
            return t;
        }
        if g.below(4) == 0 {
            return Ty::E8(vec![("a".into(), 1), ("b".into(), -2)]);
        }
    }
}
/// the same values, perhaps renamed and with additions
fn other_enum(g: &mut Src, e: &Ty) -> Ty {
    let mut k = 0;
    let mut nm = |g: &mut Src, n: &str| {
        k += 1;
        if g.bool() {
            format!("{n}{k}")
        } else {
            format!("n{k}")
        }
    };
    match e {
        Ty::E8(v) => Ty::E8(v.iter().map(|(n, x)| (nm(g, n), *x)).collect()),
        Ty::E16(v) => Ty::E16(v.iter().map(|(n, x)| (nm(g, n), *x)).collect()),
        _ => unreachable!(),
    }
}

fn c02_convert(g: &mut Src) -> Res {
    c02_run(g, false)
}
/// the same for blocks that come from a query
fn c02_fetched(g: &mut Src) -> Res {
    c02_run(g, true)
}
/// `SELECT` is answered with a fixed reply, everything else is an insert
async fn io_server(reply: Vec<u8>, header: Blk, hello: HelloCfg, seen: Seen) -> Srv {
    let reply = std::rc::Rc::new(reply);
    Srv::start(hello, Frag::default(), move |mut c| {
        let (seen, header, reply) = (seen.clone(), header.clone(), reply.clone());
        async move {
            c.greet().await?;
            loop {
                let q = c.next_query().await?;
                if q.sql.starts_with("SELECT") {
                    if !c.send(&reply).await {
                        return Ok(());
                    }
                    continue;
                }
                let p = c.data_packet(&header.encode(&EncOpts::default()), None);
                if !c.send(&p).await {
                    return Ok(());
                }
                let blocks = c.read_insert().await?;
                seen.borrow_mut().push(InsertSeen::new(q, blocks));
                if !c.send(&eos()).await {
                    return Ok(());
                }
            }
        }
    })
    .await
}
fn c02_run(g: &mut Src, fetched: bool) -> Res {
    let z = gen_tz(g);
    let nc = g.usize(1, 3);
    let nr = g.usize(1, 12);
    let names = gen_names(g, nc);
    let mut src = Blk { cols: vec![] };
    let mut dst = Blk { cols: vec![] };
    let mut modes = vec![];
    for name in names {
        let (mut s, d, vals) = gen_pair(g, nr);
        if fetched {
            // a server has decimals of other widths, too
            let narrow = |t: &Ty| match t {
                Ty::Dec(18, k) if *k <= 9 => Some(Ty::Dec(9, *k)),
                _ => None,
            };
            let small = vals.iter().all(|v| !matches!(v, Val::Dec(x) if x.abs() > 999_999_999));
            let t = match &s {
                Ty::Null(t) => narrow(t).map(|t| Ty::Null(Box::new(t))),
                t => narrow(t),
            };
            match t {
                Some(t) if small && g.bool() => s = t,
                _ => {}
            }
        }
        src.cols.push(Col {
            name: name.clone(),
            ty: s,
            vals,
        });
        dst.cols.push(Col { name, ty: d, vals: vec![] });
        modes.push(g.bool());
    }
    plain_names(&mut src);
    for (a, b) in src.cols.iter().zip(dst.cols.iter_mut()) {
        b.name = a.name.clone();
    }
    // a header with a different number of columns
    let wrong_count = g.chance(1, 25);
    // build each column typed or by rows
    let mut block = Block::new();
    let mut refuse = false;
    let mut may = false;
    let mut want = dst.clone();
    for (k, c) in src.cols.iter().enumerate() {
        let mut typed = modes[k] && !fetched;
        block = if fetched {
            block
        } else if typed {
            match add_typed(block, c, &z, g) {
                Ok(b) => b,
                Err(b) => {
                    typed = false;
                    let one = Blk { cols: vec![c.clone()] };
                    let t = build_rows(&one, &z, g)?;
                    b.column(&c.name, t.columns()[0].clone())
                }
            }
        } else {
            let one = Blk { cols: vec![c.clone()] };
            let t = build_rows(&one, &z, g)?;
            block.column(&c.name, t.columns()[0].clone())
        };
        let mut out = vec![];
        for v in &c.vals {
            match conv(&c.ty, v, &dst.cols[k].ty, typed, &z) {
                Is(v) => out.push(v),
                May(v) => {
                    may = true;
                    out.push(v)
                }
                No => refuse = true,
                Out => return Ok(()),
            }
        }
        want.cols[k].vals = out;
    }
    if wrong_count {
        refuse = true;
        if g.bool() || dst.cols.len() == 1 {
            dst.cols.push(Col {
                name: "extra".into(),
                ty: Ty::U(8),
                vals: vec![],
            });
        } else {
            dst.cols.pop();
        }
    }
    let lz4 = g.bool();
    // the answer of the query, and what is done with it
    let mut reply = vec![];
    let mut cuts = vec![];
    let mode = g.below(3);
    if fetched {
        let nparts = if mode == 0 { 1 } else { g.usize(1, 4) };
        cuts = (1..nparts).map(|_| g.usize(0, nr)).collect();
        cuts.sort();
        cuts.insert(0, 0);
        cuts.push(nr);
        reply = encode_wild(&src.header(), g, lz4, true);
        for w in cuts.windows(2) {
            reply.extend(encode_wild(&src.slice(w[0], w[1]), g, lz4, true));
        }
        reply.extend(eos());
        g.label(["as is", "assembled from collected columns", "collected, cloned and assembled"][mode as usize]);
    }
    g.say(format!(
        "lz4={lz4} {}{}: block {} into ({})",
        if fetched { format!("fetched in blocks at {cuts:?} ") } else { String::new() },
        if refuse { "refuse" } else if may { "may" } else { "must" },
        describe(&src),
        dst.cols.iter().map(|c| c.ty.name()).collect::<Vec<_>>().join(", ")
    ));
    g.label(if refuse { "refused" } else if may { "may be refused" } else { "accepted" });
    g.nontrivial = src.cols.iter().zip(&dst.cols).any(|(a, b)| a.ty != b.ty);
    type_labels(g, &dst);
    let hello = HelloCfg {
        tz: z.clone(),
        ..Default::default()
    };
    block_on(30, async move {
        let seen: Seen = Default::default();
        let srv = io_server(reply, dst.header(), hello, seen.clone()).await;
        let pool = Pool::new(srv.url(if lz4 { "compression=lz4" } else { "" }));
        let mut c = pool.get_handle().await.map_err(|e| format!("connect: {e}"))?;
        if fetched {
            if mode == 0 {
                let bs: Vec<Block> = c.query("SELECT 1").stream_blocks().try_collect().await.map_err(|e| format!("fetch: {e}"))?;
                block = match bs.into_iter().find(|b| b.row_count() > 0) {
                    Some(b) => b,
                    None => return err("no block was fetched"),
                };
            } else {
                let mut all: Block<Complex> = c.query("SELECT 1").fetch_all().await.map_err(|e| format!("fetch: {e}"))?;
                if mode == 2 {
                    all = all.clone();
                }
                for col in all.columns() {
                    block = block.column(col.name(), col.clone());
                }
            }
        }
        let r = c.insert("t", &block).await;
        spin(20).await;
        let e = srv.errors();
        if !e.is_empty() {
            return err(format!("the server could not read what the client sent: {} (insert gave {:?})", e.join("; "), r.err().map(|e| e.to_string())));
        }
        let s = std::mem::take(&mut *seen.borrow_mut());
        match r {
            Ok(()) => {
                if refuse {
                    let what = s.first().and_then(|s| s.blocks.first()).map(describe);
                    return err(format!("the insert should have been refused; the server received {what:?}"));
                }
                check_insert(&s, "t", &want, &z)?;
            }
            Err(e) => {
                if !refuse && !may {
                    return err(format!("the insert failed: {e}"));
                }
                if s.iter().any(|s| s.blocks.iter().any(|b| b.rows() > 0)) {
                    return err(format!("the insert failed ({e}) but data was sent"));
                }
            }
        }
        // the pool is usable afterwards
        drop(c);
        let mut c = pool.get_handle().await.map_err(|e| format!("handle after the insert: {e}"))?;
        c.ping().await.map_err(|e| format!("ping after the insert: {e}"))?;
        Ok(())
    })
}

/// zoned timestamps with fractions into DateTime64 of every precision
fn c02_fraction(g: &mut Src) -> Res {
    let z = gen_tz(g);
    let p = g.below(10) as u32;
    let col_tz = if g.bool() { None } else { Some(gen_tz(g)) };
    let n = g.usize(1, 8);
    // p=9 holds 1677..2262 only
    let (lo, hi) = (-2208988800i64, if p == 9 { 9223372035 } else { 10413791999 });
    let mut secs = vec![];
    let mut vals = vec![];
    let form = g.below(4);
    for _ in 0..n {
        let s = match g.below(4) {
            0 => g.range_i64(-5, 5),
            1 => g.range_i64(lo, -1),
            _ => g.range_i64(0, hi),
        };
        let ns = match g.below(4) {
            0 => 0,
            1 => *g.pick(&[1, 999_999_999, 999, 1_000_000, 500_000_000]),
            _ => g.below(1_000_000_000) as u32,
        };
        secs.push((s, ns));
        let total = s as i128 * 1_000_000_000 + ns as i128;
        vals.push(Val::DT64(total.div_euclid(10i128.pow(9 - p)) as i64));
    }
    let src_tz = gen_tz(g);
    let times: Vec<chrono::DateTime<chrono_tz::Tz>> = secs.iter().map(|(s, n)| tz(&src_tz).timestamp_opt(*s, *n).unwrap()).collect();
    let (block, ty, vals) = match form {
        0 | 1 => (Block::new().column("t", times), Ty::DT64(p, col_tz), vals),
        2 => (
            Block::new().column("t", times.iter().map(|t| Some(*t)).chain([None]).collect::<Vec<Option<_>>>()),
            Ty::Null(Box::new(Ty::DT64(p, col_tz))),
            vals.into_iter().chain([Val::Null]).collect(),
        ),
        _ => (
            Block::new().column("t", vec![times.clone(), vec![]]),
            Ty::Arr(Box::new(Ty::DT64(p, col_tz))),
            vec![Val::Arr(vals), Val::Arr(vec![])],
        ),
    };
    let want = Blk {
        cols: vec![Col {
            name: "t".into(),
            ty,
            vals,
        }],
    };
    g.say(format!("{:?} ({src_tz}) into {}", secs, want.cols[0].ty.name()));
    g.nontrivial = true;
    let hello = HelloCfg {
        tz: z.clone(),
        ..Default::default()
    };
    block_on(30, async move {
        let seen: Seen = Default::default();
        let srv = insert_server(want.header(), hello, Frag::default(), seen.clone()).await;
        let pool = Pool::new(srv.url(""));
        let mut c = pool.get_handle().await.map_err(|e| format!("connect: {e}"))?;
        c.insert("t", &block).await.map_err(|e| format!("insert: {e}"))?;
        let s = std::mem::take(&mut *seen.borrow_mut());
        check_insert(&s, "t", &want, &z)
    })
}

pub static C02: Prop = Prop {
    id: "C02",
    rule: "the declared type of at least one column differs from the block's; distinct by the choices that generated types, values and construction",
    level: "exploration",
    assumptions: &["a scripted server with an independent codec stands in for ClickHouse"],
    checks: &[
        Check {
            name: "convert",
            what: "random (block type, declared type) pairs: the server's decode equals the reference conversion, or the insert is refused with no data sent",
            quick: 100000,
            thorough: 2000000,
            threads: 0,
            f: c02_convert,
        },
        Check {
            name: "fetched",
            what: "the same for blocks fetched from a server (single blocks, collected results, assembled columns) and decimals of both widths",
            quick: 60000,
            thorough: 1200000,
            threads: 0,
            f: c02_fetched,
        },
        Check {
            name: "fraction",
            what: "zoned timestamps with fractional seconds into DateTime64(0..9), nullable and array forms",
            quick: 20000,
            thorough: 400000,
            threads: 0,
            f: c02_fraction,
        },
    ],
    findings: &[],
};

// ------------------------------------------------------------------ C03
const LIMIT: usize = 1 << 20;

/// rows are drawn from a small pool in a fixed, non-periodic order
pub fn row_ix(i: usize, k: usize) -> usize {
    (i.wrapping_mul(2654435761) >> 7).wrapping_add(i >> 11) % k
}

fn c03_large(g: &mut Src) -> Res {
    let z = "UTC".to_string();
    let n = match g.weighted(&[2, 3, 3, 4, 1, 1, 1]) {
        0 => LIMIT - 1,
        1 => LIMIT,
        2 => LIMIT + 1,
        3 => LIMIT + g.usize(2, 5000),
        4 => 2 * LIMIT,
        5 => 2 * LIMIT + 1,
        _ => 2 * LIMIT - 1,
    };
    let mode = g.weighted(&[5, 2, 2]);
    let (src, dst) = match mode {
        0 => {
            let t = gen_ty(g, &TyCfg::server(), 1);
            (t.clone(), t)
        }
        1 => {
            let mut t = client_ty(&gen_ty(g, &TyCfg::client(), 1));
            if !matches!(t, Ty::Map(..)) && g.bool() {
                t = g.pick(&[Ty::Str, Ty::Null(Box::new(Ty::Str)), Ty::Arr(Box::new(Ty::Str)), Ty::DateTime(None), Ty::E8(vec![("a".into(), 1), ("b".into(), 2)]), Ty::Dec(18, 3)]).clone();
            }
            (t.clone(), t)
        }
        _ => {
            let mut k = gen_pair(g, 0);
            for _ in 0..20 {
                if k.0 != k.1 && !matches!(conv(&k.0, &default_val(&k.0), &k.1, true, &z), No | May(_)) {
                    break;
                }
                k = gen_pair(g, 0);
            }
            if k.0 == k.1 || matches!(conv(&k.0, &default_val(&k.0), &k.1, true, &z), No | May(_) | Out) {
                k = (Ty::Str, Ty::Fixed(5), vec![]);
            }
            (k.0, k.1)
        }
    };
    let (src, dst) = (thin(src), thin(dst));
    let pk = g.usize(2, 40);
    let mut pool: Vec<Val> = (0..pk).map(|_| short(gen_val(g, &src))).collect();
    let lz4 = g.bool();
    let with_index = g.chance(1, 3);
    // the expected pool, in the declared type
    let mut want_pool = vec![];
    let mut keep = vec![];
    for v in &pool {
        if let Is(w) = conv(&src, v, &dst, true, &z) {
            want_pool.push(canon(&w));
            keep.push(v.clone());
        }
    }
    if keep.is_empty() {
        return Ok(());
    }
    pool = keep;
    let pk = pool.len();
    g.say(format!(
        "{n} rows, lz4={lz4}, {}, {} -> {}, pool {:?}",
        ["fetched", "typed", "converted"][mode],
        src.name(),
        dst.name(),
        &pool[..pk.min(2)]
    ));
    g.nontrivial = n > LIMIT;
    g.label(["fetched block", "typed block", "converted block"][mode]);
    let vals: Vec<Val> = (0..n).map(|i| pool[row_ix(i, pk)].clone()).collect();
    let col = Col {
        name: "v".into(),
        ty: src.clone(),
        vals,
    };
    let mut header = Blk {
        cols: vec![Col {
            name: "v".into(),
            ty: dst.clone(),
            vals: vec![],
        }],
    };
    if with_index {
        header.cols.push(Col {
            name: "i".into(),
            ty: Ty::U(32),
            vals: vec![],
        });
    }
    let built: Option<Block> = if mode == 0 {
        None
    } else {
        let mut b = match add_typed(Block::new(), &col, &z, g) {
            Ok(b) => b,
            // no constructor: rows
            Err(_) => {
                let mut b = Block::new();
                for v in &col.vals {
                    b.push(vec![("v".to_string(), to_value(&src, v, &z))]).map_err(|e| format!("push: {e}"))?;
                }
                b
            }
        };
        if with_index {
            b = b.column("i", (0..n as u32).collect::<Vec<u32>>());
        }
        Some(b)
    };
    let reply = if mode == 0 {
        let mut full = Blk { cols: vec![col] };
        if with_index {
            full.cols.push(Col {
                name: "i".into(),
                ty: Ty::U(32),
                vals: (0..n).map(|i| Val::U(i as u128)).collect(),
            });
        }
        let o = EncOpts {
            lc_width: g.below(4),
            lc_extra: g.below(3),
            junk_under_null: g.bool(),
        };
        let mut p = data_packet(&full.header().encode(&o), lz4, None);
        p.extend(data_packet(&full.encode(&o), lz4, None));
        p.extend(eos());
        p
    } else {
        vec![]
    };
    block_on(300, async move {
        let verdict: std::rc::Rc<std::cell::RefCell<(usize, Vec<String>)>> = Default::default();
        let v2 = verdict.clone();
        let hd = header.clone();
        let reply = std::rc::Rc::new(reply);
        let want_pool = std::rc::Rc::new(want_pool);
        let srv = Srv::start(HelloCfg::default(), Frag::default(), move |mut c| {
            let (verdict, header, reply, want_pool) = (v2.clone(), hd.clone(), reply.clone(), want_pool.clone());
            async move {
                c.greet().await?;
                loop {
                    let q = c.next_query().await?;
                    if q.sql.starts_with("SELECT") {
                        if !c.send(&reply).await {
                            return Ok(());
                        }
                        continue;
                    }
                    if let Err(e) = parse_insert(&q.sql, "t") {
                        verdict.borrow_mut().1.push(e);
                    }
                    let p = c.data_packet(&header.encode(&EncOpts::default()), None);
                    if !c.send(&p).await {
                        return Ok(());
                    }
                    loop {
                        let b = match c.recv().await? {
                            CPkt::Data(_, b) => b,
                            p => return Err(RecvErr::Bad(format!("{} packet inside insert data", p.tag()))),
                        };
                        if b.cols.is_empty() {
                            break;
                        }
                        let mut v = verdict.borrow_mut();
                        if b.rows() > LIMIT {
                            v.1.push(format!("a data block of {} rows", b.rows()));
                        }
                        if b.cols.len() != header.cols.len() {
                            v.1.push(format!("a data block of {} columns", b.cols.len()));
                            continue;
                        }
                        let base = v.0;
                        for (x, h) in b.cols.iter().zip(&header.cols) {
                            if x.name != h.name || x.ty.norm("UTC") != h.ty.norm("UTC") {
                                v.1.push(format!("column {:?} {} instead of {:?} {}", x.name, x.ty.name(), h.name, h.ty.name()));
                                continue;
                            }
                            for (i, a) in x.vals.iter().enumerate() {
                                let row = base + i;
                                let ok = if h.name == "i" {
                                    *a == Val::U(row as u128)
                                } else {
                                    let w = &want_pool[row_ix(row, want_pool.len())];
                                    a == w || canon(a) == *w
                                };
                                if !ok {
                                    v.1.push(format!("row {row} (row {i} of its block): received {a:?} in column {:?}, expected {:?}", h.name, &want_pool[row_ix(row, want_pool.len())]));
                                    break;
                                }
                            }
                        }
                        v.0 += b.rows();
                    }
                    if !c.send(&eos()).await {
                        return Ok(());
                    }
                }
            }
        })
        .await;
        let pool = Pool::new(srv.url(if lz4 { "compression=lz4" } else { "" }));
        let mut c = pool.get_handle().await.map_err(|e| format!("connect: {e}"))?;
        let block = match built {
            Some(b) => b,
            None => {
                let bs: Vec<Block> = c.query("SELECT 1").stream_blocks().try_collect().await.map_err(|e| format!("fetch: {e}"))?;
                match bs.into_iter().next() {
                    Some(b) => b,
                    None => return err("no block was fetched"),
                }
            }
        };
        let r = c.insert("t", &block).await;
        spin(20).await;
        let e = srv.errors();
        if !e.is_empty() {
            return err(format!("the server could not read what the client sent: {}", e.join("; ")));
        }
        let v = verdict.borrow();
        if let Some(m) = v.1.first() {
            return err(m.clone());
        }
        r.map_err(|e| format!("insert failed: {e}"))?;
        if v.0 != n {
            return err(format!("the server received {} rows of {n}", v.0));
        }
        Ok(())
    })
}
/// inserts of other properties, cut into small pieces: what the server receives must be the same
fn c03_small(g: &mut Src) -> Res {
    if !hook::on() {
        g.excluded.push("the limit cannot be lowered".into());
        return Ok(());
    }
    let n = *g.pick(&[1usize, 1, 2, 2, 3, 3, 4, 5, 7, 8, 10, 16]);
    let _l = hook::Limit::set(n);
    hook::PIECES.set(0);
    let k = g.weighted(&[4, 2, 3]);
    g.label(["built block", "converted block", "fetched block"][k]);
    let r = match k {
        0 => c01_insert(g),
        1 => c02_convert(g),
        _ => c09_reinsert(g),
    };
    g.nontrivial = hook::PIECES.get() > 1;
    if let Some(s) = g.sample.as_mut() {
        s.insert_str(0, &format!("pieces of {n} rows; "));
    }
    if hook::PIECES.get() > 1 {
        g.label("several pieces");
    }
    r.map_err(|e| format!("in pieces of {n} rows: {e}"))
}
/// narrow fixed strings, a million copies are made
fn thin(t: Ty) -> Ty {
    let b = |t: Box<Ty>| Box::new(thin(*t));
    match t {
        Ty::Fixed(n) => Ty::Fixed((n - 1) % 20 + 1),
        Ty::Null(t) => Ty::Null(b(t)),
        Ty::Arr(t) => Ty::Arr(b(t)),
        Ty::Lc(t) => Ty::Lc(b(t)),
        Ty::Agg(f, t) => Ty::Agg(f, b(t)),
        Ty::Map(k, v) => Ty::Map(b(k), b(v)),
        t => t,
    }
}
/// keep pool values small, a million copies are made
fn short(v: Val) -> Val {
    match v {
        Val::Str(mut s) => {
            if s.len() > 24 {
                s.truncate(24);
                // do not leave half a character behind
                while std::str::from_utf8(&s).is_err() && s.len() > 20 {
                    s.pop();
                }
            }
            Val::Str(s)
        }
        Val::Arr(mut v) => {
            v.truncate(3);
            Val::Arr(v.into_iter().map(short).collect())
        }
        Val::Map(mut v) => {
            v.truncate(2);
            Val::Map(v.into_iter().map(|(a, b)| (a, short(b))).collect())
        }
        v => v,
    }
}

pub static C03: Prop = Prop {
    id: "C03",
    rule: "the block has more rows than one data block may hold (the limit being lowered by the hook in `small`); distinct by the choices that generated it",
    level: "exploration",
    assumptions: &["a scripted server with an independent codec stands in for ClickHouse"],
    checks: &[
        Check {
            name: "small",
            what: "random blocks of any types, built, converted or fetched, with the limit of a piece lowered to 1..16 rows (hook); each piece decoded on its own, all together compared with the model cell by cell",
            quick: 60000,
            thorough: 1200000,
            threads: 0,
            f: c03_small,
        },
        Check {
            name: "large",
            what: "blocks of about 1 or 2 times 1,048,576 rows, fetched, typed or converted on insert; every received row compared with the model, in order",
            quick: 100,
            thorough: 2000,
            threads: 6,
            f: c03_large,
        },
    ],
    findings: &[],
};

// ------------------------------------------------------------------ C09
fn c09_reinsert(g: &mut Src) -> Res {
    let z = gen_tz(g);
    let mut b = if g.chance(1, 80) {
        g.label("thousands of rows");
        let (nc, nr) = (g.usize(1, 2), g.usize(900, 4000));
        gen_blk_sized(g, &TyCfg::server(), nc, nr, 1)
    } else {
        gen_blk(g, &TyCfg::server(), 4, 24, 2)
    };
    plain_names(&mut b);
    let lz4 = g.bool();
    let mode = g.below(4) as usize;
    // the result arrives in several blocks
    let nparts = g.usize(1, 3);
    let mut cuts: Vec<usize> = (1..nparts).map(|_| g.usize(0, b.rows())).collect();
    cuts.sort();
    cuts.insert(0, 0);
    cuts.push(b.rows());
    let mut reply = encode_wild(&b.header(), g, lz4, true);
    let mut parts = vec![];
    for w in cuts.windows(2) {
        let p = b.slice(w[0], w[1]);
        reply.extend(encode_wild_dict(&p, g, lz4, true, true));
        parts.push(p);
    }
    reply.extend(eos());
    // order in which columns are put in an assembled block
    let rev = g.bool();
    // rows pushed into the fetched block before it is inserted
    let mut more = b.header();
    if g.bool() {
        let n = g.size(6);
        for c in more.cols.iter_mut() {
            c.vals = gen_vals(g, &c.ty.clone(), n);
        }
    }
    g.say(format!(
        "lz4={lz4} +{} rows, {} parts {:?} of {}",
        more.rows(),
        ["as is", "cloned", "assembled from streamed columns", "assembled from collected columns"][mode],
        cuts,
        describe(&b)
    ));
    type_labels(g, &b);
    g.label(["as is", "cloned", "assembled (streamed)", "assembled (collected)"][mode]);
    g.nontrivial = b.rows() > 0;
    let hello = HelloCfg {
        tz: z.clone(),
        ..Default::default()
    };
    block_on(30, async move {
        let seen: Seen = Default::default();
        let s2 = seen.clone();
        let mut header = b.header();
        if rev && (mode == 2 || mode == 3) {
            header.cols.reverse();
        }
        let hd = header.clone();
        let reply = std::rc::Rc::new(reply);
        let srv = Srv::start(hello, Frag::default(), move |mut c| {
            let (seen, header, reply) = (s2.clone(), hd.clone(), reply.clone());
            async move {
                c.greet().await?;
                loop {
                    let q = c.next_query().await?;
                    if q.sql.starts_with("SELECT") {
                        if !c.send(&reply).await {
                            return Ok(());
                        }
                        continue;
                    }
                    let p = c.data_packet(&header.encode(&EncOpts::default()), None);
                    if !c.send(&p).await {
                        return Ok(());
                    }
                    let blocks = c.read_insert().await?;
                    seen.borrow_mut().push(InsertSeen::new(q, blocks));
                    if !c.send(&eos()).await {
                        return Ok(());
                    }
                }
            }
        })
        .await;
        let pool = Pool::new(srv.url(if lz4 { "compression=lz4" } else { "" }));
        let mut c = pool.get_handle().await.map_err(|e| format!("connect: {e}"))?;
        let mut todo: Vec<(Block, Blk)> = vec![];
        if mode == 3 {
            let all: Block<Complex> = c.query("SELECT 1").fetch_all().await.map_err(|e| format!("fetch_all: {e}"))?;
            let mut nb = Block::new();
            let mut want = b.clone();
            let mut cols: Vec<_> = all.columns().to_vec();
            if rev {
                cols.reverse();
                want.cols.reverse();
            }
            for col in cols {
                let name = col.name().to_string();
                nb = nb.column(&name, col);
            }
            todo.push((nb, want));
        } else {
            let blocks: Vec<Block> = c.query("SELECT 1").stream_blocks().try_collect().await.map_err(|e| format!("stream_blocks: {e}"))?;
            let rows: usize = blocks.iter().map(|b| b.row_count()).sum();
            if rows != b.rows() {
                return err(format!("{rows} rows were fetched instead of {}", b.rows()));
            }
            let mut at = 0;
            {
                for x in blocks {
                    let mut want = b.slice(at, at + x.row_count());
                    at += x.row_count();
                    let y = match mode {
                        0 => x,
                        1 => {
                            let y = x.clone();
                            drop(x);
                            y
                        }
                        _ => {
                            let mut cols: Vec<_> = x.columns().to_vec();
                            if rev {
                                cols.reverse();
                                want.cols.reverse();
                            }
                            let mut nb = Block::new();
                            for col in cols {
                                let name = col.name().to_string();
                                nb = nb.column(&name, col);
                            }
                            nb
                        }
                    };
                    todo.push((y, want));
                }
            }
        }
        if rev && mode >= 2 {
            more.cols.reverse();
        }
        for (mut block, mut want) in todo {
            for i in 0..more.rows() {
                block.push(row_of(&more, i, &z)).map_err(|e| format!("push of a row into the fetched block: {e}"))?;
            }
            for (w, m) in want.cols.iter_mut().zip(&more.cols) {
                w.vals.extend(m.vals.iter().cloned());
            }
            check_block(&block, &want, &z, false)?;
            let r = c.insert("t", &block).await;
            spin(20).await;
            let e = srv.errors();
            if !e.is_empty() {
                return err(format!("the server could not read what the client sent: {}", e.join("; ")));
            }
            r.map_err(|e| format!("insert failed: {e}"))?;
            let s = std::mem::take(&mut *seen.borrow_mut());
            check_insert(&s, "t", &want, &z)?;
            // the block itself is unchanged
            check_block(&block, &want, &z, false)?;
        }
        Ok(())
    })
}

pub static C09: Prop = Prop {
    id: "C09",
    rule: "the re-inserted result has at least one row; distinct by the choices that generated the result and the way it was re-assembled",
    level: "exploration",
    assumptions: &["a scripted server with an independent codec stands in for ClickHouse"],
    checks: &[Check {
        name: "reinsert",
        what: "random results fetched, re-assembled in four ways and inserted into a table of the same types; server-side decode compared cell by cell",
        quick: 60000,
        thorough: 1200000,
        threads: 0,
        f: c09_reinsert,
    }],
    findings: &[],
};
