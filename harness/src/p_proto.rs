//! C07, C08, C12, C13, C14: one operation against a server that splits, corrupts, fails, cuts or
//! garbles its answer.
use crate::gen::Src;
use crate::hook;
use crate::model::*;
use crate::p_data::*;
use crate::p_read::{gen_partition, slice, DRAIN};
use crate::run::*;
use crate::server::*;
use crate::wire::*;
use clickhouse_rs::errors::Error;
use clickhouse_rs::types::{Block, Complex};
use clickhouse_rs::{ClientHandle, Pool};
use futures_util::StreamExt;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Connect,
    Ping,
    Execute,
    Insert,
    Fetch,
    Rows,
    Blocks,
}
pub const OPS: &[Op] = &[Op::Connect, Op::Ping, Op::Execute, Op::Insert, Op::Fetch, Op::Rows, Op::Blocks];
impl Op {
    pub fn label(self) -> &'static str {
        match self {
            Op::Connect => "connect",
            Op::Ping => "ping",
            Op::Execute => "execute",
            Op::Insert => "insert",
            Op::Fetch => "fetch_all",
            Op::Rows => "stream",
            Op::Blocks => "stream_blocks",
        }
    }
    pub fn reads(self) -> bool {
        matches!(self, Op::Fetch | Op::Rows | Op::Blocks)
    }
    pub fn queries(self) -> bool {
        !matches!(self, Op::Connect | Op::Ping)
    }
}

/// One operation, its data and the packets of a correct answer.
pub struct Scn {
    pub op: Op,
    pub z: String,
    pub lz4: bool,
    pub ping: bool,
    pub hello: HelloCfg,
    pub blk: Blk,
    pub block: Block,
    /// rows per piece of an insert (0: the real limit)
    pub chunk: usize,
    /// answer to the query, packet by packet, with the number of result rows completed after each
    pub pk1: Vec<Vec<u8>>,
    pub rows_after: Vec<usize>,
    /// where the frames start in each packet (compressed data only)
    pub frame_at: Vec<Option<usize>>,
    /// notices before the end of the answer to inserted data
    pub notes: Vec<u8>,
}
pub fn gen_scn(g: &mut Src, ops: &[Op], max_rows: usize) -> Scn {
    let op = *g.pick(ops);
    let z = gen_tz(g);
    let lz4 = g.bool();
    let ping = g.bool();
    let hello = HelloCfg {
        tz: z.clone(),
        ..Default::default()
    };
    let mut pk1 = vec![];
    let mut rows_after = vec![];
    let mut frame_at = vec![];
    let mut blk = Blk { cols: vec![] };
    let mut block = Block::new();
    let mut notes = vec![];
    let mut chunk = 0;
    let mut add = |p: Vec<u8>, rows: usize, data: bool| {
        pk1.push(p);
        rows_after.push(rows);
        // uvarint 1 and an empty table name come first
        frame_at.push(if data && lz4 { Some(2) } else { None });
    };
    match op {
        Op::Connect | Op::Ping => {}
        Op::Execute => {
            for _ in 0..g.usize(0, 3) {
                match g.below(3) {
                    0 => add(progress(g, REV), 0, false),
                    1 => add(profile(g), 0, false),
                    _ => {
                        let b = gen_blk(g, &TyCfg::server(), 2, 3, 1);
                        add(encode_wild(&b, g, lz4, true), 0, true)
                    }
                }
            }
            add(eos(), 0, false);
        }
        Op::Insert => {
            let nc = g.usize(1, 3);
            let n = g.usize(1, max_rows.max(1));
            blk = as_client(gen_blk_sized(g, &TyCfg::client(), nc, n, 1));
            plain_names(&mut blk);
            // building is the business of other properties; a value that cannot be pushed is not
            block = match build_rows(&blk, &z, g) {
                Ok(b) => b,
                Err(e) => harness_error(&format!("build_rows: {e}")),
            };
            if hook::on() && g.bool() {
                chunk = g.usize(1, 5);
                g.label(if n > chunk { "insert in several pieces" } else { "insert in one piece" });
            }
            if g.chance(1, 3) {
                add(table_columns(g), 0, false);
            }
            if g.chance(1, 5) {
                add(if g.bool() { progress(g, REV) } else { profile(g) }, 0, false);
            }
            if g.chance(1, 3) {
                for _ in 0..g.usize(1, 3) {
                    notes.extend(if g.chance(2, 3) { progress(g, REV) } else { profile(g) });
                }
            }
            let body = blk.header().encode(&EncOpts::default());
            add(data_packet(&body, lz4, Some(g)), 0, true);
        }
        _ => {
            let nc = g.usize(1, 3);
            let n = g.usize(0, max_rows);
            blk = gen_blk_sized(g, &TyCfg::server(), nc, n, 1);
            let part = gen_partition(g, n);
            add(encode_wild(&blk.header(), g, lz4, false), 0, true);
            let mut at = 0;
            for k in part {
                if g.chance(1, 4) {
                    add(if g.bool() { progress(g, REV) } else { profile(g) }, at, false);
                }
                let p = encode_wild(&slice(&blk, at, k), g, lz4, true);
                at += k;
                add(p, at, true);
            }
            if g.chance(1, 3) {
                add(profile(g), at, false);
            }
            add(eos(), at, false);
        }
    }
    Scn {
        op,
        z,
        lz4,
        ping,
        hello,
        blk,
        block,
        chunk,
        pk1,
        rows_after,
        frame_at,
        notes,
    }
}
impl Scn {
    pub fn url(&self, srv: &Srv) -> String {
        srv.url(&format!(
            "ping_before_query={}&compression={}",
            self.ping,
            if self.lz4 { "lz4" } else { "none" }
        ))
    }
    pub fn text(&self) -> String {
        format!(
            "{} lz4={} ping_before_query={} {}",
            self.op.label(),
            self.lz4,
            self.ping,
            if self.blk.cols.is_empty() { String::new() } else { describe(&self.blk) }
        ) + &if self.chunk > 0 { format!(" in pieces of {} rows", self.chunk) } else { String::new() }
    }
    pub fn labels(&self, g: &mut Src) {
        g.label(self.op.label());
        g.label(if self.lz4 { "compressed" } else { "plain" });
    }
    /// an answer that carries the operation to its end
    pub fn good(&self) -> Plan {
        Plan {
            hello: self.hello.encode(),
            pong: pong(),
            pk1: self.pk1.concat(),
            pk2: [self.notes.clone(), eos()].concat(),
            insert: self.op == Op::Insert,
            clean: true,
            ..Plan::default()
        }
    }
    pub fn pings(&self) -> bool {
        self.op == Op::Ping || (self.op.queries() && self.ping)
    }
    /// statements an insert consists of
    pub fn pieces(&self) -> usize {
        if self.op == Op::Insert && self.chunk > 0 {
            self.blk.rows().div_ceil(self.chunk).max(1)
        } else {
            1
        }
    }
    /// bytes the server sends in a complete answer
    pub fn total(&self, p: &Plan) -> usize {
        p.hello.len()
            + if self.pings() { p.pong.len() } else { 0 }
            + if self.op.queries() { p.pk1.len() * self.pieces() } else { 0 }
            + if self.op == Op::Insert { p.pk2.len() * self.pieces() } else { 0 }
    }
}
/// What the server does on one connection.
#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub hello: Vec<u8>,
    pub pong: Vec<u8>,
    pub pk1: Vec<u8>,
    pub pk2: Vec<u8>,
    /// after pk1, insert data is read and answered with pk2
    pub insert: bool,
    /// statements answered with these packets before
    pub first: (usize, Vec<u8>, Vec<u8>),
    pub cut: Option<(usize, bool)>,
    /// close the connection after the answer to the query (or after the hello/pong when there is none)
    pub close: Option<Op>,
    /// reset it instead
    pub reset: bool,
    /// a breach of the protocol by the client on this connection counts
    pub clean: bool,
    /// read sizes at the server
    pub slow: Option<usize>,
    pub chunk: usize,
}
pub type Got2 = Rc<RefCell<Vec<InsertSeen>>>;

/// connection k follows plan k (the last one for the rest); `SELECT 2` is always answered with `extra`
pub async fn plan_server(hello: HelloCfg, frag: Frag, plans: Vec<Plan>, extra: Vec<u8>, seen: Got2) -> Srv {
    let plans = Rc::new(plans);
    let extra = Rc::new(extra);
    Srv::start(hello, frag, move |mut c| {
        let plans = plans.clone();
        let extra = extra.clone();
        let seen = seen.clone();
        async move {
            let p = plans[c.index.min(plans.len() - 1)].clone();
            let r = follow(&mut c, &p, &extra, &seen).await;
            if p.reset {
                c.kill(true).await;
            }
            if p.clean {
                r
            } else {
                Ok(())
            }
        }
    })
    .await
}
async fn follow(c: &mut Conn, p: &Plan, extra: &[u8], seen: &Got2) -> Result<(), RecvErr> {
    c.cut = p.cut;
    c.slow_read = p.slow;
    if p.chunk > 0 {
        c.chunk = p.chunk;
    }
    if let Some((0, rst)) = p.cut {
        c.kill(rst).await;
        return Ok(());
    }
    let mut first = p.first.0;
    loop {
        match c.recv().await? {
            CPkt::Hello(_) => {
                if !c.send(&p.hello).await {
                    return Ok(());
                }
                if p.close == Some(Op::Connect) {
                    return Ok(());
                }
            }
            CPkt::Ping => {
                if !c.send(&p.pong).await {
                    return Ok(());
                }
                if p.close == Some(Op::Ping) {
                    return Ok(());
                }
            }
            CPkt::Cancel => {}
            CPkt::Data(..) => return Err(RecvErr::Bad("data outside of an insert".into())),
            CPkt::Query(q) => {
                c.expect_end().await?;
                if q.sql == "SELECT 2" {
                    if !c.send(extra).await {
                        return Ok(());
                    }
                    continue;
                }
                if first > 0 {
                    first -= 1;
                    if !c.send(&p.first.1).await {
                        return Ok(());
                    }
                    let blocks = c.read_insert().await?;
                    seen.borrow_mut().push(InsertSeen::new(*q, blocks));
                    if !c.send(&p.first.2).await {
                        return Ok(());
                    }
                    continue;
                }
                if !c.send(&p.pk1).await {
                    return Ok(());
                }
                if p.insert {
                    let blocks = c.read_insert().await?;
                    seen.borrow_mut().push(InsertSeen::new(*q, blocks));
                    if !c.send(&p.pk2).await {
                        return Ok(());
                    }
                }
                if p.close.is_some() {
                    return Ok(());
                }
            }
        }
    }
}

/// result of an operation as the user sees it
#[derive(Debug, Default)]
pub struct Out {
    pub rows: Vec<Vec<Got>>,
    pub names: Vec<String>,
    pub err: Option<Error>,
}
fn take_block<K: clickhouse_rs::types::ColumnType>(o: &mut Out, b: &Block<K>) -> Res {
    o.names = b.columns().iter().map(|c| c.name().to_string()).collect();
    for i in 0..b.row_count() {
        let mut row = vec![];
        for j in 0..b.column_count() {
            let a: Any = b.get(i, j).map_err(|e| format!("get({i},{j}) of a returned block: {e}"))?;
            row.push(a.0);
        }
        o.rows.push(row);
    }
    Ok(())
}
/// run the operation on a handle
pub async fn perform(s: &Scn, c: &mut ClientHandle) -> Result<Out, String> {
    let mut o = Out::default();
    match s.op {
        Op::Connect => {}
        Op::Ping => o.err = c.ping().await.err(),
        Op::Execute => o.err = c.execute("CREATE TABLE t").await.err(),
        Op::Insert => {
            let _l = hook::Limit::set(s.chunk);
            o.err = c.insert("t", &s.block).await.err()
        }
        Op::Fetch => match c.query("SELECT 1").fetch_all().await {
            Ok(b) => take_block(&mut o, &b)?,
            Err(e) => o.err = Some(e),
        },
        Op::Blocks => {
            let mut st = c.query("SELECT 1").stream_blocks();
            while let Some(r) = st.next().await {
                match r {
                    Ok(b) => take_block(&mut o, &b)?,
                    Err(e) => {
                        o.err = Some(e);
                        break;
                    }
                }
            }
        }
        Op::Rows => {
            let mut st = c.query("SELECT 1").stream();
            while let Some(r) = st.next().await {
                match r {
                    Ok(row) => {
                        let mut v = vec![];
                        for j in 0..row.len() {
                            let a: Any = row.get(j).map_err(|e| format!("row.get({j}): {e}"))?;
                            v.push(a.0);
                        }
                        o.rows.push(v);
                    }
                    Err(e) => {
                        o.err = Some(e);
                        break;
                    }
                }
            }
        }
    }
    Ok(o)
}
/// connect and perform
pub async fn whole(s: &Scn, pool: &Pool) -> Result<(Out, Option<ClientHandle>), String> {
    match pool.get_handle().await {
        Err(e) => Ok((
            Out {
                err: Some(e),
                ..Out::default()
            },
            None,
        )),
        Ok(mut c) => {
            let o = perform(s, &mut c).await?;
            Ok((o, Some(c)))
        }
    }
}
/// the first `n` rows of the model
fn want_rows(s: &Scn, n: usize) -> Vec<Vec<Got>> {
    (0..n)
        .map(|i| s.blk.cols.iter().map(|c| expect(&c.ty, &c.vals[i], &s.z)).collect())
        .collect()
}
/// the operation reports success with exactly its own data
pub fn check_success(s: &Scn, o: &Out, seen: &Got2) -> Res {
    if let Some(e) = &o.err {
        return err(format!("{} failed: {e}", s.op.label()));
    }
    if s.op.reads() {
        let w = want_rows(s, s.blk.rows());
        if o.rows != w {
            return err(format!(
                "{} returned {} rows different from the {} rows sent",
                s.op.label(),
                o.rows.len(),
                w.len()
            ));
        }
        if s.op == Op::Fetch {
            let n: Vec<String> = s.blk.cols.iter().map(|c| c.name.clone()).collect();
            if o.names != n {
                return err(format!("columns {:?} instead of {n:?}", o.names));
            }
        }
    }
    if s.op == Op::Insert {
        let s2 = seen.borrow();
        check_pieces(&s2, s.blk.rows(), if s.chunk > 0 { s.chunk } else { usize::MAX })?;
        check_insert(&s2, "t", &s.blk, &s.z)?;
    }
    Ok(())
}
/// a failed operation: at most `rows` rows were shown, and they are right
fn check_failure(s: &Scn, o: &Out, rows: usize) -> Res {
    if o.err.is_none() {
        return err(format!("{} reported success", s.op.label()));
    }
    let w = want_rows(s, if s.op.reads() { s.blk.rows() } else { 0 });
    if s.op == Op::Fetch && !o.rows.is_empty() {
        return err("fetch_all returned rows and an error");
    }
    if o.rows.len() > rows || o.rows[..] != w[..o.rows.len()] {
        return err(format!(
            "{}: {} rows shown before the error, {rows} had arrived, or they differ",
            s.op.label(),
            o.rows.len()
        ));
    }
    Ok(())
}
/// a small fixed result for follow-up queries
pub fn extra_blk() -> Blk {
    Blk {
        cols: vec![
            Col {
                name: "x".into(),
                ty: Ty::U(32),
                vals: vec![Val::U(77), Val::U(78)],
            },
            Col {
                name: "y".into(),
                ty: Ty::Str,
                vals: vec![Val::Str(b"after".to_vec()), Val::Str(vec![])],
            },
        ],
    }
}
pub fn extra_reply(lz4: bool) -> Vec<u8> {
    let b = extra_blk();
    let mut r = data_packet(&b.header().encode(&EncOpts::default()), lz4, None);
    r.extend(data_packet(&b.encode(&EncOpts::default()), lz4, None));
    r.extend(eos());
    r
}
/// a later query on a handle returns its own rows
pub async fn follow_up(c: &mut ClientHandle, z: &str) -> Res {
    let r = c.query("SELECT 2").fetch_all().await.map_err(|e| format!("the next query failed: {e}"))?;
    check_block(&r, &extra_blk(), z, false).map(|_| ()).map_err(|e| format!("the next query: {e}"))
}

fn no_errors(srv: &Srv) -> Res {
    let e = srv.errors();
    if e.is_empty() {
        Ok(())
    } else {
        err(format!("the server could not read what the client sent: {}", e.join("; ")))
    }
}

// ------------------------------------------------------------------ C07
fn gen_exc_scn(g: &mut Src, s: &Scn) -> (Plan, Option<Exc>) {
    let mut p = s.good();
    if g.chance(1, 4) && s.op != Op::Connect {
        let e = Exc::gen(g);
        let b = e.encode();
        match s.op {
            Op::Ping => p.pong = b,
            Op::Insert => {
                p.first = (g.usize(0, s.pieces() - 1), p.pk1.clone(), p.pk2.clone());
                if g.bool() {
                    p.pk2 = [s.notes.clone(), b].concat();
                } else {
                    p.pk1 = b;
                    p.insert = false;
                }
            }
            _ => {
                let k = g.usize(0, s.pk1.len() - 1);
                p.pk1 = s.pk1[..k].concat();
                p.pk1.extend(b);
            }
        }
        p.clean = false;
        (p, Some(e))
    } else {
        (p, None)
    }
}
pub fn c07_split(g: &mut Src) -> Res {
    let s = gen_scn(g, OPS, 20);
    let (mut p, exc) = gen_exc_scn(g, &s);
    let total = s.total(&p);
    let frag = Frag::gen(g, total);
    let slow = if g.bool() { Some(g.usize(1, 40)) } else { None };
    let times = g.usize(1, 2);
    g.say(format!("{} segments {:?} slow_read={slow:?} exception={}", s.text(), frag.sizes, exc.is_some()));
    s.labels(g);
    g.label(if frag.sizes.is_empty() { "one segment" } else { "split" });
    if exc.is_some() {
        g.label("exception");
    }
    g.nontrivial = !frag.sizes.is_empty() || slow.is_some();
    let lz4 = s.lz4;
    p.slow = slow;
    block_on(60, async move {
        let seen: Got2 = Default::default();
        let srv = plan_server(s.hello.clone(), frag, vec![p, s.good()], extra_reply(lz4), seen.clone()).await;
        let pool = Pool::new(s.url(&srv));
        let mut h = None;
        for _ in 0..times {
            seen.borrow_mut().clear();
            let (o, c) = match h.take() {
                None => whole(&s, &pool).await?,
                Some(mut c) => (perform(&s, &mut c).await?, Some(c)),
            };
            if let Some(e) = &exc {
                return same_exc(&s, &o, e);
            }
            check_success(&s, &o, &seen)?;
            h = c;
        }
        if let Some(mut c) = h {
            follow_up(&mut c, &s.z).await?;
        }
        no_errors(&srv)
    })
}
/// every place for one cut of the server's bytes, for one operation
fn c07_every(g: &mut Src) -> Res {
    let s = gen_scn(g, OPS, 4);
    let (p, exc) = gen_exc_scn(g, &s);
    let total = s.total(&p);
    g.say(format!("{} every cut of {total} bytes exception={}", s.text(), exc.is_some()));
    s.labels(g);
    g.nontrivial = true;
    if total > 1500 {
        g.label("too long, every 7th cut");
    }
    let step = if total > 1500 { 7 } else { 1 };
    let lz4 = s.lz4;
    block_on(120, async move {
        for cut in (1..total).step_by(step) {
            let seen: Got2 = Default::default();
            let frag = Frag {
                sizes: vec![cut, usize::MAX >> 1],
                idx: 0,
                yields: 2,
            };
            // the sizes count over the whole connection: a stage shorter than the first size uses it up
            let frag = at_offset(&s, &p, cut, frag);
            let srv = plan_server(s.hello.clone(), frag, vec![p.clone(), s.good()], extra_reply(lz4), seen.clone()).await;
            let pool = Pool::new(s.url(&srv));
            let (o, _c) = whole(&s, &pool).await?;
            match &exc {
                Some(e) => same_exc(&s, &o, e),
                None => check_success(&s, &o, &seen),
            }
            .map_err(|e| format!("cut after byte {cut} of {total}: {e}"))?;
            no_errors(&srv)?;
        }
        Ok(())
    })
}
/// segment sizes that cut the connection's byte stream at one absolute offset
fn at_offset(s: &Scn, p: &Plan, cut: usize, mut f: Frag) -> Frag {
    let mut stages = vec![p.hello.len()];
    if s.pings() {
        stages.push(p.pong.len());
    }
    for _ in 0..p.first.0 {
        stages.push(p.first.1.len());
        stages.push(p.first.2.len());
    }
    for _ in p.first.0..s.pieces() {
        if s.op.queries() {
            stages.push(p.pk1.len());
        }
        if p.insert {
            stages.push(p.pk2.len());
        }
    }
    let mut sizes = vec![];
    let mut at = 0;
    for n in stages {
        if cut > at && cut < at + n {
            sizes.push(cut - at);
            sizes.push(n - (cut - at));
        } else {
            sizes.push(n.max(1));
        }
        at += n;
    }
    sizes.push(usize::MAX >> 1);
    f.sizes = sizes;
    f
}
/// results of many hundred kilobytes per packet, cut anywhere, often just before the end of a packet
pub fn c07_large(g: &mut Src) -> Res {
    let op = *g.pick(&[Op::Fetch, Op::Fetch, Op::Blocks, Op::Rows]);
    let lz4 = g.bool();
    let ping = g.bool();
    let blocks = g.usize(1, 3);
    let mut rng = crate::gen::Rng::new(g.raw());
    let mut cols = vec![
        Col {
            name: "s".into(),
            ty: Ty::Str,
            vals: vec![],
        },
        Col {
            name: "n".into(),
            ty: Ty::U(64),
            vals: vec![],
        },
    ];
    let mut pk1 = vec![];
    let mut rows_after = vec![0];
    let mut rows = 0;
    for i in 0..blocks {
        // few long strings, so that the comparison stays cheap
        let n = g.usize(1, 60);
        let size = match g.below(3) {
            0 => g.usize(1_000, 100_000),
            1 => g.usize(100_000, 800_000),
            _ => g.usize(800_000, 3_000_000),
        };
        let mut part = Blk { cols: vec![] };
        for c in &cols {
            part.cols.push(Col {
                name: c.name.clone(),
                ty: c.ty.clone(),
                vals: vec![],
            });
        }
        for _ in 0..n {
            let mut b = Vec::with_capacity(size / n + 8);
            while b.len() < size / n {
                b.extend_from_slice(&rng.next().to_le_bytes());
            }
            b.truncate(size / n);
            part.cols[0].vals.push(Val::Str(b));
            part.cols[1].vals.push(Val::U(rng.next() as u128));
        }
        rows += n;
        if i == 0 {
            pk1.push(data_packet(&part.header().encode(&EncOpts::default()), lz4, None));
        }
        pk1.push(data_packet(&part.encode(&EncOpts::default()), lz4, None));
        rows_after.push(rows);
        for (c, p) in cols.iter_mut().zip(part.cols) {
            c.vals.extend(p.vals);
        }
    }
    pk1.push(eos());
    rows_after.push(rows);
    let ends: Vec<usize> = pk1
        .iter()
        .scan(0, |at, p| {
            *at += p.len();
            Some(*at)
        })
        .collect();
    let total = *ends.last().unwrap();
    let mut cuts: Vec<usize> = (0..g.usize(1, 6))
        .map(|_| {
            let c = match g.below(3) {
                0 => g.usize(1, total - 1),
                1 => g.pick(&ends).saturating_sub(g.usize(0, 20)),
                _ => g.pick(&ends).saturating_sub(g.usize(0, 70_000)),
            };
            c.clamp(1, total - 1)
        })
        .collect();
    cuts.sort_unstable();
    cuts.dedup();
    let yields = *g.pick(&[1, 20, 200, 400]);
    let times = g.usize(1, 2);
    g.say(format!("{} of {rows} rows in {blocks} blocks, {total} bytes cut at {cuts:?}, {yields} turns between, lz4={lz4} ping={ping}", op.label()));
    g.label(if lz4 { "compressed" } else { "plain" });
    if ends.windows(2).any(|w| w[1] - w[0] > 1 << 19) {
        g.label("packet over 512 KiB");
    }
    g.nontrivial = true;
    let n = pk1.len();
    block_on(60, async move {
        let seen: Got2 = Default::default();
        let s = Scn {
            op,
            z: "UTC".into(),
            lz4,
            ping,
            hello: HelloCfg::default(),
            chunk: 0,
            pk1,
            rows_after,
            frame_at: vec![None; n],
            notes: vec![],
            blk: Blk { cols },
            block: Block::new(),
        };
        let p = s.good();
        let mut sizes = vec![p.hello.len()];
        let mut segs = vec![];
        let mut at = 0;
        for c in cuts.into_iter().chain([total]) {
            segs.push(c - at);
            at = c;
        }
        for _ in 0..times {
            if s.pings() {
                sizes.push(p.pong.len());
            }
            sizes.extend(&segs);
        }
        sizes.push(usize::MAX >> 1);
        let frag = Frag { sizes, idx: 0, yields };
        let srv = plan_server(s.hello.clone(), frag, vec![p], s.good().pk1, seen.clone()).await;
        let pool = Pool::new(s.url(&srv));
        let (o, c) = whole(&s, &pool).await?;
        no_errors(&srv)?;
        check_success(&s, &o, &seen)?;
        if times == 2 {
            let o = perform(&s, &mut c.unwrap()).await?;
            no_errors(&srv)?;
            check_success(&s, &o, &seen)?;
        }
        Ok(())
    })
}
/// more data than the socket buffers hold, drained slowly
pub fn c07_backpressure(g: &mut Src) -> Res {
    let rows = g.usize(20_000, 60_000);
    let step = g.usize(1 << 10, 1 << 18);
    let lz4 = g.bool();
    let width = g.usize(100, 250);
    let seed = g.raw();
    let mut rng = crate::gen::Rng::new(seed);
    let mut vals = Vec::with_capacity(rows);
    let mut nums = Vec::with_capacity(rows);
    for _ in 0..rows {
        let n = (rng.next() as usize) % (2 * width);
        let mut b = Vec::with_capacity(n + 8);
        while b.len() < n {
            b.extend_from_slice(&rng.next().to_le_bytes());
        }
        b.truncate(n);
        vals.push(Val::Str(b));
        nums.push(Val::U(rng.next() as u128));
    }
    let b = Blk {
        cols: vec![
            Col {
                name: "s".into(),
                ty: Ty::Str,
                vals,
            },
            Col {
                name: "n".into(),
                ty: Ty::U(64),
                vals: nums,
            },
        ],
    };
    g.say(format!("{rows} rows of about {width} bytes, drained {step} bytes at a time, lz4={lz4}"));
    g.label(if lz4 { "compressed" } else { "plain" });
    g.nontrivial = true;
    let block = Block::new()
        .column("s", b.cols[0].vals.iter().map(|v| if let Val::Str(b) = v { b.clone() } else { vec![] }).collect::<Vec<_>>())
        .column("n", b.cols[1].vals.iter().map(|v| if let Val::U(x) = v { *x as u64 } else { 0 }).collect::<Vec<_>>());
    let header = b.header();
    block_on(120, async move {
        let seen: Got2 = Default::default();
        let s = Scn {
            op: Op::Insert,
            z: "UTC".into(),
            lz4,
            ping: true,
            hello: HelloCfg::default(),
            chunk: 0,
            pk1: vec![data_packet(&header.encode(&EncOpts::default()), lz4, None)],
            rows_after: vec![0],
            frame_at: vec![None],
            notes: vec![],
            blk: b,
            block,
        };
        let mut p = s.good();
        p.chunk = step;
        let srv = plan_server(s.hello.clone(), Frag::default(), vec![p], extra_reply(lz4), seen.clone()).await;
        let pool = Pool::new(s.url(&srv));
        let (o, c) = whole(&s, &pool).await?;
        no_errors(&srv)?;
        check_success(&s, &o, &seen)?;
        follow_up(&mut c.unwrap(), "UTC").await?;
        no_errors(&srv)
    })
}
fn same_exc(s: &Scn, o: &Out, e: &Exc) -> Res {
    match &o.err {
        None => err(format!("{} reported success although the server sent an exception", s.op.label())),
        Some(Error::Server(x)) => {
            if x.code == e.code && x.name == e.name && x.message == e.msg && x.stack_trace == e.stack {
                Ok(())
            } else {
                err(format!("{}: exception {e:?} was reported as {x:?} (trace {:?})", s.op.label(), x.stack_trace))
            }
        }
        Some(x) => err(format!("{}: exception {e:?} was reported as {x:?}", s.op.label())),
    }
}

pub static C07: Prop = Prop {
    id: "C07",
    rule: "the server's bytes arrive in more than one segment or the client's bytes are drained in small amounts; distinct by the choices that generated operation, data and segmentation",
    level: "exploration",
    assumptions: &["a scripted server on loopback; a segment boundary is a separate write followed by turns of the client"],
    checks: &[
        Check {
            name: "split",
            what: "every operation, random segment sizes for the server's bytes and random read sizes at the server; outcome compared with the model",
            quick: 40000,
            thorough: 800000,
            threads: 0,
            f: c07_split,
        },
        Check {
            name: "every_cut",
            what: "one operation run once for every single cut position of the server's byte stream",
            quick: 1500,
            thorough: 30000,
            threads: 0,
            f: c07_every,
        },
        Check {
            name: "large",
            what: "results with packets of up to 3 MB, cut at random places and just before the ends of packets, the client idle between the segments",
            quick: 150,
            thorough: 5000,
            threads: 0,
            f: c07_large,
        },
        Check {
            name: "backpressure",
            what: "inserts larger than the socket buffers, drained slowly, so that the client's writes are partial",
            quick: 24,
            thorough: 480,
            threads: 4,
            f: c07_backpressure,
        },
    ],
    findings: &[],
};

// ------------------------------------------------------------------ C08
/// a block whose encoding has about `n` bytes of the given texture
fn texture_blk(g: &mut Src, n: usize) -> Blk {
    let mut rng = crate::gen::Rng::new(g.raw());
    let kind = g.below(5);
    let mut vals = vec![];
    let mut left = n;
    while left > 0 {
        let k = match g.below(4) {
            0 => 1 + (rng.next() as usize) % 8,
            1 => 1 + (rng.next() as usize) % 300,
            _ => 1 + (rng.next() as usize) % 5000,
        }
        .min(left);
        let mut b = Vec::with_capacity(k);
        for i in 0..k {
            b.push(match kind {
                0 => 0,
                1 => rng.next() as u8,
                2 => (i % 7) as u8,
                3 => (rng.next() % 2) as u8,
                _ => {
                    if (i / 64) % 2 == 0 {
                        b'a' + (i % 3) as u8
                    } else {
                        rng.next() as u8
                    }
                }
            });
        }
        left -= k;
        vals.push(Val::Str(b));
        if vals.len() >= 400 {
            break;
        }
    }
    Blk {
        cols: vec![Col {
            name: "s".into(),
            ty: Ty::Str,
            vals,
        }],
    }
}
fn gen_len(g: &mut Src) -> usize {
    match g.below(6) {
        0 => g.usize(0, 40),
        1 => g.usize(0, 300),
        2 | 3 => g.usize(0, 5000),
        4 => g.usize(0, 70_000),
        _ => g.usize(0, 300_000),
    }
}
/// what the client sends: one conforming frame sequence per block
fn c08_sent(g: &mut Src) -> Res {
    let n = gen_len(g);
    let b = texture_blk(g, n);
    if b.rows() == 0 {
        return Ok(());
    }
    g.nontrivial = true;
    g.say(format!("insert of a {n} byte column in {} rows", b.rows()));
    g.label(size_label(n));
    let block = Block::new().column(
        "s",
        b.cols[0].vals.iter().map(|v| if let Val::Str(b) = v { b.clone() } else { vec![] }).collect::<Vec<_>>(),
    );
    let s = Scn {
        op: Op::Insert,
        chunk: 0,
        z: "UTC".into(),
        lz4: true,
        ping: false,
        hello: HelloCfg::default(),
        pk1: vec![data_packet(&b.header().encode(&EncOpts::default()), true, None)],
        rows_after: vec![0],
        frame_at: vec![None],
            notes: vec![],
        blk: b,
        block,
    };
    block_on(30, async move {
        let seen: Got2 = Default::default();
        let srv = plan_server(s.hello.clone(), Frag::default(), vec![s.good()], extra_reply(true), seen.clone()).await;
        let pool = Pool::new(s.url(&srv));
        let (o, _c) = whole(&s, &pool).await?;
        no_errors(&srv)?;
        check_success(&s, &o, &seen)
    })
}
fn size_label(n: usize) -> &'static str {
    match n {
        0..=64 => "up to 64 bytes",
        65..=1024 => "up to 1 KiB",
        1025..=65536 => "up to 64 KiB",
        _ => "above 64 KiB",
    }
}
/// what a server may send: any encoding, any number of frames
fn c08_received(g: &mut Src) -> Res {
    let mut s = gen_scn(g, &[Op::Fetch, Op::Rows, Op::Blocks], 12);
    s.lz4 = true;
    let n = gen_len(g);
    s.blk = texture_blk(g, n);
    let mut cuts = 0;
    let body = s.blk.encode(&EncOpts::default());
    let mut w = W::new();
    w.uv(1).str(b"");
    let mut p = 0;
    let each = if g.bool() { body.len() } else { g.usize(1, body.len()) };
    while p < body.len() {
        let left = body.len() - p;
        let k = if g.bool() { g.usize(1, each.min(left)) } else { each.min(left) };
        let k = if cuts > 60 { left } else { k };
        let raw = &body[p..p + k];
        let f = if g.chance(1, 4) { frame(raw, None) } else { frame(raw, Some(g)) };
        w.bytes(&f);
        p += k;
        cuts += 1;
    }
    s.pk1 = vec![data_packet(&s.blk.header().encode(&EncOpts::default()), true, Some(g)), w.0, eos()];
    g.say(format!("{} of {} bytes in {cuts} frames", s.op.label(), body.len()));
    g.label(size_label(body.len()));
    g.label(if cuts > 1 { "several frames" } else { "one frame" });
    g.nontrivial = s.blk.rows() > 0;
    let frag = Frag::gen(g, 400);
    let frag = if body.len() > 5000 { Frag::default() } else { frag };
    block_on(60, async move {
        let seen: Got2 = Default::default();
        let srv = plan_server(s.hello.clone(), frag, vec![s.good()], extra_reply(true), seen.clone()).await;
        let pool = Pool::new(s.url(&srv));
        let (o, c) = whole(&s, &pool).await?;
        check_success(&s, &o, &seen)?;
        follow_up(&mut c.unwrap(), &s.z).await
    })
}
/// frames of megabytes, in both directions
fn c08_large(g: &mut Src) -> Res {
    let n = g.usize(400_000, 6_000_000);
    let rows = g.usize(1, 3);
    let mut rng = crate::gen::Rng::new(g.raw());
    let kind = g.below(4);
    let vals: Vec<Val> = (0..rows)
        .map(|k| {
            let m = if k == 0 { n } else { (rng.next() % 100_000) as usize };
            let mut b = vec![0u8; m];
            match kind {
                0 => {}
                1 => b.chunks_mut(8).for_each(|c| c.copy_from_slice(&rng.next().to_le_bytes()[..c.len()])),
                2 => b.chunks_mut(3000).enumerate().for_each(|(i, c)| {
                    if i % 2 == 0 {
                        c.chunks_mut(8).for_each(|c| c.copy_from_slice(&rng.next().to_le_bytes()[..c.len()]))
                    }
                }),
                _ => b.iter_mut().enumerate().for_each(|(i, x)| *x = (i % 251) as u8),
            }
            Val::Str(b)
        })
        .collect();
    let blk = Blk { cols: vec![Col { name: "s".into(), ty: Ty::Str, vals }] };
    let send = g.bool();
    let texture = ["zeros", "random", "mixed", "periodic"][kind as usize];
    g.nontrivial = true;
    g.label(texture);
    g.label(if send { "sent" } else { "received" });
    let block = Block::new().column("s", blk.cols[0].vals.iter().map(|v| if let Val::Str(b) = v { b.clone() } else { vec![] }).collect::<Vec<_>>());
    let head = data_packet(&blk.header().encode(&EncOpts::default()), true, None);
    let op = if send { Op::Insert } else { *g.pick(&[Op::Fetch, Op::Rows, Op::Blocks]) };
    g.say(format!("{} of {n} {texture} bytes in one of {rows} rows", op.label()));
    let mut s = Scn {
        op,
        chunk: 0,
        z: "UTC".into(),
        lz4: true,
        ping: false,
        hello: HelloCfg::default(),
        pk1: vec![head.clone()],
        rows_after: vec![0],
        frame_at: vec![None],
        notes: vec![],
        blk: blk.clone(),
        block,
    };
    if !send {
        let body = blk.encode(&EncOpts::default());
        let mut w = W::new();
        w.uv(1).str(b"").bytes(&frame(&body, Some(g)));
        s.pk1 = vec![head, w.0, eos()];
    }
    block_on(120, async move {
        let seen: Got2 = Default::default();
        let srv = plan_server(s.hello.clone(), Frag::default(), vec![s.good()], extra_reply(true), seen.clone()).await;
        let pool = Pool::new(s.url(&srv));
        let (o, _c) = whole(&s, &pool).await?;
        no_errors(&srv)?;
        check_success(&s, &o, &seen)
    })
}
/// frames of a packet as (start, length)
fn frames_of(p: &[u8], at: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut i = at;
    while i + 25 <= p.len() {
        let n = u32::from_le_bytes([p[i + 17], p[i + 18], p[i + 19], p[i + 20]]) as usize;
        v.push((i, 16 + n));
        i += 16 + n;
    }
    v
}
fn gen_corrupt_scn(g: &mut Src) -> Option<(Scn, Vec<(usize, usize, usize)>)> {
    let mut s = gen_scn(g, &[Op::Fetch, Op::Rows, Op::Blocks, Op::Execute, Op::Insert], 8);
    if !s.lz4 {
        return None;
    }
    if s.op.reads() && g.chance(1, 3) {
        // larger payloads reach the other branches of the checksum
        let n = g.usize(0, 3000);
        s.blk = texture_blk(g, n);
        let r = s.blk.rows();
        let b1 = data_packet(&s.blk.header().encode(&EncOpts::default()), true, None);
        let b2 = data_packet(&s.blk.encode(&EncOpts::default()), true, Some(g));
        s.pk1 = vec![b1, b2, eos()];
        s.rows_after = vec![0, r, r];
        s.frame_at = vec![Some(2), Some(2), None];
    }
    let mut v = vec![];
    for (k, f) in s.frame_at.iter().enumerate() {
        if let Some(a) = f {
            for (x, n) in frames_of(&s.pk1[k], *a) {
                v.push((k, x, n));
            }
        }
    }
    if v.is_empty() {
        return None;
    }
    Some((s, v))
}
async fn corrupt_run(s: &Scn, pk1: Vec<Vec<u8>>, hit: usize) -> Res {
    let seen: Got2 = Default::default();
    let mut p = s.good();
    p.pk1 = pk1.concat();
    p.clean = false;
    p.insert = false;
    p.close = Some(s.op);
    let rows = if hit == 0 { 0 } else { s.rows_after[hit - 1] };
    let srv = plan_server(s.hello.clone(), Frag::default(), vec![p, s.good()], extra_reply(true), seen.clone()).await;
    let pool = Pool::new(s.url(&srv));
    let (o, c) = whole(s, &pool).await?;
    check_failure(s, &o, rows)?;
    if !seen.borrow().is_empty() {
        return err("insert data was sent although the table's header was corrupt");
    }
    drop(c);
    let mut c = pool.get_handle().await.map_err(|e| format!("connecting after a corrupt reply: {e}"))?;
    follow_up(&mut c, &s.z).await
}
/// damage to frames is always an error
fn c08_corrupt(g: &mut Src) -> Res {
    let (s, fr) = match gen_corrupt_scn(g) {
        Some(x) => x,
        None => return Ok(()),
    };
    let &(k, at, n) = g.pick(&fr);
    let mut pk = s.pk1.clone();
    let mut what = vec![];
    let hits = g.usize(1, 4);
    for _ in 0..hits {
        let i = match g.below(3) {
            0 => at + g.usize(0, 15.min(n - 1)),
            1 => at + g.usize(0, 24.min(n - 1)),
            _ => at + g.usize(0, n - 1),
        };
        let m = if g.bool() { 1 << g.below(8) } else { g.usize(1, 255) as u8 };
        pk[k][i] ^= m;
        what.push((i - at, m));
    }
    if pk == s.pk1 {
        return Ok(());
    }
    g.say(format!("{}; frame of {n} bytes in packet {k} damaged at {what:?}", s.text()));
    s.labels(g);
    for (i, _) in &what {
        g.label(match i {
            0..=15 => "checksum",
            16..=24 => "header",
            _ => "payload",
        });
    }
    g.nontrivial = true;
    block_on(30, async move { corrupt_run(&s, pk, k).await })
}
/// every byte of every frame of a small reply, one bit at a time
fn c08_every(g: &mut Src) -> Res {
    let (s, fr) = match gen_corrupt_scn(g) {
        Some(x) => x,
        None => return Ok(()),
    };
    let bit = g.below(8);
    let total: usize = fr.iter().map(|f| f.2).sum();
    let step = 1 + total / 400;
    let off = g.usize(0, step - 1);
    g.say(format!("{}; bit {bit} of every byte (step {step}) of {total} bytes of frames", s.text()));
    s.labels(g);
    g.nontrivial = true;
    block_on(120, async move {
        for (k, at, n) in fr {
            for i in (at + off..at + n).step_by(step) {
                let mut pk = s.pk1.clone();
                pk[k][i] ^= 1 << bit;
                corrupt_run(&s, pk, k)
                    .await
                    .map_err(|e| format!("byte {} of a frame of {n} bytes, bit {bit}: {e}", i - at))?;
            }
        }
        Ok(())
    })
}
/// frames with a right checksum over wrong contents
fn c08_invalid(g: &mut Src) -> Res {
    let mut s = gen_scn(g, &[Op::Fetch, Op::Rows, Op::Blocks], 8);
    s.lz4 = true;
    let body = s.blk.encode(&EncOpts::default());
    let comp = lz4_encode(&body, Some(g));
    let (f, what) = match g.below(5) {
        0 => {
            // the declared size is not the decoded one
            let n = body.len() as u32;
            let m = match g.below(3) {
                0 => n - 1,
                1 => n + 1,
                _ => n.wrapping_add(g.usize(2, 1000) as u32),
            };
            (frame_raw(&comp, m), "wrong size")
        }
        1 => {
            let mut c = comp.clone();
            let k = g.usize(1, c.len());
            c.truncate(c.len() - k);
            (frame_raw(&c, body.len() as u32), "truncated data")
        }
        2 => {
            let mut f = frame_raw(&comp, body.len() as u32);
            f[16] = *g.pick(&[0x02u8, 0x90, 0x91, 0x00, 0xff, 0x83]);
            let h = city128(&f[16..]);
            f[..8].copy_from_slice(&h.0.to_le_bytes());
            f[8..16].copy_from_slice(&h.1.to_le_bytes());
            (f, "unknown method")
        }
        3 => {
            // size field below the header's own size
            let mut f = frame_raw(&comp, body.len() as u32);
            f[17..21].copy_from_slice(&(g.usize(0, 8) as u32).to_le_bytes());
            let h = city128(&f[16..]);
            f[..8].copy_from_slice(&h.0.to_le_bytes());
            f[8..16].copy_from_slice(&h.1.to_le_bytes());
            (f, "impossible compressed size")
        }
        _ => {
            let mut f = frame_raw(&comp, body.len() as u32);
            f[17..21].copy_from_slice(&(0x4000_0001u32 + g.usize(0, 1000) as u32).to_le_bytes());
            (f, "huge compressed size")
        }
    };
    let mut w = W::new();
    w.uv(1).str(b"").bytes(&f);
    s.pk1 = vec![data_packet(&s.blk.header().encode(&EncOpts::default()), true, None), w.0, eos()];
    s.rows_after = vec![0, s.blk.rows(), s.blk.rows()];
    g.say(format!("{what}; {}", s.text()));
    g.label(what);
    g.nontrivial = true;
    let pk = s.pk1.clone();
    block_on(30, async move { corrupt_run(&s, pk, 1).await })
}
pub static C08: Prop = Prop {
    id: "C08",
    rule: "a frame was exchanged: data of at least one row sent or received, or a frame that really differs from the correct one; distinct by the choices that generated data, encoding and damage",
    level: "exploration",
    assumptions: &["checksum, LZ4 reader and LZ4 writer of the oracle are independent implementations", "a damage that keeps the 128-bit checksum right is not searched for"],
    checks: &[
        Check {
            name: "sent",
            what: "inserts of blocks from a few bytes to 300 KB in five textures; frames checked by an independent checksum and LZ4 decoder",
            quick: 12000,
            thorough: 240000,
            threads: 0,
            f: c08_sent,
        },
        Check {
            name: "received",
            what: "results in random LZ4 encodings, cut into random numbers of frames",
            quick: 9000,
            thorough: 180000,
            threads: 0,
            f: c08_received,
        },
        Check {
            name: "corrupt",
            what: "one to four damaged bytes in a frame of any operation's reply",
            quick: 150000,
            thorough: 3000000,
            threads: 0,
            f: c08_corrupt,
        },
        Check {
            name: "every_byte",
            what: "one bit of every byte of every frame of a reply, one at a time",
            quick: 500,
            thorough: 10000,
            threads: 0,
            f: c08_every,
        },
        Check {
            name: "invalid",
            what: "frames with a right checksum but a wrong size, method or LZ4 stream",
            quick: 12000,
            thorough: 240000,
            threads: 0,
            f: c08_invalid,
        },
        Check {
            name: "large",
            what: "a block of up to 6 MB in one frame, sent or received, in four textures",
            quick: 96,
            thorough: 2000,
            threads: 0,
            f: c08_large,
        },
    ],
    findings: &[],
};

// ------------------------------------------------------------------ C12
fn nested(g: &mut Src, e: &Exc) -> Vec<u8> {
    let mut b = e.encode();
    let mut k = 0;
    while k < 4 && g.chance(1, 4) {
        // a nested exception follows: same layout without the packet code
        *b.last_mut().unwrap() = 1;
        let x = Exc::gen(g).encode();
        b.extend_from_slice(&x[1..]);
        k += 1;
    }
    b
}
pub fn c12_exception(g: &mut Src) -> Res {
    let s = gen_scn(g, OPS, 12);
    let e = Exc::gen(g);
    let bytes = nested(g, &e);
    let mut p = s.good();
    p.clean = false;
    let mut rows = 0;
    let at;
    match s.op {
        Op::Connect => {
            p.hello = bytes;
            at = 0;
        }
        Op::Ping => {
            p.pong = bytes;
            at = 0;
        }
        Op::Insert => {
            // some pieces succeed
            p.first = (g.usize(0, s.pieces() - 1), p.pk1.clone(), p.pk2.clone());
            if p.first.0 > 0 {
                g.label("not the first piece of an insert");
            }
            at = g.usize(0, 2);
            match at {
                0 => {
                    p.pk1 = bytes;
                    p.insert = false;
                }
                1 => {
                    // right behind the header, before any data was read
                    p.pk1.extend(bytes);
                    p.pk2 = vec![];
                }
                _ => p.pk2 = bytes,
            }
        }
        _ => {
            at = g.usize(0, s.pk1.len() - 1);
            p.pk1 = s.pk1[..at].concat();
            p.pk1.extend(bytes);
            rows = if at == 0 { 0 } else { s.rows_after[at - 1] };
        }
    }
    if g.bool() {
        p.close = Some(s.op);
        p.reset = g.chance(1, 3);
        g.label(if p.reset { "server resets the connection afterwards" } else { "server closes afterwards" });
    }
    let same_handle = g.bool();
    let frag = Frag::gen(g, 300);
    g.say(format!("{}; after {at} packets {e:?}", s.text()));
    s.labels(g);
    g.label(if rows > 0 { "rows before it" } else { "nothing before it" });
    g.nontrivial = true;
    let lz4 = s.lz4;
    block_on(30, async move {
        let seen: Got2 = Default::default();
        let srv = plan_server(s.hello.clone(), frag, vec![p, s.good()], extra_reply(lz4), seen.clone()).await;
        let pool = Pool::new(s.url(&srv));
        let (o, c) = whole(&s, &pool).await?;
        same_exc(&s, &o, &e)?;
        check_failure(&s, &o, rows)?;
        let mut c = match c {
            Some(c) if same_handle && s.ping => c,
            c => {
                drop(c);
                pool.get_handle().await.map_err(|e| format!("connecting after the exception: {e}"))?
            }
        };
        follow_up(&mut c, &s.z).await?;
        seen.borrow_mut().clear();
        let o = perform(&s, &mut c).await?;
        check_success(&s, &o, &seen).map_err(|e| format!("the same operation again: {e}"))?;
        no_errors(&srv)
    })
}
pub static C12: Prop = Prop {
    id: "C12",
    rule: "every case delivers one exception; distinct by the choices that generated operation, position and contents",
    level: "exploration",
    assumptions: &["a scripted server stands in for ClickHouse", "exception texts are valid UTF-8", "an exception in answer to the connection check's ping makes the client reconnect and is not reported"],
    checks: &[Check {
        name: "exception",
        what: "every operation, an exception with random contents (possibly nested) after any number of packets of its answer; reported error compared field by field, then the pool is used again",
        quick: 60000,
        thorough: 1200000,
        threads: 0,
        f: c12_exception,
    }],
    findings: &[],
};

// ------------------------------------------------------------------ C13
/// rows completely received within the first `n` bytes of the connection
fn rows_within(s: &Scn, p: &Plan, n: usize) -> usize {
    let mut at = p.hello.len() + if s.pings() { p.pong.len() } else { 0 };
    let mut rows = 0;
    for (k, x) in s.pk1.iter().enumerate() {
        at += x.len();
        if at <= n {
            rows = s.rows_after[k];
        }
    }
    rows
}
async fn cut_run(s: &Scn, cut: usize, rst: bool, total: usize, same: bool) -> Res {
    let seen: Got2 = Default::default();
    let mut p = s.good();
    p.clean = false;
    p.cut = Some((cut, rst));
    let rows = rows_within(s, &p, cut);
    let srv = plan_server(s.hello.clone(), Frag::default(), vec![p.clone(), s.good()], extra_reply(s.lz4), seen.clone()).await;
    let pool = Pool::new(s.url(&srv));
    let (o, c) = whole(s, &pool).await?;
    let hello = p.hello.len();
    // the connection check notices the loss and reconnects
    let retried = s.ping && s.op.queries() && cut >= hello && cut <= hello + p.pong.len();
    if cut >= total {
        check_success(s, &o, &seen)?;
    } else if retried && !(cut == hello + p.pong.len() && o.err.is_some()) {
        check_success(s, &o, &seen).map_err(|e| format!("connection lost before the connection check was answered: {e}"))?;
    } else {
        check_failure(s, &o, rows)?;
    }
    let mut c = match c {
        Some(c) if same && s.ping => c,
        c => {
            drop(c);
            // a connection that is lost after its operation may still look idle
            let mut h = pool.get_handle().await.map_err(|e| format!("connecting again: {e}"))?;
            if !s.ping && srv.stat.borrow().accepted == 1 {
                let _ = h.ping().await;
                drop(h);
                h = pool.get_handle().await.map_err(|e| format!("connecting again: {e}"))?;
            }
            h
        }
    };
    follow_up(&mut c, &s.z).await?;
    seen.borrow_mut().clear();
    let o = perform(s, &mut c).await?;
    check_success(s, &o, &seen).map_err(|e| format!("the same operation on a live connection: {e}"))?;
    no_errors(&srv)
}
pub fn c13_cut(g: &mut Src) -> Res {
    let s = gen_scn(g, OPS, 20);
    let total = s.total(&s.good());
    let cut = match g.below(4) {
        0 => g.usize(0, total),
        1 => total - g.usize(0, 3.min(total)),
        _ => {
            // near a packet boundary
            let mut at = s.hello.encode().len() + if s.pings() { 1 } else { 0 };
            let mut v = vec![s.hello.encode().len(), at];
            for _ in 0..s.pieces() {
                for x in &s.pk1 {
                    at += x.len();
                    v.push(at);
                }
                if s.op == Op::Insert {
                    at += s.good().pk2.len();
                    v.push(at);
                }
            }
            let b = *g.pick(&v);
            (b + g.usize(0, 2)).saturating_sub(1).min(total)
        }
    };
    let rst = g.chance(1, 3) && cut < total;
    let same = g.bool();
    g.say(format!("{}; connection {} after byte {cut} of {total}", s.text(), if rst { "reset" } else { "closed" }));
    s.labels(g);
    g.label(if rst { "reset" } else { "closed" });
    g.label(stage(&s, cut, total));
    g.nontrivial = cut < total;
    block_on(30, async move { cut_run(&s, cut, rst, total, same).await })
}
fn stage(s: &Scn, cut: usize, total: usize) -> &'static str {
    let h = s.hello.encode().len();
    match cut {
        0 => "before the greeting",
        x if x < h => "inside the greeting",
        x if x == h => "after the greeting",
        x if x >= total => "after the answer",
        _ => "inside the answer",
    }
}
fn c13_every(g: &mut Src) -> Res {
    let s = gen_scn(g, OPS, 3);
    let total = s.total(&s.good());
    let rst = g.chance(1, 3);
    let same = g.bool();
    let step = 1 + total / 600;
    g.say(format!("{}; {} after every byte of {total} (step {step})", s.text(), if rst { "reset" } else { "closed" }));
    s.labels(g);
    g.nontrivial = true;
    block_on(120, async move {
        for cut in (0..total).step_by(step) {
            cut_run(&s, cut, rst, total, same)
                .await
                .map_err(|e| format!("cut after byte {cut} of {total}: {e}"))?;
        }
        Ok(())
    })
}
pub static C13: Prop = Prop {
    id: "C13",
    rule: "the connection is lost before the answer is complete; distinct by the choices that generated operation, data and cut position",
    level: "fault_enumeration",
    assumptions: &["connections are cut by the scripted server closing or resetting them"],
    checks: &[
        Check {
            name: "cut",
            what: "every operation, the connection closed or reset at a random byte or around packet boundaries of the server's stream; outcome, rows shown and later use of the pool compared with the model",
            quick: 120000,
            thorough: 2400000,
            threads: 0,
            f: c13_cut,
        },
        Check {
            name: "every_byte",
            what: "one small operation with the connection cut after every byte of the answer in turn",
            quick: 500,
            thorough: 10000,
            threads: 0,
            f: c13_every,
        },
    ],
    findings: &[],
};

// ------------------------------------------------------------------ C14
fn mutate(g: &mut Src, b: &mut Vec<u8>) -> String {
    const NUMS: &[u64] = &[
        0, 1, 2, 9, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0xffff, 0x10000, 0xffffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x1_0000_0000, 1 << 40,
        1 << 56, i64::MAX as u64, 1 << 63, u64::MAX, u64::MAX - 1, u64::MAX / 2 + 8,
    ];
    let mut log = vec![];
    for _ in 0..g.usize(1, 4) {
        let n = b.len();
        if n == 0 {
            b.push(g.below(256) as u8);
            continue;
        }
        // the start of the data holds most of the structure
        let i = if g.bool() { g.usize(0, n - 1) } else { g.usize(0, (n - 1).min(60)) };
        match g.below(10) {
            0 => {
                b[i] ^= 1 << g.below(8);
                log.push(format!("flip@{i}"));
            }
            1 => {
                b[i] = *g.pick(&[0u8, 1, 2, 3, 0x7f, 0x80, 0xfe, 0xff]);
                log.push(format!("set@{i}"));
            }
            2 => {
                b[i] = b[i].wrapping_add(if g.bool() { 1 } else { 255 });
                log.push(format!("inc@{i}"));
            }
            3 => {
                let v = *g.pick(NUMS);
                let w = *g.pick(&[1usize, 2, 4, 8, 8, 8]);
                for (k, x) in v.to_le_bytes()[..w].iter().enumerate() {
                    if i + k < n {
                        b[i + k] = *x;
                    }
                }
                log.push(format!("u{}@{i}={v}", w * 8));
            }
            4 => {
                let v = *g.pick(NUMS);
                let mut w = W::new();
                w.uv(v);
                b.splice(i..i + 1, w.0);
                log.push(format!("varint@{i}={v}"));
            }
            5 => {
                let k = g.usize(1, 12.min(n - i));
                b.drain(i..i + k);
                log.push(format!("del@{i}+{k}"));
            }
            6 => {
                let k = g.usize(1, 12);
                let x = g.bytes(k);
                b.splice(i..i, x);
                log.push(format!("ins@{i}+{k}"));
            }
            7 => {
                let k = g.usize(1, 30.min(n - i));
                let x = b[i..i + k].to_vec();
                let j = g.usize(0, n);
                b.splice(j..j, x);
                log.push(format!("dup@{i}+{k}->{j}"));
            }
            8 => {
                b.truncate(i);
                log.push(format!("cut@{i}"));
            }
            _ => {
                let k = g.usize(1, 20.min(n - i));
                let x = g.bytes(k);
                b[i..i + k].copy_from_slice(&x);
                log.push(format!("junk@{i}+{k}"));
            }
        }
    }
    log.join(" ")
}
/// answers of a server as files, for the coverage-guided search (../fuzz)
pub fn corpus(dir: &str, n: u64, seed: u64) {
    let _ = std::fs::create_dir_all(dir);
    for i in 0..n {
        let mut g = Src::random(seed.wrapping_mul(1_000_003).wrapping_add(i));
        let s = gen_scn(&mut g, &[Op::Fetch, Op::Rows, Op::Blocks, Op::Insert, Op::Execute], 4);
        let mut b = vec![if s.lz4 { 0x80 } else { 0 }];
        match i % 5 {
            0 => b.extend(Exc::gen(&mut g).encode()),
            1 => b.extend(s.hello.encode()),
            _ => b.extend(s.pk1.concat()),
        }
        if b.len() < 6000 {
            let _ = std::fs::write(format!("{dir}/s{i}"), &b);
        }
    }
}
/// a type name that is nearly right
fn bad_name(g: &mut Src, t: &Ty) -> Vec<u8> {
    let s = if g.bool() { t.name() } else { alias_name(g, t) };
    match g.below(8) {
        0 => s.into_bytes(),
        1 => {
            // replace a number
            let mut o = String::new();
            let mut inn = false;
            let v = *g.pick(&["0", "1", "256", "65536", "4294967296", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "-1", "-128", "-129", "19", "77", "9", "10", "1000000000"]);
            let k = g.below(3);
            let mut seen = 0;
            for c in s.chars() {
                if c.is_ascii_digit() {
                    if !inn {
                        if seen == k {
                            o.push_str(v);
                        }
                        inn = true;
                        seen += 1;
                    }
                    if seen - 1 != k {
                        o.push(c);
                    }
                } else {
                    inn = false;
                    o.push(c);
                }
            }
            o.into_bytes()
        }
        2 => {
            let d = match g.below(3) {
                0 => g.usize(1, 60),
                1 => g.usize(60, 3000),
                _ => g.usize(3000, 60000),
            };
            let w = *g.pick(&["Array(", "Nullable(", "LowCardinality(", "Map(String, ", "SimpleAggregateFunction(any, "]);
            let mut o = w.repeat(d);
            o.push_str(&s);
            if !g.chance(1, 4) {
                o.push_str(&")".repeat(d));
            }
            o.into_bytes()
        }
        3 => {
            let mut b = s.into_bytes();
            mutate(g, &mut b);
            b
        }
        4 => {
            let mut b = s.into_bytes();
            let i = g.usize(0, b.len());
            let n = g.usize(1, 6);
            let toks: &[&str] = &["(", ")", ",", "'", "\\", "=", " ", "Nullable(", "Array(", "Map(", "0", "-", "'UTC'", "\u{e9}", "\u{1F600}", "DateTime64(", "Enum8(", "Decimal("];
            for _ in 0..n {
                let x = g.pick(toks).as_bytes().to_vec();
                b.splice(i..i, x);
            }
            b
        }
        5 => {
            // cut anywhere
            let mut b = s.into_bytes();
            let i = g.usize(0, b.len());
            b.truncate(i);
            b
        }
        6 => {
            let n = g.usize(0, 30);
            g.bytes(n)
        }
        _ => {
            let a = gen_ty(g, &TyCfg::server(), 2).name();
            format!("{s}{a}").into_bytes()
        }
    }
}
fn read_everything(b: &Block<Complex>, s: &Scn) -> Res {
    let mut st = crate::p_read::Stat { yes: 0, no: 0 };
    for i in 0..b.row_count() {
        for j in 0..b.column_count() {
            let _: Result<Any, _> = b.get(i, j);
            let t: Result<Text, _> = b.get(i, j);
            if let Ok(t) = t {
                std::hint::black_box(t.0.len() + t.1.len());
            }
        }
    }
    for row in b.rows() {
        for j in 0..row.len() {
            let a: Result<Any, _> = row.get(j);
            std::hint::black_box(format!("{:?}", a.map(|a| a.0)).len());
        }
    }
    for c in b.columns() {
        if let Ok(ty) = lib_ty(&c.sql_type()) {
            let m = Col {
                name: c.name().into(),
                ty,
                vals: vec![],
            };
            crate::p_read::iterate_complex(c, &m, &s.z, DRAIN, &mut st, true, false)?;
        }
    }
    let k = b.clone();
    std::hint::black_box(k == *b);
    std::hint::black_box(format!("{b:?}").len());
    Ok(())
}
fn read_everything_simple(b: &Block, s: &Scn) -> Res {
    let mut st = crate::p_read::Stat { yes: 0, no: 0 };
    for i in 0..b.row_count() {
        for j in 0..b.column_count() {
            let a: Result<Any, _> = b.get(i, j);
            std::hint::black_box(format!("{:?}", a.map(|a| a.0)).len());
        }
    }
    for c in b.columns() {
        if let Ok(ty) = lib_ty(&c.sql_type()) {
            let m = Col {
                name: c.name().into(),
                ty,
                vals: vec![],
            };
            crate::p_read::iterate_simple(c, &m, &s.z, DRAIN, &mut st, true, false)?;
        }
    }
    std::hint::black_box(format!("{b:?}").len());
    Ok(())
}
/// run the operation, read whatever it returns; the outcome itself is free
async fn survive(s: &Scn, p: Plan) -> Result<&'static str, String> {
    let bytes = p.hello.len() + p.pong.len() + p.pk1.len() + p.pk2.len();
    let seen: Got2 = Default::default();
    let srv = plan_server(s.hello.clone(), Frag::default(), vec![p, s.good()], extra_reply(s.lz4), seen.clone()).await;
    let pool = Pool::new(s.url(&srv));
    reset_max_alloc();
    let mut out = "error";
    match pool.get_handle().await {
        Err(_) => {}
        Ok(mut c) => match s.op {
            Op::Connect => out = "result",
            Op::Ping => {
                if c.ping().await.is_ok() {
                    out = "result"
                }
            }
            Op::Execute => {
                if c.execute("CREATE TABLE t").await.is_ok() {
                    out = "result"
                }
            }
            Op::Insert => {
                if c.insert("t", &s.block).await.is_ok() {
                    out = "result"
                }
            }
            Op::Fetch => {
                if let Ok(b) = c.query("SELECT 1").fetch_all().await {
                    out = "result";
                    read_everything(&b, s)?
                }
            }
            Op::Blocks => {
                let mut st = c.query("SELECT 1").stream_blocks();
                while let Some(r) = st.next().await {
                    match r {
                        Ok(b) => {
                            out = "result";
                            read_everything_simple(&b, s)?
                        }
                        Err(_) => break,
                    }
                }
            }
            Op::Rows => {
                let mut st = c.query("SELECT 1").stream();
                while let Some(r) = st.next().await {
                    match r {
                        Ok(row) => {
                            out = "result";
                            for j in 0..row.len() {
                                let _ = row.name(j);
                                let _ = row.sql_type(j);
                                let a: Result<Any, _> = row.get(j);
                                std::hint::black_box(format!("{:?}", a.map(|a| a.0)).len());
                            }
                        }
                        Err(_) => break,
                    }
                }
            }
        },
    }
    let m = max_alloc();
    // the decompressed size is bounded by 255 times the received one; everything else is linear
    let limit = (64 << 20) + bytes * 4096;
    if m > limit {
        return err(format!("{bytes} bytes received led to an allocation of {m} bytes"));
    }
    Ok(out)
}
fn malformed(g: &mut Src, s: Scn, mut p: Plan, malformed_header: bool) -> Res {
    p.clean = false;
    // the connection is closed behind whatever is malformed: waiting for more would be right
    let good = s.good();
    p.close = Some(s.op);
    if p.hello != good.hello {
        p.close = Some(Op::Connect);
    }
    if p.pk1 != good.pk1 || malformed_header {
        p.insert = false;
    }
    let out = Rc::new(RefCell::new(""));
    let o2 = out.clone();
    block_on(60, async move {
        *o2.borrow_mut() = survive(&s, p).await?;
        Ok(())
    })?;
    let l = *out.borrow();
    g.label(if l == "result" { "accepted" } else { "rejected" });
    Ok(())
}
fn c14_stream(g: &mut Src) -> Res {
    let s = gen_scn(g, OPS, 8);
    let mut p = s.good();
    let mut parts: Vec<&mut Vec<u8>> = vec![&mut p.hello];
    if s.pings() && s.op == Op::Ping {
        parts.push(&mut p.pong);
    }
    if s.op.queries() {
        parts.push(&mut p.pk1);
        if s.op == Op::Insert {
            parts.push(&mut p.pk2);
        }
    }
    let k = if g.chance(1, 6) { 0 } else { parts.len() - 1 };
    let k = if s.op == Op::Insert && k == 2 { g.usize(1, 2) } else { k };
    let what = mutate(g, parts[k]);
    g.say(format!("{}; part {k}: {what}", s.text()));
    s.labels(g);
    g.nontrivial = true;
    malformed(g, s, p, false)
}
/// damage inside the block, re-framed so that it reaches the decoders
fn c14_block(g: &mut Src) -> Res {
    let mut s = gen_scn(g, &[Op::Fetch, Op::Blocks, Op::Rows, Op::Execute, Op::Insert], 8);
    let nc = g.usize(1, 3);
    let n = g.usize(0, 8);
    let depth = g.usize(0, 3);
    let blk = gen_blk_sized(g, &TyCfg::server(), nc, n, depth);
    let o = EncOpts {
        lc_width: g.below(4),
        lc_extra: g.below(3),
        junk_under_null: g.bool(),
    };
    let mut body = blk.encode(&o);
    let what = mutate(g, &mut body);
    let head = blk.header().encode(&EncOpts::default());
    let lz4 = s.lz4;
    let pk = |b: &[u8], g: &mut Src| data_packet(b, lz4, Some(g));
    s.pk1 = if s.op == Op::Insert { vec![pk(&body, g)] } else { vec![pk(&head, g), pk(&body, g), eos()] };
    if s.op != Op::Insert {
        s.blk = blk.clone();
    }
    g.say(format!("{} lz4={lz4}; {what}; {}", s.op.label(), describe(&blk)));
    s.labels(g);
    type_labels(g, &blk);
    g.nontrivial = true;
    let p = s.good();
    malformed(g, s, p, true)
}
fn c14_types(g: &mut Src) -> Res {
    let mut s = gen_scn(g, &[Op::Fetch, Op::Blocks, Op::Rows, Op::Insert], 4);
    let d = g.usize(0, 3);
    let t = gen_ty(g, &TyCfg::server(), d);
    let n = g.usize(0, 4);
    let vals = gen_vals(g, &t, n);
    let name = bad_name(g, &t);
    let mut w = W::new();
    w.uv(1).u8(0).uv(2).i32(-1).uv(0).uv(1);
    let declared = if g.chance(1, 6) { *g.pick(&[1u64 << 20, 1 << 31, 1 << 40, u64::MAX, 1 << 62]) } else { n as u64 };
    w.uv(declared);
    w.str(b"c").str(&name);
    match g.below(3) {
        0 => {
            let z = vec![*g.pick(&[0u8, 1, 0xff, 0x80]); g.usize(0, 200)];
            w.bytes(&z);
        }
        1 => {
            let k = g.usize(0, 200);
            let z = g.bytes(k);
            w.bytes(&z);
        }
        _ => {
            enc_col(&mut w, &t, &vals, &EncOpts::default());
        }
    }
    let lz4 = s.lz4;
    s.pk1 = vec![data_packet(&w.0, lz4, None), data_packet(&w.0, lz4, Some(g)), eos()];
    let show = String::from_utf8_lossy(&name).to_string();
    let show: String = show.chars().take(160).collect();
    g.say(format!("{} lz4={lz4}; {declared} rows of type {show:?} ({} bytes of name)", s.op.label(), name.len()));
    s.labels(g);
    g.nontrivial = true;
    let p = s.good();
    malformed(g, s, p, true)
}
/// bytes that need not resemble anything
fn c14_junk(g: &mut Src) -> Res {
    let s = gen_scn(g, OPS, 4);
    let mut p = s.good();
    let n = g.usize(0, 200);
    let mut junk = match g.below(4) {
        0 => g.bytes(n),
        1 => {
            // packet codes in random order
            let mut v = vec![];
            for _ in 0..g.usize(1, 6) {
                match g.below(7) {
                    0 => v.extend(pong()),
                    1 => v.extend(progress(g, REV)),
                    2 => v.extend(profile(g)),
                    3 => v.extend(table_columns(g)),
                    4 => v.extend(HelloCfg::default().encode()),
                    5 => {
                        let b = gen_blk(g, &TyCfg::server(), 2, 3, 1);
                        v.extend(encode_wild(&b, g, s.lz4, false));
                    }
                    _ => v.extend(eos()),
                }
            }
            v
        }
        2 => {
            // a long chain of nested exceptions
            let e = Exc {
                code: 1,
                name: String::new(),
                msg: String::new(),
                stack: String::new(),
            };
            let one = e.encode();
            let d = match g.below(3) {
                0 => g.usize(1, 10),
                1 => g.usize(10, 2000),
                _ => g.usize(2000, 200_000),
            };
            let mut v = vec![2u8];
            for _ in 0..d {
                v.extend_from_slice(&one[1..one.len() - 1]);
                v.push(1);
            }
            if g.bool() {
                v.extend_from_slice(&one[1..]);
            }
            v
        }
        _ => {
            let mut v = vec![g.below(12) as u8];
            v.extend(g.bytes(n));
            v
        }
    };
    let at = g.below(3);
    match at {
        0 if g.chance(1, 3) || s.op == Op::Connect => p.hello = std::mem::take(&mut junk),
        _ if s.op == Op::Ping => p.pong = junk,
        1 if s.op == Op::Insert => p.pk2 = junk,
        _ => p.pk1 = junk,
    }
    g.say(format!("{}; junk {n} at {at}", s.text()));
    s.labels(g);
    g.nontrivial = true;
    malformed(g, s, p, false)
}
pub static C14: Prop = Prop {
    id: "C14",
    rule: "the reply differs from a correct one by at least one mutation, or is not derived from one; distinct by the choices that generated reply and mutations",
    level: "exploration",
    assumptions: &["crashes, panics, hangs beyond 60 s and single allocations above 64 MiB + 4096 x the bytes received are what is detected; the server closes the connection after its reply"],
    checks: &[
        Check {
            name: "stream",
            what: "every operation, one to four mutations anywhere in the bytes of the server's answer",
            quick: 120000,
            thorough: 2400000,
            threads: 0,
            f: c14_stream,
        },
        Check {
            name: "block",
            what: "mutations inside the encoded block (re-compressed with a right checksum), all types and nestings; whatever is returned is read in full",
            quick: 160000,
            thorough: 3200000,
            threads: 0,
            f: c14_block,
        },
        Check {
            name: "types",
            what: "type names that are nearly right (numbers out of range, unbalanced, deeply nested, cut, spliced) over right, constant or random data",
            quick: 100000,
            thorough: 2000000,
            threads: 0,
            f: c14_types,
        },
        Check {
            name: "junk",
            what: "random bytes, packets in any order, long chains of nested exceptions",
            quick: 24000,
            thorough: 480000,
            threads: 0,
            f: c14_junk,
        },
    ],
    findings: &[],
};
