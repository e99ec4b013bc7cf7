//! C10, C11, C20, C21: histories of operations on handles and pools, in virtual time.
//!
//! Client and server run on one thread under tokio's paused clock: time passes only when nobody can
//! run, so a lost wake-up or an endless wait shows up at once as the case's time limit, and limits of
//! hours cost nothing.
use crate::gen::Src;
use crate::hook;
use crate::model::*;
use crate::p_data::*;
use crate::run::*;
use crate::server::*;
use clickhouse_rs::errors::{ConnectionError, DriverError, Error};
use clickhouse_rs::types::Block;
use clickhouse_rs::{ClientHandle, Pool};
use futures_util::{FutureExt, StreamExt};
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};
use std::time::Duration;
use tokio::time::Instant;

pub fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
/// Runs a case in virtual time; the limit is virtual too.
pub fn virtual_time<F, T>(limit_s: u64, f: F) -> Result<T, String>
where
    F: Future<Output = Result<T, String>>,
{
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .event_interval(1)
        .start_paused(true)
        // bytes may still be on their way through the kernel: let it run before time jumps
        .on_thread_park(|| {
            for _ in 0..3 {
                std::thread::yield_now();
            }
            std::thread::sleep(Duration::from_micros(20));
        })
        .build()
        .unwrap_or_else(|e| harness_error(&format!("runtime: {e}")));
    let local = tokio::task::LocalSet::new();
    let r = local.block_on(&rt, async move {
        match tokio::time::timeout(Duration::from_secs(limit_s), f).await {
            Ok(r) => r,
            Err(_) => Err(format!("HANG: nothing can run any more (checked up to {limit_s} virtual seconds)")),
        }
    });
    drop(local);
    rt.shutdown_background();
    r.map_err(|e| if e.starts_with("HANG") { e } else { format!("{RECHECK}{e}") })
}

// ------------------------------------------------------------------ the server's plans
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    No,
    /// exception instead of packet k
    Exc(usize),
    /// connection lost instead of packet k
    Cut(usize, bool),
    /// silence instead of packet k
    Stall(usize),
}
/// what the server does when it is told to cancel
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum OnCancel {
    End,
    Exc,
    /// sends the rest first
    Late,
    /// never reacts (only for stalled queries)
    Deaf,
}
#[derive(Clone, Debug)]
pub struct QPlan {
    /// rows of each block
    pub blocks: Vec<usize>,
    pub fault: Fault,
    pub cancel: OnCancel,
    /// yields and milliseconds before each packet
    pub pace: (usize, u64),
    pub pad: usize,
    /// the fault hits this statement of an insert in several pieces
    pub piece: usize,
}
impl QPlan {
    fn clean(&self) -> bool {
        self.fault == Fault::No
    }
    fn rows(&self, id: u64) -> Vec<u64> {
        (0..self.blocks.iter().sum::<usize>() as u64).map(|i| id * 1000 + i).collect()
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CPlan {
    Good,
    /// accepted and closed at once
    Close(bool),
    /// refuses the greeting with an exception
    Refuse,
    /// never answers the greeting
    Mute,
    Garbage,
    /// answers the greeting, then fails on the first ping or query
    Dies,
    /// answers the greeting and then nothing
    Deaf,
}
#[derive(Default)]
pub struct World {
    pub plans: BTreeMap<u64, QPlan>,
    /// times the query arrived
    pub seen: BTreeMap<u64, usize>,
    pub inserted: BTreeMap<u64, Vec<Vec<u64>>>,
    pub conn_of: BTreeMap<u64, usize>,
    /// behaviour of the next connections
    pub conns: VecDeque<CPlan>,
    /// (host, plan) of each connection, in order
    pub accepted: Vec<(usize, CPlan)>,
    pub pings: usize,
    pub kill: Option<(tokio::sync::watch::Sender<u64>, tokio::sync::watch::Receiver<u64>)>,
    pub busy: usize,
    pub over: Option<String>,
    pub max_open: usize,
    /// rows per piece of an insert (0: no limit)
    pub cut: usize,
    pub ports: std::collections::BTreeSet<u16>,
    pub refused: bool,
}
impl World {
    fn chunks(&self, op: &HOp) -> Vec<Vec<u64>> {
        let v: Vec<u64> = (0..op.ins as u64).map(|i| op.id * 1000 + i).collect();
        match self.cut {
            _ if v.is_empty() => vec![v],
            0 => vec![v],
            n => v.chunks(n).map(|c| c.to_vec()).collect(),
        }
    }
}
pub type Wd = Rc<RefCell<World>>;

pub fn exc_of(id: u64) -> Exc {
    Exc {
        code: 100_000 + id as u32,
        name: "DB::Exception".into(),
        msg: format!("failure of {id}"),
        stack: String::new(),
    }
}
fn result_blk(id: u64, from: usize, n: usize, pad: usize) -> Blk {
    Blk {
        cols: vec![
            Col { name: "v".into(), ty: Ty::U(64), vals: (0..n).map(|i| Val::U(id as u128 * 1000 + (from + i) as u128)).collect() },
            Col { name: "pad".into(), ty: Ty::Str, vals: (0..n).map(|_| Val::Str(vec![b'x'; pad])).collect() },
        ],
    }
}
fn insert_blk(n: usize) -> Blk {
    Blk { cols: vec![Col { name: "v".into(), ty: Ty::U(64), vals: (0..n).map(|i| Val::U(i as u128)).collect() }] }
}
fn digits(s: &str, after: char) -> Option<u64> {
    let i = s.find(after)?;
    let t: String = s[i + 1..].chars().take_while(|c| c.is_ascii_digit()).collect();
    t.parse().ok()
}

enum Sent {
    On,
    Cancelled,
    Gone,
}
async fn pause(p: (usize, u64)) {
    for _ in 0..p.0 {
        tokio::task::yield_now().await;
    }
    if p.1 > 0 {
        tokio::time::sleep(ms(p.1)).await;
    }
}
/// looks whether the client has cancelled or gone, without waiting
fn glance(c: &mut Conn) -> Result<Sent, RecvErr> {
    match c.recv().now_or_never() {
        None => Ok(Sent::On),
        Some(Ok(CPkt::Cancel)) => Ok(Sent::Cancelled),
        Some(Ok(p)) => Err(RecvErr::Bad(format!("{} packet while a query is being answered", p.tag()))),
        Some(Err(RecvErr::Closed)) | Some(Err(RecvErr::Io(_))) => Ok(Sent::Gone),
        Some(Err(e)) => Err(e),
    }
}
async fn answer(c: &mut Conn, w: &Wd, id: u64, insert: bool, kill: &mut tokio::sync::watch::Receiver<u64>) -> Result<bool, RecvErr> {
    let mut plan = match w.borrow().plans.get(&id) {
        Some(p) => p.clone(),
        None => return Err(RecvErr::Bad(format!("query {id} was never asked"))),
    };
    if insert && w.borrow().seen[&id] != plan.piece + 1 {
        plan.fault = Fault::No;
    }
    let mut packets: Vec<Vec<u8>> = vec![];
    let lz4 = c.compress;
    if insert {
        packets.push(data_packet(&insert_blk(0).header().encode(&EncOpts::default()), lz4, None));
        packets.push(vec![]);
    } else {
        packets.push(data_packet(&result_blk(id, 0, 0, 0).header().encode(&EncOpts::default()), lz4, None));
        let mut from = 0;
        for n in &plan.blocks {
            packets.push(data_packet(&result_blk(id, from, *n, plan.pad).encode(&EncOpts::default()), lz4, None));
            from += n;
        }
    }
    packets.push(eos());
    let mut ignore = false;
    for (k, p) in packets.iter().enumerate() {
        pause(plan.pace).await;
        if !ignore && !(insert && k == 1) {
            match glance(c)? {
                Sent::Gone => return Ok(false),
                Sent::Cancelled => match plan.cancel {
                    OnCancel::Exc => return Ok(c.send(&exc_of(id).encode()).await),
                    OnCancel::Late => ignore = true,
                    _ => return Ok(c.send(&eos()).await),
                },
                Sent::On => {}
            }
        }
        match plan.fault {
            Fault::Exc(at) if at == k && insert => {
                // the data may already be on its way
                let _ = c.send(&exc_of(id).encode()).await;
                while let Ok(CPkt::Data(..)) = c.recv().await {}
                return Ok(false);
            }
            Fault::Exc(at) if at == k => return Ok(c.send(&exc_of(id).encode()).await),
            Fault::Cut(at, rst) if at == k => {
                c.kill(rst).await;
                return Ok(false);
            }
            Fault::Stall(at) if at == k && !ignore => {
                // silent until the client cancels or leaves
                loop {
                    let got = tokio::select! {
                        r = c.recv() => r,
                        _ = kill.changed() => { c.kill(false).await; return Ok(false); }
                    };
                    match got {
                        Ok(CPkt::Cancel) => match plan.cancel {
                            OnCancel::Exc => return Ok(c.send(&exc_of(id).encode()).await),
                            OnCancel::Deaf => {}
                            _ => return Ok(c.send(&eos()).await),
                        },
                        Ok(CPkt::Data(..)) if insert && at == 1 => {}
                        Ok(p) => return Err(RecvErr::Bad(format!("{} packet while query {id} is being answered", p.tag()))),
                        Err(RecvErr::Bad(e)) => return Err(RecvErr::Bad(e)),
                        Err(_) => return Ok(false),
                    }
                }
            }
            _ => {}
        }
        if insert && k == 1 {
            let mut rows = vec![];
            for b in c.read_insert().await? {
                if b.cols.len() != 1 {
                    return Err(RecvErr::Bad(format!("insert {id} sent {b:?}")));
                }
                for v in &b.cols[0].vals {
                    match v {
                        Val::U(x) => rows.push(*x as u64),
                        v => return Err(RecvErr::Bad(format!("insert {id} sent {v:?}"))),
                    }
                }
            }
            w.borrow_mut().inserted.entry(id).or_default().push(rows);
        } else if !p.is_empty() && !c.send(p).await {
            return Ok(false);
        }
    }
    Ok(true)
}
async fn serve(mut c: Conn, w: Wd, host: usize) -> Result<(), RecvErr> {
    let (plan, mut kill) = {
        let mut x = w.borrow_mut();
        let p = x.conns.pop_front().unwrap_or(CPlan::Good);
        x.accepted.push((host, p));
        x.refused |= p == CPlan::Refuse;
        if let Ok(a) = c.s.peer_addr() {
            x.ports.insert(a.port());
        }
        (p, x.kill.as_ref().unwrap().1.clone())
    };
    kill.mark_unchanged();
    match plan {
        CPlan::Close(rst) => {
            c.kill(rst).await;
            return Ok(());
        }
        CPlan::Refuse | CPlan::Garbage => {
            let _ = c.recv().await?;
            let b = if plan == CPlan::Refuse { exc_of(0).encode() } else { vec![0x55, 0x55, 0x55] };
            let _ = c.send(&b).await;
            let _ = c.recv().await;
            return Ok(());
        }
        CPlan::Mute => {
            let _ = c.recv().await?;
            let _ = c.recv().await;
            return Ok(());
        }
        _ => c.greet().await?,
    }
    loop {
        let p = tokio::select! {
            r = c.recv() => r,
            _ = kill.changed() => { let rst = *kill.borrow() & 1 == 1; c.kill(rst).await; return Ok(()); }
        };
        let p = match p {
            Ok(p) => p,
            Err(RecvErr::Bad(e)) => return Err(RecvErr::Bad(e)),
            Err(_) => return Ok(()),
        };
        if plan == CPlan::Dies {
            c.kill(false).await;
            return Ok(());
        }
        if plan == CPlan::Deaf {
            continue;
        }
        match p {
            CPkt::Ping => {
                w.borrow_mut().pings += 1;
                if !c.send(&pong()).await {
                    return Ok(());
                }
            }
            CPkt::Cancel => {}
            CPkt::Query(q) => {
                let insert = q.sql.starts_with("INSERT");
                let id = digits(&q.sql, if insert { 'T' } else { 'Q' });
                // the T of INSERT and INTO are not followed by digits
                let id = if insert { q.sql.split_whitespace().nth(2).and_then(|t| digits(t, 'T')) } else { id };
                let id = match id {
                    Some(i) => i,
                    None => return Err(RecvErr::Bad(format!("query {:?}", q.sql))),
                };
                {
                    let mut x = w.borrow_mut();
                    *x.seen.entry(id).or_default() += 1;
                    x.conn_of.insert(id, c.index);
                }
                match c.expect_end().await {
                    Ok(()) => {}
                    Err(RecvErr::Bad(e)) => return Err(RecvErr::Bad(e)),
                    Err(_) => return Ok(()),
                }
                w.borrow_mut().busy += 1;
                let r = answer(&mut c, &w, id, insert, &mut kill).await;
                w.borrow_mut().busy -= 1;
                match r {
                    Ok(true) => {}
                    Ok(false) => return Ok(()),
                    Err(RecvErr::Bad(e)) => return Err(RecvErr::Bad(e)),
                    Err(_) => return Ok(()),
                }
            }
            p => return Err(RecvErr::Bad(format!("{} packet between operations", p.tag()))),
        }
    }
}
pub fn world() -> Wd {
    let w = World { kill: Some(tokio::sync::watch::channel(0u64)), ..Default::default() };
    Rc::new(RefCell::new(w))
}
pub async fn start(w: &Wd, host: usize) -> Srv {
    let w = w.clone();
    Srv::start(HelloCfg::default(), Frag::default(), move |c| serve(c, w.clone(), host)).await
}
fn kill_all(w: &Wd, rst: bool) {
    let x = w.borrow();
    let s = &x.kill.as_ref().unwrap().0;
    let n = *s.borrow();
    let _ = s.send((n | 1) + if rst { 2 } else { 1 });
}

// ------------------------------------------------------------------ operations
/// gives up after a number of polls
struct PollN<F>(Option<Pin<Box<F>>>, usize);
impl<F: Future> Future for PollN<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.1 == 0 {
            self.0 = None;
            return Poll::Ready(None);
        }
        self.1 -= 1;
        match self.0.as_mut().unwrap().as_mut().poll(cx) {
            Poll::Ready(v) => Poll::Ready(Some(v)),
            Poll::Pending => {
                if self.1 == 0 {
                    self.0 = None;
                    return Poll::Ready(None);
                }
                // every further turn of the scheduler counts
                cx.waker().wake_by_ref();
                Poll::Pending
            }
        }
    }
}
/// how an operation is given up, if it is
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Quit {
    No,
    Polls(usize),
    After(u64),
}
pub async fn quitting<F: Future>(q: Quit, f: F) -> Option<F::Output> {
    match q {
        Quit::No => Some(f.await),
        Quit::Polls(n) => PollN(Some(Box::pin(f)), n).await,
        Quit::After(n) => tokio::time::timeout(ms(n), f).await.ok(),
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Fetch,
    Rows,
    Blocks,
    Execute,
    Insert,
    Ping,
    Check,
}
#[derive(Clone, Debug)]
pub struct HOp {
    pub id: u64,
    pub kind: Kind,
    /// the stream is dropped after this many items
    pub take: Option<usize>,
    pub quit: Quit,
    pub ins: usize,
}
#[derive(Debug)]
pub enum Outcome {
    Ok(Vec<u64>),
    Err(Error, Vec<u64>),
    /// dropped after some items
    Left(Vec<u64>),
    Quit(Vec<u64>),
}
fn values<K: clickhouse_rs::types::ColumnType>(b: &Block<K>) -> Result<Vec<u64>, Error> {
    (0..b.row_count()).map(|i| b.get::<u64, _>(i, "v")).collect()
}
pub async fn run_op(h: &mut ClientHandle, op: &HOp) -> Outcome {
    let got: Rc<RefCell<Vec<u64>>> = Default::default();
    let g2 = got.clone();
    let f = async move {
        let sql = format!("SELECT Q{}", op.id);
        let r: Result<bool, Error> = match op.kind {
            Kind::Fetch => match h.query(sql).fetch_all().await {
                Ok(b) => values(&b).map(|v| {
                    g2.borrow_mut().extend(v);
                    true
                }),
                Err(e) => Err(e),
            },
            Kind::Blocks => {
                let mut st = h.query(sql).stream_blocks();
                let mut n = 0;
                loop {
                    if op.take == Some(n) {
                        break Ok(false);
                    }
                    match st.next().await {
                        None => break Ok(true),
                        Some(Err(e)) => break Err(e),
                        Some(Ok(b)) => match values(&b) {
                            Ok(v) => g2.borrow_mut().extend(v),
                            Err(e) => break Err(e),
                        },
                    }
                    n += 1;
                }
            }
            Kind::Rows => {
                let mut st = h.query(sql).stream();
                let mut n = 0;
                loop {
                    if op.take == Some(n) {
                        break Ok(false);
                    }
                    match st.next().await {
                        None => break Ok(true),
                        Some(Err(e)) => break Err(e),
                        Some(Ok(r)) => match r.get::<u64, _>("v") {
                            Ok(v) => g2.borrow_mut().push(v),
                            Err(e) => break Err(e),
                        },
                    }
                    n += 1;
                }
            }
            Kind::Execute => h.execute(sql).await.map(|_| true),
            Kind::Insert => {
                let v: Vec<u64> = (0..op.ins as u64).map(|i| op.id * 1000 + i).collect();
                h.insert(format!("T{}", op.id), Block::new().column("v", v)).await.map(|_| true)
            }
            Kind::Ping => h.ping().await.map(|_| true),
            Kind::Check => h.check_connection().await.map(|_| true),
        };
        r
    };
    let r = quitting(op.quit, f).await;
    let v = got.borrow().clone();
    match r {
        None => Outcome::Quit(v),
        Some(Ok(true)) => Outcome::Ok(v),
        Some(Ok(false)) => Outcome::Left(v),
        Some(Err(e)) => Outcome::Err(e, v),
    }
}
fn gen_plan(g: &mut Src, calm: bool, insert: bool, deaf: bool) -> QPlan {
    let nb = if insert { 1 } else { g.usize(0, 4) };
    let blocks = (0..nb).map(|_| g.usize(1, 3)).collect::<Vec<_>>();
    let last = nb + 1;
    let fault = if calm {
        Fault::No
    } else {
        match g.weighted(&[10, 4, 2, 3]) {
            0 => Fault::No,
            1 => Fault::Exc(g.usize(0, last)),
            2 => Fault::Cut(g.usize(0, last), g.bool()),
            _ => Fault::Stall(g.usize(0, last)),
        }
    };
    let cancel = match g.below(4) {
        0 => OnCancel::End,
        1 => OnCancel::Exc,
        2 => OnCancel::Late,
        _ if deaf && matches!(fault, Fault::Stall(_)) => OnCancel::Deaf,
        _ => OnCancel::End,
    };
    let pace = match g.below(4) {
        0 => (0, 0),
        1 => (g.usize(1, 8), 0),
        2 => (0, g.below(30)),
        _ => (g.usize(0, 3), g.below(3)),
    };
    let pad = if g.chance(1, 12) { g.usize(1, 400_000) } else { 0 };
    QPlan { blocks, fault, cancel, pace, pad, piece: 0 }
}
fn gen_op(g: &mut Src, id: u64, w: &Wd, deaf: bool) -> HOp {
    let kind = *g.pick(&[Kind::Fetch, Kind::Blocks, Kind::Rows, Kind::Execute, Kind::Insert, Kind::Ping, Kind::Check]);
    let mut p = gen_plan(g, false, kind == Kind::Insert, deaf);
    let stream = matches!(kind, Kind::Blocks | Kind::Rows);
    if kind == Kind::Insert {
        p.blocks = vec![0];
        p.pad = 0;
    }
    let take = if stream && g.chance(2, 5) { Some(g.usize(0, p.blocks.len() + 1)) } else { None };
    let mut quit = match g.weighted(&[6, 2, 1]) {
        0 => Quit::No,
        1 => Quit::Polls(g.usize(1, 40)),
        _ => Quit::After(g.below(60)),
    };
    if stream && matches!(p.fault, Fault::Stall(_)) && take.is_none() && quit == Quit::No {
        // streams have no time limit
        quit = Quit::After(g.below(200));
    }
    if stream && take.is_some() && matches!(p.fault, Fault::Stall(_)) && quit == Quit::No {
        quit = Quit::After(500);
    }
    let op = HOp { id, kind, take, quit, ins: g.usize(0, 4) };
    if kind == Kind::Insert {
        p.piece = g.usize(0, w.borrow().chunks(&op).len() - 1);
    }
    w.borrow_mut().plans.insert(id, p);
    op
}
fn show(op: &HOp, p: &QPlan) -> String {
    let mut s = format!("{:?}#{}", op.kind, op.id);
    if !matches!(op.kind, Kind::Ping | Kind::Check) {
        s += &format!(" blocks {:?}", p.blocks);
        if p.fault != Fault::No {
            s += &format!(" {:?}", p.fault);
            if p.piece > 0 {
                s += &format!(" in piece {}", p.piece);
            }
        }
        s += &format!(" cancel {:?} pace {:?}", p.cancel, p.pace);
        if p.pad > 0 {
            s += &format!(" pad {}", p.pad);
        }
    }
    if let Some(t) = op.take {
        s += &format!(" dropped after {t}");
    }
    if op.quit != Quit::No {
        s += &format!(" given up {:?}", op.quit);
    }
    s
}
/// what an operation reported against its own plan; `must` says that it has no excuse to fail
pub fn judge(op: &HOp, o: &Outcome, w: &World, must: Option<&str>) -> Res {
    let p = &w.plans[&op.id];
    let want = p.rows(op.id);
    let what = || show(op, p);
    let seen = w.seen.get(&op.id).copied().unwrap_or(0);
    let chunks = w.chunks(op);
    if seen > if op.kind == Kind::Insert { chunks.len() } else { 1 } {
        return err(format!("{} was sent {seen} times", what()));
    }
    let reads = matches!(op.kind, Kind::Fetch | Kind::Rows | Kind::Blocks);
    let ins = w.inserted.get(&op.id).cloned().unwrap_or_default();
    if op.kind != Kind::Insert && !ins.is_empty() || !chunks.starts_with(&ins) {
        return err(format!("{} delivered {ins:?}", what()));
    }
    let prefix = |v: &Vec<u64>| -> Res {
        if reads && want.starts_with(v) {
            return Ok(());
        }
        if !reads && v.is_empty() {
            return Ok(());
        }
        err(format!("{} returned the rows {v:?}, its answer is {want:?}", what()))
    };
    match o {
        Outcome::Ok(v) => {
            let q = !matches!(op.kind, Kind::Ping | Kind::Check);
            if q && seen == 0 {
                return err(format!("{} succeeded, but never reached the server", what()));
            }
            if q && !p.clean() {
                return err(format!("{} succeeded, but its answer never ended", what()));
            }
            if reads && *v != want {
                return err(format!("{} returned the rows {v:?}, its answer is {want:?}", what()));
            }
            if op.kind == Kind::Insert && ins.len() != chunks.len() {
                return err(format!("{} succeeded, but its rows did not arrive", what()));
            }
            Ok(())
        }
        Outcome::Err(e, v) => {
            prefix(v)?;
            if let Error::Server(x) = e {
                let caused = matches!(p.fault, Fault::Exc(_)) && !matches!(op.kind, Kind::Ping | Kind::Check);
                if w.refused && x.code == exc_of(0).code {
                    // a reconnection was refused
                    return Ok(());
                }
                if !caused || x.code != exc_of(op.id).code {
                    return err(format!("{} reported the exception {} {:?}, which it did not cause", what(), x.code, x.message));
                }
                return Ok(());
            }
            match must {
                Some(why) if p.clean() || matches!(op.kind, Kind::Ping | Kind::Check) => {
                    err(format!("{} failed with {e:?}, although {why}", what()))
                }
                Some(why) if matches!(p.fault, Fault::Exc(_)) => {
                    err(format!("{} failed with {e:?} instead of its exception, although {why}", what()))
                }
                _ => Ok(()),
            }
        }
        Outcome::Left(v) | Outcome::Quit(v) => prefix(v),
    }
}
fn protocol(srv: &Srv) -> Res {
    for e in srv.errors() {
        // a connection closed in the middle of a packet is an abandoned operation
        if !e.contains("Partial") && !e.contains("Io(") {
            return err(format!("the server saw {e}"));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C10
/// what is known about the connection of a handle when connections are not checked before queries
#[derive(Clone, Copy, Debug, PartialEq)]
enum Hs {
    Clean,
    Unknown,
}
struct Cfg {
    ping: bool,
    min: usize,
    max: usize,
    lz4: bool,
    retries: usize,
}
impl Cfg {
    fn url(&self, srv: &Srv) -> String {
        format!(
            "tcp://{}/?connection_timeout=3s&ping_timeout=1s&query_timeout=20s&insert_timeout=20s&execute_timeout=20s&retry_timeout=10ms&send_retries={}&ping_before_query={}&pool_min={}&pool_max={}{}",
            srv.addr,
            self.retries,
            self.ping,
            self.min,
            self.max,
            if self.lz4 { "&compression=lz4" } else { "" }
        )
    }
    fn gen(g: &mut Src) -> Cfg {
        let max = g.usize(1, 4);
        Cfg { ping: g.bool(), min: g.usize(0, max), max, lz4: g.bool(), retries: 10 }
    }
}
fn c10_history(g: &mut Src) -> Res {
    let cfg = Cfg::gen(g);
    let cut = if hook::on() && g.bool() { g.usize(1, 3) } else { 0 };
    let _l = hook::Limit::set(cut);
    if cut > 0 {
        g.label("inserts in pieces");
    }
    let n = g.usize(2, 12);
    let mut log: Vec<String> = vec![format!("ping_before_query {}, pool {}..{}, lz4 {}, cut {cut}", cfg.ping, cfg.min, cfg.max, cfg.lz4)];
    let mut disturbed = false;
    let mut after = 0;
    let r = virtual_time(100_000, async {
        let w = world();
        w.borrow_mut().cut = cut;
        let srv = start(&w, 0).await;
        let pool = Pool::new(cfg.url(&srv));
        let mut hs: Vec<Option<(ClientHandle, Hs)>> = (0..cfg.max).map(|_| None).collect();
        // idle connections may have been closed by the server
        let mut tainted = false;
        for step in 0..n {
            let s = g.usize(0, cfg.max - 1);
            if hs[s].is_none() {
                log.push(format!("{s}: acquire"));
                match pool.get_handle().await {
                    Ok(h) => hs[s] = Some((h, if tainted { Hs::Unknown } else { Hs::Clean })),
                    Err(e) => return err(format!("acquiring failed: {e:?}")),
                }
            }
            match g.weighted(&[12, 2, 1]) {
                1 => {
                    log.push(format!("{s}: release"));
                    let (h, st) = hs[s].take().unwrap();
                    if st == Hs::Unknown {
                        tainted = true;
                    }
                    drop(h);
                    spin(g.usize(0, 5)).await;
                    continue;
                }
                2 => {
                    let rst = g.bool();
                    log.push(format!("the server closes all connections{}", if rst { " (reset)" } else { "" }));
                    kill_all(&w, rst);
                    tainted = true;
                    disturbed = true;
                    for h in hs.iter_mut().flatten() {
                        h.1 = Hs::Unknown;
                    }
                    spin(g.usize(0, 5)).await;
                    continue;
                }
                _ => {}
            }
            let op = gen_op(g, step as u64 + 1, &w, cfg.ping);
            let p = w.borrow().plans[&op.id].clone();
            log.push(format!("{s}: {}", show(&op, &p)));
            let (h, st) = hs[s].as_mut().unwrap();
            let must = match (cfg.ping, &op.kind, *st) {
                (_, Kind::Check, _) | (true, Kind::Fetch | Kind::Rows | Kind::Blocks | Kind::Execute | Kind::Insert, _) => {
                    Some("the connection is checked first and the server is there")
                }
                (_, _, Hs::Clean) => Some("nothing had happened to its connection"),
                _ => None,
            };
            let o = run_op(h, &op).await;
            log.push(match &o {
                Outcome::Ok(v) => format!("  ok {v:?}"),
                Outcome::Err(e, v) => format!("  {e:?} after {v:?}"),
                Outcome::Left(v) => format!("  dropped after {v:?}"),
                Outcome::Quit(v) => format!("  given up after {v:?}"),
            });
            judge(&op, &o, &w.borrow(), must)?;
            let next = match &o {
                Outcome::Ok(_) => Hs::Clean,
                // the rest of the answer is skipped
                Outcome::Left(_) if !matches!(p.fault, Fault::Cut(..)) && p.cancel != OnCancel::Deaf => {
                    if *st == Hs::Clean || (cfg.ping && op.take != Some(0)) {
                        Hs::Clean
                    } else {
                        Hs::Unknown
                    }
                }
                _ => Hs::Unknown,
            };
            if matches!(o, Outcome::Ok(_)) && disturbed {
                after += 1;
            }
            if !matches!(o, Outcome::Ok(_)) {
                disturbed = true;
            }
            *st = next;
            protocol(&srv)?;
        }
        // whatever has happened, a checked connection works
        for (s, slot) in hs.iter_mut().enumerate() {
            if let Some((h, _)) = slot {
                let id = 500 + s as u64;
                w.borrow_mut().plans.insert(id, QPlan { blocks: vec![2, 1], fault: Fault::No, cancel: OnCancel::End, pace: (0, 0), pad: 0, piece: 0 });
                if let Err(e) = h.check_connection().await {
                    return err(format!("finally, check_connection of handle {s} failed: {e:?}"));
                }
                let op = HOp { id, kind: Kind::Fetch, take: None, quit: Quit::No, ins: 0 };
                let o = run_op(h, &op).await;
                judge(&op, &o, &w.borrow(), Some("its connection has just been checked"))?;
                after += 1;
            }
        }
        protocol(&srv)
    });
    g.nontrivial = disturbed && after > 0;
    g.label(if cfg.ping { "checked" } else { "unchecked" });
    g.say(log.join("\n  "));
    r
}
/// several tasks sharing a pool, each with its own operations
fn c10_tasks(g: &mut Src) -> Res {
    let cfg = Cfg::gen(g);
    let cut = if hook::on() && g.bool() { g.usize(1, 3) } else { 0 };
    let _l = hook::Limit::set(cut);
    if cut > 0 {
        g.label("inserts in pieces");
    }
    let w = world();
    w.borrow_mut().cut = cut;
    let nt = g.usize(2, 5);
    let mut id = 0;
    let mut scripts: Vec<Vec<(HOp, usize, bool)>> = vec![];
    for _ in 0..nt {
        let n = g.usize(1, 5);
        scripts.push(
            (0..n)
                .map(|_| {
                    id += 1;
                    (gen_op(g, id, &w, cfg.ping), g.usize(0, 6), g.chance(1, 3))
                })
                .collect(),
        );
    }
    let mut text = vec![format!("ping_before_query {}, pool {}..{}, lz4 {}, cut {cut}", cfg.ping, cfg.min, cfg.max, cfg.lz4)];
    for (t, sc) in scripts.iter().enumerate() {
        for (op, _, rel) in sc {
            text.push(format!("task {t}: {}{}", show(op, &w.borrow().plans[&op.id]), if *rel { ", then released" } else { "" }));
        }
    }
    g.say(text.join("\n  "));
    let ok = std::cell::Cell::new(0);
    let bad = std::cell::Cell::new(0);
    let r = virtual_time(1_000_000, async {
        let srv = start(&w, 0).await;
        let pool = Pool::new(cfg.url(&srv));
        let tasks = scripts.iter().enumerate().map(|(t, sc)| {
            let (pool, w, cfg, ok, bad) = (pool.clone(), w.clone(), &cfg, &ok, &bad);
            async move {
                let mut h: Option<ClientHandle> = None;
                for (op, yields, release) in sc {
                    spin(*yields).await;
                    if h.is_none() {
                        h = Some(pool.get_handle().await.map_err(|e| format!("task {t}: acquiring failed: {e:?}"))?);
                    }
                    let checked = cfg.ping && op.kind != Kind::Ping || op.kind == Kind::Check;
                    let o = run_op(h.as_mut().unwrap(), op).await;
                    let waits = nt > cfg.max && matches!(o, Outcome::Err(Error::Driver(DriverError::Timeout), _));
                    let must = (checked && !waits).then_some("the connection is checked first and the server is there");
                    judge(op, &o, &w.borrow(), must).map_err(|e| format!("task {t}: {e}"))?;
                    match o {
                        Outcome::Ok(_) => ok.set(ok.get() + 1),
                        _ => bad.set(bad.get() + 1),
                    }
                    if *release {
                        h = None;
                    }
                }
                Ok::<(), String>(())
            }
        });
        for r in futures_util::future::join_all(tasks).await {
            r?;
        }
        protocol(&srv)
    });
    g.nontrivial = bad.get() > 0 && ok.get() > 0;
    g.label(if cfg.ping { "checked" } else { "unchecked" });
    r
}
pub static C10: Prop = Prop {
    id: "C10",
    rule: "the history contains an abandoned, given up, failed or disconnected operation and a later success; distinct by the recorded choices",
    level: "exploration",
    assumptions: &[
        "the server answers a cancel packet with the end of the stream or an exception, and ignores one between queries, as ClickHouse does",
        "client and server run on one thread in virtual time; real threads are the business of C11",
    ],
    checks: &[
        Check { name: "history", what: "sequences of operations on up to four handles of a pool, with streams dropped, operations given up, exceptions, silence and lost connections", quick: 20000, thorough: 2000000, threads: 24, f: c10_history },
        Check { name: "tasks", what: "two to five tasks sharing a pool, their operations interleaved, with the same disturbances", quick: 20000, thorough: 2000000, threads: 24, f: c10_tasks },
    ],
    findings: &[],
};

// ------------------------------------------------------------------ C11
/// sockets of this process connected to the address
pub fn sockets(addr: std::net::SocketAddr) -> usize {
    sockets_of(addr, &Default::default())
}
/// with those that have been reset, known by their local ports
fn sockets_of(addr: std::net::SocketAddr, ports: &std::collections::BTreeSet<u16>) -> usize {
    let (ip, port) = match addr {
        std::net::SocketAddr::V4(a) => (u32::from_ne_bytes(a.ip().octets()), a.port().to_be()),
        _ => return 0,
    };
    let mut n = 0;
    let mut misses = 0;
    for fd in 3..4096 {
        unsafe {
            let mut a: libc::sockaddr_in = std::mem::zeroed();
            let mut l = std::mem::size_of::<libc::sockaddr_in>() as libc::socklen_t;
            if libc::getpeername(fd, &mut a as *mut _ as *mut libc::sockaddr, &mut l) == 0 {
                misses = 0;
                if a.sin_family == libc::AF_INET as u16 && a.sin_addr.s_addr == ip && a.sin_port == port {
                    n += 1;
                }
            } else if *libc::__errno_location() == libc::EBADF {
                misses += 1;
                if misses > 64 {
                    break;
                }
            } else {
                let e = *libc::__errno_location();
                misses = 0;
                if e == libc::ENOTCONN && !ports.is_empty() {
                    l = std::mem::size_of::<libc::sockaddr_in>() as libc::socklen_t;
                    if libc::getsockname(fd, &mut a as *mut _ as *mut libc::sockaddr, &mut l) == 0
                        && a.sin_family == libc::AF_INET as u16
                        && ports.contains(&u16::from_be(a.sin_port))
                    {
                        n += 1;
                    }
                }
            }
        }
    }
    n
}
/// looks at the number of open connections after every poll
struct Watch<F> {
    f: Pin<Box<F>>,
    w: Wd,
    addr: std::net::SocketAddr,
    max: usize,
}
fn sample(w: &Wd, addr: std::net::SocketAddr, max: usize) {
    let n = sockets(addr);
    let mut x = w.borrow_mut();
    x.max_open = x.max_open.max(n);
    if n > max && x.over.is_none() {
        x.over = Some(format!("{n} connections are open, the pool allows {max}"));
    }
}
impl<F: Future> Future for Watch<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        let r = self.f.as_mut().poll(cx);
        sample(&self.w, self.addr, self.max);
        r
    }
}
struct Waiter {
    task: tokio::task::JoinHandle<()>,
    slot: Rc<RefCell<Option<Result<ClientHandle, Error>>>>,
}
impl Waiter {
    fn start(pool: &Pool, w: &Wd, addr: std::net::SocketAddr, max: usize, keep: bool) -> Waiter {
        let slot = Rc::new(RefCell::new(None));
        let (s2, pool, w) = (slot.clone(), pool.clone(), w.clone());
        let task = tokio::task::spawn_local(async move {
            let mut f = Watch { f: Box::pin(pool.get_handle()), w, addr, max };
            let r = (&mut f).await;
            *s2.borrow_mut() = Some(r);
            if keep {
                // the finished request is not dropped yet
                std::future::pending::<()>().await;
            }
            drop(f);
        });
        Waiter { task, slot }
    }
}
impl Drop for Waiter {
    fn drop(&mut self) {
        self.task.abort();
    }
}
/// everything that can happen without the user happens
async fn settle() {
    tokio::time::sleep(Duration::from_secs(300)).await;
    spin(3).await;
}
fn c11_history(g: &mut Src) -> Res {
    let mut cfg = Cfg::gen(g);
    cfg.retries = g.usize(0, 3);
    let n = g.usize(3, 18);
    // futures of finished requests are not dropped
    let keep = g.chance(1, 3);
    let mut log: Vec<String> = vec![format!("ping_before_query {}, pool {}..{}, retries {}{}", cfg.ping, cfg.min, cfg.max, cfg.retries, if keep { ", finished requests are kept" } else { "" })];
    let mut waited = false;
    let mut disturbed = false;
    let r = virtual_time(1_000_000, async {
        let w = world();
        let srv = start(&w, 0).await;
        let pool = Pool::new(cfg.url(&srv));
        let mut held: Vec<ClientHandle> = vec![];
        let mut waiters: Vec<Waiter> = vec![];
        let mut done: Vec<Waiter> = vec![];
        let max = cfg.max;
        macro_rules! collect {
            () => {
                let mut i = 0;
                while i < waiters.len() {
                    let got = waiters[i].slot.borrow_mut().take();
                    match got {
                        Some(Ok(h)) => {
                            held.push(h);
                            log.push("  acquired".into());
                            done.push(waiters.remove(i));
                        }
                        Some(Err(e)) => {
                            log.push(format!("  failed {e:?}"));
                            disturbed = true;
                            done.push(waiters.remove(i));
                        }
                        None => i += 1,
                    }
                }
                if !keep {
                    done.clear();
                }
                sample(&w, srv.addr, max);
                if let Some(e) = w.borrow().over.clone() {
                    return err(e);
                }
                protocol(&srv)?;
            };
        }
        macro_rules! served {
            ($when:expr) => {
                settle().await;
                collect!();
                let open = sockets_of(srv.addr, &w.borrow().ports);
                if !waiters.is_empty() && open < max {
                    return err(format!("{}: {} requests wait, although only {open} of {max} connections are open ({pool:?})", $when, waiters.len()));
                }
                if !waiters.is_empty() {
                    waited = true;
                }
                let open = sockets(srv.addr);
                if waiters.is_empty() && held.is_empty() && open > cfg.min {
                    return err(format!("{}: {open} idle connections are kept, the limit is {}", $when, cfg.min));
                }
            };
        }
        for step in 0..n {
            match g.weighted(&[6, 2, 4, 4, 5, 1, 2, 2]) {
                0 => {
                    log.push("request".into());
                    waiters.push(Waiter::start(&pool, &w, srv.addr, max, keep));
                    spin(g.usize(0, 4)).await;
                }
                1 if !waiters.is_empty() => {
                    let i = g.usize(0, waiters.len() - 1);
                    log.push(format!("request {i} given up"));
                    disturbed = true;
                    drop(waiters.remove(i));
                    spin(g.usize(0, 2)).await;
                }
                2 => {
                    let k = g.usize(0, 25);
                    log.push(format!("{k} turns"));
                    spin(k).await;
                }
                3 if !held.is_empty() => {
                    let i = g.usize(0, held.len() - 1);
                    log.push(format!("release {i}"));
                    drop(held.remove(i));
                }
                4 if !held.is_empty() => {
                    let i = g.usize(0, held.len() - 1);
                    let mut op = gen_op(g, step as u64 + 1, &w, cfg.ping);
                    if op.quit == Quit::No {
                        // a reconnection may have to wait for capacity that this task holds
                        op.quit = Quit::After(60_000);
                    }
                    log.push(format!("{i}: {}", show(&op, &w.borrow().plans[&op.id])));
                    let o = Watch { f: Box::pin(run_op(&mut held[i], &op)), w: w.clone(), addr: srv.addr, max }.await;
                    judge(&op, &o, &w.borrow(), None)?;
                    if !matches!(o, Outcome::Ok(_)) {
                        disturbed = true;
                    }
                    log.push(match &o {
                        Outcome::Ok(_) => "  ok".to_string(),
                        Outcome::Err(e, _) => format!("  {e:?}"),
                        Outcome::Left(_) => "  dropped".into(),
                        Outcome::Quit(_) => "  given up".into(),
                    });
                }
                5 => {
                    log.push("the server closes all connections".into());
                    disturbed = true;
                    kill_all(&w, false);
                    spin(g.usize(0, 3)).await;
                }
                6 => {
                    let k = g.usize(1, 3);
                    for _ in 0..k {
                        let p = *g.pick(&[CPlan::Close(false), CPlan::Refuse, CPlan::Mute, CPlan::Garbage, CPlan::Dies, CPlan::Deaf, CPlan::Good]);
                        log.push(format!("a next connection: {p:?}"));
                        w.borrow_mut().conns.push_back(p);
                    }
                }
                _ => {
                    log.push("a long time passes".into());
                    served!("in the middle");
                }
            }
            collect!();
        }
        w.borrow_mut().conns.clear();
        served!("at the end");
        if g.bool() {
            log.push("requests given up".into());
            waiters.clear();
        }
        while !held.is_empty() {
            let i = g.usize(0, held.len() - 1);
            drop(held.remove(i));
            if g.bool() {
                served!("while releasing");
            }
        }
        served!("after releasing everything");
        while !held.is_empty() {
            drop(held.pop());
            served!("after releasing the last ones");
        }
        if !waiters.is_empty() {
            return err("a request is never served");
        }
        // the whole capacity is there
        log.push(format!("{} requests at once", max + 1));
        for _ in 0..=max {
            waiters.push(Waiter::start(&pool, &w, srv.addr, max, keep));
        }
        served!("with everything requested");
        if held.len() != max || waiters.len() != 1 {
            return err(format!("of {} requests of a pool of at most {max} at rest, {} were served ({pool:?})", max + 1, held.len()));
        }
        let mut conns = vec![];
        for (i, h) in held.iter_mut().enumerate() {
            let id = 900 + i as u64;
            w.borrow_mut().plans.insert(id, QPlan { blocks: vec![2], fault: Fault::No, cancel: OnCancel::End, pace: (0, 0), pad: 0, piece: 0 });
            // a connection that died while idle may be replaced only within the capacity
            let alive = if cfg.retries > max { h.check_connection().await.is_ok() } else { h.ping().await.is_ok() };
            if !alive {
                continue;
            }
            let op = HOp { id, kind: Kind::Fetch, take: None, quit: Quit::No, ins: 0 };
            let o = run_op(h, &op).await;
            judge(&op, &o, &w.borrow(), Some("its connection has just been used"))?;
            conns.push(w.borrow().conn_of.get(&id).copied());
        }
        let m = conns.len();
        conns.sort();
        conns.dedup();
        if conns.len() != m {
            return err("two handles use the same connection");
        }
        let before = held.len() + waiters.len();
        drop(held.remove(g.usize(0, max - 1)));
        served!("after releasing one of them");
        if !waiters.is_empty() || held.len() + 1 != before {
            return err("the waiting request was not served when a handle was released");
        }
        drop(std::mem::take(&mut held));
        served!("finally");
        Ok(())
    });
    g.nontrivial = disturbed || waited;
    if waited {
        g.label("waiting");
    }
    if disturbed {
        g.label("disturbed");
    }
    g.say(log.join("\n  "));
    r
}
/// real threads: a pool shared by tasks on four workers, against a server on a thread of its own
pub fn c11_threads(g: &mut Src) -> Res {
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    use std::sync::Arc;
    let max = g.usize(1, 4);
    let min = g.usize(0, max);
    let ping = g.bool();
    let nt = g.usize(2, 8);
    // in calm cases every handle holds a live connection, so the handles are bounded too
    let calm = g.bool();
    // after how many requests each connection dies
    let deaths: Vec<usize> = (0..8).map(|_| if !calm && g.chance(1, 3) { g.usize(0, 12) } else { usize::MAX }).collect();
    // per task and round: give up after polls, query, extra yields, drop a stream early
    let scripts: Vec<Vec<(usize, u64, usize)>> = (0..nt)
        .map(|_| {
            let k = g.usize(2, 12);
            (0..k).map(|_| (if g.chance(1, 3) { g.usize(1, 6) } else { usize::MAX }, if calm { 2 * g.below(3) } else { g.below(5) }, g.usize(0, 3))).collect()
        })
        .collect();
    g.say(format!("pool {min}..{max}, ping_before_query {ping}, {nt} tasks {scripts:?}, connections die after {deaths:?} requests"));
    g.nontrivial = nt > max || scripts.iter().flatten().any(|x| x.0 != usize::MAX);
    let (tx, rx) = std::sync::mpsc::channel();
    let (stop_tx, stop_rx) = tokio::sync::oneshot::channel::<()>();
    let server = std::thread::spawn(move || {
        let rt = rt();
        let local = tokio::task::LocalSet::new();
        local.block_on(&rt, async move {
            let srv = Srv::start(HelloCfg::default(), Frag::default(), move |mut c: Conn| {
                let life = deaths[c.index % deaths.len()];
                let first = c.index;
                async move {
                    c.greet().await?;
                    let mut n = 0;
                    loop {
                        let p = match c.recv().await {
                            Ok(p) => p,
                            Err(RecvErr::Bad(e)) => return Err(RecvErr::Bad(e)),
                            Err(_) => return Ok(()),
                        };
                        n += 1;
                        if n > life && first < 8 {
                            c.kill(false).await;
                            return Ok(());
                        }
                        match p {
                            CPkt::Ping => {
                                c.send(&pong()).await;
                            }
                            CPkt::Cancel => {}
                            CPkt::Query(q) => {
                                match c.expect_end().await {
                                    Ok(()) => {}
                                    Err(RecvErr::Bad(e)) => return Err(RecvErr::Bad(e)),
                                    Err(_) => return Ok(()),
                                }
                                let id = digits(&q.sql, 'Q').unwrap_or(0);
                                let mut b = data_packet(&result_blk(id, 0, 0, 0).header().encode(&EncOpts::default()), false, None);
                                for i in 0..3 {
                                    b.extend(data_packet(&result_blk(id, i, 1, 0).encode(&EncOpts::default()), false, None));
                                }
                                b.extend(eos());
                                c.send(&b).await;
                            }
                            p => return Err(RecvErr::Bad(format!("{} packet between operations", p.tag()))),
                        }
                    }
                }
            })
            .await;
            let _ = tx.send(srv.addr);
            let _ = stop_rx.await;
            srv.errors()
        })
    });
    let addr = rx.recv().map_err(|e| e.to_string())?;
    let url = format!("tcp://{addr}/?connection_timeout=60s&ping_timeout=60s&query_timeout=60s&retry_timeout=1ms&send_retries=20&ping_before_query={ping}&pool_min={min}&pool_max={max}");
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().map_err(|e| e.to_string())?;
    let held = Arc::new(AtomicUsize::new(0));
    let worst = Arc::new(AtomicUsize::new(0));
    let r: Res = rt.block_on(async {
        let pool = Pool::new(url);
        let mut tasks = vec![];
        for (t, sc) in scripts.into_iter().enumerate() {
            let (pool, held, worst) = (pool.clone(), held.clone(), worst.clone());
            tasks.push(tokio::spawn(async move {
                for (i, (polls, what, yields)) in sc.into_iter().enumerate() {
                    let get = Box::pin(pool.get_handle());
                    let got = if polls == usize::MAX { Some(get.await) } else { PollN(Some(get), polls).await };
                    let mut h = match got {
                        None => continue,
                        Some(Ok(h)) => h,
                        Some(Err(_)) => continue,
                    };
                    let n = held.fetch_add(1, SeqCst) + 1;
                    worst.fetch_max(n, SeqCst);
                    for _ in 0..yields {
                        tokio::task::yield_now().await;
                    }
                    let id = (t * 100 + i) as u64 + 1;
                    let sql = format!("SELECT Q{id}");
                    let want: Vec<u64> = (0..3).map(|k| id * 1000 + k).collect();
                    match what {
                        0 => {}
                        1 => {
                            // given up in the middle
                            let n = PollN(Some(Box::pin(h.query(sql.as_str()).fetch_all())), 3).await;
                            if let Some(Ok(b)) = n {
                                if values(&b).unwrap_or_default() != want {
                                    return err(format!("query {id} returned {:?}", values(&b)));
                                }
                            }
                        }
                        2 => {
                            let mut st = h.query(sql.as_str()).stream_blocks();
                            if let Some(Ok(b)) = st.next().await {
                                let v = values(&b).unwrap_or_default();
                                if !want.starts_with(&v) {
                                    return err(format!("query {id} returned {v:?}"));
                                }
                            }
                        }
                        _ => {
                            if let Ok(b) = h.query(sql.as_str()).fetch_all().await {
                                if values(&b).unwrap_or_default() != want {
                                    return err(format!("query {id} returned {:?}", values(&b)));
                                }
                            }
                        }
                    }
                    held.fetch_sub(1, SeqCst);
                    drop(h);
                }
                Ok::<(), String>(())
            }));
        }
        let all = async {
            for t in tasks {
                t.await.map_err(|e| format!("a task died: {e}"))??;
            }
            Ok::<(), String>(())
        };
        match tokio::time::timeout(Duration::from_secs(30), all).await {
            Ok(r) => r?,
            Err(_) => return err(format!("HANG: tasks are still waiting after 30 s ({pool:?})")),
        }
        // the whole capacity is there
        let gets: Vec<_> = (0..max).map(|_| pool.get_handle()).collect();
        let hs = match tokio::time::timeout(Duration::from_secs(30), futures_util::future::join_all(gets)).await {
            Ok(v) => v,
            Err(_) => return err(format!("HANG: the pool at rest does not hand out {max} connections ({pool:?})")),
        };
        if let Some(Err(e)) = hs.iter().find(|h| h.is_err()) {
            return err(format!("the pool at rest failed to connect: {e:?}"));
        }
        Ok(())
    });
    rt.shutdown_background();
    let _ = stop_tx.send(());
    let errors = server.join().map_err(|_| "the server died".to_string())?;
    r?;
    if let Some(e) = errors.iter().find(|e| e.contains("Bad")) {
        return err(format!("the server saw {e}"));
    }
    let worst = worst.load(SeqCst);
    if calm && worst > max {
        return err(format!("{worst} handles were held at once, the pool allows {max}"));
    }
    Ok(())
}
pub static C11: Prop = Prop {
    id: "C11",
    rule: "a request had to wait, was given up or failed, or a connection was lost or abandoned; distinct by the recorded choices",
    level: "exploration",
    assumptions: &["connections are counted as sockets of this process connected to the case's own server address", "a pool's maximum is at least one"],
    checks: &[
        Check { name: "history", what: "histories of requests, cancellations, failed connects, operations with faults, releases and lost connections, with the open sockets counted after every poll, and the whole capacity requested at the end", quick: 15000, thorough: 1000000, threads: 24, f: c11_history },
        Check { name: "threads", what: "two to eight tasks on real threads acquire, give up, query, drop streams and release; afterwards the whole capacity is requested", quick: 8000, thorough: 160000, threads: 4, f: c11_threads },
    ],
    findings: &[],
};

// ------------------------------------------------------------------ C20
fn c20_failover(g: &mut Src) -> Res {
    let nh = g.usize(1, 4);
    let dead: Vec<bool> = (0..nh).map(|_| g.chance(1, 4)).collect();
    let retries = g.usize(0, 5);
    let retry_ms = *g.pick(&[0u64, 1, 50, 5000]);
    let pooled = g.chance(4, 5);
    let rounds = g.usize(1, 5);
    let ping = g.chance(3, 4);
    let max = g.usize(1, 3);
    let mut log = vec![format!(
        "{nh} hosts, of which dead: {dead:?}; send_retries {retries}, retry_timeout {retry_ms} ms, {}, ping_before_query {ping}",
        if pooled { "pool" } else { "no pool" }
    )];
    let mut disturbed = false;
    let r = virtual_time(10_000_000, async {
        let w = world();
        let mut srvs = vec![];
        let mut addrs = vec![];
        for (i, d) in dead.iter().enumerate() {
            if *d {
                let l = bind().await.map_err(|e| e.to_string())?;
                addrs.push(l.local_addr().map_err(|e| e.to_string())?);
                srvs.push(None);
            } else {
                let s = start(&w, i).await;
                addrs.push(s.addr);
                srvs.push(Some(s));
            }
        }
        let mut url = format!(
            "tcp://{}/?connection_timeout=3s&ping_timeout=1s&query_timeout=100000s&insert_timeout=100000s&execute_timeout=100000s&retry_timeout={retry_ms}ms&send_retries={retries}&ping_before_query={ping}&pool_min=0&pool_max={max}",
            addrs[0]
        );
        if nh > 1 {
            let alt: Vec<String> = addrs[1..].iter().map(|a| a.to_string()).collect();
            url += &format!("&alt_hosts={}", alt.join(","));
        }
        let pool = Pool::new(url.as_str());
        let opts: clickhouse_rs::Options = url.parse().map_err(|e| format!("{url}: {e}"))?;
        // hosts used by connection attempts, in order
        let used: Vec<usize> = if pooled { (0..nh).collect() } else { vec![0] };
        let mut at = 0; // attempts so far
        let mut seen = 0; // of which arrived
        let mut h: Option<(ClientHandle, bool)> = None;
        let mut id = 0;
        macro_rules! arrived {
            // the attempts that arrived since `seen` are those of the rotation, dead hosts left out
            ($attempts:expr, $what:expr) => {
                spin(2).await;
                let acc: Vec<usize> = w.borrow().accepted.iter().map(|a| a.0).collect();
                let want: Vec<usize> = (at..at + $attempts).map(|i| used[i % used.len()]).filter(|i| !dead[*i]).collect();
                if acc[seen..] != want[..] {
                    return err(format!("{}: connections were made to the hosts {:?}, expected {want:?}", $what, &acc[seen..]));
                }
                at += $attempts;
                seen = acc.len();
            };
        }
        for _ in 0..rounds {
            // what the next connections will meet
            let k = g.usize(0, retries + 2);
            for _ in 0..k {
                let p = *g.pick(&[CPlan::Close(false), CPlan::Close(true), CPlan::Refuse, CPlan::Mute, CPlan::Garbage, CPlan::Dies, CPlan::Deaf, CPlan::Good]);
                w.borrow_mut().conns.push_back(p);
            }
            log.push(format!("next connections: {:?}", w.borrow().conns));
            if h.is_none() {
                let host = used[at % used.len()];
                let next = if dead[host] { CPlan::Close(true) } else { w.borrow().conns.front().copied().unwrap_or(CPlan::Good) };
                let connects = matches!(next, CPlan::Good | CPlan::Dies | CPlan::Deaf);
                log.push(format!("connect (host {host})"));
                #[allow(deprecated)]
                let r = if pooled { pool.get_handle().await } else { clickhouse_rs::Client::connect(opts.clone()).await };
                arrived!(1, "connecting");
                match r {
                    Ok(_) if !connects => return err(format!("connected to a server that does {next:?}")),
                    Err(e) if connects => return err(format!("connecting failed with {e:?}, although the server is there")),
                    Err(e) => {
                        log.push(format!("  {e:?}"));
                        disturbed = true;
                        continue;
                    }
                    Ok(c) => h = Some((c, next == CPlan::Good)),
                }
            }
            if g.chance(1, 2) {
                let rst = g.bool();
                log.push(format!("all connections are closed{}", if rst { " (reset)" } else { "" }));
                kill_all(&w, rst);
                h.as_mut().unwrap().1 = false;
                spin(g.usize(0, 4)).await;
                disturbed = true;
            }
            id += 1;
            let kind = if ping { *g.pick(&[Kind::Fetch, Kind::Rows, Kind::Blocks, Kind::Execute, Kind::Insert, Kind::Check]) } else { Kind::Check };
            let op = HOp { id, kind, take: None, quit: Quit::No, ins: g.usize(0, 3) };
            let plan = QPlan { blocks: vec![2, 1], fault: Fault::No, cancel: OnCancel::End, pace: (g.usize(0, 2), 0), pad: 0, piece: 0 };
            log.push(show(&op, &plan));
            w.borrow_mut().plans.insert(id, plan);
            let (c, alive) = h.as_mut().unwrap();
            // the first attempt that reaches a working server
            let queue: Vec<CPlan> = w.borrow().conns.iter().copied().collect();
            let mut q = queue.into_iter();
            let mut outcomes = vec![];
            if !*alive {
                for i in 0..retries + 1 {
                    let p = if dead[used[(at + i) % used.len()]] { CPlan::Close(true) } else { q.next().unwrap_or(CPlan::Good) };
                    outcomes.push(p);
                    if p == CPlan::Good {
                        break;
                    }
                }
            }
            let good = outcomes.last() == Some(&CPlan::Good) || *alive;
            let needed = outcomes.len();
            let must = *alive || (good && needed <= retries);
            let o = run_op(c, &op).await;
            judge(&op, &o, &w.borrow(), must.then_some("an attempt within the limit reaches a working server"))?;
            match &o {
                Outcome::Ok(_) => {
                    log.push("  ok".into());
                    if !good {
                        return err(format!("{} succeeded after the attempts {outcomes:?}", show(&op, &w.borrow().plans[&id])));
                    }
                    arrived!(needed, "reconnecting");
                    *alive = true;
                }
                Outcome::Err(e, _) => {
                    log.push(format!("  {e:?}"));
                    disturbed = true;
                    if dead.iter().any(|d| *d) {
                        // attempts at dead hosts cannot be counted: only too many of them can be seen
                        spin(2).await;
                        let n = w.borrow().accepted.len() - seen;
                        if n > retries + 1 {
                            return err(format!("{n} connections were made with send_retries {retries}"));
                        }
                        return Ok(());
                    }
                    spin(2).await;
                    let n = w.borrow().accepted.len() - seen;
                    if n > retries + 1 || n < retries {
                        return err(format!("gave up after {n} connections with send_retries {retries}"));
                    }
                    arrived!(n, "reconnecting in vain");
                    *alive = false;
                }
                o => return err(format!("{o:?}")),
            }
            for s in srvs.iter().flatten() {
                protocol(s)?;
            }
            if g.chance(1, 4) {
                log.push("release".into());
                h = None;
            }
        }
        Ok(())
    });
    g.nontrivial = disturbed;
    if dead.iter().any(|d| *d) {
        g.label("dead hosts");
    }
    if !pooled {
        g.label("no pool");
    }
    g.say(log.join("\n  "));
    r
}
pub static C20: Prop = Prop {
    id: "C20",
    rule: "a connection was lost or an attempt failed; distinct by the recorded choices",
    level: "fault_enumeration",
    assumptions: &[
        "send_retries = n allows n or n + 1 reconnections before giving up (the driver makes one more when the last attempt could not connect)",
        "a handle made without a pool only knows the main host",
    ],
    checks: &[
        Check { name: "failover", what: "one to four hosts, any of them dead, with a scripted outcome for every connection attempt; operations on live and dead handles; every attempt compared with the rotation and the retry limit", quick: 40000, thorough: 1500000, threads: 24, f: c20_failover },
    ],
    findings: &[],
};

// ------------------------------------------------------------------ C21
/// milliseconds; None is for ever
type Delay = Option<u64>;
#[derive(Clone, Debug)]
struct TConn {
    /// None closes the connection instead of answering
    hello: Option<Delay>,
    pong: Delay,
}
#[derive(Clone, Debug)]
struct TStep {
    delay: Delay,
    /// half of the packet is sent before the delay
    half: bool,
}
#[derive(Clone, Debug)]
struct TPlan {
    insert: bool,
    /// before every packet of the answer; for an insert the second one passes before the data is read
    steps: Vec<TStep>,
}
#[derive(Default)]
struct TWorld {
    conns: VecDeque<TConn>,
    plans: BTreeMap<u64, TPlan>,
    accepted: usize,
}
async fn t_wait(c: &mut Conn, d: Delay) -> bool {
    match d {
        Some(0) => true,
        Some(n) => {
            tokio::time::sleep(ms(n)).await;
            true
        }
        None => {
            // never reads either: only the end of the case or of the connection is left
            let _ = c;
            std::future::pending::<()>().await;
            false
        }
    }
}
async fn t_serve(mut c: Conn, w: Rc<RefCell<TWorld>>) -> Result<(), RecvErr> {
    let plan = {
        let mut x = w.borrow_mut();
        x.accepted += 1;
        x.conns.pop_front().unwrap_or(TConn { hello: Some(Some(0)), pong: Some(0) })
    };
    match plan.hello {
        None => {
            c.kill(false).await;
            return Ok(());
        }
        Some(d) => {
            if !t_wait(&mut c, d).await {
                return Ok(());
            }
            if c.greet().await.is_err() {
                return Ok(());
            }
        }
    }
    loop {
        let p = match c.recv().await {
            Ok(p) => p,
            Err(RecvErr::Bad(e)) => return Err(RecvErr::Bad(e)),
            Err(_) => return Ok(()),
        };
        match p {
            CPkt::Ping => {
                if !t_wait(&mut c, plan.pong).await || !c.send(&pong()).await {
                    return Ok(());
                }
            }
            CPkt::Cancel => {}
            CPkt::Query(q) => {
                let word = if q.sql.starts_with("INSERT") { q.sql.split_whitespace().nth(2).unwrap_or("") } else { q.sql.as_str() };
                let id = match digits(word, if q.sql.starts_with("INSERT") { 'T' } else { 'Q' }) {
                    Some(i) => i,
                    None => return Err(RecvErr::Bad(format!("query {:?}", q.sql))),
                };
                if let Err(e) = c.expect_end().await {
                    return if matches!(e, RecvErr::Bad(_)) { Err(e) } else { Ok(()) };
                }
                let mut p = w.borrow().plans[&id].clone();
                if p.insert {
                    // two steps for each piece
                    let rest = p.steps.split_off(2.min(p.steps.len()));
                    if !rest.is_empty() {
                        w.borrow_mut().plans.insert(id, TPlan { insert: true, steps: rest });
                    }
                }
                let n = p.steps.len();
                for (k, st) in p.steps.iter().enumerate() {
                    let b = if k + 1 == n {
                        eos()
                    } else if p.insert {
                        data_packet(&Blk { cols: vec![Col { name: "v".into(), ty: Ty::Str, vals: vec![] }] }.encode(&EncOpts::default()), c.compress, None)
                    } else if k == 0 {
                        data_packet(&result_blk(id, 0, 0, 0).header().encode(&EncOpts::default()), c.compress, None)
                    } else {
                        data_packet(&result_blk(id, k - 1, 1, 0).encode(&EncOpts::default()), c.compress, None)
                    };
                    let half = if st.half && b.len() > 1 { b.len() / 2 } else { 0 };
                    if half > 0 && !c.send(&b[..half]).await {
                        return Ok(());
                    }
                    if !t_wait(&mut c, st.delay).await {
                        return Ok(());
                    }
                    if p.insert && k + 1 == n {
                        match c.read_insert().await {
                            Ok(_) => {}
                            Err(RecvErr::Bad(e)) => return Err(RecvErr::Bad(e)),
                            Err(_) => return Ok(()),
                        }
                    }
                    if !c.send(&b[half..]).await {
                        return Ok(());
                    }
                }
            }
            p => return Err(RecvErr::Bad(format!("{} packet between operations", p.tag()))),
        }
    }
}
const FAR_MS: u64 = 40 * 86_400_000;
const SLACK: u64 = 20;
fn is_timeout(e: &Error) -> bool {
    match e {
        Error::Driver(DriverError::Timeout) => true,
        Error::Io(e) => e.kind() == std::io::ErrorKind::TimedOut,
        _ => false,
    }
}
/// the limits of one configuration; None is no limit
#[derive(Clone, Debug)]
struct Limits {
    conn: u64,
    ping: u64,
    query: u64,
    insert: Option<u64>,
    execute: Option<u64>,
    retry: u64,
    retries: usize,
    check: bool,
}
fn gen_delay(g: &mut Src, near: &[u64]) -> Delay {
    match g.weighted(&[10, 4, 5, 1, 2]) {
        0 => Some(0),
        1 => Some(g.below(60)),
        2 => {
            let l = *g.pick(near);
            let d = *g.pick(&[50u64, 100, 400]);
            Some(if g.bool() { l.saturating_sub(d) } else { l + d })
        }
        3 => Some(*g.pick(near) * 2),
        _ => None,
    }
}
fn close_to(a: u64, b: u64) -> bool {
    a.abs_diff(b) <= SLACK
}
fn c21_limits(g: &mut Src) -> Res {
    let few = |g: &mut Src, def: u64| -> (Option<u64>, u64) {
        if g.chance(1, 3) {
            (None, def)
        } else {
            let v = *g.pick(&[100u64, 250, 900, 3000, 45_000, 7_200_000]);
            (Some(v), v)
        }
    };
    let (u_conn, conn) = few(g, 500);
    let (u_ping, ping) = few(g, 500);
    let (u_query, query) = few(g, 180_000);
    let (u_ins, ins) = few(g, 180_000);
    let (u_exe, exe) = few(g, 180_000);
    let (u_retry, retry) = few(g, 5000);
    let retries = if g.bool() { 0 } else { g.usize(1, 3) };
    let check = g.bool();
    let no_ins = g.chance(1, 6);
    let no_exe = g.chance(1, 6);
    let lim = Limits {
        conn,
        ping,
        query,
        insert: if no_ins { None } else { Some(ins) },
        execute: if no_exe { None } else { Some(exe) },
        retry,
        retries,
        check,
    };
    let pooled = g.chance(2, 3);
    let builder = g.bool();
    let rounds = g.usize(1, 4);
    let mut log = vec![format!("{lim:?}, {}, options by {}", if pooled { "pool" } else { "no pool" }, if builder { "builder" } else { "URL" })];
    let mut notable = false;
    let mut unclear = false;
    let r = virtual_time(1_000_000_000, async {
        let w: Rc<RefCell<TWorld>> = Default::default();
        let w2 = w.clone();
        let srv = Srv::start(HelloCfg::default(), Frag::default(), move |c| t_serve(c, w2.clone())).await;
        let mut url = format!("tcp://{}/?send_retries={retries}&ping_before_query={check}", srv.addr);
        let mut o: clickhouse_rs::Options;
        if builder {
            o = url.parse().map_err(|e| format!("{url}: {e}"))?;
            if let Some(v) = u_conn {
                o = o.connection_timeout(ms(v));
            }
            if let Some(v) = u_ping {
                o = o.ping_timeout(ms(v));
            }
            if let Some(v) = u_query {
                o = o.query_timeout(ms(v));
            }
            if let Some(v) = u_retry {
                o = o.retry_timeout(ms(v));
            }
            if u_ins.is_some() || no_ins {
                o = o.insert_timeout(lim.insert.map(ms));
            }
            if u_exe.is_some() || no_exe {
                o = o.execute_timeout(lim.execute.map(ms));
            }
        } else {
            let t = |v: u64| if v % 1000 == 0 { format!("{}s", v / 1000) } else { format!("{v}ms") };
            for (k, v) in [("connection", u_conn), ("ping", u_ping), ("query", u_query), ("retry", u_retry)] {
                if let Some(v) = v {
                    url += &format!("&{k}_timeout={}", t(v));
                }
            }
            for (k, v, no) in [("insert", u_ins, no_ins), ("execute", u_exe, no_exe)] {
                if no {
                    url += &format!("&{k}_timeout=none");
                } else if let Some(v) = v {
                    url += &format!("&{k}_timeout={}", t(v));
                }
            }
            o = url.parse().map_err(|e| format!("{url}: {e}"))?;
        }
        let mut pool = Pool::new(o.clone());
        let t0 = Instant::now();
        let now = || t0.elapsed().as_millis() as u64;
        let mut h: Option<ClientHandle> = None;
        let mut cur = TConn { hello: Some(Some(0)), pong: Some(0) };
        // when the server has finished what it is sending
        let mut free: Delay = Some(0);
        for id in 1..=rounds as u64 {
            let gen_conn = |g: &mut Src, calm: bool| TConn {
                hello: if !calm && g.chance(1, 10) { None } else { Some(if calm { Some(0) } else { gen_delay(g, &[lim.conn]) }) },
                pong: if g.bool() { Some(0) } else { gen_delay(g, &[lim.ping]) },
            };
            // connections made at the last moment of the operation before
            spin(10).await;
            if h.is_none() {
                let calm = g.chance(2, 3);
                let c = gen_conn(g, calm);
                w.borrow_mut().conns = VecDeque::from(vec![c.clone()]);
                log.push(format!("connect, server {c:?}"));
                let s = now();
                #[allow(deprecated)]
                let f = async {
                    if pooled {
                        pool.get_handle().await
                    } else {
                        clickhouse_rs::Client::connect(o.clone()).await
                    }
                };
                let r = tokio::time::timeout(ms(FAR_MS), f).await.map_err(|_| "connecting is still waiting after 40 days".to_string())?;
                let took = now() - s;
                log.push(format!("  {} after {took} ms", match &r { Ok(_) => "ok".into(), Err(e) => format!("{e:?}") }));
                match (c.hello, r) {
                    (None, Ok(_)) => return err("connected to a server that closed the connection"),
                    (None, Err(_)) if took > SLACK => return err("the closed connection was noticed late"),
                    (None, Err(_)) => continue,
                    (Some(Some(d)), _) if close_to(d, lim.conn) => {
                        unclear = true;
                        return Ok(());
                    }
                    (Some(Some(d)), r) if d < lim.conn => {
                        let x = r.map_err(|e| format!("connecting failed with {e:?} after {took} ms, the limit is {} ms and the greeting takes {d} ms", lim.conn))?;
                        if !close_to(took, d) {
                            return err(format!("connecting took {took} ms, the greeting takes {d} ms"));
                        }
                        h = Some(x);
                        cur = c;
                        free = Some(now());
                    }
                    (Some(d), Ok(_)) => return err(format!("connected after {took} ms, the limit is {} ms and the greeting takes {d:?} ms", lim.conn)),
                    (Some(_), Err(e)) => {
                        notable = true;
                        if !is_timeout(&e) {
                            return err(format!("connecting ended with {e:?} instead of a timeout"));
                        }
                        if !close_to(took, lim.conn) {
                            return err(format!("connecting ended after {took} ms, the limit is {} ms", lim.conn));
                        }
                        continue;
                    }
                }
            }
            let c = h.as_mut().unwrap();
            let kind = *g.pick(&[Kind::Fetch, Kind::Rows, Kind::Blocks, Kind::Execute, Kind::Insert, Kind::Ping, Kind::Check]);
            let own = match kind {
                Kind::Fetch => Some(lim.query),
                Kind::Execute => lim.execute,
                Kind::Insert => lim.insert,
                Kind::Ping => Some(lim.ping),
                _ => None,
            };
            let probe = matches!(kind, Kind::Ping | Kind::Check);
            let stream = matches!(kind, Kind::Rows | Kind::Blocks);
            // the plan of the answer
            let mut near = vec![lim.query, lim.ping, lim.conn, exe, ins];
            if let Some(l) = own {
                near.extend([l; 6]);
            }
            let pieces = if kind == Kind::Insert && hook::on() && g.bool() { g.usize(2, 4) } else { 1 };
            let n = if kind == Kind::Insert { 2 * pieces } else { g.usize(2, 5) };
            let steps: Vec<TStep> = (0..n)
                .map(|k| TStep { delay: if g.bool() { Some(0) } else { gen_delay(g, &near) }, half: g.chance(1, 3) && !(kind == Kind::Insert && k % 2 == 1) })
                .collect();
            let take = if stream && n > 2 && g.chance(1, 3) { Some(g.usize(1, 2).min(n - 2)) } else { None };
            if !probe {
                w.borrow_mut().plans.insert(id, TPlan { insert: kind == Kind::Insert, steps: steps.clone() });
            }
            let next: Vec<TConn> = (0..retries + 1).map(|_| gen_conn(g, false)).collect();
            w.borrow_mut().conns = VecDeque::from(next.clone());
            let big = if kind == Kind::Insert && g.chance(1, 40) { 24_000_000 } else { g.usize(0, 20) };
            let what = format!(
                "{kind:?}#{id}{}{}",
                if probe { String::new() } else { format!(" steps {:?}", steps.iter().map(|s| (s.delay, s.half)).collect::<Vec<_>>()) },
                take.map(|t| format!(" dropped after {t}")).unwrap_or_default()
            );
            log.push(format!("{what}; connection {cur:?}, busy until {free:?}, now {}; next connections {next:?}", now()));
            // ---- what has to happen
            let start = now();
            let mut t = start;
            let mut fails = false; // the connection check
            let mut used = 0;
            let mut back = cur.clone();
            let mut back_free = free;
            let mut pauses = 0;
            let checked = kind == Kind::Check || (lim.check && kind != Kind::Ping);
            let pong_of = |c: &TConn, free: Delay, t: u64| -> Delay { Some(free?.max(t) - t + c.pong?) };
            if checked {
                let mut connected = true;
                loop {
                    if connected {
                        match pong_of(&back, back_free, t) {
                            Some(d) if close_to(d, lim.ping) => {
                                unclear = true;
                                return Ok(());
                            }
                            Some(d) if d < lim.ping => {
                                t += d;
                                break;
                            }
                            _ => t += lim.ping,
                        }
                    }
                    if used == retries {
                        fails = true;
                        break;
                    }
                    let p = next[used].clone();
                    used += 1;
                    connected = match p.hello {
                        None => false,
                        Some(Some(d)) if close_to(d, lim.conn) => {
                            unclear = true;
                            return Ok(());
                        }
                        Some(Some(d)) if d < lim.conn => {
                            t += d;
                            true
                        }
                        _ => {
                            t += lim.conn;
                            false
                        }
                    };
                    if connected {
                        back = p;
                        back_free = Some(t);
                    } else {
                        t += lim.retry;
                        pauses += 1;
                    }
                }
            }
            let _ = pauses;
            let needed: Delay = if kind == Kind::Ping {
                pong_of(&cur, free, start).map(|d| start + d)
            } else if kind == Kind::Check {
                Some(t)
            } else {
                // with the check done the connection is at rest
                let begin = if checked { Some(t) } else { free.map(|f| f.max(t)) };
                begin.and_then(|b| steps.iter().try_fold(b, |a, s| Some(a + s.delay?)))
            };
            // ---- what happens
            let got: Rc<RefCell<usize>> = Default::default();
            let g2 = got.clone();
            let f = async {
                let sql = format!("SELECT Q{id}");
                match kind {
                    Kind::Fetch => c.query(sql).fetch_all().await.map(|b| *g2.borrow_mut() = b.row_count()),
                    Kind::Execute => c.execute(sql).await,
                    Kind::Insert => {
                        let _l = hook::Limit::set(if pieces > 1 { 1 } else { 0 });
                        let mut v = vec![String::new(); pieces];
                        v[pieces - 1] = "x".repeat(big);
                        c.insert(format!("T{id}"), Block::new().column("v", v)).await
                    }
                    Kind::Ping => c.ping().await,
                    Kind::Check => c.check_connection().await,
                    Kind::Blocks => {
                        let mut st = c.query(sql).stream_blocks();
                        loop {
                            if take == Some(*g2.borrow()) {
                                return Ok(());
                            }
                            match st.next().await {
                                None => return Ok(()),
                                Some(Err(e)) => return Err(e),
                                Some(Ok(b)) => *g2.borrow_mut() += b.row_count(),
                            }
                        }
                    }
                    Kind::Rows => {
                        let mut st = c.query(sql).stream();
                        loop {
                            if take == Some(*g2.borrow()) {
                                return Ok(());
                            }
                            match st.next().await {
                                None => return Ok(()),
                                Some(Err(e)) => return Err(e),
                                Some(Ok(_)) => *g2.borrow_mut() += 1,
                            }
                        }
                    }
                }
            };
            let r = tokio::time::timeout(ms(FAR_MS), f).await;
            let took = now() - start;
            let got = *got.borrow();
            log.push(format!("  {} after {took} ms, {got} rows", match &r {
                Err(_) => "still waiting".into(),
                Ok(Ok(_)) => "ok".into(),
                Ok(Err(e)) => format!("{e:?}"),
            }));
            let needed = needed.filter(|n| n - start < FAR_MS);
            // ---- compare
            let bound = (retries as u64 + 2) * (lim.ping + lim.conn + lim.retry);
            let own_txt = own.map(|l| format!("{l} ms")).unwrap_or("none".into());
            if let Some(l) = own {
                if took > l + SLACK {
                    return err(format!("{what} ended after {took} ms, its limit is {l} ms"));
                }
                if needed.is_some_and(|n| close_to(n - start, l)) || (checked && close_to(t - start, l)) {
                    unclear = true;
                    return Ok(());
                }
                if !fails && !needed.is_some_and(|n| n - start < l) || fails && t - start > l + bound {
                    // its own limit decides
                    notable = true;
                    match r {
                        Ok(Err(e)) if is_timeout(&e) && close_to(took, l) => {}
                        Ok(Err(e)) => return err(format!("{what} ended with {e:?} after {took} ms, its limit is {l} ms")),
                        Ok(Ok(_)) => return err(format!("{what} succeeded after {took} ms, although its answer takes until {needed:?}")),
                        Err(_) => return err(format!("{what} never ended")),
                    }
                    // what is left of the connection is not judged here
                    h = None;
                    pool = Pool::new(o.clone());
                    continue;
                }
            }
            if fails {
                notable = true;
                match r {
                    Ok(Err(_)) if took <= bound + SLACK => {}
                    // one attempt more than counted got through, then its own limit
                    Ok(Err(e)) if own.is_some_and(|l| close_to(took, l)) && is_timeout(&e) => {}
                    Ok(Err(e)) => return err(format!("{what}: the check of the connection gave up with {e:?} after {took} ms")),
                    // one attempt more than counted
                    Ok(Ok(_)) if retries < w.borrow().accepted => {}
                    Ok(Ok(_)) => return err(format!("{what} succeeded, although no attempt answered the ping in time")),
                    Err(_) => {
                        // something without a limit may have got through with one attempt more
                        if own.is_some() || probe {
                            return err(format!("{what}: the check of the connection never ended"));
                        }
                    }
                }
                h = None;
                pool = Pool::new(o.clone());
                continue;
            }
            match (needed, r) {
                (None, Err(_)) => {
                    // nothing limits it
                    notable = true;
                    if !stream && own.is_some() {
                        return err(format!("{what} never ended, its limit is {own_txt}"));
                    }
                    return Ok(());
                }
                (None, Ok(Ok(()))) if take.is_some() => {
                    // the part that was taken came in time
                    let mut at = if checked { Some(t) } else { free.map(|f| f.max(t)) };
                    let mut have = 0;
                    for (k, s) in steps.iter().enumerate() {
                        if take == Some(have) {
                            break;
                        }
                        at = at.and_then(|a| Some(a + s.delay?));
                        if k > 0 && k + 1 < steps.len() {
                            have += 1;
                        }
                    }
                    match at {
                        Some(a) if close_to(a, start + took) => {}
                        a => return err(format!("{what} had {have} rows after {took} ms, they were sent at {a:?}, started at {start}")),
                    }
                    cur = back;
                    free = None;
                }
                (None, Ok(r)) => return err(format!("{what} ended with {r:?} after {took} ms, although the server never answered; its limit is {own_txt}")),
                (Some(_), Err(_)) => return err(format!("{what} is still waiting after 40 days")),
                (Some(n), Ok(Err(e))) => {
                    return err(format!("{what} failed with {e:?} after {took} ms, although the server answered within {} ms and its limit is {own_txt}", n - start))
                }
                (Some(n), Ok(Ok(()))) => {
                    cur = back;
                    if let Some(tk) = take {
                        // the server is still sending
                        free = Some(n);
                        if got != tk {
                            return err(format!("{what} returned {got} rows"));
                        }
                        if took > n - start + SLACK {
                            return err(format!("{what} took {took} ms, the server answered within {} ms", n - start));
                        }
                        if n - start > took + SLACK {
                            notable = true;
                        }
                    } else {
                        free = Some(now());
                        if !close_to(took, n - start) {
                            return err(format!("{what} took {took} ms, the server answered within {} ms", n - start));
                        }
                        if n - start > 20 {
                            notable = true;
                        }
                    }
                }
            }
        }
        if let Some(e) = srv.errors().first() {
            return err(format!("the server saw {e}"));
        }
        Ok(())
    });
    if unclear {
        g.label("too close to a limit to tell");
    }
    g.nontrivial = notable;
    g.say(log.join("\n  "));
    r
}
pub static C21: Prop = Prop {
    id: "C21",
    rule: "a limit ended an operation, or an operation took longer than 20 ms and was left alone; distinct by the recorded choices",
    level: "exploration",
    assumptions: &[
        "time is tokio's paused clock: the limits are measured exactly, the margin is 20 ms",
        "cases whose delay is within the margin of the limit are not judged",
    ],
    checks: &[
        Check { name: "limits", what: "generated limits (by URL, builder or default) against a server that delays the greeting, the pong and every packet by generated times or for ever; the end of each operation is compared with the one computed from the plan", quick: 40000, thorough: 2000000, threads: 24, f: c21_limits },
    ],
    findings: &[],
};
