//! Scripted ClickHouse server on loopback. It parses every client packet strictly with the oracle's
//! own codec, so a stray, missing or malformed byte from the client is an error of the connection.

use crate::gen::Src;
use crate::model::*;
use crate::wire::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::net::SocketAddr;
use std::rc::Rc;
use std::sync::atomic::{AtomicU32, Ordering};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};

pub const REV: u64 = 54429;

#[derive(Clone, Debug, PartialEq)]
pub struct ClientHello {
    pub name: String,
    pub major: u64,
    pub minor: u64,
    pub rev: u64,
    pub db: String,
    pub user: String,
    pub pass: String,
}
#[derive(Clone, Debug, PartialEq)]
pub enum SettingV {
    /// revision >= 54429: text and importance flag
    Text(String, bool),
    /// older: raw typed encoding is ambiguous without the name, see `old_settings`
    Old(Vec<u8>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct QueryPkt {
    pub outer_id: String,
    pub kind: u64,
    pub initial_user: String,
    pub initial_id: String,
    pub initial_addr: String,
    pub interface: u64,
    pub os_user: String,
    pub hostname: String,
    pub client: String,
    pub major: u64,
    pub minor: u64,
    pub rev: u64,
    pub quota: Option<String>,
    pub patch: Option<u64>,
    pub settings: Vec<(String, SettingV)>,
    pub stage: u64,
    pub compress: bool,
    pub sql: String,
}
#[derive(Clone, Debug, PartialEq)]
pub enum CPkt {
    Hello(ClientHello),
    Query(Box<QueryPkt>),
    Data(String, Blk),
    Cancel,
    Ping,
}
impl CPkt {
    pub fn tag(&self) -> &'static str {
        match self {
            CPkt::Hello(_) => "Hello",
            CPkt::Query(_) => "Query",
            CPkt::Data(..) => "Data",
            CPkt::Cancel => "Cancel",
            CPkt::Ping => "Ping",
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum RecvErr {
    /// the client closed the connection between packets
    Closed,
    /// it closed in the middle of one
    Partial(usize),
    Bad(String),
    Io(String),
}

/// Kinds of old-style typed settings, needed to read them back.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum OldKind {
    Str,
    Num,
    Float,
}

#[derive(Clone, Debug)]
pub struct HelloCfg {
    pub name: String,
    pub major: u64,
    pub minor: u64,
    pub rev: u64,
    pub tz: String,
    pub display: String,
    pub patch: u64,
    /// kind of each setting for revisions < 54429
    pub old_kinds: Vec<(String, OldKind)>,
}
impl Default for HelloCfg {
    fn default() -> Self {
        HelloCfg {
            name: "ClickHouse".into(),
            major: 20,
            minor: 8,
            rev: 54438,
            tz: "UTC".into(),
            display: "host".into(),
            patch: 3,
            old_kinds: vec![],
        }
    }
}
impl HelloCfg {
    pub fn encode(&self) -> Vec<u8> {
        let mut w = W::new();
        w.uv(0).str(self.name.as_bytes()).uv(self.major).uv(self.minor).uv(self.rev);
        if self.rev >= 54058 {
            w.str(self.tz.as_bytes());
        }
        if self.rev >= 54372 {
            w.str(self.display.as_bytes());
        }
        if self.rev >= 54401 {
            w.uv(self.patch);
        }
        w.0
    }
}

pub fn parse_client(r: &mut R, h: &HelloCfg, compress: bool) -> RRes<CPkt> {
    // the revision in effect is the smaller one
    let rev = h.rev.min(REV);
    match r.uv()? {
        0 => Ok(CPkt::Hello(ClientHello {
            name: r.string()?,
            major: r.uv()?,
            minor: r.uv()?,
            rev: r.uv()?,
            db: r.string()?,
            user: r.string()?,
            pass: r.string()?,
        })),
        1 => {
            let outer_id = r.string()?;
            let kind = r.uv()?;
            if kind != 1 {
                return bad(format!("query kind {kind}"));
            }
            let initial_user = r.string()?;
            let initial_id = r.string()?;
            let initial_addr = r.string()?;
            let interface = r.uv()?;
            let os_user = r.string()?;
            let hostname = r.string()?;
            let client = r.string()?;
            let major = r.uv()?;
            let minor = r.uv()?;
            let crev = r.uv()?;
            let quota = if rev >= 54060 { Some(r.string()?) } else { None };
            let patch = if rev >= 54401 { Some(r.uv()?) } else { None };
            let mut settings = vec![];
            loop {
                let name = r.string()?;
                if name.is_empty() {
                    break;
                }
                if rev >= 54429 {
                    let imp = r.u8()?;
                    if imp > 1 {
                        return bad("importance flag");
                    }
                    settings.push((name, SettingV::Text(r.string()?, imp == 1)));
                } else {
                    let k = match h.old_kinds.iter().find(|(n, _)| *n == name) {
                        Some((_, k)) => *k,
                        None => return bad(format!("unexpected setting {name:?}")),
                    };
                    let p = r.p;
                    match k {
                        OldKind::Str | OldKind::Float => {
                            r.str()?;
                        }
                        OldKind::Num => {
                            r.uv()?;
                        }
                    }
                    settings.push((name, SettingV::Old(r.b[p..r.p].to_vec())));
                }
            }
            let stage = r.uv()?;
            let compress = match r.uv()? {
                0 => false,
                1 => true,
                x => return bad(format!("compression flag {x}")),
            };
            let sql = r.string()?;
            Ok(CPkt::Query(Box::new(QueryPkt {
                outer_id,
                kind,
                initial_user,
                initial_id,
                initial_addr,
                interface,
                os_user,
                hostname,
                client,
                major,
                minor,
                rev: crev,
                quota,
                patch,
                settings,
                stage,
                compress,
                sql,
            })))
        }
        2 => {
            let table = r.string()?;
            if compress {
                // one or more frames; the block must end at a frame boundary
                let mut payload = vec![];
                loop {
                    payload.extend(read_frame(r)?);
                    let mut rr = R::new(&payload);
                    match Blk::decode(&mut rr) {
                        Ok(b) => {
                            if rr.left() != 0 {
                                return bad(format!("{} bytes left over in a compressed block", rr.left()));
                            }
                            return Ok(CPkt::Data(table, b));
                        }
                        Err(RErr::Short) => {
                            if payload.len() < 1 << 20 && r.left() == 0 {
                                // the client always sends one frame per block below 1 MiB
                                return bad("block does not end with its frame");
                            }
                            continue;
                        }
                        Err(e) => return Err(e),
                    }
                }
            } else {
                Ok(CPkt::Data(table, Blk::decode(r)?))
            }
        }
        3 => Ok(CPkt::Cancel),
        4 => Ok(CPkt::Ping),
        x => bad(format!("client packet code {x}")),
    }
}

/// how the server's bytes are cut into segments
#[derive(Clone, Debug, Default)]
pub struct Frag {
    /// segment sizes, used in turn; empty = send everything at once
    pub sizes: Vec<usize>,
    pub idx: usize,
    pub yields: usize,
}
impl Frag {
    pub fn gen(g: &mut Src, total_hint: usize) -> Frag {
        let sizes = match g.below(5) {
            0 => vec![],
            1 => vec![1],
            2 => (0..g.usize(1, 6)).map(|_| g.usize(1, 4)).collect(),
            3 => vec![g.usize(1, total_hint.max(1)), usize::MAX >> 1],
            _ => (0..g.usize(1, 6)).map(|_| g.usize(1, 64)).collect(),
        };
        Frag {
            sizes,
            idx: 0,
            yields: g.usize(1, 3),
        }
    }
}

pub struct Conn {
    pub s: TcpStream,
    buf: Vec<u8>,
    pos: usize,
    pub hello: HelloCfg,
    pub chello: Option<ClientHello>,
    pub compress: bool,
    pub frag: Frag,
    /// total bytes sent; the connection is cut after this many
    pub sent: usize,
    pub cut: Option<(usize, bool)>,
    pub index: usize,
    /// read at most this many bytes at a time, with yields between
    pub slow_read: Option<usize>,
    /// size of one read while a large packet arrives
    pub chunk: usize,
    pub raw_in: usize,
}
impl Conn {
    async fn fill(&mut self) -> Result<bool, RecvErr> {
        if self.pos > 0 && self.pos == self.buf.len() {
            self.buf.clear();
            self.pos = 0;
        }
        if let Some(n) = self.slow_read {
            let mut b = vec![0u8; n];
            let k = self.s.read(&mut b).await.map_err(|e| RecvErr::Io(e.to_string()))?;
            self.buf.extend_from_slice(&b[..k]);
            self.raw_in += k;
            tokio::task::yield_now().await;
            return Ok(k > 0);
        }
        let mut total = 0;
        let k = self.s.read_buf(&mut self.buf).await.map_err(|e| RecvErr::Io(e.to_string()))?;
        total += k;
        if k > 0 {
            // take everything that is already there
            let mut big = vec![0u8; 1 << 16];
            loop {
                match self.s.try_read(&mut big) {
                    Ok(0) => break,
                    Ok(k) => {
                        self.buf.extend_from_slice(&big[..k]);
                        total += k;
                        if k == big.len() && big.len() < 1 << 22 {
                            big.resize(1 << 22, 0);
                        }
                    }
                    Err(_) => break,
                }
            }
        }
        // a large packet: let the client finish before parsing again, parsing restarts from its beginning
        if total > 0 && self.buf.len() - self.pos > 1 << 16 {
            let mut big = vec![0u8; self.chunk];
            let mut idle = 0;
            while idle < 4 {
                tokio::task::yield_now().await;
                match self.s.try_read(&mut big) {
                    Ok(0) => break,
                    Ok(k) => {
                        self.buf.extend_from_slice(&big[..k]);
                        total += k;
                        idle = 0;
                    }
                    Err(_) => idle += 1,
                }
            }
        }
        self.raw_in += total;
        Ok(total > 0)
    }
    pub async fn recv(&mut self) -> Result<CPkt, RecvErr> {
        loop {
            if self.pos < self.buf.len() {
                let mut r = R::new(&self.buf[self.pos..]);
                match parse_client(&mut r, &self.hello, self.compress) {
                    Ok(p) => {
                        let n = r.p;
                        self.pos += n;
                        match &p {
                            CPkt::Hello(h) => self.chello = Some(h.clone()),
                            CPkt::Query(q) => self.compress = q.compress,
                            _ => {}
                        }
                        return Ok(p);
                    }
                    Err(RErr::Short) => {}
                    Err(RErr::Bad(e)) => return Err(RecvErr::Bad(e)),
                }
            }
            if !self.fill().await? {
                return Err(if self.pos == self.buf.len() {
                    RecvErr::Closed
                } else {
                    RecvErr::Partial(self.buf.len() - self.pos)
                });
            }
        }
    }
    pub fn pending(&self) -> usize {
        self.buf.len() - self.pos
    }
    /// send; false when the connection was (or had been) cut
    pub async fn send(&mut self, data: &[u8]) -> bool {
        let mut d = data;
        if let Some((at, rst)) = self.cut {
            if self.sent >= at {
                self.kill(rst).await;
                return false;
            }
            if self.sent + d.len() > at {
                d = &d[..at - self.sent];
            }
            if !self.send_all(d).await {
                return false;
            }
            if self.sent >= at {
                self.kill(rst).await;
                return false;
            }
            return true;
        }
        self.send_all(d).await
    }
    async fn send_all(&mut self, d: &[u8]) -> bool {
        self.sent += d.len();
        if self.frag.sizes.is_empty() {
            return self.s.write_all(d).await.is_ok();
        }
        let mut p = 0;
        while p < d.len() {
            let k = self.frag.sizes[self.frag.idx % self.frag.sizes.len()].max(1).min(d.len() - p);
            self.frag.idx += 1;
            if self.s.write_all(&d[p..p + k]).await.is_err() {
                return false;
            }
            p += k;
            for _ in 0..self.frag.yields {
                tokio::task::yield_now().await;
            }
        }
        true
    }
    pub async fn kill(&mut self, rst: bool) {
        if rst {
            #[allow(deprecated)]
            // dropping the socket resets the connection
            let _ = self.s.set_linger(Some(Duration::from_secs(0)));
            return;
        }
        let _ = self.s.shutdown().await;
    }
    /// bytes of a Data packet carrying this block body
    pub fn data_packet(&self, body: &[u8], g: Option<&mut Src>) -> Vec<u8> {
        data_packet(body, self.compress, g)
    }
    /// standard greeting: true when the client's hello was valid and answered
    pub async fn greet(&mut self) -> Result<(), RecvErr> {
        match self.recv().await? {
            CPkt::Hello(_) => {}
            p => return Err(RecvErr::Bad(format!("{} packet instead of Hello", p.tag()))),
        }
        let b = self.hello.encode();
        if !self.send(&b).await {
            return Err(RecvErr::Closed);
        }
        Ok(())
    }
    /// next Query, answering pings; its end-of-data marker is read too
    pub async fn next_query(&mut self) -> Result<QueryPkt, RecvErr> {
        loop {
            match self.recv().await? {
                CPkt::Ping => {
                    if !self.send(&[4]).await {
                        return Err(RecvErr::Closed);
                    }
                }
                CPkt::Query(q) => {
                    self.expect_end().await?;
                    return Ok(*q);
                }
                CPkt::Cancel => {}
                p => return Err(RecvErr::Bad(format!("unexpected {} packet between operations", p.tag()))),
            }
        }
    }
    pub async fn expect_end(&mut self) -> Result<(), RecvErr> {
        match self.recv().await? {
            CPkt::Data(t, b) if t.is_empty() && b.cols.is_empty() => Ok(()),
            p => Err(RecvErr::Bad(format!("expected the end-of-data marker, got {p:?}"))),
        }
    }
    /// data blocks of an INSERT up to the empty one
    pub async fn read_insert(&mut self) -> Result<Vec<Blk>, RecvErr> {
        let mut out = vec![];
        loop {
            match self.recv().await? {
                CPkt::Data(t, b) => {
                    if !t.is_empty() {
                        return Err(RecvErr::Bad(format!("data for table {t:?}")));
                    }
                    if b.cols.is_empty() {
                        return Ok(out);
                    }
                    out.push(b);
                }
                p => return Err(RecvErr::Bad(format!("{} packet inside insert data", p.tag()))),
            }
        }
    }
}

// ------------------------------------------------------------------ server packets
pub fn data_packet(body: &[u8], compress: bool, g: Option<&mut Src>) -> Vec<u8> {
    let mut w = W::new();
    w.uv(1).str(b"");
    if compress {
        w.bytes(&frame(body, g));
    } else {
        w.bytes(body);
    }
    w.0
}
/// a block split over several compressed frames
pub fn data_packet_multi(body: &[u8], g: &mut Src) -> Vec<u8> {
    let mut w = W::new();
    w.uv(1).str(b"");
    let n = g.usize(1, 4);
    let mut p = 0;
    for i in 0..n {
        if p >= body.len() {
            break;
        }
        let k = if i + 1 == n { body.len() - p } else { g.usize(1, body.len() - p) };
        let f = frame(&body[p..p + k], Some(g));
        w.bytes(&f);
        p += k;
    }
    w.0
}
pub fn eos() -> Vec<u8> {
    vec![5]
}
pub fn pong() -> Vec<u8> {
    vec![4]
}
#[derive(Clone, Debug, PartialEq)]
pub struct Exc {
    pub code: u32,
    pub name: String,
    pub msg: String,
    pub stack: String,
}
impl Exc {
    pub fn encode(&self) -> Vec<u8> {
        let mut w = W::new();
        w.uv(2)
            .u32(self.code)
            .str(self.name.as_bytes())
            .str(self.msg.as_bytes())
            .str(self.stack.as_bytes())
            .u8(0);
        w.0
    }
    pub fn gen(g: &mut Src) -> Exc {
        let n = g.strlen();
        let m = g.strlen();
        let k = g.usize(0, 30);
        Exc {
            code: if g.chance(1, 8) { 0 } else { g.uint(32) as u32 },
            name: g.utf8(k),
            msg: g.utf8(n),
            stack: g.utf8(m),
        }
    }
}
pub fn progress(g: &mut Src, rev: u64) -> Vec<u8> {
    let mut w = W::new();
    w.uv(3).uv(g.uint(40) as u64).uv(g.uint(40) as u64);
    if rev >= 51554 {
        w.uv(g.uint(40) as u64);
    }
    if rev >= 54420 {
        w.uv(g.uint(20) as u64).uv(g.uint(20) as u64);
    }
    w.0
}
pub fn profile(g: &mut Src) -> Vec<u8> {
    let mut w = W::new();
    w.uv(6)
        .uv(g.uint(30) as u64)
        .uv(g.uint(30) as u64)
        .uv(g.uint(30) as u64)
        .u8(g.below(2) as u8)
        .uv(g.uint(30) as u64)
        .u8(g.below(2) as u8);
    w.0
}
pub fn table_columns(g: &mut Src) -> Vec<u8> {
    let mut w = W::new();
    let a = g.utf8(5);
    let b = g.utf8(20);
    w.uv(11).str(a.as_bytes()).str(b.as_bytes());
    w.0
}

// ------------------------------------------------------------------ server
pub struct Srv {
    pub addr: SocketAddr,
    pub stat: Rc<RefCell<Stat>>,
    task: tokio::task::JoinHandle<()>,
}
#[derive(Default, Debug)]
pub struct Stat {
    pub accepted: usize,
    pub open: usize,
    pub max_open: usize,
    /// protocol errors seen by connection handlers
    pub errors: Vec<String>,
}
impl Drop for Srv {
    fn drop(&mut self) {
        self.task.abort();
    }
}
static NEXT_IP: AtomicU32 = AtomicU32::new(0);
pub fn fresh_ip() -> std::net::Ipv4Addr {
    let n = NEXT_IP.fetch_add(1, Ordering::Relaxed) % 60000;
    std::net::Ipv4Addr::new(127, 10 + (std::process::id() % 100) as u8, (n / 250) as u8, (n % 250) as u8 + 1)
}
pub async fn bind() -> std::io::Result<TcpListener> {
    let mut last = None;
    for _ in 0..50 {
        match TcpListener::bind((fresh_ip(), 0)).await {
            Ok(l) => return Ok(l),
            Err(e) => last = Some(e),
        }
    }
    Err(last.unwrap())
}
impl Srv {
    /// `handler` runs for each accepted connection and returns its protocol verdict.
    pub async fn start<F, Fut>(hello: HelloCfg, frag: Frag, handler: F) -> Srv
    where
        F: Fn(Conn) -> Fut + 'static,
        Fut: Future<Output = Result<(), RecvErr>> + 'static,
    {
        let l = bind().await.unwrap_or_else(|e| crate::run::harness_error(&format!("bind: {e}")));
        Self::start_on(l, hello, frag, handler)
    }
    pub fn start_on<F, Fut>(l: TcpListener, hello: HelloCfg, frag: Frag, handler: F) -> Srv
    where
        F: Fn(Conn) -> Fut + 'static,
        Fut: Future<Output = Result<(), RecvErr>> + 'static,
    {
        let addr = l.local_addr().unwrap();
        #[cfg(feature = "tls")]
        let l = crate::p_tls::front_of(l);
        let stat = Rc::new(RefCell::new(Stat::default()));
        let st = stat.clone();
        let task = tokio::task::spawn_local(async move {
            loop {
                let (s, _) = match l.accept().await {
                    Ok(x) => x,
                    Err(e) => crate::run::harness_error(&format!("accept: {e}")),
                };
                let _ = s.set_nodelay(true);
                let index = {
                    let mut x = st.borrow_mut();
                    x.accepted += 1;
                    x.open += 1;
                    x.max_open = x.max_open.max(x.open);
                    x.accepted - 1
                };
                let conn = Conn {
                    s,
                    buf: vec![],
                    pos: 0,
                    hello: hello.clone(),
                    chello: None,
                    compress: false,
                    frag: frag.clone(),
                    sent: 0,
                    cut: None,
                    index,
                    slow_read: None,
                    chunk: 1 << 22,
                    raw_in: 0,
                };
                let fut = handler(conn);
                let st2 = st.clone();
                tokio::task::spawn_local(async move {
                    let r = fut.await;
                    let mut x = st2.borrow_mut();
                    x.open -= 1;
                    match r {
                        Ok(()) | Err(RecvErr::Closed) => {}
                        Err(e) => x.errors.push(format!("connection {index}: {e:?}")),
                    }
                });
            }
        });
        Srv { addr, stat, task }
    }
    pub fn url(&self, extra: &str) -> String {
        let mut u = format!(
            "tcp://{}/?connection_timeout=60s&ping_timeout=60s&query_timeout=60s&insert_timeout=60s&execute_timeout=60s&retry_timeout=1ms",
            self.addr
        );
        if !extra.is_empty() {
            u.push('&');
            u.push_str(extra);
        }
        #[cfg(feature = "tls")]
        u.push_str(crate::p_tls::url_part());
        u
    }
    pub fn errors(&self) -> Vec<String> {
        self.stat.borrow().errors.clone()
    }
}

pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .event_interval(1)
        .build()
        .unwrap_or_else(|e| crate::run::harness_error(&format!("runtime: {e}")))
}

/// Run a case's async body under a generous watchdog.
pub fn block_on<F, T>(limit_s: u64, f: F) -> Result<T, String>
where
    F: Future<Output = Result<T, String>>,
{
    let rt = rt();
    let local = tokio::task::LocalSet::new();
    let r = local.block_on(&rt, async move {
        match tokio::time::timeout(Duration::from_secs(limit_s), f).await {
            Ok(r) => r,
            Err(_) => Err(format!("HANG: no outcome within {limit_s} s")),
        }
    });
    drop(local);
    rt.shutdown_background();
    r
}

/// replies queued per query, shared by all connections of a case
pub type Queue<T> = Rc<RefCell<VecDeque<T>>>;

pub async fn spin(n: usize) {
    for _ in 0..n {
        tokio::task::yield_now().await;
    }
}
