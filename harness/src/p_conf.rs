//! C15, C16: configuration and what the server is told.
use crate::gen::Src;
use crate::hook;
use crate::model::*;
use crate::p_data::*;
use crate::p_proto::{extra_blk, extra_reply};
use crate::run::*;
use crate::server::*;
use clickhouse_rs::errors::{Error, UrlError};
use clickhouse_rs::types::{Options, Query};
use clickhouse_rs::{Block, Pool};
use std::cell::RefCell;
use std::rc::Rc;
use std::str::FromStr;
use std::time::Duration;
use url::Url;

// ------------------------------------------------------------------ URL texts
#[derive(Clone, Copy, PartialEq)]
enum Place {
    User,
    Path,
    Key,
    Value,
}
/// percent-encode a text for its place, encoding more than necessary at random
fn enc(g: &mut Src, s: &str, place: Place) -> String {
    let mut o = String::new();
    for c in s.chars() {
        let plain = c.is_ascii_alphanumeric() || matches!(c, '-' | '_' | '~' | '.');
        let extra = match place {
            // characters that stand for themselves in this place
            Place::User => matches!(c, '!' | '$' | '&' | '(' | ')' | '*' | ',' ),
            Place::Path => matches!(c, '!' | '$' | '&' | '(' | ')' | '*' | ',' | ':' | '@' | '=' | ';' | '+'),
            Place::Key => matches!(c, '!' | '$' | '(' | ')' | '*' | ',' | ':' | '@' | ';' | '/' | '?'),
            Place::Value => matches!(c, '!' | '$' | '(' | ')' | '*' | ',' | ':' | '@' | ';' | '/' | '?' | '='),
        };
        let as_is = if plain {
            !g.chance(1, 12)
        } else if extra {
            g.bool()
        } else if !c.is_ascii() && !c.is_control() {
            g.chance(1, 3)
        } else {
            false
        };
        if as_is {
            o.push(c);
        } else if c == ' ' && matches!(place, Place::Key | Place::Value) && g.bool() {
            o.push('+');
        } else {
            let mut b = [0u8; 4];
            for x in c.encode_utf8(&mut b).bytes() {
                if g.bool() {
                    o.push_str(&format!("%{x:02X}"));
                } else {
                    o.push_str(&format!("%{x:02x}"));
                }
            }
        }
    }
    o
}
fn gen_text(g: &mut Src) -> String {
    let n = g.usize(1, 10);
    match g.below(4) {
        0 => g.ident(),
        1 => {
            let pool: Vec<char> = "ab:/@?#[]%&=+ ;,!$'()*\"<>\\^`{|}~-_.01\u{e9}\u{4e2d}\u{1F600}".chars().collect();
            (0..n).map(|_| *g.pick(&pool)).collect()
        }
        _ => {
            let t = g.utf8(n);
            let t: String = t.chars().filter(|c| !c.is_control()).collect();
            if t.is_empty() {
                "x".into()
            } else {
                t
            }
        }
    }
}
#[derive(Clone, Debug)]
enum Par {
    PoolMin(usize),
    PoolMax(usize),
    Nodelay(bool),
    Keepalive(Option<(u64, bool)>),
    Ping(bool),
    Retries(usize),
    RetryT(u64, bool),
    PingT(u64, bool),
    ConnT(u64, bool),
    QueryT(u64, bool),
    InsertT(Option<(u64, bool)>),
    ExecT(Option<(u64, bool)>),
    Compress(bool),
    Alt(Vec<(String, Option<u16>)>),
    Setting(String, String),
}
const DOCUMENTED: &[&str] = &[
    "pool_min", "pool_max", "nodelay", "keepalive", "ping_before_query", "send_retries", "retry_timeout", "ping_timeout", "connection_timeout",
    "query_timeout", "insert_timeout", "execute_timeout", "compression", "alt_hosts", "secure", "skip_verify", "",
];
fn dur((n, s): (u64, bool)) -> Duration {
    if s {
        Duration::from_secs(n)
    } else {
        Duration::from_millis(n)
    }
}
fn durt((n, s): (u64, bool)) -> String {
    format!("{n}{}", if s { "s" } else { "ms" })
}
impl Par {
    fn name(&self) -> &str {
        match self {
            Par::PoolMin(_) => "pool_min",
            Par::PoolMax(_) => "pool_max",
            Par::Nodelay(_) => "nodelay",
            Par::Keepalive(_) => "keepalive",
            Par::Ping(_) => "ping_before_query",
            Par::Retries(_) => "send_retries",
            Par::RetryT(..) => "retry_timeout",
            Par::PingT(..) => "ping_timeout",
            Par::ConnT(..) => "connection_timeout",
            Par::QueryT(..) => "query_timeout",
            Par::InsertT(_) => "insert_timeout",
            Par::ExecT(_) => "execute_timeout",
            Par::Compress(_) => "compression",
            Par::Alt(_) => "alt_hosts",
            Par::Setting(n, _) => n,
        }
    }
    fn value(&self) -> String {
        let od = |x: &Option<(u64, bool)>| x.map(durt).unwrap_or("none".into());
        match self {
            Par::PoolMin(n) | Par::PoolMax(n) | Par::Retries(n) => n.to_string(),
            Par::Nodelay(b) | Par::Ping(b) => b.to_string(),
            Par::Keepalive(d) | Par::InsertT(d) | Par::ExecT(d) => od(d),
            Par::RetryT(n, s) | Par::PingT(n, s) | Par::ConnT(n, s) | Par::QueryT(n, s) => durt((*n, *s)),
            Par::Compress(b) => (if *b { "lz4" } else { "none" }).into(),
            Par::Alt(h) => h
                .iter()
                .map(|(h, p)| match p {
                    Some(p) => format!("{h}:{p}"),
                    None => h.clone(),
                })
                .collect::<Vec<_>>()
                .join(","),
            Par::Setting(_, v) => v.clone(),
        }
    }
    fn apply(&self, o: Options) -> Options {
        match self {
            Par::PoolMin(n) => o.pool_min(*n),
            Par::PoolMax(n) => o.pool_max(*n),
            Par::Nodelay(b) => o.nodelay(*b),
            Par::Keepalive(d) => o.keepalive(d.map(dur)),
            Par::Ping(b) => o.ping_before_query(*b),
            Par::Retries(n) => o.send_retries(*n),
            Par::RetryT(n, s) => o.retry_timeout(dur((*n, *s))),
            Par::PingT(n, s) => o.ping_timeout(dur((*n, *s))),
            Par::ConnT(n, s) => o.connection_timeout(dur((*n, *s))),
            Par::QueryT(n, s) => o.query_timeout(dur((*n, *s))),
            Par::InsertT(d) => o.insert_timeout(d.map(dur)),
            Par::ExecT(d) => o.execute_timeout(d.map(dur)),
            Par::Compress(true) => o.with_compression(),
            Par::Compress(false) => o,
            Par::Alt(h) => o.alt_hosts(
                h.iter()
                    .map(|(h, p)| Url::parse(&format!("tcp://{h}:{}", p.unwrap_or(9000))).unwrap())
                    .collect(),
            ),
            Par::Setting(n, v) => o.with_setting(n, v.as_str(), true),
        }
    }
}
fn gen_par(g: &mut Src, k: u64) -> Par {
    let num = |g: &mut Src| if g.bool() { g.usize(0, 40) as u64 } else { g.uint(32) as u64 };
    let b = g.bool();
    match k {
        0 => Par::PoolMin(num(g) as usize),
        1 => Par::PoolMax(num(g) as usize),
        2 => Par::Nodelay(b),
        3 => Par::Keepalive(if g.chance(1, 4) { None } else { Some((num(g), b)) }),
        4 => Par::Ping(b),
        5 => Par::Retries(num(g) as usize),
        6 => Par::RetryT(num(g), b),
        7 => Par::PingT(num(g), b),
        8 => Par::ConnT(num(g), b),
        9 => Par::QueryT(num(g), b),
        10 => Par::InsertT(if g.chance(1, 4) { None } else { Some((num(g), b)) }),
        11 => Par::ExecT(if g.chance(1, 4) { None } else { Some((num(g), b)) }),
        12 => Par::Compress(b),
        13 => Par::Alt((0..if g.chance(1, 8) { g.usize(4, 9) } else { g.usize(1, 3) }).map(|_| (gen_host(g), if g.bool() { Some(g.usize(1, 65535) as u16) } else { None })).collect()),
        _ => {
            let mut n = gen_text(g);
            while DOCUMENTED.contains(&n.as_str()) {
                n.push('x');
            }
            Par::Setting(n, if g.chance(1, 8) { String::new() } else { gen_text(g) })
        }
    }
}
fn gen_host(g: &mut Src) -> String {
    match g.below(4) {
        0 => "localhost".into(),
        1 => format!("{}.{}.{}.{}", g.below(256), g.below(256), g.below(256), g.below(256)),
        2 => "[::1]".into(),
        _ => {
            let n = g.usize(1, 8);
            let a: String = (0..n).map(|_| (b'a' + g.below(26) as u8) as char).collect();
            if g.bool() {
                format!("{a}.example.org")
            } else {
                a
            }
        }
    }
}
#[derive(Clone, Debug, Default)]
struct Conf {
    user: Option<String>,
    pass: Option<String>,
    db: Option<String>,
    pars: Vec<Par>,
}
fn gen_conf(g: &mut Src, kinds: &[u64], settings: usize) -> Conf {
    let mut c = Conf::default();
    if g.chance(2, 3) {
        c.user = Some(gen_text(g));
        if g.chance(2, 3) {
            c.pass = Some(if g.chance(1, 8) { String::new() } else { gen_text(g) });
        }
    }
    if g.chance(2, 3) {
        let t = gen_text(g);
        // a database named like this cannot be written in a URL: the path is normalised
        c.db = Some(if t == "." || t == ".." { "d".into() } else { t });
    }
    for k in kinds {
        if g.chance(1, 3) {
            c.pars.push(gen_par(g, *k));
        }
    }
    let mut seen: Vec<String> = vec![];
    for _ in 0..g.usize(0, settings) {
        let p = gen_par(g, 99);
        if !seen.contains(&p.name().to_string()) {
            seen.push(p.name().to_string());
            c.pars.push(p);
        }
    }
    // any order
    let n = c.pars.len();
    for i in (1..n).rev() {
        let j = g.usize(0, i);
        c.pars.swap(i, j);
    }
    c
}
impl Conf {
    fn userinfo(&self, g: &mut Src) -> String {
        let mut u = String::new();
        if let Some(x) = &self.user {
            u.push_str(&enc(g, x, Place::User));
            if let Some(p) = &self.pass {
                u.push(':');
                u.push_str(&enc(g, p, Place::User));
            }
            u.push('@');
        }
        u
    }
    fn tail(&self, g: &mut Src) -> String {
        let mut u = String::new();
        match &self.db {
            Some(d) => {
                u.push('/');
                // an encoded dot segment would still be normalised away
                u.push_str(&enc(g, d, Place::Path));
            }
            None => {
                if g.bool() {
                    u.push('/');
                }
            }
        }
        for (i, p) in self.pars.iter().enumerate() {
            u.push(if i == 0 { '?' } else { '&' });
            let n = p.name().to_string();
            u.push_str(&enc(g, &n, Place::Key));
            u.push('=');
            let v = p.value();
            u.push_str(&enc(g, &v, Place::Value));
        }
        u
    }
    fn build(&self, addr: Url) -> Options {
        let mut o = Options::new(addr);
        if let Some(u) = &self.user {
            o = o.username(u);
        }
        if let Some(u) = &self.pass {
            o = o.password(u);
        }
        if let Some(d) = &self.db {
            o = o.database(d);
        }
        for p in &self.pars {
            o = p.apply(o);
        }
        o
    }
}
const ALL: &[u64] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13];
fn c15_parse(g: &mut Src) -> Res {
    let c = gen_conf(g, ALL, 3);
    let host = gen_host(g);
    let port = if g.bool() { Some(g.usize(1, 65535) as u16) } else { None };
    let ui = c.userinfo(g);
    let at = match port {
        Some(p) => format!("{host}:{p}"),
        None => host.clone(),
    };
    let url = format!("tcp://{ui}{at}{}", c.tail(g));
    g.say(url.clone());
    for p in &c.pars {
        g.label(if matches!(p, Par::Setting(..)) { "server setting" } else { "documented parameter" });
    }
    g.label(if port.is_some() { "port" } else { "default port" });
    g.nontrivial = !c.pars.is_empty() || c.user.is_some() || c.db.is_some();
    let got = Options::from_str(&url).map_err(|e| format!("{url:?} was rejected: {e}"))?;
    let full = format!("tcp://{ui}{host}:{}", port.unwrap_or(9000));
    let bare = format!("tcp://{host}:{}", port.unwrap_or(9000));
    let u = |s: &str| Url::parse(s).unwrap_or_else(|e| harness_error(&format!("{s}: {e}")));
    let want = c.build(u(&full));
    if got != want && got != c.build(u(&bare)) {
        return err(format!("{url:?} means {got:?}, the same options one by one {want:?}"));
    }
    Ok(())
}
fn c15_reject(g: &mut Src) -> Res {
    let mut c = gen_conf(g, &[2, 4, 5, 12], 2);
    let kind = g.below(4);
    let mut name = String::new();
    let mut value = String::new();
    let url = match kind {
        0 => {
            let s = *g.pick(&["http", "https", "clickhouse", "tcps", "t", "native", "udp", "tcp2", "ws"]);
            name = s.into();
            let ui = c.userinfo(g);
            let h = gen_host(g);
            format!("{s}://{ui}{h}{}", c.tail(g))
        }
        1 => {
            let ui = c.userinfo(g);
            let _ = ui;
            (*g.pick(&["", "tcp", "tcp:", "tcp://", "tcp:///", "tcp:///db", "host:9000", "//host", "tcp:host", "tcp://:9000", "tcp://host:99999", "tcp://host:port", "tcp://a b/", "tcp://[::1"])).to_string()
        }
        _ => {
            const NUM: &[&str] = &["", "x", "-1", "1.5", "1e3", "18446744073709551616", "0x10", "1 2", "ten", "5s", "true", "%35"];
            const BOOL: &[&str] = &["", "1", "0", "yes", "no", "True", "FALSE", "on", "tru", "truee", "10ms", "t%72ue"];
            const DUR: &[&str] = &["", "10", "s", "ms", "10m", "10 s", "10S", "10sec", "-1s", "1.5s", "10h", "10us", "s10", "18446744073709551616ms", "nonee", "10ss", "10mss", "true", "1%30s"];
            const COMP: &[&str] = &["", "lz", "lz4hc", "LZ4", "zstd", "true", "None", "1", "lz4 ", "lz%34"];
            let (k, v): (&str, &str) = match g.below(12) {
                0 => ("pool_min", g.pick(NUM)),
                1 => ("pool_max", g.pick(NUM)),
                2 => ("send_retries", g.pick(NUM)),
                3 => ("nodelay", g.pick(BOOL)),
                4 => ("ping_before_query", g.pick(BOOL)),
                5 => (*g.pick(&["retry_timeout", "ping_timeout", "connection_timeout", "query_timeout"]), g.pick(DUR)),
                6 => (*g.pick(&["retry_timeout", "ping_timeout", "connection_timeout", "query_timeout"]), "none"),
                7 => (*g.pick(&["keepalive", "insert_timeout", "execute_timeout"]), g.pick(DUR)),
                8 => (*g.pick(&["keepalive", "insert_timeout", "execute_timeout"]), g.pick(&["None", "NONE", "no", "null", "false"])),
                9 => ("alt_hosts", g.pick(&["", "host2,", ",host2", "host2,,host3", "host2:port", "a b", "host2:99999", "host2,[::1"])),
                _ => ("compression", g.pick(COMP)),
            };
            name = k.into();
            value = v.into();
            // one bad parameter among good ones
            c.pars.retain(|p| p.name() != k);
            let pos = g.usize(0, c.pars.len());
            c.pars.insert(pos, Par::Setting(k.into(), v.into()));
            let ui = c.userinfo(g);
            let h = gen_host(g);
            format!("tcp://{ui}{h}{}", c.tail(g))
        }
    };
    g.say(url.clone());
    g.label(match kind {
        0 => "scheme",
        1 => "not a URL of a host",
        _ => "parameter value",
    });
    g.nontrivial = true;
    let judge = |e: Error, how: &str| -> Res {
        let ok = match (&e, kind) {
            (Error::Url(UrlError::UnsupportedScheme { scheme }), 0) => *scheme == name,
            (Error::Url(_), 1) => true,
            (Error::Url(UrlError::InvalidParamValue { param, value: v }), 2 | 3) => *param == name && *v == value,
            _ => false,
        };
        if !ok {
            return err(format!("{how}: {url:?} was rejected with {e:?}, which does not name {name:?} {value:?}"));
        }
        Ok(())
    };
    match Options::from_str(&url) {
        Ok(o) => return err(format!("{url:?} was accepted as {o:?}")),
        Err(e) => judge(e, "parsing")?,
    }
    let u2 = url.clone();
    block_on(20, async move {
        let pool = Pool::new(u2.as_str());
        match pool.get_handle().await {
            Ok(_) => err("a handle was given for an invalid URL"),
            Err(e) => Ok(e),
        }
    })
    .and_then(|e| judge(e, "Pool"))
}
/// TCP_NODELAY of the client's side of a connection (both ends live in this process)
fn nodelay_of(local: std::net::SocketAddr, remote: std::net::SocketAddr) -> Option<bool> {
    type F = unsafe extern "C" fn(libc::c_int, *mut libc::sockaddr, *mut libc::socklen_t) -> libc::c_int;
    unsafe fn addr(f: F, fd: i32) -> Option<std::net::SocketAddr> {
        let mut a: libc::sockaddr_in = std::mem::zeroed();
        let mut n = std::mem::size_of::<libc::sockaddr_in>() as libc::socklen_t;
        if f(fd, &mut a as *mut _ as *mut libc::sockaddr, &mut n) != 0 || a.sin_family != libc::AF_INET as u16 {
            return None;
        }
        let ip = std::net::Ipv4Addr::from(u32::from_be(a.sin_addr.s_addr));
        Some(std::net::SocketAddr::from((ip, u16::from_be(a.sin_port))))
    }
    for e in std::fs::read_dir("/proc/self/fd").ok()? {
        let fd: i32 = match e.ok().and_then(|e| e.file_name().to_str().and_then(|s| s.parse().ok())) {
            Some(x) => x,
            None => continue,
        };
        unsafe {
            // a local port may be shared by connections to different servers
            if addr(libc::getsockname, fd) != Some(local) || addr(libc::getpeername, fd) != Some(remote) {
                continue;
            }
            let mut v: libc::c_int = 0;
            let mut n = 4 as libc::socklen_t;
            if libc::getsockopt(fd, libc::IPPROTO_TCP, libc::TCP_NODELAY, &mut v as *mut _ as *mut libc::c_void, &mut n) == 0 {
                return Some(v != 0);
            }
        }
    }
    None
}
#[derive(Default, Clone, Debug)]
struct Obs {
    hello: Option<ClientHello>,
    queries: Vec<QueryPkt>,
    pings: usize,
    nodelay: Option<bool>,
}
async fn obs_server(hello: HelloCfg, lz4: bool, obs: Rc<RefCell<Obs>>) -> Srv {
    Srv::start(hello, Frag::default(), move |mut c| {
        let obs = obs.clone();
        async move {
            loop {
                match c.recv().await? {
                    CPkt::Hello(h) => {
                        let b = c.hello.encode();
                        obs.borrow_mut().hello = Some(h);
                        if !c.send(&b).await {
                            return Ok(());
                        }
                    }
                    CPkt::Ping => {
                        obs.borrow_mut().pings += 1;
                        if !c.send(&pong()).await {
                            return Ok(());
                        }
                    }
                    CPkt::Query(q) => {
                        c.expect_end().await?;
                        let ins = q.sql.starts_with("INSERT INTO");
                        obs.borrow_mut().queries.push(*q);
                        let peer = c.s.peer_addr().ok();
                        obs.borrow_mut().nodelay = peer.and_then(|p| nodelay_of(p, c.s.local_addr().ok()?));
                        if ins {
                            let h = extra_blk().header().encode(&EncOpts::default());
                            let p = c.data_packet(&h, None);
                            if !c.send(&p).await {
                                return Ok(());
                            }
                            c.read_insert().await?;
                            if !c.send(&eos()).await {
                                return Ok(());
                            }
                        } else if !c.send(&extra_reply(lz4)).await {
                            return Ok(());
                        }
                    }
                    CPkt::Cancel => {}
                    p => return Err(RecvErr::Bad(format!("unexpected {}", p.tag()))),
                }
            }
        }
    })
    .await
}
/// the same configuration by URL and by builder, seen from the server
pub fn c15_observe(g: &mut Src) -> Res {
    let mut c = gen_conf(g, &[0, 2, 3, 4, 5, 6, 10, 11, 12], 3);
    // generous limits, so that nothing but the configuration decides
    c.pars.push(Par::ConnT(60, true));
    c.pars.push(Par::PingT(60, true));
    let by_url = g.chance(2, 3);
    let ui = c.userinfo(g);
    let tail = c.tail(g);
    g.say(format!("{} tcp://{ui}HOST{tail}", if by_url { "url" } else { "builder" }));
    g.label(if by_url { "url" } else { "builder" });
    g.nontrivial = true;
    let lz4 = c.pars.iter().any(|p| matches!(p, Par::Compress(true)));
    let ping = !c.pars.iter().any(|p| matches!(p, Par::Ping(false)));
    let nodelay = !c.pars.iter().any(|p| matches!(p, Par::Nodelay(false)));
    block_on(30, async move {
        let obs: Rc<RefCell<Obs>> = Default::default();
        let srv = obs_server(HelloCfg::default(), lz4, obs.clone()).await;
        let pool = if by_url {
            Pool::new(format!("tcp://{ui}{}{tail}", srv.addr))
        } else {
            Pool::new(c.build(Url::parse(&format!("tcp://{}", srv.addr)).unwrap()))
        };
        let mut h = pool.get_handle().await.map_err(|e| format!("connect: {e}"))?;
        let r = h.query("SELECT 2").fetch_all().await.map_err(|e| format!("query: {e}"))?;
        check_block(&r, &extra_blk(), "UTC", false)?;
        let e = srv.errors();
        if !e.is_empty() {
            return err(format!("protocol error: {}", e.join("; ")));
        }
        let o = obs.borrow().clone();
        let hello = o.hello.unwrap();
        let want = (
            c.db.clone().unwrap_or("default".into()),
            c.user.clone().unwrap_or("default".into()),
            c.pass.clone().unwrap_or_default(),
        );
        if (hello.db.clone(), hello.user.clone(), hello.pass.clone()) != want {
            return err(format!("the server was told {hello:?} instead of database, user, password {want:?}"));
        }
        let q = &o.queries[0];
        if q.compress != lz4 {
            return err(format!("compression flag is {}", q.compress));
        }
        if (o.pings > 0) != ping {
            return err(format!("{} pings before the query with ping_before_query={ping}", o.pings));
        }
        if o.nodelay.is_some() && o.nodelay != Some(nodelay) {
            return err(format!("TCP_NODELAY is {:?}, configured {nodelay}", o.nodelay));
        }
        let mut s = q.settings.clone();
        s.sort_by(|a, b| a.0.cmp(&b.0));
        let mut w: Vec<(String, SettingV)> = c
            .pars
            .iter()
            .filter_map(|p| if let Par::Setting(n, v) = p { Some((n.clone(), SettingV::Text(v.clone(), true))) } else { None })
            .collect();
        w.sort_by(|a, b| a.0.cmp(&b.0));
        if s != w {
            return err(format!("settings sent {s:?}, configured {w:?}"));
        }
        Ok(())
    })
}
/// defaults, one by one
fn c15_default(g: &mut Src) -> Res {
    let h = gen_host(g);
    let url = format!("tcp://{h}");
    g.say(url.clone());
    g.nontrivial = true;
    let got = Options::from_str(&url).map_err(|e| format!("{url}: {e}"))?;
    let want = Options::new(Url::parse(&format!("tcp://{h}:9000")).unwrap())
        .database("default")
        .username("default")
        .password("")
        .pool_min(10)
        .pool_max(20)
        .nodelay(true)
        .keepalive(None)
        .ping_before_query(true)
        .send_retries(3)
        .retry_timeout(Duration::from_secs(5))
        .ping_timeout(Duration::from_millis(500))
        .connection_timeout(Duration::from_millis(500))
        .query_timeout(Duration::from_secs(180))
        .insert_timeout(Some(Duration::from_secs(180)))
        .execute_timeout(Some(Duration::from_secs(180)))
        .settings(Default::default())
        .alt_hosts(vec![]);
    if got != want {
        return err(format!("{url} means {got:?}, documented defaults {want:?}"));
    }
    Ok(())
}
pub static C15: Prop = Prop {
    id: "C15",
    rule: "the URL has credentials, a database or a parameter (or is invalid in one respect); distinct by the generated URL",
    level: "exploration",
    assumptions: &["a parameter is given at most once", "database names `.` and `..` cannot be written in a URL"],
    checks: &[
        Check {
            name: "parse",
            what: "random credentials, hosts, ports, databases, documented parameters and settings with random percent-encoding; parsed options compared with the same options set one by one",
            quick: 1000000,
            thorough: 20000000,
            threads: 0,
            f: c15_parse,
        },
        Check {
            name: "reject",
            what: "wrong schemes, missing hosts, unparsable values among good parameters: rejected with an error naming it, by parsing and by the pool",
            quick: 200000,
            thorough: 4000000,
            threads: 0,
            f: c15_reject,
        },
        Check {
            name: "observe",
            what: "random configurations by URL and by builder; what the server sees (credentials, database, settings, compression, pings, TCP_NODELAY) compared with what was written",
            quick: 60000,
            thorough: 1200000,
            threads: 0,
            f: c15_observe,
        },
        Check {
            name: "defaults",
            what: "a bare URL has the documented defaults",
            quick: 50,
            thorough: 1000,
            threads: 1,
            f: c15_default,
        },
    ],
    findings: &[],
};

// ------------------------------------------------------------------ C16
#[derive(Clone, Debug)]
enum Set {
    S(String),
    B(bool),
    U(u64),
    I32(i32),
    I64(i64),
    F(f64),
}
fn uv(v: u64) -> Vec<u8> {
    let mut w = crate::wire::W::new();
    w.uv(v);
    w.0
}
fn st(v: &str) -> Vec<u8> {
    let mut w = crate::wire::W::new();
    w.str(v.as_bytes());
    w.0
}
impl Set {
    fn gen(g: &mut Src) -> Set {
        match g.below(6) {
            0 => {
                let n = g.strlen();
                Set::S(g.utf8(n))
            }
            1 => Set::B(g.bool()),
            2 => Set::U(g.uint(64) as u64),
            3 => Set::I32(g.uint(32) as i32),
            4 => Set::I64(g.uint(64) as i64),
            _ => Set::F(*g.pick(&[0.0, -0.0, 1.0, 0.1, -2.5, 1e10, 123456.789, 1e-7, 3.5e15, f64::MAX, f64::MIN_POSITIVE])),
        }
    }
    fn kind(&self) -> OldKind {
        match self {
            Set::S(_) => OldKind::Str,
            Set::F(_) => OldKind::Float,
            _ => OldKind::Num,
        }
    }
    fn add(&self, o: Options, n: &str, imp: bool) -> Options {
        match self {
            Set::S(v) => o.with_setting(n, v.as_str(), imp),
            Set::B(v) => o.with_setting(n, *v, imp),
            Set::U(v) => o.with_setting(n, *v, imp),
            Set::I32(v) => o.with_setting(n, *v, imp),
            Set::I64(v) => o.with_setting(n, *v, imp),
            Set::F(v) => o.with_setting(n, *v, imp),
        }
    }
    /// the value as text means this
    fn same_text(&self, t: &str) -> bool {
        match self {
            Set::S(v) => v == t,
            Set::B(v) => t == if *v { "true" } else { "false" } || t == if *v { "1" } else { "0" },
            Set::U(v) => t == v.to_string(),
            Set::I32(v) => t == v.to_string(),
            Set::I64(v) => t == v.to_string(),
            Set::F(v) => t.parse::<f64>().map(|x| x.to_bits() == v.to_bits()).unwrap_or(false),
        }
    }
    fn same_old(&self, b: &[u8]) -> bool {
        let int = |v: i64| if v >= 0 { uv(v as u64) } else { uv(((v << 1) ^ (v >> 63)) as u64) };
        match self {
            Set::S(v) => b == st(v),
            Set::B(v) => b == uv(*v as u64),
            Set::U(v) => b == uv(*v),
            Set::I32(v) => b == int(*v as i64),
            Set::I64(v) => b == int(*v),
            Set::F(v) => {
                let mut r = crate::wire::R::new(b);
                match r.string() {
                    Ok(t) => r.left() == 0 && t.parse::<f64>().map(|x| x.to_bits() == v.to_bits()).unwrap_or(false),
                    _ => false,
                }
            }
        }
    }
}
fn gen_rev(g: &mut Src) -> u64 {
    const EDGES: &[u64] = &[54032, 54057, 54058, 54059, 54060, 54061, 54371, 54372, 54373, 54400, 54401, 54402, 54419, 54420, 54421, 54428, 54429, 54430, 54438, 54441, 54460, 60000];
    if g.bool() {
        *g.pick(EDGES)
    } else {
        g.range_i64(54032, 54470) as u64
    }
}
pub fn c16_wire(g: &mut Src) -> Res {
    let rev = gen_rev(g);
    let text = |g: &mut Src| {
        let n = g.strlen();
        g.utf8(n)
    };
    let db = text(g);
    let user = text(g);
    let pass = text(g);
    let lz4 = g.bool();
    let ping = g.bool();
    let mut sets: Vec<(String, Set, bool)> = vec![];
    for _ in 0..g.usize(0, 4) {
        let mut n = if g.bool() { g.ident() } else { text(g) };
        if n.is_empty() {
            n = "a".into();
        }
        if sets.iter().any(|s| s.0 == n) {
            continue;
        }
        let imp = g.bool();
        sets.push((n, Set::gen(g), imp));
    }
    let twice: Vec<(String, Set, bool)> = sets.iter().map(|x| x.0.clone()).collect::<Vec<_>>().into_iter().filter(|_| g.chance(1, 4)).collect::<Vec<_>>().into_iter().map(|n| (n, Set::gen(g), g.bool())).collect();
    let z = gen_tz(g);
    let hello = HelloCfg {
        name: text(g),
        major: g.uint(20) as u64,
        minor: g.uint(20) as u64,
        rev,
        tz: z.clone(),
        display: text(g),
        patch: g.uint(20) as u64,
        old_kinds: sets.iter().map(|(n, s, _)| (n.clone(), s.kind())).collect(),
    };
    let ops: Vec<(u64, String, Option<String>)> = (0..g.usize(1, 3))
        .map(|_| {
            let k = g.below(4);
            let n = g.usize(1, 300);
            let sql = if g.bool() { format!("SELECT {}", g.ident()) } else { g.utf8(n) };
            let sql = if sql.starts_with("INSERT INTO") { "x".into() } else { sql };
            (k, sql, if g.bool() { Some(text(g)) } else { None })
        })
        .collect();
    g.say(format!("revision {rev} db={db:?} user={user:?} settings={sets:?} lz4={lz4} ops={ops:?}"));
    g.label(match rev {
        x if x < 54058 => "below 54058",
        x if x < 54060 => "54058..",
        x if x < 54372 => "54060..",
        x if x < 54401 => "54372..",
        x if x < 54420 => "54401..",
        x if x < 54429 => "54420..",
        _ => "54429 and later",
    });
    if !sets.is_empty() {
        g.label("settings");
    }
    g.nontrivial = true;
    // an insert may take several statements
    let nrows = g.usize(0, 4);
    let cut = if hook::on() && g.bool() { 1 } else { 0 };
    block_on(30, async move {
        let obs: Rc<RefCell<Obs>> = Default::default();
        let srv = obs_server(hello.clone(), lz4, obs.clone()).await;
        let mut o = Options::new(Url::parse(&format!("tcp://{}", srv.addr)).unwrap())
            .database(&db)
            .username(&user)
            .password(&pass)
            .ping_before_query(ping)
            .connection_timeout(Duration::from_secs(60))
            .ping_timeout(Duration::from_secs(60));
        if lz4 {
            o = o.with_compression();
        }
        // the last of several values counts
        for (n, s, imp) in &twice {
            o = s.add(o, n, *imp);
        }
        for (n, s, imp) in &sets {
            o = s.add(o, n, *imp);
        }
        let pool = Pool::new(o);
        let mut h = pool.get_handle().await.map_err(|e| format!("connect to revision {rev}: {e}"))?;
        let fine = |srv: &Srv| -> Res {
            let e = srv.errors();
            if e.is_empty() {
                Ok(())
            } else {
                err(format!("the server could not read what the client sent: {}", e.join("; ")))
            }
        };
        for (k, sql, id) in &ops {
            obs.borrow_mut().queries.clear();
            let mut q = Query::new(sql);
            if let Some(i) = id {
                q = q.id(i);
            }
            let want_sql = sql.clone();
            let mut table = String::new();
            let r: Result<(), String> = match k {
                0 => h.execute(q).await.map_err(|e| e.to_string()),
                1 => {
                    table = "t".into();
                    let mut q = Query::new("t");
                    if let Some(i) = id {
                        q = q.id(i);
                    }
                    let b = Block::new().column("x", vec![5u32; nrows]).column("y", vec!["q"; nrows]);
                    let _l = hook::Limit::set(cut);
                    h.insert(q, b).await.map_err(|e| e.to_string())
                }
                _ => match h.query(q).fetch_all().await {
                    Ok(b) => check_block(&b, &extra_blk(), &z, false).map(|_| ()),
                    Err(e) => Err(e.to_string()),
                },
            };
            spin(5).await;
            fine(&srv)?;
            r.map_err(|e| format!("operation {k} at revision {rev}: {e}"))?;
            let ob = obs.borrow().clone();
            let pieces = if *k == 1 && cut > 0 { nrows.max(1) } else { 1 };
            if ob.queries.len() != pieces {
                return err(format!("{} queries arrived for one operation", ob.queries.len()));
            }
            for q in &ob.queries {
                if table.is_empty() {
                    if q.sql != want_sql {
                        return err(format!("the server received the query {:?} instead of {want_sql:?}", q.sql));
                    }
                } else {
                    let names = parse_insert(&q.sql, &table)?;
                    if names != ["x", "y"] {
                        return err(format!("insert text {:?}", q.sql));
                    }
                }
                let wid = id.clone().unwrap_or_default();
                if q.initial_id != wid && q.outer_id != wid {
                    return err(format!("query id {:?}/{:?} instead of {wid:?}", q.outer_id, q.initial_id));
                }
                if q.compress != lz4 {
                    return err(format!("compression flag {}", q.compress));
                }
                if q.stage != 2 {
                    return err(format!("query stage {} instead of complete", q.stage));
                }
                if q.interface != 1 {
                    return err(format!("interface {} instead of TCP", q.interface));
                }
                let hello = ob.hello.clone().unwrap();
                if q.rev != hello.rev || q.client != hello.name || (q.major, q.minor) != (hello.major, hello.minor) {
                    return err("client name, version and revision differ between greeting and query".to_string());
                }
                if q.settings.len() != sets.len() {
                    return err(format!("{} settings sent, {} configured", q.settings.len(), sets.len()));
                }
                for (n, s, imp) in &sets {
                    let got = match q.settings.iter().find(|x| x.0 == *n) {
                        None => return err(format!("setting {n:?} was not sent")),
                        Some(x) => &x.1,
                    };
                    let ok = match got {
                        SettingV::Text(t, i) => s.same_text(t) && i == imp,
                        SettingV::Old(b) => s.same_old(b),
                    };
                    if !ok {
                        return err(format!("setting {n:?} = {s:?} (important: {imp}) was sent as {got:?} at revision {rev}"));
                    }
                }
            }
        }
        let hl = obs.borrow().hello.clone().unwrap();
        if (hl.db.as_str(), hl.user.as_str(), hl.pass.as_str()) != (db.as_str(), user.as_str(), pass.as_str()) {
            return err(format!("greeting {hl:?} instead of {db:?} {user:?} {pass:?}"));
        }
        let pings = obs.borrow().pings;
        if pings != if ping { ops.len() } else { 0 } {
            return err(format!("{pings} pings for {} operations with ping_before_query={ping}", ops.len()));
        }
        fine(&srv)
    })
}
/// results sent by servers of any revision decode with the greeting's time zone
pub fn c16_greeting(g: &mut Src) -> Res {
    let rev = gen_rev(g);
    let z = gen_tz(g);
    let n = g.usize(1, 6);
    let t = match g.below(4) {
        0 => Ty::DateTime(None),
        1 => Ty::DT64(3, None),
        2 => Ty::DateTime(Some(gen_tz(g))),
        _ => Ty::Arr(Box::new(Ty::DateTime(None))),
    };
    let vals = gen_vals(g, &t, n);
    let b = Blk {
        cols: vec![Col {
            name: "t".into(),
            ty: t,
            vals,
        }],
    };
    let hello = HelloCfg {
        rev,
        tz: z.clone(),
        ..Default::default()
    };
    let mut reply = data_packet(&b.header().encode(&EncOpts::default()), false, None);
    while g.chance(1, 2) {
        reply.extend(if g.bool() { progress(g, rev) } else { profile(g) });
    }
    reply.extend(data_packet(&b.encode(&EncOpts::default()), false, None));
    while g.chance(1, 2) {
        reply.extend(progress(g, rev));
    }
    reply.extend(eos());
    g.say(format!("revision {rev} zone {z}: {}", describe(&b)));
    g.nontrivial = true;
    let zone = if rev >= 54058 { z } else { "UTC".into() };
    block_on(30, async move {
        let srv = reply_server(hello, Frag::default(), vec![reply]).await;
        let pool = Pool::new(srv.url(""));
        let mut c = pool.get_handle().await.map_err(|e| format!("connect: {e}"))?;
        let r = c.query("SELECT 1").fetch_all().await.map_err(|e| format!("fetch_all at revision {rev}: {e}"))?;
        check_block(&r, &b, &zone, true).map(|_| ())
    })
}
/// after a reconnect, queries and results follow the greeting of the new connection
pub fn c16_reconnect(g: &mut Src) -> Res {
    let lz4 = g.bool();
    let mut sets: Vec<(String, Set, bool)> = vec![];
    for i in 0..g.usize(0, 3) {
        let imp = g.bool();
        sets.push((format!("s{i}"), Set::gen(g), imp));
    }
    let kinds: Vec<(String, OldKind)> = sets.iter().map(|(n, s, _)| (n.clone(), s.kind())).collect();
    struct One {
        hello: HelloCfg,
        ops: Vec<(u64, Option<String>)>,
        reply: Vec<u8>,
        rst: bool,
        fresh: bool,
    }
    let b = Blk {
        cols: vec![
            Col { name: "a".into(), ty: Ty::DateTime(None), vals: gen_vals(g, &Ty::DateTime(None), 3) },
            Col { name: "b".into(), ty: Ty::DT64(3, None), vals: gen_vals(g, &Ty::DT64(3, None), 3) },
        ],
    };
    let n = g.usize(2, 4);
    let conns: Vec<One> = (0..n)
        .map(|_| {
            let rev = gen_rev(g);
            let hello = HelloCfg { rev, tz: gen_tz(g), patch: g.below(9), old_kinds: kinds.clone(), ..Default::default() };
            let mut reply = data_packet(&b.header().encode(&EncOpts::default()), lz4, None);
            while g.chance(1, 2) {
                reply.extend(progress(g, rev));
            }
            reply.extend(data_packet(&b.encode(&EncOpts::default()), lz4, None));
            while g.chance(1, 2) {
                reply.extend(progress(g, rev));
            }
            reply.extend(eos());
            let ops = (0..g.usize(1, 2)).map(|_| (g.below(4), if g.chance(1, 3) { Some(g.ident()) } else { None })).collect();
            One { hello, ops, reply, rst: g.bool(), fresh: g.chance(1, 3) }
        })
        .collect();
    g.say(format!(
        "connections {:?} settings={sets:?} lz4={lz4}: {}",
        conns.iter().map(|c| (c.hello.rev, c.hello.tz.clone(), c.ops.clone(), c.rst, c.fresh)).collect::<Vec<_>>(),
        describe(&b)
    ));
    // one insert may consist of several statements
    let (nrows, cut) = (g.usize(0, 4), if hook::on() && g.bool() { g.usize(1, 3) } else { 0 });
    let (db, user, pass) = if g.bool() { (g.ident(), g.ident(), g.ident()) } else { ("default".to_string(), "default".to_string(), String::new()) };
    let login = g.bool();
    let revs: std::collections::BTreeSet<u64> = conns.iter().map(|c| c.hello.rev).collect();
    g.nontrivial = revs.len() > 1;
    g.label(if revs.iter().any(|r| *r < 54429) && revs.iter().any(|r| *r >= 54429) { "old and new settings" } else { "same settings format" });
    block_on(30, async move {
        let conns = Rc::new(conns);
        let seen: Rc<RefCell<Vec<(usize, QueryPkt)>>> = Default::default();
        let hellos: Rc<RefCell<Vec<(String, String, String)>>> = Default::default();
        let (cs, sn, hl) = (conns.clone(), seen.clone(), hellos.clone());
        let srv = Srv::start(HelloCfg::default(), Frag::default(), move |mut c| {
            let (cs, sn, hl) = (cs.clone(), sn.clone(), hl.clone());
            async move {
                let Some(me) = cs.get(c.index) else { return Err(RecvErr::Bad("one connection too many".into())) };
                c.hello = me.hello.clone();
                match c.recv().await? {
                    CPkt::Hello(h) => hl.borrow_mut().push((h.db.clone(), h.user.clone(), h.pass.clone())),
                    p => return Err(RecvErr::Bad(format!("{} packet instead of Hello", p.tag()))),
                }
                let hello = c.hello.encode();
                if !c.send(&hello).await {
                    return Ok(());
                }
                let mut left = me.ops.len();
                let mut part = 0;
                while left > 0 {
                    let q = c.next_query().await?;
                    let ins = q.sql.starts_with("INSERT INTO");
                    sn.borrow_mut().push((c.index, q));
                    if ins {
                        let p = c.data_packet(&extra_blk().header().encode(&EncOpts::default()), None);
                        c.send(&p).await;
                        c.read_insert().await?;
                        c.send(&eos()).await;
                    } else {
                        c.send(&me.reply).await;
                    }
                    let pieces = if ins && cut > 0 { nrows.div_ceil(cut).max(1) } else { 1 };
                    part += 1;
                    if part == pieces {
                        part = 0;
                        left -= 1;
                    }
                }
                if me.rst && c.index + 1 < cs.len() {
                    spin(20).await;
                    c.kill(true).await;
                }
                Ok(())
            }
        })
        .await;
        let mut o = Options::new(Url::parse(&format!("tcp://{}", srv.addr)).unwrap())
            .connection_timeout(Duration::from_secs(60))
            .ping_timeout(Duration::from_secs(60));
        if lz4 {
            o = o.with_compression();
        }
        if login {
            o = o.database(&db).username(&user).password(&pass);
        }
        for (n, s, imp) in &sets {
            o = s.add(o, n, *imp);
        }
        let pool = Pool::new(o);
        let mut h = pool.get_handle().await.map_err(|e| format!("connect: {e}"))?;
        for (i, me) in conns.iter().enumerate() {
            if i > 0 && me.fresh {
                drop(h);
                h = pool.get_handle().await.map_err(|e| format!("connect: {e}"))?;
            }
            for (k, id) in &me.ops {
                seen.borrow_mut().clear();
                let with = |q: Query| match id {
                    Some(i) => q.id(i),
                    None => q,
                };
                let r = match k {
                    0 => h.execute(with(Query::new("SELECT 1"))).await.map_err(|e| e.to_string()),
                    1 => {
                        let b = Block::new().column("x", vec![5u32; nrows]).column("y", vec!["q"; nrows]);
                        let _l = hook::Limit::set(cut);
                        h.insert(with(Query::new("t")), b).await.map_err(|e| e.to_string())
                    }
                    _ => match h.query(with(Query::new("SELECT 1"))).fetch_all().await {
                        Ok(r) => {
                            let zone = if me.hello.rev >= 54058 { me.hello.tz.clone() } else { "UTC".into() };
                            check_block(&r, &b, &zone, true).map(|_| ())
                        }
                        Err(e) => Err(e.to_string()),
                    },
                };
                spin(5).await;
                let e = srv.errors();
                if !e.is_empty() {
                    return err(format!("connection {i} (revision {}): the server could not read what the client sent: {}", me.hello.rev, e.join("; ")));
                }
                r.map_err(|e| format!("operation {k} on connection {i} (revision {}): {e}", me.hello.rev))?;
                let sn = seen.borrow();
                let pieces = if *k == 1 && cut > 0 { nrows.div_ceil(cut).max(1) } else { 1 };
                if sn.len() != pieces || sn.iter().any(|x| x.0 != i) {
                    return err(format!("queries arrived on connections {:?} instead of {i}", sn.iter().map(|x| x.0).collect::<Vec<_>>()));
                }
                for (_, q) in sn.iter() {
                if q.compress != lz4 {
                    return err(format!("compression flag {} on connection {i}", q.compress));
                }
                let wid = id.clone().unwrap_or_default();
                if q.initial_id != wid && q.outer_id != wid {
                    return err(format!("query id {:?}/{:?} instead of {wid:?} on connection {i}", q.outer_id, q.initial_id));
                }
                if q.settings.len() != sets.len() {
                    return err(format!("{} settings sent, {} configured", q.settings.len(), sets.len()));
                }
                for (n, s, imp) in &sets {
                    let ok = match q.settings.iter().find(|x| x.0 == *n) {
                        None => false,
                        Some((_, SettingV::Text(t, im))) => s.same_text(t) && im == imp,
                        Some((_, SettingV::Old(b))) => s.same_old(b),
                    };
                    if !ok {
                        return err(format!("setting {n:?} = {s:?} (important: {imp}) was sent as {:?} to a server of revision {}", q.settings, me.hello.rev));
                    }
                }
                }
            }
        }
        let want = if login { (db, user, pass) } else { ("default".to_string(), "default".to_string(), String::new()) };
        let hl = hellos.borrow();
        if let Some((i, h)) = hl.iter().enumerate().find(|x| *x.1 != want) {
            return err(format!("greeting {h:?} instead of {want:?} on connection {i}"));
        }
        Ok(())
    })
}
pub static C16: Prop = Prop {
    id: "C16",
    rule: "every case sends a greeting and at least one query; distinct by the generated configuration, revision and texts",
    level: "exploration",
    assumptions: &[
        "server revisions from 54032 (client information in queries) on",
        "setting names are not empty",
        "old-style settings: text as text, flags and numbers as varints (negative ones zigzag), floats as text",
    ],
    checks: &[
        Check {
            name: "wire",
            what: "random options, typed settings, SQL texts and query ids for random server revisions; every packet parsed strictly in that revision's layout and compared with the configuration",
            quick: 80000,
            thorough: 1600000,
            threads: 0,
            f: c16_wire,
        },
        Check {
            name: "greeting",
            what: "results and progress packets in the layout of random revisions, decoded with the zone of the greeting",
            quick: 50000,
            thorough: 1000000,
            threads: 0,
            f: c16_greeting,
        },
        Check {
            name: "reconnect",
            what: "connections lost after some operations and replaced by ones to servers of other revisions and zones: each query is laid out, and each result decoded, by the greeting of the connection it used",
            quick: 50000,
            thorough: 1000000,
            threads: 0,
            f: c16_reconnect,
        },
    ],
    findings: &[],
};
