//! C24: TLS. Built only with the feature `tls`.
//!
//! The scripted servers stay as they are; a terminator in front of them speaks TLS with a certificate
//! made for the case and records the raw bytes that the client sent.
use crate::gen::Src;
use crate::p_data::*;
use crate::run::*;
use crate::server::*;
use clickhouse_rs::types::Block;
use clickhouse_rs::types::Certificate;
use clickhouse_rs::{Options, Pool};
use openssl::asn1::Asn1Time;
use openssl::bn::BigNum;
use openssl::ec::{EcGroup, EcKey};
use openssl::hash::MessageDigest;
use openssl::nid::Nid;
use openssl::pkey::{PKey, Private};
use openssl::x509::extension::{BasicConstraints, SubjectAlternativeName};
use openssl::x509::{X509NameBuilder, X509};
use std::cell::RefCell;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::OnceLock;
use std::task::{Context, Poll};
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, ReadBuf};
use tokio::net::{TcpListener, TcpStream};

// ------------------------------------------------------------------ certificates
#[derive(Clone)]
struct Signed {
    cert: X509,
    key: PKey<Private>,
}
fn fail<T>(e: openssl::error::ErrorStack) -> T {
    harness_error(&format!("openssl: {e}"))
}
fn new_key() -> PKey<Private> {
    (|| {
        let group = EcGroup::from_curve_name(Nid::X9_62_PRIME256V1)?;
        PKey::from_ec_key(EcKey::generate(&group)?)
    })()
    .unwrap_or_else(fail)
}
#[derive(Clone, Debug, PartialEq)]
enum San {
    Ip(String),
    Dns(String),
}
fn make_cert(name: &str, key: &PKey<Private>, ca: Option<&Signed>, sans: &[San], is_ca: bool, from_s: i64, to_s: i64) -> X509 {
    (|| {
        let mut n = X509NameBuilder::new()?;
        n.append_entry_by_text("CN", name)?;
        let n = n.build();
        let mut b = X509::builder()?;
        b.set_version(2)?;
        let mut sn = BigNum::new()?;
        sn.rand(100, openssl::bn::MsbOption::MAYBE_ZERO, false)?;
        let sn = sn.to_asn1_integer()?;
        b.set_serial_number(&sn)?;
        b.set_subject_name(&n)?;
        b.set_issuer_name(ca.map(|c| c.cert.subject_name()).unwrap_or(&n))?;
        b.set_pubkey(key)?;
        let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64;
        let (f, t) = (Asn1Time::from_unix(now + from_s)?, Asn1Time::from_unix(now + to_s)?);
        b.set_not_before(&f)?;
        b.set_not_after(&t)?;
        if is_ca {
            b.append_extension(BasicConstraints::new().critical().ca().build()?)?;
        }
        if !sans.is_empty() {
            let mut s = SubjectAlternativeName::new();
            for x in sans {
                match x {
                    San::Ip(i) => s.ip(i),
                    San::Dns(d) => s.dns(d),
                };
            }
            let e = s.build(&b.x509v3_context(ca.map(|c| &*c.cert), None))?;
            b.append_extension(e)?;
        }
        b.sign(ca.map(|c| &c.key).unwrap_or(key), MessageDigest::sha256())?;
        Ok(b.build())
    })()
    .unwrap_or_else(fail)
}
struct Authorities {
    /// a, b, and the one the system trusts
    cas: [Signed; 3],
    key: PKey<Private>,
}
fn authorities() -> &'static Authorities {
    static A: OnceLock<Authorities> = OnceLock::new();
    A.get_or_init(|| {
        let ca = |n: &str| {
            let key = new_key();
            Signed { cert: make_cert(n, &key, None, &[], true, -86_400 * 30, 86_400 * 30), key }
        };
        let system = (|| {
            Ok(Signed { cert: X509::from_pem(include_bytes!("../data/system.pem"))?, key: PKey::private_key_from_pem(include_bytes!("../data/system.key"))? })
        })()
        .unwrap_or_else(fail);
        Authorities { cas: [ca("authority a"), ca("authority b"), system], key: new_key() }
    })
}
/// makes the third authority the only one that the system trusts; called before anything else runs
pub fn prepare() {
    std::env::set_var("SSL_CERT_FILE", concat!(env!("CARGO_MANIFEST_DIR"), "/data/system.pem"));
    std::env::set_var("SSL_CERT_DIR", concat!(env!("CARGO_MANIFEST_DIR"), "/data/none"));
}

// ------------------------------------------------------------------ the terminator
/// what came from the client, before decryption
struct Tap {
    s: TcpStream,
    raw: Rc<RefCell<Vec<u8>>>,
}
impl AsyncRead for Tap {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        let n = buf.filled().len();
        let r = Pin::new(&mut self.s).poll_read(cx, buf);
        let mut raw = self.raw.borrow_mut();
        if raw.len() < 1 << 20 {
            raw.extend_from_slice(&buf.filled()[n..]);
        }
        drop(raw);
        r
    }
}
impl AsyncWrite for Tap {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        Pin::new(&mut self.s).poll_write(cx, buf)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Pin::new(&mut self.s).poll_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Pin::new(&mut self.s).poll_shutdown(cx)
    }
}
#[derive(Default)]
struct Seen {
    raw: Vec<Rc<RefCell<Vec<u8>>>>,
    /// decrypted bytes that the client sent
    plain: usize,
    handshakes: usize,
}
fn acceptor(s: &Signed) -> tokio_native_tls::TlsAcceptor {
    let id = native_tls::Identity::from_pkcs8(&s.cert.to_pem().unwrap_or_else(fail), &s.key.private_key_to_pem_pkcs8().unwrap_or_else(fail))
        .unwrap_or_else(|e| harness_error(&format!("identity: {e}")));
    native_tls::TlsAcceptor::new(id).unwrap_or_else(|e| harness_error(&format!("acceptor: {e}"))).into()
}
/// accepts on `l`, decrypts, and forwards to `inner`; pieces of at most `piece` bytes become records of their own
fn terminate(l: TcpListener, acc: tokio_native_tls::TlsAcceptor, inner: std::net::SocketAddr, piece: usize, polite: bool) -> Rc<RefCell<Seen>> {
    let seen: Rc<RefCell<Seen>> = Default::default();
    let s2 = seen.clone();
    tokio::task::spawn_local(async move {
        loop {
            let Ok((s, _)) = l.accept().await else { return };
            let _ = s.set_nodelay(true);
            let (seen, acc) = (s2.clone(), acc.clone());
            tokio::task::spawn_local(async move {
                let raw: Rc<RefCell<Vec<u8>>> = Default::default();
                seen.borrow_mut().raw.push(raw.clone());
                let Ok(tls) = acc.accept(Tap { s, raw }).await else { return };
                seen.borrow_mut().handshakes += 1;
                let Ok(back) = TcpStream::connect(inner).await else { return };
                let _ = back.set_nodelay(true);
                let (mut ir, mut iw) = back.into_split();
                let (mut tr, mut tw) = tokio::io::split(tls);
                let up = async {
                    let mut b = vec![0u8; 1 << 16];
                    loop {
                        match tr.read(&mut b).await {
                            Ok(0) | Err(_) => break,
                            Ok(n) => {
                                seen.borrow_mut().plain += n;
                                if iw.write_all(&b[..n]).await.is_err() {
                                    break;
                                }
                            }
                        }
                    }
                    let _ = iw.shutdown().await;
                };
                let down = async {
                    let mut b = vec![0u8; piece];
                    loop {
                        match ir.read(&mut b).await {
                            Ok(0) | Err(_) => break,
                            Ok(n) => {
                                if tw.write_all(&b[..n]).await.is_err() || tw.flush().await.is_err() {
                                    break;
                                }
                            }
                        }
                    }
                    if polite {
                        let _ = tw.shutdown().await;
                    }
                };
                tokio::pin!(up, down);
                tokio::select! {
                    // the server is gone
                    _ = &mut down => {}
                    // the client is gone: the server may still have something to say to nobody
                    _ = &mut up => { let _ = tokio::time::timeout(Duration::from_secs(5), down).await; }
                }
            });
        }
    });
    seen
}
fn local_listener() -> (std::net::SocketAddr, TcpListener) {
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap_or_else(|e| harness_error(&format!("bind: {e}")));
    let a = l.local_addr().unwrap();
    l.set_nonblocking(true).unwrap_or_else(|e| harness_error(&format!("listener: {e}")));
    (a, TcpListener::from_std(l).unwrap_or_else(|e| harness_error(&format!("listener: {e}"))))
}

// ------------------------------------------------------------------ everything else, over TLS
#[derive(Clone, Copy)]
struct FrontCfg {
    piece: usize,
    polite: bool,
}
thread_local! {
    static FRONT: RefCell<Option<FrontCfg>> = const { RefCell::new(None) };
}
/// with TLS switched on for this case, a server behind a terminator that listens in its place
pub fn front_of(l: TcpListener) -> TcpListener {
    let Some(f) = FRONT.with(|f| *f.borrow()) else { return l };
    thread_local! {
        static ACC: tokio_native_tls::TlsAcceptor = {
            let a = authorities();
            acceptor(&Signed { cert: make_cert("server", &a.key, None, &[], false, -1000, 100_000), key: a.key.clone() })
        };
    }
    let (addr, inner) = local_listener();
    terminate(l, ACC.with(|a| a.clone()), addr, f.piece, f.polite);
    inner
}
pub fn url_part() -> &'static str {
    if FRONT.with(|f| f.borrow().is_some()) {
        "&secure=true&skip_verify=true"
    } else {
        ""
    }
}
fn over_tls(g: &mut Src, f: fn(&mut Src) -> Res) -> Res {
    let piece = *g.pick(&[1usize << 16, 1 << 16, 1000, 100, 7]);
    let polite = g.bool();
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            FRONT.with(|f| *f.borrow_mut() = None);
        }
    }
    let _off = Off;
    FRONT.with(|f| *f.borrow_mut() = Some(FrontCfg { piece, polite }));
    g.say(format!("records of at most {piece} bytes, {}", if polite { "closed with a notification" } else { "closed without notification" }));
    f(g)
}
fn tls_insert(g: &mut Src) -> Res {
    over_tls(g, c01_insert)
}
fn tls_fetch(g: &mut Src) -> Res {
    over_tls(g, c04_fetch)
}
fn tls_split(g: &mut Src) -> Res {
    over_tls(g, crate::p_proto::c07_split)
}
fn tls_big(g: &mut Src) -> Res {
    over_tls(g, crate::p_proto::c07_backpressure)
}
fn tls_exception(g: &mut Src) -> Res {
    over_tls(g, crate::p_proto::c12_exception)
}
fn tls_cut(g: &mut Src) -> Res {
    over_tls(g, crate::p_proto::c13_cut)
}

// ------------------------------------------------------------------ verification
#[derive(Clone, Copy, Debug, PartialEq)]
enum Signer {
    Own,
    A,
    B,
    System,
}
#[derive(Clone, Debug)]
struct ServerCert {
    signer: Signer,
    sans: Vec<San>,
    from: i64,
    to: i64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Trust {
    None,
    A,
    B,
    /// the certificate of the first server itself
    Own,
}
fn plain_query(id: usize) -> String {
    format!("SELECT the_secret_text_{id}")
}
fn c24_verify(g: &mut Src) -> Res {
    let a = authorities();
    let nh = g.usize(1, 3);
    let secure = g.chance(9, 10);
    let skip = g.chance(1, 4);
    let trust = *g.pick(&[Trust::A, Trust::A, Trust::None, Trust::B, Trust::Own]);
    let by_url = g.bool();
    let der = g.bool();
    let pooled = nh > 1 || g.bool();
    let mut hosts = vec![];
    for i in 0..nh {
        let ip = fresh_ip().to_string();
        let host = if g.bool() { "localhost".to_string() } else { ip.clone() };
        let right = if host == "localhost" { San::Dns(host.clone()) } else { San::Ip(host.clone()) };
        let wrong = vec![
            vec![],
            vec![San::Dns("localhost.example".into())],
            vec![San::Ip("127.0.0.2".into())],
            vec![San::Dns(format!("{host}.")), San::Dns("other".into())],
            vec![if host == "localhost" { San::Ip("127.0.0.1".into()) } else { San::Dns(ip.clone()) }],
            vec![if host == "localhost" { San::Ip(ip.clone()) } else { San::Dns("localhost".into()) }],
        ];
        let sans = match g.weighted(&[6, 1, 3]) {
            0 => vec![right.clone()],
            1 => vec![San::Dns("other".into()), right.clone(), San::Ip("127.0.0.3".into())],
            _ => g.pick(&wrong).clone(),
        };
        let (from, to) = match g.weighted(&[6, 1, 1]) {
            0 => (-g.range_i64(60, 100_000), g.range_i64(3600, 1_000_000)),
            1 => (-100_000, -g.range_i64(1, 10_000)),
            _ => (g.range_i64(600, 10_000), 1_000_000),
        };
        let signer = *g.pick(&[Signer::A, Signer::A, Signer::Own, Signer::B, Signer::System]);
        hosts.push((host, ServerCert { signer, sans, from, to }, right, i));
    }
    let mut log = vec![format!(
        "secure {secure}, skip_verify {skip}, certificate {trust:?}{}, options by {}, {}",
        if trust == Trust::None { "" } else if der { " (DER)" } else { " (PEM)" },
        if by_url { "URL" } else { "builder" },
        if pooled { "pool" } else { "no pool" }
    )];
    for (h, c, ..) in &hosts {
        log.push(format!("{h}: {c:?}"));
    }
    let mut refused = 0;
    let mut accepted = 0;
    let r = block_on(60, async {
        let mut fronts = vec![];
        let mut certs = vec![];
        for (host, c, ..) in &hosts {
            let srv = Srv::start(HelloCfg::default(), Frag::default(), |mut c| async move {
                c.greet().await?;
                loop {
                    let q = c.next_query().await?;
                    let mut b = vec![];
                    if q.sql.starts_with("INSERT") {
                        b.extend(data_packet(&crate::model::Blk { cols: vec![crate::model::Col { name: "s".into(), ty: crate::model::Ty::Str, vals: vec![] }] }.encode(&crate::model::EncOpts::default()), false, None));
                        c.send(&b).await;
                        c.read_insert().await?;
                        b = vec![];
                    }
                    b.extend(eos());
                    c.send(&b).await;
                }
            })
            .await;
            let key = a.key.clone();
            let ca = match c.signer {
                Signer::Own => None,
                Signer::A => Some(&a.cas[0]),
                Signer::B => Some(&a.cas[1]),
                Signer::System => Some(&a.cas[2]),
            };
            let cert = make_cert("server", &key, ca, &c.sans, false, c.from, c.to);
            certs.push(cert.clone());
            let l = if host == "localhost" {
                TcpListener::bind("127.0.0.1:0").await
            } else {
                TcpListener::bind((host.as_str(), 0)).await
            };
            let l = match l {
                Ok(l) => l,
                Err(_) => return Ok(()),
            };
            let port = l.local_addr().map_err(|e| e.to_string())?.port();
            let seen = if secure {
                terminate(l, acceptor(&Signed { cert, key }), srv.addr, 1 << 16, true)
            } else {
                relay(l, srv.addr)
            };
            fronts.push((format!("{host}:{port}"), seen, srv));
        }
        let mut url = format!(
            "tcp://the_secret_user:the_secret_password@{}/the_secret_db?connection_timeout=60s&ping_timeout=60s&query_timeout=60s&insert_timeout=60s&pool_min=0&send_retries=0",
            fronts[0].0
        );
        if nh > 1 {
            url += &format!("&alt_hosts={}", fronts[1..].iter().map(|f| f.0.clone()).collect::<Vec<_>>().join(","));
        }
        if by_url {
            url += &format!("&secure={secure}&skip_verify={skip}");
        }
        let mut o: Options = url.parse().map_err(|e| format!("{url}: {e}"))?;
        if !by_url {
            o = o.secure(secure).skip_verify(skip);
        }
        let c = match trust {
            Trust::None => None,
            Trust::A => Some(&a.cas[0].cert),
            Trust::B => Some(&a.cas[1].cert),
            Trust::Own => Some(&certs[0]),
        };
        if let Some(c) = c {
            let c = if der { Certificate::from_der(&c.to_der().unwrap_or_else(fail)) } else { Certificate::from_pem(&c.to_pem().unwrap_or_else(fail)) };
            o = o.certificate(Some(c.map_err(|e| format!("certificate: {e:?}"))?));
        }
        let pool = Pool::new(o.clone());
        let mut kept = vec![];
        for i in 0..nh + g.usize(0, 1) {
            let k = if pooled { i % nh } else { 0 };
            let (host, cert, right, ..) = &hosts[k];
            let seen = &fronts[k].1;
            let before = (seen.borrow().raw.len(), seen.borrow().plain);
            let trusted = match cert.signer {
                Signer::A => trust == Trust::A,
                Signer::B => trust == Trust::B,
                Signer::Own => trust == Trust::Own && k == 0,
                Signer::System => true,
            };
            let named = cert.sans.contains(right);
            let valid = cert.from < 0 && cert.to > 0;
            let good = !secure || skip || (trusted && named && valid);
            #[allow(deprecated)]
            let r = if pooled { pool.get_handle().await } else { clickhouse_rs::Client::connect(o.clone()).await };
            let why = format!("host {host}: certificate trusted {trusted}, name matches {named}, valid now {valid}");
            if seen.borrow().raw.len() != before.0 + 1 {
                return err(format!("{why}: {} connections were made to it", seen.borrow().raw.len() - before.0));
            }
            match r {
                Err(e) if good => return err(format!("{why}: connecting failed with {e:?}")),
                Err(_) => {
                    refused += 1;
                    spin(4).await;
                    if seen.borrow().plain != before.1 {
                        return err(format!("{why}: it was refused, but {} bytes were sent to it first", seen.borrow().plain - before.1));
                    }
                }
                Ok(_) if !good => return err(format!("{why}: it was accepted")),
                Ok(mut h) => {
                    accepted += 1;
                    h.execute(plain_query(i)).await.map_err(|e| format!("{why}: query failed with {e:?}"))?;
                    h.insert("the_secret_table", Block::new().column("s", vec!["the_secret_value"]))
                        .await
                        .map_err(|e| format!("{why}: insert failed with {e:?}"))?;
                    let s = seen.borrow();
                    let raw = s.raw.last().unwrap().borrow();
                    let leaked = raw.windows(11).any(|w| w == b"the_secret_");
                    if secure && leaked {
                        return err(format!("{why}: the connection carries readable text"));
                    }
                    if secure && !raw.starts_with(&[0x16, 3]) {
                        return err(format!("{why}: the connection does not begin with a TLS handshake"));
                    }
                    if !secure && !leaked {
                        return err(format!("{why}: a plain connection was asked for"));
                    }
                    drop(raw);
                    drop(s);
                    kept.push(h);
                }
            }
        }
        for f in &fronts {
            if let Some(e) = f.2.errors().iter().find(|e| e.contains("Bad")) {
                return err(format!("the server saw {e}"));
            }
        }
        Ok(())
    });
    g.nontrivial = secure && !skip;
    if refused > 0 {
        g.label("some server was refused");
    }
    if accepted > 0 {
        g.label("some server was accepted");
    }
    if nh > 1 {
        g.label("several hosts");
    }
    g.say(log.join("\n  "));
    r
}
/// forwards without TLS, recording
fn relay(l: TcpListener, inner: std::net::SocketAddr) -> Rc<RefCell<Seen>> {
    let seen: Rc<RefCell<Seen>> = Default::default();
    let s2 = seen.clone();
    tokio::task::spawn_local(async move {
        loop {
            let Ok((s, _)) = l.accept().await else { return };
            let _ = s.set_nodelay(true);
            let raw: Rc<RefCell<Vec<u8>>> = Default::default();
            s2.borrow_mut().raw.push(raw.clone());
            tokio::task::spawn_local(async move {
                let Ok(mut back) = TcpStream::connect(inner).await else { return };
                let mut t = Tap { s, raw };
                let _ = tokio::io::copy_bidirectional(&mut t, &mut back).await;
            });
        }
    });
    seen
}
/// a server that does not speak TLS, or stops in the middle of the handshake
fn c24_no_tls(g: &mut Src) -> Res {
    let what = g.usize(0, 4);
    let skip = g.bool();
    let cut = g.usize(0, 1500);
    let junk = { let n = g.usize(1, 64); g.bytes(n) };
    let mut log = vec![format!("skip_verify {skip}, server {what} (0 plain greeting, 1 junk, 2 closes, 3 handshake cut after {cut} bytes, 4 silence)")];
    let r = block_on(60, async {
        let l = bind().await.map_err(|e| e.to_string())?;
        let addr = l.local_addr().map_err(|e| e.to_string())?;
        let raw: Rc<RefCell<Vec<u8>>> = Default::default();
        let raw2 = raw.clone();
        let hello = HelloCfg::default().encode();
        tokio::task::spawn_local(async move {
            let (mut s, _) = l.accept().await?;
            let mut b = vec![0u8; 4096];
            let n = s.read(&mut b).await?;
            raw2.borrow_mut().extend_from_slice(&b[..n]);
            match what {
                0 => s.write_all(&hello).await?,
                1 => s.write_all(&junk).await?,
                2 => return Ok(()),
                3 => {
                    // the true handshake, seen through a relay that stops
                    let a = authorities();
                    let (inner, il) = local_listener();
                    terminate(il, acceptor(&Signed { cert: make_cert("server", &a.key, None, &[], false, -1000, 100_000), key: a.key.clone() }), inner, 1 << 16, true);
                    let mut t = TcpStream::connect(inner).await?;
                    t.write_all(&b[..n]).await?;
                    let mut left = cut;
                    while left > 0 {
                        let k = t.read(&mut b[..left.min(4096)]).await?;
                        if k == 0 {
                            break;
                        }
                        s.write_all(&b[..k]).await?;
                        left -= k;
                        if k < 4096 && left > 0 {
                            // whatever the client answers is not passed on
                            break;
                        }
                    }
                    return Ok(());
                }
                _ => std::future::pending::<()>().await,
            }
            loop {
                let n = s.read(&mut b).await?;
                if n == 0 {
                    return Ok(());
                }
                raw2.borrow_mut().extend_from_slice(&b[..n]);
            }
            #[allow(unreachable_code)]
            Ok::<(), std::io::Error>(())
        });
        let t = if what == 4 || what == 1 { "80ms" } else { "60s" };
        let url = format!("tcp://the_secret_user:the_secret_password@{addr}/the_secret_db?connection_timeout={t}&secure=true&skip_verify={skip}&pool_min=0");
        let t0 = std::time::Instant::now();
        let r = if g.bool() {
            // junk after which the server waits must not block for ever
            tokio::time::timeout(Duration::from_secs(20), Pool::new(url).get_handle()).await
        } else {
            let o: Options = url.parse().map_err(|e| format!("{e:?}"))?;
            #[allow(deprecated)]
            let f = clickhouse_rs::Client::connect(o);
            tokio::time::timeout(Duration::from_secs(20), f).await
        };
        log.push(format!("  {:?} after {} ms", r.as_ref().map(|r| r.as_ref().map(|_| ()).map_err(|e| e.to_string())), t0.elapsed().as_millis()));
        let raw = raw.borrow();
        if raw.windows(11).any(|w| w == b"the_secret_") {
            return err("the password was sent to a server that does not speak TLS");
        }
        match r {
            Ok(Ok(_)) => err("connected to a server that does not speak TLS"),
            Ok(Err(_)) => Ok(()),
            Err(_) => err("HANG: connecting never ended"),
        }
    });
    g.nontrivial = true;
    g.say(log.join("\n"));
    r
}
/// certificates that are none
fn c24_bad_certificate(g: &mut Src) -> Res {
    let a = authorities();
    let der = g.bool();
    let good = if der { a.cas[0].cert.to_der() } else { a.cas[0].cert.to_pem() }.unwrap_or_else(fail);
    let mut b = good.clone();
    let mut cut = false;
    match g.below(3) {
        0 => {
            b.truncate(g.usize(0, good.len().saturating_sub(30)));
            cut = true;
        }
        1 => {
            let n = g.usize(0, 200);
            b = g.bytes(n);
        }
        _ => {
            let i = g.usize(0, b.len() - 1);
            b[i] = b[i].wrapping_add(g.usize(1, 255) as u8);
        }
    }
    g.nontrivial = true;
    g.say(format!("{} {b:?}", if der { "DER" } else { "PEM" }));
    let r = if der { Certificate::from_der(&b) } else { Certificate::from_pem(&b) };
    match r {
        Ok(_) if cut => err("a truncated certificate was accepted"),
        _ => Ok(()),
    }
}
pub static C24: Prop = Prop {
    id: "C24",
    rule: "certificates are verified, or the operation runs over TLS as in the check it is taken from; distinct by the recorded choices",
    level: "exploration",
    assumptions: &[
        "the client is built with its feature `tls` (native-tls on OpenSSL)",
        "SSL_CERT_FILE names the only system authority",
    ],
    checks: &[
        Check { name: "verify", what: "one to three hosts by name or address, certificates signed by known, unknown and system authorities or by themselves, with right and wrong names and validity, all options; accepted exactly when they have to be, nothing sent before, nothing readable on the wire", quick: 6000, thorough: 300000, threads: 8, f: c24_verify },
        Check { name: "no_tls", what: "servers that answer the TLS handshake with a plain greeting, junk, silence or the beginning of a handshake", quick: 1500, thorough: 60000, threads: 16, f: c24_no_tls },
        Check { name: "bad_certificate", what: "truncated, random and altered certificates given as option", quick: 100000, thorough: 2000000, threads: 0, f: c24_bad_certificate },
        Check { name: "insert", what: "the check C01 over TLS", quick: 8000, thorough: 160000, threads: 0, f: tls_insert },
        Check { name: "fetch", what: "the check C04 over TLS", quick: 6000, thorough: 120000, threads: 0, f: tls_fetch },
        Check { name: "split", what: "the check C07 over TLS", quick: 5000, thorough: 100000, threads: 0, f: tls_split },
        Check { name: "big", what: "inserts larger than the socket buffers over TLS, drained slowly", quick: 12, thorough: 240, threads: 4, f: tls_big },
        Check { name: "exception", what: "the check C12 over TLS", quick: 3000, thorough: 60000, threads: 0, f: tls_exception },
        Check { name: "cut", what: "the check C13 over TLS", quick: 5000, thorough: 100000, threads: 0, f: tls_cut },
    ],
    findings: &[],
};
