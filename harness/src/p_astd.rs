//! C25: the client built for async-std. Built only with the feature `astd`.
use crate::gen::Src;
use crate::model::*;
use crate::p_data::*;
use crate::run::*;
use crate::server::*;
use clickhouse_rs::errors::{DriverError, Error};
use clickhouse_rs::types::Block;
use clickhouse_rs::Pool;
use futures_util::StreamExt;
use std::time::{Duration, Instant};

/// one operation has a short limit and the server stops for ever, or all others have one and the server is slow
fn c25_limits(g: &mut Src) -> Res {
    let op = g.usize(0, 6);
    let names = ["connect", "ping", "fetch", "execute", "insert", "rows", "check"];
    let key = ["connection", "ping", "query", "execute", "insert", "", "ping"][op];
    // streams have no limit
    let stops = op != 5 && g.bool();
    let short = 40 + g.below(120);
    let at = g.usize(0, 2);
    let slow = 3 * short;
    let check = g.bool();
    let lim = |k: &str| -> String {
        if stops {
            if k == key { format!("{short}ms") } else { "60s".into() }
        } else if k == key || (k == "ping" || k == "connection") {
            if (k == "insert" || k == "execute") && short % 3 == 0 { "none".into() } else { "60s".into() }
        } else {
            format!("{short}ms")
        }
    };
    g.nontrivial = true;
    g.say(format!("{} {} after packet {at}, short limit {short} ms, ping_before_query {check}", names[op], if stops { "stops" } else { "is slow" }));
    block_on(120, async {
        let srv = Srv::start(HelloCfg::default(), Frag::default(), move |mut c| async move {
            let wait = || async {
                if stops {
                    std::future::pending::<()>().await;
                }
                tokio::time::sleep(Duration::from_millis(slow)).await;
            };
            if op == 0 {
                let _ = c.recv().await?;
                wait().await;
                let b = c.hello.encode();
                c.send(&b).await;
            } else {
                c.greet().await?;
            }
            loop {
                match c.recv().await? {
                    CPkt::Ping => {
                        if op == 1 || op == 6 {
                            wait().await;
                        }
                        c.send(&pong()).await;
                    }
                    CPkt::Cancel => {}
                    CPkt::Query(q) => {
                        c.expect_end().await?;
                        let blk = |v: Vec<u64>| Blk { cols: vec![Col { name: "v".into(), ty: Ty::U(64), vals: v.into_iter().map(|x| Val::U(x as u128)).collect() }] };
                        let enc = |v: Vec<u64>| data_packet(&blk(v).encode(&EncOpts::default()), false, None);
                        if q.sql.starts_with("INSERT") {
                            if at == 0 {
                                wait().await;
                            }
                            c.send(&enc(vec![])).await;
                            c.read_insert().await?;
                            if at > 0 {
                                wait().await;
                            }
                            c.send(&eos()).await;
                        } else {
                            for (i, p) in [enc(vec![]), enc(vec![1, 2]), eos()].into_iter().enumerate() {
                                if i == at {
                                    wait().await;
                                }
                                c.send(&p).await;
                            }
                        }
                    }
                    p => return Err(RecvErr::Bad(format!("{} packet", p.tag()))),
                }
            }
        })
        .await;
        let url = format!(
            "tcp://{}/?connection_timeout={}&ping_timeout={}&query_timeout={}&insert_timeout={}&execute_timeout={}&send_retries=0&pool_min=0&ping_before_query={check}",
            srv.addr,
            lim("connection"),
            lim("ping"),
            lim("query"),
            lim("insert"),
            lim("execute")
        );
        let pool = Pool::new(url.as_str());
        let mut start = Instant::now();
        let get = tokio::time::timeout(Duration::from_secs(50), pool.get_handle()).await.map_err(|_| format!("HANG: {url}: connecting never ended"))?;
        let r: Result<usize, Error> = match get {
            Err(e) => Err(e),
            Ok(mut h) => {
                if op != 0 {
                    start = Instant::now();
                }
                let f = async {
                    match op {
                        0 => Ok(0),
                        1 => h.ping().await.map(|_| 0),
                        2 => h.query("SELECT 1").fetch_all().await.map(|b| b.row_count()),
                        3 => h.execute("DO 1").await.map(|_| 0),
                        4 => h.insert("t", Block::new().column("v", vec![7u64])).await.map(|_| 0),
                        5 => {
                            let mut n = 0;
                            let mut s = h.query("SELECT 1").stream();
                            while let Some(r) = s.next().await {
                                r?;
                                n += 1;
                            }
                            Ok(n)
                        }
                        _ => h.check_connection().await.map(|_| 0),
                    }
                };
                tokio::time::timeout(Duration::from_secs(50), f).await.map_err(|_| format!("HANG: {url}: {} never ended", names[op]))?
            }
        };
        let took = start.elapsed().as_millis() as u64;
        match r {
            Ok(n) if stops => err(format!("{url}: succeeded with {n} rows, although the server stopped")),
            Ok(n) => {
                let want = if op == 2 || op == 5 { 2 } else { 0 };
                if n != want {
                    return err(format!("{url}: {n} rows"));
                }
                if took + 2 < slow {
                    return err(format!("{url}: ended after {took} ms, the server waits {slow} ms"));
                }
                Ok(())
            }
            Err(e) if !stops => err(format!("{url}: failed with {e:?} after {took} ms")),
            Err(Error::Driver(DriverError::Timeout)) => {
                if took + 2 < short {
                    return err(format!("{url}: timeout after {took} ms"));
                }
                if took > short + 10_000 {
                    return err(format!("{url}: timeout after {took} ms only"));
                }
                Ok(())
            }
            Err(e) => err(format!("{url}: ended with {e:?} instead of a timeout")),
        }
    })
}
pub static C25: Prop = Prop {
    id: "C25",
    rule: "as in the check it is taken from; for limits every case; distinct by the recorded choices",
    level: "exploration",
    assumptions: &[
        "the client is built with its feature `async_std` and without `tokio_io`; it runs on a tokio executor, its sockets and timers are async-std's",
        "time limits are measured in real time: a limit must not end an operation early, and not later than ten seconds after it",
    ],
    checks: &[
        Check { name: "limits", what: "one operation with a short limit against a server that stops, and with a long one against a slow server while all other limits are short", quick: 1200, thorough: 30000, threads: 24, f: c25_limits },
        Check { name: "insert", what: "the check C01", quick: 20000, thorough: 400000, threads: 0, f: c01_insert },
        Check { name: "fetch", what: "the check C04", quick: 12000, thorough: 240000, threads: 0, f: c04_fetch },
        Check { name: "ways", what: "the check C06", quick: 1500, thorough: 50000, threads: 0, f: crate::p_read::c06_ways },
        Check { name: "split", what: "the check C07", quick: 5000, thorough: 100000, threads: 0, f: crate::p_proto::c07_split },
        Check { name: "big", what: "inserts larger than the socket buffers, drained slowly", quick: 12, thorough: 240, threads: 4, f: crate::p_proto::c07_backpressure },
        Check { name: "exception", what: "the check C12", quick: 4000, thorough: 100000, threads: 0, f: crate::p_proto::c12_exception },
        Check { name: "cut", what: "the check C13", quick: 20000, thorough: 400000, threads: 0, f: crate::p_proto::c13_cut },
        Check { name: "wire", what: "the check C16", quick: 20000, thorough: 400000, threads: 0, f: crate::p_conf::c16_wire },
        Check { name: "options", what: "the check C15 of what the server sees of the options", quick: 20000, thorough: 400000, threads: 0, f: crate::p_conf::c15_observe },
        Check { name: "greeting", what: "the check C16", quick: 15000, thorough: 300000, threads: 0, f: crate::p_conf::c16_greeting },
        Check { name: "reconnect", what: "the check C16", quick: 15000, thorough: 300000, threads: 0, f: crate::p_conf::c16_reconnect },
        Check { name: "pool", what: "the check C11 on real threads", quick: 4000, thorough: 80000, threads: 4, f: crate::p_hist::c11_threads },
    ],
    findings: &[],
};
