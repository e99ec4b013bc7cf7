// A scripted stand-in for a server: per connection, a list of replies, one per request of the client.
#![allow(dead_code)]
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub enum Step {
    Send(Vec<u8>),  // wait for a request, then send
    More(Vec<u8>),  // send without waiting for a request
    Wait(u64),      // milliseconds
    Close,
}
use Step::*;

pub fn uv(mut v: u64) -> Vec<u8> {
    let mut o = vec![];
    while v >= 128 {
        o.push(v as u8 | 128);
        v >>= 7;
    }
    o.push(v as u8);
    o
}
pub fn s(x: &str) -> Vec<u8> {
    let mut o = uv(x.len() as u64);
    o.extend(x.as_bytes());
    o
}
pub fn hello() -> Step {
    Send([uv(0), s("fake"), uv(20), uv(1), uv(54213), s("UTC")].concat())
}
pub fn pong() -> Step {
    Send(vec![4])
}
pub fn eos() -> Vec<u8> {
    vec![5]
}
pub fn exception(code: u32, msg: &str) -> Vec<u8> {
    [vec![2], code.to_le_bytes().to_vec(), s("DB::Exception"), s(msg), s("trace"), vec![0]].concat()
}
/// an uncompressed block
pub fn block(rows: u64, cols: &[(&str, &str, Vec<u8>)]) -> Vec<u8> {
    let mut o = vec![1, 0, 1, 0, 2, 255, 255, 255, 255, 0];
    o.extend(uv(cols.len() as u64));
    o.extend(uv(rows));
    for (n, t, d) in cols {
        o.extend(s(n));
        o.extend(s(t));
        o.extend(d);
    }
    o
}
pub type Log = Arc<Mutex<Vec<Vec<Vec<u8>>>>>;

fn request(c: &mut TcpStream) -> Option<Vec<u8>> {
    let mut all = vec![];
    let mut buf = [0u8; 65536];
    c.set_read_timeout(None).ok()?;
    loop {
        match c.read(&mut buf) {
            Ok(0) => return if all.is_empty() { None } else { Some(all) },
            Ok(n) => all.extend(&buf[..n]),
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => return Some(all),
            Err(_) => return if all.is_empty() { None } else { Some(all) },
        }
        c.set_read_timeout(Some(Duration::from_millis(60))).ok()?;
    }
}
/// serves the connections in the order they are made; the log holds the requests of each
pub fn serve(conns: Vec<Vec<Step>>) -> (u16, Log) {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    let log: Log = Arc::new(Mutex::new(vec![]));
    let log2 = log.clone();
    std::thread::spawn(move || {
        for steps in conns {
            let (mut c, _) = l.accept().unwrap();
            let log = log2.clone();
            let i = {
                let mut g = log.lock().unwrap();
                g.push(vec![]);
                g.len() - 1
            };
            std::thread::spawn(move || {
                for st in steps {
                    match st {
                        Send(b) => {
                            match request(&mut c) {
                                Some(r) => log.lock().unwrap()[i].push(r),
                                None => return,
                            }
                            let _ = c.write_all(&b);
                        }
                        More(b) => {
                            let _ = c.write_all(&b);
                        }
                        Wait(ms) => std::thread::sleep(Duration::from_millis(ms)),
                        Close => return,
                    }
                }
                while let Some(r) = request(&mut c) {
                    log.lock().unwrap()[i].push(r);
                }
            });
        }
    });
    (port, log)
}
pub fn run<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(f)
}
pub fn contains(hay: &[u8], needle: &[u8]) -> bool {
    hay.windows(needle.len()).any(|w| w == needle)
}
