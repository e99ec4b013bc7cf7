//! The one hook in the client: how many rows a piece of an INSERT may have (1,048,576 without it).
//! Set per thread; whether the client asks for it is found out at run time, so that code that
//! cuts inserts in another way is judged by the real limit only.
use std::sync::OnceLock;

#[cfg(clickhouse_rs_verify)]
mod imp {
    pub fn set(n: usize) {
        clickhouse_rs::verify::set_insert_rows(n)
    }
    pub fn used() -> usize {
        clickhouse_rs::verify::insert_rows_asked()
    }
}
#[cfg(not(clickhouse_rs_verify))]
mod imp {
    pub fn set(_: usize) {}
    pub fn used() -> usize {
        0
    }
}

thread_local!(static LIMIT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
thread_local!(
    /// the most statements one insert was seen to take
    pub static PIECES: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }
);
/// a limit for the inserts of this thread, until dropped
pub struct Limit(usize);
impl Limit {
    pub fn set(n: usize) -> Limit {
        imp::set(n);
        Limit(LIMIT.replace(n))
    }
}
impl Drop for Limit {
    fn drop(&mut self) {
        imp::set(self.0);
        LIMIT.set(self.0);
    }
}
/// the limit of this thread, 0 for none
pub fn limit() -> usize {
    LIMIT.get()
}

/// does a limit have an effect?
#[cfg(all(clickhouse_rs_verify, feature = "tok"))]
pub fn on() -> bool {
    static ON: OnceLock<bool> = OnceLock::new();
    *ON.get_or_init(|| {
        std::thread::spawn(|| {
            use crate::{model::*, p_data::*, server::*};
            let col = |vals| Blk {
                cols: vec![Col {
                    name: "v".into(),
                    ty: Ty::U(8),
                    vals,
                }],
            };
            let r = block_on(30, async move {
                let seen: Seen = Default::default();
                let srv = insert_server(col(vec![]), HelloCfg::default(), Frag::default(), seen.clone()).await;
                let pool = clickhouse_rs::Pool::new(srv.url(""));
                let mut c = pool.get_handle().await.map_err(|e| e.to_string())?;
                let before = imp::used();
                let _l = Limit::set(1);
                let b = clickhouse_rs::Block::new().column("v", vec![1u8, 2, 3]);
                let _ = c.insert("t", b).await;
                Ok(imp::used() > before)
            });
            r.unwrap_or(false)
        })
        .join()
        .unwrap_or(false)
    })
}
#[cfg(not(all(clickhouse_rs_verify, feature = "tok")))]
pub fn on() -> bool {
    let _: OnceLock<bool> = OnceLock::new();
    let _ = imp::used();
    false
}
