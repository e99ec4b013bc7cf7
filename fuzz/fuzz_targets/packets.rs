//! Coverage-guided search over what a server may send (part of C14's thorough tier).
//!
//! The first byte chooses revision and compression, the rest goes to the client's packet reader.
//! Every block that is read must be usable: as text, through every typed iterator, and it must
//! survive being written and read again, whole and in pieces. Nothing may panic; the memory limit of
//! libFuzzer bounds single allocations.
#![no_main]
use chrono_tz::Tz;
use clickhouse_rs::types::{Block, ColumnType, Decimal, FromSql, FromSqlResult, Simple, Value, ValueRef};
use clickhouse_rs::verify_packets::{concat, pieces, read_block, read_packets, write_block};
use std::collections::HashMap;

const ZONE: Tz = Tz::Europe__Berlin;
const REVISIONS: [u64; 6] = [54213, 54058, 54032, 50264, 54429, 54470];
const ROWS: usize = 3000;

struct Text(String);
impl<'a> FromSql<'a> for Text {
    fn from_sql(v: ValueRef<'a>) -> FromSqlResult<Self> {
        let a = format!("{v} {v:?}");
        let o = Value::from(v);
        Ok(Text(format!("{a} {o} {o:?}")))
    }
}
fn show<K: ColumnType>(b: &Block<K>) -> Vec<Vec<String>> {
    let mut v = vec![];
    for i in 0..b.row_count() {
        let mut r = vec![];
        for j in 0..b.column_count() {
            let t: Text = b.get(i, j).expect("a cell can be read");
            r.push(t.0);
        }
        v.push(r);
    }
    v
}
/// entries of a map have no order
fn no_map(b: &Block) -> bool {
    !b.columns().iter().any(|c| c.sql_type().to_string().contains("Map"))
}
/// the zone of a column's name is not kept
fn fixed(b: &Block) -> bool {
    no_map(b) && !b.columns().iter().any(|c| c.sql_type().to_string().contains("DateTime"))
}
fn again(b: &Block) {
    for compress in [false, true] {
        let w = write_block(b, compress);
        let (b2, left) = read_block(&w, ZONE, compress).expect("a written block can be read");
        assert!(left.is_empty(), "a written block has {} bytes more than it needs", left.len());
        assert_eq!(b2.row_count(), b.row_count());
        assert_eq!(b2.column_count(), b.column_count());
        if fixed(b) {
            assert_eq!(show(b), show(&b2));
        }
    }
    if b.row_count() > 0 {
        let mut rows = 0;
        for piece in pieces(b, 3) {
            let w = write_block(&piece, false);
            let (b2, left) = read_block(&w, ZONE, false).expect("a piece can be read");
            assert!(left.is_empty());
            assert_eq!(b2.row_count(), piece.row_count());
            rows += b2.row_count();
        }
        assert_eq!(rows, b.row_count());
    }
}
fn iterate(b: &Block<Simple>) {
    for col in b.columns() {
        macro_rules! it {
            ($($t:ty),* $(,)?) => { $(
                if let Ok(i) = col.iter::<$t>() {
                    assert_eq!(i.count(), b.row_count(), "{} as {}", col.sql_type(), stringify!($t));
                    for x in col.iter::<$t>().unwrap() {
                        std::hint::black_box(&x);
                    }
                }
            )* };
        }
        it!(
            u8, u16, u32, u64, i8, i16, i32, i64, u128, i128, f32, f64, bool, &[u8], Option<&[u8]>, Option<u8>, Option<u64>,
            chrono::NaiveDate, chrono::DateTime<Tz>, Option<chrono::DateTime<Tz>>, Decimal, Option<Decimal>,
            std::net::Ipv4Addr, std::net::Ipv6Addr, uuid::Uuid, Option<uuid::Uuid>,
            Vec<u8>, Vec<u32>, Vec<&[u8]>, Vec<Option<&[u8]>>, Vec<Vec<u8>>, Vec<Vec<&[u8]>>, Vec<Decimal>, Vec<chrono::NaiveDate>,
            HashMap<&[u8], &[u8]>, HashMap<&[u8], u8>, HashMap<u8, Vec<u8>>, HashMap<&[u8], Vec<&[u8]>>, HashMap<u8, HashMap<&[u8], &[u8]>>,
        );
    }
}

libfuzzer_sys::fuzz_target!(|data: &[u8]| {
    let Some((mode, data)) = data.split_first() else { return };
    let mut blocks: Vec<Block> = vec![];
    let e = read_packets(data, REVISIONS[(mode & 0x7f) as usize % 6], ZONE, mode & 0x80 != 0, &mut |b| {
        if b.row_count() <= ROWS && blocks.len() < 20 {
            show(&b);
            std::hint::black_box(format!("{b:?}"));
            again(&b);
            iterate(&b);
            blocks.push(b);
        }
    });
    std::hint::black_box(e.to_string());
    blocks.retain(|b| !b.is_empty());
    if blocks.is_empty() {
        return;
    }
    if let Ok(c) = concat(&blocks) {
        let (all, got): (Vec<_>, _) = (blocks.iter().flat_map(show).collect(), show(&c));
        assert_eq!(got.len(), all.len());
        if blocks.iter().all(no_map) {
            assert_eq!(got, all);
        }
        std::hint::black_box(format!("{c:?}"));
    }
});
