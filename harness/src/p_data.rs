//! C01, C04, C05, C06, C09: data in and out.
use crate::gen::Src;
use crate::hook;
use crate::lib_build::*;
use crate::model::*;
use crate::run::*;
use crate::server::*;
use clickhouse_rs::types::{Query, Block, ColumnType, Complex};
use clickhouse_rs::Pool;
use std::cell::RefCell;
use std::rc::Rc;

pub fn err<T>(s: impl Into<String>) -> Result<T, String> {
    Err(s.into())
}
pub fn describe(b: &Blk) -> String {
    let cols: Vec<String> = b
        .cols
        .iter()
        .map(|c| {
            let vs: Vec<String> = c.vals.iter().take(3).map(|v| format!("{v:?}")).collect();
            format!("{:?} {} [{}{}]", c.name, c.ty.name(), vs.join(", "), if c.vals.len() > 3 { ", .." } else { "" })
        })
        .collect();
    let s = format!("{} rows; {}", b.rows(), cols.join("; "));
    if s.chars().count() > 900 {
        s.chars().take(900).collect::<String>() + "..."
    } else {
        s
    }
}

/// `INSERT INTO <table> (<names>) VALUES`, tolerant to spacing, case and optional quoting
pub fn parse_insert(sql: &str, table: &str) -> Result<Vec<String>, String> {
    let b: Vec<char> = sql.chars().collect();
    let mut i = 0;
    let ws = |i: &mut usize| {
        while *i < b.len() && b[*i].is_whitespace() {
            *i += 1;
        }
    };
    let word = |i: &mut usize, w: &str| -> Result<(), String> {
        ws(i);
        for c in w.chars() {
            if *i >= b.len() || !b[*i].eq_ignore_ascii_case(&c) {
                return Err(format!("expected {w:?} in {sql:?}"));
            }
            *i += 1;
        }
        Ok(())
    };
    word(&mut i, "INSERT")?;
    word(&mut i, "INTO")?;
    ws(&mut i);
    for c in table.chars() {
        if i >= b.len() || b[i] != c {
            return Err(format!("expected table {table:?} in {sql:?}"));
        }
        i += 1;
    }
    word(&mut i, "(")?;
    let mut names = vec![];
    loop {
        ws(&mut i);
        if i >= b.len() {
            return Err(format!("column list does not end: {sql:?}"));
        }
        if b[i] == ')' {
            i += 1;
            break;
        }
        if b[i] == ',' {
            i += 1;
            continue;
        }
        let mut name = String::new();
        if b[i] == '`' || b[i] == '"' {
            let q = b[i];
            i += 1;
            while i < b.len() && (b[i] != q || b.get(i + 1) == Some(&q)) {
                if b[i] == q {
                    name.push(q);
                    i += 1;
                } else if b[i] == '\\' && i + 1 < b.len() {
                    i += 1;
                    name.push(match b[i] {
                        'n' => '\n',
                        't' => '\t',
                        'r' => '\r',
                        'b' => '\x08',
                        'f' => '\x0c',
                        'a' => '\x07',
                        'v' => '\x0b',
                        'e' => '\x1b',
                        '0' => '\0',
                        c => c,
                    });
                } else {
                    name.push(b[i]);
                }
                i += 1;
            }
            if i >= b.len() {
                return Err(format!("quoted name does not end: {sql:?}"));
            }
            i += 1;
        } else {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                name.push(b[i]);
                i += 1;
            }
            if name.is_empty() {
                return Err(format!("bad column list at {i}: {sql:?}"));
            }
            if name.as_bytes()[0].is_ascii_digit() && !name.bytes().all(|c| c.is_ascii_digit()) {
                return Err(format!("{name:?} is not a name: {sql:?}"));
            }
        }
        names.push(name);
    }
    word(&mut i, "VALUES")?;
    ws(&mut i);
    if i != b.len() {
        return Err(format!("text after VALUES: {sql:?}"));
    }
    Ok(names)
}

/// what the server received for one INSERT statement
#[derive(Debug, Clone)]
pub struct InsertSeen {
    pub sql: String,
    /// query id, settings and compression of the statement
    pub with: String,
    pub blocks: Vec<Blk>,
}
impl InsertSeen {
    pub fn new(q: QueryPkt, blocks: Vec<Blk>) -> InsertSeen {
        InsertSeen {
            with: format!("id {:?}, settings {:?}, compression {}", q.outer_id, q.settings, q.compress),
            sql: q.sql,
            blocks,
        }
    }
}
pub type Seen = Rc<RefCell<Vec<InsertSeen>>>;

/// an insert cut into pieces: as many as needed, none over the limit, all with the same query id and settings
pub fn check_pieces(seen: &[InsertSeen], rows: usize, limit: usize) -> Res {
    hook::PIECES.set(hook::PIECES.get().max(seen.len()));
    for s in seen {
        let n: usize = s.blocks.iter().map(|b| b.rows()).sum();
        if n > limit {
            return err(format!("an INSERT of {n} rows, {limit} are allowed"));
        }
        if s.with != seen[0].with {
            return err(format!("one INSERT with {}, another of the same insert with {}", seen[0].with, s.with));
        }
    }
    let n = rows.div_ceil(limit).max(1);
    if seen.len() != n {
        return err(format!("{} INSERT statements instead of {n}", seen.len()));
    }
    Ok(())
}

/// a server that accepts INSERTs into a table with the given header
pub async fn insert_server(header: Blk, hello: HelloCfg, frag: Frag, seen: Seen) -> Srv {
    Srv::start(hello, frag, move |mut c| {
        let header = header.clone();
        let seen = seen.clone();
        async move {
            c.greet().await?;
            loop {
                let q = c.next_query().await?;
                let body = header.encode(&EncOpts::default());
                let p = c.data_packet(&body, None);
                if !c.send(&p).await {
                    return Ok(());
                }
                let blocks = c.read_insert().await?;
                seen.borrow_mut().push(InsertSeen::new(q, blocks));
                if !c.send(&eos()).await {
                    return Ok(());
                }
            }
        }
    })
    .await
}

/// types as the client can build them (its decimals always have precision 18)
pub fn client_ty(t: &Ty) -> Ty {
    match t {
        Ty::Dec(_, s) => Ty::Dec(18, *s),
        Ty::Null(t) => Ty::Null(Box::new(client_ty(t))),
        Ty::Arr(t) => Ty::Arr(Box::new(client_ty(t))),
        Ty::Lc(t) => Ty::Lc(Box::new(client_ty(t))),
        Ty::Agg(f, t) => Ty::Agg(f.clone(), Box::new(client_ty(t))),
        Ty::Map(k, v) => Ty::Map(Box::new(client_ty(k)), Box::new(client_ty(v))),
        t => t.clone(),
    }
}
pub fn as_client(mut b: Blk) -> Blk {
    for c in b.cols.iter_mut() {
        c.ty = client_ty(&c.ty);
    }
    b
}

/// distinct names
pub fn plain_names(b: &mut Blk) {
    let mut seen: Vec<String> = vec![];
    for c in b.cols.iter_mut() {
        while seen.contains(&c.name) {
            c.name.push('x');
        }
        seen.push(c.name.clone());
    }
}

pub enum Built {
    Ok(Block),
    /// nothing can be built this way (e.g. rows of a zero-row block)
    Skip,
}
pub fn build_rows(b: &Blk, z: &str, g: &mut Src) -> Result<Block, String> {
    let mut out = if g.bool() { Block::new() } else { Block::with_capacity(g.usize(0, 20)) };
    for i in 0..b.rows() {
        out.push(row_of(b, i, z)).map_err(|e| format!("push of row {i} failed: {e}"))?;
    }
    Ok(out)
}
/// columns by typed vectors where there is a constructor, else through a one-column block built by rows
pub fn build_cols(b: &Blk, z: &str, g: &mut Src) -> Result<Block, String> {
    let mut out = Block::new();
    for c in &b.cols {
        out = match add_typed(out, c, z, g) {
            Ok(b) => {
                g.label("typed column");
                b
            }
            Err(b0) => {
                let one = Blk { cols: vec![c.clone()] };
                if one.rows() == 0 {
                    return err("SKIP");
                }
                let tmp = build_rows(&one, z, g)?;
                let col = tmp.columns()[0].clone();
                b0.column(&c.name, col)
            }
        };
    }
    Ok(out)
}

pub fn type_labels(g: &mut Src, b: &Blk) {
    for c in &b.cols {
        c.ty.any(&mut |t| {
            g.label(match t {
                Ty::Null(_) => "Nullable",
                Ty::Arr(_) => "Array",
                Ty::Map(..) => "Map",
                Ty::Lc(_) => "LowCardinality",
                Ty::Agg(..) => "SimpleAggregateFunction",
                Ty::DT64(..) => "DateTime64",
                Ty::Dec(..) => "Decimal",
                Ty::E8(_) | Ty::E16(_) => "Enum",
                Ty::Str | Ty::Fixed(_) => "String",
                Ty::Uuid | Ty::Ip4 | Ty::Ip6 => "IP/UUID",
                Ty::Date | Ty::DateTime(_) => "Date/DateTime",
                Ty::U(128) | Ty::I(128) => "128-bit",
                _ => "number",
            });
            false
        });
    }
}

/// compare what the server received with the expected block
pub fn check_insert(seen: &[InsertSeen], table: &str, want: &Blk, z: &str) -> Res {
    let mut got: Option<Blk> = None;
    if seen.is_empty() {
        return err("no INSERT statement arrived");
    }
    if hook::limit() > 0 {
        check_pieces(seen, want.rows(), hook::limit())?;
    }
    for s in seen {
        let names = parse_insert(&s.sql, table)?;
        let wn: Vec<String> = want.cols.iter().map(|c| c.name.clone()).collect();
        if names != wn {
            return err(format!("INSERT names columns {names:?}, block has {wn:?} ({:?})", s.sql));
        }
        for b in &s.blocks {
            if b.cols.len() != want.cols.len() {
                return err(format!("data block has {} columns instead of {}", b.cols.len(), want.cols.len()));
            }
            for (x, w) in b.cols.iter().zip(&want.cols) {
                if x.name != w.name {
                    return err(format!("data column {:?} instead of {:?}", x.name, w.name));
                }
                if x.ty.norm(z) != w.ty.norm(z) {
                    return err(format!("column {:?} sent as {} instead of {}", x.name, x.ty.name(), w.ty.name()));
                }
            }
            match &mut got {
                None => got = Some(b.clone()),
                Some(g) => {
                    for (a, x) in g.cols.iter_mut().zip(&b.cols) {
                        a.vals.extend(x.vals.iter().cloned());
                    }
                }
            }
        }
    }
    let rows = got.as_ref().map(|g| g.rows()).unwrap_or(0);
    if rows != want.rows() {
        return err(format!("server received {rows} rows instead of {}", want.rows()));
    }
    if let Some(gb) = got {
        for (x, w) in gb.cols.iter().zip(&want.cols) {
            for (i, (a, b)) in x.vals.iter().zip(&w.vals).enumerate() {
                if canon(a) != canon(b) {
                    return err(format!(
                        "column {:?} {} row {i}: server received {a:?}, block holds {b:?}",
                        w.name,
                        w.ty.name()
                    ));
                }
            }
        }
    }
    Ok(())
}

pub fn table_name(g: &mut Src) -> String {
    match g.below(3) {
        0 => "t".into(),
        1 => format!("db.{}", g.ident()),
        _ => g.ident(),
    }
}

// ------------------------------------------------------------------ C01
pub fn c01_insert(g: &mut Src) -> Res {
    let z = gen_tz(g);
    let mut b = as_client(gen_blk(g, &TyCfg::client(), 4, 40, 2));
    plain_names(&mut b);
    let lz4 = g.bool();
    let by_cols = g.bool();
    let table = table_name(g);
    let frag = Frag::gen(g, 200);
    g.say(format!(
        "lz4={lz4} by_{} into {table}: {}",
        if by_cols { "columns" } else { "rows" },
        describe(&b)
    ));
    type_labels(g, &b);
    g.label(if lz4 { "compressed" } else { "plain" });
    if b.rows() == 0 {
        g.label("zero rows");
    }
    let block = match if by_cols { build_cols(&b, &z, g) } else { build_rows(&b, &z, g) } {
        Ok(b) => b,
        Err(e) if e == "SKIP" => return Ok(()),
        Err(e) => return Err(e),
    };
    if !by_cols && b.rows() == 0 {
        return Ok(());
    }
    g.nontrivial = b.rows() > 0;
    let hello = HelloCfg {
        tz: z.clone(),
        ..Default::default()
    };
    // how often, to see that a connection stays usable after an insert
    let times = g.usize(1, 2);
    // a query id and settings belong to every statement of the insert
    let id = if g.chance(1, 3) { g.ident() } else { String::new() };
    let set = g.chance(1, 3);
    block_on(30, async move {
        let seen: Seen = Default::default();
        let srv = insert_server(b.header(), hello, frag, seen.clone()).await;
        let pool = Pool::new(srv.url(&format!(
            "compression={}{}",
            if lz4 { "lz4" } else { "none" },
            if set { "&insert_quorum=2" } else { "" }
        )));
        let mut c = pool.get_handle().await.map_err(|e| format!("connect: {e}"))?;
        for k in 0..times {
            let mut q = Query::new(table.as_str());
            if !id.is_empty() {
                q = q.id(&id);
            }
            let r = c.insert(q, &block).await;
            // let the server see everything that was sent
            spin(20).await;
            let e = srv.errors();
            if !e.is_empty() {
                return err(format!("the server could not read what the client sent: {}", e.join("; ")));
            }
            if let Err(e) = r {
                return err(format!("insert {k} failed: {e}"));
            }
            let s = std::mem::take(&mut *seen.borrow_mut());
            check_insert(&s, &table, &b, &z)?;
            if hook::limit() == 0 && s.len() != 1 {
                return err(format!("{} INSERT statements", s.len()));
            }
        }
        c.ping().await.map_err(|e| format!("ping after insert: {e}"))?;
        let e = srv.errors();
        if !e.is_empty() {
            return err(format!("protocol error after the insert: {}", e.join("; ")));
        }
        Ok(())
    })
}

/// large blocks on their way to the server
fn c01_big(g: &mut Src) -> Res {
    let z = gen_tz(g);
    let (b, mode) = big_blk(g, &TyCfg::client());
    let mut b = as_client(b);
    plain_names(&mut b);
    let lz4 = g.bool();
    let by_cols = b.rows() == 0 || g.bool();
    g.say(format!(
        "lz4={lz4} by_{}: {} rows, {} columns, the first is {} ({})",
        if by_cols { "columns" } else { "rows" },
        b.rows(),
        b.cols.len(),
        b.cols[0].ty.name(),
        BIG_MODES[mode]
    ));
    g.label(BIG_MODES[mode]);
    let block = match if by_cols { build_cols(&b, &z, g) } else { build_rows(&b, &z, g) } {
        Ok(b) => b,
        Err(e) if e == "SKIP" => return Ok(()),
        Err(e) => return Err(e),
    };
    g.nontrivial = b.rows() > 0;
    let hello = HelloCfg {
        tz: z.clone(),
        ..Default::default()
    };
    block_on(120, async move {
        let seen: Seen = Default::default();
        let srv = insert_server(b.header(), hello, Frag::default(), seen.clone()).await;
        let pool = Pool::new(srv.url(if lz4 { "compression=lz4" } else { "" }));
        let mut c = pool.get_handle().await.map_err(|e| format!("connect: {e}"))?;
        let r = c.insert("t", &block).await;
        spin(20).await;
        let e = srv.errors();
        if !e.is_empty() {
            return err(format!("the server could not read what the client sent: {}", e.join("; ")));
        }
        r.map_err(|e| format!("insert failed: {e}"))?;
        let s = std::mem::take(&mut *seen.borrow_mut());
        check_insert(&s, "t", &b, &z)
    })
}

/// whatever the columns are called: the server reads these names, or nothing is sent
fn c01_names(g: &mut Src) -> Res {
    let k = g.usize(1, 4);
    let mut names: Vec<String> = vec![];
    while names.len() < k {
        let n = g.usize(1, 8);
        let s: String = if g.chance(1, 4) {
            g.pick(crate::model::ODD_NAMES).to_string()
        } else {
            (0..n).map(|_| if g.chance(1, 6) { '`' } else { *g.pick(&['a', 'B', '_', '1', '\\', '\'', '"', ' ', ',', ')', '(', '-', '\n', '½', 'é', ';', '.']) }).collect()
        };
        if !names.contains(&s) {
            names.push(s);
        }
    }
    let b = Blk { cols: names.iter().enumerate().map(|(i, s)| Col { name: s.clone(), ty: Ty::U(8), vals: vec![Val::U(i as u128 + 1)] }).collect() };
    let odd = names.iter().any(|s| s.contains('`'));
    let by_cols = g.bool();
    g.say(format!("columns {names:?}"));
    g.label(if odd { "a name with a backtick" } else { "no backticks" });
    g.nontrivial = true;
    let block = if by_cols { build_cols(&b, "UTC", g)? } else { build_rows(&b, "UTC", g)? };
    block_on(30, async move {
        let seen: Seen = Default::default();
        let srv = insert_server(b.header(), HelloCfg::default(), Frag::default(), seen.clone()).await;
        let pool = Pool::new(srv.url(""));
        let mut c = pool.get_handle().await.map_err(|e| format!("connect: {e}"))?;
        let r = c.insert("t", &block).await;
        spin(20).await;
        let e = srv.errors();
        if !e.is_empty() {
            return err(format!("the server could not read what the client sent: {}", e.join("; ")));
        }
        let s = std::mem::take(&mut *seen.borrow_mut());
        match r {
            Ok(()) => check_insert(&s, "t", &b, "UTC")?,
            Err(e) if !odd => return err(format!("the insert failed: {e}")),
            Err(_) if s.is_empty() => (),
            Err(e) => return err(format!("an insert that was sent ({:?}) failed: {e}", s[0].sql)),
        }
        drop(c);
        let mut c = pool.get_handle().await.map_err(|e| format!("connecting again: {e}"))?;
        c.ping().await.map_err(|e| format!("ping after the insert: {e}"))
    })
}

pub static C01: Prop = Prop {
    id: "C01",
    rule: "at least one row was inserted; distinct by the choices that generated the block and the way it was built and sent",
    level: "exploration",
    assumptions: &["a scripted server with an independent codec stands in for ClickHouse"],
    checks: &[Check {
        name: "insert",
        what: "random blocks over client-buildable types, inserted by rows/columns, compressed or not; server-side decode compared cell by cell",
        quick: 60000,
        thorough: 1200000,
        threads: 0,
        f: c01_insert,
    }, Check {
        name: "big",
        what: "blocks with 20,000 to 330,000 rows or array elements, strings of up to 6 MB or 100 to 700 columns",
        quick: 480,
        thorough: 12000,
        threads: 0,
        f: c01_big,
    }, Check {
        name: "names",
        what: "columns with arbitrary names (quotes, backslashes, backticks, control characters, digits of any script): the server reads exactly these names, or the insert is refused before anything is sent",
        quick: 12000,
        thorough: 240000,
        threads: 0,
        f: c01_names,
    }],
    findings: &[],
};

// ------------------------------------------------------------------ C04
pub struct Part {
    /// blocks as sent, the first being the header
    pub packets: Vec<u8>,
}

/// encode a block the way a server may: aliases, dictionary widths, frames
pub fn encode_wild(b: &Blk, g: &mut Src, lz4: bool, wild: bool) -> Vec<u8> {
    encode_wild_dict(b, g, lz4, wild, false)
}
pub fn encode_wild_dict(b: &Blk, g: &mut Src, lz4: bool, wild: bool, big: bool) -> Vec<u8> {
    let o = if wild {
        EncOpts {
            lc_width: g.below(4),
            // dictionaries much larger than the rows need, around the limits of the index widths
            lc_extra: match g.below(24) {
                n @ 0..=17 => n % 3,
                18..=22 if big => 245 + g.below(13),
                _ if big && g.chance(1, 4) => 65525 + g.below(13),
                _ => 3,
            },
            junk_under_null: g.bool(),
        }
    } else {
        EncOpts::default()
    };
    let body = if wild && g.bool() {
        // one spelling per column type, decided by the generator
        let mut names: Vec<String> = vec![];
        for c in &b.cols {
            names.push(alias_name(g, &c.ty));
        }
        let mut it = names.into_iter();
        b.encode_named(&o, &mut |_| it.next().unwrap())
    } else {
        b.encode(&o)
    };
    if lz4 && wild && g.bool() {
        data_packet_multi(&body, g)
    } else {
        data_packet(&body, lz4, Some(g))
    }
}

/// server that answers the k-th query with the k-th byte string
pub async fn reply_server(hello: HelloCfg, frag: Frag, replies: Vec<Vec<u8>>) -> Srv {
    let replies = Rc::new(replies);
    let next = Rc::new(RefCell::new(0usize));
    Srv::start(hello, frag, move |mut c| {
        let replies = replies.clone();
        let next = next.clone();
        async move {
            c.greet().await?;
            loop {
                let _q = c.next_query().await?;
                let k = {
                    let mut n = next.borrow_mut();
                    *n += 1;
                    *n - 1
                };
                let r = replies.get(k).cloned().unwrap_or_else(eos);
                if !c.send(&r).await {
                    return Ok(());
                }
            }
        }
    })
    .await
}

pub fn check_block<K: ColumnType>(got: &Block<K>, want: &Blk, z: &str, typed: bool) -> Result<usize, String> {
    if got.column_count() != want.cols.len() {
        return err(format!("{} columns instead of {}", got.column_count(), want.cols.len()));
    }
    if got.row_count() != want.rows() {
        return err(format!("{} rows instead of {}", got.row_count(), want.rows()));
    }
    let mut n = 0;
    for (j, c) in want.cols.iter().enumerate() {
        let col = &got.columns()[j];
        if col.name() != c.name {
            return err(format!("column {j} named {:?} instead of {:?}", col.name(), c.name));
        }
        let t = lib_ty(&col.sql_type()).map_err(|e| format!("column {j} type {}: {e}", col.sql_type()))?;
        if t != c.ty.norm(z) {
            return err(format!("column {j} has type {} instead of {}", t.name(), c.ty.norm(z).name()));
        }
        for found in [got.get_column(j), got.get_column(c.name.as_str())] {
            let found = found.map_err(|e| format!("get_column({j}/{:?}): {e}", c.name))?;
            if !std::ptr::eq(found, col) {
                return err(format!("get_column({j}/{:?}) gives the column {:?}", c.name, found.name()));
            }
        }
        for i in 0..want.rows() {
            let w = expect(&c.ty, &c.vals[i], z);
            let a: Any = got.get(i, j).map_err(|e| format!("get({i},{j}): {e}"))?;
            if a.0 != w {
                return err(format!("cell ({i},{j}) of {}: got {:?}, sent {:?}", c.ty.name(), a.0, w));
            }
            let a: Any = got.get(i, c.name.as_str()).map_err(|e| format!("get({i},{:?}): {e}", c.name))?;
            if a.0 != w {
                return err(format!("cell ({i},{:?}) by name: got {:?}, sent {:?}", c.name, a.0, w));
            }
            if typed {
                n += typed_cell(got, i, j, &c.ty, &c.vals[i], z)?;
            }
        }
    }
    let mut k = 0;
    for (i, row) in got.rows().enumerate() {
        k += 1;
        if row.len() != want.cols.len() {
            return err(format!("row {i} has {} columns", row.len()));
        }
        if row.is_empty() == (row.len() > 0) {
            return err(format!("row {i} of {} cells: is_empty is {}", row.len(), row.is_empty()));
        }
        for (j, c) in want.cols.iter().enumerate() {
            if i < 3 {
                let ty = got.columns()[j].sql_type();
                for (name, t) in [(row.name(j), row.sql_type(j)), (row.name(c.name.as_str()), row.sql_type(c.name.as_str()))] {
                    if name.as_ref().ok() != Some(&c.name.as_str()) || t.as_ref().ok() != Some(&ty) {
                        return err(format!("row {i} column {j} is {name:?} of type {t:?} instead of {:?} of type {ty}", c.name));
                    }
                }
            }
            let w = expect(&c.ty, &c.vals[i], z);
            let a: Any = if (i + j) % 2 == 0 {
                row.get(j)
            } else {
                row.get(c.name.as_str())
            }
            .map_err(|e| format!("row {i} get({j}): {e}"))?;
            if a.0 != w {
                return err(format!("row {i} column {j} of {}: got {:?}, sent {:?}", c.ty.name(), a.0, w));
            }
        }
    }
    if k != want.rows() {
        return err(format!("iterating rows gave {k} instead of {}", want.rows()));
    }
    Ok(n)
}

pub fn c04_fetch(g: &mut Src) -> Res {
    let z = gen_tz(g);
    let b = gen_blk(g, &TyCfg::server(), 4, 30, 2);
    let lz4 = g.bool();
    let mut reply = encode_wild(&b.header(), g, lz4, true);
    reply.extend(encode_wild(&b, g, lz4, true));
    reply.extend(eos());
    let frag = Frag::gen(g, reply.len());
    g.say(format!("lz4={lz4} server tz {z}: {}", describe(&b)));
    type_labels(g, &b);
    g.label(if lz4 { "compressed" } else { "plain" });
    g.nontrivial = b.rows() > 0;
    let hello = HelloCfg {
        tz: z.clone(),
        ..Default::default()
    };
    block_on(30, async move {
        let srv = reply_server(hello, frag, vec![reply]).await;
        let pool = Pool::new(srv.url(if lz4 { "compression=lz4" } else { "" }));
        let mut c = pool.get_handle().await.map_err(|e| format!("connect: {e}"))?;
        let r: Block<Complex> = c.query("SELECT 1").fetch_all().await.map_err(|e| format!("fetch_all failed: {e}"))?;
        check_block(&r, &b, &z, true)?;
        let e = srv.errors();
        if !e.is_empty() {
            return err(format!("protocol error: {}", e.join("; ")));
        }
        Ok(())
    })
}

/// results with many rows, long arrays or long strings: readers that work in pieces have to put them together
/// many rows, a long array, many columns, a long string or a wide fixed string
fn big_blk(g: &mut Src, cfg: &TyCfg) -> (Blk, usize) {
    const K: usize = 1 << 16;
    let sizes = [K - 1, K, K + 1, 2 * K - 1, 2 * K, 2 * K + 1, 3 * K, 4 * K + 1, 5 * K];
    let n = if g.bool() { *g.pick(&sizes) } else { g.usize(20_000, 3 * K) };
    let mode = g.weighted(&[4, 2, 2, 1, 2]);
    let small = |g: &mut Src, t: &Ty, v: Val| match v {
        Val::Str(s) if s.len() > 12 && !t.name().contains("Fixed") => Val::Str(g.ident().into_bytes()),
        v => v,
    };
    let b = match mode {
        0 => {
            let t = gen_ty(g, cfg, 1);
            let k = g.usize(3, 300);
            let pool: Vec<Val> = (0..k).map(|_| { let v = gen_val(g, &t); small(g, &t, v) }).collect();
            let n = if matches!(t, Ty::Arr(_) | Ty::Map(..)) { n / 3 } else { n };
            let mut b = Blk { cols: vec![Col { name: "v".into(), ty: t, vals: (0..n).map(|i| pool[crate::p_insert::row_ix(i, k)].clone()).collect() }] };
            if g.bool() {
                b.cols.push(Col { name: "i".into(), ty: Ty::U(32), vals: (0..n).map(|i| Val::U(i as u128)).collect() });
            }
            b
        }
        1 => {
            // long arrays
            let t = gen_ty(g, cfg, 0);
            let t = if matches!(t, Ty::Lc(_) | Ty::Agg(..)) { Ty::U(16) } else { t };
            let k = g.usize(3, 100);
            let pool: Vec<Val> = (0..k).map(|_| { let v = gen_val(g, &t); small(g, &t, v) }).collect();
            let rows = g.usize(1, 3);
            let vals = (0..rows).map(|r| Val::Arr((0..if r == 0 { n } else { g.usize(0, 5) }).map(|i| pool[crate::p_insert::row_ix(i, k)].clone()).collect())).collect();
            Blk { cols: vec![Col { name: "v".into(), ty: Ty::Arr(Box::new(t)), vals }] }
        }
        4 => {
            let nc = match g.below(4) {
                0 => g.usize(126, 130),
                1 => g.usize(254, 258),
                _ => g.usize(100, 700),
            };
            let rows = g.usize(0, 3);
            let mut b = gen_blk_sized(g, cfg, nc, rows, 1);
            for c in b.cols.iter_mut() {
                for v in c.vals.iter_mut() {
                    *v = small(g, &c.ty, v.clone());
                }
            }
            b
        }
        3 => {
            let w = n.min(100_000);
            let vals = (0..g.usize(1, 3)).map(|r| Val::Str((0..w).map(|i| (i >> 3) as u8 ^ (i % 251) as u8 ^ r as u8).collect())).collect();
            Blk { cols: vec![Col { name: "v".into(), ty: Ty::Fixed(w), vals }] }
        }
        _ => {
            // long strings
            let rows = g.usize(1, 4);
            let long = g.usize(0, rows - 1);
            let times = if g.chance(1, 4) { 20 } else { 4 };
            let vals = (0..rows).map(|r| {
                let m = if r == long { n * times } else { g.usize(0, 9) };
                let s = g.below(u64::MAX);
                Val::Str((0..m).map(|i| b'a' + (((i as u64).wrapping_mul(s | 1) >> 13) % 26) as u8).collect())
            }).collect();
            Blk { cols: vec![Col { name: "v".into(), ty: Ty::Str, vals }] }
        }
    };
    (b, mode)
}

const BIG_MODES: [&str; 5] = ["many rows", "long array", "long string", "wide fixed string", "many columns"];

fn c04_big(g: &mut Src) -> Res {
    let z = gen_tz(g);
    let (b, mode) = big_blk(g, &TyCfg::server());
    let lz4 = g.bool();
    let part = match g.usize(0, 2) {
        1 if b.rows() > 1 => { let a = g.usize(1, b.rows() - 1); vec![a, b.rows() - a] }
        _ => vec![b.rows()],
    };
    let reply = crate::p_read::reply_of(&b, &part, g, lz4, false, HelloCfg::default().rev);
    g.say(format!("lz4={lz4} server tz {z}: {} rows of {} in blocks of {part:?}, {} bytes", b.rows(), b.cols[0].ty.name(), reply.len()));
    g.label(BIG_MODES[mode]);
    g.nontrivial = true;
    let hello = HelloCfg { tz: z.clone(), ..Default::default() };
    block_on(120, async move {
        let srv = reply_server(hello, Frag::default(), vec![reply]).await;
        let pool = Pool::new(srv.url(if lz4 { "compression=lz4" } else { "" }));
        let mut c = pool.get_handle().await.map_err(|e| format!("connect: {e}"))?;
        let r: Block<Complex> = c.query("SELECT 1").fetch_all().await.map_err(|e| format!("fetch_all failed: {e}"))?;
        if b.rows() > 1000 {
            // the cell comparisons of large blocks, once per cell
            if r.row_count() != b.rows() || r.column_count() != b.cols.len() {
                return err(format!("{} rows of {} columns instead of {} of {}", r.row_count(), r.column_count(), b.rows(), b.cols.len()));
            }
            for (j, c) in b.cols.iter().enumerate() {
                for (i, row) in r.rows().enumerate() {
                    let w = expect(&c.ty, &c.vals[i], &z);
                    let a: Any = if i % 2 == 0 { r.get(i, j) } else { row.get(j) }.map_err(|e| format!("get({i},{j}): {e}"))?;
                    if a.0 != w {
                        return err(format!("cell ({i},{j}) of {}: got {:?}, sent {:?}", c.ty.name(), a.0, w));
                    }
                }
            }
        } else {
            check_block(&r, &b, &z, true)?;
        }
        Ok(())
    })
}

/// type names the client does not know must be an error
fn c04_unsupported(g: &mut Src) -> Res {
    const BAD: &[&str] = &[
        "Nothing", "UInt256", "Int256", "Date32", "Tuple(UInt8, String)", "Object('json')", "JSON", "Decimal(38, 4)",
        "Decimal(19, 4)", "Decimal128(3)", "Float16", "BFloat16", "Point", "Ring", "Variant(UInt8, String)", "Dynamic",
        "AggregateFunction(sum, UInt64)", "IntervalDay", "Nested(a UInt8)", "uint7", "Strin", "Array(UInt9)", "Nullable(Foo)",
        "Map(String, Foo)", "LowCardinality(Foo)", "SimpleAggregateFunction(any, Foo)", "Array(Nullable(Tuple(UInt8)))",
        "DateTime('Mars/Olympus')", "DateTime64(3, 'Mars/Olympus')", "Enum32('a' = 1)", "", "FixedString(x)", "UUIDx", "IPv5", "LowCardinality(Nullable(String))", "FixedString(0)", "FixedString(16777216)", "DateTime64(10)", "Map(UInt8)",
    ];
    let name = g.pick(BAD).to_string();
    let lz4 = g.bool();
    let rows = g.usize(0, 3);
    let mut w = crate::wire::W::new();
    w.uv(1).u8(0).uv(2).i32(-1).uv(0).uv(1).uv(rows as u64);
    w.str(b"c").str(name.as_bytes());
    let junk = vec![0u8; rows * 16];
    w.bytes(&junk);
    let mut reply = data_packet(&w.0, lz4, None);
    reply.extend(eos());
    g.say(format!("column type {name:?}, {rows} rows, lz4={lz4}"));
    g.nontrivial = true;
    let by_stream = g.bool();
    block_on(30, async move {
        let srv = reply_server(HelloCfg::default(), Frag::default(), vec![reply]).await;
        let pool = Pool::new(srv.url(if lz4 { "compression=lz4" } else { "" }));
        let mut c = pool.get_handle().await.map_err(|e| format!("connect: {e}"))?;
        if by_stream {
            use futures_util::TryStreamExt;
            let r: Result<Vec<Block>, _> = c.query("SELECT 1").stream_blocks().try_collect().await;
            if r.is_ok() {
                return err(format!("a column of type {name:?} was accepted by stream_blocks"));
            }
        } else if c.query("SELECT 1").fetch_all().await.is_ok() {
            return err(format!("a column of type {name:?} was accepted by fetch_all"));
        }
        Ok(())
    })
}

pub static C04: Prop = Prop {
    id: "C04",
    rule: "the result has at least one row; distinct by the choices that generated the block and its encoding",
    level: "exploration",
    assumptions: &["a scripted server with an independent codec stands in for ClickHouse"],
    checks: &[
        Check {
            name: "fetch",
            what: "random result blocks over all supported types, spellings, dictionary layouts and frames; names, types, every cell by index, by name, by row and by every natural Rust type compared with the model",
            quick: 40000,
            thorough: 800000,
            threads: 0,
            f: c04_fetch,
        },
        Check {
            name: "unsupported",
            what: "unsupported or unknown column types are errors",
            quick: 10000,
            thorough: 200000,
            threads: 0,
            f: c04_unsupported,
        },
        Check {
            name: "big",
            what: "results with 20,000 to 330,000 rows or array elements or strings of up to 6 MB or 100 to 700 columns, in one or two blocks, with and without compression",
            quick: 240,
            thorough: 6000,
            threads: 0,
            f: c04_big,
        },
    ],
    findings: &[],
};
