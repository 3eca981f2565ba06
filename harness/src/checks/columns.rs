//! C20: iterating columns, fields, row groups and filtered pages.
use super::files::*;
use super::Def;
use crate::engine::*;
use crate::fx::*;
use futures::io::Cursor as ACursor;
use futures::StreamExt;
use parquet2::compression::CompressionOptions;
use parquet2::error::Error;
use parquet2::metadata::*;
use parquet2::page::*;
use parquet2::read::*;
use parquet2::schema::types::*;
use parquet2::schema::Repetition::*;
use parquet2::FallibleStreamingIterator;
use std::io::Cursor;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

fn failed(key: &str, msg: String) -> Fail {
    Fail { key: key.into(), msg }
}
fn int(name: &str) -> ParquetType {
    prim(name, PhysicalType::Int32, Required)
}
/// schemas whose fields are easily confused: prefixes, inner names equal to outer ones, dots, duplicates, empty names
fn shapes() -> Vec<Vec<ParquetType>> {
    vec![
        vec![int("a")],
        vec![int("ab"), int("a"), int("abc"), int("A")],
        vec![group("s", Optional, vec![int("a"), group("y", Repeated, vec![int("z"), int("s")])]), int("a"), group("a2", Required, vec![int("a")])],
        vec![group("a", Required, vec![int("b")]), int("a.b"), int("b"), group("", Required, vec![int("a"), int("")])],
        vec![int("a"), group("b", Optional, vec![int("a"), int("a")]), int("a")],
        vec![group("m", Optional, vec![group("key_value", Repeated, vec![int("key"), prim("value", PhysicalType::ByteArray, Optional)])]), int("key")],
        vec![int("b"), int("a"), group("e", Required, vec![])],
    ]
}
fn names(fields: &[ParquetType]) -> Vec<String> {
    let mut v: Vec<String> = fields.iter().map(|f| f.name().to_string()).collect();
    v.extend(["zz", "", "a", "s", "key", "a.b", "b", "root"].iter().map(|x| x.to_string()));
    v.sort();
    v.dedup();
    v
}
/// the leaves under the fields named `name`, computed from the tree
fn leaves_of(fields: &[ParquetType], name: &str) -> Vec<usize> {
    fn count(t: &ParquetType) -> usize {
        match t {
            ParquetType::PrimitiveType(_) => 1,
            ParquetType::GroupType { fields, .. } => fields.iter().map(count).sum(),
        }
    }
    let mut at = 0;
    let mut out = vec![];
    for f in fields {
        let n = count(f);
        if f.name() == name {
            out.extend(at..at + n);
        }
        at += n;
    }
    out
}
/// the pages of a column, all different from those of any other column
fn chunk(layout: usize, rows: usize, salt: usize) -> Column {
    let body = |k: usize| {
        let mut b = vec![salt as u8, k as u8];
        b.extend(bytes(7 + 5 * k, salt * 10 + k));
        b
    };
    let p1 = |r: usize, k: usize| Pg::V1 { n: r, rows: r, enc: 0, stats: None, body: body(k) };
    let p2 = |r: usize, k: usize| Pg::V2 { n: r, nulls: 0, rows: r, rep: 1, def: 2, flag: None, enc: 0, stats: None, body: body(k) };
    let d = |k: usize| Pg::Dict { n: 3, sorted: false, body: body(k) };
    match layout {
        0 => vec![p1(rows, 0)],
        1 => vec![d(3), p2(rows, 0)],
        2 => vec![p2(1, 0), p1(rows - 1, 1)],
        3 => vec![d(3), p1(1, 0), p1(rows - 2, 2), p1(1, 1)],
        4 => vec![p1(rows, 0), p2(0, 1)],
        // no pages with values
        5 => vec![],
        _ => vec![d(3)],
    }
}
fn plan_of(fields: Vec<ParquetType>, groups: usize, layout: impl Fn(usize, usize) -> usize, codec: CompressionOptions) -> Plan {
    let n = schema(fields.clone()).columns().len();
    let mut plan = Plan::new(fields, vec![]);
    plan.codec = codec;
    for g in 0..groups {
        let of = |c: usize| layout(g, c);
        // a group without rows: its columns have no pages, or a dictionary only
        let empty = (0..n).any(|c| of(c) >= 5);
        plan.groups.push((0..n).map(|c| chunk(if empty { 5 + of(c) % 2 } else { of(c) }, 4 + g, g * n + c + 1)).collect());
    }
    plan
}
fn seen(c: &Column) -> Vec<Seen> {
    trim(c.iter().map(|p| p.seen()).collect())
}
fn drain(pages: &mut PageReader<&mut Cursor<&[u8]>>, n: usize, style: usize, out: &mut Vec<Seen>, bufs: &mut Vec<Vec<u8>>) -> Result<(), Error> {
    match style {
        0 => {
            for p in pages.by_ref().take(n) {
                out.push(Seen::of(&decompress(p?, &mut vec![])?));
            }
        }
        1 => {
            // the pages are returned to the reader as buffers
            for _ in 0..n {
                let Some(p) = pages.next() else { break };
                let p = p?;
                let mut b = match &p {
                    CompressedPage::Data(_) | CompressedPage::Dict(_) => vec![0xEE; 3],
                };
                out.push(Seen::of(&decompress(p, &mut vec![])?));
                pages.swap_buffer(&mut b);
                bufs.push(b);
            }
        }
        _ => {
            let mut d = BasicDecompressor::new(pages, vec![0xAB; 9]);
            for _ in 0..n {
                match d.next()? {
                    Some(p) => out.push(Seen::of(p)),
                    None => break,
                }
            }
        }
    }
    Ok(())
}
fn same_column(a: &ColumnChunkMetaData, b: &ColumnChunkMetaData) -> bool {
    a.clone().into_thrift() == b.clone().into_thrift() && a.descriptor() == b.descriptor()
}
type Shared = Arc<Vec<u8>>;

fn columns(layouts: usize, groups: usize, styles: usize, large: &[usize]) -> Res {
    let big = !large.is_empty();
    let fields = if big { shapes()[pick(&[2, 5])].clone() } else { pick(&shapes()) };
    let codec = if !big && flag() { CompressionOptions::Snappy } else { CompressionOptions::Uncompressed };
    let first = choose(layouts);
    let step = if big { 0 } else { choose(2) };
    // one of the groups may have no rows
    let empty = if big { 0 } else { choose(groups + 2) };
    let mut plan = plan_of(fields.clone(), groups, |g, c| if g + 1 == empty { 5 + c % 2 } else if empty == groups + 1 && g == 0 { 5 } else { (first + step * (g + c)) % layouts }, codec);
    if !large.is_empty() {
        // every other column is large
        let (more, odd) = (pick(large), choose(2));
        for col in plan.groups.iter_mut().flat_map(|g| g.iter_mut().skip(odd).step_by(2)) {
            if let Some(Pg::V1 { body, .. } | Pg::V2 { body, .. } | Pg::Dict { body, .. }) = col.last_mut() {
                body.extend(bytes(more, body.len()));
            }
        }
    }
    let w = write_file(&plan).map_err(|e| failed("write", format!("{e:?}")))?;
    let m = read_metadata(&mut Cursor::new(&w.bytes)).map_err(|e| failed("metadata", format!("{e:?}")))?;
    ensure!(m.row_groups.len() == groups, "row-groups", "{} row groups instead of {groups}", m.row_groups.len());
    let g = choose(groups);
    let rg = &m.row_groups[g];
    let all = names(&fields);
    let name = &if big { pick(&fields).name().to_string() } else { pick(&all) };
    let leaves = leaves_of(&fields, name);
    visit(&(&w.bytes, g, name));
    // the columns of the field
    let got: Vec<&ColumnChunkMetaData> = get_field_columns(rg.columns(), name).collect();
    ensure!(got.len() == leaves.len(), "field-columns", "field {name:?}: {} columns instead of {}", got.len(), leaves.len());
    for (c, i) in got.iter().zip(&leaves) {
        ensure!(same_column(c, &rg.columns()[*i]), "field-columns", "field {name:?}: column {:?} instead of leaf {i}", c.descriptor().path_in_schema);
    }
    // their bytes
    let part = |i: usize| {
        let (s, l) = rg.columns()[i].byte_range();
        w.bytes[s as usize..(s + l) as usize].to_vec()
    };
    let r = guard("read_columns", || read_columns(&mut Cursor::new(&w.bytes), rg.columns(), name).map(|v| v.into_iter().map(|(c, b)| (c.clone(), b)).collect::<Vec<_>>()))?.map_err(|e| failed("read_columns", format!("{e:?}")))?;
    check_bytes("read_columns", &r, rg, &leaves, part)?;
    let shared: Shared = Arc::new(w.bytes.clone());
    let f = shared.clone();
    let factory = move || {
        let f = f.clone();
        Box::pin(async move { Ok(Source::new(&f, Env::default())) }) as futures::future::BoxFuture<'static, std::io::Result<Source>>
    };
    let r = block_on(async { read_columns_async(factory, rg.columns(), name).await.map(|v| v.into_iter().map(|(c, b)| (c.clone(), b)).collect::<Vec<_>>()) })?.map_err(|e| failed("read_columns_async", format!("{e:?}")))?;
    check_bytes("read_columns_async", &r, rg, &leaves, part)?;
    // the iterator over columns, leaving each after any number of pages
    let style = choose(styles);
    let mut cursor = Cursor::new(w.bytes.as_slice());
    cursor.set_position(choose(2) as u64 * 11);
    // and with a filter of their pages, for all of them
    let one = if big { 0 } else { choose(3) };
    let keep = move |n: usize| one == 0 || (n == 1) == (one == 1);
    let f: Option<PageFilter> = if one == 0 { None } else { Some(Arc::new(move |_: &Descriptor, h: &DataPageHeader| keep(h.num_values()))) };
    let mut it = get_column_iterator(&mut cursor, rg, name, f, vec![0xCD; 40], usize::MAX);
    ensure!(it.get().is_none(), "get-before-advance", "a column is there before the first advance");
    let mut bufs = vec![];
    let mut k = 0;
    loop {
        match guard("ColumnIterator::advance", || it.advance())?.map_err(|e| failed("advance", format!("{e:?}")))? {
            State::Finished(_) => break,
            State::Some(mut next) => {
                ensure!(k < leaves.len(), "columns", "field {name:?}: more than {} columns", leaves.len());
                let (pages, meta) = next.get().ok_or_else(|| failed("get", "no column after advance".to_string()))?;
                ensure!(same_column(meta, &rg.columns()[leaves[k]]), "columns", "field {name:?}: column {k} is {:?}", meta.descriptor().path_in_schema);
                let expect = seen(&plan.groups[g][leaves[k]].iter().filter(|p| p.is_dict() || keep(p.values())).cloned().collect());
                let n = if k < 3 { choose(expect.len() + 2) } else { 9 };
                let mut out = vec![];
                guard("pages", || drain(pages, n, style, &mut out, &mut bufs))?.map_err(|e| failed("pages", format!("{e:?}")))?;
                let out = trim(out);
                let want = trim(expect[..n.min(expect.len())].to_vec());
                ensure!(out == want, "pages", "field {name:?} column {k} after {n} pages: {out:?} instead of {want:?}");
                tally(if n >= expect.len() { "column read to its end" } else { "column left early" });
                it = next;
                k += 1;
            }
        }
    }
    ensure!(k == leaves.len(), "columns", "field {name:?}: {k} columns instead of {}", leaves.len());
    // pre-read columns
    let mut chunks = vec![];
    for i in &leaves {
        let pages: Vec<Result<CompressedPage, Error>> = get_page_iterator(&rg.columns()[*i], Cursor::new(&w.bytes), None, vec![], usize::MAX).map_err(|e| failed("get_page_iterator", format!("{e:?}")))?.collect();
        chunks.push((pages, rg.columns()[*i].clone()));
    }
    let mut it = ReadColumnIterator::new(fields[0].clone(), chunks);
    let mut k = 0;
    loop {
        match it.advance().map_err(|e| failed("advance", format!("{e:?}")))? {
            State::Finished(_) => break,
            State::Some(mut next) => {
                let (pages, meta) = next.get().ok_or_else(|| failed("get", "no column after advance".to_string()))?;
                ensure!(k < leaves.len() && same_column(meta, &rg.columns()[leaves[k]]), "read-columns", "column {k} is {:?}", meta.descriptor().path_in_schema);
                let mut out = vec![];
                let mut d = BasicDecompressor::new(pages, vec![]);
                while let Some(p) = d.next().map_err(|e| failed("pages", format!("{e:?}")))? {
                    out.push(Seen::of(p));
                }
                let want = seen(&plan.groups[g][leaves[k]]);
                ensure!(trim(out.clone()) == want, "read-pages", "column {k}: {out:?} instead of {want:?}");
                it = next;
                k += 1;
            }
        }
    }
    ensure!(k == leaves.len(), "read-columns", "{k} columns instead of {}", leaves.len());
    tally(if leaves.is_empty() { "no such field" } else if leaves.len() == 1 { "one leaf" } else { "several leaves" });
    Ok(())
}
fn check_bytes(what: &str, r: &[(ColumnChunkMetaData, Vec<u8>)], rg: &RowGroupMetaData, leaves: &[usize], part: impl Fn(usize) -> Vec<u8>) -> Res {
    ensure!(r.len() == leaves.len(), what, "{} columns instead of {}", r.len(), leaves.len());
    for ((c, b), i) in r.iter().zip(leaves) {
        ensure!(same_column(c, &rg.columns()[*i]), what, "column {:?} instead of leaf {i}", c.descriptor().path_in_schema);
        ensure!(*b == part(*i), what, "leaf {i}: other bytes");
    }
    Ok(())
}

// ---------------------------------------------------------------- row groups
fn row_groups(max: usize) -> Res {
    let n = choose(max + 1);
    let mask = choose(1 << n);
    let by_value = flag();
    let mut plan = plan_of(shapes()[2].clone(), n, |g, c| (g + c) % 5, CompressionOptions::Uncompressed);
    plan.kv = Some(vec![kv("k", Some("v"))]);
    plan.created_by = Some("me".into());
    let w = write_file(&plan).map_err(|e| failed("write", format!("{e:?}")))?;
    let m = read_metadata(&mut Cursor::new(&w.bytes)).map_err(|e| failed("metadata", format!("{e:?}")))?;
    let calls = Mutex::new(vec![]);
    let f = guard("filter_row_groups", || {
        filter_row_groups(&m, &|rg, i| {
            calls.lock().unwrap().push((rg.num_rows(), i));
            if by_value {
                mask >> (rg.num_rows() - 4) & 1 == 1
            } else {
                mask >> i & 1 == 1
            }
        })
    })?;
    visit(&(n, mask, by_value));
    let calls = calls.into_inner().unwrap();
    ensure!(calls == (0..n).map(|i| (4 + i, i)).collect::<Vec<_>>(), "predicate", "called with {calls:?}");
    let keep: Vec<usize> = (0..n).filter(|i| mask >> i & 1 == 1).collect();
    ensure!(f.row_groups.len() == keep.len(), "kept", "{} groups instead of {keep:?}", f.row_groups.len());
    for (r, i) in f.row_groups.iter().zip(&keep) {
        ensure!(format!("{r:?}") == format!("{:?}", m.row_groups[*i]), "kept", "group {i} is another one");
    }
    ensure!(format!("{:?}", f.schema()) == format!("{:?}", m.schema()), "schema", "the schema changed");
    ensure!(f.key_value_metadata == m.key_value_metadata && f.created_by == m.created_by && f.version == m.version, "metadata", "other metadata changed");
    for (j, i) in keep.iter().enumerate() {
        for c in 0..f.row_groups[j].columns().len() {
            let p = read_pages(Cursor::new(&w.bytes), &f, j, c).map_err(|e| failed("pages", format!("{e:?}")))?;
            ensure!(trim(p.clone()) == seen(&plan.groups[*i][c]), "pages", "group {i} column {c}: {p:?}");
        }
    }
    tally(match keep.len() {
        0 => "no group kept",
        k if k == n => "all groups kept",
        _ => "some groups kept",
    });
    Ok(())
}

// ---------------------------------------------------------------- pages
/// a column of `k` pages: the kinds and sizes of each are chosen, as is whether its header is the same as another's
fn any_column(max: usize) -> Column {
    let n = choose(max + 1);
    let mut c = vec![];
    let dict_at = if n > 0 { choose(3) } else { 0 };
    if dict_at > 0 {
        c.push(Pg::Dict { n: 2, sorted: false, body: bytes(20, 99) });
    }
    for k in 0..n {
        let kind = choose(5);
        let b = |size| {
            let mut b = bytes(size, k * 7 + kind);
            if let Some(x) = b.first_mut() {
                *x = k as u8
            }
            b
        };
        c.push(match kind {
            0 => Pg::V1 { n: 3, rows: 3, enc: 0, stats: None, body: b(13) },
            1 => Pg::V2 { n: 5, nulls: 1, rows: 3, rep: 2, def: 3, flag: None, enc: 0, stats: None, body: b(11 + k) },
            2 => Pg::V2 { n: 3, nulls: 0, rows: 3, rep: 0, def: 1, flag: Some(false), enc: 0, stats: Some((Some(k as i64), None, Some(vec![1, 0, 0, 0]), Some(vec![2, 0, 0, 0]))), body: b(300) },
            3 => Pg::V1 { n: 0, rows: 0, enc: 0, stats: None, body: b(0) },
            _ => Pg::V1 { n: 1, rows: 1, enc: 8, stats: None, body: b(1) },
        });
        if dict_at == 2 && k == 0 {
            c.push(Pg::Dict { n: 1, sorted: true, body: bytes(8, 98) });
        }
    }
    c
}
/// what a filter that keeps the data pages of `mask` (by position) leaves
fn kept(c: &Column, mask: usize) -> (Vec<Seen>, Vec<DataPageHeader>) {
    // readers stop after the last value
    let last = c.iter().rposition(|p| p.values() > 0).map(|x| x + 1).unwrap_or(0);
    let mut out = vec![];
    let mut calls = vec![];
    let mut i = 0;
    for p in &c[..last] {
        if p.is_dict() {
            out.push(p.seen());
        } else {
            calls.push(p.header().unwrap());
            if mask >> i & 1 == 1 {
                out.push(p.seen())
            }
            i += 1;
        }
    }
    (out, calls)
}
struct Watch {
    calls: Arc<Mutex<Vec<DataPageHeader>>>,
    bad: Arc<AtomicUsize>,
}
fn filter(mask: usize, d: &Descriptor) -> (PageFilter, Watch) {
    let w = Watch { calls: Arc::default(), bad: Arc::default() };
    let (calls, bad, d) = (w.calls.clone(), w.bad.clone(), d.clone());
    let f: PageFilter = Arc::new(move |desc: &Descriptor, h: &DataPageHeader| {
        let mut c = calls.lock().unwrap();
        if *desc != d {
            bad.fetch_add(1, Ordering::SeqCst);
        }
        c.push(h.clone());
        mask >> (c.len() - 1) & 1 == 1
    });
    (f, w)
}
/// pages of which at least one is large
fn large_column(thorough: bool) -> Column {
    let sizes = [65_535usize, 65_536, 65_537, 1 << 17, (1 << 20) + 1, 5_000_000];
    let large = pick(&sizes[..if thorough { 6 } else { 5 }]);
    let (n, at, kind) = (3, choose(3), choose(3));
    let mut c = vec![];
    if flag() {
        c.push(Pg::Dict { n: 2, sorted: false, body: bytes(if flag() { large } else { 20 }, 99) });
    }
    for k in 0..n {
        let body = bytes(if k == at { large } else { 5 + k }, k + 3);
        c.push(match (kind + k) % 3 {
            0 => Pg::V1 { n: 3, rows: 3, enc: 0, stats: None, body },
            1 => Pg::V2 { n: 5, nulls: 1, rows: 3, rep: 2, def: 3, flag: None, enc: 0, stats: None, body },
            _ => Pg::V2 { n: 3, nulls: 0, rows: 3, rep: 0, def: 1, flag: Some(false), enc: 0, stats: None, body },
        });
    }
    c
}
fn page_filters(col: Column) -> Res {
    let n = col.iter().filter(|p| !p.is_dict()).count();
    let mask = choose(1 << n);
    let codec = if flag() { CompressionOptions::Snappy } else { CompressionOptions::Uncompressed };
    let rows: usize = col.iter().map(|p| p.rows()).sum();
    // a column after it, so that reading too far is seen
    let mut plan = Plan::new(vec![prim("a", PhysicalType::Int32, Optional), int("b")], vec![vec![col.clone(), vec![v1(rows, 9, 1)]]]);
    plan.codec = codec;
    let w = write_file(&plan).map_err(|e| failed("write", format!("{e:?}")))?;
    let m = read_metadata(&mut Cursor::new(&w.bytes)).map_err(|e| failed("metadata", format!("{e:?}")))?;
    let cc = &m.row_groups[0].columns()[0];
    let d = cc.descriptor().descriptor.clone();
    let (want, want_calls) = kept(&col, mask);
    visit(&(&w.bytes, mask));
    let check = |what: &'static str, out: Vec<Seen>, watch: Watch| -> Res {
        ensure!(watch.bad.load(Ordering::SeqCst) == 0, what, "the filter was given the descriptor of another column");
        let mut calls: Vec<Seen> = watch.calls.lock().unwrap().iter().map(|h| Seen::of_header(h, &[])).collect();
        let wc: Vec<Seen> = want_calls.iter().map(|h| Seen::of_header(h, &[])).collect();
        // pages after the last value may be visited or not
        calls.truncate(wc.len().max(trim(calls.clone()).len()));
        ensure!(calls == wc, what, "the filter was called with {calls:?} instead of {wc:?}");
        ensure!(trim(out.clone()) == trim(want.clone()), what, "keeping {mask:b}: {out:?} instead of {want:?}");
        Ok(())
    };
    let err = |what: &'static str| move |e: Error| failed(what, format!("{e:?}"));
    // synchronous iterator
    let (f, watch) = filter(mask, &d);
    let mut out = vec![];
    guard("iterator", || -> Result<(), Error> {
        let it = get_page_iterator(cc, Cursor::new(&w.bytes), Some(f), vec![7; 3], usize::MAX)?;
        let mut dec = Decompressor::new(it, vec![]);
        while let Some(p) = dec.next()? {
            out.push(Seen::of(p))
        }
        Ok(())
    })?
    .map_err(err("iterator"))?;
    check("iterator", out, watch)?;
    // column iterator
    let (f, watch) = filter(mask, &d);
    let mut cursor = Cursor::new(w.bytes.as_slice());
    let it = get_column_iterator(&mut cursor, &m.row_groups[0], "a", Some(f), vec![], usize::MAX);
    let mut out = vec![];
    if let State::Some(mut it) = it.advance().map_err(err("column-iterator"))? {
        drain(&mut it.get().unwrap().0, usize::MAX, choose(3), &mut out, &mut vec![]).map_err(err("column-iterator"))?;
    }
    check("column-iterator", out, watch)?;
    // streams
    for start in [false, true] {
        let what = if start { "stream-from-start" } else { "stream" };
        let (f, watch) = filter(mask, &d);
        let out = block_on(async {
            let mut r = ACursor::new(w.bytes.as_slice());
            let mut out = vec![];
            if start {
                r.set_position(cc.byte_range().0);
                let s = get_page_stream_from_column_start(cc, &mut r, vec![1, 2], f, usize::MAX).await?;
                futures::pin_mut!(s);
                while let Some(p) = s.next().await {
                    out.push(Seen::of(&decompress(p?, &mut vec![])?))
                }
            } else {
                let s = get_page_stream(cc, &mut r, vec![], f, usize::MAX).await?;
                futures::pin_mut!(s);
                while let Some(p) = s.next().await {
                    out.push(Seen::of(&decompress(p?, &mut vec![])?))
                }
            }
            Ok(out)
        })?
        .map_err(err(what))?;
        check(what, out, watch)?;
    }
    tally(if want.len() == want_calls.len() { "as many pages as data pages" } else { "pages removed or dictionaries added" });
    Ok(())
}

// ---------------------------------------------------------------- many pages
fn many(n: usize) -> Res {
    let style = choose(4);
    let keep_last = flag();
    let mut col: Column = (0..n).map(|_| Pg::V1 { n: 1, rows: 1, enc: 0, stats: None, body: vec![1, 2] }).collect();
    col.push(Pg::V1 { n: 2, rows: 2, enc: 0, stats: None, body: vec![3] });
    let last = col.last().unwrap().seen();
    let plan = Plan::new(vec![int("a")], vec![vec![col]]);
    let w = write_file(&plan).map_err(|e| failed("write", format!("{e:?}")))?;
    let m = read_metadata(&mut Cursor::new(&w.bytes)).map_err(|e| failed("metadata", format!("{e:?}")))?;
    visit(&(n, style, keep_last));
    let f: PageFilter = Arc::new(move |_, h| keep_last && h.num_values() == 2);
    let out = small_stack(512 * 1024, move || -> Res<Vec<Seen>> {
        let cc = &m.row_groups[0].columns()[0];
        let mut out = vec![];
        let e = |e: Error| failed("many", format!("{e:?}"));
        match style {
            0 => {
                for p in get_page_iterator(cc, Cursor::new(&w.bytes), Some(f), vec![], usize::MAX).map_err(e)? {
                    out.push(Seen::of(&decompress(p.map_err(e)?, &mut vec![]).map_err(e)?))
                }
            }
            1 => {
                let it = get_page_iterator(cc, Cursor::new(&w.bytes), Some(f), vec![], usize::MAX).map_err(e)?;
                let mut d = Decompressor::new(it, vec![]);
                while let Some(p) = d.next().map_err(e)? {
                    out.push(Seen::of(p))
                }
            }
            2 => {
                let mut cursor = Cursor::new(w.bytes.as_slice());
                let mut it = get_column_iterator(&mut cursor, &m.row_groups[0], "a", Some(f), vec![], usize::MAX);
                while let State::Some(mut next) = it.advance().map_err(e)? {
                    drain(&mut next.get().unwrap().0, usize::MAX, 0, &mut out, &mut vec![]).map_err(e)?;
                    it = next;
                }
            }
            _ => {
                out = block_on(async {
                    let mut r = ACursor::new(w.bytes.as_slice());
                    let s = get_page_stream(cc, &mut r, vec![], f, usize::MAX).await?;
                    futures::pin_mut!(s);
                    let mut out = vec![];
                    while let Some(p) = s.next().await {
                        out.push(Seen::of(&decompress(p?, &mut vec![])?))
                    }
                    Ok(out)
                })?
                .map_err(e)?;
            }
        }
        Ok(out)
    })??;
    let want = if keep_last { vec![last] } else { vec![] };
    ensure!(out == want, "many", "{} pages: {out:?} instead of {want:?}", n);
    Ok(())
}

pub fn iteration(thorough: bool) -> Def {
    let t = thorough;
    Def {
        spaces: vec![
            super::far::reading(t, super::far::Look::Columns),
            space("columns", move || columns(if t { 5 } else { 4 }, if t { 3 } else { 2 }, 3, &[])),
            space("large columns", move || columns(3, 1, 2, &[65_530, 70_000, (1 << 20) - 20, (1 << 20) + 1, 3_000_000][..if t { 5 } else { 4 }])),
            space("row groups", move || row_groups(if t { 8 } else { 6 })),
            space("page filters", move || page_filters(any_column(if t { 5 } else { 4 }))),
            space("large filtered pages", move || page_filters(large_column(t))),
            space("many pages", move || many(if t { 400_000 } else { 100_000 })),
        ],
        rule: "columns of a field: the leaves below the fields of that name, counted on the schema tree; pages: those of the plan the file was written from, minus the data pages whose position the filter rejects Files of which only some parts are not zero stand for files of more than 2 and 4 GiB: a small file moved to every offset around 2^31, 2^32, 2^33, 2^40, 2^53 and 2^62.",
        assumptions: vec!["pages after the last value of a column may or may not be visited (C01)"],
    }
}
