//! C01-C05: whole files, written and read through well-behaved and misbehaving I/O.
use super::Def;
use crate::engine::*;
use crate::fx::*;
use parquet2::compression::CompressionOptions;
use parquet2::error::Error;
use parquet2::metadata::KeyValue;
use parquet2::page::*;
use parquet2::read::*;
use parquet2::schema::types::*;
use parquet2::schema::Repetition::*;
use parquet2::write::*;
use parquet2::FallibleStreamingIterator;
use parquet_format_safe as pf;
use parquet_format_safe::thrift::protocol::TCompactInputProtocol;
use std::collections::BTreeSet;
use std::io::Cursor;
use std::sync::Arc;

// ---------------------------------------------------------------- plans
pub fn schemas() -> Vec<Vec<ParquetType>> {
    use PhysicalType::*;
    vec![
        vec![prim("a", Int32, Required)],
        vec![prim("a", Int64, Optional), prim("b", ByteArray, Required)],
        vec![group("s", Optional, vec![prim("x", Double, Optional), group("l", Repeated, vec![prim("y", FixedLenByteArray(3), Required)])])],
        vec![prim("a", Boolean, Required), group("g", Required, vec![prim("b", Int96, Optional)]), prim("c", Float, Repeated)],
    ]
}
/// splits `rows` over `k` pages, unevenly
fn split(rows: usize, k: usize) -> Vec<usize> {
    let mut left = rows;
    (0..k)
        .map(|i| {
            let x = if i + 1 == k { left } else { left / 2 };
            left -= x;
            x
        })
        .collect()
}
pub fn v1(rows: usize, size: usize, salt: usize) -> Pg {
    Pg::V1 { n: rows, rows, enc: 0, stats: None, body: bytes(size, salt) }
}
pub fn v2(rows: usize, size: usize, salt: usize) -> Pg {
    let rep = size / 5;
    let def = size / 4;
    Pg::V2 { n: rows + rows / 2, nulls: rows / 2, rows, rep, def, flag: [None, Some(true), Some(false)][salt % 3], enc: 0, stats: None, body: bytes(size, salt) }
}
pub fn dict(n: usize, size: usize, salt: usize) -> Pg {
    Pg::Dict { n, sorted: salt % 2 == 1, body: bytes(size, salt) }
}
pub fn with_enc(p: Pg, e: i32) -> Pg {
    match p {
        Pg::V1 { n, rows, stats, body, .. } => Pg::V1 { n, rows, enc: e, stats, body },
        Pg::V2 { n, nulls, rows, rep, def, flag, stats, body, .. } => Pg::V2 { n, nulls, rows, rep, def, flag, enc: e, stats, body },
        d => d,
    }
}
pub fn with_stats(p: Pg, s: Option<St>) -> Pg {
    match p {
        Pg::V1 { n, rows, enc, body, .. } => Pg::V1 { n, rows, enc, stats: s, body },
        Pg::V2 { n, nulls, rows, rep, def, flag, enc, body, .. } => Pg::V2 { n, nulls, rows, rep, def, flag, enc, stats: s, body },
        d => d,
    }
}
/// the pages of one column chunk with `rows` rows
fn column(rows: usize, salt: usize) -> Column {
    let k = if rows == 0 { choose(6) } else { 1 + choose(5) };
    let mut c = vec![];
    let r;
    match k {
        0 => {}
        1 => c.push(v1(rows, 11 + salt, salt)),
        2 => {
            c.push(dict(3, 9, salt));
            c.push(with_enc(v1(rows, 5, salt), 8));
        }
        3 => {
            r = split(rows, 2);
            c.push(v1(r[0], 0, salt));
            c.push(v2(r[1], 40, salt));
        }
        4 => {
            r = split(rows, 3);
            c.push(dict(300, 70, salt + 1));
            c.push(with_enc(v2(r[0], 20, salt), 8));
            c.push(with_enc(v2(r[1], 1, salt + 1), 8));
            c.push(v1(r[2], 130, salt + 2));
        }
        _ => {
            // pages with more values than rows
            c.push(Pg::V1 { n: 2 * rows + 1, rows, enc: 5, stats: None, body: bytes(17, salt) });
        }
    }
    c
}
pub fn shaped(max_groups: usize, rowset: &[usize]) -> Plan {
    let fields = pick(&schemas());
    let leaves = schema(fields.clone()).columns().len();
    let groups = seq(0, max_groups, |g| {
        let rows = pick(rowset);
        (0..leaves).map(|c| column(rows, g * 7 + c)).collect::<Group>()
    });
    Plan::new(fields, groups)
}
/// files used under adversarial I/O: small, but with every kind of page
pub fn small_plans(thorough: bool) -> Vec<Plan> {
    let st = |n: i64| Some((Some(n), None, Some(vec![1u8, 0, 0, 0]), Some(vec![9u8, 0, 0, 0])));
    let mut a = Plan::new(vec![prim("a", PhysicalType::Int32, Required)], vec![vec![vec![with_stats(v1(2, 8, 1), st(0))]]]);
    a.stats = true;
    let mut b = Plan::new(
        vec![prim("a", PhysicalType::Int64, Optional), prim("b", PhysicalType::ByteArray, Required)],
        vec![vec![vec![dict(2, 16, 1), with_enc(v2(3, 12, 3), 8)], vec![v1(2, 7, 4), v2(1, 9, 5)]], vec![vec![v1(1, 3, 6)], vec![v1(1, 0, 7)]]],
    );
    b.codec = CompressionOptions::Snappy;
    b.created_by = Some("x".into());
    b.kv = Some(vec![kv("k", Some("v")), kv("l", None)]);
    let mut v = vec![a, b, Plan::new(vec![prim("a", PhysicalType::Int32, Required)], vec![])];
    if thorough {
        let mut c = Plan::new(schemas()[3].clone(), vec![vec![vec![v2(4, 30, 2)], vec![dict(1, 3, 0), v1(4, 30, 3)], vec![v1(2, 5, 8), v1(2, 6, 9)]]]);
        c.codec = CompressionOptions::Zstd(None);
        v.push(c);
    }
    v
}

// ---------------------------------------------------------------- C01
fn parse<T>(b: &[u8], f: impl FnOnce(&mut TCompactInputProtocol<&mut Cursor<&[u8]>>) -> pf::thrift::Result<T>, what: &str) -> Res<(T, usize)> {
    let mut c = Cursor::new(b);
    let r = {
        let mut p = TCompactInputProtocol::new(&mut c, usize::MAX / 4);
        f(&mut p)
    };
    match r {
        Ok(v) => Ok((v, c.position() as usize)),
        Err(e) => fail("layout", format!("{what} cannot be parsed: {e}")),
    }
}
fn footer(b: &[u8]) -> Res<(pf::FileMetaData, usize)> {
    ensure!(b.len() >= 12 && b.starts_with(b"PAR1") && b.ends_with(b"PAR1"), "layout", "no magic at the start and the end");
    let n = b.len();
    let len = u32::from_le_bytes(b[n - 8..n - 4].try_into().unwrap()) as usize;
    ensure!(len + 12 <= n, "layout", "footer length {len} of a file of {n} bytes");
    let start = n - 8 - len;
    let (m, used) = parse(&b[start..n - 8], |p| pf::FileMetaData::read_from_in_protocol(p), "the file metadata")?;
    same!(used, len, "layout", "length of the metadata");
    Ok((m, start))
}
/// Checks the bytes of a file against the plan without using any reading code of the crate.
pub fn check_layout(plan: &Plan, w: &Written) -> Res<pf::FileMetaData> {
    let b = &w.bytes;
    same!(w.size, b.len() as u64, "layout", "size returned by end");
    let (m, meta_start) = footer(b)?;
    if let Some(wm) = &w.metadata {
        ensure!(wm == &m, "layout", "the writer's metadata is not the metadata in the file:\n{wm:?}\n{m:?}");
    }
    same!(m.version, if plan.v1 { 1 } else { 2 }, "layout", "version");
    same!(m.created_by, plan.created_by, "layout", "created_by");
    same!(m.key_value_metadata, plan.kv, "layout", "key value metadata");
    same!(m.row_groups.len(), plan.groups.len(), "layout", "number of row groups");
    let rows = |g: &Group| g.first().map(|c| c.iter().map(|p| p.rows()).sum::<usize>()).unwrap_or(0);
    same!(m.num_rows, plan.groups.iter().map(rows).sum::<usize>() as i64, "layout", "number of rows of the file");
    let mut pos = 4usize;
    let codec: parquet2::compression::Compression = plan.codec.into();
    for (gi, (g, rg)) in plan.groups.iter().zip(&m.row_groups).enumerate() {
        same!(rg.num_rows, rows(g) as i64, "layout", "number of rows of row group {gi}");
        same!(rg.columns.len(), g.len(), "layout", "number of columns of row group {gi}");
        same!(rg.ordinal, i16::try_from(gi).ok(), "layout", "ordinal of row group {gi}");
        let (mut unc, mut com) = (0, 0);
        for (ci, (c, cc)) in g.iter().zip(&rg.columns).enumerate() {
            let d = &plan.schema.columns()[ci];
            let cm = cc.meta_data.as_ref().ok_or_else(|| Fail { key: "layout".into(), msg: "no column metadata".into() })?;
            let start = pos;
            let (mut total_unc, mut total_com) = (0i64, 0i64);
            let mut encs = BTreeSet::new();
            for (pi, p) in c.iter().enumerate() {
                let what = format!("page {pi} of column {ci} of row group {gi} at offset {pos}");
                let (h, hs) = parse(&b[pos..], |p| pf::PageHeader::read_from_in_protocol(p), &what)?;
                same!(h.uncompressed_page_size as usize, p.body().len(), "layout", "uncompressed size of {what}");
                let end = pos + hs + h.compressed_page_size as usize;
                ensure!(end <= meta_start, "layout", "{what} extends past the metadata");
                if plan.codec == CompressionOptions::Uncompressed {
                    ensure!(&b[pos + hs..end] == p.body(), "layout", "bytes of {what}");
                }
                match p {
                    Pg::Dict { n, sorted, .. } => {
                        same!(h.type_, pf::PageType::DICTIONARY_PAGE, "layout", "type of {what}");
                        let dh = h.dictionary_page_header.clone().unwrap();
                        same!((dh.num_values as usize, dh.is_sorted.unwrap_or(false)), (*n, *sorted), "layout", "header of {what}");
                        same!(dh.encoding, pf::Encoding::PLAIN, "layout", "encoding of {what}");
                        encs.insert(dh.encoding.0);
                    }
                    _ => {
                        encs.insert(3);
                        match p.header().unwrap() {
                            DataPageHeader::V1(x) => {
                                same!(h.type_, pf::PageType::DATA_PAGE, "layout", "type of {what}");
                                encs.insert(x.encoding.0);
                                same!(h.data_page_header, Some(x), "layout", "header of {what}");
                            }
                            DataPageHeader::V2(x) => {
                                same!(h.type_, pf::PageType::DATA_PAGE_V2, "layout", "type of {what}");
                                encs.insert(x.encoding.0);
                                let levels = (x.rep_levels() + x.def_levels()).min(p.body().len());
                                ensure!(b[pos + hs..].starts_with(&p.body()[..levels]), "layout", "the levels of {what} are not stored as they are");
                                if x.is_compressed == Some(false) {
                                    ensure!(&b[pos + hs..end] == p.body(), "layout", "bytes of the uncompressed {what}");
                                }
                                same!(h.data_page_header_v2, Some(x), "layout", "header of {what}");
                            }
                        }
                    }
                }
                total_unc += hs as i64 + h.uncompressed_page_size as i64;
                total_com += hs as i64 + h.compressed_page_size as i64;
                pos = end;
            }
            let what = format!("column {ci} of row group {gi}");
            if !c.is_empty() {
                same!(cm.data_page_offset, start as i64, "layout", "offset of {what}");
                same!(cm.codec, codec.into(), "layout", "codec of {what}");
            }
            same!(cm.dictionary_page_offset, None, "layout", "dictionary offset of {what}");
            same!(cm.total_compressed_size, total_com, "layout", "compressed size of {what}");
            same!(cm.total_uncompressed_size, total_unc, "layout", "uncompressed size of {what}");
            same!(cm.num_values, c.iter().map(|p| p.values() as i64).sum::<i64>(), "layout", "number of values of {what}");
            same!(cm.encodings.iter().map(|e| e.0).collect::<BTreeSet<_>>(), encs, "layout", "encodings of {what}");
            same!(cm.path_in_schema, d.path_in_schema, "layout", "path of {what}");
            let ptype: (pf::Type, Option<i32>) = d.descriptor.primitive_type.physical_type.into();
            same!(cm.type_, ptype.0, "layout", "type of {what}");
            if !c.is_empty() {
                // a copy of the column metadata is stored where file_offset says
                same!(cc.file_offset, pos as i64, "layout", "position of the metadata of {what}");
            }
            let (copy, len) = parse(&b[pos..], |p| pf::ColumnMetaData::read_from_in_protocol(p), "the column metadata")?;
            ensure!(&copy == cm, "layout", "the metadata after {what} differs from the footer's");
            pos += len;
            unc += total_unc;
            com += total_com;
        }
        same!(rg.total_byte_size, unc, "layout", "uncompressed size of row group {gi}");
        same!(rg.total_compressed_size, Some(com), "layout", "compressed size of row group {gi}");
        if let Some(first) = g.first() {
            if !first.is_empty() {
                same!(rg.file_offset, Some(rg.columns[0].meta_data.as_ref().unwrap().data_page_offset), "layout", "offset of row group {gi}");
            }
        }
    }
    // the indexes are contiguous and are followed by the metadata
    if plan.stats {
        for rg in &m.row_groups {
            for cc in &rg.columns {
                same!(cc.column_index_offset, Some(pos as i64), "layout", "offset of the column index");
                let (_, len) = parse(&b[pos..], |p| pf::ColumnIndex::read_from_in_protocol(p), "the column index")?;
                same!(cc.column_index_length, Some(len as i32), "layout", "length of the column index");
                pos += len;
            }
        }
    } else {
        ensure!(m.row_groups.iter().flat_map(|r| &r.columns).all(|c| c.column_index_offset.is_none()), "layout", "column index without statistics");
    }
    for rg in &m.row_groups {
        for cc in &rg.columns {
            same!(cc.offset_index_offset, Some(pos as i64), "layout", "offset of the offset index");
            let (_, len) = parse(&b[pos..], |p| pf::OffsetIndex::read_from_in_protocol(p), "the offset index")?;
            same!(cc.offset_index_length, Some(len as i32), "layout", "length of the offset index");
            pos += len;
        }
    }
    same!(pos, meta_start, "layout", "start of the metadata");
    Ok(m)
}
/// Checks that reading the file returns what the plan wrote.
pub fn check_read(plan: &Plan, w: &Written) -> Res {
    let mut c = Cursor::new(&w.bytes[..]);
    let (m, pages) = guard("reading a written file", || read_file(&mut c))?
        .map_err(|e| Fail { key: "roundtrip".into(), msg: format!("a written file cannot be read: {e}; {plan:?}") })?;
    let want = expected(plan);
    for (g, (a, b)) in pages.iter().zip(&want).enumerate() {
        for (c, (a, b)) in a.iter().zip(b).enumerate() {
            ensure!(trim(a.clone()) == trim(b.clone()), "roundtrip", "row group {g} column {c}: read {a:?}, written {b:?}");
        }
    }
    same!(pages.len(), want.len(), "roundtrip", "row groups");
    ensure!(m.schema_descr.fields() == plan.schema.fields() && m.schema_descr.name() == plan.schema.name(), "roundtrip", "schema {:?} instead of {:?}", m.schema_descr, plan.schema);
    ensure!(m.schema_descr.columns() == plan.schema.columns(), "roundtrip", "columns of the schema");
    same!(m.created_by, plan.created_by, "roundtrip", "created_by");
    same!(m.key_value_metadata, plan.kv, "roundtrip", "key value metadata");
    same!(m.version, if plan.v1 { 1 } else { 2 }, "roundtrip", "version");
    let rows = |g: &Group| g.first().map(|c| c.iter().map(|p| p.rows()).sum::<usize>()).unwrap_or(0);
    same!(m.num_rows, plan.groups.iter().map(rows).sum::<usize>(), "roundtrip", "rows");
    for (g, (rg, pg)) in m.row_groups.iter().zip(&plan.groups).enumerate() {
        same!(rg.num_rows(), rows(pg), "roundtrip", "rows of row group {g}");
        for (c, (cc, pc)) in rg.columns().iter().zip(pg).enumerate() {
            same!(cc.num_values(), pc.iter().map(|p| p.values() as i64).sum::<i64>(), "roundtrip", "values of column {c} of row group {g}");
            same!(cc.descriptor(), &plan.schema.columns()[c], "roundtrip", "descriptor of column {c}");
            if pc.is_empty() {
                continue;
            }
            // the byte range holds the pages and nothing else
            let (s, l) = cc.byte_range();
            let it = PageReader::new(&w.bytes[s as usize..(s + l) as usize], cc, Arc::new(|_, _| true), vec![], usize::MAX);
            let got = it.collect::<Result<Vec<_>, _>>()?;
            let kept = trim(pc.iter().map(|p| p.seen()).collect()).len();
            ensure!(got.len() >= kept && got.len() <= pc.len(), "roundtrip", "{} pages instead of {kept} in the byte range of column {c}", got.len());
            let mut size = 0;
            for (p, want) in got.iter().zip(pc) {
                let (unc, com, n) = match p {
                    CompressedPage::Data(p) => (p.uncompressed_size(), p.compressed_size(), p.num_values()),
                    CompressedPage::Dict(p) => (want.body().len(), 0, { let _ = p; 0 }),
                };
                same!((unc, n), (want.body().len(), want.values()), "roundtrip", "sizes of a page of column {c}");
                size += com;
            }
            ensure!(size as u64 <= l, "roundtrip", "pages larger than the column");
        }
    }
    Ok(())
}
trait Levels {
    fn rep_levels(&self) -> usize;
    fn def_levels(&self) -> usize;
}
impl Levels for DataPageHeaderV2 {
    fn rep_levels(&self) -> usize {
        self.repetition_levels_byte_length as usize
    }
    fn def_levels(&self) -> usize {
        self.definition_levels_byte_length as usize
    }
}
pub fn write_ok(plan: &Plan) -> Res<Written> {
    guard("writing a file", || write_file(plan))?.map_err(|e| Fail { key: "write".into(), msg: format!("writing failed: {e}; {plan:?}") })
}
fn full(plan: &Plan) -> Res {
    let w = write_ok(plan)?;
    visit(&w.bytes);
    sample(|| format!("{:?} -> {} bytes", plan.groups, w.bytes.len()));
    check_layout(plan, &w)?;
    check_read(plan, &w)
}
/// pages given as they are
struct Given {
    pages: std::vec::IntoIter<CompressedPage>,
    current: Option<CompressedPage>,
}
impl FallibleStreamingIterator for Given {
    type Item = CompressedPage;
    type Error = Error;
    fn advance(&mut self) -> Result<(), Error> {
        self.current = self.pages.next();
        Ok(())
    }
    fn get(&self) -> Option<&CompressedPage> {
        self.current.as_ref()
    }
}
pub fn roundtrip(thorough: bool) -> Def {
    let t = thorough;
    let spaces = vec![
        super::far::reading(t, super::far::Look::Pages),
        super::far::large_files(t, false, super::far::Look::Pages),
        super::far::many_rows(t, false),
        space("shapes", move || {
            let mut plan = shaped(if t { 2 } else { 1 }, if t { &[0, 1, 5] } else { &[0, 5] });
            plan.codec = pick(&[CompressionOptions::Uncompressed, CompressionOptions::Snappy]);
            full(&plan)
        }),
        space("the same bytes again", move || {
            // writing is a function: the same plan gives the same bytes every time, whatever else was written before
            let encs = [0, 2, 4, 5, 6, 7, 8, 9];
            let n = choose(6);
            let mut col: Column = if flag() { vec![dict(3, 12, 1)] } else { vec![] };
            let from = choose(encs.len());
            for i in 0..n {
                let p = if flag() { v1(2, 9, i) } else { v2(2, 9, i) };
                col.push(with_enc(p, encs[(from + 3 * i) % encs.len()]));
            }
            let fields = vec![prim("a", PhysicalType::Int32, Required), prim("b", PhysicalType::Int32, Required)];
            let mut plan = Plan::new(fields, vec![vec![col.clone(), col]]);
            plan.codec = pick(&[CompressionOptions::Uncompressed, CompressionOptions::Snappy, CompressionOptions::Gzip(None)]);
            plan.kv = Some((0..6).map(|i| kv(&format!("k{i}"), Some("v"))).collect());
            plan.created_by = Some("someone".into());
            visit(&(n, from));
            let first = guard("write", || write_file(&plan))??.bytes;
            for k in 0..12 {
                let again = guard("write", || write_file(&plan))??.bytes;
                ensure!(again == first, "differs", "writing the same again (time {k}) gives other bytes: {plan:?}");
            }
            Ok(())
        }),
        space("groups", move || {
            // several row groups, one column with few shapes
            let fields = vec![prim("a", PhysicalType::Int32, Required)];
            let groups = seq(0, if t { 5 } else { 4 }, |g| {
                vec![match choose(5) {
                    0 => vec![],
                    1 => vec![v1(0, 0, 0)],
                    2 => vec![v1(3 + g, 10, g)],
                    3 => vec![dict(g, 8, g), v2(2, 9, g)],
                    _ => vec![v2(1, 6, g), v1(200, 400, g), v2(0, 0, 1)],
                }]
            });
            let mut plan = Plan::new(fields, groups);
            plan.v1 = flag();
            plan.codec = pick(&[CompressionOptions::Uncompressed, CompressionOptions::Lz4Raw]);
            full(&plan)
        }),
        space("codecs", move || {
            let fields = vec![prim("a", PhysicalType::ByteArray, Optional)];
            let mut plan = Plan::new(fields, vec![]);
            plan.codec = pick(&codecs());
            let sizes: &[usize] = if t { &[0, 1, 2, 60, 3000, 70_000] } else { &[0, 1, 60, 3000] };
            let mut col = vec![];
            if flag() {
                col.push(dict(7, pick(sizes), 3));
            }
            col.extend(seq(1, 2, |i| {
                let size = pick(sizes);
                match choose(4) {
                    0 => v1(4, size, i),
                    k => {
                        let (rep, def) = pick(&[(0, 0), (0, size / 2), (size / 3, size / 3), (size, 0)]);
                        Pg::V2 { n: 6, nulls: 1, rows: 4, rep, def, flag: [None, Some(true), Some(false)][k - 1], enc: 0, stats: None, body: bytes(size, i) }
                    }
                }
            }));
            plan.groups = vec![vec![col]];
            full(&plan)
        }),
        space("headers", move || {
            // statistics of pages keep their bytes, encodings are recorded
            let types = [(PhysicalType::Boolean, 1usize), (PhysicalType::Int32, 4), (PhysicalType::Int64, 8), (PhysicalType::Int96, 12), (PhysicalType::Float, 4), (PhysicalType::Double, 8), (PhysicalType::ByteArray, 5), (PhysicalType::FixedLenByteArray(3), 3)];
            let (ty, size) = pick(&types);
            let fields = vec![prim("a", ty, Optional)];
            let col = seq(1, 2, |i| {
                let val = |k: usize| vec![k as u8; size];
                let st = match choose(4) {
                    0 => None,
                    1 => Some((Some(3), None, None, None)),
                    2 => Some((Some(i as i64), Some(2), Some(val(0)), Some(val(1)))),
                    _ => Some((None, None, Some(val(0)), Some(val(1)))),
                };
                let e = pick(&[0, 2, 3, 5, 6, 7, 8, 9]);
                let p = if flag() { v1(3, 10, i) } else { v2(3, 10, i) };
                with_stats(with_enc(p, e), st)
            });
            let plan = Plan::new(fields, vec![vec![col]]);
            full(&plan)
        }),
        space("with-indexes", move || {
            let fields = vec![prim("a", PhysicalType::Int32, Optional), prim("b", PhysicalType::ByteArray, Optional)];
            let groups = seq(0, 2, |g| {
                (0..2)
                    .map(|c| {
                        let k = 1 + choose(3);
                        let mut col: Column = split(6, k)
                            .into_iter()
                            .enumerate()
                            .map(|(i, r)| {
                                let st = if flag() { (Some(1), None, Some(vec![i as u8; 4]), Some(vec![9; 4])) } else { (Some(r as i64), None, None, None) };
                                with_stats(v1(r, 5 + i, g + c), Some(st))
                            })
                            .collect();
                        if c == 1 {
                            col.insert(0, dict(1, 4, 2));
                        }
                        col
                    })
                    .collect::<Group>()
            });
            let mut plan = Plan::new(fields, groups);
            plan.stats = true;
            full(&plan)
        }),
        space("options", move || {
            let mut plan = small_plans(true)[choose(4)].clone();
            plan.v1 = flag();
            if plan.groups.is_empty() || plan.stats {
                plan.stats = flag();
            }
            plan.codec = pick(&codecs());
            plan.created_by = pick(&[None, Some(String::new()), Some("créateur".to_string()), Some("z".repeat(300))]);
            plan.kv = pick(&[None, Some(vec![]), Some(vec![kv("", Some(""))]), Some(vec![kv("a", None), kv("a", Some("b")), kv("µ", Some("\n"))])]);
            full(&plan)
        }),
        space("row-selections", move || {
            // pages whose rows are given through a selection (as returned by a reader)
            let d = descriptor(PhysicalType::Int32, false);
            let col = seq(1, 3, |i| (choose(3), v1(i + 2, 9, i)));
            let fields = vec![prim("c", PhysicalType::Int32, Required)];
            let groups = vec![vec![col.iter().map(|x| x.1.clone()).collect::<Column>()]];
            let plan = Plan::new(fields, groups);
            let allowed = col.iter().all(|(k, _)| *k == 0);
            let pages: Vec<Result<Page, Error>> = col
                .iter()
                .map(|(k, p)| {
                    let mut page = p.page(&d);
                    if let Page::Data(p) = &mut page {
                        match k {
                            0 => {}
                            1 => p.selected_rows = None,
                            _ => p.selected_rows = Some(vec![iv(0, 1), iv(3, 1)]),
                        }
                    }
                    Ok(page)
                })
                .collect();
            let mut f = FileWriter::new(vec![], plan.schema.clone(), plan.options(), None);
            let it: RowGroupIter<Error> = DynIter::new(std::iter::once(Ok(DynStreamingIterator::new(Compressor::new(pages.into_iter(), plan.codec, vec![])))));
            let r = guard("writing a page with a row selection", || f.write(it))?;
            if allowed {
                r?;
                let size = f.end(None)?;
                let (bytes, m) = f.into_inner_and_metadata();
                let w = Written { bytes, size, metadata: Some(m) };
                check_layout(&plan, &w)?;
                check_read(&plan, &w)
            } else {
                ensure!(r.is_err(), "row-count", "pages whose number of rows is unknown were written: {col:?}");
                Ok(())
            }
        }),
        space("counts", move || {
            // the numbers of values, nulls and rows are any non-negative 32-bit numbers; their sums are larger
            let counts: &[usize] = if t { &[0, 1, 127, 128, 255, 256, 65_535, 65_536, 1 << 30, i32::MAX as usize - 1, i32::MAX as usize] } else { &[0, 1, 255, 65_536, i32::MAX as usize] };
            let shape = |i: usize| {
                let counts = if i > 0 { &[0, 1, 255, 65_536, i32::MAX as usize] } else { counts };
                let (n, rows) = (pick(counts), pick(counts));
                match choose(2) {
                    0 => Pg::V1 { n, rows, enc: 0, stats: None, body: bytes(8, i) },
                    _ => Pg::V2 { n, nulls: pick(counts), rows, rep: 0, def: 0, flag: None, enc: 0, stats: None, body: bytes(8, i) },
                }
            };
            let mut col: Column = if flag() { vec![dict(pick(&[0, 1, 255, 65_536, i32::MAX as usize]), 8, 0)] } else { vec![] };
            col.extend(seq(1, 2, shape));
            let total = col.iter().map(|p| p.rows()).sum();
            let other = vec![Pg::V1 { n: 1, rows: total, enc: 0, stats: None, body: vec![] }];
            let full_group = total <= i32::MAX as usize;
            let fields = vec![prim("a", PhysicalType::Int32, Required), prim("b", PhysicalType::Int32, Required)];
            let groups = if full_group { vec![vec![col.clone(), other.clone()], vec![other, col]] } else { vec![vec![col.clone(), col.clone()], vec![col.clone(), col]] };
            full(&Plan::new(fields, groups))
        }),
        space("every header field", move || {
            // the levels' encodings and all the statistics of a page, also the deprecated ones
            let b = |x: u8| if flag() { Some(vec![x, 0, 0, 0]) } else { None };
            let statistics = if flag() {
                None
            } else {
                Some(parquet2::statistics::ParquetStatistics { max: b(9), min: b(1), null_count: pick(&[None, Some(0), Some(2), Some(i64::MAX)]), distinct_count: pick(&[None, Some(0), Some(3), Some(i64::MAX)]), max_value: b(8), min_value: b(2) })
            };
            let header = if flag() {
                let levels = pick(&[(3, 3), (3, 4), (4, 3), (4, 4)]);
                DataPageHeader::V1(DataPageHeaderV1 { num_values: 2, encoding: pf::Encoding(0), definition_level_encoding: pf::Encoding(levels.0), repetition_level_encoding: pf::Encoding(levels.1), statistics })
            } else {
                DataPageHeader::V2(DataPageHeaderV2 { num_values: 2, num_nulls: 1, num_rows: 2, encoding: pf::Encoding(0), definition_levels_byte_length: 1, repetition_levels_byte_length: 1, is_compressed: pick(&[None, Some(true), Some(false)]), statistics })
            };
            let plan = Plan::new(vec![prim("a", PhysicalType::Int32, Optional)], vec![]);
            let body = bytes(9, 1);
            let page = Page::Data(DataPage::new(header.clone(), body.clone(), plan.schema.columns()[0].descriptor.clone(), Some(2)));
            let mut f = FileWriter::new(vec![], plan.schema.clone(), plan.options(), None);
            let codec = pick(&[CompressionOptions::Uncompressed, CompressionOptions::Snappy]);
            let pages = Compressor::new(std::iter::once(Ok::<_, Error>(page)), codec, vec![]);
            f.write(DynIter::new(std::iter::once(Ok(DynStreamingIterator::new(pages)))))?;
            f.end(None)?;
            let out = f.into_inner_and_metadata().0;
            let (m, got) = read_file(&mut Cursor::new(&out))?;
            let want = vec![vec![vec![Seen::of_header(&header, &body)]]];
            visit(&format!("{header:?}{codec:?}"));
            ensure!(got == want, "roundtrip", "a page was written with the header {header:?} and read as {got:?}");
            let it = PageReader::new(Cursor::new(&out[4..]), &m.row_groups[0].columns()[0], Arc::new(|_, _| true), vec![], usize::MAX);
            for p in it {
                if let CompressedPage::Data(p) = p? {
                    let (x, y) = (format!("{:?}", p.header()), format!("{header:?}"));
                    ensure!(x == y, "roundtrip", "the header {y} was read as {x}");
                }
            }
            Ok(())
        }),
        // pages that are small because they are compressed: the size they decompress to is any size
        space("declared sizes", move || {
            let big = i32::MAX as usize;
            let sizes = seq(1, 3, |i| pick(&[i, 300, 1 << 30, big - 200, big - 20, big]));
            let with_dict = flag().then(|| pick(&[7, big - 20, big]));
            let plan = Plan::new(vec![prim("a", PhysicalType::Int32, Required)], vec![]);
            let d = plan.schema.columns()[0].descriptor.clone();
            let codec = parquet2::compression::Compression::Zstd;
            let mut pages: Vec<CompressedPage> = vec![];
            if let Some(n) = with_dict {
                pages.push(CompressedPage::Dict(CompressedDictPage::new(bytes(9, 1), codec, n, 4, false)));
            }
            for (i, n) in sizes.iter().enumerate() {
                let header = if i % 2 == 0 { v1(2, 9, i) } else { with_enc(v2(2, 0, i), 0) }.header().unwrap();
                pages.push(CompressedPage::Data(CompressedDataPage::new(header, bytes(9 + i, i), codec, *n, d.clone(), Some(2))));
            }
            let groups = 1 + choose(2);
            let mut f = FileWriter::new(vec![], plan.schema.clone(), plan.options(), None);
            let all: Vec<usize> = with_dict.into_iter().chain(sizes.iter().copied()).collect();
            visit(&(all.clone(), groups));
            for g in 0..groups {
                let n = if g == 0 { pages.len() } else { 0 };
                let mut ps: std::vec::IntoIter<_> = pages.drain(..n).collect::<Vec<_>>().into_iter();
                if g == 1 {
                    ps = vec![CompressedPage::Data(CompressedDataPage::new(v1(2, 9, 0).header().unwrap(), bytes(5, 1), codec, big, d.clone(), Some(2)))].into_iter();
                }
                let it = Given { pages: ps, current: None };
                guard("write", || f.write(DynIter::new(std::iter::once(Ok(DynStreamingIterator::new(it))))))??;
            }
            f.end(None)?;
            let (out, m) = f.into_inner_and_metadata();
            for (g, rg) in m.row_groups.iter().enumerate() {
                let want: Vec<usize> = if g == 0 { all.clone() } else { vec![big] };
                let md = rg.columns[0].meta_data.as_ref().unwrap();
                let mut at = md.data_page_offset as usize;
                let (mut unc, mut comp) = (0i64, 0i64);
                for (i, n) in want.iter().enumerate() {
                    let mut rest = &out[at..];
                    let h = pf::PageHeader::read_from_in_protocol(&mut TCompactInputProtocol::new(&mut rest, 1 << 20)).map_err(|e| Fail { key: "declared".into(), msg: format!("page header {i}: {e}") })?;
                    same!(h.uncompressed_page_size as usize, *n, "declared", "uncompressed size of page {i}");
                    let head = (out.len() - at - rest.len()) as i64;
                    unc += head + *n as i64;
                    comp += head + h.compressed_page_size as i64;
                    at += head as usize + h.compressed_page_size as usize;
                }
                same!((md.total_uncompressed_size, md.total_compressed_size), (unc, comp), "declared", "total sizes of the column, pages of {want:?}");
                same!((rg.total_byte_size, rg.total_compressed_size), (unc, Some(comp)), "declared", "total sizes of the row group, pages of {want:?}");
            }
            let r = guard("read_metadata", || read_metadata(&mut Cursor::new(&out)))??;
            for (g, rg) in m.row_groups.iter().enumerate() {
                let md = rg.columns[0].meta_data.as_ref().unwrap();
                let c = &r.row_groups[g].columns()[0];
                same!((c.uncompressed_size(), c.compressed_size()), (md.total_uncompressed_size, md.total_compressed_size), "declared", "sizes read");
                same!(r.row_groups[g].total_byte_size() as i64, rg.total_byte_size, "declared", "size of the group read");
                let want: Vec<usize> = if g == 0 { all.clone() } else { vec![big] };
                let got = guard("PageReader", || get_page_iterator(c, Cursor::new(&out), None, vec![], usize::MAX).and_then(|it| it.collect::<Result<Vec<_>, _>>()))??;
                let got: Vec<usize> = got.iter().map(|p| match p {
                    CompressedPage::Data(p) => p.uncompressed_size(),
                    CompressedPage::Dict(_) => with_dict.unwrap_or(0),
                }).collect();
                same!(got, want, "declared", "uncompressed sizes of the pages read");
            }
            Ok(())
        }),
        space("many row groups", || {
            // more than the ordinal of a row group can count
            let n = pick(&[32_767usize, 32_768, 32_769, 33_000]);
            let plan = Plan::new(vec![prim("a", PhysicalType::Int32, Required)], (0..n).map(|g| vec![vec![v1(1 + g % 3, 4, g)]]).collect());
            visit(&n);
            full(&plan)
        }),
        space("scale", move || {
            // many columns, row groups or pages, large pages: one dimension is large at a time, sometimes two
            use PhysicalType::*;
            let kinds = [Int32, Boolean, ByteArray, Int96, FixedLenByteArray(300)];
            let (columns, groups, pages, size) = match choose(5) {
                0 => (pick(&[127usize, 128, 129, 300, 1000]), pick(&[1usize, 3]), 1, 5),
                1 => (1 + choose(2), pick(&[127usize, 128, 129, 255, 256, 257, 1000]), 1, 5),
                2 => (1 + choose(2), 1 + choose(2), pick(&[127usize, 128, 129, 255, 256, 257, 3000]), 5),
                3 => (1, 1 + choose(2), 1 + choose(2), pick(if t { &[65_535usize, 65_536, 65_537, 1 << 20, (1 << 20) + 1, 9_000_000][..] } else { &[65_535, 65_536, 65_537, 1_500_000] })),
                _ => (30, 30, 30, 3),
            };
            let nested = flag();
            let leaf = |i: usize| prim(&format!("column {i}"), kinds[i % kinds.len()], if i % 3 == 0 { Optional } else { Required });
            let fields = match nested {
                false => (0..columns).map(leaf).collect(),
                true => (0..columns).collect::<Vec<_>>().chunks(7).enumerate().map(|(g, c)| group(&format!("g{g}"), Optional, c.iter().map(|i| leaf(*i)).collect())).collect(),
            };
            let groups = (0..groups)
                .map(|g| {
                    let rows = 2 + g % 300;
                    (0..columns)
                        .map(|c| {
                            let mut col: Column = if (g + c) % 4 == 3 { vec![dict(c, size, c)] } else { vec![] };
                            col.extend(split(rows * pages, pages).into_iter().enumerate().map(|(i, r)| {
                                let p = if (i + c) % 2 == 0 { v1(r, size + i % 3, i + c) } else { v2(r, size + i % 3, i + g) };
                                with_enc(p, if (g + c) % 4 == 3 { 8 } else { 0 })
                            }));
                            col
                        })
                        .collect::<Group>()
                })
                .collect();
            let mut plan = Plan::new(fields, groups);
            plan.codec = pick(&[CompressionOptions::Uncompressed, CompressionOptions::Snappy, CompressionOptions::Zstd(None)]);
            plan.kv = Some(vec![kv("k", Some(&"v".repeat(pick(&[0, 70_000]))))]);
            full(&plan)
        }),
    ];
    Def {
        spaces,
        rule: "Every file of the bounded space is written by FileWriter; its bytes are then decoded twice: by an independent walk (thrift structures parsed with the thrift library only, every offset, size, count, encoding and header recomputed from the plan) and by the crate's readers, both compared with what was asked to be written. Files of which only some parts are not zero stand for files of more than 2 and 4 GiB: a small file moved to every offset around 2^31, 2^32, 2^33, 2^40, 2^53 and 2^62, and files written with up to 7 pages of up to 2 GiB each to a sink that keeps small writes only; row groups of more than 2^32 rows.",
        assumptions: vec!["page bodies are opaque byte patterns (deterministic, half repetitive); typed contents are the subject of C19", "outside the scale space: at most 5 row groups, 3 columns, 4 pages per column, pages up to 70 kB"],
    }
}

// ---------------------------------------------------------------- C02
fn err_kind(e: &Error) -> std::mem::Discriminant<Error> {
    std::mem::discriminant(e)
}
/// results agree: both fail, or both succeed with equal values
fn agree<T: PartialEq + std::fmt::Debug>(what: &str, s: &Result<T, Error>, a: &Result<T, Error>) -> Res {
    match (s, a) {
        (Ok(x), Ok(y)) => {
            ensure!(x == y, "async-differs", "{what}: sync returned {x:?}, async {y:?}");
            tally("both succeed");
        }
        (Err(x), Err(y)) => {
            let _ = (err_kind(x), err_kind(y));
            tally("both fail");
        }
        _ => return fail("async-differs", format!("{what}: sync {s:?}, async {a:?}")),
    }
    Ok(())
}
type FileSeen = (pf::FileMetaData, Vec<Vec<Vec<Seen>>>);
async fn read_file_async(mut src: Source) -> Result<FileSeen, Error> {
    let m = read_metadata_async(&mut src).await?;
    let mut out = vec![];
    for g in 0..m.row_groups.len() {
        let mut cols = vec![];
        for c in 0..m.row_groups[g].columns().len() {
            cols.push(read_pages_async(&mut src, &m, g, c).await?);
        }
        out.push(cols);
    }
    Ok((thrift(&m), out))
}
fn read_file_sync(b: &[u8]) -> Result<FileSeen, Error> {
    read_file(&mut Cursor::new(b)).map(|(m, p)| (thrift(&m), p))
}
/// one column read page by page by sync and async code, with a page filter; items until the first error
fn items_sync(b: &[u8], m: &parquet2::metadata::FileMetaData, g: usize, c: usize, filter: PageFilter, max: usize) -> (Vec<Seen>, bool) {
    let mut out = vec![];
    let mut ok = true;
    match get_page_iterator(&m.row_groups[g].columns()[c], Cursor::new(b), Some(filter), vec![], max) {
        Err(_) => ok = false,
        Ok(it) => {
            for p in it {
                match p.and_then(|p| decompress(p, &mut vec![])) {
                    Ok(p) => out.push(Seen::of(&p)),
                    Err(_) => {
                        ok = false;
                        break;
                    }
                }
            }
        }
    }
    (out, ok)
}
pub fn items_async(src: Source, m: &parquet2::metadata::FileMetaData, g: usize, c: usize, filter: PageFilter, max: usize, from_start: bool) -> Res<(Vec<Seen>, bool)> {
    use futures::StreamExt;
    block_on(async move {
        let mut src = src;
        let mut out = vec![];
        let mut ok = true;
        let col = &m.row_groups[g].columns()[c];
        macro_rules! drain {
            ($s:expr) => {
                match $s {
                    Err(_) => ok = false,
                    Ok(s) => {
                        futures::pin_mut!(s);
                        while let Some(p) = s.next().await {
                            match p.and_then(|p| decompress(p, &mut vec![])) {
                                Ok(p) => out.push(Seen::of(&p)),
                                Err(_) => {
                                    ok = false;
                                    break;
                                }
                            }
                        }
                    }
                }
            };
        }
        if from_start {
            src.pos = col.byte_range().0;
            drain!(get_page_stream_from_column_start(col, &mut src, vec![], filter, max).await);
        } else {
            drain!(get_page_stream(col, &mut src, vec![], filter, max).await);
        }
        (out, ok)
    })
}
fn page_filters() -> Vec<PageFilter> {
    vec![
        Arc::new(|_, _| true),
        Arc::new(|_, _| false),
        Arc::new(|_, h: &DataPageHeader| matches!(h, DataPageHeader::V1(_))),
        Arc::new(|_, h: &DataPageHeader| h.num_values() > 1),
    ]
}
pub fn async_equiv(thorough: bool) -> Def {
    let t = thorough;
    let plans: Arc<Vec<(Plan, Arc<Vec<u8>>)>> = Arc::new(small_plans(true).into_iter().chain([
        // row groups and columns without pages
        Plan::new(vec![prim("a", PhysicalType::Int32, Optional), prim("b", PhysicalType::ByteArray, Required)], vec![vec![vec![], vec![]], vec![vec![dict(1, 4, 1)], vec![]], vec![vec![v1(2, 8, 1)], vec![v1(2, 3, 2)]]]),
    ]).map(|p| {
        let w = write_file(&p).map(|w| w.bytes).unwrap_or_default();
        (p, Arc::new(w))
    }).collect());
    let p1 = plans.clone();
    let p2 = plans.clone();
    let p3 = plans.clone();
    let p4 = plans.clone();
    let p5 = plans.clone();
    let pend = Env { pending: true, short: true, ..Env::default() };
    let spaces = vec![
        super::far::reading(t, super::far::Look::Async),
        super::far::large_files(t, true, super::far::Look::Async),
        space("write/shapes", move || {
            let mut plan = shaped(if t { 2 } else { 1 }, &[0, 5]);
            plan.codec = pick(&[CompressionOptions::Uncompressed, CompressionOptions::Snappy]);
            plan.v1 = flag();
            plan.stats = t && flag(); // fails when pages miss statistics: both must fail
            let s = guard("sync write", || write_file(&plan))?.map(|w| (w.bytes, w.size));
            let a = guard("async write", || block_on(write_to_async(&plan, Sink::new(Env::default()))))??.map(|(w, n)| (w.data, n));
            visit(&s.as_ref().ok().map(|x| x.0.clone()));
            agree("writing", &s, &a)
        }),
        space("write/large", move || {
            // parts of the output that are larger than 2^16: the footer, an offset index, a column index, a page
            let which = choose(6);
            let fields = vec![prim("a", PhysicalType::Int32, Required)];
            let mut plan = match which {
                0 => Plan::new(fields, (0..3000).map(|g| vec![vec![v1(1 + g % 3, 4, g)]]).collect()),
                1 => Plan::new(fields, vec![vec![(0..9000).map(|i| v1(1 + i % 3, 4 + i % 2, i)).collect()]; 2]),
                2 => Plan::new(fields, vec![vec![(0..9000).map(|i| with_stats(v2(1 + i % 3, 4, i), super::far::st(1, 9))).collect()]; 2]),
                3 => Plan::new(fields, vec![vec![vec![dict(9, 70_000, 1), v1(3, 66_000, 2), v2(3, 131_073, 3)], ]]),
                4 => Plan::new(fields, (0..32_770).map(|g| vec![vec![v1(1, 4, g)]]).collect()),
                _ => {
                    let mut p = Plan::new(fields, vec![vec![vec![v1(3, 6, 2)]]]);
                    p.kv = Some(vec![kv("k", Some(&"v".repeat(70_000)))]);
                    p
                }
            };
            plan.stats = which == 2;
            let s = guard("sync write", || write_file(&plan))?.map(|w| (w.bytes, w.size));
            let a = guard("async write", || block_on(write_to_async(&plan, Sink::new(Env::default()))))??.map(|(w, n)| (w.data, n));
            ensure!(s.is_ok(), "async-differs", "writing failed: {:?}", s.err());
            let b = s.as_ref().unwrap().0.clone();
            ensure!(s.ok() == a.ok(), "async-differs", "another large output");
            let x = guard("sync read", || read_file_sync(&b))?;
            let y = guard("async read", || block_on(read_file_async(Source::new(&Arc::new(b), Env::default()))))??;
            ensure!(x.is_ok(), "async-differs", "the large output {which} cannot be read");
            agree("reading the file", &x, &y)
        }),
        space_dev("write/schedules", 2, move || {
            let (plan, _) = &p1[choose(if t { 4 } else { 3 })];
            let s = write_file(plan).map(|w| (w.bytes, w.size));
            let a = guard("async write", || block_on(write_to_async(plan, Sink::new(pend))))??.map(|(w, n)| (w.data, n));
            visit(&s.as_ref().map(|x| x.1).unwrap_or(0));
            sample(|| format!("{:?}: {} bytes", plan.groups, s.as_ref().map(|x| x.0.len()).unwrap_or(0)));
            agree("writing", &s, &a)
        }),
        space_dev("read/schedules", 2, move || {
            let (_, b) = &p2[choose(if t { 5 } else { 3 })];
            let s = read_file_sync(b);
            let src = Source::new(b, pend);
            let tr = src.t.clone();
            let a = guard("async read", || block_on(read_file_async(src)))??;
            if tr.pendings.load(std::sync::atomic::Ordering::SeqCst) > 0 {
                tally("with suspensions");
            }
            agree("reading the file", &s, &a)
        }),
        space_dev("read/filtered-schedules", if t { 2 } else { 1 }, move || {
            let (_, b) = &p3[pick(&[1, 3])];
            let m = read_metadata(&mut Cursor::new(&b[..]))?;
            let g = choose(m.row_groups.len());
            let c = choose(m.row_groups[g].columns().len());
            let f = pick(&page_filters());
            let max = pick(&[usize::MAX, 20, 60, 5]);
            let s = items_sync(b, &m, g, c, f.clone(), max);
            let a = guard("async pages", || items_async(Source::new(b, pend), &m, g, c, f, max, flag()))??;
            tally(if s.1 { "no error" } else { "error" });
            ensure!(s == a, "async-differs", "pages of column {c} of group {g} with limit {max}: sync {s:?} async {a:?}");
            Ok(())
        }),
        space_dev("read/columns", if t { 2 } else { 1 }, move || {
            let (_, b) = &p4[choose(p4.len())];
            let m = read_metadata(&mut Cursor::new(&b[..]))?;
            if m.row_groups.is_empty() {
                return Ok(());
            }
            let g = choose(m.row_groups.len());
            let cols = m.row_groups[g].columns();
            let field = pick(&["a", "b", "g", "c", "none"]);
            let s = read_columns(&mut Cursor::new(&b[..]), cols, field).map(|v| v.into_iter().map(|(m, b)| (m.column_chunk().clone(), b)).collect::<Vec<_>>());
            let a = guard("read_columns_async", || {
                block_on(read_columns_async(
                    || {
                        let s = Source::new(b, pend);
                        Box::pin(async move { Ok(s) })
                    },
                    cols,
                    field,
                ))
            })??
            .map(|v| v.into_iter().map(|(m, b)| (m.column_chunk().clone(), b)).collect::<Vec<_>>());
            agree("read_columns", &s, &a)
        }),
        // malformed files: success and results agree
        space("read/corrupt", move || {
            let (_, b) = &p5[pick(if t { &[0usize, 1, 3][..] } else { &[0, 1] })];
            let mut v = b.to_vec();
            match choose(2) {
                0 => {
                    let i = choose(v.len());
                    let x = v[i];
                    v[i] = pick(&[0, 0xff, x ^ 1, x ^ 0x80, x.wrapping_add(1), x ^ 0x10, 0x15, 0x7f]);
                    if v[i] == x {
                        return Ok(());
                    }
                }
                _ => v.truncate(choose(v.len())),
            }
            let b = Arc::new(v);
            let s = guard("sync read of a corrupt file", || read_metadata(&mut Cursor::new(&b[..])))?;
            let a = guard("async read of a corrupt file", || block_on(async { read_metadata_async(&mut Source::new(&b, Env::default())).await }))??;
            agree("metadata of a corrupt file", &s.as_ref().map(thrift).map_err(|e| e.clone()), &a.as_ref().map(thrift).map_err(|e| e.clone()))?;
            if let Ok(m) = s {
                for g in 0..m.row_groups.len() {
                    for c in 0..m.row_groups[g].columns().len() {
                        let f = page_filters()[(g + c) % 4].clone();
                        let s = guard("sync pages of a corrupt file", || items_sync(&b, &m, g, c, f.clone(), 1 << 20))?;
                        let a = guard("async pages of a corrupt file", || items_async(Source::new(&b, Env::default()), &m, g, c, f, 1 << 20, false))??;
                        ensure!(s == a, "async-differs", "pages of a corrupt file (column {c} of group {g}): sync {s:?} async {a:?}");
                    }
                }
            }
            Ok(())
        }),
    ];
    Def {
        spaces,
        rule: "The same plan or file is processed by the synchronous API over an ideal medium and by the asynchronous API over a source/sink that may suspend (Pending) or transfer partially at every poll; all placements of up to 2 such deviations are explored and results compared for equality. Corrupt and truncated files are compared the same way. Files of which only some parts are not zero stand for files of more than 2 and 4 GiB: a small file moved to every offset around 2^31, 2^32, 2^33, 2^40, 2^53 and 2^62, and files written with up to 7 pages of up to 2 GiB each to a sink that keeps small writes only.",
        assumptions: vec!["single-threaded executor; a Pending wakes its task immediately and is not repeated at the same point", "deviation budget 2 per execution"],
    }
}

// ---------------------------------------------------------------- C03
type Items = Vec<Result<Seen, String>>;
fn drain(it: impl Iterator<Item = Result<CompressedPage, Error>>) -> Items {
    let mut out = vec![];
    for p in it.take(40) {
        out.push(p.and_then(|p| {
            let sel = match &p {
                CompressedPage::Data(d) => d.selected_rows().map(|x| x.to_vec()),
                _ => None,
            };
            let p = decompress(p, &mut vec![])?;
            if let Page::Data(d) = &p {
                assert_eq!(d.selected_rows().map(|x| x.to_vec()), sel);
            }
            Ok(Seen::of(&p))
        }).map_err(|e| e.to_string()));
    }
    out
}
/// With a fault, the sequence must match the faultless one up to an error, and must contain an error;
/// after an error nothing wrong may be returned.
fn check_items(what: &str, got: &Items, want: &[Seen], fault: bool) -> Res {
    let errors = got.iter().filter(|x| x.is_err()).count();
    if fault {
        ensure!(errors > 0, "fault-hidden", "{what}: a fault occurred but no error was returned: {got:?}");
    } else {
        ensure!(errors == 0, "fault-invented", "{what}: an error was returned without a fault: {got:?}");
        same!(got.len(), want.len(), "fault-altered", "{what}: number of pages");
    }
    let first = got.iter().position(|x| x.is_err()).unwrap_or(got.len());
    for (i, x) in got[..first].iter().enumerate() {
        ensure!(i < want.len() && x.as_ref().unwrap() == &want[i], "fault-altered", "{what}: page {i} is {x:?}, expected {:?}", want.get(i));
    }
    for x in got[first..].iter().flatten() {
        ensure!(want[first..].contains(x), "fault-altered", "{what}: after an error, {x:?} was returned, which is not a page of the column");
    }
    Ok(())
}
fn check_value<T: PartialEq + std::fmt::Debug>(what: &str, got: Result<T, Error>, want: &T, fault: bool) -> Res {
    match got {
        Err(_) if fault => tally("fault reported"),
        Err(e) => return fail("fault-invented", format!("{what}: error without a fault: {e}")),
        Ok(v) => {
            ensure!(!fault, "fault-hidden", "{what}: a fault occurred but the operation succeeded with {v:?}");
            ensure!(&v == want, "fault-altered", "{what}: got {v:?}, expected {want:?}");
            tally("no fault");
        }
    }
    Ok(())
}
pub struct IndexedFile {
    pub bytes: Arc<Vec<u8>>,
    pub plan: Plan,
}
/// a file with indexes, a dictionary, several pages, and bloom filter bytes appended before the footer region
fn io_ops(f: &IndexedFile, src: Source, op: usize) -> Res {
    let b = &f.bytes;
    let m = read_metadata(&mut Cursor::new(&b[..]))?;
    let t = src.t.clone();
    let mut src = src;
    match op {
        0 => {
            let r = guard("read_metadata", || read_metadata(&mut src))?.map(|m| thrift(&m));
            check_value("read_metadata", r, &thrift(&m), t.fault())
        }
        1 => {
            let n = b.len() as u64;
            let r = guard("read_metadata_with_size", || read_metadata_with_size(&mut src, n))?.map(|m| thrift(&m));
            check_value("read_metadata_with_size", r, &thrift(&m), t.fault())
        }
        2 | 3 => {
            let g = choose(m.row_groups.len());
            let c = choose(m.row_groups[g].columns().len());
            let want: Vec<Seen> = f.plan.groups[g][c].iter().map(|p| p.seen()).collect();
            let col = &m.row_groups[g].columns()[c];
            if op == 2 {
                let got = guard("PageReader", || match get_page_iterator(col, &mut src, None, vec![], usize::MAX) {
                    Ok(it) => drain(it),
                    Err(e) => vec![Err(e.to_string())],
                })?;
                check_items("PageReader", &got, &want, t.fault())
            } else {
                // indexed: select a row of the first and of the last page
                let locs = read_pages_locations(&mut Cursor::new(&b[..]), m.row_groups[g].columns())?;
                let rows = m.row_groups[g].num_rows();
                let sel = if rows > 1 { vec![iv(0, 1), iv(rows - 1, 1)] } else { vec![iv(0, rows)] };
                let pages = parquet2::indexes::select_pages(&sel, &locs[c], rows)?;
                let wanted: Vec<Seen> = drain(IndexedPageReader::new(Cursor::new(&b[..]), col, pages.clone(), vec![], vec![])).into_iter().map(|x| x.unwrap()).collect();
                let got = guard("IndexedPageReader", || drain(IndexedPageReader::new(&mut src, col, pages, vec![], vec![])))?;
                check_items("IndexedPageReader", &got, &wanted, t.fault())
            }
        }
        11 => {
            let g = choose(m.row_groups.len());
            let col = &m.row_groups[g].columns()[0];
            let mut want = vec![];
            parquet2::bloom_filter::read(col, &mut Cursor::new(&b[..]), &mut want)?;
            ensure!(!want.is_empty(), "fixture", "no bloom filter");
            let mut got = vec![];
            let r = guard("bloom_filter::read", || parquet2::bloom_filter::read(col, &mut src, &mut got))?;
            check_value("bloom_filter::read", r.map(|_| got), &want, t.fault())
        }
        4 => {
            let g = choose(m.row_groups.len());
            let cols = m.row_groups[g].columns();
            let c = choose(cols.len());
            let (s, l) = cols[c].byte_range();
            let want = b[s as usize..(s + l) as usize].to_vec();
            let r = guard("read_column", || read_column(&mut src, &cols[c]))?;
            check_value("read_column", r, &want, t.fault())
        }
        5 => {
            let cols = m.row_groups[0].columns();
            let want: Vec<String> = read_columns_indexes(&mut Cursor::new(&b[..]), cols)?.iter().map(|x| format!("{x:?}")).collect();
            let r = guard("read_columns_indexes", || read_columns_indexes(&mut src, cols))?.map(|v| v.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>());
            check_value("read_columns_indexes", r, &want, t.fault())
        }
        6 => {
            let cols = m.row_groups[0].columns();
            let want = read_pages_locations(&mut Cursor::new(&b[..]), cols)?;
            let r = guard("read_pages_locations", || read_pages_locations(&mut src, cols))?;
            check_value("read_pages_locations", r, &want, t.fault())
        }
        7 => {
            // async
            let want = read_file_sync(b)?;
            let t = src.t.clone();
            let r = guard("async read", || block_on(read_file_async(src)))??;
            check_value("asynchronous reading", r, &want, t.fault())
        }
        8 => {
            let g = choose(m.row_groups.len());
            let c = choose(m.row_groups[g].columns().len());
            let want: Vec<Seen> = f.plan.groups[g][c].iter().map(|p| p.seen()).collect();
            let f = pick(&page_filters()[..2]);
            let all = f(&m.row_groups[g].columns()[c].descriptor().descriptor, &v1(1, 1, 1).header().unwrap());
            let want: Vec<Seen> = want.into_iter().filter(|p| all || matches!(p, Seen::Dict(..))).collect();
            let t = src.t.clone();
            let (items, ok) = guard("async pages", || items_async(src, &m, g, c, f, usize::MAX, false))??;
            ensure!(ok != t.fault(), if ok { "fault-hidden" } else { "fault-invented" }, "async pages: fault {} but success {ok}", t.fault());
            ensure!(want.starts_with(&items) && (!ok || items.len() == want.len()), "fault-altered", "async pages {items:?} expected {want:?}");
            Ok(())
        }
        9 => {
            // filtered synchronous reading still reads what it skips
            let g = choose(m.row_groups.len());
            let c = choose(m.row_groups[g].columns().len());
            let want: Vec<Seen> = f.plan.groups[g][c].iter().filter(|p| p.is_dict()).map(|p| p.seen()).collect();
            let col = &m.row_groups[g].columns()[c];
            let got = guard("PageReader", || match get_page_iterator(col, &mut src, Some(Arc::new(|_, _| false)), vec![], usize::MAX) {
                Ok(it) => drain(it),
                Err(e) => vec![Err(e.to_string())],
            })?;
            check_items("filtered PageReader", &got, &want, t.fault())
        }
        _ => {
            let g = choose(m.row_groups.len());
            let cols = m.row_groups[g].columns();
            let c = choose(cols.len());
            let (s, l) = cols[c].byte_range();
            let want = b[s as usize..(s + l) as usize].to_vec();
            let t = src.t.clone();
            let env = src.env;
            let data = src.data.clone();
            let r = guard("read_column_async", || {
                block_on(read_column_async(
                    || {
                        let mut s = Source::new(&data, env);
                        s.t = t.clone();
                        Box::pin(async move { Ok(s) })
                    },
                    &cols[c],
                ))
            })??;
            check_value("read_column_async", r, &want, t.fault())
        }
    }
}
fn io_files(thorough: bool) -> Vec<IndexedFile> {
    let st = |n: i64, a: u8, b: u8| Some((Some(n), None, Some(vec![a, 0, 0, 0]), Some(vec![b, 0, 0, 0])));
    let mut a = Plan::new(
        vec![prim("a", PhysicalType::Int32, Optional), prim("b", PhysicalType::ByteArray, Required)],
        vec![vec![
            vec![dict(2, 8, 1), with_stats(with_enc(v1(2, 9, 2), 8), st(0, 1, 5)), with_stats(with_enc(v2(3, 9, 3), 8), st(1, 0, 7))],
            vec![with_stats(v1(5, 12, 4), st(0, 3, 4))],
        ]],
    );
    a.stats = true;
    let mut b = a.clone();
    b.codec = CompressionOptions::Snappy;
    b.groups.push(vec![vec![with_stats(v1(1, 30, 2), st(0, 1, 5))], vec![with_stats(v1(1, 0, 4), st(0, 3, 4))]]);
    let mut v = vec![a, b];
    if !thorough {
        v.truncate(2);
    }
    v.into_iter()
        .filter_map(|p| {
            let w = write_file(&p).ok()?;
            // a bloom filter for the first column of each row group
            let mut extra = vec![];
            let mut at = vec![];
            for g in 0..p.groups.len() {
                at.push(extra.len());
                extra.extend(super::bloom::header(32 * (g as i64 + 2), false));
                extra.extend(bytes(32 * (g + 2), g));
            }
            let f = splice(&w.bytes, &extra, |m, start| {
                for (g, o) in at.iter().enumerate() {
                    m.row_groups[g].columns[0].meta_data.as_mut().unwrap().bloom_filter_offset = Some((start + o) as i64);
                }
            });
            Some(IndexedFile { bytes: Arc::new(f), plan: p })
        })
        .collect()
}
pub fn io_faults(thorough: bool) -> Def {
    let t = thorough;
    let files = Arc::new(io_files(t));
    let (f1, f2, f3) = (files.clone(), files.clone(), files.clone());
    let faults = Env { short: true, interrupt: true, error: true, eof: true, ..Env::default() };
    let afaults = Env { short: true, pending: true, error: true, eof: true, ..Env::default() };
    let plans = Arc::new(small_plans(true));
    let (pl1, pl2) = (plans.clone(), plans.clone());
    let spaces = vec![
        space_dev("read/sync-faults", 2, move || {
            ensure!(f1.len() == 2, "fixture", "the fixture files cannot be written");
            let f = &f1[choose(2)];
            let op = pick(&[0, 1, 2, 3, 4, 5, 6, 9, 11]);
            io_ops(f, Source::new(&f.bytes, faults), op)
        }),
        space_dev("read/async-faults", if t { 2 } else { 1 }, move || {
            let f = &f2[choose(f2.len())];
            let op = pick(&[7, 8, 10]);
            io_ops(f, Source::new(&f.bytes, afaults), op)
        }),
        space("read/truncated-source", move || {
            // the source lost its end after the metadata was read: right data or an error, never wrong data
            let f = &f3[choose(f3.len())];
            let b = &f.bytes;
            let m = read_metadata(&mut Cursor::new(&b[..]))?;
            let n = choose(b.len());
            let cut = &b[..n];
            visit(&n);
            for g in 0..m.row_groups.len() {
                let cols = m.row_groups[g].columns();
                for c in 0..cols.len() {
                    let want: Vec<Seen> = f.plan.groups[g][c].iter().map(|p| p.seen()).collect();
                    let (s, l) = cols[c].byte_range();
                    let whole = n as u64 >= s + l;
                    let got = guard("PageReader", || match get_page_iterator(&cols[c], Cursor::new(cut), None, vec![], usize::MAX) {
                        Ok(it) => drain(it),
                        Err(e) => vec![Err(e.to_string())],
                    })?;
                    check_items("PageReader on a truncated source", &got, &want, !whole)?;
                    let r = guard("read_column", || read_column(&mut Cursor::new(cut), &cols[c]))?;
                    ensure!(r.is_ok() == whole, "fault-hidden", "read_column on {n} of {} bytes: {r:?}", b.len());
                    // through the index
                    let locs = read_pages_locations(&mut Cursor::new(&b[..]), cols)?;
                    let rows = m.row_groups[g].num_rows();
                    let pages = parquet2::indexes::select_pages(&[iv(0, rows)], &locs[c], rows)?;
                    let got = guard("IndexedPageReader", || drain(IndexedPageReader::new(Cursor::new(cut), &cols[c], pages, vec![], vec![])))?;
                    check_items("IndexedPageReader on a truncated source", &got, &want, !whole)?;
                    let src = Source::new(&Arc::new(cut.to_vec()), Env::default());
                    let (items, ok) = guard("async pages", || items_async(src, &m, g, c, Arc::new(|_, _| true), usize::MAX, false))??;
                    ensure!(ok == whole && want.starts_with(&items) && (!ok || items == want), "fault-hidden", "async pages on {n} of {} bytes: {items:?} ok {ok}", b.len());
                }
                let ends = |o: Option<i64>, l: Option<i32>| (o.unwrap() + l.unwrap() as i64) as usize;
                let whole = cols.iter().all(|c| n >= ends(c.column_chunk().column_index_offset, c.column_chunk().column_index_length));
                let r = guard("read_columns_indexes", || read_columns_indexes(&mut Cursor::new(cut), cols))?;
                ensure!(r.is_ok() == whole, "fault-hidden", "read_columns_indexes on {n} of {} bytes: {r:?}", b.len());
                let whole = cols.iter().all(|c| n >= ends(c.column_chunk().offset_index_offset, c.column_chunk().offset_index_length));
                let r = guard("read_pages_locations", || read_pages_locations(&mut Cursor::new(cut), cols))?;
                ensure!(r.is_ok() == whole, "fault-hidden", "read_pages_locations on {n} of {} bytes: {r:?}", b.len());
            }
            // a size larger than the source
            let r = guard("read_metadata_with_size", || read_metadata_with_size(&mut Cursor::new(cut), b.len() as u64))?;
            if let Ok(m2) = r {
                ensure!(thrift(&m2) == thrift(&m), "fault-altered", "metadata from a truncated source");
            }
            Ok(())
        }),
        space("read/truncated-source/other writers", move || {
            let o = super::foreign::other_writer(&[CompressionOptions::Snappy, CompressionOptions::Uncompressed][..if t { 2 } else { 1 }], false)?;
            let b = &o.bytes;
            let m = read_metadata(&mut Cursor::new(&b[..]))?;
            visit(b);
            let col = &m.row_groups[0].columns()[0];
            let (s, l) = col.byte_range();
            let locs = read_pages_locations(&mut Cursor::new(&b[..]), m.row_groups[0].columns())?;
            let rows = m.row_groups[0].num_rows();
            for n in s as usize..=(s + l) as usize {
                let cut = &b[..n];
                let whole = n as u64 >= s + l;
                let got = guard("PageReader", || match get_page_iterator(col, Cursor::new(cut), None, vec![], usize::MAX) {
                    Ok(it) => drain(it),
                    Err(e) => vec![Err(e.to_string())],
                })?;
                let lost = o.seen.len() != trim(o.seen.clone()).len();
                if !lost || !whole {
                    check_items("PageReader on a truncated source", &got, &o.seen, !whole)?;
                }
                let r = guard("read_column", || read_column(&mut Cursor::new(cut), col))?;
                ensure!(r.is_ok() == whole, "fault-hidden", "read_column on {n} of {} bytes: {r:?}", b.len());
                let pages = parquet2::indexes::select_pages(&[iv(0, rows)], &locs[0], rows)?;
                let got = guard("IndexedPageReader", || drain(IndexedPageReader::new(Cursor::new(cut), col, pages, vec![], vec![])))?;
                if !lost {
                    check_items("IndexedPageReader on a truncated source", &got, &o.seen, !whole)?;
                }
                let src = Source::new(&Arc::new(cut.to_vec()), Env::default());
                let (items, ok) = guard("async pages", || items_async(src, &m, 0, 0, Arc::new(|_, _| true), usize::MAX, false))??;
                ensure!(o.seen.starts_with(&items) && (!ok || trim(items.clone()) == trim(o.seen.clone())), "fault-hidden", "async pages on {n} of {} bytes: {items:?} ok {ok}", b.len());
            }
            Ok(())
        }),
        space_dev("write/sync-faults", if t { 2 } else { 2 }, move || {
            let plan = &pl1[choose(if t { 4 } else { 2 })];
            let want = write_file(plan)?;
            let env = Env { short: true, interrupt: true, error: true, zero: true, ..Env::default() };
            let mut sink = Sink::new(env);
            let tr = sink.t.clone();
            let r = guard("writing", || write_to(plan, &mut sink))?;
            let fault = tr.fault();
            match r {
                Ok((_, size, _)) => {
                    ensure!(!fault, "fault-hidden", "a write failed but the file was finished without error");
                    ensure!(sink.data == want.bytes && size == want.size, "fault-altered", "partial writes changed the bytes written");
                    tally("no fault");
                }
                Err(e) => {
                    ensure!(fault, "fault-invented", "writing failed without a fault: {e}");
                    ensure!(want.bytes.starts_with(&sink.data), "fault-altered", "the bytes written before the fault are not a prefix of the file");
                    tally("fault reported");
                }
            }
            Ok(())
        }),
        space_dev("write/async-faults", if t { 2 } else { 1 }, move || {
            let plan = &pl2[choose(if t { 4 } else { 2 })];
            let want = write_file(plan)?;
            let env = Env { short: true, pending: true, error: true, zero: true, ..Env::default() };
            let mut sink = Sink::new(env);
            let tr = sink.t.clone();
            let r = guard("writing", || block_on(write_to_async(plan, &mut sink)).map(|r| r.map(|x| x.1)))??;
            let fault = tr.fault();
            match r {
                Ok(size) => {
                    ensure!(!fault, "fault-hidden", "a write failed but the file was finished without error");
                    ensure!(sink.data == want.bytes && size == want.size, "fault-altered", "partial writes changed the bytes written");
                }
                Err(e) => {
                    ensure!(fault, "fault-invented", "writing failed without a fault: {e}");
                    ensure!(want.bytes.starts_with(&sink.data), "fault-altered", "the bytes written before the fault are not a prefix of the file");
                }
            }
            Ok(())
        }),
    ];
    Def {
        spaces,
        rule: "Every reading and writing operation runs over a medium that, at each call, may transfer one byte, transfer half, be interrupted, suspend, fail, or end; all placements of up to 2 such events are explored. Oracle: without an error or early end, results are identical to the ideal medium; with one, the operation reports an error and anything it returned before is a prefix of the truth. Every truncation of the source after its metadata was read is explored too.",
        assumptions: vec!["at most 2 deviations per execution", "interruptions are injected in synchronous calls only (asynchronous sources signal readiness instead)", "files of about 400-900 bytes"],
    }
}

// ---------------------------------------------------------------- C04
pub fn crash(thorough: bool) -> Def {
    let t = thorough;
    let mut plans = small_plans(true);
    for (i, codec) in codecs().into_iter().enumerate() {
        let mut p = small_plans(true)[1].clone();
        p.codec = codec;
        p.v1 = i % 2 == 0;
        plans.push(p);
    }
    // large footers, and pages that look like the end of a file
    let mut p = small_plans(true)[0].clone();
    p.created_by = Some("y".repeat(if t { 3000 } else { 700 }));
    plans.push(p);
    let tricky: Vec<Vec<u8>> = vec![b"PAR1".to_vec(), b"\0\0\0\0PAR1".to_vec(), b"\x01\0\0\0PAR1".to_vec(), b"\x04\0\0\0PAR1PAR1".to_vec(), b"\xff\xff\xff\xffPAR1".to_vec(), b"\x15\x04\x19\x2cPAR1\x04\0\0\0PAR1".to_vec(), b"\x00\x05\0\0\0PAR1".to_vec()];
    for b in tricky {
        let mut p = Plan::new(vec![prim("a", PhysicalType::Int32, Required)], vec![vec![vec![Pg::V1 { n: 1, rows: 1, enc: 0, stats: None, body: b.clone() }]]; 2]);
        p.kv = Some(vec![kv("PAR1", Some(&String::from_utf8_lossy(&b)))]);
        plans.push(p);
    }
    let plans = Arc::new(plans);
    let (p1, p2, p3, p4) = (plans.clone(), plans.clone(), plans.clone(), plans.clone());
    let spaces = vec![
        space("torn", move || {
            // the storage has the length of the file but not its end, or an end that is not its own
            let plan = &p4[choose(p4.len())];
            let w = write_file(plan)?;
            let len = w.bytes.len();
            let lost = 1 + choose(len);
            let fill = pick(&[0u8, 0xff, b'P', b'A', b'R', b'1', b'E', 0x15]);
            let mut b = w.bytes.clone();
            b[len - lost..].fill(fill);
            let more = pick(&[0usize, 0, 1, 4, 4096]);
            b.extend(std::iter::repeat(fill).take(more));
            if b == w.bytes {
                return Ok(());
            }
            visit(&(b.len(), lost, fill));
            let r = guard("opening a torn file", || read_metadata(&mut Cursor::new(&b)))?;
            ensure!(r.is_err(), "torn-accepted", "the last {lost} of {len} bytes are {fill}, {more} more follow, and it opens: {r:?}");
            let b = Arc::new(b);
            let a = guard("opening a torn file asynchronously", || block_on(async { read_metadata_async(&mut Source::new(&b, Env::default())).await }))??;
            ensure!(a.is_err(), "torn-accepted", "the last {lost} of {len} bytes are {fill}, {more} more follow, and it opens asynchronously: {a:?}");
            // another magic at the end
            if lost <= 4 {
                let mut b = w.bytes.clone();
                b[len - lost] ^= fill ^ 0x40;
                if b != w.bytes {
                    let r = guard("opening a torn file", || read_metadata(&mut Cursor::new(&b)))?;
                    ensure!(r.is_err(), "torn-accepted", "a file ending in {:?} opens: {r:?}", &b[len - 4..]);
                }
            }
            Ok(())
        }),
        space("prefixes", move || {
            let plan = &p1[choose(p1.len())];
            let w = write_file(plan)?;
            let n = choose(w.bytes.len() + 1);
            let b = &w.bytes[..n];
            visit(&b.to_vec());
            let r = guard("opening a prefix", || read_metadata(&mut Cursor::new(b)))?;
            let a = guard("opening a prefix asynchronously", || block_on(async { read_metadata_async(&mut Source::new(&Arc::new(b.to_vec()), Env::default())).await }))??;
            if n == w.bytes.len() {
                ensure!(r.is_ok() && a.is_ok(), "complete-rejected", "the complete file was rejected: {r:?} {a:?}");
                same!(r.unwrap().row_groups.len(), plan.groups.len(), "complete-differs", "row groups");
                tally("complete");
            } else {
                ensure!(r.is_err() && a.is_err(), "prefix-accepted", "the first {n} of {} bytes were accepted as a file: {r:?}; {plan:?}", w.bytes.len());
                tally("incomplete");
            }
            Ok(())
        }),
        space("full-sink", move || {
            // the sink fails for good after n bytes, both writers
            let plan = &p2[choose(p2.len())];
            let w = write_file(plan)?;
            let n = choose(w.bytes.len() + 1);
            let mut sink = Sink::new(Env::default());
            sink.capacity = n;
            // a sink that holds bytes back until it is flushed, or not
            sink.holds = pick(&[0usize, 1, 64, 1 << 20]);
            let done = if flag() {
                let mut f = FileWriter::new(&mut sink, plan.schema.clone(), plan.options(), plan.created_by.clone());
                let mut failed = false;
                for g in &plan.groups {
                    let r = guard("write", || f.write(group_iter(plan, g)))?;
                    ensure!(!(failed && r.is_ok()), "failure-forgotten", "a write succeeded after a failed one");
                    failed |= r.is_err();
                }
                let r = guard("end", || f.end(plan.kv.clone()))?;
                ensure!(!(failed && r.is_ok()), "failure-forgotten", "end succeeded after a failed write");
                ensure!(f.metadata().is_some() == r.is_ok(), "failure-forgotten", "metadata is available although the file is not finished");
                r.is_ok()
            } else {
                guard("async writer", || {
                    block_on(async {
                        let mut f = FileStreamer::new(&mut sink, plan.schema.clone(), plan.options(), plan.created_by.clone());
                        let mut failed = false;
                        for g in &plan.groups {
                            let r = f.write(group_iter(plan, g)).await;
                            ensure!(!(failed && r.is_ok()), "failure-forgotten", "a write succeeded after a failed one");
                            failed |= r.is_err();
                        }
                        let r = f.end(plan.kv.clone()).await;
                        ensure!(!(failed && r.is_ok()), "failure-forgotten", "end succeeded after a failed write");
                        Ok(r.is_ok())
                    })
                })???
            };
            same!(done, n == w.bytes.len(), "failure-forgotten", "success of a writer whose sink fails after {n} of {} bytes", w.bytes.len());
            let r = guard("opening", || read_metadata(&mut Cursor::new(&sink.data)))?;
            same!(r.is_ok(), done, "prefix-accepted", "whether the output opens, sink failing after {n} of {} bytes", w.bytes.len());
            Ok(())
        }),
        space("unfinished-histories", move || {
            // writers dropped after any number of operations without end
            let plan = &p3[choose(p3.len())];
            let k = choose(plan.groups.len() + 1);
            let mut f = FileWriter::new(vec![], plan.schema.clone(), plan.options(), plan.created_by.clone());
            for g in &plan.groups[..k] {
                f.write(group_iter(plan, g))?;
            }
            if flag() {
                // one more write that stops after some pages
                let d = plan.schema.columns()[0].descriptor.clone();
                let m = choose(3);
                let pages: Vec<Result<Page, Error>> = (0..m).map(|i| Ok(v1(1, 5, i).page(&d))).chain([Err(Error::OutOfSpec("x".into()))]).collect();
                let it: RowGroupIter<Error> = DynIter::new(std::iter::once(Ok(DynStreamingIterator::new(Compressor::new(pages.into_iter(), plan.codec, vec![])))));
                ensure!(guard("write", || f.write(it))?.is_err(), "failure-forgotten", "a row group whose pages fail was written");
            }
            ensure!(f.metadata().is_none(), "failure-forgotten", "metadata available before the end");
            let b = f.into_inner();
            let r = guard("opening", || read_metadata(&mut Cursor::new(&b)))?;
            ensure!(r.is_err(), "prefix-accepted", "a file that was never finished opens: {r:?}");
            Ok(())
        }),
    ];
    Def {
        spaces,
        rule: "Every byte prefix of every output (the crash states of an append-only file) is opened; every position at which the sink starts failing is tried with both writers; writers are dropped after every number of operations. Only the complete output may open. Torn outputs: every suffix replaced by one of 8 fill bytes, followed by 0 to 4096 more, and every other last byte.",
        assumptions: vec!["storage keeps a prefix of what was appended (no reordering of appended bytes)", "page contents do not themselves embed a complete, valid file footer"],
    }
}

// ---------------------------------------------------------------- C05
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Op {
    Good(usize),
    Missing,
    Extra,
    Rows,
    PageError(usize),
    ColumnError,
    FirstColumnError,
    MixedCodecs,
    End,
    EndKv,
}
fn op_iter(plan: &Plan, op: Op, ncols: usize) -> RowGroupIter<'static, Error> {
    let good = good_group(op, ncols);
    let mut cols: Vec<Result<Pages<'static>, Error>> = good.iter().enumerate().map(|(i, c)| Ok(column_iter(c, &plan.schema.columns()[i].descriptor, plan.codec))).collect();
    let d = plan.schema.columns()[0].descriptor.clone();
    match op {
        Op::Missing => {
            cols.pop();
        }
        Op::Extra => cols.push(Ok(column_iter(&good[0], &d, plan.codec))),
        Op::Rows => {
            let c = column_iter(&[v1(4, 3, 1)], &d, plan.codec);
            *cols.last_mut().unwrap() = Ok(c);
        }
        Op::PageError(k) => {
            let pages: Vec<Result<Page, Error>> = (0..k).map(|i| Ok(v1(1, 5, i).page(&d))).chain([Err(Error::OutOfSpec("x".into()))]).collect();
            *cols.last_mut().unwrap() = Ok(DynStreamingIterator::new(Compressor::new(pages.into_iter(), plan.codec, vec![])));
        }
        Op::ColumnError => *cols.last_mut().unwrap() = Err(Error::OutOfSpec("x".into())),
        Op::FirstColumnError => cols[0] = Err(Error::OutOfSpec("x".into())),
        Op::MixedCodecs => {
            let a = compress(v1(1, 5, 1).page(&d), vec![], CompressionOptions::Snappy);
            let b = compress(v1(1, 5, 1).page(&d), vec![], CompressionOptions::Uncompressed);
            *cols.last_mut().unwrap() = Ok(DynStreamingIterator::new(Ready(vec![a, b].into_iter(), None)));
        }
        _ => {}
    }
    DynIter::new(cols.into_iter())
}
struct Ready(std::vec::IntoIter<Result<CompressedPage, Error>>, Option<CompressedPage>);
impl FallibleStreamingIterator for Ready {
    type Item = CompressedPage;
    type Error = Error;
    fn advance(&mut self) -> Result<(), Error> {
        self.1 = None;
        self.1 = self.0.next().transpose()?;
        Ok(())
    }
    fn get(&self) -> Option<&CompressedPage> {
        self.1.as_ref()
    }
}
fn good_group(op: Op, ncols: usize) -> Group {
    let k = match op {
        Op::Good(k) => k,
        _ => 0,
    };
    (0..ncols)
        .map(|c| match (k, c) {
            (0, _) => vec![v1(3, 6, c)],
            (1, 0) => vec![dict(1, 4, 1), v2(2, 8, 2), v1(1, 1, 3)],
            (1, _) => vec![v1(3, 9, 5)],
            (2, _) => vec![],
            _ => vec![v1(0, 0, 1)],
        })
        .collect()
}
fn op_ok(op: Op, ncols: usize) -> bool {
    match op {
        Op::Good(_) | Op::End | Op::EndKv => true,
        Op::Rows => ncols < 2,
        _ => false,
    }
}
fn kvs(op: Op) -> Option<Vec<KeyValue>> {
    (op == Op::EndKv).then(|| vec![kv("k", Some("v"))])
}
fn ops(all: bool) -> Vec<Op> {
    let mut v = vec![Op::Good(0), Op::Good(1), Op::End, Op::PageError(0), Op::PageError(1), Op::Missing, Op::Rows];
    if all {
        v.extend([Op::Extra, Op::Good(2), Op::Good(3), Op::ColumnError, Op::FirstColumnError, Op::MixedCodecs, Op::EndKv]);
    } else {
        v.extend([Op::Extra, Op::MixedCodecs]);
    }
    v
}
/// The protocol: what each call must answer, given the calls before it.
struct Model {
    /// None: open; Some(true): finished; Some(false): failed
    state: Option<bool>,
    groups: Vec<Group>,
    kv: Option<Vec<KeyValue>>,
}
impl Model {
    fn expect(&mut self, op: Op, ncols: usize, io_fault: bool) -> bool {
        if self.state.is_some() {
            return false;
        }
        if io_fault || !op_ok(op, ncols) {
            self.state = Some(false);
            return false;
        }
        match op {
            Op::End | Op::EndKv => {
                self.state = Some(true);
                self.kv = kvs(op);
            }
            Op::Rows => self.groups.push(vec![vec![v1(4, 3, 1)]]),
            _ => self.groups.push(good_group(op, ncols)),
        }
        true
    }
}
fn history(schemas: &[Vec<ParquetType>], depth: usize, all: bool, fault: bool, stats: bool) -> Res {
    let fields = pick(schemas);
    let mut plan = Plan::new(fields, vec![]);
    plan.stats = stats;
    plan.codec = if all { pick(&[CompressionOptions::Uncompressed, CompressionOptions::Snappy]) } else { CompressionOptions::Uncompressed };
    let ncols = plan.schema.columns().len();
    let is_async = flag();
    let hist = seq(1, depth, |_| pick(&ops(all)));
    visit(&(ncols, is_async, hist.clone()));
    sample(|| format!("{} columns, async {is_async}: {hist:?}", ncols));
    let env = Env { error: fault, ..Env::default() };
    let mut model = Model { state: None, groups: vec![], kv: None };
    let mut sink = Sink::new(env);
    let tr = sink.t.clone();
    let mut size = None;
    let mut last_meta = false;
    let judge = |i: usize, op: Op, model: &mut Model, faulted_before: bool, r: Result<Option<u64>, Error>| -> Res<Option<u64>> {
        let io = !faulted_before && tr.fault();
        let want = model.expect(op, ncols, io);
        match (&r, want) {
            (Ok(x), true) => Ok(*x),
            (Err(_), false) => Ok(None),
            (Ok(_), false) => fail("history-accepted", format!("call {i} ({op:?}) of {hist:?} succeeded but the protocol forbids it (async {is_async})")),
            (Err(e), true) => fail("history-rejected", format!("call {i} ({op:?}) of {hist:?} failed with {e} (async {is_async})")),
        }
    };
    if is_async {
        let r: Res<Option<u64>> = guard("async writer", || {
            block_on(async {
                let mut size = None;
                let mut f = FileStreamer::new(&mut sink, plan.schema.clone(), plan.options(), None);
                for (i, op) in hist.iter().enumerate() {
                    let before = tr.fault();
                    let r = match op {
                        Op::End | Op::EndKv => f.end(kvs(*op)).await.map(Some),
                        _ => f.write(op_iter(&plan, *op, ncols)).await.map(|_| None),
                    };
                    if let Some(s) = judge(i, *op, &mut model, before, r)? {
                        size = Some(s);
                    }
                }
                Ok(size)
            })
        })??;
        size = r?;
    } else {
        let mut f = FileWriter::new(&mut sink, plan.schema.clone(), plan.options(), None);
        for (i, op) in hist.iter().enumerate() {
            let before = tr.fault();
            let r = guard("writer", || match op {
                Op::End | Op::EndKv => f.end(kvs(*op)).map(Some),
                _ => f.write(op_iter(&plan, *op, ncols)).map(|_| None),
            })?;
            if let Some(s) = judge(i, *op, &mut model, before, r)? {
                size = Some(s);
            }
            same!(f.metadata().is_some(), model.state == Some(true), "history-metadata", "whether metadata is available after call {i} of {hist:?}");
        }
        last_meta = f.metadata().is_some();
    }
    let _ = last_meta;
    if model.state == Some(true) {
        tally("finished");
        plan.groups = model.groups;
        plan.kv = model.kv;
        let w = Written { bytes: std::mem::take(&mut sink.data), size: size.unwrap(), metadata: None };
        check_layout(&plan, &w)?;
        check_read(&plan, &w)?;
    } else {
        tally(if model.state.is_none() { "left open" } else { "failed" });
        let r = guard("opening", || read_metadata(&mut Cursor::new(&sink.data)))?;
        // when only the final flush fails, every byte has been written
        ensure!(r.is_err() || tr.flush_faulted.load(std::sync::atomic::Ordering::SeqCst), "history-accepted", "the output of the unfinished history {hist:?} opens");
    }
    Ok(())
}
/// A sink that is pending before every operation.
struct Slow {
    sink: Sink,
    wait: bool,
    /// the last operation is a flush that did not complete
    flushing: bool,
}
impl Slow {
    fn turn(&mut self, cx: &mut std::task::Context<'_>) -> bool {
        self.wait = !self.wait;
        if self.wait {
            cx.waker().wake_by_ref();
        }
        self.wait
    }
}
impl futures::AsyncWrite for Slow {
    fn poll_write(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>, buf: &[u8]) -> std::task::Poll<std::io::Result<usize>> {
        if self.turn(cx) {
            return std::task::Poll::Pending;
        }
        std::pin::Pin::new(&mut self.sink).poll_write(cx, buf)
    }
    fn poll_flush(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<std::io::Result<()>> {
        self.flushing = self.turn(cx);
        if self.flushing {
            return std::task::Poll::Pending;
        }
        std::pin::Pin::new(&mut self.sink).poll_flush(cx)
    }
    fn poll_close(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<std::io::Result<()>> {
        std::task::Poll::Ready(Ok(()))
    }
}
/// The result of a future, or none if it is dropped because it was still pending after `polls` polls.
fn polled<F: std::future::Future>(polls: usize, f: F) -> Res<Option<F::Output>> {
    let mut f = Box::pin(f);
    let mut left = polls;
    block_on(std::future::poll_fn(move |cx| {
        if left == 0 {
            return std::task::Poll::Ready(None);
        }
        left -= 1;
        f.as_mut().poll(cx).map(Some)
    }))
}
pub fn protocol(thorough: bool) -> Def {
    let t = thorough;
    let one = vec![vec![prim("a", PhysicalType::Int32, Required)], vec![prim("a", PhysicalType::Int64, Optional), prim("b", PhysicalType::ByteArray, Required)]];
    let (a, b, c, d) = (one.clone(), one.clone(), one.clone(), one.clone());
    let mut three = one.clone();
    three.push(schemas()[3].clone());
    let spaces = vec![
        super::far::many_rows(t, false),
        super::far::large_files(t, false, super::far::Look::Metadata),
        super::far::large_metadata(),
        space("histories", move || history(&a, if t { 5 } else { 4 }, false, false, false)),
        space("histories/all-operations", move || history(&three, if t { 4 } else { 3 }, true, false, false)),
        space_dev("histories/io-error", 1, move || history(&b, if t { 3 } else { 2 }, false, true, false)),
        // row counts of columns, however their pages split them, and iterators that do not know how many columns they have
        space("columns", move || {
            let n = 1 + choose(3);
            let names = ["a", "b", "c"];
            let mut plan = Plan::new((0..n).map(|i| prim(names[i], PhysicalType::Int32, if i == 1 { Optional } else { Required })).collect(), vec![]);
            let pages = |c: usize| -> Column {
                match choose(7) {
                    0 => vec![v1(3, 6, c)],
                    1 => vec![v2(1, 4, c), v1(2, 5, c + 1)],
                    2 => vec![dict(2, 4, c), v1(2, 4, c)],
                    3 => vec![v1(4, 8, c)],
                    4 => vec![v1(3, 6, c), v2(0, 4, c)],
                    5 => vec![],
                    _ => vec![v2(0, 4, c)],
                }
            };
            let given = n - 1 + choose(3);
            let cols: Group = (0..given).map(|c| pages(c)).collect();
            let rows = |c: &Column| c.iter().map(|p| p.rows()).sum::<usize>();
            let ok = given == n && cols.iter().all(|c| rows(c) == rows(&cols[0]));
            let unknown = choose(3);
            let is_async = flag();
            // a failed group is not the first one that is written
            let before: Option<Group> = flag().then(|| (0..n).map(|c| vec![v1(1, 4, c)]).collect());
            visit(&(n, unknown, format!("{cols:?}"), is_async, before.is_some()));
            let iter = |g: &Group| -> RowGroupIter<'static, Error> {
                let d = &plan.schema.columns()[0].descriptor;
                let mut cols = g.iter().map(|c| Ok(column_iter(c, d, plan.codec))).collect::<Vec<Result<Pages<'static>, Error>>>().into_iter();
                match unknown {
                    0 => DynIter::new(cols),
                    1 => DynIter::new(cols.filter(|_| true)),
                    _ => DynIter::new(std::iter::from_fn(move || cols.next())),
                }
            };
            plan.groups = before.clone().into_iter().collect();
            let (r, end, data) = if is_async {
                guard("async writer", || {
                    block_on(async {
                        let mut f = FileStreamer::new(Sink::new(Env::default()), plan.schema.clone(), plan.options(), None);
                        if let Some(g) = &before {
                            f.write(iter(g)).await?;
                        }
                        let r = f.write(iter(&cols)).await;
                        let end = f.end(None).await;
                        Ok::<_, Error>((r, end, f.into_inner().data))
                    })
                })???
            } else {
                guard("writer", || {
                    let mut f = FileWriter::new(Sink::new(Env::default()), plan.schema.clone(), plan.options(), None);
                    if let Some(g) = &before {
                        f.write(iter(g))?;
                    }
                    let r = f.write(iter(&cols));
                    let end = f.end(None);
                    Ok::<_, Error>((r, end, f.into_inner().data))
                })??
            };
            same!(r.is_ok(), ok, "history-accepted", "whether {given} columns of {n}, of rows {:?}, are accepted (iterator {unknown}, async {is_async}): {r:?}", cols.iter().map(|c| rows(c)).collect::<Vec<_>>());
            same!(end.is_ok(), ok, "history-accepted", "whether the file can be finished afterwards");
            if ok {
                tally("accepted");
                plan.groups.push(cols);
                let w = Written { bytes: data, size: end?, metadata: None };
                check_layout(&plan, &w)?;
                check_read(&plan, &w)?;
            }
            Ok(())
        }),
        // calls that never return: futures dropped while they are suspended, and page iterators that panic
        space("histories/abandoned", move || {
            let mut plan = Plan::new(pick(&d), vec![]);
            let n = plan.schema.columns().len();
            let hist = seq(2, if t { 4 } else { 3 }, |_| pick(&[Op::Good(0), Op::Good(1), Op::End, Op::PageError(1)]));
            let at = choose(hist.len());
            let is_async = flag();
            // the number of times the future is polled before it is dropped, or the page whose iterator panics
            let k = if is_async { choose(if t { 600 } else { 300 }) } else { choose(3) };
            visit(&(n, hist.clone(), at, is_async, k));
            let mut model = Model { state: None, groups: vec![], kv: None };
            let mut size = None;
            let mut judge = |i: usize, model: &mut Model, r: Option<Result<Option<u64>, Error>>| -> Res {
                let Some(r) = r else {
                    if model.state.is_none() {
                        model.state = Some(false);
                    }
                    return Ok(());
                };
                let want = model.expect(hist[i], n, false);
                same!(r.is_ok(), want, "history-accepted", "success of call {i} of {hist:?}, of which call {at} was abandoned at {k} (async {is_async}): {:?}", r.as_ref().err());
                if let Ok(Some(s)) = r {
                    size = Some(s);
                }
                Ok(())
            };
            let mut flushing = false;
            let data = if is_async {
                let mut slow = Slow { sink: Sink::new(Env::default()), wait: false, flushing: false };
                {
                    let mut f = FileStreamer::new(&mut slow, plan.schema.clone(), plan.options(), None);
                    for (i, op) in hist.iter().enumerate() {
                        let polls = if i == at { k } else { usize::MAX };
                        let r = guard("async writer", || match op {
                            Op::End => polled(polls, f.end(None)).map(|r| r.map(|r| r.map(Some))),
                            _ => polled(polls, f.write(op_iter(&plan, *op, n))).map(|r| r.map(|r| r.map(|_| None))),
                        })??;
                        if r.is_none() && k == 0 {
                            // it did not start
                            continue;
                        }
                        tally(if r.is_none() { "abandoned" } else { "ran" });
                        judge(i, &mut model, r)?;
                    }
                }
                flushing = slow.flushing;
                slow.sink.data
            } else {
                let mut f = FileWriter::new(Sink::new(Env::default()), plan.schema.clone(), plan.options(), None);
                for (i, op) in hist.iter().enumerate() {
                    let r = if i == at && *op != Op::End {
                        let d = plan.schema.columns()[0].descriptor.clone();
                        let pages = (0..4).map(move |i| if i == k { panic!("a page") } else { Ok(v1(1, 5, i).page(&d)) });
                        let mut cols: Vec<Result<Pages<'static>, Error>> = vec![Ok(DynStreamingIterator::new(Compressor::new(pages, plan.codec, vec![])))];
                        if n > 1 {
                            cols.push(Ok(column_iter(&[v1(4, 9, 0)], &plan.schema.columns()[1].descriptor, plan.codec)));
                        }
                        match guard("writer", || f.write(DynIter::new(cols.into_iter()))) {
                            Err(_) => None,
                            Ok(r) => {
                                ensure!(r.is_err() && model.state.is_some(), "history-accepted", "call {i} of {hist:?} did not take its pages");
                                continue;
                            }
                        }
                    } else {
                        Some(guard("writer", || match op {
                            Op::End => f.end(None).map(Some),
                            _ => f.write(op_iter(&plan, *op, n)).map(|_| None),
                        })?)
                    };
                    judge(i, &mut model, r)?;
                    same!(f.metadata().is_some(), model.state == Some(true), "history-metadata", "whether metadata is available after call {i} of {hist:?}");
                }
                f.into_inner().data
            };
            if model.state == Some(true) {
                plan.groups = model.groups;
                let w = Written { bytes: data, size: size.unwrap(), metadata: None };
                check_layout(&plan, &w)?;
                check_read(&plan, &w)?;
            } else {
                let r = guard("opening", || read_metadata(&mut Cursor::new(&data)))?;
                // all was written but the end did not see it arrive
                ensure!(r.is_err() || flushing, "history-accepted", "the output of the unfinished history {hist:?} opens");
            }
            Ok(())
        }),
        // end fails because pages have no statistics
        space("failing-end", move || {
            let mut plan = Plan::new(pick(&c), vec![]);
            plan.stats = true;
            let n = plan.schema.columns().len();
            let hist = seq(1, 4, |_| pick(&[Op::Good(0), Op::Good(2), Op::End]));
            let mut state = None;
            let mut groups: Vec<Group> = vec![];
            let is_async = flag();
            let mut sink = Sink::new(Env::default());
            let mut size = None;
            let mut step = |op: Op, r: Result<Option<u64>, Error>| -> Res {
                let want = if state.is_some() {
                    false
                } else if op == Op::End {
                    let ok = groups.iter().flatten().flatten().all(|p| p.is_dict());
                    state = Some(ok);
                    ok
                } else {
                    groups.push(good_group(op, n));
                    true
                };
                if let Ok(Some(s)) = &r {
                    size = Some(*s);
                }
                same!(r.is_ok(), want, "history-accepted", "success of {op:?} in {hist:?} (async {is_async})");
                Ok(())
            };
            if is_async {
                guard("async writer", || {
                    block_on(async {
                        let mut f = FileStreamer::new(&mut sink, plan.schema.clone(), plan.options(), None);
                        for op in &hist {
                            let r = match op {
                                Op::End => f.end(None).await.map(Some),
                                _ => f.write(op_iter(&plan, *op, n)).await.map(|_| None),
                            };
                            step(*op, r)?;
                        }
                        Ok::<(), Fail>(())
                    })
                })???;
            } else {
                let mut f = FileWriter::new(&mut sink, plan.schema.clone(), plan.options(), None);
                for op in &hist {
                    let r = guard("writer", || match op {
                        Op::End => f.end(None).map(Some),
                        _ => f.write(op_iter(&plan, *op, n)).map(|_| None),
                    })?;
                    step(*op, r)?;
                }
            }
            visit(&(n, hist));
            if state == Some(true) {
                plan.groups = groups;
                let w = Written { bytes: sink.data, size: size.unwrap(), metadata: None };
                check_layout(&plan, &w)?;
                check_read(&plan, &w)?;
            } else {
                let r = guard("opening", || read_metadata(&mut Cursor::new(&sink.data)))?;
                ensure!(r.is_err(), "history-accepted", "the output of an unfinished history opens");
            }
            Ok(())
        }),
    ];
    Def {
        spaces,
        rule: "Every sequence of writer calls up to the depth bound, over row groups that are valid or invalid in each way (missing or extra columns, different row counts, failing pages or columns, mixed codecs), is run on both writers and compared call by call with a reference protocol machine (open, failed, finished); finished outputs are decoded and compared with the accepted row groups. One I/O error is injected at every possible write. Asynchronous calls are dropped at every suspension, and page iterators panic at every page. Files of more than 4 GiB, metadata of more than 2 GiB and row groups of more than 2^32 rows are written to a sink that keeps small writes only, and checked field by field.",
        assumptions: vec!["after a call fails the bytes on the sink are undefined, so the protocol rejects every later call"],
    }
}
