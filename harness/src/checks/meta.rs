//! C21: the metadata of a file, through every way of storing and obtaining it.
use super::files::*;
use super::schema::thrift_schema;
use super::Def;
use crate::engine::*;
use crate::fx::*;
use crate::{ensure, same};
use futures::io::Cursor as ACursor;
use parquet2::error::Error;
use parquet2::metadata::*;
use parquet2::read::*;
use parquet2::schema::types::*;
use parquet2::schema::Repetition::*;
use parquet2::write::*;
use parquet_format_safe as pf;
use std::io::Cursor;
use std::sync::Arc;

fn e(what: &'static str) -> impl Fn(Error) -> Fail {
    move |x| Fail { key: what.into(), msg: format!("{what}: {x:?}") }
}
/// the metadata read in every way is `m`
fn check_read(bytes: &[u8], m: &pf::FileMetaData, footer_len: usize) -> Res {
    let n = bytes.len();
    for how in 0..5 {
        let name = ["read_metadata", "read_metadata_with_size", "read_metadata_async", "deserialize_metadata", "deserialize_metadata with what follows"][how];
        let r = guard(name, || -> Res<FileMetaData> {
            Ok(match how {
                0 => {
                    let mut c = Cursor::new(bytes);
                    c.set_position((n / 2) as u64);
                    read_metadata(&mut c)?
                }
                1 => read_metadata_with_size(&mut Cursor::new(bytes), n as u64)?,
                2 => block_on(async { read_metadata_async(&mut ACursor::new(bytes)).await })??,
                3 => deserialize_metadata(&bytes[n - footer_len..n - 8], footer_len * 4 + 1024)?,
                _ => deserialize_metadata(&bytes[n - footer_len..], footer_len * 4 + 1024)?,
            })
        })?;
        let r = match r {
            Ok(r) => r,
            Err(f) => return fail(format!("{name}:error"), format!("{name}: {} (footer of {footer_len} bytes in {n})", f.msg)),
        };
        check_metadata(name, &r, m)?;
    }
    Ok(())
}
fn check_metadata(name: &str, r: &FileMetaData, m: &pf::FileMetaData) -> Res {
    same!(r.version, m.version, name, "version");
    same!(r.num_rows as i64, m.num_rows, name, "number of rows");
    ensure!(r.created_by == m.created_by, name, "created_by: {} bytes", r.created_by.as_ref().map(|x| x.len()).unwrap_or(0));
    ensure!(r.key_value_metadata == m.key_value_metadata && r.key_value_metadata() == &m.key_value_metadata, name, "key values: {:.300?}", r.key_value_metadata);
    ensure!(thrift_schema(r.schema().name(), r.schema().fields()) == m.schema[..], name, "schema: {:.500?}", r.schema());
    same!(r.row_groups.len(), m.row_groups.len(), name, "number of row groups");
    for (i, (a, b)) in r.row_groups.iter().zip(&m.row_groups).enumerate() {
        same!(a.num_rows() as i64, b.num_rows, name, "rows of row group {i}");
        same!(a.total_byte_size() as i64, b.total_byte_size, name, "size of row group {i}");
        same!(a.columns().len(), b.columns.len(), name, "columns of row group {i}");
        for (j, (x, y)) in a.columns().iter().zip(&b.columns).enumerate() {
            ensure!(x.column_chunk() == y, name, "column {j} of row group {i}: {x:?} instead of {y:?}");
            let md = y.meta_data.as_ref().unwrap();
            let got = (x.num_values(), x.compressed_size(), x.uncompressed_size(), x.data_page_offset(), x.dictionary_page_offset(), x.index_page_offset(), x.has_index_page(), x.file_offset());
            let want = (md.num_values, md.total_compressed_size, md.total_uncompressed_size, md.data_page_offset, md.dictionary_page_offset, md.index_page_offset, md.index_page_offset.is_some(), y.file_offset);
            same!(got, want, name, "accessors of column {j} of row group {i}");
            same!(x.byte_range(), (md.dictionary_page_offset.unwrap_or(md.data_page_offset) as u64, md.total_compressed_size as u64), name, "byte range of column {j} of row group {i}");
            ensure!(x.column_encoding() == &md.encodings && x.file_path() == &y.file_path && x.metadata() == md, name, "accessors of column {j} of row group {i}");
            let codec: pf::CompressionCodec = x.compression().into();
            same!(codec, md.codec, name, "codec of column {j} of row group {i}");
            ensure!(x.descriptor() == &r.schema().columns()[j] && x.physical_type() == r.schema().columns()[j].descriptor.primitive_type.physical_type, name, "descriptor of column {j} of row group {i}");
        }
        if b.total_compressed_size.is_some() {
            same!(Some(a.compressed_size() as i64), b.total_compressed_size, name, "compressed size of row group {i}");
        }
    }
    Ok(())
}
fn plan_written(plan: &Plan, is_async: bool) -> Res<(Vec<u8>, u64)> {
    if is_async {
        let (b, size) = block_on(write_to_async(plan, futures::io::Cursor::new(vec![])))??;
        Ok((b.into_inner(), size))
    } else {
        let w = write_file(plan)?;
        Ok((w.bytes, w.size))
    }
}
fn footer_len(b: &[u8]) -> usize {
    u32::from_le_bytes(b[b.len() - 8..b.len() - 4].try_into().unwrap()) as usize + 8
}

// ---------------------------------------------------------------- the block that is read ahead
const BLOCK: usize = 64 * 1024;
fn window(span: i64) -> Res {
    // what stands before the footer, what the footer is made of, and which size is at the boundary
    let body = choose(4);
    let what = choose(3);
    let of_file = flag();
    let delta = choose(2 * span as usize + 1) as i64 - span;
    let is_async = flag();
    let mut plan = small_plans(false)[0].clone();
    match body {
        0 => plan.groups.clear(),
        1 => {}
        2 => plan.groups.push(plan.groups[0].clone()),
        _ => {
            plan.stats = false;
            let rows = 3;
            let n = plan.schema.columns().len();
            plan.groups = vec![(0..n).map(|c| vec![v1(rows, 70_000, c)]).collect()];
        }
    }
    let pad = |plan: &mut Plan, n: usize| match what {
        0 => plan.created_by = Some("c".repeat(n)),
        1 => {
            plan.created_by = None;
            plan.kv = Some(vec![kv("a", None), kv("key", Some(&"v".repeat(n))), kv("b", Some(""))]);
        }
        _ => {
            // many entries, and one to adjust
            plan.created_by = Some("x".into());
            let many = 2000;
            let mut v: Vec<KeyValue> = (0..many).map(|i| kv(&format!("k{}", i % 10), if i % 3 == 0 { None } else { Some("v") })).collect();
            v.push(kv("z", Some(&"v".repeat(n))));
            plan.kv = Some(v);
        }
    };
    // the length of strings from 16384 bytes takes 3 bytes
    pad(&mut plan, 20_000);
    let (b, _) = plan_written(&plan, is_async)?;
    let now = if of_file { b.len() } else { footer_len(&b) } as i64;
    let want = BLOCK as i64 + delta;
    let n = 20_000 + want - now;
    if n < 16_384 {
        return Ok(tally("the body alone is larger than the block"));
    }
    pad(&mut plan, n as usize);
    let (b, size) = plan_written(&plan, is_async)?;
    let f = footer_len(&b);
    same!(if of_file { b.len() } else { f } as i64, want, "machinery", "size at the boundary");
    same!(size, b.len() as u64, "size", "size returned by end");
    visit(&(b.len(), f, what, body));
    tally(match (of_file, delta) {
        (true, _) => "file as large as the block",
        (_, 0) => "footer exactly as large as the block",
        (_, d) if d < 0 => "footer smaller than the block",
        _ => "footer larger than the block",
    });
    let (m, _) = parse_footer(&b);
    same!(m.created_by, plan.created_by, "written", "created_by");
    ensure!(m.key_value_metadata == plan.kv, "written", "key values");
    check_read(&b, &m, f)
}

// ---------------------------------------------------------------- contents
fn kv_shapes() -> Vec<Option<Vec<KeyValue>>> {
    vec![
        None,
        Some(vec![]),
        Some(vec![kv("", None)]),
        Some(vec![kv("", Some(""))]),
        Some(vec![kv("a", Some("b"))]),
        Some(vec![kv("a", None), kv("a", Some("1")), kv("a", Some("2")), kv("b", None)]),
        Some(vec![kv("clé µ \u{1F980}", Some("\0\n\u{10FFFF}"))]),
        Some((0..14).map(|i| kv(&i.to_string(), None)).collect()),
        Some((0..15).map(|i| kv(&i.to_string(), Some("x"))).collect()),
        Some((0..700).map(|_| kv("k", None)).collect()),
        Some((0..5000).map(|_| kv("", Some(""))).collect()),
        Some(vec![kv(&"k".repeat(127), Some(&"v".repeat(128))), kv(&"k".repeat(16_383), Some(&"v".repeat(16_384)))]),
        Some(vec![kv("PAR1", Some("PAR1")), kv("big", Some(&"z".repeat(300_000)))]),
    ]
}
fn contents() -> Res {
    let plans = small_plans(true);
    let mut plan = plans[choose(plans.len())].clone();
    let kvs = kv_shapes();
    plan.kv = kvs[choose(kvs.len())].clone();
    plan.created_by = pick(&[None, Some(String::new()), Some("parquet2 µ".into()), Some("\0".into()), Some("z".repeat(70_000))]);
    plan.v1 = flag();
    let is_async = flag();
    let (b, size) = plan_written(&plan, is_async)?;
    visit(&b);
    same!(size, b.len() as u64, "size", "size returned by end");
    let (m, _) = parse_footer(&b);
    same!(m.created_by, plan.created_by, "written", "created_by");
    ensure!(m.key_value_metadata == plan.kv, "written", "key values: {:.300?}", m.key_value_metadata);
    same!(m.version, if plan.v1 { 1 } else { 2 }, "written", "version");
    same!(m.row_groups.len(), plan.groups.len(), "written", "number of row groups");
    let rows: Vec<i64> = plan.groups.iter().map(|g| g.first().map(|c| c.iter().map(|p| p.rows()).sum::<usize>()).unwrap_or(0) as i64).collect();
    same!(m.row_groups.iter().map(|g| g.num_rows).collect::<Vec<_>>(), rows, "written", "rows of each row group");
    same!(m.num_rows, rows.iter().sum::<i64>(), "written", "number of rows");
    ensure!(m.schema == thrift_schema("root", plan.schema.fields()), "written", "schema: {:?}", m.schema);
    check_read(&b, &m, footer_len(&b))
}

// ---------------------------------------------------------------- the writer's copy, side files, conversions
fn copies() -> Res {
    let plans = small_plans(true);
    let k = choose(plans.len());
    let mut plan = plans[k].clone();
    let kvs = kv_shapes();
    plan.kv = kvs[choose(10)].clone();
    plan.created_by = pick(&[None, Some("me".into()), Some(String::new())][..if k == 0 { 3 } else { 2 }]);
    let path = pick(&[None, Some("dir/part-0.parquet")]);
    let order = choose(3);
    let mut f = FileWriter::new(vec![], plan.schema.clone(), plan.options(), plan.created_by.clone());
    ensure!(f.metadata().is_none(), "metadata", "there is metadata before the end");
    for g in &plan.groups {
        f.write(group_iter(&plan, g))?;
        ensure!(f.metadata().is_none(), "metadata", "there is metadata before the end");
    }
    f.end(plan.kv.clone())?;
    let held = f.metadata().cloned();
    let (bytes, m) = f.into_inner_and_metadata();
    ensure!(held.as_ref() == Some(&m), "metadata", "metadata() differs from into_inner_and_metadata()");
    let (in_file, _) = parse_footer(&bytes);
    ensure!(m == in_file, "metadata", "the metadata of the writer is not that of the file: {m:?} {in_file:?}");
    visit(&(&bytes, path, order));
    // combined, in a side file
    let mut m = m;
    for g in m.row_groups.iter_mut() {
        for c in g.columns.iter_mut() {
            c.file_path = path.map(|x| x.to_string());
        }
    }
    // fields this writer does not produce
    let extras = choose(4);
    for (i, g) in m.row_groups.iter_mut().enumerate() {
        for (j, c) in g.columns.iter_mut().enumerate() {
            let md = c.meta_data.as_mut().unwrap();
            match extras {
                0 => {}
                1 => md.dictionary_page_offset = Some(0),
                2 => {
                    md.dictionary_page_offset = Some([4, 1, 7][i % 3]);
                    md.key_value_metadata = Some(vec![kv("column", Some("x")), kv("y", None)]);
                    md.index_page_offset = Some(1 << 40);
                    md.encoding_stats = Some(vec![pf::PageEncodingStats { page_type: pf::PageType::DATA_PAGE, encoding: pf::Encoding::PLAIN, count: j as i32 }]);
                    md.bloom_filter_offset = Some(i64::MAX);
                    md.encodings.push(pf::Encoding::DELTA_BINARY_PACKED);
                }
                _ => {
                    md.dictionary_page_offset = Some(1 << 33);
                    md.data_page_offset += 1 << 34;
                    md.total_compressed_size += 1 << 35;
                    md.total_uncompressed_size += 1 << 36;
                    md.num_values += 1 << 37;
                    c.file_offset = 1 << 50;
                    c.column_index_offset = Some(1 << 51);
                    c.column_index_length = Some(i32::MAX);
                    c.offset_index_offset = None;
                    c.offset_index_length = None;
                }
            }
        }
        if extras > 0 {
            // the offset of the group is that of its first column
            g.file_offset = g.columns.first().and_then(|c| c.meta_data.as_ref()).map(|m| m.dictionary_page_offset.filter(|x| *x > 0).unwrap_or(m.data_page_offset));
            g.total_compressed_size = Some(g.columns.iter().map(|c| c.meta_data.as_ref().unwrap().total_compressed_size).sum());
        }
        if extras == 3 {
            g.num_rows += 1 << 38;
            g.total_byte_size += 1 << 39;
        }
    }
    if extras == 3 {
        m.num_rows = m.row_groups.iter().map(|g| g.num_rows).sum();
    }
    let mut twice = m.clone();
    if order > 0 {
        twice.row_groups.extend(m.row_groups.clone());
        twice.num_rows *= 2;
    }
    if order > 1 {
        twice.column_orders = Some(vec![pf::ColumnOrder::TYPEORDER(pf::TypeDefinedOrder {}); plan.schema.columns().len()]);
    }
    for env in [Env::default(), Env { short: true, ..Env::default() }] {
        let mut sink = Sink::new(env);
        let n = guard("write_metadata_sidecar", || write_metadata_sidecar(&mut sink, &twice))??;
        same!(n, sink.data.len() as u64, "sidecar", "size of the side file");
        ensure!(&sink.data[..4] == b"PAR1", "sidecar", "magic");
        let fl = footer_len(&sink.data);
        same!(fl + 4, sink.data.len(), "sidecar", "the side file has other contents than metadata");
        let (again, _) = parse_footer(&sink.data);
        ensure!(again == twice, "sidecar", "other metadata: {again:?}");
        check_read(&sink.data, &twice, fl)?;
    }
    // conversions
    let r = guard("try_from_thrift", || FileMetaData::try_from_thrift(twice.clone()))??;
    check_metadata("try_from_thrift", &r, &twice)?;
    if order > 1 {
        let n = plan.schema.columns().len();
        same!(r.column_orders.as_ref().map(|x| x.len()), Some(n), "orders", "number of column orders");
        for i in 0..n {
            let p = &plan.schema.columns()[i].descriptor.primitive_type;
            let want = ColumnOrder::TypeDefinedOrder(get_sort_order(&p.logical_type, &p.converted_type, &p.physical_type));
            same!(r.column_order(i), want, "orders", "order of column {i}");
        }
        same!(r.column_order(n), ColumnOrder::Undefined, "orders", "order of no column");
    } else {
        ensure!(r.column_orders.is_none() && r.column_order(0) == ColumnOrder::Undefined, "orders", "there are column orders");
    }
    let back = guard("into_thrift", || r.clone().into_thrift())?;
    let mut expect = twice.clone();
    for g in expect.row_groups.iter_mut() {
        g.ordinal = None; // position, which the list gives
    }
    for (a, b) in back.row_groups.iter().zip(&expect.row_groups) {
        let mut a = a.clone();
        a.ordinal = None;
        ensure!(&a == b, "into_thrift", "row group: {a:?} instead of {b:?}");
    }
    let mut back2 = back.clone();
    back2.row_groups.clear();
    expect.row_groups.clear();
    ensure!(back2 == expect && back.row_groups.len() == twice.row_groups.len(), "into_thrift", "{back2:?} instead of {expect:?}");
    // a column without an order: the file has no orders, or one that says so; never one that was not given
    if order > 1 && r.schema().columns().len() > 0 {
        let n = r.schema().columns().len();
        let mut part = r.clone();
        let at = n / 2;
        part.column_orders.as_mut().unwrap()[at] = ColumnOrder::Undefined;
        let back = guard("into_thrift", || part.into_thrift())?;
        ensure!(back.column_orders.is_none(), "orders", "orders {:?} of columns of which one has none", back.column_orders);
        let again = guard("try_from_thrift", || FileMetaData::try_from_thrift(back))??;
        same!(again.column_order(at), ColumnOrder::Undefined, "orders", "order of column {at}");
    }
    // chunks for more or fewer columns than there are
    if let Some(g) = twice.row_groups.first().filter(|g| !g.columns.is_empty()) {
        let mut other = twice.clone();
        let at = twice.row_groups.len() - 1;
        other.row_groups[at].columns.push(g.columns[0].clone());
        ensure!(guard("try_from_thrift", || FileMetaData::try_from_thrift(other.clone()))?.is_err(), "columns", "row group {at} has other columns than the schema");
        other.row_groups[at].columns.truncate(g.columns.len() - 1);
        ensure!(guard("try_from_thrift", || FileMetaData::try_from_thrift(other))?.is_err(), "columns", "row group {at} has other columns than the schema");
    }
    // serde
    for (i, g) in r.row_groups.iter().enumerate() {
        let s = guard("serialize", || serde_json::to_string(g))?.map_err(|x| Fail { key: "serde".into(), msg: format!("row group {i}: {x}") })?;
        let g2: RowGroupMetaData = guard("deserialize", || serde_json::from_str(&s))?.map_err(|x| Fail { key: "serde".into(), msg: format!("row group {i}: {x}") })?;
        ensure!(format!("{g:?}") == format!("{g2:?}"), "serde", "row group {i} changed");
    }
    let s = serde_json::to_string(r.schema()).map_err(|x| Fail { key: "serde".into(), msg: format!("schema: {x}") })?;
    let s2: SchemaDescriptor = serde_json::from_str(&s).map_err(|x| Fail { key: "serde".into(), msg: format!("schema: {x}") })?;
    ensure!(format!("{:?}", r.schema()) == format!("{s2:?}"), "serde", "the schema changed");
    tally(if twice.row_groups.is_empty() { "no row groups" } else { "with row groups" });
    Ok(())
}

// ---------------------------------------------------------------- scale
fn scale(k: usize) -> Res {
    let what = choose(6);
    let int = |i: usize| prim(&format!("column_{i}"), PhysicalType::Int32, Required);
    let one = |fields: Vec<ParquetType>, groups: usize| {
        let mut p = Plan::new(fields, vec![]);
        let n = p.schema.columns().len();
        for _ in 0..groups {
            p.groups.push((0..n).map(|c| vec![v1(1, 4, c)]).collect());
        }
        p
    };
    let plan = match what {
        0 => one((0..1500 * k).map(int).collect(), 2),
        1 => one(vec![int(0)], 10_000 * k),
        2 => {
            // deep
            let mut t = int(0);
            for i in 0..200 {
                t = group(&format!("g{i}"), if i % 50 == 0 { Repeated } else { Optional }, vec![t]);
            }
            one(vec![t, int(1)], 2)
        }
        3 => one(vec![group("wide", Optional, (0..500).map(int).collect()), int(1)], 3),
        4 => {
            let mut p = one(vec![int(0)], 1);
            p.kv = Some(vec![kv("huge", Some(&"h".repeat(10_000_000 * k)))]);
            p
        }
        _ => {
            let mut p = one(vec![int(0)], 1);
            p.kv = Some((0..100_000 * k).map(|i| kv(&i.to_string(), if i % 2 == 0 { None } else { Some("") })).collect());
            p
        }
    };
    let is_async = flag();
    let (b, size) = plan_written(&plan, is_async)?;
    visit(&(b.len(), what, is_async));
    same!(size, b.len() as u64, "size", "size returned by end");
    let (m, _) = parse_footer(&b);
    ensure!(m.key_value_metadata == plan.kv, "written", "key values");
    same!(m.row_groups.len(), plan.groups.len(), "written", "number of row groups");
    same!(m.num_rows, plan.groups.len() as i64, "written", "number of rows");
    for (i, g) in m.row_groups.iter().enumerate() {
        same!(g.columns.len(), plan.schema.columns().len(), "written", "columns of group {i}");
    }
    let m = Arc::new(m);
    check_read(&b, &m, footer_len(&b))
}

pub fn metadata(thorough: bool) -> Def {
    let t = thorough;
    Def {
        spaces: vec![
            super::far::reading(t, super::far::Look::Metadata),
            super::far::large_metadata(),
            space("footer boundary", move || window(if t { 40 } else { 13 })),
            space("contents", contents),
            space_dev("copies", if t { 2 } else { 1 }, copies),
            space("scale", move || scale(if t { 4 } else { 1 })),
        ],
        rule: "what is read equals what was given to the writer, field by field, and the thrift metadata in the file as parsed by an independent thrift reader (parquet-format-safe) Files of which only some parts are not zero stand for files of more than 2 and 4 GiB: a small file moved to every offset around 2^31, 2^32, 2^33, 2^40, 2^53 and 2^62.",
        assumptions: vec!["the thrift reader and writer of parquet-format-safe"],
    }
}
