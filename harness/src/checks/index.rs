//! C06-C08: page indexes, row intervals, filtered iteration.
use super::files::*;
use super::Def;
use crate::engine::*;
use crate::fx::*;
use crate::typed::*;
use parquet2::compression::CompressionOptions;
use parquet2::deserialize::*;
use parquet2::encoding::hybrid_rle::{self, BitmapIter};
use parquet2::error::Error;
use parquet2::indexes::*;
use parquet2::page::*;
use parquet2::read::*;
use parquet2::schema::types::*;
use parquet2::schema::Repetition;
use parquet_format_safe as pf;
use parquet_format_safe::thrift::protocol::TCompactInputProtocol;
use std::io::Cursor;

// ---------------------------------------------------------------- C06
fn stat_for(t: PhysicalType, kind: usize, rows: usize, k: usize) -> St {
    let v = |k| Some(value(t, k));
    match kind {
        0 => (Some(0), None, v(2 * k), v(2 * k + 1)),
        1 => (Some(rows as i64), None, None, None),
        _ => (Some(1), None, v(k), v(k)),
    }
}
/// what the column index says of each page: (null count, min, max) as bytes
pub fn index_of(ix: &dyn Index) -> Res<Vec<(Option<i64>, Option<V>, Option<V>)>> {
    fn nat<T: parquet2::types::NativeType>(ix: &dyn Index) -> Res<Vec<(Option<i64>, Option<V>, Option<V>)>> {
        let i = ix.as_any().downcast_ref::<NativeIndex<T>>().ok_or_else(|| Fail { key: "index".into(), msg: "wrong index type".into() })?;
        let b = |x: &Option<T>| x.as_ref().map(|x| x.to_le_bytes().as_ref().to_vec());
        Ok(i.indexes.iter().map(|p| (p.null_count, b(&p.min), b(&p.max))).collect())
    }
    let raw = |v: &Vec<PageIndex<Vec<u8>>>| v.iter().map(|p| (p.null_count, p.min.clone(), p.max.clone())).collect::<Vec<_>>();
    let wrong = || Fail { key: "index".into(), msg: "wrong index type".into() };
    Ok(match ix.physical_type() {
        PhysicalType::Int32 => nat::<i32>(ix)?,
        PhysicalType::Int64 => nat::<i64>(ix)?,
        PhysicalType::Int96 => nat::<[u32; 3]>(ix)?,
        PhysicalType::Float => nat::<f32>(ix)?,
        PhysicalType::Double => nat::<f64>(ix)?,
        PhysicalType::Boolean => {
            let i = ix.as_any().downcast_ref::<BooleanIndex>().ok_or_else(wrong)?;
            i.indexes.iter().map(|p| (p.null_count, p.min.map(|x| vec![x as u8]), p.max.map(|x| vec![x as u8]))).collect()
        }
        PhysicalType::ByteArray => raw(&ix.as_any().downcast_ref::<ByteIndex>().ok_or_else(wrong)?.indexes),
        PhysicalType::FixedLenByteArray(_) => raw(&ix.as_any().downcast_ref::<FixedLenByteIndex>().ok_or_else(wrong)?.indexes),
    })
}
/// Reads through the index with a selection, checking pages, selections and dictionary.
fn indexed(b: &[u8], col: &parquet2::metadata::ColumnChunkMetaData, locs: &[pf::PageLocation], c: &Column, mask: &[bool], unit: bool) -> Res<Vec<CompressedPage>> {
    let rows = intervals(mask, unit);
    let sel = guard("select_pages", || select_pages(&rows, locs, mask.len()))??;
    let got = guard("IndexedPageReader", || IndexedPageReader::new(Cursor::new(b), col, sel, bytes(3, 1), bytes(90, 2)).collect::<Result<Vec<_>, _>>())??;
    let mut want = vec![];
    let mut at = 0;
    for p in c {
        if p.is_dict() {
            want.push((p.seen(), None));
        } else {
            let m = &mask[at..at + p.rows()];
            if m.iter().any(|x| *x) {
                want.push((p.seen(), Some(intervals(m, unit))));
            }
            at += p.rows();
        }
    }
    same!(got.len(), want.len(), "indexed-pages", "pages read through the index for rows {rows:?}");
    for (i, (g, (w, rows))) in got.iter().zip(&want).enumerate() {
        let (g, sel) = match g {
            CompressedPage::Dict(_) => (None, None),
            CompressedPage::Data(d) => (Some(d), d.selected_rows()),
        };
        same!(sel, rows.as_deref(), "indexed-pages", "rows selected in page {i}");
        same!(g.is_none(), matches!(w, Seen::Dict(..)), "indexed-pages", "kind of page {i}");
    }
    Ok(got)
}
fn same_pages(got: Vec<CompressedPage>, c: &Column, mask: &[bool]) -> Res<Vec<Page>> {
    let mut at = 0;
    let mut want = vec![];
    for p in c {
        if p.is_dict() || mask[at..at + p.rows()].iter().any(|x| *x) {
            want.push(p.seen());
        }
        at += p.rows();
    }
    let mut out = vec![];
    let mut buf = vec![];
    for (g, w) in got.into_iter().zip(want) {
        let p = guard("decompress", || decompress(g, &mut buf))??;
        same!(Seen::of(&p), w, "indexed-pages", "content of a page");
        out.push(p);
    }
    Ok(out)
}
fn check_indexes(plan: &Plan, w: &Written) -> Res<parquet2::metadata::FileMetaData> {
    let b = &w.bytes;
    let m = guard("read_metadata", || read_metadata(&mut Cursor::new(b)))??;
    let codec: parquet2::compression::Compression = plan.codec.into();
    for (g, group) in plan.groups.iter().enumerate() {
        let cols = m.row_groups[g].columns();
        let ix = guard("read_columns_indexes", || read_columns_indexes(&mut Cursor::new(b), cols))??;
        same!(ix.len(), if plan.stats { cols.len() } else { 0 }, "index", "column indexes of row group {g}");
        for (c, ix) in ix.iter().enumerate() {
            let t = plan.schema.columns()[c].descriptor.primitive_type.physical_type;
            same!(ix.physical_type(), &t, "index", "type of the column index of column {c}");
            let want: Vec<_> = group[c]
                .iter()
                .filter_map(|p| match p {
                    Pg::V1 { stats, .. } | Pg::V2 { stats, .. } => stats.as_ref().map(|s| (s.0, s.2.clone(), s.3.clone())),
                    _ => None,
                })
                .collect();
            same!(index_of(ix.as_ref())?, want, "index", "column index of column {c} of row group {g}");
        }
        let locs = guard("read_pages_locations", || read_pages_locations(&mut Cursor::new(b), cols))??;
        same!(locs.len(), cols.len(), "index", "offset indexes of row group {g}");
        for (c, locs) in locs.iter().enumerate() {
            let pages: Vec<&Pg> = group[c].iter().filter(|p| !p.is_dict()).collect();
            same!(locs.len(), pages.len(), "index", "page locations of column {c} of row group {g}");
            let mut row = 0;
            for (l, p) in locs.iter().zip(pages) {
                same!(l.first_row_index, row as i64, "index", "first row of a page of column {c}");
                row += p.rows();
                let (o, s) = (l.offset as usize, l.compressed_page_size as usize);
                ensure!(o >= 4 && o + s <= b.len(), "index", "location outside of the file: {l:?}");
                let mut cur = Cursor::new(&b[o..o + s]);
                let h = pf::PageHeader::read_from_in_protocol(&mut TCompactInputProtocol::new(&mut cur, usize::MAX / 4))
                    .map_err(|e| Fail { key: "index".into(), msg: format!("no page header at {l:?}: {e}") })?;
                let hs = cur.position() as usize;
                same!(hs + h.compressed_page_size as usize, s, "index", "size of the page at {o}");
                match p.header().unwrap() {
                    DataPageHeader::V1(x) => same!(h.data_page_header, Some(x), "index", "header at {o}"),
                    DataPageHeader::V2(x) => same!(h.data_page_header_v2, Some(x), "index", "header at {o}"),
                }
                if codec == parquet2::compression::Compression::Uncompressed {
                    ensure!(&b[o + hs..o + s] == p.body(), "index", "data of the page at {o}");
                }
            }
        }
    }
    Ok(m)
}
fn order_of(ix: &dyn Index) -> Option<String> {
    macro_rules! order { ($($t:ty),*) => { $(if let Some(i) = ix.as_any().downcast_ref::<$t>() { return Some(format!("{:?}", i.boundary_order)); })* } }
    order!(NativeIndex<i32>, NativeIndex<i64>, NativeIndex<[u32; 3]>, NativeIndex<f32>, NativeIndex<f64>, BooleanIndex, ByteIndex, FixedLenByteIndex);
    None
}
/// a value without a NaN
fn number(t: PhysicalType, k: usize) -> V {
    match t {
        PhysicalType::Float => (k as f32 - 1.5).to_le_bytes().to_vec(),
        PhysicalType::Double => (k as f64 - 1.5).to_le_bytes().to_vec(),
        t => value(t, k),
    }
}
macro_rules! raw {
    ($x:expr) => {{
        let mut b = vec![];
        $x.write_to_out_protocol(&mut pf::thrift::protocol::TCompactOutputProtocol::new(&mut b)).expect("thrift");
        b
    }};
}
/// A struct, with fields of a later version of the format at its end.
fn newer(mut b: Vec<u8>, delta: u8, how: usize) -> Vec<u8> {
    b.pop();
    match how {
        0 => {}
        // a list of i64
        1 => b.extend([delta << 4 | 9, 3 << 4 | 6, 2, 4, 200, 1]),
        // a binary, a boolean, a struct
        2 => b.extend([delta << 4 | 8, 3, b'a', b'b', b'c', 1 << 4 | 1, 1 << 4 | 12, 1 << 4 | 5, 7, 0]),
        // a list of structs, an empty list, a double
        _ => b.extend([delta << 4 | 9, 2 << 4 | 12, 1 << 4 | 5, 2, 0, 0, 1 << 4 | 9, 6, 1 << 4 | 7, 1, 2, 3, 4, 5, 6, 7, 8]),
    }
    b.push(0);
    b
}
pub fn indexes(thorough: bool) -> Def {
    let t = thorough;
    let spaces = vec![
        super::far::reading(t, super::far::Look::Index),
        super::far::large_files(t, false, super::far::Look::Index),
        super::far::many_rows(t, true),
        // every type x page kinds x statistics, all groups
        space("descriptions", move || {
            let ty = pick(&all_types());
            let rep = pick(&[Repetition::Required, Repetition::Optional]);
            let fields = vec![prim("a", ty, rep), prim("b", PhysicalType::Int64, Repetition::Required)];
            let codec = pick(&[CompressionOptions::Uncompressed, CompressionOptions::Snappy]);
            let stats = flag();
            let mut salt = 0;
            let groups: Vec<Group> = seq(1, 2, |g| {
                let mut col = vec![];
                if flag() {
                    col.push(dict(2, 5 + g, g));
                }
                let n = if g == 0 { choose(4) } else if t { choose(3) } else { choose(2) };
                let mut rows = 0;
                for k in 0..n {
                    let r = if g == 0 { pick(&[1usize, 3]) } else { 2 };
                    rows += r;
                    salt += 1;
                    let p = if g == 0 && flag() { v1(r, 3 + 4 * salt, salt) } else { v2(r, 3 + 4 * salt, salt) };
                    let kind = choose(3);
                    let nv = p.values();
                    col.push(with_stats(p, Some(stat_for(ty, kind, nv, k + 3 * g))));
                }
                vec![col, vec![with_stats(v1(rows, 4, 77), Some(stat_for(PhysicalType::Int64, 0, rows, 1)))]]
            });
            let mut plan = Plan::new(fields, groups);
            plan.codec = codec;
            plan.stats = stats;
            let w = guard("write", || write_file(&plan))??;
            visit(&w.bytes);
            sample(|| format!("{:?}", plan.groups));
            check_indexes(&plan, &w).map(|_| ())
        }),
        // every selection over every page partition
        space("selections", move || {
            let n = if t { 10 } else { 8 };
            let parts = partition(n, 4);
            let with_dict = flag();
            let rep = flag();
            let mut col = vec![];
            if with_dict {
                col.push(dict(2, 9, 5));
            }
            for (i, r) in parts.iter().enumerate() {
                let p = if (i + rep as usize) % 2 == 0 { v1(*r, 5 + i, i) } else { v2(*r, 13 + i, i) };
                col.push(if with_dict { with_enc(p, 8) } else { p });
            }
            let other = vec![v1(n, 6, 9)];
            let mut plan = Plan::new(vec![prim("z", PhysicalType::Int32, Repetition::Required), prim("a", PhysicalType::Int32, Repetition::Required)], vec![vec![other.clone(), vec![v1(n, 4, 3)]], vec![other, col]]);
            if rep {
                plan.codec = CompressionOptions::Snappy;
            }
            let w = guard("write", || write_file(&plan))??;
            let m = check_indexes(&plan, &w)?;
            let cols = m.row_groups[1].columns();
            let locs = read_pages_locations(&mut Cursor::new(&w.bytes), cols)?;
            let mask: Vec<bool> = (0..n).map(|_| flag()).collect();
            let unit = flag();
            visit(&(parts.clone(), mask.clone(), with_dict));
            sample(|| format!("pages of {parts:?} rows, dictionary {with_dict}, rows {mask:?}"));
            for c in 0..2 {
                let column = &plan.groups[1][c];
                let got = indexed(&w.bytes, &cols[c], &locs[c], column, &mask, unit)?;
                same_pages(got, column, &mask)?;
            }
            Ok(())
        }),
        // real values, read through the index and filtered
        space("values", move || {
            let ty = pick(if t { &[PhysicalType::Int32, PhysicalType::ByteArray, PhysicalType::Boolean, PhysicalType::FixedLenByteArray(3)] } else { &[PhysicalType::Int32, PhysicalType::ByteArray][..] });
            let optional = flag();
            let use_dict = ty != PhysicalType::Boolean && flag();
            let parts = pick(&[vec![5usize], vec![2, 3], vec![1, 0, 4], vec![2, 1, 2], vec![3, 3]]);
            let v2s = flag();
            let d: Vec<V> = (0..4).map(|k| value(ty, k)).collect();
            let mut col = vec![];
            if use_dict {
                col.push(dict_page(ty, &d));
            }
            let mut all: Vals = vec![];
            let level_cut = choose(CUTS);
            for (i, r) in parts.iter().enumerate() {
                let vals: Vals = (0..*r).map(|k| if optional && (i + k) % 3 == 1 { None } else { Some(d[(i * 3 + k) % 4].clone()) }).collect();
                let l = Layout { v2: v2s ^ (i == 1), dict: use_dict.then(|| (d.clone(), 2)), level_cut, index_cut: 0 };
                col.push(page(ty, optional, &vals, &l));
                all.extend(vals);
            }
            let rep = if optional { Repetition::Optional } else { Repetition::Required };
            let plan = Plan::new(vec![prim("a", ty, rep)], vec![vec![col]]);
            let w = guard("write", || write_file(&plan))??;
            let m = check_indexes(&plan, &w)?;
            let cols = m.row_groups[0].columns();
            let locs = read_pages_locations(&mut Cursor::new(&w.bytes), cols)?;
            let mask: Vec<bool> = (0..all.len()).map(|_| flag()).collect();
            visit(&(parts, mask.clone()));
            let got = indexed(&w.bytes, &cols[0], &locs[0], &plan.groups[0][0], &mask, flag())?;
            let pages = same_pages(got, &plan.groups[0][0], &mask)?;
            let mut dictionary = None;
            let mut out: [Vals; 2] = [vec![], vec![]];
            for p in &pages {
                match p {
                    Page::Dict(p) => dictionary = Some(read_dict(ty, p)?),
                    Page::Data(p) => {
                        let rows = p.selected_rows().unwrap();
                        out[0].extend(guard("filtered values", || decode_sliced(ty, p, dictionary.as_deref(), rows))??);
                        out[1].extend(guard("filtered runs", || decode_runs(ty, p, dictionary.as_deref(), rows))??);
                    }
                }
            }
            for o in &out {
                same!(o, &keep(&all, &mask), "indexed-values", "values of the rows {mask:?} of {all:?}");
            }
            Ok(())
        }),
        // pages of every magnitude, read through the index
        space("large pages", move || {
            let sizes = [0usize, 1, 255, 256, 257, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70_000, (1 << 20) - 40, 1 << 20, (1 << 20) + 1, 5 << 20];
            let sizes = &sizes[..if t { sizes.len() } else { sizes.len() - 1 }];
            let a = pick(sizes);
            let b = pick(&[0usize, 9, 65_530, 66_000, 1_100_000]);
            let with_dict = flag();
            let large_stats = if flag() { Some((Some(0), None, Some(vec![1; a.min(1 << 20)]), Some(vec![2; b]))) } else { None };
            let codec = pick(&[CompressionOptions::Uncompressed, CompressionOptions::Snappy]);
            let mut col = vec![];
            if with_dict {
                col.push(dict(2, if flag() { a } else { b }, 3));
            }
            for (k, n) in [b, a, 3].iter().enumerate() {
                let p = if k == 1 && flag() { v2(2, *n, k) } else { v1(2, *n, k) };
                col.push(with_stats(p, large_stats.clone()));
            }
            let mut plan = Plan::new(vec![prim("a", PhysicalType::ByteArray, Repetition::Optional)], vec![vec![col]]);
            plan.codec = codec;
            plan.stats = large_stats.is_some();
            let w = guard("write", || write_file(&plan))??;
            let m = check_indexes(&plan, &w)?;
            let cols = m.row_groups[0].columns();
            let locs = read_pages_locations(&mut Cursor::new(&w.bytes), cols)?;
            visit(&(a, b, with_dict, large_stats.is_some()));
            for mask in [[true; 6], [false, false, true, false, false, false], [false, false, false, false, false, true]] {
                let got = indexed(&w.bytes, &cols[0], &locs[0], &plan.groups[0][0], &mask, false)?;
                same_pages(got, &plan.groups[0][0], &mask)?;
            }
            Ok(())
        }),
        // what other writers put in indexes
        space("other writers", move || {
            let ty = pick(&all_types());
            let n = choose(if t { 5 } else { 4 });
            let null_counts = flag();
            let order = choose(3);
            let later = choose(4);
            let all_null = choose(4);
            let mut want = vec![];
            let mut ci = pf::ColumnIndex { null_pages: vec![], min_values: vec![], max_values: vec![], boundary_order: pf::BoundaryOrder(order as i32), null_counts: None };
            let mut counts = vec![];
            for k in 0..n {
                let null = flag();
                ci.null_pages.push(null);
                let count = [0i64, 1, i64::MAX, 1 << 33][k % 4];
                counts.push(count);
                let (min, max) = if null { ([vec![], vec![0], vec![0; 4], value(ty, k)][all_null].clone(), [vec![], vec![0], vec![7; 12], value(ty, k)][all_null].clone()) } else { (number(ty, k), number(ty, k + 3)) };
                want.push((null_counts.then_some(count), (!null).then(|| min.clone()), (!null).then(|| max.clone())));
                ci.min_values.push(min);
                ci.max_values.push(max);
            }
            if null_counts {
                ci.null_counts = Some(counts);
            }
            let oi = pf::OffsetIndex { page_locations: (0..n).map(|k| pf::PageLocation { offset: [4, 1 << 40, 4, i64::MAX][k % 4], compressed_page_size: [9, i32::MAX, 0, 3][k % 4], first_row_index: [0, 5, 5, i64::MAX][k % 4] }).collect() };
            let (c, o) = (newer(raw!(ci), if null_counts { 1 } else { 2 }, later), newer(raw!(oi), 1, later));
            let plan = Plan::new(vec![prim("a", ty, Repetition::Optional)], vec![vec![vec![v1(3, 4, 1)]]]);
            let w = guard("write", || write_file(&plan))??;
            let gap = vec![0xee; choose(2) * 3];
            let extra = [&gap[..], &o[..], &gap[..], &c[..]].concat();
            let b = splice(&w.bytes, &extra, |m, start| {
                let cc = &mut m.row_groups[0].columns[0];
                cc.offset_index_offset = Some((start + gap.len()) as i64);
                cc.offset_index_length = Some(o.len() as i32);
                cc.column_index_offset = Some((start + 2 * gap.len() + o.len()) as i64);
                cc.column_index_length = Some(c.len() as i32);
            });
            visit(&b);
            let m = guard("read_metadata", || read_metadata(&mut Cursor::new(&b)))??;
            let cols = m.row_groups[0].columns();
            let read = || guard("read_columns_indexes", || read_columns_indexes(&mut Cursor::new(&b), cols));
            let ix = match read()? {
                Ok(ix) => ix,
                Err(e) => return fail("other-index", format!("{ci:?} with later fields {later}: {e}")),
            };
            same!(ix.len(), 1, "other-index", "column indexes");
            same!(index_of(ix[0].as_ref())?, want, "other-index", "entries of {ci:?}");
            let orders = ["Unordered", "Ascending", "Descending"];
            let got = order_of(ix[0].as_ref());
            if ty != PhysicalType::Boolean || got.is_some() {
                same!(got.as_deref(), Some(orders[order]), "other-index", "boundary order of {ci:?}");
            }
            // equality of indexes is that of what they say
            let again = read()??;
            ensure!(ix[0].as_ref() == again[0].as_ref(), "other-index", "an index differs from itself: {ci:?}");
            if n > 0 {
                let k = choose(n);
                let mut other = ci.clone();
                match choose(4) {
                    0 => other.boundary_order = pf::BoundaryOrder((order as i32 + 1) % 3),
                    1 => {
                        other.null_pages[k] = !other.null_pages[k];
                        other.min_values[k] = number(ty, 9);
                        other.max_values[k] = number(ty, 9);
                    }
                    2 => match &mut other.null_counts {
                        Some(c) => c[k] ^= 2,
                        None => other.null_counts = Some(vec![0; n]),
                    },
                    _ => {
                        if other.null_pages[k] {
                            return Ok(());
                        }
                        other.max_values[k] = number(ty, k + 3 + 1 + 2 * choose(2));
                        if other.max_values[k] == ci.max_values[k] {
                            return Ok(());
                        }
                    }
                }
                let o = raw!(other);
                let b = splice(&w.bytes, &o, |m, start| {
                    let cc = &mut m.row_groups[0].columns[0];
                    cc.column_index_offset = Some(start as i64);
                    cc.column_index_length = Some(o.len() as i32);
                });
                let m = read_metadata(&mut Cursor::new(&b))?;
                let other_ix = guard("read_columns_indexes", || read_columns_indexes(&mut Cursor::new(&b), m.row_groups[0].columns()))??;
                ensure!(ix[0].as_ref() != other_ix[0].as_ref(), "other-index", "{ci:?} and {other:?} are read as equal");
            }
            let l = guard("read_pages_locations", || read_pages_locations(&mut Cursor::new(&b), cols))?;
            match l {
                Ok(l) => same!(l, vec![oi.page_locations], "other-index", "page locations, later fields {later}"),
                Err(e) => return fail("other-index", format!("page locations with later fields {later}: {e}")),
            }
            Ok(())
        }),
        // many pages, many columns, large statistics
        space("scale", move || {
            let ty = pick(&[PhysicalType::Boolean, PhysicalType::Int32, PhysicalType::Int96, PhysicalType::ByteArray, PhysicalType::FixedLenByteArray(20)]);
            let pages = pick(&[1usize, 2, 14, 15, 16, 17, 63, 64, 65, 66, 100, 127, 128, 129, 130, 255, 256, 257, 300, 1000]);
            let kind = choose(3);
            let big = ty == PhysicalType::ByteArray && pages <= 2 && flag();
            let ncols = if pages <= 16 { pick(&[1usize, 2, 40]) } else { 1 };
            let stats = flag();
            let mut col = vec![];
            if flag() {
                col.push(dict(2, 5, 1));
            }
            for k in 0..pages {
                let p = if k % 2 == 0 { v1(1 + k % 3, 1, k) } else { v2(1 + k % 3, 4, k) };
                let st = if big { (Some(0), None, Some(vec![1; 700_000]), Some(vec![2; 700_000 + k])) } else { stat_for(ty, if kind == 2 { k % 3 } else { kind }, p.values(), k) };
                col.push(with_stats(p, Some(st)));
            }
            let rows: usize = col.iter().map(|p| p.rows()).sum();
            let fields = (0..ncols).map(|c| prim(&format!("c{c}"), ty, Repetition::Optional)).collect();
            let mut plan = Plan::new(fields, vec![vec![col.clone(); ncols]]);
            plan.stats = stats;
            let w = guard("write", || write_file(&plan))??;
            let m = check_indexes(&plan, &w)?;
            let cols = m.row_groups[0].columns();
            let locs = read_pages_locations(&mut Cursor::new(&w.bytes), cols)?;
            let c = ncols - 1;
            let sel = choose(4);
            let mask: Vec<bool> = (0..rows).map(|i| match sel { 0 => true, 1 => i == rows - 1, 2 => i % 7 == 3, _ => (i / 5) % 4 == 1 }).collect();
            visit(&(pages, kind, sel, ncols, big));
            let got = indexed(&w.bytes, &cols[c], &locs[c], &col, &mask, false)?;
            same_pages(got, &col, &mask).map(|_| ())
        }),
    ];
    Def {
        spaces,
        rule: "Files with every combination of page statistics, page kinds and sizes are written; the column index is compared with the statistics given, and every page location is parsed independently. For every partition of up to 9 rows in up to 4 pages and every subset of rows, the pages, per-page selections and values obtained through the index are compared with the plan. Pages and dictionaries of every magnitude up to 5 MiB; column and offset indexes as other writers store them (orders, no null counts, any bytes for null pages, fields of later versions of the format), and their equality. Column chunks of up to 1000 pages, row groups of 40 columns and statistics of 700 kB are covered by boundary counts. Files of which only some parts are not zero stand for files of more than 2 and 4 GiB: a small file moved to every offset around 2^31, 2^32, 2^33, 2^40, 2^53 and 2^62, and files written with up to 7 pages of up to 2 GiB each to a sink that keeps small writes only; row groups of more than 2^32 rows read through their index.",
        assumptions: vec!["selections are sorted, disjoint intervals", "columns are flat"],
    }
}
/// a partition of n rows in 1..=k pages (pages may have no rows)
fn partition(n: usize, k: usize) -> Vec<usize> {
    let pages = 1 + choose(k);
    let mut left = n;
    let mut out = vec![];
    for i in 0..pages {
        let r = if i + 1 == pages { left } else { choose(left + 1) };
        left -= r;
        out.push(r);
    }
    out
}

// ---------------------------------------------------------------- C07
fn locations(parts: &[usize], scale: i64) -> Vec<pf::PageLocation> {
    let (mut off, mut row) = (4 + scale, 0i64);
    parts
        .iter()
        .enumerate()
        .map(|(i, r)| {
            let l = pf::PageLocation { offset: off, compressed_page_size: 7 + i as i32, first_row_index: row };
            off += 7 + i as i64;
            row += *r as i64 * scale;
            l
        })
        .collect()
}
fn check_algebra(parts: &[usize], rows: &[Interval], scale: usize) -> Res {
    let n: usize = parts.iter().sum();
    let locs = locations(parts, scale as i64);
    let scaled: Vec<Interval> = rows.iter().map(|r| iv(r.start * scale, r.length * scale)).collect();
    let sel = guard("select_pages", || select_pages(&scaled, &locs, n * scale))??;
    same!(sel.len(), parts.len(), "select", "one entry per page");
    let want = denote(rows, n);
    let mut got = vec![false; n];
    let mut at = 0;
    for (i, (s, p)) in sel.iter().zip(parts).enumerate() {
        same!((s.start as i64, s.length as i32, s.num_rows), (locs[i].offset, locs[i].compressed_page_size, p * scale), "select", "location and rows of page {i}");
        let mut end = 0;
        for (k, r) in s.selected_rows.iter().enumerate() {
            ensure!(r.length > 0, "select", "empty interval {r:?} in page {i}");
            ensure!(r.start >= end || k == 0, "select", "intervals of page {i} overlap: {:?}", s.selected_rows);
            end = r.start + r.length;
            ensure!(end <= p * scale, "select", "interval {r:?} is outside of page {i} of {} rows", p * scale);
            ensure!(r.start % scale == 0 && r.length % scale == 0, "select", "interval {r:?} of page {i}");
            for x in r.start / scale..end / scale {
                ensure!(!got[at + x], "select", "row {} is selected twice", at + x);
                got[at + x] = true;
            }
        }
        at += p;
    }
    same!(got, want, "select", "rows selected from pages {parts:?} by {rows:?}");
    Ok(())
}
/// sorted, disjoint intervals that may be empty, adjacent, or reach past the last row
fn any_intervals(n: usize, k: usize) -> Vec<Interval> {
    let m = choose(k + 1);
    let mut at = 0;
    let mut out = vec![];
    for _ in 0..m {
        let s = at + choose(n + 2 - at.min(n + 1));
        let l = choose(n + 3 - s.min(n + 2));
        out.push(iv(s, l));
        at = s + l;
    }
    out
}
pub fn algebra(thorough: bool) -> Def {
    let t = thorough;
    let spaces = vec![
        space("all-subsets", move || {
            let n = choose(if t { 14 } else { 11 });
            let parts = partition(n, 4);
            let mask: Vec<bool> = (0..n).map(|_| flag()).collect();
            let rows = intervals(&mask, flag());
            visit(&(parts.clone(), rows.clone()));
            sample(|| format!("pages {parts:?}, rows {rows:?}"));
            check_algebra(&parts, &rows, 1)
        }),
        space("interval-lists", move || {
            let n = choose(if t { 9 } else { 7 });
            let parts = partition(n, 3);
            let rows = any_intervals(n, 3);
            visit(&(parts.clone(), rows.clone()));
            check_algebra(&parts, &rows, pick(&[1, 3, 1 << 33, 1 << 58]))
        }),
        // predicates on pages
        space("compute-rows", move || {
            let n = choose(7);
            let parts = partition(n, 5);
            let scale = pick(&[1usize, 1 << 40]);
            let locs = locations(&parts, scale as i64);
            let all = guard("compute_rows", || compute_rows(&vec![true; locs.len()], &locs, n * scale))??;
            let mut at = 0;
            let want: Vec<Interval> = parts
                .iter()
                .map(|p| {
                    at += p;
                    iv((at - p) * scale, p * scale)
                })
                .collect();
            same!(all, want, "page-rows", "rows of the pages {parts:?}");
            let sel: Vec<bool> = parts.iter().map(|_| flag()).collect();
            let rows = guard("compute_rows", || compute_rows(&sel, &locs, n * scale))??;
            visit(&(parts.clone(), sel.clone()));
            // the rows denoted, whatever the intervals are
            let scaled: Vec<Interval> = rows.iter().map(|r| iv(r.start / scale, r.length / scale)).collect();
            ensure!(rows.iter().all(|r| r.start % scale == 0 && r.length % scale == 0), "page-rows", "rows {rows:?}");
            let mut m = vec![];
            for (s, p) in sel.iter().zip(&parts) {
                m.extend(vec![*s; *p]);
            }
            ensure!(rows.iter().all(|r| r.start + r.length <= n * scale), "page-rows", "rows {rows:?} of {n}");
            same!(denote(&scaled, n), m, "page-rows", "rows of the pages {sel:?} of {parts:?}");
            same!(scaled.iter().map(|x| x.length).sum::<usize>(), m.iter().filter(|x| **x).count(), "page-rows", "number of rows of {rows:?}");
            // two columns with different pages: rows of one select in the other
            let other = partition(n, 3);
            check_algebra(&other, &scaled, 1)
        }),
        space("many", move || {
            let many = pick(&[255usize, 256, 257, 32_768, 65_535, 65_536, 65_537, 70_000]);
            let few = 1 + choose(3);
            let k = choose(3);
            let scale = pick(&[1, 1 << 40]);
            let (parts, mask): (Vec<usize>, Vec<bool>) = if flag() {
                // many pages, few intervals
                let parts: Vec<usize> = (0..many).map(|i| [1, 1 + i % 2, 2 - i % 3][k]).collect();
                let n: usize = parts.iter().sum();
                (parts, (0..n).map(|i| i % (n / few) >= n / few - 2 || i == 0).collect())
            } else {
                // few pages, many intervals
                let n = 2 * many + 1;
                let mut parts = vec![n / (few + 1); few];
                parts.push(n - few * (n / (few + 1)));
                (parts, (0..n).map(|i| (i + k) % 2 == 0).collect())
            };
            visit(&(many, few, k));
            let rows = intervals(&mask, false);
            check_algebra(&parts, &rows, scale)?;
            // every other page
            let locs = locations(&parts, scale as i64);
            let n: usize = parts.iter().sum();
            let sel: Vec<bool> = (0..parts.len()).map(|i| (i + k) % 2 == 0).collect();
            let got = guard("compute_rows", || compute_rows(&sel, &locs, n * scale))??;
            let scaled: Vec<Interval> = got.iter().map(|r| iv(r.start / scale, r.length / scale)).collect();
            let want: Vec<bool> = sel.iter().zip(&parts).flat_map(|(s, p)| vec![*s; *p]).collect();
            same!(denote(&scaled, n), want, "page-rows", "rows of every other of {} pages", parts.len());
            Ok(())
        }),
        // locations that no file has
        space("bad-locations", move || {
            let vals = [0i64, 1, 2, 5, -1, i64::MIN, i64::MAX];
            let locs: Vec<pf::PageLocation> = seq(0, 3, |_| pf::PageLocation { offset: pick(&[4i64, -1]), compressed_page_size: pick(&[3i32, -2]), first_row_index: pick(&vals) });
            let n = pick(&[0usize, 1, 3, 10]);
            let rows = pick(&[vec![], vec![iv(0, 4)], vec![iv(1, usize::MAX - 1), iv(usize::MAX, usize::MAX)], vec![iv(0, usize::MAX)]]);
            let good = locs.windows(2).all(|x| x[0].first_row_index <= x[1].first_row_index) && locs.iter().all(|l| l.first_row_index >= 0 && l.first_row_index as u64 <= n as u64);
            let fits = good && locs.iter().all(|l| l.offset >= 0 && l.compressed_page_size >= 0);
            let r = guard("compute_rows", || compute_rows(&vec![true; locs.len()], &locs, n))?;
            same!(r.is_ok(), good || locs.is_empty(), "bad-locations", "rows of {locs:?} with {n} rows: {r:?}");
            let r = guard("select_pages", || select_pages(&rows, &locs, n))?;
            same!(r.is_ok(), fits || locs.is_empty(), "bad-locations", "pages of {locs:?} with {n} rows: {r:?}");
            if let Ok(s) = r {
                for p in s {
                    ensure!(p.selected_rows.iter().all(|r| r.length > 0 && r.start + r.length <= p.num_rows), "select", "{p:?}");
                }
            }
            Ok(())
        }),
    ];
    Def {
        spaces,
        rule: "Every partition of up to 8-10 rows into up to 4 pages (pages without rows included) x every subset of rows, as maximal and as unit intervals; every list of up to 3 sorted intervals including empty ones and ones past the end, scaled up to 2^58; every choice of pages; every malformed location list of up to 3 pages over boundary values; up to 70,000 pages or intervals. Oracle: sets of rows.",
        assumptions: vec!["intervals are sorted and disjoint (their documented use)"],
    }
}

// ---------------------------------------------------------------- C08
/// runs over `n` items, every structure
fn run_list(n: usize, max_runs: usize) -> Vec<(bool, Vec<bool>)> {
    let mut left = n;
    let mut out = vec![];
    while left > 0 && out.len() < max_runs {
        let last = out.len() + 1 == max_runs;
        let l = if last { left } else { 1 + choose(left) };
        if flag() {
            let v = flag();
            out.push((false, vec![v; l]));
        } else {
            let p = choose(3);
            let k = out.len();
            out.push((true, (0..l).map(|i| match p { 0 => i % 2 == 0, 1 => (i + k) % 3 == 0, _ => i == l - 1 }).collect()));
        }
        left -= l;
    }
    out
}
fn check_runs(rl: &[(bool, Vec<bool>)], n: usize, rows: &[Interval]) -> Res {
    let packs: Vec<Vec<u8>> = rl
        .iter()
        .map(|(_, v)| {
            let mut b = vec![0u8; (v.len() + 7) / 8];
            v.iter().enumerate().for_each(|(i, x)| b[i / 8] |= (*x as u8) << (i % 8));
            // bits past the end of the run are not part of it
            if v.len() % 8 != 0 {
                *b.last_mut().unwrap() |= 0xffu8 << (v.len() % 8);
            }
            b
        })
        .collect();
    let it = rl.iter().zip(&packs).map(|((packed, v), b)| Ok::<_, Error>(if *packed { HybridEncoded::Bitmap(b, v.len()) } else { HybridEncoded::Repeated(v[0], v.len()) }));
    let all: Vec<bool> = rl.iter().flat_map(|x| x.1.clone()).collect();
    let mask = denote(rows, n);
    // values are numbered by the non-null item they belong to
    let mut number = 0usize;
    let want: Vec<Option<usize>> = all
        .iter()
        .map(|v| {
            v.then(|| {
                number += 1;
                number - 1
            })
        })
        .zip(&mask)
        .filter(|(_, m)| **m)
        .map(|x| x.0)
        .collect();
    let total = want.len();
    let mut f = FilteredHybridBitmapIter::new(it, rows.iter().copied().collect());
    let mut got: Vec<Option<usize>> = vec![];
    let mut next = 0usize;
    let mut steps = 0;
    loop {
        same!(f.len(), total - got.len(), "filtered-len", "remaining items, runs {rl:?} rows {rows:?}");
        same!(f.is_empty(), got.len() == total, "filtered-len", "is_empty");
        let Some(r) = guard("filtered runs", || f.next())? else { break };
        let r = r?;
        let mut push = |x: bool| {
            got.push(x.then(|| {
                next += 1;
                next - 1
            }))
        };
        match r {
            FilteredHybridEncoded::Skipped(k) => next += k,
            FilteredHybridEncoded::Bitmap { values, offset, length } => BitmapIter::new(values, offset, length).for_each(&mut push),
            FilteredHybridEncoded::Repeated { is_set, length } => (0..length).for_each(|_| push(is_set)),
        }
        ensure!(got.len() <= total, "filtered", "more items than selected; runs {rl:?} rows {rows:?}");
        steps += 1;
        ensure!(steps < 1000, "filtered", "the iteration does not end");
    }
    same!(got, want, "filtered", "selected items of the runs {rl:?} by {rows:?}");
    Ok(())
}
/// Selected items as stretches: (null or value, how many, number of the first value); values that follow each other are joined.
#[derive(Default)]
struct Stretches(Vec<(bool, u64, u64)>);
impl Stretches {
    fn push(&mut self, set: bool, n: u64, number: u64) {
        let number = if set { number } else { 0 };
        match self.0.last_mut() {
            _ if n == 0 => {}
            Some((s, l, m)) if *s == set && (!set || *m + *l == number) => *l += n,
            _ => self.0.push((set, n, number)),
        }
    }
}
/// runs of any length, and selections in them
fn check_huge(runs: &[(bool, u64)], rows: &[Interval]) -> Res {
    let mut want = Stretches::default();
    let (mut at, mut number) = (0u64, 0u64);
    // in order of position, and each run by each interval
    for (set, n) in runs {
        for r in rows {
            let (s, e) = ((r.start as u64).max(at), (r.start as u64 + r.length as u64).min(at + n));
            if s < e {
                want.push(*set, e - s, number + s - at);
            }
        }
        at += n;
        number += if *set { *n } else { 0 };
    }
    let total: u64 = want.0.iter().map(|x| x.1).sum();
    let it = runs.iter().map(|(set, n)| Ok::<_, Error>(HybridEncoded::Repeated(*set, *n as usize)));
    let mut f = FilteredHybridBitmapIter::new(it, rows.iter().copied().collect());
    let mut got = Stretches::default();
    let (mut items, mut next) = (0u64, 0u64);
    for _ in 0..100 {
        same!(f.len() as u64, total - items, "filtered-len", "remaining items, runs {runs:?} rows {rows:?}");
        let Some(r) = guard("filtered runs", || f.next())? else {
            same!(got.0, want.0, "filtered", "selected items of the runs {runs:?} by {rows:?}");
            return Ok(());
        };
        match r? {
            FilteredHybridEncoded::Skipped(k) => next += k as u64,
            FilteredHybridEncoded::Bitmap { .. } => return fail("filtered", "a bitmap of runs"),
            FilteredHybridEncoded::Repeated { is_set, length } => {
                got.push(is_set, length as u64, next);
                next += if is_set { length as u64 } else { 0 };
                items += length as u64;
            }
        }
        ensure!(items <= total, "filtered", "more items than selected; runs {runs:?} rows {rows:?}");
    }
    fail("filtered", format!("the iteration over {runs:?} by {rows:?} does not end"))
}
pub fn filtered(thorough: bool) -> Def {
    let t = thorough;
    let spaces = vec![
        space("slices", move || {
            let n = choose(if t { 17 } else { 14 });
            let mask: Vec<bool> = (0..n).map(|_| flag()).collect();
            let mut rows = intervals(&mask, flag());
            if n > 8 {
                if flag() {
                    // intervals without rows select nothing
                    let at = choose(rows.len() + 1);
                    let s = if at < rows.len() { rows[at].start } else { n };
                    rows.insert(at, iv(s, 0));
                }
            } else {
                // any number of them, anywhere
                let mut all = vec![];
                for at in 0..=rows.len() {
                    let s = if at < rows.len() { rows[at].start } else { n };
                    for _ in 0..choose(3) {
                        all.push(iv(s, 0));
                    }
                    all.extend(rows.get(at));
                }
                rows = all;
            }
            visit(&(n, rows.clone()));
            let mut it = SliceFilteredIter::new(0..n, rows.iter().copied().collect());
            let want: Vec<usize> = (0..n).filter(|i| mask[*i]).collect();
            let mut got = vec![];
            loop {
                same!(it.size_hint(), (want.len() - got.len(), Some(want.len() - got.len())), "filtered-len", "after {got:?} with {rows:?}");
                let Some(x) = guard("SliceFilteredIter", || it.next())? else { break };
                got.push(x);
                ensure!(got.len() <= want.len(), "filtered", "{got:?} from {rows:?}");
            }
            same!(got, want, "filtered", "items of 0..{n} in {rows:?}");
            same!(it.next(), None, "filtered", "after the end");
            Ok(())
        }),
        space("runs/all", move || {
            let n = if t { 10 } else { 8 };
            let rl = run_list(n, 4);
            let mask: Vec<bool> = (0..n).map(|_| flag()).collect();
            let rows = intervals(&mask, flag());
            visit(&(rl.clone(), rows.clone()));
            sample(|| format!("runs {rl:?} rows {rows:?}"));
            check_runs(&rl, n, &rows)
        }),
        // long runs: every pair of intervals with boundary ends
        space("runs/long", move || {
            let lens = [7usize, 8, 9, 16, 20];
            let rl: Vec<(bool, Vec<bool>)> = seq(1, if t { 3 } else { 2 }, |k| {
                let l = pick(&lens);
                match choose(3) {
                    0 => (false, vec![false; l]),
                    1 => (false, vec![true; l]),
                    _ => (true, (0..l).map(|i| (i * 5 + k) % 3 != 0).collect()),
                }
            });
            let n: usize = rl.iter().map(|x| x.1.len()).sum();
            let mut edges = vec![0, 1, n - 1, n];
            let mut at = 0;
            for r in &rl {
                at += r.1.len();
                edges.extend([at - 1, at, at + 1, at - 4]);
            }
            edges.retain(|x| *x <= n);
            edges.sort();
            edges.dedup();
            let k = edges.len();
            let a = choose(k);
            let b = a + choose(k - a);
            let c = b + choose(k - b);
            let d = c + choose(k - c);
            let (a, b, c, d) = (edges[a], edges[b], edges[c], edges[d]);
            let mut rows = vec![iv(a, b - a), iv(c, d - c)];
            if flag() {
                rows.retain(|x| x.length > 0);
            }
            visit(&(rl.clone(), rows.clone()));
            check_runs(&rl, n, &rows)
        }),
        // runs of any length the format allows: their levels come from an encoded stream, and select as they should
        space("runs/huge", move || {
            const LENS: [u64; 10] = [1, 2, 127, 256, 65_536, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) + 3, 1 << 40];
            let runs: Vec<(bool, u64)> = seq(1, if t { 3 } else { 2 }, |_| (flag(), pick(&LENS)));
            let n: u64 = runs.iter().map(|x| x.1).sum();
            // as levels
            let mut b = vec![];
            for (set, l) in &runs {
                b.extend(crate::model::uleb(l << 1));
                b.push(*set as u8);
            }
            let cut = pick(&[0, 1, n / 2]).min(n);
            let it = hybrid_rle::Decoder::new(&b, 1);
            let mut it = HybridRleIter::new(it, (n - cut) as usize);
            let mut left = n - cut;
            for (set, l) in &runs {
                same!(it.len() as u64, left, "filtered-len", "levels left of {runs:?}");
                if left == 0 {
                    break;
                }
                match guard("levels", || it.next())? {
                    Some(Ok(HybridEncoded::Repeated(s, k))) => same!((s, k as u64), (*set, left.min(*l)), "filtered", "runs {runs:?}, {cut} cut off"),
                    x => return fail("filtered", format!("runs {runs:?}, {cut} cut off: {x:?}")),
                }
                left -= left.min(*l);
            }
            ensure!(guard("levels", || it.next())?.is_none(), "filtered", "runs past the end of {runs:?}");
            // selected
            let mut edges = vec![0, 1, n - 1, n];
            let mut at = 0;
            for r in &runs {
                at += r.1;
                edges.extend([at - 1, at, at + 1, at - r.1 / 2]);
            }
            edges.retain(|x| *x <= n);
            edges.sort();
            edges.dedup();
            let k = edges.len();
            let a = choose(k);
            let b = a + choose(k - a);
            let c = b + choose(k - b);
            let d = c + choose(k - c);
            let e = |x: usize| edges[x] as usize;
            let mut rows = vec![iv(e(a), e(b) - e(a)), iv(e(c), e(d) - e(c))];
            if flag() {
                rows.retain(|x| x.length > 0);
            }
            visit(&(runs.clone(), rows.clone(), cut));
            check_huge(&runs, &rows)
        }),
        // holes that begin and end anywhere in bit-packed runs of several bytes
        space("runs/holes", move || {
            let n = pick(&[33usize, if t { 72 } else { 48 }]);
            let which = choose(2);
            let bits: Vec<bool> = (0..n as u32).map(|i| (i * i + 3 * i).wrapping_mul(2654435761) >> (13 + which) & 1 == 1).collect();
            let mut rl = vec![(true, bits)];
            match choose(3) {
                0 => (),
                1 => rl.insert(0, (false, vec![true; 3])),
                _ => rl.push((true, vec![true, false, true])),
            }
            let n: usize = rl.iter().map(|x| x.1.len()).sum();
            let a = pick(&[0usize, 1, 9]);
            let b = a + choose(n - a + 1);
            let c = b + choose(n - b + 1);
            let d = c + choose(n - c + 1);
            let mut rows = vec![iv(a, b - a), iv(c, d - c)];
            rows.retain(|x| x.length > 0);
            visit(&(rl.clone(), rows.clone()));
            check_runs(&rl, n, &rows)
        }),
        // an error of the underlying runs is passed on
        space("runs/errors", move || {
            let at = choose(4);
            let n = 4;
            let rows: Vec<Interval> = intervals(&(0..n * 3).map(|i| i % 4 != 1).collect::<Vec<_>>(), false);
            let it = (0..4).map(|i| if i == at { Err(Error::OutOfSpec("x".into())) } else { Ok(HybridEncoded::Repeated(i % 2 == 0, 3)) });
            let mut f = FilteredHybridBitmapIter::new(it, rows.into_iter().collect());
            let mut items = 0;
            loop {
                match guard("filtered runs", || f.next())? {
                    Some(Ok(r)) => items += r.len(),
                    Some(Err(_)) => {
                        ensure!(items <= at * 3, "filtered", "items after the error");
                        return Ok(());
                    }
                    None => return fail("filtered", format!("the error of run {at} was lost")),
                }
            }
        }),
        // whole pages
        space("pages", move || {
            let ty = pick(&[PhysicalType::Int32, PhysicalType::ByteArray, PhysicalType::Boolean]);
            let optional = flag();
            let n = if t { 9 } else { 8 };
            let dict = (ty != PhysicalType::Boolean && flag()).then(|| ((0..3).map(|k| value(ty, k)).collect::<Vec<_>>(), 2));
            let vals: Vals = if optional { (0..n).map(|i| flag().then(|| value(ty, i % 3))).collect() } else { (0..n).map(|i| Some(value(ty, i % 3))).collect() };
            let l = Layout { v2: flag(), dict, level_cut: if optional { choose(CUTS) } else { 0 }, index_cut: 1 };
            let d = descriptor(ty, optional);
            let p = data_page(&page(ty, optional, &vals, &l), &d);
            let dict = l.dict.as_ref().map(|x| &x.0[..]);
            let mask: Vec<bool> = (0..n).map(|_| flag()).collect();
            let rows = intervals(&mask, false);
            visit(&(vals.clone(), mask.clone()));
            let want = keep(&vals, &mask);
            let got = guard("filtered values", || decode_sliced(ty, &p, dict, &rows))??;
            same!(got, want, "filtered", "items {rows:?} of {vals:?} ({l:?})");
            let got = guard("filtered runs", || decode_runs(ty, &p, dict, &rows))??;
            same!(got, want, "filtered", "runs {rows:?} of {vals:?} ({l:?})");
            Ok(())
        }),
    ];
    Def {
        spaces,
        rule: "Every run structure over up to 9 items (run lengths, repeated/bit-packed, bit patterns, dirty padding bits) x every subset of rows as intervals; two-interval selections with all boundary ends over runs of up to 20 items; every validity pattern and selection of small pages of several types. Oracle: iterate everything, then filter; the positions of the non-null values must match too.",
        assumptions: vec!["selections are sorted, disjoint and within the page"],
    }
}
