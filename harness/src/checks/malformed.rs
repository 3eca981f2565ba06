//! C17: malformed input is an error or some value, never a crash, a hang or an absurd allocation.
use super::limits::{raw_file, raw_header, Raw};
use super::Def;
use crate::engine::*;
use crate::ensure;
use crate::fx::*;
use crate::model;
use crate::typed::{self, Layout, V};
use futures::io::Cursor as ACursor;
use futures::StreamExt;
use parquet2::compression::{Compression, CompressionOptions};
use parquet2::deserialize::*;
use parquet2::encoding::hybrid_rle::{self, BitmapIter, HybridRleDecoder};
use parquet2::encoding::plain_byte_array::BinaryIter;
use parquet2::encoding::*;
use parquet2::indexes::*;
use parquet2::metadata::*;
use parquet2::page::*;
use parquet2::read::levels::get_bit_width;
use parquet2::read::*;
use parquet2::schema::types::*;
use parquet2::schema::Repetition::*;
use parquet2::statistics::*;
use parquet2::FallibleStreamingIterator;
use parquet_format_safe as pf;
use parquet_format_safe::thrift::protocol::TCompactOutputProtocol;
use std::collections::VecDeque;
use std::io::Cursor;
use std::sync::{Arc, OnceLock};

/// how many items are taken from an iterator: beyond it, more of the same
const CAP: usize = 2000;
/// the page size readers accept
const PAGE: usize = 1 << 16;
fn drain<T>(it: impl Iterator<Item = T>) -> usize {
    it.take(CAP).count()
}
/// the same of fallible items: errors come to an end too
fn drain_all<T, E>(it: impl Iterator<Item = Result<T, E>>) -> usize {
    let mut errors = 0;
    let mut n = 0;
    for x in it.take(CAP) {
        n += 1;
        errors += x.is_err() as usize;
    }
    assert!(errors < CAP / 2, "an iterator reports {errors} errors and goes on");
    n
}
/// runs `f` on malformed input of `len` bytes: it may fail but not crash, nor hold much more memory than the input
fn survive<T>(what: &str, len: usize, f: impl FnOnce() -> T) -> Res<T> {
    let (r, peak) = peak_alloc(|| guard(what, f));
    let bound = (6 << 20) + 2000 * len;
    ensure!(peak <= bound, "allocation", "{what}: {peak} bytes were allocated for an input of {len}");
    r
}

// ---------------------------------------------------------------- consumers
fn rle_runs(levels: &[u8], bits: u32, n: usize) {
    drain_all(hybrid_rle::Decoder::new(levels, bits as usize));
    for run in hybrid_rle::Decoder::new(levels, bits as usize).take(CAP) {
        if let Ok(hybrid_rle::HybridEncoded::Rle(v, n)) = run {
            let _ = (v.len(), n);
        }
    }
    if let Ok(d) = HybridRleDecoder::try_new(levels, bits, n) {
        let _ = d.size_hint();
        drain_all(d);
    }
}
fn validity(levels: &[u8], n: usize, rows: Option<&[Interval]>) {
    let runs = || HybridRleIter::new(hybrid_rle::Decoder::new(levels, 1), n);
    drain_all(runs());
    for r in runs().take(CAP) {
        if let Ok(HybridEncoded::Bitmap(b, n)) = r {
            drain(BitmapIter::new(b, 0, n));
        }
    }
    let it = HybridRleDecoderIter::new(runs());
    let _ = it.size_hint();
    drain_all(it);
    if let Some(rows) = rows {
        let rows: VecDeque<Interval> = rows.iter().copied().collect();
        drain_all(FilteredHybridRleDecoderIter::new(runs(), rows.clone()));
        for r in FilteredHybridRleDecoderIter::new(runs(), rows).take(CAP) {
            if let Ok(FilteredHybridEncoded::Bitmap { values, offset, length }) = r {
                drain(BitmapIter::new(values, offset, length));
            }
        }
    }
}
fn delta(values: &[u8]) {
    if let Ok(mut d) = delta_bitpacked::Decoder::try_new(values) {
        let _ = (d.size_hint(), d.consumed_bytes());
        drain(d.by_ref());
        let _ = d.consumed_bytes();
    }
    if let Ok(mut d) = delta_length_byte_array::Decoder::try_new(values) {
        byte_arrays(&mut d);
        drain(d.by_ref());
    }
    if let Ok(mut d) = delta_length_byte_array::Decoder::try_new(values) {
        if consumed(&mut d) {
            let _ = d.into_values().len();
        }
    }
    if let Ok(mut d) = delta_byte_array::Decoder::try_new(values) {
        let _ = d.size_hint();
        if consumed(&mut d) {
            if let Ok(mut l) = d.into_lengths() {
                byte_arrays(&mut l);
            }
        }
    }
    if let Ok(d) = delta_byte_array::Decoder::try_new(values) {
        drain(d);
    }
}
/// whether the iterator ended without an error
fn consumed<T, E>(it: &mut impl Iterator<Item = Result<T, E>>) -> bool {
    for _ in 0..CAP {
        match it.next() {
            None => return true,
            Some(Err(_)) => return false,
            Some(Ok(_)) => {}
        }
    }
    false
}
fn byte_arrays(d: &mut delta_length_byte_array::Decoder) {
    let _ = d.size_hint();
    if consumed(d) {
        let _ = d.values().len();
    }
}
fn stats_of(s: Option<Result<Arc<dyn Statistics>, parquet2::error::Error>>) {
    if let Some(Ok(s)) = s {
        let _ = s.physical_type();
        let _ = s.null_count();
        let w = serialize_statistics(s.as_ref());
        let _ = w.min_value.is_some();
    }
}
/// everything one may do with a decompressed data page
fn data_page(p: &DataPage, dict: &[V]) {
    let n = p.num_values();
    stats_of(p.statistics());
    let _ = (p.encoding(), p.definition_level_encoding(), p.repetition_level_encoding());
    let t = p.descriptor.primitive_type.physical_type;
    if let Ok((rep, def, values)) = split_buffer(p) {
        rle_runs(rep, get_bit_width(p.descriptor.max_rep_level), n);
        rle_runs(def, get_bit_width(p.descriptor.max_def_level), n);
        if p.descriptor.max_def_level == 1 {
            validity(def, n, p.selected_rows());
        }
        delta(values);
        drain(BinaryIter::new(values, Some(n)));
        drain(BinaryIter::new(values, None));
    }
    for d in [None, Some(dict)] {
        let Ok((levels, values)) = typed::state(t, p, d) else { continue };
        let _ = values.size_hint();
        match (levels, p.selected_rows()) {
            (None, Some(rows)) if far(rows) => {}
            (None, Some(rows)) => {
                drain(SliceFilteredIter::new(values, rows.iter().copied().collect()));
            }
            (None, None) => {
                drain(values);
            }
            (Some(DefLevelsDecoder::Bitmap(runs)), rows) => {
                if let Some(rows) = rows {
                    if let Ok(d) = DefLevelsDecoder::try_new(p) {
                        if let DefLevelsDecoder::Bitmap(runs) = d {
                            for r in FilteredHybridRleDecoderIter::new(runs, rows.iter().copied().collect()).take(CAP) {
                                if let Ok(FilteredHybridEncoded::Bitmap { values, offset, length }) = r {
                                    drain(BitmapIter::new(values, offset, length));
                                }
                            }
                        }
                    }
                }
                let it = OptionalValues::new(HybridRleDecoderIter::new(runs), values);
                let _ = it.size_hint();
                drain(it);
            }
            (Some(DefLevelsDecoder::Levels(l, max)), _) => {
                let it = OptionalValues::new(l.map(move |x| x.map(|x| x == max)), values);
                drain(it);
            }
        }
    }
}
/// intervals so far away that reaching them takes long
fn far(rows: &[Interval]) -> bool {
    rows.iter().any(|r| r.start > 100_000)
}
fn dict_values(t: PhysicalType, d: &DictPage) -> Vec<V> {
    let mut out: Vec<V> = vec![];
    for x in BinaryIter::new(&d.buffer, Some(d.num_values)).take(CAP) {
        let Ok(x) = x else { break };
        if t == PhysicalType::ByteArray {
            out.push(x.to_vec())
        }
    }
    if let PhysicalType::FixedLenByteArray(n) = t {
        if n > 0 {
            out.extend(FixexBinaryIter::new(&d.buffer, n).take(CAP).map(|x| x.to_vec()))
        }
    }
    if out.is_empty() {
        out = vec![vec![0; 8]; 3];
    }
    out
}
fn page(p: &Page, t: PhysicalType, dict: &mut Vec<V>) {
    match p {
        Page::Data(p) => data_page(p, dict),
        Page::Dict(d) => *dict = dict_values(t, d),
    }
}
fn compressed_page(p: CompressedPage, t: PhysicalType, dict: &mut Vec<V>, buf: &mut Vec<u8>) -> bool {
    if let CompressedPage::Data(d) = &p {
        let _ = (d.num_values(), d.compressed_size(), d.uncompressed_size());
        stats_of(d.statistics());
    }
    match decompress(p, buf) {
        Ok(p) => {
            page(&p, t, dict);
            true
        }
        Err(_) => false,
    }
}
#[derive(Default, Clone, Copy)]
struct Reached {
    opened: bool,
    pages: usize,
    indexes: usize,
    indexed: usize,
    bloom: usize,
}
/// a page filter that looks at all there is
fn looks(d: &Descriptor, h: &DataPageHeader) -> bool {
    let (n, encodings) = match h {
        DataPageHeader::V1(h) => (h.num_values, [h.encoding(), h.definition_level_encoding(), h.repetition_level_encoding()]),
        DataPageHeader::V2(h) => (h.num_values, [h.encoding(), h.definition_level_encoding(), h.repetition_level_encoding()]),
    };
    h.num_values() == n as usize || encodings[0] == encodings[1] || d.max_def_level >= 0
}
fn column(b: &[u8], c: &ColumnChunkMetaData, r: &mut Reached) -> Res {
    let t = c.physical_type();
    survive("the column's metadata", b.len(), || {
        stats_of(c.statistics());
        let _ = (c.byte_range(), c.num_values(), c.compression(), c.column_encoding().len(), c.index_page_offset(), c.has_index_page());
        let _ = (c.uncompressed_size(), c.compressed_size(), c.file_path().is_some(), c.file_offset(), c.descriptor().path_in_schema.len());
        c.clone().into_thrift()
    })?;
    let n = survive("the page iterator", b.len(), || {
        let mut k = 0;
        let mut dict = vec![];
        let mut buf = vec![];
        if let Ok(it) = get_page_iterator(c, Cursor::new(b), None, vec![], PAGE) {
            for p in it.take(30) {
                let Ok(p) = p else { break };
                compressed_page(p, t, &mut dict, &mut buf);
                k += 1;
            }
        }
        k
    })?;
    r.pages += n;
    survive("the decompressor", b.len(), || {
        let Ok(it) = get_page_iterator(c, Cursor::new(b), Some(Arc::new(looks)), vec![], PAGE) else { return };
        let mut d = Decompressor::new(it, vec![]);
        let mut dict = vec![];
        for _ in 0..30 {
            match d.next() {
                Ok(Some(p)) => page(p, t, &mut dict),
                _ => break,
            }
        }
        d.into_buffers();
    })?;
    survive("the page stream", b.len(), || {
        block_on(async {
            let mut src = ACursor::new(b);
            let Ok(s) = get_page_stream(c, &mut src, vec![], Arc::new(looks), PAGE).await else { return };
            futures::pin_mut!(s);
            for _ in 0..30 {
                match s.next().await {
                    Some(Ok(_)) => {}
                    _ => break,
                }
            }
        })
    })??;
    survive("reading the column", b.len(), || read_column(&mut Cursor::new(b), c).map(|x| x.len()).ok())?;
    r.bloom += survive("the bloom filter", b.len(), || {
        let mut set = vec![];
        if parquet2::bloom_filter::read(c, &mut Cursor::new(b), &mut set).is_ok() {
            for h in [0, u64::MAX, 1 << 32, 0xDEAD_BEEF_0000_0001] {
                parquet2::bloom_filter::is_in_set(&set, h);
            }
            return (!set.is_empty()) as usize;
        }
        0
    })?;
    Ok(())
}
fn group_indexes(b: &[u8], g: &RowGroupMetaData, r: &mut Reached) -> Res {
    r.indexes += survive("the column indexes", b.len(), || {
        let Ok(v) = read_columns_indexes(&mut Cursor::new(b), g.columns()) else { return 0 };
        for (i, x) in v.iter().enumerate() {
            let _ = x.physical_type();
            let _ = format!("{x:?}").len();
            let _ = *x.as_ref() == *v[0].as_ref() && i > 0;
        }
        v.len()
    })?;
    let Some(locations) = survive("the page locations", b.len(), || read_pages_locations(&mut Cursor::new(b), g.columns()).ok())? else { return Ok(()) };
    for (c, l) in g.columns().iter().zip(&locations) {
        let rows = g.num_rows();
        for wanted in [vec![iv(0, usize::MAX)], vec![iv(1, 1), iv(3, 1)], vec![iv(0, rows)]] {
            survive("the indexed pages", b.len(), || {
                let _ = compute_rows(&vec![true; l.len()], l, rows);
                let Ok(pages) = select_pages(&wanted, l, rows) else { return };
                let mut dict = vec![];
                let mut buf = vec![];
                for p in IndexedPageReader::new(Cursor::new(b), c, pages, vec![], vec![]).take(30) {
                    let Ok(p) = p else { break };
                    compressed_page(p, c.physical_type(), &mut dict, &mut buf);
                    r.indexed += 1;
                }
            })?;
        }
    }
    Ok(())
}
fn schema_of(m: &FileMetaData) {
    let s = m.schema();
    for (i, c) in s.columns().iter().enumerate().take(50) {
        let _ = m.column_order(i).sort_order();
        let _ = c.path_in_schema.join(".");
    }
    for f in s.fields().iter().take(20) {
        let _ = f.name().len();
    }
    for g in m.row_groups.iter().take(4) {
        let _ = (g.num_rows(), g.total_byte_size(), g.columns().len());
        g.compressed_size();
    }
}
/// everything one may do with a file
fn consume(b: &[u8]) -> Res<Reached> {
    let mut r = Reached::default();
    let len = b.len();
    let m = survive("opening", len, || read_metadata(&mut Cursor::new(b)).ok())?;
    let a = survive("opening asynchronously", len, || block_on(read_metadata_async(&mut ACursor::new(b))))??;
    let Some(m) = m else {
        drop(a);
        return Ok(r);
    };
    r.opened = true;
    survive("the metadata", len, || {
        schema_of(&m);
        m.clone().into_thrift()
    })?;
    for g in m.row_groups.iter().take(4) {
        for c in g.columns().iter().take(6) {
            column(b, c, &mut r)?;
        }
        group_indexes(b, g, &mut r)?;
        survive("the columns of each field", len, || {
            for f in m.schema().fields().iter().take(6) {
                let mut it = get_column_iterator(Cursor::new(b), g, f.name(), None, vec![], PAGE);
                for _ in 0..8 {
                    match it.advance() {
                        Ok(State::Some(mut next)) => {
                            if let Some((pages, _)) = next.get() {
                                for p in pages.by_ref().take(10) {
                                    if p.is_err() {
                                        break;
                                    }
                                }
                            }
                            it = next;
                        }
                        _ => break,
                    }
                }
                let _ = read_columns(&mut Cursor::new(b), g.columns(), f.name()).map(|x| x.len());
                let _ = get_field_columns(g.columns(), f.name()).count();
            }
        })?;
    }
    if r.pages > 0 {
        tally("pages read")
    } else {
        tally("opened")
    }
    if r.indexed > 0 {
        tally("indexed pages read")
    }
    Ok(r)
}

// ---------------------------------------------------------------- base files
fn vals(t: PhysicalType, pattern: &[usize], null_every: usize) -> typed::Vals {
    pattern.iter().enumerate().map(|(i, k)| if null_every > 0 && i % null_every == 1 { None } else { Some(typed::value(t, *k)) }).collect()
}
fn stats(p: Pg, t: PhysicalType) -> Pg {
    super::files::with_stats(p, Some((Some(1), Some(2), Some(typed::value(t, 0)), Some(typed::value(t, 1)))))
}
/// small files that together use every part of the format
fn bases() -> &'static Vec<Vec<u8>> {
    static B: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    B.get_or_init(|| {
        use PhysicalType::*;
        let plain = |v2| Layout { v2, dict: None, level_cut: 0, index_cut: 0 };
        let mut out = vec![];
        // dictionary, version 1, statistics and indexes
        let d: Vec<V> = (0..3).map(|k| typed::value(Int64, k)).collect();
        let a = vec![
            typed::dict_page(Int64, &d),
            stats(typed::page(Int64, true, &vals(Int64, &[0, 1, 2, 1, 0], 3), &Layout { v2: false, dict: Some((d.clone(), 2)), level_cut: 1, index_cut: 2 }), Int64),
        ];
        let b = vec![stats(typed::page(ByteArray, false, &vals(ByteArray, &[0, 1, 2], 0), &plain(false)), ByteArray), stats(typed::page(ByteArray, false, &vals(ByteArray, &[3, 1], 0), &plain(true)), ByteArray)];
        let mut p = Plan::new(vec![prim("a", Int64, Optional), prim("b", ByteArray, Required)], vec![vec![a, b]]);
        p.stats = true;
        out.push(write_file(&p).expect("base").bytes);
        // version 2, two row groups, key-value pairs, snappy
        let mut p = Plan::new(
            vec![prim("c", Int32, Optional)],
            vec![vec![vec![typed::page(Int32, true, &vals(Int32, &[0, 1, 2, 3], 2), &plain(true))]], vec![vec![typed::page(Int32, true, &vals(Int32, &[2; 9], 0), &plain(true)), typed::page(Int32, true, &vals(Int32, &[1], 0), &plain(false))]]],
        );
        p.codec = CompressionOptions::Snappy;
        p.created_by = Some("me".into());
        p.kv = Some(vec![kv("k", Some("v")), kv("", None)]);
        out.push(write_file(&p).expect("base").bytes);
        // a nested column, zstd, with indexes
        let np = |v2| typed::nested_page(Int32, 3, &[3, 2, 1, 0, 3, 3], 1, &[0, 1, 0, 0, 0, 1], vals(Int32, &[1, 2, 3], 0).into_iter().flatten().collect(), 4, &plain(v2));
        let mut p = Plan::new(vec![group("l", Optional, vec![group("list", Repeated, vec![prim("e", Int32, Optional)])])], vec![vec![vec![stats(np(false), Int32), stats(np(true), Int32)]]]);
        p.codec = CompressionOptions::Zstd(None);
        p.stats = true;
        out.push(write_file(&p).expect("base").bytes);
        // the other types, gzip and a bloom filter
        let ts = [Boolean, Float, Int96, FixedLenByteArray(3)];
        let cols: Vec<Vec<Pg>> = ts.iter().map(|t| vec![typed::page(*t, true, &vals(*t, &[0, 1, 2], 2), &plain(*t == Float))]).collect();
        let mut p = Plan::new(ts.iter().enumerate().map(|(i, t)| prim(&format!("x{i}"), *t, Optional)).collect(), vec![cols]);
        p.codec = CompressionOptions::Gzip(None);
        let w = write_file(&p).expect("base").bytes;
        let mut extra = super::bloom::header(32, true);
        extra.extend(bytes(32, 7));
        out.push(splice(&w, &extra, |m, at| m.row_groups[0].columns[1].meta_data.as_mut().unwrap().bloom_filter_offset = Some(at as i64)));
        out
    })
}
/// makes the footer length match when bytes were inserted or removed in the footer
fn refit(b: &mut [u8], from: usize) {
    let n = b.len();
    if n >= from + 8 {
        b[n - 8..n - 4].copy_from_slice(&((n - 8 - from) as u32).to_le_bytes());
    }
}
/// every file at a distance of one edit from a base file
fn edits(alphabet: &'static [u8], pairs: bool) -> Res {
    let base = &bases()[choose(bases().len())];
    let at = choose(base.len());
    let footer = parse_footer(base).1;
    let mut b = base.clone();
    let fit = match choose(if pairs { 1 } else { 4 }) {
        0 => {
            b[at] = alter(b[at], choose(alphabet.len() + 3), alphabet);
            if pairs {
                let next = (at + 1 + choose(6)).min(b.len() - 1);
                b[next] = alter(b[next], choose(alphabet.len() + 3), alphabet);
            }
            false
        }
        1 => {
            let n = 1 + choose(2);
            b.drain(at..(at + n).min(base.len()));
            flag()
        }
        2 => {
            let x = pick(&[0u8, 0x80, 0xff, 0x2c]);
            b.insert(at, x);
            flag()
        }
        _ => match choose(3) {
            0 => {
                b.truncate(at);
                false
            }
            1 => {
                // cut, but for the end
                let end = b.split_off(b.len() - 8);
                b.truncate(at);
                b.extend(end);
                flag()
            }
            _ => {
                let n = pick(&[1usize, 4, 17]);
                let part = b[at..(at + n).min(base.len())].to_vec();
                let tail = b.split_off(at);
                b.extend(part);
                b.extend(tail);
                flag()
            }
        },
    };
    if fit {
        if at < footer {
            return Ok(());
        }
        refit(&mut b, footer);
    }
    consume(&b).map(|_| ())
}
fn alter(x: u8, how: usize, alphabet: &[u8]) -> u8 {
    match how {
        0 => x ^ 1,
        1 => x.wrapping_add(1),
        2 => x ^ 0x80,
        k => alphabet[k - 3],
    }
}
static FEW: [u8; 7] = [0, 1, 0x7f, 0x80, 0xff, 0x19, 0xfc];
static ALL: [u8; 256] = {
    let mut a = [0; 256];
    let mut i = 0;
    while i < 256 {
        a[i] = i as u8;
        i += 1
    }
    a
};

// ---------------------------------------------------------------- crafted metadata
/// one of `alts`, or no change; a change is a deviation
fn change<T: Clone>(x: &mut T, alts: &[T]) {
    let k = deviate(alts.len() + 1);
    if k > 0 {
        *x = alts[k - 1].clone()
    }
}
fn longs(len: usize) -> Vec<i64> {
    vec![i64::MIN, -1, 0, 1, 4, len as i64 - 8, len as i64, i32::MAX as i64 + 1, i64::MAX - 3, i64::MAX]
}
fn olongs(len: usize) -> Vec<Option<i64>> {
    std::iter::once(None).chain(longs(len).into_iter().map(Some)).collect()
}
fn oints() -> Vec<Option<i32>> {
    vec![None, Some(i32::MIN), Some(-1), Some(0), Some(1), Some(7), Some(i32::MAX)]
}
fn edit_list<T: Clone>(v: &mut Vec<T>) {
    match deviate(5) {
        0 => {}
        1 => v.clear(),
        2 => {
            v.pop();
        }
        3 => {
            if let Some(x) = v.last().cloned() {
                v.push(x)
            }
        }
        _ => v.reverse(),
    }
}
fn bad_stats() -> Vec<Option<pf::Statistics>> {
    let s = |n: Option<i64>, lo: usize, hi: usize| Some(pf::Statistics { max: None, min: None, null_count: n, distinct_count: n, max_value: Some(vec![0xff; hi]), min_value: Some(vec![1; lo]) });
    vec![None, s(Some(-1), 4, 4), s(Some(i64::MAX), 8, 8), s(None, 0, 0), s(None, 1, 3), s(None, 12, 12), Some(pf::Statistics { max: None, min: None, null_count: None, distinct_count: None, max_value: None, min_value: None })]
}
fn edit_schema(e: &mut Vec<pf::SchemaElement>) {
    use pf::*;
    edit_list(e);
    for x in e.iter_mut().take(8) {
        let types: Vec<Option<Type>> = std::iter::once(None).chain([-1, 0, 1, 2, 3, 4, 5, 6, 7, 8].iter().map(|t| Some(Type(*t)))).collect();
        change(&mut x.type_, &types);
        change(&mut x.type_length, &oints());
        change(&mut x.repetition_type, &[None, Some(FieldRepetitionType(-1)), Some(FieldRepetitionType(0)), Some(FieldRepetitionType(1)), Some(FieldRepetitionType(2)), Some(FieldRepetitionType(3))]);
        change(&mut x.num_children, &[None, Some(i32::MIN), Some(-1), Some(0), Some(1), Some(2), Some(3), Some(1000), Some(i32::MAX)]);
        let conv: Vec<_> = std::iter::once(None).chain((-1..23).map(|c| Some(ConvertedType(c)))).collect();
        change(&mut x.converted_type, &conv);
        change(&mut x.precision, &oints());
        change(&mut x.scale, &oints());
        change(&mut x.field_id, &[Some(-1), Some(i32::MAX)]);
        change(&mut x.name, &["".to_string(), "é".repeat(3), "a.b".into(), "x".repeat(500)]);
        let dec = |p, s| Some(LogicalType::DECIMAL(DecimalType { precision: p, scale: s }));
        let int = |b, s| Some(LogicalType::INTEGER(IntType { bit_width: b, is_signed: s }));
        let ts = |u| Some(LogicalType::TIMESTAMP(TimestampType { is_adjusted_to_u_t_c: true, unit: u }));
        change(
            &mut x.logical_type,
            &[
                None,
                Some(LogicalType::STRING(StringType {})),
                Some(LogicalType::MAP(MapType {})),
                Some(LogicalType::LIST(ListType {})),
                Some(LogicalType::ENUM(EnumType {})),
                dec(0, 0),
                dec(-1, 3),
                dec(i32::MAX, i32::MIN),
                dec(18, 2),
                Some(LogicalType::DATE(DateType {})),
                ts(TimeUnit::NANOS(NanoSeconds {})),
                Some(LogicalType::TIME(TimeType { is_adjusted_to_u_t_c: false, unit: TimeUnit::MILLIS(MilliSeconds {}) })),
                int(8, true),
                int(0, false),
                int(-128, true),
                int(64, false),
                Some(LogicalType::UNKNOWN(NullType {})),
                Some(LogicalType::JSON(JsonType {})),
                Some(LogicalType::BSON(BsonType {})),
                Some(LogicalType::UUID(UUIDType {})),
            ],
        );
    }
}
fn edit_chunk(c: &mut pf::ColumnChunk, len: usize) {
    change(&mut c.file_path, &[Some("".into()), Some("other".into())]);
    change(&mut c.file_offset, &longs(len));
    change(&mut c.offset_index_offset, &olongs(len));
    change(&mut c.offset_index_length, &oints());
    change(&mut c.column_index_offset, &olongs(len));
    change(&mut c.column_index_length, &oints());
    change(&mut c.encrypted_column_metadata, &[Some(vec![]), Some(vec![7; 9])]);
    change(&mut c.crypto_metadata, &[Some(pf::ColumnCryptoMetaData::ENCRYPTIONWITHFOOTERKEY(pf::EncryptionWithFooterKey {}))]);
    if let Some(m) = &mut c.meta_data {
        let t: Vec<pf::Type> = (-1..9).map(pf::Type).collect();
        change(&mut m.type_, &t);
        edit_list(&mut m.encodings);
        change(&mut m.encodings, &[vec![pf::Encoding(-1)], vec![pf::Encoding(99); 3]]);
        edit_list(&mut m.path_in_schema);
        change(&mut m.path_in_schema, &[vec!["zz".into()]]);
        let codecs: Vec<pf::CompressionCodec> = (-1..9).map(pf::CompressionCodec).collect();
        change(&mut m.codec, &codecs);
        change(&mut m.num_values, &longs(len));
        change(&mut m.total_uncompressed_size, &longs(len));
        change(&mut m.total_compressed_size, &longs(len));
        change(&mut m.data_page_offset, &longs(len));
        change(&mut m.index_page_offset, &olongs(len));
        change(&mut m.dictionary_page_offset, &olongs(len));
        change(&mut m.bloom_filter_offset, &olongs(len));
        change(&mut m.statistics, &bad_stats());
        change(&mut m.key_value_metadata, &[Some(vec![]), Some(vec![kv("", None)])]);
        change(&mut m.encoding_stats, &[Some(vec![pf::PageEncodingStats { page_type: pf::PageType(-3), encoding: pf::Encoding(88), count: i32::MIN }])]);
    }
    if deviate(2) == 1 {
        c.meta_data = None
    }
}
fn crafted_metadata() -> Res {
    let base = &bases()[choose(bases().len())];
    let (mut m, start) = parse_footer(base);
    let len = base.len();
    change(&mut m.version, &[i32::MIN, -1, 0, 3, i32::MAX]);
    change(&mut m.num_rows, &longs(len));
    change(&mut m.created_by, &[None, Some("".into()), Some("x".repeat(3000))]);
    change(&mut m.key_value_metadata, &[None, Some(vec![]), Some(vec![kv("", None); 40])]);
    change(&mut m.column_orders, &[Some(vec![]), Some(vec![pf::ColumnOrder::TYPEORDER(pf::TypeDefinedOrder {})]), Some(vec![pf::ColumnOrder::TYPEORDER(pf::TypeDefinedOrder {}); 9])]);
    edit_schema(&mut m.schema);
    edit_list(&mut m.row_groups);
    for g in m.row_groups.iter_mut().take(2) {
        edit_list(&mut g.columns);
        change(&mut g.total_byte_size, &longs(len));
        change(&mut g.num_rows, &longs(len));
        change(&mut g.file_offset, &olongs(len));
        change(&mut g.total_compressed_size, &olongs(len));
        change(&mut g.ordinal, &[None, Some(-1), Some(i16::MAX)]);
        change(&mut g.sorting_columns, &[Some(vec![]), Some(vec![pf::SortingColumn { column_idx: -7, descending: true, nulls_first: false }])]);
        for c in g.columns.iter_mut().take(2) {
            edit_chunk(c, len);
        }
    }
    consume(&with_footer(base[..start].to_vec(), &m)).map(|_| ())
}

// ---------------------------------------------------------------- crafted page headers
fn crafted_pages(t_: bool) -> Res {
    let t = pick(&typed::all_types());
    let optional = flag();
    let codecs = [Compression::Uncompressed, Compression::Snappy, Compression::Lz4, Compression::Zstd, Compression::Gzip, Compression::Brotli, Compression::Lz4Raw, Compression::Lzo];
    let codec = pick(&codecs[..if t_ { 8 } else { 4 }]);
    let kind = choose(3);
    let nbody = pick(if t_ { &[0usize, 1, 5, 24] } else { &[0usize, 5, 24] });
    let r = Raw { kind, values: 3, compressed: nbody as i32, uncompressed: nbody as i32, stats: 0 };
    let mut h = {
        let raw = raw_header(&r);
        let mut p = parquet_format_safe::thrift::protocol::TCompactInputProtocol::new(&raw[..], 1 << 20);
        pf::PageHeader::read_from_in_protocol(&mut p).expect("header")
    };
    let ints = [i32::MIN, -1, 0, 1, 2, 6, 100, 1 << 20, i32::MAX];
    let encs: Vec<pf::Encoding> = (-1..11).map(pf::Encoding).collect();
    let types: Vec<pf::PageType> = (-1..5).map(pf::PageType).collect();
    change(&mut h.type_, &types);
    change(&mut h.compressed_page_size, &ints);
    change(&mut h.uncompressed_page_size, &ints);
    change(&mut h.crc, &[Some(0), Some(-1)]);
    if let Some(d) = &mut h.data_page_header {
        change(&mut d.num_values, &ints);
        change(&mut d.encoding, &encs);
        change(&mut d.definition_level_encoding, &encs);
        change(&mut d.repetition_level_encoding, &encs);
        change(&mut d.statistics, &bad_stats());
    }
    if let Some(d) = &mut h.data_page_header_v2 {
        change(&mut d.num_values, &ints);
        change(&mut d.num_nulls, &ints);
        change(&mut d.num_rows, &ints);
        change(&mut d.encoding, &encs);
        change(&mut d.definition_levels_byte_length, &ints);
        change(&mut d.repetition_levels_byte_length, &ints);
        change(&mut d.is_compressed, &[None, Some(true)]);
        change(&mut d.statistics, &bad_stats());
    }
    if let Some(d) = &mut h.dictionary_page_header {
        change(&mut d.num_values, &ints);
        change(&mut d.encoding, &encs);
        change(&mut d.is_sorted, &[Some(true)]);
    }
    match deviate(5) {
        1 => h.data_page_header = None,
        2 => h.data_page_header_v2 = None,
        3 => h.dictionary_page_header = None,
        4 => h.index_page_header = Some(pf::IndexPageHeader {}),
        _ => {}
    }
    let mut head = vec![];
    h.write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut head))?;
    let body = match deviate(4) {
        0 => bytes(nbody, 3),
        1 => vec![0; nbody],
        2 => vec![0xff; nbody],
        _ => vec![2; nbody],
    };
    // a dictionary is followed by a page that uses it
    let mut rest = vec![];
    if kind == 0 {
        rest = raw_header(&Raw { kind: 2, values: 2, compressed: 4, uncompressed: 4, stats: 0 });
        rest.extend([2, 4, 1, 0]);
    }
    let (f, _, _) = raw_file(&[Raw { kind, values: 3, compressed: 0, uncompressed: 0, stats: 0 }], codec);
    let (mut m, _) = parse_footer(&f);
    let mut out = b"PAR1".to_vec();
    out.extend(head);
    out.extend(body);
    out.extend(rest);
    m.schema = super::schema::thrift_schema("root", &[prim("c", t, if optional { Optional } else { Required })]);
    let md = m.row_groups[0].columns[0].meta_data.as_mut().unwrap();
    md.type_ = m.schema[1].type_.unwrap();
    md.total_compressed_size = out.len() as i64 - 4;
    md.num_values = 5;
    md.dictionary_page_offset = (kind == 0).then_some(4);
    consume(&with_footer(out, &m)).map(|_| ())
}

// ---------------------------------------------------------------- crafted indexes
fn crafted_indexes(types: &[PhysicalType]) -> Res {
    let t = pick(types);
    let npages = 1 + choose(2);
    let plain = Layout { v2: flag(), dict: None, level_cut: 0, index_cut: 0 };
    let mut col: Vec<Pg> = (0..npages).map(|k| stats(typed::page(t, true, &vals(t, &[k, k + 1, 0], 2), &plain), t)).collect();
    if flag() {
        let d: Vec<V> = (0..2).map(|k| typed::value(t, k)).collect();
        col.insert(0, typed::dict_page(t, &d));
    }
    let mut p = Plan::new(vec![prim("c", t, Optional)], vec![vec![col]]);
    p.stats = true;
    let base = write_file(&p)?.bytes;
    let (m, _) = parse_footer(&base);
    let cc = &m.row_groups[0].columns[0];
    let cut = |o: Option<i64>, l: Option<i32>| &base[o.unwrap_or(0) as usize..(o.unwrap_or(0) + l.unwrap_or(0) as i64) as usize];
    let rd = |b: &'static [u8]| b;
    let _ = rd;
    let mut ci = pf::ColumnIndex::read_from_in_protocol(&mut parquet_format_safe::thrift::protocol::TCompactInputProtocol::new(cut(cc.column_index_offset, cc.column_index_length), 1 << 20))?;
    let mut oi = pf::OffsetIndex::read_from_in_protocol(&mut parquet_format_safe::thrift::protocol::TCompactInputProtocol::new(cut(cc.offset_index_offset, cc.offset_index_length), 1 << 20))?;
    let len = base.len();
    let ints = [i32::MIN, -1, 0, 1, 30, len as i32, 1 << 20, i32::MAX];
    edit_list(&mut oi.page_locations);
    for l in oi.page_locations.iter_mut() {
        change(&mut l.offset, &longs(len));
        change(&mut l.compressed_page_size, &ints);
        change(&mut l.first_row_index, &[i64::MIN, -1, 0, 1, 2, 3, 5, 7, i64::MAX]);
    }
    edit_list(&mut ci.null_pages);
    edit_list(&mut ci.min_values);
    edit_list(&mut ci.max_values);
    let odd: Vec<Vec<u8>> = [0usize, 1, 3, 4, 5, 8, 12, 13, 300].iter().map(|n| vec![0xff; *n]).collect();
    for v in ci.min_values.iter_mut().chain(ci.max_values.iter_mut()) {
        change(v, &odd);
    }
    for v in ci.null_pages.iter_mut() {
        let n = !*v;
        change(v, &[n]);
    }
    let orders: Vec<pf::BoundaryOrder> = (-1..4).map(pf::BoundaryOrder).collect();
    change(&mut ci.boundary_order, &orders);
    change(&mut ci.null_counts, &[None, Some(vec![]), Some(vec![-1; 5]), Some(vec![i64::MAX])]);
    let mut extra = vec![];
    ci.write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut extra))?;
    let split = extra.len();
    oi.write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut extra))?;
    let total = extra.len();
    let f = splice(&base, &extra, |m, at| {
        change(&mut m.row_groups[0].num_rows, &[0, 1, 2, 4, i64::MAX]);
        let c = &mut m.row_groups[0].columns[0];
        c.column_index_offset = Some(at as i64);
        c.column_index_length = Some(split as i32);
        c.offset_index_offset = Some((at + split) as i64);
        c.offset_index_length = Some((total - split) as i32);
        change(&mut c.offset_index_length, &oints());
        change(&mut c.column_index_length, &oints());
    });
    consume(&f).map(|_| ())
}

// ---------------------------------------------------------------- pages
fn crafted_values() -> Res {
    let types = typed::all_types();
    let t = pick(&types);
    // repetition, maximum definition and repetition levels
    let (rep, max_def, max_rep) = pick(&[(Required, 0i16, 0i16), (Optional, 1, 0), (Optional, 3, 1), (Repeated, 1, 1), (Required, i16::MAX, i16::MAX)]);
    let mut d = descriptor(t, false);
    if let ParquetType::PrimitiveType(p) = prim("c", t, rep) {
        d.primitive_type = p
    }
    d.max_def_level = max_def;
    d.max_rep_level = max_rep;
    let n = pick(&[0i32, 1, 8, 9, 1000, i32::MAX]);
    let enc = pick(&[0i32, 2, 3, 4, 5, 6, 7, 8, 9]);
    let bodies: [&[u8]; 9] = [&[], &[0], &[32], &[33, 1], &[0, 0, 0, 0], &[2, 0, 0, 0, 3, 1, 3, 9, 8, 7], &[2, 0, 0, 0, 16, 1, 2, 0, 0, 0, 16, 1, 7, 3, 1, 2, 3], &[255; 12], &[1, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 1, 0]];
    let mut body = pick(&bodies).to_vec();
    let v2 = flag();
    let header = if v2 {
        let (r, f) = (pick(&[0i32, 1, 3, -1, i32::MAX]), pick(&[0i32, 2, -5, i32::MAX]));
        DataPageHeader::V2(DataPageHeaderV2 { num_values: n, num_nulls: 0, num_rows: n, encoding: pf::Encoding(enc), definition_levels_byte_length: f, repetition_levels_byte_length: r, is_compressed: None, statistics: None })
    } else {
        // the length before the levels
        let l = choose(6);
        if l > 0 {
            let k = body.len().min(4);
            body[..k].copy_from_slice(&[0u32, 1, 1 << 16, u32::MAX, 0x8000_0000][l - 1].to_le_bytes()[..k]);
        }
        let le = pick(&[3i32, 0, 4]);
        DataPageHeader::V1(DataPageHeaderV1 { num_values: n, encoding: pf::Encoding(enc), definition_level_encoding: pf::Encoding(le), repetition_level_encoding: pf::Encoding(3), statistics: None })
    };
    let rows = pick(&[None, Some(0usize), Some(3), Some(usize::MAX)]);
    let p = DataPage::new(header, body.clone(), d, rows);
    visit(&(body.clone(), n, enc));
    survive("decoding a page", body.len(), || {
        let _ = p.num_values();
        data_page(&p, &[vec![1; 8], vec![2; 8]])
    })
}

// ---------------------------------------------------------------- encoded streams
/// the short byte strings over a structural alphabet
fn string(max: usize, extra: bool) -> Vec<u8> {
    let small: [u8; 9] = [0, 1, 2, 3, 8, 0x41, 0x7f, 0x80, 0xff];
    let n = choose(max + 1);
    let mut b: Vec<u8> = (0..n).map(|_| pick(&small)).collect();
    if extra {
        match choose(4) {
            0 => {}
            1 => b.extend([0; 40]),
            2 => b.extend([0xff; 40]),
            _ => b.extend((0..40).map(|i| (i * 37) as u8)),
        }
    }
    b
}
fn lengths() -> [usize; 8] {
    [0, 1, 7, 33, 1000, i32::MAX as usize, 1 << 61, usize::MAX]
}
fn streams_hybrid(max: usize) -> Res {
    let b = string(max, true);
    let bits = pick(&[0u32, 1, 2, 7, 8, 9, 31, 32, 33, 64, 255, u32::MAX]);
    let n = pick(&lengths());
    visit(&(b.clone(), bits, n));
    survive("decoding a hybrid stream", b.len(), || {
        rle_runs(&b, bits, n);
        if bits == 1 {
            validity(&b, n, Some(&[iv(0, 1), iv(2, 3), iv(9, 1000)]))
        }
    })
}
fn streams_packed() -> Res {
    let b = string(2, true);
    let bits = choose(68);
    let bits = if bits == 67 { usize::MAX } else { bits };
    let n = pick(&lengths());
    survive("unpacking bits", b.len(), || {
        fn go<T: bitpacked::Unpackable>(b: &[u8], bits: usize, n: usize) {
            if let Ok(d) = bitpacked::Decoder::<T>::try_new(b, bits, n) {
                drain(d);
            }
        }
        go::<u8>(&b, bits, n);
        go::<u16>(&b, bits, n);
        go::<u32>(&b, bits, n);
        go::<u64>(&b, bits, n);
    })
}
fn streams_delta(max: usize) -> Res {
    let b = string(max, true);
    visit(&b);
    survive("decoding a delta stream", b.len(), || {
        delta(&b);
        let _ = uleb128::decode(&b);
        let _ = zigzag_leb128::decode(&b);
        for n in [None, Some(0), Some(3), Some(usize::MAX)] {
            let it = BinaryIter::new(&b, n);
            let _ = it.size_hint();
            drain(it);
        }
        for n in [1, 3, 100] {
            drain(FixexBinaryIter::new(&b, n));
        }
        let _ = parquet2::page::split_buffer_v1(&b, true, true).is_ok();
        let _ = parquet2::page::split_buffer_v2(&b, usize::MAX, 2).is_ok();
    })
}
/// delta headers with every field extreme, then a few bytes
fn streams_delta_header(t: bool) -> Res {
    let big = [0u64, 1, 2, 4, 31, 32, 127, 128, 129, 256, 1 << 20, 1 << 31, 1 << 32, (1 << 63) - 1, 1 << 63, u64::MAX, u64::MAX - 127];
    let few = [0u64, 1, 4, 32, 128, 129, 1 << 31, 1 << 32, 1 << 63, u64::MAX];
    let big = if t { &big[..] } else { &few[..] };
    let mut b = model::uleb(pick(big));
    b.extend(model::uleb(pick(big)));
    b.extend(model::uleb(pick(big)));
    b.extend(model::uleb(pick(&[0u64, 1, 2, u64::MAX, u64::MAX - 1, 1 << 32])));
    // a block
    b.extend(model::uleb(pick(&[0u64, 1, u64::MAX, u64::MAX - 1])));
    let w: &[u8] = if t { &[0, 1, 8, 32, 64, 65, 255] } else { &[0, 1, 64, 65, 255] };
    for _ in 0..choose(3) {
        b.push(pick(w))
    }
    match choose(3) {
        0 => {}
        1 => b.extend([0xff; 300]),
        _ => b.extend([0x80; 3]),
    }
    visit(&b);
    survive("decoding a delta stream", b.len(), || delta(&b))
}
/// byte arrays whose lengths ask for more than there is, or for the impossible
fn streams_lengths(t: bool) -> Res {
    let v = [0i64, 1, 5, -1, 250, 65_534, 65_536, 1 << 24, i32::MAX as i64 - 1, i32::MAX as i64, 1 << 31, 1 << 32, (1 << 32) + 1, i64::MAX, i64::MIN];
    let lengths: Vec<i64> = seq(1, if t { 4 } else { 3 }, |_| pick(&v));
    let there = pick(&[0usize, 1, 6, 255, 70_000]);
    visit(&(&lengths, there));
    let mut b = model::delta_encode(&lengths, 128, 4, &[]);
    b.extend(std::iter::repeat(7).take(there));
    let total = lengths.iter().try_fold(0i64, |a, l| if *l >= 0 { a.checked_add(*l) } else { None });
    let good = total.map(|x| x as usize <= there).unwrap_or(false);
    survive("decoding lengths of byte arrays", b.len(), || delta(&b))?;
    survive("decoding lengths of byte arrays", b.len(), || {
        if let Ok(mut d) = delta_length_byte_array::Decoder::try_new(&b) {
            let ok = consumed(&mut d);
            assert!(ok == good, "lengths {lengths:?} of {there} bytes: {}", if ok { "accepted" } else { "refused" });
            if ok {
                assert!(d.values().len() == total.unwrap() as usize, "lengths {lengths:?} of {there} bytes: {} values", d.values().len());
            }
        } else {
            assert!(!good, "lengths {lengths:?} of {there} bytes: refused");
        }
    })?;
    // as the suffixes of incremental encoding
    let mut b = model::delta_encode(&vec![0; lengths.len()], 128, 4, &[]);
    b.extend(model::delta_encode(&lengths, 128, 4, &[]));
    b.extend(std::iter::repeat(7).take(there));
    survive("decoding incremental byte arrays", b.len(), || delta(&b))
}
fn streams_compressed(t: bool) -> Res {
    let all = [Compression::Uncompressed, Compression::Snappy, Compression::Gzip, Compression::Brotli, Compression::Lz4Raw, Compression::Lz4, Compression::Zstd, Compression::Lzo];
    let c = pick(&all);
    let payload = match choose(3) {
        0 => vec![],
        1 => vec![7; 300],
        _ => bytes(40, 5),
    };
    let o = match c {
        Compression::Snappy => CompressionOptions::Snappy,
        Compression::Gzip => CompressionOptions::Gzip(None),
        Compression::Brotli => CompressionOptions::Brotli(None),
        Compression::Lz4Raw | Compression::Lz4 => CompressionOptions::Lz4Raw,
        Compression::Zstd => CompressionOptions::Zstd(None),
        _ => CompressionOptions::Uncompressed,
    };
    let mut b = vec![];
    if o != CompressionOptions::Uncompressed {
        parquet2::compression::compress(o, &payload, &mut b)?;
    }
    if c == Compression::Lz4 && flag() {
        let mut h = (payload.len() as u32).to_be_bytes().to_vec();
        h.extend((b.len() as u32).to_be_bytes());
        h.extend(b);
        b = h;
    }
    match choose(4) {
        0 => {
            // any short string
            b = string(if t { 5 } else { 4 }, true)
        }
        1 => {
            if !b.is_empty() {
                let i = choose(b.len());
                b[i] = alter(b[i], choose(ALL.len()), &ALL[..ALL.len() - 3]);
            }
        }
        2 => {
            let i = choose(b.len() + 1);
            b.truncate(i)
        }
        _ => {
            let i = choose(b.len() + 1);
            let x = pick(&[0u8, 0x7f, 0x80, 0xff]);
            b.insert(i, x);
        }
    }
    let n = pick(&[0usize, 1, payload.len(), payload.len() + 1, 60000]);
    visit(&(b.clone(), n));
    let (r, peak) = peak_alloc(|| {
        guard("decompressing", || {
            let mut out = vec![0xAA; n];
            parquet2::compression::decompress(c, &b, &mut out).is_ok()
        })
    });
    if r? {
        tally("decompressed")
    }
    // brotli keeps a window of up to 16 MiB, twice while it grows
    ensure!(peak <= (40 << 20) + 1000 * b.len(), "allocation", "decompressing {} bytes with {c:?} allocates {peak}", b.len());
    Ok(())
}

// ---------------------------------------------------------------- text schemas
fn text(max: usize) -> Res {
    let tokens = ["message", "m", "{", "}", "required", "optional", "repeated", "int32", "group", "fixed_len_byte_array", "(", ")", ";", "=", "3", "-1", "99999999999999999999", "DECIMAL", ",", "INTEGER", "true", "é", "LIST", "TIMESTAMP", "x;y"];
    let n = choose(max + 1);
    let mut parts: Vec<&str> = if flag() { vec!["message", "m", "{"] } else { vec![] };
    for _ in 0..n {
        parts.push(tokens[choose(tokens.len())])
    }
    let s = parts.join(if n < 3 && flag() { "" } else { " " });
    let r = survive("parsing a schema", s.len(), || SchemaDescriptor::try_from_message(&s).is_ok())?;
    if r {
        tally("parsed")
    }
    Ok(())
}
/// complete messages with one token replaced, removed, or doubled
fn text_edits(pairs: bool) -> Res {
    let bases = [
        "message m { required int32 a ( INTEGER ( 8 , true ) ) = 1 ; }",
        "message m { optional group l ( LIST ) { repeated group list { optional binary e ( STRING ) ; } } }",
        "message m { required fixed_len_byte_array ( 16 ) f ( DECIMAL ( 9 , 2 ) ) ; optional int64 t ( TIMESTAMP ( MICROS , true ) ) = 7 ; }",
        "message m { repeated fixed_len_byte_array ( 5 ) f ( UTF8 ) ; required int96 x ; }",
    ];
    let base = pick(&bases);
    let mut v: Vec<String> = base.split(' ').map(|x| x.to_string()).collect();
    let words = ["", "(", ")", "{", "}", ";", "=", ",", "0", "-5", "2147483648", "38", "é€", "required", "group", "int32", "int64", "DECIMAL", "INTEGER", "TIME", "TIMESTAMP", "MAP", "UTF8", "false", "NANOS", "message", "\t", "\"", "9223372036854775807"];
    for _ in 0..if pairs { 2 } else { 1 } {
        let i = choose(v.len());
        match choose(words.len() + 2) {
            0 => {
                v.remove(i);
            }
            1 => {
                let x = v[i].clone();
                v.insert(i, x)
            }
            k => v[i] = words[k - 2].into(),
        }
    }
    let s = v.join(" ");
    let r = survive("parsing a schema", s.len(), || SchemaDescriptor::try_from_message(&s).is_ok())?;
    if r {
        tally("parsed")
    }
    Ok(())
}

// ---------------------------------------------------------------- statistics
fn bad_statistics() -> Res {
    let t = pick(&typed::all_types());
    let ParquetType::PrimitiveType(p) = prim("c", t, Optional) else { return fail("machinery", "type") };
    let len = |k: usize| if k == 0 { None } else { Some(vec![0xffu8; [0usize, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13, 16, 40][k - 1]]) };
    let s = pf::Statistics { max: len(choose(15)), min: len(choose(2)), null_count: pick(&[None, Some(-1), Some(i64::MIN), Some(i64::MAX)]), distinct_count: pick(&[None, Some(-1)]), max_value: len(choose(15)), min_value: len(choose(15)) };
    survive("statistics", 100, || stats_of(Some(deserialize_statistics(&s, p.clone()))))
}

// ---------------------------------------------------------------- nesting
fn deep() -> Res {
    let n = pick(&[10usize, 100, 1000, 10_000, 100_000]);
    let base = &bases()[1];
    let what = choose(5);
    let file = match what {
        // a chain of groups
        0 | 1 => {
            let (mut m, start) = parse_footer(base);
            let leaf = m.schema[1].clone();
            let mut s = vec![m.schema[0].clone()];
            for _ in 0..n {
                let mut g = m.schema[0].clone();
                g.num_children = Some(1);
                g.repetition_type = Some(pf::FieldRepetitionType(if what == 0 { 0 } else { 2 }));
                s.push(g);
            }
            s.push(leaf);
            m.schema = s;
            with_footer(base[..start].to_vec(), &m)
        }
        // unknown fields nested in the metadata: structures, lists, maps
        _ => {
            let start = parse_footer(base).1;
            let mut f: Vec<u8> = vec![];
            match what {
                2 => {
                    f.extend(vec![0x1c; n]);
                    f.extend(vec![0; n]);
                }
                3 => {
                    f.push(0xf9);
                    f.extend(vec![0x19; n]);
                    f.extend([0x15, 2]);
                }
                _ => {
                    f.push(0x9b);
                    f.extend((0..n).flat_map(|_| [1, 0x5b, 0]));
                }
            }
            let mut b = base[..start].to_vec();
            b.extend(&f);
            b.extend(&base[start..base.len() - 8]);
            b.extend(((base.len() - 8 - start + f.len()) as u32).to_le_bytes());
            b.extend(b"PAR1");
            b
        }
    };
    let len = file.len();
    let tall = small_stack(2 << 20, move || consume(&file).map(|r| r.opened))??;
    if tall {
        tally("deep files opened")
    }
    ensure!(len > 0, "machinery", "empty");
    Ok(())
}
/// text schemas of any depth
fn deep_text() -> Res {
    let n = pick(&[10usize, 100, 1000, 10_000, 100_000]);
    let mut s = "message m { ".to_string();
    for i in 0..n {
        s.push_str(if i % 2 == 0 { "optional group g { " } else { "repeated group h ( LIST ) { " });
    }
    s.push_str("required int32 a ; ");
    match choose(3) {
        0 => s.push_str(&"} ".repeat(n + 1)),
        1 => s.push_str(&"} ".repeat(n / 2)),
        _ => {}
    }
    small_stack(2 << 20, move || guard("parsing a schema", || SchemaDescriptor::try_from_message(&s).is_ok()))??;
    Ok(())
}

// ---------------------------------------------------------------- bloom headers
fn bloom_headers() -> Res {
    let size = pick(&[i64::MIN, i32::MIN as i64, -1, 0, 1, 31, 32, 33, 64, 96, 1 << 20, i32::MAX as i64, i64::MAX]);
    let mut h = super::bloom::header(size, flag());
    match choose(4) {
        0 => {}
        1 => {
            let i = choose(h.len());
            let x = pick(&[0u8, 1, 0x15, 0x18, 0x1c, 0x19, 0x80, 0xff]);
            h[i] = x;
        }
        2 => {
            let i = choose(h.len());
            h.truncate(i)
        }
        _ => {
            // a string of an absurd length that is skipped
            let end = h.len() - 1;
            h.truncate(end);
            h.extend([0x18, 0xff, 0xff, 0xff, 0xff, 0x07, 1, 2]);
        }
    }
    h.extend(bytes(pick(&[0usize, 31, 32, 64]), 3));
    let f = splice(&bases()[1], &h, |m, at| m.row_groups[0].columns[0].meta_data.as_mut().unwrap().bloom_filter_offset = Some(at as i64));
    consume(&f).map(|_| ())
}

pub fn malformed(t: bool) -> Def {
    let mut spaces = vec![
        space("edits", move || edits(&ALL, false)),
        space("two edits", move || edits(if t { &FEW } else { &FEW[..2] }, true)),
        space_dev("metadata", 2, crafted_metadata),
        space_dev("page headers", 2, move || crafted_pages(t)),
        space_dev("indexes", 2, || crafted_indexes(&typed::all_types())),
        space("page contents", crafted_values),
        space("hybrid streams", move || streams_hybrid(if t { 4 } else { 3 })),
        space("packed streams", streams_packed),
        space("delta streams", move || streams_delta(if t { 7 } else { 5 })),
        space("byte array lengths", move || streams_lengths(t)),
        space("delta headers", move || streams_delta_header(t)),
        space("compressed streams", move || streams_compressed(t)),
        space("text schemas", move || text(if t { 4 } else { 3 })),
        space("text edits", move || text_edits(true)),
        space("statistics", bad_statistics),
        space("bloom filters", bloom_headers),
        space("deep nesting", deep),
        space("deep text", deep_text),
    ];
    if t {
        spaces.push(space_dev("indexes, three edits", 3, || crafted_indexes(&[PhysicalType::Int64])));
        spaces.push(space_dev("page headers, three edits", 3, || crafted_pages(false)));
    }
    Def {
        spaces,
        rule: "A file, page, header, index, encoded stream or text obtained by any of the edits below is given to every reader: each of them has to return a value or an error, in bounded time, without panicking, overflowing the stack (2 MiB) or holding more than 6 MiB + 2000 times the input. Whether the result is a value or an error is not judged. Edits: every single-byte replacement, removal, insertion, truncation and repetition of four small files and pairs of replacements; every value out of a list of extremes for up to two fields of the metadata, page headers, page indexes; every byte string up to a length over an alphabet of structural bytes; nesting up to 100000 levels.",
        assumptions: vec![
            "iterators are followed for 2000 items, files for 4 row groups, 6 columns and 30 pages",
            "documented preconditions are kept: the filtered and sliced decoders and into_values are not used after an error; a selection starting beyond 100000 is not followed",
            "memory is what the Rust allocator hands out; the window of zstd is in C and not counted, that of brotli is allowed",
            "encoders are out of scope: their arguments are the caller's",
        ],
    }
}
