//! C24: the page-size limit of readers.
use super::files::*;
use super::Def;
use crate::engine::*;
use crate::fx::*;
use futures::StreamExt;
use parquet2::compression::{Compression, CompressionOptions};
use parquet2::error::Error;
use parquet2::metadata::ColumnChunkMetaData;
use parquet2::page::*;
use parquet2::read::*;
use parquet2::schema::types::*;
use parquet2::schema::Repetition::*;
use parquet2::FallibleStreamingIterator;
use parquet_format_safe as pf;
use parquet_format_safe::thrift::protocol::TCompactOutputProtocol;
use std::io::Cursor;
use std::sync::Arc;

/// a page as it is stored: header fields and body
#[derive(Clone, Debug, Hash)]
pub struct Raw {
    pub kind: usize, // 0 dictionary, 1 v1, 2 v2
    pub values: i32,
    pub compressed: i32,
    pub uncompressed: i32,
    pub stats: usize,
}
pub fn raw_header(r: &Raw) -> Vec<u8> {
    let stats = (r.stats > 0).then(|| pf::Statistics { max: None, min: None, null_count: None, distinct_count: None, max_value: Some(vec![1; r.stats / 2]), min_value: Some(vec![2; r.stats - r.stats / 2]) });
    let h = pf::PageHeader {
        type_: pf::PageType([2, 0, 3][r.kind]),
        uncompressed_page_size: r.uncompressed,
        compressed_page_size: r.compressed,
        crc: None,
        data_page_header: (r.kind == 1).then(|| pf::DataPageHeader {
            num_values: r.values,
            encoding: pf::Encoding::PLAIN,
            definition_level_encoding: pf::Encoding::RLE,
            repetition_level_encoding: pf::Encoding::RLE,
            statistics: stats.clone(),
        }),
        index_page_header: None,
        dictionary_page_header: (r.kind == 0).then(|| pf::DictionaryPageHeader { num_values: r.values, encoding: pf::Encoding::PLAIN, is_sorted: None }),
        data_page_header_v2: (r.kind == 2).then(|| pf::DataPageHeaderV2 {
            num_values: r.values,
            num_nulls: 0,
            num_rows: r.values,
            encoding: pf::Encoding::PLAIN,
            definition_levels_byte_length: 0,
            repetition_levels_byte_length: 0,
            is_compressed: Some(false),
            statistics: stats,
        }),
    };
    let mut out = vec![];
    h.write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut out)).unwrap();
    out
}
/// what the limit says of a page
#[derive(Clone, Copy, PartialEq, Debug)]
enum Verdict {
    Accept,
    Reject,
    /// the page fits, but its header does not (only its variable-length part is bounded)
    Either,
}
fn verdict(r: &Raw, header: usize, limit: usize) -> Verdict {
    let stats = if r.kind == 0 { 0 } else { r.stats };
    if (r.compressed as usize).max(r.uncompressed as usize) > limit || stats > limit {
        Verdict::Reject
    } else if header <= limit {
        Verdict::Accept
    } else {
        Verdict::Either
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Api {
    Iterator,
    ColumnIterator,
    Stream,
    StreamFromStart,
}
/// the pages until the first error, and that error
fn read(api: Api, f: &Arc<Vec<u8>>, col: &ColumnChunkMetaData, filter: Option<PageFilter>, limit: usize, env: Env) -> Res<(Vec<CompressedPage>, Option<Error>, bool)> {
    let mut out = vec![];
    let mut err = None;
    let mut after = false;
    match api {
        Api::Iterator | Api::ColumnIterator => {
            let it: Box<dyn Iterator<Item = Result<CompressedPage, Error>>> = if api == Api::Iterator {
                Box::new(get_page_iterator(col, Cursor::new(&f[..]), filter, vec![], limit)?)
            } else {
                let c = ColumnIterator::new(Cursor::new(&f[..]), vec![col.clone()], filter, vec![], limit);
                let State::Some(mut c) = c.advance()? else { return fail("fixture", "no column") };
                let mut v = vec![];
                if let Some((it, _)) = c.get() {
                    for p in it.by_ref() {
                        v.push(p)
                    }
                }
                Box::new(v.into_iter())
            };
            for p in it {
                match p {
                    Ok(p) if err.is_none() => out.push(p),
                    Ok(_) => after = true,
                    Err(e) => err = err.or(Some(e)),
                }
            }
        }
        Api::Stream | Api::StreamFromStart => {
            let mut src = Source::new(f, env);
            let filter = filter.unwrap_or_else(|| Arc::new(|_, _| true));
            block_on(async {
                if api == Api::Stream {
                    let s = get_page_stream(col, &mut src, vec![], filter, limit).await?;
                    futures::pin_mut!(s);
                    while let Some(p) = s.next().await {
                        match p {
                            Ok(p) if err.is_none() => out.push(p),
                            Ok(_) => after = true,
                            Err(e) => err = err.take().or(Some(e)),
                        }
                    }
                } else {
                    src.pos = col.byte_range().0;
                    let s = get_page_stream_from_column_start(col, &mut src, vec![], filter, limit).await?;
                    futures::pin_mut!(s);
                    while let Some(p) = s.next().await {
                        match p {
                            Ok(p) if err.is_none() => out.push(p),
                            Ok(_) => after = true,
                            Err(e) => err = err.take().or(Some(e)),
                        }
                    }
                }
                Ok::<_, Error>(())
            })??;
        }
    }
    Ok((out, err, after))
}
fn apis() -> [Api; 4] {
    [Api::Iterator, Api::ColumnIterator, Api::Stream, Api::StreamFromStart]
}
/// a file with one column chunk made of the given pages
pub fn raw_file(pages: &[Raw], codec: Compression) -> (Vec<u8>, Vec<usize>, Vec<Vec<u8>>) {
    let mut body = b"PAR1".to_vec();
    let (mut headers, mut bodies) = (vec![], vec![]);
    for (i, p) in pages.iter().enumerate() {
        let h = raw_header(p);
        headers.push(h.len());
        body.extend(h);
        // bodies that would not fit in memory are not stored
        let b = if p.compressed <= 1 << 22 { bytes(p.compressed as usize, i) } else { vec![] };
        body.extend(&b);
        bodies.push(b);
    }
    let n = body.len() as i64;
    let dict = pages.first().map(|p| p.kind == 0).unwrap_or(false);
    let values: i64 = pages.iter().filter(|p| p.kind > 0).map(|p| p.values as i64).sum();
    let m = pf::FileMetaData {
        version: 2,
        schema: super::schema::thrift_schema("root", &[prim("c", PhysicalType::Int32, Required)]),
        num_rows: values,
        row_groups: vec![pf::RowGroup {
            columns: vec![pf::ColumnChunk {
                file_path: None,
                file_offset: n,
                meta_data: Some(pf::ColumnMetaData {
                    type_: pf::Type::INT32,
                    encodings: vec![pf::Encoding::PLAIN],
                    path_in_schema: vec!["c".into()],
                    codec: codec.into(),
                    num_values: values,
                    total_uncompressed_size: n - 4,
                    total_compressed_size: n - 4,
                    key_value_metadata: None,
                    data_page_offset: 4,
                    index_page_offset: None,
                    dictionary_page_offset: dict.then_some(4),
                    statistics: None,
                    encoding_stats: None,
                    bloom_filter_offset: None,
                }),
                offset_index_offset: None,
                offset_index_length: None,
                column_index_offset: None,
                column_index_length: None,
                crypto_metadata: None,
                encrypted_column_metadata: None,
            }],
            total_byte_size: n - 4,
            num_rows: values,
            sorting_columns: None,
            file_offset: None,
            total_compressed_size: None,
            ordinal: None,
        }],
        key_value_metadata: None,
        created_by: None,
        column_orders: None,
        encryption_algorithm: None,
        footer_signing_key_metadata: None,
    };
    (with_footer(body, &m), headers, bodies)
}
fn check_raw(pages: &[Raw], codec: Compression, limit: usize, api: Api, env: Env) -> Res {
    let (f, headers, bodies) = raw_file(pages, codec);
    let m = read_metadata(&mut Cursor::new(&f[..]))?;
    let f = Arc::new(f);
    let col = &m.row_groups[0].columns()[0];
    let ((got, err, after), largest) = largest_alloc(|| guard("reading pages", || read(api, &f, col, None, limit, env)).and_then(|x| x))
        .pipe(|(r, l)| r.map(|r| (r, l)))?;
    ensure!(!after, "limit", "{api:?}: pages are read after the error");
    let mut ended = false;
    let mut total = 0;
    for (i, p) in pages.iter().enumerate() {
        let v = verdict(p, headers[i], limit);
        let stored = p.compressed as usize == bodies[i].len();
        match got.get(i) {
            Some(g) => {
                ensure!(v != Verdict::Reject, "limit", "{api:?} with limit {limit} accepts page {i} of {pages:?}");
                let (size, un) = match g {
                    CompressedPage::Data(g) => (g.compressed_size(), g.uncompressed_size()),
                    CompressedPage::Dict(_) => (bodies[i].len(), p.uncompressed as usize),
                };
                same!((size, un), (bodies[i].len(), p.uncompressed as usize), "limit", "{api:?}: sizes of page {i}");
                total += 1;
            }
            None => {
                ensure!(!ended, "machinery", "unreachable");
                ended = true;
                ensure!(err.is_some(), "limit", "{api:?} with limit {limit} ends without an error at page {i} of {pages:?}");
                // a page that was not stored is rejected as well, for another reason
                ensure!(v != Verdict::Accept || !stored, "limit", "{api:?} with limit {limit} refuses page {i} of {pages:?} (header of {} bytes): {:?}", headers[i], err);
                break;
            }
        }
    }
    if !ended {
        ensure!(err.is_none(), "limit", "{api:?} with limit {limit}: {err:?} after all pages of {pages:?}");
        tally("all accepted");
    } else {
        tally("refused");
    }
    // memory: a small multiple of the pages that are there and may be read, or what may be reserved ahead of reading
    let present = bodies.iter().map(|b| b.len()).filter(|l| *l <= limit).max().unwrap_or(0);
    let bound = (2 * present).max(limit.min(1 << 20)) + 2 * pages.iter().map(|p| p.stats.min(limit)).max().unwrap_or(0) + (64 << 10);
    ensure!(largest <= bound, "allocation", "{api:?} with limit {limit} allocates {largest} bytes at once for {pages:?}");
    visit(&(pages.to_vec(), limit, total));
    Ok(())
}
trait Pipe: Sized {
    fn pipe<T>(self, f: impl FnOnce(Self) -> T) -> T {
        f(self)
    }
}
impl<T> Pipe for T {}

pub fn limits(thorough: bool) -> Def {
    let t = thorough;
    let spaces = vec![
        // one page of every size around every limit
        space("one/sizes", move || {
            let limit = pick(&[0usize, 1, 8, 31, 32, 33, 64, 1000, 4096, 1 << 16, 1 << 20, (1 << 20) + 1, 3 << 20]);
            let size = || {
                let l = limit as i32;
                let v: Vec<i32> = [0, 1, l / 2, l - 1, l, l + 1, 2 * l + 1, 1 << 24, i32::MAX].into_iter().filter(|x| *x >= 0).collect();
                pick(&v)
            };
            let p = Raw { kind: choose(3), values: 1 + choose(2) as i32 * 7, compressed: size(), uncompressed: size(), stats: 0 };
            let api = pick(&apis());
            let pages = if p.kind == 0 { vec![p, Raw { kind: 1, values: 3, compressed: 0, uncompressed: 0, stats: 0 }] } else { vec![p] };
            sample(|| format!("limit {limit}, {api:?}: {pages:?}"));
            check_raw(&pages, pick(&[Compression::Uncompressed, Compression::Snappy]), limit, api, Env::default())
        }),
        // headers of every size around the limit
        space("one/headers", move || {
            let stats = pick(&[0usize, 2, 20, 100, 1000, 5000, 1 << 20]);
            let kind = 1 + choose(2);
            let body = pick(&[0i32, 5, 40]);
            let p = Raw { kind, values: 3, compressed: body, uncompressed: body, stats };
            let h = raw_header(&p).len() as i64;
            let edge = pick(&[h, stats as i64, body as i64]);
            let delta = choose(9) as i64 - 4;
            let limit = (edge + delta).max(0) as usize;
            check_raw(&[p], Compression::Uncompressed, limit, pick(&apis()), Env::default())
        }),
        // several pages: the limit applies to each of them
        space("several", move || {
            let sizes = [0i32, 7, 64, 65];
            let limit = pick(&[6usize, 7, 63, 64, 65, 200]);
            let mut pages = vec![];
            if flag() {
                pages.push(Raw { kind: 0, values: 2, compressed: pick(&sizes), uncompressed: pick(&sizes), stats: 0 });
            }
            for i in 0..1 + choose(3) {
                let c = pick(&sizes);
                let u = if t { pick(&sizes) } else { *[c, 64, 7].get(i).unwrap() };
                pages.push(Raw { kind: 1 + (i + c as usize) % 2, values: 2, compressed: c, uncompressed: u, stats: 0 });
            }
            check_raw(&pages, Compression::Uncompressed, limit, pick(&apis()), Env::default())
        }),
        // over a source that delivers in pieces
        space_dev("pieces", if t { 2 } else { 1 }, move || {
            let limit = pick(&[39usize, 40, 41]);
            let pages = vec![Raw { kind: 0, values: 2, compressed: 20, uncompressed: 40, stats: 0 }, Raw { kind: 1, values: 2, compressed: 40, uncompressed: 30, stats: 0 }];
            check_raw(&pages, Compression::Snappy, limit, pick(&[Api::Stream, Api::StreamFromStart]), Env { short: true, pending: true, ..Env::default() })
        }),
        // pages removed by a filter
        space("filtered", move || {
            let limit = pick(&[39usize, 40, 41, 100]);
            let pages: Vec<Raw> = (0..3).map(|i| { let c = pick(&[10, 40, 41]); Raw { kind: 1 + i % 2, values: 2 + i as i32, compressed: c, uncompressed: c, stats: 0 } }).collect();
            let removed = choose(8);
            let filter: PageFilter = Arc::new(move |_, h| removed >> (h.num_values() - 2) & 1 == 0);
            let (f, _, _) = raw_file(&pages, Compression::Uncompressed);
            let m = read_metadata(&mut Cursor::new(&f[..]))?;
            let f = Arc::new(f);
            let api = pick(&apis());
            let (got, err, after) = guard("reading pages", || read(api, &f, &m.row_groups[0].columns()[0], Some(filter), limit, Env::default()))??;
            ensure!(!after, "limit", "pages after the error");
            // a page that is larger than the limit is an error, or is removed without being kept
            let fits = |p: &Raw| p.compressed as usize <= limit;
            let mut k = 0;
            for (i, p) in pages.iter().enumerate() {
                let keep = removed >> i & 1 == 0;
                if !fits(p) {
                    if keep {
                        ensure!(err.is_some() && got.len() == k, "limit", "{api:?}: page {i} of {pages:?} is larger than {limit} and not refused");
                        break;
                    }
                    if err.is_some() && got.len() == k {
                        break;
                    }
                    continue;
                }
                if keep {
                    k += 1;
                    ensure!(got.len() >= k, "limit", "{api:?} with limit {limit} and {removed:#b} removed: page {i} of {pages:?} is missing: {err:?}");
                }
            }
            Ok(())
        }),
        // real files: the smallest limit that suffices, and the largest that does not
        space("files", move || {
            let all = codecs();
            let codec = pick(&all);
            let mut col = vec![];
            if flag() {
                col.push(dict(3, pick(&[0usize, 30, 700]), 1));
            }
            for i in 0..1 + choose(2) {
                let n = pick(&[0usize, 50, 900]);
                col.push(if flag() { v1(2, n, i) } else { v2(2, n, i + 1) });
            }
            let plan = Plan { codec, ..Plan::new(vec![prim("c", PhysicalType::Int32, Required)], vec![vec![col]]) };
            let w = guard("writing", || write_file(&plan))??;
            let m = read_metadata(&mut Cursor::new(&w.bytes))?;
            let f = Arc::new(w.bytes);
            let c = &m.row_groups[0].columns()[0];
            // sizes of its pages, parsed independently
            let mut sizes = vec![];
            let mut at = c.byte_range().0 as usize;
            for _ in &plan.groups[0][0] {
                let mut cur = Cursor::new(&f[at..]);
                let h = pf::PageHeader::read_from_in_protocol(&mut parquet_format_safe::thrift::protocol::TCompactInputProtocol::new(&mut cur, 1 << 20)).map_err(|e| Fail { key: "fixture".into(), msg: e.to_string() })?;
                let hl = cur.position() as usize;
                sizes.push(((h.compressed_page_size.max(h.uncompressed_page_size)) as usize, hl));
                at += hl + h.compressed_page_size as usize;
            }
            let api = pick(&apis());
            let enough = sizes.iter().map(|s| s.0.max(s.1)).max().unwrap();
            let which = choose(sizes.len());
            let (limit, bad) = match choose(3) {
                0 => (enough, None),
                1 => (enough + 1, None),
                _ => {
                    if sizes[which].0 == 0 {
                        return Ok(());
                    }
                    let l = sizes[which].0 - 1;
                    (l, sizes.iter().position(|s| s.0 > l))
                }
            };
            let (got, err, _) = guard("reading pages", || read(api, &f, c, None, limit, Env::default()))??;
            visit(&(sizes.clone(), limit));
            match bad {
                None => {
                    ensure!(err.is_none(), "limit", "{api:?} with limit {limit} refuses a page of {sizes:?}: {err:?}");
                    let want: Vec<Seen> = plan.groups[0][0].iter().map(|p| p.seen()).collect();
                    let seen = got.into_iter().map(|p| decompress(p, &mut vec![]).map(|p| Seen::of(&p))).collect::<Result<Vec<_>, _>>()?;
                    same!(seen, want, "limit", "pages read with limit {limit}");
                }
                Some(i) => {
                    ensure!(err.is_some() && got.len() <= i, "limit", "{api:?} with limit {limit} accepts {} pages of {sizes:?}", got.len());
                    if sizes[..i].iter().all(|s| s.1 <= limit) {
                        same!(got.len(), i, "limit", "{api:?} with limit {limit}: pages before the one that is too large, of {sizes:?}");
                    }
                }
            }
            Ok(())
        }),
        // through the decompressor
        space("decompressor", move || {
            let declared = pick(&[100i32, 4096, 1 << 20, 1 << 30, i32::MAX]);
            let limit = pick(&[99usize, 100, 4096, 1 << 20]);
            let kind = 1 + choose(2);
            let p = Raw { kind, values: 1, compressed: 10, uncompressed: declared, stats: 0 };
            let (f, _, _) = raw_file(&[p], Compression::Snappy);
            let m = read_metadata(&mut Cursor::new(&f[..]))?;
            let (r, largest) = largest_alloc(|| {
                guard("decompressing", || {
                    let it = get_page_iterator(&m.row_groups[0].columns()[0], Cursor::new(&f[..]), None, vec![], limit)?;
                    let mut d = Decompressor::new(it, vec![]);
                    d.next().map(|x| x.is_some())
                })
            });
            let r = r?;
            if declared as usize > limit {
                ensure!(r.is_err(), "limit", "a page of {declared} bytes with limit {limit}: {r:?}");
            }
            ensure!(largest <= limit.max(1 << 12) + (1 << 16), "allocation", "limit {limit}, page of {declared} bytes: allocates {largest}");
            Ok(())
        }),
    ];
    let _ = CompressionOptions::Uncompressed;
    Def {
        spaces,
        rule: "Page headers with every compressed and uncompressed size around limits from 0 to 3 MiB (and up to 2^31-1), header statistics around the limit, up to 4 pages, pages removed by a filter, partial transfers, and written files with every codec; through the page iterator, the column iterator and both asynchronous streams. Oracle: pages larger than the limit are errors and nothing follows them, pages whose size and header are within it are returned, and no single allocation exceeds the limit plus a constant.",
        assumptions: vec!["what is limited in a header is what must be stored (its statistics); the few bytes of fixed fields are not counted", "memory reserved before the data arrives is at most 1 MiB"],
    }
}
