//! Files of more than 2 and 4 GiB, and more rows than 32 bits count, used by several properties.
use super::files::{dict, v1, v2, with_enc, with_stats};
use super::index::index_of;
use crate::engine::*;
use crate::fx::*;
use futures::StreamExt;
use parquet2::error::Error;
use parquet2::indexes::select_pages;
use parquet2::metadata::*;
use parquet2::page::*;
use parquet2::read::*;
use parquet2::schema::types::PhysicalType;
use parquet2::schema::Repetition::*;
use parquet2::write::*;
use parquet2::FallibleStreamingIterator;
use parquet_format_safe as pf;
use pf::thrift::protocol::{TCompactInputProtocol, TCompactOutputProtocol};
use std::io::Cursor;
use std::sync::Arc;

fn err(what: &'static str) -> impl Fn(Error) -> Fail {
    move |e| Fail { key: "far".into(), msg: format!("{what}: {e}") }
}
pub fn st(a: u8, b: u8) -> Option<St> {
    Some((Some(1), None, Some(vec![a, 0, 0, 0]), Some(vec![b, 0, 0, 0])))
}
/// what of a file a property looks at
#[derive(Clone, Copy, PartialEq)]
pub enum Look {
    Pages,
    Async,
    Index,
    Bloom,
    Columns,
    Metadata,
}
/// Everything the aspect says of a file, in comparable form; offsets are relative to `base`.
fn look(src: &Sparse, what: Look, base: i64) -> Res<Vec<String>> {
    let mut src = src.clone();
    let mut out = vec![];
    let m = guard("read_metadata", || read_metadata(&mut src))?.map_err(err("the metadata"))?;
    macro_rules! say { ($($x:tt)*) => { out.push(format!($($x)*)) } }
    if what == Look::Metadata {
        let n = src.len;
        let r = guard("read_metadata_with_size", || read_metadata_with_size(&mut src, n))?.map_err(err("the metadata"))?;
        same!(thrift(&r), thrift(&m), "far", "read_metadata_with_size");
        let r = guard("read_metadata_async", || block_on(async { read_metadata_async(&mut src).await }))??.map_err(err("the metadata"))?;
        same!(thrift(&r), thrift(&m), "far", "read_metadata_async");
    }
    for (g, rg) in m.row_groups.iter().enumerate() {
        let cols = rg.columns();
        let locs = if what == Look::Index { guard("read_pages_locations", || read_pages_locations(&mut src, cols))?.map_err(err("locations"))? } else { vec![] };
        if what == Look::Index {
            let ix = guard("read_columns_indexes", || read_columns_indexes(&mut src, cols))?.map_err(err("column indexes"))?;
            for i in &ix {
                say!("{:?}", index_of(i.as_ref())?);
            }
        }
        if what == Look::Columns {
            for name in ["a", "b"] {
                let r = guard("read_columns", || read_columns(&mut src, cols, name))?.map_err(err("read_columns"))?;
                say!("{:?}", r.iter().map(|(m, b)| (m.num_values(), b.clone())).collect::<Vec<_>>());
                let f = || {
                    let s = src.clone();
                    Box::pin(async move { Ok(s) }) as futures::future::BoxFuture<'static, std::io::Result<Sparse>>
                };
                let r = guard("read_columns_async", || block_on(read_columns_async(f, cols, name)))??.map_err(err("read_columns_async"))?;
                say!("{:?}", r.iter().map(|(m, b)| (m.num_values(), b.clone())).collect::<Vec<_>>());
                // pages of a field
                let it = get_column_iterator(&mut src, rg, name, None, vec![], usize::MAX);
                if let State::Some(mut it) = guard("column iterator", || it.advance())?.map_err(err("column iterator"))? {
                    let pages = &mut it.get().unwrap().0;
                    while let Some(p) = pages.next() {
                        say!("{:?}", Seen::of(&decompress(p.map_err(err("pages"))?, &mut vec![]).map_err(err("pages"))?));
                    }
                }
            }
        }
        for (c, cc) in cols.iter().enumerate() {
            let (start, len) = cc.byte_range();
            match what {
                Look::Metadata => {
                    say!("{g} {c} {} {} {:?} {}", start as i64 - base, len, cc.dictionary_page_offset().map(|x| x - base), cc.data_page_offset() - base);
                    say!("{} {} {}", cc.num_values(), cc.compressed_size(), cc.uncompressed_size());
                }
                Look::Pages => {
                    for p in guard("pages", || read_pages(&mut src, &m, g, c))?.map_err(err("pages"))? {
                        say!("{p:?}");
                    }
                    let r = guard("read_column", || read_column(&mut src, cc))?.map_err(err("read_column"))?;
                    say!("{r:?}");
                }
                Look::Async => {
                    for p in guard("page stream", || block_on(read_pages_async(&mut src, &m, g, c)))??.map_err(err("page stream"))? {
                        say!("{p:?}");
                    }
                    let r = block_on(async {
                        let mut r = src.at(start);
                        let s = get_page_stream_from_column_start(cc, &mut r, vec![], Arc::new(|_, _| true), usize::MAX).await?;
                        futures::pin_mut!(s);
                        let mut v = vec![];
                        while let Some(p) = s.next().await {
                            v.push(Seen::of(&decompress(p?, &mut vec![])?));
                        }
                        Ok(v)
                    })?
                    .map_err(err("page stream"))?;
                    say!("{r:?}");
                    let s = src.clone();
                    let r = guard("read_column_async", || {
                        block_on(read_column_async(
                            || {
                                let s = s.clone();
                                Box::pin(async move { Ok(s) })
                            },
                            cc,
                        ))
                    })??
                    .map_err(err("read_column_async"))?;
                    say!("{r:?}");
                }
                Look::Index => {
                    say!("{:?}", locs[c].iter().map(|l| (l.offset - base, l.compressed_page_size, l.first_row_index)).collect::<Vec<_>>());
                    let n = rg.num_rows();
                    for sel in [vec![iv(0, n)], vec![iv(0, 1)], vec![iv(n - 1, 1)]] {
                        let pages = guard("select_pages", || select_pages(&sel, &locs[c], n))?.map_err(err("select_pages"))?;
                        let r = guard("IndexedPageReader", || IndexedPageReader::new(&mut src, cc, pages, vec![], vec![]).collect::<Result<Vec<_>, _>>())?.map_err(err("IndexedPageReader"))?;
                        for p in r {
                            let rows = match &p {
                                CompressedPage::Data(p) => p.selected_rows().map(|x| x.to_vec()),
                                _ => None,
                            };
                            say!("{:?} {rows:?}", Seen::of(&decompress(p, &mut vec![]).map_err(err("decompress"))?));
                        }
                    }
                }
                Look::Bloom => {
                    let mut b = vec![];
                    guard("bloom_filter::read", || parquet2::bloom_filter::read(cc, &mut src, &mut b))?.map_err(err("bloom filter"))?;
                    say!("{b:?}");
                }
                Look::Columns => {}
            }
        }
    }
    Ok(out)
}
fn fixture(codec: parquet2::compression::CompressionOptions) -> Result<Vec<u8>, Error> {
    let mut p = Plan::new(
        vec![prim("a", PhysicalType::Int32, Optional), prim("b", PhysicalType::Int32, Required)],
        vec![
            vec![
                vec![dict(2, 8, 1), with_stats(with_enc(v1(2, 9, 2), 8), st(1, 5)), with_stats(with_enc(v2(3, 40, 3), 8), st(0, 7))],
                vec![with_stats(v1(5, 12, 4), st(3, 4))],
            ],
            vec![vec![with_stats(v1(1, 30, 2), st(1, 5)), with_stats(v1(1, 31, 7), st(2, 5))], vec![with_stats(v1(2, 0, 4), st(3, 4))]],
        ],
    );
    p.stats = true;
    p.codec = codec;
    let w = write_file(&p)?.bytes;
    // two bloom filters
    let mut extra = vec![];
    let mut at = vec![];
    for k in 0..2usize {
        at.push(extra.len());
        extra.extend(super::bloom::header(32 * (k as i64 + 1), false));
        extra.extend(bytes(32 * (k + 1), k));
    }
    Ok(splice(&w, &extra, |m, start| {
        for (k, o) in at.iter().enumerate() {
            m.row_groups[k].columns[1 - k].meta_data.as_mut().unwrap().bloom_filter_offset = Some((start + o) as i64);
        }
    }))
}
/// the same file with everything after the leading magic `base` bytes further
fn shifted(b: &[u8], base: i64, explicit_dictionary: bool) -> Sparse {
    let (mut m, start) = parse_footer(b);
    let (mut tail, at) = (vec![], start as i64 + base);
    for (g, rg) in m.row_groups.iter_mut().enumerate() {
        rg.file_offset = rg.file_offset.map(|x| x + base);
        for (c, cc) in rg.columns.iter_mut().enumerate() {
            cc.file_offset += base;
            cc.column_index_offset = cc.column_index_offset.map(|x| x + base);
            if let Some(o) = cc.offset_index_offset {
                let mut i = Cursor::new(&b[o as usize..]);
                let mut x = pf::OffsetIndex::read_from_in_protocol(&mut TCompactInputProtocol::new(&mut i, 1 << 30)).expect("offset index");
                x.page_locations.iter_mut().for_each(|l| l.offset += base);
                cc.offset_index_offset = Some(at + tail.len() as i64);
                let n = x.write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut tail)).expect("offset index");
                cc.offset_index_length = Some(n as i32);
            }
            let md = cc.meta_data.as_mut().unwrap();
            md.data_page_offset += base;
            md.bloom_filter_offset = md.bloom_filter_offset.map(|x| x + base);
            if explicit_dictionary && g == 0 && c == 0 {
                // as other writers have it
                md.dictionary_page_offset = Some(md.data_page_offset);
                md.data_page_offset += 20;
            }
        }
    }
    let f = footer_bytes(&m);
    tail.extend(&f);
    tail.extend((f.len() as u32).to_le_bytes());
    tail.extend(b"PAR1");
    Sparse::new(vec![(0, b[..4].to_vec()), (4 + base as u64, b[4..start].to_vec()), (at as u64, tail)])
}
fn bases(t: bool) -> Vec<i64> {
    let mut v = vec![0, 1];
    for p in [31u32, 32, 33, 40, 53, 62] {
        let x = 1i64 << p;
        v.extend([x - 500, x - 4, x, x + 1]);
        if t {
            v.extend((0..60).map(|k| x - 5 - 9 * k));
        }
    }
    v
}
/// reading does not depend on where in a file things are
pub fn reading(_: bool, what: Look) -> Space {
    let t = true;
    space("far/reading", move || {
        use parquet2::compression::CompressionOptions as C;
        let codec = pick(&[C::Uncompressed, C::Snappy]);
        let b = fixture(codec).map_err(err("the fixture"))?;
        let explicit = flag();
        let base = pick(&bases(t));
        visit(&(codec == C::Snappy, explicit, base));
        sample(|| format!("a file of {} bytes, everything {base} bytes further", b.len()));
        let want = look(&shifted(&b, 0, explicit), what, 0)?;
        ensure!(!want.is_empty(), "fixture", "nothing to compare");
        let got = look(&shifted(&b, base, explicit), what, base)?;
        ensure!(got == want, "far", "with everything {base} bytes further: {got:?} instead of {want:?}");
        Ok(())
    })
}

// ---------------------------------------------------------------- writing
/// pages that are given out again and again
struct Again {
    pages: Vec<CompressedPage>,
    order: Vec<usize>,
    at: usize,
}
impl FallibleStreamingIterator for Again {
    type Item = CompressedPage;
    type Error = Error;
    fn advance(&mut self) -> Result<(), Error> {
        self.at += 1;
        Ok(())
    }
    fn get(&self) -> Option<&CompressedPage> {
        self.order.get(self.at.wrapping_sub(1)).map(|i| &self.pages[*i])
    }
}
/// a page of a column: (rows, bytes)
type P = (usize, usize);
fn header(p: &P, k: usize) -> DataPageHeader {
    let s = thrift_stats(&st(k as u8, k as u8 + 1).unwrap());
    DataPageHeader::V1(DataPageHeaderV1 {
        num_values: p.0 as i32,
        encoding: pf::Encoding::PLAIN,
        definition_level_encoding: pf::Encoding::RLE,
        repetition_level_encoding: pf::Encoding::RLE,
        statistics: Some(s),
    })
}
fn small_body(n: usize) -> Vec<u8> {
    if n < SparseSink::LARGE { bytes(n, n) } else { vec![0; n] }
}
fn columns(cols: &[Vec<P>], d: &Descriptor) -> RowGroupIter<'static, Error> {
    let v: Vec<Result<Pages<'static>, Error>> = cols
        .iter()
        .map(|c| {
            // equal pages are held once
            let mut kinds: Vec<P> = c.clone();
            kinds.sort();
            kinds.dedup();
            let pages = kinds
                .iter()
                .map(|p| CompressedPage::Data(CompressedDataPage::new(header(p, p.1 % 100), small_body(p.1), parquet2::compression::Compression::Uncompressed, p.1, d.clone(), Some(p.0))))
                .collect();
            Ok(DynStreamingIterator::new(Again { pages, order: c.iter().map(|p| kinds.iter().position(|k| k == p).unwrap()).collect(), at: 0 }))
        })
        .collect();
    DynIter::new(v.into_iter())
}
/// Writes row groups of two columns, and checks the file written byte by byte where it is not zero.
fn write_far(groups: &[Vec<Vec<P>>], is_async: bool) -> Res<Sparse> {
    let s = schema(vec![prim("a", PhysicalType::Int32, Required), prim("b", PhysicalType::Int32, Required)]);
    let d = s.columns()[0].descriptor.clone();
    let o = WriteOptions { write_statistics: true, version: Version::V2 };
    let (src, size) = if is_async {
        guard("writing", || {
            block_on(async {
                let mut f = FileStreamer::new(SparseSink::default(), s.clone(), o, None);
                for g in groups {
                    f.write(columns(g, &d)).await?;
                }
                let n = f.end(None).await?;
                Ok((f.into_inner().source(), n))
            })
        })??
        .map_err(err("writing"))?
    } else {
        guard("writing", || {
            let mut f = FileWriter::new(SparseSink::default(), s.clone(), o, None);
            for g in groups {
                f.write(columns(g, &d))?;
            }
            let n = f.end(None)?;
            let (w, m) = f.into_inner_and_metadata();
            let s = w.source();
            Ok((s, n, m))
        })?
        .map_err(err("writing"))
        .and_then(|(s, n, m)| {
            let (got, _) = far_footer(&s)?;
            ensure!(got == m, "far", "the writer's metadata is not the metadata in the file");
            Ok((s, n))
        })?
    };
    same!(size, src.len, "far", "size returned by end");
    let (m, meta_start) = far_footer(&src)?;
    let mut pos = 4u64;
    let parse = |pos: u64| -> Res<(pf::PageHeader, u64)> {
        let b = src.bytes(pos, 4096);
        let mut c = Cursor::new(&b[..]);
        let h = pf::PageHeader::read_from_in_protocol(&mut TCompactInputProtocol::new(&mut c, 1 << 30)).map_err(|e| Fail { key: "far".into(), msg: format!("no page header at {pos}: {e}") })?;
        Ok((h, c.position()))
    };
    let mut total_rows = 0i64;
    same!(m.row_groups.len(), groups.len(), "far", "row groups");
    let mut locations = vec![];
    for (g, rg) in groups.iter().zip(&m.row_groups) {
        let rows: i64 = g[0].iter().map(|p| p.0 as i64).sum();
        same!(rg.num_rows, rows, "far", "rows of a row group");
        total_rows += rows;
        let mut total = 0i64;
        same!(rg.file_offset, Some(pos as i64), "far", "offset of a row group");
        for (c, cc) in g.iter().zip(&rg.columns) {
            let start = pos;
            let mut locs = vec![];
            let mut row = 0i64;
            for p in c {
                let (h, n) = parse(pos)?;
                same!((h.compressed_page_size as usize, h.uncompressed_page_size as usize), (p.1, p.1), "far", "sizes of the page at {pos}");
                let want = match header(p, p.1 % 100) {
                    DataPageHeader::V1(x) => x,
                    _ => unreachable!(),
                };
                same!(h.data_page_header, Some(want), "far", "header of the page at {pos}");
                if p.1 < SparseSink::LARGE {
                    same!(src.bytes(pos + n, p.1), bytes(p.1, p.1), "far", "the page at {pos}");
                }
                locs.push((pos as i64, (n as usize + p.1) as i64, row));
                row += p.0 as i64;
                pos += n + p.1 as u64;
            }
            locations.push(locs);
            let md = cc.meta_data.as_ref().unwrap();
            let size = (pos - start) as i64;
            same!((md.data_page_offset, md.total_compressed_size, md.total_uncompressed_size), (start as i64, size, size), "far", "place of a column chunk");
            same!(md.num_values, row, "far", "values of a column chunk");
            same!(cc.file_offset, pos as i64, "far", "place of the column metadata");
            let b = src.bytes(pos, 4096);
            let mut cur = Cursor::new(&b[..]);
            let copy = pf::ColumnMetaData::read_from_in_protocol(&mut TCompactInputProtocol::new(&mut cur, 1 << 30)).map_err(|e| Fail { key: "far".into(), msg: format!("no column metadata at {pos}: {e}") })?;
            same!(&copy, md, "far", "the copy of the column metadata");
            pos += cur.position();
            total += size;
        }
        same!((rg.total_byte_size, rg.total_compressed_size), (total, Some(total)), "far", "size of a row group");
    }
    same!(m.num_rows, total_rows, "far", "rows of the file");
    for cc in m.row_groups.iter().flat_map(|r| &r.columns) {
        same!(cc.column_index_offset, Some(pos as i64), "far", "place of a column index");
        pos += cc.column_index_length.unwrap() as u64;
    }
    for (cc, want) in m.row_groups.iter().flat_map(|r| &r.columns).zip(&locations) {
        same!(cc.offset_index_offset, Some(pos as i64), "far", "place of an offset index");
        let b = src.bytes(pos, cc.offset_index_length.unwrap() as usize);
        let x = pf::OffsetIndex::read_from_in_protocol(&mut TCompactInputProtocol::new(&b[..], 1 << 30)).map_err(|e| Fail { key: "far".into(), msg: format!("no offset index at {pos}: {e}") })?;
        let got: Vec<_> = x.page_locations.iter().map(|l| (l.offset, l.compressed_page_size as i64, l.first_row_index)).collect();
        same!(&got, want, "far", "an offset index");
        pos += b.len() as u64;
    }
    same!(pos, meta_start, "far", "start of the metadata");
    Ok(src)
}
fn far_footer(src: &Sparse) -> Res<(pf::FileMetaData, u64)> {
    let end = src.bytes(src.len - 8, 8);
    same!(&end[4..], b"PAR1", "far", "the magic at the end");
    same!(src.bytes(0, 4), b"PAR1".to_vec(), "far", "the magic at the start");
    let n = u32::from_le_bytes(end[..4].try_into().unwrap()) as u64;
    let b = src.bytes(src.len - 8 - n, n as usize);
    let m = pf::FileMetaData::read_from_in_protocol(&mut TCompactInputProtocol::new(&b[..], 1 << 30)).map_err(|e| Fail { key: "far".into(), msg: format!("the footer: {e}") })?;
    Ok((m, src.len - 8 - n))
}
fn values_of(p: &CompressedPage) -> usize {
    match p {
        CompressedPage::Data(p) => p.num_values(),
        CompressedPage::Dict(_) => 0,
    }
}
fn small(c: &[P]) -> bool {
    c.iter().all(|p| p.1 < SparseSink::LARGE)
}
/// column chunks and files larger than 2 and 4 GiB
pub fn large_files(_: bool, is_async: bool, what: Look) -> Space {
    let t = true;
    space("far/large files", move || {
        const G: usize = 1 << 30;
        let size = pick(if t { &[G, G + G / 2, 2 * G - 200, 2 * G - 128, 2 * G - 64][..] } else { &[G, 2 * G - 64] });
        let n = choose(if t { 7 } else { 6 });
        let mut a: Vec<P> = vec![(7, size); n];
        match choose(4) {
            0 => {}
            1 => a.insert(0, (2, 30)),
            2 => a.push((3, 31)),
            _ => a.insert(n / 2, (4, 33)),
        }
        let rows: usize = a.iter().map(|p| p.0).sum();
        if rows < 2 {
            return Ok(());
        }
        let b = vec![(1, 20), (rows - 1, 21)];
        let second = flag();
        let mut groups = vec![if second { vec![b.clone(), a.clone()] } else { vec![a.clone(), b.clone()] }];
        for k in 0..choose(2) + 1 {
            groups.push(vec![vec![(2, 40 + k), (1, 50)], vec![(3, 60)]]);
        }
        visit(&(n, size, second, &a, groups.len()));
        sample(|| format!("pages (rows, bytes) {groups:?}"));
        let mut src = write_far(&groups, is_async)?;
        tally(if src.len > 1 << 32 { "more than 4 GiB" } else { "up to 4 GiB" });
        let m = guard("read_metadata", || read_metadata(&mut src))?.map_err(err("the metadata"))?;
        same!(m.num_rows as i64, far_footer(&src)?.0.num_rows, "far", "rows of the file");
        for (g, group) in groups.iter().enumerate() {
            let cols = m.row_groups[g].columns();
            let locs = if what == Look::Index { read_pages_locations(&mut src, cols).map_err(err("locations"))? } else { vec![] };
            if what == Look::Index {
                let ix = read_columns_indexes(&mut src, cols).map_err(err("indexes"))?;
                for (i, c) in ix.iter().zip(group) {
                    same!(index_of(i.as_ref())?.len(), c.len(), "far", "pages in a column index");
                }
            }
            for (c, col) in group.iter().enumerate() {
                let want: Vec<Seen> = col.iter().filter(|p| p.1 < SparseSink::LARGE).map(|p| Seen::of_header(&header(p, p.1 % 100), &bytes(p.1, p.1))).collect();
                match what {
                    Look::Pages if small(col) => {
                        let got = guard("pages", || read_pages(&mut src, &m, g, c))?.map_err(err("pages"))?;
                        same!(got, want, "far", "pages of column {c} of row group {g}");
                        guard("read_column", || read_column(&mut src, &cols[c]))?.map_err(err("read_column"))?;
                    }
                    Look::Async if small(col) => {
                        let got = guard("pages", || block_on(read_pages_async(&mut src, &m, g, c)))??.map_err(err("pages"))?;
                        same!(got, want, "far", "pages of column {c} of row group {g}");
                    }
                    Look::Index => {
                        // the small pages, whatever they are among
                        let total = m.row_groups[g].num_rows();
                        let mut at = 0;
                        let mut sel = vec![];
                        for p in col {
                            if p.1 < SparseSink::LARGE {
                                sel.push(iv(at, p.0));
                            }
                            at += p.0;
                        }
                        let pages = guard("select_pages", || select_pages(&sel, &locs[c], total))?.map_err(err("select_pages"))?;
                        let r = guard("IndexedPageReader", || IndexedPageReader::new(&mut src, &cols[c], pages, vec![], vec![]).collect::<Result<Vec<_>, _>>())?.map_err(err("IndexedPageReader"))?;
                        let mut got = vec![];
                        for p in r {
                            got.push(Seen::of(&decompress(p, &mut vec![]).map_err(err("decompress"))?));
                        }
                        same!(got, want, "far", "pages of column {c} of row group {g} through the index");
                    }
                    _ => {}
                }
            }
        }
        Ok(())
    })
}
/// row groups of more rows than 32 bits count
pub fn many_rows(_: bool, is_async: bool) -> Space {
    let t = true;
    space("far/many rows", move || {
        const M: usize = i32::MAX as usize;
        let n = choose(if t { 9 } else { 6 });
        let rows = pick(&[M, M - 1, 1 << 30, 1 << 29]);
        let at = choose(n + 1);
        let mut a: Vec<P> = vec![(rows, 20); n];
        a.insert(at, (5, 11));
        let total: usize = a.iter().map(|p| p.0).sum();
        // the other column cut differently
        let mut b = vec![(5, 12)];
        let mut left = total - 5;
        while left > 0 {
            let k = left.min(M / 2 + 3);
            b.push((k, 13));
            left -= k;
        }
        let groups: Vec<_> = (0..1 + choose(2)).map(|_| vec![a.clone(), b.clone()]).collect();
        visit(&(n, rows, at, groups.len()));
        sample(|| format!("pages (rows, bytes) {groups:?}"));
        tally(if total > u32::MAX as usize { "more rows than 32 bits count" } else { "fewer" });
        let mut src = write_far(&groups, is_async)?;
        let m = guard("read_metadata", || read_metadata(&mut src))?.map_err(err("the metadata"))?;
        same!(m.num_rows, total * groups.len(), "far", "rows of the file");
        for rg in &m.row_groups {
            same!(rg.num_rows(), total, "far", "rows of a row group");
            let cols = rg.columns();
            let locs = guard("read_pages_locations", || read_pages_locations(&mut src, cols))?.map_err(err("locations"))?;
            for (c, col) in [&a, &b].into_iter().enumerate() {
                same!(cols[c].num_values(), total as i64, "far", "values of column {c}");
                let pages = guard("pages", || get_page_iterator(&cols[c], &mut src, None, vec![], usize::MAX)?.collect::<Result<Vec<_>, _>>())?.map_err(err("pages"))?;
                same!(pages.iter().map(values_of).collect::<Vec<_>>(), col.iter().map(|p| p.0).collect::<Vec<_>>(), "far", "pages of column {c}");
                let stream = block_on(async {
                    let s = get_page_stream(&cols[c], &mut src, vec![], Arc::new(|_, _| true), usize::MAX).await?;
                    futures::pin_mut!(s);
                    let mut v = vec![];
                    while let Some(p) = s.next().await {
                        v.push(values_of(&p?));
                    }
                    Ok(v)
                })?
                .map_err(err("page stream"))?;
                same!(stream, col.iter().map(|p| p.0).collect::<Vec<_>>(), "far", "pages of column {c}, streamed");
                // the last row, the first, and two around a page border
                let mut sels = vec![vec![iv(total - 1, 1)], vec![iv(0, total)], vec![iv(0, 1), iv(total - 1, 1)]];
                if col.len() > 1 {
                    let border = total - col.last().unwrap().0;
                    sels.push(vec![iv(border - 1, 2)]);
                    sels.push(vec![iv(2, 1), iv(border, 1)]);
                }
                for sel in sels {
                    let pages = guard("select_pages", || select_pages(&sel, &locs[c], total))?.map_err(err("select_pages"))?;
                    let mut start = 0;
                    let mut want = vec![];
                    for p in col {
                        let mine: Vec<_> = sel
                            .iter()
                            .filter_map(|s| {
                                let (x, y) = (s.start.max(start), (s.start + s.length).min(start + p.0));
                                (x < y).then(|| iv(x - start, y - x))
                            })
                            .collect();
                        start += p.0;
                        if !mine.is_empty() {
                            want.push(mine);
                        }
                    }
                    let r = guard("IndexedPageReader", || IndexedPageReader::new(&mut src, &cols[c], pages, vec![], vec![]).collect::<Result<Vec<_>, _>>())?.map_err(err("IndexedPageReader"))?;
                    let got: Vec<_> = r
                        .iter()
                        .map(|p| match p {
                            CompressedPage::Data(p) => p.selected_rows().unwrap().to_vec(),
                            _ => vec![],
                        })
                        .collect();
                    same!(got, want, "far", "rows {sel:?} of column {c}");
                }
            }
        }
        Ok(())
    })
}
/// Metadata around the largest that a footer can declare (2 GiB): it is either written or refused.
pub fn large_metadata() -> Space {
    space("far/large metadata", || {
        let s = schema(vec![prim("a", PhysicalType::Int32, Required)]);
        let o = WriteOptions { write_statistics: false, version: Version::V2 };
        let kvs = |lens: &[usize]| -> Vec<KeyValue> { lens.iter().map(|n| KeyValue { key: String::new(), value: Some(String::from_utf8(vec![0; *n]).unwrap()) }).collect() };
        let how = choose(3);
        let write = |lens: &[usize]| -> Res<(Result<u64, Error>, SparseSink)> {
            let o = o.clone();
            guard("writing", || match how {
                0 => {
                    let mut f = FileWriter::new(SparseSink::default(), s.clone(), o, None);
                    let r = f.end(Some(kvs(lens)));
                    Ok((r, f.into_inner()))
                }
                1 => block_on(async {
                    let mut f = FileStreamer::new(SparseSink::default(), s.clone(), o, None);
                    let r = f.end(Some(kvs(lens))).await;
                    (r, f.into_inner())
                }),
                _ => {
                    let mut f = FileWriter::new(SparseSink::default(), s.clone(), o, None);
                    f.end(None)?;
                    let mut m = f.into_inner_and_metadata().1;
                    m.key_value_metadata = Some(kvs(lens));
                    let mut w = SparseSink::default();
                    let r = write_metadata_sidecar(&mut w, &m);
                    Ok((r, w))
                }
            })?
        };
        // the length of a string of 1 MiB to 128 MiB takes 4 bytes
        let base = write(&[1 << 21, 1 << 21])?.0? as usize - 12 - (2 << 21);
        let max = i32::MAX as usize;
        let total = max - 1 + choose(4);
        let one = max / 2;
        // one of those below takes 5 bytes, both do
        let lens = [one, total - base - 2 - one];
        visit(&(how, total));
        let (r, sink) = write(&lens)?;
        if total > max {
            ensure!(r.is_err(), "far", "metadata of {total} bytes is written with another length");
            return Ok(());
        }
        same!(r?, total as u64 + 12, "far", "size returned");
        let src = sink.source();
        same!(src.len, total as u64 + 12, "far", "size written");
        let end = src.bytes(src.len - 8, 8);
        same!(end[..4], (total as u32).to_le_bytes()[..], "far", "the length in the footer");
        Ok(())
    })
}
