//! C28: files made of the pages of other files: copied, recompressed, merged, split, projected, selected.
use super::files::*;
use super::Def;
use crate::engine::*;
use crate::fx::*;
use futures::StreamExt;
use parquet2::compression::CompressionOptions;
use parquet2::error::Error;
use parquet2::indexes::{compute_rows, select_pages, Interval};
use parquet2::metadata::{ColumnChunkMetaData, FileMetaData, RowGroupMetaData, SchemaDescriptor};
use parquet2::page::*;
use parquet2::read::*;
use parquet2::schema::types::PhysicalType;
use parquet2::schema::Repetition::*;
use parquet2::write::*;
use parquet2::FallibleStreamingIterator;
use std::io::{Cursor, Read, Seek};
use std::sync::Arc;

/// How the pages get from one file to the other.
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Path {
    /// compressed pages, written while they are read
    Streamed,
    Collected,
    /// through the page index, all rows selected
    Indexed,
    /// from the column chunk in memory
    Chunk,
    /// one reader, column after column
    Columns,
    Async,
    /// decompressed, and compressed again while they are read
    Recompressed,
    Basic,
    /// through the page index, decompressed and compressed again
    IndexedRecompressed,
}
use Path::*;
const PATHS: [Path; 9] = [Streamed, Collected, Indexed, Chunk, Columns, Async, Recompressed, Basic, IndexedRecompressed];
impl Path {
    fn indexed(self) -> bool {
        matches!(self, Indexed | IndexedRecompressed)
    }
    fn recompresses(self) -> bool {
        matches!(self, Recompressed | Basic | IndexedRecompressed)
    }
}
/// Declares the rows of the pages, in order.
struct Declare<I> {
    pages: I,
    rows: std::vec::IntoIter<usize>,
    current: Option<CompressedPage>,
}
impl<I: Iterator<Item = Result<CompressedPage, Error>>> FallibleStreamingIterator for Declare<I> {
    type Item = CompressedPage;
    type Error = Error;
    fn advance(&mut self) -> Result<(), Error> {
        self.current = self.pages.next().transpose()?;
        if let Some(CompressedPage::Data(p)) = &mut self.current {
            if let Some(n) = self.rows.next() {
                p.select_rows(vec![Interval::new(0, n)]);
            }
        }
        Ok(())
    }
    fn get(&self) -> Option<&CompressedPage> {
        self.current.as_ref()
    }
}
fn declare<'a>(pages: impl Iterator<Item = Result<CompressedPage, Error>> + Send + Sync + 'a, rows: Vec<usize>) -> Pages<'a> {
    DynStreamingIterator::new(Declare { pages, rows: rows.into_iter(), current: None })
}
/// The pages of a streaming iterator, as the compressor takes them.
struct Again<S> {
    pages: S,
    rows: std::vec::IntoIter<usize>,
    /// the rows are those that the pages say
    own: bool,
}
impl<S: FallibleStreamingIterator<Item = Page, Error = Error>> Iterator for Again<S> {
    type Item = Result<Page, Error>;
    fn next(&mut self) -> Option<Self::Item> {
        match self.pages.next() {
            Err(e) => Some(Err(e)),
            Ok(None) => None,
            Ok(Some(Page::Dict(d))) => Some(Ok(Page::Dict(DictPage::new(d.buffer.clone(), d.num_values, d.is_sorted)))),
            Ok(Some(Page::Data(p))) => {
                let mut p = p.clone();
                if !self.own {
                    p.selected_rows = self.rows.next().map(|n| vec![Interval::new(0, n)]);
                }
                Some(Ok(Page::Data(p)))
            }
        }
    }
}
fn again<'a, S: FallibleStreamingIterator<Item = Page, Error = Error> + Send + Sync + 'a>(pages: S, rows: Vec<usize>, own: bool, codec: CompressionOptions) -> Pages<'a> {
    DynStreamingIterator::new(Compressor::new(Again { pages, rows: rows.into_iter(), own }, codec, vec![1, 2, 3]))
}
type Filter = Option<PageFilter>;
/// rows of the pages of each column
fn page_rows(b: &[u8], g: &RowGroupMetaData) -> Result<Vec<Vec<usize>>, Error> {
    read_pages_locations(&mut Cursor::new(b), g.columns())?.iter().map(|l| Ok(compute_rows(&vec![true; l.len()], l, g.num_rows())?.iter().map(|x| x.length).collect())).collect()
}
fn column_pages<'a, R: Read + Seek + Send + Sync + 'a>(open: impl Fn() -> R, b: &'a [u8], g: &RowGroupMetaData, column: &ColumnChunkMetaData, c: usize, rows: Vec<usize>, path: Path, filter: Filter, codec: CompressionOptions) -> Result<Pages<'a>, Error> {
    let all = [Interval::new(0, g.num_rows())];
    let indexed = || -> Result<_, Error> {
        let l = &read_pages_locations(&mut Cursor::new(b), g.columns())?[c];
        Ok(IndexedPageReader::new(open(), column, select_pages(&all, l, g.num_rows())?, vec![9], vec![8; 3]))
    };
    let plain = || get_page_iterator(column, open(), filter.clone(), vec![7; 9], usize::MAX);
    Ok(match path {
        Streamed => declare(plain()?, rows),
        Collected | Columns => declare(plain()?.collect::<Vec<_>>().into_iter(), rows),
        Indexed => declare(indexed()?, vec![]),
        Chunk => {
            let chunk = read_column(&mut open(), column)?;
            declare(PageReader::new(Cursor::new(chunk), column, filter.unwrap_or_else(|| Arc::new(|_, _| true)), vec![], usize::MAX), rows)
        }
        Async => {
            let pages = block_on(async {
                let mut src = futures::io::Cursor::new(b);
                let s = get_page_stream(column, &mut src, vec![], filter.unwrap_or_else(|| Arc::new(|_, _| true)), usize::MAX).await?;
                Ok::<_, Error>(s.collect::<Vec<_>>().await)
            })
            .map_err(|f| Error::OutOfSpec(f.msg))??;
            declare(pages.into_iter(), rows)
        }
        Recompressed => again(Decompressor::new(plain()?, vec![5]), rows, false, codec),
        Basic => again(BasicDecompressor::new(plain()?, vec![6; 4]), rows, false, codec),
        IndexedRecompressed => again(BasicDecompressor::new(indexed()?, vec![]), vec![], true, codec),
    })
}
/// the columns of a row group of `b`
fn group_of<'a>(b: &'a [u8], g: &RowGroupMetaData, columns: &[usize], path: Path, codec: CompressionOptions) -> Result<RowGroupIter<'a, Error>, Error> {
    let rows = page_rows(b, g)?;
    let mut out: Vec<Result<Pages<'a>, Error>> = vec![];
    if path == Columns {
        let wanted: Vec<ColumnChunkMetaData> = columns.iter().map(|c| g.columns()[*c].clone()).collect();
        let mut it = ColumnIterator::new(Cursor::new(b), wanted, None, vec![4; 4], usize::MAX);
        let mut k = 0;
        while let State::Some(mut next) = it.advance()? {
            let pages: Vec<_> = next.get().unwrap().0.by_ref().collect();
            out.push(Ok(declare(pages.into_iter(), rows[columns[k]].clone())));
            k += 1;
            it = next;
        }
    } else {
        for c in columns {
            out.push(column_pages(|| Cursor::new(b), b, g, &g.columns()[*c], *c, rows[*c].clone(), path, None, codec));
        }
    }
    Ok(DynIter::new(out.into_iter()))
}
fn options(m: &FileMetaData, stats: bool) -> WriteOptions {
    WriteOptions { write_statistics: stats, version: if m.version == 1 { Version::V1 } else { Version::V2 } }
}
/// A file of row groups (source, group), in order, each with the given columns.
fn rewrite(sources: &[&[u8]], groups: &[(usize, usize)], schema: &SchemaDescriptor, columns: &[usize], stats: bool, path: Path, codec: CompressionOptions) -> Res<Result<Vec<u8>, Error>> {
    guard("rewriting", || {
        let metas = sources.iter().map(|b| read_metadata(&mut Cursor::new(b))).collect::<Result<Vec<_>, Error>>()?;
        let m = &metas[0];
        if path == Async {
            return block_on(async {
                let mut f = FileStreamer::new(vec![], schema.clone(), options(m, stats), m.created_by.clone());
                for (s, g) in groups {
                    f.write(group_of(sources[*s], &metas[*s].row_groups[*g], columns, path, codec)?).await?;
                }
                f.end(m.key_value_metadata.clone()).await?;
                Ok(f.into_inner())
            })
            .map_err(|f| Error::OutOfSpec(f.msg))?;
        }
        let mut f = FileWriter::new(vec![], schema.clone(), options(m, stats), m.created_by.clone());
        for (s, g) in groups {
            f.write(group_of(sources[*s], &metas[*s].row_groups[*g], columns, path, codec)?)?;
        }
        f.end(m.key_value_metadata.clone())?;
        Ok(f.into_inner())
    })
}
/// What a path sees of a column: readers stop at the last value, and the index selects no page without rows.
fn seen_by(path: Path, c: &Column) -> Column {
    let mut c = c.clone();
    if path.indexed() {
        if c.iter().all(|p| p.is_dict()) {
            return vec![];
        }
        c.retain(|p| p.is_dict() || p.rows() > 0);
    } else {
        while c.last().map_or(false, |p| p.values() == 0) {
            c.pop();
        }
    }
    c
}
fn same_bytes(got: &[u8], want: &Plan, what: &str) -> Res {
    let w = write_file(want)?;
    if got == &w.bytes[..] {
        return Ok(());
    }
    let (m, pages) = guard("reading the copy", || read_file(&mut Cursor::new(got)))??;
    let at = got.iter().zip(&w.bytes).position(|(a, b)| a != b).unwrap_or(got.len().min(w.bytes.len()));
    fail("copy", format!("{what}: {} bytes instead of {}, which differ at {at}; {} row groups, pages {:?}", got.len(), w.bytes.len(), m.row_groups.len(), pages))
}
fn with_all_stats(p: &mut Plan) {
    p.stats = true;
    let int = p.schema.columns().iter().all(|c| c.descriptor.primitive_type.physical_type == PhysicalType::Int32);
    let mut k = 0;
    for page in p.groups.iter_mut().flatten().flatten() {
        k += 1;
        let s = if int { (Some(0), None, Some(vec![k, 0, 0, 0]), Some(vec![k, 1, 0, 0])) } else { (Some(page.values() as i64), None, None, None) };
        *page = with_stats(page.clone(), Some(s));
    }
}
fn targets(codec: CompressionOptions) -> CompressionOptions {
    match choose(3) {
        0 => codec,
        1 => CompressionOptions::Uncompressed,
        _ => CompressionOptions::Zstd(None),
    }
}
/// columns of several pages with rows on each
fn busy(rows: usize, salt: usize) -> Column {
    match salt % 4 {
        0 => vec![v1(rows, 20, salt)],
        1 => vec![dict(5, 30, salt), with_enc(v1(1, 6, salt), 8), with_enc(v2(rows - 1, 33, salt), 8)],
        2 => vec![v2(1, 10, salt), v2(1, 50, salt + 1), v1(rows - 2, 5, salt + 2)],
        _ => vec![dict(1, 4, salt), v1(rows - 1, 200, salt), v1(1, 3, salt + 1)],
    }
}
pub fn copies(thorough: bool) -> Def {
    let t = thorough;
    let spaces = vec![
        // every shape of a file, by every path
        space("copies", move || {
            let path = pick(&PATHS);
            let mut plan = shaped(if t { 2 } else { 1 }, &[0, 1, 3]);
            plan.codec = pick(&[CompressionOptions::Uncompressed, CompressionOptions::Snappy, CompressionOptions::Gzip(None)]);
            if flag() {
                with_all_stats(&mut plan);
            }
            let codec = if path.recompresses() { targets(plan.codec) } else { plan.codec };
            visit(&(path, format!("{:?} {:?} {codec:?} {}", plan.groups, plan.codec, plan.stats), plan.schema.columns().len()));
            let b = write_file(&plan)?.bytes;
            let groups: Vec<_> = (0..plan.groups.len()).map(|g| (0, g)).collect();
            let columns: Vec<_> = (0..plan.schema.columns().len()).collect();
            let got = rewrite(&[&b], &groups, &plan.schema, &columns, plan.stats, path, codec)??;
            let mut want = plan.clone();
            // a column chunk of no page has no codec
            want.codec = codec;
            for c in want.groups.iter_mut().flatten() {
                *c = seen_by(path, c);
            }
            same_bytes(&got, &want, &format!("copy by {path:?}"))?;
            tally(if got == b { "same bytes" } else { "other pages or codec" });
            Ok(())
        }),
        // options, names and key-values go along; copies of copies
        space("options", move || {
            let path = pick(&PATHS);
            let second = pick(&PATHS);
            let mut plan = Plan::new(vec![prim("a", PhysicalType::Int32, Required), prim("b", PhysicalType::Int32, Optional)], (0..choose(3)).map(|g| vec![busy(4, g), busy(4, g + 1)]).collect());
            plan.v1 = flag();
            plan.created_by = pick(&[None, Some("".to_string()), Some("somebody".to_string())]);
            plan.kv = pick(&[None, Some(vec![]), Some(vec![kv("k", None), kv("", Some("v")), kv("k", Some(""))])]);
            plan.codec = pick(&codecs());
            if flag() {
                with_all_stats(&mut plan);
            }
            visit(&(path, second, format!("{plan:?}")));
            let b = write_file(&plan)?.bytes;
            let groups: Vec<_> = (0..plan.groups.len()).map(|g| (0, g)).collect();
            let mid = if path.recompresses() { targets(plan.codec) } else { plan.codec };
            let copy = rewrite(&[&b], &groups, &plan.schema, &[0, 1], plan.stats, path, mid)??;
            let mut want = plan.clone();
            want.codec = mid;
            same_bytes(&copy, &want, &format!("copy by {path:?}"))?;
            if second.recompresses() {
                // back to what it was
                let back = rewrite(&[&copy], &groups, &plan.schema, &[0, 1], plan.stats, second, plan.codec)??;
                ensure!(back == b, "copy", "the copy by {second:?} of the copy by {path:?} in {mid:?} differs from the original in {:?}", plan.codec);
            } else {
                let back = rewrite(&[&copy], &groups, &plan.schema, &[0, 1], plan.stats, second, plan.codec)??;
                ensure!(back == copy, "copy", "the copy by {second:?} of the copy by {path:?} differs from it");
            }
            Ok(())
        }),
        // row groups of several files, in any order and number; columns of nested and flat schemas, left out
        space("merges", move || {
            let path = pick(&PATHS);
            let fields = pick(&schemas());
            let full = schema(fields.clone());
            let codecs = [CompressionOptions::Snappy, CompressionOptions::Uncompressed, CompressionOptions::Lz4Raw];
            let plans: Vec<Plan> = (0..2)
                .map(|f| {
                    let mut p = Plan::new(fields.clone(), (0..2).map(|g| (0..full.columns().len()).map(|c| busy(3 + g + f, 2 * f + g + c)).collect()).collect());
                    p.codec = codecs[f];
                    p
                })
                .collect();
            // the fields that are kept
            let keep: Vec<usize> = (0..fields.len()).filter(|_| flag()).collect();
            let part = SchemaDescriptor::new("root".into(), keep.iter().map(|i| fields[*i].clone()).collect());
            let columns: Vec<usize> = (0..full.columns().len()).filter(|c| keep.iter().any(|i| fields[*i].name() == full.columns()[*c].path_in_schema[0])).collect();
            let groups: Vec<(usize, usize)> = seq(0, if t { 4 } else { 3 }, |_| (choose(2), choose(2)));
            visit(&(path, full.columns().len(), keep.clone(), groups.clone()));
            let files = [write_file(&plans[0])?.bytes, write_file(&plans[1])?.bytes];
            let got = rewrite(&[&files[0], &files[1]], &groups, &part, &columns, false, path, CompressionOptions::Zstd(None))??;
            let groups_of: Vec<Group> = groups.iter().map(|(f, g)| columns.iter().map(|c| plans[*f].groups[*g][*c].clone()).collect()).collect();
            let mut want = Plan::new(part.fields().to_vec(), groups_of);
            want.codec = CompressionOptions::Zstd(None);
            if path.recompresses() {
                return same_bytes(&got, &want, &format!("merge by {path:?} of {groups:?}"));
            }
            // the groups keep their codecs
            let (m, pages) = guard("reading the merge", || read_file(&mut Cursor::new(&got)))??;
            same!(pages, expected(&want), "copy", "pages of the merge by {path:?} of {groups:?}, columns {columns:?}");
            same!(m.row_groups.len(), groups.len(), "copy", "row groups");
            for ((f, g), rg) in groups.iter().zip(&m.row_groups) {
                same!(rg.num_rows(), if columns.is_empty() { 0 } else { 3 + f + g }, "copy", "rows");
                let theirs = read_metadata(&mut Cursor::new(&files[*f]))?;
                for (c, k) in rg.columns().iter().zip(&columns) {
                    let o = &theirs.row_groups[*g].columns()[*k];
                    ensure!(
                        (c.compression(), c.num_values(), c.compressed_size(), c.uncompressed_size(), c.column_encoding()) == (o.compression(), o.num_values(), o.compressed_size(), o.uncompressed_size(), o.column_encoding()),
                        "copy",
                        "the metadata of a column of {groups:?} changed: {c:?} instead of {o:?}"
                    );
                    let (s, n) = c.byte_range();
                    let (s2, n2) = o.byte_range();
                    ensure!(got[s as usize..(s + n) as usize] == files[*f][s2 as usize..(s2 + n2) as usize], "copy", "the bytes of a column of {groups:?} changed");
                }
            }
            Ok(())
        }),
        // pages left out by a filter or by a selection of whole pages
        space("selections", move || {
            let kinds = |c: usize| -> Column { seq(1, if t { 6 } else { 5 }, |k| pick(&[v1(2, 7 + k, c), v2(3, 12, k + c), v1(1, 0, k)])) };
            let mut col = kinds(1);
            if flag() {
                col.insert(0, dict(3, 8, 2));
            }
            let data: Vec<Pg> = col.iter().filter(|p| !p.is_dict()).cloned().collect();
            let mut plan = Plan::new(vec![prim("a", PhysicalType::Int32, Optional)], vec![vec![col.clone()]]);
            plan.codec = pick(&[CompressionOptions::Uncompressed, CompressionOptions::Snappy]);
            let keep: Vec<bool> = data.iter().map(|_| flag()).collect();
            let how = choose(3);
            visit(&(format!("{col:?}"), keep.clone(), how));
            let b = write_file(&plan)?.bytes;
            let m = read_metadata(&mut Cursor::new(&b))?;
            let g = &m.row_groups[0];
            let column = &g.columns()[0];
            let rows = page_rows(&b, g)?.remove(0);
            let out = guard("rewriting", || -> Result<Vec<u8>, Error> {
                let pages: Pages = match how {
                    0 => {
                        let mut at = 0;
                        let mut sel = vec![];
                        for (n, k) in rows.iter().zip(&keep) {
                            if *k {
                                sel.push(Interval::new(at, *n));
                            }
                            at += n;
                        }
                        let l = &read_pages_locations(&mut Cursor::new(&b), g.columns())?[0];
                        declare(IndexedPageReader::new(Cursor::new(&b), column, select_pages(&sel, l, g.num_rows())?, vec![], vec![]), vec![])
                    }
                    _ => {
                        let k = keep.clone();
                        let at = std::sync::atomic::AtomicUsize::new(0);
                        let f: PageFilter = Arc::new(move |_, _| k[at.fetch_add(1, std::sync::atomic::Ordering::SeqCst)]);
                        let kept = rows.iter().zip(&keep).filter(|(_, k)| **k).map(|(n, _)| *n).collect();
                        column_pages(|| Cursor::new(&b[..]), &b, g, column, 0, kept, if how == 1 { Streamed } else { Recompressed }, Some(f), plan.codec)?
                    }
                };
                let mut f = FileWriter::new(vec![], plan.schema.clone(), plan.options(), None);
                f.write(DynIter::new(std::iter::once(Ok::<_, Error>(pages))))?;
                f.end(None)?;
                Ok(f.into_inner())
            })??;
            let mut left = keep.iter();
            let kept: Column = col.iter().filter(|p| p.is_dict() || *left.next().unwrap()).cloned().collect();
            let mut want = plan.clone();
            want.groups[0][0] = kept;
            same_bytes(&out, &want, &format!("pages {keep:?} kept by {how}"))
        }),
        // what others wrote is what is in the copy
        space("other writers", move || {
            let path = pick(if t { &PATHS[..] } else { &[Streamed, Indexed, Recompressed, IndexedRecompressed] });
            let o = super::foreign::other_writer(&[CompressionOptions::Uncompressed, CompressionOptions::Snappy], t)?;
            let m = read_metadata(&mut Cursor::new(&o.bytes))?;
            let codec = if path.recompresses() && flag() { CompressionOptions::Zstd(None) } else { o.codec };
            visit(&(path, format!("{:?}", o.seen), codec == o.codec));
            let got = rewrite(&[&o.bytes], &[(0, 0)], m.schema(), &[0], false, path, codec)??;
            let (copy, pages) = guard("reading the copy", || read_file(&mut Cursor::new(&got)))??;
            same!(pages, vec![vec![o.seen]], "copy", "pages of the copy by {path:?}");
            same!(copy.num_rows, m.num_rows, "copy", "rows");
            same!(copy.row_groups[0].columns()[0].compression(), codec.into(), "copy", "codec");
            Ok(())
        }),
        // anything that goes wrong while reading or writing makes the copy fail
        space_dev("faults", if t { 2 } else { 1 }, move || {
            let path = pick(&[Streamed, Indexed, Chunk, Recompressed, Basic, IndexedRecompressed]);
            let async_writer = flag();
            let mut plan = Plan::new(vec![prim("a", PhysicalType::Int32, Required), prim("b", PhysicalType::Int32, Optional)], vec![vec![busy(4, 1), busy(4, 2)], vec![busy(4, 0), busy(4, 3)]]);
            plan.codec = CompressionOptions::Snappy;
            let b = Arc::new(write_file(&plan)?.bytes);
            let m = read_metadata(&mut Cursor::new(&b[..]))?;
            let reads = Env { short: true, interrupt: true, error: true, eof: true, ..Env::default() };
            let writes = Env { short: true, error: true, zero: true, interrupt: !async_writer, pending: async_writer, eof: false };
            let source = Arc::new(Trace::default());
            let mut sink = Sink::new(writes);
            let wrote = sink.t.clone();
            let columns = |g: &RowGroupMetaData| -> Result<RowGroupIter<Error>, Error> {
                let rows = page_rows(&b, g)?;
                let mut out: Vec<Result<Pages, Error>> = vec![];
                for c in 0..2 {
                    let open = || Source { t: source.clone(), ..Source::new(&b, reads) };
                    out.push(column_pages(open, &b, g, &g.columns()[c], c, rows[c].clone(), path, None, plan.codec));
                }
                Ok(DynIter::new(out.into_iter()))
            };
            let r = guard("rewriting", || -> Result<u64, Error> {
                if async_writer {
                    return block_on(async {
                        let mut f = FileStreamer::new(&mut sink, plan.schema.clone(), plan.options(), None);
                        for g in &m.row_groups {
                            f.write(columns(g)?).await?;
                        }
                        f.end(None).await
                    })
                    .map_err(|f| Error::OutOfSpec(f.msg))?;
                }
                let mut f = FileWriter::new(&mut sink, plan.schema.clone(), plan.options(), None);
                for g in &m.row_groups {
                    f.write(columns(g)?)?;
                }
                f.end(None)
            })?;
            let fault = source.fault() || wrote.fault();
            visit(&(path, async_writer, r.is_ok(), sink.data.len()));
            match r {
                Ok(n) => {
                    ensure!(!fault, "fault-hidden", "copying by {path:?} succeeded although something failed");
                    ensure!(sink.data == **b && n as usize == b.len(), "copy", "copying by {path:?} with partial transfers gave other bytes");
                    tally("copied");
                }
                Err(e) => {
                    ensure!(fault, "fault-invented", "copying by {path:?} failed: {e}");
                    ensure!(b.starts_with(&sink.data), "fault-altered", "what was written before the fault is not the start of the file");
                    ensure!(wrote.fault() || read_metadata(&mut Cursor::new(&sink.data)).is_err(), "fault-hidden", "what a failed copy left can be opened");
                    tally("fault reported");
                }
            }
            Ok(())
        }),
    ];
    Def {
        spaces,
        rule: "Every file of a bounded family is copied page by page along every path from the readers to the writers (streamed, collected, indexed, from memory, column after column, asynchronous, decompressed and compressed again), alone or merged with others, with fields, row groups or pages left out, and copied again, with every single misbehaviour of the source or of the sink; the result is compared byte by byte with the file that has those contents when written directly.",
        assumptions: vec!["pages after the last value of a column, and pages without rows when an index is used, are not read"],
    }
}
