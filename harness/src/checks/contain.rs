//! C26: what is read of one part of a file depends on the bytes of that part alone.
//!
//! A file is a set of parts (its footer, every column chunk, every page, every index, every bloom filter), each with the
//! byte ranges the format gives it. Fault model: every other byte of the medium is lost (replaced, or cut off), or any one byte
//! anywhere is. Whatever does not contain the damage is read exactly as before.
use super::bloom::header as bloom_header;
use super::files::*;
use super::index::index_of;
use super::Def;
use crate::engine::*;
use crate::fx::*;
use crate::typed::*;
use parquet2::compression::CompressionOptions;
use parquet2::error::Error;
use parquet2::indexes::{select_pages, Interval};
use parquet2::metadata::FileMetaData;
use parquet2::page::*;
use parquet2::read::*;
use parquet2::schema::types::*;
use parquet2::schema::Repetition::*;
use parquet_format_safe as pf;
use parquet_format_safe::thrift::protocol::TCompactInputProtocol;
use std::io::Cursor;
use std::sync::{Arc, OnceLock};

type Ranges = Vec<(usize, usize)>;
struct Part {
    name: String,
    ranges: Ranges,
    read: Box<dyn Fn(&Arc<Vec<u8>>) -> Res<String> + Send + Sync>,
    want: String,
    end: usize,
}
impl Part {
    fn has(&self, i: usize) -> bool {
        self.ranges.iter().any(|(s, e)| *s <= i && i < *e)
    }
    /// no byte before this may be missing (the data of a page that is passed over may be damaged, not missing)
    fn end(&self) -> usize {
        self.end
    }
    fn check(&self, b: &Arc<Vec<u8>>, what: &str) -> Res {
        let got = guard(&self.name, || (self.read)(b))?;
        match got {
            Ok(x) if x == self.want => Ok(()),
            Ok(x) => fail("other-bytes", format!("{} changes when {what}: {} instead of {}", self.name, short(&x), short(&self.want))),
            Err(f) => fail("other-bytes", format!("{} fails when {what}: {}", self.name, f.msg)),
        }
    }
}
fn short(x: &str) -> String {
    x.chars().take(300).collect()
}
struct File {
    bytes: Vec<u8>,
    parts: Vec<Part>,
}
fn pages_of(it: impl Iterator<Item = Result<CompressedPage, Error>>) -> Res<String> {
    let mut out = vec![];
    for p in it {
        let p = p?;
        let sel = match &p {
            CompressedPage::Data(d) => d.selected_rows().map(|x| x.to_vec()),
            _ => None,
        };
        out.push((Seen::of(&decompress(p, &mut vec![])?), sel));
    }
    Ok(format!("{out:?}"))
}
/// the data pages as they are stored, and whatever comes before and after the page at `hole`
fn pages_but(it: impl Iterator<Item = Result<CompressedPage, Error>>, hole: usize) -> Res<String> {
    let mut out = vec![];
    for (i, p) in it.enumerate() {
        let p = p?;
        out.push(if i == hole { String::new() } else { format!("{p:?}") });
    }
    Ok(format!("{out:?}"))
}
fn schema_fields() -> Vec<ParquetType> {
    vec![
        prim("a", PhysicalType::Int32, Required),
        group("g", Required, vec![prim("x", PhysicalType::ByteArray, Required), prim("y", PhysicalType::Int64, Required)]),
        prim("z", PhysicalType::Double, Required),
    ]
}
fn build(k: usize) -> File {
    let types = [PhysicalType::Int32, PhysicalType::ByteArray, PhysicalType::Int64, PhysicalType::Double];
    let fields = schema_fields();
    // rows of the pages of the groups
    let layout: Vec<Vec<usize>> = match k % 3 {
        0 => vec![vec![2, 3]],
        1 => vec![vec![1, 4, 2], vec![3]],
        _ => vec![vec![70, 1, 5], vec![2, 1], vec![9]],
    };
    let groups: Vec<Group> = layout
        .iter()
        .enumerate()
        .map(|(g, pages)| {
            (0..4)
                .map(|c| {
                    let t = types[c];
                    let dict = (c + k) % 2 == 0;
                    let ds: Vec<V> = {
                        let mut out: Vec<V> = vec![];
                        for i in 0..6 {
                            let v = value(t, i + g);
                            if !out.contains(&v) {
                                out.push(v)
                            }
                        }
                        out
                    };
                    let mut col: Column = if dict { vec![dict_page(t, &ds)] } else { vec![] };
                    for (p, n) in pages.iter().enumerate() {
                        let vals: Vals = (0..*n).map(|i| Some(if dict { ds[(i + p) % ds.len()].clone() } else { value(t, i + p + c) })).collect();
                        let l = Layout { v2: (p + c) % 2 == 1, dict: dict.then(|| (ds.clone(), 4)), level_cut: 0, index_cut: 1 };
                        let mut pg = page(t, false, &vals, &l);
                        let st: St = (Some(0), None, Some(value(t, 2 * p)), Some(value(t, 2 * p + 1)));
                        match &mut pg {
                            Pg::V1 { stats, .. } | Pg::V2 { stats, .. } => *stats = Some(st),
                            _ => {}
                        }
                        col.push(pg);
                    }
                    col
                })
                .collect()
        })
        .collect();
    let mut plan = Plan::new(fields, groups);
    plan.codec = [CompressionOptions::Uncompressed, CompressionOptions::Snappy, CompressionOptions::Zstd(None)][k / 3 % 3];
    plan.stats = true;
    plan.kv = Some(vec![kv("key", Some("value"))]);
    let w = write_file(&plan).unwrap().bytes;
    // bloom filters for the first two columns of every group
    let mut extra = vec![];
    let mut at = vec![];
    for i in 0..plan.groups.len() * 2 {
        let s = extra.len();
        let set = bytes(32 * (1 + i), i);
        extra.extend(bloom_header(set.len() as i64, i % 2 == 0));
        extra.extend(&set);
        at.push((s, extra.len(), set));
    }
    let mut base = 0;
    let b = splice(&w, &extra, |m, start| {
        base = start;
        for (i, (s, _, _)) in at.iter().enumerate() {
            m.row_groups[i / 2].columns[i % 2].meta_data.as_mut().unwrap().bloom_filter_offset = Some((start + s) as i64);
        }
    });
    let n = b.len();
    let (_, footer) = parse_footer(&b);
    let m = Arc::new(read_metadata(&mut Cursor::new(&b)).unwrap());
    let mut parts: Vec<Part> = vec![];
    // the end of the chunk that contains the byte before `i`
    let m0 = m.clone();
    let chunk_end = move |i: usize| {
        let ends = m0.row_groups.iter().flat_map(|g| g.columns().iter().map(|c| c.byte_range()));
        ends.filter(|(s, l)| (*s as usize) < i && i <= (s + l) as usize).map(|(s, l)| (s + l) as usize).next().unwrap()
    };
    let mut add = |name: String, ranges: Ranges, read: Box<dyn Fn(&Arc<Vec<u8>>) -> Res<String> + Send + Sync>| {
        let want = read(&Arc::new(b.clone())).unwrap_or_else(|e| panic!("{name}: {}", e.msg));
        let end = ranges.iter().map(|r| r.1).max().unwrap();
        let end = if name.starts_with("filtered") || name.starts_with("pages but") { chunk_end(end) } else { end };
        parts.push(Part { name, ranges, read, want, end });
    };
    let show = |m: FileMetaData| format!("{:?}", thrift(&m));
    let tail: Ranges = vec![(0, 4), (footer, n)];
    add("read_metadata".into(), tail.clone(), Box::new(move |b| Ok(show(read_metadata(&mut Cursor::new(&b[..]))?))));
    add("read_metadata_async".into(), tail.clone(), Box::new(move |b| Ok(show(block_on(async { read_metadata_async(&mut Source::new(b, Env::default())).await })??))));
    for g in 0..m.row_groups.len() {
        let cols = m.row_groups[g].columns();
        let mut field = |name: &'static str, range: std::ops::Range<usize>| {
            let r: Ranges = cols[range].iter().map(|c| c.byte_range()).map(|(s, l)| (s as usize, (s + l) as usize)).collect();
            let m1 = m.clone();
            let pages = |m: &FileMetaData, r: Vec<(&parquet2::metadata::ColumnChunkMetaData, Vec<u8>)>| -> Res<String> {
                let _ = m;
                Ok(format!("{:?}", r.iter().map(|(c, b)| (c.descriptor().path_in_schema.clone(), b)).collect::<Vec<_>>()))
            };
            add(format!("read_columns {name} of group {g}"), r.clone(), Box::new(move |b| pages(&m1, read_columns(&mut Cursor::new(&b[..]), m1.row_groups[g].columns(), name)?)));
            let m1 = m.clone();
            add(
                format!("read_columns_async {name} of group {g}"),
                r.clone(),
                Box::new(move |b| {
                    let factory = || {
                        let b = b.clone();
                        let f: futures::future::BoxFuture<'static, std::io::Result<Source>> = Box::pin(async move { Ok(Source::new(&b, Env::default())) });
                        f
                    };
                    pages(&m1, block_on(async { read_columns_async(factory, m1.row_groups[g].columns(), name).await })??)
                }),
            );
            let m1 = m.clone();
            add(
                format!("get_column_iterator {name} of group {g}"),
                r,
                Box::new(move |b| {
                    let mut it = get_column_iterator(Cursor::new(&b[..]), &m1.row_groups[g], name, None, vec![], usize::MAX);
                    let mut out = vec![];
                    loop {
                        match it.advance()? {
                            State::Finished(_) => return Ok(out.concat()),
                            State::Some(mut x) => {
                                out.push(pages_of(x.get().unwrap().0.by_ref())?);
                                it = x;
                            }
                        }
                    }
                }),
            );
        };
        field("a", 0..1);
        field("g", 1..3);
        field("z", 3..4);
        let locs = read_pages_locations(&mut Cursor::new(&b[..]), cols).unwrap();
        for (c, col) in cols.iter().enumerate() {
            let id = format!("column {c} of group {g}");
            let (s, l) = col.byte_range();
            let chunk = (s as usize, (s + l) as usize);
            let m1 = m.clone();
            add(format!("read_column, {id}"), vec![chunk], Box::new(move |b| Ok(format!("{:?}", read_column(&mut Cursor::new(&b[..]), &m1.row_groups[g].columns()[c])?))));
            let m1 = m.clone();
            add(format!("pages of {id}"), vec![chunk], Box::new(move |b| pages_of(get_page_iterator(&m1.row_groups[g].columns()[c], Cursor::new(&b[..]), None, vec![], usize::MAX)?)));
            for from_start in [false, true] {
                let m1 = m.clone();
                add(
                    format!("{} of {id}", if from_start { "get_page_stream_from_column_start" } else { "get_page_stream" }),
                    vec![chunk],
                    Box::new(move |b| {
                        let (items, ok) = items_async(Source::new(b, Env::default()), &m1, g, c, Arc::new(|_, _| true), usize::MAX, from_start)?;
                        ensure!(ok, "error", "an error after {} pages", items.len());
                        Ok(format!("{items:?}"))
                    }),
                );
            }
            // pages, and where their data are
            let dict = (chunk.0, locs[c][0].offset as usize);
            let mut extents: Vec<(usize, usize, usize)> = vec![];
            let mut bounds: Vec<(usize, usize)> = locs[c].iter().map(|x| (x.offset as usize, x.offset as usize + x.compressed_page_size as usize)).collect();
            if dict.0 < dict.1 {
                bounds.insert(0, dict);
            }
            for (s, e) in &bounds {
                let mut r = &b[*s..*e];
                let before = r.len();
                let h = pf::PageHeader::read_from_in_protocol(&mut TCompactInputProtocol::new(&mut r, 1 << 20)).unwrap();
                let header = before - r.len();
                assert_eq!(header + h.compressed_page_size as usize, e - s);
                extents.push((*s, s + header, *e));
            }
            // damage to the data of a page is damage to that page only
            for (p, (_, body, end)) in extents.iter().enumerate() {
                let m1 = m.clone();
                add(
                    format!("pages but page {p} of {id}"),
                    vec![(chunk.0, *body), (*end, chunk.1)],
                    Box::new(move |b| pages_but(get_page_iterator(&m1.row_groups[g].columns()[c], Cursor::new(&b[..]), None, vec![], usize::MAX)?, p)),
                );
            }
            // pages refused by the filter are not looked at
            let kinds = |h: &DataPageHeader| matches!(h, DataPageHeader::V1(_));
            for keep_v1 in [true, false] {
                let mut r: Ranges = vec![];
                for (s, body, end) in &extents {
                    let mut x = &b[*s..*end];
                    let h = pf::PageHeader::read_from_in_protocol(&mut TCompactInputProtocol::new(&mut x, 1 << 20)).unwrap();
                    let refused = if keep_v1 { h.data_page_header_v2.is_some() } else { h.data_page_header.is_some() };
                    r.push((*s, if refused { *body } else { *end }));
                }
                let m1 = m.clone();
                add(
                    format!("filtered pages of {id} (v1 {keep_v1})"),
                    r.clone(),
                    Box::new(move |b| pages_of(get_page_iterator(&m1.row_groups[g].columns()[c], Cursor::new(&b[..]), Some(Arc::new(move |_, h| kinds(h) == keep_v1)), vec![], usize::MAX)?)),
                );
                let m1 = m.clone();
                add(
                    format!("filtered page stream of {id} (v1 {keep_v1})"),
                    r,
                    Box::new(move |b| {
                        let (items, ok) = items_async(Source::new(b, Env::default()), &m1, g, c, Arc::new(move |_, h| kinds(h) == keep_v1), usize::MAX, false)?;
                        ensure!(ok, "error", "an error after {} pages", items.len());
                        Ok(format!("{items:?}"))
                    }),
                );
            }
            // every non-empty selection of pages, through the index
            let rows = m.row_groups[g].num_rows();
            let firsts: Vec<usize> = locs[c].iter().map(|x| x.first_row_index as usize).chain([rows]).collect();
            for mask in 1..1usize << locs[c].len() {
                let chosen: Vec<usize> = (0..locs[c].len()).filter(|i| mask >> i & 1 == 1).collect();
                let wanted: Vec<Interval> = chosen.iter().map(|i| iv(firsts[i + 1] - 1, 1)).collect();
                let sel = || select_pages(&wanted, &locs[c], rows).unwrap();
                let mut r: Ranges = chosen.iter().map(|i| (locs[c][*i].offset as usize, locs[c][*i].offset as usize + locs[c][*i].compressed_page_size as usize)).collect();
                r.push(dict);
                let m1 = m.clone();
                let sel = sel();
                add(
                    format!("selected pages {chosen:?} of {id}"),
                    r,
                    Box::new(move |b| pages_of(IndexedPageReader::new(Cursor::new(&b[..]), &m1.row_groups[g].columns()[c], sel.clone(), vec![], vec![]))),
                );
            }
            // the indexes and the bloom filter of this column
            let cc = col.column_chunk();
            let range = |o: Option<i64>, l: Option<i32>| (o.unwrap() as usize, o.unwrap() as usize + l.unwrap() as usize);
            let m1 = m.clone();
            add(
                format!("column index of {id}"),
                vec![range(cc.column_index_offset, cc.column_index_length)],
                Box::new(move |b| {
                    let ix = read_columns_indexes(&mut Cursor::new(&b[..]), &m1.row_groups[g].columns()[c..c + 1])?;
                    Ok(format!("{:?}", index_of(&*ix[0])?))
                }),
            );
            let m1 = m.clone();
            add(
                format!("offset index of {id}"),
                vec![range(cc.offset_index_offset, cc.offset_index_length)],
                Box::new(move |b| Ok(format!("{:?}", read_pages_locations(&mut Cursor::new(&b[..]), &m1.row_groups[g].columns()[c..c + 1])?))),
            );
            if c < 2 {
                let (s, e, _) = &at[g * 2 + c];
                let m1 = m.clone();
                add(
                    format!("bloom filter of {id}"),
                    vec![(base + s, base + e)],
                    Box::new(move |b| {
                        let mut out = vec![];
                        parquet2::bloom_filter::read(&m1.row_groups[g].columns()[c], &mut Cursor::new(&b[..]), &mut out)?;
                        Ok(format!("{out:?}"))
                    }),
                );
            }
        }
        // all the indexes of a group at once
        let all = |f: &dyn Fn(&pf::ColumnChunk) -> (usize, usize)| cols.iter().map(|c| f(c.column_chunk())).collect::<Ranges>();
        let m1 = m.clone();
        add(
            format!("column indexes of group {g}"),
            all(&|c| (c.column_index_offset.unwrap() as usize, c.column_index_offset.unwrap() as usize + c.column_index_length.unwrap() as usize)),
            Box::new(move |b| {
                let ix = read_columns_indexes(&mut Cursor::new(&b[..]), m1.row_groups[g].columns())?;
                Ok(format!("{:?}", ix.iter().map(|x| index_of(&**x)).collect::<Res<Vec<_>>>()?))
            }),
        );
        let m1 = m.clone();
        add(
            format!("offset indexes of group {g}"),
            all(&|c| (c.offset_index_offset.unwrap() as usize, c.offset_index_offset.unwrap() as usize + c.offset_index_length.unwrap() as usize)),
            Box::new(move |b| Ok(format!("{:?}", read_pages_locations(&mut Cursor::new(&b[..]), m1.row_groups[g].columns())?))),
        );
    }
    File { bytes: b, parts }
}
fn files() -> &'static Vec<File> {
    static F: OnceLock<Vec<File>> = OnceLock::new();
    F.get_or_init(|| (0..9).map(build).collect())
}
fn metadata() -> &'static Vec<FileMetaData> {
    static M: OnceLock<Vec<FileMetaData>> = OnceLock::new();
    M.get_or_init(|| files().iter().map(|f| read_metadata(&mut Cursor::new(&f.bytes)).unwrap()).collect())
}
pub fn containment(thorough: bool) -> Def {
    let t = thorough;
    let spaces = vec![
        space("everything else is lost", move || {
            let fs = files();
            let f = &fs[choose(fs.len())];
            let p = &f.parts[choose(f.parts.len())];
            let n = f.bytes.len();
            let last = p.end();
            let how = choose(5);
            let b: Vec<u8> = (0..n)
                .filter(|i| how != 4 || *i < last || last == n)
                .map(|i| {
                    if p.has(i) {
                        return f.bytes[i];
                    }
                    match how {
                        0 => 0,
                        1 => 0xff,
                        2 => f.bytes[i] ^ 0x55,
                        3 => (i * 37) as u8,
                        _ => 0,
                    }
                })
                .collect();
            visit(&(&p.name, n, how));
            sample(|| format!("{}: all bytes but {:?} of {n} lost ({how})", p.name, p.ranges));
            p.check(&Arc::new(b), "every other byte of the file is lost")
        }),
        space("one byte is damaged", move || {
            let fs = files();
            let f = &fs[if t { choose(fs.len()) } else { pick(&[0, 4, 8]) }];
            let i = choose(f.bytes.len());
            let mut b = f.bytes.clone();
            b[i] ^= pick(if t { &[0xff, 1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80] } else { &[0xffu8, 1] });
            let b = Arc::new(b);
            for p in f.parts.iter().filter(|p| !p.has(i)) {
                p.check(&b, &format!("byte {i} of {} is damaged", f.bytes.len()))?;
            }
            visit(&(f.bytes.len(), i));
            sample(|| format!("byte {i} of {}: {} parts do not contain it", f.bytes.len(), f.parts.iter().filter(|p| !p.has(i)).count()));
            Ok(())
        }),
        space("the rest is cut off", move || {
            // every length of the medium: what lies before the cut is read as before
            let fs = files();
            let f = &fs[choose(fs.len())];
            let n = choose(f.bytes.len());
            let b = Arc::new(f.bytes[..n].to_vec());
            for p in f.parts.iter().filter(|p| p.end() <= n) {
                p.check(&b, &format!("the file is cut to {n} of {} bytes", f.bytes.len()))?;
            }
            visit(&(f.bytes.len(), n));
            Ok(())
        }),
        space("one source for every read", move || {
            // any sequence of reads (whole or abandoned) from one source, from any position
            let fs = files();
            let f = &fs[if t { choose(fs.len()) } else { pick(&[1, 5]) }];
            let m = &metadata()[fs.iter().position(|x| std::ptr::eq(x, f)).unwrap()];
            let is_async = flag();
            let n = if t { 4 } else { 3 };
            let mut r = Cursor::new(&f.bytes[..]);
            let data = Arc::new(f.bytes.clone());
            let mut a = Source::new(&data, Env::default());
            let at = pick(&[0, 4, f.bytes.len() / 2, f.bytes.len(), f.bytes.len() + 10]);
            r.set_position(at as u64);
            a.pos = at as u64;
            let mut log = vec![];
            for _ in 0..n {
                let op = choose(if is_async { 4 } else { 8 });
                let g = if op == 0 { 0 } else { choose(m.row_groups.len().min(2)) };
                let c = if op == 0 { 0 } else { pick(&[0usize, 2]) };
                log.push((op, g, c));
                let cols = m.row_groups[g].columns();
                let part = |name: &str| f.parts.iter().find(|p| p.name == name).map(|p| p.want.clone()).unwrap();
                let id = format!("column {c} of group {g}");
                let (got, want) = if is_async {
                    match op {
                        0 => (format!("{:?}", thrift(&block_on(read_metadata_async(&mut a))??)), part("read_metadata_async")),
                        1 => (format!("{:?}", block_on(read_pages_async(&mut a, m, g, c))??), part(&format!("get_page_stream of {id}"))),
                        2 => {
                            // abandoned after a page
                            let first = block_on(async {
                                use futures::StreamExt;
                                let s = get_page_stream(&cols[c], &mut a, vec![], Arc::new(|_, _| true), usize::MAX).await?;
                                futures::pin_mut!(s);
                                s.next().await.transpose()
                            })??;
                            let want = get_page_iterator(&cols[c], Cursor::new(&f.bytes[..]), None, vec![], usize::MAX)?.next().transpose()?;
                            (format!("{first:?}"), format!("{want:?}"))
                        }
                        _ => (format!("{:?}", block_on(read_pages_async(&mut a, m, g, 3 - c))??), part(&format!("get_page_stream of column {} of group {g}", 3 - c))),
                    }
                } else {
                    match op {
                        0 => (format!("{:?}", thrift(&read_metadata(&mut r)?)), part("read_metadata")),
                        1 => (pages_of(get_page_iterator(&cols[c], &mut r, None, vec![], usize::MAX)?)?, part(&format!("pages of {id}"))),
                        2 => {
                            let got = get_page_iterator(&cols[c], &mut r, None, vec![], usize::MAX)?.next().transpose()?;
                            let want = get_page_iterator(&cols[c], Cursor::new(&f.bytes[..]), None, vec![], usize::MAX)?.next().transpose()?;
                            (format!("{got:?}"), format!("{want:?}"))
                        }
                        3 => (format!("{:?}", read_column(&mut r, &cols[c])?), part(&format!("read_column, {id}"))),
                        4 => {
                            let ix = read_columns_indexes(&mut r, &cols[c..c + 1])?;
                            (format!("{:?}", index_of(&*ix[0])?), part(&format!("column index of {id}")))
                        }
                        5 => (format!("{:?}", read_pages_locations(&mut r, &cols[c..c + 1])?), part(&format!("offset index of {id}"))),
                        6 => {
                            let mut out = vec![];
                            parquet2::bloom_filter::read(&cols[c / 2], &mut r, &mut out)?;
                            (format!("{out:?}"), part(&format!("bloom filter of column {} of group {g}", c / 2)))
                        }
                        _ => {
                            let rows = m.row_groups[g].num_rows();
                            let locs = read_pages_locations(&mut Cursor::new(&f.bytes[..]), cols)?;
                            let sel = select_pages(&[iv(rows - 1, 1)], &locs[c], rows)?;
                            let k = locs[c].len() - 1;
                            (pages_of(IndexedPageReader::new(&mut r, &cols[c], sel, vec![], vec![]))?, part(&format!("selected pages [{k}] of {id}")))
                        }
                    }
                };
                ensure!(got == want, "history", "reads (operation, group, column) {log:?} from position {at}, async {is_async}: the last gives {} instead of {}", short(&got), short(&want));
            }
            visit(&(&log, is_async));
            sample(|| format!("reads (operation, group, column) {log:?} from position {at}, async {is_async}"));
            Ok(())
        }),
        space("bytes after the end", move || {
            let k = choose(9);
            let fs = files();
            let f = &fs[k];
            let pad = pick(&[1usize, 100, 70_000, 1 << 20]);
            // the parts keep their positions; the medium only gets longer
            let mut b = f.bytes.clone();
            b.extend(std::iter::repeat(0xaa).take(pad));
            let b = Arc::new(b);
            for p in f.parts.iter().filter(|p| !p.name.starts_with("read_metadata")) {
                p.check(&b, &format!("{pad} bytes follow the file"))?;
            }
            visit(&(k, pad));
            Ok(())
        }),
    ];
    Def {
        spaces,
        rule: "Any sequence of reads from one source, from any position, gives what each read gives alone. Each part of a file (footer, chunk, page, selection of pages, index, bloom filter) is read through the public API from the intact medium and from a medium where all other bytes are lost, any one other byte is damaged, or the rest is cut off; results are compared for equality",
        assumptions: vec!["the positions of the parts are those recorded in the intact footer"],
    }
}
