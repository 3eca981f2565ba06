//! C27: files that follow the format but are laid out as this crate would not lay them out.
//!
//! A file is described by its pages and built here from the thrift structures of the format, byte by byte; what the
//! crate's readers return of it is compared with that description.
use super::bloom;
use super::files::*;
use super::Def;
use crate::engine::*;
use crate::fx::*;
use crate::{ensure, same};
use parquet2::compression::CompressionOptions as O;
use parquet2::indexes::select_pages;
use parquet2::metadata::FileMetaData;
use parquet2::page::*;
use parquet2::read::*;
use parquet2::schema::types::*;
use parquet2::schema::Repetition::*;
use parquet_format_safe as pf;
use pf::thrift::protocol::TCompactOutputProtocol;
use std::io::Cursor;
use std::sync::Arc;

macro_rules! raw {
    ($x:expr) => {{
        let mut b = vec![];
        $x.write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut b)).expect("thrift");
        b
    }};
}

// ---------------------------------------------------------------- thrift, as any writer may write it
/// A value of the compact protocol (types are numbered as in its field headers).
#[derive(Clone, Debug, PartialEq)]
enum T {
    Bool(bool),
    Byte(u8),
    /// i16, i32 or i64, as written
    Int(u8, u64),
    Double([u8; 8]),
    Bin(Vec<u8>),
    /// list or set
    List(u8, u8, Vec<T>),
    Map(u8, u8, Vec<(T, T)>),
    Struct(Vec<(i16, T)>),
}
fn varint(b: &mut &[u8]) -> u64 {
    let (mut x, mut s) = (0, 0);
    loop {
        let y = b[0];
        *b = &b[1..];
        x |= ((y & 0x7f) as u64) << s;
        s += 7;
        if y & 0x80 == 0 {
            return x;
        }
    }
}
fn put_varint(mut x: u64, out: &mut Vec<u8>) {
    while x > 0x7f {
        out.push(x as u8 | 0x80);
        x >>= 7;
    }
    out.push(x as u8)
}
impl T {
    fn parse(ty: u8, b: &mut &[u8], element: bool) -> T {
        let byte = |b: &mut &[u8]| {
            let x = b[0];
            *b = &b[1..];
            x
        };
        match ty {
            1 | 2 if element => T::Bool(byte(b) == 1),
            1 | 2 => T::Bool(ty == 1),
            3 => T::Byte(byte(b)),
            4..=6 => T::Int(ty, varint(b)),
            7 => {
                let x = b[..8].try_into().unwrap();
                *b = &b[8..];
                T::Double(x)
            }
            8 => {
                let n = varint(b) as usize;
                let x = b[..n].to_vec();
                *b = &b[n..];
                T::Bin(x)
            }
            9 | 10 => {
                let h = byte(b);
                let n = if h >> 4 == 15 { varint(b) as usize } else { (h >> 4) as usize };
                T::List(ty, h & 15, (0..n).map(|_| T::parse(h & 15, b, true)).collect())
            }
            12 => {
                let mut fields = vec![];
                let mut id = 0i16;
                loop {
                    let h = byte(b);
                    if h == 0 {
                        return T::Struct(fields);
                    }
                    id = if h >> 4 == 0 {
                        let z = varint(b);
                        (z >> 1) as i16 ^ -((z & 1) as i16)
                    } else {
                        id + (h >> 4) as i16
                    };
                    fields.push((id, T::parse(h & 15, b, false)));
                }
            }
            t => unreachable!("type {t}"),
        }
    }
    fn ty(&self) -> u8 {
        match self {
            T::Bool(true) => 1,
            T::Bool(false) => 2,
            T::Byte(_) => 3,
            T::Int(t, _) => *t,
            T::Double(_) => 7,
            T::Bin(_) => 8,
            T::List(t, _, _) => *t,
            T::Map(..) => 11,
            T::Struct(_) => 12,
        }
    }
    fn emit(&self, f: Form, element: bool, out: &mut Vec<u8>) {
        match self {
            T::Bool(x) => {
                if element {
                    out.push(if *x { 1 } else { 2 })
                }
            }
            T::Byte(x) => out.push(*x),
            T::Int(_, x) => put_varint(*x, out),
            T::Double(x) => out.extend(x),
            T::Bin(x) => {
                put_varint(x.len() as u64, out);
                out.extend(x)
            }
            T::List(_, e, v) => {
                if v.len() < 15 && !f.long_lists {
                    out.push((v.len() as u8) << 4 | e)
                } else {
                    out.push(0xf0 | e);
                    put_varint(v.len() as u64, out)
                }
                for x in v {
                    x.emit(f, true, out)
                }
            }
            T::Map(k, v, m) => {
                put_varint(m.len() as u64, out);
                if !m.is_empty() {
                    out.push(k << 4 | v);
                }
                for (k, v) in m {
                    k.emit(f, true, out);
                    v.emit(f, true, out);
                }
            }
            T::Struct(fields) => {
                let mut fields: Vec<&(i16, T)> = fields.iter().collect();
                if f.reversed {
                    fields.reverse()
                }
                let mut last = 0;
                for (id, x) in fields {
                    let d = *id as i32 - last as i32;
                    if (1..=15).contains(&d) && !f.long_fields {
                        out.push((d as u8) << 4 | x.ty())
                    } else {
                        out.push(x.ty());
                        put_varint(((*id as i32) << 1 ^ *id as i32 >> 31) as u32 as u64, out)
                    }
                    x.emit(f, false, out);
                    last = *id;
                }
                out.push(0)
            }
        }
    }
    /// the structures in it which later versions may extend, in pre-order; `union` tells which of them are unions
    fn nodes<'a>(&'a mut self, at: usize, path: &mut Vec<i16>, union: &dyn Fn(&[i16]) -> bool, k: &mut usize, found: &mut Option<&'a mut Vec<(i16, T)>>) {
        match self {
            T::Struct(fields) => {
                if !union(path) {
                    *k += 1;
                    if *k == at + 1 {
                        *found = Some(fields);
                        return;
                    }
                }
                for (id, x) in fields.iter_mut() {
                    path.push(*id);
                    x.nodes(at, path, union, k, found);
                    path.pop();
                    if found.is_some() {
                        return;
                    }
                }
            }
            T::List(_, 12, v) => {
                for x in v {
                    path.push(0);
                    x.nodes(at, path, union, k, found);
                    path.pop();
                    if found.is_some() {
                        return;
                    }
                }
            }
            _ => {}
        }
    }
}
/// Freedoms of a writer of thrift.
#[derive(Clone, Copy, Default, Debug, Hash, PartialEq)]
struct Form {
    /// field ids written in full
    long_fields: bool,
    /// list lengths written apart
    long_lists: bool,
    /// fields in any order
    reversed: bool,
}
/// A field of a later version: what it is, and where
#[derive(Clone, Debug)]
struct Later {
    node: usize,
    id: i16,
    first: bool,
    value: T,
}
fn later_values() -> Vec<T> {
    let s = |f: Vec<(i16, T)>| T::Struct(f);
    // (the thrift library skips texts only)
    let b = |n: usize| T::Bin((0..n).map(|i| b'a' + (i % 26) as u8).collect());
    vec![
        T::Bool(true),
        T::Bool(false),
        T::Byte(0x80),
        T::Int(4, 3),
        T::Int(5, 0xffff_ffff),
        T::Int(6, u64::MAX),
        T::Double(1.5f64.to_le_bytes()),
        b(0),
        b(200),
        T::List(9, 5, vec![]),
        T::List(9, 1, vec![T::Bool(true), T::Bool(false), T::Bool(true)]),
        T::List(9, 3, vec![T::Byte(0), T::Byte(12)]),
        T::List(9, 6, (0..20).map(|i| T::Int(6, 1 << (3 * i))).collect()),
        T::List(9, 8, vec![b(3), b(0)]),
        T::List(9, 12, vec![s(vec![(1, b(2)), (2, T::Bool(true))]), s(vec![])]),
        T::List(9, 9, vec![T::List(9, 5, vec![T::Int(5, 7)]), T::List(9, 8, vec![])]),
        T::List(10, 8, vec![b(1), b(2)]),
        T::Map(8, 5, vec![]),
        T::Map(8, 12, vec![(b(1), s(vec![(1, T::Int(5, 2))])), (b(2), s(vec![]))]),
        T::Map(5, 1, vec![(T::Int(5, 2), T::Bool(false))]),
        s(vec![]),
        s(vec![(1, s(vec![(2, T::Double([1; 8])), (30, b(5))])), (2, T::Int(5, 1)), (200, T::Bool(false))]),
    ]
}
fn is_union(part: usize) -> impl Fn(&[i16]) -> bool {
    move |p: &[i16]| match part {
        // column orders, logical types and their units
        FOOTER => matches!(p, [7, 0] | [2, 0, 10] | [2, 0, 10, _, 2]),
        BLOOM => matches!(p, [2] | [3] | [4]),
        _ => false,
    }
}
const FOOTER: usize = 0;
const PAGE: usize = 1;
const OFFSETS: usize = 2;
const COLUMN: usize = 3;
const BLOOM: usize = 4;
fn rewritten(part: usize, b: &[u8], how: &How) -> Vec<u8> {
    let mut t = T::parse(12, &mut &b[..], false);
    if let Some((p, l)) = &how.later {
        if *p == part {
            let mut found = None;
            t.nodes(l.node, &mut vec![], &is_union(part), &mut 0, &mut found);
            let f = found.expect("a node");
            let at = if l.first { 0 } else { f.len() };
            f.insert(at, (l.id, l.value.clone()));
        }
    }
    let mut out = vec![];
    t.emit(how.forms[part], false, &mut out);
    out
}
fn count_nodes(part: usize, b: &[u8]) -> usize {
    let mut t = T::parse(12, &mut &b[..], false);
    let mut k = 0;
    t.nodes(usize::MAX - 1, &mut vec![], &is_union(part), &mut k, &mut None);
    k
}

// ---------------------------------------------------------------- files
#[derive(Clone, Debug)]
struct How {
    forms: [Form; 5],
    later: Option<(usize, Later)>,
    /// in which order the chunks are stored
    order: Vec<usize>,
    /// bytes between the parts
    gap: usize,
    /// the place of the dictionary is recorded
    dict_offset: bool,
    /// indexes and filters are stored before the pages
    early: bool,
    index: bool,
    file_offset: usize,
}
impl How {
    fn plain(chunks: usize) -> Self {
        How { forms: Default::default(), later: None, order: (0..chunks).collect(), gap: 0, dict_offset: true, early: false, index: true, file_offset: 0 }
    }
}
/// A page, with its header as stored and what is to be seen of it
#[derive(Clone)]
struct Stored {
    header: pf::PageHeader,
    body: Vec<u8>,
    seen: Seen,
    rows: usize,
}
/// What a header may say beyond what the page is.
#[derive(Clone, Debug, Default)]
struct Extras {
    crc: Option<i32>,
    sorted: Option<bool>,
    levels: (i32, i32),
    dict_encoding: i32,
    index_header: bool,
    /// nothing is stored of values that are none
    bare: bool,
}
fn squeeze(codec: O, b: &[u8]) -> Res<Vec<u8>> {
    let mut out = vec![];
    match codec {
        O::Uncompressed => out.extend(b),
        _ => guard("compress", || parquet2::compression::compress(codec, b, &mut out))??,
    }
    Ok(out)
}
fn stored(p: &Pg, codec: O, x: &Extras) -> Res<Stored> {
    let mut h = pf::PageHeader {
        type_: pf::PageType::DATA_PAGE,
        uncompressed_page_size: p.body().len() as i32,
        compressed_page_size: 0,
        crc: x.crc,
        data_page_header: None,
        index_page_header: x.index_header.then_some(pf::IndexPageHeader {}),
        dictionary_page_header: None,
        data_page_header_v2: None,
    };
    let (body, seen) = match p {
        Pg::Dict { n, body, .. } => {
            h.type_ = pf::PageType::DICTIONARY_PAGE;
            h.dictionary_page_header = Some(pf::DictionaryPageHeader { num_values: *n as i32, encoding: pf::Encoding(x.dict_encoding), is_sorted: x.sorted });
            (squeeze(codec, body)?, Seen::Dict(*n, x.sorted.unwrap_or(false), body.clone()))
        }
        Pg::V1 { body, .. } => {
            let mut d = match p.header() {
                Some(DataPageHeader::V1(d)) => d,
                _ => unreachable!(),
            };
            d.definition_level_encoding = pf::Encoding(x.levels.0);
            d.repetition_level_encoding = pf::Encoding(x.levels.1);
            h.data_page_header = Some(d.clone());
            (squeeze(codec, body)?, Seen::V1(d, body.clone()))
        }
        Pg::V2 { body, rep, def, flag, .. } => {
            let d = match p.header() {
                Some(DataPageHeader::V2(d)) => d,
                _ => unreachable!(),
            };
            h.type_ = pf::PageType::DATA_PAGE_V2;
            h.data_page_header_v2 = Some(d.clone());
            let n = rep + def;
            let rest = if *flag == Some(false) || (x.bare && n == body.len()) { body[n..].to_vec() } else { squeeze(codec, &body[n..])? };
            ([&body[..n], &rest[..]].concat(), Seen::V2(d, body.clone()))
        }
    };
    h.compressed_page_size = body.len() as i32;
    Ok(Stored { header: h, body, seen, rows: p.rows() })
}
struct Laid {
    bytes: Vec<u8>,
    meta: pf::FileMetaData,
    /// per group and column, the bytes of the chunk and its locations
    chunks: Vec<Vec<(Vec<u8>, Vec<pf::PageLocation>, Vec<u8>)>>,
}
/// A file of the given chunks; each is of its own codec.
fn lay(fields: &[ParquetType], groups: &[Vec<Vec<Stored>>], codecs: &[O], how: &How) -> Res<Laid> {
    let s = schema(fields.to_vec());
    let mut out = b"PAR1".to_vec();
    let gap = |out: &mut Vec<u8>, k: usize| out.extend((0..how.gap).map(|i| [0x15, 0xff, 0x00, 0x2c][(i + k) % 4]));
    let columns = s.columns().len();
    let mut metas: Vec<Option<(pf::ColumnChunk, Vec<u8>, Vec<pf::PageLocation>, Vec<u8>)>> = vec![None; groups.len() * columns];
    // the pages first, apart, so that their sizes are known wherever they are put
    let mut parts = vec![];
    for (i, pages) in groups.iter().flatten().enumerate() {
        let mut chunk = vec![];
        let mut locs = vec![];
        let mut dict = None;
        let mut data = None;
        let mut unc = 0;
        let mut row = 0;
        for p in pages {
            let h = rewritten(PAGE, &raw!(p.header), how);
            let at = chunk.len();
            chunk.extend(&h);
            chunk.extend(&p.body);
            unc += h.len() as i64 + p.header.uncompressed_page_size as i64;
            if p.header.dictionary_page_header.is_some() {
                dict = Some(at)
            } else {
                data = data.or(Some(at));
                locs.push(pf::PageLocation { offset: at as i64, compressed_page_size: (chunk.len() - at) as i32, first_row_index: row });
            }
            row += p.rows as i64;
        }
        parts.push((i, chunk, locs, dict, data, unc));
    }
    let ci = |n: usize| pf::ColumnIndex {
        null_pages: (0..n).map(|k| k % 2 == 1).collect(),
        min_values: (0..n).map(|k| if k % 2 == 1 { vec![] } else { (k as i32).to_le_bytes().to_vec() }).collect(),
        max_values: (0..n).map(|k| if k % 2 == 1 { vec![] } else { (k as i32 + 9).to_le_bytes().to_vec() }).collect(),
        boundary_order: pf::BoundaryOrder::ASCENDING,
        null_counts: Some((0..n as i64).collect()),
    };
    // lengths of the indexes depend on the places of the pages: the pages start where the longest would end
    let reserve = if how.early && how.index { parts.iter().map(|p| 400 + 200 * p.2.len()).sum::<usize>() } else { 0 };
    let early_at = out.len();
    out.extend(vec![0xaa; reserve]);
    for (k, &c) in how.order.iter().enumerate() {
        let (i, chunk, locs, dict, data, unc) = &parts[c];
        gap(&mut out, k);
        let at = out.len();
        out.extend(chunk);
        let (g, c) = (i / columns, i % columns);
        let pages = &groups[g][c];
        let d = &s.columns()[c].descriptor;
        let codec: parquet2::compression::Compression = codecs[*i % codecs.len()].into();
        let first = if how.dict_offset { data.or(*dict).unwrap_or(0) } else { 0 };
        let cmd = pf::ColumnMetaData {
            type_: d.primitive_type.physical_type.into_type(),
            encodings: vec![pf::Encoding::PLAIN, pf::Encoding::RLE],
            path_in_schema: s.columns()[c].path_in_schema.clone(),
            codec: codec.into(),
            num_values: pages.iter().map(|p| match &p.seen {
                Seen::V1(h, _) => h.num_values as i64,
                Seen::V2(h, _) => h.num_values as i64,
                _ => 0,
            }).sum(),
            total_uncompressed_size: *unc,
            total_compressed_size: chunk.len() as i64,
            key_value_metadata: (how.file_offset == 2).then(|| vec![kv("a", Some("b"))]),
            data_page_offset: (at + first) as i64,
            index_page_offset: [None, Some(4), None, Some(i64::MAX)][how.file_offset % 4],
            dictionary_page_offset: dict.filter(|_| how.dict_offset).map(|d| (at + d) as i64),
            statistics: None,
            encoding_stats: (how.file_offset == 3).then(|| vec![pf::PageEncodingStats { page_type: pf::PageType::INDEX_PAGE, encoding: pf::Encoding::RLE, count: -1 }]),
            bloom_filter_offset: None,
        };
        let locs: Vec<_> = locs.iter().map(|l| pf::PageLocation { offset: l.offset + at as i64, ..l.clone() }).collect();
        let cc = pf::ColumnChunk {
            file_path: None,
            file_offset: [(at + chunk.len()) as i64, 0, at as i64, 4][how.file_offset % 4],
            meta_data: Some(cmd),
            offset_index_offset: None,
            offset_index_length: None,
            column_index_offset: None,
            column_index_length: None,
            crypto_metadata: None,
            encrypted_column_metadata: None,
        };
        metas[*i] = Some((cc, chunk.clone(), locs, vec![]));
    }
    let mut metas: Vec<_> = metas.into_iter().map(|x| x.unwrap()).collect();
    if how.index {
        let mut extra = vec![];
        let base = if how.early { early_at } else { out.len() };
        let filter: Vec<u8> = (0..64).map(|i| (i * 5) as u8).collect();
        for (i, (cc, _, locs, set)) in metas.iter_mut().enumerate() {
            gap(&mut extra, i);
            let c = rewritten(COLUMN, &raw!(ci(locs.len())), how);
            cc.column_index_offset = Some((base + extra.len()) as i64);
            cc.column_index_length = Some(c.len() as i32);
            extra.extend(c);
            gap(&mut extra, i + 1);
            let o = rewritten(OFFSETS, &raw!(pf::OffsetIndex { page_locations: locs.clone() }), how);
            cc.offset_index_offset = Some((base + extra.len()) as i64);
            cc.offset_index_length = Some(o.len() as i32);
            extra.extend(o);
            if i % 2 == 0 {
                gap(&mut extra, i + 2);
                cc.meta_data.as_mut().unwrap().bloom_filter_offset = Some((base + extra.len()) as i64);
                extra.extend(rewritten(BLOOM, &bloom::header(64, false), how));
                extra.extend(&filter);
                *set = filter.clone();
            }
        }
        if how.early {
            assert!(extra.len() <= reserve, "indexes of {} bytes, {reserve} reserved", extra.len());
            out[early_at..early_at + extra.len()].copy_from_slice(&extra);
        } else {
            out.extend(extra);
        }
    }
    gap(&mut out, 3);
    let rows = |g: &Vec<Vec<Stored>>| g.first().map(|c| c.iter().map(|p| p.rows as i64).sum()).unwrap_or(0);
    let mut row_groups = vec![];
    for (g, cs) in groups.iter().enumerate() {
        let columns: Vec<pf::ColumnChunk> = metas[g * columns..(g + 1) * columns].iter().map(|m| m.0.clone()).collect();
        row_groups.push(pf::RowGroup {
            total_byte_size: columns.iter().map(|c| c.meta_data.as_ref().unwrap().total_uncompressed_size).sum(),
            columns,
            num_rows: rows(cs),
            sorting_columns: [None, Some(vec![]), Some(vec![pf::SortingColumn { column_idx: 0, descending: true, nulls_first: false }]), None][how.file_offset % 4].clone(),
            file_offset: [None, Some(4), Some(0), Some(-1)][how.file_offset % 4],
            total_compressed_size: [None, Some(0), Some(i64::MAX), None][how.file_offset % 4],
            ordinal: [None, Some(g as i16), Some(-1), Some(i16::MIN)][how.file_offset % 4],
        });
    }
    let meta = pf::FileMetaData {
        version: 1,
        schema: super::schema::thrift_schema(s.name(), s.fields()),
        num_rows: groups.iter().map(rows).sum(),
        row_groups,
        key_value_metadata: Some(vec![kv("k", None), kv("", Some("v"))]),
        created_by: None,
        column_orders: Some(s.columns().iter().map(|_| pf::ColumnOrder::TYPEORDER(pf::TypeDefinedOrder {})).collect()),
        encryption_algorithm: None,
        footer_signing_key_metadata: None,
    };
    let f = rewritten(FOOTER, &raw!(meta), how);
    out.extend(&f);
    out.extend((f.len() as u32).to_le_bytes());
    out.extend(b"PAR1");
    let mut metas = metas.into_iter().map(|(_, c, l, s)| (c, l, s));
    let chunks = groups.iter().map(|g| metas.by_ref().take(g.len()).collect()).collect();
    Ok(Laid { bytes: out, meta, chunks })
}
trait IntoType {
    fn into_type(self) -> pf::Type;
}
impl IntoType for PhysicalType {
    fn into_type(self) -> pf::Type {
        use PhysicalType::*;
        pf::Type(match self {
            Boolean => 0,
            Int32 => 1,
            Int64 => 2,
            Int96 => 3,
            Float => 4,
            Double => 5,
            ByteArray => 6,
            FixedLenByteArray(_) => 7,
        })
    }
}
/// Everything the readers say of a file is what it was laid out to hold.
fn check(l: &Laid, groups: &[Vec<Vec<Stored>>], how: &How) -> Res {
    let b = &l.bytes;
    visit(b);
    let src = Arc::new(b.clone());
    let m: FileMetaData = match guard("read_metadata", || read_metadata(&mut Cursor::new(b)))? {
        Ok(m) => m,
        Err(e) => return fail("foreign-metadata", format!("{how:?}: {e}")),
    };
    let a = match guard("read_metadata_async", || block_on(async { read_metadata_async(&mut Source::new(&src, Env::default())).await }))?? {
        Ok(m) => m,
        Err(e) => return fail("foreign-metadata", format!("async, {how:?}: {e}")),
    };
    same!(thrift(&a), thrift(&m), "foreign-metadata", "read asynchronously");
    // the same metadata in its plainest form
    let plain = with_footer(b.clone(), &l.meta);
    let p = guard("read_metadata", || read_metadata(&mut Cursor::new(&plain)))??;
    same!(thrift(&m), thrift(&p), "foreign-metadata", "{how:?}");
    same!(m.num_rows as i64, l.meta.num_rows, "foreign-metadata", "rows");
    for (g, cols) in groups.iter().enumerate() {
        let got: Vec<_> = m.row_groups[g].columns().iter().map(|c| c.column_chunk().clone()).collect();
        same!(got, l.meta.row_groups[g].columns, "foreign-metadata", "columns of row group {g}");
        for (c, pages) in cols.iter().enumerate() {
            let want: Vec<Seen> = pages.iter().map(|p| p.seen.clone()).collect();
            let (chunk, locs, set) = &l.chunks[g][c];
            let col = &m.row_groups[g].columns()[c];
            match guard("read pages", || read_pages(Cursor::new(b), &m, g, c))? {
                Ok(s) => same!(trim(s), trim(want.clone()), "foreign-pages", "column {c} of row group {g}, {how:?}"),
                Err(e) => return fail("foreign-pages", format!("column {c} of row group {g}, {how:?}: {e}")),
            }
            for from_start in [false, true] {
                let (s, ok) = guard("read pages async", || items_async(Source::new(&src, Env::default()), &m, g, c, Arc::new(|_, _| true), usize::MAX, from_start))??;
                ensure!(ok, "foreign-pages", "async (from start: {from_start}), column {c} of row group {g}, {how:?}: an error");
                same!(trim(s), trim(want.clone()), "foreign-pages", "async (from start: {from_start}), column {c} of row group {g}, {how:?}");
            }
            let got = guard("read_column", || read_column(&mut Cursor::new(b), col))??;
            same!(&got, chunk, "foreign-column", "bytes of column {c} of row group {g}, {how:?}");
            if how.index {
                let ix = match guard("read_columns_indexes", || read_columns_indexes(&mut Cursor::new(b), std::slice::from_ref(col)))? {
                    Ok(ix) => ix,
                    Err(e) => return fail("foreign-index", format!("{how:?}: {e}")),
                };
                let want: Vec<_> = (0..locs.len())
                    .map(|k| {
                        let v = |x: i32| (k % 2 == 0).then(|| (k as i32 + x).to_le_bytes().to_vec());
                        (Some(k as i64), v(0), v(9))
                    })
                    .collect();
                same!(super::index::index_of(ix[0].as_ref())?, want, "foreign-index", "{how:?}");
                let got = match guard("read_pages_locations", || read_pages_locations(&mut Cursor::new(b), std::slice::from_ref(col)))? {
                    Ok(l) => l,
                    Err(e) => return fail("foreign-index", format!("{how:?}: {e}")),
                };
                same!(&got[0], locs, "foreign-index", "locations, {how:?}");
                let mut bits = vec![];
                match guard("bloom_filter::read", || parquet2::bloom_filter::read(col, &mut Cursor::new(b), &mut bits))? {
                    Ok(()) => same!(&bits, set, "foreign-bloom", "{how:?}"),
                    Err(e) => return fail("foreign-bloom", format!("{how:?}: {e}")),
                }
                // the rows of all pages but every other
                let rows = m.row_groups[g].num_rows();
                let mut want = vec![];
                let mut picked = vec![];
                let mut at = 0;
                let mut k = 0;
                for p in pages {
                    if let Seen::Dict(..) = p.seen {
                        want.push(p.seen.clone());
                        continue;
                    }
                    if k % 2 == c % 2 && p.rows > 0 {
                        picked.push(iv(at, p.rows));
                        want.push(p.seen.clone());
                    }
                    k += 1;
                    at += p.rows;
                }
                let sel = guard("select_pages", || select_pages(&picked, locs, rows))??;
                let got = match guard("IndexedPageReader", || IndexedPageReader::new(Cursor::new(b), col, sel, vec![], vec![]).collect::<Result<Vec<_>, _>>())? {
                    Ok(x) => x,
                    Err(e) => return fail("foreign-indexed", format!("{how:?}: {e}")),
                };
                let got = got.into_iter().map(|p| Ok(Seen::of(&decompress(p, &mut vec![])?))).collect::<Res<Vec<_>>>()?;
                // a dictionary of no page at all may be left out
                let want = if locs.is_empty() && got.is_empty() { vec![] } else { want };
                same!(got, want, "foreign-indexed", "column {c} of row group {g}, {how:?}");
            }
        }
        let mut cols = vec![];
        for f in m.schema().fields() {
            cols.extend(guard("read_columns", || read_columns(&mut Cursor::new(b), m.row_groups[g].columns(), f.name()))??.into_iter().map(|(_, b)| b));
        }
        same!(cols, l.chunks[g].iter().map(|c| c.0.clone()).collect::<Vec<_>>(), "foreign-column", "columns of row group {g}, {how:?}");
    }
    sample(|| format!("{} bytes, {} row groups, {how:?}", b.len(), groups.len()));
    Ok(())
}
/// `n` pages of each kind in turn, with an optional dictionary
fn pages(n: usize, rows: usize, with_dict: bool, salt: usize, codec: O) -> Res<Vec<Stored>> {
    let mut v = vec![];
    if with_dict {
        v.push(stored(&dict(3, 40, salt), codec, &Extras { sorted: Some(salt % 2 == 0), ..Extras::default() })?);
    }
    for i in 0..n {
        let enc = if with_dict { 8 } else { 0 };
        let r = rows / n + (i < rows % n) as usize;
        let p = if (i + salt) % 2 == 0 { v1(r, 60 + i, salt + i) } else { v2(r, 60 + i, salt + i) };
        v.push(stored(&with_enc(p, enc), codec, &Extras { levels: (3, 3), ..Extras::default() })?);
    }
    Ok(v)
}
fn order(n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    while !left.is_empty() {
        out.push(left.remove(choose(left.len())));
    }
    out
}
fn fields(columns: usize) -> Vec<ParquetType> {
    (0..columns).map(|c| prim(&format!("c{c}"), PhysicalType::Int32, if c % 2 == 0 { Optional } else { Required })).collect()
}
/// one column of lists
fn repeated() -> Vec<ParquetType> {
    vec![prim("c0", PhysicalType::Int32, Repeated)]
}
/// one column of nested, annotated type, of one dictionary and two pages
fn rich() -> Res<(Vec<ParquetType>, Vec<Vec<Vec<Stored>>>)> {
    let ts = PrimitiveLogicalType::Time { unit: TimeUnit::Milliseconds, is_adjusted_to_utc: true };
    let f = vec![ParquetType::try_from_primitive("a".into(), PhysicalType::Int32, Optional, None, Some(ts), Some(7)).unwrap()];
    Ok((f, vec![vec![pages(2, 5, true, 0, O::Snappy)?]]))
}
/// Up to two data pages and a dictionary, with whatever their headers may say.
fn any_headers(codecs: &[O], t: bool) -> Res<(O, Vec<Stored>)> {
    let codec = pick(codecs);
    let n = 1 + choose(2);
    let mut ps = vec![];
    let has_dict = flag();
    if has_dict {
        let x = Extras { crc: pick(&[None, Some(i32::MIN)]), sorted: pick(&[None, Some(false), Some(true)]), dict_encoding: pick(&[0, 2]), index_header: false, ..Extras::default() };
        ps.push(stored(&dict(4, pick(&[0, 16]), 1), codec, &x)?);
    }
    for i in 0..n {
        let x = Extras { crc: if i == 0 { pick(&[None, Some(0), Some(-1)]) } else { None }, levels: if i == 0 { pick(&[(3, 3), (4, 4)]) } else { (3, 3) }, ..Extras::default() };
        let stats = match choose(4) {
            0 => None,
            1 => Some(pf::Statistics { max: Some(vec![9, 0, 0, 0]), min: Some(vec![1, 0, 0, 0]), null_count: None, distinct_count: None, max_value: None, min_value: None }),
            2 => Some(pf::Statistics { max: None, min: None, null_count: None, distinct_count: None, max_value: None, min_value: None }),
            _ => Some(pf::Statistics { max: Some(vec![9; 4]), min: Some(vec![]), null_count: Some(1), distinct_count: Some(2), max_value: Some(vec![3; 4]), min_value: Some(vec![1; 4]) }),
        };
        let enc = if has_dict { pick(&[2, 8]) } else { 0 };
        let size = pick(if t && i == 0 { &[0, 33] } else { &[33] });
        let p = if flag() {
            Pg::V1 { n: 3, rows: 3, enc, stats: None, body: bytes(size, i) }
        } else {
            // of a repeated column: fewer rows than values, and than nulls
            let (rep, def, n, nulls, rows) = pick(&[(0, 0, 3, 1, 3), (3, 5, 5, 3, 2), (0, 33, 4, 4, 1)]);
            Pg::V2 { n, nulls, rows, rep: rep.min(size), def: def.min(size), flag: pick(&[None, Some(true), Some(false)]), enc, stats: None, body: bytes(size, i) }
        };
        let mut x = x;
        if let Pg::V2 { rep, def, flag: f, .. } = &p {
            x.bare = rep + def == size && *f != Some(false) && flag();
        }
        let mut s = stored(&p, codec, &x)?;
        if let Some(h) = &mut s.header.data_page_header {
            h.statistics = stats.clone();
        }
        if let Some(h) = &mut s.header.data_page_header_v2 {
            h.statistics = stats.clone();
        }
        match &mut s.seen {
            Seen::V1(h, _) => h.statistics = stats,
            Seen::V2(h, _) => h.statistics = stats,
            _ => {}
        }
        ps.push(s);
        // the other pages vary less
        if i == 0 && !t {
            ps.extend(pages(n - 1, 2, false, 5, codec)?);
            break;
        }
    }
    Ok((codec, ps))
}
/// A file of another writer, of one column and with an index.
pub struct Other {
    pub bytes: Vec<u8>,
    pub codec: O,
    pub seen: Vec<Seen>,
}
pub fn other_writer(codecs: &[O], t: bool) -> Res<Other> {
    let (codec, ps) = any_headers(codecs, t)?;
    let seen = ps.iter().map(|p| p.seen.clone()).collect();
    let mut how = How::plain(1);
    how.dict_offset = flag();
    how.index = true;
    Ok(Other { bytes: lay(&repeated(), &[vec![ps]], &[codec], &how)?.bytes, codec, seen })
}
pub fn foreign(thorough: bool) -> Def {
    let t = thorough;
    let spaces = vec![
        space("arrangements", move || {
            let columns = 1 + choose(3);
            let groups = 1 + choose(2);
            let n = columns * groups;
            let mut how = How::plain(n);
            how.order = if n <= 4 || t { order(n) } else { pick(&[vec![0, 1, 2, 3, 4, 5], vec![5, 2, 0, 4, 1, 3], vec![5, 4, 3, 2, 1, 0], vec![0, 3, 1, 4, 2, 5]]) };
            how.gap = pick(&[0, 1, 7]);
            how.dict_offset = flag();
            let at = choose(3);
            how.index = at > 0;
            how.early = at == 2;
            how.file_offset = if n <= 3 { choose(4) } else { 0 };
            let shape = choose(4);
            let codecs: Vec<O> = [vec![O::Uncompressed], vec![O::Snappy, O::Zstd(None), O::Uncompressed, O::Lz4Raw]][choose(2)].clone();
            let mut gs = vec![];
            for g in 0..groups {
                let mut cs = vec![];
                for c in 0..columns {
                    let i = g * columns + c;
                    let codec = codecs[i % codecs.len()];
                    // how many pages, and a dictionary or not
                    let (k, d) = [(1, i % 2 == 0), (2, true), (3, false), (i % 3, i % 2 == 1)][shape];
                    let rows = if shape == 3 && g + 1 == groups { 0 } else { 6 };
                    cs.push(pages(if rows > 0 { k.max(1) } else { k }, rows, d, i, codec)?);
                }
                gs.push(cs);
            }
            let l = lay(&fields(columns), &gs, &codecs, &how)?;
            check(&l, &gs, &how)
        }),
        // what page headers may say, and leave out
        space("page headers", move || {
            let (codec, ps) = any_headers(&[O::Uncompressed, O::Snappy, O::Gzip(None), O::Lz4Raw], t)?;
            let gs = vec![vec![ps]];
            let mut how = How::plain(1);
            how.dict_offset = flag();
            how.index = false;
            let l = lay(&repeated(), &gs, &[codec], &how)?;
            check(&l, &gs, &how)
        }),
        // fields of later versions of the format, wherever they may be
        space("later fields", move || {
            let (f, gs) = rich()?;
            let part = choose(5);
            let locs = pf::OffsetIndex { page_locations: vec![pf::PageLocation { offset: 0, compressed_page_size: 0, first_row_index: 0 }; 2] };
            let n = match part {
                FOOTER => count_nodes(FOOTER, &raw!(lay(&f, &gs, &[O::Snappy], &How::plain(1))?.meta)),
                // the first page is a dictionary; the nodes common to all three headers: the header and the one within
                PAGE => 2,
                OFFSETS => count_nodes(OFFSETS, &raw!(locs)),
                COLUMN => 1,
                _ => count_nodes(BLOOM, &bloom::header(64, false)),
            };
            let values = later_values();
            let later = Later { node: choose(n), id: pick(&[31, 63, 300, i16::MAX, -1]), first: flag(), value: values[choose(values.len())].clone() };
            let mut how = How::plain(1);
            how.later = Some((part, later));
            if flag() {
                how.forms[part].long_fields = true;
            }
            let l = lay(&f, &gs, &[O::Snappy], &how)?;
            check(&l, &gs, &how)
        }),
        // every way of writing the same structures
        space("thrift forms", move || {
            let (f, gs) = if flag() {
                rich()?
            } else {
                let n = pick(&[1usize, 2, 14, 15, 16]);
                (fields(n), vec![(0..n).map(|c| pages(1 + (c == 0) as usize * 15, 20, c % 2 == 0, c, O::Snappy)).collect::<Res<Vec<_>>>()?])
            };
            let mut how = How::plain(gs[0].len());
            // one part at a time in all its forms, or all parts at once
            let which = choose(6);
            let form = Form { long_fields: flag(), long_lists: flag(), reversed: flag() };
            for part in 0..5 {
                if which == part || which == 5 {
                    how.forms[part] = form;
                }
            }
            how.early = flag();
            let l = lay(&f, &gs, &[O::Snappy], &how)?;
            check(&l, &gs, &how)
        }),
    ];
    Def {
        spaces,
        rule: "Files of the bounded space are built from the thrift structures of the format, without the crate's writer: column chunks in every order with bytes between them, indexes and filters before or after the pages, dictionaries located or not, page headers with and without each optional field, structures with fields of later versions and in every form the compact protocol allows; what each reader returns is compared with what the file was built to hold.",
        assumptions: vec!["bodies of pages are compressed with the crate's codecs (the subject of C16)", "unions (logical types, column orders, the parts of a bloom filter's header) have no members of later versions"],
    }
}
