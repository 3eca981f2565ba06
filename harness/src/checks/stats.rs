//! C14 statistics, C22 byte forms and orders of the physical types.
use super::files::*;
use super::index::index_of;
use super::Def;
use crate::engine::*;
use crate::fx::*;
use crate::typed::{all_types, V};
use parquet2::metadata::{get_sort_order, ColumnOrder, FileMetaData, SortOrder};
use parquet2::page::*;
use parquet2::read::*;
use parquet2::schema::types::*;
use parquet2::schema::Repetition;
use parquet2::statistics::*;
use parquet2::types::*;
use std::cmp::Ordering;
use std::io::Cursor;

// ---------------------------------------------------------------- the format's orders
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum Ord_ {
    Undefined,
    SignedInt,
    UnsignedInt,
    Float,
    Bytes,
    /// big-endian two's complement
    Decimal,
}
#[derive(Clone, Debug)]
pub struct Col {
    t: PhysicalType,
    conv: Option<PrimitiveConvertedType>,
    logical: Option<PrimitiveLogicalType>,
    ord: Ord_,
}
fn col(t: PhysicalType, conv: Option<PrimitiveConvertedType>, logical: Option<PrimitiveLogicalType>, ord: Ord_) -> Col {
    Col { t, conv, logical, ord }
}
fn cols() -> Vec<Col> {
    use IntegerType as I;
    use Ord_::{Bytes, Decimal, SignedInt, Undefined, UnsignedInt};
    use PhysicalType::*;
    use PrimitiveConvertedType as C;
    use PrimitiveLogicalType as L;
    vec![
        col(Boolean, None, None, UnsignedInt),
        col(Int32, None, None, SignedInt),
        col(Int64, None, None, SignedInt),
        col(Int96, None, None, Undefined),
        col(Float, None, None, Ord_::Float),
        col(Double, None, None, Ord_::Float),
        col(ByteArray, None, None, Bytes),
        col(FixedLenByteArray(2), None, None, Bytes),
        col(Int32, Some(C::Uint8), None, UnsignedInt),
        col(Int32, Some(C::Uint32), Some(L::Integer(I::UInt32)), UnsignedInt),
        col(Int32, None, Some(L::Integer(I::UInt16)), UnsignedInt),
        col(Int32, Some(C::Int8), None, SignedInt),
        col(Int32, None, Some(L::Integer(I::Int16)), SignedInt),
        col(Int32, None, Some(L::Decimal(5, 1)), SignedInt),
        col(Int32, Some(C::Date), None, SignedInt),
        col(Int64, Some(C::Uint64), None, UnsignedInt),
        col(Int64, None, Some(L::Integer(I::UInt64)), UnsignedInt),
        col(Int64, None, Some(L::Timestamp { unit: TimeUnit::Microseconds, is_adjusted_to_utc: true }), SignedInt),
        col(ByteArray, Some(C::Utf8), None, Bytes),
        col(ByteArray, None, Some(L::String), Bytes),
        col(ByteArray, Some(C::Decimal(4, 2)), None, Decimal),
        col(ByteArray, None, Some(L::Decimal(4, 2)), Decimal),
        col(FixedLenByteArray(2), None, Some(L::Decimal(4, 2)), Decimal),
        col(FixedLenByteArray(2), Some(C::Decimal(4, 2)), Some(L::Decimal(4, 2)), Decimal),
        col(FixedLenByteArray(16), None, Some(L::Uuid), Bytes),
        col(FixedLenByteArray(12), Some(C::Interval), None, Undefined),
        col(Int32, None, Some(L::Unknown), Undefined),
    ]
}
fn signed(b: &[u8]) -> i128 {
    let mut v: i128 = if b.first().map(|x| *x >= 0x80).unwrap_or(false) { -1 } else { 0 };
    for x in b {
        v = (v << 8) | *x as i128;
    }
    v
}
/// big-endian two's complement of any length up to 24 bytes, such that the order is that of the bytes
fn wide(b: &[u8]) -> [u8; 24] {
    let mut v = [if b.first().map_or(false, |x| *x >= 0x80) { 0xff } else { 0 }; 24];
    v[24 - b.len()..].copy_from_slice(b);
    v[0] ^= 0x80;
    v
}
fn le(b: &[u8]) -> i128 {
    b.iter().rev().fold(0, |a, x| (a << 8) | *x as i128)
}
fn float(b: &[u8]) -> f64 {
    if b.len() == 4 {
        f32::from_le_bytes(b.try_into().unwrap()) as f64
    } else {
        f64::from_le_bytes(b.try_into().unwrap())
    }
}
/// `None` if unordered
fn order(o: Ord_, a: &[u8], b: &[u8]) -> Option<Ordering> {
    let rev = |x: &[u8]| x.iter().rev().copied().collect::<Vec<u8>>();
    match o {
        Ord_::Undefined => None,
        Ord_::SignedInt => Some(signed(&rev(a)).cmp(&signed(&rev(b)))),
        Ord_::UnsignedInt => Some(le(a).cmp(&le(b))),
        Ord_::Float => float(a).partial_cmp(&float(b)),
        Ord_::Bytes => Some(a.cmp(b)),
        Ord_::Decimal => Some(wide(a).cmp(&wide(b))),
    }
}
fn is_nan(o: Ord_, a: &[u8]) -> bool {
    o == Ord_::Float && float(a).is_nan()
}
fn values(c: &Col) -> Vec<V> {
    let ints = |n: usize| -> Vec<V> { [0i64, 1, -1, 256, -2, 0x7f].iter().map(|x| x.to_le_bytes()[..n].to_vec()).chain([(1i128 << (8 * n - 1)).to_le_bytes()[..n].to_vec(), ((1i128 << (8 * n - 1)) - 1).to_le_bytes()[..n].to_vec()]).collect() };
    match c.t {
        PhysicalType::Boolean => vec![vec![0], vec![1]],
        PhysicalType::Int32 => ints(4),
        PhysicalType::Int64 => ints(8),
        PhysicalType::Int96 => [[0u32, 0, 2440588], [1, 0, 0], [0, 1, 2440589]].iter().map(|x| x.iter().flat_map(|x| x.to_le_bytes()).collect()).collect(),
        PhysicalType::Float => [0.0f32, -0.0, 1.5, -1.5, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MIN_POSITIVE].iter().map(|x| x.to_le_bytes().to_vec()).collect(),
        PhysicalType::Double => [0.0f64, -0.0, 1.5, -1.5, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE].iter().map(|x| x.to_le_bytes().to_vec()).collect(),
        PhysicalType::ByteArray if c.ord == Ord_::Decimal => vec![vec![0], vec![0x7f], vec![0x80], vec![0xff], vec![0, 0x80], vec![0xff, 0x7f], vec![0, 0, 0, 0, 5], vec![0xff, 0x80], vec![0x81], vec![0, 0x7f], vec![0x7e], vec![0xff, 0xff, 0xff, 0xff, 0xfe], [vec![0; 16], vec![0x80]].concat(), [vec![1], vec![0; 16]].concat(), [vec![0xfe], vec![0xff; 19]].concat()],
        PhysicalType::ByteArray => vec![vec![], vec![0], vec![0x7f], vec![0x80], vec![0x80, 0], vec![0xff, 1], vec![0x7f, 0xff], vec![0, 0]],
        PhysicalType::FixedLenByteArray(2) => vec![vec![0, 0], vec![0, 0xff], vec![0x7f, 0xff], vec![0x80, 0], vec![0xff, 0xff], vec![1, 0]],
        PhysicalType::FixedLenByteArray(n) => vec![vec![0; n], vec![0xff; n], (0..n as u8).collect()],
    }
}
impl Col {
    fn ty(&self, rep: Repetition) -> ParquetType {
        ParquetType::try_from_primitive("a".into(), self.t, rep, self.conv, self.logical, None).unwrap()
    }
    fn primitive(&self) -> PrimitiveType {
        match self.ty(Repetition::Optional) {
            ParquetType::PrimitiveType(p) => p,
            _ => unreachable!(),
        }
    }
}

// ---------------------------------------------------------------- the statistics of a chunk
/// The strongest sound claim: `None` = nothing may be claimed of this component
#[derive(Debug)]
struct Claim {
    nulls: Option<i64>,
    min: Option<V>,
    max: Option<V>,
}
fn claim(c: &Col, pages: &[(usize, Option<St>)]) -> Claim {
    let none = Claim { nulls: None, min: None, max: None };
    if pages.is_empty() || pages.iter().any(|p| p.1.is_none()) {
        return none;
    }
    let st: Vec<(usize, &St)> = pages.iter().map(|(n, s)| (*n, s.as_ref().unwrap())).collect();
    let nulls = st.iter().map(|(_, s)| s.0).sum::<Option<i64>>();
    let bound = |f: &dyn Fn(&St) -> Option<V>, want: Ordering| -> Option<V> {
        if c.ord == Ord_::Undefined && (st.len() > 1 || c.t == PhysicalType::Int96) {
            return None;
        }
        let mut best: Option<V> = None;
        for (n, s) in &st {
            let v = f(s);
            match v {
                None if s.0 == Some(*n as i64) => {} // only nulls
                None => return None,
                Some(v) if is_nan(c.ord, &v) => return None,
                Some(v) => {
                    best = Some(match best {
                        Some(b) if order(c.ord, &v, &b) != Some(want) => b,
                        _ => v,
                    })
                }
            }
        }
        best
    };
    Claim { nulls, min: bound(&|s| s.2.clone(), Ordering::Less), max: bound(&|s| s.3.clone(), Ordering::Greater) }
}
/// (null_count, distinct_count, min, max) of a typed statistics object
fn raw(s: &dyn Statistics) -> St {
    fn p<T: NativeType>(s: &dyn Statistics) -> St {
        let s = s.as_any().downcast_ref::<PrimitiveStatistics<T>>().unwrap();
        (s.null_count, s.distinct_count, s.min_value.map(|x| x.to_le_bytes().as_ref().to_vec()), s.max_value.map(|x| x.to_le_bytes().as_ref().to_vec()))
    }
    match s.physical_type() {
        PhysicalType::Boolean => {
            let s = s.as_any().downcast_ref::<BooleanStatistics>().unwrap();
            (s.null_count, s.distinct_count, s.min_value.map(|x| vec![x as u8]), s.max_value.map(|x| vec![x as u8]))
        }
        PhysicalType::Int32 => p::<i32>(s),
        PhysicalType::Int64 => p::<i64>(s),
        PhysicalType::Int96 => p::<[u32; 3]>(s),
        PhysicalType::Float => p::<f32>(s),
        PhysicalType::Double => p::<f64>(s),
        PhysicalType::ByteArray => {
            let s = s.as_any().downcast_ref::<BinaryStatistics>().unwrap();
            (s.null_count, s.distinct_count, s.min_value.clone(), s.max_value.clone())
        }
        PhysicalType::FixedLenByteArray(_) => {
            let s = s.as_any().downcast_ref::<FixedLenStatistics>().unwrap();
            (s.null_count, s.distinct_count, s.min_value.clone(), s.max_value.clone())
        }
    }
}
fn data_pages(c: &Column) -> Vec<(usize, Option<St>)> {
    c.iter().filter_map(|p| match p {
        Pg::V1 { n, stats, .. } | Pg::V2 { n, stats, .. } => Some((*n, stats.clone())),
        _ => None,
    }).collect()
}
fn check_chunk(c: &Col, column: &Column, m: &FileMetaData, g: usize) -> Res {
    let pages = data_pages(column);
    let want = claim(c, &pages);
    let col = &m.row_groups[g].columns()[0];
    let got = match guard("statistics", || col.statistics())? {
        None => (None, None, None, None),
        Some(s) => {
            let s = s?;
            same!(s.null_count(), raw(s.as_ref()).0, "stats", "null_count()");
            // an equal length of fixed-length types
            same!(s.physical_type(), &c.t, "stats", "physical type of the statistics");
            let thrift = col.metadata().statistics.clone().unwrap();
            same!(serialize_statistics(s.as_ref()), ParquetStatistics { min: None, max: None, ..thrift.clone() }, "stats", "statistics read from {thrift:?}");
            ensure!(thrift.min.is_none() && thrift.max.is_none(), "stats", "deprecated bounds written: {thrift:?}");
            raw(s.as_ref())
        }
    };
    same!(got.0, want.nulls, "stats-nulls", "null count of {pages:?} ({c:?})");
    for (what, got, want, f) in [("min", &got.2, &want.min, 2), ("max", &got.3, &want.max, 3)] {
        if c.ord == Ord_::Undefined {
            // without an order nothing can be combined; one page's bounds may be repeated
            if pages.len() > 1 {
                ensure!(got.is_none(), "stats-order", "{what} {got:?} claimed for an undefined order ({c:?})");
            }
            continue;
        }
        match (got, want) {
            (None, None) => {}
            (Some(g), Some(w)) => {
                let is_one = pages.iter().any(|p| p.1.as_ref().map(|s| if f == 2 { &s.2 } else { &s.3 } == &Some(g.clone())).unwrap_or(false));
                ensure!(is_one && order(c.ord, g, w) == Some(Ordering::Equal), "stats-bound", "{what} of {pages:?} ({c:?}): got {g:?}, expected {w:?}");
            }
            _ => return fail("stats-bound", format!("{what} of {pages:?} ({c:?}): got {got:?}, expected {want:?}")),
        }
    }
    let distinct = match &pages[..] {
        [(_, Some(s))] => s.1,
        _ => None,
    };
    ensure!(got.1.is_none() || got.1 == distinct, "stats-distinct", "distinct count of {pages:?}: got {:?}, expected {distinct:?}", got.1);
    if pages.len() == 1 {
        same!(got.1, distinct, "stats-distinct", "distinct count of {pages:?}");
    }
    Ok(())
}
/// every page says on reading what it said on writing
fn check_pages(column: &Column, b: &[u8], m: &FileMetaData) -> Res {
    let col = &m.row_groups[0].columns()[0];
    let pages = get_page_iterator(col, Cursor::new(b), None, vec![], usize::MAX)?;
    let want = data_pages(column);
    let mut k = 0;
    for p in pages {
        let p = p?;
        let CompressedPage::Data(d) = &p else { continue };
        let says = |s: Option<Result<std::sync::Arc<dyn Statistics>, parquet2::error::Error>>| -> Res<Option<St>> {
            Ok(match s {
                None => None,
                Some(s) => Some(raw(s?.as_ref())),
            })
        };
        same!(says(guard("statistics", || d.statistics())?)?, want[k].1, "stats-page", "statistics of page {k}");
        let Page::Data(d) = guard("decompress", || decompress(p, &mut vec![]))?? else { continue };
        same!(says(guard("statistics", || d.statistics())?)?, want[k].1, "stats-page", "statistics of decompressed page {k}");
        k += 1;
    }
    same!(k, want.len(), "stats-page", "pages");
    Ok(())
}
fn pg(k: usize, n: usize, st: Option<St>) -> Pg {
    let p = if k % 2 == 0 { v1(n, 4, k) } else { Pg::V2 { n, nulls: 0, rows: n, rep: 0, def: 1, flag: None, enc: 0, stats: None, body: bytes(5, k) } };
    with_stats(p, st)
}
fn run(c: &Col, column: Column, pages: bool) -> Res {
    let mut plan = Plan::new(vec![c.ty(Repetition::Optional)], vec![vec![column.clone()]]);
    plan.v1 = pages;
    let w = guard("write", || write_file(&plan))??;
    let m = guard("read_metadata", || read_metadata(&mut Cursor::new(&w.bytes)))??;
    if pages {
        // (a NaN is not equal to itself)
        if !data_pages(&column).iter().any(|p| p.1.as_ref().map(|s| [&s.2, &s.3].iter().any(|v| v.as_ref().map(|v| is_nan(c.ord, v)).unwrap_or(false))).unwrap_or(false)) {
            check_pages(&column, &w.bytes, &m)?;
        }
    }
    check_chunk(c, &column, &m, 0)
}
/// all-null pages have no bounds; the others any
fn any_stats(vals: &[V], n: usize, counts: &[Option<i64>]) -> Option<St> {
    let k = choose(2 + counts.len());
    match k {
        0 => None,
        1 => Some((Some(n as i64), None, None, None)),
        k => {
            let bound = || match choose(vals.len() + 1) {
                0 => None,
                i => Some(vals[i - 1].clone()),
            };
            let (min, max) = (bound(), bound());
            Some((counts[k - 2], None, min, max))
        }
    }
}
pub fn statistics(thorough: bool) -> Def {
    let t = thorough;
    let spaces = vec![
        space("one page", || {
            let c = pick(&cols());
            let vals = values(&c);
            let n = 3;
            let st = match any_stats(&vals, n, &[None, Some(0), Some(1)]) {
                Some(mut s) => {
                    s.1 = pick(&[None, Some(2)]);
                    Some(s)
                }
                None => None,
            };
            let d = choose(3);
            let mut column = vec![];
            if d > 0 {
                column.push(dict(2, 5, 1));
            }
            column.push(pg(d, n, st));
            visit(&column);
            run(&c, column, true)
        }),
        space("two pages", move || {
            let c = pick(&cols());
            let mut vals = values(&c);
            if !t {
                vals.truncate(7);
            }
            let ns = [2, 3];
            let mut column: Column = ns.iter().enumerate().map(|(k, n)| pg(k, *n, any_stats(&vals, *n, &[Some(1), None]))).collect();
            if column.len() == 2 && vals.len() % 2 == 0 {
                column.insert(0, dict(2, 5, 1));
            }
            sample(|| format!("{c:?}: {:?}", data_pages(&column)));
            visit(&column);
            run(&c, column, false)
        }),
        space("three or more pages", move || {
            let c = pick(&cols());
            let vals = values(&c);
            let vals: Vec<V> = vals.into_iter().take(if t { 7 } else { 6 }).collect();
            let k = vals.len();
            let mut column: Column = vec![];
            for i in 0..if t { 4 } else { 3 } {
                let n = 2 + i % 2;
                let x = choose(k + 5);
                let v = |i: usize| Some(vals[i % k].clone());
                let st = match x {
                    x if x < k => Some((Some(i as i64 % 2), Some(1), v(x), v(x))),
                    x if x == k => None,
                    x if x == k + 1 => Some((Some(n as i64), None, None, None)),
                    x if x == k + 2 => Some((Some(0), Some(1), None, v(1))),
                    x if x == k + 3 => Some((Some(1), Some(1), v(1), None)),
                    _ => Some((None, None, v(2), v(3))),
                };
                column.push(pg(i, n, st));
            }
            visit(&column);
            run(&c, column, false)
        }),
        // pages of repeated columns, which have more values than rows
        space("more values than rows", move || {
            let c = pick(&cols());
            let vals: Vec<V> = values(&c).into_iter().take(if t { 4 } else { 3 }).collect();
            let n = 3;
            let column: Column = (0..2)
                .map(|k| {
                    let rows = pick(&[1, 2]);
                    let st = any_stats(&vals, n, &[Some(rows as i64), None]);
                    match pg(k, n, st) {
                        Pg::V1 { n, enc, stats, body, .. } => Pg::V1 { n, rows, enc, stats, body },
                        Pg::V2 { n, nulls, rep, def, flag, enc, stats, body, .. } => Pg::V2 { n, nulls, rows, rep, def, flag, enc, stats, body },
                        p => p,
                    }
                })
                .collect();
            visit(&column);
            let mut plan = Plan::new(vec![c.ty(Repetition::Repeated)], vec![vec![column.clone()]]);
            plan.v1 = true;
            let w = guard("write", || write_file(&plan))??;
            let m = guard("read_metadata", || read_metadata(&mut Cursor::new(&w.bytes)))??;
            same!(m.num_rows, column.iter().map(|p| p.rows()).sum::<usize>(), "rows", "rows");
            check_chunk(&c, &column, &m, 0)
        }),
        // every group has its own statistics; the index repeats those of the pages
        space("groups and index", move || {
            let c = pick(&cols());
            let vals: Vec<V> = values(&c).into_iter().filter(|v| !is_nan(c.ord, v)).collect();
            let k = vals.len();
            let mut salt = 0;
            let groups: Vec<Group> = seq(1, 2, |g| {
                vec![seq(1, if g == 0 { 2 } else { 1 + t as usize }, |i| {
                    salt += 1;
                    let x = choose(6);
                    let v = |i: usize| Some(vals[i % k].clone());
                    let st = match x {
                        0 => Some((Some(0), None, v(salt), v(salt + 1))),
                        1 => Some((Some(1), None, v(salt + 2), v(salt))),
                        2 => Some((Some(2), None, None, None)),
                        3 => Some((None, None, v(1), v(1))),
                        4 => Some((Some(0), None, None, v(1))),
                        _ => None,
                    };
                    let st = if x == 3 && flag() { Some((Some(0), None, v(1), None)) } else { st };
                    pg(i, 2, st)
                })]
            });
            let complete = |s: &Option<St>| matches!(s, Some((Some(_), _, Some(_), Some(_)))) || matches!(s, Some((Some(2), _, None, None)));
            let all = groups.iter().flat_map(|g| data_pages(&g[0])).all(|p| complete(&p.1));
            let mut plan = Plan::new(vec![c.ty(Repetition::Optional)], groups.clone());
            plan.stats = flag();
            visit(&groups);
            let w = match guard("write", || write_file(&plan))? {
                Ok(w) => w,
                Err(_) if plan.stats && !all => {
                    tally("incomplete statistics refused");
                    return Ok(());
                }
                Err(e) => return fail("write", format!("writing {groups:?} failed: {e}")),
            };
            let m = guard("read_metadata", || read_metadata(&mut Cursor::new(&w.bytes)))??;
            for (g, group) in groups.iter().enumerate() {
                check_chunk(&c, &group[0], &m, g)?;
                if plan.stats {
                    let ix = guard("read_columns_indexes", || read_columns_indexes(&mut Cursor::new(&w.bytes), m.row_groups[g].columns()))??;
                    let got = index_of(ix[0].as_ref())?;
                    let want: Vec<_> = data_pages(&group[0]).into_iter().map(|p| p.1.map(|s| (s.0, s.2, s.3)).unwrap_or_default()).collect();
                    same!(got, want, "stats-index", "column index of row group {g} ({c:?})");
                    tally("index compared");
                }
            }
            Ok(())
        }),
        // typed statistics <-> thrift
        space("conversion", || {
            let c = pick(&cols());
            let vals: Vec<V> = values(&c).into_iter().filter(|v| !is_nan(c.ord, v)).collect();
            let any = || {
                let o = || match choose(vals.len() + 1) {
                    0 => None,
                    i => Some(vals[i - 1].clone()),
                };
                (pick(&[None, Some(0), Some(7)]), None, o(), o())
            };
            let mut s: St = any();
            s.1 = pick(&[None, Some(0), Some(i64::MAX)]);
            let th = thrift_stats(&s);
            let d = guard("deserialize_statistics", || deserialize_statistics(&th, c.primitive()))??;
            same!(raw(d.as_ref()), s, "stats-conversion", "typed statistics of {th:?} ({c:?})");
            same!(serialize_statistics(d.as_ref()), th, "stats-conversion", "thrift form of {d:?}");
            same!(d.physical_type(), &c.t, "stats-conversion", "physical type");
            same!(d.null_count(), s.0, "stats-conversion", "null count");
            let again = deserialize_statistics(&th, c.primitive())?;
            ensure!(d.as_ref() == again.as_ref(), "stats-eq", "{d:?} differs from itself");
            // one component altered
            let mut o = s.clone();
            match choose(4) {
                0 => o.0 = if o.0.is_some() { None } else { Some(1) },
                1 => o.1 = if o.1.is_some() { None } else { Some(1) },
                2 => o.2 = if o.2.is_some() { None } else { Some(vals[0].clone()) },
                _ => o.3 = if o.3.is_some() { None } else { Some(vals[0].clone()) },
            }
            let other = deserialize_statistics(&thrift_stats(&o), c.primitive())?;
            ensure!(d.as_ref() != other.as_ref(), "stats-eq", "{d:?} equals {other:?}");
            // bounds that are not values of the type
            if c.t != PhysicalType::ByteArray {
                let w = vals[0].len();
                for len in [0, 1, w - 1, w + 1, 2 * w, 40] {
                    if len == w {
                        continue;
                    }
                    for max in [false, true] {
                        let mut b = s.clone();
                        if max { b.3 = Some(vec![1; len]) } else { b.2 = Some(vec![1; len]) }
                        let r = guard("deserialize_statistics", || deserialize_statistics(&thrift_stats(&b), c.primitive()))?;
                        ensure!(r.is_err(), "stats-length", "a bound of {len} bytes was accepted for {c:?}: {r:?}");
                    }
                }
            }
            Ok(())
        }),
    ];
    Def {
        spaces,
        rule: "Files with every combination of per-page statistics (absent, without null count, without one bound, all nulls, NaN, every boundary value as minimum and as maximum) of up to 3-4 pages are written for 27 combinations of physical, logical and converted types; the chunk's statistics are compared with the combination computed with the format's order of the type, and the column index with those of the pages. Typed statistics are converted to thrift and back.",
        assumptions: vec!["a page whose values are all null has no bounds", "the order of +0 and -0 is not distinguished"],
    }
}

// ---------------------------------------------------------------- C22
fn conv_types() -> Vec<PrimitiveConvertedType> {
    use PrimitiveConvertedType::*;
    vec![Utf8, Enum, Decimal(4, 2), Date, TimeMillis, TimeMicros, TimestampMillis, TimestampMicros, Uint8, Uint16, Uint32, Uint64, Int8, Int16, Int32, Int64, Json, Bson, Interval]
}
fn logical_types() -> Vec<PrimitiveLogicalType> {
    use IntegerType::*;
    use PrimitiveLogicalType as L;
    let mut v = vec![L::String, L::Enum, L::Decimal(4, 2), L::Date, L::Unknown, L::Json, L::Bson, L::Uuid];
    for i in [Int8, Int16, Int32, Int64, UInt8, UInt16, UInt32, UInt64] {
        v.push(L::Integer(i));
    }
    for unit in [TimeUnit::Milliseconds, TimeUnit::Microseconds, TimeUnit::Nanoseconds] {
        for is_adjusted_to_utc in [false, true] {
            v.push(L::Time { unit, is_adjusted_to_utc });
            v.push(L::Timestamp { unit, is_adjusted_to_utc });
        }
    }
    v
}
/// parquet.thrift, "ColumnOrder"
fn sort_of(l: &Option<PrimitiveLogicalType>, c: &Option<PrimitiveConvertedType>, p: &PhysicalType) -> SortOrder {
    let name = match (l, c) {
        (Some(l), _) => format!("{l:?}"),
        (None, Some(c)) => format!("{c:?}"),
        (None, None) => format!("{p:?}!"),
    };
    const UNSIGNED: [&str; 10] = ["String", "Utf8", "Enum", "Json", "Bson", "Uuid", "Uint", "Integer(UInt", "Boolean!", "ByteArray!"];
    if ["Unknown", "Interval", "Int96!"].iter().any(|x| name.starts_with(x)) {
        SortOrder::Undefined
    } else if UNSIGNED.iter().any(|x| name.starts_with(x)) || name.starts_with("FixedLenByteArray") {
        SortOrder::Unsigned
    } else {
        SortOrder::Signed
    }
}
fn ordering_laws<T: Copy + std::fmt::Debug>(vals: &[T], f: impl Fn(&T, &T) -> Ordering, want: impl Fn(&T, &T) -> Ordering) -> Res {
    let a = pick(vals);
    let b = pick(vals);
    let ab = guard("ord", || f(&a, &b))?;
    same!(ab, want(&a, &b), "ord", "order of {a:?} and {b:?}");
    same!(f(&b, &a), ab.reverse(), "ord", "antisymmetry of {a:?} and {b:?}");
    for c in vals {
        if ab != Ordering::Greater && f(&b, c) != Ordering::Greater {
            ensure!(f(&a, c) != Ordering::Greater, "ord", "transitivity of {a:?}, {b:?}, {c:?}");
        }
    }
    Ok(())
}
fn bytes_law<T: NativeType>(v: T, le: &[u8]) -> Res {
    let b = v.to_le_bytes();
    same!(b.as_ref(), le, "bytes", "little-endian bytes of {v:?}");
    let b2 = T::Bytes::try_from(le).map_err(|_| Fail { key: "bytes".into(), msg: "length".into() })?;
    let again = T::from_le_bytes(b2).to_le_bytes();
    same!(again.as_ref(), le, "bytes", "from_le_bytes of {le:?}");
    let again = decode::<T>(le).to_le_bytes();
    same!(again.as_ref(), le, "bytes", "decode of {le:?}");
    Ok(())
}
fn spread(n: usize) -> Vec<i64> {
    let mut v = vec![];
    for k in 0..n {
        let p = 1i64 << k;
        for d in [-1i64, 0, 1] {
            v.push(p.wrapping_add(d));
            v.push((!p).wrapping_add(d));
        }
    }
    v.sort();
    v.dedup();
    v
}
fn int96s(dense: bool) -> Vec<[u32; 3]> {
    let days = [0u32, 1, 2440587, 2440588, 2440589, 106751 + 2440588, 2440588 - 106752, u32::MAX, 1 << 31, 2451545];
    // nanoseconds of a day, and more
    let nanos = [0u64, 1, u32::MAX as u64, 1 << 32, 43_200_000_000_000, 86_399_999_999_999];
    let more = [86_400_000_000_000u64, 5 << 32];
    let mut v = vec![];
    for d in days {
        for n in nanos.iter().chain(if dense { &more[..] } else { &[] }) {
            v.push([*n as u32, (*n >> 32) as u32, d]);
        }
    }
    v
}
fn ns(v: &[u32; 3]) -> i128 {
    (v[2] as i128 - 2440588) * 86_400_000_000_000 + ((v[1] as i128) << 32 | v[0] as i128)
}
pub fn types(thorough: bool) -> Def {
    let t = thorough;
    let spaces = vec![
        space("i32", || {
            let vals: Vec<i32> = spread(32).iter().map(|x| *x as i32).collect();
            ordering_laws(&vals, |a, b| NativeType::ord(a, b), |a, b| a.cmp(b))?;
            let v = pick(&vals);
            visit(&v);
            bytes_law(v, &(v as u32).to_le_bytes())
        }),
        space("i64", || {
            let vals = spread(64);
            ordering_laws(&vals, |a, b| NativeType::ord(a, b), |a, b| a.cmp(b))
        }),
        space("i64 bytes", || {
            let v = pick(&spread(64));
            bytes_law(v, &(v as u64).to_le_bytes())?;
            let (a, b) = (v as u32, (v >> 32) as u32);
            bytes_law([a, b, a ^ b], &[a, b, a ^ b].iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>())
        }),
        space("floats", || {
            let f: Vec<f64> = [0.0, f64::MIN_POSITIVE, 1e-320, 1.0, 1.0 + f64::EPSILON, 1e300, f64::MAX, f64::INFINITY].iter().flat_map(|x| [*x, -*x]).collect();
            let g: Vec<f32> = [0.0f32, f32::MIN_POSITIVE, 1e-44, 1.0, 1.0 + f32::EPSILON, 1e30, f32::MAX, f32::INFINITY].iter().flat_map(|x| [*x, -*x]).collect();
            if flag() {
                ordering_laws(&f, |a, b| NativeType::ord(a, b), |a, b| a.partial_cmp(b).unwrap())?;
                let v = pick(&f);
                bytes_law(v, &v.to_bits().to_le_bytes())
            } else {
                ordering_laws(&g, |a, b| NativeType::ord(a, b), |a, b| a.partial_cmp(b).unwrap())?;
                let v = pick(&g);
                bytes_law(v, &v.to_bits().to_le_bytes())
            }
        }),
        // NaN keeps its bits; comparing it does not fail
        space("NaN", || {
            let bits = pick(&[0x7fc0_0000u32, 0xffc0_0001, 0x7f80_0001, 0xffff_ffff]);
            bytes_law(f32::from_bits(bits), &bits.to_le_bytes())?;
            let b64 = ((bits as u64) << 32) | 5;
            bytes_law(f64::from_bits(b64 | 0x7ff0_0000_0000_0000), &(b64 | 0x7ff0_0000_0000_0000).to_le_bytes())?;
            guard("ord", || NativeType::ord(&f32::from_bits(bits), &1.0f32))?;
            guard("ord", || NativeType::ord(&1.0f64, &f64::NAN))?;
            Ok(())
        }),
        space("INT96", move || {
            let vals = int96s(true);
            ordering_laws(&vals, |a, b| NativeType::ord(a, b), |a, b| ns(a).cmp(&ns(b)))?;
            let v = pick(&int96s(t));
            let want = ns(&v);
            if let Ok(w) = i64::try_from(want) {
                same!(guard("int96_to_i64_ns", || int96_to_i64_ns(v))?, w, "int96", "nanoseconds of {v:?}");
            } else {
                guard("int96_to_i64_ns", || int96_to_i64_ns(v))?;
            }
            Ok(())
        }),
        space("byte strings", move || {
            let word = || {
                let n = choose(if t { 5 } else { 4 });
                (0..n).map(|_| pick(&[0u8, 1, 0x7f, 0x80, 0xff])).collect::<Vec<u8>>()
            };
            let (a, b) = (word(), word());
            visit(&(&a, &b));
            same!(guard("ord_binary", || ord_binary(&a, &b))?, a.cmp(&b), "ord-binary", "order of {a:?} and {b:?}");
            Ok(())
        }),
        // a long common part, then one or no other byte
        space("byte strings/long", || {
            let n = pick(&[6usize, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 257, 1000, 4096, 65535, 65536, 65537, 1 << 20]);
            let word = || {
                let mut w = vec![7u8; n];
                match choose(4) {
                    0 => {}
                    1 => w.push(pick(&[0u8, 7, 0xff])),
                    2 => w.extend(vec![0; n]),
                    _ => {
                        let at = pick(&[0, n / 2, n - 1]);
                        w[at] = pick(&[0u8, 0x80]);
                    }
                }
                w
            };
            let (a, b) = (word(), word());
            visit(&(n, a.len(), b.len()));
            ensure!(guard("ord_binary", || ord_binary(&a, &b))? == a.cmp(&b), "ord-binary", "order of strings of {} and {} bytes", a.len(), b.len());
            Ok(())
        }),
        space("sort orders", || {
            let p = pick(&all_types());
            let l = match choose(logical_types().len() + 1) {
                0 => None,
                i => Some(logical_types()[i - 1]),
            };
            let c = match choose(conv_types().len() + 1) {
                0 => None,
                i => Some(conv_types()[i - 1]),
            };
            visit(&(l, c, p));
            let got = guard("get_sort_order", || get_sort_order(&l, &c, &p))?;
            same!(got, sort_of(&l, &c, &p), "sort-order", "sort order of {l:?} / {c:?} / {p:?}");
            // as reported for the columns of a file
            let Ok(ty) = ParquetType::try_from_primitive("a".into(), p, Repetition::Optional, c, l, None) else { return Ok(()) };
            tally("column of a file");
            let plan = Plan::new(vec![prim("z", PhysicalType::Int96, Repetition::Required), ty], vec![]);
            let explicit = flag();
            let m = parquet_format_safe::FileMetaData {
                version: 1,
                schema: write_file(&plan)?.metadata.unwrap().schema,
                num_rows: 0,
                row_groups: vec![],
                key_value_metadata: None,
                created_by: None,
                column_orders: explicit.then(|| vec![parquet_format_safe::ColumnOrder::TYPEORDER(parquet_format_safe::TypeDefinedOrder {}); 2]),
                encryption_algorithm: None,
                footer_signing_key_metadata: None,
            };
            let f = guard("try_from_thrift", || FileMetaData::try_from_thrift(m))??;
            let want = |x| if explicit { ColumnOrder::TypeDefinedOrder(x) } else { ColumnOrder::Undefined };
            same!(f.column_order(1), want(got), "sort-order", "order of column 1");
            same!(f.column_order(0), want(SortOrder::Undefined), "sort-order", "order of column 0");
            same!(f.column_order(1).sort_order(), if explicit { got } else { SortOrder::Signed }, "sort-order", "sort order of column 1");
            same!(f.column_order(7), ColumnOrder::Undefined, "sort-order", "order of a missing column");
            Ok(())
        }),
    ];
    Def {
        spaces,
        rule: "All pairs (and every third value, for transitivity) of boundary values per native type are compared with the numeric, chronological or lexicographic order; every value is converted to bytes and back; the sort order of every physical x logical x converted type is compared with the format's table.",
        assumptions: vec!["NaN is unordered"],
    }
}
