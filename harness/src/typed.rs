//! Typed pages: built byte by byte from the format, decoded with the crate's deserializers.
use crate::engine::*;
use crate::fx::*;
use crate::model::*;
use parquet2::deserialize::*;
use parquet2::encoding::hybrid_rle::{BitmapIter, Decoder};
use parquet2::encoding::plain_byte_array::BinaryIter;
use parquet2::error::Error;
use parquet2::indexes::Interval;
use parquet2::metadata::Descriptor;
use parquet2::page::*;
use parquet2::schema::types::PhysicalType;
use parquet2::types::NativeType;
use std::collections::VecDeque;

/// a value in its plain encoding (booleans: one byte; byte arrays: without length)
pub type V = Vec<u8>;
pub type Vals = Vec<Option<V>>;

pub fn all_types() -> Vec<PhysicalType> {
    use PhysicalType::*;
    vec![Boolean, Int32, Int64, Int96, Float, Double, ByteArray, FixedLenByteArray(3)]
}
/// the k-th distinct value of a type
pub fn value(t: PhysicalType, k: usize) -> V {
    let b = |n: usize| (0..n).map(|i| ((k + 1) * 29 + i * 83) as u8).collect::<V>();
    match t {
        PhysicalType::Boolean => vec![(k % 2 == 0) as u8],
        PhysicalType::Int32 | PhysicalType::Float => b(4),
        PhysicalType::Int64 | PhysicalType::Double => b(8),
        PhysicalType::Int96 => b(12),
        PhysicalType::ByteArray => b(k % 4),
        PhysicalType::FixedLenByteArray(n) => b(n),
    }
}
pub fn plain(t: PhysicalType, vals: &[V]) -> Vec<u8> {
    match t {
        PhysicalType::Boolean => {
            let mut bits: Vec<u64> = vals.iter().map(|x| x[0] as u64).collect();
            while bits.len() % 8 != 0 {
                bits.push(0)
            }
            bitpack(&bits, 1)
        }
        PhysicalType::ByteArray => vals.iter().flat_map(|v| (v.len() as u32).to_le_bytes().into_iter().chain(v.clone())).collect(),
        _ => vals.concat(),
    }
}
/// ways of cutting a sequence in runs
pub const CUTS: usize = 5;
pub fn runs(vals: &[u64], cut: usize) -> Vec<Run> {
    let packed = |v: &[u64]| {
        let mut v = v.to_vec();
        while v.len() % 8 != 0 {
            v.push(0)
        }
        Run::Packed(v)
    };
    let mut out = vec![];
    let mut i = 0;
    match cut {
        0 if !vals.is_empty() => out.push(packed(vals)),
        1 => {
            while i < vals.len() {
                let n = vals[i..].iter().take_while(|x| **x == vals[i]).count();
                out.push(Run::Rle(vals[i], n));
                i += n;
            }
        }
        2 => out.extend(vals.iter().map(|v| Run::Rle(*v, 1))),
        // one repeated run, then a bit-packed one
        3 if !vals.is_empty() => {
            let n = vals.iter().take_while(|x| **x == vals[0]).count();
            out.push(Run::Rle(vals[0], n));
            if n < vals.len() {
                out.push(packed(&vals[n..]));
            }
        }
        // bit-packed groups of eight, then repeated runs
        4 => {
            let k = vals.len() / 8 * 8;
            if k > 0 {
                out.push(packed(&vals[..k]));
            }
            out.extend(runs(&vals[k..], 1));
        }
        _ => {}
    }
    out
}
#[derive(Clone, Debug)]
pub struct Layout {
    pub v2: bool,
    /// the dictionary and the number of bits of its indices
    pub dict: Option<(Vec<V>, usize)>,
    pub level_cut: usize,
    pub index_cut: usize,
}
/// A data page of a flat column
pub fn page(t: PhysicalType, optional: bool, vals: &Vals, l: &Layout) -> Pg {
    let levels: Vec<u64> = vals.iter().map(|v| v.is_some() as u64).collect();
    nested_page(t, if optional { 1 } else { 0 }, &levels, 0, &[], vals.iter().flatten().cloned().collect(), vals.len(), l)
}
/// A data page of any column: definition levels (when `max_def` > 0), repetition levels (when `max_rep` > 0), and non-null values
pub fn nested_page(t: PhysicalType, max_def: u64, defs: &[u64], max_rep: u64, reps: &[u64], values: Vec<V>, rows: usize, l: &Layout) -> Pg {
    let bits = |m: u64| (64 - m.leading_zeros()) as usize;
    let def = if max_def > 0 { hybrid_encode(&runs(defs, l.level_cut), bits(max_def)) } else { vec![] };
    let rep = if max_rep == 0 { vec![] } else { hybrid_encode(&runs(reps, l.level_cut), bits(max_rep)) };
    let n = defs.len();
    let body = match &l.dict {
        None => plain(t, &values),
        Some((dict, w)) => {
            let idx: Vec<u64> = values.iter().map(|v| dict.iter().position(|d| d == v).expect("value in dictionary") as u64).collect();
            let mut b = vec![*w as u8];
            if *w > 0 {
                b.extend(hybrid_encode(&runs(&idx, l.index_cut), *w));
            }
            b
        }
    };
    let enc = if l.dict.is_some() { 8 } else { 0 };
    let nulls = defs.iter().filter(|d| **d != max_def).count();
    if l.v2 {
        let mut b = rep.clone();
        b.extend(&def);
        b.extend(body);
        Pg::V2 { n, nulls, rows, rep: rep.len(), def: def.len(), flag: None, enc, stats: None, body: b }
    } else {
        let mut b = vec![];
        if max_rep > 0 {
            b.extend((rep.len() as u32).to_le_bytes());
            b.extend(rep);
        }
        if max_def > 0 {
            b.extend((def.len() as u32).to_le_bytes());
            b.extend(def);
        }
        b.extend(body);
        Pg::V1 { n, rows, enc, stats: None, body: b }
    }
}
pub fn dict_page(t: PhysicalType, dict: &[V]) -> Pg {
    Pg::Dict { n: dict.len(), sorted: false, body: plain(t, dict) }
}
/// reads a dictionary with the plain decoders
pub fn read_dict(t: PhysicalType, d: &DictPage) -> Res<Vec<V>> {
    let n = d.num_values;
    let out: Vec<V> = match t {
        PhysicalType::ByteArray => BinaryIter::new(&d.buffer, Some(n)).map(|x| x.map(|x| x.to_vec())).collect::<Result<_, _>>()?,
        PhysicalType::FixedLenByteArray(k) => FixexBinaryIter::new(&d.buffer, k).map(|x| x.to_vec()).collect(),
        t => {
            let w = value(t, 0).len();
            d.buffer.chunks_exact(w).map(|x| x.to_vec()).collect()
        }
    };
    same!(out.len(), n, "deserialize", "items of the dictionary");
    Ok(out)
}
type Items<'a> = Box<dyn Iterator<Item = Result<V, Error>> + 'a>;
fn lookup<'a>(idx: parquet2::encoding::hybrid_rle::HybridRleDecoder<'a>, dict: &'a [V]) -> Items<'a> {
    Box::new(idx.map(move |i| i.and_then(|i| dict.get(i as usize).cloned().ok_or_else(|| Error::OutOfSpec("index out of the dictionary".into())))))
}
fn native<'a, T: NativeType>(page: &'a DataPage, dict: Option<&'a [V]>) -> Result<(Option<DefLevelsDecoder<'a>>, Items<'a>), Error> {
    let b = |x: T| Ok(x.to_le_bytes().as_ref().to_vec());
    Ok(match NativePageState::<T, &'a [V]>::try_new(page, dict)? {
        NativePageState::Optional(d, v) => (Some(d), Box::new(v.map(b))),
        NativePageState::Required(v) => (None, Box::new(v.map(b))),
        NativePageState::RequiredDictionary(d) => (None, lookup(d.indexes, d.dict)),
        NativePageState::OptionalDictionary(l, d) => (Some(l), lookup(d.indexes, d.dict)),
    })
}
/// the page's validity and values, from the state the crate chooses for it
pub fn state<'a>(t: PhysicalType, page: &'a DataPage, dict: Option<&'a [V]>) -> Result<(Option<DefLevelsDecoder<'a>>, Items<'a>), Error> {
    Ok(match t {
        PhysicalType::Int32 => native::<i32>(page, dict)?,
        PhysicalType::Int64 => native::<i64>(page, dict)?,
        PhysicalType::Int96 => native::<[u32; 3]>(page, dict)?,
        PhysicalType::Float => native::<f32>(page, dict)?,
        PhysicalType::Double => native::<f64>(page, dict)?,
        PhysicalType::Boolean => match BooleanPageState::try_new(page)? {
            BooleanPageState::Optional(d, v) => (Some(d), Box::new(v.map(|x| Ok(vec![x as u8])))),
            BooleanPageState::Required(v, n) => (None, Box::new(BitmapIter::new(v, 0, n).map(|x| Ok(vec![x as u8])))),
        },
        PhysicalType::ByteArray => match BinaryPageState::try_new(page, dict)? {
            BinaryPageState::Optional(d, v) => (Some(d), Box::new(v.map(|x| x.map(|x| x.to_vec())))),
            BinaryPageState::Required(v) => (None, Box::new(v.map(|x| x.map(|x| x.to_vec())))),
            BinaryPageState::RequiredDictionary(d) => (None, lookup(d.indexes, d.dict)),
            BinaryPageState::OptionalDictionary(l, d) => (Some(l), lookup(d.indexes, d.dict)),
        },
        PhysicalType::FixedLenByteArray(_) => match FixedLenBinaryPageState::try_new(page, dict)? {
            FixedLenBinaryPageState::Optional(d, v) => (Some(d), Box::new(v.map(|x| Ok(x.to_vec())))),
            FixedLenBinaryPageState::Required(v) => (None, Box::new(v.map(|x| Ok(x.to_vec())))),
            FixedLenBinaryPageState::RequiredDictionary(d) => (None, lookup(d.indexes, d.dict)),
            FixedLenBinaryPageState::OptionalDictionary(l, d) => (Some(l), lookup(d.indexes, d.dict)),
        },
    })
}
/// `None` when the values run out
fn need(x: Option<Result<V, Error>>) -> Res<V> {
    match x {
        Some(v) => Ok(v?),
        None => fail("deserialize", "the page has fewer values than its levels say"),
    }
}
/// every value and null of the page
pub fn decode(t: PhysicalType, page: &DataPage, dict: Option<&[V]>) -> Res<Vals> {
    let (levels, mut values) = state(t, page, dict)?;
    let mut out: Vals = vec![];
    match levels {
        None => {
            for v in values.by_ref() {
                out.push(Some(v?))
            }
        }
        Some(DefLevelsDecoder::Bitmap(runs)) => {
            let n = runs.len();
            for r in runs {
                match r? {
                    HybridEncoded::Bitmap(b, n) => {
                        for x in BitmapIter::new(b, 0, n) {
                            out.push(if x { Some(need(values.next())?) } else { None })
                        }
                    }
                    HybridEncoded::Repeated(s, n) => {
                        for _ in 0..n {
                            out.push(if s { Some(need(values.next())?) } else { None })
                        }
                    }
                }
            }
            same!(out.len(), n, "deserialize", "length announced by the validity");
        }
        Some(DefLevelsDecoder::Levels(l, max)) => {
            for x in l {
                out.push(if x? == max { Some(need(values.next())?) } else { None })
            }
        }
    }
    Ok(out)
}
/// the selected values and nulls, iterating item by item
pub fn decode_sliced(t: PhysicalType, page: &DataPage, dict: Option<&[V]>, rows: &[Interval]) -> Res<Vals> {
    let (levels, values) = state(t, page, dict)?;
    let rows: VecDeque<Interval> = rows.iter().copied().collect();
    let mut out = vec![];
    let total: usize = rows.iter().map(|r| r.length).sum();
    if levels.is_some() {
        let (_, def, _) = split_buffer(page)?;
        let validity = HybridRleDecoderIter::new(HybridRleIter::new(Decoder::new(def, 1), page.num_values()));
        let mut it = SliceFilteredIter::new(OptionalValues::new(validity, values), rows);
        loop {
            same!(it.size_hint(), (total - out.len(), Some(total - out.len())), "filtered-len", "remaining items after {}", out.len());
            match it.next() {
                None => break,
                Some(x) => out.push(x?.transpose()?),
            }
            ensure!(out.len() <= total, "filtered", "more items than selected rows");
        }
    } else {
        let mut it = SliceFilteredIter::new(values, rows);
        loop {
            same!(it.size_hint(), (total - out.len(), Some(total - out.len())), "filtered-len", "remaining items after {}", out.len());
            match it.next() {
                None => break,
                Some(x) => out.push(Some(x?)),
            }
            ensure!(out.len() <= total, "filtered", "more items than selected rows");
        }
    }
    Ok(out)
}
/// the selected values and nulls of an optional column, iterating run by run
pub fn decode_runs(t: PhysicalType, page: &DataPage, dict: Option<&[V]>, rows: &[Interval]) -> Res<Vals> {
    let (levels, mut values) = state(t, page, dict)?;
    let validity = match levels {
        Some(DefLevelsDecoder::Bitmap(b)) => b,
        _ => return decode_sliced(t, page, dict, rows),
    };
    let total: usize = rows.iter().map(|r| r.length).sum();
    let mut it = FilteredHybridRleDecoderIter::new(validity, rows.iter().copied().collect());
    let mut out = vec![];
    loop {
        same!(it.len(), total - out.len(), "filtered-len", "remaining items after {}", out.len());
        let Some(r) = it.next() else { break };
        let r = r?;
        let before = out.len();
        match r {
            FilteredHybridEncoded::Skipped(n) => {
                for _ in 0..n {
                    need(values.next())?;
                }
            }
            FilteredHybridEncoded::Bitmap { values: b, offset, length } => {
                for x in BitmapIter::new(b, offset, length) {
                    out.push(if x { Some(need(values.next())?) } else { None })
                }
            }
            FilteredHybridEncoded::Repeated { is_set, length } => {
                for _ in 0..length {
                    out.push(if is_set { Some(need(values.next())?) } else { None })
                }
            }
        }
        same!(r.len(), out.len() - before, "filtered-len", "length of {r:?}");
        ensure!(out.len() <= total, "filtered", "more items than selected rows");
    }
    Ok(out)
}
/// maximal intervals of a set of rows (or, with `unit`, one interval per row)
pub fn intervals(mask: &[bool], unit: bool) -> Vec<Interval> {
    let mut out: Vec<Interval> = vec![];
    for (i, x) in mask.iter().enumerate() {
        if *x {
            match out.last_mut() {
                Some(l) if !unit && l.start + l.length == i => l.length += 1,
                _ => out.push(iv(i, 1)),
            }
        }
    }
    out
}
pub fn denote(rows: &[Interval], n: usize) -> Vec<bool> {
    let mut m = vec![false; n];
    for r in rows {
        for i in r.start..r.start + r.length {
            if i < n {
                m[i] = true
            }
        }
    }
    m
}
pub fn keep(vals: &Vals, mask: &[bool]) -> Vals {
    vals.iter().zip(mask).filter(|(_, m)| **m).map(|(v, _)| v.clone()).collect()
}
pub fn data_page(p: &Pg, d: &Descriptor) -> DataPage {
    match p.page(d) {
        Page::Data(p) => p,
        _ => unreachable!(),
    }
}
