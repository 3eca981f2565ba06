//! C19: page deserialization.
use super::Def;
use crate::engine::*;
use crate::fx::*;
use crate::typed::*;
use parquet2::compression::CompressionOptions;
use parquet2::deserialize::*;
use parquet2::encoding::hybrid_rle::HybridRleDecoder;
use parquet2::encoding::plain_byte_array::BinaryIter;
use parquet2::error::Error;
use parquet2::page::*;
use parquet2::read::levels::get_bit_width;
use parquet2::read::*;
use parquet2::schema::types::*;
use parquet2::schema::Repetition;
use parquet2::FallibleStreamingIterator;
use std::io::Cursor;

fn width(n: usize) -> usize {
    (usize::BITS - n.saturating_sub(1).leading_zeros()) as usize
}
/// a dictionary of `n` distinct values (or as many as the type has)
fn dictionary(t: PhysicalType, n: usize) -> Vec<V> {
    (0..n)
        .map(|k| match t {
            PhysicalType::ByteArray => [(k as u32).to_be_bytes().to_vec(), vec![7; k % 5]].concat(),
            PhysicalType::FixedLenByteArray(w) => (0..w).map(|i| ((k + 1) >> (8 * (i % 3))) as u8).collect(),
            t => {
                let w = value(t, 0).len();
                (0..w).map(|i| if i < 4 { ((k + 1) >> (8 * i)) as u8 } else { (k * 7 + i) as u8 }).collect()
            }
        })
        .collect()
}
/// the number of items the deserializer announces must be right whenever it is exact
fn counts(t: PhysicalType, p: &DataPage, dict: Option<&[V]>, n: usize, non_null: usize) -> Res {
    fn nat<T: parquet2::types::NativeType>(p: &DataPage, dict: Option<&[V]>, n: usize, non_null: usize) -> Res {
        match NativePageState::<T, &[V]>::try_new(p, dict)? {
            NativePageState::Optional(_, v) => same!(v.len(), non_null, "counts", "announced number of values"),
            NativePageState::Required(v) => same!(v.len(), n, "counts", "announced number of values"),
            NativePageState::RequiredDictionary(d) => same!((d.len(), d.is_empty()), (n, n == 0), "counts", "announced number of indices"),
            NativePageState::OptionalDictionary(..) => {}
        }
        Ok(())
    }
    match t {
        PhysicalType::Int32 => nat::<i32>(p, dict, n, non_null)?,
        PhysicalType::Int64 => nat::<i64>(p, dict, n, non_null)?,
        PhysicalType::Int96 => nat::<[u32; 3]>(p, dict, n, non_null)?,
        PhysicalType::Float => nat::<f32>(p, dict, n, non_null)?,
        PhysicalType::Double => nat::<f64>(p, dict, n, non_null)?,
        PhysicalType::Boolean => {
            if let BooleanPageState::Required(_, k) = BooleanPageState::try_new(p)? {
                same!(k, n, "counts", "announced number of values")
            }
        }
        PhysicalType::ByteArray => match BinaryPageState::try_new(p, dict)? {
            BinaryPageState::Required(v) => same!(v.size_hint(), (n, Some(n)), "counts", "announced number of values"),
            BinaryPageState::RequiredDictionary(d) => same!(d.len(), n, "counts", "announced number of indices"),
            _ => {}
        },
        PhysicalType::FixedLenByteArray(_) => match FixedLenBinaryPageState::try_new(p, dict)? {
            FixedLenBinaryPageState::Required(v) => same!(v.size_hint(), (n, Some(n)), "counts", "announced number of values"),
            FixedLenBinaryPageState::Optional(_, v) => same!(v.size_hint(), (non_null, Some(non_null)), "counts", "announced number of values"),
            FixedLenBinaryPageState::RequiredDictionary(d) => same!(d.len(), n, "counts", "announced number of indices"),
            _ => {}
        },
    }
    Ok(())
}
fn check_page(t: PhysicalType, optional: bool, vals: &Vals, l: &Layout, legacy: bool) -> Res {
    let d = descriptor(t, optional);
    let mut pg = page(t, optional, vals, l);
    if legacy && l.dict.is_some() {
        pg = super::files::with_enc(pg, 2); // PLAIN_DICTIONARY
    }
    let p = data_page(&pg, &d);
    let dict = l.dict.as_ref().map(|x| &x.0[..]);
    let got = guard("deserializing", || decode(t, &p, dict))??;
    same!(got, *vals, "values", "values of a page of {t:?} ({l:?})");
    guard("counts", || counts(t, &p, dict, vals.len(), vals.iter().flatten().count()))??;
    Ok(())
}
/// every definition/repetition structure of a column: levels and the descriptor
struct Nest {
    name: &'static str,
    schema: fn(PhysicalType) -> Vec<ParquetType>,
    def: u64,
    rep: u64,
}
fn nests() -> Vec<Nest> {
    use Repetition::*;
    fn deep(t: PhysicalType, n: usize, r: Repetition, leaf: Repetition) -> Vec<ParquetType> {
        let mut f = prim("c", t, leaf);
        for i in 0..n {
            f = group(&format!("g{i}"), r, vec![f]);
        }
        vec![f]
    }
    vec![
        Nest { name: "required in required", schema: |t| deep(t, 2, Required, Required), def: 0, rep: 0 },
        Nest { name: "optional in required", schema: |t| deep(t, 1, Required, Optional), def: 1, rep: 0 },
        Nest { name: "required in optional", schema: |t| deep(t, 1, Optional, Required), def: 1, rep: 0 },
        Nest { name: "optional in optional", schema: |t| deep(t, 1, Optional, Optional), def: 2, rep: 0 },
        Nest { name: "optional x4", schema: |t| deep(t, 3, Optional, Optional), def: 4, rep: 0 },
        Nest { name: "optional x8", schema: |t| deep(t, 7, Optional, Optional), def: 8, rep: 0 },
        Nest { name: "repeated", schema: |t| deep(t, 0, Required, Repeated), def: 1, rep: 1 },
        Nest { name: "optional in repeated", schema: |t| deep(t, 1, Repeated, Optional), def: 2, rep: 1 },
        Nest { name: "required in repeated", schema: |t| deep(t, 1, Repeated, Required), def: 1, rep: 1 },
        Nest { name: "optional in repeated x3", schema: |t| deep(t, 3, Repeated, Optional), def: 4, rep: 3 },
        Nest { name: "optional in repeated x15", schema: |t| deep(t, 15, Repeated, Optional), def: 16, rep: 15 },
        Nest { name: "optional in repeated x130", schema: |t| deep(t, 130, Repeated, Optional), def: 131, rep: 130 },
        Nest { name: "optional in repeated x254", schema: |t| deep(t, 250, Repeated, Optional), def: 251, rep: 250 },
    ]
}
fn levels_of(p: &DataPage) -> Res<(Vec<u64>, Vec<u64>, Vec<u8>)> {
    let (rep, def, values) = split_buffer(p)?;
    let get = |b: &[u8], max: i16| -> Res<Vec<u64>> {
        if max == 0 {
            return Ok(vec![]);
        }
        let it = HybridRleDecoder::try_new(b, get_bit_width(max), p.num_values())?;
        same!(it.size_hint(), (p.num_values(), Some(p.num_values())), "counts", "number of levels");
        Ok(it.map(|x| x.map(|x| x as u64)).collect::<Result<Vec<_>, Error>>()?)
    };
    Ok((get(rep, p.descriptor.max_rep_level)?, get(def, p.descriptor.max_def_level)?, values.to_vec()))
}
fn nested(t: bool) -> Space {
    space("nested", move || {
        let ns = nests();
        let nest = &ns[choose(ns.len())];
        let ty = pick(&[PhysicalType::Int32, PhysicalType::ByteArray, PhysicalType::Boolean, PhysicalType::FixedLenByteArray(3)]);
        let s = schema((nest.schema)(ty));
        let d = s.columns()[0].descriptor.clone();
        same!((d.max_def_level as u64, d.max_rep_level as u64), (nest.def, nest.rep), "fixture", "levels of {}", nest.name);
        let n = choose(if t { 6 } else { 5 });
        let k = |m: u64| -> u64 {
            if m <= 3 {
                choose(m as usize + 1) as u64
            } else {
                pick(&[0, m / 2, m])
            }
        };
        let mut defs = vec![];
        let mut reps = vec![];
        for i in 0..n {
            defs.push(k(nest.def));
            reps.push(if i == 0 || nest.rep == 0 { 0 } else { pick(&[0, nest.rep / 2 + 1, nest.rep]) });
        }
        let rows = if nest.rep == 0 { n } else { reps.iter().filter(|r| **r == 0).count() };
        let dict = (ty != PhysicalType::Boolean && flag()).then(|| (dictionary(ty, 3), 2));
        let src: Vec<V> = match &dict {
            Some(d) => d.0.clone(),
            None => (0..3).map(|i| value(ty, i)).collect(),
        };
        let values: Vec<V> = defs.iter().filter(|x| **x == nest.def).enumerate().map(|(i, _)| src[i % 3].clone()).collect();
        let l = Layout { v2: flag(), dict, level_cut: pick(&[0, 1, 3]), index_cut: 0 };
        let pg = nested_page(ty, nest.def, &defs, nest.rep, &reps, values.clone(), rows, &l);
        // the number of values of a page counts levels, also when there are only required values
        let pg = match pg {
            Pg::V1 { rows, enc, stats, body, .. } => Pg::V1 { n, rows, enc, stats, body },
            Pg::V2 { nulls, rows, rep, def, flag, enc, stats, body, .. } => Pg::V2 { n, nulls, rows, rep, def, flag, enc, stats, body },
            x => x,
        };
        let p = data_page(&pg, &d);
        visit(&(nest.name, defs.clone(), reps.clone()));
        let (r, f, _) = guard("levels", || levels_of(&p))??;
        same!(r, if nest.rep > 0 { reps.clone() } else { vec![] }, "levels", "repetition levels of {} ({l:?})", nest.name);
        same!(f, if nest.def > 0 { defs.clone() } else { vec![] }, "levels", "definition levels of {} ({l:?})", nest.name);
        let dict = l.dict.as_ref().map(|x| &x.0[..]);
        let leaf_optional = d.primitive_type.field_info.repetition == Repetition::Optional;
        if leaf_optional {
            let mut i = 0;
            let want: Vals = defs
                .iter()
                .map(|x| {
                    (*x == nest.def).then(|| {
                        i += 1;
                        values[i - 1].clone()
                    })
                })
                .collect();
            let got = guard("deserializing", || decode(ty, &p, dict))??;
            same!(got, want, "values", "values of {} ({l:?})", nest.name);
        } else {
            // a required leaf: its values one after the other
            let (levels, it) = guard("deserializing", || state(ty, &p, dict))??;
            ensure!(levels.is_none(), "values", "a required leaf has a validity");
            let got = guard("deserializing", || it.take(values.len()).collect::<Result<Vec<_>, _>>())??;
            same!(got, values, "values", "values of {} ({l:?})", nest.name);
        }
        Ok(())
    })
}
/// Which value encodings each deserializer accepts
fn fit() -> Space {
    space("fit", move || {
        let ty = pick(&all_types());
        let optional = flag();
        let enc = pick(&[0i32, 2, 3, 4, 5, 6, 7, 8, 9]);
        let with_dict = flag();
        let n = choose(3);
        let v2 = flag();
        let is_dict = enc == 2 || enc == 8;
        let dict = dictionary(ty, 2);
        let vals: Vals = (0..n).map(|i| Some(dict[i % 2].clone())).collect();
        let l = Layout { v2, dict: (is_dict && ty != PhysicalType::Boolean).then(|| (dict.clone(), 1)), level_cut: 1, index_cut: 1 };
        let vals = if ty == PhysicalType::Boolean { vals.into_iter().map(|v| v.map(|v| vec![v[0] & 1])).collect() } else { vals };
        let pg = super::files::with_enc(page(ty, optional, &vals, &l), enc);
        let d = descriptor(ty, optional);
        let p = data_page(&pg, &d);
        let fits = enc == 0 || (is_dict && with_dict && ty != PhysicalType::Boolean);
        let got = guard("try_new", || match state(ty, &p, with_dict.then_some(&dict[..])) {
            Ok(_) => Ok(()),
            Err(e) => Err(e.to_string()),
        })?;
        visit(&(format!("{ty:?}"), enc, with_dict));
        ensure!(got.is_ok() == fits, "fit", "{ty:?} (optional: {optional}) with encoding {enc}, dictionary given: {with_dict}: {got:?}");
        if fits {
            tally("accepted");
            let got = guard("deserializing", || decode(ty, &p, with_dict.then_some(&dict[..])))??;
            same!(got, vals, "values", "values of {ty:?} with encoding {enc}");
        } else {
            tally("rejected");
        }
        Ok(())
    })
}
/// pages whose bytes do not hold what the header says
fn unfit() -> Space {
    space("unfit", move || {
        let optional = flag();
        let d = |t| descriptor(t, optional);
        let v2 = flag();
        let l = Layout { v2, dict: None, level_cut: 1, index_cut: 1 };
        let edit = |p: Pg, f: &dyn Fn(&mut Vec<u8>)| match p {
            Pg::V1 { n, rows, enc, stats, mut body } => {
                f(&mut body);
                Pg::V1 { n, rows, enc, stats, body }
            }
            Pg::V2 { n, nulls, rows, rep, def, flag, enc, stats, mut body } => {
                f(&mut body);
                Pg::V2 { n, nulls, rows, rep, def, flag, enc, stats, body }
            }
            x => x,
        };
        match choose(5) {
            0 => {
                // a part of a value of a native type
                let ty = pick(&[PhysicalType::Int32, PhysicalType::Int64, PhysicalType::Int96, PhysicalType::Float, PhysicalType::Double]);
                let w = value(ty, 0).len();
                let cut = 1 + choose(w - 1);
                let p = page(ty, optional, &vec![Some(value(ty, 0)), Some(value(ty, 1))], &l);
                let p = edit(p, &|b| {
                    let n = b.len() - cut;
                    b.truncate(n)
                });
                let p = data_page(&p, &d(ty));
                let r = guard("try_new", || state(ty, &p, None).map(|_| ()))?;
                ensure!(r.is_err(), "unfit", "{ty:?}: values of {} bytes are accepted", 2 * w - cut);
            }
            1 => {
                // fixed-length deserializer on another type
                let ty = pick(&all_types());
                let p = page(ty, optional, &vec![Some(value(ty, 0))], &l);
                let p = data_page(&p, &d(ty));
                let r = guard("try_new", || FixedLenBinaryPageState::<&[V]>::try_new(&p, None).map(|_| ()))?;
                ensure!(r.is_ok() == matches!(ty, PhysicalType::FixedLenByteArray(_)), "unfit", "FixedLenBinaryPageState on {ty:?}: {r:?}");
            }
            2 => {
                // indices wider than 32 bits, or none at all
                let ty = pick(&[PhysicalType::Int32, PhysicalType::ByteArray, PhysicalType::FixedLenByteArray(3)]);
                let w = pick(&[33u8, 34, 64, 128, 255]);
                let none = flag();
                let dict = dictionary(ty, 2);
                let l = Layout { v2, dict: Some((dict.clone(), 1)), level_cut: 1, index_cut: 1 };
                let p = page(ty, optional, &vec![Some(dict[0].clone())], &l);
                let at = match &p {
                    Pg::V2 { def, .. } => *def,
                    Pg::V1 { body, .. } if optional => 4 + u32::from_le_bytes(body[..4].try_into().unwrap()) as usize,
                    _ => 0,
                };
                let p = edit(p, &|b| if none { b.truncate(at) } else { b[at] = w });
                let p = data_page(&p, &d(ty));
                let r = guard("try_new", || state(ty, &p, Some(&dict)).map(|_| ()))?;
                ensure!(r.is_err(), "unfit", "{ty:?}: indices of {w} bits accepted (none: {none})");
            }
            3 => {
                // levels longer than the page
                let ty = PhysicalType::Int32;
                let p = page(ty, true, &vec![Some(value(ty, 0)), None], &l);
                let more = pick(&[5usize, 6, 100, 1 << 20]);
                let p = match p {
                    Pg::V2 { n, nulls, rows, rep, flag, enc, stats, body, .. } => Pg::V2 { n, nulls, rows, rep, def: body.len() - 4 + more, flag, enc, stats, body },
                    p => edit(p, &|b| {
                        let l = b.len() as u32 - 8 + more as u32;
                        b[..4].copy_from_slice(&l.to_le_bytes())
                    }),
                };
                let p = data_page(&p, &descriptor(ty, true));
                let r = guard("split_buffer", || split_buffer(&p).map(|_| ()))?;
                ensure!(r.is_err(), "unfit", "levels longer than the page are accepted");
                let r = guard("try_new", || state(ty, &p, None).map(|_| ()))?;
                ensure!(r.is_err(), "unfit", "levels longer than the page are accepted");
            }
            _ => {
                // levels in the deprecated bit-packed encoding: only relevant where levels are stored
                let ty = pick(&[PhysicalType::Int32, PhysicalType::ByteArray, PhysicalType::Boolean]);
                let vals = vec![Some(value(ty, 0)), Some(value(ty, 1))];
                let p = data_page(&page(ty, optional, &vals, &Layout { v2: false, ..l.clone() }), &d(ty));
                let DataPageHeader::V1(h) = p.header() else { return Ok(()) };
                let mut h = h.clone();
                let (bd, br) = (flag(), flag());
                if bd {
                    h.definition_level_encoding = parquet_format_safe::Encoding::BIT_PACKED;
                }
                if br {
                    h.repetition_level_encoding = parquet_format_safe::Encoding::BIT_PACKED;
                }
                let p = DataPage::new(DataPageHeader::V1(h), p.buffer().to_vec(), d(ty), None);
                let r = guard("deserializing", || decode(ty, &p, None))?;
                if optional && bd {
                    ensure!(r.is_err(), "unfit", "bit-packed definition levels are read as {:?}", r.ok());
                } else {
                    same!(r?, vals, "values", "values of a page without the levels that are bit-packed");
                }
            }
        }
        Ok(())
    })
}

pub fn deserialization(thorough: bool) -> Def {
    let t = thorough;
    let spaces = vec![
        // every validity pattern
        space("values/short", move || {
            let ty = pick(&all_types());
            let optional = flag();
            let n = choose(if t { 12 } else { 10 });
            let w = if ty == PhysicalType::Boolean { 0 } else { choose(4) };
            let dict = (w > 0).then(|| {
                let k = [1, 3, 5][w - 1];
                let d = dictionary(ty, k);
                let minimal = width(k);
                (d, minimal)
            });
            let src: Vec<V> = dict.as_ref().map(|d| d.0.clone()).unwrap_or_else(|| (0..5).map(|k| value(ty, k)).collect());
            let vals: Vals = (0..n).map(|i| (!optional || flag()).then(|| src[(i * 3 + i / 4) % src.len()].clone())).collect();
            let l = Layout { v2: flag(), level_cut: if optional { choose(CUTS) } else { 0 }, index_cut: if dict.is_some() { pick(&[0, 1, 4]) } else { 0 }, dict };
            visit(&(format!("{ty:?}"), vals.clone()));
            sample(|| format!("{ty:?} optional {optional} {vals:?} {l:?}"));
            check_page(ty, optional, &vals, &l, false)
        }),
        // every sequence of dictionary indices
        space("values/indices", move || {
            let ty = pick(&[PhysicalType::Int32, PhysicalType::Int96, PhysicalType::ByteArray, PhysicalType::FixedLenByteArray(5)]);
            let k = 1 + choose(4);
            let extra = pick(&[0usize, 1, 5, 30]);
            let dict = dictionary(ty, k);
            let w = (width(k) + extra).min(32);
            let n = choose(if t { 7 } else { 6 });
            let vals: Vals = (0..n).map(|_| Some(dict[choose(k)].clone())).collect();
            let optional = flag();
            let l = Layout { v2: flag(), dict: Some((dict, w)), level_cut: 1, index_cut: choose(CUTS) };
            visit(&(w, vals.clone()));
            check_page(ty, optional, &vals, &l, extra == 1)
        }),
        // long pages: boundary lengths, wide dictionaries
        space("values/long", move || {
            let ty = pick(&all_types());
            let optional = flag();
            let n = pick(&[7usize, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 503, 504, 505, 1000, 1023, 1024, 1025, 3000]);
            let k = if ty == PhysicalType::Boolean { 0 } else { pick(&[0usize, 1, 2, 17, 255, 256, 257, 1000]) };
            let dict = (k > 0).then(|| (dictionary(ty, k), width(k)));
            let src: Vec<V> = dict.as_ref().map(|d| d.0.clone()).unwrap_or_else(|| (0..97).map(|k| value(ty, k)).collect());
            let pattern = if optional { choose(5) } else { 0 };
            let vals: Vals = (0..n)
                .map(|i| {
                    let null = match pattern {
                        0 => false,
                        1 => true,
                        2 => i % 3 == 1,
                        3 => (i / 9) % 2 == 0,
                        _ => i == n - 1 || i % 64 == 63,
                    };
                    (!null).then(|| src[(i * i + i / 3) % src.len()].clone())
                })
                .collect();
            let l = Layout { v2: flag(), level_cut: if optional { pick(&[0, 1, 3, 4]) } else { 0 }, index_cut: if dict.is_some() { pick(&[0, 4]) } else { 0 }, dict };
            visit(&(format!("{ty:?}"), n, k, pattern));
            check_page(ty, optional, &vals, &l, n % 2 == 0)
        }),
        // more values, more bytes and more of a dictionary than 16 bits can count
        space("values/large", move || {
            let ty = pick(&all_types());
            let optional = flag();
            let n = pick(&[65_535usize, 65_536, 65_537, 70_001, 131_073][..if t { 5 } else { 4 }]);
            let k = if ty == PhysicalType::Boolean { 0 } else { pick(&[0usize, 2, 70_000]) };
            let n = if k == 70_000 { 300 } else { n };
            let dict = (k > 0).then(|| (dictionary(ty, k), width(k)));
            let src: Vec<V> = dict.as_ref().map(|d| d.0.clone()).unwrap_or_else(|| (0..97).map(|k| value(ty, k)).collect());
            let pattern = if optional { choose(3) } else { 0 };
            let vals: Vals = (0..n)
                .map(|i| {
                    let null = match pattern {
                        0 => false,
                        1 => i % 3 == 1,
                        _ => i / 1000 % 2 == 1,
                    };
                    (!null).then(|| src[(i * 7 + i / 3 + i * (src.len() / 40)) % src.len()].clone())
                })
                .collect();
            let l = Layout { v2: flag(), level_cut: if optional { pick(&[1, 4]) } else { 0 }, index_cut: if dict.is_some() { 4 } else { 0 }, dict };
            visit(&(format!("{ty:?}"), n, k, pattern));
            let brief = |mut f: Fail| {
                f.msg.truncate(300);
                f
            };
            check_page(ty, optional, &vals, &l, false).map_err(brief)?;
            let mut p = data_page(&page(ty, optional, &vals, &l), &descriptor(ty, optional));
            let dict = l.dict.as_ref().map(|x| &x.0[..]);
            // far apart rows
            let mask: Vec<bool> = (0..n).map(|i| i == 0 || (299..302).contains(&i) || i > n - 4 || (500..40_000).contains(&i)).collect();
            p.selected_rows = Some(intervals(&mask, false));
            let rows = p.selected_rows().unwrap().to_vec();
            let want = keep(&vals, &mask);
            let got = guard("selected values", || decode_sliced(ty, &p, dict, &rows)).map_err(brief)??;
            ensure!(got == want, "values", "{ty:?}: rows {rows:?} of {n}, dictionary of {k} values, pattern {pattern}");
            let got = guard("selected runs", || decode_runs(ty, &p, dict, &rows)).map_err(brief)??;
            ensure!(got == want, "values", "{ty:?}: rows {rows:?} (as runs) of {n}, dictionary of {k} values, pattern {pattern}");
            Ok(())
        }),
        // with a selection of rows
        space("values/selected", move || {
            let ty = pick(&all_types());
            let optional = flag();
            let n = if t { 8 } else { 7 };
            let dict = (ty != PhysicalType::Boolean && flag()).then(|| (dictionary(ty, 3), 2));
            let src: Vec<V> = dict.as_ref().map(|d| d.0.clone()).unwrap_or_else(|| (0..5).map(|k| value(ty, k)).collect());
            let vals: Vals = (0..n).map(|i| (!optional || flag()).then(|| src[(i * 3 + i / 4) % src.len()].clone())).collect();
            let l = Layout { v2: flag(), level_cut: if optional { choose(2) } else { 0 }, index_cut: 1, dict };
            let d = descriptor(ty, optional);
            let mut p = data_page(&page(ty, optional, &vals, &l), &d);
            let mask: Vec<bool> = (0..n).map(|_| flag()).collect();
            p.selected_rows = Some(intervals(&mask, false));
            let dict = l.dict.as_ref().map(|x| &x.0[..]);
            let want = keep(&vals, &mask);
            visit(&(vals.clone(), mask.clone()));
            let rows = p.selected_rows().unwrap().to_vec();
            let got = guard("selected values", || decode_sliced(ty, &p, dict, &rows))??;
            same!(got, want, "values", "rows {rows:?} of {vals:?} ({l:?})");
            let got = guard("selected runs", || decode_runs(ty, &p, dict, &rows))??;
            same!(got, want, "values", "rows {rows:?} (as runs) of {vals:?} ({l:?})");
            Ok(())
        }),
        nested(t),
        fit(),
        unfit(),
        // through a file: several pages, dictionary fallback, codecs
        space("files", move || {
            let ty = pick(&all_types());
            let optional = flag();
            let codec = pick(&[CompressionOptions::Uncompressed, CompressionOptions::Snappy, CompressionOptions::Zstd(None), CompressionOptions::Lz4Raw, CompressionOptions::Gzip(None), CompressionOptions::Brotli(None)]);
            let has_dict = ty != PhysicalType::Boolean && flag();
            let dict = dictionary(ty, 6);
            let shapes: Vec<usize> = seq(1, 3, |_| choose(3));
            let mut col = vec![];
            let mut want: Vec<Vals> = vec![];
            if has_dict {
                col.push(dict_page(ty, &dict));
            }
            for (i, s) in shapes.iter().enumerate() {
                let n = 5 + 9 * i;
                let src: Vec<V> = if has_dict { dict.clone() } else { (0..5).map(|k| value(ty, k)).collect() };
                let vals: Vals = (0..n).map(|j| (!optional || (i + j) % 4 != 2).then(|| src[(i + j * 5) % src.len()].clone())).collect();
                // s = 2: a page that does not use the dictionary
                let l = Layout { v2: *s == 1, dict: (has_dict && *s != 2).then(|| (dict.clone(), 3)), level_cut: i % CUTS, index_cut: 1 };
                col.push(page(ty, optional, &vals, &l));
                want.push(vals);
            }
            let mut plan = Plan::new(vec![prim("c", ty, if optional { Repetition::Optional } else { Repetition::Required })], vec![vec![col]]);
            plan.codec = codec;
            let w = guard("writing", || write_file(&plan))??;
            let m = guard("read_metadata", || read_metadata(&mut Cursor::new(&w.bytes)))??;
            let it = get_page_iterator(&m.row_groups[0].columns()[0], Cursor::new(&w.bytes), None, vec![], usize::MAX)?;
            let mut it = Decompressor::new(it, vec![]);
            let mut d: Option<Vec<V>> = None;
            let mut i = 0;
            while let Some(p) = it.next()? {
                match p {
                    Page::Dict(p) => d = Some(guard("dictionary", || read_dict(ty, p))??),
                    Page::Data(p) => {
                        let got = guard("deserializing", || decode(ty, p, d.as_deref()))??;
                        ensure!(i < want.len(), "values", "more pages than written");
                        same!(got, want[i], "values", "page {i} of {ty:?}, shapes {shapes:?}, codec {codec:?}");
                        i += 1;
                    }
                }
            }
            same!(i, want.len(), "values", "pages read");
            if has_dict {
                same!(d.as_deref(), Some(&dict[..]), "values", "dictionary");
            }
            visit(&(format!("{ty:?}"), shapes, has_dict));
            Ok(())
        }),
        // the plain byte-array iterator stops at the number of values
        space("binary/limit", move || {
            let items: Vec<V> = seq(0, 4, |i| vec![i as u8; choose(3)]);
            let b = plain(PhysicalType::ByteArray, &items);
            let limit = choose(7);
            let limit = if limit == 6 { None } else { Some(limit) };
            let got: Vec<V> = guard("BinaryIter", || BinaryIter::new(&b, limit).map(|x| x.map(|x| x.to_vec())).collect::<Result<_, _>>())??;
            let want = &items[..limit.unwrap_or(items.len()).min(items.len())];
            same!(&got[..], want, "values", "byte arrays with limit {limit:?}");
            Ok(())
        }),
    ];
    Def {
        spaces,
        rule: "Pages built byte by byte from the format: every physical type, optional or required, plain or dictionary-encoded (indices of 0 to 32 bits), both versions, every validity of up to 9-11 values in 5 run structures, every index sequence of up to 5-6 values, boundary lengths up to 3000, every selection of up to 7-8 rows, levels of nested columns up to depth 250, every encoding with and without a dictionary, pages that contradict their header, and files with 1-3 pages and all codecs. Oracle: the values and nulls the page was built from, acceptance exactly of the encodings that fit.",
        assumptions: vec!["page headers count values as the format says", "dictionaries are decoded with the plain decoders, as callers do"],
    }
}
