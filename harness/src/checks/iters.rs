//! C25: every iterator of the crate may be consumed in any way.
//!
//! The model of an iterator is a position in the sequence it denotes. A history is any sequence of `next`,
//! `nth(k)`, `take(k)`, `clone` and size queries, closed by draining, counting, folding, or taking the last item.
use super::files::*;
use super::Def;
use crate::engine::*;
use crate::fx::*;
use crate::model::*;
use crate::typed::*;
use parquet2::compression::CompressionOptions;
use parquet2::deserialize::*;
use parquet2::encoding::hybrid_rle::{self, BitmapIter, HybridRleDecoder};
use parquet2::encoding::plain_byte_array::BinaryIter;
use parquet2::encoding::{bitpacked, delta_bitpacked, delta_byte_array, delta_length_byte_array};
use parquet2::error::Error;
use parquet2::indexes::{select_pages, Interval};
use parquet2::page::*;
use parquet2::read::*;
use parquet2::schema::types::*;
use parquet2::schema::Repetition::*;
use parquet2::write::*;
use parquet2::FallibleStreamingIterator;
use std::fmt::Debug;
use std::io::Cursor;

#[derive(Clone, Copy, PartialEq)]
enum Hint {
    /// announces exactly what remains
    Exact,
    /// announces bounds
    Bounds,
}
fn hint<I: Iterator>(it: &I, left: usize, h: Hint, log: &str) -> Res {
    let (lo, hi) = it.size_hint();
    match h {
        Hint::Exact => same!((lo, hi), (left, Some(left)), "size-hint", "size hint after {log}"),
        Hint::Bounds => ensure!(lo <= left && hi.map(|x| x >= left).unwrap_or(true), "size-hint", "size hint {lo}..{hi:?} after {log}, {left} remain"),
    }
    Ok(())
}
struct Walk<'a, T> {
    want: &'a [T],
    at: usize,
    log: String,
    hint: Hint,
}
impl<'a, T: PartialEq + Debug + Clone> Walk<'a, T> {
    fn new(want: &'a [T], hint: Hint) -> Self {
        Walk { want, at: 0, log: String::new(), hint }
    }
    fn left(&self) -> usize {
        self.want.len() - self.at
    }
    fn got(&self, got: Option<T>, want: Option<&T>) -> Res {
        ensure!(got.as_ref() == want, "item", "{}: got {got:?}, expected {want:?} of {:?}", self.log, self.want);
        Ok(())
    }
    /// at most `depth` steps, each any operation
    fn steps<I: Iterator>(&mut self, it: &mut I, depth: usize, strides: &[usize], map: &impl Fn(I::Item) -> Res<T>) -> Res {
        hint(it, self.left(), self.hint, "creation")?;
        let n = choose(depth + 1);
        for _ in 0..n {
            let op = choose(1 + 2 * strides.len());
            if op == 0 {
                self.log.push_str(" next");
                let x = guard("next", || it.next())?.map(map).transpose()?;
                self.got(x, self.want.get(self.at))?;
                self.at = (self.at + 1).min(self.want.len());
            } else if op <= strides.len() {
                let k = strides[op - 1];
                self.log.push_str(&format!(" nth({k})"));
                let x = guard("nth", || it.nth(k))?.map(map).transpose()?;
                self.got(x, self.want.get(self.at.saturating_add(k)))?;
                self.at = self.at.saturating_add(k).saturating_add(1).min(self.want.len());
            } else {
                let k = strides[op - 1 - strides.len()] + 1;
                self.log.push_str(&format!(" take({k})"));
                let xs = guard("take", || it.by_ref().take(k).collect::<Vec<_>>())?.into_iter().map(map).collect::<Res<Vec<_>>>()?;
                let end = (self.at + k).min(self.want.len());
                ensure!(xs == self.want[self.at..end], "item", "{}: got {xs:?}, expected {:?}", self.log, &self.want[self.at..end]);
                self.at = end;
            }
            hint(it, self.left(), self.hint, &self.log)?;
            visit(&(self.want.len(), self.at, op));
        }
        Ok(())
    }
    /// the rest, consumed in any of the ways the standard library offers
    fn finish<I: Iterator>(mut self, mut it: I, map: &impl Fn(I::Item) -> Res<T>) -> Res {
        let rest = &self.want[self.at..];
        match choose(6) {
            0 => {
                self.log.push_str(" drain");
                for i in 0..rest.len() + 3 {
                    let x = guard("next", || it.next())?.map(map).transpose()?;
                    self.got(x, rest.get(i))?;
                    hint(&it, rest.len().saturating_sub(i + 1), self.hint, &self.log)?;
                }
                same!(guard("nth", || it.nth(3))?.is_some(), false, "item", "{}: an item past the end", self.log);
            }
            1 => {
                self.log.push_str(" fold");
                let mut xs = vec![];
                guard("for_each", || it.for_each(|x| xs.push(map(x))))?;
                let xs = xs.into_iter().collect::<Res<Vec<_>>>()?;
                ensure!(xs == rest, "item", "{}: got {xs:?}, expected {rest:?}", self.log);
            }
            2 => {
                let n = guard("count", || it.count())?;
                same!(n, rest.len(), "count", "{} count", self.log)
            }
            3 => {
                self.log.push_str(" last");
                let x = guard("last", || it.last())?.map(map).transpose()?;
                self.got(x, rest.last())?
            }
            4 => {
                self.log.push_str(" step_by(2)");
                let xs = guard("step_by", || it.step_by(2).collect::<Vec<_>>())?.into_iter().map(map).collect::<Res<Vec<_>>>()?;
                let w: Vec<T> = rest.iter().step_by(2).cloned().collect();
                ensure!(xs == w, "item", "{}: got {xs:?}, expected {w:?}", self.log);
            }
            _ => {
                self.log.push_str(" skip(1)");
                let xs = guard("skip", || it.skip(1).collect::<Vec<_>>())?.into_iter().map(map).collect::<Res<Vec<_>>>()?;
                let w = rest.get(1..).unwrap_or(&[]);
                ensure!(xs == w, "item", "{}: got {xs:?}, expected {w:?}", self.log);
            }
        }
        Ok(())
    }
}
fn walk<T: PartialEq + Debug + Clone, I: Iterator>(mut it: I, want: &[T], h: Hint, depth: usize, strides: &[usize], map: impl Fn(I::Item) -> Res<T>) -> Res {
    let mut w = Walk::new(want, h);
    w.steps(&mut it, depth, strides, &map)?;
    sample(|| format!("{} of {} items {want:?}", w.log, want.len()));
    w.finish(it, &map)
}
/// as `walk`, with a copy taken somewhere: both go on from there, independently
fn walk_cloned<T: PartialEq + Debug + Clone, I: Iterator + Clone>(mut it: I, want: &[T], h: Hint, depth: usize, strides: &[usize], map: impl Fn(I::Item) -> Res<T>) -> Res {
    let mut w = Walk::new(want, h);
    w.steps(&mut it, depth.saturating_sub(1), strides, &map)?;
    if flag() {
        // one of the two goes on in any way, then the other still has everything
        let mut c = it.clone();
        if flag() {
            std::mem::swap(&mut it, &mut c);
        }
        let at = w.at;
        w.log.push_str(" (cloned)");
        w.steps(&mut it, 1, strides, &map)?;
        w.finish(it, &map)?;
        let rest = guard("copy", || c.collect::<Vec<_>>())?.into_iter().map(&map).collect::<Res<Vec<_>>>()?;
        ensure!(rest == want[at..], "item", "copy at {at}: got {rest:?}, expected {:?}", &want[at..]);
        Ok(())
    } else {
        sample(|| format!("{} of {} items {want:?}", w.log, want.len()));
        w.finish(it, &map)
    }
}
fn plain_item<T>(x: T) -> Res<T> {
    Ok(x)
}
fn ok_item<T, E: std::error::Error>(x: Result<T, E>) -> Res<T> {
    Ok(x?)
}
fn mix(i: usize, bits: usize) -> u64 {
    let m = if bits >= 64 { u64::MAX } else { (1 << bits) - 1 };
    (i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(17) & m
}
fn bitpacked_case<T>(width: usize, block: usize, depth: usize) -> Res
where
    T: bitpacked::Unpackable + Clone + Debug + PartialEq + TryFrom<u64>,
    T::Unpacked: Clone,
    bitpacked::Decoder<'static, T>: Clone,
{
    let bits = pick(&[1, 3, width / 2, width - 1, width]);
    let len = pick(&[0, 1, block - 1, block, block + 1, 2 * block, 2 * block + 5]);
    let vals: Vec<u64> = (0..len).map(|i| mix(i, bits)).collect();
    let want: Vec<T> = vals.iter().map(|x| T::try_from(*x).ok().unwrap()).collect();
    let bytes = bitpack(&vals, bits);
    // the decoder borrows the bytes; leaking is not an option over millions of executions
    let bytes: &'static [u8] = unsafe { std::mem::transmute::<&[u8], &'static [u8]>(&bytes[..]) };
    let it = guard("bitpacked decoder", || bitpacked::Decoder::<'static, T>::try_new(bytes, bits, len))??;
    walk_cloned(it, &want, Hint::Exact, depth, &[0, 1, block - 2, block - 1, block, block + 1, usize::MAX / 2], plain_item)
}
fn level_runs(max: usize) -> Vec<Run> {
    seq(1, max, |k| match choose(5) {
        0 => Run::Rle(k as u64 % 2, 1),
        1 => Run::Rle((k as u64 + 1) % 2, 3),
        2 => Run::Rle(1, 0),
        3 => Run::Packed((0..8).map(|i| mix(i + k, 1)).collect()),
        _ => Run::Packed((0..24).map(|i| mix(i + k, 1)).collect()),
    })
}
fn selection(n: usize) -> Vec<Interval> {
    let all = n;
    let sels: Vec<Vec<Interval>> = vec![
        vec![],
        vec![iv(0, all)],
        vec![iv(all / 2, all - all / 2)],
        vec![iv(0, all.min(1)), iv(all.saturating_sub(1).max(1).min(all), (all > 1) as usize)],
        vec![iv(all.min(1), all.min(9) - all.min(1)), iv(all.min(9), 0), iv(all.min(10), all.min(12) - all.min(10))],
        (0..all).filter(|i| i % 3 == 1).map(|i| iv(i, 1)).collect(),
    ];
    pick(&sels)
}
fn words(k: usize) -> Vec<Vec<u8>> {
    let w: Vec<Vec<u8>> = vec![b"".to_vec(), b"a".to_vec(), b"ab".to_vec(), b"abc".to_vec(), b"b".to_vec(), bytes(40, 3), b"abcd".to_vec()];
    (0..k).map(|i| w[(i * 5 + k) % w.len()].clone()).collect()
}
/// A streaming iterator: `get` returns the current item any number of times, and nothing before the first or past the last.
fn stream<S: FallibleStreamingIterator, T: PartialEq + Debug + Clone>(mut s: S, want: &[T], map: impl Fn(&S::Item) -> Res<T>, depth: usize) -> Res
where
    S::Error: std::error::Error,
{
    let mut at: isize = -1;
    let mut log = String::new();
    let item = |i: isize| if i < 0 { None } else { want.get(i as usize).cloned() };
    let end = want.len() as isize;
    let n = choose(depth + 1);
    let (lo, hi) = s.size_hint();
    ensure!(lo <= want.len() && hi.map(|x| x >= want.len()).unwrap_or(true), "size-hint", "{lo}..{hi:?} for {} pages", want.len());
    for _ in 0..n {
        match choose(5) {
            0 => {
                log.push_str(" get");
                let x = guard("get", || s.get().map(&map))?.transpose()?;
                same!(x, item(at), "stream", "{log}");
            }
            1 => {
                log.push_str(" advance");
                guard("advance", || s.advance())??;
                at = (at + 1).min(end);
            }
            2 => {
                log.push_str(" next");
                let x = guard("next", || s.next().map(|x| x.map(&map)))??.transpose()?;
                at = (at + 1).min(end);
                same!(x, item(at), "stream", "{log}");
            }
            3 => {
                let k = choose(2) as isize;
                log.push_str(&format!(" nth({k})"));
                let x = guard("nth", || s.nth(k as usize).map(|x| x.map(&map)))??.transpose()?;
                at = (at + 1 + k).min(end);
                same!(x, item(at), "stream", "{log}");
            }
            _ => {
                log.push_str(" get get");
                let x = guard("get", || s.get().map(&map))?.transpose()?;
                let y = guard("get", || s.get().map(&map))?.transpose()?;
                same!(x, item(at), "stream", "{log}");
                same!(y, item(at), "stream", "{log}");
            }
        }
        visit(&(want.len(), at));
    }
    sample(|| format!("streaming{log}, at {at} of {} pages", want.len()));
    match choose(3) {
        0 => loop {
            let x = guard("next", || s.next().map(|x| x.map(&map)))??.transpose()?;
            at = (at + 1).min(end);
            same!(x, item(at), "stream", "{log} drain");
            if x.is_none() {
                // and nothing more comes
                for _ in 0..2 {
                    same!(guard("next", || s.next().map(|x| x.map(&map)))??.transpose()?, None, "stream", "{log} past the end");
                }
                break;
            }
        },
        1 => {
            let k = guard("count", || s.count())??;
            same!(k as isize, (end - at - 1).max(0), "stream", "{log} count");
        }
        _ => {
            let mut xs = vec![];
            guard("for_each", || s.for_each(|x| xs.push(map(x))))??;
            let xs = xs.into_iter().collect::<Res<Vec<_>>>()?;
            same!(xs, want[((at + 1).min(end)) as usize..].to_vec(), "stream", "{log} for_each");
        }
    }
    Ok(())
}
fn some_pages() -> Column {
    let v1 = |n: usize, k: usize| Pg::V1 { n, rows: n, enc: 0, stats: None, body: bytes(4 * n, k) };
    let v2 = |n: usize, k: usize, f| Pg::V2 { n, nulls: 0, rows: n, rep: 0, def: 0, flag: f, enc: 0, stats: None, body: bytes(4 * n, k) };
    let dict = || Pg::Dict { n: 3, sorted: false, body: bytes(12, 9) };
    pick(&[
        vec![],
        vec![v1(5, 1)],
        vec![dict()],
        vec![dict(), v1(200, 2), v2(3, 3, None)],
        vec![v2(30, 4, Some(false)), v2(2, 5, Some(true)), v1(60, 6)],
        vec![dict(), v1(1, 7), v1(300, 8), v1(2, 9), v2(40, 1, Some(false))],
    ])
}
fn seen_compressed(p: CompressedPage) -> Res<Seen> {
    Ok(Seen::of(&decompress(p, &mut vec![])?))
}
fn data_only(col: &Column) -> bool {
    col.iter().any(|p| !p.is_dict())
}
pub fn iterators(thorough: bool) -> Def {
    let t = thorough;
    let d = if t { 3 } else { 2 };
    let spaces = vec![
        space("bit-packed integers", move || match choose(4) {
            0 => bitpacked_case::<u8>(8, 8, d),
            1 => bitpacked_case::<u16>(16, 16, d),
            2 => bitpacked_case::<u32>(32, 32, d),
            _ => bitpacked_case::<u64>(64, 64, d),
        }),
        space("hybrid integers", move || {
            let bits = pick(&[1usize, 3, 8, 17, 32]);
            let runs: Vec<Run> = seq(1, if t { 3 } else { 2 }, |k| match choose(5) {
                0 => Run::Rle(mix(k, bits), 1),
                1 => Run::Rle(mix(k, bits), 5),
                2 => Run::Rle(1, 0),
                3 => Run::Packed((0..8).map(|i| mix(i + k, bits)).collect()),
                _ => Run::Packed((0..40).map(|i| mix(i + k, bits)).collect()),
            });
            let total: usize = runs.iter().map(|r| r.values().len()).sum();
            let n = total - pick(&[0, 1, 3]).min(total);
            let data = hybrid_encode(&runs, bits);
            let want: Vec<u32> = runs.iter().flat_map(|r| r.values()).take(n).map(|x| x as u32).collect();
            let it = guard("hybrid decoder", || HybridRleDecoder::try_new(&data, bits as u32, n))??;
            same!(it.len(), n, "size-hint", "len()");
            walk_cloned(it, &want, Hint::Exact, d, &[0, 4, 7, 8, 31, 32], ok_item)
        }),
        space("hybrid runs", move || {
            // the runs themselves, and the runs of levels
            let runs = level_runs(4);
            let total: usize = runs.iter().map(|r| r.values().len()).sum();
            let data = hybrid_encode(&runs, 1);
            if flag() {
                let want: Vec<(Vec<u8>, Option<usize>)> = runs
                    .iter()
                    .map(|r| match r {
                        Run::Rle(v, n) => (vec![*v as u8], Some(*n)),
                        Run::Packed(v) => (bitpack(v, 1), None),
                    })
                    .collect();
                let map = |x: Result<hybrid_rle::HybridEncoded, Error>| -> Res<_> {
                    Ok(match x? {
                        hybrid_rle::HybridEncoded::Bitpacked(b) => (b.to_vec(), None),
                        hybrid_rle::HybridEncoded::Rle(b, n) => (b.to_vec(), Some(n)),
                    })
                };
                return walk_cloned(hybrid_rle::Decoder::new(&data, 1), &want, Hint::Bounds, d + 1, &[0, 1, 2], map);
            }
            // item by item the runs denote the levels; `len` counts the levels that remain
            let n = total - pick(&[0, 1, 7]).min(total);
            let levels: Vec<bool> = runs.iter().flat_map(|r| r.values()).take(n).map(|x| x == 1).collect();
            let mut it = HybridRleIter::new(hybrid_rle::Decoder::new(&data, 1), n);
            let mut at = 0;
            let mut k = 0;
            let stop = choose(runs.len() + 1);
            let mut copy = None;
            loop {
                same!((it.len(), it.is_empty(), it.number_of_elements()), (n - at, n == at, n - at), "size-hint", "levels left after {at} of {n}");
                let (lo, hi) = it.size_hint();
                ensure!(lo <= n - at && hi.map(|h| h >= lo).unwrap_or(true), "size-hint", "size hint {lo}..{hi:?} with {} levels left", n - at);
                if k == stop && copy.is_none() {
                    copy = Some((it.clone(), at));
                }
                let Some(r) = guard("next", || it.next())? else { break };
                at = check_run(r?, &levels, at)?;
                k += 1;
            }
            same!(at, n, "item", "levels of runs {runs:?}");
            ensure!(guard("next", || it.next())?.is_none(), "item", "a run past the end");
            if let Some((c, mut at)) = copy {
                for r in c {
                    at = check_run(r?, &levels, at)?;
                }
                same!(at, n, "item", "levels of a copy");
            }
            visit(&(&runs, n));
            Ok(())
        }),
        space("levels and bitmaps", move || {
            if flag() {
                let offset = choose(10);
                let len = pick(&[0usize, 1, 7, 8, 9, 15, 17, 40]);
                let data = bytes((offset + len + 7) / 8 + choose(2), 6);
                let want: Vec<bool> = (0..len).map(|i| data[(offset + i) / 8] >> ((offset + i) % 8) & 1 == 1).collect();
                return walk(BitmapIter::new(&data, offset, len), &want, Hint::Exact, d + 1, &[0, 1, 6, 7, 8, 15, 16], plain_item);
            }
            let runs = level_runs(3);
            let total: usize = runs.iter().map(|r| r.values().len()).sum();
            let data = hybrid_encode(&runs, 1);
            let n = total - pick(&[0, 1, 7]).min(total);
            let want: Vec<bool> = runs.iter().flat_map(|r| r.values()).take(n).map(|x| x == 1).collect();
            let it = HybridRleDecoderIter::new(HybridRleIter::new(hybrid_rle::Decoder::new(&data, 1), n));
            walk(it, &want, Hint::Exact, d, &[0, 2, 7, 8], ok_item)
        }),
        space("optional values", move || {
            let runs = level_runs(3);
            let total: usize = runs.iter().map(|r| r.values().len()).sum();
            let data = hybrid_encode(&runs, 1);
            let n = total - pick(&[0, 1]).min(total);
            let mut k = 0;
            let want: Vec<Option<usize>> = runs
                .iter()
                .flat_map(|r| r.values())
                .take(n)
                .map(|x| {
                    (x == 1).then(|| {
                        k += 1;
                        k - 1
                    })
                })
                .collect();
            let validity = HybridRleDecoderIter::new(HybridRleIter::new(hybrid_rle::Decoder::new(&data, 1), n));
            let it = OptionalValues::new(validity, 0..k);
            if flag() {
                walk(it, &want, Hint::Exact, d, &[0, 1, 7], ok_item)
            } else {
                let sel = selection(n);
                let mask = denote(&sel, n);
                let want: Vec<Option<usize>> = want.iter().zip(&mask).filter(|(_, m)| **m).map(|(x, _)| *x).collect();
                walk(SliceFilteredIter::new(it, sel.into_iter().collect()), &want, Hint::Exact, d - 1, &[0, 1, 4], ok_item)
            }
        }),
        space("sliced values", move || {
            let n = pick(&[0usize, 1, 2, 13, 40]);
            let sel = selection(n);
            let want: Vec<usize> = denote(&sel, n).iter().enumerate().filter(|(_, m)| **m).map(|(i, _)| i).collect();
            match choose(3) {
                0 => walk_cloned(SliceFilteredIter::new(0..n, sel.into_iter().collect()), &want, Hint::Exact, d + 1, &[0, 1, 3, 8], plain_item),
                1 => {
                    // over a decoder
                    let vals: Vec<u64> = (0..n as u64).collect();
                    let data = bitpack(&vals, 6);
                    let want: Vec<u32> = want.iter().map(|x| *x as u32).collect();
                    let it = SliceFilteredIter::new(bitpacked::Decoder::<u32>::try_new(&data, 6, n)?, sel.into_iter().collect());
                    walk_cloned(it, &want, Hint::Exact, d + 1, &[0, 1, 3, 8], plain_item)
                }
                _ => {
                    let it = DynIter::new(SliceFilteredIter::new(0..n, sel.into_iter().collect()));
                    walk(it, &want, Hint::Exact, d + 1, &[0, 1, 3, 8], plain_item)
                }
            }
        }),
        // more items, and longer runs, than 16 bits can count
        space("long sequences", move || {
            let far = [0, 32_767, 65_535, 69_998];
            let brief = |mut f: Fail| {
                f.msg.truncate(400);
                f
            };
            let order = flag();
            let runs = |bits: usize| {
                let mut r = vec![Run::Rle(1, 70_000), Run::Packed((0..72_000).map(|i| mix(i, bits)).collect()), Run::Rle(0, 66_000)];
                if order {
                    r.reverse();
                }
                r
            };
            let r = match choose(6) {
                0 => {
                    let bits = pick(&[1usize, 3, 17]);
                    let runs = runs(bits);
                    let data = hybrid_encode(&runs, bits);
                    let want: Vec<u32> = runs.iter().flat_map(|r| r.values()).map(|x| x as u32).collect();
                    walk(HybridRleDecoder::try_new(&data, bits as u32, want.len())?, &want, Hint::Exact, d - 1, &far, ok_item)
                }
                which @ (1 | 2) => {
                    let runs = runs(1);
                    let data = hybrid_encode(&runs, 1);
                    let want: Vec<bool> = runs.iter().flat_map(|r| r.values()).map(|x| x == 1).collect();
                    let it = HybridRleDecoderIter::new(HybridRleIter::new(hybrid_rle::Decoder::new(&data, 1), want.len()));
                    if which == 1 {
                        walk(it, &want, Hint::Exact, d - 1, &far, ok_item)
                    } else {
                        let mut k = 0;
                        let want: Vec<Option<usize>> = want
                            .iter()
                            .map(|x| {
                                x.then(|| {
                                    k += 1;
                                    k - 1
                                })
                            })
                            .collect();
                        walk(OptionalValues::new(it, 0..k), &want, Hint::Exact, d - 1, &far, ok_item)
                    }
                }
                3 => {
                    let n = 200_000;
                    let sel = vec![Interval::new(1, 2), Interval::new(5, 68_000), Interval::new(140_000, 1), Interval::new(150_000, 50_000)];
                    let want: Vec<usize> = denote(&sel, n).iter().enumerate().filter(|(_, m)| **m).map(|(i, _)| i).collect();
                    walk_cloned(SliceFilteredIter::new(0..n, sel.into_iter().collect()), &want, Hint::Exact, d - 1, &far, plain_item)
                }
                4 => {
                    let vals: Vec<i64> = (0..70_001).map(|i| mix(i, 9) as i64).collect();
                    let data = delta_encode(&vals, 256, 8, &[]);
                    walk(delta_bitpacked::Decoder::try_new(&data)?, &vals, Hint::Exact, d - 1, &far, ok_item)
                }
                _ => {
                    let want: Vec<u32> = (0..70_001).map(|i| mix(i, 17) as u32).collect();
                    let data = bitpack(&want.iter().map(|x| *x as u64).collect::<Vec<_>>(), 17);
                    walk_cloned(bitpacked::Decoder::<u32>::try_new(&data, 17, want.len())?, &want, Hint::Exact, d - 1, &far, plain_item)
                }
            };
            r.map_err(brief)
        }),
        space("filtered runs", move || {
            // the number of rows that remain, and copies, at every point of a filtered iteration by runs
            let runs = level_runs(if t { 4 } else { 3 });
            let n: usize = runs.iter().map(|r| r.values().len()).sum();
            let data = hybrid_encode(&runs, 1);
            let levels: Vec<bool> = runs.iter().flat_map(|r| r.values()).map(|x| x == 1).collect();
            let sel = selection(n);
            let mask = denote(&sel, n);
            let want: Vec<bool> = levels.iter().zip(&mask).filter(|(_, m)| **m).map(|(x, _)| *x).collect();
            let mut it = FilteredHybridRleDecoderIter::new(HybridRleIter::new(hybrid_rle::Decoder::new(&data, 1), n), sel.iter().copied().collect());
            let mut at = 0;
            let mut copy = None;
            let stop = choose(5);
            let mut k = 0;
            let step = |r: FilteredHybridEncoded, at: usize| -> Res<usize> {
                let xs: Vec<bool> = match r {
                    FilteredHybridEncoded::Bitmap { values, offset, length } => BitmapIter::new(values, offset, length).collect(),
                    FilteredHybridEncoded::Repeated { is_set, length } => vec![is_set; length],
                    FilteredHybridEncoded::Skipped(_) => vec![],
                };
                ensure!(want[at..].starts_with(&xs), "item", "{r:?} at {at} of {want:?}");
                same!((r.len(), r.is_empty()), (xs.len(), xs.is_empty()), "size-hint", "length of {r:?}");
                Ok(at + xs.len())
            };
            loop {
                same!((it.len(), it.is_empty()), (want.len() - at, want.len() == at), "size-hint", "rows left after {at} of {}", want.len());
                if k == stop {
                    copy = Some((it.clone(), at));
                }
                let Some(r) = guard("next", || it.next())? else { break };
                at = step(r?, at)?;
                k += 1;
                ensure!(k < 10_000, "endless", "runs {runs:?} selection {sel:?}");
            }
            same!(at, want.len(), "item", "rows of runs {runs:?} selection {sel:?}");
            ensure!(guard("next", || it.next())?.is_none(), "item", "a run past the end");
            if let Some((c, mut at)) = copy {
                for r in c {
                    at = step(r?, at)?;
                }
                same!(at, want.len(), "item", "rows of a copy");
            }
            visit(&(&runs, sel.len()));
            Ok(())
        }),
        space("delta-encoded integers and lengths", move || match choose(3) {
            0 => {
                let n = pick(&[0usize, 1, 2, 32, 33, 34, 128, 129, 130, 260]);
                let vals: Vec<i64> = (0..n).map(|i| mix(i, 64) as i64 >> (i % 50)).collect();
                let (block, minis) = pick(&[(128, 4), (128, 1), (256, 32)]);
                let data = delta_encode(&vals, block, minis, &[]);
                let it = guard("delta decoder", || delta_bitpacked::Decoder::try_new(&data))??;
                walk(it, &vals, Hint::Exact, d, &[0, 1, 30, 31, 32, 126, 127, 128], ok_item)
            }
            1 => {
                let items = words(pick(&[0usize, 1, 2, 33, 34, 130]));
                let mut data = vec![];
                delta_length_byte_array::encode(items.iter(), &mut data);
                let want: Vec<i32> = items.iter().map(|x| x.len() as i32).collect();
                let mut it = guard("delta-length decoder", || delta_length_byte_array::Decoder::try_new(&data))??;
                // the values follow the lengths, however these were consumed
                let mut w = Walk::new(&want, Hint::Bounds);
                w.steps(&mut it, d, &[0, 1, 31, 32], &ok_item)?;
                let rest = guard("rest", || it.by_ref().collect::<Result<Vec<_>, _>>())??;
                same!(rest, want[w.at..].to_vec(), "item", "lengths after{}", w.log);
                let all: Vec<u8> = items.concat();
                ensure!(guard("values", || it.values().to_vec())? == all, "item", "values after{}", w.log);
                ensure!(guard("into_values", || it.into_values().to_vec())? == all, "item", "values after{}", w.log);
                Ok(())
            }
            _ => {
                let items = words(pick(&[0usize, 1, 2, 33, 34, 130]));
                let mut data = vec![];
                delta_byte_array::encode(items.iter().map(|x| x.as_slice()), &mut data);
                let mut prev: &[u8] = b"";
                let want: Vec<u32> = items
                    .iter()
                    .map(|x| {
                        let k = prev.iter().zip(x.iter()).take_while(|(a, b)| a == b).count();
                        prev = x;
                        k as u32
                    })
                    .collect();
                let mut it = guard("delta-strings decoder", || delta_byte_array::Decoder::try_new(&data))??;
                let mut w = Walk::new(&want, Hint::Bounds);
                w.steps(&mut it, d, &[0, 1, 31, 32], &ok_item)?;
                let rest = guard("rest", || it.by_ref().collect::<Result<Vec<_>, _>>())??;
                same!(rest, want[w.at..].to_vec(), "item", "prefixes after{}", w.log);
                let mut l = guard("into_lengths", || it.into_lengths())??;
                let lengths = guard("lengths", || l.by_ref().collect::<Result<Vec<_>, _>>())??;
                let suffixes: Vec<Vec<u8>> = items.iter().zip(&want).map(|(x, k)| x[*k as usize..].to_vec()).collect();
                same!(lengths, suffixes.iter().map(|x| x.len() as i32).collect::<Vec<_>>(), "item", "lengths");
                ensure!(guard("values", || l.into_values().to_vec())? == suffixes.concat(), "item", "suffixes after{}", w.log);
                Ok(())
            }
        }),
        space("plain values", move || match choose(3) {
            0 => {
                let items = words(pick(&[0usize, 1, 2, 7, 12]));
                let data = plain(PhysicalType::ByteArray, &items);
                let known = flag();
                let it = BinaryIter::new(&data, known.then(|| items.len()));
                walk(it, &items, if known { Hint::Exact } else { Hint::Bounds }, d + 1, &[0, 1, 2, 6], |x| Ok(x?.to_vec()))
            }
            1 => {
                let size = pick(&[1usize, 3, 16]);
                let n = pick(&[0usize, 1, 2, 9]);
                let data = bytes(size * n, 3);
                let want: Vec<Vec<u8>> = data.chunks(size).map(|x| x.to_vec()).collect();
                walk(FixexBinaryIter::new(&data, size), &want, Hint::Exact, d + 1, &[0, 1, 2, 7], |x| Ok(x.to_vec()))
            }
            _ => {
                // the values of pages of every type
                let ty = pick(&all_types());
                let n = pick(&[0usize, 1, 3, 20]);
                let vals: Vec<V> = (0..n).map(|i| value(ty, i)).collect();
                let dict = flag() && ty != PhysicalType::Boolean;
                let distinct: Vec<V> = {
                    let mut x = vec![];
                    for v in &vals {
                        if !x.contains(v) {
                            x.push(v.clone())
                        }
                    }
                    x
                };
                let l = Layout { v2: flag(), dict: dict.then(|| (distinct.clone(), 5)), level_cut: 0, index_cut: choose(2) };
                let p = page(ty, false, &vals.iter().cloned().map(Some).collect(), &l);
                let desc = descriptor(ty, false);
                let p = data_page(&p, &desc);
                let (_, it) = guard("page state", || state(ty, &p, dict.then(|| &distinct[..])))??;
                walk(it, &vals, Hint::Bounds, d, &[0, 1, 2, 18], ok_item)
            }
        }),
        space("compressors and decompressors", move || {
            let col = some_pages();
            let codec = pick(&[CompressionOptions::Uncompressed, CompressionOptions::Snappy, CompressionOptions::Zstd(None)]);
            let want: Vec<Seen> = col.iter().map(|p| p.seen()).collect();
            let desc = descriptor(PhysicalType::Int32, false);
            let pages = || col.iter().map(|p| Ok(p.page(&desc))).collect::<Vec<Result<Page, Error>>>().into_iter();
            let depth = if t { 5 } else { 4 };
            match choose(4) {
                k @ (0 | 1) => {
                    // compressed pages are compared with those of the same pages compressed one by one
                    let want = pages().map(|p| Ok(format!("{:?}", compress(p?, vec![], codec)?))).collect::<Res<Vec<String>>>()?;
                    let show = |p: &CompressedPage| Ok(format!("{p:?}"));
                    if k == 0 {
                        stream(Compressor::new(pages(), codec, bytes(7, 7)), &want, show, depth)
                    } else {
                        stream(DynStreamingIterator::<CompressedPage, Error>::new(Compressor::new(pages(), codec, vec![])), &want, show, depth)
                    }
                }
                2 => {
                    let c: Vec<Result<CompressedPage, Error>> = pages().map(|p| compress(p?, vec![], codec)).collect();
                    stream(BasicDecompressor::new(c.into_iter(), bytes(9, 9)), &want, |p| Ok(Seen::of(p)), depth)
                }
                _ => {
                    let mut plan = Plan::new(vec![prim("c", PhysicalType::Int32, Required)], vec![vec![col.clone()]]);
                    plan.codec = codec;
                    if !data_only(&col) {
                        return Ok(());
                    }
                    let b = write_file(&plan)?.bytes;
                    let m = read_metadata(&mut Cursor::new(&b))?;
                    let it = get_page_iterator(&m.row_groups[0].columns()[0], Cursor::new(&b), None, bytes(5, 5), usize::MAX)?;
                    stream(Decompressor::new(it, bytes(9, 9)), &want, |p| Ok(Seen::of(p)), depth)
                }
            }
        }),
        space("pages of a file", move || {
            let col = some_pages();
            if !data_only(&col) {
                return Ok(());
            }
            let mut plan = Plan::new(vec![prim("a", PhysicalType::Int32, Required), prim("c", PhysicalType::Int32, Required)], vec![vec![col.clone(), col.clone()]]);
            plan.codec = pick(&[CompressionOptions::Uncompressed, CompressionOptions::Snappy]);
            let want: Vec<Seen> = col.iter().map(|p| p.seen()).collect();
            let b = write_file(&plan)?.bytes;
            let m = read_metadata(&mut Cursor::new(&b))?;
            let c = &m.row_groups[0].columns()[choose(2)];
            let map = |p: Result<CompressedPage, Error>| seen_compressed(p?);
            match choose(3) {
                0 => walk(get_page_iterator(c, Cursor::new(&b), None, bytes(5, 5), usize::MAX)?, &want, Hint::Bounds, d + 1, &[0, 1, 2], map),
                1 => {
                    let locs = read_pages_locations(&mut Cursor::new(&b), m.row_groups[0].columns())?;
                    let rows = m.row_groups[0].num_rows();
                    let i = if std::ptr::eq(c, &m.row_groups[0].columns()[0]) { 0 } else { 1 };
                    let sel = select_pages(&[iv(0, rows)], &locs[i], rows)?;
                    walk(IndexedPageReader::new(Cursor::new(&b), c, sel, bytes(5, 5), bytes(70, 6)), &want, Hint::Bounds, d + 1, &[0, 1, 2], map)
                }
                _ => {
                    // stop anywhere, take the reader and the buffer back, and use them for the next column
                    let mut it = get_page_iterator(c, Cursor::new(&b), None, bytes(5, 5), usize::MAX)?;
                    let k = choose(want.len() + 2);
                    for i in 0..k {
                        let x = guard("next", || it.next())?.map(map).transpose()?;
                        same!(x.as_ref(), want.get(i), "item", "page {i}");
                        if flag() {
                            // a consumer may hand its buffer over at any time
                            it.swap_buffer(&mut bytes(11, 3));
                        }
                    }
                    let (r, buf) = it.into_inner();
                    let c = &m.row_groups[0].columns()[choose(2)];
                    let it = get_page_iterator(c, r, None, buf, usize::MAX)?;
                    walk(it, &want, Hint::Bounds, 1, &[0, 1], map)
                }
            }
        }),
        space("columns of a field", move || {
            // advance after any number of pages of the current column
            let fields = vec![group("g", Required, vec![prim("a", PhysicalType::Int32, Required), prim("b", PhysicalType::Int32, Required), prim("c", PhysicalType::Int32, Required)])];
            let n = 60;
            let v1 = |n: usize, k: usize| Pg::V1 { n, rows: n, enc: 0, stats: None, body: bytes(4 * n, k) };
            let cols: Group = vec![vec![v1(n, 1)], vec![v1(n - 1, 2), v1(1, 3)], vec![Pg::Dict { n: 3, sorted: false, body: bytes(12, 9) }, v1(1, 4), v1(n - 2, 5), v1(1, 6)]];
            let mut plan = Plan::new(fields, vec![cols.clone()]);
            plan.codec = pick(&[CompressionOptions::Uncompressed, CompressionOptions::Snappy]);
            let b = write_file(&plan)?.bytes;
            let m = read_metadata(&mut Cursor::new(&b))?;
            let mut it = Some(get_column_iterator(Cursor::new(&b), &m.row_groups[0], "g", None, bytes(4, 4), usize::MAX));
            let mut read = vec![];
            for (i, col) in cols.iter().enumerate() {
                it = match guard("advance", || it.take().unwrap().advance())?? {
                    State::Some(x) => Some(x),
                    State::Finished(_) => return fail("item", format!("finished after {i} columns")),
                };
                let k = choose(col.len() + 2);
                read.push(k);
                for j in 0..k {
                    // `get` is repeatable and does not lose the position
                    let (pages, meta) = it.as_mut().unwrap().get().ok_or_else(|| Fail { key: "item".into(), msg: format!("no column {i}") })?;
                    same!(meta.descriptor().path_in_schema.clone(), vec!["g".to_string(), ["a", "b", "c"][i].to_string()], "item", "column {i}");
                    let x = guard("next", || pages.next())?.map(|p| seen_compressed(p?)).transpose()?;
                    same!(x, col.get(j).map(|p| p.seen()), "item", "page {j} of column {i} after reading {read:?}");
                }
            }
            visit(&read);
            ensure!(matches!(guard("advance", || it.take().unwrap().advance())??, State::Finished(_)), "item", "a column past the last, after {read:?}");
            Ok(())
        }),
    ];
    Def {
        spaces,
        rule: "model: a position in the sequence the input denotes; every history of next / nth / take / clone / size queries of bounded length, closed by each of drain, fold, count, last, step_by, skip, over every iterator and streaming iterator of the crate",
        assumptions: vec!["the inputs are well formed (malformed ones are C17's)"],
    }
}
/// one run of levels against the levels it stands for
fn check_run(r: HybridEncoded, levels: &[bool], at: usize) -> Res<usize> {
    let xs: Vec<bool> = match r {
        HybridEncoded::Bitmap(b, n) => BitmapIter::new(b, 0, n).collect(),
        HybridEncoded::Repeated(v, n) => vec![v; n],
    };
    same!((r.len(), r.is_empty()), (xs.len(), xs.is_empty()), "size-hint", "length of {r:?}");
    ensure!(levels[at..].starts_with(&xs), "item", "{r:?} at {at} of {levels:?}");
    Ok(at + xs.len())
}
