use super::Def;
use crate::engine::*;
use crate::model::*;
use parquet2::encoding::hybrid_rle::{self, BitmapIter, HybridRleDecoder};
use parquet2::encoding::{bitpacked, delta_bitpacked, delta_byte_array, delta_length_byte_array};
use parquet2::encoding::{plain_byte_array, uleb128, zigzag_leb128};

fn mask(bits: usize) -> u64 {
    if bits >= 64 { u64::MAX } else { (1 << bits) - 1 }
}
/// a position-sensitive value of `bits` bits
fn mix(i: usize, bits: usize) -> u64 {
    (i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(17) & mask(bits)
}

// ------------------------------------------------------------------ C09
fn run_of(bits: usize, k: usize, big: bool) -> Run {
    let m = mask(bits);
    let lens: &[usize] = if big { &[1, 2, 7, 8, 9, 31, 32, 33, 63, 64, 65, 300, 8191, 8192] } else { &[1, 2, 3, 8, 9, 64] };
    match choose(2) {
        0 => Run::Rle(pick(&[0, 1 & m, m, mix(k, bits)]), pick(lens)),
        _ => {
            let groups = pick(if big { &[1usize, 2, 3, 4, 5, 8, 63, 64, 65] } else { &[1usize, 2, 5] });
            let kind = choose(3);
            Run::Packed(
                (0..groups * 8)
                    .map(|i| match kind {
                        0 => mix(i + 31 * k, bits),
                        1 => m,
                        _ => if i % 8 == k % 8 { m } else { 0 },
                    })
                    .collect(),
            )
        }
    }
}
/// the number of values asked of the stream: all of them, or a prefix ending inside the last run
fn ask(runs: &[Run]) -> usize {
    let total: usize = runs.iter().map(|r| r.values().len()).sum();
    let last = runs.last().map(|r| r.values().len()).unwrap_or(0);
    match choose(4) {
        0 => total,
        1 => total.saturating_sub(1),
        2 => total - last + last.min(1),
        _ => total - last / 2,
    }
}
fn check_hybrid(runs: &[Run], bits: usize, n: usize) -> Res {
    let bytes = hybrid_encode(runs, bits);
    let want: Vec<u32> = runs.iter().flat_map(|r| r.values()).take(n).map(|x| x as u32).collect();
    visit(&(bits, n, runs));
    sample(|| format!("bit width {bits}, runs {runs:?}, {n} values asked"));
    let mut d = guard("hybrid decoder", || HybridRleDecoder::try_new(&bytes, bits as u32, n))?
        .map_err(|e| Fail { key: "hybrid-decode".into(), msg: format!("well-formed stream rejected: {e}; bits {bits} runs {runs:?}") })?;
    let mut got = vec![];
    loop {
        same!(d.size_hint(), (n - got.len(), Some(n - got.len())), "hybrid-len", "remaining length after {} values, bits {bits}, runs {runs:?}", got.len());
        match guard("hybrid decoder", || d.next())? {
            None => break,
            Some(Ok(v)) => got.push(v),
            Some(Err(e)) => return fail("hybrid-decode", format!("error {e} on a well-formed stream; bits {bits} runs {runs:?}")),
        }
        ensure!(got.len() <= n, "hybrid-decode", "more than {n} values, bits {bits} runs {runs:?}");
    }
    ensure!(got == want, "hybrid-decode", "bits {bits} runs {runs:?} n {n}: got {got:?} expected {want:?}");
    // cloning mid-way does not disturb the decoder (the decoder is a plain value)
    let mut d = HybridRleDecoder::try_new(&bytes, bits as u32, n)?;
    let k = n / 2;
    let _ = (&mut d).take(k).count();
    let c = d.clone().collect::<Result<Vec<_>, _>>()?;
    ensure!(c == want[k.min(n)..], "hybrid-clone", "clone after {k}: {c:?} expected {:?}", &want[k..]);
    Ok(())
}
fn check_hybrid_large(runs: &[Run], bits: usize) -> Res {
    let label: Vec<(bool, usize)> = runs.iter().map(|r| (matches!(r, Run::Rle(..)), r.values().len())).collect();
    visit(&(bits, &label));
    sample(|| format!("bit width {bits}, runs (repeated?, length) {label:?}"));
    let bytes = hybrid_encode(runs, bits);
    let want: Vec<u32> = runs.iter().flat_map(|r| r.values()).map(|x| x as u32).collect();
    let got = HybridRleDecoder::try_new(&bytes, bits as u32, want.len())?.collect::<Result<Vec<_>, _>>()?;
    let first = got.iter().zip(&want).position(|(a, b)| a != b);
    ensure!(got == want, "hybrid-decode", "bits {bits} runs {label:?}: {} values of {}, first difference at {first:?}", got.len(), want.len());
    if bits == 1 {
        use parquet2::deserialize::{HybridEncoded, HybridRleIter};
        let mut got = vec![];
        for r in HybridRleIter::new(hybrid_rle::Decoder::new(&bytes, 1), want.len()) {
            match r? {
                HybridEncoded::Bitmap(b, l) => got.extend((0..l).map(|i| (b[i / 8] >> (i % 8) & 1) as u32)),
                HybridEncoded::Repeated(v, l) => got.extend(std::iter::repeat(v as u32).take(l)),
            }
        }
        ensure!(got == want, "runs", "runs {label:?}");
    }
    Ok(())
}
fn bool_runs(max: usize) -> Vec<Run> {
    seq(1, max, |k| match choose(3) {
        0 => Run::Rle(0, pick(&[1, 2, 8, 70])),
        1 => Run::Rle(1, pick(&[0, 1, 3, 8, 70])),
        _ => {
            let g = choose(3);
            let b = pick(&[0x00u8, 0xff, 0b1010_0110, 0x01, 0x80]);
            Run::Packed((0..8 * g).map(|i| (b.rotate_left((i / 8) as u32 + k as u32) >> (i % 8) & 1) as u64).collect())
        }
    })
}
pub fn hybrid(thorough: bool) -> Def {
    let t = thorough;
    let spaces = vec![
        space("decode/all-widths", move || {
            let bits = 1 + choose(32);
            let runs = seq(1, if t { 3 } else { 2 }, |k| run_of(bits, k, false));
            let n = ask(&runs);
            check_hybrid(&runs, bits, n)
        }),
        space("decode/long-runs", move || {
            let bits = pick(&[1usize, 2, 3, 5, 7, 8, 9, 12, 16, 17, 23, 24, 25, 31, 32]);
            let runs = seq(1, if t { 2 } else { 1 }, |k| run_of(bits, k, true));
            let n = ask(&runs);
            check_hybrid(&runs, bits, n)
        }),
        space("decode/many-runs", move || {
            let bits = pick(&[1usize, 2, 3, 8, 10]);
            let m = mask(bits);
            let runs: Vec<Run> = seq(3, if t { 7 } else { 5 }, |k| match choose(4) {
                0 => Run::Rle(m, 1),
                1 => Run::Rle(k as u64 & m, 2),
                2 => Run::Packed((0..8).map(|i| mix(i + k, bits)).collect()),
                _ => Run::Packed((0..40).map(|i| mix(i + k, bits)).collect()),
            });
            let n = ask(&runs);
            check_hybrid(&runs, bits, n)
        }),
        space("decode/empty-runs", move || {
            // runs of no values, anywhere
            let bits = pick(&[1usize, 2, 3, 8, 9, 17, 31, 32]);
            let runs = seq(1, if t { 6 } else { 5 }, |k| match choose(5) {
                0 => Run::Rle(mask(bits), 0),
                1 => Run::Packed(vec![]),
                2 => Run::Rle(mix(k, bits), 1),
                3 => Run::Rle(mix(k, bits), 3),
                _ => Run::Packed((0..8).map(|i| mix(i + k, bits)).collect()),
            });
            let total: usize = runs.iter().map(|r| r.values().len()).sum();
            let n = total - choose(3).min(total);
            check_hybrid(&runs, bits, n)
        }),
        space("width-zero", move || {
            let n = choose(70);
            let data: Vec<u8> = pick(&[vec![], vec![3], vec![8], vec![2, 0]]);
            visit(&(n, &data));
            let got = HybridRleDecoder::try_new(&data, 0, n)?.collect::<Result<Vec<_>, _>>()?;
            same!(got, vec![0u32; n], "hybrid-width0", "zero-width stream");
            Ok(())
        }),
        // ---- encoders
        space("encode-u32/positions", move || {
            let bits = 1 + choose(32);
            let n = choose(if t { 140 } else { 74 });
            let kind = choose(4);
            let vals: Vec<u32> = (0..n)
                .map(|i| match kind {
                    0 => mix(i, bits) as u32,
                    1 => mask(bits) as u32,
                    2 => if i + 1 == n { mask(bits) as u32 } else { 0 },
                    _ => if i % 3 == 0 { 1u32 << (bits - 1) } else { 0 },
                })
                .collect();
            let prefix = pick(&[vec![], vec![0xAAu8, 0x55, 0xff]]);
            visit(&(bits, &vals));
            sample(|| format!("bits {bits}, values {vals:?}"));
            let mut out = prefix.clone();
            guard("encode_u32", || hybrid_rle::encode_u32(&mut out, vals.iter().copied(), bits as u32))??;
            ensure!(out.starts_with(&prefix), "hybrid-encode", "existing bytes were overwritten");
            let body = &out[prefix.len()..];
            let want: Vec<u64> = vals.iter().map(|x| *x as u64).collect();
            ensure!(hybrid_decode(body, bits, n) == Some(want), "hybrid-encode", "bits {bits} {vals:?} encoded as {body:?}");
            let back = HybridRleDecoder::try_new(body, bits as u32, n)?.collect::<Result<Vec<_>, _>>()?;
            ensure!(back == vals, "hybrid-roundtrip", "bits {bits} {vals:?} decoded as {back:?}");
            Ok(())
        }),
        space("encode-u32/all-sequences", move || {
            let bits = 1 + choose(2);
            let vals: Vec<u32> = if bits == 1 { seq(0, if t { 16 } else { 12 }, |_| choose(2) as u32) } else { seq(0, if t { 9 } else { 7 }, |_| choose(4) as u32) };
            visit(&(bits, &vals));
            let mut out = vec![];
            hybrid_rle::encode_u32(&mut out, vals.iter().copied(), bits as u32)?;
            let want: Vec<u64> = vals.iter().map(|x| *x as u64).collect();
            ensure!(hybrid_decode(&out, bits, vals.len()) == Some(want), "hybrid-encode", "bits {bits} {vals:?} encoded as {out:?}");
            let back = HybridRleDecoder::try_new(&out, bits as u32, vals.len())?.collect::<Result<Vec<_>, _>>()?;
            ensure!(back == vals, "hybrid-roundtrip", "bits {bits} {vals:?} decoded as {back:?}");
            Ok(())
        }),
        space("encode-bool/all-sequences", move || {
            let vals: Vec<bool> = seq(0, if t { 18 } else { 13 }, |_| flag());
            check_bools(&vals)
        }),
        space("encode-bool/long", move || {
            let n = choose(if t { 1200 } else { 560 });
            let p = pick(&[1usize, 2, 7, 8, 9, 1000]);
            let vals: Vec<bool> = (0..n).map(|i| i % p == p - 1 || i + 1 == n).collect();
            check_bools(&vals)
        }),
        space("bitmap-iter", move || {
            let bytes: Vec<u8> = seq(0, 3, |_| pick(&[0x00u8, 0xff, 0b1010_0110, 0x81]));
            let offset = choose(bytes.len() * 8 + 1);
            let len = choose(bytes.len() * 8 - offset + 1);
            visit(&(&bytes, offset, len));
            let want: Vec<bool> = (offset..offset + len).map(|i| bytes[i / 8] >> (i % 8) & 1 == 1).collect();
            let mut it = BitmapIter::new(&bytes, offset, len);
            let mut got = vec![];
            loop {
                same!(it.size_hint(), (len - got.len(), Some(len - got.len())), "bitmap-len", "remaining");
                match it.next() { Some(v) => got.push(v), None => break }
            }
            ensure!(got == want, "bitmap-iter", "{bytes:?} offset {offset} len {len}: {got:?} expected {want:?}");
            Ok(())
        }),
        // ---- run-level views used for definition levels
        space("validity-runs", move || {
            use parquet2::deserialize::{HybridDecoderBitmapIter, HybridEncoded, HybridRleDecoderIter, HybridRleIter};
            let runs = bool_runs(if t { 5 } else { 4 });
            let n = ask(&runs);
            let bytes = hybrid_encode(&runs, 1);
            let want: Vec<bool> = runs.iter().flat_map(|r| r.values()).take(n).map(|x| x == 1).collect();
            visit(&(n, &runs));
            sample(|| format!("validity runs {runs:?}, {n} values"));
            let mut it: HybridDecoderBitmapIter = HybridRleIter::new(hybrid_rle::Decoder::new(&bytes, 1), n);
            let mut got: Vec<bool> = vec![];
            loop {
                same!(it.len(), n - got.len(), "runs-len", "remaining elements, runs {runs:?}");
                same!(it.is_empty(), n == got.len(), "runs-len", "is_empty, runs {runs:?}");
                let Some(r) = it.next() else { break };
                let r = r?;
                let before = got.len();
                match r {
                    HybridEncoded::Bitmap(b, l) => got.extend((0..l).map(|i| b[i / 8] >> (i % 8) & 1 == 1)),
                    HybridEncoded::Repeated(v, l) => got.extend(std::iter::repeat(v).take(l)),
                }
                same!(r.len(), got.len() - before, "runs-len", "length of a run");
            }
            ensure!(got == want, "runs", "{runs:?} n {n}: {got:?} expected {want:?}");
            // flattened to booleans
            let it: HybridDecoderBitmapIter = HybridRleIter::new(hybrid_rle::Decoder::new(&bytes, 1), n);
            let mut it = HybridRleDecoderIter::new(it);
            let mut got = vec![];
            loop {
                same!(it.size_hint(), (n - got.len(), Some(n - got.len())), "bool-iter-len", "size hint after {} of {n} items of runs {runs:?}", got.len());
                match it.next() { Some(v) => got.push(v?), None => break }
                ensure!(got.len() <= n, "bool-iter", "too many");
            }
            ensure!(got == want, "bool-iter", "runs {runs:?} n {n}: {got:?} expected {want:?}");
            Ok(())
        }),
        space("large", move || {
            // runs whose lengths need 16, 17, 32 or more bits
            const N: [usize; 12] = [8191, 8192, 16384, 32767, 32768, 65535, 65536, 65537, 131077, 262144, 524287, 524296];
            let bits = pick(&[1usize, 2, 8, 9, 17, 32]);
            let m = mask(bits);
            match choose(4) {
                0 => {
                    // a long repetition between two short ones
                    let n = match choose(2) { 0 => pick(&N), _ => if t { 1 << (13 + choose(10)) } else { 1_000_003 } };
                    check_hybrid_large(&[Run::Rle(1 & m, 3), Run::Rle(m, n), Run::Rle(0, 2)], bits)
                }
                1 => {
                    let n = pick(&N) / 8 * 8;
                    check_hybrid_large(&[Run::Rle(m, 1), Run::Packed((0..n).map(|i| mix(i, bits)).collect()), Run::Rle(0, 2)], bits)
                }
                2 => {
                    // a repetition far longer than what is asked
                    let n = 1u64 << (15 + choose(47));
                    let n = match choose(3) { 0 => n - 1, 1 => n, _ => n + 1 };
                    visit(&(bits, n));
                    let mut b = uleb(n << 1);
                    b.extend(&m.to_le_bytes()[..(bits + 7) / 8]);
                    let ask = 32_000;
                    let got = HybridRleDecoder::try_new(&b, bits as u32, ask)?.collect::<Result<Vec<_>, _>>()?;
                    ensure!(got == vec![m as u32; ask], "hybrid-decode", "the first {ask} values of {n} repetitions, bits {bits}");
                    Ok(())
                }
                _ => {
                    let n = pick(&N) + choose(2);
                    visit(&(bits, n));
                    let vals: Vec<u32> = (0..n).map(|i| mix(i, bits) as u32).collect();
                    let mut out = vec![];
                    hybrid_rle::encode_u32(&mut out, vals.iter().copied(), bits as u32)?;
                    let want: Vec<u64> = vals.iter().map(|x| *x as u64).collect();
                    ensure!(hybrid_decode(&out, bits, n) == Some(want.clone()), "hybrid-encode", "{n} values of {bits} bits");
                    let back = HybridRleDecoder::try_new(&out, bits as u32, n)?.collect::<Result<Vec<_>, _>>()?;
                    ensure!(back == vals, "hybrid-roundtrip", "{n} values of {bits} bits");
                    if bits == 1 {
                        let mut out = vec![];
                        hybrid_rle::encode_bool(&mut out, vals.iter().map(|x| *x == 1))?;
                        ensure!(hybrid_decode(&out, 1, n) == Some(want.clone()), "encode-bool", "{n} values");
                        let mut out = vec![];
                        hybrid_rle::bitpacked_encode(&mut out, vals.iter().map(|x| *x == 1))?;
                        ensure!(out == bitpack(&want, 1), "bitpacked-bool", "{n} values");
                        ensure!(BitmapIter::new(&out, 3, n - 3).eq(vals[3..].iter().map(|x| *x == 1)), "bitmap-iter", "{n} values");
                    }
                    Ok(())
                }
            }
        }),
        space("level-width", move || {
            let m = choose(32768);
            visit(&m);
            let mut want = 0;
            while (1u64 << want) <= m as u64 { want += 1 }
            same!(parquet2::read::levels::get_bit_width(m as i16), want as u32, "level-width", "bits for levels up to {m}");
            Ok(())
        }),
    ];
    Def {
        spaces,
        rule: "every sequence of runs (kind, length class, value class) up to the stated count, for every bit width, every requested length class; every boolean / small-integer sequence up to the stated length. Each is decoded/encoded by the real code and compared with an independent model of the hybrid encoding.",
        assumptions: vec!["run lengths are drawn from boundary classes (1, 2, 7..9, 31..33, 63..65, 300, 8191, 8192), not all lengths"],
    }
}
fn check_bools(vals: &[bool]) -> Res {
    visit(&vals);
    sample(|| format!("{vals:?}"));
    let mut out = vec![0x5a];
    hybrid_rle::encode_bool(&mut out, vals.iter().copied())?;
    same!(out[0], 0x5a, "encode-bool", "existing byte");
    let want: Vec<u64> = vals.iter().map(|x| *x as u64).collect();
    ensure!(hybrid_decode(&out[1..], 1, vals.len()) == Some(want.clone()), "encode-bool", "{vals:?} encoded as {out:?}");
    let mut out = vec![];
    hybrid_rle::bitpacked_encode(&mut out, vals.iter().copied())?;
    same!(out, bitpack(&want, 1), "bitpacked-bool", "{vals:?}");
    let got: Vec<bool> = BitmapIter::new(&out, 0, vals.len()).collect();
    same!(got, vals.to_vec(), "bitpacked-bool", "decoded");
    Ok(())
}

// ------------------------------------------------------------------ C10
fn bp_case<T>(width: usize, block: usize, t: bool) -> Res
where
    T: bitpacked::Unpackable + TryFrom<u64> + Into<u64> + std::fmt::Debug + PartialEq,
    <T as TryFrom<u64>>::Error: std::fmt::Debug,
{
    let bits = 1 + choose(width);
    let len = match choose(3) {
        0 => choose(block + 2),
        1 => pick(&[2 * block - 1, 2 * block, 2 * block + 1, 3 * block + block / 2]),
        _ => if t { 4 * block + choose(block) } else { 3 * block },
    };
    let kind = choose(3 + bits.min(if t { 64 } else { 8 }));
    let hot = if len == 0 || kind < 3 { 0 } else { choose(len.min(block + 4)) };
    let vals: Vec<u64> = (0..len)
        .map(|i| match kind {
            0 => mix(i, bits),
            1 => mask(bits),
            2 => if i % 2 == 0 { mask(bits) } else { 0 },
            k => {
                let b = if t { k - 3 } else { (k - 3) * bits / bits.min(8) };
                if i == hot { 1u64 << b.min(bits - 1) } else { 0 }
            }
        })
        .collect();
    visit(&(width, bits, &vals));
    sample(|| format!("u{width} with {bits} bits: {vals:?}"));
    let input: Vec<T> = vals.iter().map(|v| T::try_from(*v).unwrap()).collect();
    let want = bitpack(&vals, bits);
    // the buffer is over-allocated to whole packs, as every caller in the crate does
    let mut packed = vec![0u8; ((len + block - 1) / block) * block * bits / 8 + 8];
    guard("bitpacked::encode", || bitpacked::encode(&input, bits, &mut packed))?;
    ensure!(packed[..want.len()] == want[..], "bitpack-encode", "u{width} bits {bits} {vals:?}: {:?} expected {want:?}", &packed[..want.len()]);
    if len <= block {
        let mut packed = vec![0u8; block * width / 8];
        guard("bitpacked::encode_pack", || bitpacked::encode_pack(&input, bits, &mut packed))?;
        ensure!(packed[..want.len()] == want[..], "bitpack-encode-pack", "u{width} bits {bits} {vals:?}");
    }
    // decoding exactly the needed bytes, and with trailing bytes that are not ours
    for extra in [0usize, 1, 9] {
        let mut data = want.clone();
        data.extend(std::iter::repeat(0xA7).take(extra));
        let mut d = bitpacked::Decoder::<T>::try_new(&data, bits, len)
            .map_err(|e| Fail { key: "bitpack-decode".into(), msg: format!("u{width} bits {bits} len {len} rejected: {e}") })?;
        let mut got: Vec<u64> = vec![];
        loop {
            same!(d.size_hint(), (len - got.len(), Some(len - got.len())), "bitpack-len", "u{width} bits {bits} len {len}");
            match d.next() { Some(v) => got.push(v.into()), None => break }
        }
        ensure!(got == vals, "bitpack-decode", "u{width} bits {bits} extra {extra}: {got:?} expected {vals:?}");
    }
    // one byte short is reported, never read past the end
    if !want.is_empty() {
        let short = &want[..want.len() - 1];
        ensure!(short.len() * 8 >= len * bits || bitpacked::Decoder::<T>::try_new(short, bits, len).is_err(), "bitpack-short", "u{width} bits {bits} len {len}: truncated data accepted");
    }
    Ok(())
}
pub fn bitpacking(thorough: bool) -> Def {
    let t = thorough;
    let spaces = vec![
        space("u8", move || bp_case::<u8>(8, 8, t)),
        space("u16", move || bp_case::<u16>(16, 16, t)),
        space("u32", move || bp_case::<u32>(32, 32, t)),
        space("u64", move || bp_case::<u64>(64, 64, t)),
        space("large", move || {
            let bits = pick(&[1usize, 3, 7, 8]);
            let n = pick(&[65535usize, 65536, 65537, 131_072, 262_145, 600_000]);
            visit(&(bits, n));
            let vals: Vec<u64> = (0..n).map(|i| mix(i, bits)).collect();
            let want = bitpack(&vals, bits);
            fn one<T: bitpacked::Unpackable + TryFrom<u64> + Into<u64>>(vals: &[u64], want: &[u8], bits: usize) -> Res {
                let input: Vec<T> = vals.iter().map(|v| T::try_from(*v).ok().unwrap()).collect();
                let mut packed = vec![0u8; (vals.len() + 64) / 64 * 64 * bits / 8 + 8];
                bitpacked::encode(&input, bits, &mut packed);
                ensure!(packed[..want.len()] == *want, "bitpack-encode", "{} values of {bits} bits", vals.len());
                let got: Vec<u64> = bitpacked::Decoder::<T>::try_new(want, bits, vals.len())?.map(|x| x.into()).collect();
                ensure!(got == vals, "bitpack-decode", "{} values of {bits} bits", vals.len());
                Ok(())
            }
            match choose(4) {
                0 => one::<u8>(&vals, &want, bits),
                1 => one::<u16>(&vals, &want, bits),
                2 => one::<u32>(&vals, &want, bits),
                _ => one::<u64>(&vals, &want, bits),
            }
        }),
        space("all-u8-packs", move || {
            // every content of up to 3 packed bytes, every width
            let bits = 1 + choose(8);
            let n = 1 + choose(2);
            let data: Vec<u8> = (0..n).map(|_| choose(256) as u8).collect();
            let len = choose(n * 8 / bits + 1);
            visit(&(bits, &data, len));
            let got: Vec<u64> = bitpacked::Decoder::<u8>::try_new(&data, bits, len)?.map(|x| x as u64).collect();
            same!(got, bitunpack(&data, bits, len), "bitpack-decode", "bytes {data:?} bits {bits}");
            let got: Vec<u64> = bitpacked::Decoder::<u32>::try_new(&data, bits, len)?.map(|x| x as u64).collect();
            same!(got, bitunpack(&data, bits, len), "bitpack-decode", "u32 bytes {data:?} bits {bits}");
            Ok(())
        }),
    ];
    Def {
        spaces,
        rule: "for each integer type and each bit width: every length up to one block plus boundary lengths up to four blocks, and as contents a position-dependent pattern, all ones, alternating, and every single-bit (one-hot) array; packed bytes and decoded values compared with a bit-by-bit model",
        assumptions: vec!["packing is bitwise-linear, so one-hot arrays determine the bit permutation"],
    }
}

// ------------------------------------------------------------------ C11
fn delta_impl(bytes: &[u8], n: usize, what: &str) -> Res<(Vec<i64>, usize)> {
    let mut d = guard("delta decoder", || delta_bitpacked::Decoder::try_new(bytes))?
        .map_err(|e| Fail { key: "delta-decode".into(), msg: format!("{what}: rejected: {e}") })?;
    let mut out = vec![];
    loop {
        same!(d.size_hint(), (n - out.len(), Some(n - out.len())), "delta-len", "{what}");
        match guard("delta decoder", || d.next())? {
            Some(Ok(v)) => out.push(v),
            Some(Err(e)) => return fail("delta-decode", format!("{what}: error {e}")),
            None => break,
        }
        ensure!(out.len() <= n, "delta-decode", "{what}: too many values");
    }
    Ok((out, d.consumed_bytes()))
}
fn delta_roundtrip(vals: &[i64], label: &str) -> Res {
    visit(&vals);
    sample(|| format!("{label}: {} values {:?}", vals.len(), &vals[..vals.len().min(12)]));
    let mut buf = vec![1, 2, 3];
    guard("delta encode", || delta_bitpacked::encode(vals.iter().copied(), &mut buf))?;
    same!(&buf[..3], &[1u8, 2, 3], "delta-encode", "existing bytes");
    let body = buf[3..].to_vec();
    let r = delta_decode(&body);
    ensure!(r == Some((vals.to_vec(), body.len())), "delta-encode", "{label}: {vals:?} encoded as {body:?}, which the specification reads as {r:?}");
    for tail in [0usize, 1, 40] {
        let mut data = body.clone();
        data.extend(std::iter::repeat(0xC3u8).take(tail));
        let (got, used) = delta_impl(&data, vals.len(), label)?;
        ensure!(got == vals, "delta-roundtrip", "{label}: {vals:?} came back as {got:?}");
        same!(used, body.len(), "delta-consumed", "{label}: bytes consumed with {tail} trailing bytes, {} values", vals.len());
    }
    Ok(())
}
const EXT: [i64; 12] = [0, 1, -1, 2, 127, -128, 1 << 31, -(1 << 31) - 1, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1];
pub fn delta(thorough: bool) -> Def {
    let t = thorough;
    let spaces = vec![
        space("roundtrip/short", move || {
            let v = seq(0, if t { 5 } else { 4 }, |_| pick(&EXT));
            delta_roundtrip(&v, "short")
        }),
        space("roundtrip/outlier", move || {
            // a constant-step sequence with one outlier at every position, around block borders
            let n = pick(&[1usize, 2, 31, 32, 33, 127, 128, 129, 130, 255, 256, 257, 258, 385, 386]);
            let step = pick(&[0i64, 1, -3]);
            let at = choose(n);
            let out = pick(&[1i64, -1, 255, 1 << 40, i64::MAX, i64::MIN]);
            if !t && at % 8 > 1 && at + 2 < n && at > 2 { return Ok(()) }
            let v: Vec<i64> = (0..n).map(|i| if i == at { out } else { 5 + step * i as i64 }).collect();
            delta_roundtrip(&v, "outlier")
        }),
        space("roundtrip/lengths", move || {
            let n = choose(if t { 1100 } else { 400 });
            let k = choose(4);
            let v: Vec<i64> = (0..n)
                .map(|i| match k {
                    0 => i as i64,
                    1 => mix(i, 64) as i64,
                    2 => mix(i, 7) as i64 - 64,
                    _ => mix(i, 33) as i64,
                })
                .collect();
            delta_roundtrip(&v, "lengths")
        }),
        space("roundtrip/widths", move || {
            // the deltas of a block need exactly `w` bits, for each w, in each of two blocks
            let w1 = choose(65);
            let w2 = choose(65);
            let n = pick(&[2usize, 129, 130, 257]);
            let mut v = vec![-7i64];
            for i in 1..n {
                let w = if i <= 128 { w1 } else { w2 };
                v.push(v[i - 1].wrapping_add(mix(i, w) as i64));
            }
            delta_roundtrip(&v, "widths")
        }),
        space("large", move || {
            // more values, larger blocks and more bytes than 16 bits can count
            let n = pick(&[65535usize, 65536, 65537, 65665, 131_073, 200_000]);
            let kind = choose(3);
            let v: Vec<i64> = (0..n).map(|i| match kind { 0 => i as i64, 1 => mix(i, 64) as i64, _ => mix(i, 9) as i64 }).collect();
            visit(&(n, kind));
            let brief = |v: &[i64]| (v.len(), v.iter().fold(0i64, |a, x| a.wrapping_mul(31).wrapping_add(*x)));
            let mut bodies = vec![];
            let mut b = vec![];
            delta_bitpacked::encode(v.iter().copied(), &mut b);
            bodies.push(b);
            for (block, minis) in [(128, 4), (65536, 1), (65536, 2048), (131_072, 8), (256 * 1024, 2), (32 * 65_540, 65_540)] {
                bodies.push(delta_encode(&v, block, minis, &[]));
            }
            for (k, b) in bodies.iter().enumerate() {
                let want = delta_decode(b);
                ensure!(want == Some((v.clone(), b.len())), "delta-encode", "{n} values of kind {kind}, body {k}");
                let mut d = b.clone();
                d.extend([0x5a; 9]);
                let mut d = delta_bitpacked::Decoder::try_new(&d)
                    .map_err(|e| Fail { key: "delta-decode".into(), msg: format!("{n} values of kind {kind}, body {k}: {e}") })?;
                let got = (&mut d).collect::<Result<Vec<_>, _>>()?;
                ensure!(got == v, "delta-decode", "{n} values of kind {kind}, body {k}: {:?} expected {:?}", brief(&got), brief(&v));
                same!(d.consumed_bytes(), b.len(), "delta-consumed", "{n} values of kind {kind}, body {k}");
            }
            Ok(())
        }),
        space("decode/layouts", move || {
            let block = pick(&[128usize, 256, 512]);
            let minis = pick(&[1usize, 2, 4, 8]);
            if (block / minis) % 32 != 0 { return Ok(()) }
            let per = block / minis;
            let n = match choose(3) {
                0 => choose(4),
                1 => pick(&[per - 1, per, per + 1, per + 2, 2 * per, 2 * per + 1, 2 * per + 2]),
                _ => pick(&[block - 1, block, block + 1, block + 2, block + per + 1, block + per + 2, 2 * block, 2 * block + 1, 2 * block + 2, 3 * block + 5]),
            };
            let kind = choose(5);
            let v: Vec<i64> = (0..n)
                .scan(3i64, |s, i| {
                    *s = match kind {
                        0 => *s,
                        1 => s.wrapping_add(1),
                        2 => s.wrapping_add(mix(i, 1 + (i / per) % 13) as i64),
                        3 => s.wrapping_sub(mix(i, 40) as i64),
                        _ => mix(i, 64) as i64,
                    };
                    Some(*s)
                })
                .collect();
            let widen = pick(&[vec![], vec![1, 9, 64, 33, 3, 8, 17, 5, 2], vec![0, 0, 255, 255, 0, 255, 255, 255]]);
            // widths above 64 are only legal on mini-blocks that hold no value
            let needed = (n.saturating_sub(1) + per - 1) / per;
            if widen.iter().take(needed).any(|w| *w > 64) { return Ok(()) }
            let body = delta_encode(&v, block, minis, &widen);
            ensure!(delta_decode(&body).map(|x| x.0) == Some(v.clone()), "machinery", "model does not invert itself");
            visit(&(block, minis, n, kind, &widen));
            sample(|| format!("block {block} of {minis} mini-blocks, {n} values, pattern {kind}, widths at least {widen:?}"));
            let want_used = delta_decode(&body).unwrap().1;
            for tail in [0usize, 3] {
                let mut d = body.clone();
                d.extend(std::iter::repeat(0x7fu8).take(tail));
                let label = format!("block {block}/{minis} count {n} kind {kind} widen {widen:?}");
                let (got, used) = delta_impl(&d, n, &label)?;
                ensure!(got == v, "delta-decode", "{label}: got {got:?} expected {v:?}");
                same!(used, want_used, "delta-consumed", "{label}: bytes consumed");
            }
            Ok(())
        }),
        space("decode/widths", move || {
            // every mini-block width in every mini-block position
            let minis = pick(&[1usize, 4]);
            let w = choose(65);
            let pos = choose(minis);
            let n = 1 + if t { 2 + choose(127) } else { pick(&[2usize, 31, 32, 33, 65, 97, 128]) };
            let per = 128 / minis;
            let mut v = vec![11i64];
            for i in 1..n {
                let m = ((i - 1) / per) % minis;
                let d = if m == pos { mix(i, w) as i64 } else { (i % 2) as i64 };
                v.push(v[i - 1].wrapping_add(d));
            }
            let body = delta_encode(&v, 128, minis, &[]);
            visit(&(minis, w, pos, n));
            let (got, used) = delta_impl(&body, n, "widths")?;
            ensure!(got == v, "delta-decode", "minis {minis} width {w} at {pos}: got {got:?} expected {v:?}");
            same!(used, body.len(), "delta-consumed", "minis {minis} width {w} count {n}");
            Ok(())
        }),
    ];
    Def {
        spaces,
        rule: "every sequence of extreme values up to the stated length; an outlier at every position of sequences around block borders; every length; every bit width in two consecutive blocks; and, for the decoder, every legal layout (block size, mini-block count, value count class, widths). Compared with an independent implementation of DELTA_BINARY_PACKED.",
        assumptions: vec!["differences wrap around in 64-bit two's complement, as the format specifies"],
    }
}

// ------------------------------------------------------------------ C12
fn words(k: usize) -> Vec<Vec<u8>> {
    // all strings over {a,b} of length <= k, plus long ones
    let mut out: Vec<Vec<u8>> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..k {
        let mut next = vec![];
        for w in &last {
            for c in [b'a', b'b'] {
                let mut x = w.clone();
                x.push(c);
                next.push(x);
            }
        }
        out.extend(next.clone());
        last = next;
    }
    out.push(vec![b'a'; 200]);
    let mut x = vec![b'a'; 200];
    x.push(0);
    out.push(x);
    out
}
fn byte_arrays_case(items: &[Vec<u8>]) -> Res {
    visit(&items);
    sample(|| format!("{} items: {:?}", items.len(), items.iter().take(6).map(|x| String::from_utf8_lossy(x).to_string()).collect::<Vec<_>>()));
    // DELTA_LENGTH_BYTE_ARRAY
    let mut buf = vec![9u8];
    guard("delta_length encode", || delta_length_byte_array::encode(items.iter(), &mut buf))?;
    same!(buf[0], 9, "delta-length", "existing byte");
    let body = &buf[1..];
    let (lens, used) = delta_decode(body).ok_or(Fail { key: "delta-length".into(), msg: format!("{items:?}: lengths are not a delta stream") })?;
    same!(lens, items.iter().map(|x| x.len() as i64).collect::<Vec<_>>(), "delta-length", "lengths of {items:?}");
    same!(body[used..].to_vec(), items.concat(), "delta-length", "values of {items:?}");
    let mut data = body.to_vec();
    data.extend([1, 2, 3]);
    let mut d = guard("delta_length decode", || delta_length_byte_array::Decoder::try_new(&data))??;
    let mut lens = vec![];
    while let Some(x) = guard("delta_length decode", || d.next())? {
        lens.push(x? as usize);
    }
    same!(lens, items.iter().map(|x| x.len()).collect::<Vec<_>>(), "delta-length", "decoded lengths of {items:?}");
    same!(d.values().to_vec(), items.concat(), "delta-length", "decoded values of {items:?}");
    same!(d.into_values().to_vec(), items.concat(), "delta-length", "decoded values of {items:?}");
    // DELTA_BYTE_ARRAY
    let mut buf = vec![7u8];
    guard("delta_byte_array encode", || delta_byte_array::encode(items.iter().map(|x| x.as_slice()), &mut buf))?;
    same!(buf[0], 7, "delta-bytes", "existing byte");
    let body = &buf[1..];
    let (prefixes, used) = delta_decode(body).ok_or(Fail { key: "delta-bytes".into(), msg: format!("{items:?}: prefixes are not a delta stream") })?;
    let (lens, used2) = delta_decode(&body[used..]).ok_or(Fail { key: "delta-bytes".into(), msg: format!("{items:?}: suffix lengths are not a delta stream") })?;
    same!(prefixes.len(), items.len(), "delta-bytes", "number of prefixes of {items:?}");
    same!(lens.len(), items.len(), "delta-bytes", "number of suffixes of {items:?}");
    let rebuild = |prefixes: &[i64], lens: &[i64], mut rest: &[u8]| -> Option<Vec<Vec<u8>>> {
        let mut prev: Vec<u8> = vec![];
        let mut out = vec![];
        for (p, l) in prefixes.iter().zip(lens) {
            let mut v = prev.get(..usize::try_from(*p).ok()?)?.to_vec();
            v.extend(rest.get(..usize::try_from(*l).ok()?)?);
            rest = &rest[*l as usize..];
            prev = v.clone();
            out.push(v);
        }
        Some(out)
    };
    same!(rebuild(&prefixes, &lens, &body[used + used2..]), Some(items.to_vec()), "delta-bytes", "rebuilt");
    let mut d = guard("delta_byte_array decode", || delta_byte_array::Decoder::try_new(body))??;
    let mut p2 = vec![];
    while let Some(x) = guard("delta_byte_array decode", || d.next())? {
        p2.push(x? as i64);
    }
    let mut d = guard("delta_byte_array decode", || d.into_lengths())??;
    let mut l2 = vec![];
    while let Some(x) = guard("delta_byte_array decode", || d.next())? {
        l2.push(x? as i64);
    }
    same!(rebuild(&p2, &l2, d.values()), Some(items.to_vec()), "delta-bytes", "decoded {items:?}");
    // PLAIN
    let mut buf = vec![];
    for i in items {
        buf.extend((i.len() as u32).to_le_bytes());
        buf.extend(i);
    }
    for n in [Some(items.len()), None] {
        let it = plain_byte_array::BinaryIter::new(&buf, n);
        if n.is_some() {
            same!(it.size_hint(), (items.len(), n), "plain-bytes", "size hint");
        }
        let got = it.map(|x| x.map(|x| x.to_vec())).collect::<Result<Vec<_>, _>>()?;
        same!(got, items.to_vec(), "plain-bytes", "decoded");
    }
    Ok(())
}
fn bytes_of(n: usize) -> Vec<u8> {
    (0..n).map(|i| mix(i, 8) as u8).collect()
}
pub fn byte_arrays(thorough: bool) -> Def {
    let t = thorough;
    let spaces = vec![
        space("sequences/short-words", move || {
            let w = words(if t { 3 } else { 2 });
            let items = seq(0, if t { 4 } else { 4 }, |_| pick(&w));
            byte_arrays_case(&items)
        }),
        space("sequences/prefix-chains", move || {
            // each word keeps k bytes of the previous and adds m
            let n = 1 + choose(if t { 5 } else { 4 });
            let mut prev: Vec<u8> = vec![];
            let mut items = vec![];
            for i in 0..n {
                let keep = match choose(3) { 0 => 0, 1 => prev.len() / 2, _ => prev.len() };
                let add = pick(&[0usize, 1, 2]);
                let mut x = prev[..keep].to_vec();
                for k in 0..add { x.push(b'k' + (i * 3 + k) as u8) }
                items.push(x.clone());
                prev = x;
            }
            byte_arrays_case(&items)
        }),
        space("large", move || {
            // lengths, shared prefixes and counts that need more than 16 bits
            let n = pick(&[255usize, 256, 32_767, 32_768, 65_535, 65_536, 65_537, 100_000, 16_777_217]);
            if n > 1 << 20 && !t { return Ok(()) }
            let items: Vec<Vec<u8>> = match choose(5) {
                4 => {
                    // equal up to the last byte
                    let (mut x, y) = (bytes_of(n), bytes_of(n));
                    x[n - 1] ^= 1;
                    let mut z = x.clone();
                    z.extend(&y);
                    vec![x.clone(), y, x, z]
                }
                0 => vec![vec![b'x'; n], vec![], vec![b'x'; 3]],
                1 => vec![bytes_of(n), { let mut x = bytes_of(n); x.push(1); x }, bytes_of(n / 2), bytes_of(n)],
                2 => vec![vec![], bytes_of(n), bytes_of(n)],
                _ => if n > 1 << 20 { return Ok(()) } else { (0..n).map(|i| mix(i, 64).to_be_bytes()[..i % 4].to_vec()).collect() },
            };
            byte_arrays_case(&items).map_err(|mut f| { f.msg.truncate(300); f })
        }),
        space("counts", move || {
            let n = choose(if t { 700 } else { 270 });
            let k = choose(3);
            let items: Vec<Vec<u8>> = (0..n)
                .map(|i| match k {
                    0 => format!("key-{i:04}").into_bytes(),
                    1 => vec![i as u8; i % 5],
                    _ => mix(i, 64).to_be_bytes()[..i % 9].to_vec(),
                })
                .collect();
            byte_arrays_case(&items)
        }),
    ];
    Def {
        spaces,
        rule: "every sequence of words over a two-letter alphabet (plus two 200-byte words sharing a prefix) up to the stated length; every chain of keep/append decisions; every item count up to several blocks",
        assumptions: vec![],
    }
}

// ------------------------------------------------------------------ C13
fn varint_case(v: u64) -> Res {
    visit(&v);
    let mut c = [0xEEu8; 10];
    let n = guard("uleb encode", || uleb128::encode(v, &mut c))?;
    same!(c[..n].to_vec(), uleb(v), "uleb-encode", "{v}");
    for tail in [vec![], vec![0x80u8, 0x01]] {
        let mut d = c[..n].to_vec();
        d.extend(tail);
        let got = guard("uleb decode", || uleb128::decode(&d))??;
        same!(got, (v, n), "uleb-decode", "{v}");
    }
    let s = v as i64;
    let (c, n) = guard("zigzag encode", || zigzag_leb128::encode(s))?;
    same!(c[..n].to_vec(), uleb(zigzag(s)), "zigzag-encode", "{s}");
    same!(guard("zigzag decode", || zigzag_leb128::decode(&c[..n]))??, (s, n), "zigzag-decode", "{s}");
    // a truncated varint is never mistaken for a complete one
    for k in 0..n {
        let r = guard("uleb decode", || uleb128::decode(&c[..k]))?;
        ensure!(r.is_err(), "uleb-truncated", "the first {k} of {n} bytes of the varint of {s} decode to {r:?}");
    }
    Ok(())
}
pub fn varints(thorough: bool) -> Def {
    let t = thorough;
    let spaces = vec![
        space("dense", move || {
            let hi = choose(if t { 4096 } else { 512 });
            for lo in 0..256 {
                varint_case((hi * 256 + lo) as u64)?;
            }
            Ok(())
        }),
        space("powers", move || {
            let a = choose(64);
            let b = choose(64);
            let d = choose(5) as u64;
            let neg = flag();
            let v = (1u64 << a).wrapping_add(1u64 << b).wrapping_add(d).wrapping_sub(2);
            varint_case(if neg { !v } else { v })
        }),
        space("all-bytes", move || {
            // every byte string over the structural alphabet
            let d: Vec<u8> = seq(0, if t { 12 } else { 11 }, |i| if i < 8 { pick(&[0x80u8, 0x01]) } else { pick(&[0x80u8, 0xff, 0x01, 0x02, 0x00]) });
            visit(&d);
            sample(|| format!("{d:?}"));
            let r = guard("uleb decode", || uleb128::decode(&d))?;
            match un_uleb(&d) {
                Some(w) => same!(r.ok(), Some(w), "uleb-decode", "{d:?}"),
                None => ensure!(r.is_err(), "uleb-malformed", "{d:?} is not a 64-bit varint but decodes to {r:?}"),
            }
            Ok(())
        }),
    ];
    Def {
        spaces,
        rule: "all values below the stated bound, all sums of two powers of two (+-2) and their complements, and every byte string over {0x80,0xff,0x00,0x01,0x02} up to the stated length",
        assumptions: vec![],
    }
}
