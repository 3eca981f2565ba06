//! C16 codecs, C23 reused buffers.
use super::Def;
use crate::engine::*;
use crate::fx::*;
use parquet2::compression::*;
use parquet2::error::Error;
use parquet2::metadata::Descriptor;
use parquet2::page::*;
use parquet2::read::{decompress as decompress_page, get_page_iterator, read_metadata, BasicDecompressor, Decompressor, PageIterator};
use parquet2::schema::types::PhysicalType;
use parquet2::write::{compress as compress_page, Compressor};
use parquet2::FallibleStreamingIterator;
use CompressionOptions as O;

/// every codec that can compress, with every level
fn every_option() -> Vec<O> {
    let mut v = vec![O::Snappy, O::Lz4Raw, O::Gzip(None), O::Brotli(None), O::Zstd(None)];
    v.extend((0..=10).map(|l| O::Gzip(Some(GzipLevel::try_new(l).unwrap()))));
    v.extend((0..=11).map(|l| O::Brotli(Some(BrotliLevel::try_new(l).unwrap()))));
    v.extend((1..=22).map(|l| O::Zstd(Some(ZstdLevel::try_new(l).unwrap()))));
    v
}
const KINDS: usize = 5;
fn payload(kind: usize, n: usize) -> Vec<u8> {
    match kind {
        0 => vec![7; n],
        1 => (0..n).map(|i| i as u8).collect(),
        // incompressible: a xorshift sequence
        2 => {
            let mut x = 0x9E3779B97F4A7C15u64;
            (0..n)
                .map(|_| {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    (x >> 32) as u8
                })
                .collect()
        }
        3 => bytes(n, n),
        // matches far apart
        _ => (0..n).map(|i| ((i % 1031) * 7 / 3) as u8).collect(),
    }
}

// ---------------------------------------------------------------- independent decoders and encoders
/// LZ4 block format
fn lz4_model(mut b: &[u8]) -> Option<Vec<u8>> {
    let mut out: Vec<u8> = vec![];
    let ext = |b: &mut &[u8], n: usize| -> Option<usize> {
        let mut n = n;
        if n == 15 {
            loop {
                let (x, r) = b.split_first()?;
                *b = r;
                n += *x as usize;
                if *x != 255 {
                    break;
                }
            }
        }
        Some(n)
    };
    loop {
        let (tok, r) = b.split_first()?;
        b = r;
        let n = ext(&mut b, (tok >> 4) as usize)?;
        if b.len() < n {
            return None;
        }
        out.extend(&b[..n]);
        b = &b[n..];
        if b.is_empty() {
            return Some(out);
        }
        if b.len() < 2 {
            return None;
        }
        let off = u16::from_le_bytes([b[0], b[1]]) as usize;
        b = &b[2..];
        let m = ext(&mut b, (tok & 15) as usize)? + 4;
        if off == 0 || off > out.len() {
            return None;
        }
        for _ in 0..m {
            out.push(out[out.len() - off]);
        }
    }
}
/// Snappy raw format
fn snappy_model(b: &[u8]) -> Option<Vec<u8>> {
    let (mut n, mut s, mut i) = (0usize, 0, 0);
    loop {
        let x = *b.get(i)?;
        i += 1;
        n |= ((x & 127) as usize) << s;
        s += 7;
        if x < 128 {
            break;
        }
    }
    let mut out: Vec<u8> = vec![];
    let le = |i: usize, k: usize| -> Option<usize> { Some(b.get(i..i + k)?.iter().rev().fold(0, |a, x| a << 8 | *x as usize)) };
    while i < b.len() {
        let t = b[i] as usize;
        i += 1;
        if t & 3 == 0 {
            let mut l = (t >> 2) + 1;
            if l > 60 {
                let k = l - 60;
                l = le(i, k)? + 1;
                i += k;
            }
            out.extend(b.get(i..i + l)?);
            i += l;
        } else {
            let (l, off) = match t & 3 {
                1 => {
                    i += 1;
                    ((t >> 2 & 7) + 4, (t >> 5) << 8 | le(i - 1, 1)?)
                }
                2 => {
                    i += 2;
                    ((t >> 2) + 1, le(i - 2, 2)?)
                }
                _ => {
                    i += 4;
                    ((t >> 2) + 1, le(i - 4, 4)?)
                }
            };
            if off == 0 || off > out.len() {
                return None;
            }
            for _ in 0..l {
                out.push(out[out.len() - off]);
            }
        }
    }
    (out.len() == n).then_some(out)
}
/// an LZ4 block of literals
fn lz4_literals(d: &[u8]) -> Vec<u8> {
    let mut o = vec![(d.len().min(15) as u8) << 4];
    if d.len() >= 15 {
        let mut r = d.len() - 15;
        while r >= 255 {
            o.push(255);
            r -= 255;
        }
        o.push(r as u8);
    }
    o.extend(d);
    o
}
/// an LZ4 block of `n` repetitions of a byte (overlapping match), ending with 5 literals
fn lz4_repeat(x: u8, n: usize) -> Vec<u8> {
    assert!(n >= 18);
    let m = n - 6 - 4; // match length
    let mut o = vec![(1 << 4) | m.min(15) as u8, x, 1, 0];
    if m >= 15 {
        let mut r = m - 15;
        while r >= 255 {
            o.push(255);
            r -= 255;
        }
        o.push(r as u8);
    }
    o.push(5 << 4);
    o.extend([x; 5]);
    o
}
fn snappy_literals(d: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut n = d.len();
    while n >= 128 {
        o.push(n as u8 | 128);
        n >>= 7;
    }
    o.push(n as u8);
    for c in d.chunks(60) {
        o.push(((c.len() - 1) << 2) as u8);
        o.extend(c);
    }
    o
}
pub fn crc32(d: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in d {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { c >> 1 ^ 0xEDB88320 } else { c >> 1 };
        }
    }
    !c
}
/// a gzip member of stored blocks, with the optional header fields other writers produce
fn gzip_stored(d: &[u8], named: bool) -> Vec<u8> {
    let mut o = vec![0x1f, 0x8b, 8, if named { 8 } else { 0 }, 1, 2, 3, 4, 0, 3];
    if named {
        o.extend(b"name\0");
    }
    let mut chunks: Vec<&[u8]> = d.chunks(65535).collect();
    if chunks.is_empty() {
        chunks.push(&[]);
    }
    for (i, c) in chunks.iter().enumerate() {
        o.push((i + 1 == chunks.len()) as u8);
        o.extend((c.len() as u16).to_le_bytes());
        o.extend((!(c.len() as u16)).to_le_bytes());
        o.extend(*c);
    }
    o.extend(crc32(d).to_le_bytes());
    o.extend((d.len() as u32).to_le_bytes());
    o
}
/// a zstd frame of raw blocks, with or without its content size
fn zstd_raw(d: &[u8], sized: bool) -> Vec<u8> {
    let mut o = vec![0x28, 0xb5, 0x2f, 0xfd];
    if sized {
        o.push(0xA0); // single segment, 4 bytes of content size
        o.extend((d.len() as u32).to_le_bytes());
    } else {
        o.push(0);
        o.push(0x58); // window
    }
    let mut chunks: Vec<&[u8]> = d.chunks(1 << 16).collect();
    if chunks.is_empty() {
        chunks.push(&[]);
    }
    for (i, c) in chunks.iter().enumerate() {
        let h = (i + 1 == chunks.len()) as u32 | (c.len() as u32) << 3;
        o.extend(&h.to_le_bytes()[..3]);
        o.extend(*c);
    }
    o
}
/// a brotli stream of one uncompressed metablock (1 to 65536 bytes)
fn brotli_raw(d: &[u8]) -> Vec<u8> {
    if d.is_empty() {
        return vec![0x06];
    }
    let n = d.len() - 1;
    assert!(n < 65536);
    // WBITS=16 (0), ISLAST=0, MNIBBLES=4 (00), MLEN-1 (16 bits), ISUNCOMPRESSED=1, then padding
    let v: u32 = (n as u32) << 4 | 1 << 20;
    let mut o = v.to_le_bytes()[..3].to_vec();
    o.extend(d);
    o.push(0x03); // ISLAST, ISLASTEMPTY
    o
}
fn hadoop(frames: &[(usize, Vec<u8>)]) -> Vec<u8> {
    let mut o = vec![];
    for (n, c) in frames {
        o.extend((*n as u32).to_be_bytes());
        o.extend((c.len() as u32).to_be_bytes());
        o.extend(c);
    }
    o
}
fn restore(c: Compression, comp: &[u8], want: &[u8], dirty: u8, what: &str) -> Res {
    let mut out = vec![dirty; want.len()];
    match guard("decompress", || decompress(c, comp, &mut out))? {
        Err(e) => fail("decompress", format!("{what}: {} bytes of {c:?} data were not decompressed: {e}", want.len())),
        Ok(()) => {
            ensure!(out == want, "restore", "{what}: {c:?} restored other bytes ({} bytes)", want.len());
            Ok(())
        }
    }
}
/// compresses at the end of a buffer and checks what is there
fn append(o: O, data: &[u8], buf: &mut Vec<u8>) -> Res<Vec<u8>> {
    let before = buf.clone();
    match guard("compress", || compress(o, data, buf))? {
        Err(e) => return fail("compress", format!("{o:?} of {} bytes: {e}", data.len())),
        Ok(()) => {}
    }
    ensure!(buf.len() >= before.len() && buf[..before.len()] == before, "append", "{o:?} changed the {} bytes that were in the buffer", before.len());
    Ok(buf[before.len()..].to_vec())
}
fn format(o: O, comp: &[u8], data: &[u8]) -> Res {
    match o {
        O::Snappy => ensure!(snappy_model(comp).as_deref() == Some(data), "format", "independent decoding of snappy"),
        O::Lz4Raw => ensure!(lz4_model(comp).as_deref() == Some(data), "format", "independent decoding of lz4"),
        O::Gzip(_) => {
            ensure!(comp.starts_with(&[0x1f, 0x8b, 8]), "format", "gzip magic {comp:02x?}");
            let n = comp.len();
            ensure!(n >= 18 && comp[n - 4..] == (data.len() as u32).to_le_bytes() && comp[n - 8..n - 4] == crc32(data).to_le_bytes(), "format", "gzip trailer");
        }
        O::Zstd(_) => ensure!(comp.starts_with(&[0x28, 0xb5, 0x2f, 0xfd]), "format", "zstd magic"),
        _ => {}
    }
    Ok(())
}
fn roundtrip(o: O, data: &[u8], buf: &mut Vec<u8>) -> Res<Vec<u8>> {
    let comp = append(o, data, buf)?;
    format(o, &comp, data)?;
    restore(o.into(), &comp, data, 0xA5, &format!("{o:?}"))?;
    Ok(comp)
}

fn level_space(name: &'static str, options: Vec<O>, sizes: Vec<usize>, prefixes: Vec<usize>) -> Space {
    space(name, move || {
        let n = pick(&sizes);
        let kind = choose(KINDS);
        let o = pick(&options);
        let prefix = pick(&prefixes);
        let spare = prefix == 1;
        let data = payload(kind, n);
        let mut buf = bytes(prefix, 3);
        if spare {
            // capacity left over from earlier use
            buf.resize(n + n / 2 + 700, 0xEE);
            buf.truncate(prefix);
        }
        let c = roundtrip(o, &data, &mut buf)?;
        visit(&c);
        tally(if c.len() > n { "compressed form larger than the data" } else { "compressed form not larger" });
        sample(|| format!("{o:?} on {n} bytes of kind {kind} after {prefix} bytes -> {} bytes", c.len()));
        Ok(())
    })
}
fn short_payloads(max: usize) -> Space {
    space("every short byte string", move || {
        let data = seq(0, max, |_| pick(&[0u8, 1, 0x80, 0xFF]));
        let o = pick(&codecs()[1..]);
        let c = roundtrip(o, &data, &mut vec![])?;
        visit(&c);
        sample(|| format!("{o:?} {data:?} -> {c:02x?}"));
        Ok(())
    })
}
fn histories(depth: usize) -> Space {
    space("histories of compressions in one buffer", move || {
        let mut buf = vec![];
        let mut parts: Vec<(O, Vec<u8>, usize, usize)> = vec![];
        let ops = seq(1, depth, |_| choose(8));
        for op in ops {
            let from = buf.len();
            let k = parts.len();
            match op {
                // refused compressions leave the buffer alone
                0 => {
                    let before = buf.clone();
                    ensure!(compress(pick(&[O::Uncompressed, O::Lzo, O::Lz4]), &[1, 2, 3], &mut buf).is_err(), "unsupported", "compressing without a codec");
                    same!(buf, before, "append", "buffer after a refused compression");
                    tally("refused compression");
                }
                op => {
                    let o = [O::Snappy, O::Lz4Raw, O::Gzip(None), O::Brotli(None), O::Zstd(None), O::Snappy, O::Lz4Raw][op - 1];
                    let data = payload(k % KINDS, if op > 5 { 0 } else { [700, 3, 90][k % 3] });
                    append(o, &data, &mut buf)?;
                    parts.push((o, data, from, buf.len()));
                }
            }
        }
        for (o, data, a, b) in &parts {
            restore((*o).into(), &buf[*a..*b], data, 1, "a part of a shared buffer")?;
        }
        visit(&buf);
        sample(|| format!("{parts:?}"));
        Ok(())
    })
}
fn sizes_space(options: Vec<O>, sizes: Vec<usize>) -> Space {
    space("outputs of another size", move || {
        let o = pick(&options);
        let n = pick(&sizes);
        let data = payload(choose(KINDS), n);
        let extra = pick(&[1usize, 2, 7, 100, 5000]);
        let mut comp = vec![];
        append(o, &data, &mut comp)?;
        let mut out = vec![0; n + extra];
        let r = guard("decompress", || decompress(o.into(), &comp, &mut out))?;
        ensure!(r.is_err(), "wrong-size", "{o:?}: {n} bytes of data were accepted as {} bytes", n + extra);
        // and nothing at all
        let mut out = vec![0; n + extra];
        let r = guard("decompress", || decompress(o.into(), &[], &mut out))?;
        ensure!(r.is_err(), "wrong-size", "{o:?}: no data was accepted as {} bytes", n + extra);
        visit(&(comp, extra));
        sample(|| format!("{o:?}: {n} bytes of data in a buffer of {}", n + extra));
        Ok(())
    })
}
fn other_writers(sizes: Vec<usize>) -> Space {
    space("streams of other writers", move || {
        let n = pick(&sizes);
        let data = payload(choose(KINDS), n);
        let which = choose(9);
        let (c, comp, data) = match which {
            0 => (Compression::Gzip, gzip_stored(&data, false), data),
            1 => (Compression::Gzip, gzip_stored(&data, true), data),
            2 => (Compression::Zstd, zstd_raw(&data, true), data),
            3 => (Compression::Zstd, zstd_raw(&data, false), data),
            4 => (Compression::Snappy, snappy_literals(&data), data),
            5 => (Compression::Lz4Raw, lz4_literals(&data), data),
            6 => (Compression::Lz4, lz4_literals(&data), data),
            7 => {
                let n = n.max(18);
                (Compression::Lz4Raw, lz4_repeat(9, n), vec![9; n])
            }
            _ => {
                let data = data[..n.min(65536)].to_vec();
                (Compression::Brotli, brotli_raw(&data), data)
            }
        };
        restore(c, &comp, &data, 0, "another writer's stream")?;
        visit(&comp);
        tally(["gzip stored", "gzip named", "zstd sized", "zstd unsized", "snappy literals", "lz4 literals", "unframed lz4", "lz4 matches", "brotli raw"][which]);
        sample(|| format!("{c:?}: {} bytes from {} bytes", data.len(), comp.len()));
        Ok(())
    })
}
fn hadoop_space(name: &'static str, max: usize, sizes: Vec<usize>) -> Space {
    space(name, move || {
        let frames = seq(0, max, |i| {
            let n = pick(&sizes);
            let d = payload((n + i) % KINDS, n);
            let c = if flag() {
                lz4_literals(&d)
            } else {
                let mut c = vec![];
                compress(O::Lz4Raw, &d, &mut c).unwrap();
                c
            };
            (d, c)
        });
        let data: Vec<u8> = frames.iter().flat_map(|f| f.0.clone()).collect();
        let comp = hadoop(&frames.iter().map(|(d, c)| (d.len(), c.clone())).collect::<Vec<_>>());
        restore(Compression::Lz4, &comp, &data, 0x5A, &format!("{} Hadoop frames", frames.len()))?;
        visit(&comp);
        tally(match frames.len() {
            0 => "no frame",
            1 => "one frame",
            _ => "several frames",
        });
        // lz4_flex without its feature `checked-decode` panics on any of the following: see C17
        if cfg!(feature = "flex") {
            return Ok(());
        }
        // in a larger buffer there would be bytes that belong to no frame
        if !frames.is_empty() {
            let mut out = vec![0; data.len() + 1];
            ensure!(guard("decompress", || decompress(Compression::Lz4, &comp, &mut out))?.is_err(), "wrong-size", "frames of {} bytes fill {} bytes", data.len(), data.len() + 1);
        }
        if let Some(last) = data.len().checked_sub(1) {
            let mut out = vec![0; last];
            ensure!(guard("decompress", || decompress(Compression::Lz4, &comp, &mut out))?.is_err(), "wrong-size", "frames of {} bytes fit in {last} bytes", data.len());
            // damaged framing
            let mut bad = comp.clone();
            let (at, what) = match choose(4) {
                0 => (3, "decompressed size"),
                1 => (7, "compressed size"),
                2 => {
                    bad.pop();
                    (0, "missing last byte")
                }
                _ => {
                    bad.extend([0, 0, 0]);
                    (0, "trailing bytes")
                }
            };
            if at > 0 {
                bad[at] = bad[at].wrapping_add(1);
            }
            let mut out = vec![0; data.len()];
            ensure!(guard("decompress", || decompress(Compression::Lz4, &bad, &mut out))?.is_err(), "damaged-frames", "accepted damaged frames ({what})");
            tally("damaged framing refused");
        }
        sample(|| format!("frames of {:?} bytes", frames.iter().map(|f| f.0.len()).collect::<Vec<_>>()));
        Ok(())
    })
}
fn unframed(sizes: Vec<usize>) -> Space {
    space("unframed legacy lz4", move || {
        let n = pick(&sizes);
        let data = payload(choose(KINDS), n);
        let mut comp = vec![];
        compress(O::Lz4Raw, &data, &mut comp).map_err(|e| Fail { key: "compress".into(), msg: e.to_string() })?;
        restore(Compression::Lz4, &comp, &data, 0xC3, "unframed")?;
        visit(&comp);
        sample(|| format!("{n} bytes"));
        Ok(())
    })
}
fn levels() -> Space {
    space("levels and codecs accepted", || {
        let l = choose(330) as i64 - 30;
        let r = (|| -> Option<(Result<i64, Error>, i64, i64, &'static str)> {
            Some(match choose(3) {
                0 => (GzipLevel::try_new(u8::try_from(l).ok()?).map(|x| x.compression_level() as i64), 0, 10, "gzip"),
                1 => (BrotliLevel::try_new(u32::try_from(l).ok()?).map(|x| x.compression_level() as i64), 0, 11, "brotli"),
                _ => (ZstdLevel::try_new(l as i32).map(|x| x.compression_level() as i64), 1, 22, "zstd"),
            })
        })();
        if let Some((r, lo, hi, name)) = r {
            match r {
                Ok(v) => {
                    ensure!(l >= lo && l <= hi, "levels", "{name} level {l} accepted");
                    same!(v, l, "levels", "{name} level");
                }
                Err(_) => ensure!(l < lo || l > hi, "levels", "{name} level {l} refused"),
            }
            visit(&(l, name));
        }
        // codecs without compression or decompression
        for o in [O::Uncompressed, O::Lzo, O::Lz4] {
            let mut b = vec![1];
            ensure!(guard("compress", || compress(o, &[1, 2], &mut b))?.is_err(), "unsupported", "compressing with {o:?}");
            same!(b, vec![1], "unsupported", "buffer after refusing {o:?}");
        }
        for c in [Compression::Uncompressed, Compression::Lzo] {
            ensure!(guard("decompress", || decompress(c, &[1, 2], &mut [0; 2]))?.is_err(), "unsupported", "decompressing with {c:?}");
        }
        // codec identifiers in files
        use parquet_format_safe::CompressionCodec as F;
        for (o, f, c) in [
            (O::Uncompressed, F(0), Compression::Uncompressed),
            (O::Snappy, F(1), Compression::Snappy),
            (O::Gzip(None), F(2), Compression::Gzip),
            (O::Lzo, F(3), Compression::Lzo),
            (O::Brotli(None), F(4), Compression::Brotli),
            (O::Lz4, F(5), Compression::Lz4),
            (O::Zstd(None), F(6), Compression::Zstd),
            (O::Lz4Raw, F(7), Compression::Lz4Raw),
        ] {
            same!(F::from(o), f, "codec-id", "{o:?}");
            same!(F::from(c), f, "codec-id", "{c:?}");
            same!(Compression::from(o), c, "codec-id", "{o:?}");
            same!(Compression::try_from(f).ok(), Some(c), "codec-id", "{f:?}");
        }
        for x in [-1, 8, 100] {
            ensure!(Compression::try_from(F(x)).is_err(), "codec-id", "codec {x} accepted");
        }
        sample(|| format!("level {l}"));
        Ok(())
    })
}
/// Built without the codecs: all of them are refused, nothing else is.
fn without_codecs() -> Space {
    space("codecs without their features", || {
        let n = pick(&[0usize, 1, 2, 8, 9, 64, 300]);
        let input = payload(choose(KINDS), n);
        let o = every_option()[choose(every_option().len())];
        let c = Compression::from(o);
        visit(&(&input, format!("{o:?}")));
        let mut out = vec![5u8; pick(&[0usize, 1, 300])];
        let before = out.clone();
        let r = guard("compress", || compress(o, &input, &mut out))?;
        ensure!(matches!(r, Err(Error::FeatureNotActive(..))), "inactive", "compressing with {o:?} without its feature: {r:?}");
        same!(out, before, "inactive", "the buffer after refusing {o:?}");
        for c in [c, Compression::Lz4] {
            let r = guard("decompress", || decompress(c, &input, &mut out))?;
            ensure!(matches!(r, Err(Error::FeatureNotActive(..))), "inactive", "decompressing with {c:?} without its feature: {r:?}");
        }
        // a file
        let page = |n| Pg::V1 { n: 2, rows: 2, enc: 0, stats: None, body: bytes(n, 1) };
        let mut plan = Plan::new(vec![prim("a", PhysicalType::Int32, parquet2::schema::Repetition::Required)], vec![vec![vec![page(n)]]]);
        let w = write_file(&plan)?;
        let (_, pages) = read_file(&mut std::io::Cursor::new(&w.bytes))?;
        same!(pages, expected(&plan), "inactive", "an uncompressed file");
        plan.codec = o;
        let r = guard("writing a file", || write_file(&plan))?;
        ensure!(r.is_err(), "inactive", "a page was written with {o:?} without its feature");
        // a file of another writer
        let raw = |kind| super::limits::Raw { kind, values: 2, compressed: n as i32, uncompressed: n as i32, stats: 0 };
        for (kind, readable) in [(0, false), (1, false), (2, true)] {
            let (bytes, ..) = super::limits::raw_file(&[raw(kind), raw(1)], c);
            let mut file = std::io::Cursor::new(&bytes);
            let m = read_metadata(&mut file)?;
            let it = get_page_iterator(&m.row_groups[0].columns()[0], file, None, vec![], usize::MAX)?;
            let mut it = Decompressor::new(it, vec![]);
            let r = guard("decompress", || it.next().map(|x| x.is_some()))?;
            // v2 pages that say that they are not compressed can be read
            ensure!(if readable { matches!(r, Ok(true)) } else { r.is_err() }, "inactive", "reading a page of kind {kind} of a column compressed with {c:?} without its feature: {r:?}");
        }
        Ok(())
    })
}
pub fn codecs_(thorough: bool) -> Def {
    if cfg!(feature = "bare") {
        return Def { spaces: vec![without_codecs()], rule: "", assumptions: vec![] };
    }
    let mut sizes: Vec<usize> = vec![0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 60, 61, 64, 65, 127, 128, 255, 256, 257, 300];
    let more = [511, 512, 1000, 1023, 1024, 1025, 2047, 4095, 4096, 4097];
    let large = [16383, 16384, 65535, 65536, 65537];
    let huge = [131071, 131072, 200_000, 262_145];
    let mut mid = sizes.clone();
    mid.extend(more);
    let mut big: Vec<usize> = large.to_vec();
    if thorough {
        sizes = (0..=320).collect();
        mid = (0..=80).chain(mid).collect();
        big.extend(huge);
    }
    let cheap: Vec<O> = every_option()
        .into_iter()
        .filter(|o| match o {
            O::Zstd(Some(l)) => l.compression_level() <= 12,
            _ => true,
        })
        .collect();
    let costly: Vec<O> = every_option().into_iter().filter(|o| !cheap.contains(o)).collect();
    let mut lz: Vec<usize> = vec![0, 1, 5, 12, 14, 15, 16, 100, 270];
    if thorough {
        lz.extend([13, 269, 271, 4096]);
    }
    let all_sizes: Vec<usize> = mid.iter().chain(&big).copied().collect();
    let mut spaces = vec![
        levels(),
        short_payloads(if thorough { 7 } else { 5 }),
        histories(if thorough { 5 } else { 4 }),
        hadoop_space("hadoop lz4 frames", if thorough { 4 } else { 3 }, lz),
        hadoop_space("large hadoop lz4 frames", 2, vec![1, 65535, 65536, 65537, 262144, 300_001]),
        unframed(all_sizes.clone()),
        other_writers(all_sizes.clone()),
        sizes_space(every_option().into_iter().filter(|o| !costly.contains(o)).collect(), if thorough { mid.clone() } else { vec![0, 1, 2, 8, 17, 64, 300, 4096] }),
        level_space("default levels and every size", codecs()[1..].to_vec(), sizes, vec![0, 1, 300]),
        level_space("large payloads", codecs()[1..].to_vec(), big, vec![0, 1, 300]),
        level_space("every level", cheap, if thorough { mid } else { vec![0, 1, 8, 17, 64, 300, 1024, 4097] }, vec![0, 1, 300]),
    ];
    if thorough {
        spaces.push(level_space("the costliest levels", costly, vec![0, 1, 8, 17, 64, 300, 1024, 4097, 65537], vec![0, 300]));
    } else {
        spaces.push(level_space("the costliest levels", costly, vec![0, 300], vec![0]));
    }
    Def {
        spaces,
        rule: "every payload of the enumerated kinds and lengths is compressed after every enumerated buffer content with every codec and level, and decompressed; snappy and LZ4 output is also decoded by independent decoders, and streams built byte by byte from the formats (gzip stored blocks, zstd raw blocks, snappy and LZ4 literals and matches, Hadoop frames) are decompressed",
        assumptions: vec!["payloads up to 262145 bytes", "the third-party codecs themselves are only exercised, not re-verified"],
    }
}

// ---------------------------------------------------------------- C23
/// What a position of a history holds.
#[derive(Clone, Debug, Hash)]
pub enum Item {
    Good(Pg, usize),
    /// a compressed page whose data is damaged
    Damaged(Pg, usize),
    /// the source itself fails
    SourceError,
}
fn items() -> Vec<Item> {
    let v1 = |n: usize| Pg::V1 { n: n.min(50), rows: n.min(50), enc: 0, stats: None, body: bytes(n, n) };
    let v2 = |n: usize, l: usize, f: Option<bool>| Pg::V2 { n: n.min(50), nulls: 0, rows: n.min(50), rep: l / 2, def: l - l / 2, flag: f, enc: 0, stats: None, body: bytes(n, n + 1) };
    let dict = |n: usize| Pg::Dict { n: n.min(9), sorted: n % 2 == 1, body: bytes(n, n + 2) };
    // (page, codec): 0 uncompressed, 1 snappy, 2 zstd, 3 lz4
    vec![
        Item::Good(v1(40), 1),
        Item::Good(v1(900), 1),
        Item::Good(v1(0), 1),
        Item::Good(v1(40), 0),
        Item::Good(v1(900), 0),
        Item::Good(v1(0), 0),
        Item::Good(v2(60, 7, Some(true)), 2),
        Item::Good(v2(60, 7, None), 1),
        Item::Good(v2(300, 4, Some(false)), 1),
        Item::Good(v2(5, 5, Some(true)), 3),
        Item::Good(dict(33), 1),
        Item::Good(dict(200), 0),
        Item::Damaged(v1(100), 1),
        Item::Damaged(v2(100, 9, Some(true)), 2),
        Item::SourceError,
    ]
}
fn codec_of(k: usize) -> O {
    [O::Uncompressed, O::Snappy, O::Zstd(None), O::Lz4Raw][k]
}
fn desc() -> Descriptor {
    descriptor(PhysicalType::Int32, true)
}
/// the compressed form, built without the code under test for the pages that are not compressed
fn compressed(i: &Item, d: &Descriptor, mut b: Vec<u8>) -> Result<CompressedPage, Error> {
    b.clear();
    match i {
        Item::SourceError => Err(Error::OutOfSpec("the source failed".into())),
        Item::Good(p, k) | Item::Damaged(p, k) => {
            let o = codec_of(*k);
            let body = p.body();
            let plain_part = match p {
                Pg::V2 { rep, def, .. } => rep + def,
                _ => 0,
            };
            let skip = matches!(p, Pg::V2 { flag: Some(false), .. });
            if o == O::Uncompressed || skip {
                b.extend(body);
            } else {
                b.extend(&body[..plain_part]);
                compress(o, &body[plain_part..], &mut b)?;
            }
            if matches!(i, Item::Damaged(..)) {
                b.truncate(plain_part + 1);
            }
            Ok(match p {
                Pg::Dict { n, sorted, .. } => CompressedPage::Dict(CompressedDictPage::new(b, o.into(), body.len(), *n, *sorted)),
                _ => CompressedPage::Data(CompressedDataPage::new(p.header().unwrap(), b, o.into(), body.len(), d.clone(), Some(p.rows()))),
            })
        }
    }
}
/// what processing the page alone gives
fn alone(i: &Item) -> Option<Seen> {
    match i {
        Item::Good(p, _) => Some(p.seen()),
        _ => None,
    }
}
/// like a page reader: every page takes the reader's buffer, which the user of the pages gives back
struct Pages {
    items: std::vec::IntoIter<Item>,
    d: Descriptor,
    buffer: Vec<u8>,
}
fn pages(items: &[Item], buffer: Vec<u8>) -> Pages {
    Pages { items: items.to_vec().into_iter(), d: desc(), buffer }
}
impl Iterator for Pages {
    type Item = Result<CompressedPage, Error>;
    fn next(&mut self) -> Option<Self::Item> {
        let i = self.items.next()?;
        let b = std::mem::take(&mut self.buffer);
        Some(compressed(&i, &self.d, b))
    }
}
impl PageIterator for Pages {
    fn swap_buffer(&mut self, b: &mut Vec<u8>) {
        std::mem::swap(&mut self.buffer, b)
    }
}
fn dirty(k: usize) -> Vec<u8> {
    match k {
        0 => vec![],
        1 => vec![0xEE; 50],
        2 => {
            let mut v = vec![0xEE; 2000];
            v.truncate(3);
            v
        }
        _ => vec![0xEE; 2000],
    }
}
fn check_item(pos: usize, hist: &[Item], got: Result<Option<Seen>, Error>) -> Res {
    let i = &hist[pos];
    match (got, alone(i)) {
        (Ok(Some(s)), Some(w)) => {
            ensure!(s == w, "leak", "page {pos} of {:?}: got {}, alone it is {}", short(hist), brief(&s), brief(&w));
            Ok(())
        }
        (Err(_), None) => Ok(()),
        (Ok(None), _) => fail("lost", format!("page {pos} of {:?} was not returned", short(hist))),
        (Err(e), Some(_)) => fail("poisoned", format!("page {pos} of {:?} failed ({e}), alone it does not", short(hist))),
        (Ok(Some(s)), None) => fail("lost", format!("page {pos} of {:?} is damaged but {} was returned", short(hist), brief(&s))),
    }
}
fn brief(s: &Seen) -> String {
    match s {
        Seen::Dict(n, o, b) => format!("dict({n},{o},{} bytes)", b.len()),
        Seen::V1(_, b) => format!("v1({} bytes)", b.len()),
        Seen::V2(_, b) => format!("v2({} bytes)", b.len()),
    }
}
fn short(h: &[Item]) -> Vec<String> {
    h.iter()
        .map(|i| match i {
            Item::Good(p, k) => format!("{}/{k}", brief(&p.seen())),
            Item::Damaged(p, k) => format!("damaged {}/{k}", brief(&p.seen())),
            Item::SourceError => "source error".into(),
        })
        .collect()
}
fn history(depth: usize) -> Vec<Item> {
    let all = items();
    seq(1, depth, |_| pick(&all))
}
fn recover(p: Page) -> Vec<u8> {
    match p {
        Page::Data(mut p) => std::mem::take(p.buffer_mut()),
        Page::Dict(p) => p.buffer,
    }
}
fn decompress_histories(depth: usize) -> Space {
    space("histories of decompressions", move || {
        let hist = history(depth);
        let which = choose(3);
        let start = dirty(choose(4));
        match which {
            0 => {
                let mut dec = Decompressor::new(pages(&hist, dirty(2)), start);
                for pos in 0..hist.len() {
                    let r = guard("Decompressor", || dec.next().map(|x| x.map(Seen::of)))?;
                    let failed = r.is_err();
                    check_item(pos, &hist, r)?;
                    ensure!(!failed || dec.get().is_none(), "stale", "a page is still there after an error");
                    // looking at the current page again does not change it
                    if let (Some(g), Some(w)) = (dec.get(), alone(&hist[pos])) {
                        ensure!(Seen::of(g) == w, "leak", "the page changed between two looks");
                    }
                }
                same!(dec.next().map(|x| x.is_some()).ok(), Some(false), "end", "after the last page");
                let _ = dec.into_buffers();
            }
            1 => {
                let mut dec = BasicDecompressor::new(pages(&hist, vec![]), start);
                for pos in 0..hist.len() {
                    let r = guard("BasicDecompressor", || dec.next().map(|x| x.map(Seen::of)))?;
                    check_item(pos, &hist, r)?;
                }
                same!(dec.next().map(|x| x.is_some()).ok(), Some(false), "end", "after the last page");
                let _ = dec.into_inner();
            }
            _ => {
                let mut buffer = start;
                for (pos, s) in pages(&hist, vec![]).enumerate() {
                    let r = guard("decompress", || s.and_then(|s| decompress_page(s, &mut buffer)))?;
                    let r = r.map(|p| {
                        let s = Seen::of(&p);
                        buffer = recover(p);
                        Some(s)
                    });
                    check_item(pos, &hist, r)?;
                }
            }
        }
        visit(&(which, &hist));
        tally(["Decompressor", "BasicDecompressor", "read::decompress"][which]);
        if hist.iter().any(|i| alone(i).is_none()) {
            tally("with an error on the way");
        }
        sample(|| format!("{:?}", short(&hist)));
        Ok(())
    })
}
/// the same through files and the real page readers
fn file_histories(depth: usize) -> Space {
    space("histories of pages of a file", move || {
        let o = pick(&[O::Snappy, O::Zstd(None), O::Uncompressed]);
        let all: Vec<Pg> = items()
            .into_iter()
            .filter_map(|i| match i {
                Item::Good(p, k) if !p.is_dict() && (k != 0 || p.values() == 0) => Some(p),
                _ => None,
            })
            .collect();
        let mut hist = seq(1, depth, |_| pick(&all));
        // a page without values at the end may not be returned
        if hist.last().unwrap().values() == 0 {
            hist.push(all[0].clone());
        }
        let dict = flag();
        if dict {
            hist.insert(0, Pg::Dict { n: 9, sorted: true, body: bytes(200, 1) });
        }
        let field = prim("c", PhysicalType::Int32, parquet2::schema::Repetition::Optional);
        let mut plan = Plan::new(vec![field], vec![vec![hist.clone()]]);
        plan.codec = o;
        let w = write_file(&plan)?;
        let mut cur = std::io::Cursor::new(&w.bytes);
        let m = parquet2::read::read_metadata(&mut cur)?;
        let col = &m.row_groups[0].columns()[0];
        let k = choose(4);
        let it = parquet2::read::get_page_iterator(col, &mut cur, None, dirty(k), usize::MAX)?;
        let basic = flag();
        let mut got = vec![];
        if basic {
            let mut dec = BasicDecompressor::new(it, dirty(3 - k));
            while let Some(p) = guard("BasicDecompressor", || dec.next().map(|x| x.map(Seen::of)))?? {
                got.push(p);
            }
        } else {
            let mut dec = Decompressor::new(it, dirty(3 - k));
            while let Some(p) = guard("Decompressor", || dec.next().map(|x| x.map(Seen::of)))?? {
                got.push(p);
            }
        }
        let want: Vec<Seen> = hist.iter().map(|p| p.seen()).collect();
        ensure!(got == want, "leak", "{o:?} {:?} read as {:?}, or with other bytes", want.iter().map(brief).collect::<Vec<_>>(), got.iter().map(brief).collect::<Vec<_>>());
        visit(&hist);
        tally(if basic { "BasicDecompressor" } else { "Decompressor" });
        sample(|| format!("{o:?} {:?}", want.iter().map(brief).collect::<Vec<_>>()));
        Ok(())
    })
}
/// buffers recovered after k pages and used for the rest
fn recovery(depth: usize) -> Space {
    space("buffers recovered and reused", move || {
        let hist = history(depth);
        let cut = choose(hist.len() + 1);
        let which = choose(2);
        if which == 0 {
            let mut dec = Decompressor::new(pages(&hist[..cut], vec![]), vec![]);
            for pos in 0..cut {
                let r = guard("Decompressor", || dec.next().map(|x| x.map(Seen::of)))?;
                check_item(pos, &hist, r)?;
            }
            if flag() {
                let _ = dec.next();
            }
            let (x, y) = dec.into_buffers();
            let mut dec = Decompressor::new(pages(&hist[cut..], x), y);
            for pos in cut..hist.len() {
                let r = guard("Decompressor", || dec.next().map(|x| x.map(Seen::of)))?;
                check_item(pos, &hist, r)?;
            }
        } else {
            let mut dec = BasicDecompressor::new(pages(&hist[..cut], vec![]), vec![]);
            for pos in 0..cut {
                let r = guard("BasicDecompressor", || dec.next().map(|x| x.map(Seen::of)))?;
                check_item(pos, &hist, r)?;
            }
            if flag() {
                let _ = dec.next();
            }
            let y = dec.into_inner();
            let mut dec = BasicDecompressor::new(pages(&hist[cut..], vec![]), y);
            for pos in cut..hist.len() {
                let r = guard("BasicDecompressor", || dec.next().map(|x| x.map(Seen::of)))?;
                check_item(pos, &hist, r)?;
            }
        }
        visit(&(cut, which, &hist));
        sample(|| format!("{:?} cut at {cut}", short(&hist)));
        Ok(())
    })
}
fn compress_items() -> Vec<Item> {
    let mut v: Vec<Item> = items().into_iter().filter(|i| matches!(i, Item::Good(..))).collect();
    // levels longer than the page: refused
    v.push(Item::Damaged(Pg::V2 { n: 2, nulls: 0, rows: 2, rep: 4, def: 4, flag: None, enc: 0, stats: None, body: vec![1, 2, 3] }, 1));
    v.push(Item::SourceError);
    v
}
fn compress_histories(depth: usize) -> Space {
    space("histories of compressions", move || {
        let all = compress_items();
        let hist = seq(1, depth, |_| pick(&all));
        let o = pick(&[O::Snappy, O::Uncompressed, O::Zstd(None)]);
        let which = choose(3);
        let d = desc();
        let pages: Vec<Result<Page, Error>> = hist
            .iter()
            .map(|i| match i {
                Item::Good(p, _) | Item::Damaged(p, _) => Ok(p.page(&d)),
                _ => Err(Error::OutOfSpec("the source failed".into())),
            })
            .collect();
        // the debug form of a compressed page shows all of it
        let want: Vec<Option<String>> = hist
            .iter()
            .map(|i| match i {
                Item::Good(p, _) | Item::Damaged(p, _) => compress_page(p.page(&d), vec![], o).ok().map(|c| format!("{c:?}")),
                _ => None,
            })
            .collect();
        for (i, w) in hist.iter().zip(&want) {
            match (i, w) {
                (Item::Good(p, _), Some(_)) => {
                    let c = compress_page(p.page(&d), vec![1, 2, 3], o).unwrap();
                    let s = decompress_page(c, &mut vec![]).map(|p| Seen::of(&p));
                    same!(s.ok(), Some(p.seen()), "restore", "page compressed alone with {o:?}");
                }
                (Item::Good(..), None) => return fail("refused", format!("{i:?} was not compressed with {o:?}")),
                _ => {}
            }
        }
        let judge = |pos: usize, got: Result<Option<String>, Error>| -> Res {
            match (got, &want[pos]) {
                (Ok(Some(g)), Some(w)) => {
                    ensure!(g == *w, "leak", "page {pos} of {:?} with {o:?} is {g}, alone it is {w}", short(&hist));
                    Ok(())
                }
                (Err(_), None) => Ok(()),
                (g, w) => fail("differs", format!("page {pos} of {:?}: got {}, alone {}", short(&hist), g.is_ok(), w.is_some())),
            }
        };
        if which < 2 {
            let mut c = Compressor::new(pages.into_iter(), o, dirty(choose(4)));
            // with `which` = 1 the compressor is taken apart at some point and built again
            let cut = if which == 1 { choose(hist.len() + 1) } else { usize::MAX };
            for pos in 0..hist.len() {
                if pos == cut {
                    let (it, mut buffer) = c.into_inner();
                    // callers may use the buffer for anything
                    buffer.extend([0x11; 100]);
                    c = Compressor::new_from_vec(it, o, buffer);
                }
                let r = guard("Compressor", || c.next().map(|x| x.map(|p| format!("{p:?}"))))?;
                let failed = r.is_err();
                judge(pos, r)?;
                ensure!(!failed || c.get().is_none(), "stale", "a page is still there after an error");
            }
            same!(c.next().map(|x| x.is_some()).ok(), Some(false), "end", "after the last page");
            let (_, buffer) = c.into_inner();
            ensure!(buffer.is_empty(), "leak", "the recovered buffer holds {} bytes", buffer.len());
        } else {
            let mut buffer = dirty(choose(4));
            for (pos, p) in pages.into_iter().enumerate() {
                let b = std::mem::take(&mut buffer);
                let r = guard("compress", || p.and_then(|p| compress_page(p, b, o)))?;
                let c = r.as_ref().ok().map(|c| format!("{c:?}"));
                judge(pos, r.as_ref().map(|_| c.clone()).map_err(|_| Error::OutOfSpec("refused".into())))?;
                // the buffer of the page, decompressed
                buffer = r.ok().and_then(|c| decompress_page(c, &mut vec![]).ok()).map(recover).unwrap_or_default();
            }
        }
        visit(&(which, &hist));
        tally(["Compressor", "Compressor taken apart", "write::compress"][which]);
        sample(|| format!("{o:?} {:?}", short(&hist)));
        Ok(())
    })
}
pub fn buffers(thorough: bool) -> Def {
    let d = if thorough { 4 } else { 3 };
    Def {
        spaces: vec![file_histories(d), compress_histories(d), recovery(d), decompress_histories(if thorough { 5 } else { 4 })],
        rule: "every history of up to the stated number of pages, each from a menu of 15 (compressed, not compressed, dictionary, empty, small, large, flagged uncompressed, damaged, failing source), is run through one reused buffer that starts in every enumerated state, and compared page by page with processing that page alone",
        assumptions: vec!["pages of at most 900 bytes"],
    }
}
