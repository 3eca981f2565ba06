//! Reference models written from the parquet specification, independent of the code under test.

/// LSB-first bit packing.
pub fn bitpack(values: &[u64], bits: usize) -> Vec<u8> {
    let mut out = vec![0u8; (values.len() * bits + 7) / 8];
    for (i, v) in values.iter().enumerate() {
        for b in 0..bits {
            if v >> b & 1 == 1 {
                let p = i * bits + b;
                out[p / 8] |= 1 << (p % 8);
            }
        }
    }
    out
}
pub fn bitunpack(bytes: &[u8], bits: usize, n: usize) -> Vec<u64> {
    (0..n)
        .map(|i| {
            let mut v = 0u64;
            for b in 0..bits {
                let p = i * bits + b;
                if p / 8 < bytes.len() && bytes[p / 8] >> (p % 8) & 1 == 1 {
                    v |= 1 << b;
                }
            }
            v
        })
        .collect()
}
pub fn uleb(mut v: u64) -> Vec<u8> {
    let mut out = vec![];
    loop {
        let b = (v % 128) as u8;
        v /= 128;
        if v == 0 {
            out.push(b);
            return out;
        }
        out.push(b + 128);
    }
}
pub fn un_uleb(b: &[u8]) -> Option<(u64, usize)> {
    let mut v: u128 = 0;
    for (i, x) in b.iter().enumerate().take(10) {
        v += ((x % 128) as u128) << (7 * i);
        if *x < 128 {
            return u64::try_from(v).ok().map(|v| (v, i + 1));
        }
    }
    None
}
pub fn zigzag(v: i64) -> u64 {
    if v >= 0 {
        (v as u64) * 2
    } else {
        ((-(v as i128)) as u64).wrapping_mul(2).wrapping_sub(1)
    }
}
pub fn unzigzag(u: u64) -> i64 {
    if u % 2 == 0 {
        (u / 2) as i64
    } else {
        (-((u / 2) as i128) - 1) as i64
    }
}

/// A run of the RLE / bit-packing hybrid.
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub enum Run {
    Rle(u64, usize),
    /// a multiple of 8 values
    Packed(Vec<u64>),
}
impl Run {
    pub fn values(&self) -> Vec<u64> {
        match self {
            Run::Rle(v, n) => vec![*v; *n],
            Run::Packed(v) => v.clone(),
        }
    }
    pub fn encode(&self, bits: usize, out: &mut Vec<u8>) {
        match self {
            Run::Rle(v, n) => {
                out.extend(uleb((*n as u64) << 1));
                out.extend(&v.to_le_bytes()[..(bits + 7) / 8]);
            }
            Run::Packed(v) => {
                assert!(v.len() % 8 == 0);
                out.extend(uleb(((v.len() / 8) as u64) << 1 | 1));
                out.extend(bitpack(v, bits));
            }
        }
    }
}
pub fn hybrid_encode(runs: &[Run], bits: usize) -> Vec<u8> {
    let mut out = vec![];
    for r in runs {
        r.encode(bits, &mut out)
    }
    out
}
/// Decodes `n` values; None if the bytes are not a well-formed stream holding at least n values.
/// The last bit-packed run may have its padding bytes trimmed.
pub fn hybrid_decode(mut b: &[u8], bits: usize, n: usize) -> Option<Vec<u64>> {
    let mut out = vec![];
    while out.len() < n {
        if bits == 0 {
            out.push(0);
            continue;
        }
        let (h, c) = un_uleb(b)?;
        b = &b[c..];
        if h & 1 == 1 {
            let cnt = (h >> 1) as usize * 8;
            let want = cnt * bits / 8;
            let take = want.min(b.len());
            let k = cnt.min(n - out.len());
            if k * bits > take * 8 {
                return None;
            }
            out.extend(bitunpack(&b[..take], bits, k));
            b = &b[take..];
        } else {
            let cnt = (h >> 1) as usize;
            let w = (bits + 7) / 8;
            if b.len() < w {
                return None;
            }
            let mut v = 0u64;
            for i in 0..w {
                v |= (b[i] as u64) << (8 * i)
            }
            b = &b[w..];
            for _ in 0..cnt.min(n - out.len()) {
                out.push(v)
            }
        }
    }
    Some(out)
}

/// DELTA_BINARY_PACKED with an arbitrary legal layout.
pub fn delta_encode(values: &[i64], block: usize, minis: usize, widen: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    out.extend(uleb(block as u64));
    out.extend(uleb(minis as u64));
    out.extend(uleb(values.len() as u64));
    out.extend(uleb(zigzag(values.first().copied().unwrap_or(0))));
    let deltas: Vec<i64> = values.windows(2).map(|w| w[1].wrapping_sub(w[0])).collect();
    let per = block / minis;
    let mut wi = 0;
    for chunk in deltas.chunks(block) {
        let min = *chunk.iter().min().unwrap();
        out.extend(uleb(zigzag(min)));
        let mut widths = vec![];
        let mut bodies = vec![];
        for m in 0..minis {
            let part: Vec<u64> =
                chunk.iter().skip(m * per).take(per).map(|d| d.wrapping_sub(min) as u64).collect();
            if part.is_empty() {
                // not needed: the spec says readers must accept arbitrary widths here
                widths.push(*widen.get(wi).unwrap_or(&0));
                wi += 1;
                continue;
            }
            let need = part.iter().map(|x| 64 - x.leading_zeros() as u8).max().unwrap();
            let w = need.max(*widen.get(wi).unwrap_or(&0)).min(64);
            wi += 1;
            widths.push(w);
            let mut part = part;
            part.resize(per, 0);
            bodies.extend(bitpack(&part, w as usize));
        }
        out.extend(widths);
        out.extend(bodies);
    }
    out
}
/// Returns (values, bytes consumed).
pub fn delta_decode(b: &[u8]) -> Option<(Vec<i64>, usize)> {
    let mut p = 0;
    let mut next = |p: &mut usize| {
        let (v, c) = un_uleb(&b[*p..])?;
        *p += c;
        Some(v)
    };
    let block = next(&mut p)? as usize;
    let minis = next(&mut p)? as usize;
    let count = next(&mut p)? as usize;
    let first = unzigzag(next(&mut p)?);
    if block == 0 || block % 128 != 0 || minis == 0 || block % minis != 0 || (block / minis) % 32 != 0 {
        return None;
    }
    let per = block / minis;
    let mut out = vec![];
    if count == 0 {
        return Some((out, p));
    }
    out.push(first);
    while out.len() < count {
        let min = unzigzag(next(&mut p)?);
        let widths = b.get(p..p + minis)?.to_vec();
        p += minis;
        for w in widths {
            if out.len() >= count {
                break;
            }
            if w > 64 {
                return None;
            }
            let len = per * w as usize / 8;
            let body = b.get(p..p + len)?;
            p += len;
            for d in bitunpack(body, w as usize, per) {
                if out.len() >= count {
                    break;
                }
                let prev = *out.last().unwrap();
                out.push(prev.wrapping_add(min).wrapping_add(d as i64));
            }
        }
    }
    Some((out, p))
}
