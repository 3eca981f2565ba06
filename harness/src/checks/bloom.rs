//! C18: bloom filters.
use super::Def;
use crate::engine::*;
use super::files::v1;
use crate::fx::*;
use parquet2::bloom_filter::*;
use parquet2::read::read_metadata;
use parquet2::schema::types::*;
use parquet2::schema::Repetition::*;
use std::io::Cursor;
use std::sync::Arc;

// ---------------------------------------------------------------- the specification
/// the odd constants of the specification (BloomFilter.md)
const SALT: [u32; 8] = [0x47b6137b, 0x44974d91, 0x8824ad5b, 0xa2b7289d, 0x705495c7, 0x2df1424b, 0x9efc4947, 0x5c6bfb31];
fn spec_block(h: u64, blocks: u64) -> u64 {
    (((h >> 32) as u128 * blocks as u128) >> 32) as u64
}
/// positions of the eight bits of a hash, in the whole bitset
fn spec_bits(h: u64, blocks: u64) -> Vec<usize> {
    let b = spec_block(h, blocks) as usize;
    (0..8)
        .map(|i| {
            let bit = ((h as u32 as u64 * SALT[i] as u64) & 0xffff_ffff) >> 27;
            b * 256 + i * 32 + bit as usize
        })
        .collect()
}
fn spec_insert(set: &mut [u8], h: u64) {
    for p in spec_bits(h, set.len() as u64 / 32) {
        set[p / 8] |= 1 << (p % 8);
    }
}
fn spec_has(set: &[u8], h: u64) -> bool {
    spec_bits(h, set.len() as u64 / 32).iter().all(|p| set[p / 8] >> (p % 8) & 1 == 1)
}
/// XXH64 with seed 0, from its specification
pub fn xxh64(d: &[u8]) -> u64 {
    const P1: u64 = 0x9E3779B185EBCA87;
    const P2: u64 = 0xC2B2AE3D27D4EB4F;
    const P3: u64 = 0x165667B19E3779F9;
    const P4: u64 = 0x85EBCA77C2B2AE63;
    const P5: u64 = 0x27D4EB2F165667C5;
    let w64 = |b: &[u8]| u64::from_le_bytes(b[..8].try_into().unwrap());
    let round = |acc: u64, x: u64| acc.wrapping_add(x.wrapping_mul(P2)).rotate_left(31).wrapping_mul(P1);
    let mut p = d;
    let mut h = if d.len() >= 32 {
        let mut v = [P1.wrapping_add(P2), P2, 0, 0u64.wrapping_sub(P1)];
        while p.len() >= 32 {
            for i in 0..4 {
                v[i] = round(v[i], w64(&p[i * 8..]));
            }
            p = &p[32..];
        }
        let mut h = v[0].rotate_left(1).wrapping_add(v[1].rotate_left(7)).wrapping_add(v[2].rotate_left(12)).wrapping_add(v[3].rotate_left(18));
        for x in v {
            h = (h ^ round(0, x)).wrapping_mul(P1).wrapping_add(P4);
        }
        h
    } else {
        P5
    };
    h = h.wrapping_add(d.len() as u64);
    while p.len() >= 8 {
        h = (h ^ round(0, w64(p))).rotate_left(27).wrapping_mul(P1).wrapping_add(P4);
        p = &p[8..];
    }
    if p.len() >= 4 {
        let x = u32::from_le_bytes(p[..4].try_into().unwrap()) as u64;
        h = (h ^ x.wrapping_mul(P1)).rotate_left(23).wrapping_mul(P2).wrapping_add(P3);
        p = &p[4..];
    }
    for b in p {
        h = (h ^ (*b as u64).wrapping_mul(P5)).rotate_left(11).wrapping_mul(P1);
    }
    h = (h ^ (h >> 33)).wrapping_mul(P2);
    h = (h ^ (h >> 29)).wrapping_mul(P3);
    h ^ (h >> 32)
}
fn varint(mut v: u64, out: &mut Vec<u8>) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}
/// the header of a bloom filter in the compact protocol; `extra` adds a field unknown to this version
pub fn header(bytes: i64, extra: bool) -> Vec<u8> {
    let mut out = vec![0x15];
    varint(((bytes << 1) ^ (bytes >> 63)) as u64, &mut out);
    for _ in 0..3 {
        out.extend([0x1c, 0x1c, 0, 0]); // union { 1: struct {} }
    }
    if extra {
        out.extend([0x18, 3, b'a', b'b', b'c']);
    }
    out.push(0);
    out
}

fn check_set(set: &[u8], model: &[u8], what: &str) -> Res {
    if set != model {
        let i = set.iter().zip(model).position(|(a, b)| a != b).unwrap_or(0);
        return fail("bits", format!("{what}: byte {i} of {} is {:#x}, expected {:#x}", set.len(), set[i], model[i]));
    }
    Ok(())
}
fn add(set: &mut Vec<u8>, model: &mut Vec<u8>, h: u64) -> Res {
    guard("insert", || insert(set, h))?;
    spec_insert(model, h);
    check_set(set, model, &format!("after inserting {h:#x} in {} bytes", model.len()))
}
fn lookup(set: &[u8], h: u64, inserted: bool) -> Res {
    let got = guard("is_in_set", || is_in_set(set, h))?;
    ensure!(got || !inserted, "false-negative", "{h:#x} was inserted in a filter of {} bytes and is not found", set.len());
    same!(got, spec_has(set, h), "lookup", "{h:#x} in a filter of {} bytes", set.len());
    Ok(())
}
fn sizes(t: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=17).collect();
    v.extend([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 4095]);
    if t {
        v.extend([4096, 4097, 32768, 65535, 65536, 65537]);
    }
    v
}
/// hashes that fall on both sides of every border between blocks
fn edge_hash(blocks: usize, k: usize) -> Vec<u32> {
    let b = blocks as u128;
    let k = k as u128;
    // the first high half that falls in block k
    let first = ((k << 32) + b - 1) / b;
    [first.saturating_sub(1), first, first + 1].into_iter().filter(|x| *x <= u32::MAX as u128).map(|x| x as u32).collect()
}
fn lows() -> Vec<u32> {
    let mut v = vec![0, u32::MAX, 0x5555_5555, 0xaaaa_aaaa, 0x7fff_ffff, 0xdead_beef];
    v.extend((0..32).map(|i| 1u32 << i));
    v
}
fn values() -> Vec<(String, u64, Vec<u8>)> {
    let mut v: Vec<(String, u64, Vec<u8>)> = vec![];
    for x in [0i32, 1, -1, 7, i32::MIN, i32::MAX, 0x0102_0304] {
        v.push((format!("{x}i32"), hash_native(x), x.to_le_bytes().to_vec()));
    }
    for x in [0i64, 1, -1, 7, i64::MIN, i64::MAX, 0x0102_0304_0506_0708] {
        v.push((format!("{x}i64"), hash_native(x), x.to_le_bytes().to_vec()));
    }
    for x in [0f32, -0., 1., -1.5, f32::MIN, f32::MAX, f32::INFINITY, f32::from_bits(0x7fc0_0001)] {
        v.push((format!("{x}f32"), hash_native(x), x.to_le_bytes().to_vec()));
    }
    for x in [0f64, -0., 1., -1.5, f64::MIN, f64::MAX, f64::INFINITY, f64::from_bits(0x7ff8_0000_0000_0001)] {
        v.push((format!("{x}f64"), hash_native(x), x.to_le_bytes().to_vec()));
    }
    for x in [[0u32, 0, 0], [1, 2, 3], [u32::MAX, 0, 1], [0x01020304, 0x05060708, 0x090a0b0c]] {
        v.push((format!("{x:?}"), hash_native(x), x.iter().flat_map(|x| x.to_le_bytes()).collect()));
    }
    v
}
fn read_space(t: bool, env: Env, dev: u32, name: &'static str) -> Space {
    let plan = {
        let mut p = Plan::new(
            vec![prim("a", PhysicalType::Int32, Required), prim("b", PhysicalType::ByteArray, Optional)],
            vec![vec![vec![v1(2, 8, 1)], vec![v1(2, 9, 2)]], vec![vec![v1(1, 4, 3)], vec![v1(1, 9, 4)]]],
        );
        p.created_by = Some("x".into());
        p
    };
    let w = write_file(&plan).map(|w| w.bytes).unwrap_or_default();
    space_dev(name, dev, move || {
        ensure!(!w.is_empty(), "fixture", "the fixture cannot be written");
        let small = env.short;
        // the filters of the four column chunks, stored one after the other (or shared, or absent)
        let blocks: &[usize] = if small { &[1, 3] } else if t { &[1, 2, 3, 64, 1000, 40000] } else { &[1, 2, 3, 64, 1000] };
        let (mut extra, mut at, mut sets) = (vec![], vec![], vec![]);
        extra.extend(bytes(choose(2) * 5, 1));
        let chunks = 4;
        let same_kind = choose(if small { 2 } else { 5 });
        for c in 0..chunks {
            let present = match same_kind {
                0 => true,
                1 => c != 1,
                2 => c == 3,
                3 => c % 2 == 0,
                _ => false,
            };
            if !present {
                at.push(None);
                sets.push(vec![]);
                continue;
            }
            let n = if c == 0 || t { pick(blocks) } else { blocks[(c + at.len()) % 2] };
            let mut set = vec![0; n * 32];
            for k in 0..n.min(50) + c {
                insert(&mut set, xxh64(&[k as u8, c as u8]));
            }
            at.push(Some(extra.len()));
            extra.extend(header(set.len() as i64, c == 2));
            extra.extend(&set);
            sets.push(set);
        }
        let f = splice(&w, &extra, |m, start| {
            for (i, o) in at.iter().enumerate() {
                let c = &mut m.row_groups[i / 2].columns[i % 2];
                c.meta_data.as_mut().unwrap().bloom_filter_offset = o.map(|o| (o + start) as i64);
            }
        });
        let m = guard("read_metadata", || read_metadata(&mut Cursor::new(&f[..])))??;
        let f = Arc::new(f);
        // one buffer for all of them, in either order
        let mut buf = pick(&[vec![], vec![0xffu8; 7], vec![0xff; 40000]]);
        let order: Vec<usize> = if flag() { (0..4).rev().collect() } else { (0..4).collect() };
        for i in order {
            let mut src = Source::new(&f, env);
            let r = guard("read", || parquet2::bloom_filter::read(&m.row_groups[i / 2].columns()[i % 2], &mut src, &mut buf))?;
            r?;
            ensure!(buf == sets[i], "read-back", "the filter of chunk {i} ({} bytes) is read as {} bytes", sets[i].len(), buf.len());
            // what was inserted is found in what was read, and nothing is excluded without a filter
            for k in 0..(sets[i].len() / 32).min(50) + i {
                let h = xxh64(&[k as u8, i as u8]);
                if sets[i].is_empty() {
                    ensure!(is_in_set(&buf, h), "false-negative", "a value is excluded although there is no filter");
                } else {
                    lookup(&buf, h, true)?;
                }
            }
            visit(&(i, sets[i].len(), buf.capacity() > buf.len()));
        }
        sample(|| format!("filters of {:?} bytes", sets.iter().map(|s| s.len()).collect::<Vec<_>>()));
        Ok(())
    })
}

pub fn blooms(thorough: bool) -> Def {
    let t = true;
    let sz = sizes(t);
    let spaces = vec![
        super::far::reading(t, super::far::Look::Bloom),
        // one insertion: exactly the eight bits of the specification, for every block and low half
        space("insert/bits", move || {
            let blocks = pick(&sz);
            let ks: Vec<usize> = if blocks <= 33 { (0..blocks).collect() } else { vec![0, 1, blocks / 3, blocks / 2, blocks - 2, blocks - 1] };
            let k = pick(&ks);
            let fill = pick(&[0u8, 0x5a]);
            for hi in edge_hash(blocks, k) {
                for lo in lows() {
                    let h = (hi as u64) << 32 | lo as u64;
                    if blocks > 300 {
                        // large filters: compare only the block that may change, and the number of bits
                        let mut set = vec![fill; blocks * 32];
                        guard("insert", || insert(&mut set, h))?;
                        let mut model = vec![fill; blocks * 32];
                        spec_insert(&mut model, h);
                        check_set(&set, &model, &format!("after inserting {h:#x}"))?;
                        lookup(&set, h, true)?;
                        if lo > 2 {
                            break;
                        }
                        continue;
                    }
                    let mut set = vec![fill; blocks * 32];
                    let mut model = set.clone();
                    lookup(&set, h, false)?;
                    add(&mut set, &mut model, h)?;
                    lookup(&set, h, true)?;
                    // one missing bit is enough to exclude the value; bits elsewhere do not matter
                    for p in spec_bits(h, blocks as u64) {
                        let mut s = vec![0xff; blocks * 32];
                        s[p / 8] &= !(1 << (p % 8));
                        lookup(&s, h, false)?;
                    }
                }
            }
            visit(&(blocks, k));
            Ok(())
        }),
        // histories of insertions over a small universe
        space("insert/histories", move || {
            let blocks = 1 + choose(if t { 4 } else { 3 });
            let uni: Vec<u64> = {
                let mut u = vec![];
                for hi in [0u64, 0x5555_5556, 0x8000_0000, 0xffff_ffff] {
                    for lo in [0u64, 1, 0x8000_0001] {
                        u.push(hi << 32 | lo);
                    }
                }
                u
            };
            let mut set = vec![0; blocks * 32];
            let mut model = set.clone();
            let mut done: Vec<u64> = vec![];
            let n = 1 + choose(if thorough { 6 } else { 5 });
            for _ in 0..n {
                let h = pick(&uni);
                add(&mut set, &mut model, h)?;
                done.push(h);
                for u in &uni {
                    lookup(&set, *u, done.contains(u))?;
                }
            }
            visit(&set);
            Ok(())
        }),
        // many values of a type
        space("insert/many", move || {
            let blocks = pick(&[1usize, 2, 3, 5, 8, 33, 100]);
            let n = pick(&[1usize, 10, 100, 1000, 5000]);
            let kind = choose(4);
            let of = |i: usize| match kind {
                0 => hash_native(i as i32 - 7),
                1 => hash_native((i as i64).wrapping_mul(0x1_0000_0001)),
                2 => hash_byte(format!("a{i}")),
                _ => hash_native(i as f64 / 3.),
            };
            let mut set = vec![0; blocks * 32];
            let mut model = set.clone();
            for i in 0..n {
                guard("insert", || insert(&mut set, of(i)))?;
                spec_insert(&mut model, of(i));
            }
            check_set(&set, &model, "after many insertions")?;
            for i in 0..n + 200 {
                lookup(&set, of(i), i < n)?;
            }
            Ok(())
        }),
        space("hash/native", move || {
            let vals = values();
            let (name, got, b) = pick(&vals);
            same!(got, xxh64(&b), "hash", "hash of {name}");
            same!(hash_byte(&b), xxh64(&b), "hash", "hash of the bytes {b:?}");
            visit(&got);
            Ok(())
        }),
        space("hash/bytes", move || {
            let n = choose(if t { 300 } else { 140 });
            let salt = choose(6);
            let b = if salt == 5 { vec![0xff; n] } else { bytes(n, salt * 51) };
            same!(hash_byte(&b), xxh64(&b), "hash", "hash of {n} bytes");
            let mut set = vec![0u8; 32 * (1 + salt)];
            let h = hash_byte(&b);
            let mut model = set.clone();
            add(&mut set, &mut model, h)?;
            lookup(&set, h, true)
        }),
        read_space(t, Env::default(), 0, "read/file"),
        read_space(t, Env { short: true, interrupt: true, ..Env::default() }, if t { 2 } else { 1 }, "read/short"),
        space("read/truncated", move || {
            // the storage ends inside of a filter: never a smaller one
            let plan = Plan::new(vec![prim("a", PhysicalType::Int32, Required)], vec![vec![vec![v1(2, 8, 1)]]]);
            let w = write_file(&plan)?.bytes;
            let n = pick(&[1usize, 2, 3, 64]);
            let mut set = vec![0; 32 * n];
            (0..20u8).for_each(|k| insert(&mut set, xxh64(&[k])));
            let mut extra = header(set.len() as i64, flag());
            let h = extra.len();
            extra.extend(&set);
            let mut at = 0;
            let f = splice(&w, &extra, |m, start| {
                at = start;
                m.row_groups[0].columns[0].meta_data.as_mut().unwrap().bloom_filter_offset = Some(start as i64);
            });
            let m = read_metadata(&mut Cursor::new(&f[..]))?;
            let cut = choose(extra.len() + 1);
            visit(&(n, cut, h));
            let mut buf = pick(&[vec![], vec![0xff; 5000]]);
            let r = guard("read", || parquet2::bloom_filter::read(&m.row_groups[0].columns()[0], &mut Cursor::new(&f[..at + cut]), &mut buf))?;
            if cut == extra.len() {
                r?;
                ensure!(buf == set, "read-back", "a filter at the end of the storage");
            } else {
                ensure!(r.is_err(), "read-truncated", "{cut} of the {} bytes of a filter ({h} of them its header) are read as a filter of {} bytes", extra.len(), buf.len());
            }
            Ok(())
        }),
        space("read/none", move || {
            // bitsets that hold no filter exclude nothing
            let n = choose(32);
            for h in [0u64, 1, u64::MAX, 0x8000_0000_0000_0001, 0xdead_beef] {
                let r = guard("is_in_set", || is_in_set(&vec![0; n], h))?;
                ensure!(r, "false-negative", "a bitset of {n} bytes holds no filter, but excludes {h:#x}");
            }
            Ok(())
        }),
    ];
    Def {
        spaces,
        rule: "Filters of 1 to 65537 blocks; a single insertion for hashes on both sides of every border between blocks and every bit of the low half; every history of up to 5-6 insertions from a universe of 12 hashes over 1-4 blocks, with membership of the whole universe checked after every step; thousands of values of each kind; filters stored in files of two row groups and two columns, read in any order through one dirty buffer and through sources that transfer partially. Oracle: split-block insertion, lookup and XXH64 written from the specification. Files of which only some parts are not zero stand for files of more than 2 and 4 GiB: a small file moved to every offset around 2^31, 2^32, 2^33, 2^40, 2^53 and 2^62.",
        assumptions: vec!["a bitset is a whole number of 32-byte blocks, as the format requires", "the crate does not write filters: those in files are appended by the harness with a header built from the format"],
    }
}
