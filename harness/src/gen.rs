//! Generators.  Everything is a function of the given Rng.
use crate::rng::Rng;
use crate::spec::{self, Enc, Op};
use smdiff_common::Format;
use smdiff_encoder::{EncoderConfig, SecondaryCompression, SrcMatcherConfig, TrgtMatcherConfig};

pub fn block(r: &mut Rng, n: usize) -> Vec<u8> {
    let alpha = *r.pick(&[1usize, 2, 3, 4, 16, 64, 256, 256, 256]);
    let base = r.below(256) as u8;
    let mut v: Vec<u8> = r.bytes(n, alpha).iter().map(|b| b.wrapping_mul(37).wrapping_add(base)).collect();
    if r.chance(1, 6) && n > 8 {
        // periodic content
        let p = r.range(1, n.min(20));
        for i in p..n { v[i] = v[i - p]; }
    }
    v
}

pub const RUN_LENS: &[usize] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 61, 62, 63, 64, 123, 124, 125, 185, 186, 187, 248, 310, 311, 371, 372, 373, 374, 557, 558, 559, 744, 930, 1500];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Size { Tiny, Small, Mid, Large }

fn piece_len(r: &mut Rng, s: Size) -> usize {
    match s {
        Size::Tiny => r.range(0, 14),
        Size::Small => match r.below(4) { 0 => r.range(0, 12), 1 => r.range(5, 20), 2 => r.range(10, 90), _ => *r.pick(&[8usize, 9, 10, 11, 13, 17, 61, 62, 63, 64, 65]) },
        Size::Mid => match r.below(4) { 0 => r.range(0, 20), 1 => r.range(10, 300), 2 => r.range(200, 1500), _ => *r.pick(&[62usize, 63, 64, 255, 256, 316, 317, 318, 511, 512, 1023, 1024]) },
        Size::Large => match r.below(6) { 0 => r.range(1, 40), 1 => r.range(100, 5000), 2 => r.range(5000, 60000), 3 => r.range(60000, 140000), _ => *r.pick(&[65534usize, 65535, 65536, 65537, 131070, 131071, 70000, 317]) },
    }
}

pub fn source(r: &mut Rng, s: Size) -> Vec<u8> {
    let n = match s { Size::Tiny => r.range(0, 4), Size::Small => r.range(1, 7), Size::Mid => r.range(1, 7), Size::Large => r.range(1, 5) };
    let mut v = Vec::new();
    for _ in 0..n {
        match r.below(8) {
            0 => { let l = run_len(r, s); let c = r.below(256) as u8; v.resize(v.len() + l, c) }
            1 if !v.is_empty() => { let l = piece_len(r, s).min(v.len()); let a = r.below(v.len() - l + 1); let x = v[a..a + l].to_vec(); v.extend(x) }
            _ => { let l = piece_len(r, s); let b = block(r, l); v.extend(b) }
        }
    }
    v
}
fn run_len(r: &mut Rng, s: Size) -> usize {
    match s {
        Size::Tiny => r.range(1, 12),
        Size::Small => { let k = r.below(20); RUN_LENS[k.min(RUN_LENS.len() - 1)] }
        Size::Mid => *r.pick(RUN_LENS),
        Size::Large => if r.chance(1, 2) { *r.pick(RUN_LENS) } else { *r.pick(&[65534usize, 65535, 65536, 70000, 131070, 131256, 200000]) },
    }
}

/// A target related to the source by an edit script.
pub fn target(r: &mut Rng, src: &[u8], s: Size) -> Vec<u8> {
    let mut v = Vec::new();
    let style = r.below(12);
    match style {
        0 => { v.extend_from_slice(src); }
        1 => { v.extend_from_slice(src); let l = piece_len(r, s); v.extend(block(r, l)); }
        2 => { let l = piece_len(r, s); v.extend(block(r, l)); v.extend_from_slice(src); }
        3 => { let l = piece_len(r, s); v.extend(block(r, l)); }
        4 => {
            // point mutations
            v.extend_from_slice(src);
            for _ in 0..r.range(1, 5) { if !v.is_empty() { let i = r.below(v.len()); match r.below(3) { 0 => v[i] = r.below(256) as u8, 1 => { v.remove(i); } _ => v.insert(i, r.below(256) as u8) } } }
        }
        _ => {
            let n = match s { Size::Tiny => r.range(0, 6), Size::Large => r.range(1, 6), _ => r.range(1, 9) };
            for _ in 0..n {
                match r.below(9) {
                    0 | 1 | 2 if !src.is_empty() => {
                        let l = piece_len(r, s).min(src.len());
                        let a = match r.below(5) { 0 => 0, 1 => src.len() - l, _ => r.below(src.len() - l + 1) };
                        v.extend_from_slice(&src[a..a + l]);
                    }
                    3 | 4 if !v.is_empty() => {
                        let l = piece_len(r, s).min(v.len());
                        let a = match r.below(4) { 0 => 0, 1 => v.len() - l, _ => r.below(v.len() - l + 1) };
                        let x = v[a..a + l].to_vec();
                        v.extend(x);
                    }
                    5 => { let l = run_len(r, s); let c = if r.chance(1, 3) { 0 } else { r.below(256) as u8 }; v.resize(v.len() + l, c) }
                    6 if r.chance(1, 3) && src.len() < 300_000 => v.extend_from_slice(src),
                    _ => { let l = piece_len(r, s); let b = block(r, l); v.extend(b) }
                }
            }
        }
    }
    v
}

/// Differences between blocks that the encoder's rolling hashes do not tell apart (sums of c[i] * multiplier^(n-1-i) that are 0
/// modulo 2^64, and 2^32).
const TWINS9: &[[i16; 9]] = &[[18, -42, 20, 14, 27, -1, -66, 18, -48], [36, 8, -20, -27, 37, 11, 20, 66, 77], [57, -2, -191, -117, -184, 192, 36, 3, 54], [43, -79, -116, -151, -207, 111, 174, 21, -236], [29, 88, -53, 231, -55, -32, 43, 99, 122], [33, -58, -71, -113, 173, -42, -63, -92, -35], [95, 112, -16, 29, -104, -209, 86, 151, 76], [67, 238, 70, 177, -14, -92, -189, 70, 205], [55, 82, -64, 73, -151, 119, -222, 147, 45], [83, -110, -101, -72, -114, -39, -98, -213, -240], [205, 235, -75, 34, -30, -159, -90, 76, -52], [117, 17, -9, 134, -57, 56, -93, 79, 156], [145, 26, -22, 57, -218, 68, -238, 22, 92], [17, -50, -126, -104, 58, 90, 59, -87, -93]];
const TWINS4: &[[i16; 4]] = &[[160, -7, -43, -18], [191, 220, -25, -34], [31, 227, 18, -16], [129, -234, -61, -2]];
/// Two different blocks with one hash.
fn twin(r: &mut Rng, d: &[i16]) -> (Vec<u8>, Vec<u8>) {
    let d: Vec<i16> = if r.chance(1, 2) { d.iter().map(|x| -x).collect() } else { d.to_vec() };
    let a: Vec<u8> = d.iter().map(|c| { let (lo, hi) = ((-*c).max(0), 255 - (*c).max(0)); r.range(lo as usize, hi as usize) as u8 }).collect();
    let b = a.iter().zip(&d).map(|(x, c)| (*x as i16 + c) as u8).collect();
    (a, b)
}
/// Plants pairs of blocks with one hash: one in the source and one in the target, or both in the target.
pub fn plant_twins(r: &mut Rng, src: &mut Vec<u8>, trg: &mut Vec<u8>) {
    fn put(r: &mut Rng, v: &mut Vec<u8>, x: &[u8]) { let at = r.below(v.len() + 1); v.splice(at..at, x.iter().copied()); }
    for _ in 0..r.range(1, 3) {
        let t = r.pick(TWINS9);
        let (a, b) = twin(r, t);
        for _ in 0..r.range(1, 6) { put(r, src, &a); }
        for _ in 0..r.range(1, 3) { put(r, trg, &b); }
    }
    for _ in 0..r.range(0, 3) {
        let t = r.pick(TWINS4);
        let (a, b) = twin(r, t);
        for _ in 0..r.range(1, 3) { put(r, trg, &a); put(r, trg, &b); }
    }
}

pub fn sec_comp(r: &mut Rng) -> Option<SecondaryCompression> {
    match r.below(7) {
        0 | 1 | 2 => None,
        3 => Some(SecondaryCompression::Smdiff(trgt_cfg(r))),
        4 => Some(SecondaryCompression::Zstd { level: *r.pick(&[1, 2, 3, 4, 5, 7, 9]) }),
        5 => Some(brotli(r)),
        _ => Some(match r.below(4) { 0 => SecondaryCompression::default(), 1 => SecondaryCompression::new_smdiff_default(), 2 => SecondaryCompression::new_zstd_default(), _ => brotli(r) }),
    }
}
pub fn brotli(r: &mut Rng) -> SecondaryCompression {
    let mut o = brotlic::BrotliEncoderOptions::default();
    let q = *r.pick(&[0u8, 1, 2, 3, 4, 5, 6]);
    o.quality(brotlic::Quality::new(q).unwrap());
    if r.chance(1, 2) { o.window_size(brotlic::WindowSize::new(*r.pick(&[10u8, 16, 22])).unwrap()); }
    SecondaryCompression::Brotli { options: o }
}
/// The ends of what can be asked of the two compressors (within RFC 7932 for brotli: no large windows, no stream offset).
pub fn extreme(r: &mut Rng, a: u8) -> SecondaryCompression {
    use brotlic::{BlockSize, CompressionMode, Quality, WindowSize};
    if a == 2 { return SecondaryCompression::Zstd { level: *r.pick(&[i32::MIN, -100, -7, -1, 0, 8, 11, 13, 15, 17, 19, 20, 21, 22, 23, i32::MAX]) }; }
    let mut o = brotlic::BrotliEncoderOptions::default();
    o.quality(Quality::new(*r.pick(&[0u8, 2, 7, 8, 9, 10, 11])).unwrap()).window_size(WindowSize::new(r.range(10, 24) as u8).unwrap());
    if r.chance(1, 3) { o.block_size(BlockSize::new(r.range(16, 24) as u8).unwrap()); }
    if r.chance(1, 3) { o.mode(match r.below(3) { 0 => CompressionMode::Generic, 1 => CompressionMode::Text, _ => CompressionMode::Font }); }
    if r.chance(1, 3) { o.disable_context_modeling(true); }
    if r.chance(1, 3) { let p = r.below(4) as u32; o.postfix_bits(p); o.direct_distance_codes((r.below(16) as u32) << p); }
    if r.chance(1, 3) { o.size_hint(r.below(1 << 20) as u32); }
    SecondaryCompression::Brotli { options: o }
}
pub fn algo(s: &Option<SecondaryCompression>) -> u8 { match s { None => 0, Some(SecondaryCompression::Smdiff(_)) => 1, Some(SecondaryCompression::Zstd { .. }) => 2, Some(SecondaryCompression::Brotli { .. }) => 3 } }
/// For small contents.
pub fn any_sec_of_algo(r: &mut Rng, a: u8) -> Option<SecondaryCompression> {
    if a == 3 && r.chance(1, 8) { Some(SecondaryCompression::new_brotli_default()) } else { sec_of_algo(r, a) }
}
pub fn sec_of_algo(r: &mut Rng, a: u8) -> Option<SecondaryCompression> {
    if a >= 2 && r.chance(1, 24) { return Some(extreme(r, a)); }
    // the ready-made ones too (brotli's takes its time)
    if (a == 1 || a == 2) && r.chance(1, 8) {
        return Some(match a { 1 => SecondaryCompression::new_smdiff_default(), 2 if r.chance(1, 2) => SecondaryCompression::default(), _ => SecondaryCompression::new_zstd_default() });
    }
    match a { 0 => None, 1 => Some(SecondaryCompression::Smdiff(trgt_cfg(r))), 2 => Some(SecondaryCompression::Zstd { level: *r.pick(&[1, 1, 2, 3, 3, 5, 7, 9]) }), _ => Some(brotli(r)) }
}

pub fn trgt_cfg(r: &mut Rng) -> TrgtMatcherConfig {
    let mut c = TrgtMatcherConfig::comp_level(r.below(10));
    if r.chance(1, 4) { c.compress_early_exit = *r.pick(&[0usize, 1, 4, 5, 8, 1000, usize::MAX]); }
    if r.chance(1, 4) { c.chain_check = *r.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 100]); }
    if r.chance(1, 3) { c = c.with_table_capacity(*r.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 16, 100, 1000, 4096])); }
    c
}
pub fn src_cfg(r: &mut Rng) -> SrcMatcherConfig {
    match r.below(4) {
        0 => SrcMatcherConfig::comp_level(r.below(10)),
        1 => SrcMatcherConfig::new(r.range(0, 12), None),
        2 => SrcMatcherConfig::new(*r.pick(&[1usize, 2, 3, 4, 8, 9, 10, 13, 26, 50, 500]), Some(*r.pick(&[0usize, 1, 1 << 20, (1 << 20) + 1, 1 << 21]))),
        _ => SrcMatcherConfig::default(),
    }
}
pub fn config(r: &mut Rng) -> EncoderConfig {
    let mut c = match r.below(5) { 0 => EncoderConfig::default(), 1 => { let s = sec_comp(r); EncoderConfig::comp_level(r.below(10), r.chance(1, 2), s) } , _ => EncoderConfig::new() };
    if r.chance(2, 3) {
        c.match_src = match r.below(5) { 0 => None, _ => Some(src_cfg(r)) };
        c.match_trgt = match r.below(5) { 0 | 1 => None, _ => Some(trgt_cfg(r)) };
    }
    if r.chance(1, 2) { c.sec_comp = sec_comp(r); }
    if r.chance(1, 2) { c.format = if r.chance(1, 2) { Format::Interleaved } else { Format::Segregated }; }
    if r.chance(1, 2) { c.output_segment_size = *r.pick(&[0usize, 1, 65534, 65535, 65536, 70000, 131070, 131071, 1 << 20, (1 << 24) - 1, 1 << 24, usize::MAX]); }
    if r.chance(1, 4) { c.naive_tests = Some(Default::default()); }
    if r.chance(1, 2) { c.lazy_escape_len = *r.pick(&[None, Some(0usize), Some(1), Some(4), Some(5), Some(10), Some(45), Some(90), Some(1000), Some(usize::MAX)]); }
    c
}

// ---------------------------------------------------------------------------------------------
// operation lists

pub const LENS_SMALL: &[usize] = &[1, 1, 2, 2, 3, 4, 5, 7, 10, 20, 61, 62, 63, 64, 65];
pub const LENS_MID: &[usize] = &[1, 2, 5, 61, 62, 63, 64, 126, 127, 128, 255, 256, 257, 300, 316, 317, 318, 319, 1000];
pub const LENS_BIG: &[usize] = &[1, 62, 63, 64, 255, 256, 317, 318, 4095, 4096, 32767, 32768, 65279, 65280, 65534, 65535];

pub fn op_len(r: &mut Rng, s: Size) -> usize {
    match s { Size::Tiny => r.range(1, 4), Size::Small => *r.pick(LENS_SMALL), Size::Mid => *r.pick(LENS_MID), Size::Large => *r.pick(LENS_BIG) }
}
/// A legal operation list; copies stay inside the source and the output generated before.
pub fn ops(r: &mut Rng, src_len: usize, n: usize, s: Size) -> Vec<Op> { ops_after(r, src_len, n, s, 0, 255) }
pub fn ops_after(r: &mut Rng, src_len: usize, n: usize, s: Size, mut pos: usize, alpha: usize) -> Vec<Op> {
    let mut v = Vec::new();
    let wt = [[3, 2, 3, 3], [1, 1, 5, 1], [1, 1, 1, 5], [5, 1, 2, 1], [1, 5, 1, 2], [2, 2, 2, 2]][r.below(6)];
    for _ in 0..n {
        let l = op_len(r, s);
        let mut k = r.below(wt.iter().sum());
        let t = wt.iter().position(|w| if k < *w { true } else { k -= w; false }).unwrap();
        let copy_at = |r: &mut Rng, l: usize, lim: usize| -> Option<(usize, usize)> {
            if lim == 0 { return None; }
            let l = l.min(lim);
            Some((match r.below(4) { 0 => 0, 1 => lim - l, _ => r.below(lim - l + 1) }, l))
        };
        let op = match t {
            0 => { let b: Vec<u8> = if l > 1000 { let x = r.below(alpha + 1) as u8; (0..l).map(|i| x.wrapping_add((i / 997) as u8)).collect() } else { (0..l).map(|_| r.below(alpha + 1) as u8).collect() }; Op::A(b) }
            1 => Op::R(r.below(alpha + 1) as u8, if r.chance(1, 2) { *r.pick(&[1usize, 2, 3, 61, 62]) } else { l.min(62) }),
            2 => match copy_at(r, l, src_len) { Some((a, l)) => Op::D(a as u64, l), None => Op::R(1, 1) },
            _ => match copy_at(r, l, pos) { Some((a, l)) => Op::O(a as u64, l), None => Op::A(vec![9]) },
        };
        pos += op.len();
        v.push(op);
    }
    v
}

/// Groups ops into 1.. sections at random places.
pub fn split(r: &mut Rng, ops: &[Op], max: usize) -> Vec<Vec<Op>> {
    let k = r.range(1, max);
    let mut cuts: Vec<usize> = (0..k - 1).map(|_| r.below(ops.len() + 1)).collect();
    cuts.sort();
    cuts.insert(0, 0);
    cuts.push(ops.len());
    cuts.windows(2).map(|w| ops[w[0]..w[1]].to_vec()).collect()
}

pub fn enc(r: &mut Rng) -> Enc { Enc { form: r.below(3) as u8, pad: if r.chance(1, 4) { r.range(0, 10) } else { 0 } } }

/// A section written by the rules of the document with freely chosen alternatives.
pub fn section(r: &mut Rng, ops: &[Op], algo: u8, seg: bool, more: bool, plain: bool) -> Vec<u8> {
    let mut out = Vec::new();
    let hp = if plain || r.chance(3, 4) { 0 } else { r.range(0, 10) };
    spec::put_header(&mut out, algo, seg, more, ops.len() as u64, spec::add_len(ops) as u64, spec::out_len(ops) as u64, hp);
    let mut body = Vec::new();
    { let mut f = || if plain { Enc::default() } else { enc(r) }; spec::put_body(&mut body, ops, seg, &mut f); }
    pack(r, &mut out, body, algo, plain);
    out
}
/// The body of a section, compressed.
pub fn pack(r: &mut Rng, out: &mut Vec<u8>, body: Vec<u8>, algo: u8, plain: bool) {
    match algo {
        0 => out.extend(body),
        1 => {
            // the body as an smdiff patch of literals and runs and output copies
            let iops = as_ops(r, &body);
            let parts = split(r, &iops, 3);
            let n = parts.len();
            for (i, p) in parts.iter().enumerate() { let s = r.chance(1, 2); out.extend(section(r, p, 0, s, i + 1 < n, plain)); }
        }
        2 => { let lvl = *r.pick(&[1, 3, 5]); out.extend(zstd::encode_all(&body[..], lvl).unwrap()) }
        _ => {
            use std::io::Write;
            let mut o = brotlic::BrotliEncoderOptions::default();
            o.quality(brotlic::Quality::new(*r.pick(&[1u8, 3, 5])).unwrap());
            let mut w = brotlic::CompressorWriter::with_encoder(o.build().unwrap(), &mut *out);
            w.write_all(&body).unwrap();
            w.into_inner().unwrap();
        }
    }
}
/// Some operation list that produces the given bytes without a source.
pub fn as_ops(r: &mut Rng, b: &[u8]) -> Vec<Op> {
    let mut v = Vec::new();
    let mut p = 0;
    while p < b.len() {
        let run = b[p..].iter().take_while(|x| **x == b[p]).count().min(62);
        if run >= 3 || (run > 0 && r.chance(1, 8)) { v.push(Op::R(b[p], run)); p += run; continue; }
        if p > 3 && r.chance(1, 4) {
            let a = r.below(p - 2);
            let l = (0..(p - a).min(b.len() - p)).take_while(|i| b[a + i] == b[p + i]).count().min(65535);
            if l > 0 { v.push(Op::O(a as u64, l)); p += l; continue; }
        }
        let l = r.range(1, 80).min(b.len() - p);
        v.push(Op::A(b[p..p + l].to_vec()));
        p += l;
    }
    v
}
/// A whole patch from sections, algorithms and layouts chosen freely.
pub fn patch(r: &mut Rng, secs: &[Vec<Op>], comp: bool, plain: bool) -> Vec<u8> {
    let mut out = Vec::new();
    for (i, s) in secs.iter().enumerate() {
        let algo = if comp { r.below(4) as u8 } else { 0 };
        let seg = r.chance(1, 2);
        out.extend(section(r, s, algo, seg, i + 1 < secs.len(), plain));
    }
    out
}

/// Damage, of the kinds a file can suffer or an attacker would choose.
pub fn mutate(r: &mut Rng, p: &mut Vec<u8>) {
    const NASTY: &[u8] = &[0, 1, 2, 62, 63, 64, 127, 128, 129, 191, 192, 254, 255];
    for _ in 0..r.range(1, 3) {
        if p.is_empty() { p.push(r.below(256) as u8); continue; }
        let i = if r.chance(1, 2) { r.below(p.len().min(8)) } else { r.below(p.len()) };
        match r.below(9) {
            0 => p[i] = r.below(256) as u8,
            1 => p[i] = *r.pick(NASTY),
            2 => p[i] ^= 1 << r.below(8),
            3 => { p.remove(i); }
            4 => p.insert(i, *r.pick(NASTY)),
            5 => p.truncate(i),
            6 => p[i] = p[i].wrapping_add(*r.pick(&[1u8, 2, 255, 254])),
            7 => { // a long varint
                let n = r.range(1, 12);
                let tail = *r.pick(&[0u8, 1, 2, 127]);
                p.splice(i..i + 1, (0..n).map(|k| if k + 1 < n { *[255u8, 128].get(k & 1).unwrap() } else { tail }));
            }
            _ => { let j = r.below(p.len()); let (a, b) = (i.min(j), i.max(j)); let x = p[a..b].to_vec(); let at = r.below(p.len() + 1); for (k, y) in x.into_iter().take(40).enumerate() { p.insert(at + k, y); } }
        }
    }
}
