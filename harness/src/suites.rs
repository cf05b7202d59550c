//! One suite per property: idx -> what the real code did on the case with that number.
use crate::gen::{self, Size};
use crate::obs::*;
use crate::opsrec::OpsRec;
use crate::out::{hash, Out};
use crate::rec::{Cfg, Rec};
use crate::rng::Rng;
use crate::spec::{self, Op, Sec, Verdict};
use smdiff_common::{Format, SectionHeader};
use smdiff_encoder::{EncoderConfig, SecondaryCompression, SrcMatcherConfig, TrgtMatcherConfig};
use std::io::Cursor;

pub type Suite = fn(u64, u64, Option<&str>) -> Vec<Out>;
pub const ALL: &[(&str, Suite)] = &[
    ("c01", c01), ("c02", c02), ("c03", c03), ("c04", c04), ("c05", c05), ("c07", c07), ("c08", c08), ("c09", c09), ("c10", c10),
    ("c13", c13), ("c14", c14), ("c17", c17), ("c18", c18), ("c18i", crate::iter::c18i), ("c19", c19), ("c20", c20), ("c22", c22),
    ("c06", crate::suites2::c06), ("c11", crate::suites2::c11), ("c15", crate::suites2::c15), ("c12", crate::suites2::c12), ("c16", crate::io::c16), ("cfg", crate::config::cfg_suite), ("c13v", crate::suites2::c13v), ("c21", crate::session::c21),
];

fn rng(seed: u64, suite: u64, idx: u64) -> Rng { Rng::new(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (suite << 48) ^ idx) }
fn id(idx: u64, k: usize) -> u64 { idx * 64 + k as u64 }
pub fn fmt(seg: bool) -> Format { if seg { Format::Segregated } else { Format::Interleaved } }

// ---------------------------------------------------------------------------------------------
// Encoding

pub struct EncCase { pub src: Option<Vec<u8>>, pub trg: Vec<u8>, pub cfg: EncoderConfig, pub size: Size }

pub fn enc_case(r: &mut Rng, idx: u64) -> EncCase {
    let size = match idx % 40 { 0..=13 => Size::Tiny, 14..=27 => Size::Small, 28..=37 => Size::Mid, _ => Size::Large };
    if idx % 400 == 399 { return enc_xl(r); }
    if idx % 6000 == 4001 { return enc_huge(r); }
    if idx % 400 == 199 { return enc_edges(r); }
    if idx % 400 == 299 { return enc_literal(r); }
    let s = gen::source(r, size);
    let mut s = s;
    let mut trg = gen::target(r, &s, size);
    let twins = r.chance(1, 8);
    if twins { gen::plant_twins(r, &mut s, &mut trg); }
    let src = if r.chance(1, 10) { None } else { Some(s) };
    let mut cfg = gen::config(r);
    if twins && r.chance(1, 2) { cfg.match_src = Some(SrcMatcherConfig::new(r.range(1, 3), None)); cfg.match_trgt = Some(TrgtMatcherConfig::comp_level(r.below(10))); }
    if size != Size::Large && r.chance(1, 16) { let a = if r.chance(1, 2) { 2 } else { 3 }; cfg.sec_comp = Some(gen::extreme(r, a)); }
    // escaping never is quadratic
    if size == Size::Large && cfg.lazy_escape_len == Some(usize::MAX) { cfg.lazy_escape_len = Some(1000); }
    EncCase { src, trg, cfg, size }
}
/// Source larger than the matcher's window, content moved over long distances.
fn enc_xl(r: &mut Rng) -> EncCase {
    let n = r.range(2 << 20, 5 << 20);
    let src: Vec<u8> = { let mut x = r.next(); (0..n).map(|_| { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (x >> 56) as u8 }).collect() };
    let mut trg = Vec::new();
    for _ in 0..r.range(2, 6) {
        let l = r.range(1000, n / 2);
        let a = r.below(n - l);
        trg.extend_from_slice(&src[a..a + l]);
        let e = r.range(0, 50);
        trg.extend(gen::block(r, e));
    }
    let mut cfg = gen::config(r);
    cfg.match_src = Some(SrcMatcherConfig::new(*r.pick(&[2usize, 8, 26, 50]), if r.chance(2, 3) { Some(1 << 20) } else { None }));
    if r.chance(2, 3) { cfg.match_trgt = None; }
    if cfg.lazy_escape_len.map_or(false, |l| l > 500) { cfg.lazy_escape_len = None; }
    if let Some(SecondaryCompression::Brotli { .. }) = cfg.sec_comp { cfg.sec_comp = None; }
    EncCase { src: Some(src), trg, cfg, size: Size::Large }
}
/// A target that needs several sections whatever the configured section size.
fn enc_huge(r: &mut Rng) -> EncCase {
    let n = r.range(1 << 20, 4 << 20);
    let src: Vec<u8> = { let mut x = r.next(); (0..n).map(|_| { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (x >> 56) as u8 }).collect() };
    let want = (1 << 24) + *r.pick(&[0usize, 1, 2, 70_000, 1 << 20]) + r.below(3) ;
    let mut trg = Vec::with_capacity(want);
    while trg.len() < want {
        if r.chance(1, 3) { let l = r.range(1, 1 << 20); trg.resize(trg.len() + l, 9); }
        let l = r.range(n / 2, n).min(want.saturating_sub(trg.len()));
        let a = r.below(n - l + 1);
        trg.extend_from_slice(&src[a..a + l]);
    }
    trg.truncate(want);
    let mut cfg = EncoderConfig::default();
    cfg.output_segment_size = *r.pick(&[usize::MAX, 1 << 32, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 24) + 65536, 1 << 26, 5_000_000]);
    if r.chance(1, 2) { cfg = cfg.format_segregated(); }
    EncCase { src: Some(src), trg, cfg, size: Size::Large }
}
/// Matches that end or start within a few bytes of where they could not: ends, run edges, size limits.
/// Nothing but literals (and a few runs): sections that hold a single operation, or end or begin with one that fills them.
fn enc_literal(r: &mut Rng) -> EncCase {
    let fresh = |r: &mut Rng, n: usize| -> Vec<u8> { let mut x = r.next() | 1; (0..n).map(|_| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; (x >> 11) as u8 }).collect() };
    let mut trg = Vec::new();
    for _ in 0..r.range(1, 3) {
        let n = 65535 * r.range(1, 2) + match r.below(4) { 0 => 0, 1 => r.range(1, 3), 2 => r.range(1, 70_000), _ => r.range(1, 400) } - r.below(2);
        let b = fresh(r, n);
        trg.extend(b);
        if r.chance(1, 3) { let n = r.range(1, 400); trg.resize(trg.len() + n, 7); }
    }
    let mut cfg = gen::config(r);
    cfg.output_segment_size = *r.pick(&[0usize, 65535, 65536, 65537, 70_000, 131_069, 131_070, 131_071, 1 << 18]);
    if r.chance(1, 2) { cfg.format = fmt(true); }
    if r.chance(1, 2) { cfg.match_trgt = None; }
    if cfg.lazy_escape_len.map_or(false, |l| l > 1000) { cfg.lazy_escape_len = Some(1000); }
    let src = if r.chance(1, 2) { Some(gen::block(r, 60)) } else { None };
    EncCase { src, trg, cfg, size: Size::Large }
}
fn enc_edges(r: &mut Rng) -> EncCase {
    let unit = *r.pick(&[65535usize, 65536, 62, 63, 317, 318, 131070, 131071, 372, 186]);
    let a = { let n = unit + r.range(0, 3); let mut b = vec![0; n]; let mut x = r.next() | 1; for v in b.iter_mut() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; *v = x as u8; } b };
    let mut trg = Vec::new();
    let e = r.range(0, 12);
    trg.extend(gen::block(r, e));
    trg.extend_from_slice(&a);
    let e = r.range(0, 12);
    trg.extend(gen::block(r, e));
    if r.chance(1, 2) { let n = unit + r.range(0, 3); trg.resize(trg.len() + n, 7); }
    if r.chance(1, 2) { trg.extend_from_slice(&a[..a.len() - r.range(0, 3)]); }
    let src = if r.chance(1, 3) { Some(gen::block(r, 50)) } else { Some(a) };
    let mut cfg = gen::config(r);
    if r.chance(1, 2) { cfg.match_trgt = Some(gen::trgt_cfg(r)); }
    if cfg.lazy_escape_len.map_or(false, |l| l > 1000) { cfg.lazy_escape_len = Some(1000); }
    EncCase { src, trg, cfg, size: Size::Large }
}

pub fn run_encode(src: Option<&[u8]>, trg: &[u8], cfg: &EncoderConfig) -> (&'static str, Vec<u8>) {
    let mut out = Vec::new();
    let (r, _) = guard(|| {
        let mut t = Cursor::new(trg);
        match src { Some(s) => { let mut c = Cursor::new(s); smdiff_encoder::encode(Some(&mut c), &mut t, &mut out, cfg) } None => smdiff_encoder::encode(None, &mut t, &mut out, cfg) }
    });
    (r, out)
}
fn cfg_of(c: &EncCase) -> Cfg {
    let nosrc = c.cfg.match_src.is_none() || c.src.as_ref().map_or(true, |s| s.is_empty());
    Cfg { algo: gen::algo(&c.cfg.sec_comp), seg: c.cfg.format.is_segregated(), lim: c.cfg.output_segment_size, nosrc, notrgt: c.cfg.match_trgt.is_none(), lit: usize::MAX >> 1, nops: usize::MAX >> 1 }
}
fn big(c: &EncCase) -> bool { c.trg.len() + c.src.as_ref().map_or(0, |s| s.len()) > 20_000 }
/// An operation-level record of a large encoding.
pub fn ops_out(i: u64, tag: &str, c: &EncCase, patch: &[u8], dec: &spec::Dec, wr: &'static str, applied: &Applied, want: Vec<&'static str>, cfg: Cfg, same: bool) -> Out {
    let o = OpsRec { id: i, tag: tag.into(), dec, plen: patch.len(), src: c.src.as_deref(), target: &c.trg, cfg, want, applied: (applied.r, &applied.out), same, wr };
    let fails = o.fails();
    let n: usize = dec.secs.iter().map(|s| s.ops.len()).sum();
    let use_it = n < 4000 || !fails.is_empty() || tag == "many";
    Out { kind: "ops", json: if use_it { o.to_json() } else { String::new() }, fails, weight: 200 + n * 12, key: hash(patch), nontrivial: n > 0 }
}
fn enc_common(i: u64, tag: &str, c: EncCase, apply_it: bool, want: &[&'static str]) -> Vec<Out> {
    let (wr, patch) = run_encode(c.src.as_deref(), &c.trg, &c.cfg);
    let cfg = cfg_of(&c);
    let failed = wr != "ok";
    // whether encoding succeeds at all is the business of those that ask for "wr"
    let want: Vec<&'static str> = if failed { if want.contains(&"wr") { vec!["wr"] } else { vec![] } } else { want.to_vec() };
    if big(&c) {
        let dec = spec::decode(if failed { &[] } else { &patch }, c.src.as_deref());
        let a = if apply_it && !failed { apply(&patch, c.src.as_deref()) } else { Applied { r: "none", out: vec![], src_same: true } };
        return vec![ops_out(i, tag, &c, &patch, &dec, wr, &a, want, cfg, true)];
    }
    let mut rec = Rec::new(i, tag, if failed { vec![] } else { patch }, c.src.clone());
    rec.wr = wr;
    rec.cfg = Some(cfg);
    rec.target = Some(c.trg);
    if apply_it && !failed { rec.apply = Some(apply(&rec.patch, rec.src.as_deref())); }
    rec.want = want;
    vec![rec.into()]
}
/// Source and target of an edit history of the specification (spec/SmdVersions.tla), its blocks `lens` long,
/// and how many of the target's bytes are new, and in how many pieces.
pub struct Script { pub src: Vec<u8>, pub trg: Vec<u8>, pub new: usize, pub seams: usize }
pub fn script_of(r: &mut Rng, case: &str, lens: &[usize], runs: &[usize]) -> Script {
    let j = crate::json::parse(case);
    let list = |k: &str| -> Vec<usize> { j.get(k).a().iter().map(|b| b.u()).collect() };
    let mut blocks: std::collections::BTreeMap<usize, Vec<u8>> = Default::default();
    let salt = r.next();
    let run = *r.pick(runs);
    let low = r.chance(1, 4);
    let mut block = |r: &mut Rng, b: usize| -> Vec<u8> {
        if b == 0 { return vec![9; run]; }
        let id = b % 100;
        let whole = blocks.entry(id).or_insert_with(|| { let n = *r.pick(lens); let mut x = Rng::new(salt ^ (id as u64) << 32); (0..n).map(|_| if low && n < 200 { (x.next() >> 40) as u8 & 1 } else { (x.next() >> 40) as u8 }).collect() }).clone();
        match b / 100 { 0 => whole, 1 => { let mut w = whole; let i = (salt as usize) % w.len(); w[i] ^= 0x41; w } 2 => whole[..(whole.len() + 1) / 2].to_vec(), _ => whole[whole.len() / 2..].to_vec() }
    };
    let src: Vec<u8> = list("src").iter().flat_map(|b| block(r, *b)).collect();
    let trg: Vec<u8> = list("trg").iter().flat_map(|b| block(r, *b)).collect();
    let new = (11..20).filter_map(|b| blocks.get(&b).map(|x| x.len())).sum::<usize>() + j.get("touched").u();
    Script { src, trg, new, seams: j.get("seams").u() }
}
fn enc_of(r: &mut Rng, idx: u64, case: Option<&str>) -> EncCase {
    let Some(c) = case else { return enc_case(r, idx) };
    let size = match idx % 16 { 0..=6 => Size::Small, 7..=13 => Size::Mid, _ => Size::Large };
    let (lens, runs): (&[usize], &[usize]) = match size {
        Size::Small => (&[1, 2, 3, 4, 5, 8, 16, 32], &[1, 2, 3, 62, 63]),
        Size::Mid => (&[5, 62, 63, 64, 186, 317, 318, 319, 1000], &[2, 61, 62, 124, 125, 186, 371, 372, 373]),
        _ => (&[1000, 4096, 8000, 16_384, 65_535, 65_536, 70_000], &[372, 5000, 65_535, 65_721, 70_000]),
    };
    let s = script_of(r, c, lens, runs);
    let mut cfg = gen::config(r);
    if size == Size::Large && cfg.lazy_escape_len == Some(usize::MAX) { cfg.lazy_escape_len = Some(1000); }
    let src = if s.src.is_empty() && r.chance(1, 2) { None } else { Some(s.src) };
    EncCase { src, trg: s.trg, cfg, size }
}
fn c01(seed: u64, idx: u64, case: Option<&str>) -> Vec<Out> {
    let mut r = rng(seed, 1, idx);
    let mut c = enc_of(&mut r, idx, case);
    if case.is_none() && idx % crate::suites3::EVERY == 77 { let (s, t) = crate::suites3::target(&mut r); c.src = s; c.trg = t; if c.cfg.lazy_escape_len == Some(usize::MAX) { c.cfg.lazy_escape_len = None; } }
    enc_common(id(idx, 0), "enc", c, true, &["wr", "rt"])
}
fn c02(seed: u64, idx: u64, case: Option<&str>) -> Vec<Out> {
    let mut r = rng(seed, 2, idx);
    let mut c = enc_of(&mut r, idx, case);
    if case.is_none() && idx % crate::suites3::EVERY == 77 { let (s, t) = crate::suites3::target(&mut r); c.src = s; c.trg = t; if c.cfg.lazy_escape_len == Some(usize::MAX) { c.cfg.lazy_escape_len = None; } }
    enc_common(id(idx, 0), "enc", c, false, &["legal"])
}
fn c19(seed: u64, idx: u64, case: Option<&str>) -> Vec<Out> {
    let mut r = rng(seed, 19, idx);
    let mut c = enc_of(&mut r, idx, case);
    if r.chance(1, 4) && c.trg.len() < 400_000 && c.size == Size::Large { // force several sections
        let n = r.range(60_000, 140_000);
        c.trg.extend(gen::block(&mut r, n));
        c.cfg.output_segment_size = *r.pick(&[0usize, 65535, 65536, 70000, 131071]);
    }
    enc_common(id(idx, 0), "cfg", c, false, &["cfg", "notrgt"])
}
/// Incompressible content and edits of known cost.
fn c20(seed: u64, idx: u64, case: Option<&str>) -> Vec<Out> {
    let mut r = rng(seed, 20, idx);
    if let Some(c) = case { return if c.contains("\"edits\"") { c20_moves(&mut r, idx, c) } else { c20_script(&mut r, idx, c) }; }
    if idx % 12 == 7 { return c20_window(&mut r, idx); }
    if idx % 12 == 3 || idx % 12 == 9 { return c20_pieces(&mut r, idx); }
    let n = match idx % 8 { 0..=2 => r.range(200, 2000), 3..=4 => r.range(2000, 20_000), _ => r.range(30_000, 200_000) };
    let rnd = |r: &mut Rng, n: usize| -> Vec<u8> { (0..n).map(|_| (r.next() >> 33) as u8).collect() };
    let src = rnd(&mut r, n);
    let k = r.range(1, (n / 3).min(400));
    let new = rnd(&mut r, k);
    let level = r.below(10);
    // the first block is found where it starts; later ones from their hash table samples, some of which
    // collide, so that a seam may cost a multiple of the distance between samples
    let seam = 64;
    let far = 6000;
    let hard = n >= 30_000;
    let mut src_opt = Some(src.clone());
    let mut cfg = EncoderConfig::comp_level(level, r.chance(1, 3), None);
    if r.chance(1, 4) { cfg.lazy_escape_len = Some(*r.pick(&[0usize, 10, 45, 90])); }
    if r.chance(1, 4) { cfg.naive_tests = Some(Default::default()); }
    let (tag, trg, lit): (&str, Vec<u8>, usize) = match if hard { r.below(9) } else { *r.pick(&[0usize, 1, 2, 8]) } {
        0 => ("same", src.clone(), seam),
        1 => ("append", [&src[..], &new[..]].concat(), k + seam),
        2 => ("prepend", [&new[..], &src[..]].concat(), k + seam),
        3 => { let a = r.below(n); ("insert", [&src[..a], &new[..], &src[a..]].concat(), k + far) }
        4 => { let a = r.below(n); let l = r.range(1, n - a); ("remove", [&src[..a], &src[a + l..]].concat(), far) }
        5 => { let a = r.range(1, n - 1); ("swap", [&src[a..], &src[..a]].concat(), far) }
        7 => {
            // long stretches of one byte between new data, with or without target matching
            let mut t = vec![];
            let m = r.range(1, 3);
            for _ in 0..m { t.extend(rnd(&mut r, 20)); let b = r.below(256) as u8; let l = r.range(400, 200_000); t.extend(vec![b; l]); }
            ("runs", t, m * 20 + seam)
        }
        6 => { let mut t = src.clone(); let m = r.range(1, 4); for _ in 0..m { let i = r.below(n); t[i] ^= 0x55; } ("point", t, m * (far)) }
        _ => {
            // repetition inside the target, nothing to find in the source
            cfg = EncoderConfig::comp_level(level, true, None);
            if r.chance(1, 2) { src_opt = None; } else { src_opt = Some(rnd(&mut r, 500)); }
            let x = rnd(&mut r, n.min(30_000));
            let mut t = x.clone();
            let reps = r.range(1, 3);
            for _ in 0..reps { if r.chance(1, 2) { let g = r.range(0, 20); t.extend(rnd(&mut r, g)); } t.extend_from_slice(&x); }
            // 3 repeats, gaps of up to 20 bytes
            ("repeat", t, x.len() + reps * (20 + seam))
        }
    };
    let c = EncCase { src: src_opt, trg, cfg, size: Size::Mid };
    let (wr, patch) = run_encode(c.src.as_deref(), &c.trg, &c.cfg);
    let mut cf = cfg_of(&c);
    cf.lit = lit;
    cf.nops = few(c.trg.len(), 4, lit);
    let want: Vec<&'static str> = if wr == "ok" { vec!["lit", "nops"] } else { vec![] };
    let dec = spec::decode(if wr == "ok" { &patch } else { &[] }, c.src.as_deref());
    if big(&c) { return vec![ops_out(id(idx, 0), tag, &c, &patch, &dec, wr, &Applied { r: "none", out: vec![], src_same: true }, want, cf, true)]; }
    let mut rec = Rec::new(id(idx, 0), tag, if wr == "ok" { patch } else { vec![] }, c.src);
    rec.cfg = Some(cf);
    rec.want = want;
    vec![rec.into()]
}

/// How many operations a patch may hold whose target has `seams` places where it stops following what was there before
/// and `new` bytes that were not: one for every 65,535 bytes at most and a few for every change, twice over.
fn few(len: usize, seams: usize, new: usize) -> usize { 2 * (len / 65_535 + 1) + 6 * seams + new / 256 + 32 }

/// Sources that are larger than the matcher's window (or than its tables would be for a smaller one): the window has to
/// follow the target, also when an edit falls where it is about to move.
fn c20_window(r: &mut Rng, idx: u64) -> Vec<Out> {
    const HALF: usize = 1 << 19;
    let n = r.range(1_300_000, 4_000_000);
    let src: Vec<u8> = { let mut x = Rng::new(r.next()); (0..n).map(|_| (x.next() >> 33) as u8).collect() };
    let mut trg = Vec::with_capacity(n);
    let (mut at, mut new, mut seams, mut gone) = (0, 0, 0, 0);
    let mut next = r.range(HALF - 50, HALF + 200_000);
    for _ in 0..r.range(2, 5) {
        if next <= trg.len() || at + next - trg.len() + 6000 > n { break; }
        let l = next - trg.len();
        trg.extend_from_slice(&src[at..at + l]);
        at += l;
        if r.chance(3, 4) { let k = r.range(1, 30); trg.extend((0..k).map(|_| (r.next() >> 33) as u8)); new += k; } else { let k = r.range(1, 5000); at += k; gone += k; }
        seams += 1;
        // the window moves at the first match that ends half a window after its last move
        next = if r.chance(2, 3) { next + HALF - r.range(1, 60) } else { next + r.range(1000, 2 * HALF) };
    }
    trg.extend_from_slice(&src[at..]);
    let win = if r.chance(3, 4) { Some(*r.pick(&[1usize, 1 << 20])) } else { None };
    let mut cfg = EncoderConfig::default().set_match_src(if r.chance(1, 2) { SrcMatcherConfig::new(*r.pick(&[2usize, 5, 8, 12, 26]), win) } else { SrcMatcherConfig { max_src_win_size: win, ..SrcMatcherConfig::comp_level(r.below(10)) } });
    if r.chance(1, 4) { cfg.lazy_escape_len = Some(*r.pick(&[0usize, 10, 45])); }
    let c = EncCase { src: Some(src), trg, cfg, size: Size::Large };
    let (wr, patch) = run_encode(c.src.as_deref(), &c.trg, &c.cfg);
    let mut cf = cfg_of(&c);
    cf.lit = new + gone + 64 + seams * 6000;
    cf.nops = few(c.trg.len(), seams, new);
    let dec = spec::decode(if wr == "ok" { &patch } else { &[] }, c.src.as_deref());
    let want: Vec<&'static str> = if wr == "ok" { vec!["lit", "nops"] } else { vec![] };
    vec![ops_out(id(idx, 0), "window", &c, &patch, &dec, wr, &Applied { r: "none", out: vec![], src_same: true }, want, cf, true)]
}

/// Many short pieces of the source in another order, a byte or a few between them, the longest ones first, last or
/// anywhere: an encoder that indexes (nearly) every position finds each of them.
fn c20_pieces(r: &mut Rng, idx: u64) -> Vec<Out> {
    let n = r.range(2000, 60_000);
    let src: Vec<u8> = (0..n).map(|_| (r.next() >> 33) as u8).collect();
    let mut lens: Vec<usize> = (0..r.range(2, 80)).map(|_| r.range(40, 300)).collect();
    match r.below(3) { 0 => lens.sort(), 1 => lens.sort_by(|a, b| b.cmp(a)), _ => {} }
    let mut trg = vec![];
    let mut new = 0;
    if r.chance(1, 2) { let k = r.range(4, 100); trg.extend(vec![r.below(256) as u8; k]); }
    let runs = trg.len();
    for l in &lens {
        let a = r.below(n - l);
        trg.extend_from_slice(&src[a..a + l]);
        let k = r.range(0, 4);
        trg.extend((0..k).map(|_| (r.next() >> 33) as u8));
        new += k;
    }
    let mut cfg = EncoderConfig::default().set_match_src(SrcMatcherConfig::new(*r.pick(&[1usize, 2]), None));
    if r.chance(1, 2) { cfg = cfg.set_match_target(TrgtMatcherConfig::comp_level(r.below(10))); }
    cfg.lazy_escape_len = *r.pick(&[None, Some(0usize), Some(10), Some(45), Some(90), Some(300)]);
    if r.chance(1, 3) { cfg.naive_tests = Some(Default::default()); }
    let seams = lens.len();
    let c = EncCase { src: Some(src), trg, cfg, size: Size::Large };
    let (wr, patch) = run_encode(c.src.as_deref(), &c.trg, &c.cfg);
    let mut cf = cfg_of(&c);
    cf.lit = new + runs + 64 + seams * 6;
    cf.nops = few(c.trg.len(), seams, new + runs);
    let dec = spec::decode(if wr == "ok" { &patch } else { &[] }, c.src.as_deref());
    let want: Vec<&'static str> = if wr == "ok" { vec!["lit", "nops"] } else { vec![] };
    vec![ops_out(id(idx, 0), "pieces", &c, &patch, &dec, wr, &Applied { r: "none", out: vec![], src_same: true }, want, cf, true)]
}

/// A case of MCWindow: copies and edits counted in quarters of half a source window.  Every copy ends where the case
/// says or up to 60 bytes before it.
fn c20_moves(r: &mut Rng, idx: u64, case: &str) -> Vec<Out> {
    const UNIT: usize = (1 << 19) / 4;
    let j = crate::json::parse(case);
    let n = 24 * UNIT;
    let src: Vec<u8> = { let mut x = Rng::new(r.next()); (0..n).map(|_| (x.next() >> 33) as u8).collect() };
    let mut trg = Vec::with_capacity(n + 4 * UNIT);
    let (mut at, mut new, mut seams, mut gone, mut lost) = (0usize, 0, 0, 0, 0);
    let mut off = 0usize; // by how much the last copy fell short
    for e in j.get("edits").a() {
        let back = if r.chance(1, 3) { 0 } else { r.below(61) };
        let l = (e.get("copy").u() as usize * UNIT + off).saturating_sub(back).max(1);
        off = back;
        trg.extend_from_slice(&src[at..at + l]);
        at += l;
        match e.get("kind").s() {
            "insert" => { let mut x = Rng::new(r.next()); trg.extend((0..UNIT).map(|_| (x.next() >> 33) as u8)); new += UNIT; }
            "remove" => { at += UNIT; gone += UNIT; }
            _ => { let k = r.range(1, 30); trg.extend((0..k).map(|_| (r.next() >> 33) as u8)); new += k; }
        }
        lost += gone;
        seams += 1;
    }
    trg.extend_from_slice(&src[at..]);
    let win = Some(*r.pick(&[1usize, 1 << 20]));
    let mut cfg = EncoderConfig::default().set_match_src(if r.chance(1, 2) { SrcMatcherConfig::new(*r.pick(&[2usize, 5, 8, 12, 26]), win) } else { SrcMatcherConfig { max_src_win_size: win, ..SrcMatcherConfig::comp_level(r.below(10)) } });
    if r.chance(1, 4) { cfg.lazy_escape_len = Some(*r.pick(&[0usize, 10, 45])); }
    let c = EncCase { src: Some(src), trg, cfg, size: Size::Large };
    let (wr, patch) = run_encode(c.src.as_deref(), &c.trg, &c.cfg);
    let mut cf = cfg_of(&c);
    cf.lit = new + lost + 64 + seams * 6000;
    cf.nops = few(c.trg.len(), seams, new);
    let dec = spec::decode(if wr == "ok" { &patch } else { &[] }, c.src.as_deref());
    let want: Vec<&'static str> = if wr == "ok" { vec!["lit", "nops"] } else { vec![] };
    vec![ops_out(id(idx, 0), "moves", &c, &patch, &dec, wr, &Applied { r: "none", out: vec![], src_same: true }, want, cf, true)]
}

/// Long incompressible blocks under an edit history of the specification, whose model bounds the literals of an
/// encoder that takes longest matches: the new bytes, and less than a shortest match at every seam.  Here a seam may
/// cost as much as the matchers' hash table samples let it.
fn c20_script(r: &mut Rng, idx: u64, case: &str) -> Vec<Out> {
    let mut s = script_of(r, case, &[24_000, 30_000, 37_001], &[1000, 20_000]);
    let level = r.below(10);
    let trg_too = r.chance(1, 2);
    let mut cfg = EncoderConfig::comp_level(level, trg_too, None);
    if r.chance(1, 4) { cfg.lazy_escape_len = Some(*r.pick(&[0usize, 10, 45, 90])); }
    if r.chance(1, 4) { cfg.naive_tests = Some(Default::default()); }
    // without target matching a block new to the source is stored each time, and so may a run be
    let j = crate::json::parse(case);
    if !trg_too && j.get("trg").a().iter().any(|b| b.u() == 0) { cfg = EncoderConfig::comp_level(level, true, None); }
    if !trg_too { let fresh = j.get("trg").a().iter().filter(|b| (11..20).contains(&(b.u() % 100))).count(); if fresh > j.get("fresh").u() { cfg = EncoderConfig::comp_level(level, true, None); } }
    let lit = s.new + 64 + s.seams * 2000;
    let src = std::mem::take(&mut s.src);
    let c = EncCase { src: if src.is_empty() && r.chance(1, 2) { None } else { Some(src) }, trg: s.trg, cfg, size: Size::Large };
    let (wr, patch) = run_encode(c.src.as_deref(), &c.trg, &c.cfg);
    let mut cf = cfg_of(&c);
    cf.lit = lit;
    cf.nops = few(c.trg.len(), s.seams, s.new);
    let dec = spec::decode(if wr == "ok" { &patch } else { &[] }, c.src.as_deref());
    let want: Vec<&'static str> = if wr == "ok" { vec!["lit", "nops"] } else { vec![] };
    vec![ops_out(id(idx, 0), "script", &c, &patch, &dec, wr, &Applied { r: "none", out: vec![], src_same: true }, want, cf, true)]
}

/// A stream that delivers and accepts a few bytes at a time.
pub struct Choppy<T> { pub inner: T, pub r: Rng, pub max: usize }
impl<T: std::io::Read> std::io::Read for Choppy<T> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = if b.is_empty() { 0 } else { self.r.range(1, self.max).min(b.len()) }; self.inner.read(&mut b[..n]) } }
impl<T: std::io::Write> std::io::Write for Choppy<T> { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = if b.is_empty() { 0 } else { self.r.range(1, self.max).min(b.len()) }; self.inner.write(&b[..n]) } fn flush(&mut self) -> std::io::Result<()> { self.inner.flush() } }
impl<T: std::io::Seek> std::io::Seek for Choppy<T> { fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> { self.inner.seek(p) } }

/// A stream whose first calls encode something else before they answer.
struct Reent<'a, T> { inner: T, job: &'a dyn Fn(), left: usize }
impl<T> Reent<'_, T> { fn go(&mut self) { if self.left > 0 { self.left -= 1; (self.job)() } } }
impl<T: std::io::Read> std::io::Read for Reent<'_, T> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.go(); self.inner.read(b) } }
impl<T: std::io::Write> std::io::Write for Reent<'_, T> { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.go(); self.inner.write(b) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
impl<T: std::io::Seek> std::io::Seek for Reent<'_, T> { fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> { self.inner.seek(p) } }

fn reps_out(i: u64, tag: &str, reps: Vec<Vec<u8>>, oks: Vec<&'static str>) -> Out {
    let dg: Vec<String> = reps.iter().zip(&oks).map(|(p, o)| format!("{{\"r\":\"{}\",\"n\":{},\"dg\":{}}}", o, p.len(), crate::opsrec::digest(p))).collect();
    let bad = reps.iter().any(|x| x != &reps[0]) || oks.iter().any(|x| x != &oks[0]);
    Out { kind: "reps", json: format!("{{\"id\":{},\"tag\":\"{}\",\"reps\":[{}]}}", i, tag, dg.join(",")), fails: if bad { vec!["reps"] } else { vec![] }, weight: 200, key: hash(&reps[0]), nontrivial: reps[0].len() > 8 }
}
fn c22(seed: u64, idx: u64, case: Option<&str>) -> Vec<Out> {
    let mut r = rng(seed, 22, idx);
    let c = enc_of(&mut r, idx, case);
    let mut reps = vec![];
    let mut oks = vec![];
    let mut push = |x: (&'static str, Vec<u8>)| { oks.push(x.0); reps.push(if x.0 == "ok" { x.1 } else { vec![] }) };
    push(run_encode(c.src.as_deref(), &c.trg, &c.cfg));
    push(run_encode(c.src.as_deref(), &c.trg, &c.cfg));
    // with the same configuration value, another job in between
    let other = gen::source(&mut r, Size::Small);
    let o2 = gen::target(&mut r, &other, Size::Small);
    let _ = run_encode(Some(&other), &o2, &c.cfg);
    let _ = run_encode(None, &o2, &c.cfg);
    push(run_encode(c.src.as_deref(), &c.trg, &c.cfg));
    // from another thread
    if idx % 4 == 0 { let (s, t, cfg) = (c.src.clone(), c.trg.clone(), c.cfg.clone()); push(std::thread::spawn(move || run_encode(s.as_deref(), &t, &cfg)).join().unwrap_or(("panic", vec![]))); }
    // streams that deliver in pieces
    {
        let mut out = Choppy { inner: Vec::new(), r: r.clone(), max: 100 };
        let mx = *r.pick(&[7usize, 100, 4000]);
        let mx = if c.trg.len() > 100_000 { 40_000 } else { mx };
        let (res, _) = guard(|| {
            let mut t = Choppy { inner: Cursor::new(&c.trg[..]), r: r.clone(), max: mx };
            match &c.src { Some(s) => { let mut x = Choppy { inner: Cursor::new(&s[..]), r: r.clone(), max: mx }; smdiff_encoder::encode(Some(&mut x), &mut t, &mut out, &c.cfg) } None => smdiff_encoder::encode(None, &mut t, &mut out, &c.cfg) }
        });
        push((res, out.inner));
    }
    // while other encodings are under way: around them ...
    if idx % 4 == 1 {
        let job = || { let _ = run_encode(Some(&other), &o2, &c.cfg); };
        let mut out = Reent { inner: Vec::new(), job: &job, left: 2 };
        let (res, _) = guard(|| {
            let mut t = Reent { inner: Cursor::new(&c.trg[..]), job: &job, left: 2 };
            match &c.src { Some(s) => { let mut x = Reent { inner: Cursor::new(&s[..]), job: &job, left: 2 }; smdiff_encoder::encode(Some(&mut x), &mut t, &mut out, &c.cfg) } None => smdiff_encoder::encode(None, &mut t, &mut out, &c.cfg) }
        });
        push((res, out.inner));
    }
    // ... and beside them, all of them let go at once
    if idx % 16 == 2 && c.cfg.lazy_escape_len != Some(usize::MAX) {
        let n = 8;
        let gate = std::sync::Arc::new(std::sync::Barrier::new(n));
        let ts: Vec<_> = (0..n).map(|_| { let (s, t, cfg, gate) = (c.src.clone(), c.trg.clone(), c.cfg.clone(), gate.clone()); std::thread::spawn(move || { gate.wait(); (0..4).map(|_| run_encode(s.as_deref(), &t, &cfg)).collect::<Vec<_>>() }) }).collect();
        for t in ts { for x in t.join().unwrap_or(vec![("panic", vec![])]) { push(x); } }
    }
    let mut outs = vec![reps_out(id(idx, 0), "enc", reps, oks)];
    // section writing: one buffer for all sections, or a new one each
    if idx % 3 == 0 {
        let n = r.range(1, 12);
        let ops = gen::ops(&mut r, 1000, n, Size::Mid);
        let parts = gen::split(&mut r, &ops, 4);
        let algo = r.below(4) as u8;
        let sc = gen::sec_of_algo(&mut r, algo);
        let seg = r.chance(1, 2);
        let mut a = (Vec::new(), Vec::new());
        let mut buf = Vec::new();
        let mut oks = ("ok", "ok");
        for (i, p) in parts.iter().enumerate() {
            let rops: Vec<smdiff_reader::Op> = p.iter().map(spec::unconv).collect();
            let h = SectionHeader::new(p.len() as u32, spec::add_len(p) as u32, spec::out_len(p) as u32).set_format(fmt(seg)).set_more_sections(i + 1 < parts.len());
            let (x, _) = guard(|| smdiff_encoder::writer::section_writer(&sc, h, &mut a.0, &rops, &mut buf));
            let (y, _) = guard(|| smdiff_encoder::writer::section_writer(&sc, h, &mut a.1, &rops, &mut Vec::new()));
            if x != "ok" { oks.0 = x; }
            if y != "ok" { oks.1 = y; }
        }
        outs.push(reps_out(id(idx, 1), "sections", vec![a.0, a.1], vec![oks.0, oks.1]));
    }
    outs
}

// ---------------------------------------------------------------------------------------------
// Writing and reading

/// Sections of an operation list, each with its layout and algorithm.
pub struct Plan { pub secs: Vec<(Vec<Op>, bool, u8)>, pub src: Vec<u8> }
impl Plan {
    pub fn heads(&self) -> Vec<Sec> {
        let n = self.secs.len();
        self.secs.iter().enumerate().map(|(i, (o, seg, algo))| Sec { algo: *algo, seg: *seg, more: i + 1 < n, nops: o.len() as u64, nadd: spec::add_len(o) as u64, osz: spec::out_len(o) as u64, ops: o.clone() }).collect()
    }
    pub fn ops(&self) -> Vec<Op> { self.secs.iter().flat_map(|s| s.0.iter().cloned()).collect() }
}
fn size_of(r: &mut Rng, idx: u64) -> Size { match idx % 16 { 0..=5 => Size::Tiny, 6..=11 => Size::Small, 12..=14 => Size::Mid, _ => if r.chance(1, 4) { Size::Large } else { Size::Mid } } }
fn plan(r: &mut Rng, idx: u64, comp: bool) -> Plan {
    let size = size_of(r, idx);
    let sl = *r.pick(&[0usize, 1, 5, 70, 300, 400]);
    let src = gen::block(r, sl);
    // now and then so many operations that their number takes two bytes
    let many = idx % 97 == 96;
    let size = if many { Size::Small } else { size };
    let n = match size { Size::Large => r.range(0, 5), _ if many => r.range(120, 900), _ => r.range(0, 14) };
    let ops = gen::ops(r, src.len(), n, size);
    let most = if many { 1 + r.below(2) } else { 4 };
    let parts = gen::split(r, &ops, most);
    Plan { secs: parts.into_iter().map(|p| (p, r.chance(1, 2), if comp { r.below(4) as u8 } else { 0 })).collect(), src }
}
/// Addresses over the whole range (never applied, only written and read).
fn wild_addresses(r: &mut Rng, p: &mut Plan) {
    for s in &mut p.secs { for o in &mut s.0 {
        if let Op::D(a, _) | Op::O(a, _) = o {
            *a = match r.below(8) { 0 => *a, 1 => r.below(256) as u64, 2 => 1 << r.below(64), 3 => (1u64 << r.below(64)).wrapping_sub(1), 4 => u64::MAX - r.below(3) as u64, 5 => (1 << 63) - 1 + r.below(3) as u64, _ => r.next() >> r.below(64) };
        }
    } }
}
pub fn write_real(p: &Plan, r: &mut Rng) -> (&'static str, Vec<u8>) {
    let mut out = Vec::new();
    // the scratch buffer comes from an earlier patch's sections, or from a section that was refused
    let mut buf = Vec::new();
    if r.chance(1, 4) {
        let bad = r.chance(1, 3) as u8;
        let other: [smdiff_reader::Op; 2] = [smdiff_common::Op::Add(smdiff_reader::Add { bytes: vec![1, 2, 3] }), smdiff_common::Op::Run(smdiff_common::Run { byte: 0, len: 1 - bad })];
        let sc = { let k = 1 + r.below(3) as u8; gen::sec_of_algo(r, k) };
        let last = r.chance(1, 2);
        let _ = guard(|| smdiff_encoder::writer::section_writer(&sc, SectionHeader::new(2, 3, 4 - bad as u32).set_format(fmt(r.chance(1, 2))).set_more_sections(!last), &mut Vec::new(), &other, &mut buf));
    }
    let heads = p.heads();
    let (res, _) = guard(|| {
        for (h, (ops, _, _)) in heads.iter().zip(&p.secs) {
            let rops: Vec<smdiff_reader::Op> = ops.iter().map(spec::unconv).collect();
            let hd = SectionHeader::new(h.nops as u32, h.nadd as u32, h.osz as u32).set_format(fmt(h.seg)).set_more_sections(h.more);
            if h.algo == 0 {
                smdiff_writer::write_section_header(&hd, &mut out)?;
                smdiff_writer::write_ops(&rops, &hd, &mut out)?;
            } else {
                let sc = gen::sec_of_algo(r, h.algo);
                smdiff_encoder::writer::section_writer(&sc, hd, &mut out, &rops, &mut buf)?;
            }
        }
        Ok(())
    });
    (res, out)
}
fn c03(seed: u64, idx: u64, case: Option<&str>) -> Vec<Out> {
    let mut r = rng(seed, 3, idx);
    if case.is_none() && idx % crate::suites3::EVERY == 77 { return crate::suites3::many(3, &mut r, idx); }
    if let Some(c) = case { return vec![gen_case_c03(idx, c)]; }
    if idx % 1024 == 389 { return c03_full(&mut r, idx); }
    match idx % 8 {
        7 => c03_refuse(&mut r, idx),
        6 => c03_stream(&mut r, idx),
        5 => c03_make_sections(&mut r, idx),
        k => {
            let comp = k == 4;
            let mut p = plan(&mut r, idx / 8, comp);
            if r.chance(1, 2) { wild_addresses(&mut r, &mut p); }
            let (wr, bytes) = write_real(&p, &mut r);
            let mut rec = Rec::new(id(idx, 0), "write", if wr == "ok" { bytes } else { vec![] }, None).w("wr");
            rec.wr = wr;
            if wr == "ok" {
                rec.heads = Some(p.heads());
                rec.rd = Some(read_dec(&rec.patch, Mode::Borrowed));
                rec = rec.w("back");
                if !comp { rec.raw = Some(read_raw(&rec.patch, Mode::Owned)); rec = rec.w("backraw").w("leftx"); }
            }
            vec![rec.into()]
        }
    }
}
fn gen_case_c03(idx: u64, c: &str) -> Out {
    let j = crate::json::parse(c);
    let p = plan_of_json(&j);
    let (wr, bytes) = write_real(&p, &mut Rng::new(1));
    let mut rec = Rec::new(id(idx, 0), "gen", if wr == "ok" { bytes } else { vec![] }, None).w("wr");
    rec.wr = wr;
    if wr == "ok" {
        rec.heads = Some(p.heads());
        rec.rd = Some(read_dec(&rec.patch, Mode::Borrowed));
        rec = rec.w("back");
        if p.secs.iter().all(|s| s.2 == 0) { rec.raw = Some(read_raw(&rec.patch, Mode::Owned)); rec = rec.w("backraw").w("leftx"); }
    }
    rec.into()
}
pub fn op_of_json(j: &crate::json::J) -> Op {
    match j.get("t").s() {
        "A" => Op::A(j.get("b").bytes()),
        "R" => Op::R(j.get("c").i() as u8, j.get("n").u()),
        "D" => Op::D(crate::json::word_of(j.get("a")), j.get("n").u()),
        _ => Op::O(crate::json::word_of(j.get("a")), j.get("n").u()),
    }
}
/// A case of a Gen specification: [secs |-> <<[seg |-> , ops |-> ]>>, ...]
pub fn plan_of_json(j: &crate::json::J) -> Plan {
    Plan { secs: j.get("secs").a().iter().map(|s| (s.get("ops").a().iter().map(op_of_json).collect(), s.get("seg").b(), if s.has("algo") { s.get("algo").u() as u8 } else { 0 })).collect(),
        src: if j.has("src") { j.get("src").bytes() } else { vec![] } }
}
/// The bytes the specification's writer chose, if the case comes with them.
fn bytes_of(case: Option<&str>) -> Option<Vec<u8>> { let j = crate::json::parse(case?); if j.has("bytes") { Some(j.get("bytes").bytes()) } else { None } }
/// Several patches and some other data in one stream.
fn c03_stream(r: &mut Rng, idx: u64) -> Vec<Out> {
    let n = r.range(2, 4);
    let plans: Vec<Plan> = (0..n).map(|_| { let i = r.next() % 15; plan(r, i, false) }).collect();
    let mut all = Vec::new();
    let mut ends = Vec::new();
    for p in &plans { let (w, b) = write_real(p, r); if w != "ok" { return vec![]; } all.extend(b); ends.push(all.len()); }
    let t = r.range(0, 5);
    all.extend(gen::block(r, t));
    let mut outs = vec![];
    let mut rest: &[u8] = &all;
    for (i, p) in plans.iter().enumerate() {
        let m = match r.below(3) { 0 => Mode::Borrowed, 1 => Mode::Owned, _ => Mode::Mixed(r.next()) };
        let raw = read_raw(rest, m);
        let mut rec = Rec::new(id(idx, i), "stream", rest.to_vec(), None);
        let left = raw.left;
        rec.raw = Some(raw);
        rec.heads = Some(p.heads());
        rec.trail = all.len() - ends[i];
        let rec = rec.w("backraw").w("leftx");
        outs.push(rec.into());
        if left > rest.len() { break; }
        rest = &rest[rest.len() - left..];
    }
    outs
}
/// The operations as make_sections divides them.
fn c03_make_sections(r: &mut Rng, idx: u64) -> Vec<Out> {
    let big = idx % 64 == 5;
    let n = if big { r.range(1, 12) } else { r.range(0, 15) };
    let size = if big { Size::Large } else { Size::Mid };
    let ops = gen::ops(r, 300, n, size);
    let rops: Vec<smdiff_reader::Op> = ops.iter().map(spec::unconv).collect();
    let lim = *r.pick(&[0usize, 65535, 65536, 100_000, 1 << 24, usize::MAX]);
    let algo = if r.chance(1, 3) { r.below(4) as u8 } else { 0 };
    let sc = gen::sec_of_algo(r, algo);
    let seg = r.chance(1, 2);
    let mut out = Vec::new();
    let mut buf = Vec::new();
    let (wr, secs) = guard(|| {
        let mut v = vec![];
        for (s, mut h) in smdiff_writer::make_sections(&rops, lim) {
            h.format = fmt(seg);
            smdiff_encoder::writer::section_writer(&sc, h, &mut out, s, &mut buf)?;
            h.compression_algo = algo;
            v.push(sec_of(s, &h));
        }
        Ok(v)
    });
    let mut rec = Rec::new(id(idx, 0), "secs", if wr == "ok" { out } else { vec![] }, None).w("wr");
    rec.wr = wr;
    if let Some(s) = secs { rec.heads = Some(s); rec.rd = Some(read_dec(&rec.patch, Mode::Owned)); rec = rec.w("back"); }
    vec![rec.into()]
}
/// A section that is full to the byte, or by one or two more than that.
fn c03_full(r: &mut Rng, idx: u64) -> Vec<Out> {
    let d = r.below(5) as i64 - 2;
    let total = (spec::MAX_SECTION as i64 + d) as usize;
    let (mut ops, mut left) = (vec![], total);
    while left > 0 {
        let n = if left > 200_000 || r.chance(1, 2) { 65_535 } else { r.range(1, 65_535) }.min(left);
        let a = r.below(1 << 20) as u64;
        ops.push(if n <= 62 && r.chance(1, 2) { Op::R(r.below(256) as u8, n) } else if n < 400 && r.chance(1, 2) { Op::A(r.bytes(n, 256)) } else if r.chance(1, 2) { Op::D(a, n) } else { Op::O(a, n) });
        left -= n;
    }
    let p = Plan { secs: vec![(ops, r.chance(1, 2), 0)], src: vec![] };
    let (wr, bytes) = write_real(&p, r);
    if d > 0 {
        let mut rec = Rec::new(id(idx, 0), "overfull", vec![], None);
        rec.wr = wr;
        return vec![rec.w("refused").into()];
    }
    let mut rec = Rec::new(id(idx, 0), "full", if wr == "ok" { bytes } else { vec![] }, None).w("wr");
    rec.wr = wr;
    if wr == "ok" {
        rec.heads = Some(p.heads());
        rec.rd = Some(read_dec(&rec.patch, Mode::Borrowed));
        rec.raw = Some(read_raw(&rec.patch, Mode::Owned));
        rec = rec.w("back").w("backraw").w("leftx");
    }
    vec![rec.into()]
}
/// Things the format cannot express.
fn c03_refuse(r: &mut Rng, idx: u64) -> Vec<Out> {
    let mut ops = { let n = r.range(1, 5); gen::ops(r, 300, n, Size::Small) };
    let k = r.below(ops.len());
    let (nops, nadd, osz) = (ops.len() as i64, spec::add_len(&ops) as i64, spec::out_len(&ops) as i64);
    let mut h = (nops, nadd, osz, 0u8);
    let seg = r.chance(1, 2);
    let tag;
    match r.below(8) {
        0 => { ops[k] = Op::A(vec![]); tag = "add0"; h = (nops, spec::add_len(&ops) as i64, spec::out_len(&ops) as i64, 0) }
        1 => { ops[k] = Op::R(3, 0); tag = "run0"; h = (nops, spec::add_len(&ops) as i64, spec::out_len(&ops) as i64, 0) }
        2 => { ops[k] = if r.chance(1, 2) { Op::D(0, 0) } else { Op::O(0, 0) }; tag = "copy0"; h = (nops, spec::add_len(&ops) as i64, spec::out_len(&ops) as i64, 0) }
        3 => { ops[k] = Op::R(3, r.range(63, 255)); tag = "run63"; h = (nops, spec::add_len(&ops) as i64, spec::out_len(&ops) as i64, 0) }
        4 => { ops[k] = Op::A(vec![7; 65536 + r.below(3)]); tag = "addbig"; h = (nops, spec::add_len(&ops) as i64, spec::out_len(&ops) as i64, 0) }
        5 => { h.0 += *r.pick(&[1i64, -1, 2]); tag = "nops" }
        6 => { h.3 = *r.pick(&[8u8, 9, 16, 31, 32, 255]); tag = "algo" }
        _ => { if seg { h.1 += *r.pick(&[1i64, -1]); h.1 = h.1.max(0); if h.1 == nadd { h.1 += 1; } } else { h.2 += *r.pick(&[1i64, -1]) } tag = "sizes" }
    }
    let mut hd = SectionHeader::new(h.0.max(0) as u32, h.1 as u32, h.2.max(0) as u32).set_format(fmt(seg));
    hd.compression_algo = h.3;
    let rops: Vec<smdiff_reader::Op> = ops.iter().map(|o| match o { Op::R(c, n) => smdiff_reader::Op::Run(smdiff_common::Run { byte: *c, len: *n as u8 }), o => spec::unconv(o) }).collect();
    let mut out = Vec::new();
    let (wr, _) = guard(|| { smdiff_writer::write_section_header(&hd, &mut out)?; smdiff_writer::write_ops(&rops, &hd, &mut out) });
    let mut rec = Rec::new(id(idx, 0), tag, vec![], None);
    rec.patch = out;
    rec.wr = wr;
    vec![rec.w("refused").into()]
}

fn c04(seed: u64, idx: u64, case: Option<&str>) -> Vec<Out> {
    let mut r = rng(seed, 4, idx);
    if case.is_none() && idx % crate::suites3::EVERY == 77 { return crate::suites3::many(4, &mut r, idx); }
    let mut p = match case { Some(c) => plan_of_json(&crate::json::parse(c)), None => plan(&mut r, idx / 4, idx % 4 == 3) };
    let mut outs = vec![];
    if case.is_none() && r.chance(1, 2) { wild_addresses(&mut r, &mut p); }
    // what the writer writes, by the document
    let (wr, bytes) = write_real(&p, &mut r);
    if wr == "ok" {
        let mut rec = Rec::new(id(idx, 0), "writer", bytes, None).with_ops(p.ops()).w("heads");
        rec.heads = Some(p.heads());
        outs.push(rec.into());
    }
    // what the document allows, by the readers
    let bytes = match case {
        Some(c) => { let j = crate::json::parse(c); if j.has("bytes") { j.get("bytes").bytes() } else { return outs } }
        None => { let mut out = vec![]; let n = p.secs.len(); for (i, (o, seg, algo)) in p.secs.iter().enumerate() { out.extend(gen::section(&mut r, o, *algo, *seg, i + 1 < n, false)); } out }
    };
    let mut rec = Rec::new(id(idx, 1), "reader", bytes, None).with_ops(p.ops());
    rec.rd = Some(read_dec(&rec.patch, Mode::Borrowed));
    rec = rec.w("read");
    if p.secs.iter().all(|s| s.2 == 0) { rec.raw = Some(read_raw(&rec.patch, Mode::Borrowed)); rec = rec.w("raw").w("left"); }
    outs.push(rec.into());
    outs
}

/// The addresses of a plan moved to where they belong in files that begin elsewhere.
fn moved(ops: &[Op], sb: u64, ob: u64) -> Vec<Op> {
    ops.iter().map(|o| match o { Op::D(a, n) => Op::D(a.wrapping_add(sb), *n), Op::O(a, n) => Op::O(a.wrapping_add(ob), *n), o => o.clone() }).collect()
}
fn far_bytes(r: &mut Rng, p: &Plan, sb: u64, ob: u64) -> Vec<u8> {
    let n = p.secs.len();
    let mut out = vec![];
    for (i, (o, seg, algo)) in p.secs.iter().enumerate() { let pl = r.chance(1, 2); let o = moved(o, sb, ob); out.extend(gen::section(r, &o, *algo, *seg, i + 1 < n, pl)); }
    out
}
/// Where files are cut: around powers of two.
fn far_base(r: &mut Rng, lo: usize, hi: usize) -> u64 {
    let k = r.range(lo, hi);
    let d = match r.below(4) { 0 => r.below(40) as u64, 1 => r.below(70_000) as u64, 2 => r.next() % (1 << k), _ => 0 };
    if r.chance(1, 2) { (1u64 << k) + d } else { (1u64 << k) - d.min(1 << k) }
}
/// A case of MCFar: (patch, source, bases)
fn far_case(c: &crate::json::J) -> (Vec<u8>, Vec<u8>, u64, u64) { (c.get("bytes").bytes(), c.get("src").bytes(), crate::json::word_of(c.get("sb")), crate::json::word_of(c.get("ob"))) }

fn c05(seed: u64, idx: u64, case: Option<&str>) -> Vec<Out> {
    let mut r = rng(seed, 5, idx);
    if case.is_none() && idx % crate::suites3::EVERY == 77 { return crate::suites3::many(5, &mut r, idx); }
    let far = case.map(crate::json::parse).filter(|c| c.has("sb")).map(|c| far_case(&c));
    if far.is_some() || (case.is_none() && idx % 256 == 9) {
        let (bytes, src, sb, ob) = match far {
            Some(f) => if f.3 > 1 << 26 && idx % 197 != 0 { return vec![] } else { f },
            None => {
                let p = plan(&mut r, idx / 256, idx % 512 == 9);
                let sb = far_base(&mut r, 16, 62);
                let ob = if idx % 131_072 == 9 { far_base(&mut r, 31, 32) } else if r.chance(1, 2) { 0 } else { far_base(&mut r, 14, 24) };
                (far_bytes(&mut r, &p, sb, ob), p.src, sb, ob)
            }
        };
        let mut rec = Rec::far(id(idx, 0), "far", bytes, Some(src), sb, ob);
        rec.apply = Some(apply_far(&rec.patch, rec.src.as_deref(), sb, ob));
        return vec![rec.w("apply").w("srcsame").into()];
    }
    let p = match case { Some(c) => plan_of_json(&crate::json::parse(c)), None => plan(&mut r, idx / 3, idx % 3 == 2) };
    let mut out = vec![];
    let n = p.secs.len();
    for (i, (o, seg, algo)) in p.secs.iter().enumerate() { let pl = r.chance(1, 2); out.extend(gen::section(&mut r, o, *algo, *seg, i + 1 < n, pl)); }
    if let Some(b) = bytes_of(case) { out = b; }
    let has = !p.src.is_empty() || r.chance(1, 2);
    let mut rec = Rec::new(id(idx, 0), "apply", out, if has { Some(p.src.clone()) } else { None }).with_ops(p.ops());
    // the source stream may stand anywhere
    let at = if r.chance(1, 2) { 0 } else { r.below(p.src.len() + 1) as u64 };
    rec.apply = Some(if case.is_none() && idx % 8 == 5 {
        // the streams are themselves made by applying patches
        let q = plan(&mut r, idx / 8, true);
        let m = q.secs.len();
        let mut other = vec![];
        for (i, (o, seg, algo)) in q.secs.iter().enumerate() { other.extend(gen::section(&mut r, o, *algo, *seg, i + 1 < m, true)); }
        let job = || { let _ = apply(&other, Some(&q.src)); };
        let mut pt = Reent { inner: Cursor::new(&rec.patch[..]), job: &job, left: r.range(0, 3) };
        let mut st = rec.src.as_ref().map(|s| Reent { inner: Cursor::new(&s[..]), job: &job, left: r.range(0, 3) });
        let mut sink = Reent { inner: Cursor::new(vec![]), job: &job, left: r.range(0, 4) };
        let (res, _) = guard(|| smdiff_decoder::apply_patch(&mut pt, st.as_mut(), &mut sink));
        Applied { r: res, out: if res == "ok" { sink.inner.into_inner() } else { vec![] }, src_same: true }
    } else if r.chance(1, 4) {
        // and so may the sink, which is written from its start
        let n = match r.below(3) { 0 => 0, 1 => r.below(rec.dec.out.len() + 1), _ => rec.dec.out.len() + r.below(20) };
        let (old, pos) = (r.bytes(n, 256), r.below(n + 5));
        apply_over(&rec.patch, rec.src.as_deref(), at, &old, pos, rec.dec.out.len())
    } else { apply_at(&rec.patch, rec.src.as_deref(), at) });
    vec![rec.w("apply").w("srcsame").into()]
}

/// A section whose operations, once decompressed, take more than the 16 MiB its output may have: literals of incompressible
/// bytes, and so many short copies that their headers and addresses make up for it.
fn c07_large(r: &mut Rng, idx: u64) -> Vec<Out> {
    const MAX: usize = 1 << 24;
    let mut x = Rng::new(r.next());
    let src: Vec<u8> = (0..3000).map(|_| (x.next() >> 33) as u8).collect();
    let total = MAX - r.below(3000);
    let pairs = r.range(1800, 1950);
    let (mut ops, mut trg, mut sum) = (vec![], Vec::with_capacity(MAX), 0);
    for i in 0..pairs {
        let l = if i + 1 == pairs { (total - sum - 2).min(65_535) } else { ((total - sum - 2) / (pairs - i)).min(65_000) };
        let b: Vec<u8> = (0..l).map(|_| (x.next() >> 33) as u8).collect();
        trg.extend_from_slice(&b);
        ops.push(Op::A(b));
        let a = (i * 7919) % 2900;
        trg.push(src[a]);
        ops.push(Op::D(a as u64, 1));
        sum += l + 1;
    }
    let algo = 1 + r.below(3) as u8;
    let (seg, real) = (r.chance(1, 3), algo == 1 || r.chance(1, 2));
    let b = if real { write_real(&Plan { secs: vec![(ops, seg, algo)], src: vec![] }, r) } else { ("ok", gen::section(r, &ops, algo, seg, false, true)) };
    let c = EncCase { src: Some(src), trg, cfg: EncoderConfig::default(), size: Size::Large };
    let dec = spec::decode(if b.0 == "ok" { &b.1 } else { &[] }, c.src.as_deref());
    let a = apply(&b.1, c.src.as_deref());
    vec![ops_out(id(idx, 0), "compbig", &c, &b.1, &dec, b.0, &a, if b.0 == "ok" { vec!["wr", "rt"] } else { vec!["wr"] }, Default::default(), true)]
}
fn c07(seed: u64, idx: u64, case: Option<&str>) -> Vec<Out> {
    let mut r = rng(seed, 7, idx);
    if let Some(c) = case {
        // the patches of the model, under every algorithm and one mixture
        let p = plan_of_json(&crate::json::parse(c));
        return (0..4u8).flat_map(|k| {
            let q = Plan { secs: p.secs.iter().enumerate().map(|(i, s)| (s.0.clone(), s.1, if k < 3 { k + 1 } else { ((idx >> (2 * i)) & 3) as u8 })).collect(), src: p.src.clone() };
            c07_of(&mut r, idx * 64 + k as u64, q, (idx + k as u64) % 3 == 0)
        }).collect();
    }
    if idx % crate::suites3::EVERY == 77 { return crate::suites3::many(7, &mut r, idx); }
    if idx % 8192 == 4097 { return c07_large(&mut r, idx); }
    let p = if idx % 50 == 49 {
        // a section with a lot in it
        let n = r.range(200, 3000);
        let ops = gen::ops(&mut r, 300, n, Size::Mid);
        let parts = gen::split(&mut r, &ops, 3);
        Plan { secs: parts.into_iter().map(|p| (p, r.chance(1, 2), r.below(4) as u8)).collect(), src: gen::block(&mut r, 300) }
    } else { plan(&mut r, idx / 3, true) };
    c07_of(&mut r, id(idx, 0), p, idx % 3 == 0)
}
fn c07_of(r: &mut Rng, i: u64, p: Plan, of_spec: bool) -> Vec<Out> {
    let src = Some(p.src.clone());
    let plain = Plan { secs: p.secs.iter().map(|s| (s.0.clone(), s.1, 0)).collect(), src: vec![] };
    let (w0, b0) = write_real(&plain, r);
    if w0 != "ok" { return vec![]; }
    let (rd0, a0) = (read_dec(&b0, Mode::Borrowed), apply(&b0, src.as_deref()));
    let (wr, b1) = if of_spec {
        let mut out = vec![];
        let n = p.secs.len();
        for (j, (o, seg, algo)) in p.secs.iter().enumerate() { out.extend(gen::section(r, o, *algo, *seg, j + 1 < n, true)); }
        ("ok", out)
    } else { write_real(&p, r) };
    let mut rec = Rec::new(i, "comp", if wr == "ok" { b1 } else { vec![] }, src).w("wr");
    rec.wr = wr;
    if wr == "ok" {
        rec.rd = Some(read_dec(&rec.patch, if r.chance(1, 2) { Mode::Borrowed } else { Mode::Owned }));
        rec.apply = Some(apply(&rec.patch, rec.src.as_deref()));
        rec.rd0 = Some(rd0);
        rec.apply0 = Some(a0);
        rec = rec.w("transp").w("transpa");
    }
    vec![rec.into()]
}

fn c14(seed: u64, idx: u64, case: Option<&str>) -> Vec<Out> {
    let mut r = rng(seed, 14, idx);
    let mut outs = vec![];
    let mut push = |k: usize, tag: &str, bytes: Vec<u8>, src: Option<Vec<u8>>| {
        let mut rec = Rec::new(id(idx, k), tag, bytes, src);
        if rec.dec.apply() != Verdict::Reject { return; }
        rec.apply = Some(apply(&rec.patch, rec.src.as_deref()));
        outs.push(rec.w("rej").into());
    };
    if let Some(c) = case {
        let j = crate::json::parse(c);
        push(0, "gen", j.get("bytes").bytes(), if j.has("src") { Some(j.get("src").bytes()) } else { None });
        return outs;
    }
    let i = if idx % 16 == 15 { idx } else { idx % 12 };
    let p = plan(&mut r, i, idx % 3 == 2);
    let n = p.secs.len();
    let mut out = vec![];
    let plain = r.chance(1, 2);
    for (i, (o, seg, algo)) in p.secs.iter().enumerate() { out.extend(gen::section(&mut r, o, *algo, *seg, i + 1 < n, plain)); }
    let src = if p.src.is_empty() && r.chance(1, 2) { None } else { Some(p.src.clone()) };
    // every (or many a) proper prefix
    let step = (out.len() / 24).max(1);
    let mut k = 0;
    let mut cut = r.below(step);
    while cut < out.len() && k < 40 { push(k, "prefix", out[..cut].to_vec(), src.clone()); k += 1; cut += step; }
    if out.len() > 1 { let l = out.len() - 1; push(k, "prefix", out[..l].to_vec(), src.clone()); k += 1; }
    // a source that is too short or absent
    if let Some(s) = &src { if !s.is_empty() {
        let l = r.below(s.len());
        push(k, "shortsrc", out.clone(), Some(s[..l].to_vec()));
        push(k + 1, "oneshort", out.clone(), Some(s[..s.len() - 1].to_vec()));
        push(k + 2, "nosrc", out.clone(), None);
        k += 3;
    } }
    // headers and operations that disagree
    for _ in 0..8 {
        let q = inconsistent(&mut r, &p);
        push(k, q.0, q.1, src.clone());
        k += 1;
    }
    let mut m = out.clone();
    gen::mutate(&mut r, &mut m);
    push(k, "mutant", m, src.clone());
    outs
}
/// One thing wrong in an otherwise right patch.
fn inconsistent(r: &mut Rng, p: &Plan) -> (&'static str, Vec<u8>) {
    let n = p.secs.len();
    let hurt = r.below(n);
    let mut out = vec![];
    let mut tag = "";
    let mut pos = 0usize;
    for (i, (ops, seg, algo)) in p.secs.iter().enumerate() {
        let mut ops = ops.clone();
        let start = pos;
        pos += spec::out_len(&ops);
        if i != hurt { let pl = r.chance(1, 2); out.extend(gen::section(r, &ops, *algo, *seg, i + 1 < n, pl)); continue; }
        let (mut nops, mut nadd, mut osz) = (ops.len() as i64, spec::add_len(&ops) as i64, spec::out_len(&ops) as i64);
        let mut body_seg = *seg;
        let mut more = i + 1 < n;
        let algo = if r.chance(1, 3) { 1 + r.below(3) as u8 } else { 0 };
        let mut extra = vec![];
        match r.below(11) {
            0 => { tag = "nops"; nops += *r.pick(&[1i64, -1, 1000]); nops = nops.max(0) }
            1 => { tag = "osz"; osz += *r.pick(&[1i64, -1, 255, 1 << 24]); osz = osz.max(0) }
            2 => { tag = "nadd"; let d = *r.pick(&[1i64, -1]); nadd = (nadd + d).max(0); }
            3 => { tag = "nadd-osz"; nadd += 1; osz += 1; }
            4 => { tag = "layout"; body_seg = !body_seg }
            5 => { tag = "more"; more = !more }
            6 | 7 => {
                tag = "ocopy";
                if ops.is_empty() { ops.push(Op::O(0, 1)); nops = 1; osz = 1; } else {
                    let k = r.below(ops.len());
                    let at = start + spec::out_len(&ops[..k]);
                    let l = ops[k].len();
                    // reaches d bytes too far
                    let d = *r.pick(&[1usize, 1, 2, l, 5]);
                    let a = match r.below(6) { 0 => u64::MAX - l as u64 + 1, 1 => u64::MAX, 2 => 1 << 63, _ => (at + d).saturating_sub(l) as u64 };
                    ops[k] = Op::O(a, l);
                    nadd = spec::add_len(&ops) as i64;
                }
            }
            8 => {
                tag = "dcopy";
                if ops.is_empty() { ops.push(Op::D(p.src.len() as u64, 1)); nops = 1; osz = 1; } else {
                    let k = r.below(ops.len());
                    let l = ops[k].len();
                    let a = match r.below(6) { 0 => u64::MAX - l as u64 + 1, 1 => u64::MAX, 2 => 1 << 63, _ => (p.src.len() + 1).saturating_sub(l) as u64 };
                    ops[k] = Op::D(a, l);
                    nadd = spec::add_len(&ops) as i64;
                }
            }
            9 => { tag = "leftover"; let k = r.range(1, 4); extra = match r.below(3) { 0 => vec![0; k], 1 => vec![193, 7], _ => r.bytes(k, 256) }; }
            _ => {
                // an operation in a form there is none of: of length zero, or a run with its length in further bytes
                tag = "form";
                let k = r.below(ops.len() + 1);
                let c = r.below(256) as u8;
                let (bad, l) = match r.below(6) {
                    t @ 0..=2 => ({ let mut b = vec![(t as u8) << 6, 0, 0]; if t < 2 { b.push(0); } b }, 0),
                    3 => (vec![0xc0, c], 0),
                    4 => { let n = r.range(62, 317); (vec![0xff, (n - 62) as u8, c], n) }
                    _ => { let n = *r.pick(&[1usize, 7, 62, 63, 256, 317, 1000]); (vec![0xc0, n as u8, (n >> 8) as u8, c], n) }
                };
                let (mut body, mut da, mut oa) = (vec![], 0, 0);
                for (i, o) in ops.iter().enumerate() {
                    if i == k { body.extend_from_slice(&bad); }
                    spec::put_op(&mut body, o, &mut da, &mut oa, !*seg, spec::Enc::default());
                }
                if k == ops.len() { body.extend_from_slice(&bad); }
                if *seg { for o in &ops { if let Op::A(b) = o { body.extend_from_slice(b); } } }
                spec::put_header(&mut out, algo, *seg, more, nops as u64 + 1, if *seg { nadd as u64 } else { 0 }, osz as u64 + l as u64, 0);
                let pl = r.chance(1, 2);
                if algo == 0 { out.extend(body); } else { gen::pack(r, &mut out, body, algo, pl); }
                continue;
            }
        }
        // something left over in a plain section is another matter: it is read as the next one, or not at all
        let algo = if tag == "leftover" && algo == 0 { 1 + r.below(3) as u8 } else { algo };
        spec::put_header(&mut out, algo, *seg, more, nops as u64, nadd as u64, osz.max(if *seg { nadd } else { 0 }) as u64, 0);
        let mut f = || spec::Enc::default();
        let mut body = vec![];
        spec::put_body(&mut body, &ops, body_seg, &mut f);
        body.extend(extra);
        let pl = r.chance(1, 2);
        gen::pack(r, &mut out, body, algo, pl);
    }
    (tag, out)
}

fn c17(seed: u64, idx: u64, case: Option<&str>) -> Vec<Out> {
    let mut r = rng(seed, 17, idx);
    if case.is_none() && idx % crate::suites3::EVERY == 77 { return crate::suites3::many(17, &mut r, idx); }
    let far = case.map(crate::json::parse).filter(|c| c.has("sb")).map(|c| far_case(&c));
    if far.is_some() || (case.is_none() && idx % 64 == 11) {
        let (bytes, sb, ob) = match far {
            Some((b, _, sb, ob)) => (b, sb, ob),
            None => {
                let p = plan(&mut r, idx / 64, idx % 128 == 11);
                let (sb, ob) = (if r.chance(1, 2) { 0 } else { far_base(&mut r, 16, 62) }, if idx % 1024 == 11 { far_base(&mut r, 31, 33) } else { far_base(&mut r, 14, 28) });
                (far_bytes(&mut r, &p, sb, ob), sb, ob)
            }
        };
        let mut rec = Rec::far(id(idx, 0), "far", bytes, None, sb, ob);
        rec.ext = Some(extract_far(&rec.patch, ob));
        return vec![rec.w("ext").into()];
    }
    let p = match case { Some(c) => plan_of_json(&crate::json::parse(c)), None => plan(&mut r, idx / 3, idx % 3 == 2) };
    let n = p.secs.len();
    let mut out = vec![];
    for (i, (o, seg, algo)) in p.secs.iter().enumerate() { let pl = r.chance(1, 2); out.extend(gen::section(&mut r, o, *algo, *seg, i + 1 < n, pl)); }
    if let Some(b) = bytes_of(case) { out = b; }
    let mut rec = Rec::new(id(idx, 0), "extract", out, Some(p.src.clone())).with_ext();
    if idx % 2 == 0 { rec.deref = Some(deref(&rec.patch)); rec = rec.w("deref"); }
    rec.heads = Some(p.heads());
    rec.rd = Some(read_dec(&rec.patch, if r.chance(1, 2) { Mode::Borrowed } else { Mode::Owned }));
    rec = rec.w("hdrs");
    if p.secs.iter().all(|s| s.2 == 0) { rec.raw = Some(read_raw(&rec.patch, if r.chance(1, 2) { Mode::Borrowed } else { Mode::Owned })); rec = rec.w("hdrsraw"); }
    vec![rec.into()]
}

fn c18(seed: u64, idx: u64, case: Option<&str>) -> Vec<Out> {
    let mut r = rng(seed, 18, idx);
    let p = match case { Some(c) => plan_of_json(&crate::json::parse(c)), None => plan(&mut r, idx / 3, idx % 3 == 2) };
    let n = p.secs.len();
    let mut out = vec![];
    for (i, (o, seg, algo)) in p.secs.iter().enumerate() { let pl = r.chance(1, 2); out.extend(gen::section(&mut r, o, *algo, *seg, i + 1 < n, pl)); }
    if let Some(b) = bytes_of(case) { out = b; }
    let comp = p.secs.iter().any(|s| s.2 != 0);
    let body = out.len();
    // what follows: nothing, noise, another patch
    match r.below(4) { 0 => {} 1 => { let l = r.range(1, 9); out.extend(gen::block(&mut r, l)) } 2 => { let c = out.clone(); out.extend(c) } _ => out.extend([0x80, 0, 0]) }
    let mut rec = Rec::new(id(idx, 0), "iter", out, None);
    rec.heads = Some(p.heads());
    rec.trail = rec.patch.len() - body;
    // a brotli or zstd stream at the end may be followed by what the decompressor has read already
    let s = r.next();
    rec.rd = Some(read_dec(&rec.patch, Mode::Borrowed));
    rec.rdo = Some(read_dec(&rec.patch, Mode::Owned));
    rec.rdm = Some(read_dec(&rec.patch, Mode::Mixed(s)));
    rec = rec.w("back").w("owned").w("mixed").w("after");
    if !comp {
        let m = match r.below(3) { 0 => Mode::Borrowed, 1 => Mode::Owned, _ => Mode::Mixed(s) };
        rec.raw = Some(read_raw(&rec.patch, m));
        rec = rec.w("backraw").w("leftx");
    }
    vec![rec.into()]
}

// ---------------------------------------------------------------------------------------------
// Merging and transcoding

/// A chain of operation lists, each applying to the output of the one before.
fn chain(r: &mut Rng, idx: u64) -> (usize, Vec<Vec<Op>>) {
    let size = match idx % 8 { 0..=3 => Size::Tiny, 4..=6 => Size::Small, _ => Size::Mid };
    let srclen = *r.pick(&[0usize, 1, 4, 20, 100, 400]);
    let k = r.range(1, 4);
    let mut cur = srclen;
    let mut v = vec![];
    for _ in 0..k {
        let n = r.range(0, if size == Size::Mid { 6 } else { 9 });
        let mut ops = gen::ops(r, cur, n, size);
        if spec::out_len(&ops) > 6000 { ops.truncate(2); }
        cur = spec::out_len(&ops);
        v.push(ops);
    }
    (srclen, v)
}
fn patch_of(r: &mut Rng, ops: &[Op]) -> Vec<u8> { let parts = gen::split(r, ops, 3); let comp = r.chance(1, 4); gen::patch(r, &parts, comp, true) }

pub fn merge_step(patches: &[Vec<u8>], upto: usize) -> Result<(smdiff_merger::SummaryPatch, Vec<bool>, usize), &'static str> {
    // merges the last `upto` patches, or as many as there is something to merge for
    let (r, v) = guard(|| {
        let n = patches.len();
        let mut done = vec![];
        let mut cur = smdiff_merger::Merger::new(Cursor::new(&patches[n - 1]))?;
        done.push(cur.is_err());
        let mut k = 1;
        while k < upto {
            match cur {
                Ok(m) => { cur = m.merge(Cursor::new(&patches[n - 1 - k]))?; done.push(cur.is_err()); k += 1; }
                Err(_) => break,
            }
        }
        Ok((match cur { Ok(m) => m.finish(), Err(s) => s }, done, k))
    });
    match v { Some(x) => Ok(x), None => Err(r) }
}
fn chain_of(idx: u64, r: &mut Rng, case: Option<&str>) -> (usize, Vec<Vec<Op>>) {
    match case {
        Some(c) => { let j = crate::json::parse(c); (j.get("srclen").u(), j.get("chain").a().iter().map(|l| l.a().iter().map(op_of_json).collect()).collect()) }
        None => chain(r, idx),
    }
}
/// Operations whose copies are cut and put together around the longest length there is: a target that takes consecutive pieces of
/// what the patch before has cut into pieces.
fn long_chain(r: &mut Rng) -> (Vec<u8>, Vec<Vec<Op>>) {
    const L: usize = 65_535;
    fn cut(r: &mut Rng, n: usize) -> Vec<usize> {
        // pieces of n bytes, none longer than an operation
        let (mut v, mut left) = (vec![], n);
        while left > 0 { let k = match r.below(5) { 0 => L, 1 => L - r.below(3), 2 => r.range(1, 3), 3 => 32_768 - 2 + r.below(4), _ => r.range(1, L) }.min(left); v.push(k); left -= k; }
        v
    }
    let n = *r.pick(&[65_535usize, 65_536, 65_537, 70_000, 131_070, 131_071, 131_072, 140_000]);
    let src = { let mut x = Rng::new(r.next()); (0..n + 100).map(|_| (x.next() >> 40) as u8).collect::<Vec<u8>>() };
    let mut chain = vec![];
    let mut len = src.len();
    for _ in 0..r.range(2, 3) {
        // some bytes, then nearly everything in order, with something done to the middle of it now and then
        let mut ops = vec![];
        for _ in 0..r.below(3) { let l = r.range(1, 5); ops.push(if r.chance(1, 2) { Op::A(r.bytes(l, 256)) } else { Op::R(7, l) }); }
        let (a, e) = (r.below(20), len - r.below(20));
        let mut at = a;
        for k in cut(r, e - a) {
            if r.chance(1, 12) { let m = spec::out_len(&ops); if m > 0 { let l = r.range(1, m.min(L)); ops.push(Op::O(r.below(m - l + 1) as u64, l)); } }
            ops.push(Op::D(at as u64, k));
            at += k;
        }
        if r.chance(1, 3) { let m = spec::out_len(&ops); let mut at = r.below(m / 2); for k in cut(r, m / 2) { ops.push(Op::O(at as u64, k)); at += k; } }
        len = spec::out_len(&ops);
        if len > 400_000 { ops.truncate(5); len = spec::out_len(&ops); }
        chain.push(ops);
    }
    (src, chain)
}
fn c08_long(r: &mut Rng, idx: u64) -> Vec<Out> {
    let (src, ch) = long_chain(r);
    let patches: Vec<Vec<u8>> = ch.iter().map(|o| patch_of(r, o)).collect();
    let mut trg = src.clone();
    for c in &ch { trg = spec::apply_ops(c, Some(&trg)).expect("chain"); }
    let mut asked = Cfg::default();
    let (wr, b) = match merge_step(&patches, ch.len()) {
        Err(w) => (w, vec![]),
        Ok((sum, _, _)) => {
            let mut b = vec![];
            let algo = if r.chance(1, 3) { r.below(4) as u8 } else { 0 };
            let sc = gen::sec_of_algo(r, algo);
            let f = fmt(r.chance(1, 2));
            let lim = if r.chance(1, 2) { None } else { Some(*r.pick(&[0usize, 65_535, 100_000, 1 << 30])) };
            asked = Cfg { algo, seg: matches!(f, smdiff_common::Format::Segregated), lim: lim.unwrap_or(1 << 30), ..Default::default() };
            let (wr, _) = guard(|| sum.write(&mut b, lim, Some(f), sc));
            (wr, b)
        }
    };
    let c = EncCase { src: Some(src), trg, cfg: EncoderConfig::default(), size: Size::Large };
    let dec = spec::decode(if wr == "ok" { &b } else { &[] }, c.src.as_deref());
    let a = apply(&b, c.src.as_deref());
    vec![ops_out(id(idx, 0), "mergelong", &c, &b, &dec, wr, &a, if wr == "ok" { vec!["wr", "rt", "legal", "cfg"] } else { vec!["wr"] }, asked, true)]
}
/// The successor of a patch with a long output takes from behind it: by the law of MCFar this means what it means without.
fn c08_far(r: &mut Rng, idx: u64) -> Vec<Out> {
    let (srclen, ch) = chain(r, idx / 512);
    let ch = ch[..ch.len().min(2)].to_vec();
    if ch.len() < 2 { return vec![]; }
    let ob = far_base(r, 16, if idx % 4096 == 13 { 33 } else { 26 });
    let (mut p1, _) = far_prefix(ob, false);
    p1.extend(patch_of(r, &moved(&ch[0], 0, ob)));
    let p2 = patch_of(r, &moved(&ch[1], ob, 0));
    let mut rec = Rec::new(id(idx, 0), "mergefar", vec![], Some(vec![0; srclen]));
    match merge_step(&[p1, p2], 2) {
        Err(w) => { rec.wr = w; rec = rec.w("wr"); }
        Ok((sum, _, k)) => { if k < 2 { return vec![]; } rec.tops = Some(sum.take_ops().iter().map(spec::conv).collect()); rec = rec.w("tops"); }
    }
    rec.chain = Some(ch.clone());
    let o: Out = rec.into();
    vec![Out { nontrivial: true, key: o.key ^ hash(format!("{:?}{}", ch, ob).as_bytes()), weight: o.weight + 6 * ch.iter().map(|c| spec::out_len(c)).sum::<usize>(), ..o }]
}
fn c08(seed: u64, idx: u64, case: Option<&str>) -> Vec<Out> {
    let mut r = rng(seed, 8, idx);
    if case.is_none() && idx % crate::suites3::EVERY == 77 { return crate::suites3::many(8, &mut r, idx); }
    if case.is_none() && idx % 1024 == 511 { return c08_long(&mut r, idx); }
    if case.is_none() && idx % 512 == 13 { return c08_far(&mut r, idx); }
    let (srclen, ch) = chain_of(idx, &mut r, case);
    let patches: Vec<Vec<u8>> = ch.iter().map(|o| patch_of(&mut r, o)).collect();
    let mut outs = vec![];
    for upto in 1..=ch.len() {
        // fewer patches than the whole chain: the source is the output of the one before
        if upto < ch.len() && r.chance(1, 2) { continue; }
        let from = ch.len() - upto;
        let sl = if from == 0 { srclen } else { spec::out_len(&ch[from - 1]) };
        let src = vec![0u8; sl];
        let algo = if r.chance(1, 3) { r.below(4) as u8 } else { 0 };
        let (seg, lim) = (r.chance(1, 2), if r.chance(1, 2) { None } else { Some(*r.pick(&[0usize, 65535, 1 << 30])) });
        let m = merge_step(&patches, upto);
        let mut rec = match m {
            Err(w) => { let mut rec = Rec::new(id(idx, upto), "merge", vec![], Some(src)); rec.wr = w; rec.w("wr") }
            Ok((sum, _, _)) => {
                let sc = gen::sec_of_algo(&mut r, algo);
                if r.chance(1, 3) {
                    let ops: Vec<Op> = sum.take_ops().iter().map(spec::conv).collect();
                    let mut rec = Rec::new(id(idx, upto), "ops", vec![], Some(src));
                    rec.tops = Some(ops);
                    rec.w("tops")
                } else {
                    let mut b = vec![];
                    let f = if r.chance(1, 8) { None } else { Some(fmt(seg)) };
                    let (wr, _) = guard(|| sum.write(&mut b, lim, f, sc));
                    let mut rec = Rec::new(id(idx, upto), "merge", if wr == "ok" { b } else { vec![] }, Some(src)).w("wr");
                    rec.wr = wr;
                    if wr == "ok" {
                        rec = rec.w("merge");
                        // what was asked for is what was written
                        if f.is_some() { rec.cfg = Some(Cfg { algo, seg, lim: lim.unwrap_or(1 << 30), ..Default::default() }); rec = rec.w("cfg"); }
                    }
                    rec
                }
            }
        };
        rec.chain = Some(ch[from..].to_vec());
        let tk = rec.tops.is_some();
        // the source of the shortened chain has its own length
        let o: Out = rec.into();
        let _ = tk;
        outs.push(Out { nontrivial: !ch[from..].iter().all(|c| c.is_empty()), key: o.key ^ hash(format!("{:?}", &ch[from..]).as_bytes()), weight: o.weight + 6 * ch.iter().map(|c| spec::out_len(c)).sum::<usize>(), ..o });
    }
    outs
}
fn c09(seed: u64, idx: u64, case: Option<&str>) -> Vec<Out> {
    let mut r = rng(seed, 9, idx);
    let (srclen, mut ch) = chain_of(idx, &mut r, case);
    if case.is_none() && r.chance(1, 3) {
        // a patch in the middle (or the last) without source dependence
        let i = r.below(ch.len());
        let below = ch[i].len();
        let n = r.range(1, below.max(1));
        let want = spec::out_len(&ch[i]);
        let mut o = gen::ops(&mut r, 0, n, Size::Small);
        if i + 1 < ch.len() { let l = spec::out_len(&o); if l < want { o.extend(spec_fill(want - l)); } }
        if i + 1 == ch.len() || spec::out_len(&o) >= want { ch[i] = o; }
    }
    let patches: Vec<Vec<u8>> = ch.iter().map(|o| patch_of(&mut r, o)).collect();
    let m = merge_step(&patches, ch.len());
    let mut rec = Rec::new(id(idx, 0), "done", vec![], Some(vec![0; srclen]));
    rec.chain = Some(ch.clone());
    let mut outs = vec![];
    match m {
        Err(_) => {} // failing to merge is C08's business
        Ok((sum, done, k)) => {
            let finished = *done.last().unwrap();
            rec.done = done;
            let o: Out = rec.w("done").into();
            outs.push(Out { nontrivial: true, key: hash(format!("{:?}", ch).as_bytes()), ..o });
            if finished {
                // reproduces the final output with no source at all
                let mut b = vec![];
                let (wr, _) = guard(|| sum.write(&mut b, None, None, None));
                let from = ch.len() - k;
                let sl = if from == 0 { srclen } else { spec::out_len(&ch[from - 1]) };
                let target: Option<Vec<u8>> = crate::rec::chain_den(&ch[from..], sl).iter().map(|x| u8::try_from(*x).ok()).collect();
                if wr == "ok" && target.is_some() {
                    let mut rec = Rec::new(id(idx, 1), "nosrc", b, None);
                    rec.apply = Some(apply(&rec.patch, None));
                    rec.target = target;
                    outs.push(rec.w("rt").into());
                }
            }
        }
    }
    outs
}
fn spec_fill(mut n: usize) -> Vec<Op> { let mut v = vec![]; while n > 0 { let k = n.min(62); v.push(Op::R(1, k)); n -= k; } v }

/// Operation lists with long runs and many adjacent adds, as the transcoder likes to rework.
fn joinable(r: &mut Rng, srclen: usize) -> Vec<Op> {
    let mut v = vec![];
    for _ in 0..r.range(1, 8) {
        match r.below(5) {
            0 => { let c = r.below(3) as u8; for _ in 0..r.range(1, 26) { v.push(Op::R(c, *r.pick(&[1usize, 2, 31, 61, 62, 62, 62, 62]))); } }
            1 => for _ in 0..r.range(1, 5) { let l = *r.pick(&[1usize, 2, 61, 62, 63, 100]); v.push(Op::A(gen::block(r, l))); },
            2 => { let c = r.below(3) as u8; let t = *r.pick(&[370usize, 371, 372, 373, 434, 557, 558, 744]); let mut left = t; while left > 0 { let k = left.min(62); v.push(Op::R(c, k)); left -= k; } }
            _ => { let p = spec::out_len(&v); v.extend(gen::ops_after(r, srclen, 2, Size::Small, p, 255)); }
        }
    }
    v
}
/// Behind a long output: what is written there is judged as a patch of its own (MCFar).
fn c10_far(r: &mut Rng, idx: u64) -> Vec<Out> {
    let sl = r.range(0, 60);
    let mut ops = vec![Op::A(vec![1, 2])];
    ops.extend(joinable(r, sl));
    let parts = gen::split(r, &ops, 3);
    let p = Plan { secs: parts.into_iter().map(|p| (p, r.chance(1, 2), 0)).collect(), src: vec![0; sl] };
    let ob = far_base(r, 16, if idx % 2048 == 13 { 33 } else { 26 });
    let mut input = far_prefix(ob, false).0;
    input.extend(far_bytes(r, &p, 0, ob));
    let mut out = vec![];
    let seg = r.chance(1, 2);
    let algo = if r.chance(7, 8) { 0 } else { r.below(4) as u8 };
    let sc = gen::sec_of_algo(r, algo);
    let lim = *r.pick(&[0usize, 70000, 1 << 24, usize::MAX]);
    let (wr, _) = guard(|| smdiff_merger::transcoder::transcode(&mut Cursor::new(&input), &mut out, fmt(seg), sc, lim));
    let tail = if wr == "ok" { crate::suites2::tail_of(r, read_dec_up_to(&out, Mode::Borrowed, 1 << 22), 65_535, ob) } else { vec![] };
    let mut rec = Rec::far(id(idx, 0), "transfar", tail, Some(p.src.clone()), 0, ob).w("wr");
    rec.wr = wr;
    // the bytes that the operations stand for, whatever the (empty) content of the source
    if wr == "ok" { let t = spec::apply_ops(&p.ops(), Some(&p.src)).expect("plan"); rec = rec.w("legal").with_target(t); }
    vec![rec.into()]
}
fn c10(seed: u64, idx: u64, case: Option<&str>) -> Vec<Out> {
    let mut r = rng(seed, 10, idx);
    if case.is_none() && idx % crate::suites3::EVERY == 77 { return crate::suites3::many(10, &mut r, idx); }
    if case.is_none() && idx % 512 == 13 { return c10_far(&mut r, idx); }
    let p = match case {
        Some(c) => plan_of_json(&crate::json::parse(c)),
        None => match idx % 4 {
            0 => { let sl = r.range(0, 60); let ops = joinable(&mut r, sl); let parts = gen::split(&mut r, &ops, 3); Plan { secs: parts.into_iter().map(|p| (p, r.chance(1, 2), 0)).collect(), src: vec![0; sl] } }
            1 if idx % 80 == 1 => { // more than one section's worth
                let mut ops = vec![];
                for _ in 0..r.range(2, 6) { let n = *r.pick(&[30000usize, 65535, 40000]); let x = r.below(256) as u8; ops.push(Op::A((0..n).map(|i| x.wrapping_add((i / 251) as u8)).collect())); if r.chance(1, 2) { ops.push(Op::R(1, 62)); } }
                Plan { secs: vec![(ops, false, 0)], src: vec![] }
            }
            _ => plan(&mut r, idx / 4, idx % 4 == 3),
        },
    };
    let n = p.secs.len();
    let mut input = vec![];
    for (i, (o, seg, algo)) in p.secs.iter().enumerate() { let pl = r.chance(1, 2); input.extend(gen::section(&mut r, o, *algo, *seg, i + 1 < n, pl)); }
    let seg = r.chance(1, 2);
    let algo = if r.chance(1, 2) { 0 } else { r.below(4) as u8 };
    let sc = gen::sec_of_algo(&mut r, algo);
    let lim = *r.pick(&[0usize, 1, 65535, 65536, 70000, (1 << 24) - 1, 1 << 24, usize::MAX]);
    let mut out = vec![];
    let (wr, _) = guard(|| smdiff_merger::transcoder::transcode(&mut Cursor::new(&input), &mut out, fmt(seg), sc, lim));
    let mut rec = Rec::new(id(idx, 0), "transcode", if wr == "ok" { out } else { vec![] }, Some(p.src.clone())).w("wr");
    rec.wr = wr;
    if wr == "ok" {
        rec.dops = Some(p.ops());
        rec.cfg = Some(Cfg { algo, seg, lim, nosrc: false, notrgt: false, lit: 0, nops: 0 });
        rec = rec.w("den").w("cfg").w("legal");
    }
    vec![rec.into()]
}

// ---------------------------------------------------------------------------------------------
// Hostile input

fn c13(seed: u64, idx: u64, case: Option<&str>) -> Vec<Out> {
    let mut r = rng(seed, 13, idx);
    let (bytes, src) = if let Some(c) = case { let j = crate::json::parse(c); (j.get("bytes").bytes(), Some(if j.has("src") { j.get("src").bytes() } else { vec![1, 2, 3] })) } else { hostile(&mut r, idx) };
    let mut rec = Rec::new(id(idx, 0), "hostile", bytes, src);
    if case.is_none() && idx % 16384 == 78 {
        // the reference does not unpack it either: what follows the operations has to be refused, whatever it is
        let (head, body) = crate::suites3::bomb(&mut r);
        rec = Rec::new(id(idx, 0), "bomb", head, Some(vec![7; 20]));
        rec.dec.inf = vec![spec::Inf { st: "bad", used: 0, data: vec![] }];
        rec.dec.algo_seen = true;
        rec.patch.extend(body);
    }
    let base = crate::alloc::mark();
    let a = apply(&rec.patch, rec.src.as_deref());
    let rd = read_dec(&rec.patch, Mode::Borrowed);
    let raw = read_raw(&rec.patch, Mode::Owned);
    let ext = extract(&rec.patch);
    let mut others: Vec<(&'static str, &'static str)> = vec![("apply", a.r), ("read", rd.r), ("raw", raw.r), ("extract", ext.r)];
    let peak = crate::alloc::peak(base);
    let base2 = crate::alloc::mark();
    let lim = if r.chance(1, 2) { 0 } else { 1 << 24 };
    let seg = r.chance(1, 2);
    others.push(("transcode", guard(|| smdiff_merger::transcoder::transcode(&mut Cursor::new(&rec.patch), &mut Vec::new(), fmt(seg), None, lim)).0));
    // as either partner of a merge
    let good: Vec<u8> = { let mut x = vec![]; let ops = vec![Op::D(0, 5), Op::A(vec![1, 2]), Op::D(3, 4), Op::O(1, 3)]; spec::put_header(&mut x, 0, false, false, 4, 2, 14, 0); let mut f = || spec::Enc::default(); spec::put_body(&mut x, &ops, false, &mut f); x };
    let p = &rec.patch;
    others.push(("merge-terminal", guard(|| match smdiff_merger::Merger::new(Cursor::new(p))? { Ok(m) => match m.merge(Cursor::new(&good))? { Ok(m) => m.finish().write(&mut Vec::new(), None, None, None), Err(s) => s.write(&mut Vec::new(), None, None, None) }, Err(s) => s.write(&mut Vec::new(), None, None, None) }).0));
    others.push(("merge-predecessor", guard(|| match smdiff_merger::Merger::new(Cursor::new(&good))? { Ok(m) => match m.merge(Cursor::new(p))? { Ok(m) => m.finish().write(&mut Vec::new(), None, None, None), Err(s) => s.write(&mut Vec::new(), None, None, None) }, Err(s) => s.write(&mut Vec::new(), None, None, None) }).0));
    let peak2 = crate::alloc::peak(base2);
    rec.others = others;
    // KiB: tables and windows (those of a decompressor are large), something per byte of input, and a few times what the headers declare;
    // operations held in memory take more than the bytes they stand for (compressed payloads, and copies resolved by a merge)
    let input = rec.patch.len() + rec.src.as_ref().map_or(0, |s| s.len());
    let dc = rec.dec.declared.min(1 << 40) as usize;
    rec.peak = peak / 1024;
    rec.allow = if rec.dec.algo_seen { (64 << 10) + input + dc / 8 } else { (8 << 10) + input + dc * 3 / 1024 };
    rec.peak2 = peak2 / 1024;
    rec.allow2 = (if rec.dec.algo_seen { 64 << 10 } else { 8 << 10 }) + input + dc / 4;
    if std::env::var("MEMSTAT").is_ok() { eprintln!("MEM {} {} {} {} {} {}", rec.peak, rec.allow, rec.peak2, rec.allow2, input, dc); }
    let nontrivial = true;
    let o: Out = rec.w("others").w("mem").into();
    vec![Out { nontrivial, ..o }]
}
fn hostile(r: &mut Rng, idx: u64) -> (Vec<u8>, Option<Vec<u8>>) {
    let src = match r.below(3) { 0 => None, 1 => Some(vec![]), _ => Some(gen::block(r, 20)) };
    if idx % 9973 == 77 {
        // every copy of the output repeats all the small operations before it
        let mut ops: Vec<Op> = (0..r.range(1, 40)).map(|k| if r.chance(1, 2) { Op::R(k as u8, 1) } else { Op::A(vec![k as u8, 1]) }).collect();
        let mut n = spec::out_len(&ops);
        let top = r.range(100_000, 2_000_000);
        while n < top { let k = n.min(65_535); ops.push(Op::O(0, k)); n += k; }
        let algo = if r.chance(1, 3) { r.range(1, 3) as u8 } else { 0 };
        let seg = r.chance(1, 2);
        return (gen::section(r, &ops, algo, seg, false, true), src);
    }
    let b = match idx % 5 {
        0 => { let n = r.range(0, 24); let mut b = r.bytes(n, 256); if !b.is_empty() && r.chance(1, 2) { b[0] &= 0xc0 | (r.below(4) as u8) << 3; } b }
        1 => { // structured garbage: header with extreme fields, then ops
            let mut b = vec![];
            let algo = if r.chance(2, 3) { 0 } else { r.below(8) as u8 };
            b.push((r.below(4) as u8) << 6 | algo << 3);
            for _ in 0..3 { let n = match r.below(6) { 0 => r.below(5) as u64, 1 => 1 << r.below(64), 2 => (1u64 << r.below(64)).wrapping_sub(1), 3 => u32::MAX as u64 + r.below(2) as u64, 4 => (1 << 24) - r.below(3) as u64, _ => r.below(300) as u64 }; let pad = r.range(0, 12); spec::put_uvar(&mut b, n, pad.min(10)); }
            let n = r.range(0, 30);
            b.extend(r.bytes(n, 256));
            b
        }
        2 | 3 => { let i = r.next() % 15; let p = plan(r, i, true); let n = p.secs.len(); let mut out = vec![]; for (i, (o, seg, algo)) in p.secs.iter().enumerate() { let pl = r.chance(1, 2); out.extend(gen::section(r, o, *algo, *seg, i + 1 < n, pl)); } gen::mutate(r, &mut out); out }
        _ => { let i = r.next() % 15; let p = plan(r, i, false); inconsistent(r, &p).1 }
    };
    (b, src)
}
#[allow(dead_code)]
fn unused() { let _ = TrgtMatcherConfig::comp_level(1); }
