//! One record of a TracePatch trace: a patch and what the real code did with it.
use crate::json;
use crate::obs::*;
use crate::spec::{self, Dec, Op, Parse, Verdict};

#[derive(Clone, Default)]
pub struct Cfg { pub algo: u8, pub seg: bool, pub lim: usize, pub nosrc: bool, pub notrgt: bool, pub lit: usize, pub nops: usize }

pub struct Rec {
    pub id: u64, pub tag: String, pub patch: Vec<u8>, pub src: Option<Vec<u8>>, pub want: Vec<&'static str>, pub dec: Dec,
    pub apply: Option<Applied>, pub rd: Option<ReadObs>, pub rdo: Option<ReadObs>, pub rdm: Option<ReadObs>, pub raw: Option<ReadObs>,
    pub ext: Option<ExtObs>, pub target: Option<Vec<u8>>, pub ops: Option<Vec<Op>>, pub cfg: Option<Cfg>, pub heads: Option<Vec<spec::Sec>>,
    pub same: bool, pub others: Vec<(&'static str, &'static str)>, pub peak: usize, pub allow: usize, pub peak2: usize, pub allow2: usize,
    /// how the call that should have produced the patch went
    pub wr: &'static str,
    /// bytes that follow the patch in its stream
    pub trail: usize,
    /// what was read and applied of the same content written without compression
    pub rd0: Option<ReadObs>, pub apply0: Option<Applied>,
    /// operation lists, first applied first
    pub chain: Option<Vec<Vec<Op>>>,
    /// after each step of a merge: is the summary finished?
    pub done: Vec<bool>,
    /// operations whose meaning the patch must have
    pub dops: Option<Vec<Op>>, pub deref: Option<ExtObs>,
    /// operations handed out instead of a patch
    pub tops: Option<Vec<Op>>,
}
/// Atoms: a literal byte, or 256 + i for the source's byte i.
pub fn den(ops: &[Op], srclen: usize) -> Option<Vec<u32>> {
    let mut v: Vec<u32> = Vec::new();
    for op in ops {
        match op {
            Op::A(b) => v.extend(b.iter().map(|x| *x as u32)),
            Op::R(c, n) => v.resize(v.len() + n, *c as u32),
            Op::D(a, n) => { if a.checked_add(*n as u64).map_or(true, |e| e > srclen as u64) { return None; } v.extend((0..*n).map(|i| 256 + *a as u32 + i as u32)) }
            Op::O(a, n) => { if a.checked_add(*n as u64).map_or(true, |e| e > v.len() as u64) { return None; } v.extend_from_within(*a as usize..*a as usize + n) }
        }
    }
    Some(v)
}
pub fn compose(d2: &[u32], d1: &[u32]) -> Vec<u32> { d2.iter().map(|x| if *x < 256 { *x } else { d1[*x as usize - 256] }).collect() }
/// The composed meaning of chain[k..].
pub fn chain_den(chain: &[Vec<Op>], srclen: usize) -> Vec<u32> {
    let mut cur = den(&chain[0], srclen).expect("chain");
    for c in &chain[1..] { let x = den(c, cur.len()).expect("chain"); cur = compose(&x, &cur); }
    cur
}
fn agree(v: Verdict, r: &str, same: bool) -> bool {
    match v {
        Verdict::Accept => r == "ok" && same,
        Verdict::Reject => r == "err",
        Verdict::Maybe => r == "err" || (r == "ok" && same),
        Verdict::Free => r == "ok" || r == "err",
    }
}
fn heads_eq(a: &[spec::Sec], b: &[spec::Sec]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.nops == y.nops && x.nadd == y.nadd && x.osz == y.osz) }
fn secs_agree(v: Verdict, o: &ReadObs, secs: &[spec::Sec]) -> bool {
    match v {
        Verdict::Accept | Verdict::Maybe => (o.r == "ok" && o.secs == secs) || (v == Verdict::Maybe && o.r == "err"),
        Verdict::Reject => o.r == "err" && o.secs == secs,
        Verdict::Free => o.r == "ok" || o.r == "err",
    }
}
impl Rec {
    pub fn new(id: u64, tag: &str, patch: Vec<u8>, src: Option<Vec<u8>>) -> Rec {
        let dec = spec::decode(&patch, src.as_deref());
        Rec { id, tag: tag.into(), patch, src, want: vec![], dec, apply: None, rd: None, rdo: None, rdm: None, raw: None, ext: None, target: None,
            ops: None, cfg: None, heads: None, same: true, others: vec![], peak: 0, allow: 0, peak2: 0, allow2: 0,
            wr: "ok", trail: 0, rd0: None, apply0: None, chain: None, done: vec![], dops: None, deref: None, tops: None }
    }
    /// A patch for files of which only the ends are recorded.
    pub fn far(id: u64, tag: &str, patch: Vec<u8>, src: Option<Vec<u8>>, sb: u64, ob: u64) -> Rec {
        let dec = spec::decode_at(&patch, src.as_deref(), sb, ob);
        Rec { dec, ..Rec::new(id, tag, patch, src) }
    }
    pub fn w(mut self, f: &'static str) -> Rec { self.want.push(f); self }
    pub fn with_apply(mut self) -> Rec { self.apply = Some(apply(&self.patch, self.src.as_deref())); self.w("apply").w("srcsame") }
    pub fn with_read(mut self) -> Rec { self.rd = Some(read_dec(&self.patch, Mode::Borrowed)); self.w("read").w("after") }
    pub fn with_all_reads(mut self, seed: u64) -> Rec {
        self.rd = Some(read_dec(&self.patch, Mode::Borrowed));
        self.rdo = Some(read_dec(&self.patch, Mode::Owned));
        self.rdm = Some(read_dec(&self.patch, Mode::Mixed(seed)));
        self.w("read").w("owned").w("mixed").w("after")
    }
    pub fn with_raw(mut self, m: Mode) -> Rec { self.raw = Some(read_raw(&self.patch, m)); self.w("raw").w("left").w("after") }
    pub fn with_ext(mut self) -> Rec { self.ext = Some(extract(&self.patch)); self.w("ext") }
    pub fn with_target(mut self, t: Vec<u8>) -> Rec { self.target = Some(t); self.w("target") }
    pub fn with_ops(mut self, o: Vec<Op>) -> Rec { self.ops = Some(o); self.w("ops") }
    fn after(&self) -> Vec<&'static str> {
        [&self.rd, &self.rdo, &self.rdm, &self.raw].iter().flat_map(|x| x.iter().flat_map(|y| y.after.iter().cloned())).collect()
    }
    fn plain(&self) -> bool { !self.dec.algo_seen }
    fn facet(&self, f: &str) -> bool {
        let d = &self.dec;
        let raw_free = !self.plain() || d.parse == Parse::Free;
        match f {
            "apply" => { let a = self.apply.as_ref().unwrap(); agree(d.apply(), a.r, a.out == d.out) }
            "applyt" => self.apply.as_ref().unwrap().r != "panic",
            "srcsame" => self.apply.as_ref().map_or(true, |a| a.src_same),
            "read" => secs_agree(d.read(), self.rd.as_ref().unwrap(), &d.secs),
            "owned" => self.rd.as_ref().unwrap().same(self.rdo.as_ref().unwrap()),
            "mixed" => self.rd.as_ref().unwrap().same(self.rdm.as_ref().unwrap()),
            "raw" => { let o = self.raw.as_ref().unwrap(); if raw_free { o.r != "panic" } else { secs_agree(d.read(), o, &d.secs) } }
            "left" => { let o = self.raw.as_ref().unwrap(); !(self.plain() && d.parse == Parse::Ok && o.r == "ok") || o.left == self.patch.len() - d.pos }
            "after" => self.after().iter().all(|x| *x == "none"),
            "ext" => {
                let e = self.ext.as_ref().unwrap();
                let ops = d.ops();
                let mut p = 0;
                let pos: Vec<u64> = ops.iter().map(|o| { let q = p; p += o.len() as u64; q }).collect();
                agree(d.extract(), e.r, e.ops == ops && e.pos == pos && e.st == stats_of(&ops))
            }
            "wf" => d.well_formed(&self.patch),
            "legal" => d.well_formed(&self.patch) && d.d_ok && d.o_ok,
            "target" => d.well_formed(&self.patch) && d.d_ok && d.o_ok && Some(&d.out) == self.target.as_ref(),
            "ops" => d.well_formed(&self.patch) && Some(d.ops()) == self.ops,
            "cfg" => {
                let c = self.cfg.as_ref().unwrap();
                let lim = c.lim.clamp(spec::MAX_INST, spec::MAX_SECTION as usize) as u64;
                d.parse == Parse::Ok && d.secs.iter().all(|s| s.algo == c.algo && s.seg == c.seg && s.osz <= lim)
                    && (!c.nosrc || d.secs.iter().all(|s| s.ops.iter().all(|o| !matches!(o, Op::D(..)))))
            }
            "notrgt" => {
                let c = self.cfg.as_ref().unwrap();
                d.parse == Parse::Ok && (!c.notrgt || d.secs.iter().all(|s| s.ops.iter().all(|o| match o {
                    Op::O(a, n) => { let s = &d.out[*a as usize..*a as usize + n]; s.iter().all(|b| *b == s[0]) }
                    _ => true,
                })))
            }
            "nops" => d.parse == Parse::Ok && d.ops().len() <= self.cfg.as_ref().unwrap().nops,
            "lit" => d.parse == Parse::Ok && spec::add_len(&d.ops()) <= self.cfg.as_ref().unwrap().lit,
            "heads" => {
                let h = self.heads.as_ref().unwrap();
                h.len() == d.secs.len() && h.iter().zip(&d.secs).all(|(h, s)| h.nops == s.nops && h.osz == s.osz && h.more == s.more && h.nadd == s.nadd && h.algo == s.algo && h.seg == s.seg)
            }
            "same" => self.same,
            "others" => self.others.iter().all(|o| o.1 != "panic"),
            "wr" => self.wr == "ok",
            "refused" => self.wr == "err",
            "rt" => { let a = self.apply.as_ref().unwrap(); a.r == "ok" && Some(&a.out) == self.target.as_ref() }
            "rej" => d.apply() != Verdict::Reject || self.apply.as_ref().unwrap().r != "ok",
            "back" => { let o = self.rd.as_ref().unwrap(); o.r == "ok" && Some(&o.secs) == self.heads.as_ref() }
            "backraw" => { let o = self.raw.as_ref().unwrap(); o.r == "ok" && Some(&o.secs) == self.heads.as_ref() }
            "leftx" => self.raw.as_ref().unwrap().left == self.trail,
            "hdrs" => { let o = self.rd.as_ref().unwrap(); o.r != "ok" || heads_eq(&o.secs, self.heads.as_ref().unwrap()) }
            "hdrsraw" => { let o = self.raw.as_ref().unwrap(); o.r != "ok" || heads_eq(&o.secs, self.heads.as_ref().unwrap()) }
            "transp" => { let (a, b) = (self.rd.as_ref().unwrap(), self.rd0.as_ref().unwrap()); a.r == b.r && a.secs.iter().map(|s| &s.ops).eq(b.secs.iter().map(|s| &s.ops)) }
            "transpa" => { let (a, b) = (self.apply.as_ref().unwrap(), self.apply0.as_ref().unwrap()); a.r == b.r && a.out == b.out }
            "deref" => !d.well_formed(&self.patch) || { let n = self.src.as_ref().map_or(0, |s| s.len()); let x = den(&d.ops(), n); x.is_none() || {
                let e = self.deref.as_ref().unwrap();
                let mut p = 0;
                let pos: Vec<u64> = e.ops.iter().map(|o| { let q = p; p += o.len() as u64; q }).collect();
                e.r == "ok" && !e.ops.iter().any(|o| matches!(o, Op::O(..)) || o.len() == 0) && pos == e.pos && x == den(&e.ops, n)
            } },
            "den" => d.well_formed(&self.patch) && { let n = self.src.as_ref().map_or(0, |s| s.len()); let x = den(&d.ops(), n); x.is_some() && x == den(self.dops.as_ref().unwrap(), n) },
            "merge" => d.well_formed(&self.patch) && { let n = self.src.as_ref().map_or(0, |s| s.len()); den(&d.ops(), n) == Some(chain_den(self.chain.as_ref().unwrap(), n)) },
            "tops" => { let n = self.src.as_ref().map_or(0, |s| s.len()); den(self.tops.as_ref().unwrap(), n) == Some(chain_den(self.chain.as_ref().unwrap(), n)) }
            "done" => {
                let c = self.chain.as_ref().unwrap();
                let mut lens = vec![self.src.as_ref().map_or(0, |s| s.len())];
                for p in c { lens.push(spec::out_len(p)); }
                (0..self.done.len()).all(|k| { let from = c.len() - 1 - k; self.done[k] == chain_den(&c[from..], lens[from]).iter().all(|x| *x < 256) })
            }
            "mem" => self.peak <= self.allow && self.peak2 <= self.allow2,
            _ => panic!("facet {}", f),
        }
    }
    /// facets the monitor would reject
    pub fn fails(&self) -> Vec<&'static str> { self.want.iter().filter(|f| !self.facet(f)).cloned().collect() }
    pub fn weight(&self) -> usize { 64 + self.patch.len() + self.dec.out.len() + self.dec.inf.iter().map(|i| i.data.len()).sum::<usize>() + self.src.as_ref().map_or(0, |s| s.len()) }
    pub fn to_json(&self) -> String {
        let mut f: Vec<String> = vec![
            format!("\"id\":{}", self.id), format!("\"tag\":\"{}\"", self.tag), format!("\"patch\":{}", json::bytes_s(&self.patch)),
            format!("\"hs\":{}", self.src.is_some()), format!("\"src\":{}", json::bytes_s(self.src.as_deref().unwrap_or(&[]))),
            format!("\"inf\":{}", json::list(&self.dec.inf.iter().map(|i| i.json()).collect::<Vec<_>>())),
            format!("\"want\":{},\"sb\":{},\"ob\":{}", json::strs(&self.want), json::word(self.dec.sb), json::word(self.dec.ob)),
        ];
        if let Some(a) = &self.apply { f.push(format!("\"apply\":{}", a.json())); f.push(format!("\"srcsame\":{}", a.src_same)); }
        if let Some(a) = &self.rd { f.push(format!("\"rd\":{}", a.json())); }
        if let Some(a) = &self.rdo { f.push(format!("\"rdo\":{}", a.json())); }
        if let Some(a) = &self.rdm { f.push(format!("\"rdm\":{}", a.json())); }
        if let Some(a) = &self.raw { f.push(format!("\"raw\":{}", a.json_left())); }
        if let Some(a) = &self.ext { f.push(format!("\"ext\":{}", a.json())); }
        if let Some(a) = &self.target { f.push(format!("\"target\":{}", json::bytes_s(a))); }
        if let Some(a) = &self.ops { f.push(format!("\"ops\":{}", spec::ops_json(a))); }
        if let Some(a) = &self.heads { f.push(format!("\"heads\":{}", spec::secs_json(a))); }
        if let Some(c) = &self.cfg {
            f.push(format!("\"cfg\":{{\"algo\":{},\"seg\":{},\"lim\":{},\"nosrc\":{},\"notrgt\":{},\"lit\":{},\"nops\":{}}}", c.algo, c.seg, c.lim.min(1 << 30), c.nosrc, c.notrgt, c.lit.min(1 << 30), c.nops.min(1 << 30)));
        }
        if let Some(a) = &self.rd0 { f.push(format!("\"rd0\":{}", a.json())); }
        if let Some(a) = &self.apply0 { f.push(format!("\"apply0\":{}", a.json())); }
        if let Some(a) = &self.chain { f.push(format!("\"chain\":{}", json::list(&a.iter().map(|x| spec::ops_json(x)).collect::<Vec<_>>()))); }
        if let Some(a) = &self.dops { f.push(format!("\"dops\":{}", spec::ops_json(a))); }
        if let Some(a) = &self.deref { f.push(format!("\"deref\":{}", a.json())); }
        if let Some(a) = &self.tops { f.push(format!("\"tops\":{}", spec::ops_json(a))); }
        f.push(format!("\"wr\":\"{}\",\"trail\":{},\"done\":[{}]", self.wr, self.trail, self.done.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
        f.push(format!("\"after\":{}", json::strs(&self.after())));
        f.push(format!("\"same\":{}", self.same));
        f.push(format!("\"others\":{}", json::list(&self.others.iter().map(|o| format!("{{\"n\":\"{}\",\"r\":\"{}\"}}", o.0, o.1)).collect::<Vec<_>>())));
        let c = |n: usize| n.min(2_000_000_000);
        f.push(format!("\"peak\":{},\"allow\":{},\"peak2\":{},\"allow2\":{}", c(self.peak), c(self.allow), c(self.peak2), c(self.allow2)));
        format!("{{{}}}", f.join(","))
    }
}
