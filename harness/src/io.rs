//! C16: the caller's streams as an environment that decides what each call does.
use crate::gen::{self, Size};
use crate::json;
use crate::obs::guard;
use crate::opsrec::digest;
use crate::out::{hash, Out};
use crate::rng::Rng;
use crate::spec::{self, Op};
use smdiff_common::{Format, SectionHeader};
use std::cell::RefCell;
use std::io::{self, Cursor, Error, ErrorKind, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

pub enum Ev { R(usize), W(Vec<u8>), S(u64), F }
#[derive(Default)]
pub struct Plan {
    /// what call number `at` + i does (F, S, I, Z, X); all other calls do `rest`
    pub at: usize, pub sched: Vec<u8>, pub rest: u8,
    pub calls: usize, pub failed: bool, pub odd: bool,
    pub ev: Vec<(char, Ev, u8)>,
    pub logging: bool,
    /// reading nothing is how a stream ends, and that may be anywhere
    pub ends: bool,
    /// once is a stream that may be asked again; more often, it ends there for all anyone can tell
    pub empty: bool,
}
impl Plan {
    fn next(&mut self, kind: u8) -> u8 {
        let c = self.calls;
        self.calls += 1;
        let mut o = if c >= self.at && c - self.at < self.sched.len() { self.sched[c - self.at] } else if c >= self.at && self.sched.is_empty() { self.rest } else if self.rest == b'S' { b'S' } else { b'F' };
        if o == b'Z' && (kind == b's' || kind == b'r' && (self.ends || self.empty)) || o == b'I' && kind == b's' || o == b'S' && kind == b's' { o = b'F'; }
        if o == b'Z' && kind == b'r' { self.empty = true; }
        match o { b'X' => self.failed = true, b'I' | b'Z' => self.odd = true, _ => {} }
        o
    }
    fn note(&mut self, s: char, e: Ev, o: u8) { if self.logging { self.ev.push((s, e, o)); } }
}
pub type P = Rc<RefCell<Plan>>;
pub struct Io { pub name: char, pub c: Cursor<Vec<u8>>, pub p: P, pub chunk: usize }
fn broken() -> Error { Error::new(ErrorKind::Other, "injected") }
fn interrupted() -> Error { Error::new(ErrorKind::Interrupted, "injected") }
impl Io {
    fn new(name: char, data: &[u8], p: &P, chunk: usize) -> Io { Io { name, c: Cursor::new(data.to_vec()), p: p.clone(), chunk } }
}
impl Read for Io {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        let mut p = self.p.borrow_mut();
        let o = p.next(b'r');
        let r = match o { b'X' => Err(broken()), b'I' => Err(interrupted()), b'Z' => Ok(0), b'S' => { let n = b.len().min(self.chunk); self.c.read(&mut b[..n]) } _ => self.c.read(b) };
        p.note(self.name, Ev::R(*r.as_ref().unwrap_or(&0)), o);
        r
    }
}
impl Write for Io {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        let mut p = self.p.borrow_mut();
        let o = p.next(b'w');
        let r = match o { b'X' => Err(broken()), b'I' => Err(interrupted()), b'Z' => Ok(0), b'S' => { let n = b.len().min(self.chunk); self.c.write(&b[..n]) } _ => self.c.write(b) };
        let took = *r.as_ref().unwrap_or(&0);
        p.note(self.name, Ev::W(if o == b'F' || o == b'S' { b[..took].to_vec() } else { vec![] }), o);
        r
    }
    fn flush(&mut self) -> io::Result<()> { self.p.borrow_mut().note(self.name, Ev::F, b'F'); Ok(()) }
}
impl Seek for Io {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let mut p = self.p.borrow_mut();
        let o = p.next(b's');
        let r = if o == b'X' { Err(broken()) } else { self.c.seek(to) };
        p.note(self.name, Ev::S(*r.as_ref().unwrap_or(&0)), o);
        r
    }
}

/// One operation on streams, repeatable.
struct Job { kind: &'static str, patch: Vec<u8>, more: Vec<Vec<u8>>, src: Option<Vec<u8>>, trg: Vec<u8>, cfg: smdiff_encoder::EncoderConfig,
    ops: Vec<Op>, seg: bool, lim: usize, algo: u8, seed: u64 }
fn job(r: &mut Rng, idx: u64) -> Job {
    let mut j = Job { kind: "", patch: vec![], more: vec![], src: None, trg: vec![], cfg: gen::config(r), ops: vec![], seg: r.chance(1, 2), lim: 65_535 << r.below(5), algo: 0, seed: r.next() };
    let sl = *r.pick(&[1usize, 5, 60, 200]);
    let src = gen::block(r, sl);
    let n = r.range(1, 7);
    let size = if r.chance(1, 12) { Size::Large } else if r.chance(1, 3) { Size::Small } else { Size::Tiny };
    j.ops = gen::ops(r, src.len(), n, size);
    j.algo = if r.chance(1, 2) { 0 } else { r.range(1, 3) as u8 };
    let parts = gen::split(r, &j.ops, 3);
    let comp = r.chance(1, 2);
    j.patch = gen::patch(r, &parts, comp, true);
    let big = r.chance(1, 24);
    match idx % 12 {
        0 | 1 => j.kind = "apply",
        2 | 3 => { j.kind = "encode"; j.src = if r.chance(1, 4) { None } else { Some(gen::source(r, Size::Tiny)) }; let s = j.src.clone().unwrap_or_default(); j.trg = gen::target(r, &s, if big { Size::Mid } else { Size::Tiny }); }
        4 => j.kind = "raw",
        5 => j.kind = "dec",
        6 => j.kind = "extract",
        7 | 8 => {
            j.kind = "merge";
            for _ in 0..r.below(3) {
                let sl = j.src.as_ref().map_or(src.len(), |_| src.len());
                let last = if j.more.is_empty() { spec::out_len(&j.ops) } else { spec::out_len(&j.ops) };
                let _ = (sl, last);
                // predecessors produce something at least as long as what the successor reads
                let mut o = gen::ops(r, src.len(), 3, Size::Tiny);
                while spec::out_len(&o) < src.len() { o.push(Op::R(7, 62.min(src.len()))); }
                j.more.push(gen::patch(r, &[o], false, true));
            }
        }
        9 => j.kind = "transcode",
        10 => { j.kind = "vcdiff"; let (d, _, _) = crate::vcd::delta(r, (idx / 12) * 4); j.patch = if d.len() < 3000 { d } else { crate::vcd::delta(r, 0).0 }; }
        _ => j.kind = "section",
    }
    if j.src.is_none() && j.kind != "encode" && r.chance(19, 20) { j.src = Some(src); }
    if r.chance(1, 16) && j.patch.len() > 2 { let k = j.patch.len() - 1 - r.below(j.patch.len() / 2); j.patch.truncate(k); }
    j
}
fn bin<T: std::fmt::Debug>(v: &mut Vec<u8>, x: T) { v.extend_from_slice(format!("{:?};", x).as_bytes()); }
impl Job {
    /// What it returned, what it handed out other than through streams, and what the written stream holds.
    fn run(&self, p: &P, chunk: usize) -> (&'static str, Vec<u8>, Vec<u8>) {
        let mut o = Io::new('o', b"", p, chunk);
        let mut res: Vec<u8> = vec![];
        let fm = if self.seg { Format::Segregated } else { Format::Interleaved };
        let mut rr = Rng::new(self.seed);
        let sc = gen::sec_of_algo(&mut rr, self.algo);
        let io = |n: char, d: &[u8]| Io::new(n, d, p, chunk);
        let (r, _) = guard(|| -> io::Result<()> {
            match self.kind {
                "apply" => { let mut s = self.src.as_ref().map(|x| io('d', x)); smdiff_decoder::apply_patch(&mut io('p', &self.patch), s.as_mut(), &mut o)?; }
                "encode" => { let mut s = self.src.as_ref().map(|x| io('d', x)); smdiff_encoder::encode(s.as_mut(), &mut io('t', &self.trg), &mut o, &self.cfg)?; }
                "raw" => {
                    let mut it = smdiff_reader::SectionIterator::new(io('p', &self.patch));
                    loop { match it.next_borrowed() { None => break, Some(x) => { let (ops, h) = x?; let s = crate::obs::sec_of(ops, &h); bin(&mut res, s.json()); } } }
                    let left = it.into_inner();
                    bin(&mut res, left.c.position());
                }
                "dec" => {
                    let mut it = smdiff_decoder::reader::SectionIterator::new(io('p', &self.patch));
                    let mut k = 0;
                    loop {
                        k += 1;
                        let x = if (self.seed >> (k % 60)) & 1 == 0 { it.next_borrowed().map(|x| x.map(|(o, h)| crate::obs::sec_of(o, &h))) } else { it.next().map(|x| x.map(|(o, h)| crate::obs::sec_of(&o, &h))) };
                        match x { None => break, Some(x) => bin(&mut res, x?.json()) }
                    }
                }
                "extract" => {
                    let (ops, st) = smdiff_merger::extract_patch_instructions(io('p', &self.patch))?;
                    for (q, op) in &ops { bin(&mut res, (q, spec::conv(op).json())); }
                    bin(&mut res, (st.add_bytes, st.run_bytes, st.copy_bytes, st.add_cnt, st.run_cnt, st.copy_d_cnt, st.copy_o_cnt, st.output_size));
                }
                "merge" => {
                    let mut cur = smdiff_merger::Merger::new(io('p', &self.patch))?;
                    for q in &self.more {
                        match cur { Ok(m) => { bin(&mut res, "more"); cur = m.merge(io('q', q))?; } Err(_) => { bin(&mut res, "done"); break; } }
                    }
                    let s = match cur { Ok(m) => m.finish(), Err(s) => s };
                    s.write(&mut o, Some(self.lim), Some(fm), sc)?;
                }
                "transcode" => smdiff_merger::transcoder::transcode(&mut io('p', &self.patch), &mut o, fm, sc, self.lim)?,
                "vcdiff" => smdiff_vcdiff::convert_vcdiff_to_smdiff(io('p', &self.patch), &mut o)?,
                _ => {
                    let rops: Vec<smdiff_reader::Op> = self.ops.iter().map(spec::unconv).collect();
                    let mut buf = vec![];
                    for more in [true, false] {
                        let h = SectionHeader::new(rops.len() as u32, spec::add_len(&self.ops) as u32, spec::out_len(&self.ops) as u32).set_format(fm).set_more_sections(more);
                        smdiff_encoder::writer::section_writer(&sc, h, &mut o, &rops, &mut buf)?;
                    }
                }
            }
            Ok(())
        });
        let out = o.c.get_ref().clone();
        (r, if r == "ok" { res } else { vec![] }, out)
    }
}
pub fn c16(seed: u64, idx: u64, case: Option<&str>) -> Vec<Out> {
    let mut r = Rng::new(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (16 << 48) ^ idx);
    let j = job(&mut r, idx);
    let p0: P = Rc::new(RefCell::new(Plan::default()));
    let base = j.run(&p0, 1);
    let n = p0.borrow().calls;
    // the plans: a schedule of the model; or a failure at each call; or short transfers throughout; or a mixture
    let mut plans: Vec<(usize, Vec<u8>, u8, usize, &'static str)> = vec![];
    if let Some(c) = case {
        let s: Vec<u8> = json::parse(c).a().iter().map(|x| x.s().as_bytes()[0]).collect();
        for k in 0..3 { plans.push((if k == 0 { 0 } else { r.below(n.max(1)) }, s.clone(), if k == 2 { b'S' } else { b'F' }, 1 + r.below(3), "model")); }
    } else {
        let step = if n > 40 { n as f64 / 40.0 } else { 1.0 };
        let mut k = r.below(step as usize + 1) as f64;
        while (k as usize) < n && plans.len() < 40 { plans.push((k as usize, if plans.len() % 4 == 3 { vec![] } else { vec![b'X'] }, b'X', 1, "fail")); k += step; }
        // (an empty schedule: every call from there on)
        plans.push((0, vec![], b'S', 1, "short"));
        plans.push((0, vec![], b'S', 1 + r.below(9), "short"));
        for _ in 0..4 { plans.push((r.below(n.max(1)), vec![*r.pick(&[b'I', b'Z'])], b'F', 1, "odd")); }
        for _ in 0..6 {
            let m = r.range(1, 12);
            let s: Vec<u8> = (0..m).map(|_| *r.pick(b"FFSSSIZX")).collect();
            plans.push((r.below(n.max(1)), s, *r.pick(b"FS"), 1 + r.below(5), "mixed"));
        }
    }
    let mut outs = vec![];
    for (k, (at, sched, rest, chunk, tag)) in plans.into_iter().enumerate() {
        let rest = if sched.is_empty() || rest == b'S' { rest } else { b'F' };
        let p: P = Rc::new(RefCell::new(Plan { at, sched, rest, logging: n <= 3000, ends: j.kind == "encode" || base.0 != "ok", ..Default::default() }));
        let (res, val, out) = j.run(&p, chunk);
        let p = p.borrow();
        let same = res == base.0 && (res != "ok" || (val == base.1 && out == base.2));
        let ok = res != "panic" && if p.failed { res == "err" } else if p.odd { res == "err" || same } else { same };
        let wbytes: usize = p.ev.iter().map(|e| if let Ev::W(b) = &e.1 { b.len() } else { 0 }).sum();
        let weight = 80 + p.ev.len() * 14 + wbytes * 2 + base.2.len();
        let json = if !p.logging || weight > 60_000 { String::new() } else {
            let ev: Vec<String> = p.ev.iter().map(|(s, e, o)| match e {
                Ev::R(n) => format!("{{\"s\":\"{}\",\"k\":\"r\",\"o\":\"{}\",\"n\":{}}}", s, *o as char, n),
                Ev::W(b) => format!("{{\"s\":\"{}\",\"k\":\"w\",\"o\":\"{}\",\"b\":{}}}", s, *o as char, json::bytes_s(b)),
                Ev::S(n) => format!("{{\"s\":\"{}\",\"k\":\"s\",\"o\":\"{}\",\"n\":{}}}", s, *o as char, json::cap(*n)),
                Ev::F => format!("{{\"s\":\"{}\",\"k\":\"f\",\"o\":\"F\"}}", s),
            }).collect();
            format!("{{\"id\":{},\"tag\":\"{}-{}\",\"base\":\"{}\",\"baseres\":{},\"baseout\":{},\"r\":\"{}\",\"res\":{},\"ev\":[{}]}}", idx * 64 + k as u64, j.kind, tag,
                base.0, digest(&base.1), json::bytes_s(if base.0 == "ok" { &base.2 } else { b"" }), res, digest(&val), ev.join(","))
        };
        let key = hash(format!("{} {} {:?} {} {}", j.kind, p.at, p.sched, p.rest, hash(&j.patch) ^ hash(&j.trg)).as_bytes());
        outs.push(Out { kind: "io", json, fails: if ok { vec![] } else { vec!["io"] }, weight, key, nontrivial: true });
    }
    outs
}
