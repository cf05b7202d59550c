//! Compiled monitor: a transliteration of spec/SmdFormat.tla and spec/SmdDecoder.tla,
//! used to look at far more cases than TLC can.  Whatever it suspects, and a sample of
//! what it does not, is recorded and judged by TLC; nothing is reported on its word alone.
use crate::json;

pub const MAX_RUN: usize = 62;
pub const MAX_INST: usize = 65535;
pub const MAX_SECTION: u64 = 16777215;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op { A(Vec<u8>), R(u8, usize), D(u64, usize), O(u64, usize) }
impl Op {
    pub fn len(&self) -> usize { match self { Op::A(b) => b.len(), Op::R(_, n) | Op::D(_, n) | Op::O(_, n) => *n } }
    pub fn t(&self) -> char { match self { Op::A(_) => 'A', Op::R(..) => 'R', Op::D(..) => 'D', Op::O(..) => 'O' } }
    pub fn json(&self) -> String {
        match self {
            Op::A(b) => format!("{{\"t\":\"A\",\"b\":{}}}", json::bytes_s(b)),
            Op::R(c, n) => format!("{{\"t\":\"R\",\"c\":{},\"n\":{}}}", c, n),
            Op::D(a, n) => format!("{{\"t\":\"D\",\"a\":{},\"n\":{}}}", json::word(*a), n),
            Op::O(a, n) => format!("{{\"t\":\"O\",\"a\":{},\"n\":{}}}", json::word(*a), n),
        }
    }
    pub fn legal(&self) -> bool { let n = self.len(); n >= 1 && n <= if let Op::R(..) = self { MAX_RUN } else { MAX_INST } }
}
pub fn ops_json(ops: &[Op]) -> String { json::list(&ops.iter().map(|o| o.json()).collect::<Vec<_>>()) }
pub fn out_len(ops: &[Op]) -> usize { ops.iter().map(|o| o.len()).sum() }
pub fn add_len(ops: &[Op]) -> usize { ops.iter().map(|o| if let Op::A(b) = o { b.len() } else { 0 }).sum() }

pub fn conv<A: smdiff_common::AddOp>(op: &smdiff_common::Op<A>) -> Op {
    match op {
        smdiff_common::Op::Add(a) => Op::A(a.bytes().to_vec()),
        smdiff_common::Op::Run(r) => Op::R(r.byte, r.len as usize),
        smdiff_common::Op::Copy(c) => match c.src {
            smdiff_common::CopySrc::Dict => Op::D(c.addr, c.len as usize),
            smdiff_common::CopySrc::Output => Op::O(c.addr, c.len as usize),
        },
    }
}
pub fn unconv(op: &Op) -> smdiff_reader::Op {
    use smdiff_common::{Copy, CopySrc, Run};
    match op {
        Op::A(b) => smdiff_reader::Op::Add(smdiff_reader::Add::new(b.clone())),
        Op::R(c, n) => smdiff_reader::Op::Run(Run { byte: *c, len: *n as u8 }),
        Op::D(a, n) => smdiff_reader::Op::Copy(Copy { src: CopySrc::Dict, addr: *a, len: *n as u16 }),
        Op::O(a, n) => smdiff_reader::Op::Copy(Copy { src: CopySrc::Output, addr: *a, len: *n as u16 }),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Sec { pub algo: u8, pub seg: bool, pub more: bool, pub nops: u64, pub nadd: u64, pub osz: u64, pub ops: Vec<Op> }
impl Sec {
    pub fn json(&self) -> String {
        format!("{{\"algo\":{},\"seg\":{},\"more\":{},\"nops\":{},\"nadd\":{},\"osz\":{},\"ops\":{}}}",
            self.algo, self.seg, self.more, json::cap(self.nops), json::cap(self.nadd), json::cap(self.osz), ops_json(&self.ops))
    }
}
pub fn secs_json(s: &[Sec]) -> String { json::list(&s.iter().map(|x| x.json()).collect::<Vec<_>>()) }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Parse { Ok, Bad, Free }

/// One entry per zstd/brotli section, found by the reference decompressors.
#[derive(Clone, Debug)]
pub struct Inf { pub st: &'static str, pub used: usize, pub data: Vec<u8> }
impl Inf {
    pub fn json(&self) -> String {
        format!("{{\"st\":\"{}\",\"used\":{},\"data\":{}}}", self.st, self.used, json::bytes_s(&self.data))
    }
}

#[derive(Clone, Debug)]
pub struct Dec {
    pub parse: Parse, pub lax: bool, pub d_ok: bool, pub o_ok: bool, pub why: &'static str,
    pub out: Vec<u8>, pub secs: Vec<Sec>, pub pos: usize, pub inf: Vec<Inf>, pub algo_seen: bool, pub declared: u64,
    /// where in the real source the known one begins, and how much output came before
    pub sb: u64, pub ob: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Verdict { Accept, Reject, Maybe, Free }

impl Dec {
    pub fn apply(&self) -> Verdict {
        match self.parse {
            Parse::Bad => Verdict::Reject,
            Parse::Free => Verdict::Free,
            _ if !self.d_ok || !self.o_ok => Verdict::Reject,
            _ if self.lax => Verdict::Maybe,
            _ => Verdict::Accept,
        }
    }
    pub fn read(&self) -> Verdict {
        match self.parse { Parse::Bad => Verdict::Reject, Parse::Free => Verdict::Free, _ if self.lax => Verdict::Maybe, _ => Verdict::Accept }
    }
    pub fn ops(&self) -> Vec<Op> { self.secs.iter().flat_map(|s| s.ops.iter().cloned()).collect() }
    pub fn ocopy_bad(&self) -> bool {
        let mut p = 0u64;
        for s in &self.secs { for o in &s.ops {
            if let Op::O(a, n) = o { if a.wrapping_sub(self.ob).checked_add(*n as u64).map_or(true, |e| e > p) { return true; } }
            p += o.len() as u64;
        } }
        false
    }
    pub fn extract(&self) -> Verdict {
        match self.parse { Parse::Bad => Verdict::Reject, Parse::Free => Verdict::Free, _ if self.ocopy_bad() => Verdict::Reject,
            _ if self.lax || self.secs.iter().any(|s| s.ops.iter().any(|o| matches!(o, Op::D(a, n) if a.checked_add(*n as u64).is_none()))) => Verdict::Maybe, _ => Verdict::Accept }
    }
    pub fn well_formed(&self, patch: &[u8]) -> bool { self.parse == Parse::Ok && !self.lax && self.pos == patch.len() }
}

#[derive(Clone, Copy)]
enum E { Bad(&'static str), Free(&'static str) }
type R<T> = Result<T, E>;

fn uvar(b: &[u8], p: &mut usize) -> R<u64> {
    let mut w = 0u64;
    for i in 0..10 {
        let by = *b.get(*p).ok_or(E::Bad("eof"))?;
        *p += 1;
        if i == 9 && by > 1 { return Err(E::Bad("over")); }
        w |= ((by & 127) as u64) << (7 * i);
        if by < 128 { return Ok(w); }
    }
    Err(E::Bad("over"))
}
pub fn read_uvar(b: &[u8]) -> Option<(u64, u64)> { let mut p = 0; uvar(b, &mut p).ok().map(|v| (v, p as u64)) }
pub fn unzig(z: u64) -> u64 { if z & 1 == 1 { !(z >> 1) } else { z >> 1 } }

struct H { algo: u8, seg: bool, more: bool, nops: u64, nadd: u64, osz: u64, vers: bool }
fn header(b: &[u8], p: &mut usize) -> R<H> {
    let cb = *b.get(*p).ok_or(E::Bad("eof in header"))?;
    *p += 1;
    let seg = cb & 64 != 0;
    let nops = uvar(b, p)?;
    let f2 = if seg { uvar(b, p)? } else { 0 };
    let f3 = uvar(b, p)?;
    if nops >> 32 != 0 || f2 >> 32 != 0 || f3 >> 32 != 0 { return Err(E::Bad("field exceeds 32 bits")); }
    if f2 + f3 > MAX_SECTION { return Err(E::Bad("section too large")); }
    Ok(H { algo: (cb >> 3) & 7, seg, more: cb >= 128, nops, nadd: f2, osz: f2 + f3, vers: cb & 7 != 0 })
}

fn ops(b: &[u8], p: &mut usize, h: &H) -> R<(Vec<Op>, u64)> {
    let (mut sum, mut adds, mut da, mut oa) = (0u64, 0u64, 0u64, 0u64);
    let mut v: Vec<Op> = Vec::new();
    let mut pend: Vec<(usize, usize)> = Vec::new();
    for _ in 0..h.nops {
        let ob = *b.get(*p).ok_or(E::Bad("eof in operations"))?;
        *p += 1;
        let t = ob >> 6;
        let n = match ob & 63 {
            s @ 1..=62 => s as usize,
            _ if t == 3 => return Err(E::Bad("size")),
            63 => { let x = *b.get(*p).ok_or(E::Bad("eof"))?; *p += 1; x as usize + 62 }
            _ => {
                if *p + 2 > b.len() { return Err(E::Bad("eof")); }
                let n = b[*p] as usize + 256 * b[*p + 1] as usize;
                *p += 2;
                if n == 0 { return Err(E::Bad("zero")); }
                n
            }
        };
        if sum + n as u64 > h.osz { return Err(E::Bad("operations exceed output size")); }
        sum += n as u64;
        match t {
            3 => { let c = *b.get(*p).ok_or(E::Bad("eof in run"))?; *p += 1; v.push(Op::R(c, n)); }
            2 => {
                adds += n as u64;
                if h.seg { pend.push((v.len(), n)); v.push(Op::A(Vec::new())); }
                else {
                    if *p + n > b.len() { return Err(E::Bad("eof in add")); }
                    v.push(Op::A(b[*p..*p + n].to_vec()));
                    *p += n;
                }
            }
            _ => {
                let d = unzig(uvar(b, p)?);
                if t == 0 { da = da.wrapping_add(d); v.push(Op::D(da, n)); } else { oa = oa.wrapping_add(d); v.push(Op::O(oa, n)); }
            }
        }
    }
    if sum != h.osz { return Err(E::Bad("operations fall short of output size")); }
    if h.seg {
        if adds != h.nadd { return Err(E::Bad("add byte count")); }
        if *p as u64 + adds > b.len() as u64 { return Err(E::Bad("eof in add bytes")); }
        for (i, n) in pend { v[i] = Op::A(b[*p..*p + n].to_vec()); *p += n; }
    }
    Ok((v, adds))
}

/// Performs an operation; false when it is impossible.
pub fn perform(out: &mut Vec<u8>, op: &Op, src: Option<&[u8]>) -> bool {
    match op {
        Op::A(b) => out.extend_from_slice(b),
        Op::R(c, n) => out.resize(out.len() + n, *c),
        Op::D(a, n) => match src {
            Some(s) if a.checked_add(*n as u64).map_or(false, |e| e <= s.len() as u64) => out.extend_from_slice(&s[*a as usize..*a as usize + n]),
            _ => return false,
        },
        Op::O(a, n) => {
            if a.checked_add(*n as u64).map_or(true, |e| e > out.len() as u64) { return false; }
            out.extend_from_within(*a as usize..*a as usize + n);
        }
    }
    true
}
pub fn apply_ops(ops: &[Op], src: Option<&[u8]>) -> Option<Vec<u8>> {
    let mut o = Vec::new();
    for op in ops { if !perform(&mut o, op, src) { return None; } }
    Some(o)
}

pub fn inflate(algo: u8, b: &[u8]) -> Inf {
    use std::io::Read;
    const CAP: u64 = 1 << 28;
    if algo == 2 {
        let mut data = Vec::new();
        let mut dec = match zstd::stream::read::Decoder::with_buffer(b) { Ok(d) => d.single_frame(), Err(_) => return Inf { st: "bad", used: 0, data } };
        match dec.by_ref().take(CAP).read_to_end(&mut data) {
            Ok(_) => { let rest = dec.finish().len(); Inf { st: "ok", used: b.len() - rest, data } }
            Err(e) => Inf { st: if e.kind() == std::io::ErrorKind::UnexpectedEof { "trunc" } else { "bad" }, used: 0, data: vec![] },
        }
    } else {
        let mut data = Vec::new();
        let mut cur = b;
        let mut dec = brotlic::DecompressorReader::new(&mut cur);
        match dec.by_ref().take(CAP).read_to_end(&mut data) {
            Ok(_) => match dec.into_inner() { Ok(_) => Inf { st: "ok", used: b.len() - cur.len(), data }, Err(_) => Inf { st: "trunc", used: 0, data: vec![] } },
            Err(e) => {
                // an error with every byte consumed is what a missing end looks like
                let st = if e.kind() == std::io::ErrorKind::UnexpectedEof { "trunc" } else { "bad" };
                Inf { st, used: 0, data: vec![] }
            }
        }
    }
}

pub fn decode(patch: &[u8], src: Option<&[u8]>) -> Dec { decode_at(patch, src, 0, 0) }
pub fn decode_at(patch: &[u8], src: Option<&[u8]>, sb: u64, ob: u64) -> Dec {
    let mut d = Dec { sb, ob, parse: Parse::Ok, lax: false, d_ok: true, o_ok: true, why: "", out: vec![], secs: vec![], pos: 0, inf: vec![], algo_seen: false, declared: 0 };
    match run(patch, src, &mut d) {
        Ok(()) => {}
        Err(E::Bad(w)) => { d.parse = Parse::Bad; d.why = w; }
        Err(E::Free(w)) => { d.parse = Parse::Free; d.why = w; }
    }
    d
}
fn run(b: &[u8], src: Option<&[u8]>, d: &mut Dec) -> R<()> {
    loop {
        let mut p = d.pos;
        let h = header(b, &mut p)?;
        if h.vers { d.lax = true; }
        d.declared += h.osz + h.nadd.min(MAX_SECTION);
        let (o, adds);
        if h.algo == 0 {
            (o, adds) = ops(b, &mut p, &h)?;
        } else {
            d.algo_seen = true;
            let data;
            match h.algo {
                1 => {
                    let mut buf = Vec::new();
                    loop {
                        let ih = header(b, &mut p)?;
                        if ih.vers { d.lax = true; }
                        if ih.algo != 0 { return Err(E::Free("nested compression")); }
                        d.declared += ih.osz + ih.nadd.min(MAX_SECTION);
                        let (io, _) = ops(b, &mut p, &ih)?;
                        for x in &io { if !perform(&mut buf, x, None) { return Err(E::Bad("inner patch cannot be performed")); } }
                        if !ih.more { break; }
                    }
                    data = buf;
                }
                2 | 3 => {
                    let z = inflate(h.algo, &b[p..]);
                    d.inf.push(z.clone());
                    match z.st { "ok" => {}, "trunc" => return Err(E::Bad("truncated compressed section")), _ => return Err(E::Free("damaged compressed section")) }
                    p += z.used;
                    data = z.data;
                }
                _ => return Err(E::Free("unassigned algorithm")),
            }
            let mut q = 0;
            (o, adds) = ops(&data, &mut q, &h)?;
            if q != data.len() { return Err(E::Bad("compressed section holds more than its operations")); }
        }
        for x in &o {
            let near = match x { Op::D(a, n) => Op::D(a.wrapping_sub(d.sb), *n), Op::O(a, n) => Op::O(a.wrapping_sub(d.ob), *n), o => o.clone() };
            if d.d_ok && d.o_ok && !perform(&mut d.out, &near, src) {
                if let Op::D(..) = x { d.d_ok = false } else { d.o_ok = false }
            }
        }
        d.pos = p;
        let nops = o.len() as u64;
        d.secs.push(Sec { algo: h.algo, seg: h.seg, more: h.more, nops, nadd: adds, osz: h.osz, ops: o });
        if !h.more { return Ok(()); }
    }
}

// ---------------------------------------------------------------------------------------------
// Writing, by the rules of the document (all legal alternatives)

pub fn put_uvar(out: &mut Vec<u8>, mut n: u64, pad: usize) {
    let mut k = 1;
    loop {
        let g = (n & 127) as u8;
        n >>= 7;
        if n == 0 && k >= pad { out.push(g); return; }
        out.push(g | 128);
        k += 1;
    }
}
pub fn zig(n: u64) -> u64 { (n << 1) ^ (((n as i64) >> 63) as u64) }

#[derive(Clone, Copy, Default)]
pub struct Enc { pub form: u8, pub pad: usize } // form 0: shortest, 1: u8 when possible, 2: u16 when possible

pub fn put_op(out: &mut Vec<u8>, op: &Op, da: &mut u64, oa: &mut u64, inter: bool, e: Enc) {
    let flag = match op { Op::D(..) => 0u8, Op::O(..) => 64, Op::A(_) => 128, Op::R(..) => 192 };
    let n = op.len();
    let run = flag == 192;
    if run || (e.form == 0 && n <= 62) || (e.form == 1 && n < 62) { out.push(flag | n as u8); }
    else if e.form <= 1 && n <= 317 { out.push(flag | 63); out.push((n - 62) as u8); }
    else { out.push(flag); out.extend_from_slice(&(n as u16).to_le_bytes()); }
    match op {
        Op::A(b) => if inter { out.extend_from_slice(b) },
        Op::R(c, _) => out.push(*c),
        Op::D(a, _) => { put_uvar(out, zig(a.wrapping_sub(*da)), e.pad); *da = *a; }
        Op::O(a, _) => { put_uvar(out, zig(a.wrapping_sub(*oa)), e.pad); *oa = *a; }
    }
}
pub fn put_body(out: &mut Vec<u8>, ops: &[Op], seg: bool, encs: &mut dyn FnMut() -> Enc) {
    let (mut da, mut oa) = (0, 0);
    for op in ops { let e = encs(); put_op(out, op, &mut da, &mut oa, !seg, e); }
    if seg { for op in ops { if let Op::A(b) = op { out.extend_from_slice(b); } } }
}
pub fn put_header(out: &mut Vec<u8>, algo: u8, seg: bool, more: bool, nops: u64, nadd: u64, osz: u64, pad: usize) {
    out.push((more as u8) << 7 | (seg as u8) << 6 | algo << 3);
    put_uvar(out, nops, pad);
    if seg { put_uvar(out, nadd, pad); put_uvar(out, osz.wrapping_sub(nadd), pad); } else { put_uvar(out, osz, pad); }
}
