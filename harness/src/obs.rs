//! Runs the real code and records what it did.
use crate::json;
use crate::rng::Rng;
use crate::spec::{self, Op, Sec};
use smdiff_common::SectionHeader;
use std::io::{self, Cursor};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Cur = Cursor<Vec<u8>>;

/// "ok" | "err" | "panic"
pub fn guard<T>(f: impl FnOnce() -> io::Result<T>) -> (&'static str, Option<T>) {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => ("ok", Some(v)),
        Ok(Err(_)) => ("err", None),
        Err(_) => ("panic", None),
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Applied { pub r: &'static str, pub out: Vec<u8>, pub src_same: bool }
impl Applied { pub fn json(&self) -> String { format!("{{\"r\":\"{}\",\"out\":{}}}", self.r, json::bytes_s(&self.out)) } }

pub fn apply(patch: &[u8], src: Option<&[u8]>) -> Applied { apply_at(patch, src, 0) }
/// The source stream stands at some position when the patch is applied.
pub fn apply_at(patch: &[u8], src: Option<&[u8]>, at: u64) -> Applied {
    let mut p = Cursor::new(patch);
    let mut s = src.map(|x| Cursor::new(x.to_vec()));
    if let Some(c) = s.as_mut() { c.set_position(at); }
    let mut sink: Cur = Cursor::new(Vec::new());
    let (r, _) = guard(|| smdiff_decoder::apply_patch(&mut p, s.as_mut(), &mut sink));
    let src_same = match (&s, src) { (Some(c), Some(x)) => c.get_ref() == x, _ => true };
    Applied { r, out: if r == "ok" { sink.into_inner() } else { vec![] }, src_same }
}

/// The sink holds something already, and stands somewhere in it.  What is reported is what stands before the rest of the old content,
/// or everything, if that is no longer there.
pub fn apply_over(patch: &[u8], src: Option<&[u8]>, at: u64, old: &[u8], pos: usize, expect: usize) -> Applied {
    let mut p = Cursor::new(patch);
    let mut s = src.map(|x| Cursor::new(x.to_vec()));
    if let Some(c) = s.as_mut() { c.set_position(at); }
    let mut sink: Cur = Cursor::new(old.to_vec());
    sink.set_position(pos as u64);
    let (r, _) = guard(|| smdiff_decoder::apply_patch(&mut p, s.as_mut(), &mut sink));
    let src_same = match (&s, src) { (Some(c), Some(x)) => c.get_ref() == x, _ => true };
    let mut out = if r == "ok" { sink.into_inner() } else { vec![] };
    if old.len() > expect && out.len() == old.len() && out[expect..] == old[expect..] { out.truncate(expect); }
    Applied { r, out, src_same }
}

/// Long files of which only the end is known: what is before `base` is zeros in an output (nothing else may be written there), and
/// cannot be read in a source.
pub struct Far { pub base: u64, pub zeros: bool, pub c: Cursor<Vec<u8>>, pub pos: u64, pub bad: bool }
impl Far { pub fn new(base: u64, zeros: bool, data: &[u8]) -> Far { Far { base, zeros, c: Cursor::new(data.to_vec()), pos: 0, bad: false } } }
impl io::Read for Far {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = if self.pos < self.base {
            if !self.zeros { return Err(io::Error::new(io::ErrorKind::Other, "not there")); }
            let n = (self.base - self.pos).min(b.len() as u64) as usize;
            b[..n].fill(0);
            n
        } else { self.c.set_position(self.pos - self.base); self.c.read(b)? };
        self.pos += n as u64;
        Ok(n)
    }
}
impl io::Write for Far {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = if self.pos < self.base {
            let n = (self.base - self.pos).min(b.len() as u64) as usize;
            self.bad |= b[..n].iter().any(|x| *x != 0);
            n
        } else { self.c.set_position(self.pos - self.base); self.c.write(b)? };
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl io::Seek for Far {
    fn seek(&mut self, to: io::SeekFrom) -> io::Result<u64> {
        let p = match to {
            io::SeekFrom::Start(p) => Some(p),
            io::SeekFrom::Current(d) => self.pos.checked_add_signed(d),
            io::SeekFrom::End(d) => (self.base + self.c.get_ref().len() as u64).checked_add_signed(d),
        };
        self.pos = p.ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "seek"))?;
        Ok(self.pos)
    }
}
/// Sections that produce exactly `n` bytes and are followed by others: copies from the start of the source, or (zeros) literals
/// and copies of them.  Also the number of operations.
pub fn far_prefix(n: u64, zeros: bool) -> (Vec<u8>, u64) {
    const L: usize = 65_535;
    let (mut out, mut left, mut made, mut cnt) = (vec![], n, 0u64, 0);
    while left > 0 {
        let mut ops = vec![];
        let mut len = 0;
        while left > 0 && len + L <= spec::MAX_SECTION as usize {
            let k = left.min(L as u64) as usize;
            ops.push(if !zeros { Op::D(0, k) } else if made == 0 { Op::A(vec![0; k]) } else { Op::O(0, k) });
            let k = ops.last().unwrap().len();
            left -= k as u64; made += k as u64; len += k; cnt += 1;
        }
        spec::put_header(&mut out, 0, false, true, ops.len() as u64, spec::add_len(&ops) as u64, len as u64, 0);
        let mut f = || spec::Enc::default();
        spec::put_body(&mut out, &ops, false, &mut f);
    }
    (out, cnt)
}
pub fn apply_far(tail: &[u8], src: Option<&[u8]>, sb: u64, ob: u64) -> Applied {
    let mut p = far_prefix(ob, true).0;
    p.extend_from_slice(tail);
    let mut s = src.map(|x| Far::new(sb, false, x));
    let mut sink = Far::new(ob, true, &[]);
    let (r, _) = guard(|| smdiff_decoder::apply_patch(&mut Cursor::new(&p), s.as_mut(), &mut sink));
    let src_same = match (&s, src) { (Some(c), Some(x)) => c.c.get_ref() == x && !c.bad, _ => true } && !sink.bad;
    Applied { r, out: if r == "ok" { sink.c.into_inner() } else { vec![] }, src_same }
}
/// What is extracted of a patch behind a long output, as if that were not there.
pub fn extract_far(tail: &[u8], ob: u64) -> ExtObs {
    let (mut p, cnt) = far_prefix(ob, false);
    p.extend_from_slice(tail);
    let mut e = extract(&p);
    if e.r != "ok" { return e; }
    // what does not begin with the operations of the long output is reported whole
    let known = e.ops.len() >= cnt as usize && e.ops[..cnt as usize].iter().zip(&e.pos).enumerate().all(|(i, (o, p))| matches!(o, Op::D(0, _)) && *p == i as u64 * 65_535);
    if !known { return e; }
    e.ops.drain(..cnt as usize);
    e.pos = e.pos[cnt as usize..].iter().map(|p| p.wrapping_sub(ob)).collect();
    e.st[2] = e.st[2].wrapping_sub(ob as usize);
    e.st[5] = e.st[5].wrapping_sub(cnt as usize);
    e.st[7] = e.st[7].wrapping_sub(ob as usize);
    e.st[8] = (e.st[2] > 0) as usize;
    e
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct ReadObs { pub r: &'static str, pub secs: Vec<Sec>, pub left: usize, pub after: Vec<&'static str> }
impl ReadObs {
    pub fn json(&self) -> String {
        format!("{{\"r\":\"{}\",\"secs\":{}}}", self.r, spec::secs_json(&self.secs))
    }
    pub fn json_left(&self) -> String {
        format!("{{\"r\":\"{}\",\"secs\":{},\"left\":{}}}", self.r, spec::secs_json(&self.secs), json::cap(self.left as u64))
    }
    pub fn same(&self, o: &ReadObs) -> bool { self.r == o.r && self.secs == o.secs }
}
pub fn sec_of(ops: &[smdiff_reader::Op], h: &SectionHeader) -> Sec {
    // what the accessors say is part of what was read; a contradiction is shown as a compression there is not
    let told = h.is_compressed() == (h.compression_algo != 0) && h.is_interleaved() != h.format.is_segregated()
        && h.format.is_interleaved() == matches!(h.format, smdiff_common::Format::Interleaved) && ops.iter().all(|o| match o {
            smdiff_common::Op::Add(_) => o.is_add() && !o.is_run() && !o.is_copy() && o.take_copy().is_none() && o.bit_flag() == 2 << 6,
            smdiff_common::Op::Run(_) => !o.is_add() && o.is_run() && !o.is_copy() && o.take_copy().is_none() && o.bit_flag() == 3 << 6,
            smdiff_common::Op::Copy(c) => !o.is_add() && !o.is_run() && o.is_copy() && o.take_copy().as_ref() == Some(c) && o.bit_flag() == if c.src == smdiff_common::CopySrc::Output { 1 << 6 } else { 0 },
        });
    Sec { algo: if told { h.compression_algo } else { 99 }, seg: h.format.is_segregated(), more: h.more_sections, nops: h.num_operations as u64,
        nadd: h.num_add_bytes as u64, osz: h.output_size as u64, ops: ops.iter().map(spec::conv).collect() }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Mode { Borrowed, Owned, Mixed(u64) }
fn pick(m: Mode, i: usize) -> bool { match m { Mode::Borrowed => true, Mode::Owned => false, Mode::Mixed(s) => Rng::new(s ^ i as u64).chance(1, 2) } }

const MAX_SECS: usize = 100_000;

/// The decoder's reader (secondary compression included).
pub fn read_dec(patch: &[u8], m: Mode) -> ReadObs { read_dec_up_to(patch, m, MAX_SECS) }
pub fn read_dec_up_to(patch: &[u8], m: Mode, max: usize) -> ReadObs {
    let mut o = ReadObs { r: "ok", ..Default::default() };
    let res = catch_unwind(AssertUnwindSafe(|| {
        let mut it = smdiff_decoder::reader::SectionIterator::new(Cursor::new(patch));
        let mut secs = Vec::new();
        let mut r = "ok";
        let mut after = Vec::new();
        for i in 0..max {
            let x = if pick(m, i) { it.next_borrowed().map(|x| x.map(|(ops, h)| sec_of(ops, &h))) } else { it.next().map(|x| x.map(|(ops, h)| sec_of(&ops, &h))) };
            match x { None => break, Some(Err(_)) => { r = "err"; break; } Some(Ok(s)) => secs.push(s) }
        }
        if r == "ok" {
            after.push(if it.next_borrowed().is_none() { "none" } else { "item" });
            after.push(if it.next().is_none() { "none" } else { "item" });
            after.push(if it.next_borrowed().is_none() { "none" } else { "item" });
        }
        (r, secs, after)
    }));
    match res { Ok((r, s, a)) => { o.r = r; o.secs = s; o.after = a; } Err(_) => o.r = "panic" }
    o
}
/// The plain reader.
pub fn read_raw(patch: &[u8], m: Mode) -> ReadObs {
    let mut o = ReadObs { r: "ok", ..Default::default() };
    let res = catch_unwind(AssertUnwindSafe(|| {
        let mut rd = patch;
        let mut secs = Vec::new();
        let mut r = "ok";
        let mut after = Vec::new();
        // a quarter each by the functions below the iterator, into one buffer that keeps the operations of the earlier sections
        let way = patch.iter().fold(patch.len(), |a, b| a.wrapping_mul(31).wrapping_add(*b as usize)) >> 3 & 3;
        if way > 1 {
            let mut acc: Vec<smdiff_reader::Op> = Vec::new();
            for _ in 0..MAX_SECS {
                let from = acc.len();
                let x = if way == 2 { smdiff_reader::read_section(&mut rd, &mut acc) } else {
                    smdiff_reader::read_section_header(&mut rd).and_then(|mut h| smdiff_reader::read_ops_no_comp(&mut rd, &mut h, &mut acc).map(|_| h))
                };
                match x { Err(_) => { r = "err"; break; } Ok(h) => { secs.push((from, acc.len(), h)); if !h.more_sections { break; } } }
            }
            // looked at only now: what a later section did to the operations of an earlier one shows
            let secs = secs.into_iter().map(|(a, b, h)| sec_of(&acc[a..b], &h)).collect();
            if r == "ok" { after = vec!["none", "none"]; }
            return (r, secs, after, rd.len());
        }
        let mut it = smdiff_reader::SectionIterator::new(&mut rd);
        let mut secs = Vec::new();
        for i in 0..MAX_SECS {
            let x = if pick(m, i) { it.next_borrowed().map(|x| x.map(|(ops, h)| sec_of(ops, &h))) } else { it.next().map(|x| x.map(|(ops, h)| sec_of(&ops, &h))) };
            match x { None => break, Some(Err(_)) => { r = "err"; break; } Some(Ok(s)) => secs.push(s) }
        }
        if r == "ok" {
            after.push(if it.next_borrowed().is_none() { "none" } else { "item" });
            after.push(if it.next().is_none() { "none" } else { "item" });
        }
        let left = it.into_inner().len();
        (r, secs, after, left)
    }));
    match res { Ok((r, s, a, l)) => { o.r = r; o.secs = s; o.after = a; o.left = l; } Err(_) => o.r = "panic" }
    o
}

#[derive(Clone, Debug)]
pub struct ExtObs { pub r: &'static str, pub ops: Vec<Op>, pub pos: Vec<u64>, pub st: [usize; 9] }
impl ExtObs {
    pub fn json(&self) -> String {
        let n = ["ab", "rb", "cb", "ac", "rc", "dc", "oc", "os", "hc"];
        let st: Vec<String> = n.iter().zip(self.st).map(|(k, v)| format!("\"{}\":{}", k, json::cap(v as u64))).collect();
        format!("{{\"r\":\"{}\",\"ops\":{},\"pos\":[{}],\"stats\":{{{}}}}}", self.r, spec::ops_json(&self.ops),
            self.pos.iter().map(|p| json::cap(*p).to_string()).collect::<Vec<_>>().join(","), st.join(","))
    }
}
pub fn extract(patch: &[u8]) -> ExtObs {
    let (r, v) = guard(|| smdiff_merger::extract_patch_instructions(Cursor::new(patch)));
    match v {
        Some((ops, s)) => ExtObs { r, pos: ops.iter().map(|x| x.0).collect(), ops: ops.iter().map(|x| spec::conv(&x.1)).collect(),
            st: [s.add_bytes, s.run_bytes, s.copy_bytes, s.add_cnt, s.run_cnt, s.copy_d_cnt, s.copy_o_cnt, s.output_size, s.has_copy() as usize] },
        None => ExtObs { r, ops: vec![], pos: vec![], st: [0; 9] },
    }
}
/// What is left of the extracted operations when the copies from the output are resolved.
pub fn deref(patch: &[u8]) -> ExtObs {
    let (r, v) = guard(|| { let (ops, _) = smdiff_merger::extract_patch_instructions(Cursor::new(patch))?; Ok(smdiff_merger::deref_copy_o(ops)) });
    match v {
        Some(ops) => ExtObs { r, pos: ops.iter().map(|x| x.0).collect(), ops: ops.iter().map(|x| spec::conv(&x.1)).collect(), st: [0; 9] },
        None => ExtObs { r, ops: vec![], pos: vec![], st: [0; 9] },
    }
}
pub fn stats_of(ops: &[Op]) -> [usize; 9] {
    let mut s = [0; 9];
    for o in ops {
        let n = o.len();
        s[7] += n;
        match o { Op::A(_) => { s[0] += n; s[3] += 1 } Op::R(..) => { s[1] += n; s[4] += 1 } Op::D(..) => { s[2] += n; s[5] += 1 } Op::O(..) => { s[2] += n; s[6] += 1 } }
    }
    s[8] = (s[2] > 0) as usize;
    s
}
