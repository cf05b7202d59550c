//! A writer of VCDIFF deltas in the dialect vcdiff-reader understands (spec/SmdVcdiff.tla, "lib").
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub enum I { A(Vec<u8>), R(u8, usize), C(usize, usize) }

pub fn int(out: &mut Vec<u8>, n: usize) {
    let mut g = vec![(n & 127) as u8];
    let mut n = n >> 7;
    while n > 0 { g.push((n & 127) as u8 | 128); n >>= 7; }
    out.extend(g.iter().rev());
}
struct Cache { near: [usize; 4], next: usize, same: Vec<usize> }
impl Cache {
    fn new() -> Cache { Cache { near: [0; 4], next: 0, same: vec![0; 768] } }
    fn put(&mut self, a: usize) { self.near[self.next] = a; self.next = (self.next + 1) % 4; self.same[a % 768] = a; }
}
/// opcode table of the reader: (type, size, mode) twice
fn table(op: usize) -> [(char, usize, usize); 2] {
    let n = ('N', 0, 0);
    match op {
        0 => [('R', 0, 0), n],
        1..=18 => [('A', op - 1, 0), n],
        19..=162 => { let k = (op - 19) % 16; [('C', if k == 0 { 0 } else { k + 3 }, (op - 19) / 16), n] }
        163..=234 => { let k = op - 163; [('A', 1 + k / 18, 0), ('C', 4 + k % 3, (k % 18) / 3)] }
        235..=246 => { let k = op - 235; [('A', 1 + k / 3, 0), ('C', 4, 6 + k % 3)] }
        _ => [('C', 4, op - 247), ('A', 1, 0)],
    }
}

pub struct Win { pub kind: u8, pub ssp: usize, pub sss: usize, pub insts: Vec<I> }

/// what the windows mean: the target after them
pub fn perform(src: &[u8], out: &mut Vec<u8>, w: &Win) {
    let seg: Vec<u8> = match w.kind { 0 => vec![], 1 => src[w.ssp..w.ssp + w.sss].to_vec(), _ => out[w.ssp..w.ssp + w.sss].to_vec() };
    let start = out.len();
    for i in &w.insts {
        match i {
            I::A(b) => out.extend(b),
            I::R(c, n) => out.extend(std::iter::repeat(*c).take(*n)),
            I::C(a, n) => {
                let here = w.sss + out.len() - start;
                let made = if a + n > here { a + n - here } else { *n };
                for k in 0..made { let u = a + k; let b = if u < w.sss { seg[u] } else { out[start + u - w.sss] }; out.push(b); }
            }
        }
    }
}

pub fn encode_win(r: &mut Rng, out: &mut Vec<u8>, w: &Win) {
    let (mut data, mut inst, mut addr) = (vec![], vec![], vec![]);
    let mut c = Cache::new();
    let mut made = 0usize;
    // the last single opcode written without explicit size, and its meaning
    let mut last: Option<(char, usize, usize)> = None;
    let style = r.below(4);
    for i in &w.insts {
        let (t, n, mode) = match i {
            I::A(b) => { data.extend(b); made += b.len(); ('A', b.len(), 0) }
            I::R(b, n) => { data.push(*b); made += n; ('R', *n, 0) }
            I::C(a, n) => {
                let here = w.sss + made;
                let mut modes = vec![(0usize, *a), (1, here - a)];
                for k in 0..4 { if c.near[k] <= *a { modes.push((2 + k, a - c.near[k])); } }
                if c.same[a % 768] == *a { modes.push((6 + (a % 768) / 256, a % 256)); modes.push((6 + (a % 768) / 256, a % 256)); }
                let (m, v) = if style == 0 { modes[0] } else { *r.pick(&modes) };
                if m < 6 { int(&mut addr, v); } else { addr.push(v as u8); }
                c.put(*a);
                made += if a + n > here { a + n - here } else { *n };
                ('C', *n, m)
            }
        };
        if let Some(l) = last {
            if let Some(op) = (163..256).find(|o| table(*o) == [l, (t, n, mode)]) {
                if r.chance(2, 3) { inst.pop(); inst.push(op as u8); last = None; continue; }
            }
        }
        let short = match t { 'A' => n <= 17, 'C' => (4..=18).contains(&n), _ => false };
        if short && r.chance(4, 5) {
            inst.push(match t { 'A' => 1 + n, _ => 19 + 16 * mode + n - 3 } as u8);
            last = Some((t, n, mode));
        } else {
            inst.push(match t { 'R' => 0, 'A' => 1, _ => 19 + 16 * mode } as u8);
            int(&mut inst, n);
            last = None;
        }
    }
    out.push(w.kind);
    if w.kind != 0 { int(out, w.sss); int(out, w.ssp); }
    let mut rest = vec![];
    int(&mut rest, made);
    rest.push(0);
    int(&mut rest, data.len());
    int(&mut rest, inst.len());
    int(&mut rest, addr.len());
    int(out, rest.len() + data.len() + inst.len() + addr.len());
    out.extend(rest);
    out.extend(data);
    out.extend(inst);
    out.extend(addr);
}

/// lengths: 0 short, 1 around the limits of runs and opcodes, 2 around the 65535 limit, 3 above the section limit
pub fn window(r: &mut Rng, src: &[u8], out: &[u8], n: usize, lens: u8) -> Win {
    let (kind, ssp, sss) = match r.below(4) {
        0 => (0, 0, 0),
        1 if !out.is_empty() => { let a = r.below(out.len()); (2, a, r.range(1, out.len() - a)) }
        2 if !src.is_empty() => (1, 0, src.len()),
        _ if !src.is_empty() => { let a = r.below(src.len()); (1, a, r.range(1, src.len() - a)) }
        _ => (0, 0, 0),
    };
    let mut w = Win { kind, ssp, sss, insts: vec![] };
    let mut here = sss;
    let len = |r: &mut Rng, big: bool| match lens {
        0 => r.range(1, 9),
        1 => *r.pick(&[1usize, 2, 4, 17, 18, 19, 61, 62, 63, 124, 125, 127, 128, 129, 255, 256, 257]),
        2 => *r.pick(&[1usize, 4, 100, 65_534, 65_535, 65_536, 65_537, 131_070, 131_071, 200_000]),
        _ => if big { *r.pick(&[1_000_000usize, 8_000_000, 16_777_215, 16_777_216, 17_000_000]) } else { 100 },
    };
    for k in 0..n {
        let l = len(r, k == 0);
        let i = match r.below(if here > 0 { 6 } else { 2 }) {
            0 => I::A(if l < 3000 { r.bytes(l, 256) } else { let x = r.below(256) as u8; (0..l).map(|i| x.wrapping_add((i / 991) as u8) ^ (i % 7) as u8).collect() }),
            1 => I::R(r.below(256) as u8, l),
            2 | 3 if sss > 0 => { let a = r.below(sss); I::C(a, r.range(1, (sss - a).min(l.max(1)).max(1))) } // inside S
            _ => {
                if here == sss { I::R(7, l) } else {
                    let a = match r.below(4) { 0 => here - 1, 1 => sss, 2 => here - r.range(1, (here - sss).min(5)), _ => sss + r.below(here - sss) };
                    I::C(a, if r.chance(1, 2) { l } else { l.min(here - a) })
                }
            }
        };
        here += match &i { I::A(b) => b.len(), I::R(_, n) => *n, I::C(a, n) => if a + n > here { a + n - here } else { *n } };
        w.insts.push(i);
    }
    w
}
/// Where the windows of a delta end.
pub fn ends(d: &[u8]) -> Vec<usize> {
    fn int(d: &[u8], p: &mut usize) -> usize { let mut n = 0; loop { let b = d[*p]; *p += 1; n = n << 7 | (b & 127) as usize; if b < 128 { return n; } } }
    let (mut v, mut p) = (vec![5], 5);
    while p < d.len() {
        let k = d[p];
        p += 1;
        if k != 0 { int(d, &mut p); int(d, &mut p); }
        let n = int(d, &mut p);
        p += n;
        v.push(p);
    }
    v
}
pub const HEAD: [u8; 5] = [214, 195, 196, 0, 0];
/// A random delta: (delta, source, target)
pub fn delta(r: &mut Rng, idx: u64) -> (Vec<u8>, Vec<u8>, Vec<u8>) {
    let lens = match idx % 64 { 0..=31 => 0, 32..=57 => 1, 58..=62 => 2, _ => if idx % 1024 == 63 { 3 } else { 1 } };
    let src: Vec<u8> = match lens { 0 => { let n = r.range(0, 12); r.bytes(n, 256) } 1 => { let n = r.range(0, 900); r.bytes(n, 256) } _ => { let n = *r.pick(&[0usize, 10, 70_000, 140_000]); let mut x = 1u32; (0..n).map(|_| { x = x.wrapping_mul(1664525).wrapping_add(1013904223); (x >> 24) as u8 }).collect() } };
    let mut d = HEAD.to_vec();
    let mut out = vec![];
    let wins = r.range(1, if lens == 0 { 4 } else { 3 });
    for k in 0..wins {
        let n = match lens { 0 => r.range(1, 6), 1 => r.range(1, 12), 2 => r.range(1, 4), _ => r.range(1, 3) };
        let w = window(r, &src, &out, n, if lens == 3 && k > 0 { 0 } else { lens });
        perform(&src, &mut out, &w);
        encode_win(r, &mut d, &w);
        if lens < 2 && r.chance(1, 10) { let w = window(r, &src, &out, 0, 0); encode_win(r, &mut d, &w); } // a window of nothing
    }
    (d, src, out)
}

/// A short delta with consistent lengths, one of which is enormous (no periodic copies: what is converted takes little
/// memory at any time).  Some data or addresses may be missing.
pub fn huge(r: &mut Rng) -> Vec<u8> {
    let mut d = HEAD.to_vec();
    let n = *r.pick(&[20_000_000usize, 100_000_000, 1 << 28, 1_500_000_000, (1 << 31) - 1, 1 << 31, 4_000_000_000]) + r.below(100);
    let kind = r.below(3) as u8 % 2;
    let sss = if r.chance(1, 2) { n + r.below(50) } else { 100 };
    let lead = r.below(3);
    let (mut data, mut inst, mut addr) = (vec![], vec![], vec![]);
    for _ in 0..lead { data.push(1); inst.push(2); }
    match r.below(if kind == 1 && sss >= n { 3 } else { 2 }) {
        0 => { inst.push(1); int(&mut inst, n); let k = r.below(40); data.extend(r.bytes(k, 256)); }
        1 => { inst.push(0); int(&mut inst, n); if r.chance(9, 10) { data.push(7); } }
        _ => { inst.push(19); int(&mut inst, n); if r.chance(9, 10) { addr.push(0); } }
    }
    d.push(kind);
    if kind == 1 { int(&mut d, sss); int(&mut d, 0); }
    let mut rest = vec![];
    int(&mut rest, n + lead);
    rest.push(0);
    let dl = if r.chance(1, 4) { n } else { data.len() };
    for x in [dl, inst.len(), addr.len()] { int(&mut rest, x); }
    let total = rest.len() + dl + inst.len() + addr.len();
    int(&mut d, total);
    d.extend(rest); d.extend(data); d.extend(inst); d.extend(addr);
    d
}

/// A case of MCConvert: (delta, source, target), with the section limit, the longest operation and run as they are.
pub fn fills(r: &mut Rng, case: &crate::json::J) -> (Vec<u8>, Vec<u8>, Vec<u8>) {
    const MAX: usize = 1 << 24;
    const INST: usize = 65_535;
    const RUN: usize = 62;
    let insts = case.get("insts").a();
    let dict = insts.iter().any(|i| i.get("k").s() == "dict");
    let mut x = Rng::new(r.next());
    let mut rnd = |n: usize| -> Vec<u8> { (0..n).map(|_| (x.next() >> 33) as u8).collect() };
    let src = if dict { rnd(MAX + 1 + r.below(1000)) } else { vec![] };
    let mut w = Win { kind: dict as u8, ssp: 0, sss: src.len(), insts: vec![] };
    let (mut cur, mut made) = (0usize, 0usize);
    for i in insts {
        let d = i.get("d").i();
        let k = i.get("k").s();
        let p = match i.get("p").u() { 0 => 0, 1 => 1024, 3 => r.range(300, 1023), 4 => INST, _ => r.range(INST + 1, 80_000) };
        let n = if d == -2 { 2 * INST + r.range(0, 3) } else { ((MAX - cur) as i64 + d) as usize };
        let here = w.sss + made;
        w.insts.push(match k {
            "add" => I::A(rnd(n)),
            "run" => I::R(r.below(256) as u8, n),
            "dict" => I::C(0, n),
            "copy" => I::C(w.sss, n.min(made)),
            _ => I::C(here - p, n + p),
        });
        let n = if k == "copy" { n.min(made) } else { n };
        made += n;
        let lim = match k { "run" => RUN, "seq" => p.min(INST), _ => INST };
        let mut left = n;
        while left > 0 { let c = left.min(lim); cur = if cur + c > MAX { c } else { cur + c }; left -= c; }
    }
    let mut d = HEAD.to_vec();
    let mut out = vec![];
    perform(&src, &mut out, &w);
    encode_win(r, &mut d, &w);
    (d, src, out)
}
