//! Sections with more operations than sixteen bits count, through every operation there is (judged by TraceOps).
use crate::gen;
use crate::obs::*;
use crate::rng::Rng;
use crate::spec::{self, Dec, Op, Parse};
use crate::suites::*;
use crate::out::Out;
use smdiff_encoder::EncoderConfig;
use std::io::Cursor;

/// How often: once in this many cases.
pub const EVERY: u64 = 8192;

pub fn ops(r: &mut Rng, srclen: usize, n: usize) -> Vec<Op> {
    let (mut v, mut made) = (vec![], 0u64);
    let lits = r.range(0, 3);
    for _ in 0..n {
        let l = r.range(1, 3);
        let o = match r.below(4 + lits) {
            0 => Op::R(r.below(256) as u8, l),
            1 if srclen > 3 => Op::D(r.below(srclen - l + 1) as u64, l),
            2 if made > 3 => Op::O(if r.chance(1, 2) { made - l as u64 } else { r.below(made as usize - l + 1) as u64 }, l),
            _ => Op::A(r.bytes(l, 256)),
        };
        made += o.len() as u64;
        v.push(o);
    }
    v
}
fn observed(secs: Vec<spec::Sec>, r: &'static str, pos: usize, src: &[u8]) -> Dec {
    let all: Vec<Op> = secs.iter().flat_map(|s| s.ops.iter().cloned()).collect();
    let out = spec::apply_ops(&all, Some(src)).unwrap_or_default();
    Dec { sb: 0, ob: 0, parse: if r == "ok" { Parse::Ok } else { Parse::Bad }, lax: false, d_ok: true, o_ok: true, why: "", out, secs, pos, inf: vec![], algo_seen: false, declared: 0 }
}
fn none() -> Applied { Applied { r: "none", out: vec![], src_same: true } }

pub fn many(p: u8, r: &mut Rng, idx: u64) -> Vec<Out> {
    let sl = r.range(0, 300);
    let src = r.bytes(sl, 256);
    let n = *r.pick(&[65_534usize, 65_535, 65_536, 65_537, 65_600, 70_000, 131_073]);
    let ops = ops(r, sl, n);
    let trg = spec::apply_ops(&ops, Some(&src)).expect("many");
    let c = EncCase { src: Some(src.clone()), trg, cfg: EncoderConfig::default(), size: gen::Size::Large };
    // all in one section, mostly; or a few behind it or before it
    let secs: Vec<Vec<Op>> = match r.below(4) { 0 => { let k = r.range(1, 500); vec![ops[..k].to_vec(), ops[k..].to_vec()] } 1 => { let k = n - r.range(1, 500); vec![ops[..k].to_vec(), ops[k..].to_vec()] } _ => vec![ops.clone()] };
    let k = secs.len();
    let algo = if p == 7 { 1 + r.below(3) as u8 } else { 0 };
    let plan = Plan { secs: secs.into_iter().map(|s| (s, r.chance(1, 2), algo)).collect(), src: src.clone() };
    let heads = plan.heads();
    let of_gen = |r: &mut Rng| { let mut b = vec![]; for (i, (o, seg, a)) in plan.secs.iter().enumerate() { let pl = r.chance(1, 2); b.extend(gen::section(r, o, *a, *seg, i + 1 < k, pl)); } b };
    let i = |k: u64| idx * 64 + k;
    let mut outs = vec![];
    // what a reader made of a patch
    let read = |outs: &mut Vec<Out>, j: u64, tag: &str, b: &[u8], o: ReadObs, pos: usize| {
        let same = o.secs.len() == heads.len() && o.secs.iter().zip(&heads).all(|(a, h)| a.nops == h.nops && a.osz == h.osz && a.seg == h.seg && a.more == h.more);
        let d = observed(o.secs, o.r, pos, &src);
        outs.push(ops_out(i(j), tag, &c, b, &d, "ok", &none(), vec!["legal", "target", "same"], Default::default(), same));
    };
    match p {
        3 | 4 => {
            let (wr, b) = write_real(&plan, r);
            if wr != "ok" { return vec![ops_out(i(0), "many", &c, &[], &spec::decode(&[], None), wr, &none(), vec!["wr"], Default::default(), true)]; }
            if p == 4 {
                let d = spec::decode(&b, Some(&src));
                outs.push(ops_out(i(0), "many", &c, &b, &d, wr, &none(), vec!["legal", "target"], Default::default(), true));
                let g = of_gen(r);
                let raw = read_raw(&g, Mode::Owned);
                let at = g.len() - raw.left.min(g.len());
                read(&mut outs, 1, "many", &g, raw, at);
            } else {
                let o = read_dec(&b, Mode::Borrowed);
                read(&mut outs, 0, "many", &b, o, b.len());
                let raw = read_raw(&b, if r.chance(1, 2) { Mode::Owned } else { Mode::Borrowed });
                let at = b.len() - raw.left.min(b.len());
                read(&mut outs, 1, "many", &b, raw, at);
            }
        }
        5 | 7 => {
            let (wr, b) = if r.chance(1, 2) || p == 7 && algo == 1 { write_real(&plan, r) } else { ("ok", of_gen(r)) };
            let d = spec::decode(&b, Some(&src));
            let a = apply(&b, Some(&src));
            outs.push(ops_out(i(0), "many", &c, &b, &d, wr, &a, vec!["wr", "rt"], Default::default(), true));
        }
        8 | 10 => {
            let b = of_gen(r);
            let (mut out, seg, lim) = (vec![], r.chance(1, 2), *r.pick(&[0usize, 70_000, 1 << 24]));
            let mut c = c;
            let wr = if p == 10 {
                guard(|| smdiff_merger::transcoder::transcode(&mut Cursor::new(&b), &mut out, fmt(seg), None, lim)).0
            } else {
                // the newest takes pieces, long ones too, of the many
                let m = c.trg.len();
                let mut new = vec![];
                for _ in 0..r.range(1, 6) { let l = r.range(1, m.min(65_535)); new.push(Op::D(r.below(m - l + 1) as u64, l)); if r.chance(1, 2) { let l = r.range(1, 9); new.push(Op::A(r.bytes(l, 256))); } }
                c.trg = spec::apply_ops(&new, Some(&c.trg)).expect("new");
                let top = gen::patch(r, &[new], false, true);
                let chain = [b, top];
                match merge_step(&chain, 2) { Ok((s, _, _)) => guard(|| s.write(&mut out, Some(lim), Some(fmt(seg)), None)).0, Err(w) => w }
            };
            let d = spec::decode(if wr == "ok" { &out } else { &[] }, Some(&src));
            let a = apply(&out, Some(&src));
            outs.push(ops_out(i(0), "many", &c, &out, &d, wr, &a, vec!["wr", "rt", "legal"], Default::default(), true));
        }
        17 => {
            let b = of_gen(r);
            let e = extract(&b);
            let st = stats_of(&ops);
            let mut at = 0;
            let posok = e.pos.len() == ops.len() && e.pos.iter().zip(&ops).all(|(p, o)| { let ok = *p == at; at += o.len() as u64; ok });
            let sec = spec::Sec { algo: 0, seg: false, more: false, nops: e.ops.len() as u64, nadd: spec::add_len(&e.ops) as u64, osz: spec::out_len(&e.ops) as u64, ops: e.ops };
            let d = observed(vec![sec], e.r, b.len(), &src);
            outs.push(ops_out(i(0), "many", &c, &b, &d, "ok", &none(), vec!["legal", "target", "same"], Default::default(), posok && e.st == st));
        }
        _ => unreachable!(),
    }
    for o in outs.iter_mut() { o.weight = 200 + n * 4; }
    outs
}
/// A target whose encoding takes as many operations: runs too short to be worth more, with something between them.
pub fn target(r: &mut Rng) -> (Option<Vec<u8>>, Vec<u8>) {
    let n = *r.pick(&[32_760usize, 32_800, 36_000, 66_000]);
    let mut t = Vec::with_capacity(n * 8);
    for _ in 0..n {
        let x = r.below(256) as u8;
        t.extend(std::iter::repeat(x).take(r.range(5, 8)));
        let l = r.range(1, 2);
        t.extend(r.bytes(l, 256));
    }
    (if r.chance(1, 2) { None } else { let l = r.range(1, 4000); Some(r.bytes(l, 256)) }, t)
}

/// A section of a few operations, whose compressed body goes on for hundreds of megabytes behind them.  (header, body)
pub fn bomb(r: &mut Rng) -> (Vec<u8>, Vec<u8>) {
    let n = r.range(1, 12);
    let ops = ops(r, 20, n);
    let (seg, algo) = (r.chance(1, 2), r.range(2, 3) as u8);
    let (mut head, mut first, mut body) = (vec![], vec![], vec![]);
    spec::put_header(&mut head, algo, seg, false, ops.len() as u64, spec::add_len(&ops) as u64, spec::out_len(&ops) as u64, 0);
    { let mut f = || spec::Enc::default(); spec::put_body(&mut first, &ops, seg, &mut f); }
    // at times it is the operations themselves that do not end
    if r.chance(1, 4) { first.clear(); }
    let fill = r.below(256) as u8;
    let total = r.range(200, 400) << 20;
    if algo == 2 {
        body.extend([0x28, 0xb5, 0x2f, 0xfd, 0, 0x50]);
        let blk = |body: &mut Vec<u8>, kind: usize, n: usize, last: usize| body.extend(&(n << 3 | kind << 1 | last).to_le_bytes()[..3]);
        if !first.is_empty() { blk(&mut body, 0, first.len(), 0); body.extend(&first); }
        let k = total >> 17;
        for i in 0..k { blk(&mut body, 1, 1 << 17, (i + 1 == k) as usize); body.push(fill); }
    } else {
        use std::io::Write;
        let mut o = brotlic::BrotliEncoderOptions::default();
        o.quality(brotlic::Quality::new(1).unwrap());
        let mut w = brotlic::CompressorWriter::with_encoder(o.build().unwrap(), &mut body);
        w.write_all(&first).unwrap();
        let z = vec![fill; 1 << 20];
        for _ in 0..total >> 20 { w.write_all(&z).unwrap(); }
        w.into_inner().unwrap();
    }
    (head, body)
}
