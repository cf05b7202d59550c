//! Suites for the parts below and beside patches: sections, slices, integers.
use crate::gen::{self, Size};
use crate::json;
use crate::obs::guard;
use crate::out::{hash, Out};
use crate::rng::Rng;
use crate::spec::{self, Op};
use std::io::Cursor;

fn rng(seed: u64, suite: u64, idx: u64) -> Rng { Rng::new(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (suite << 48) ^ idx) }

// ---------------------------------------------------------------------------------------------
// C06

static LITS: [u8; 140_000] = { let mut a = [0u8; 140_000]; let mut i = 0; while i < a.len() { a[i] = (i * 7 % 251) as u8; i += 1; } a };
struct Lit(&'static [u8]);
impl smdiff_common::AddOp for Lit { fn bytes(&self) -> &[u8] { self.0 } }
type LOp = smdiff_common::Op<Lit>;
fn lop(r: &mut Rng, t: char, n: usize) -> LOp {
    use smdiff_common::{Copy, CopySrc, Op, Run};
    match t {
        'A' => { let o = r.below(LITS.len() - n + 1); Op::Add(Lit(&LITS[o..o + n])) }
        'R' => Op::Run(Run { byte: r.below(256) as u8, len: n as u8 }),
        t => Op::Copy(Copy { src: if t == 'D' { CopySrc::Dict } else { CopySrc::Output }, addr: r.next() >> r.below(64), len: n as u16 }),
    }
}
fn tup(o: &LOp) -> (char, usize, u32) {
    use smdiff_common::{CopySrc, Op};
    let (t, n, x) = match o {
        Op::Add(a) => ('A', a.0.len(), a.0.as_ptr() as u64 - LITS.as_ptr() as u64),
        Op::Run(r) => ('R', r.len as usize, r.byte as u64),
        Op::Copy(c) => (if matches!(c.src, CopySrc::Dict) { 'D' } else { 'O' }, c.len as usize, c.addr),
    };
    (t, n, (hash(format!("{}{}{}", t, n, x).as_bytes()) & 0x3fff_ffff) as u32)
}
fn tups(v: &[(char, usize, u32)]) -> String { json::list(&v.iter().map(|x| format!("[\"{}\",{},{}]", x.0, x.1, x.2)).collect::<Vec<_>>()) }

pub fn c06(seed: u64, idx: u64, case: Option<&str>) -> Vec<Out> {
    let mut r = rng(seed, 106, idx);
    let (ops, req): (Vec<LOp>, usize) = if let Some(c) = case {
        let c = json::parse(c);
        let ops = c.get("ops").a().iter().map(|o| lop(&mut r, o.a()[0].s().chars().next().unwrap(), o.a()[1].u())).collect();
        let req = c.get("req").u();
        (ops, if req == 2_000_000_000 { *r.pick(&[usize::MAX, 1 << 32, (1 << 32) + 3, 2_000_000_000]) } else { req })
    } else if idx % 16 == 9 {
        // sections that are full to the byte, or would be by one or two more or less
        let req = if idx % 256 == 9 { *r.pick(&[(1usize << 24) - 2, (1 << 24) - 1, 1 << 24, usize::MAX]) } else { *r.pick(&[0usize, 65_535, 65_536, 65_537, 65_597, 131_070, 131_071, 200_000]) };
        let eff = req.clamp(65_535, 16_777_215);
        let mut ops: Vec<LOp> = vec![];
        for _ in 0..r.range(1, 2) {
            let d = r.below(5) as i64 - 2;
            let mut left = (eff as i64 + d) as usize;
            while left > 0 {
                let t = *r.pick(&['A', 'R', 'D', 'O']);
                let n = match r.below(if left > 300_000 { 2 } else { 4 }) { 0 | 1 => 65_535, 2 => r.range(1, 65_535), _ => r.range(1, 80) }.min(left);
                // what is left is of a size a run can have, too
                let n = if left > 62 && left - n == 0 && r.chance(1, 3) { n - r.range(1, 62.min(n - 1)) } else { n };
                let n = if t == 'R' && left < 1_000 { n.min(62) } else { n };
                let t = if t == 'R' && n > 62 { 'A' } else { t };
                ops.push(lop(&mut r, t, n));
                left -= n;
            }
        }
        for _ in 0..r.below(3) { let n = r.range(1, 62); let t = *r.pick(&['A', 'R', 'D', 'O']); ops.push(lop(&mut r, t, n)); }
        (ops, req)
    } else {
        let style = if idx % crate::suites3::EVERY == 77 { 6 } else { r.below(6) };
        let n = match style { 6 => *r.pick(&[65_535, 65_536, 65_537, 70_000, 131_073]), 0 => r.range(0, 6), 1 => r.range(0, 40), 2 => r.range(250, 700), 3 => r.range(5, 60), 4 => r.range(1, 300), _ => r.range(256, 260) };
        let ops: Vec<LOp> = (0..n).map(|_| {
            let t = *r.pick(&['A', 'R', 'D', 'O']);
            let len = match style { 6 => r.range(1, 60), 0 | 1 => r.range(1, 400), 2 => r.range(60_000, 65_535), 5 => 65_535, 3 => *r.pick(&[1, 2, 30_000, 32_768, 65_534, 65_535]), _ => if r.chance(1, 3) { r.range(1, 65_535) } else { r.range(1, 100) } };
            if t == 'R' { lop(&mut r, 'R', len.min(62)) } else { lop(&mut r, t, len) }
        }).collect();
        let req = match r.below(8) { 0 => 0, 1 => 65_535, 2 => 65_536, 3 => 1 << 24, 4 => (1 << 24) - 1, 5 => r.range(65_535, 400_000), 6 => r.range(400_000, 1 << 25), _ => *r.pick(&[usize::MAX, u32::MAX as usize, 1 << 32, (1 << 32) + 70_000]) };
        (ops, req)
    };
    let want: Vec<_> = ops.iter().map(tup).collect();
    let (res, gs) = guard(|| Ok(smdiff_writer::make_sections(&ops, req).into_iter().map(|(s, h)| (s.iter().map(tup).collect::<Vec<_>>(), h)).collect::<Vec<_>>()));
    let gs = gs.unwrap_or_default();
    // monitor
    let eff = req.clamp(65_535, 16_777_215) as u64;
    let ok = res == "ok" && !gs.is_empty() && gs.iter().flat_map(|g| g.0.iter().cloned()).collect::<Vec<_>>() == want
        && gs.iter().enumerate().all(|(i, (o, h))| {
            let s: usize = o.iter().map(|x| x.1).sum();
            let a: usize = o.iter().filter(|x| x.0 == 'A').map(|x| x.1).sum();
            h.num_operations as usize == o.len() && h.output_size as usize == s && h.num_add_bytes as usize == a && h.more_sections == (i + 1 < gs.len()) && s as u64 <= eff && (!o.is_empty() || want.is_empty())
        });
    let groups = json::list(&gs.iter().map(|(o, h)| format!("{{\"ops\":{},\"h\":{{\"nops\":{},\"osz\":{},\"nadd\":{},\"more\":{}}}}}", tups(o), h.num_operations, json::cap(h.output_size as u64), json::cap(h.num_add_bytes as u64), h.more_sections)).collect::<Vec<_>>());
    let j = format!("{{\"id\":{},\"tag\":\"sections\",\"ops\":{},\"req\":{},\"r\":\"{}\",\"groups\":{}}}", idx * 64, tups(&want), json::cap(req as u64), res, groups);
    let key = hash(j.as_bytes());
    vec![Out { kind: "sections", weight: 40 + want.len() * 14, json: j, fails: if ok { vec![] } else { vec!["partition"] }, key, nontrivial: gs.len() > 1 }]
}

// ---------------------------------------------------------------------------------------------
// C11

type SOp = (u64, smdiff_reader::Op);
#[derive(PartialEq, Clone, Debug)]
enum Atom { Lit(u8), D(u64), O(u64) }
fn atoms(l: &[SOp]) -> Vec<Atom> {
    let mut v = vec![];
    for (_, o) in l { match spec::conv(o) {
        Op::A(b) => v.extend(b.into_iter().map(Atom::Lit)),
        Op::R(c, n) => v.extend(std::iter::repeat(Atom::Lit(c)).take(n)),
        Op::D(a, n) => v.extend((0..n as u64).map(|i| Atom::D(a.wrapping_add(i)))),
        Op::O(a, n) => v.extend((0..n as u64).map(|i| Atom::O(a.wrapping_add(i)))),
    } }
    v
}
fn entries(l: &[SOp]) -> String { json::list(&l.iter().map(|(p, o)| format!("{{\"p\":{},\"o\":{}}}", json::word(*p), spec::conv(o).json())).collect::<Vec<_>>()) }

pub fn c11(seed: u64, idx: u64, case: Option<&str>) -> Vec<Out> {
    let mut r = rng(seed, 111, idx);
    let mut l: Vec<SOp> = vec![];
    let mut all = false;
    if let Some(c) = case {
        all = true;
        for e in json::parse(c).get("l").a() { l.push((json::word_of(e.get("p")), spec::unconv(&crate::suites::op_of_json(e.get("o"))))); }
    } else {
        let base = match r.below(4) { 0 | 1 => 0, 2 => r.next() >> r.range(1, 60), _ => u32::MAX as u64 - r.below(300) as u64 };
        let n = match idx % 5 { 0 => r.range(0, 3), 1 | 2 => r.range(1, 12), 3 => r.range(1, 4), _ => r.range(20, 60) };
        let size = match idx % 5 { 3 => Size::Large, 4 => Size::Tiny, _ => Size::Small };
        let mut p = base;
        for o in gen::ops(&mut r, 1 << 40, n, size) { let k = o.len() as u64; l.push((p, spec::unconv(&o))); p += k; }
    }
    let (first, total) = (l.first().map_or(0, |e| e.0), l.iter().map(|e| e.1.oal() as u64).sum::<u64>());
    // queries
    let mut q: Vec<(u64, u32)> = vec![];
    if all { for s in 0..=total + 1 { for n in 1..=(total + 2) as u32 { q.push(((first + s).wrapping_sub(1), n)); } } }
    else {
        let mut edges = vec![first.wrapping_sub(1), first, first + total, (first + total).saturating_sub(1), u64::MAX, 0];
        for e in &l { edges.push(e.0); edges.push(e.0 + 1); edges.push((e.0 + e.1.oal() as u64).wrapping_sub(1)); }
        for _ in 0..12 {
            let s = if total > 0 && r.chance(1, 2) { first + r.next() % total } else { *r.pick(&edges) };
            let n = match r.below(5) { 0 => r.range(1, 4) as u64, 1 => r.next() % (total + 2) + 1, 2 => r.pick(&edges).wrapping_sub(s), 3 => (first + total).wrapping_sub(s), _ => if r.chance(1, 5) { u32::MAX as u64 - r.below(4) as u64 } else { (first + total).wrapping_sub(s).wrapping_add(1) } };
            if n >= 1 && n <= u32::MAX as u64 { q.push((s, n as u32)); }
        }
        if q.is_empty() { q.push((first, 1)); }
    }
    let at = atoms(&l);
    let mut outs = vec![];
    let mut recs = vec![];
    let mut fails: Vec<&'static str> = vec![];
    let mut weight = 60 + l.len() * 30 + at.len() / 4;
    for (s, n) in q {
        let (fr, f) = guard(|| Ok(smdiff_merger::find_controlling_op(&l, s)));
        let (sr, sl) = guard(|| Ok(smdiff_merger::get_exact_slice(&l, s, n)));
        // monitor
        let off = s.checked_sub(first).filter(|o| *o < total);
        let mut acc = 0;
        let want = off.map(|o| l.iter().position(|e| { acc += e.1.oal() as u64; o < acc }).unwrap());
        if fr != "ok" || f != Some(want) { fails.push("find"); }
        let covered = off.map_or(false, |o| o + n as u64 <= total);
        let (kind, sl) = match (sr, sl) { ("ok", Some(Some(v))) => ("some", v), ("ok", _) => ("none", vec![]), (x, _) => (x, vec![]) };
        let good = if covered {
            let o = off.unwrap() as usize;
            kind == "some" && !sl.is_empty() && sl[0].0 == s && sl.iter().all(|e| e.1.oal() > 0) && sl.windows(2).all(|w| w[1].0 == w[0].0 + w[0].1.oal() as u64) && atoms(&sl) == at[o..o + n as usize]
        } else { kind == "none" };
        if !good { fails.push("slice"); }
        weight += 20 + if covered { 6 * n as usize } else { 0 } + at.len() / 4;
        let js = format!("{{\"start\":{},\"n\":{},\"find\":{},\"r\":\"{}\",\"s\":{}}}", json::word(s), json::cap(n as u64), if fr == "ok" { f.unwrap().map_or(0, |i| i as i64 + 1) } else { -1 }, kind, if at.len() < 30_000 { entries(&sl) } else { String::new() });
        recs.push(js);
    }
    fails.dedup();
    let head = format!("{{\"id\":{},\"tag\":\"slice\",\"l\":{}", idx * 64, if at.len() < 30_000 { entries(&l) } else { String::new() });
    let key = hash(head.as_bytes());
    let json = if at.len() < 30_000 { format!("{},\"q\":[{}]}}", head, recs.join(",")) } else { String::new() };
    if json.is_empty() && !fails.is_empty() { panic!("slice failure on a large list: {} case {}", seed, idx); }
    outs.push(Out { kind: "slice", weight, json, fails, key, nontrivial: !l.is_empty() });
    outs
}

// ---------------------------------------------------------------------------------------------
// C15

fn word_rec(id: u64, w: u64, b: u64, bytes: &[u8]) -> Out {
    use smdiff_common::*;
    let wr = |f: &dyn Fn(&mut Vec<u8>) -> std::io::Result<()>| { let mut v = vec![]; let (r, _) = guard(|| f(&mut v)); if r == "ok" { v } else { vec![] } };
    let val = |f: &dyn Fn() -> u64| guard(|| Ok(f()));
    let uv = wr(&|v| write_u_varint(v, w));
    let iv = wr(&|v| write_i_varint(v, w as i64));
    let size = guard(|| Ok(u_varint_encode_size(w)));
    let zz = val(&|| zigzag_encode(w as i64));
    let uz = val(&|| zigzag_decode(w) as u64);
    let mut c = Cursor::new(bytes);
    let rd = guard(|| read_u_varint(&mut c));
    let used = c.position();
    let mut c = Cursor::new(bytes);
    let ird = guard(|| read_i_varint(&mut c).map(|x| x as u64));
    let iused = c.position();
    let diff = val(&|| diff_addresses_to_i64(w, b) as u64);
    let mv = val(&|| diff_addresses_to_u64(w, diff.1.unwrap_or(0) as i64));
    let mv2 = val(&|| diff_addresses_to_u64(w, b as i64));
    let u16v = wr(&|v| write_u16(v, w as u16));
    let u16r = guard(|| read_u16(&mut Cursor::new(&u16v)));
    // monitor: independent restatement
    let min = { let mut v = vec![]; spec::put_uvar(&mut v, w, 0); v };
    let imin = { let mut v = vec![]; spec::put_uvar(&mut v, spec::zig(w), 0); v };
    let reading = spec::read_uvar(bytes);
    let rd_ok = match reading { Some((v, n)) => rd.0 == "ok" && rd.1 == Some(v) && used == n && ird.0 == "ok" && ird.1 == Some(spec::unzig(v)) && iused == n, None => rd.0 == "err" && ird.0 == "err" };
    let mut fails = vec![];
    if uv != min || iv != imin || size.1 != Some(min.len()) { fails.push("write"); }
    if zz.1 != Some(spec::zig(w)) || uz.1 != Some(spec::unzig(w)) { fails.push("zigzag"); }
    if !rd_ok { fails.push("read"); }
    if diff.1 != Some(b.wrapping_sub(w)) || mv.1 != Some(b) || mv2.1 != Some(w.wrapping_add(b)) { fails.push("address"); }
    if u16v != (w as u16).to_le_bytes() || u16r.1 != Some(w as u16) { fails.push("u16"); }
    let o = |r: (&str, Option<u64>), used: u64| format!("{{\"r\":\"{}\",\"v\":{},\"used\":{}}}", r.0, json::word(r.1.unwrap_or(0)), used);
    let ww = |r: (&str, Option<u64>)| r.1.map_or("[]".to_string(), json::word);
    let j = format!("{{\"id\":{},\"tag\":\"word\",\"w\":{},\"b\":{},\"bytes\":{},\"uv\":{},\"iv\":{},\"size\":{},\"zz\":{},\"uz\":{},\"rd\":{},\"ird\":{},\"diff\":{},\"move\":{},\"move2\":{},\"u16\":{},\"u16r\":{}}}",
        id, json::word(w), json::word(b), json::bytes_s(bytes), json::bytes_s(&uv), json::bytes_s(&iv), size.1.map_or(-1, |x| x as i64), ww(zz), ww(uz), o(rd, used), o(ird, iused), ww(diff), ww(mv), ww(mv2), json::bytes_s(&u16v), u16r.1.map_or(-1, |x| x as i64));
    let key = w ^ b.rotate_left(17) ^ hash(bytes);
    Out { kind: "word", weight: 70, json: j, fails, key, nontrivial: true }
}
fn word(r: &mut Rng) -> u64 {
    match r.below(7) {
        0 => r.next(),
        1 => r.next() >> r.below(64),
        2 => (1u64 << r.below(64)).wrapping_sub(r.below(3) as u64),
        3 => (1u64 << r.below(64)).wrapping_add(r.below(3) as u64),
        4 => (r.below(400) as u64).wrapping_neg(),
        5 => r.below(400) as u64,
        _ => { let k = 7 * r.range(1, 9); (1u64 << k).wrapping_sub(r.below(2) as u64) }
    }
}
pub fn c15(seed: u64, idx: u64, case: Option<&str>) -> Vec<Out> {
    let mut r = rng(seed, 115, idx);
    let b = word(&mut r);
    if let Some(c) = case {
        let c = json::parse(c);
        return vec![word_rec(idx * 64, json::word_of(c.get("w")), b, &c.get("bytes").bytes())];
    }
    // exhaustive over the small values, which hold all size boundaries of lengths
    let w = if idx < 70_000 { idx } else { word(&mut r) };
    let bytes = match r.below(4) {
        0 => { let mut v = vec![]; spec::put_uvar(&mut v, w, 0); v }
        1 => { let mut v = vec![]; let p = r.range(1, 10); spec::put_uvar(&mut v, w, p); let n = r.range(0, 3); v.extend(r.bytes(n, 256)); v }
        2 => { let n = r.range(0, 12); let mut v: Vec<u8> = (0..n).map(|_| 128 | r.below(128) as u8).collect(); let m = if r.chance(1, 2) { 4 } else { 256 }; v.push(r.below(m) as u8); v }
        _ => { let mut v = vec![]; let p = r.range(8, 10); let w2 = word(&mut r); spec::put_uvar(&mut v, w2, p); let n = r.range(0, v.len()); if r.chance(1, 2) { v.truncate(n); } else { let k = v.len() - 1; v[k] = v[k].wrapping_add(1 + r.below(130) as u8); } v }
    };
    vec![word_rec(idx * 64, w, b, &bytes)]
}

// ---------------------------------------------------------------------------------------------
// C12
use crate::rec::Rec;
pub fn convert(delta: &[u8]) -> (&'static str, Vec<u8>) {
    let mut out = vec![];
    let (r, _) = guard(|| smdiff_vcdiff::convert_vcdiff_to_smdiff(Cursor::new(delta), &mut out));
    (r, out)
}
fn vcd_rec(i: u64, tag: &str, delta: &[u8], src: &[u8], r: &str, patch: &[u8], out: Option<&[u8]>, valid: bool) -> Out {
    let a = if r == "ok" { crate::obs::apply(patch, Some(src)) } else { crate::obs::Applied { r: "none", out: vec![], src_same: true } };
    let fails = if valid && (r != "ok" || a.r != "ok" || Some(&a.out[..]) != out) { vec!["vcdiff"] } else if !valid && a.r == "ok" { vec!["maybe"] } else { vec![] };
    let weight = 60 + delta.len() * 2 + src.len() + a.out.len();
    let json = if weight < crate::MAX_PATCH_WEIGHT { format!("{{\"id\":{},\"tag\":\"{}\",\"delta\":{},\"src\":{},\"r\":\"{}\",\"applied\":\"{}\",\"out\":{}}}", i, tag, json::bytes_s(delta), json::bytes_s(src), r, a.r, json::bytes_s(&a.out)) } else { String::new() };
    Out { kind: "vcdiff", weight, json, fails, key: hash(delta) ^ hash(src).rotate_left(9), nontrivial: true }
}
/// The operations behind the first `ob` bytes of output as a patch of their own, if the ones before copy the first n bytes of the
/// source over and over.
pub fn tail_of(r: &mut Rng, obs: crate::obs::ReadObs, n: u64, ob: u64) -> Vec<u8> {
    let mut ops = vec![];
    let (mut pos, mut good) = (0u64, obs.r == "ok");
    for o in obs.secs.into_iter().flat_map(|s| s.ops) {
        let l = o.len() as u64;
        if pos >= ob { ops.push(o) } else { good &= pos + l <= ob && matches!(o, spec::Op::D(a, _) if a == pos % n && a + l <= n); }
        pos += l;
    }
    if good { crate::gen::patch(r, &[ops], false, true) } else { vec![] }
}
/// Windows with an enormous output, and behind them ones that refer to one another.  Of the patch, the operations for the former
/// must follow the source; those for the latter are judged as a patch behind a long output (MCFar).
fn c12_far(r: &mut Rng, i: u64) -> Vec<Out> {
    // (the reader counts a segment and what is made of it in 32 bits)
    let n = *r.pick(&[1usize << 28, 1 << 30, (1 << 31) - 1]) - r.below(70_000);
    let wins = ((1usize << 32) + r.below(1 << 31)) / n + r.below(2);
    let mut d = crate::vcd::HEAD.to_vec();
    for _ in 0..wins { crate::vcd::encode_win(r, &mut d, &crate::vcd::Win { kind: 1, ssp: 0, sss: n, insts: vec![crate::vcd::I::C(0, n)] }); }
    let ob = (n * wins) as u64;
    let mut out = vec![];
    for k in 0..r.range(1, 4) {
        let c = r.range(1, 6);
        let mut w = if k == 0 { crate::vcd::Win { kind: 0, ssp: 0, sss: 0, insts: vec![] } } else { crate::vcd::window(r, &[], &out, c, 1) };
        if k == 0 { let m = r.range(1, 90); w.insts.push(crate::vcd::I::A(r.bytes(m, 256))); w.insts.push(crate::vcd::I::R(7, r.range(1, 100))); if r.chance(1, 2) { w.insts.push(crate::vcd::I::C(r.below(m), r.range(1, 90))); } }
        crate::vcd::perform(&[], &mut out, &w);
        if w.kind == 2 { w.ssp += ob as usize; }
        crate::vcd::encode_win(r, &mut d, &w);
    }
    let (w, patch) = convert(&d);
    let mut rec = Rec::new(i, "vcdfar", vec![], None).w("wr");
    rec.wr = w;
    if w == "ok" {
        let obs = crate::obs::read_raw(&patch, crate::obs::Mode::Borrowed);
        let tail = tail_of(r, obs, n as u64, ob);
        rec = Rec::far(i, "vcdfar", tail, None, 0, ob).w("wr").w("legal").with_target(out);
    }
    vec![rec.into()]
}
pub fn c12(seed: u64, idx: u64, case: Option<&str>) -> Vec<Out> {
    let mut r = rng(seed, 112, idx);
    let i = idx * 64;
    if case.is_none() && idx % 1024 == 5 { return c12_far(&mut r, i); }
    let (delta, src, target) = if let Some(c) = case {
        let c = json::parse(c);
        if c.has("insts") { crate::vcd::fills(&mut r, &c) } else { (c.get("delta").bytes(), c.get("src").bytes(), c.get("out").bytes()) }
    } else { crate::vcd::delta(&mut r, idx) };
    if case.is_none() && idx % 4 == 3 && delta.len() < 5000 {
        // a delta whose windows do not produce what they declare
        let mut d = delta.clone();
        if r.chance(1, 3) {
            // or that ends too soon
            d.truncate(r.below(d.len()));
            let (w, patch) = convert(&d);
            if w == "panic" { return vec![]; }
            let o = vcd_rec(i, "cut", &d, &src, w, &patch, None, false);
            let whole = crate::vcd::ends(&delta).contains(&d.len());
            return vec![Out { fails: if whole || o.fails.is_empty() { vec![] } else { vec!["vcdiff"] }, ..o }];
        }
        let at = r.range(5, d.len() - 1);
        d[at] = match r.below(3) { 0 => d[at].wrapping_add(1), 1 => d[at].wrapping_sub(1), _ => d[at] ^ 1 << r.below(7) };
        let (w, patch) = convert(&d);
        return if w == "panic" { vec![] } else { vec![vcd_rec(i, "damaged", &d, &src, w, &patch, None, false)] };
    }
    let (w, patch) = convert(&delta);
    let tag = if case.is_some() { "model" } else { "delta" };
    let mut outs = vec![vcd_rec(i, tag, &delta, &src, w, &patch, Some(&target), true)];
    if target.len() + src.len() > 20_000 {
        let c = crate::suites::EncCase { src: Some(src), trg: target, cfg: smdiff_encoder::EncoderConfig::default(), size: Size::Large };
        let dec = spec::decode(if w == "ok" { &patch } else { &[] }, c.src.as_deref());
        let a = crate::obs::apply(&patch, c.src.as_deref());
        outs.push(crate::suites::ops_out(i + 1, "vcd", &c, &patch, &dec, w, &a, if w == "ok" { vec!["wr", "rt", "legal"] } else { vec!["wr"] }, Default::default(), true));
    } else {
        let mut rec = Rec::new(i + 1, "vcd", if w == "ok" { patch } else { vec![] }, Some(src)).w("wr");
        rec.wr = w;
        if w == "ok" { rec = rec.with_target(target).with_apply().w("legal"); }
        outs.push(rec.into());
    }
    outs
}

// ---------------------------------------------------------------------------------------------
// C13: hostile VCDIFF deltas
thread_local! { pub static PANIC_AT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
pub fn c13v(seed: u64, idx: u64, _: Option<&str>) -> Vec<Out> {
    let mut r = rng(seed, 213, idx);
    let mut d = match idx % 8 {
        0 => { let n = r.range(0, 40); let mut b = r.bytes(n, 256); if r.chance(3, 4) { for (i, x) in [0xd6u8, 0xc3, 0xc4, 0].iter().enumerate() { if i < b.len() { b[i] = *x; } } } if b.len() > 5 && r.chance(1, 2) { b[4] = 0; b[5] = r.below(8) as u8; } b }
        1 => { // a window header of extreme numbers
            let mut b = vec![0xd6, 0xc3, 0xc4, 0, 0, r.below(4) as u8];
            for _ in 0..r.range(2, 8) { if r.chance(1, 2) { crate::vcd::int(&mut b, r.below(200)); } else { crate::vcd::int(&mut b, (r.next() >> r.range(1, 63)) as usize); } if r.chance(1, 6) { b.push(0); } }
            let n = r.range(0, 20);
            b.extend(r.bytes(n, 256));
            b
        }
        2 if idx % 64 == 2 => crate::vcd::huge(&mut r),
        _ => crate::vcd::delta(&mut r, (idx / 8) * 4).0,
    };
    let huge = idx % 64 == 2;
    if d.len() > 20_000 { d.truncate(20_000); }
    if idx % 8 > 1 && !huge { for _ in 0..r.range(1, 4) { gen::mutate(&mut r, &mut d); } if r.chance(1, 3) { let k = r.below(d.len() + 1); d.truncate(k); } }
    PANIC_AT.with(|p| p.borrow_mut().clear());
    // the conversion of a short delta may legitimately write as much as its windows declare: the sink ends that with an error
    struct Sink(usize);
    impl std::io::Write for Sink {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if self.0 > 32 << 20 { return Err(std::io::Error::new(std::io::ErrorKind::Other, "sink full")); } self.0 += b.len(); Ok(b.len()) }
        fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
    }
    let base = crate::alloc::mark();
    let (res, _) = guard(|| smdiff_vcdiff::convert_vcdiff_to_smdiff(Cursor::new(&d[..]), Sink(0)));
    let peak = crate::alloc::peak(base) / 1024;
    // one section of operations and its encoding, whatever the delta declares (a section holds at most 16 MiB, an operation takes 48 bytes)
    let res = if peak > if huge { 64 << 10 } else { 2 << 20 } { "memory" } else { res };
    let at: String = PANIC_AT.with(|p| p.borrow().clone()).chars().filter(|c| *c != '"' && *c != '\\' && !c.is_control()).take(160).collect();
    // arithmetic on decoded numbers inside a dependency
    let dep = ["vcdiff-reader", "vcdiff-common"].iter().find(|n| at.contains(&format!("{}-", n)) && at.contains("attempt to"));
    let known = if res == "panic" { dep } else { None };
    let finding = known.map_or(String::new(), |n| format!(",\"finding\":\"{}-arithmetic\"", n));
    let outcome = res;
    vec![Out { kind: "outcome", json: format!("{{\"id\":{},\"suite\":\"c13v\",\"case\":{},\"outcome\":\"{}\",\"at\":\"{}\",\"tag\":\"vcdiff\"{}}}", idx * 64, idx, outcome, at.rsplit('/').take(3).collect::<Vec<_>>().join("<"), finding),
        fails: if res == "ok" || res == "err" || known.is_some() { vec![] } else { vec!["outcome"] }, weight: 40, key: hash(&d), nontrivial: true }]
}
