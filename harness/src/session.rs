//! C21: sessions of encode, transcode, merge, re-encode and apply, steered by the model's histories or at random.
use crate::gen::{self, Size};
use crate::json;
use crate::obs::{apply, guard};
use crate::out::{hash, Out};
use crate::rec::Rec;
use crate::rng::Rng;
use crate::suites::run_encode;
use smdiff_common::Format;
use std::io::Cursor;

struct Held { f: usize, t: usize, free: bool, bytes: Vec<u8> }
fn content(b: &[u8], big: bool) -> String { if big { format!("[{},{}]", b.len(), crate::opsrec::digest(b)) } else { json::bytes_s(b) } }

fn next_in_line(r: &mut Rng, last: Option<&Vec<u8>>) -> Vec<u8> {
    let piece = |r: &mut Rng| -> Vec<u8> {
        match r.below(3) {
            0 => vec![r.below(3) as u8; if r.chance(1, 8) { r.range(300, 500) } else { r.range(3, 200) }],
            1 => { let n = r.range(1, 40); gen::block(r, n) }
            _ => { let n = r.range(9, 30); (0..n).map(|_| r.next() as u8).collect() }
        }
    };
    let mut v = match last { Some(v) => v.clone(), None => { let mut v = vec![]; for _ in 0..r.range(1, 4) { v.extend(piece(r)); } v } };
    for _ in 0..r.range(1, 3) {
        let at = r.below(v.len() + 1);
        match r.below(4) {
            0 => { let to = (at + r.range(1, 30)).min(v.len()); v.drain(at..to); }
            1 => { let to = (at + r.range(1, 90)).min(v.len()); let b = v[at..to].to_vec(); let k = r.below(v.len() + 1); v.splice(k..k, b); }
            _ => { let b = piece(r); v.splice(at..at, b); }
        }
    }
    v
}
pub fn c21(seed: u64, idx: u64, case: Option<&str>) -> Vec<Out> {
    let mut r = Rng::new(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (21 << 48) ^ idx);
    let r = &mut r;
    let size = match idx % 32 { 0..=11 => Size::Tiny, 12..=24 => Size::Small, 25..=30 => Size::Mid, _ => Size::Large };
    // a line of versions, each made from the one before, with runs of every length in them
    let line = case.is_none() && idx % 8 == 3;
    let nv = if case.is_some() { 3 } else if line { r.range(4, 6) } else { r.range(2, 5) };
    let mut versions: Vec<Vec<u8>> = vec![];
    for k in 0..nv {
        let v = if line { next_in_line(r, versions.last()) } else if k == 0 { gen::source(r, size) } else if r.chance(1, 12) { vec![] } else if r.chance(1, 8) { gen::source(r, size) } else { let b = r.pick(&versions).clone(); gen::target(r, &b, size) };
        versions.push(v);
    }
    let big = versions.iter().any(|v| v.len() > 1500);
    let file = |v: usize| if v == 0 { None } else { Some(&versions[v - 1][..]) };
    // the history
    let hist: Vec<(char, usize, usize)> = match case {
        Some(c) => json::parse(c).a().iter().map(|s| { let s = s.a(); (s[0].s().chars().next().unwrap(), s[1].u(), s[2].u()) }).collect(),
        None if line => {
            let mut h: Vec<(char, usize, usize)> = (1..nv).map(|k| ('E', k, k + 1)).collect();
            h.extend((0..r.range(2, 5)).map(|_| ('C', 0, 0)));
            h
        }
        None => vec![('?', 0, 0); r.range(2, if big { 6 } else { 14 })],
    };
    let mut held: Vec<Held> = vec![];
    let mut ev: Vec<String> = vec![];
    let mut bad = false;
    let mut key = String::new();
    let mut one_cfg = gen::config(r);
    let apply_all = |h: &Held, p: usize, ev: &mut Vec<String>, bad: &mut bool| {
        let a = apply(&h.bytes, file(h.f));
        if a.r != "ok" || a.out != versions[h.t - 1] { *bad = true; }
        ev.push(format!("{{\"k\":\"A\",\"p\":{},\"r\":\"{}\",\"out\":{}}}", p + 1, a.r, content(&a.out, big)));
        if h.free && h.f != 0 {
            let a = apply(&h.bytes, None);
            if a.r != "ok" || a.out != versions[h.t - 1] { *bad = true; }
            ev.push(format!("{{\"k\":\"W\",\"p\":{},\"r\":\"{}\",\"out\":{}}}", p + 1, a.r, content(&a.out, big)));
        }
        a.r == "ok"
    };
    'session: for (mut op, mut x, mut y) in hist {
        if op == '?' {
            op = if held.is_empty() { 'E' } else { *r.pick(&['E', 'E', 'E', 'T', 'T', 'M', 'M', 'M', 'R', 'A', 'C']) };
            match op {
                'E' => { x = if r.chance(1, 8) { 0 } else { r.range(1, nv) }; y = r.range(1, nv); }
                'T' | 'A' => x = r.range(1, held.len()),
                'R' => { x = r.range(1, held.len()); y = r.below(nv + 1); }
                _ => {}
            }
        }
        // configurations are new, or the session's own one used over again
        let mut cfg = if r.chance(1, 3) { one_cfg.clone() } else { gen::config(r) };
        if size == Size::Large { cfg.lazy_escape_len = cfg.lazy_escape_len.map(|n| n.min(300)); }
        if r.chance(1, 6) { one_cfg = cfg.clone(); }
        let fm = if r.chance(1, 2) { Format::Segregated } else { Format::Interleaved };
        let algo = r.below(4) as u8;
        let sc = gen::any_sec_of_algo(r, algo);
        let lim = *r.pick(&[65_535usize, 65_536, 1 << 18, 1 << 24, 1]);
        key.push_str(&format!("{}{}{} ", op, x, y));
        match op {
            'E' => {
                let (res, p) = run_encode(file(x), &versions[y - 1], &cfg);
                ev.push(format!("{{\"k\":\"E\",\"p\":{},\"f\":{},\"t\":{},\"r\":\"{}\"}}", held.len() + 1, x, y, res));
                if res != "ok" { bad = true; break 'session; }
                held.push(Held { f: x, t: y, free: x == 0, bytes: p });
            }
            'T' => {
                let h = &held[x - 1];
                let mut out = vec![];
                let (fo, so, lo) = (fm, sc.clone(), lim);
                let (res, _) = guard(|| smdiff_merger::transcoder::transcode(&mut Cursor::new(&h.bytes), &mut out, fo, so, lo));
                ev.push(format!("{{\"k\":\"T\",\"p\":{},\"q\":{},\"r\":\"{}\"}}", held.len() + 1, x, res));
                if res != "ok" { bad = true; break 'session; }
                let n = Held { f: h.f, t: h.t, free: h.free, bytes: out };
                held.push(n);
            }
            'M' | 'C' => {
                // a chain: the two the model chose, or a walk through what is held
                let mut qs = if x != 0 { vec![x - 1, y - 1] } else { vec![if line && r.chance(1, 2) { 0 } else { r.below(held.len()) }] };
                if x == 0 {
                    for _ in 0..if op == 'C' { r.range(if line { 2 } else { 1 }, 5) } else { 1 } {
                        let t = held[*qs.last().unwrap()].t;
                        let next: Vec<usize> = (0..held.len()).filter(|k| held[*k].f == t).collect();
                        if next.is_empty() { break; }
                        qs.push(*r.pick(&next));
                    }
                }
                let mut fin = false;
                let mut sum = None;
                let direct = r.chance(1, 4);
                let mut out = vec![];
                let (res, _) = guard(|| {
                    let mut cur = smdiff_merger::Merger::new(Cursor::new(&held[*qs.last().unwrap()].bytes))?;
                    for q in qs.iter().rev().skip(1) {
                        match cur { Ok(m) => cur = m.merge(Cursor::new(&held[*q].bytes))?, Err(_) => break }
                    }
                    let s = match cur { Ok(m) => m.finish(), Err(s) => { fin = true; s } };
                    if direct { sum = Some(s.take_ops()); return Ok(()); }
                    s.write(&mut out, if r.chance(1, 3) { None } else { Some(lim) }, if r.chance(1, 3) { None } else { Some(fm) }, sc)
                });
                if let Some(ops) = sum {
                    // the operations themselves, written by hand
                    let (w, _) = guard(|| {
                        let secs = smdiff_writer::make_sections(&ops, lim.max(65_535));
                        for (ops, h) in secs { let h = h.set_format(fm); smdiff_writer::write_section_header(&h, &mut out)?; smdiff_writer::write_ops(ops, &h, &mut out)?; }
                        Ok(())
                    });
                    if w != "ok" { bad = true; }
                }
                ev.push(format!("{{\"k\":\"M\",\"p\":{},\"qs\":[{}],\"fin\":{},\"r\":\"{}\"}}", held.len() + 1, qs.iter().map(|q| (q + 1).to_string()).collect::<Vec<_>>().join(","), fin, res));
                if res != "ok" { bad = true; break 'session; }
                held.push(Held { f: held[qs[0]].f, t: held[*qs.last().unwrap()].t, free: fin, bytes: out });
            }
            'R' => {
                let a = apply(&held[x - 1].bytes, file(held[x - 1].f));
                ev.push(format!("{{\"k\":\"A\",\"p\":{},\"r\":\"{}\",\"out\":{}}}", x, a.r, content(&a.out, big)));
                let t = held[x - 1].t;
                if a.r != "ok" || a.out != versions[t - 1] { bad = true; break 'session; }
                let (res, p) = run_encode(file(y), &a.out, &cfg);
                ev.push(format!("{{\"k\":\"E\",\"p\":{},\"f\":{},\"t\":{},\"r\":\"{}\"}}", held.len() + 1, y, t, res));
                if res != "ok" { bad = true; break 'session; }
                held.push(Held { f: y, t, free: y == 0, bytes: p });
            }
            _ => { let p = x - 1; if !apply_all(&held[p], p, &mut ev, &mut bad) { break 'session; } }
        }
    }
    // every patch held, newest first
    for p in (0..held.len()).rev() { apply_all(&held[p], p, &mut ev, &mut bad); }
    let vs: Vec<String> = versions.iter().map(|v| content(v, big)).collect();
    let json = format!("{{\"id\":{},\"tag\":\"session\",\"versions\":[{}],\"ev\":[{}]}}", idx * 64, vs.join(","), ev.join(","));
    let weight = json.len() / 3;
    let mut outs = vec![Out { kind: "session", json, fails: if bad { vec!["session"] } else { vec![] }, weight, key: hash(key.as_bytes()) ^ hash(&versions[0]), nontrivial: true }];
    // the newest patch held, read by the format's own rules
    if let Some(h) = held.last() {
        if !big && outs[0].fails.is_empty() {
            outs.push(Rec::new(idx * 64 + 1, "held", h.bytes.clone(), file(h.f).map(|s| s.to_vec())).with_target(versions[h.t - 1].clone()).w("legal").into());
        }
    }
    outs
}
