//! Sequences of calls on the section readers, over streams of several patches.
use crate::gen::{self, Size};
use crate::obs::sec_of;
use crate::out::{hash, Out};
use crate::rng::Rng;
use crate::spec::{self, Sec};
use crate::suites::op_of_json;
use crate::json;
use std::io::Cursor;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn call_json(k: &str, r: &str, s: Option<&Sec>, left: Option<usize>) -> String {
    let mut j = format!("{{\"k\":\"{}\",\"r\":\"{}\"", k, r);
    if let Some(s) = s { j.push_str(&format!(",\"s\":{}", s.json())); }
    if let Some(l) = left { j.push_str(&format!(",\"left\":{}", l)); }
    j.push('}');
    j
}

/// Runs the calls until one fails; (call, outcome, section, what was left).
type Seen = (&'static str, &'static str, Option<Sec>, Option<usize>);
fn run_plain(bytes: &[u8], calls: &[&'static str]) -> Vec<Seen> {
    let mut out: Vec<Seen> = vec![];
    let mut it = smdiff_reader::SectionIterator::new(bytes);
    for k in calls {
        let res = match *k {
            "own" => catch_unwind(AssertUnwindSafe(|| it.next().map(|x| x.map(|(o, h)| sec_of(&o, &h))))),
            "borrow" => catch_unwind(AssertUnwindSafe(|| it.next_borrowed().map(|x| x.map(|(o, h)| sec_of(o, &h))))),
            _ => {
                let mut rd = it.into_inner();
                let s = if *k == "raw" { let mut b = vec![]; Some(catch_unwind(AssertUnwindSafe(|| smdiff_reader::read_section(&mut rd, &mut b).map(|h| sec_of(&b, &h))))) } else { None };
                let left = rd.len();
                it = smdiff_reader::SectionIterator::new(rd);
                match s {
                    None => out.push((k, "ok", None, Some(left))),
                    Some(Ok(Ok(s))) => out.push((k, "ok", Some(s), Some(left))),
                    Some(x) => { out.push((k, if x.is_ok() { "err" } else { "panic" }, None, Some(left))); return out; }
                }
                continue;
            }
        };
        match res {
            Ok(None) => out.push((k, "none", None, None)),
            Ok(Some(Ok(s))) => out.push((k, "ok", Some(s), None)),
            Ok(Some(Err(_))) => { out.push((k, "err", None, None)); return out; }
            Err(_) => { out.push((k, "panic", None, None)); return out; }
        }
    }
    out
}
fn run_dec(bytes: &[u8], calls: &[&'static str]) -> Vec<Seen> {
    let mut out: Vec<Seen> = vec![];
    let mut it = smdiff_decoder::reader::SectionIterator::new(Cursor::new(bytes));
    for k in calls {
        let res = if *k == "own" { catch_unwind(AssertUnwindSafe(|| it.next().map(|x| x.map(|(o, h)| sec_of(&o, &h))))) }
            else { catch_unwind(AssertUnwindSafe(|| it.next_borrowed().map(|x| x.map(|(o, h)| sec_of(o, &h))))) };
        match res {
            Ok(None) => out.push((k, "none", None, None)),
            Ok(Some(Ok(s))) => out.push((k, "ok", Some(s), None)),
            Ok(Some(Err(_))) => { out.push((k, "err", None, None)); return out; }
            Err(_) => { out.push((k, "panic", None, None)); return out; }
        }
    }
    out
}

pub fn c18i(seed: u64, idx: u64, case: Option<&str>) -> Vec<Out> {
    let mut r = Rng::new(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (118 << 48) ^ idx);
    let mut secs: Vec<Sec> = vec![];
    let mut calls: Vec<&'static str> = vec![];
    let name = |s: &str| match s { "own" => "own", "borrow" => "borrow", "raw" => "raw", _ => "reopen" };
    let dec;
    if let Some(c) = case {
        let j = json::parse(c);
        for s in j.get("secs").a() {
            let ops: Vec<_> = s.get("ops").a().iter().map(op_of_json).collect();
            secs.push(Sec { algo: 0, seg: s.get("seg").b(), more: s.get("more").b(), nops: ops.len() as u64, nadd: spec::add_len(&ops) as u64, osz: spec::out_len(&ops) as u64, ops });
        }
        calls = j.get("calls").a().iter().map(|c| name(c.get("k").s())).collect();
        dec = calls.iter().all(|k| *k == "own" || *k == "borrow");
    } else {
        dec = r.chance(1, 2);
        let np = r.range(1, 3);
        for _ in 0..np {
            let ns = r.range(1, 4);
            for i in 0..ns {
                let n = match r.below(6) { 0 => 0, 1 => r.range(1, 40), _ => r.range(1, 6) };
                let size = *r.pick(&[Size::Tiny, Size::Small, Size::Small, Size::Mid]);
                let ops = gen::ops(&mut r, 5000, n, size);
                let algo = if dec && r.chance(1, 2) { r.below(4) as u8 } else { 0 };
                secs.push(Sec { algo, seg: r.chance(1, 2), more: i + 1 < ns, nops: ops.len() as u64, nadd: spec::add_len(&ops) as u64, osz: spec::out_len(&ops) as u64, ops });
            }
        }
        // calls the specification allows: never a call at the end of everything without the iterator having ended
        let (mut at, mut done) = (0, false);
        for _ in 0..r.range(1, 14) {
            let k = if dec { r.below(2) } else { match r.below(8) { 0 => 2, 1 => 3, x => x % 2 } };
            match k {
                2 if at < secs.len() => { calls.push("raw"); at += 1; done = false; }
                3 if at < secs.len() => { calls.push("reopen"); done = false; }
                _ if done || at < secs.len() => { calls.push(if k % 2 == 0 { "own" } else { "borrow" }); if !done { done = !secs[at].more; at += 1; } }
                _ => break,
            }
        }
        if !dec { calls.push("reopen"); }
    }
    let mut bytes = vec![];
    let mut ends = vec![];
    for s in &secs { let pl = r.chance(1, 2); bytes.extend(gen::section(&mut r, &s.ops, s.algo, s.seg, s.more, pl)); ends.push(bytes.len()); }
    if r.chance(1, 2) { let l = r.range(1, 9); bytes.extend(gen::block(&mut r, l)); }
    let mut outs = vec![];
    for d in [false, true] {
        if case.is_some() && d && !dec || case.is_none() && d != dec { continue; }
        let seen = if d { run_dec(&bytes, &calls) } else { run_plain(&bytes, &calls) };
        // monitor
        let (mut at, mut done, mut bad) = (0usize, false, seen.len() != calls.len());
        for (k, res, s, left) in &seen {
            let rest = |at: usize| bytes.len() - if at == 0 { 0 } else { ends[at - 1] };
            match *k {
                "reopen" => { bad |= *left != Some(rest(at)); done = false; }
                "raw" => { bad |= *res != "ok" || s.as_ref() != secs.get(at); at += 1; done = false; bad |= *left != Some(rest(at.min(secs.len()))); }
                _ if done => bad |= *res != "none",
                _ => { bad |= *res != "ok" || at >= secs.len() || s.as_ref() != secs.get(at); done = secs.get(at).map_or(true, |s| !s.more); at += 1; }
            }
            if bad { break; }
        }
        let js: Vec<String> = seen.iter().map(|(k, r, s, l)| call_json(k, r, s.as_ref(), *l)).collect();
        let body = format!("\"secs\":{},\"ends\":[{}],\"len\":{},\"calls\":[{}]", spec::secs_json(&secs), ends.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(","), bytes.len(), js.join(","));
        let key = hash(body.as_bytes()) ^ d as u64;
        outs.push(Out { kind: "iter", weight: 40 + 30 * calls.len() + body.len() / 4, json: format!("{{\"id\":{},\"tag\":\"{}\",{}}}", idx * 64 + d as u64, if d { "decoder" } else { "reader" }, body), fails: if bad { vec!["call"] } else { vec![] }, key, nontrivial: secs.iter().any(|s| s.nops > 0) });
    }
    outs
}
