//! smdh run SUITE --seed S --from A --to B --step K --out PREFIX --prog FILE [--weight W] [--secs T] [--cases FILE]
mod alloc;
mod config;
mod gen;
mod io;
mod iter;
mod json;
mod obs;
mod opsrec;
mod out;
mod rec;
mod rng;
mod session;
mod spec;
mod suites;
mod suites2;
mod suites3;
mod vcd;

use std::collections::{BTreeMap, HashSet};
use std::io::Write;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

/// Records heavier than this are not handed to TLC byte by byte unless suspicious.
pub const MAX_PATCH_WEIGHT: usize = 24_000;

fn arg(args: &[String], k: &str, d: &str) -> String {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned().unwrap_or_else(|| d.to_string())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1] == "list" { for s in suites::ALL { eprintln!("{}", s.0); } return; }
    let suite = args[2].clone();
    let seed: u64 = arg(&args, "--seed", "1").parse().unwrap();
    let from: u64 = arg(&args, "--from", "0").parse().unwrap();
    let to: u64 = arg(&args, "--to", "1000").parse().unwrap();
    let step: u64 = arg(&args, "--step", "1").parse().unwrap();
    let weight: usize = arg(&args, "--weight", "100000").parse().unwrap();
    let secs: u64 = arg(&args, "--secs", "600").parse().unwrap();
    let out = arg(&args, "--out", "/dev/null");
    let prog = arg(&args, "--prog", "");
    let cases = arg(&args, "--cases", "");
    let verbose = args.iter().any(|a| a == "-v");
    let cases: Vec<String> = if cases.is_empty() { vec![] } else { std::fs::read_to_string(&cases).unwrap().lines().map(|s| s.to_string()).collect() };
    std::panic::set_hook(Box::new(move |i| { if let Some(l) = i.location() { suites2::PANIC_AT.with(|p| *p.borrow_mut() = format!("{}:{}:{}", l.file(), l.line(), i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or(i.payload().downcast_ref::<String>().cloned()).unwrap_or_default())); } if verbose { eprintln!("{}", i); } }));
    let f = suites::ALL.iter().find(|s| s.0 == suite).unwrap_or_else(|| panic!("no suite {}", suite)).1;
    let mut prog_file = if prog.is_empty() { None } else { Some(std::fs::OpenOptions::new().create(true).write(true).open(&prog).unwrap()) };
    let to = if cases.is_empty() { to } else { to.min(cases.len() as u64) };
    let start = std::time::Instant::now();
    let mut files: BTreeMap<String, std::io::BufWriter<std::fs::File>> = BTreeMap::new();
    let total = ((to.saturating_sub(from) + step - 1) / step).max(1);
    let (mut done, mut recs, mut sampled, mut susp, mut used) = (0u64, 0u64, 0u64, 0u64, 0usize);
    let mut keys: HashSet<u64> = HashSet::new();
    let mut nontriv = 0u64;
    let mut samples: Vec<String> = vec![];
    let mut big = 0usize;
    let (mut smallbad, mut bigbad, mut maybes) = (0, 0, 0);
    let mut idx = from;
    while idx < to {
        if let Some(p) = prog_file.as_mut() {
            use std::os::unix::fs::FileExt;
            p.write_at(&idx.to_le_bytes(), 0).unwrap();
        }
        if start.elapsed().as_secs() >= secs { break; }
        let t0 = std::time::Instant::now();
        let outs = f(seed, idx, cases.get(idx as usize).map(|s| s.as_str()));
        if verbose && t0.elapsed().as_millis() > 300 { eprintln!("slow case {} {:?}", idx, t0.elapsed()); }
        done += 1;
        for o in outs {
            recs += 1;
            if o.nontrivial { nontriv += 1; if keys.len() < 3_000_000 { keys.insert(o.key); } }
            let bad = !o.fails.is_empty();
            // spread the budget evenly over the run
            let allow = (weight as f64 * (done as f64 / total as f64)) as usize + 3000;
            let take = if bad {
                // all of them while they are small; of the large ones a few
                susp += 1;
                // (what only TLC can tell must not crowd out what is known to be wrong)
                let maybe = o.fails == ["maybe"];
                let t = !o.json.is_empty() && (if o.weight > MAX_PATCH_WEIGHT { bigbad < 3 } else if maybe { maybes < 40 } else { smallbad < 40 });
                if t && maybe { maybes += 1 } else if t { if o.weight > MAX_PATCH_WEIGHT { bigbad += 1 } else { smallbad += 1 } }
                t
            } else { !o.json.is_empty() && used + o.weight <= allow };
            if !bad && o.weight > MAX_PATCH_WEIGHT { big += 1; }
            if take {
                if !bad { used += o.weight; sampled += 1; }
                if bad && verbose { eprintln!("SUSPECT case {} {:?} {}", idx, o.fails, &o.json[..o.json.len().min(400)]); }
                if samples.len() < 3 && o.nontrivial { samples.push(o.json.chars().take(600).collect()); }
                // large suspicious records are kept apart: they are only judged when the small ones leave it open
                let heavy = bad && o.weight > MAX_PATCH_WEIGHT;
                let k = format!("{}.{}{}.ndjson", out, o.kind, if heavy { ".heavy" } else { "" });
                if out != "/dev/null" {
                    let w = files.entry(k.clone()).or_insert_with(|| std::io::BufWriter::new(std::fs::OpenOptions::new().create(true).append(true).open(&k).unwrap()));
                    if heavy { writeln!(w, "{}", o.json.replacen('{', &format!("{{\"w\":{},", o.weight), 1)).unwrap(); } else { writeln!(w, "{}", o.json).unwrap(); }
                }
            }
        }
        idx += step;
    }
    for w in files.values_mut() { w.flush().unwrap(); }
    if let Some(p) = prog_file.as_mut() { use std::os::unix::fs::FileExt; p.write_at(&u64::MAX.to_le_bytes(), 0).unwrap(); }
    let sum = format!("{{\"cases\":{},\"records\":{},\"nontrivial\":{},\"distinct\":{},\"sampled\":{},\"weight\":{},\"suspicious\":{},\"large\":{},\"secs\":{},\"samples\":[{}]}}\n",
        done, recs, nontriv, keys.len(), sampled, used, susp, big, start.elapsed().as_secs_f64(), samples.iter().map(|s| format!("{:?}", s)).collect::<Vec<_>>().join(","));
    if out == "/dev/null" { eprintln!("{}", sum); } else {
        std::fs::OpenOptions::new().create(true).append(true).open(format!("{}.sum", out)).unwrap().write_all(sum.as_bytes()).unwrap();
        let mut kb = Vec::with_capacity(keys.len() * 8);
        for k in &keys { kb.extend_from_slice(&k.to_le_bytes()); }
        std::fs::OpenOptions::new().create(true).append(true).open(format!("{}.keys", out)).unwrap().write_all(&kb).unwrap();
    }
}
