//! C19: configurations made by sequences of constructor and setter calls, and what encoding with them gives.
use crate::gen::{self, Size};
use crate::json;
use crate::out::{hash, Out};
use crate::rng::Rng;
use crate::spec::{self, Op};
use smdiff_encoder::{EncoderConfig, SrcMatcherConfig, TrgtMatcherConfig};

pub fn config(r: &mut Rng, calls: &[(String, usize)]) -> EncoderConfig {
    let mut c: Option<EncoderConfig> = None;
    for (name, a) in calls {
        let lv = r.below(10);
        c = Some(match (name.as_str(), c) {
            ("new", _) => if r.chance(1, 2) { EncoderConfig::new() } else { EncoderConfig::default() },
            ("level", _) => { let s = gen::any_sec_of_algo(r, *a as u8); EncoderConfig::comp_level(lv, false, s) }
            ("leveltrg", _) => { let s = gen::any_sec_of_algo(r, *a as u8); EncoderConfig::comp_level(lv, true, s) }
            ("nosrc", Some(c)) => c.no_match_src(),
            ("src", Some(c)) => c.set_match_src(if r.chance(1, 2) { SrcMatcherConfig::comp_level(lv) } else { SrcMatcherConfig::new(r.range(1, 20), *r.pick(&[None, Some(1), Some(1 << 20)])) }),
            ("notrg", Some(c)) => c.no_match_target(),
            ("trg", Some(c)) => c.set_match_target(if r.chance(1, 2) { TrgtMatcherConfig::comp_level(lv) } else { TrgtMatcherConfig::comp_level(lv).with_table_capacity(1 << r.range(1, 12)) }),
            ("sec", Some(c)) => { let s = gen::any_sec_of_algo(r, *a as u8); c.set_sec_comp(s.unwrap()) }
            ("nosec", Some(c)) => c.no_sec_comp(),
            ("inter", Some(c)) => c.format_interleaved(),
            ("segr", Some(c)) => c.format_segregated(),
            ("size", Some(c)) => c.set_output_segment_size(*a),
            ("lazy", Some(c)) => c.set_lazy_escape_len(*r.pick(&[0usize, 1, 45, 300])),
            ("naive", Some(c)) => c.set_naive_tests(Default::default()),
            (x, _) => panic!("setter {}", x),
        });
    }
    c.unwrap()
}
pub fn random_calls(r: &mut Rng) -> Vec<(String, usize)> {
    let mut v: Vec<(String, usize)> = vec![match r.below(3) { 0 => ("new".into(), 0), 1 => ("level".into(), r.below(4)), _ => ("leveltrg".into(), r.below(4)) }];
    for _ in 0..r.below(9) {
        let n = *r.pick(&["nosrc", "src", "notrg", "trg", "sec", "nosec", "inter", "segr", "size", "lazy", "naive"]);
        let a = match n { "sec" => r.range(1, 3), "size" => *r.pick(&[0usize, 1, 65_534, 65_535, 65_536, 70_000, 131_071, 1 << 23, 16_777_215, 16_777_216, 2_000_000_000]), _ => 0 };
        v.push((n.into(), a));
    }
    v
}
pub fn cfg_suite(seed: u64, idx: u64, case: Option<&str>) -> Vec<Out> {
    let mut r = Rng::new(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (119 << 48) ^ idx);
    let r = &mut r;
    let calls: Vec<(String, usize)> = match case {
        Some(c) => json::parse(c).a().iter().map(|x| (x.a()[0].s().to_string(), x.a()[1].u())).collect(),
        None => random_calls(r),
    };
    let cfg = config(r, &calls);
    // material in which every feature has something to find
    let sl = r.range(300, 1200);
    let src = r.bytes(sl, 256);
    let new = r.bytes(r.0 as usize % 500 + 200, 256);
    let mut trg = src[r.0 as usize % 100..].to_vec();
    trg.extend_from_slice(&new);
    let n = r.range(0, 200);
    trg.extend(std::iter::repeat(r.below(256) as u8).take(n));
    trg.extend_from_slice(&new);
    if r.chance(1, 4) { let x = gen::target(r, &src, Size::Small); trg.extend(x); }
    let sized = calls.iter().any(|c| c.0 == "size");
    if sized || r.chance(1, 10) {
        // beyond the smallest section
        let n = r.range(66_000, 150_000);
        let pat = gen::block(r, 5000);
        while trg.len() < n { if r.chance(1, 3) { let k = r.range(1, 40_000); trg.extend(std::iter::repeat(3).take(k)); } else { let k = r.range(1, pat.len()); trg.extend_from_slice(&pat[..k]); } }
    }
    let hs = r.chance(7, 8);
    let (wr, patch) = crate::suites::run_encode(if hs { Some(&src) } else { None }, &trg, &cfg);
    let d = spec::decode(if wr == "ok" { &patch } else { &[] }, if hs { Some(&src) } else { None });
    // the model's configuration, for the monitor
    let (mut algo, mut seg, mut lim, mut ms, mut mt) = (0u8, false, spec::MAX_SECTION as usize, true, false);
    for (n, a) in &calls { match n.as_str() { "level" | "leveltrg" => { algo = *a as u8; seg = *a != 0; mt = n == "leveltrg"; } "nosrc" => ms = false, "src" => ms = true, "notrg" => mt = false, "trg" => mt = true, "sec" => algo = *a as u8, "nosec" => algo = 0, "inter" => seg = false, "segr" => seg = true, "size" => lim = *a, _ => {} } }
    let lim = lim.clamp(spec::MAX_INST, spec::MAX_SECTION as usize) as u64;
    let mut bad = wr != "ok";
    let secs: Vec<String> = d.secs.iter().map(|s| {
        let nd = s.ops.iter().filter(|o| matches!(o, Op::D(..))).count();
        let no = s.ops.iter().filter(|o| if let Op::O(a, n) = o { let x = &d.out[(*a as usize).min(d.out.len())..(*a as usize + n).min(d.out.len())]; !x.iter().all(|b| *b == x[0]) } else { false }).count();
        bad |= s.algo != algo || s.seg != seg || s.osz > lim || (!ms || !hs) && nd > 0 || !mt && no > 0;
        format!("{{\"algo\":{},\"seg\":{},\"osz\":{},\"nd\":{},\"no\":{}}}", s.algo, s.seg, s.osz, nd, no)
    }).collect();
    let cs: Vec<String> = calls.iter().map(|c| format!("[\"{}\",{}]", c.0, c.1)).collect();
    let json = format!("{{\"id\":{},\"tag\":\"calls\",\"calls\":[{}],\"hs\":{},\"r\":\"{}\",\"secs\":[{}]}}", idx * 64, cs.join(","), hs, wr, secs.join(","));
    let key = hash(cs.join(",").as_bytes()) ^ hash(&patch);
    vec![Out { kind: "config", json, fails: if bad { vec!["config"] } else { vec![] }, weight: 60 + 30 * calls.len() + 20 * secs.len(), key, nontrivial: true }]
}
