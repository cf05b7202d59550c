//! Operation-level records for files too large to hand to TLC byte by byte (TraceOps).
//! Contents are compared by digest; addresses, lengths, counts and positions are explicit.
use crate::rec::Cfg;
use crate::spec::{Dec, Op, Parse};

pub fn digest(b: &[u8]) -> u32 {
    // two independent 64-bit mixes folded to 31 bits
    let mut h: u64 = 0xcbf29ce484222325 ^ (b.len() as u64);
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h ^= u64::from_le_bytes(w);
        h = h.wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    h = h.wrapping_mul(0xBF58476D1CE4E5B9);
    ((h ^ (h >> 32)) & 0x7fff_ffff) as u32
}

pub struct OpsRec<'a> {
    pub id: u64, pub tag: String, pub dec: &'a Dec, pub plen: usize, pub src: Option<&'a [u8]>, pub target: &'a [u8], pub cfg: Cfg,
    pub want: Vec<&'static str>, pub applied: (&'static str, &'a [u8]), pub same: bool, pub wr: &'static str,
}
impl OpsRec<'_> {
    pub fn fails(&self) -> Vec<&'static str> {
        let d = self.dec;
        self.want.iter().filter(|f| !match **f {
            "wr" => self.wr == "ok",
            "rt" => self.applied.0 == "ok" && self.applied.1 == self.target,
            "legal" => d.parse == Parse::Ok && !d.lax && d.pos == self.plen && d.d_ok && d.o_ok,
            "cfg" => d.parse == Parse::Ok && d.secs.iter().all(|s| s.algo == self.cfg.algo && s.seg == self.cfg.seg && s.osz <= self.cfg.lim.clamp(crate::spec::MAX_INST, crate::spec::MAX_SECTION as usize) as u64
                && !(self.cfg.nosrc && s.ops.iter().any(|o| matches!(o, Op::D(..))))),
            "notrgt" => d.parse != Parse::Ok || !self.cfg.notrgt || self.runs_only(),
            "lit" => crate::spec::add_len(&d.ops()) <= self.cfg.lit,
            "nops" => d.ops().len() <= self.cfg.nops,
            "target" => d.parse == Parse::Ok && d.out == self.target,
            "same" => self.same,
            f => panic!("{}", f),
        }).cloned().collect()
    }
    fn run_copy(&self, a: u64, n: usize) -> bool { let s = self.dec.out.get(a as usize..a as usize + n); s.map_or(false, |s| s.iter().all(|b| *b == s[0])) }
    fn runs_only(&self) -> bool { self.dec.secs.iter().all(|s| s.ops.iter().all(|o| if let Op::O(a, n) = o { self.run_copy(*a, *n) } else { true })) }
    pub fn to_json(&self) -> String {
        let d = self.dec;
        let mut ops = Vec::new();
        let mut pos = 0usize;
        for s in &d.secs { for o in &s.ops {
            let n = o.len();
            let trg = self.target.get(pos.min(self.target.len())..(pos + n).min(self.target.len())).unwrap_or(&[]);
            let src = self.src.unwrap_or(&[]);
            let (a, dg) = match o {
                Op::A(b) => (0, digest(b)),
                Op::R(c, n) => (0, digest(&vec![*c; *n])),
                Op::D(a, n) => (if *a < 1 << 30 { *a as i64 } else { -1 }, a.checked_add(*n as u64).filter(|e| *e <= src.len() as u64).map_or(0, |e| digest(&src[*a as usize..e as usize]))),
                // judged against the target: by induction the output so far equals it
                Op::O(a, n) => (if *a < 1 << 30 { *a as i64 } else { -1 }, a.checked_add(*n as u64).filter(|e| *e <= pos.min(self.target.len()) as u64).map_or(0, |e| digest(&self.target[*a as usize..e as usize]))),
            };
            let run = if let Op::O(x, n) = o { *x < 1 << 40 && self.run_copy(*x, *n) } else { true };
            ops.push(format!("[\"{}\",{},{},{},{},{}]", o.t(), a, n, dg, digest(trg), run));
            pos += n;
        } }
        let secs: Vec<String> = d.secs.iter().map(|s| format!("{{\"algo\":{},\"seg\":{},\"more\":{},\"nops\":{},\"nadd\":{},\"osz\":{}}}", s.algo, s.seg, s.more, s.nops, s.nadd, s.osz)).collect();
        let c = &self.cfg;
        format!("{{\"id\":{},\"tag\":\"{}\",\"parse\":\"{}\",\"lax\":{},\"pos\":{},\"plen\":{},\"srclen\":{},\"trglen\":{},\"secs\":[{}],\"ops\":[{}],\"want\":{},\"same\":{},\"wr\":\"{}\",\"cfg\":{{\"algo\":{},\"seg\":{},\"lim\":{},\"nosrc\":{},\"notrgt\":{},\"lit\":{},\"nops\":{}}},\"applied\":{{\"r\":\"{}\",\"len\":{},\"dg\":{}}},\"trgdg\":{}}}",
            self.id, self.tag, match d.parse { Parse::Ok => "ok", Parse::Bad => "bad", Parse::Free => "free" }, d.lax, d.pos, self.plen,
            self.src.map_or(0, |s| s.len()), self.target.len(), secs.join(","), ops.join(","), crate::json::strs(&self.want), self.same, self.wr,
            c.algo, c.seg, c.lim.min(1 << 30), c.nosrc, c.notrgt, c.lit.min(1 << 30), c.nops.min(1 << 30), self.applied.0, self.applied.1.len(), digest(self.applied.1), digest(self.target))
    }
}
