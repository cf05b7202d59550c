//! What a suite hands over for one case.
use crate::rec::Rec;
pub struct Out {
    /// which trace specification judges it
    pub kind: &'static str,
    pub json: String,
    /// facets the monitor suspects
    pub fails: Vec<&'static str>,
    pub weight: usize,
    /// identifies the behaviour exercised (for counting distinct cases)
    pub key: u64,
    pub nontrivial: bool,
}
pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b { h ^= *x as u64; h = h.wrapping_mul(0x100000001b3); }
    h ^ (h >> 31)
}
impl From<Rec> for Out {
    fn from(r: Rec) -> Out {
        let fails = r.fails();
        let weight = r.weight();
        let nops: usize = r.dec.secs.iter().map(|s| s.ops.len()).sum();
        let key = hash(&r.patch) ^ hash(r.src.as_deref().unwrap_or(b"-")).rotate_left(7) ^ hash(r.tag.as_bytes());
        let nontrivial = nops > 0 || !fails.is_empty();
        // building the JSON of a large record is only worth it when it will be used
        let json = if weight <= crate::MAX_PATCH_WEIGHT || !fails.is_empty() { r.to_json() } else { String::new() };
        Out { kind: "patch", json, fails, weight, key, nontrivial }
    }
}
