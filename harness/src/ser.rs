//! Serialized forms of compiled scripts: JSON by serde, bytes by rkyv.
use sieve::Sieve;

pub fn json(s: &Sieve) -> Result<String, String> {
    serde_json::to_string(s).map_err(|e| e.to_string())
}
pub fn json_load(t: &str) -> Result<Sieve, String> {
    serde_json::from_str(t).map_err(|e| e.to_string())
}
pub fn rkyv_bytes(s: &Sieve) -> Result<Vec<u8>, String> {
    rkyv::to_bytes::<rkyv::rancor::Error>(s).map(|b| b.to_vec()).map_err(|e| e.to_string())
}
pub fn rkyv_load(b: &[u8]) -> Result<Sieve, String> {
    // bytes read from storage have no alignment
    let mut v: rkyv::util::AlignedVec = rkyv::util::AlignedVec::with_capacity(b.len());
    v.extend_from_slice(b);
    rkyv::from_bytes::<Sieve, rkyv::rancor::Error>(&v).map_err(|e| e.to_string())
}
