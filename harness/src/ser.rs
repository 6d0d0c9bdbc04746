//! Float vectors in replay files: plain numbers where JSON can carry them, strings for the rest.
use serde::{Deserialize, Deserializer, Serialize, Serializer};

#[derive(Serialize, Deserialize)]
#[serde(untagged)]
enum N {
    F(f64),
    S(String),
}
fn enc(x: f64) -> N {
    if x.is_finite() {
        N::F(x)
    } else {
        N::S(format!("bits:{:016x}", x.to_bits()))
    }
}
fn dec(n: N) -> Result<f64, String> {
    match n {
        N::F(x) => Ok(x),
        N::S(s) => u64::from_str_radix(s.trim_start_matches("bits:"), 16)
            .map(f64::from_bits)
            .map_err(|e| e.to_string()),
    }
}
pub mod vecf {
    use super::*;
    pub fn serialize<S: Serializer>(v: &Vec<f64>, s: S) -> Result<S::Ok, S::Error> {
        v.iter().map(|x| enc(*x)).collect::<Vec<_>>().serialize(s)
    }
    pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<Vec<f64>, D::Error> {
        Vec::<N>::deserialize(d)?
            .into_iter()
            .map(|n| dec(n).map_err(serde::de::Error::custom))
            .collect()
    }
}
pub mod onef {
    use super::*;
    pub fn serialize<S: Serializer>(v: &f64, s: S) -> Result<S::Ok, S::Error> {
        enc(*v).serialize(s)
    }
    pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<f64, D::Error> {
        dec(N::deserialize(d)?).map_err(serde::de::Error::custom)
    }
}
