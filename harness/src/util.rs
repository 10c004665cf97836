use concrete_core::commons::crypto::encoding::PlaintextList;
use concrete_core::commons::math::tensor::{AsMutTensor, AsRefTensor};
use panacea::context::Context;
use panacea::params::TFHEParameters;
use panacea::rlwe::{RLWECiphertext, RLWESecretKey};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Pt = PlaintextList<Vec<u64>>;

/// Run `f`, turning a panic into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".to_string()
        }
    })
}

/// The event logged for a command which did not complete.
pub fn failed(cmd: &Value, out: &str, msg: &str) -> Value {
    let mut ev = cmd.clone();
    ev["ev"] = cmd["c"].clone();
    ev["out"] = json!(out);
    let m: String = msg.chars().take(160).filter(|c| c.is_ascii() && !c.is_control()).collect();
    ev["msg"] = json!(m);
    ev
}

pub fn u(v: &Value, k: &str, d: usize) -> usize {
    match &v[k] {
        Value::Number(n) => n.as_u64().unwrap() as usize,
        Value::String(s) => s.parse().unwrap(),
        _ => d,
    }
}
pub fn f(v: &Value, k: &str, d: f64) -> f64 {
    v[k].as_f64().unwrap_or(d)
}
pub fn b(v: &Value, k: &str, d: bool) -> bool {
    v[k].as_bool().unwrap_or(d)
}
pub fn ulist(v: &Value) -> Vec<usize> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect()).unwrap_or_default()
}
/// Coefficients given as numbers or as decimal strings (for values beyond 2^53).
pub fn u64list(v: &Value) -> Vec<u64> {
    v.as_array()
        .map(|a| {
            a.iter()
                .map(|x| match x {
                    Value::String(s) => s.parse().unwrap(),
                    x => x.as_i64().map(|y| y as u64).unwrap_or_else(|| x.as_u64().unwrap()),
                })
                .collect()
        })
        .unwrap_or_default()
}

pub fn params(c: &Value) -> TFHEParameters {
    let d = TFHEParameters::default();
    #[allow(clippy::needless_update)]
    TFHEParameters {
        standard_deviation: f(c, "std", d.standard_deviation),
        polynomial_size: u(c, "n", d.polynomial_size),
        base_log: u(c, "bl", d.base_log),
        level_count: u(c, "lv", d.level_count),
        key_switch_base_log: u(c, "kbl", d.key_switch_base_log),
        key_switch_level_count: u(c, "klv", d.key_switch_level_count),
        negs_base_log: u(c, "nbl", d.negs_base_log),
        negs_level_count: u(c, "nlv", d.negs_level_count),
        plaintext_modulus: u(c, "t", d.plaintext_modulus as usize) as u64,
        secure_seed: b(c, "secure", d.secure_seed),
        ..d
    }
}

pub fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// How a polynomial is shown to the specification: all coefficients if there are at most 16, otherwise
/// W fixed pseudo-random linear functionals modulo t (linear, so that the specification can compute with them).
pub const W: usize = 24;
pub fn view(p: &[u64], t: u64) -> Vec<u64> {
    if p.len() <= 16 {
        return p.to_vec();
    }
    // a coefficient outside the plaintext modulus can never be right: show it as such
    if let Some(bad) = p.iter().find(|x| **x >= t) {
        return vec![(*bad).min(1 << 30); W];
    }
    (0..W)
        .map(|w| {
            let mut acc = 0u64;
            for (i, x) in p.iter().enumerate() {
                let c = splitmix((w as u64) << 32 | i as u64) % t;
                acc = (acc + x.wrapping_mul(c)) % t;
            }
            acc
        })
        .collect()
}

/// A polynomial of n coefficients below t from a description:
/// {"e":[..]} explicit, {"s":[[pos,val],..]} sparse, {"r":seed} uniform, {"k":v} constant in all places.
pub fn poly(d: &Value, n: usize, t: u64) -> Vec<u64> {
    let mut out = vec![0u64; n];
    if d["e"].is_array() {
        for (o, x) in out.iter_mut().zip(u64list(&d["e"])) {
            *o = x;
        }
    } else if d["s"].is_array() {
        for p in d["s"].as_array().unwrap() {
            let p = u64list(p);
            out[p[0] as usize % n] = p[1];
        }
    } else if d["k"].is_u64() {
        out.iter_mut().for_each(|o| *o = d["k"].as_u64().unwrap());
    } else {
        let seed = d["r"].as_u64().unwrap_or(0);
        for (i, o) in out.iter_mut().enumerate() {
            *o = splitmix(seed.wrapping_mul(0x1000003).wrapping_add(i as u64)) % t;
        }
    }
    out
}

pub fn pt_of(p: &[u64]) -> Pt {
    PlaintextList::from_container(p.to_vec())
}
pub fn pt_vec(p: &Pt) -> Vec<u64> {
    p.as_tensor().iter().copied().collect()
}
pub fn mask_of(c: &RLWECiphertext) -> Vec<u64> {
    c.get_mask().as_tensor().iter().copied().collect()
}
pub fn body_of(c: &RLWECiphertext) -> Vec<u64> {
    c.get_body().as_tensor().iter().copied().collect()
}
pub fn phase(sk: &RLWESecretKey, c: &RLWECiphertext) -> Vec<u64> {
    let mut pt = PlaintextList::from_container(vec![0u64; c.polynomial_size().0]);
    sk.decrypt_rlwe(&mut pt, c);
    pt_vec(&pt)
}
pub fn decrypt(sk: &RLWESecretKey, c: &RLWECiphertext, ctx: &Context) -> Vec<u64> {
    let mut pt = ctx.gen_zero_pt();
    sk.decrypt_decode_rlwe(&mut pt, c, ctx);
    pt_vec(&pt)
}
/// 16 * log2 of the largest distance of a phase to the nearest multiple of 2^64/t (0 if none).
pub fn noise16(ph: &[u64], t: u64) -> i64 {
    let delta = 1u64 << (64 - t.trailing_zeros());
    let m = ph
        .iter()
        .map(|x| {
            let r = x % delta;
            r.min(delta - r)
        })
        .max()
        .unwrap_or(0);
    if m == 0 {
        0
    } else {
        ((m as f64).log2() * 16.0).ceil() as i64
    }
}
/// 16 * log2 of the largest centred distance between two phases.
pub fn dist16(a: &[u64], e: &[u64]) -> i64 {
    let m = a
        .iter()
        .zip(e)
        .map(|(x, y)| {
            let d = x.wrapping_sub(*y);
            d.min(d.wrapping_neg())
        })
        .max()
        .unwrap_or(0);
    if m == 0 {
        0
    } else {
        ((m as f64).log2() * 16.0).ceil() as i64
    }
}
pub fn set_ct(c: &mut RLWECiphertext, mask: &[u64], body: &[u64]) {
    for (x, y) in c.get_mut_mask().as_mut_tensor().iter_mut().zip(mask) {
        *x = *y;
    }
    for (x, y) in c.get_mut_body().as_mut_tensor().iter_mut().zip(body) {
        *x = *y;
    }
}
