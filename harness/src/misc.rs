//! What a server sees (needs the guarded accessors of panacea::oram::verif).
use serde_json::{json, Value};

#[cfg(panacea_verif)]
mod view {
    use super::*;
    use crate::codec::{hash64, key_of, limbs};
    use crate::util::*;
    use std::collections::HashSet;
    use panacea::context::Context;
    use panacea::oram::{ClientQuery, Server};
    use panacea::rgsw::RGSWCiphertext;
    use panacea::rlwe::{RLWECiphertext, RLWESecretKey};

    /// The coefficients, up to their sign, of the masks a session has shown so far.
    pub type Seen = HashSet<u64>;

    fn size(x: u64) -> u64 {
        x.min(x.wrapping_neg())
    }
    fn diff(ph: &[u64], e: &[u64]) -> Vec<u64> {
        ph.iter().zip(e).map(|(x, y)| x.wrapping_sub(*y)).collect()
    }
    fn far(d: &[u64]) -> u64 {
        d.iter().map(|x| size(*x)).max().unwrap_or(0)
    }
    /// mask fingerprint, how much of the word the mask uses, the error, how many
    /// coefficients of the mask were seen before, how many coefficients have an
    /// error, and the fingerprint of the errors (up to a common sign)
    fn ct(c: &RLWECiphertext, noise: &[u64], seen: &mut Seen) -> Value {
        let m = mask_of(c);
        let mut d = m.clone();
        d.sort();
        d.dedup();
        let again = m.iter().filter(|x| !seen.insert(size(**x))).count();
        let flip = noise.iter().find(|x| **x != 0).map_or(false, |x| *x > 1 << 63);
        let errors: Vec<u64> = noise.iter().map(|x| if flip { x.wrapping_neg() } else { *x }).collect();
        json!([
            hash64(&m),
            m.iter().fold(0, |a, x| a | x).count_ones(),
            m.iter().fold(u64::MAX, |a, x| a & x).count_ones(),
            d.len(),
            m.len(),
            limbs(far(noise)),
            again,
            noise.iter().filter(|x| **x != 0).count(),
            hash64(&errors)
        ])
    }
    /// the rows of a gadget ciphertext of a constant 0 or 1: row 2l holds the multiple of the key, row 2l+1 of one
    fn gsw(g: &RGSWCiphertext, sk: &RLWESecretKey, key: &[u64], seen: &mut Seen, out: &mut Vec<Value>) {
        let lv = g.decomposition_level_count().0;
        let bl = g.decomposition_base_log().0;
        let n = key.len();
        for r in 0..2 * lv {
            let row = g.get_nth_row(r);
            let ph = phase(sk, &row);
            let f = 1u64 << (64 - bl * (r / 2 + 1));
            let unit: Vec<u64> = if r % 2 == 0 { key.iter().map(|x| x.wrapping_mul(f)).collect() } else { (0..n).map(|i| if i == 0 { f } else { 0 }).collect() };
            let neg: Vec<u64> = unit.iter().map(|x| x.wrapping_neg()).collect();
            let e = [vec![0; n], unit, neg].iter().map(|x| diff(&ph, x)).min_by_key(|d| far(d)).unwrap();
            out.push(ct(&row, &e, seen));
        }
    }
    pub fn query_view(qs: &[ClientQuery], sk: &RLWESecretKey, ctx: &Context, seen: &mut Seen) -> Value {
        let key = key_of(sk);
        let t = ctx.codec.pt_modulus();
        json!(qs
            .iter()
            .map(|q| {
                let (a, op, data) = q.verif_parts();
                let mut cts = vec![];
                let mut shape = vec![a.len()];
                for g in a.iter().chain(std::iter::once(op)) {
                    shape.extend([g.decomposition_level_count().0, g.decomposition_base_log().0, g.polynomial_size().0]);
                    gsw(g, sk, &key, seen, &mut cts);
                }
                shape.push(data.polynomial_size().0);
                let delta = 1u64 << (64 - t.trailing_zeros());
                let e: Vec<u64> = phase(sk, data).iter().map(|x| if x % delta > delta / 2 { (x % delta).wrapping_sub(delta) } else { x % delta }).collect();
                cts.push(ct(data, &e, seen));
                json!({"shape": shape, "cts": cts})
            })
            .collect::<Vec<_>>())
    }
    pub fn server_cells(s: &Server) -> Vec<Vec<RLWECiphertext>> {
        s.verif_cells()
    }
    /// per cell: is its mask another one than before?
    pub fn touched(b: &[Vec<RLWECiphertext>], a: &[Vec<RLWECiphertext>]) -> Value {
        json!(b
            .iter()
            .zip(a)
            .map(|(x, y)| x.iter().zip(y).map(|(p, q)| mask_of(p) != mask_of(q)).collect::<Vec<bool>>())
            .collect::<Vec<_>>())
    }
}
#[cfg(panacea_verif)]
pub use view::*;

pub struct Misc;
impl Misc {
    pub fn new() -> Self {
        Self
    }
}
impl crate::Domain for Misc {
    fn exec(&mut self, c: &Value) -> Value {
        json!({"ev": c["c"], "out": "ok"})
    }
}
