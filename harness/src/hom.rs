//! A register machine over the homomorphic operations of rlwe.rs, rgsw.rs, lwe.rs and decision_tree.rs::demux.
use crate::util::*;
use concrete_core::commons::crypto::encoding::Plaintext;
use concrete_core::commons::math::polynomial::Polynomial;
use concrete_core::commons::math::tensor::{AsMutTensor, AsRefTensor};
use concrete_core::prelude::MonomialDegree;
use panacea::context::{Context, FftBuffer};
use panacea::decision_tree::{bit_decomposed_rgsw, demux, demux_with};
use panacea::lwe::{conv_lwe_to_rlwe, LWECiphertext, LWESecretKey, LWEtoRLWEKeyswitchKey};
use panacea::params::TFHEParameters;
use panacea::rgsw::RGSWCiphertext;
use panacea::rlwe::*;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};

struct M {
    par: TFHEParameters,
    ctx: Context,
    buf: FftBuffer,
    lsk: LWESecretKey,
    sk: [RLWESecretKey; 2],
    r: Vec<RLWECiphertext>,
    g: Vec<RGSWCiphertext>,
    l: Vec<LWECiphertext>,
    dec: Vec<Vec<RLWECiphertext>>,
    lconv: Option<LWEtoRLWEKeyswitchKey>,
    show_g: bool,
    show_1: bool,
}

pub struct Hom {
    m: Option<M>,
}

fn hash_of(it: impl Iterator<Item = u64>) -> String {
    let mut h = DefaultHasher::new();
    for x in it {
        x.hash(&mut h);
    }
    format!("{:016x}", h.finish())
}
pub fn raw(c: &RLWECiphertext) -> String {
    hash_of(mask_of(c).into_iter().chain(body_of(c)))
}

impl M {
    fn n(&self) -> usize {
        self.par.polynomial_size
    }
    fn t(&self) -> u64 {
        self.par.plaintext_modulus
    }
    fn delta(&self) -> u64 {
        1u64 << (64 - self.t().trailing_zeros())
    }
    /// raw coefficients (may be negative in the description, then wrapped)
    fn pt(&self, d: &Value) -> Vec<u64> {
        poly(d, self.n(), self.t())
    }
    fn ksk(&mut self, from: &RLWESecretKey) -> RLWEKeyswitchKey {
        let mut k = RLWEKeyswitchKey::allocate(self.ctx.ks_base_log, self.ctx.ks_level_count, self.ctx.poly_size);
        k.fill_with_keyswitch_key(from, &self.sk[0], self.ctx.std, &mut self.ctx.encryption_generator);
        k
    }
    fn subs_ksk(&mut self, k: usize) -> RLWEKeyswitchKey {
        let mut key = RLWEKeyswitchKey::allocate(self.ctx.ks_base_log, self.ctx.ks_level_count, self.ctx.poly_size);
        let mut dummy = RLWESecretKey::zero(self.ctx.poly_size);
        key.fill_with_subs_keyswitch_key(&mut dummy, &self.sk[0], k, self.ctx.std, &mut self.ctx.encryption_generator);
        key
    }
    fn fresh(&self) -> RLWECiphertext {
        RLWECiphertext::allocate(self.ctx.poly_size)
    }
    fn fresh_g(&self) -> RGSWCiphertext {
        RGSWCiphertext::allocate(self.ctx.poly_size, self.ctx.base_log, self.ctx.level_count)
    }
    /// what an external product with register g does to a noiseless encryption of one
    fn show_gsw(&mut self, i: usize) -> Vec<u64> {
        let mut one = self.fresh();
        let mut body = vec![0u64; self.n()];
        body[0] = self.delta();
        let mask = vec![0u64; self.n()];
        set_ct(&mut one, &mask, &body);
        let mut out = self.fresh();
        self.g[i].external_product_with_buf(&mut out, &one, &mut self.buf);
        decrypt(&self.sk[0], &out, &self.ctx)
    }

    fn show(&mut self, ev: &mut Value) {
        let v0: Vec<Vec<u64>> = self.r.iter().map(|c| decrypt(&self.sk[0], c, &self.ctx)).collect();
        ev["v0"] = json!(v0);
        if self.show_1 {
            let v1: Vec<Vec<u64>> = self.r.iter().map(|c| decrypt(&self.sk[1], c, &self.ctx)).collect();
            ev["v1"] = json!(v1);
        } else {
            ev["v1"] = json!([]);
        }
        ev["raw"] = json!(self.r.iter().map(raw).collect::<Vec<_>>());
        if self.show_g {
            let gv: Vec<Vec<u64>> = (0..self.g.len()).map(|i| self.show_gsw(i)).collect();
            ev["gv"] = json!(gv);
        } else {
            ev["gv"] = json!([]);
        }
        let lv: Vec<u64> = self
            .l
            .iter()
            .map(|c| {
                let mut p = Plaintext(0u64);
                self.lsk.decode_decrypt_lwe(&mut p, c, &self.ctx);
                p.0
            })
            .collect();
        ev["ls"] = json!(lv);
        ev["lraw"] = json!(self.l.iter().map(|c| hash_of(c.as_tensor().iter().copied())).collect::<Vec<_>>());
    }

    fn apply(&mut self, c: &Value, ev: &mut Value) {
        let op = c["c"].as_str().unwrap();
        let (d, a, bb, g) = (u(c, "d", 0), u(c, "a", 0), u(c, "b", 0), u(c, "g", 0));
        let k = u(c, "k", 0);
        let form = c["form"].as_str().unwrap_or("std");
        let p = self.pt(&c["p"]);
        if c["p"].is_object() {
            ev["p"] = json!(p.iter().map(|x| *x as i64).collect::<Vec<_>>());
        }
        let ps = self.ctx.poly_size;
        match op {
            "enc" => {
                let key = u(c, "key", 0);
                let sk = self.sk[key].clone();
                sk.encode_encrypt_rlwe(&mut self.r[d], &pt_of(&p), &mut self.ctx);
            }
            "encc" => {
                let v = Plaintext(p[0].wrapping_mul(self.delta()));
                let sk = self.sk[0].clone();
                sk.encrypt_constant_rlwe(&mut self.r[d], &v, &mut self.ctx);
            }
            "triv" => {
                let body: Vec<u64> = p.iter().map(|x| x.wrapping_mul(self.delta())).collect();
                let mask = vec![0u64; self.n()];
                set_ct(&mut self.r[d], &mask, &body);
            }
            "clear" => self.r[d].clear(),
            "copy" => {
                let x = self.r[a].clone();
                self.r[d].fill_with_copy(&x);
            }
            "fill" => {
                // through the flat tensor: mask then body
                let x = self.r[a].clone();
                let mut t = mask_of(&x);
                t.extend(body_of(&x));
                self.r[d].fill_with_tensor(&concrete_core::commons::math::tensor::Tensor::from_container(t));
            }
            "add" => {
                let x = self.r[a].clone();
                self.r[d].update_with_add(&x);
            }
            "sub" => {
                let x = self.r[a].clone();
                self.r[d].update_with_sub(&x);
            }
            "addp" => {
                let e: Vec<u64> = p.iter().map(|x| x.wrapping_mul(self.delta())).collect();
                self.r[d].update_body_with_add(&Polynomial::from_container(e));
            }
            "subp" => {
                let e: Vec<u64> = p.iter().map(|x| x.wrapping_mul(self.delta())).collect();
                self.r[d].update_body_with_sub(&Polynomial::from_container(e.as_slice()));
            }
            "addparts" => {
                let x = self.r[a].clone();
                self.r[d].update_mask_with_add(&x.get_mask().as_polynomial_list().get_polynomial(0));
                self.r[d].update_body_with_add(&x.get_body().as_polynomial());
            }
            "subparts" => {
                let x = self.r[a].clone();
                self.r[d].update_mask_with_sub(&x.get_mask().as_polynomial_list().get_polynomial(0));
                self.r[d].update_body_with_sub(&x.get_body().as_polynomial());
            }
            "mulp" => {
                let mut q = p.clone();
                if form == "std" {
                    self.r[d].update_mask_with_mul(&Polynomial::from_container(q.as_mut_slice()));
                    self.r[d].update_body_with_mul(&Polynomial::from_container(q.as_mut_slice()));
                } else {
                    self.r[d].update_mask_with_mul_with_buf(&Polynomial::from_container(q.as_slice()));
                    self.r[d].update_body_with_mul_with_buf(&Polynomial::from_container(q.as_slice()));
                }
            }
            "mdiv" => self.r[d].update_with_monomial_div(MonomialDegree(k)),
            "not" => {
                if form == "std" {
                    self.r[d] = self.r[a].not();
                } else {
                    self.r[d].not_in_place();
                }
            }
            "tern" => {
                // ternary encryption and decryption (coefficients -1, 0, 1)
                let sk = self.sk[0].clone();
                let mut ct = self.fresh();
                sk.ternary_encrypt_rlwe(&mut ct, &pt_of(&p), &mut self.ctx);
                let mut out = self.ctx.gen_zero_pt();
                sk.ternary_decrypt_rlwe(&mut out, &ct);
                ev["res"] = json!(pt_vec(&out).iter().map(|x| *x as i64).collect::<Vec<_>>());
            }
            "genc" => {
                let sk = self.sk[0].clone();
                let mut x = self.fresh_g();
                sk.encrypt_constant_rgsw(&mut x, &Plaintext(p[0]), &mut self.ctx);
                self.g[g] = x;
            }
            "gencp" => {
                let sk = self.sk[0].clone();
                let mut x = if form == "ks" {
                    RGSWCiphertext::allocate(ps, self.ctx.ks_base_log, self.ctx.ks_level_count)
                } else if form == "neg" {
                    RGSWCiphertext::allocate(ps, self.ctx.negs_base_log, self.ctx.negs_level_count)
                } else {
                    self.fresh_g()
                };
                sk.encrypt_rgsw(&mut x, &pt_of(&p), &mut self.ctx);
                self.g[g] = x;
            }
            "gvec" => {
                let sk = self.sk[0].clone();
                let pts: Vec<Plaintext<u64>> = p.iter().take(self.g.len()).map(|x| Plaintext(*x)).collect();
                let v = sk.encrypt_constant_rgsw_vec(&pts, &mut self.ctx);
                for (o, x) in self.g.iter_mut().zip(v) {
                    *o = x;
                }
            }
            "gneg" => {
                let sk = self.sk[0].clone();
                self.g[g] = sk.neg_gsw(&mut self.ctx);
            }
            "gadd" => {
                let x = self.g[a].clone();
                self.g[g].update_with_add(&x);
            }
            "ext" => {
                let x = self.r[a].clone();
                if form == "std" {
                    self.g[g].external_product(&mut self.r[d], &x);
                } else {
                    self.g[g].external_product_with_buf(&mut self.r[d], &x, &mut self.buf);
                }
            }
            "cmux" => {
                let (x, y) = (self.r[a].clone(), self.r[bb].clone());
                if form == "std" {
                    self.g[g].cmux(&mut self.r[d], &x, &y);
                } else {
                    self.g[g].cmux_with_buf(&mut self.r[d], &x, &y, &mut self.buf);
                }
            }
            "leq" => self.r[d].less_eq_than(k),
            "eq" => self.r[d].eq_to(k),
            "ksw" => {
                let from = self.sk[1].clone();
                let key = self.ksk(&from);
                let x = self.r[a].clone();
                match form {
                    "std" => key.keyswitch_ciphertext(&mut self.r[d], &x),
                    "fft" => {
                        let mut o = FourierRLWECiphertext::new(self.n());
                        key.into_fourier().keyswitch_ciphertext(&mut o, &x);
                        self.r[d] = o.backward_as_torus();
                    }
                    "gsw" => {
                        let gk = RGSWCiphertext::from_keyswitch_key(&key);
                        let mut o = self.fresh();
                        gk.keyswitch_ciphertext(&mut o, &x);
                        self.r[d] = o;
                    }
                    _ => {
                        let gk = RGSWCiphertext::from_keyswitch_key(&key);
                        let mut o = self.fresh();
                        gk.keyswitch_ciphertext_with_buf(&mut o, &x, &mut self.buf);
                        self.r[d] = o;
                    }
                }
            }
            "subs" => {
                let key = self.subs_ksk(k);
                let x = self.r[a].clone();
                if form == "std" {
                    key.subs(&mut self.r[d], &x);
                } else {
                    let mut o = FourierRLWECiphertext::new(self.n());
                    key.into_fourier().subs(&mut o, &x);
                    self.r[d] = o.backward_as_torus();
                }
            }
            "trace" => {
                let sk = self.sk[0].clone();
                let x = self.r[a].clone();
                if form == "std" {
                    let m = gen_all_subs_ksk(&sk, &mut self.ctx);
                    self.r[d] = x.trace1(&m);
                } else {
                    let m = gen_all_subs_ksk_fourier(&sk, &mut self.ctx);
                    x.trace1_fourier(&mut self.r[d], &m);
                }
            }
            "lenc" => {
                let mut ct = LWECiphertext::allocate(self.ctx.lwe_size());
                self.lsk.encode_encrypt_lwe(&mut ct, &Plaintext(k as u64), &mut self.ctx);
                let x = u(c, "l", 0);
                self.l[x].fill_with_tensor(ct.as_tensor());
            }
            "lclear" => {
                let x = u(c, "l", 0);
                self.l[x].clear();
            }
            "sext" => {
                let x = u(c, "l", 0);
                if form == "std" {
                    self.l[x].fill_with_sample_extract(&self.r[a], MonomialDegree(k));
                } else {
                    self.l[x].fill_with_const_sample_extract(&self.r[a]);
                }
            }
            "lconv" => {
                if self.lconv.is_none() {
                    let mut key = LWEtoRLWEKeyswitchKey::allocate(&self.ctx);
                    key.fill_with_keyswitching_key(&self.lsk, &mut self.ctx);
                    self.lconv = Some(key);
                }
                let x = u(c, "l", 0);
                self.r[d] = conv_lwe_to_rlwe(self.lconv.as_ref().unwrap(), &self.l[x], &self.ctx);
            }
            "expand" => {
                // a bit, decomposed, to a gadget ciphertext by one of the routes
                let sk = self.sk[0].clone();
                let neg = sk.neg_gsw(&mut self.ctx);
                let bit = u(c, "bit", 0) as u64;
                self.g[g] = match form {
                    "std" => {
                        let cs = make_decomposed_rlwe_ct(&sk, bit, &mut self.ctx);
                        let m = gen_all_subs_ksk(&sk, &mut self.ctx);
                        expand(&cs, &m, &neg, &self.ctx)
                    }
                    "fft" => {
                        let cs = make_decomposed_rlwe_ct(&sk, bit, &mut self.ctx);
                        let m = gen_all_subs_ksk_fourier(&sk, &mut self.ctx);
                        expand_fourier(&cs, &m, &neg, &self.ctx)
                    }
                    "slow" => {
                        let cs = make_decomposed_rlwe_ct2(&sk, bit, &mut self.ctx);
                        if self.lconv.is_none() {
                            let mut key = LWEtoRLWEKeyswitchKey::allocate(&self.ctx);
                            key.fill_with_keyswitching_key(&self.lsk, &mut self.ctx);
                            self.lconv = Some(key);
                        }
                        expand_slow(&cs, self.lconv.as_ref().unwrap(), &neg, &self.ctx)
                    }
                    _ => {
                        // decomposed_rlwe_to_rgsw wants exact scaled encryptions of the bit
                        let cs: Vec<RLWECiphertext> = (1..=self.ctx.level_count.0)
                            .map(|level| {
                                let mut ct = self.fresh();
                                let v = Plaintext(bit << (64 - self.ctx.base_log.0 * level));
                                sk.encrypt_constant_rlwe(&mut ct, &v, &mut self.ctx);
                                ct
                            })
                            .collect();
                        decomposed_rlwe_to_rgsw(&cs, &neg, &self.ctx, &mut self.buf)
                    }
                };
            }
            "demux" => {
                // selection bits: 1 = left half; either the encryption of an index or given bits
                let bits: Vec<RGSWCiphertext> = if c["bits"].is_array() {
                    let sk = self.sk[0].clone();
                    ulist(&c["bits"])
                        .iter()
                        .map(|b| {
                            let mut x = self.fresh_g();
                            sk.encrypt_constant_rgsw(&mut x, &Plaintext(*b as u64), &mut self.ctx);
                            x
                        })
                        .collect()
                } else {
                    let sk = self.sk[0].clone();
                    bit_decomposed_rgsw(k, u(c, "width", 2), &sk, &mut self.ctx)
                };
                ev["nbits"] = json!(bits.len());
                let outs = if form == "unit" {
                    demux(&bits, &self.ctx, &mut self.buf)
                } else {
                    demux_with(self.r[a].clone(), &bits, &self.ctx, &mut self.buf)
                };
                let t = self.t();
                ev["outs"] = json!(outs.iter().map(|o| view(&decrypt(&self.sk[0], o, &self.ctx), t)).collect::<Vec<_>>());
            }
            x => panic!("unknown hom command {x}"),
        }
    }
}

impl Hom {
    pub fn new() -> Self {
        Self { m: None }
    }
}

const KNOWN: &[&str] = &[
    "enc", "encc", "triv", "clear", "copy", "fill", "add", "sub", "addp", "subp", "addparts", "subparts", "mulp", "mdiv", "not", "tern", "genc", "gencp", "gvec", "gneg",
    "gadd", "ext", "cmux", "leq", "eq", "ksw", "subs", "trace", "lenc", "lclear", "sext", "lconv", "expand", "demux",
];

impl crate::Domain for Hom {
    fn exec(&mut self, c: &Value) -> Value {
        let op = c["c"].as_str().unwrap_or("").to_string();
        if op == "new" {
            let par = params(c);
            let made = guard(|| {
                let mut ctx = Context::new(par.clone());
                let lsk = ctx.gen_lwe_sk();
                let sk0 = lsk.to_rlwe_sk();
                let sk1 = ctx.gen_rlwe_sk();
                let buf = ctx.gen_fft_ctx();
                let (nr, ng, nl) = (u(c, "nr", 4), u(c, "ng", 2), u(c, "nl", 2));
                let r = vec![RLWECiphertext::allocate(ctx.poly_size); nr];
                let g = vec![RGSWCiphertext::allocate(ctx.poly_size, ctx.base_log, ctx.level_count); ng];
                let l = vec![LWECiphertext::allocate(ctx.lwe_size()); nl];
                M { par: par.clone(), ctx, buf, lsk, sk: [sk0, sk1], r, g, l, dec: vec![], lconv: None, show_g: b(c, "showg", true), show_1: b(c, "show1", false) }
            });
            return match made {
                Err(m) => {
                    self.m = None;
                    failed(c, "panic", &m)
                }
                Ok(mut m) => {
                    let _ = &m.dec;
                    let mut ev = c.clone();
                    ev["ev"] = json!("new");
                    ev["out"] = json!("ok");
                    // the secret key, read through the phase of (a, b) = (1, 0): -s
                    let mut e = m.fresh();
                    let mut mask = vec![0u64; m.n()];
                    mask[0] = 1;
                    let body = vec![0u64; m.n()];
                    set_ct(&mut e, &mask, &body);
                    let s: Vec<u64> = phase(&m.sk[0], &e).iter().map(|x| x.wrapping_neg()).collect();
                    ev["sk"] = json!(s);
                    ev["t"] = json!(m.t());
                    ev["n"] = json!(m.n());
                    m.show(&mut ev);
                    self.m = Some(m);
                    ev
                }
            };
        }
        if !KNOWN.contains(&op.as_str()) {
            panic!("unknown hom command {op}");
        }
        let m = match self.m.as_mut() {
            None => {
                let mut ev = c.clone();
                ev["ev"] = json!("skip");
                ev["out"] = json!("ok");
                return ev;
            }
            Some(m) => m,
        };
        let mut ev = c.clone();
        ev["ev"] = json!(op);
        ev["out"] = json!("ok");
        let res = guard(|| {
            let mut e2 = ev.clone();
            m.apply(c, &mut e2);
            e2
        });
        let mut ev = match res {
            Ok(e) => e,
            Err(msg) => {
                let mut e = failed(c, "panic", &msg);
                if c["p"].is_object() {
                    e["p"] = json!(m.pt(&c["p"]).iter().map(|x| *x as i64).collect::<Vec<_>>());
                }
                e
            }
        };
        let shown = guard(|| {
            let mut e2 = ev.clone();
            m.show(&mut e2);
            e2
        });
        match shown {
            Ok(e) => ev = e,
            Err(msg) => return failed(c, "panic", &msg),
        }
        ev
    }
}

#[allow(unused_imports)]
use HashMap as _;
#[allow(dead_code)]
fn _unused(v: &Polynomial<Vec<u64>>) {
    let _ = v.as_tensor().as_container();
    let _ = |x: &mut Polynomial<Vec<u64>>| {
        let _ = x.as_mut_tensor();
    };
}
