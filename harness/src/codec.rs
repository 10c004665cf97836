//! Encoding, noise estimates, placement and seeding.  64-bit values are shown as four 16-bit limbs, lowest first.
use crate::util::*;
use concrete_core::commons::crypto::encoding::{Plaintext, PlaintextList};
use concrete_core::commons::math::polynomial::Polynomial;
use concrete_core::commons::math::tensor::{AsMutTensor, AsRefTensor};
use panacea::codec::Codec;
use panacea::context::Context;
use panacea::decision_tree::{bit_decomposed_rgsw, encrypt_feature_vector};
use panacea::lwe::{conv_lwe_to_rlwe, LWECiphertext, LWEtoRLWEKeyswitchKey};
use panacea::naive_hash::NaiveHash;
use panacea::oram::Client;
use panacea::params::{InputParamsList, ORAMParameters, ServerParams};
use panacea::rgsw::{compute_noise_rgsw1, RGSWCiphertext};
use panacea::rlwe::{compute_noise, compute_noise_encoded, compute_noise_ternary, gen_all_subs_ksk, gen_all_subs_ksk_fourier, RLWECiphertext, RLWEKeyswitchKey, RLWESecretKey};
use serde_json::{json, Value};
use std::collections::HashMap;

pub fn limbs(x: u64) -> Value {
    json!([x & 0xffff, (x >> 16) & 0xffff, (x >> 32) & 0xffff, x >> 48])
}
fn configs(l: &[ServerParams]) -> Value {
    let o = |m: u32, a: usize, b: usize, it: usize| json!({"m": m, "a": a, "b": b, "it": it});
    json!(l
        .iter()
        .map(|p| {
            let t = &p.tfhe;
            json!({
                "oram": match p.oram {
                    ORAMParameters::SingleQuery { item_count, iterations } => o(0, item_count, 0, iterations),
                    ORAMParameters::MultiQuery { item_count, query_count, iterations } => o(1, item_count, query_count, iterations),
                    ORAMParameters::Batched { rows, cols, iterations } => o(2, rows, cols, iterations),
                },
                "tfhe": {"std": format!("{}", t.standard_deviation), "n": t.polynomial_size, "bl": t.base_log, "lv": t.level_count,
                         "kbl": t.key_switch_base_log, "klv": t.key_switch_level_count, "nbl": t.negs_base_log, "nlv": t.negs_level_count,
                         "lt": if t.plaintext_modulus.is_power_of_two() { t.plaintext_modulus.trailing_zeros() as i64 } else { -1 },
                         "ss": format!("{}", t.secure_seed)},
            })
        })
        .collect::<Vec<_>>())
}
fn big(v: &Value) -> u64 {
    match v {
        Value::String(s) => s.parse().unwrap(),
        v => v.as_i64().map(|x| x as u64).unwrap_or_else(|| v.as_u64().unwrap()),
    }
}
pub fn hash64(xs: &[u64]) -> String {
    let mut a = 0x243f6a8885a308d3u64;
    let mut b = 0x13198a2e03707344u64;
    for x in xs {
        a = splitmix(a ^ *x);
        b = splitmix(b.rotate_left(17) ^ x.wrapping_mul(0x9e3779b97f4a7c15));
    }
    format!("{a:016x}{b:016x}")
}

struct Kept {
    ctx: Context,
    sk: RLWESecretKey,
}

/// a client, or a context with a key of its own
enum Cell {
    Plain { ctx: Context, sk: RLWESecretKey },
    Client(Client),
}

pub struct CodecDom {
    codec: Option<Codec>,
    noise: Option<Kept>,
    hash: Option<NaiveHash>,
    ctxs: HashMap<usize, Cell>,
}

/// (secret material, masks, everything) of what a call produced
struct Made {
    key: Vec<String>,
    masks: Vec<String>,
    parts: Vec<String>,
    all: Vec<u64>,
    near: Vec<u64>,
}
impl Made {
    fn new() -> Self {
        Self { key: vec![], masks: vec![], parts: vec![], all: vec![], near: vec![] }
    }
    fn ct(&mut self, c: &RLWECiphertext) {
        let m = mask_of(c);
        self.mask(&m);
        self.all.extend(m);
        self.all.extend(body_of(c));
    }
    /// what went through the floating-point transform: its plan, and so its rounding, is the process's own
    fn near(&mut self, c: &RLWECiphertext) {
        self.near.extend(mask_of(c));
        self.near.extend(body_of(c));
    }
    /// the mask, and its quarters: not even a part of it may come back
    fn mask(&mut self, m: &[u64]) {
        self.masks.push(hash64(m));
        for p in m.chunks((m.len() / 4).max(1)) {
            self.parts.push(hash64(p));
        }
    }
    fn secret(&mut self, k: Vec<u64>) {
        self.key.push(hash64(&k));
        self.all.extend(k);
    }
    fn pt(&mut self, p: &Pt) {
        self.all.extend(pt_vec(p));
    }
    fn gsw(&mut self, g: &RGSWCiphertext) {
        for i in 0..g.decomposition_level_count().0 * 2 {
            self.ct(&g.get_nth_row(i));
        }
    }
}

/// some ciphertext, always the same
fn fixed_ct(ct: &mut RLWECiphertext) {
    let n = ct.polynomial_size().0;
    let w = |k: u64| (k + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    set_ct(ct, &(0..n as u64).map(w).collect::<Vec<_>>(), &(0..n as u64).map(|k| w(k + 7777)).collect::<Vec<_>>());
}

/// the key itself, through the phase of (a, b) = (1, 0): minus s
pub fn key_of(sk: &RLWESecretKey) -> Vec<u64> {
    let mut c = RLWECiphertext::allocate(sk.polynomial_size());
    let n = sk.polynomial_size().0;
    let mut m = vec![0u64; n];
    m[0] = 1;
    set_ct(&mut c, &m, &vec![0; n]);
    phase(sk, &c).iter().map(|x| x.wrapping_neg()).collect()
}

impl CodecDom {
    pub fn new() -> Self {
        Self { codec: None, noise: None, hash: None, ctxs: HashMap::new() }
    }

    fn run(&mut self, c: &Value) -> Value {
        let mut ev = c.clone();
        ev["ev"] = c["c"].clone();
        ev["out"] = json!("ok");
        match c["c"].as_str().unwrap() {
            // ---- tables of numbers
            "csv" => {
                // the text goes into a file of its own, which is read and removed
                let signs = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ",", "\n", "\r", "\"", "+", "-", " ", ".", "a", "\u{e9}"];
                let text: String = ulist(&c["text"]).iter().map(|i| signs[*i]).collect();
                let path = std::env::temp_dir().join(format!("vt-{}-{}.csv", std::process::id(), splitmix(u(c, "q", 0) as u64)));
                if !b(c, "absent", false) {
                    std::fs::write(&path, text).unwrap();
                }
                let r = guard(|| panacea::utils::parse_csv(&path));
                let _ = std::fs::remove_file(&path);
                let digits = |x: usize| x.to_string().bytes().map(|d| d - b'0').collect::<Vec<_>>();
                match r {
                    Ok(t) => ev["rows"] = json!(t.into_iter().map(|r| r.into_iter().map(digits).collect()).collect::<Vec<Vec<_>>>()),
                    Err(_) => ev["out"] = json!("refused"),
                }
            }
            "columns" => {
                let t: Vec<Vec<usize>> = c["table"].as_array().unwrap().iter().map(ulist).collect();
                match guard(|| panacea::utils::transpose(t)) {
                    Ok(t) => ev["rows"] = json!(t),
                    Err(_) => ev["out"] = json!("refused"),
                }
            }
            "bits" => {
                // a number from the first 64 bits of a plaintext
                let p = pt_of(&u64list(&c["xs"]));
                match guard(|| panacea::utils::pt_to_lossy_u64(&p)) {
                    Ok(x) => ev["x"] = limbs(x),
                    Err(_) => ev["out"] = json!("refused"),
                }
            }
            // ---- encoding
            "codec" => {
                self.codec = None;
                let x = Codec::new(big(&c["t"]));
                ev["margin"] = limbs(x.largest_error());
                ev["modulus"] = limbs(x.pt_modulus());
                ev["bits"] = json!(x.pt_modulus_bits());
                self.codec = Some(x);
            }
            "encode" | "decode" | "tenc" | "tdec" => {
                // each value alone, then all of them as one polynomial; "refused" is a value
                let k = self.codec.as_ref();
                let op = c["c"].as_str().unwrap();
                let xs = u64list(&c["xs"]);
                let one = |x: u64| {
                    guard(|| {
                        let mut y = x;
                        match op {
                            "encode" => k.unwrap().encode(&mut y),
                            "decode" => k.unwrap().decode(&mut y),
                            "tenc" => Codec::ternary_encode(&mut y),
                            _ => Codec::ternary_decode(&mut y),
                        }
                        y
                    })
                };
                ev["xl"] = json!(xs.iter().map(|x| limbs(*x)).collect::<Vec<_>>());
                ev["ys"] = json!(xs.iter().map(|x| one(*x).map(limbs).unwrap_or(json!([]))).collect::<Vec<_>>());
                let poly = guard(|| {
                    let mut p = Polynomial::from_container(xs.clone());
                    match op {
                        "encode" => k.unwrap().poly_encode(&mut p),
                        "decode" => k.unwrap().poly_decode(&mut p),
                        "tenc" => Codec::poly_ternary_encode(&mut p),
                        _ => Codec::poly_ternary_decode(&mut p),
                    }
                    p
                });
                ev["ps"] = match poly {
                    Ok(p) => json!(p.as_tensor().iter().map(|x| limbs(*x)).collect::<Vec<_>>()),
                    Err(_) => json!([]),
                };
            }
            "rt" => {
                // messages ms[i], encoded, plus the error es[i], decoded
                let tern = b(c, "tern", false);
                let (ms, es) = (u64list(&c["ms"]), u64list(&c["es"]));
                let k = self.codec.as_ref();
                let mut out = vec![];
                let mut enc = vec![];
                for (m, e) in ms.iter().zip(es.iter()) {
                    let r = guard(|| {
                        let mut x = *m;
                        if tern {
                            Codec::ternary_encode(&mut x)
                        } else {
                            k.unwrap().encode(&mut x)
                        }
                        let y = x;
                        x = x.wrapping_add(*e);
                        if tern {
                            Codec::ternary_decode(&mut x)
                        } else {
                            k.unwrap().decode(&mut x)
                        }
                        (y, x)
                    });
                    enc.push(r.as_ref().map(|r| limbs(r.0)).unwrap_or(json!([])));
                    out.push(r.map(|r| limbs(r.1)).unwrap_or(json!([])));
                }
                ev["ml"] = json!(ms.iter().map(|x| limbs(*x)).collect::<Vec<_>>());
                ev["el"] = json!(es.iter().map(|x| limbs(*x)).collect::<Vec<_>>());
                ev["enc"] = json!(enc);
                ev["ys"] = json!(out);
            }
            // ---- noise
            "noisectx" => {
                let mut ctx = Context::new(params(c));
                let sk = if b(c, "zerokey", false) { RLWESecretKey::zero(ctx.poly_size) } else { ctx.gen_rlwe_sk() };
                self.noise = Some(Kept { ctx, sk });
            }
            "noise" => {
                let Kept { ctx, sk } = self.noise.as_mut().unwrap();
                let n = ctx.poly_size.0;
                let p = u64list(&c["p"]);
                let form = c["form"].as_str().unwrap();
                let mut ct = RLWECiphertext::allocate(ctx.poly_size);
                if b(c, "fresh", false) {
                    if form == "tern" {
                        sk.ternary_encrypt_rlwe(&mut ct, &pt_of(&p), ctx);
                    } else if form == "mod" {
                        sk.encode_encrypt_rlwe(&mut ct, &pt_of(&p), ctx);
                    } else {
                        sk.encrypt_rlwe(&mut ct, &pt_of(&p), ctx.std, &mut ctx.encryption_generator);
                    }
                }
                let mut body = body_of(&ct);
                if b(c, "mask", false) {
                    // a mask, compensated in the body: the phase stays
                    let m: Vec<u64> = (0..n as u64).map(splitmix).collect();
                    let mut tmp = RLWECiphertext::allocate(ctx.poly_size);
                    set_ct(&mut tmp, &m, &vec![0; n]);
                    let ph = phase(sk, &tmp);
                    let m0 = mask_of(&ct);
                    let m2: Vec<u64> = m0.iter().zip(&m).map(|(a, b)| a.wrapping_add(*b)).collect();
                    let b2: Vec<u64> = body.iter().zip(&ph).map(|(a, b)| a.wrapping_sub(*b)).collect();
                    set_ct(&mut ct, &m2, &b2);
                    body = b2;
                }
                for (x, y) in body.iter_mut().zip(u64list(&c["add"])) {
                    *x = x.wrapping_add(y);
                }
                let m = mask_of(&ct);
                set_ct(&mut ct, &m, &body);
                let before = (mask_of(&ct), body_of(&ct));
                let pt = pt_of(&p);
                let mut ep = pt.clone();
                match form {
                    "raw" => {}
                    "mod" => ctx.codec.poly_encode(&mut ep.as_mut_polynomial()),
                    _ => Codec::poly_ternary_encode(&mut ep.as_mut_polynomial()),
                }
                ev["el"] = json!(pt_vec(&ep).iter().map(|x| limbs(*x)).collect::<Vec<_>>());
                let r = match form {
                    "raw" => compute_noise(sk, &ct, &pt),
                    "mod" => compute_noise_encoded(sk, &ct, &pt, &ctx.codec),
                    _ => compute_noise_ternary(sk, &ct, &pt),
                };
                ev["pl"] = json!(p.iter().map(|x| limbs(*x)).collect::<Vec<_>>());
                ev["ph"] = json!(phase(sk, &ct).iter().map(|x| limbs(*x)).collect::<Vec<_>>());
                ev["kept"] = json!(pt_vec(&pt) == p && before == (mask_of(&ct), body_of(&ct)));
                // the report as a number: 2 to the power of it; "none" is minus infinity
                ev["none"] = json!(r == f64::NEG_INFINITY);
                let x = r.exp2().round();
                ev["pow"] = if x.is_finite() && x >= 0.0 && x < 1.8e19 { limbs(x as u64) } else { json!([]) };
            }
            "gswnoise" => {
                let Kept { ctx, sk } = self.noise.as_mut().unwrap();
                let mut g = RGSWCiphertext::allocate(ctx.poly_size, ctx.base_log, ctx.level_count);
                sk.encrypt_constant_rgsw(&mut g, &Plaintext(1), ctx);
                let r = compute_noise_rgsw1(sk, &g, ctx);
                let ph: Vec<Value> = (0..ctx.level_count.0)
                    .map(|l| json!(phase(sk, &g.get_nth_row(2 * l + 1)).iter().map(|x| limbs(*x)).collect::<Vec<_>>()))
                    .collect();
                ev["rows"] = json!(ph);
                ev["bl"] = json!(ctx.base_log.0);
                let x = r.exp2().round();
                ev["pow"] = if x.is_finite() && x >= 0.0 && x < 1.8e19 { limbs(x as u64) } else { json!([]) };
            }
            // ---- placement
            "expand" => {
                let text = c["text"].as_str().unwrap();
                let parsed = serde_json::from_str::<InputParamsList>(text);
                ev["parsed"] = json!(parsed.is_ok() as u32);
                let list = parsed.unwrap_or_default();
                // the text a reader of the written list sees
                let again = serde_json::to_string(&list).map(|t| serde_json::from_str::<InputParamsList>(&t));
                ev["cfgs"] = configs(&ServerParams::from_input_params_list(list));
                ev["again"] = match again {
                    Ok(Ok(l)) => configs(&ServerParams::from_input_params_list(l)),
                    _ => json!([]),
                };
            }
            "hash" => {
                self.hash = None;
                let (h, dom) = (u(c, "h", 1), u(c, "dom", 4));
                let x = NaiveHash::new(h, dom);
                let x = if b(c, "clone", false) { x.clone() } else { x };
                ev["raw"] = json!((0..dom).map(|i| (0..h).map(|k| x.hash(k, i)).collect::<Vec<_>>()).collect::<Vec<_>>());
                ev["named"] = json!((0..dom)
                    .map(|i| {
                        let mut v = vec![x.hash0(i)];
                        if h > 1 {
                            v.push(x.hash1(i));
                        }
                        if h > 2 {
                            v.push(x.hash2(i));
                        }
                        v
                    })
                    .collect::<Vec<_>>());
                // one beyond each end
                ev["checked"] = json!((0..=dom)
                    .map(|i| (0..=h).map(|k| guard(|| x.checked_hash(k, i)).map(|o| o.map(|v| v as i64).unwrap_or(-1)).unwrap_or(-2)).collect::<Vec<_>>())
                    .collect::<Vec<_>>());
                ev["counts"] = json!([x.h_count(), x.input_domain(), x.output_domain()]);
                self.hash = Some(x);
            }
            "tuples" => {
                let x = self.hash.as_ref().unwrap();
                let d = u(c, "d", 1);
                ev["tab"] = json!((0..x.input_domain())
                    .map(|i| {
                        (0..x.h_count())
                            .map(|k| {
                                let (r, cc) = x.hash_to_tuple(k, i, d);
                                vec![r, cc]
                            })
                            .collect::<Vec<_>>()
                    })
                    .collect::<Vec<_>>());
            }
            "maps" => {
                let x = self.hash.as_ref().unwrap();
                let d = u(c, "d", 1);
                let res: Vec<Value> = c["lists"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|l| {
                        let items = ulist(l);
                        match guard(|| x.hash_to_mapping(&items, d)) {
                            Ok(m) => {
                                let mut v: Vec<Vec<usize>> = m.iter().map(|(r, (cc, i))| vec![*r, *cc, *i]).collect();
                                v.sort();
                                json!({"items": items, "ok": true, "map": v})
                            }
                            Err(_) => json!({"items": items, "ok": false, "map": []}),
                        }
                    })
                    .collect();
                ev["maps"] = json!(res);
            }
            // ---- seeding
            "ctx" => {
                let make = || {
                    let mut ctx = Context::new(params(c));
                    let sk = ctx.gen_rlwe_sk();
                    (ctx, sk)
                };
                let (ctx, sk) = self.placed(c, make);
                let mut m = Made::new();
                m.secret(key_of(&sk));
                self.ctxs.insert(u(c, "x", 0), Cell::Plain { ctx, sk });
                Self::put(&mut ev, m);
            }
            "client" => {
                let cl = self.placed(c, || Client::new(u(c, "rows", 1), u(c, "cols", 4), params(c)));
                let mut m = Made::new();
                m.secret(key_of(&cl.sk));
                self.ctxs.insert(u(c, "x", 0), Cell::Client(cl));
                Self::put(&mut ev, m);
            }
            "rush" => {
                // contexts made at the same moment on several threads, each with a key and an encryption
                let (k, each, secure) = (u(c, "k", 8), u(c, "each", 1), b(c, "secure", true));
                let gate = std::sync::Barrier::new(k);
                let made: Vec<Vec<Cell>> = std::thread::scope(|s| {
                    let hs: Vec<_> = (0..k)
                        .map(|j| {
                            let gate = &gate;
                            s.spawn(move || {
                                gate.wait();
                                (0..each)
                                    .map(|i| {
                                        if secure && (i + j) % 8 == 7 {
                                            return Cell::Client(Client::new(u(c, "rows", 1), u(c, "cols", 4), params(c)));
                                        }
                                        let mut ctx = Context::new(params(c));
                                        let sk = ctx.gen_rlwe_sk();
                                        Cell::Plain { ctx, sk }
                                    })
                                    .collect::<Vec<_>>()
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                });
                let mut m = Made::new();
                for mut cell in made.into_iter().flatten() {
                    m.secret(key_of(match &cell {
                        Cell::Plain { sk, .. } => sk,
                        Cell::Client(cl) => &cl.sk,
                    }));
                    let e = Self::call(&mut cell, "enc", 0);
                    m.masks.extend(e.masks);
                    m.parts.extend(e.parts);
                }
                Self::put(&mut ev, m);
            }
            "call" => {
                let mut cell = self.ctxs.remove(&u(c, "x", 0)).unwrap();
                let m = self.placed(c, || Self::call(&mut cell, c["f"].as_str().unwrap(), u(c, "v", 0) as u64));
                self.ctxs.insert(u(c, "x", 0), cell);
                Self::put(&mut ev, m);
            }
            x => panic!("harness: unknown command {x}"),
        }
        ev
    }

    /// here, on a worker thread, or on a thread of its own
    fn placed<T: Send>(&self, c: &Value, f: impl FnOnce() -> T + Send) -> T {
        match c["at"].as_str().unwrap_or("here") {
            "worker" => {
                let pool = rayon::ThreadPoolBuilder::new().num_threads(4).build().unwrap();
                // keep the others busy, so that it is not always the same worker
                pool.scope(|s| {
                    for _ in 0..u(c, "v", 0) % 4 {
                        s.spawn(|_| std::thread::sleep(std::time::Duration::from_millis(1)));
                    }
                });
                pool.install(f)
            }
            "thread" => std::thread::scope(|s| s.spawn(f).join().unwrap()),
            _ => f(),
        }
    }

    fn put(ev: &mut Value, m: Made) {
        ev["key"] = json!(m.key);
        ev["masks"] = json!(m.masks);
        ev["parts"] = json!(m.parts);
        ev["all"] = json!(hash64(&m.all));
        ev["near"] = json!(if m.near.is_empty() { String::new() } else { hash64(&m.near) });
        ev["proc"] = json!(std::process::id());
    }

    /// what only a client can do; the placement of its items is fixed: one function over one item
    fn client_call(cl: &mut Client, f: &str, v: u64, m: &mut Made) -> bool {
        match f {
            "negsk" => m.gsw(&cl.gen_neg_sk()),
            "qread" | "qwrite" => {
                let hash = NaiveHash::new(1, 1);
                let items: &[usize] = if v == 0 { &[] } else { &[0] };
                let qs = if f == "qread" {
                    if v > 1 { vec![cl.gen_read_query_one(0, &hash)] } else { cl.gen_read_query_batch(items, &hash) }
                } else {
                    let alpha = cl.ctx.gen_pt();
                    m.pt(&alpha);
                    if v > 1 { vec![cl.gen_write_query_one(0, &alpha, &hash)] } else { cl.gen_write_query_batch(items, &alpha, &hash) }
                };
                for q in &qs {
                    #[cfg(panacea_verif)]
                    {
                        let (a, op, data) = q.verif_parts();
                        a.iter().for_each(|g| m.gsw(g));
                        m.gsw(op);
                        m.ct(data);
                    }
                    #[cfg(not(panacea_verif))]
                    let _ = q;
                }
            }
            "dummy" => {
                let hash = NaiveHash::new(cl.rows * cl.cols, 1);
                let (pts, cells) = cl.gen_dummy_database(&hash);
                pts.iter().for_each(|p| m.pt(p));
                // one item: the very same ciphertext everywhere
                m.ct(&cells[0][0]);
            }
            _ => return false,
        }
        true
    }

    fn call(cell: &mut Cell, f: &str, v: u64) -> Made {
        let mut m = Made::new();
        if let Cell::Client(cl) = cell {
            if Self::client_call(cl, f, v, &mut m) {
                return m;
            }
        }
        let (ctx, sk) = match cell {
            Cell::Plain { ctx, sk } => (ctx, sk),
            Cell::Client(cl) => (&mut cl.ctx, &mut cl.sk),
        };
        let t = ctx.codec.pt_modulus();
        let mut ct = RLWECiphertext::allocate(ctx.poly_size);
        match f {
            "rlwesk" => {
                let k = ctx.gen_rlwe_sk();
                m.secret(key_of(&k));
                *sk = k;
            }
            "lwesk" => {
                let k = ctx.gen_lwe_sk();
                m.secret(key_of(&k.to_rlwe_sk()));
            }
            "enc" => {
                let mut p = ctx.gen_zero_pt();
                for x in p.as_mut_tensor().iter_mut() {
                    *x = v % t;
                }
                sk.encode_encrypt_rlwe(&mut ct, &p, ctx);
                m.ct(&ct);
            }
            "many" => {
                // as many encryptions as asked for
                for k in 0..v {
                    let mut p = ctx.gen_zero_pt();
                    p.as_mut_tensor().iter_mut().for_each(|x| *x = k % t);
                    sk.encode_encrypt_rlwe(&mut ct, &p, ctx);
                    m.ct(&ct);
                }
            }
            "raw" => {
                let p = ctx.gen_zero_pt();
                sk.encrypt_rlwe(&mut ct, &p, ctx.std, &mut ctx.encryption_generator);
                m.ct(&ct);
            }
            "tern" => {
                let p = ctx.gen_unit_pt();
                sk.ternary_encrypt_rlwe(&mut ct, &p, ctx);
                m.ct(&ct);
            }
            "gsw" => {
                let mut g = RGSWCiphertext::allocate(ctx.poly_size, ctx.base_log, ctx.level_count);
                sk.encrypt_constant_rgsw(&mut g, &Plaintext(v % 2), ctx);
                m.gsw(&g);
            }
            "neg" => {
                let g = sk.neg_gsw(ctx);
                m.gsw(&g);
            }
            "ksk" => {
                let after = ctx.gen_rlwe_sk();
                let mut k = RLWEKeyswitchKey::allocate(ctx.ks_base_log, ctx.ks_level_count, ctx.poly_size);
                k.fill_with_keyswitch_key(sk, &after, ctx.std, &mut ctx.encryption_generator);
                m.secret(key_of(&after));
                let g = RGSWCiphertext::from_keyswitch_key(&k);
                for i in 0..g.decomposition_level_count().0 {
                    m.ct(&g.get_nth_row(2 * i));
                }
            }
            "subs" => {
                let mut ks: Vec<(usize, RLWEKeyswitchKey)> = gen_all_subs_ksk(sk, ctx).into_iter().collect();
                ks.sort_by_key(|x| x.0);
                for (_, k) in &ks {
                    let g = RGSWCiphertext::from_keyswitch_key(k);
                    for i in 0..g.decomposition_level_count().0 {
                        m.ct(&g.get_nth_row(2 * i));
                    }
                }
            }
            "subsf" => {
                // what the Fourier keys do to a ciphertext fixed in advance
                let map = gen_all_subs_ksk_fourier(sk, ctx);
                let mut out = RLWECiphertext::allocate(ctx.poly_size);
                fixed_ct(&mut ct);
                ct.trace1_fourier(&mut out, &map);
                m.near(&out);
            }
            "bits" => {
                for g in bit_decomposed_rgsw(v as usize % 8, 8, sk, ctx) {
                    m.gsw(&g);
                }
            }
            "feat" => {
                for row in encrypt_feature_vector(sk, &vec![v as usize % ctx.poly_size.0, 0], ctx) {
                    for c in &row {
                        m.ct(c);
                    }
                }
            }
            "l2r" => {
                // what the conversion key does to a sample fixed in advance
                let k = ctx.gen_lwe_sk();
                m.secret(key_of(&k.to_rlwe_sk()));
                let mut keys = LWEtoRLWEKeyswitchKey::allocate(ctx);
                keys.fill_with_keyswitching_key(&k, ctx);
                let mut c = LWECiphertext::allocate(ctx.lwe_size());
                let mut x = 1u64;
                c.get_mut_mask().as_mut_tensor().iter_mut().for_each(|w| {
                    x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    *w = x;
                });
                m.near(&conv_lwe_to_rlwe(&keys, &c, ctx));
            }
            "lwe" => {
                let k = ctx.gen_lwe_sk();
                let mut c = LWECiphertext::allocate(ctx.lwe_size());
                k.encode_encrypt_lwe(&mut c, &Plaintext(v % t), ctx);
                m.secret(key_of(&k.to_rlwe_sk()));
                let mask: Vec<u64> = c.as_tensor().iter().copied().collect();
                m.mask(&mask[..mask.len() - 1]);
                m.all.extend(mask);
            }
            "pt" => m.pt(&ctx.gen_pt()),
            "binary" => m.pt(&ctx.gen_binary_pt()),
            "ternary" => m.pt(&ctx.gen_ternary_ptxt()),
            "scalar" => m.all.push(ctx.gen_scalar_binary_pt().0),
            // asked of what is no client
            "negsk" | "qread" | "qwrite" | "dummy" => {}
            x => panic!("harness: unknown call {x}"),
        }
        m
    }
}

impl crate::Domain for CodecDom {
    fn exec(&mut self, c: &Value) -> Value {
        match guard(|| self.run(c)) {
            Ok(e) => e,
            Err(m) => {
                if m.starts_with("harness") {
                    eprintln!("harness: {m}");
                    std::process::exit(2);
                }
                failed(c, "panic", &m)
            }
        }
    }
}
#[allow(dead_code)]
fn _unused(_: PlaintextList<Vec<u64>>) {}
