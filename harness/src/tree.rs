//! Decision trees: structure, plaintext and encrypted evaluation.
use crate::util::*;
use panacea::context::{Context, FftBuffer};
use panacea::decision_tree::{compare_expand, encrypt_feature_vector, simulate, trunc_tree, EncNode, Internal, Node, Op};
use panacea::rgsw::RGSWCiphertext;
use panacea::rlwe::{gen_all_subs_ksk_fourier, FourierRLWEKeyswitchKey, RLWECiphertext, RLWESecretKey};
use serde_json::{json, Value};
use std::collections::HashMap;

struct Enc {
    ctx: Context,
    sk: RLWESecretKey,
    neg: RGSWCiphertext,
    ksk: HashMap<usize, FourierRLWEKeyswitchKey>,
}

pub struct TreeDom {
    tree: Option<Node>,
    enc: Option<Enc>,
    /// client requests prepared earlier: encrypted feature vectors
    cts: HashMap<usize, Vec<Vec<RLWECiphertext>>>,
}

fn bits(x: usize) -> Value {
    json!((0..64).filter(|i| (x >> i) & 1 == 1).collect::<Vec<usize>>())
}
fn unbits(v: &Value) -> usize {
    ulist(v).iter().fold(0, |a, i| a | 1usize << i)
}
fn build(v: &Value) -> Option<Node> {
    match v["k"].as_str().unwrap() {
        "l" => Some(Node::Leaf(unbits(&v["v"]))),
        "i" => Some(Node::Internal(Box::new(Internal {
            threshold: u(v, "th", 0),
            feature: u(v, "ft", 0),
            index: u(v, "ix", 0),
            op: if v["op"] == "gt" { Op::GT } else { Op::LEQ },
            left: build(&v["l"]),
            right: build(&v["r"]),
        }))),
        _ => None,
    }
}
fn opname(o: &Op) -> &'static str {
    match o {
        Op::LEQ => "leq",
        Op::GT => "gt",
    }
}
fn show(n: &Option<Node>) -> Value {
    match n {
        None => json!({"k": "n"}),
        Some(Node::Leaf(x)) => json!({"k": "l", "v": bits(*x)}),
        Some(Node::Internal(i)) => {
            json!({"k": "i", "th": i.threshold, "ft": i.feature, "ix": i.index, "op": opname(&i.op), "l": show(&i.left), "r": show(&i.right)})
        }
    }
}
fn flat(n: &Node) -> Value {
    json!(n
        .flatten()
        .iter()
        .map(|i| json!({"th": i.threshold, "ft": i.feature, "ix": i.index, "op": opname(&i.op)}))
        .collect::<Vec<_>>())
}

impl TreeDom {
    pub fn new() -> Self {
        Self { tree: None, enc: None, cts: HashMap::new() }
    }

    fn run(&mut self, c: &Value) -> Value {
        let mut ev = c.clone();
        ev["ev"] = c["c"].clone();
        ev["out"] = json!("ok");
        match c["c"].as_str().unwrap() {
            "new" => {
                self.enc = None;
                self.cts.clear();
                let mut ctx = Context::new(params(c));
                let sk = ctx.gen_rlwe_sk();
                let neg = sk.neg_gsw(&mut ctx);
                let ksk = gen_all_subs_ksk_fourier(&sk, &mut ctx);
                self.enc = Some(Enc { ctx, sk, neg, ksk });
            }
            "tree" => {
                self.tree = build(&c["tree"]);
            }
            "load" => {
                // from a document in the documented format
                let n: Node = serde_json::from_str(c["text"].as_str().unwrap()).expect("unreadable");
                self.tree = Some(n);
                ev["after"] = show(&self.tree);
            }
            "default" => {
                let n = if c["depth"].is_u64() { Node::new_with_depth(u(c, "depth", 0)) } else { Node::default() };
                self.tree = Some(n);
                ev["after"] = show(&self.tree);
            }
            "number" => {
                ev["last"] = json!(self.tree.as_mut().unwrap().fix_index());
                ev["after"] = show(&self.tree);
            }
            "flatten" => ev["flat"] = flat(self.tree.as_ref().unwrap()),
            "count" => {
                let t = self.tree.as_ref().unwrap();
                ev["leaves"] = json!(t.count_leaf());
                ev["internal"] = json!(t.count_internal());
                ev["depth"] = json!(t.count_depth());
                ev["maxft"] = json!(t.max_feature_index());
            }
            "trunc" => {
                let r = trunc_tree(&self.tree);
                ev["res"] = show(&r);
                ev["after"] = show(&self.tree);
                if b(c, "keep", false) {
                    self.tree = r;
                }
            }
            "clone" => ev["res"] = show(&self.tree.clone()),
            "json" => {
                let txt = serde_json::to_string(self.tree.as_ref().unwrap()).unwrap();
                let back: Node = serde_json::from_str(&txt).expect("unreadable");
                ev["res"] = show(&Some(back));
                let pretty = serde_json::to_string_pretty(self.tree.as_ref().unwrap()).unwrap();
                let back: Node = serde_json::from_str(&pretty).expect("unreadable");
                ev["res2"] = show(&Some(back));
            }
            "eval" => {
                let f = ulist(&c["f"]);
                ev["v"] = bits(self.tree.as_ref().unwrap().eval(&f));
            }
            "feat" => {
                // a client request
                let e = self.enc.as_mut().unwrap();
                let f = ulist(&c["f"]);
                let r = encrypt_feature_vector(&e.sk, &f, &mut e.ctx);
                ev["count"] = json!(r.len());
                ev["levels"] = json!(r.iter().map(|x| x.len()).collect::<Vec<_>>());
                self.cts.insert(u(c, "q", 0), r);
            }
            "enc" => {
                let e = self.enc.as_ref().unwrap();
                let t = self.tree.as_ref().unwrap();
                let r = &self.cts[&u(c, "q", 0)];
                let nodes = t.flatten();
                let root = {
                    let mut it = compare_expand(&nodes, r, &e.neg, &e.ksk, &e.ctx);
                    EncNode::new(t, &mut it)
                };
                ev["max"] = bits(root.max_leaf());
                let mut buf = FftBuffer::new(e.ctx.poly_size);
                let mut outs = vec![];
                for _ in 0..u(c, "times", 1) {
                    let cts = root.eval(&e.ctx, &mut buf);
                    outs.push(cts.iter().map(|x| decrypt(&e.sk, x, &e.ctx)[0].min(1 << 30)).collect::<Vec<_>>());
                }
                ev["outs"] = json!(outs);
            }
            "choices" => {
                // the encrypted choice of every node of the tree, each looked at by itself: one at the left, two at the right
                let e = self.enc.as_ref().unwrap();
                let nodes = self.tree.as_ref().unwrap().flatten();
                let r = &self.cts[&u(c, "q", 0)];
                let mut buf = FftBuffer::new(e.ctx.poly_size);
                let mut outs = vec![];
                for (node, ct) in nodes.iter().zip(compare_expand(&nodes, r, &e.neg, &e.ksk, &e.ctx)) {
                    let clear = Node::Internal(Box::new(Internal {
                        threshold: node.threshold,
                        feature: node.feature,
                        index: 0,
                        op: Op::LEQ,
                        left: Some(Node::Leaf(1)),
                        right: Some(Node::Leaf(2)),
                    }));
                    let cts = EncNode::new(&clear, &mut std::iter::once(ct)).eval(&e.ctx, &mut buf);
                    outs.push(cts.iter().map(|x| decrypt(&e.sk, x, &e.ctx)[0].min(1 << 30)).collect::<Vec<_>>());
                }
                ev["outs"] = json!(outs);
            }
            "simulate" => {
                let fs: Vec<Vec<usize>> = c["fs"].as_array().unwrap().iter().map(ulist).collect();
                let t = self.tree.as_ref().unwrap();
                let th = u(c, "th", 0);
                let par = b(c, "parallel", false);
                let r = if th > 0 {
                    let pool = rayon::ThreadPoolBuilder::new().num_threads(th).build().unwrap();
                    pool.install(|| simulate(t, &fs, par))
                } else {
                    simulate(t, &fs, par)
                };
                ev["vs"] = json!(r.predictions.iter().map(|x| bits(*x as usize)).collect::<Vec<_>>());
                ev["inputs"] = json!(r.input_count);
            }
            x => panic!("harness: unknown command {x}"),
        }
        ev
    }
}

impl crate::Domain for TreeDom {
    fn exec(&mut self, c: &Value) -> Value {
        let r = guard(|| self.run(c));
        match r {
            Ok(e) => e,
            Err(m) => {
                if m.starts_with("harness") {
                    eprintln!("harness: {m}");
                    std::process::exit(2);
                }
                failed(c, "panic", &m)
            }
        }
    }
}
