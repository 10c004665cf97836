//! ORAM client/server sessions.
use crate::util::*;
use panacea::naive_hash::NaiveHash;
use panacea::oram::{setup_random_oram, Client, ClientQuery, Server};
use panacea::params::TFHEParameters;
use panacea::rlwe::RLWECiphertext;
use serde_json::{json, Value};
use std::collections::HashMap;

pub struct Oram {
    par: TFHEParameters,
    clients: Vec<Client>,
    server: Option<Server>,
    hash: Option<NaiveHash>,
    queries: HashMap<u64, Vec<ClientQuery>>,
    pools: HashMap<usize, rayon::ThreadPool>,
    snap: bool,
    view_extra: bool,
    #[allow(dead_code)]
    seen: std::collections::HashSet<u64>,
    twin: Option<Twin>,
    /// the number of the database in use, and the other databases of the same clients
    db: usize,
    others: HashMap<usize, (Option<Server>, Option<NaiveHash>)>,
}

/// Another server with its own client, used at the same time.
struct Twin {
    client: Client,
    server: Server,
    hash: NaiveHash,
    pts: Vec<Vec<u64>>,
    k: usize,
}

impl Twin {
    fn new(par: TFHEParameters) -> Self {
        let hash = NaiveHash::new(1, 4);
        let (client, server, pts) = setup_random_oram(1, 4, &hash, par);
        Twin { client, server, hash, pts: pts.iter().map(pt_vec).collect(), k: 0 }
    }

    /// A few requests; are they answered as they should be?
    fn work(&mut self) -> bool {
        self.k += 1;
        let i = self.k % 4;
        let q = self.client.gen_read_query_one(i, &self.hash);
        let y = self.server.process_one(q).0;
        let qs = (0..3).map(|d| self.client.gen_read_query_one((i + d) % 4, &self.hash)).collect();
        let ys = self.server.process_multi(qs).0;
        let n = self.pts[i].len();
        let is = |y: &RLWECiphertext, j: usize| decrypt(&self.client.sk, y, &self.client.ctx)[..n] == self.pts[j][..];
        is(&y, i) && ys.len() == 3 && (0..3).all(|d| is(&ys[d], (i + d) % 4))
    }
}

/// Run on a pool of `th` workers, or on the calling thread (outside any pool) for th = 0.
fn on<T: Send>(pools: &mut HashMap<usize, rayon::ThreadPool>, th: usize, f: impl FnOnce() -> T + Send) -> Result<T, String> {
    if th == 0 {
        return guard(f);
    }
    let p = pools
        .entry(th)
        .or_insert_with(|| rayon::ThreadPoolBuilder::new().num_threads(th).build().unwrap());
    guard(|| p.install(f))
}

/// Work which goes on elsewhere in the same thread pool while a request is processed.
type Side<'a> = Box<dyn FnOnce() + Send + 'a>;

/// Like `on`, but the request is made by another kind of thread: `thread` is a thread of its own (outside any
/// pool), `spawn` a task spawned into the pool, `deep` a task several joins below the pool's entry, `busy` one half
/// of a join whose other half is `side`.
fn via<T: Send>(pools: &mut HashMap<usize, rayon::ThreadPool>, th: usize, how: &str, side: Option<Side>, f: impl FnOnce() -> T + Send) -> Result<T, String> {
    match how {
        "thread" => guard(|| std::thread::scope(|s| s.spawn(|| guard(f)).join().unwrap())).and_then(|x| x),
        "spawn" => on(pools, th, || {
            let mut out = None;
            rayon::scope(|s| s.spawn(|_| out = Some(guard(f))));
            out.unwrap()
        })
        .and_then(|x| x),
        "deep" => on(pools, th, || {
            let ((_, (x, _)), _) = rayon::join(|| rayon::join(|| 1, || rayon::join(|| guard(f), || 2)), || 3);
            x
        })
        .and_then(|x| x),
        "busy" => on(pools, th, || rayon::join(|| guard(f), || side.map(|g| g())).0).and_then(|x| x),
        _ => on(pools, th, f),
    }
}

struct SendBox<T>(T);
unsafe impl<T> Send for SendBox<T> {}
impl<T> SendBox<T> {
    fn get(self) -> T {
        self.0
    }
}

impl Oram {
    pub fn new() -> Self {
        Self {
            par: TFHEParameters::default(),
            clients: vec![],
            server: None,
            hash: None,
            queries: HashMap::new(),
            pools: HashMap::new(),
            snap: false,
            view_extra: false,
            seen: Default::default(),
            twin: None,
            db: 0,
            others: HashMap::new(),
        }
    }

    fn switch(&mut self, k: usize) {
        if k != self.db {
            let now = (self.server.take(), self.hash.take());
            self.others.insert(self.db, now);
            let (s, h) = self.others.remove(&k).unwrap_or((None, None));
            self.server = s;
            self.hash = h;
            self.db = k;
        }
    }

    /// One more database of the same clients, with a placement of its own.
    fn cmd_share(&mut self, c: &Value) -> Value {
        let cl = &mut self.clients[0];
        let (rows, cols, h) = (cl.rows, cl.cols, u(c, "h", 1));
        let par = self.par.clone();
        let t = par.plaintext_modulus;
        match guard(|| {
            let hash = NaiveHash::new(h, rows * cols / h);
            let neg = cl.gen_neg_sk();
            let (pts, db) = cl.gen_dummy_database(&hash);
            SendBox((hash, pts.iter().map(pt_vec).collect::<Vec<_>>(), Server::new(db, neg, par)))
        }) {
            Err(m) => failed(c, "panic", &m),
            Ok(b) => {
                let (hash, items, sv) = b.get();
                self.hash = Some(hash);
                self.server = Some(sv);
                let mut ev = c.clone();
                ev["ev"] = json!("new");
                ev["out"] = json!("ok");
                ev["rows"] = json!(rows);
                ev["cols"] = json!(cols);
                ev["h"] = json!(h);
                ev["t"] = json!(t);
                ev["items"] = json!([]);
                ev["tab"] = self.tables();
                ev["mem"] = json!(items.iter().map(|x| view(x, t)).collect::<Vec<_>>());
                ev["cells"] = self.cells();
                ev
            }
        }
    }

    fn t(&self) -> u64 {
        self.par.plaintext_modulus
    }

    fn tables(&self) -> Value {
        let h = self.hash.as_ref().unwrap();
        let cols = self.clients[0].cols;
        let tab: Vec<Vec<Vec<usize>>> = (0..h.input_domain())
            .map(|i| {
                (0..h.h_count())
                    .map(|k| {
                        let (r, c) = h.hash_to_tuple(k, i, cols);
                        vec![r, c]
                    })
                    .collect()
            })
            .collect();
        json!(tab)
    }

    /// All cells as decrypt_db shows them (complete when N <= 64 and the items are binary).
    fn cells(&self) -> Value {
        if !self.snap || self.server.is_none() {
            return json!("none");
        }
        let s = self.server.as_ref().unwrap();
        let sk = &self.clients[0].sk;
        let n = self.par.polynomial_size.min(64);
        let t = self.t();
        match guard(|| s.decrypt_db(sk)) {
            Err(_) => json!("panic"),
            Ok(db) => json!(db
                .iter()
                .map(|row| {
                    row.iter()
                        .map(|x| {
                            let p: Vec<u64> = (0..n).map(|i| (x >> i) & 1).collect();
                            view(&p, t)
                        })
                        .collect::<Vec<_>>()
                })
                .collect::<Vec<_>>()),
        }
    }

    fn cmd_new(&mut self, c: &Value) -> Value {
        self.par = params(c);
        let (rows, cols, h) = (u(c, "rows", 1), u(c, "cols", 16), u(c, "h", 1));
        let dom = u(c, "items_n", rows * cols / h);
        self.snap = b(c, "snap", false);
        self.view_extra = b(c, "serverview", false);
        self.seen.clear();
        self.twin = if b(c, "twin", false) { guard(|| SendBox(Twin::new(self.par.clone()))).ok().map(|x| x.get()) } else { None };
        self.queries.clear();
        self.clients.clear();
        self.server = None;
        self.others.clear();
        self.db = 0;
        let th = u(c, "th", 0);
        if !(b(c, "keephash", false) && self.hash.is_some()) {
            self.hash = match guard(|| NaiveHash::new(h, dom)) {
                Ok(x) => Some(x),
                Err(m) => return failed(c, "panic", &m),
            };
        }
        let hash = self.hash.clone().unwrap();
        let par = self.par.clone();
        let (n, t) = (par.polynomial_size, par.plaintext_modulus);
        let setup = c["setup"].as_str().unwrap_or("random").to_string();
        let specs: Vec<Value> = c["items"].as_array().cloned().unwrap_or_default();
        let res = on(&mut self.pools, th, || {
            SendBox(if setup == "random" {
                let (cl, sv, pts) = setup_random_oram(rows, cols, &hash, par);
                (cl, sv, pts.iter().map(pt_vec).collect::<Vec<_>>())
            } else {
                let mut cl = Client::new(rows, cols, par.clone());
                let neg = cl.gen_neg_sk();
                let items: Vec<Vec<u64>> = (0..hash.input_domain())
                    .map(|i| poly(specs.get(i % specs.len().max(1)).unwrap_or(&json!({"r": i})), n, t))
                    .collect();
                let mut db = vec![vec![RLWECiphertext::allocate(cl.ctx.poly_size); cols]; rows];
                for (i, it) in items.iter().enumerate() {
                    for k in 0..hash.h_count() {
                        let (r, cc) = hash.hash_to_tuple(k, i, cols);
                        cl.sk.encode_encrypt_rlwe(&mut db[r][cc], &pt_of(it), &mut cl.ctx);
                    }
                }
                let sv = Server::new(db, neg, par);
                (cl, sv, items)
            })
        });
        match res {
            Err(m) => failed(c, "panic", &m),
            Ok(b) => {
                let (cl, sv, items) = b.get();
                self.clients.push(cl);
                self.server = Some(sv);
                let mem: Vec<Vec<u64>> = items.iter().map(|x| view(x, t)).collect();
                let mut ev = c.clone();
                ev["ev"] = json!("new");
                ev["out"] = json!("ok");
                ev["rows"] = json!(rows);
                ev["cols"] = json!(cols);
                ev["h"] = json!(h);
                ev["t"] = json!(t);
                ev["items"] = json!([]);
                ev["tab"] = self.tables();
                ev["mem"] = json!(mem);
                ev["cells"] = self.cells();
                ev
            }
        }
    }

    fn cmd_client(&mut self, c: &Value) -> Value {
        let sk = self.clients[0].sk.clone();
        let rows = u(c, "rows", self.clients[0].rows);
        let cols = u(c, "cols", self.clients[0].cols);
        let mut par = self.par.clone();
        par.polynomial_size = u(c, "n", par.polynomial_size);
        match guard(|| Client::new(rows, cols, par)) {
            Ok(mut cl) => {
                cl.sk = sk;
                self.clients.push(cl);
                let mut ev = c.clone();
                ev["ev"] = json!("client");
                ev["out"] = json!("ok");
                ev
            }
            Err(m) => failed(c, "panic", &m),
        }
    }

    /// A set of items whose placement has to fall back on replica `k` of item `x`: others take the rows of the
    /// replicas before it.  None if there is no such set of this simple form.
    fn reach(&self, x: usize, k: usize, cols: usize) -> Option<Vec<usize>> {
        let hash = self.hash.as_ref().unwrap();
        let (h, n) = (hash.h_count(), hash.input_domain());
        if x >= n || k >= h {
            return None;
        }
        let row = |j: usize, i: usize| hash.hash_to_tuple(j, i, cols).0;
        let (mut items, mut taken): (Vec<usize>, Vec<usize>) = (vec![], vec![]);
        for j in 0..k {
            let r = row(j, x);
            if taken.contains(&r) {
                continue;
            }
            let y = (1..n).map(|d| (x + d) % n).find(|y| {
                !items.contains(y) && (0..h).map(|g| row(g, *y)).find(|q| !taken.contains(q)) == Some(r)
            })?;
            items.push(y);
            taken.push(r);
        }
        if taken.contains(&row(k, x)) {
            return None;
        }
        items.push(x);
        Some(items)
    }

    fn cmd_prep(&mut self, c: &Value) -> Value {
        let cl = u(c, "cl", 0);
        let mut c = c.clone();
        if c["reach"].is_array() {
            let r = ulist(&c["reach"]);
            match self.reach(r[0], r[1], self.clients[cl].cols) {
                Some(items) => c["items"] = json!(items),
                None => {
                    c["ev"] = json!("skip");
                    c["out"] = json!("ok");
                    return c;
                }
            }
        }
        let c = &c;
        let items = ulist(&c["items"]);
        let hash = self.hash.clone().unwrap();
        let (n, t) = (self.par.polynomial_size, self.t());
        let val = poly(&c["val"], n, t);
        let write = c["op"].as_str() == Some("w");
        let one = c["kind"].as_str() == Some("one");
        let client = &mut self.clients[cl];
        let (rows, cols) = (client.rows, client.cols);
        let mut c = c.clone();
        c["ccols"] = json!(cols);
        c["crows"] = json!(rows);
        c["vbig"] = json!((write && val.iter().any(|x| *x >= t)) as u32);
        let c = &c;
        let pt = pt_of(&val);
        let res = guard(|| match (write, one) {
            (false, true) => vec![client.gen_read_query_one(items[0], &hash)],
            (true, true) => vec![client.gen_write_query_one(items[0], &pt, &hash)],
            (false, false) => client.gen_read_query_batch(&items, &hash),
            (true, false) => client.gen_write_query_batch(&items, &pt, &hash),
        });
        match res {
            Err(m) => failed(c, "panic", &m),
            Ok(q) => {
                let map: Vec<Vec<usize>> = if one {
                    vec![]
                } else {
                    match guard(|| hash.hash_to_mapping(&items, cols)) {
                        Err(m) => return failed(c, "panic", &m),
                        Ok(m) => {
                            let mut v: Vec<Vec<usize>> = m.iter().map(|(r, (cc, i))| vec![*r, *cc, *i]).collect();
                            v.sort();
                            v
                        }
                    }
                };
                let mut ev = c.clone();
                ev["ev"] = json!("prep");
                ev["out"] = json!("ok");
                ev["len"] = json!(q.len());
                ev["map"] = json!(map);
                ev["val"] = json!(if write { view(&val, t) } else { vec![] });
                #[cfg(panacea_verif)]
                if self.view_extra {
                    ev["ct"] = crate::misc::query_view(&q, &self.clients[0].sk, &self.clients[0].ctx, &mut self.seen);
                }
                self.queries.insert(u(c, "q", 0) as u64, q);
                ev
            }
        }
    }

    fn cmd_exec(&mut self, c: &Value) -> Value {
        let kind = c["c"].as_str().unwrap().to_string();
        let th = u(c, "th", 0);
        let mut qs: Vec<ClientQuery> = vec![];
        let ids = if c["qs"].is_array() { ulist(&c["qs"]) } else { vec![u(c, "q", 0)] };
        for i in &ids {
            match self.queries.remove(&(*i as u64)) {
                // the query could not be prepared (that event was logged); a multi request goes ahead without it
                None => {
                    if kind != "multi" {
                        let mut ev = c.clone();
                        ev["ev"] = json!("skip");
                        ev["out"] = json!("ok");
                        return ev;
                    }
                }
                Some(mut v) => {
                    if kind == "multi" {
                        v.truncate(1);
                    }
                    if b(c, "rowpick", false) {
                        // the k-th query of the request is the one prepared for row k
                        let k = qs.len();
                        if k < v.len() {
                            let x = v.swap_remove(k);
                            v = vec![x];
                        }
                    }
                    qs.extend(v);
                }
            }
        }
        if c["take"].is_u64() {
            qs.truncate(u(c, "take", 0));
        }
        let nq = qs.len();
        let hash = self.hash.clone().unwrap();
        #[cfg(panacea_verif)]
        let before = if self.view_extra { Some(crate::misc::server_cells(self.server.as_ref().unwrap())) } else { None };
        let server = SendBox(self.server.as_mut().unwrap());
        let k2 = kind.clone();
        let how = c["via"].as_str().unwrap_or("").to_string();
        let mut twin_ok = true;
        let res = {
            let qs = SendBox(qs);
            let ok = &mut twin_ok;
            let side: Option<Side> = self.twin.as_mut().map(|t| {
                let t = SendBox(t);
                Box::new(move || {
                    let t = t.get();
                    *ok = guard(|| t.work()).unwrap_or(false);
                }) as Side
            });
            via(&mut self.pools, th, &how, side, move || {
                let server = server.get();
                let mut qs = qs.get();
                match k2.as_str() {
                    "one" => vec![server.process_one(qs.remove(0)).0],
                    "multi" => server.process_multi(qs).0,
                    _ => server.process_batch(qs, &hash).0,
                }
            })
        };
        let mut ev = match res {
            Err(m) => failed(c, "panic", &m),
            Ok(ys) => {
                let mut ev = c.clone();
                ev["ev"] = c["c"].clone();
                ev["out"] = json!("ok");
                let cl = &self.clients[0];
                let t = self.t();
                match guard(|| {
                    ys.iter().map(|y| view(&decrypt(&cl.sk, y, &cl.ctx), t)).collect::<Vec<_>>()
                }) {
                    Ok(r) => ev["resp"] = json!(r),
                    Err(m) => return failed(c, "panic", &m),
                }
                let nz: Vec<i64> = ys.iter().map(|y| noise16(&phase(&cl.sk, y), t)).collect();
                ev["nz"] = json!(nz);
                ev
            }
        };
        ev["qs"] = json!(ids);
        ev["nq"] = json!(nq);
        if !twin_ok {
            ev["out"] = json!("twin");
        }
        ev["cells"] = self.cells();
        #[cfg(panacea_verif)]
        if let Some(b) = before {
            ev["touch"] = crate::misc::touched(&b, &crate::misc::server_cells(self.server.as_ref().unwrap()));
        }
        ev
    }
}

impl crate::Domain for Oram {
    fn exec(&mut self, c: &Value) -> Value {
        if c["c"].as_str() != Some("new") {
            self.switch(u(c, "db", 0));
        }
        match c["c"].as_str().unwrap_or("") {
            "new" => self.cmd_new(c),
            "share" if !self.clients.is_empty() => self.cmd_share(c),
            _ if self.server.is_none() => {
                let mut ev = c.clone();
                ev["ev"] = json!("skip");
                ev["out"] = json!("ok");
                ev
            }
            "client" => self.cmd_client(c),
            "prep" => self.cmd_prep(c),
            "one" | "multi" | "batch" => self.cmd_exec(c),
            "drop" => {
                self.queries.remove(&(u(c, "q", 0) as u64));
                let mut ev = c.clone();
                ev["ev"] = json!("drop");
                ev["out"] = json!("ok");
                ev
            }
            x => panic!("unknown oram command {x}"),
        }
    }
}
