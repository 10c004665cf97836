//! Conformance harness: executes commands against the real panacea crate and logs what it observed.
//! There is no oracle here: every judgement is made by the TLA+ trace specifications.
mod codec;
mod hom;
mod misc;
mod oram;
mod tree;
mod util;

use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// A domain turns one command into one event.
pub trait Domain {
    fn exec(&mut self, cmd: &Value) -> Value;
}

fn domain(name: &str) -> Option<Box<dyn Domain>> {
    Some(match name {
        "oram" => Box::new(oram::Oram::new()),
        "codec" => Box::new(codec::CodecDom::new()),
        "tree" => Box::new(tree::TreeDom::new()),
        "hom" => Box::new(hom::Hom::new()),
        "misc" => Box::new(misc::Misc::new()),
        _ => return None,
    })
}

/// What a lane is doing: 0 = idle, otherwise ms since start at which its command began.
struct Lane {
    since: AtomicU64,
    cur: Mutex<Value>,
}

type Out = Arc<Mutex<std::io::BufWriter<std::fs::File>>>;

fn step(dom: &mut Box<dyn Domain>, cmd: &Value, lane: &Lane, out: &Out, start: Instant) {
    *lane.cur.lock().unwrap() = cmd.clone();
    {
        // flushed before execution, so that an abort of the process is attributable
        let mut o = out.lock().unwrap();
        o.flush().unwrap();
    }
    lane.since.store((start.elapsed().as_millis() as u64).max(1), Ordering::SeqCst);
    let mut ev = dom.exec(cmd);
    lane.since.store(0, Ordering::SeqCst);
    if let Some(w) = cmd.get("who") {
        ev["who"] = w.clone();
    }
    writeln!(out.lock().unwrap(), "{ev}").unwrap();
}

/// One domain, or several independent ones in the same process: "a+b" executes the commands (each naming its lane by
/// "who") in the order of the file, on the main thread; "a|b" gives each lane a thread.
fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 {
        eprintln!("usage: pvh <domain> <commands.ndjson> <events.ndjson> [cmd_timeout_s]");
        std::process::exit(2);
    }
    let limit: u64 = args.get(4).map(|s| s.parse().unwrap()).unwrap_or(150);
    let names: Vec<String> = args[1].split(|c| c == '+' || c == '|').map(|x| x.to_string()).collect();
    let together = args[1].contains('|');
    if let Some(d) = names.iter().find(|d| domain(d).is_none()) {
        eprintln!("unknown domain {d}");
        std::process::exit(2);
    }
    // a panic inside the code under test is data, not noise
    std::panic::set_hook(Box::new(|_| {}));
    let inp = std::io::BufReader::new(std::fs::File::open(&args[2]).expect("commands"));
    let out: Out = Arc::new(Mutex::new(std::io::BufWriter::new(
        std::fs::File::create(&args[3]).expect("events"),
    )));
    let start = Instant::now();
    let lanes: Arc<Vec<Lane>> = Arc::new(
        names.iter().map(|_| Lane { since: AtomicU64::new(0), cur: Mutex::new(json!(null)) }).collect(),
    );
    {
        let (lanes, out) = (lanes.clone(), out.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            for lane in lanes.iter() {
                let s = lane.since.load(Ordering::SeqCst);
                let now = start.elapsed().as_millis() as u64;
                if s != 0 && now > s + limit * 1000 {
                    let mut o = out.lock().unwrap();
                    let ev = util::failed(&lane.cur.lock().unwrap(), "hang", "");
                    writeln!(o, "{ev}").unwrap();
                    o.flush().unwrap();
                    std::process::exit(97);
                }
            }
        });
    }
    let cmds = inp.lines().map(|l| l.expect("read")).filter(|l| !l.trim().is_empty());
    let cmds = cmds.map(|l| serde_json::from_str::<Value>(&l).expect("json command"));
    let who = |c: &Value| c["who"].as_u64().unwrap_or(0) as usize;
    if together {
        let mut work: Vec<Vec<Value>> = vec![vec![]; names.len()];
        for c in cmds {
            work[who(&c)].push(c);
        }
        let hs: Vec<_> = work
            .into_iter()
            .enumerate()
            .map(|(k, w)| {
                let (lanes, out, name) = (lanes.clone(), out.clone(), names[k].clone());
                std::thread::spawn(move || {
                    let mut dom = domain(&name).unwrap();
                    for c in &w {
                        step(&mut dom, c, &lanes[k], &out, start);
                    }
                })
            })
            .collect();
        for h in hs {
            h.join().expect("harness lane");
        }
    } else {
        let mut doms: Vec<_> = names.iter().map(|d| domain(d).unwrap()).collect();
        for c in cmds {
            let k = who(&c);
            step(&mut doms[k], &c, &lanes[k], &out, start);
        }
    }
    out.lock().unwrap().flush().unwrap();
}
