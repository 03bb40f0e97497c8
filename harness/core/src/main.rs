//! swigh: records what the real program does.
//!   campaign PROFILE --seed N --runs R --steps K --out FILE
//!   tree INIT EDGES --out FILE    (takes every edge of a bounded model)
//!   replay FILE --out FILE        (re-executes the operations of a recorded history)
mod ask;
mod client;
mod decode;
mod gen;
mod lay;
mod ops;
mod proof;
mod readers;
mod svm;
mod world;

use std::{
    collections::BTreeMap,
    fs::File,
    io::{BufRead, BufReader, BufWriter, Write},
    sync::{
        atomic::{AtomicU64, Ordering},
        Mutex,
    },
    time::Duration,
};

use serde_json::{json, Value};

static BEAT: AtomicU64 = AtomicU64::new(0);
static CUR: Mutex<String> = Mutex::new(String::new());

/// seconds of processor time used so far: a busy machine is no reason to give up
fn now() -> u64 {
    extern "C" {
        fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32;
    }
    let mut t = [0i64; 2];
    unsafe { clock_gettime(2, &mut t) };
    t[0] as u64 + 1
}

struct Rec {
    out: BufWriter<File>,
    side: File,
    n: usize,
    init: usize,
    full: usize,
    last: String,
}
impl Rec {
    fn line(&mut self, op: &Value, ok: bool, why: &str, st: &Value) {
        self.n += 1;
        let s = st.to_string();
        if op["i"] == "init" {
            self.init = self.n;
            self.last.clear();
        }
        let mut l = json!({"c":self.init,"p":self.full,"op":op,"ok":ok,"w":why});
        if s != self.last {
            l["st"] = st.clone();
            self.last = s;
            self.full = self.n;
        }
        writeln!(self.out, "{}", l).unwrap();
    }
    /// remembers what is being executed, in case the process does not survive it
    fn about(&mut self, op: &Value) {
        use std::os::unix::fs::FileExt;
        self.out.flush().unwrap();
        let s = format!("{}\n", json!({"c":self.init,"p":self.full,"op":op,"n":self.n}));
        self.side.set_len(0).unwrap();
        self.side.write_at(s.as_bytes(), 0).unwrap();
        BEAT.store(now(), Ordering::SeqCst);
        *CUR.lock().unwrap() = s;
    }
}

/// path -> (index, operation, accepted by the model)
type Kids = BTreeMap<Vec<u64>, Vec<(u64, Value, bool)>>;

/// takes every edge out of the node at `path`, then goes on from where they lead
fn grow(rec: &mut Rec, w: &world::World, init: &Value, kids: &Kids, path: &mut Vec<u64>) {
    let es = match kids.get(path) {
        Some(es) => es,
        None => return,
    };
    let st = decode::state(w);
    let here = st.to_string();
    rec.n += 1;
    let node = rec.n;
    rec.init = node;
    rec.full = node;
    writeln!(rec.out, "{}", json!({"c":node,"p":0,"op":init,"ok":true,"w":"","st":st,"node":path.clone()})).unwrap();
    let mut next = vec![];
    for (k, op, acc) in es {
        let mut op = op.clone();
        let mut w2 = w.clone();
        rec.init = node;
        rec.full = node;
        rec.about(&op);
        let (ok, why) = ops::run(&mut w2, &mut op);
        let st2 = decode::state(&w2);
        rec.n += 1;
        let mut l = json!({"c":node,"p":node,"op":op,"ok":ok,"w":why});
        if st2.to_string() != here {
            l["st"] = st2;
        }
        writeln!(rec.out, "{}", l).unwrap();
        // where program and model part there is nothing to follow
        if ok == *acc {
            next.push((*k, w2));
        }
    }
    for (k, w2) in next {
        path.push(k);
        grow(rec, &w2, init, kids, path);
        path.pop();
    }
}

fn arg(a: &[String], k: &str, d: &str) -> String {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.into())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let out = arg(&a, "--out", "/dev/stdout");
    let mut rec = Rec {
        out: BufWriter::new(File::create(&out).unwrap()),
        side: File::create(format!("{out}.cur")).unwrap_or_else(|_| File::create("/dev/null").unwrap()),
        n: 0,
        init: 0,
        full: 0,
        last: String::new(),
    };
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_secs(1));
        let b = BEAT.load(Ordering::SeqCst);
        if b != 0 && now() > b + 60 {
            eprintln!("HANG {}", CUR.lock().unwrap());
            std::process::exit(77);
        }
    });
    let child = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || match a.get(1).map(|x| x.as_str()) {
            Some("campaign") => {
                let prof = a[2].clone();
                let seed: u64 = arg(&a, "--seed", "1").parse().unwrap();
                let runs: u64 = arg(&a, "--runs", "10").parse().unwrap();
                let steps: usize = arg(&a, "--steps", "25").parse().unwrap();
                for r in 0..runs {
                    let mut ps: Vec<&str> = prof.split(',').collect();
                    let p = ps.remove((r as usize) % ps.len());
                    let mut g = gen::Gen::new(p, seed.wrapping_mul(1_000_003).wrapping_add(r));
                    let mut init = g.init();
                    init["prof"] = json!(p);
                    let mut w = ops::world(&init);
                    let mut st = decode::state(&w);
                    rec.line(&init, true, "", &st);
                    let total = g.plan.len() + steps;
                    for _ in 0..total {
                        let mut op = g.next(&st);
                        ops::complete(&w, &mut op);
                        rec.about(&op);
                        let (ok, why) = ops::run(&mut w, &mut op);
                        st = decode::state(&w);
                        g.done(&op, ok);
                        rec.line(&op, ok, &why, &st);
                    }
                }
                rec.out.flush().unwrap();
            },
            Some("replay") => {
                let f = BufReader::new(File::open(&a[2]).unwrap());
                let mut w: Option<world::World> = None;
                for l in f.lines() {
                    let v: Value = serde_json::from_str(&l.unwrap()).unwrap();
                    let mut op = v.get("op").cloned().unwrap_or(v);
                    if op["i"] == "init" {
                        let nw = ops::world(&op);
                        let st = decode::state(&nw);
                        rec.line(&op, true, "", &st);
                        w = Some(nw);
                        continue;
                    }
                    let w = w.as_mut().expect("init first");
                    rec.about(&op);
                    let (ok, why) = ops::run(w, &mut op);
                    let st = decode::state(w);
                    rec.line(&op, ok, &why, &st);
                }
                rec.out.flush().unwrap();
            },
            Some("tree") => {
                // INIT.json EDGES.nd: every edge of a model, taken from the state its path leads to
                let init: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
                let mut kids: Kids = BTreeMap::new();
                for l in BufReader::new(File::open(&a[3]).unwrap()).lines() {
                    let v: Value = serde_json::from_str(&l.unwrap()).unwrap();
                    let path = v[0].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
                    kids.entry(path).or_default().push((v[1].as_u64().unwrap(), v[2].clone(), v[3].as_bool().unwrap()));
                }
                let w = ops::world(&init);
                grow(&mut rec, &w, &init, &kids, &mut vec![]);
                rec.out.flush().unwrap();
            },
            _ => {
                eprintln!("usage");
                std::process::exit(2)
            },
        })
        .unwrap();
    if child.join().is_err() {
        eprintln!("harness panic {}", CUR.lock().unwrap());
        std::process::exit(3);
    }
}
