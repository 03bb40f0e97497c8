//! Operation generator: profiles that steer histories towards the corners of each property.
//! It decides nothing; every verdict comes from the specification.
use std::collections::VecDeque;

use serde_json::{json, Map, Value};

use crate::{decode::act, world::*};

pub struct Rng(std::cell::Cell<u64>);
impl Rng {
    pub fn new(s: u64) -> Rng { Rng(std::cell::Cell::new(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)) }
    pub fn next(&self) -> u64 {
        let mut z = {
            self.0.set(self.0.get().wrapping_add(0x9E3779B97F4A7C15));
            self.0.get()
        };
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }
    pub fn ch(&self, pct: usize) -> bool { self.below(100) < pct }
    pub fn pick<'a, T>(&self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn p(&self, v: &[&str]) -> String { v[self.below(v.len())].to_string() }
    pub fn pi(&self, v: &[i64]) -> i64 { v[self.below(v.len())] }
    pub fn range(&self, a: i64, b: i64) -> i64 { a + self.below((b - a + 1) as usize) as i64 }
    /// weighted choice
    pub fn wt<'a>(&self, v: &[(usize, &'a str)]) -> &'a str {
        let t: usize = v.iter().map(|x| x.0).sum();
        let mut x = self.below(t);
        for (w, n) in v {
            if x < *w {
                return n;
            }
            x -= w;
        }
        v[0].1
    }
}

pub struct Gen {
    pub r: Rng,
    pub prof: String,
    /// kinds of authorities an "auth" history is mostly about
    pub only: Vec<&'static str>,
    pub plan: VecDeque<Value>,
    pub hist: Vec<Value>,
    pub base: u64,
    pub multi: bool,
    /// how many role and sub-account numbers were given out before the history starts
    pub b1: i64,
    pub b2: i64,
    /// step at which a crowd of roles is added
    pub crowd: i64,
    pub n: i64,
}

const ED: [&str; 7] = ["e1", "e2", "e3", "e4", "e5", "e6", "e7"];
/// the last one stands for the greatest number there is
const WINS: [i64; 10] = [1, 2, 5, 10, 50, 60, 100, 1000, 720720, 2_000_000_000];

fn set(mut m: Map<String, Value>, kv: &[(&str, Value)]) -> Value {
    for (k, v) in kv {
        m.insert((*k).into(), v.clone());
    }
    Value::Object(m)
}
pub fn roles<'a>(st: &'a Value, w: &str) -> Vec<&'a Value> { ga(&st["sw"][w], "ro") }
pub fn role<'a>(st: &'a Value, w: &str, id: i64) -> Option<&'a Value> {
    roles(st, w).into_iter().find(|r| gi(r, "id") == id)
}
fn has(r: &Value, ps: &[i64]) -> bool { ga(r, "ac").iter().any(|a| ps.contains(&gi(a, "p"))) }

impl Gen {
    pub fn new(prof: &str, seed: u64) -> Gen {
        let only = match prof {
            "authk" => vec!["k1", "k1s"],
            "authr" => vec!["r1", "r1s"],
            "authp" => vec!["pe", "pe", "pes"],
            "auths" => vec!["eds", "k1s", "r1s", "pes"],
            _ => vec![],
        };
        let prof = if only.is_empty() { prof } else { "auth" };
        Gen { r: Rng::new(seed), only, prof: prof.into(), plan: VecDeque::new(), hist: vec![], base: 0, multi: false, b1: 0, b2: 0, crowd: -1, n: 0 }
    }

    /* ------------------------------ scene ------------------------------ */
    pub fn init(&mut self) -> Value {
        let s = self.r.p(&["2", "6960", "6960", "1048576", "8589934592"]);
        let t = self.r.p(&["1", "1000000", "4294967296"]);
        self.base = *self.r.pick(&[0u64, 720_720_000, 720_720_000, 360_360_000_000]);
        let prof = self.prof.clone();
        self.multi = matches!(prof.as_str(), "multi" | "nest") || (matches!(prof.as_str(), "classify" | "sub2" | "life") && self.r.ch(if prof == "life" { 75 } else { 40 }));
        if prof != "nest" && self.r.ch(if matches!(prof.as_str(), "sub1" | "roles" | "auth") { 22 } else { 8 }) {
            self.b1 = self.r.pi(&[250, 252, 253, 254, 255, 255, 256, 65532, 65534, 65535]);
        }
        if matches!(prof.as_str(), "sub2" | "lamports" | "multi" | "roles" | "life") && self.r.ch(if prof == "sub2" { 25 } else { 8 }) {
            self.b2 = self.r.pi(&[254, 255, 255, 256, 65534, 65535]);
        }
        let (b1, b2) = (self.b1, self.b2);
        if prof == "roles" && self.r.ch(5) {
            self.crowd = 24;
        }
        let mut plain = vec![
            json!({"n":"pay","l":200000}),
            json!({"n":"pay2","l":3000}),
            json!({"n":"d1","l":200}),
            json!({"n":"d2","l":500}),
            json!({"n":"d3","l":0}),
            json!({"n":"e6","l":1000}),
            json!({"n":"x","l":129}),
            json!({"n":"~wa:A","l":400}),
        ];
        let mut tok: Vec<Value> = vec![];
        let mut stk: Vec<Value> = vec![];
        let mut scp: Vec<Value> = vec![];
        let mut subs1: Vec<String> = vec![];
        let mut subs2: Vec<i64> = vec![];
        let tk = |n: &str, p: &str, m: &str, au: &str, a: i64, len: i64| json!({"n":n,"p":p,"m":m,"au":au,"a":a,"len":len});
        let l22 = self.r.pi(&[165, 170, 200, 300]);
        match prof.as_str() {
            "token" | "damage" | "batch" | "programs" | "multi" | "nest" | "classify" | "dest" | "life" => {
                tok.push(tk("t1", "tok", "m1", "wa:A", 60, 165));
                tok.push(tk("t2", "tok", "m1", "wa:A", 20, 165));
                tok.push(tk("t3", "tok", "m2", "wa:A", 60, 165));
                tok.push(tk("t4", "t22", "m3", "wa:A", 40, l22));
                tok.push(tk("t5", "tok", "m1", "wa:A", 0, 165));
                tok.push(tk("t7", "t22", "m1", "wa:A", 30, l22));
                tok.push(tk("u1", "tok", "m1", "d1", 5, 165));
                tok.push(tk("u2", "tok", "m1", "d2", 5, 165));
                tok.push(tk("u3", "tok", "m2", "d1", 0, 165));
                tok.push(tk("u4", "t22", "m3", "d1", 0, l22));
                tok.push(tk("u6", "t22", "m1", "d1", 0, 165));
                if matches!(prof.as_str(), "damage" | "classify" | "life" | "nest") {
                    tok.push(tk("t6", "tok", "m1", "sw:A", if prof == "life" { 0 } else { 30 }, 165));
                }
                if self.r.ch(40) {
                    tok.push(tk("w1", "tok", "m1", "~wa:A", 30, 165));
                }
                if self.multi {
                    tok.push(tk("v1", "tok", "m1", "wa:B", 30, 165));
                    tok.push(tk("v2", "t22", "m1", "wa:B", 30, 165));
                }
            },
            "sub1" => {
                tok.push(tk("t1", "tok", "m1", "wa:A", 60, 165));
                for i in 1..=3 {
                    tok.push(tk(&format!("s{i}t"), "tok", "m1", &format!("s1:A:{}", b1 + i), 30, 165));
                }
                tok.push(tk("w1", "tok", "m1", "~wa:A", 5, 165));
                tok.push(tk("u1", "tok", "m1", "d1", 5, 165));
            },
            "sub2" => {
                tok.push(tk("t1", "tok", "m1", "wa:A", 60, 165));
                tok.push(tk("t3", "tok", "m2", "wa:A", 60, 165));
                for i in 0..=2 {
                    tok.push(tk(&format!("a{i}t"), if i == 2 { "t22" } else { "tok" }, "m1", &format!("as:A:{}", b2 + i), 30, 165));
                }
                tok.push(tk("t7", "t22", "m1", "wa:A", 0, 165));
                tok.push(tk("u1", "tok", "m1", "d1", 5, 165));
                tok.push(tk("v1", "tok", "m1", "wa:B", 5, 165));
                tok.push(tk("w1", "tok", "m1", "~wa:A", 5, 165));
            },
            "lamports" => {
                tok.push(tk("t1", "tok", "m1", "wa:A", 60, 165));
                tok.push(tk("t5", "tok", "m1", "wa:A", 0, 165));
                tok.push(tk("u1", "tok", "m1", "d1", 5, 165));
                tok.push(tk("t6", "tok", "m1", "sw:A", 9, 165));
                tok.push(tk("s1t", "tok", "m1", &format!("s1:A:{}", b1 + 1), 9, 165));
            },
            "auth" => {
                tok.push(tk("t1", "tok", "m1", "wa:A", 60, 165));
                tok.push(tk("u1", "tok", "m1", "d1", 5, 165));
            },
            _ => {},
        }
        let sk = |n: &str, wd: &str, d: i64, x: i64| json!({"n":n,"wd":wd,"d":d,"x":x});
        if matches!(prof.as_str(), "stake" | "damage" | "classify" | "multi") {
            stk.push(sk("z1", "wa:A", 50, 20));
            stk.push(sk("z2", "wa:A", 10, 60));
            if self.r.ch(30) {
                stk.push(sk("z7", "~wa:A", 50, 20));
            }
            if prof == "stake" {
                stk.push(sk("z3", "wa:A", 0, 40));
                stk.push(sk("z5", "sw:A", 30, 30));
            }
            stk.push(sk("z4", "d1", 50, 20));
            if self.multi {
                stk.push(sk("z6", "wa:B", 50, 20));
            }
        }
        let cf = |n: &str, o: &str, len: i64, st: i64, en: i64, sc: &str, v: i64| json!({"n":n,"o":o,"len":len,"st":st,"en":en,"sc":sc,"v":v});
        if matches!(prof.as_str(), "scope" | "programs" | "classify" | "damage" | "multi") {
            scp.push(cf("c1", "pA", 40, 8, 16, "1000000", 60));
            if prof == "scope" || prof == "classify" {
                scp.push(cf("c2", "pA", 64, 0, 16, "18446744073709551616", 60));
                scp.push(cf("c3", "pB", 24, 20, 24, "1000000", 60));
                scp.push(cf("c4", "pB", 10, 9, 10, "1", 60));
            }
        }
        if prof == "sub1" || prof == "lamports" || prof == "nest" || (prof == "multi" && self.r.ch(30)) {
            for i in 1..=(if prof == "nest" { 3 } else { 4 }) {
                subs1.push(format!("s1:A:{}", b1 + i));
            }
            if prof == "sub1" {
                subs1.push("s1:A:0".into());
            }
            if self.multi {
                subs1.push(format!("s1:B:{}", b1 + 1));
            }
        }
        if matches!(prof.as_str(), "sub2" | "lamports" | "multi" | "nest" | "roles" | "life") {
            subs2 = vec![b2, b2 + 1, b2 + 2];
        }
        let wallets = if self.multi || prof == "sub2" { json!(["A", "B"]) } else { json!(["A"]) };
        // sometimes somebody sent lamports to the addresses before anything exists
        if self.r.ch(if prof == "life" { 40 } else { 12 }) {
            let n = self.r.p(&["wa:A", "wa:A", if prof == "life" { "sw:A" } else { "wa:A" }]);
            let l = self.r.pi(&[128, 127, 129, 400, 1, 100]);
            self.plan.push_back(json!({"i":"fund","n":n,"a":l}));
        }
        for n in subs1.clone() {
            if self.r.ch(25) {
                let l = self.r.pi(&[128, 60, 127, 129, 300]);
                self.plan.push_back(json!({"i":"fund","n":n,"a":l}));
            }
        }
        for i in subs2.clone() {
            for k in ["st", "as"] {
                if prof != "roles" && self.r.ch(15) {
                    let l = self.r.pi(&[128, 60, 200, 199, 201, 300]);
                    self.plan.push_back(json!({"i":"fund","n":format!("{k}:A:{i}"),"a":l}));
                }
            }
        }
        self.setup();
        json!({"i":"init","seed":self.r.below(1_000_000),"s":s,"t":t,"base":self.base.to_string(),"plain":plain,
            "wallets":wallets,"tok":tok,"stk":stk,"scp":scp,"subs1":subs1,"subs2":subs2})
    }

    fn z0(&self) -> i64 { if self.base > 1_000_000_000 { NEG } else { -(self.base as i64) } }

    /* ------------------------------ authorities ------------------------------ */
    fn new_auth(&mut self, kinds: &[&str]) -> Value {
        let t = self.r.p(kinds);
        let k = match t.as_str() {
            // addresses a wallet signs for can be authorities, too
            "ed" | "eds" if self.prof == "nest" => {
                self.r.p(&["e1", "e2", "e3", "wa:A", "wa:A", "wa:A", "wa:B", "wa:B", "s1:A:1", "as:A:0"])
            },
            // an address of another program, which signs only for what it passes on
            "ed" if matches!(self.prof.as_str(), "roles" | "life" | "auth" | "sub1" | "sub2") && self.r.ch(6) => self.r.p(&["rv:1", "rv:2"]),
            "ed" | "eds" => self.r.p(&ED),
            "k1" | "k1s" => self.r.p(&["s1", "s2", "s3"]),
            "r1" | "r1s" => self.r.p(&["q1", "q2", "q3"]),
            _ => {
                let p = self.r.p(&["pA", "pB"]);
                let f = self.r.p(if self.only.is_empty() { &["f4", "f4", "f1", "f8", "f40", "f0", "fr"] } else { &["f4", "f1", "f8", "f40", "f40", "f40", "f0", "fr"] });
                format!("{p}:{f}")
            },
        };
        let sess = matches!(t.as_str(), "eds" | "k1s" | "r1s" | "pes");
        let mx = if sess { self.r.pi(&[1, 10, 100, 1000, 1000, 0]) } else { 0 };
        json!({"t":t,"k":k,"mx":mx,"sk":"0","fx":""})
    }
    fn any_kinds(&mut self) -> Vec<&'static str> {
        if !self.only.is_empty() && self.r.ch(80) {
            return self.only.clone();
        }
        match self.r.below(3) {
            0 => vec!["ed"],
            1 => vec!["ed", "eds", "k1", "k1s", "r1", "r1s", "pe", "pes"],
            _ => vec!["ed", "k1", "r1", "pe"],
        }
    }

    /* ------------------------------ permissions ------------------------------ */
    pub fn lim(&mut self) -> i64 {
        // as good as no limit: about half and all of what the stored number can hold
        if self.r.ch(4) { self.r.pi(&[1_073_741_823, 1_073_741_824, 2_147_483_000]) } else { self.r.pi(&[1, 2, 3, 5, 7, 10, 20, 40, 60, 60, 400]) }
    }
    fn win(&mut self) -> i64 { *self.r.pick(&WINS) }
    pub fn perm(&mut self, p: i64) -> Value {
        let z0 = self.z0();
        let a = self.lim();
        let w = self.win();
        let m = self.r.p(&["m1", "m1", "m2", "m3"]);
        let d = self.r.p(&["d1", "d1", "d2", "e6"]);
        let td = self.r.p(&["u1", "u1", "u2", "u3", "u4", "u6"]);
        let b = act(p);
        match p {
            1 | 10 => set(b, &[("a", json!(a))]),
            2 | 11 => set(b, &[("l", json!(a)), ("a", json!(a)), ("w", json!(w)), ("r", json!(z0))]),
            3 => {
                let k = self.r.p(&["pA", "pB", "sys", "tok", "t22", "stk", "~stk"]);
                set(b, &[("k", json!(k))])
            },
            4 => self.scope(),
            5 => set(b, &[("k", json!(m)), ("a", json!(a))]),
            6 => set(b, &[("k", json!(m)), ("l", json!(a)), ("a", json!(a)), ("w", json!(w)), ("r", json!(z0))]),
            16 => set(b, &[("k", json!(d)), ("a", json!(a))]),
            17 => {
                let cur = if self.r.ch(80) { a } else { self.r.range(0, a) };
                set(b, &[("k", json!(d)), ("l", json!(a)), ("a", json!(cur)), ("w", json!(w)), ("r", json!(z0))])
            },
            18 => set(b, &[("k", json!(m)), ("k2", json!(td)), ("a", json!(a))]),
            19 => {
                let cur = if self.r.ch(80) { a } else { self.r.range(0, a) };
                set(b, &[("k", json!(m)), ("k2", json!(td)), ("l", json!(a)), ("a", json!(cur)), ("w", json!(w)), ("r", json!(z0))])
            },
            21 => {
                let i = self.b1 * i64::from(self.r.ch(70)) + self.r.range(0, 4) + 256 * i64::from(self.r.ch(4));
                set(b, &[("id", json!(i))])
            },
            23..=26 => {
                let i = self.b2 + self.r.range(0, 2);
                let i = if self.r.ch(7) { self.r.pi(&[i & 255, i & 65535, i + 256, i + 65536, i | (1 << 24)]) } else { i };
                set(b, &[("id", json!(i))])
            },
            _ => Value::Object(b),
        }
    }
    fn scope(&mut self) -> Value {
        let z0 = self.z0();
        let c = self.r.p(if self.prof == "scope" || self.prof == "classify" { &["c1", "c1", "c2", "c3", "c4"] } else { &["c1"] });
        let (nt, st, en, pr) = match c.as_str() {
            "c1" => (2, 8, 16, "pA"),
            "c2" => (3, 0, 16, "pA"),
            "c3" => (1, 20, 24, "pB"),
            _ => (0, 9, 10, "pB"),
        };
        let ty = self.r.pi(&[1, 1, 2, 2, 0, if self.r.ch(10) { 3 } else { 1 }]);
        let (mut nt, mut st, mut en) = (nt, st, en);
        if self.r.ch(8) {
            match self.r.below(5) {
                0 => nt = (nt + 1) % 5,
                1 => en = st,
                2 => {
                    st += 1000;
                    en += 1000;
                },
                3 => nt = 9,
                _ => st = en + 1,
            }
        }
        let l = self.lim();
        let a = if self.r.ch(90) { 0 } else { self.r.range(0, l.min(400)) };
        let w = if ty == 2 { self.win() } else { 0 };
        set(
            act(4),
            &[
                ("k", json!(c)),
                ("k2", json!(pr)),
                ("a", json!(a)),
                ("l", json!(l)),
                ("w", json!(w)),
                ("r", json!(z0)),
                ("id", json!(ty)),
                ("s", json!([nt, st, en])),
            ],
        )
    }
    fn any_perm(&mut self) -> Value {
        let p = self.r.pi(&[
            1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 1, 5, 3, 17, 19, 4,
        ]);
        self.perm(p)
    }
    fn any_perms(&mut self, max: usize) -> Vec<Value> {
        if self.prof == "roles" && self.r.ch(1) && self.r.ch(60) {
            // as many as can be counted, or one more
            let n = self.r.pi(&[254, 255, 255, 256, 256, 257]) as usize;
            let p = self.r.pi(&[7, 8, 13, 20]);
            let mut v: Vec<Value> = (0..n).map(|_| self.perm(p)).collect();
            if self.r.ch(50) {
                v[n - 1] = self.perm(8);
            }
            return v;
        }
        let n = 1 + self.r.below(max);
        (0..n).map(|_| self.any_perm()).collect()
    }
    /// malformed variation of a permission (fields), still encoded consistently
    fn twist(&mut self, a: &mut Value) {
        let p = gi(a, "p");
        let z0 = self.z0();
        match (p, self.r.below(4)) {
            (2 | 6 | 11, 0) => a["a"] = json!(gi(a, "a") + 1),
            (2 | 6 | 11, 1) => a["a"] = json!((gi(a, "a") - 1).max(0)),
            (2 | 6 | 11, 2) => a["r"] = json!(if self.base == 0 { 5 } else { 0 }),
            (2 | 6 | 11 | 17 | 19, 3) => a["w"] = json!(0),
            (17 | 19, 0) => a["a"] = json!(gi(a, "l") + 1),
            (17 | 19, 1) => a["w"] = json!(0),
            (17 | 19, 2) => a["r"] = json!(if self.base == 0 { 7 } else { 3 }),
            (4, 0) => a["a"] = json!(gi(a, "l")),
            (9, 0 | 1) => a["k"] = json!("d1"),
            (23..=26, _) => a["id"] = json!(self.r.pi(&[0, 1, 7, 1000])),
            _ => {},
        }
        let _ = z0;
    }

    fn mu(&mut self, n: usize) -> Value {
        let m = self.r.p(&[
            "type", "type0", "long", "short", "lenhdr", "lenhdr1", "lenbig", "empty", "cut", "cut8", "tail4", "tail1",
            "tail8z", "bd0", "bd0", "bdx", "bdx", "hide",
        ]);
        let j = self.r.below(n.max(1));
        let d = self.r.pi(&[0, 0, 1, 100, 229]);
        json!({"m":m,"j":j,"d":d})
    }

    /* ------------------------------ proofs ------------------------------ */
    /// an honest proof for a role, if there is one
    pub fn good(&mut self, st: &Value, w: &str, id: i64, op: &str) -> Value {
        let now = gi(st, "slot");
        let Some(r) = role(st, w, id) else {
            return json!({"m":"ed","by":"e1","v":"ok","c":0,"sl":0});
        };
        let au = &r["au"];
        let (t, k) = (gs(au, "t"), gs(au, "k"));
        let sess = matches!(t, "eds" | "k1s" | "r1s" | "pes");
        if sess && op != "sess" {
            let v = if matches!(t, "k1s" | "r1s") && self.r.ch(20) { "len2" } else { "ok" };
            let by = if gs(au, "sk") == "0" { "e1" } else { gs(au, "sk") };
            return json!({"m":"ed","by":by,"v":v,"c":0,"sl":0});
        }
        let c = gi(au, "odo") + 1;
        let sl = now - self.r.pi(&[0, 0, 0, 1, 30, 59, 60]);
        let sl = sl.max(self.z0());
        match t {
            "ed" | "eds" => json!({"m":"ed","by":k,"v":"ok","c":0,"sl":0}),
            "k1" | "k1s" => {
                let v = self.r.p(&["ok", "ok", "ok", "ok", "pre"]);
                json!({"m":"k1","by":k,"v":v,"c":c,"sl":sl})
            },
            "r1" | "r1s" => {
                let v = self.r.p(&["ok", "ok", "ok", "wa", "waj", "wanoorg", "wacross", "walong", "waext", "walongj", "far"]);
                json!({"m":"r1","by":k,"v":v,"c":c,"sl":sl})
            },
            "pe" | "pes" => {
                let v = self.r.p(&["ok", "ok", "ok", "ok2", "exact", "more", "more2", "exact2"]);
                json!({"m":"pe","by":k,"v":v,"c":0,"sl":0})
            },
            _ => json!({"m":"ed","by":"e1","v":"ok","c":0,"sl":0}),
        }
    }
    pub fn bad(&mut self, st: &Value, w: &str, pf: &mut Value) {
        let m = gs(pf, "m").to_string();
        let now = gi(st, "slot");
        let c = gi(pf, "c");
        // another key, another role's key, or a damaged proof
        let pickkey = self.r.below(10);
        match m.as_str() {
            "ed" => {
                if pickkey < 4 {
                    let mut ks: Vec<String> = ED.iter().map(|x| x.to_string()).collect();
                    ks.push("pay".into());
                    for r in roles(st, w) {
                        let k = gs(&r["au"], "k");
                        if k.starts_with('e') {
                            ks.push(k.into());
                            ks.push(k.into());
                        }
                        let k = gs(&r["au"], "sk");
                        if k.starts_with('e') {
                            ks.push(k.into());
                            ks.push(k.into());
                        }
                    }
                    pf["by"] = json!(self.r.pick(&ks).clone());
                } else {
                    pf["v"] = json!(self.r.p(&["nosig", "nosig", "oob", "oob2", "len0", "len2", "swap", "next"]));
                }
            },
            "k1" | "r1" => match pickkey {
                0 => pf["by"] = json!(if m == "k1" { self.r.p(&["s1", "s2", "s3"]) } else { self.r.p(&["q1", "q2", "q3"]) }),
                1 | 2 => pf["c"] = json!(c + self.r.pi(&[-1, 1, 2, -2, 5, 256, -256, 65536, 1 << 24])),
                3 | 4 => {
                    let d = self.r.pi(&[1, 1, 2, -61, -61, -62, -1000]);
                    pf["sl"] = json!((now + d).max(self.z0() + 1))
                },
                _ => {
                    pf["v"] = json!(if m == "k1" {
                        self.r.p(&[
                            "data", "data0", "datam", "datalen", "acc", "acc", "accflag", "accsig", "accdrop", "acc0", "slot", "ctr", "prebad",
                            "prenone", "high", "rec", "zero", "short", "tiny", "xrole",
                        ])
                    } else {
                        self.r.p(&[
                            "data", "data0", "datam", "datalen", "acc", "acc", "accflag", "accsig", "accdrop", "acc0", "slot", "ctr", "nopre", "wrongpre", "gap", "after",
                            "msg", "msgcut", "two", "offs", "idx", "pkoff", "sigoff", "sysv", "sysoob", "short", "tiny", "prog",
                            "kind3", "kind1b", "waord", "waord2", "wafield", "waorig", "walen", "waauth", "watree", "wacut",
                            "wachal", "wachals", "watype", "wanotype", "wanest", "wanum", "wajlen", "waesc", "wajauth", "waorigj",
                            "wajbig", "wachal", "watype", "waauth", "waorig", "pkoff", "sigoff", "xrole",
                        ])
                    })
                },
            },
            _ => {
                if pickkey < 1 {
                    pf["by"] = json!(self.r.p(&["pA:f4", "pB:f4", "pA:f0", "pB:f8", "pA:f1"]));
                } else {
                    pf["v"] = json!(self.r.p(&[
                        "pref", "preflast", "shortpref", "prog", "acc0", "acc1", "swap", "accs", "one", "none", "after", "fut",
                        "self2", "cur0", "far", "sys", "sysoob", "len3", "len0", "acc02", "acc12", "swap2", "accs2", "one2", "none2",
                        "prog2", "pref2", "preflast2", "shortpref2",
                    ]))
                }
            },
        }
    }
    fn prove(&mut self, st: &Value, op: &mut Value, badpct: usize) {
        let w = gs(op, "w").to_string();
        let i = gs(op, "i").to_string();
        let id = gi(op, "r");
        let mut pf = self.good(st, &w, id, &i);
        if self.r.ch(badpct) {
            let mut tries = 0;
            let orig = pf.clone();
            // a proof of another role of the wallet
            if self.r.ch(20) && !roles(st, &w).is_empty() {
                let rs = roles(st, &w);
                let o = gi(rs[self.r.below(rs.len())], "id");
                pf = self.good(st, &w, o, &i);
            } else if i != "sess" && self.r.ch(25) && role(st, &w, id).is_some_and(|r| gs(&r["au"], "t").len() == 3) {
                // the authority that opens sessions, in place of the session key
                pf = self.good(st, &w, id, "sess");
            } else {
                while pf == orig && tries < 5 {
                    self.bad(st, &w, &mut pf);
                    tries += 1;
                }
            }
        }
        // the same signer cannot sit in the fixed slot of another account
        if matches!(i.as_str(), "closetok") && gs(&pf, "m") == "ed" && !matches!(gs(&pf, "v"), "ok" | "nosig") {
            pf["v"] = json!("nosig");
        }
        if matches!(i.as_str(), "wd1" | "wd2") && gs(&pf, "m") == "ed" && gs(&pf, "v") == "next" {
            pf["v"] = json!("swap");
        }
        if i == "repl" && gs(&pf, "m") == "pe" {
            if let Some(t) = role(st, &w, gi(op, "tgt")) {
                op["cur"] = json!({"t":gs(&t["au"],"t"),"k":gs(&t["au"],"k")});
            }
            let good = self.r.ch(60);
            pf["sp"] = json!(if good { "".into() } else { self.r.p(&["tgt", "act", "cur", "ty", "new", "any", "long"]) });
            if gs(&pf, "v").starts_with("exact") {
                pf["v"] = json!("ok");
            }
        }
        op["pf"] = pf;
    }

    /* ------------------------------ operations ------------------------------ */
    fn pay(&mut self) -> String { if self.r.ch(92) { "pay".into() } else { self.r.p(&["pay2", "e6", "d1"]) } }
    pub fn create(&mut self, w: &str, au: Value, acts: Vec<Value>) -> Value {
        json!({"i":"create","w":w,"pay":self.pay(),"au":au,"acts":acts,"mu":{"m":""},"fl":""})
    }
    pub fn add(&mut self, st: &Value, w: &str, r: i64, au: Value, acts: Vec<Value>) -> Value {
        let mut o = json!({"i":"add","w":w,"r":r,"pay":self.pay(),"au":au,"acts":acts,"mu":{"m":""},"fl":""});
        self.prove(st, &mut o, 0);
        o
    }
    /// queue: root adds a role with its proof computed when it is due
    fn q_add(&mut self, w: &str, au: Value, acts: Vec<Value>) {
        let p = self.pay();
        self.plan.push_back(json!({"i":"add","w":w,"r":0,"pay":p,"au":au,"acts":acts,"mu":{"m":""},"fl":"","pf":"?"}));
    }
    fn ed(&self, k: &str) -> Value { json!({"t":"ed","k":k,"mx":0,"sk":"0","fx":""}) }

    fn spend_prog(&mut self) -> Value {
        let p = *self.r.pick(&[13i64, 13, 13, 14]);
        self.perm(p)
    }

    /// many roles at once: more than 255 of them, or more than 65535 bytes
    fn bulk(&mut self, st: &Value) -> Option<Value> {
        let by: Vec<i64> = roles(st, "A")
            .iter()
            .filter(|r| has(r, &[7, 8]) && gs(&r["au"], "t") == "ed")
            .map(|r| gi(r, "id"))
            .collect();
        if by.is_empty() {
            return None;
        }
        let have = roles(st, "A").len() as i64;
        let rid = *self.r.pick(&by);
        // the program walks the roles once per number ever given out, which takes too long for many of both
        let (n, acts) = if gi(&st["sw"]["A"], "ctr") < 3000 && self.r.ch(60) {
            (self.r.range(254, 258) - have, vec![self.perm(13)])
        } else {
            let a = self.perm(19);
            (self.r.range(9, 11), (0..70).map(|_| a.clone()).collect())
        };
        // one of them, or one before them, goes
        if self.r.ch(80) {
            let last = gi(&st["sw"]["A"], "ctr");
            let low: Vec<i64> = roles(st, "A").iter().map(|r| gi(r, "id")).filter(|i| *i != 0 && *i != rid).collect();
            let tgt = if !low.is_empty() && self.r.ch(50) { *self.r.pick(&low) } else { last + self.r.range(0, 2.min(n - 1)) };
            self.plan.push_back(json!({"i":"rem","w":"A","r":rid,"tgt":tgt,"pay":"pay","fl":"","pf":"?"}));
        }
        let key = self.r.p(&ED);
        let au = self.ed(&key);
        let mut o = json!({"i":"add","w":"A","r":rid,"pay":"pay","au":au,"acts":acts,"mu":{"m":""},"fl":""});
        self.prove(st, &mut o, 0);
        Some(json!({"i":"bulk","w":"A","n":n,"op":o}))
    }
    /// numbers already given out: later ones take more than one byte
    fn numbers(&mut self, w: &str) {
        if self.b1 > 0 {
            self.plan.push_back(json!({"i":"ctr","w":w,"a":self.b1 + 1}));
        }
        if self.b2 > 0 {
            self.plan.push_back(json!({"i":"subn","w":w,"a":self.b2}));
        }
    }
    fn setup(&mut self) {
        let prof = self.prof.clone();
        let ws: Vec<&str> = if self.multi { vec!["A", "B"] } else { vec!["A"] };
        match prof.as_str() {
            "life" => return,
            "roles" => {
                let k = self.any_kinds();
                let au = self.new_auth(&k);
                let mut acts = vec![self.perm(*self.r.pick(&[7i64, 7, 8]))];
                acts.extend(self.any_perms(3).into_iter().filter(|_| true));
                let nm = acts.len();
                let a2: Vec<Value> = acts.into_iter().take(1 + self.r.below(nm)).collect();
                let mut c = self.create("A", au, a2);
                c["pay"] = json!("pay");
                self.plan.push_back(c);
                self.numbers("A");
                return;
            },
            "auth" => {
                let mut k = self.r.p(&["ed", "ed", "k1", "r1", "pe"]);
                if !self.only.is_empty() && self.r.ch(60) {
                    k = self.r.p(&self.only.clone());
                }
                let mut au = self.new_auth(&[&k]);
                if gi(&au, "mx") == 0 && k.len() == 3 {
                    au["mx"] = json!(100);
                }
                let acts = vec![self.perm(7)];
                let mut c = self.create("A", au, acts);
                c["pay"] = json!("pay");
                self.plan.push_back(c);
                self.numbers("A");
                self.plan.push_back(json!({"i":"fund","n":"wa:A","a":400}));
                let mut ts = vec!["ed", "eds", "k1", "k1s", "r1", "r1s", "pe", "pes"];
                if !self.only.is_empty() {
                    ts = [self.only.clone(), self.only.clone(), vec!["ed"]].concat();
                }
                for t in ts {
                    if self.r.ch(if self.only.is_empty() { 55 } else { 70 }) {
                        let mut au = self.new_auth(&[t]);
                        if gi(&au, "mx") == 0 && self.r.ch(80) && t.len() == 3 {
                            au["mx"] = json!(100);
                        }
                        let acts = match self.r.below(4) {
                            0 => vec![self.perm(1), self.perm(13)],
                            1 => vec![self.perm(8)],
                            2 => vec![self.perm(15)],
                            _ => vec![self.perm(7)],
                        };
                        self.q_add("A", au, acts);
                    }
                }
                return;
            },
            _ => {},
        }
        for w in ws {
            let k = if self.multi || self.r.ch(80) { vec!["ed"] } else { vec!["k1", "r1", "pe"] };
            let au = if self.multi && self.r.ch(70) { self.ed("e1") } else { self.new_auth(&k) };
            let mut acts = vec![self.perm(7)];
            if prof == "sub1" && self.r.ch(35) {
                acts.push(self.perm(9));
            }
            let mut c = self.create(w, au, acts);
            c["pay"] = json!("pay");
            self.plan.push_back(c);
            self.numbers(w);
            let f = self.r.pi(&[60, 100, 100, 160]);
            self.plan.push_back(json!({"i":"fund","n":format!("wa:{w}"),"a":f}));
            let nroles = match prof.as_str() {
                "nest" => 4 + self.r.below(2),
                "sub1" | "sub2" => 3,
                "lamports" => 3,
                _ => 2 + self.r.below(2),
            };
            // roles that are gone again, so that numbers and places differ
            let gone = if prof != "nest" && self.r.ch(if prof == "sub1" { 15 } else { 35 }) { self.r.range(1, 3) } else { 0 };
            let mut left = gone;
            let mut id = self.b1 + 1;
            let mut ids = vec![];
            for j in 0..nroles {
                while left > 0 && self.r.ch(if j == 0 { 70 } else { 40 }) {
                    let key = self.r.p(&ED);
                    let au = self.ed(&key);
                    let acts = if self.r.ch(50) { vec![self.perm(13)] } else { self.role_perms() };
                    self.q_add(w, au, acts);
                    ids.push(id);
                    id += 1;
                    left -= 1;
                }
                id += 1;
                let kinds: Vec<&str> = if prof == "nest" && self.r.ch(15) {
                    vec!["eds", "k1"]
                } else if self.r.ch(85) || self.multi { vec!["ed"] } else { vec!["k1", "r1", "pe", "ed"] };
                let au = self.new_auth(&kinds);
                let acts = self.role_perms();
                self.q_add(w, au, acts);
            }
            for tgt in ids {
                self.plan.push_back(json!({"i":"rem","w":w,"r":0,"tgt":tgt,"pay":"pay","fl":"","pf":"?"}));
            }
        }
        if self.r.ch(15) && prof != "multi" && prof != "roles" {
            let key = self.r.p(&["d1", "d2"]);
            self.plan.push_back(json!({"i":"claim","w":"A","r":0,"key":key,"pay":"pay","fl":"","pf":"?"}));
        }
    }

    /// permissions of a restricted role in this profile
    pub fn role_perms(&mut self) -> Vec<Value> {
        let mut v: Vec<Value> = vec![];
        let pl = |g: &mut Gen, v: &mut Vec<Value>, ps: &[i64]| {
            for p in ps {
                let x = g.perm(*p);
                v.push(x);
            }
        };
        match self.prof.clone().as_str() {
            "sol" => match self.r.below(13) {
                0 | 1 => pl(self, &mut v, &[1]),
                2 | 3 => pl(self, &mut v, &[2]),
                4 => pl(self, &mut v, &[1, 16]),
                5 => pl(self, &mut v, &[16]),
                6 => pl(self, &mut v, &[17]),
                7 => pl(self, &mut v, &[2, 17, 16]),
                8 => pl(self, &mut v, &[16, 16]),
                9 => pl(self, &mut v, &[1, 2]),
                10 => pl(self, &mut v, &[17, 17, 1]),
                11 => pl(self, &mut v, &[16, 17]),
                _ => {},
            },
            "token" | "dest" => match self.r.below(15) {
                0 | 1 => pl(self, &mut v, &[5]),
                2 | 3 => pl(self, &mut v, &[6]),
                4 => pl(self, &mut v, &[5, 5]),
                5 => pl(self, &mut v, &[5, 18]),
                6 => pl(self, &mut v, &[18]),
                7 => pl(self, &mut v, &[19]),
                8 => pl(self, &mut v, &[6, 19, 18]),
                9 => pl(self, &mut v, &[18, 18]),
                10 => pl(self, &mut v, &[5, 6]),
                11 => pl(self, &mut v, &[5, 20]),
                12 => pl(self, &mut v, &[18, 19]),
                13 => pl(self, &mut v, &[6, 6, 5]),
                _ => {},
            },
            "stake" => match self.r.below(7) {
                0 | 1 => pl(self, &mut v, &[10]),
                2 | 3 => pl(self, &mut v, &[11]),
                4 => pl(self, &mut v, &[12]),
                5 => pl(self, &mut v, &[10, 11]),
                _ => {},
            },
            "scope" => {
                let n = 1 + self.r.below(3);
                for _ in 0..n {
                    pl(self, &mut v, &[4]);
                }
            },
            "programs" => {
                match self.r.below(8) {
                    0 => pl(self, &mut v, &[3]),
                    1 => pl(self, &mut v, &[3, 3]),
                    2 => pl(self, &mut v, &[14]),
                    3 => pl(self, &mut v, &[14, 3]),
                    4 => pl(self, &mut v, &[13]),
                    5 => {},
                    6 => pl(self, &mut v, &[15]),
                    _ => pl(self, &mut v, &[3, 14, 13]),
                }
                if self.r.ch(60) {
                    pl(self, &mut v, &[1]);
                }
                if self.r.ch(60) {
                    pl(self, &mut v, &[5]);
                }
                if v.is_empty() {
                    pl(self, &mut v, &[1]);
                }
                return v;
            },
            "sub1" => match self.r.below(6) {
                0 => pl(self, &mut v, &[9, 1]),
                1 => pl(self, &mut v, &[9]),
                2 => pl(self, &mut v, &[9, 9]),
                3 => pl(self, &mut v, &[8]),
                4 => pl(self, &mut v, &[9, 8]),
                _ => pl(self, &mut v, &[15]),
            },
            "sub2" => match self.r.below(8) {
                0 => pl(self, &mut v, &[22]),
                1 => pl(self, &mut v, &[22, 24]),
                2 => pl(self, &mut v, &[23]),
                3 => pl(self, &mut v, &[24, 25]),
                4 => pl(self, &mut v, &[26, 25]),
                5 => pl(self, &mut v, &[22, 23, 25]),
                6 => pl(self, &mut v, &[25, 24, 26]),
                _ => pl(self, &mut v, &[7]),
            },
            "damage" => {
                pl(self, &mut v, &[13]);
                if self.r.ch(60) {
                    v.push(set(act(1), &[("a", json!(60))]));
                }
                if self.r.ch(60) {
                    v.push(set(act(5), &[("k", json!("m1")), ("a", json!(60))]));
                }
                if self.r.ch(45) {
                    pl(self, &mut v, &[20]);
                }
                if self.r.ch(40) {
                    pl(self, &mut v, &[12]);
                }
                return v;
            },
            "nest" => {
                match self.r.below(11) {
                    0 | 1 => pl(self, &mut v, &[7]),
                    2 => pl(self, &mut v, &[8]),
                    3 => pl(self, &mut v, &[15]),
                    4 | 5 => pl(self, &mut v, &[13]),
                    6 => pl(self, &mut v, &[9, 13]),
                    7 => pl(self, &mut v, &[22, 13]),
                    8 => pl(self, &mut v, &[8, 13]),
                    9 => pl(self, &mut v, &[20, 14]),
                    _ => v.push(set(act(3), &[("k", json!("swig"))])),
                }
                for p in [1, 5, 20] {
                    if self.r.ch(45) {
                        v.push(match p {
                            1 => set(act(1), &[("a", json!(60))]),
                            5 => set(act(5), &[("k", json!("m1")), ("a", json!(60))]),
                            _ => set(act(20), &[]),
                        });
                    }
                }
                for p in [22, 23, 24, 9] {
                    if self.r.ch(22) && !v.iter().any(|a| gi(a, "p") == p) {
                        pl(self, &mut v, &[p]);
                    }
                }
                return v;
            },
            "classify" | "multi" | "batch" => {
                pl(self, &mut v, &[13]);
                let ps = *self.r.pick(&[1i64, 2, 5, 6, 12, 10, 15, 7, 5, 5]);
                pl(self, &mut v, &[ps]);
                if self.r.ch(60) {
                    let ps = *self.r.pick(&[1i64, 5, 4, 10, 12]);
                    if ps != 4 || self.prof != "batch" {
                        pl(self, &mut v, &[ps]);
                    }
                }
                if self.prof == "multi" && self.r.ch(50) {
                    let ps = *self.r.pick(&[9i64, 22, 23, 8, 7]);
                    pl(self, &mut v, &[ps]);
                }
                return v;
            },
            "lamports" => match self.r.below(7) {
                0 => pl(self, &mut v, &[13, 1]),
                1 => pl(self, &mut v, &[9, 13]),
                2 => pl(self, &mut v, &[22, 1]),
                3 => pl(self, &mut v, &[8]),
                4 => pl(self, &mut v, &[7]),
                5 => pl(self, &mut v, &[20, 13, 1]),
                _ => pl(self, &mut v, &[15]),
            },
            _ => pl(self, &mut v, &[1]),
        }
        if matches!(self.prof.as_str(), "sol" | "token" | "dest" | "stake" | "scope") {
            // programs the role may call; position varies
            let p = self.spend_prog();
            if self.r.ch(50) {
                v.push(p)
            } else {
                v.insert(0, p)
            }
            if self.r.ch(25) {
                let e = self.perm(*self.r.pick(&[3i64, 20, 22, 8, 1]));
                v.push(e);
            }
        }
        v
    }

    fn some_role(&mut self, st: &Value, w: &str) -> i64 {
        let ids: Vec<i64> = roles(st, w).iter().map(|r| gi(r, "id")).collect();
        if ids.is_empty() || self.r.ch(3) {
            return self.b1 + self.r.range(0, 9);
        }
        if self.r.ch(1) {
            let i = *self.r.pick(&ids);
            return self.r.pi(&[i & 255, i & 65535, i + 256, i + 65536, i | (1 << 24)]);
        }
        *self.r.pick(&ids)
    }
    /// prefers non-root roles
    fn limited(&mut self, st: &Value, w: &str) -> i64 {
        let ids: Vec<i64> = roles(st, w).iter().map(|r| gi(r, "id")).filter(|i| *i != 0).collect();
        if ids.is_empty() || self.r.ch(6) {
            return self.some_role(st, w);
        }
        *self.r.pick(&ids)
    }
    fn manager(&mut self, st: &Value, w: &str) -> i64 {
        let ids: Vec<i64> =
            roles(st, w).iter().filter(|r| has(r, &[7, 8]) && self.usable(st, r)).map(|r| gi(r, "id")).collect();
        if ids.is_empty() || self.r.ch(15) {
            return self.some_role(st, w);
        }
        *self.r.pick(&ids)
    }
    fn usable(&self, st: &Value, r: &Value) -> bool {
        let t = gs(&r["au"], "t");
        !(t.len() > 2 && t.ends_with('s')) || (gs(&r["au"], "sk") != "0" && gi(&r["au"], "se") >= gi(st, "slot"))
    }

    /// numbers around which a spend by this role is interesting
    fn amount(&mut self, st: &Value, w: &str, rid: i64, hard: &[i64]) -> i64 {
        let mut v: Vec<i64> = hard.to_vec();
        if let Some(r) = role(st, w, rid) {
            for a in ga(r, "ac") {
                let p = gi(a, "p");
                if [1, 2, 4, 5, 6, 10, 11, 16, 17, 18, 19].contains(&p) {
                    for f in ["a", "l"] {
                        let x = gi(a, f);
                        v.extend([x, x, x + 1, x - 1]);
                        if p == 4 {
                            v.extend([gi(a, "l") - gi(a, "a"), gi(a, "l") - gi(a, "a") + 1]);
                        }
                    }
                }
            }
        }
        v.retain(|x| *x >= 0 && *x < 100000);
        if v.is_empty() || self.r.ch(25) {
            return self.r.range(0, 6);
        }
        *self.r.pick(&v)
    }

    fn ix(&mut self, st: &Value, w: &str, rid: i64, acting: &str) -> Value {
        let prof = self.prof.clone();
        let wa = acting.to_string();
        let bal = gi(&st["ac"][&wa], "l") - 128 - gi(&st["ac"][&wa], "n");
        let kinds: Vec<(usize, &str)> = match prof.as_str() {
            "sol" => vec![(70, "xfer"), (10, "xferin"), (5, "xferother"), (5, "mv"), (5, "nop"), (3, "xferself"), (2, "sig"), (5, "pull")],
            "token" | "dest" => vec![
                (48, "tok"), (6, "tokin"), (5, "burn"), (5, "tclose"), (4, "tokself"), (3, "tappr"), (3, "xfer"), (4, "nop"),
                (10, "toksplit"), (3, "tdele"), (5, "tpull"), (2, "pull"), (3, "tcfg"),
            ],
            "stake" => vec![(35, "stkw"), (25, "stksplit"), (15, "stkset"), (15, "stkmix"), (8, "stkauth"), (8, "stkcfg"), (5, "xfer"), (5, "stkin"), (3, "nop")],
            "scope" => vec![(60, "pupw"), (15, "pupo"), (10, "mv"), (5, "nop"), (10, "pupws")],
            "programs" => vec![(30, "sig"), (15, "sig2"), (10, "xfer"), (10, "tok"), (10, "nop"), (8, "pupws"), (7, "sigo"), (5, "pupw"), (3, "fail"), (4, "pull"), (4, "tpull")],
            "damage" => vec![
                (10, "tappr"), (10, "tsetown"), (8, "tsetclose"), (14, "tclose"), (12, "assign"), (6, "alloc"), (16, "xfer"), (8, "tok"),
                (5, "stkauth"), (5, "tokin"), (5, "stkset"), (6, "stkcfg"), (6, "tcfg"), (4, "pupo"), (4, "mv"), (6, "burn"), (3, "nop"), (5, "tdele"), (5, "pull"), (5, "tpull"),
            ],
            "batch" => vec![(30, "xfer"), (30, "tok"), (15, "sig"), (10, "nop"), (5, "fail"), (10, "mv"), (5, "xferlong"), (5, "sig2"), (6, "pull"), (6, "tpull")],
            "classify" => vec![(25, "tok"), (8, "tokin"), (20, "xfer"), (15, "pupw"), (8, "pupo"), (12, "stkw"), (5, "stkset"), (3, "stkcfg"), (3, "tcfg"), (5, "tappr"), (10, "nop")],
            "multi" => vec![(30, "xfer"), (30, "tok"), (10, "xferB"), (10, "tokB"), (8, "stkw"), (6, "pupw"), (4, "sig"), (4, "sigB"), (4, "pull"), (4, "tpull")],
            "nest" => vec![(62, "swig"), (18, "xfer"), (10, "tok"), (4, "sig"), (3, "fail"), (3, "pull")],
            "sub1" | "sub2" => vec![(45, "xfer"), (25, "tok"), (10, "nop"), (10, "sig"), (4, "fail"), (6, "sigo"), (5, "pull"), (4, "tpull")],
            "lamports" => vec![(50, "xfer"), (10, "xferin"), (15, "tok"), (10, "mv"), (5, "tclose"), (5, "nop")],
            _ => vec![(60, "xfer"), (15, "tok"), (10, "nop"), (10, "sig"), (5, "fail")],
        };
        let k = self.r.wt(&kinds);
        if k == "swig" {
            return self.inside(st, w, acting);
        }
        let mut a = self.amount(st, w, rid, &[1, 3, bal, bal + 1, bal - 1]);
        if self.r.ch(8) {
            // everything, or leaving less than the account's rent
            let l = gi(&st["ac"][&wa], "l");
            a = *self.r.pick(&[l, l, l - 1, l - 127]).max(&0);
        }
        let d = self.r.p(&["d1", "d1", "d1", "d2", "d2", "e6", "d3", "pay", "x"]);
        let j = |i: &str| json!({"i":i,"f":"","t":"","a":0,"p":"sys","m":"","au":wa,"k":"","mi":"m1"});
        let mut x;
        // token accounts of the acting authority
        let mine: Vec<String> = st["tk"]
            .as_object()
            .unwrap()
            .iter()
            .filter(|(_, v)| gs(v, "au") == wa)
            .map(|(n, _)| n.clone())
            .collect();
        let has_tok = !mine.is_empty();
        let tok_any = |g: &mut Gen, st: &Value| -> String {
            let v: Vec<String> = st["tk"].as_object().unwrap().keys().filter(|k| *k != "_").cloned().collect();
            if v.is_empty() { "x".into() } else { g.r.pick(&v).clone() }
        };
        let owner = |st: &Value, n: &str| -> String { gs(&st["ac"][n], "o").to_string() };
        let tok_dst = |g: &mut Gen, st: &Value, src: &str| -> String {
            let m = gs(&st["tk"][src], "m").to_string();
            let o = owner(st, src);
            let v: Vec<String> = st["tk"]
                .as_object()
                .unwrap()
                .iter()
                .filter(|(k, v)| *k != "_" && gs(v, "m") == m && gs(&st["ac"][*k], "o") == o && *k != src)
                .map(|(k, _)| k.clone())
                .collect();
            if v.is_empty() { "x".into() } else { g.r.pick(&v).clone() }
        };
        let k = if !has_tok && matches!(k, "tok" | "toksplit" | "burn" | "tclose" | "tokself" | "tappr" | "tsetown" | "tsetclose" | "tcfg" | "tpull") { "xfer" } else { k };
        match k {
            "xfer" | "xferlong" | "xferself" | "xferin" | "xferother" | "xferB" => {
                x = j("xfer");
                x["f"] = json!(wa);
                x["t"] = json!(d);
                x["a"] = json!(a);
                if k == "xferlong" || self.r.ch(4) {
                    x["k"] = json!(self.r.p(&["long", "ext"]));
                }
                if k == "xferself" {
                    x["t"] = json!(wa);
                }
                if k == "xferin" {
                    x["f"] = json!("e6");
                    x["t"] = json!(wa);
                    x["a"] = json!(self.r.range(1, 10));
                }
                if k == "xferother" {
                    x["f"] = json!("e6");
                }
                if k == "xferB" {
                    x["f"] = json!("wa:B");
                }
                if self.r.ch(6) {
                    x["t"] = json!(self.r.p(&["sw:A", "wa:A"]));
                }
            },
            "tok" | "toksplit" | "tokself" | "tokin" | "tdele" | "tokB" => {
                x = j("tok");
                let f = if has_tok { self.r.pick(&mine).clone() } else { "x".into() };
                let f = match k {
                    "tokin" if st["tk"].get("w1").is_some() && self.r.ch(50) => "w1".into(),
                    "tokin" => self.r.p(&["u1", "u2", "u3"]),
                    "tokB" => self.r.p(&["v1", "v2"]),
                    _ => f,
                };
                let t = if k == "tokself" { f.clone() } else { tok_dst(self, st, &f) };
                let t = if self.r.ch(4) { tok_any(self, st) } else { t };
                let b = gi(&st["tk"][&f], "a");
                let a = self.amount(st, w, rid, &[1, b, b + 1, b, 2]);
                x["p"] = json!(if self.r.ch(96) { owner(st, &f) } else { self.r.p(&["tok", "t22"]) });
                if gs(&x, "p") == "" {
                    x["p"] = json!("tok");
                }
                x["a"] = json!(if k == "toksplit" { (a + 1) / 2 } else { a.min(2000) });
                x["mi"] = json!(gs(&st["tk"][&f], "m"));
                if gs(&x, "mi").is_empty() || gs(&x, "mi") == "0" {
                    x["mi"] = json!("m1");
                }
                x["f"] = json!(f);
                x["t"] = json!(t);
                x["k"] = json!(self.r.p(&["t", "c"]));
                if k == "tokin" {
                    x["au"] = json!(if gs(&x, "f") == "w1" { "e6".to_string() } else { self.r.p(&["d1", "d2"]) });
                }
                if k == "tdele" {
                    x["au"] = json!("e6");
                }
                if k == "tokB" {
                    x["au"] = json!(self.r.p(&["wa:B", "wa:A"]));
                }
            },
            "pull" => {
                x = j("pup");
                x["k"] = json!("pull");
                x["p"] = json!("pA");
                x["f"] = json!(wa);
                x["t"] = json!(d);
                x["a"] = json!(a);
            },
            "tpull" => {
                x = j("pup");
                let f = self.r.pick(&mine).clone();
                let b = gi(&st["tk"][&f], "a");
                x["k"] = json!("tpull");
                x["p"] = json!("pA");
                x["m"] = json!(owner(st, &f));
                if !matches!(gs(&x, "m"), "tok" | "t22") {
                    x["m"] = json!("tok");
                }
                x["t"] = json!(tok_dst(self, st, &f));
                x["a"] = json!(self.amount(st, w, rid, &[1, b, b + 1, 2]).min(2000));
                x["f"] = json!(f);
            },
            "burn" | "tclose" | "tappr" | "tsetown" | "tsetclose" | "tcfg" => {
                x = j(k);
                let mut f = self.r.pick(&mine).clone();
                if k == "tclose" && self.r.ch(70) {
                    if let Some(z) = mine.iter().find(|n| gi(&st["tk"][*n], "a") == 0) {
                        f = z.clone();
                    }
                }
                let b = gi(&st["tk"][&f], "a");
                x["p"] = json!(owner(st, &f));
                x["mi"] = json!(gs(&st["tk"][&f], "m"));
                x["a"] = json!(self.amount(st, w, rid, &[1, b, b + 1]).min(2000));
                if k == "tcfg" {
                    let n = gi(&st["ac"][&f], "n");
                    x["a"] = json!(if self.r.ch(50) { self.r.range(109, 120) } else { self.r.range(165, n.max(165)) });
                    if n > 165 && self.r.ch(30) {
                        x["a"] = json!(n - 1);
                    }
                }
                x["f"] = json!(f);
                x["t"] = json!(match k {
                    "tclose" => self.r.p(&["wa:A", "d1", "d2", "e6"]),
                    _ => self.r.p(&["d1", "e6", "wa:A", "sw:A"]),
                });
            },
            "assign" | "alloc" => {
                x = j(k);
                x["f"] = json!(wa);
                x["p"] = json!(if k == "assign" { self.r.p(&["pA", "tok", "swig", "sys"]) } else { "sys".into() });
                x["a"] = json!(self.r.pi(&[0, 1, 10]));
            },
            "stkw" | "stksplit" | "stkset" | "stkcfg" | "stkauth" | "stkin" | "stkmix" => {
                x = j(if k == "stkin" { "xfer" } else { k });
                let zs: Vec<String> = st["sk"].as_object().unwrap().keys().filter(|k| *k != "_").cloned().collect();
                if zs.is_empty() {
                    x = j("pup");
                    x["p"] = json!("pA");
                    x["f"] = json!("d1");
                    x["k"] = json!("nop");
                    return x;
                }
                let m: Vec<String> = zs.iter().filter(|z| gs(&st["sk"][*z], "wd") == wa).cloned().collect();
                let f = if self.r.ch(88) && !m.is_empty() { self.r.pick(&m).clone() } else { self.r.pick(&zs).clone() };
                let dl = gi(&st["sk"][&f], "d");
                let lam = gi(&st["ac"][&f], "l");
                let mut hard = vec![1, 2];
                if k == "stkset" {
                    let q = self.amount(st, w, rid, &[1]);
                    hard.extend([dl, dl - q, dl + q, dl + 1, dl - 1, 0]);
                } else if k == "stksplit" {
                    hard.extend([dl, dl + 1]);
                } else {
                    hard.extend([lam - 328, lam - 327, lam]);
                }
                hard.retain(|x| *x >= 0);
                x["a"] = json!(if k == "stkset" { *self.r.pick(&hard) } else { self.amount(st, w, rid, &hard) });
                x["t"] = json!(match k {
                    "stksplit" => self.r.pick(&zs).clone(),
                    "stkauth" => self.r.p(&["d1", "e6", "wa:A"]),
                    _ => self.r.p(&["d1", "d2", "wa:A", "wa:A"]),
                });
                if k == "stkcfg" {
                    x["a"] = json!(match self.r.below(8) {
                        0 => self.r.range(4, 11),
                        1 => self.r.range(12, 43),
                        2 => self.r.range(76, 91),
                        3 => self.r.range(92, 123),
                        4 => self.r.range(124, 155),
                        5 => self.r.range(164, 199),
                        _ => self.r.pi(&[4, 43, 76, 123, 124, 155, 164, 199]),
                    });
                }
                if k == "stkmix" {
                    let q = self.amount(st, w, rid, &[1, 2, dl]).min(dl);
                    x["b"] = json!(*self.r.pick(&[q, (q - 1).max(0), 1.min(dl), dl, q]));
                }
                x["p"] = json!("stk");
                x["f"] = json!(f.clone());
                if k == "stkin" {
                    x["f"] = json!("e6");
                    x["t"] = json!(f);
                    x["p"] = json!("sys");
                    x["au"] = json!("e6");
                }
            },
            "pupw" | "pupws" | "pupo" | "mv" => {
                x = j("pup");
                let cs: Vec<String> = st["sc"].as_object().unwrap().keys().filter(|k| *k != "_").cloned().collect();
                x["p"] = json!("pA");
                if cs.is_empty() {
                    x["f"] = json!("d1");
                    x["k"] = json!("nop");
                    return x;
                }
                let f = self.r.pick(&cs).clone();
                let v = gi(&st["sc"][&f], "v");
                x["p"] = json!(gs(&st["ac"][&f], "o"));
                x["f"] = json!(f.clone());
                match k {
                    "pupo" => {
                        x["k"] = json!("o");
                        let n = gi(&st["ac"][&f], "n");
                        let mut o = self.r.pi(&[0, n - 1, 7, 8, 15, 16, 19, 20]);
                        if o >= n {
                            o = 0;
                        }
                        // only bytes outside the balance field
                        let (a, b) = match f.as_str() {
                            "c1" => (8, 16),
                            "c2" => (0, 16),
                            "c3" => (20, 24),
                            _ => (9, 10),
                        };
                        if o >= a && o < b {
                            o = if b < n { b } else { 0 };
                        }
                        x["a"] = json!(o);
                    },
                    "mv" => {
                        x["k"] = json!("mv");
                        x["t"] = json!(self.r.p(&["wa:A", "d1", "d2"]));
                        x["a"] = json!(self.r.range(1, 20));
                    },
                    _ => {
                        x["k"] = json!(if k == "pupw" { "w" } else { "ws" });
                        let q = self.amount(st, w, rid, &[1]);
                        let mut nv = match self.r.below(6) {
                            0 => v + self.r.range(0, 20),
                            1 => v,
                            _ => v - q,
                        };
                        if nv < 0 {
                            nv = 0;
                        }
                        if nv > 200 {
                            nv = 200;
                        }
                        x["a"] = json!(nv);
                    },
                }
            },
            "sig" | "sig2" | "sigo" | "nop" | "fail" | "sigB" => {
                x = j("pup");
                x["p"] = json!(self.r.p(&["pA", "pB", "pA", "~sys", "~tok", "~t22", "~stk"]));
                x["f"] = json!("d1");
                x["t"] = json!("d2");
                x["k"] = json!(match k {
                    "sigo" | "sigB" => "sig",
                    o => o,
                });
                if k == "sigo" {
                    x["au"] = json!(self.r.p(&["e6", "sw:A", "d1", "pay", "sw:A"]));
                }
                if k == "sigB" {
                    x["au"] = json!(self.r.p(&["wa:B", "sw:B"]));
                }
                // long account lists, long data
                if k == "sig2" && self.r.ch(50) {
                    x["k"] = json!("sigl");
                    x["a"] = json!(self.r.pi(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 31, 40]));
                }
                if k == "nop" && self.r.ch(30) {
                    x["k"] = json!("nopl");
                    x["a"] = json!(self.r.pi(&[0, 1, 2, 63, 127, 128, 255, 256, 257, 511, 900]));
                }
            },
            _ => {
                x = j("pup");
                x["k"] = json!("nop");
                x["p"] = json!("pA");
                x["f"] = json!("d1");
            },
        }
        x
    }

    fn ixs(&mut self, st: &Value, w: &str, rid: i64, acting: &str) -> Vec<Value> {
        let max = match self.prof.as_str() {
            "batch" => 5,
            _ => 3,
        };
        let n = if self.r.ch(55) { 1 } else { 1 + self.r.below(max) };
        let mut v: Vec<Value> = (0..n).map(|_| self.ix(st, w, rid, acting)).collect();
        // the same spend split into two, or repeated
        if self.r.ch(15) && v.len() < 4 {
            let c = v[self.r.below(v.len())].clone();
            v.push(c);
        }
        // two accounts closed at once
        if v.len() < 3 && self.r.ch(30) {
            if let Some(k) = v.iter().position(|x| gs(x, "i") == "tclose") {
                let f = gs(&v[k], "f").to_string();
                let c: Vec<String> = st["tk"].as_object().unwrap().iter()
                    .filter(|(n, t)| **n != "_" && **n != f && gs(t, "au") == acting && (gi(t, "a") == 0 || gs(t, "m") != gs(&st["tk"][&f], "m")))
                    .map(|(n, _)| n.clone()).collect();
                if !c.is_empty() {
                    let g = self.r.pick(&c).clone();
                    let mut y = v[k].clone();
                    y["f"] = json!(g);
                    y["p"] = st["ac"][&g]["o"].clone();
                    let (b, m, o) = (gi(&st["tk"][&g], "a"), gs(&st["tk"][&g], "m").to_string(), gs(&st["ac"][&g], "o").to_string());
                    let to: Vec<String> = st["tk"].as_object().unwrap().iter()
                        .filter(|(n, t)| **n != "_" && **n != g && gs(t, "m") == m && gs(&st["ac"][*n], "o") == o)
                        .map(|(n, _)| n.clone()).collect();
                    if b > 0 && !to.is_empty() {
                        let mut x = y.clone();
                        x["i"] = json!("tok");
                        x["t"] = json!(self.r.pick(&to));
                        x["a"] = json!(b);
                        v.push(x);
                    }
                    v.push(y);
                }
            }
        }
        // an account is emptied before it is closed
        if self.r.ch(75) {
            if let Some(k) = v.iter().position(|x| gs(x, "i") == "tclose") {
                let f = gs(&v[k], "f").to_string();
                let (b, m) = (gi(&st["tk"][&f], "a"), gs(&st["tk"][&f], "m").to_string());
                let o = gs(&st["ac"][&f], "o").to_string();
                let to: Vec<String> = st["tk"].as_object().unwrap().iter()
                    .filter(|(n, t)| **n != "_" && **n != f && gs(t, "m") == m && gs(&st["ac"][*n], "o") == o)
                    .map(|(n, _)| n.clone()).collect();
                if b > 0 && !to.is_empty() {
                    let mut x = v[k].clone();
                    x["i"] = json!(if self.r.ch(70) { "tok" } else { "burn" });
                    x["t"] = json!(self.r.pick(&to));
                    x["a"] = json!(b);
                    v.insert(k, x);
                }
            }
        }
        // money sent to a token account that was just closed
        if self.r.ch(20) {
            if let Some(c) = v.iter().find(|x| gs(x, "i") == "tclose") {
                let mut x = c.clone();
                for (a, b) in [("i", "xfer"), ("p", "sys"), ("k", ""), ("mi", "m1")] {
                    x[a] = json!(b);
                }
                x["t"] = c["f"].clone();
                x["f"] = json!(acting);
                x["au"] = json!(acting);
                x["a"] = json!(self.r.pi(&[1, 128, 130]));
                v.push(x);
            }
        }
        // a listed transfer and one made by a program on its own, together
        if self.r.ch(10) && v.len() < 4 {
            let k = self.r.below(v.len());
            if matches!(gs(&v[k], "i"), "xfer" | "tok") && gi(&v[k], "a") >= 1 && gs(&v[k], "p") != "" {
                let mut c = v[k].clone();
                let tok = gs(&c, "i") == "tok";
                c["i"] = json!("pup");
                c["k"] = json!(if tok { "tpull" } else { "pull" });
                c["m"] = json!(if tok { gs(&v[k], "p") } else { "" });
                c["p"] = json!("pA");
                let a = gi(&c, "a");
                if self.r.ch(60) {
                    c["a"] = json!(self.r.range(1, a));
                    if self.r.ch(50) {
                        v[k]["a"] = json!(a - gi(&c, "a"));
                    }
                }
                let at = self.r.below(v.len() + 1);
                v.insert(at, c);
            }
        }
        // an honest total split over several instructions
        if self.r.ch(12) {
            let k = self.r.below(v.len());
            let a = gi(&v[k], "a");
            if a >= 2 && matches!(gs(&v[k], "i"), "xfer" | "tok" | "stkw" | "burn") {
                let h = self.r.range(1, a - 1);
                let mut c = v[k].clone();
                v[k]["a"] = json!(h);
                c["a"] = json!(a - h);
                v.push(c);
            }
        }
        v
    }

    /// a call of the wallet program from inside a batch signed for by `acting`
    fn inside(&mut self, st: &Value, w: &str, acting: &str) -> Value {
        if self.r.ch(24) {
            if let Some(x) = self.would_sign(st, acting) {
                return x;
            }
        }
        let nw = if self.r.ch(if self.multi { 55 } else { 100 }) { w.to_string() } else if w == "A" { "B".into() } else { "A".into() };
        let nw = nw.as_str();
        let k = self.r.wt(&[
            (14, "add"), (10, "rem"), (16, "upd"), (6, "repl"), (5, "sess"), (5, "claim"), (6, "closetok"), (6, "closeswig"),
            (8, "xassets"), (10, "sub1"), (10, "sub2"), (4, "sign"), (1, "mig"), (1, "create"),
        ]);
        let mut o = match k {
            "add" => self.any_add(st, nw, false),
            "rem" => self.rem(st, nw, 0),
            "upd" => self.upd(st, nw),
            "repl" => self.repl(st, nw, 0),
            "sess" => self.sess(st, nw),
            "claim" => self.claim(st, nw, 0),
            "closetok" => self.closetok(st, nw, 0),
            "closeswig" => self.closeswig(st, nw, 0),
            "xassets" => self.xassets(st, nw, 0),
            "sub1" => self.sub1(st, nw, 0),
            "sub2" => self.sub2(st, nw, 0),
            "mig" => json!({"i":"mig","w":nw,"r":self.some_role(st, nw),"pay":"pay"}),
            "create" => {
                let au = self.ed("e1");
                let acts = vec![self.perm(7)];
                self.create(nw, au, acts)
            },
            _ => {
                let rid = self.some_role(st, nw);
                let wa = format!("wa:{nw}");
                json!({"i":"sign","w":nw,"r":rid,"k1":wa,"ls":[],"os":[],"ro":[],"enc":"o",
                    "ix":[{"i":"xfer","f":wa,"t":"d1","a":self.r.range(0, 5),"p":"sys","m":"","au":wa,"k":"","mi":"m1"}]})
            },
        };
        o["fl"] = json!("");
        o.as_object_mut().unwrap().remove("np");
        o.as_object_mut().unwrap().remove("pp");
        if o.get("pay").is_none() {
            o["pay"] = json!("pay");
        }
        if o.get("ix").is_some() {
            // whatever a signing instruction would do, it is refused here
            o["os"] = json!([]);
            let ix = ga(&o, "ix");
            o["ix"] = json!(ix.into_iter().filter(|x| gs(x, "i") != "swig").cloned().collect::<Vec<_>>());
        }
        if gs(&o, "i") != "create" {
            // a role whose authority is an address that signs here, if there is one
            let sess = gs(&o, "i") == "sess";
            let key = |r: &Value| -> String {
                let au = &r["au"];
                match gs(au, "t") {
                    "ed" => gs(au, "k").to_string(),
                    "eds" if sess => gs(au, "k").to_string(),
                    _ => gs(au, "sk").to_string(),
                }
            };
            let here: Vec<i64> = roles(st, nw).into_iter().filter(|r| key(r) == acting).map(|r| gi(r, "id")).collect();
            if !here.is_empty() && self.r.ch(45) {
                o["r"] = json!(self.r.pick(&here).clone());
            }
            let mut by = role(st, nw, gi(&o, "r")).map(|r| key(r)).unwrap_or("e1".into());
            if by.is_empty() || by == "0" {
                by = "e1".into();
            }
            if self.r.ch(6) {
                by = self.r.p(&["e1", "e2", "wa:A", "wa:B", "pay"]);
            }
            o["pf"] = json!({"m":"ed","by":by,"v":"ok","c":0,"sl":0});
        }
        json!({"i":"swig","f":"","t":"","a":0,"p":"sys","m":"","au":"wa:A","k":"","mi":"m1","op":o,"ms":[]})
    }

    /// a signing instruction that would succeed if it were not called from inside
    fn would_sign(&mut self, st: &Value, acting: &str) -> Option<Value> {
        let mut v: Vec<(usize, Value)> = vec![];
        for w in ["A", "B"] {
            for r in roles(st, w) {
                let au = &r["au"];
                let by = match gs(au, "t") {
                    "ed" => gs(au, "k"),
                    _ => gs(au, "sk"),
                };
                if by != acting && (by == "" || by == "0" || by.contains(':')) {
                    continue;
                }
                let rid = gi(&r, "id");
                let mut put = |kind: usize, acct: &str, mut o: Value| {
                    let l = gi(&st["ac"][acct], "l");
                    o["w"] = json!(w);
                    o["r"] = json!(rid);
                    o["pf"] = json!({"m":"ed","by":by,"v":"ok","c":0,"sl":0});
                    o["pay"] = json!("pay");
                    o["fl"] = json!("");
                    o["ls"] = json!([]);
                    o["os"] = json!([]);
                    o["ro"] = json!([]);
                    o["enc"] = json!("o");
                    o["ix"] = json!([{"i":"xfer","f":acct,"t":"d1","a":(l - 128).clamp(0, 2),"p":"sys","m":"","au":acct,"k":"","mi":"m1"}]);
                    if l >= 128 {
                        v.push((kind, o));
                    }
                };
                if has(&r, &[7, 15]) {
                    let wa = format!("wa:{w}");
                    put(0, &wa, json!({"i":"sign","k1":wa}));
                }
                for a in ga(&r, "ac") {
                    if gi(a, "p") == 9 && gi(a, "id") == 1 {
                        put(1, gs(a, "k"), json!({"i":"ss1","sub":gs(a, "k")}));
                    }
                    let n = gi(a, "id");
                    if matches!(gi(a, "p"), 23 | 24) && gi(&st["s2"][&format!("st:{w}:{n}")], "en") == 1 {
                        put(2, &format!("as:{w}:{n}"), json!({"i":"ss2","n":n}));
                    }
                }
            }
        }
        let mut kinds: Vec<usize> = v.iter().map(|x| x.0).collect();
        kinds.dedup();
        kinds.sort();
        kinds.dedup();
        if kinds.is_empty() {
            return None;
        }
        let k = if kinds.len() > 1 && self.r.ch(70) { kinds[1 + self.r.below(kinds.len() - 1)] } else { *self.r.pick(&kinds) };
        let c: Vec<&Value> = v.iter().filter(|x| x.0 == k).map(|x| &x.1).collect();
        let o = (*self.r.pick(&c)).clone();
        Some(json!({"i":"swig","f":"","t":"","a":0,"p":"sys","m":"","au":"wa:A","k":"","mi":"m1","op":o,"ms":[]}))
    }

    fn arrange(&mut self, st: &Value, op: &mut Value) {
        let prof = self.prof.clone();
        let mut ls: Vec<String> = vec![];
        let all: Vec<String> = st["ac"].as_object().unwrap().keys().cloned().collect();
        let w = gs(op, "w").to_string();
        let heavy = prof == "classify" || prof == "multi";
        if self.r.ch(if heavy { 70 } else { 25 }) {
            let n = 1 + self.r.below(if heavy { 5 } else { 2 });
            for _ in 0..n {
                let c = self.r.pick(&all).clone();
                ls.push(c);
            }
        }
        // duplicates
        if heavy && self.r.ch(20) && !ls.is_empty() {
            let c = self.r.pick(&ls).clone();
            ls.push(c);
        }
        if !heavy || self.r.ch(60) {
            ls.retain(|n| n.as_str() != format!("sw:{w}") && n.as_str() != format!("wa:{w}"));
        }
        let mut os: Vec<String> = vec![];
        let mut needs_e6 = false;
        for x in ga(op, "ix") {
            for f in ["f", "au"] {
                let n = gs(x, f);
                if ["e6", "d1", "d2"].contains(&n) && (f == "au" || gs(x, "i") == "xfer") {
                    needs_e6 = true;
                    if !os.iter().any(|y| y == n) {
                        os.push(n.into());
                    }
                }
            }
        }
        for x in ga(op, "ix") {
            if gs(x, "i") == "swig" {
                let acting = match gs(op, "i") {
                    "sign" => gs(op, "k1").to_string(),
                    "ss1" => gs(op, "sub").to_string(),
                    _ => format!("as:{w}:{}", gi(op, "n")),
                };
                for n in [gs(&x["op"], "pay"), gs(&x["op"]["pf"], "by")] {
                    // addresses of programs cannot sign a transaction
                    if !n.is_empty() && n != acting && !n.contains(':') && !os.iter().any(|y| y == n) && self.r.ch(95) {
                        os.push(n.into());
                    }
                }
            }
        }
        if needs_e6 && self.r.ch(15) {
            os.clear();
        }
        let mut ro: Vec<String> = vec![];
        if self.r.ch(if heavy { 15 } else { 4 }) && !ga(op, "ix").iter().any(|x| gs(x, "i") == "swig") {
            let mut used: Vec<String> = ls.clone();
            for x in ga(op, "ix") {
                used.push(gs(x, "f").into());
                used.push(gs(x, "t").into());
            }
            used.retain(|n| !n.is_empty());
            if !used.is_empty() {
                ro.push(self.r.pick(&used).clone());
            }
        }
        if self.r.ch(match prof.as_str() {
            "classify" => 12,
            "multi" | "stake" | "token" | "damage" => 5,
            _ => 1,
        }) {
            let mut c = all.clone();
            c.retain(|n| n != "_");
            let t: Vec<String> = ["tk", "sk", "sc"].iter().flat_map(|f| st[*f].as_object().unwrap().keys().cloned().collect::<Vec<_>>()).filter(|k| k != "_").collect();
            if !t.is_empty() && self.r.ch(60) {
                c = t;
            }
            let n = if self.r.ch(10) { "x".to_string() } else { self.r.pick(&c).clone() };
            ls.retain(|m| *m != n || self.r.ch(20));
            op["k2"] = json!(n);
        }
        op["ls"] = json!(ls);
        op["os"] = json!(os);
        op["ro"] = json!(ro);
        self.pad(op);
    }
    fn pad(&mut self, op: &mut Value) {
        let pct = match self.prof.as_str() {
            "classify" | "batch" | "auth" => 8,
            _ => 2,
        };
        if self.r.ch(pct) {
            op["np"] = json!(self.r.pi(&[1, 5, 20, 40, 55, 58, 60, 61, 62, 90, 95, 97, 99, 100, 130, 200, 240, 245, 250, 252]));
            op["pp"] = json!(self.r.p(&["f", "f", "b", "d"]));
        }
    }

    pub fn sign(&mut self, st: &Value, w: &str, rid: i64, badpct: usize) -> Value {
        let wa = format!("wa:{w}");
        let ix = self.ixs(st, w, rid, &wa);
        let mut k1 = wa.clone();
        if self.r.ch(if self.prof == "classify" { 8 } else { 2 }) {
            let tk: Vec<String> = st["tk"].as_object().unwrap().keys().filter(|k| *k != "_").cloned().collect();
            let mut c = vec!["x".to_string(), format!("sw:{w}"), "d1".into(), "sys".into(), "~wa:A".into()];
            if let Some(t) = tk.first() {
                c.push(t.clone());
            }
            if self.multi {
                c.push("wa:B".into());
            }
            k1 = self.r.pick(&c).clone();
        }
        let enc = self.r.p(if self.prof == "batch" { &["o", "l", "c"] } else { &["o", "o", "o", "l", "c"] });
        let mut o = json!({"i":"sign","w":w,"r":rid,"k1":k1,"ix":ix,"enc":enc,"fl":""});
        self.arrange(st, &mut o);
        if self.r.ch(if self.prof == "batch" { 25 } else { 2 }) {
            o["fl"] = json!(self.r.p(&[
                "cut", "cutbig", "cnt", "cntbig", "pidx", "pidx255", "aidx", "dlen", "dlenbig", "empty", "nacc", "+trail", "plen",
            ]));
        }
        if gs(&o, "fl") == "nacc" && gs(&o["ix"][0], "i").is_empty() {
            o["fl"] = json!("");
        }
        self.prove(st, &mut o, badpct);
        if self.r.ch(1) {
            o["fl"] = json!(self.r.p(&["args", "disc", "few", "own"]));
        }
        o
    }

    fn upd(&mut self, st: &Value, w: &str) -> Value {
        let rid = self.manager(st, w);
        let tgt = self.some_role(st, w);
        let m = self.r.p(&["rep", "rep0", "add", "add", "delt", "deli", "delt", "deli", "op4"]);
        let m = if m == "op4" && self.r.ch(80) { "rep0".to_string() } else { m };
        let mut acts = if matches!(m.as_str(), "rep" | "rep0" | "add" | "op4") { self.any_perms(3) } else { vec![] };
        if self.prof != "roles" && m != "add" {
            acts = self.role_perms();
        }
        if self.r.ch(15) && !acts.is_empty() {
            let j = self.r.below(acts.len());
            let mut a = acts[j].clone();
            self.twist(&mut a);
            acts[j] = a;
        }
        let mut tys: Vec<i64> = vec![];
        let mut idx: Vec<i64> = vec![];
        let n = role(st, w, tgt).map(|r| ga(r, "ac").len()).unwrap_or(1);
        if m == "delt" {
            let k = 1 + self.r.below(2);
            for _ in 0..k {
                let have: Vec<i64> = role(st, w, tgt).map(|r| ga(r, "ac").iter().map(|a| gi(a, "p")).collect()).unwrap_or_default();
                if !have.is_empty() && self.r.ch(85) {
                    tys.push(*self.r.pick(&have));
                } else {
                    tys.push(self.r.pi(&[0, 1, 7, 26, 27, 200, 5]));
                }
            }
            if self.r.ch(12) {
                // a long list; the telling entries may come late
                let mut l: Vec<i64> = (0..self.r.range(7, 20)).map(|_| self.r.pi(&[0, 20, 26, 27, 40, 200, 255])).collect();
                l.append(&mut tys);
                tys = l;
            }
            if self.r.ch(5) {
                tys.clear();
            }
        }
        if m == "deli" {
            let k = 1 + self.r.below(2);
            for _ in 0..k {
                idx.push(self.r.range(0, n as i64 - 1 + if self.r.ch(15) { 2 } else { 0 }).max(0));
            }
            if self.r.ch(10) {
                let far = self.r.range(2, 20);
                let mut l: Vec<i64> = (0..self.r.range(7, 20)).map(|j| if self.r.ch(50) { 0 } else { far + j }).collect();
                if self.r.ch(50) {
                    l.retain(|j| *j != 0);
                }
                l.append(&mut idx);
                idx = l;
            }
            if self.r.ch(5) {
                idx.clear();
            }
            if self.r.ch(3) {
                idx.push(self.r.pi(&[256, 65535, 0]));
            }
        }
        let mut o = json!({"i":"upd","w":w,"r":rid,"tgt":tgt,"m":m,"acts":acts,"tys":tys,"idx":idx,"pay":self.pay(),"mu":{"m":""},"fl":""});
        if self.r.ch(8) && !acts.is_empty() {
            o["mu"] = self.mu(acts.len());
        } else if m == "deli" && self.r.ch(4) {
            o["mu"] = json!({"m":"odd"});
        }
        if self.r.ch(2) {
            o["fl"] = json!(self.r.p(&["aclen", "nosys"]));
        }
        o
    }

    fn any_add(&mut self, st: &Value, w: &str, flaws: bool) -> Value {
        let rid = self.manager(st, w);
        let k = self.any_kinds();
        let mut au = self.new_auth(&k);
        let mut acts = if self.prof == "roles" { self.any_perms(4) } else { self.role_perms() };
        let mut mu = json!({"m":""});
        let mut fl = "".to_string();
        if flaws {
            if self.r.ch(12) && !acts.is_empty() {
                let j = self.r.below(acts.len());
                let mut a = acts[j].clone();
                self.twist(&mut a);
                acts[j] = a;
            }
            if self.r.ch(14) {
                mu = self.mu(acts.len());
            }
            if self.r.ch(10) {
                au["fx"] = json!(self.r.p(&["short", "long", "long8", "empty", "type0", "type9", "typebig", "plen", "plen255", "swigprog"]));
                if gs(&au, "t").starts_with("pe") && self.r.ch(40) {
                    au["fx"] = json!("swigprog");
                    let k = gs(&au, "k").split(':').next().unwrap().to_string();
                    if self.r.ch(40) {
                        au["k"] = json!(k + ":f0");
                    }
                }
            }
            if self.r.ch(6) && gs(&au, "t").len() > 2 {
                au["sk"] = json!(self.r.p(&["e1", "e7"]));
            }
            if self.r.ch(4) {
                fl = self.r.p(&["payns", "rosw", "nosys", "alen", "aclen", "trunc", "args"]);
            }
            if self.r.ch(3) {
                acts.clear();
            }
        }
        if gs(&au, "t").starts_with("k1") && self.r.ch(25) && gs(&au, "fx").is_empty() {
            au["fx"] = json!("+comp");
        }
        json!({"i":"add","w":w,"r":rid,"pay":self.pay(),"au":au,"acts":acts,"mu":mu,"fl":fl})
    }

    fn sess(&mut self, st: &Value, w: &str) -> Value {
        let ids: Vec<i64> = roles(st, w).iter().filter(|r| gs(&r["au"], "t").len() > 2).map(|r| gi(r, "id")).collect();
        let rid = if ids.is_empty() || self.r.ch(10) { self.some_role(st, w) } else { *self.r.pick(&ids) };
        let mx = role(st, w, rid).map(|r| gi(&r["au"], "mx")).unwrap_or(0);
        let dur = self.r.pi(&[mx, mx, mx, mx + 1, (mx - 1).max(0), 0, 1, 5, -1]);
        let key = self.r.p(&["e1", "e2", "e3", "e4", "e5", "e6", "e7"]);
        let mut o = json!({"i":"sess","w":w,"r":rid,"dur":dur,"key":key,"pay":"pay","fl":""});
        self.prove(st, &mut o, 0);
        // a session key trying to open or extend a session
        if let Some(r) = role(st, w, rid) {
            if gs(&r["au"], "sk") != "0" && self.r.ch(15) {
                let v = self.r.p(&["ok", "ok", "len2"]);
                o["pf"] = json!({"m":"ed","by":gs(&r["au"],"sk"),"v":v,"c":0,"sl":0});
            } else if self.r.ch(12) {
                let mut pf = o["pf"].clone();
                self.bad(st, w, &mut pf);
                o["pf"] = pf;
            }
        }
        o
    }

    fn repl(&mut self, st: &Value, w: &str, badpct: usize) -> Value {
        let ids: Vec<i64> = roles(st, w).iter().filter(|r| has(r, &[7, 8, 21])).map(|r| gi(r, "id")).collect();
        let rid = if ids.is_empty() || self.r.ch(12) { self.some_role(st, w) } else { *self.r.pick(&ids) };
        let tgt = self.some_role(st, w);
        let t = role(st, w, tgt).map(|r| gs(&r["au"], "t").to_string()).unwrap_or("ed".into());
        let (key, kl) = match t.as_str() {
            "ed" | "eds" => (self.r.p(&ED), self.r.p(&["32", "32", "32", "32", "31", "33", "64"])),
            "k1" | "k1s" => (self.r.p(&["s1", "s2", "s3"]), self.r.p(&["64", "64", "33", "33", "33", "bad64", "bad33", "32"])),
            "r1" | "r1s" => (self.r.p(&["q1", "q2", "q3"]), self.r.p(&["33", "33", "33", "bad33", "z33", "32", "64"])),
            _ => (self.r.p(&["e1", "pA", "pB"]), self.r.p(&["32", "32"])),
        };
        let mut o = json!({"i":"repl","w":w,"r":rid,"tgt":tgt,"key":key,"kl":kl,"fl":""});
        if self.r.ch(4) {
            o["fl"] = json!(self.r.p(&["pad", "klen", "wa1"]));
        }
        self.prove(st, &mut o, badpct);
        o
    }

    fn slot(&mut self, st: &Value) -> Value {
        let now = gi(st, "slot");
        let mut v = vec![1, 1, 2, 5, 10, 60, 61, 100, 1000];
        for w in ["A", "B"] {
            for r in roles(st, w) {
                for a in ga(r, "ac") {
                    if [2, 4, 6, 11, 17, 19].contains(&gi(a, "p")) {
                        let (win, lr) = (gi(a, "w"), gi(a, "r"));
                        for x in [lr + win - now, lr + win + 1 - now, lr + win - 1 - now, lr + 2 * win + 1 - now, win] {
                            v.extend([x, x]);
                        }
                    }
                }
                let au = &r["au"];
                if gs(au, "sk") != "0" {
                    let e = gi(au, "se") - now;
                    v.extend([e, e + 1, e - 1, e, e + 1, e]);
                }
            }
        }
        v.retain(|x| *x > 0 && *x < 3_000_000);
        // stay inside the range where slots are represented exactly
        if now > 100_000_000 {
            v = vec![1];
        }
        json!({"i":"slot","d":*self.r.pick(&v)})
    }

    fn claim(&mut self, st: &Value, w: &str, badpct: usize) -> Value {
        let rid = if self.r.ch(70) { 0 } else { self.some_role(st, w) };
        let key = self.r.p(&["d1", "d1", "d2", "0", "sw:A", "wa:A", "x", "pay"]);
        let mut o = json!({"i":"claim","w":w,"r":rid,"key":key,"pay":self.pay(),"fl":""});
        self.prove(st, &mut o, badpct);
        o
    }

    fn rem(&mut self, st: &Value, w: &str, badpct: usize) -> Value {
        let mut rid = self.manager(st, w);
        let tgt = self.some_role(st, w);
        if self.r.ch(15) {
            rid = tgt;
        }
        let mut o = json!({"i":"rem","w":w,"r":rid,"tgt":tgt,"pay":self.pay(),"fl":""});
        if self.r.ch(3) {
            o["fl"] = json!(self.r.p(&["rosw", "nosys"]));
        }
        self.prove(st, &mut o, badpct);
        o
    }

    fn closetok(&mut self, st: &Value, w: &str, badpct: usize) -> Value {
        let rid = self.some_role(st, w);
        let mut ls: Vec<String> = vec![];
        let v: Vec<String> = st["tk"].as_object().unwrap().keys().filter(|k| *k != "_").cloned().collect();
        if v.is_empty() {
            return self.slot(st);
        }
        let zero: Vec<String> =
            v.iter().filter(|n| gi(&st["tk"][*n], "a") == 0 && gs(&st["ac"][*n], "o") == "tok").cloned().collect();
        for _ in 0..1 + self.r.below(2) {
            if self.r.ch(75) && !zero.is_empty() {
                ls.push(self.r.pick(&zero).clone());
            } else {
                ls.push(self.r.pick(&v).clone());
            }
        }
        if self.r.ch(4) {
            ls.push("x".into());
        }
        if self.r.ch(4) {
            ls.clear();
        }
        let p = if ls.first().map(|n| gs(&st["ac"][n], "o") == "t22").unwrap_or(false) && self.r.ch(85) { "t22" } else { "tok" };
        let p = if self.r.ch(3) { "pA" } else { p };
        let dst = self.dst(st, w);
        let off = if self.r.ch(6) { self.r.pi(&[1, 2, 5]) } else { 0 };
        let mut o = json!({"i":"closetok","w":w,"r":rid,"dst":dst,"p":p,"ls":ls,"off":off,"fl":""});
        if self.r.ch(3) {
            o["fl"] = json!("wa1");
        }
        self.prove(st, &mut o, badpct);
        o
    }
    fn dst(&mut self, st: &Value, w: &str) -> String {
        let cl = gs(&st["sw"][w], "cl").to_string();
        if cl != "0" && self.r.ch(65) {
            cl
        } else {
            self.r.p(&["d1", "d2", "pay", "d1", if self.r.ch(20) { "wa:A" } else { "d2" }])
        }
    }
    fn closeswig(&mut self, st: &Value, w: &str, badpct: usize) -> Value {
        let rid = self.some_role(st, w);
        let mut o = json!({"i":"closeswig","w":w,"r":rid,"dst":self.dst(st, w),"fl":""});
        if self.r.ch(3) {
            o["fl"] = json!("wa1");
        }
        self.prove(st, &mut o, badpct);
        o
    }
    fn xassets(&mut self, st: &Value, w: &str, badpct: usize) -> Value {
        let rid = self.some_role(st, w);
        let mut tr: Vec<Value> = vec![];
        let v: Vec<String> = st["tk"].as_object().unwrap().keys().filter(|k| *k != "_").cloned().collect();
        if !v.is_empty() && self.r.ch(60) {
            for _ in 0..1 + self.r.below(2) {
                let f = if v.contains(&"t6".to_string()) && self.r.ch(75) { "t6".to_string() } else { self.r.pick(&v).clone() };
                let t = if self.r.ch(75) { self.r.p(&["t1", "t2", "t5"]) } else { self.r.pick(&v).clone() };
                let t = if v.contains(&t) { t } else { v[0].clone() };
                let p = if self.r.ch(90) { gs(&st["ac"][&f], "o").to_string() } else { "t22".into() };
                let p = if p != "tok" && p != "t22" { "tok".to_string() } else { p };
                tr.push(json!({"f":f,"t":t,"p":p}));
            }
        }
        let mut o = json!({"i":"xassets","w":w,"r":rid,"pay":self.pay(),"tr":tr,"fl":""});
        if self.r.ch(3) {
            o["fl"] = json!("wa1");
        }
        self.prove(st, &mut o, badpct);
        o
    }

    fn sub1(&mut self, st: &Value, w: &str, badpct: usize) -> Value {
        let have: Vec<String> = st["ac"].as_object().unwrap().keys().filter(|k| k.starts_with("s1:")).cloned().collect();
        if have.is_empty() {
            return self.sign_any(st, w, badpct);
        }
        let mut k = self.r.wt(&[(18, "cs1"), (36, "ss1"), (19, "tg1"), (27, "wd1")]);
        let holds = |r: &&Value| ga(r, "ac").iter().any(|a| gi(a, "p") == 9 && gs(a, "k") != "0");
        let some = roles(st, w).iter().any(|r| holds(&r));
        if !some && roles(st, w).iter().any(|r| has(r, &[9])) && self.r.ch(75) {
            k = "cs1";
        }
        let rid = if self.r.ch(75) {
            let only = some && k != "cs1" && self.r.ch(80);
            let fit = k == "cs1" && self.r.ch(80);
            let ids: Vec<i64> = roles(st, w).iter()
                .filter(|r| has(r, &[9]) && (!only || holds(r)) && (!fit || (!holds(r) && have.contains(&format!("s1:{w}:{}", gi(r, "id"))))))
                .map(|r| gi(r, "id")).collect();
            if ids.is_empty() { self.some_role(st, w) } else { *self.r.pick(&ids) }
        } else {
            self.some_role(st, w)
        };
        let own = format!("s1:{w}:{rid}");
        // a sub-account this role actually holds
        let held: Vec<String> = role(st, w, rid)
            .map(|r| ga(r, "ac").iter().filter(|a| gi(a, "p") == 9 && gs(a, "k") != "0").map(|a| gs(a, "k").to_string()).collect())
            .unwrap_or_default();
        let sub = if !held.is_empty() && self.r.ch(75) {
            self.r.pick(&held).clone()
        } else if have.contains(&own) && self.r.ch(80) {
            own
        } else if self.r.ch(80) {
            self.r.pick(&have).clone()
        } else {
            self.r.p(&["x", "wa:A", "d1"])
        };
        let mut o;
        match k {
            "cs1" => {
                o = json!({"i":"cs1","w":w,"r":rid,"sub":sub,"pay":self.pay(),"fl":""});
                if self.r.ch(5) {
                    o["fl"] = json!("bump");
                }
                self.prove(st, &mut o, badpct);
            },
            "ss1" => {
                let ix = self.ixs(st, w, rid, &sub);
                let enc = self.r.p(&["o", "o", "l", "c"]);
                o = json!({"i":"ss1","w":w,"r":rid,"sub":sub,"ix":ix,"enc":enc,"fl":""});
                self.arrange(st, &mut o);
                self.prove(st, &mut o, badpct);
            },
            "tg1" => {
                let (mut acting, mut tr) = (rid, rid);
                if self.r.ch(50) {
                    acting = self.manager(st, w);
                }
                if self.r.ch(10) {
                    tr = self.some_role(st, w);
                }
                let en = self.r.pi(&[0, 1, 0, 1, 1, if self.r.ch(10) { 2 } else { 1 }]);
                o = json!({"i":"tg1","w":w,"r":acting,"tr":tr,"sub":sub,"en":en,"pay":"pay","fl":""});
                self.prove(st, &mut o, badpct);
            },
            _ => {
                let acting = if self.r.ch(40) { self.manager(st, w) } else { rid };
                let mut t = json!({"f":"","t":"","p":"tok"});
                let bal = gi(&st["ac"][&sub], "l");
                let mut a = *self.r.pick(&[1, bal, bal - 128, bal - 127, bal + 1, 5, 0]);
                if self.r.ch(35) {
                    let v: Vec<String> =
                        st["tk"].as_object().unwrap().iter().filter(|(_, v)| gs(v, "au") == sub).map(|(n, _)| n.clone()).collect();
                    let f = if v.is_empty() || self.r.ch(10) { "t1".to_string() } else { self.r.pick(&v).clone() };
                    let to = if self.r.ch(65) { "t1".to_string() } else { self.r.p(&["u1", "s1t", "s2t", "w1"]) };
                    let b = gi(&st["tk"][&f], "a");
                    a = *self.r.pick(&[1, b, b + 1, 5]);
                    t = json!({"f":f,"t":to,"p":self.r.p(&["tok","tok","tok","tok","t22"])});
                }
                let k1 = if self.r.ch(94) { format!("wa:{w}") } else { self.r.p(&["d1", "x", "wa:B", "~wa:A", "~wa:A"]) };
                o = json!({"i":"wd1","w":w,"r":acting,"sub":sub,"k1":k1,"a":a.max(0),"tok":t,"fl":""});
                self.prove(st, &mut o, badpct);
            },
        }
        o
    }

    fn sub2(&mut self, st: &Value, w: &str, badpct: usize) -> Value {
        let next = gi(&st["sw"][w], "sub");
        let (n0, nmax) = (self.b2, self.b2 + 2);
        let mut k = self.r.wt(&[(16, "cs2"), (38, "ss2"), (18, "tg2"), (28, "wd2")]);
        let some = (n0..n0 + 3).any(|i| gb(&st["s2"][&format!("st:{w}:{i}")], "ex"));
        if !some && roles(st, w).iter().any(|r| has(r, &[22])) && self.r.ch(75) {
            k = "cs2";
        }
        // mostly a role that may do it to some account
        let want: &[i64] = match k {
            _ if self.r.ch(35) => &[22, 23, 24, 25, 26],
            "cs2" => &[22],
            "ss2" => &[23, 24],
            "wd2" => &[23, 25],
            _ => &[23, 26],
        };
        let rid = if self.r.ch(85) {
            let ids: Vec<i64> =
                roles(st, w).iter().filter(|r| has(r, want)).map(|r| gi(r, "id")).collect();
            if ids.is_empty() { self.some_role(st, w) } else { *self.r.pick(&ids) }
        } else {
            self.some_role(st, w)
        };
        let made: Vec<i64> = (n0..n0 + 3).filter(|i| gb(&st["s2"][&format!("st:{w}:{i}")], "ex")).collect();
        // who may do it to which existing account
        let mut pairs: Vec<(i64, i64)> = vec![];
        for r in roles(st, w) {
            for a in ga(r, "ac") {
                if gi(a, "p") != 22 && want.contains(&gi(a, "p")) && made.contains(&gi(a, "id")) {
                    pairs.push((gi(r, "id"), gi(a, "id")));
                }
            }
        }
        let scoped: Vec<i64> = role(st, w, rid)
            .map(|r| ga(r, "ac").iter().filter(|a| (23..=26).contains(&gi(a, "p"))).map(|a| gi(a, "id")).filter(|i| *i <= nmax).collect())
            .unwrap_or_default();
        let (rid, n) = if !pairs.is_empty() && k != "cs2" && self.r.ch(60) {
            *self.r.pick(&pairs)
        } else if !scoped.is_empty() && self.r.ch(50) {
            (rid, *self.r.pick(&scoped))
        } else if !made.is_empty() && self.r.ch(85) {
            (rid, *self.r.pick(&made))
        } else {
            (rid, self.r.range(n0, nmax))
        };
        let mut o;
        match k {
            "cs2" => {
                let n = if self.r.ch(92) { next } else { self.r.range(n0, nmax) };
                if n > nmax || n < n0 {
                    return self.sub2w(st, w, rid, n.clamp(n0, nmax), badpct);
                }
                let creators: Vec<i64> = roles(st, w).iter().filter(|r| has(r, &[22])).map(|r| gi(r, "id")).collect();
                let rid = if creators.is_empty() || self.r.ch(12) { rid } else { *self.r.pick(&creators) };
                o = json!({"i":"cs2","w":w,"r":rid,"n":n,"pay":self.pay(),"fl":""});
                if self.r.ch(6) {
                    o["fl"] = json!(self.r.p(&["sbump", "abump", "nosys"]));
                } else if self.r.ch(4) {
                    o["ai"] = json!(self.r.range(n0, nmax));
                }
                self.prove(st, &mut o, badpct);
            },
            "ss2" => {
                let acting = format!("as:{w}:{n}");
                let ix = self.ixs(st, w, rid, &acting);
                let enc = self.r.p(&["o", "o", "l"]);
                o = json!({"i":"ss2","w":w,"r":rid,"n":n,"ix":ix,"enc":enc,"fl":""});
                self.arrange(st, &mut o);
                self.xsub(&mut o, n, nmax);
                self.prove(st, &mut o, badpct);
            },
            "tg2" => {
                let en = self.r.pi(&[0, 1, 0, 1, 1, if self.r.ch(10) { 2 } else { 1 }]);
                o = json!({"i":"tg2","w":w,"r":rid,"n":n,"en":en,"pay":"pay","fl":""});
                self.xsub(&mut o, n, nmax);
                self.prove(st, &mut o, badpct);
            },
            _ => return self.sub2w(st, w, rid, n, badpct),
        }
        o
    }
    fn xsub(&mut self, o: &mut Value, n: i64, nmax: i64) {
        if self.r.ch(7) {
            match self.r.below(3) {
                0 => o["si"] = json!(self.r.range(nmax - 2, nmax)),
                1 => {
                    if gs(o, "i") != "tg2" {
                        o["ai"] = json!(self.r.range(nmax - 2, nmax))
                    }
                },
                _ => {
                    if self.multi {
                        o["sn"] = json!("B")
                    }
                },
            }
            let _ = n;
        }
    }
    fn sub2w(&mut self, st: &Value, w: &str, rid: i64, n: i64, badpct: usize) -> Value {
        let asn = format!("as:{w}:{n}");
        let mut t = json!({"f":"","t":"","p":"tok"});
        let bal = gi(&st["ac"][&asn], "l");
        let mut a = *self.r.pick(&[1, bal, bal - 128, bal - 127, bal + 1, 5, 0]);
        if self.r.ch(40) && st["tk"].get("a0t").is_some() {
            let f = if self.r.ch(85) { format!("a{}t", n - self.b2) } else { self.r.p(&["t1", "a0t", "a1t"]) };
            let p = gs(&st["ac"][&f], "o").to_string();
            let to = if self.r.ch(62) { if p == "t22" { "t7" } else { "t1" }.to_string() } else { self.r.p(&["u1", "t3", "a1t", "v1", "w1"]) };
            let b = gi(&st["tk"][&f], "a");
            a = *self.r.pick(&[1, b, b + 1, 5]);
            let p = if self.r.ch(92) { p } else { self.r.p(&["tok", "t22", "pA"]) };
            t = json!({"f":f,"t":to,"p":p});
        }
        let k1 = if self.r.ch(93) { format!("wa:{w}") } else { self.r.p(&["d1", "x", "wa:B", "~wa:A", "~wa:A"]) };
        let mut o = json!({"i":"wd2","w":w,"r":rid,"n":n,"k1":k1,"a":a.max(0),"tok":t,"fl":""});
        if self.r.ch(3) {
            o["fl"] = json!("extra");
        }
        self.xsub(&mut o, n, self.b2 + 2);
        self.prove(st, &mut o, badpct);
        o
    }

    fn sign_any(&mut self, st: &Value, w: &str, badpct: usize) -> Value {
        let rid = self.limited(st, w);
        self.sign(st, w, rid, badpct)
    }

    /// eight bytes of a number
    fn word(&mut self) -> Vec<u8> {
        let v: u64 = match self.r.below(10) {
            0 | 1 => 0,
            2 => 1,
            3 => *self.r.pick(&[255, 256, 65535, 65536, 1 << 24, 1 << 32, 1 << 40, 1 << 56, 1 << 63]),
            4 => u64::MAX,
            5 => *self.r.pick(&[0x0100_0000_0000_0002, 0x0200_0000_0000_0001, 0x00ff, 0xff00, 258]),
            _ => self.r.range(1, 5000) as u64,
        };
        v.to_le_bytes().to_vec()
    }

    fn blob(&mut self, n: usize) -> Vec<u8> {
        let s = self.r.below(256) as u8;
        let k = self.r.below(7) as u8;
        (0..n).map(|i| s.wrapping_add((i as u8).wrapping_mul(k))).collect()
    }

    /// a permission's bytes, usually fresh and well-formed
    fn lay_act(&mut self, t: usize) -> Vec<u8> {
        let z = vec![0u8; 8];
        let lim = self.word();
        let win = { let w = self.word(); if w == z { vec![1, 0, 0, 0, 0, 0, 0, 0] } else { w } };
        let mut b: Vec<u8> = match t {
            1 | 10 => self.word(),
            2 | 11 => [lim.clone(), win, z, lim].concat(),
            3 => self.blob(32),
            4 => {
                let sc = self.r.below(3) as u64;
                let w = if sc == 2 { win } else { self.word() };
                let (a, l) = (self.word(), self.word());
                let (p, t) = (self.blob(32), self.blob(32));
                [a, z.clone(), l, z.clone(), w, self.word(), p, t, sc.to_le_bytes().to_vec(), (self.r.below(4) as u64).to_le_bytes().to_vec(), z, 8u64.to_le_bytes().to_vec()]
                    .concat()
            },
            5 => [self.blob(32), self.word()].concat(),
            6 => [self.blob(32), win, lim.clone(), lim, z].concat(),
            9 => [vec![0u8; 32], self.blob(40)].concat(),
            14 => self.blob(32),
            16 => [self.blob(32), self.word()].concat(),
            17 => [self.blob(32), lim.clone(), win, self.word(), if self.r.ch(60) { lim } else { z }].concat(),
            18 => [self.blob(64), self.word()].concat(),
            19 => [self.blob(64), lim.clone(), win, self.word(), if self.r.ch(60) { lim } else { z }].concat(),
            21 => [self.word()].concat(),
            23..=26 => {
                let id: u32 = *self.r.pick(&[0, 0, 1, 1, 2, 256, 257, 65536, 65537, 1 << 24, (1 << 24) + 1]);
                [id.to_le_bytes().to_vec(), if self.r.ch(70) { vec![0; 4] } else { self.blob(4) }].concat()
            },
            _ => vec![],
        };
        if self.r.ch(11) && !b.is_empty() {
            for _ in 0..self.r.range(1, 2) {
                // a number of its own, or a single byte
                let w = self.word();
                let n = b.len();
                if self.r.ch(50) {
                    let at = self.r.below(n / 8) * 8;
                    b[at..at + 8].copy_from_slice(&w);
                } else {
                    let at = self.r.below(n);
                    b[at] = *self.r.pick(&[0, 1, 2, 128, 255]);
                }
            }
        }
        if self.r.ch(3) {
            let n = (b.len() as i64 + self.r.pi(&[-8, -1, 1, 4, 8, 32])).max(0) as usize;
            b.resize(n, 0);
        }
        b
    }

    fn lay_acts(&mut self) -> Vec<u8> {
        let n = if self.r.ch(4) { self.r.pi(&[253, 254, 255, 256, 257]) as usize } else { self.r.pi(&[0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6]) as usize };
        let v2 = self.r.ch(25);
        let mut b = vec![];
        for _ in 0..n {
            let t = if n > 6 {
                *self.r.pick(&[7usize, 8, 12, 13, 15, 20])
            } else if v2 {
                self.r.range(22, 26) as usize
            } else if self.r.ch(3) {
                self.r.range(0, 40) as usize
            } else {
                self.r.range(1, 26) as usize
            };
            let d = if t > 26 || t == 0 { let k = self.r.below(9); self.blob(k) } else { self.lay_act(t) };
            b.extend((t as u16 + if self.r.ch(1) { 256 } else { 0 }).to_le_bytes());
            b.extend((d.len() as u16).to_le_bytes());
            b.extend(if self.r.ch(60) { (b.len() as u32 + 4 + d.len() as u32).to_le_bytes() } else { (self.r.below(400) as u32).to_le_bytes() });
            b.extend(d);
        }
        if self.r.ch(6) && !b.is_empty() {
            let at = self.r.below(b.len().min(60));
            b[at] = *self.r.pick(&[0, 1, 2, 8, 9, 23, 128, 255]);
        }
        match self.r.below(40) {
            0 => b.truncate(self.r.below(b.len() + 1)),
            1 => b.extend(vec![0u8; self.r.below(12)]),
            _ => {},
        }
        b
    }

    fn lay_tail(&mut self) -> Vec<u8> {
        if self.r.ch(25) {
            return vec![];
        }
        let n = if self.r.ch(55) { 1 } else { self.r.range(1, 3) };
        let mut b: Vec<u8> = vec![];
        for _ in 0..n {
            let one = self.r.ch(75);
            let len = if one || self.r.ch(30) { 32 } else { *self.r.pick(&[0usize, 1, 4, 31, 33, 40, 255, 256, 288]) };
            b.push(if one { 1 } else { *self.r.pick(&[0, 2, 3, 129, 255]) });
            b.push(if self.r.ch(85) { 1 } else { *self.r.pick(&[0, 2, 255]) });
            b.extend((len as u16).to_le_bytes());
            b.extend(if self.r.ch(88) { [0u8; 4] } else { *self.r.pick(&[[1, 0, 0, 0], [0, 0, 0, 1], [255, 1, 0, 0], [0, 128, 128, 0], [0, 0, 255, 1]]) });
            b.extend(self.blob(len));
        }
        while self.r.ch(12) && !b.is_empty() {
            let n = b.len();
            match self.r.below(3) {
                0 => b.truncate(n - 1 - self.r.below(n.min(9))),
                1 => b.extend(vec![0u8; self.r.range(1, 9) as usize]),
                _ => {
                    let at = self.r.below(n.min(44));
                    b[at] = *self.r.pick(&[0, 1, 2, 3, 32, 128, 255]);
                },
            }
        }
        b
    }

    /// one part of the account falsified
    fn lay_damage(&mut self) -> Value {
        let r = self.r.below(8);
        match self.r.below(10) {
            0..=2 => {
                if self.r.ch(20) {
                    json!({"s":"dmg","f":"count","r":r,"v":self.r.pi(&[0, 1, 255, 256, 257, 65535]),"abs":true})
                } else {
                    json!({"s":"dmg","f":"count","r":r,"v":self.r.pi(&[-2, -1, 1, 1, 2, 3]),"abs":false})
                }
            },
            3..=5 => {
                let of = self.r.below(4);
                let v = if of == 0 { self.r.pi(&[0, 8, 14, 15, 16, 17, 24, 56]) } else { self.r.pi(&[-48, -16, -8, -1, 0, 1, 8, 15, 16, 17, 32, 40, 65536]) };
                json!({"s":"dmg","f":"end","r":r,"of":of,"v":v})
            },
            6 => json!({"s":"dmg","f":"kind","r":r,"v":self.r.pi(&[0, 9, 10, 255, 256, 257, 65535])}),
            _ => {
                let of = self.r.below(3);
                let v = match of {
                    0 => self.r.pi(&[0, 1, 32, 34, 36, 47, 48, 49, 63, 64]),
                    1 => self.r.pi(&[-8, -1, 0, 1, 8, 15, 16, 17]),
                    _ => self.r.pi(&[-40, -17, -16, -9, -8, -1, 1, 8, 16, 40]),
                };
                json!({"s":"dmg","f":"cut","r":r,"of":of,"v":v})
            },
        }
    }

    /// steps on the bytes of a wallet account
    fn lay(&mut self, tails: bool) -> Value {
        let me = crate::svm::swig_id().to_vec();
        let next = if self.r.ch(70) { 0 } else { self.r.pi(&[1, 250, 255, 256, 65535, 65536]) };
        let h = json!({"id":self.blob(32),"bump":self.r.below(256),"wb":self.r.below(256),"next":next,"subs":self.r.pi(&[0,0,1,258,65536])});
        let mut q: Vec<Value> = vec![];
        let mut n = 0;
        for _ in 0..self.r.range(2, 7) {
            let k = self.r.below(100);
            if self.r.ch(25) {
                q.push(self.lay_damage());
            }
            if tails && k < 40 || k < 8 {
                let by = if tails && self.r.ch(60) {
                    self.lay_tail()
                } else if self.r.ch(80) {
                    [vec![1, 1, 32, 0, 0, 0, 0, 0], self.blob(32)].concat()
                } else {
                    vec![]
                };
                q.push(json!({"s":"tail","by":by}));
            } else if k < 55 && n > 0 {
                q.push(json!({"s":"rem","r":next + if self.r.ch(92) { self.r.below(n) as i64 } else { self.r.pi(&[-1, 7, 256, 65536]) }}));
            } else {
                let t = if self.r.ch(4) { self.r.pi(&[0, 9, 10, 257]) } else { self.r.range(1, 8) };
                let (a, c) = ([0, 32, 72, 33, 104, 33, 80, 80, 128], if self.r.ch(30) { 64 } else { 33 });
                let len = if t == 3 { c } else { a.get(t as usize).copied().unwrap_or(32) };
                let mut d = self.blob(len);
                if t == 4 && self.r.ch(50) {
                    let k = if self.r.ch(85) { 33 } else { self.r.pi(&[32, 34, 63]) as usize };
                    d[k..64].fill(0);
                }
                if t == 7 || t == 8 {
                    d[32] = if self.r.ch(85) { self.r.range(0, 40) } else { self.r.pi(&[41, 42, 255]) } as u8;
                    if self.r.ch(15) {
                        d[..32].copy_from_slice(&me);
                        if self.r.ch(30) {
                            d[self.r.below(32)] ^= 1;
                        }
                    }
                }
                if self.r.ch(5) {
                    d.resize((len as i64 + self.r.pi(&[-32, -1, 1, 8, 31])).max(0) as usize, 0);
                }
                q.push(json!({"s":"add","t":t,"ad":d,"ac":self.lay_acts()}));
                n += 1;
            }
        }
        let cl = self.r.ch(40);
        json!({"i":"lay","w":"A","h":h,"q":q,"cl":cl})
    }

    /// a list of instructions to encode and read back
    fn dec(&mut self) -> Value {
        let pool = [
            "wa:A", "sw:A", "wa:B", "e1", "e2", "e3", "e4", "d1", "d2", "pA", "pB", "tok", "sys", "t1", "t2", "m1", "m2", "pay", "k1", "k2",
        ];
        let fl: Vec<(i64, i64)> = pool.iter().map(|_| (self.r.ch(25) as i64, self.r.ch(50) as i64)).collect();
        let me = self.r.p(&["wa:A", "wa:A", "wa:A", "d1", "sw:A"]);
        let n = if self.r.ch(6) { self.r.range(200, 256) } else { self.r.range(1, 14) } as usize;
        let mut ac: Vec<Value> = vec![];
        for _ in 0..n {
            let j = self.r.below(pool.len());
            let s = if pool[j] == me { 0 } else { fl[j].0 };
            ac.push(json!([pool[j], s, fl[j].1]));
        }
        let enc = self.r.p(&["o", "o", "l", "c", "s"]);
        // the clients' encoders list what is missing
        let any = enc == "c" || enc == "s";
        let k = if self.r.ch(3) { 255 } else { self.r.pi(&[0, 1, 1, 2, 2, 3, 4, 6]) };
        let mut ixs: Vec<Value> = vec![];
        for _ in 0..k {
            let mut one = |g: &mut Gen| -> Value {
                if any && g.r.ch(40) { json!(pool[g.r.below(pool.len())]) } else { ac[g.r.below(ac.len())][0].clone() }
            };
            let na = if k > 6 {
                self.r.below(2)
            } else if self.r.ch(2) {
                *self.r.pick(&[253usize, 254, 255])
            } else if self.r.ch(6) {
                self.r.below(40)
            } else {
                self.r.below(7)
            };
            let p = one(self);
            let a: Vec<Value> = (0..na).map(|_| one(self)).collect();
            let nd = if k > 6 {
                self.r.below(3)
            } else if self.r.ch(4) {
                *self.r.pick(&[255usize, 256, 257, 300])
            } else {
                self.r.below(14)
            };
            let d: Vec<u64> = (0..nd).map(|_| *self.r.pick(&[0u64, 1, 2, 5, 127, 128, 255])).collect();
            ixs.push(json!({"p":p,"a":a,"d":d}));
        }
        let mut mu: Vec<Value> = vec![];
        while self.r.ch(45) && mu.len() < 3 {
            let at = if self.r.ch(50) { self.r.below(12) } else { self.r.below(4000) };
            let v = if self.r.ch(50) { self.r.below(n + 3) as i64 & 255 } else { self.r.pi(&[0, 1, 2, 3, 255, 254, 128]) };
            let m = self.r.p(&["set", "set", "cut", "add"]);
            mu.push(json!({"m":m,"at":if m == "add" { at % 30 } else { at },"v":v}));
        }
        let rk: Vec<&str> = (0..if self.r.ch(30) { self.r.range(1, 3) } else { 0 }).map(|_| pool[self.r.below(pool.len())]).collect();
        let rt: serde_json::Map<String, Value> =
            pool.iter().zip(fl.iter()).map(|(p, f)| (p.to_string(), if *p == me { json!([0, f.1]) } else { json!([f.0, f.1]) })).collect();
        json!({"i":"dec","w":"A","rt":rt,"ac":ac,"me":me,"enc":enc,"int":ixs,"mu":mu,"rk":rk})
    }

    fn life(&mut self, st: &Value) -> Value {
        let gone = gs(&st["sw"]["A"], "ex") == "closed";
        let w = if self.multi && self.r.ch(if gone { 85 } else { 25 }) { "B" } else { "A" };
        let ex = gs(&st["sw"][w], "ex").to_string();
        if ex == "none" || self.r.ch(8) {
            let k = self.any_kinds();
            let mut au = self.new_auth(&k);
            let p0 = self.r.pi(&[7, 7, 7, 8, 8, 1, 15, 20]);
            let mut acts = vec![self.perm(p0)];
            if self.r.ch(40) {
                let extra = self.any_perms(2);
                if self.r.ch(50) {
                    acts.extend(extra)
                } else {
                    acts = extra.into_iter().chain(acts).collect();
                }
            }
            let mut mu = json!({"m":""});
            let mut fl = "".to_string();
            match self.r.below(9) {
                0 => {
                    fl = self.r.p(&["bump", "wbump", "id", "wa", "sw", "wasw", "payns", "alen", "args", "few"]);
                },
                1 => mu = self.mu(acts.len()),
                2 if self.r.ch(50) => {
                    au["fx"] = json!(self.r.p(&["short", "long", "long8", "empty", "type0", "type9", "typebig", "plen", "plen255", "swigprog", "+comp"]));
                    if gs(&au, "t").starts_with("pe") && self.r.ch(40) {
                        au["fx"] = json!("swigprog");
                    }
                    if gs(&au, "fx") == "+comp" && !gs(&au, "t").starts_with("k1") {
                        au["fx"] = json!("");
                    }
                },
                3 if self.r.ch(20) => acts.clear(),
                4 if self.r.ch(40) => {
                    let j = self.r.below(acts.len());
                    let mut a = acts[j].clone();
                    self.twist(&mut a);
                    acts[j] = a;
                },
                _ => {},
            }
            let mut c = self.create(w, au, acts);
            c["mu"] = mu;
            c["fl"] = json!(fl);
            if self.r.ch(85) {
                c["pay"] = json!("pay");
            }
            return c;
        }
        let v2 = gb(&st["sw"][w], "v2");
        if ex == "live" && !v2 {
            // a first-generation wallet: only what a managing role may do with it
            let k = self.r.wt(&[(55, "mig"), (15, "sign"), (10, "xassets"), (20, "add")]);
            return match k {
                "mig" => {
                    let rid = if self.r.ch(60) { self.manager(st, w) } else { self.some_role(st, w) };
                    let mut o = json!({"i":"mig","w":w,"r":rid,"pay":self.pay(),"fl":""});
                    if self.r.ch(12) {
                        o["fl"] = json!(self.r.p(&["wbump", "wa"]));
                    }
                    self.prove(st, &mut o, 8);
                    o
                },
                "sign" => self.sign_any(st, w, 5),
                "xassets" => self.xassets(st, w, 5),
                _ => {
                    let mut o = self.any_add(st, w, false);
                    self.prove(st, &mut o, 5);
                    o
                },
            };
        }
        let k = self.r.wt(&[
            (7, "old"), (3, "mig"), (12, "add"), (4, "rem"), (12, "claim"), (16, "closetok"), (11, "closeswig"), (10, "drain"),
            (7, "fund"), (10, "sign"), (6, "xassets"), (3, "sess"), (3, "upd"), (4, "create"), (5, "cs2"),
        ]);
        match k {
            "old" => {
                if ex == "live" && gs(&st["sw"][w], "cl") == "0" && gi(&st["sw"][w], "sub") == 0 {
                    if self.r.ch(60) {
                        // more roles were added than there are
                        let n = gi(&st["sw"][w], "ctr") + self.r.pi(&[1, 2, 5, 250, 65530]);
                        self.plan.push_back(json!({"i":"old","w":w}));
                        return json!({"i":"ctr","w":w,"a":n});
                    }
                    json!({"i":"old","w":w})
                } else {
                    self.closeswig(st, w, 5)
                }
            },
            "mig" => {
                let rid = self.some_role(st, w);
                let mut o = json!({"i":"mig","w":w,"r":rid,"pay":self.pay(),"fl":""});
                self.prove(st, &mut o, 8);
                o
            },
            "add" => {
                let mut o = self.any_add(st, w, false);
                self.prove(st, &mut o, 8);
                o
            },
            "rem" => self.rem(st, w, 8),
            "claim" => self.claim(st, w, 8),
            "closetok" => self.closetok(st, w, 8),
            "closeswig" => self.closeswig(st, w, 8),
            "drain" => {
                // empty the wallet address down to (nearly) its rent
                let wa = format!("wa:{w}");
                let bal = gi(&st["ac"][&wa], "l") - 128;
                let rid = self.some_role(st, w);
                let a = (bal - self.r.pi(&[0, 0, 0, 1, -1])).max(0);
                let mut o = json!({"i":"sign","w":w,"r":rid,"k1":wa,"ls":[],"os":[],"ro":[],"enc":"o","fl":"",
                    "ix":[{"i":"xfer","f":wa,"t":"d1","a":a,"p":"sys","m":"","au":wa,"k":"","mi":"m1"}]});
                self.prove(st, &mut o, 3);
                o
            },
            "fund" => {
                let n = self.r.p(&["wa:A", "sw:A", "wa:A"]);
                json!({"i":"fund","n":n,"a":if n == "sw:A" { self.r.pi(&[1,5,40,400]) } else { self.r.pi(&[1,5,40]) }})
            },
            "xassets" => self.xassets(st, w, 8),
            "sess" => self.sess(st, w),
            "upd" => {
                let mut o = self.upd(st, w);
                self.prove(st, &mut o, 5);
                o
            },
            "create" => {
                let au = self.ed("e1");
                let acts = vec![self.perm(7)];
                self.create(w, au, acts)
            },
            _ => self.sign_any(st, w, 8),
        }
    }

    /* ------------------------------ next ------------------------------ */
    pub fn next(&mut self, st: &Value) -> Value {
        self.n += 1;
        if self.n == self.crowd {
            if let Some(o) = self.bulk(st) {
                return o;
            }
        }
        let mut o = self.next0(st);
        // an address of the program signs inside the program only
        let relay = |o: &Value| gs(&o["pf"], "m") == "ed" && gs(&o["pf"], "by").starts_with("rv:");
        let never = |o: &Value| gs(&o["pf"], "m") == "ed" && gs(&o["pf"], "by").contains(':') && !relay(o);
        for _ in 0..6 {
            if never(&o) && self.plan.is_empty() {
                o = self.next0(st);
            }
        }
        if never(&o) {
            o["pf"]["v"] = json!("nosig");
        }
        if o.get("pf").is_some()
            && o.get("np").is_none()
            && self.r.ch(3)
            && matches!(gs(&o, "i"), "add" | "rem" | "upd" | "sess" | "repl" | "claim" | "closeswig" | "mig" | "cs1" | "tg1" | "cs2" | "tg2")
        {
            o["np"] = json!(self.r.pi(&[1, 5, 20, 40, 55, 58, 60, 61, 62, 99, 130, 245, 251]));
            o["pp"] = json!("b");
        }
        let signs = matches!(gs(&o, "i"), "sign" | "ss1" | "ss2");
        if relay(&o) || (o.get("pf").is_some() || gs(&o, "i") == "create") && self.plan.is_empty() && self.r.ch(if signs { 2 } else { 7 }) {
            o["via"] = json!(true);
        }
        o
    }
    fn next0(&mut self, st: &Value) -> Value {
        if let Some(mut o) = self.plan.pop_front() {
            if o.get("pf").and_then(|x| x.as_str()) == Some("?") {
                self.prove(st, &mut o, 0);
            }
            return o;
        }
        let prof = self.prof.clone();
        let w: String = if self.multi && self.r.ch(45) { "B".into() } else { "A".into() };
        let w = w.as_str();
        if prof == "life" {
            if self.r.ch(5) {
                return self.lay(true);
            }
            return self.life(st);
        }
        let nroles = roles(st, w).len();
        let mix: Vec<(usize, &str)> = match prof.as_str() {
            "roles" => vec![(34, "add"), (12, "rem"), (32, "upd"), (5, "sess"), (6, "repl"), (4, "claim"), (4, "sign"), (3, "slot"), (3, "cs2"), (2, "fundsw")],
            "auth" => vec![
                (28, "sign"), (4, "odo"), (14, "sess"), (12, "repl"), (8, "add"), (8, "upd"), (4, "rem"), (14, "slot"), (6, "replay"), (3, "claim"),
                (3, "xassets"),
            ],
            "sol" => vec![(66, "sign"), (22, "slot"), (4, "fund"), (4, "upd"), (2, "rem"), (2, "add")],
            "token" | "dest" => vec![(68, "sign"), (18, "slot"), (4, "dep"), (4, "upd"), (2, "freeze"), (2, "add")],
            "stake" => vec![(70, "sign"), (20, "slot"), (3, "fund"), (4, "upd"), (2, "add")],
            "scope" => vec![(70, "sign"), (20, "slot"), (5, "upd"), (3, "add")],
            "programs" => vec![(85, "sign"), (5, "upd"), (5, "add"), (3, "slot")],
            "damage" => vec![(82, "sign"), (4, "freeze"), (5, "fund"), (4, "upd"), (4, "dep")],
            "batch" => vec![(90, "sign"), (4, "fund"), (3, "slot"), (3, "add")],
            "classify" => vec![(86, "sign"), (4, "slot"), (4, "upd"), (3, "dep")],
            "nest" => vec![(66, "sign"), (10, "sub1"), (12, "sub2"), (5, "add"), (3, "upd"), (3, "sess"), (2, "slot"), (2, "fund")],
            "multi" => vec![(60, "sign"), (8, "add"), (5, "rem"), (5, "upd"), (5, "repl"), (12, "sub2"), (4, "sub1"), (3, "slot")],
            "sub1" => vec![(74, "sub1"), (5, "sign"), (8, "fundsub"), (4, "slot"), (4, "upd"), (3, "add"), (2, "rem"), (2, "repl")],
            "sub2" => vec![(72, "sub2"), (5, "sign"), (8, "fundsub"), (4, "slot"), (6, "upd"), (3, "add"), (1, "rem"), (2, "repl")],
            "lamports" => vec![
                (20, "add"), (10, "rem"), (18, "upd"), (12, "sign"), (6, "xassets"), (4, "claim"), (8, "sub1"), (8, "sub2"), (6, "fund"),
                (3, "closetok"), (3, "sess"), (2, "closeswig"), (2, "fundsub"),
            ],
            _ => vec![(1, "sign")],
        };
        if matches!(prof.as_str(), "batch" | "programs" | "nest") && self.r.ch(8) {
            return self.dec();
        }
        if prof == "roles" && self.r.ch(10) || prof == "lamports" && self.r.ch(3) {
            return self.lay(false);
        }
        let mut k = self.r.wt(&mix);
        if k == "add" && nroles > 6 {
            k = "rem";
        }
        let badpct = match prof.as_str() {
            "auth" => 38,
            "roles" | "multi" | "sub1" | "sub2" => 6,
            _ => 3,
        };
        match k {
            "add" => {
                let mut o = self.any_add(st, w, prof == "roles" || (!self.only.is_empty() && self.r.ch(50)));
                self.prove(st, &mut o, badpct);
                o
            },
            "rem" => self.rem(st, w, badpct),
            "upd" => {
                let mut o = self.upd(st, w);
                self.prove(st, &mut o, badpct);
                o
            },
            "sess" => self.sess(st, w),
            "repl" => self.repl(st, w, badpct),
            "claim" => self.claim(st, w, badpct),
            "slot" => self.slot(st),
            "fundsw" => json!({"i":"fund","n":"sw:A","a":self.r.pi(&[1, 60, 400])}),
            "odo" => {
                let v: Vec<i64> = roles(st, w).iter().filter(|r| matches!(gs(&r["au"], "t"), "k1" | "k1s" | "r1" | "r1s")).map(|r| gi(r, "id")).collect();
                if v.is_empty() {
                    return self.slot(st);
                }
                let id = *self.r.pick(&v);
                let a = self.r.pi(&[254, 255, 65534, 65535, 16777214, 16777215, -2, -1, -3]);
                json!({"i":"odo","w":w,"r":id,"a":a})
            },
            "fund" => {
                let n = if prof == "lamports" { self.r.p(&["wa:A", "sw:A", "d1"]) } else { format!("wa:{w}") };
                json!({"i":"fund","n":n,"a":if n == "sw:A" { self.r.pi(&[1,10,50,400,400]) } else { self.r.pi(&[1,10,50]) }})
            },
            "fundsub" => {
                let v: Vec<String> =
                    st["ac"].as_object().unwrap().keys().filter(|k| k.starts_with("s1:") || k.starts_with("as:")).cloned().collect();
                if v.is_empty() {
                    return self.slot(st);
                }
                let n = self.r.pick(&v).clone();
                let have = gi(&st["ac"][&n], "l");
                json!({"i":"fund","n":n,"a":if have == 0 { self.r.pi(&[128, 150]) } else { self.r.pi(&[5, 30, 60]) }})
            },
            "dep" => {
                let v: Vec<String> = st["tk"]
                    .as_object()
                    .unwrap()
                    .iter()
                    .filter(|(k, v)| *k != "_" && gi(v, "st") != 0 && gi(v, "a") < 500)
                    .map(|(k, _)| k.clone())
                    .collect();
                if v.is_empty() {
                    return self.slot(st);
                }
                let n = self.r.pick(&v).clone();
                json!({"i":"dep","n":n,"a":self.r.pi(&[1,10,40])})
            },
            "freeze" => {
                let v: Vec<String> =
                    st["tk"].as_object().unwrap().iter().filter(|(k, v)| *k != "_" && gi(v, "st") != 0).map(|(k, _)| k.clone()).collect();
                if v.is_empty() {
                    return self.slot(st);
                }
                let n = self.r.pick(&v).clone();
                json!({"i":"freeze","n":n,"a":self.r.pi(&[1,2,1])})
            },
            "replay" => {
                if self.hist.is_empty() {
                    return self.slot(st);
                }
                let j = self.r.below(self.hist.len());
                self.hist[j].clone()
            },
            "cs2" | "sub2" => self.sub2(st, w, badpct),
            "sub1" => self.sub1(st, w, badpct),
            "xassets" => self.xassets(st, w, badpct),
            "closetok" => self.closetok(st, w, badpct),
            "closeswig" => self.closeswig(st, w, badpct),
            _ => self.sign_any(st, w, badpct),
        }
    }
    pub fn done(&mut self, op: &Value, ok: bool) {
        let m = gs(&op["pf"], "m");
        if ok && (m == "k1" || m == "r1") {
            self.hist.push(op.clone());
        }
    }
}
