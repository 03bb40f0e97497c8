//! Names <-> real keys, unit scaling, initial accounts.
use std::collections::BTreeMap;

use serde_json::{json, Value};

use crate::svm::*;

pub const NEG: i64 = -1_000_000_000;

#[derive(Clone)]
pub struct World {
    pub svm: Svm,
    pub seed: u64,
    /// lamports per unit / token base units per unit / first slot
    pub s: u64,
    pub t: u64,
    pub base: u64,
    pub names: BTreeMap<Key, String>,
    pub keys: BTreeMap<String, Key>,
    /// tracked accounts, in order
    pub tracked: Vec<String>,
    pub toks: Vec<String>,
    pub stks: Vec<String>,
    pub scps: BTreeMap<String, ScpCfg>,
    /// first contents of token and stake accounts
    pub first: BTreeMap<String, Vec<u8>>,
    pub wallets: Vec<String>,
    pub subs1: Vec<String>,
    pub subs2: Vec<u32>,
    /// accepted secp authorisations, for replays: (op json, tx)
    pub past: Vec<(Value, Vec<Ix>)>,
}

/// A scripted program account with one numeric balance field.
#[derive(Clone, Debug)]
pub struct ScpCfg {
    pub owner: String,
    pub len: usize,
    pub start: usize,
    pub end: usize,
    pub scale: u128,
}

pub fn gs<'a>(v: &'a Value, k: &str) -> &'a str { v.get(k).and_then(|x| x.as_str()).unwrap_or("") }
pub fn gi(v: &Value, k: &str) -> i64 { v.get(k).and_then(|x| x.as_i64()).unwrap_or(0) }
pub fn gb(v: &Value, k: &str) -> bool { v.get(k).and_then(|x| x.as_bool()).unwrap_or(false) }
pub fn ga<'a>(v: &'a Value, k: &str) -> Vec<&'a Value> {
    v.get(k).and_then(|x| x.as_array()).map(|a| a.iter().collect()).unwrap_or_default()
}

pub const K1N: usize = 3;
pub const EDN: usize = 7;

/// where the keys of a family differ from each other
fn spot(fam: &[u8], seed: u64) -> usize {
    let h = sha(&[b"spot", fam, &seed.to_le_bytes()]);
    *[0usize, 31, 31, 16, 15, 30, 8, h[1] as usize % 32].get(h[0] as usize % 8).unwrap()
}
/// Keys of one family (e1, e2, ..) agree in all but one byte, so that a comparison that
/// overlooks any part of a key shows.
fn near(n: &str, seed: u64) -> Key {
    let b = n.as_bytes();
    let p = b.iter().position(|c| c.is_ascii_digit()).unwrap_or(b.len());
    let (fam, idx) = if n.contains(':') {
        (n.to_string(), 0)
    } else if b.len() == 2 && b[0] == b'p' {
        ("p".to_string(), b[1] - b'A')
    } else {
        let q = p + b[p..].iter().take_while(|c| c.is_ascii_digit()).count();
        (format!("{}.{}", &n[..p], &n[q..]), n[p..q].parse::<u8>().unwrap_or(0))
    };
    let mut k = sha(&[b"key", fam.as_bytes(), &seed.to_le_bytes()]);
    k[spot(fam.as_bytes(), seed)] ^= idx;
    k
}

impl World {
    pub fn new(seed: u64, s: u64, t: u64, base: u64) -> Self {
        let mut w = World {
            svm: Svm::new(s / 2),
            seed,
            s,
            t,
            base,
            names: BTreeMap::new(),
            keys: BTreeMap::new(),
            tracked: vec![],
            toks: vec![],
            stks: vec![],
            scps: BTreeMap::new(),
            first: BTreeMap::new(),
            wallets: vec![],
            subs1: vec![],
            subs2: vec![],
            past: vec![],
        };
        w.svm.slot = base;
        for (n, k) in [
            ("sys", SYSTEM),
            ("tok", token_id()),
            ("t22", token22_id()),
            ("stk", stake_id()),
            ("swig", swig_id()),
            ("ixs", ixs_sysvar()),
            ("r1p", r1_id()),
        ] {
            w.reg(n, k);
            w.svm.set(k, Acct { owner: IDS.with(|i| i.native), lamports: 1, data: vec![], exec: true });
        }
        w.reg("0", [0u8; 32]);
        w.reg("relay", relay_id());
        w.svm.set(relay_id(), Acct { owner: IDS.with(|i| i.bpf), lamports: 1, data: vec![], exec: true });
        for i in 1..=2 {
            w.key(&format!("rv:{i}"));
        }
        w.names.insert(SYSTEM, "sys".into());
        for p in ["pA", "pB", "pC", "~sys", "~tok", "~t22", "~stk"] {
            let k = w.key(p);
            w.svm.puppets.insert(k);
            w.svm.set(k, Acct { owner: IDS.with(|i| i.bpf), lamports: 1, data: vec![], exec: true });
        }
        for i in 1..=EDN {
            w.key(&format!("e{i}"));
        }
        for i in 1..=4 {
            w.key(&format!("d{i}"));
        }
        for m in ["m1", "m2", "m3", "m4", "pay", "pay2", "x"] {
            w.key(m);
        }
        for i in 1..=8 {
            for p in ["t", "u", "v", "z", "c"] {
                w.key(&format!("{p}{i}"));
            }
        }
        for i in 0..4 {
            for p in ["s", "a"] {
                w.key(&format!("{p}{i}t"));
            }
        }
        for a in ["A", "B"] {
            let id = w.id(a);
            let (sw, _) = find_pda(&[b"swig", &id], &swig_id());
            w.reg(&format!("sw:{a}"), sw);
            let (wa, _) = find_pda(&[b"swig-wallet-address", &sw], &swig_id());
            w.reg(&format!("wa:{a}"), wa);
            for r in (0..16u32).chain(250..262).chain(65532..65542) {
                let (k, _) = find_pda(&[b"sub-account", &id, &r.to_le_bytes()], &swig_id());
                w.reg(&format!("s1:{a}:{r}"), k);
            }
            for r in (0..8u32).chain(254..260).chain(65534..65539) {
                let (k, _) = find_pda(&[b"sub-account-v2-state", &id, &r.to_le_bytes()], &swig_id());
                w.reg(&format!("st:{a}:{r}"), k);
                let (k, _) = find_pda(&[b"sub-account-v2", &id, &r.to_le_bytes()], &swig_id());
                w.reg(&format!("as:{a}:{r}"), k);
            }
        }
        w
    }
    pub fn id(&self, w: &str) -> Key {
        let mut k = sha(&[b"id", &self.seed.to_le_bytes()]);
        if w == "B" {
            k[spot(b"id", self.seed)] ^= 2;
        }
        k
    }
    pub fn reg(&mut self, n: &str, k: Key) {
        self.names.insert(k, n.to_string());
        self.keys.insert(n.to_string(), k);
    }
    pub fn key(&mut self, n: &str) -> Key {
        if let Some(k) = self.keys.get(n) {
            return *k;
        }
        let k = self.k(n);
        self.reg(n, k);
        k
    }
    pub fn k(&self, n: &str) -> Key {
        match self.keys.get(n) {
            Some(k) => *k,
            None => match n.strip_prefix('~') {
                // somebody whose key agrees with that of an address of the wallet in all but one byte
                Some(b) => {
                    let mut k = self.k(b);
                    k[spot(n.as_bytes(), self.seed)] ^= 1;
                    k
                },
                None => near(n, self.seed),
            },
        }
    }
    pub fn name(&self, k: &[u8]) -> String {
        let mut a = [0u8; 32];
        a.copy_from_slice(k);
        match self.names.get(&a) {
            Some(n) => n.clone(),
            None => format!("?{:02x}{:02x}{:02x}{:02x}", k[0], k[1], k[2], k[3]),
        }
    }
    /// key field inside stored data, where all-zero means "none"
    pub fn dkey(&self, k: &[u8]) -> String {
        if k.iter().all(|b| *b == 0) {
            "0".into()
        } else {
            self.name(k)
        }
    }
    pub fn k1_secret(&self, n: &str) -> libsecp256k1::SecretKey {
        libsecp256k1::SecretKey::parse(&sha(&[b"k1", n.as_bytes(), &self.seed.to_le_bytes()])).unwrap()
    }
    pub fn k1_pub(&self, n: &str) -> [u8; 64] {
        let pk = libsecp256k1::PublicKey::from_secret_key(&self.k1_secret(n)).serialize();
        pk[1..].try_into().unwrap()
    }
    pub fn k1_comp(&self, n: &str) -> [u8; 33] {
        libsecp256k1::PublicKey::from_secret_key(&self.k1_secret(n)).serialize_compressed()
    }
    pub fn r1_pub(&self, n: &str) -> [u8; 33] {
        let mut o = [2u8; 33];
        o[1..].copy_from_slice(&sha(&[b"r1", &self.seed.to_le_bytes()]));
        match n {
            "q2" => o[0] = 3,
            "q3" => o[1 + spot(b"r1", self.seed)] ^= 1,
            "q1" => {},
            _ => o[1..].copy_from_slice(&sha(&[b"r1", n.as_bytes(), &self.seed.to_le_bytes()])),
        }
        o
    }
    pub fn pubname33(&self, b: &[u8]) -> String {
        for i in 1..=K1N {
            let n = format!("s{i}");
            if self.k1_comp(&n)[..] == *b {
                return n;
            }
        }
        for i in 1..=K1N {
            let n = format!("q{i}");
            if self.r1_pub(&n)[..] == *b {
                return n;
            }
        }
        format!("?{:02x}{:02x}{:02x}", b[0], b[1], b[2])
    }
    pub fn lam(&self, units: i64) -> u64 { (units as u64).wrapping_mul(self.s) }
    pub fn units(&self, lam: u64) -> Value { scaled(lam as u128, self.s as u128) }
    pub fn tk(&self, units: i64) -> u64 { (units as u64).wrapping_mul(self.t) }
    pub fn tunits(&self, x: u64) -> Value { scaled(x as u128, self.t as u128) }
    pub fn slot_u(&self, raw: u64) -> Value {
        let d = raw as i128 - self.base as i128;
        if d < NEG as i128 {
            json!(NEG)
        } else if d > 2_000_000_000 {
            json!(2_000_000_000)
        } else {
            json!(d as i64)
        }
    }
    pub fn zero_slot(&self) -> i64 {
        if self.base > (-NEG) as u64 {
            NEG
        } else {
            -(self.base as i64)
        }
    }
    pub fn slot_now(&self) -> i64 { (self.svm.slot - self.base) as i64 }

    /* ------------ initial accounts ------------ */
    pub fn track(&mut self, n: &str) {
        if !self.tracked.iter().any(|x| x == n) {
            self.key(n);
            self.tracked.push(n.to_string());
        }
    }
    pub fn plain(&mut self, n: &str, units: i64) {
        self.track(n);
        let k = self.key(n);
        let l = self.lam(units);
        if l > 0 {
            self.svm.set(k, Acct { owner: SYSTEM, lamports: l, data: vec![], exec: false });
        }
    }
    pub fn token_acct(&mut self, n: &str, prog: &str, mint: &str, auth: &str, amt: i64, len: usize) {
        self.track(n);
        self.toks.push(n.to_string());
        let k = self.key(n);
        let mut d = vec![0u8; len];
        d[0..32].copy_from_slice(&self.key(mint));
        let a = self.key(auth);
        d[32..64].copy_from_slice(&a);
        d[64..72].copy_from_slice(&self.tk(amt).to_le_bytes());
        d[108] = 1;
        if auth.starts_with('~') {
            // e6 may spend for this one
            let k = self.key("e6");
            d[72..76].copy_from_slice(&1u32.to_le_bytes());
            d[76..108].copy_from_slice(&k);
            d[121..129].copy_from_slice(&self.tk(amt).to_le_bytes());
        }
        let l = self.svm.rent(len);
        let owner = self.key(prog);
        self.first.insert(n.to_string(), d.clone());
        self.svm.set(k, Acct { owner, lamports: l, data: d, exec: false });
    }
    pub fn stake_acct(&mut self, n: &str, wd: &str, del: i64, extra: i64) {
        self.track(n);
        self.stks.push(n.to_string());
        let k = self.key(n);
        let mut d = vec![0u8; 200];
        d[0..4].copy_from_slice(&2u32.to_le_bytes());
        let a = self.key(wd);
        d[12..44].copy_from_slice(&a);
        d[44..76].copy_from_slice(&a);
        d[156..164].copy_from_slice(&self.lam(del).to_le_bytes());
        let l = self.svm.rent(200) + self.lam(del) + self.lam(extra);
        self.first.insert(n.to_string(), d.clone());
        self.svm.set(k, Acct { owner: stake_id(), lamports: l, data: d, exec: false });
    }
    pub fn scoped_acct(&mut self, n: &str, cfg: ScpCfg, bal: i64) {
        self.track(n);
        let k = self.key(n);
        let mut d = vec![0u8; cfg.len];
        for (i, b) in d.iter_mut().enumerate() {
            *b = (i as u8).wrapping_mul(7) | 1;
        }
        // never looks like a token/stake account of the wallet
        put_num(&mut d, cfg.start, cfg.end, bal as u128 * cfg.scale);
        let owner = self.key(&cfg.owner);
        let l = self.svm.rent(cfg.len) + self.lam(50);
        self.svm.set(k, Acct { owner, lamports: l, data: d, exec: false });
        self.scps.insert(n.to_string(), cfg);
    }
}

pub fn put_num(d: &mut [u8], a: usize, b: usize, v: u128) {
    if a >= b {
        return;
    }
    let bytes = v.to_le_bytes();
    d[a..b].copy_from_slice(&bytes[..b - a]);
}
pub fn get_num(d: &[u8], a: usize, b: usize) -> u128 {
    let mut x = [0u8; 16];
    let n = (b - a).min(16);
    x[..n].copy_from_slice(&d[a..a + n]);
    u128::from_le_bytes(x)
}

pub fn scaled(v: u128, s: u128) -> Value {
    if v % s == 0 && v / s <= 2_147_483_600 {
        json!((v / s) as i64)
    } else if v % s == 0 && v / s < (1u128 << 63) {
        json!(2_147_483_601i64)
    } else {
        // not a whole number of units: never prescribed by the specification
        json!(-777i64)
    }
}
