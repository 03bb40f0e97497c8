//! Authority proofs: how a key proves itself for one instruction, well-formed and in
//! many malformed variants whose verdict the specification prescribes.
use serde_json::Value;

use crate::{decode::prefix_bytes, svm::*, world::*};

/// One swig instruction under construction.
pub struct Bld {
    pub metas: Vec<Meta>,
    pub pre: Vec<Ix>,
    pub post: Vec<Ix>,
}
impl Bld {
    pub fn new(metas: Vec<Meta>) -> Self { Bld { metas, pre: vec![], post: vec![] } }
    pub fn at(&mut self, m: Meta) -> usize {
        if let Some(i) = self.metas.iter().position(|x| x.key == m.key) {
            self.merge(&m);
            return i;
        }
        self.metas.push(m);
        self.metas.len() - 1
    }
    pub fn merge(&mut self, m: &Meta) {
        for x in self.metas.iter_mut().filter(|x| x.key == m.key) {
            x.signer |= m.signer;
            x.writable |= m.writable;
        }
    }
    /// account flags are per transaction in the real runtime
    pub fn norm(&mut self) {
        let all = self.metas.clone();
        for m in &all {
            self.merge(m);
        }
    }
}

/// which account a tampering hits: any of them, depending on the message
fn victim(accts: &[u8], signed: &[u8], c: u32) -> usize {
    let n = accts.len() / 40;
    40 * (sha(&[signed, &c.to_le_bytes()])[0] as usize % n)
}

fn accounts_payload(metas: &[Meta]) -> Vec<u8> {
    let mut o = vec![];
    for m in metas {
        o.extend_from_slice(&m.key);
        o.push(m.writable as u8);
        o.push(m.signer as u8);
        o.extend_from_slice(&[0; 6]);
    }
    o
}

/// raw slot of a specification slot
pub fn raw_slot(w: &World, s: i64) -> u64 {
    if s <= w.zero_slot() {
        return 0;
    }
    (w.base as i128 + s as i128).max(0) as u64
}

fn neg_s(sig: &[u8; 64]) -> [u8; 64] {
    // n - s
    let n: [u8; 32] = [
        0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae,
        0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41,
    ];
    let mut o = *sig;
    let mut borrow = 0i32;
    for i in (0..32).rev() {
        let d = n[i] as i32 - sig[32 + i] as i32 - borrow;
        o[32 + i] = d.rem_euclid(256) as u8;
        borrow = (d < 0) as i32;
    }
    o
}

/// Appends what the proof needs and returns the authority payload.
pub fn prove(w: &World, b: &mut Bld, pf: &Value, signed: &[u8], special: Option<Vec<u8>>) -> Vec<u8> {
    let (m, by, v) = (gs(pf, "m"), gs(pf, "by"), gs(pf, "v"));
    b.norm();
    match m {
        "ed" => ed(w, b, by, v),
        "k1" => k1(w, b, by, v, gi(pf, "c") as u32, raw_slot(w, gi(pf, "sl")), signed),
        "r1" => r1(w, b, by, v, gi(pf, "c") as u32, raw_slot(w, gi(pf, "sl")), signed),
        "pe" => pe(w, b, by, v, special),
        _ => vec![],
    }
}

fn ed(w: &World, b: &mut Bld, by: &str, v: &str) -> Vec<u8> {
    let key = w.k(by);
    let i = match v {
        "nosig" => b.at(r(key)),
        _ => b.at(rs(key)),
    };
    b.norm();
    match v {
        "oob" => vec![b.metas.len() as u8],
        "oob2" => vec![255],
        "len0" => vec![],
        "len2" => vec![i as u8, 0],
        "swap" => vec![0],
        "next" => vec![(i as u8).wrapping_sub(1)],
        _ => vec![i as u8],
    }
}

fn k1(w: &World, b: &mut Bld, by: &str, v: &str, c: u32, sl: u64, signed: &[u8]) -> Vec<u8> {
    let mut data = signed.to_vec();
    let mut accts = accounts_payload(&b.metas);
    let (mut hs, mut hc) = (sl, c);
    let mut prefix: &[u8] = b"";
    let mut hprefix: &[u8] = b"";
    match v {
        "data" => {
            if data.is_empty() {
                data.push(1)
            } else {
                let n = data.len() - 1;
                data[n] ^= 1;
            }
        },
        "data0" => {
            if !data.is_empty() {
                data[0] ^= 1
            } else {
                data.push(0)
            }
        },
        "datam" => {
            if data.is_empty() {
                data.push(1)
            } else {
                let n = sha(&[signed, &c.to_le_bytes()])[2] as usize * 7 % data.len();
                data[n] ^= 0x10
            }
        },
        "datalen" => data.push(0),
        "acc" => {
            let n = victim(&accts, signed, c);
            let at = sha(&[signed, &sl.to_le_bytes()])[1] as usize % 32;
            accts[n + at] ^= 1;
        },
        "accflag" => {
            let n = victim(&accts, signed, c);
            accts[n + 32] ^= 1;
        },
        "accsig" => {
            let n = victim(&accts, signed, c);
            accts[n + 33] ^= 1;
        },
        "accdrop" => accts.truncate(accts.len() - 40),
        "acc0" => accts[0] ^= 1,
        "slot" => hs = hs.wrapping_add(1),
        "ctr" => hc = hc.wrapping_add(1),
        "pre" => {
            prefix = b"hello signed message";
            hprefix = prefix;
        },
        "prebad" => {
            prefix = b"hello signed message";
            hprefix = b"hello signed messagf";
        },
        "prenone" => hprefix = b"x",
        _ => {},
    }
    let h = sha(&[&data, &accts, &hs.to_le_bytes(), &hc.to_le_bytes()]);
    let hex: String = h.iter().map(|x| format!("{x:02x}")).collect();
    let hash = keccak(&[hprefix, hex.as_bytes()]);
    let msg = libsecp256k1::Message::parse(&hash);
    let (sig, rec) = libsecp256k1::sign(&msg, &w.k1_secret(by));
    let mut s = sig.serialize();
    let mut rid = rec.serialize();
    if v == "high" {
        s = neg_s(&s);
        rid ^= 1;
    }
    if v == "rec" {
        rid ^= 1;
    }
    if v == "zero" {
        s = [0; 64];
    }
    let mut p = vec![];
    p.extend_from_slice(&sl.to_le_bytes());
    p.extend_from_slice(&c.to_le_bytes());
    p.extend_from_slice(&s);
    p.push(if rid == 0 { 27 } else { 28 });
    p.extend_from_slice(prefix);
    if v == "short" {
        p.truncate(76);
    }
    if v == "tiny" {
        p.truncate(12);
    }
    p
}

pub const ALPH: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
pub fn b64u(d: &[u8]) -> String {
    let mut o = String::new();
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            o.push(ALPH[(n >> (18 - 6 * i)) as usize & 63] as char);
        }
    }
    o
}

/// (tree, encoded bits) for a string of at least two distinct characters
pub fn huffman(s: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let mut chars: Vec<u8> = s.to_vec();
    chars.sort();
    chars.dedup();
    let mut nodes: Vec<[u8; 3]> = chars.iter().map(|c| [0, *c, 0]).collect();
    let mut q: std::collections::VecDeque<usize> = (0..nodes.len()).collect();
    let mut kids = vec![(0usize, 0usize); nodes.len()];
    while q.len() > 1 {
        let a = q.pop_front().unwrap();
        let b = q.pop_front().unwrap();
        nodes.push([1, a as u8, b as u8]);
        kids.push((a, b));
        q.push_back(nodes.len() - 1);
    }
    fn walk(n: usize, nodes: &[[u8; 3]], kids: &[(usize, usize)], p: String, o: &mut Vec<(u8, String)>) {
        if nodes[n][0] == 0 {
            o.push((nodes[n][1], p));
        } else {
            walk(kids[n].0, nodes, kids, format!("{p}0"), o);
            walk(kids[n].1, nodes, kids, format!("{p}1"), o);
        }
    }
    let mut codes = vec![];
    walk(nodes.len() - 1, &nodes, &kids, String::new(), &mut codes);
    let mut bits = String::new();
    for c in s {
        bits.push_str(&codes.iter().find(|x| x.0 == *c).unwrap().1);
    }
    let mut enc = vec![];
    for ch in bits.as_bytes().chunks(8) {
        let mut x = 0u8;
        for (i, b) in ch.iter().enumerate() {
            if *b == b'1' {
                x |= 0x80 >> i;
            }
        }
        enc.push(x);
    }
    (nodes.concat(), enc)
}

fn r1(w: &World, b: &mut Bld, by: &str, v: &str, c: u32, sl: u64, signed: &[u8]) -> Vec<u8> {
    let si = b.at(r(ixs_sysvar()));
    b.norm();
    let pk = w.r1_pub(by);
    let mut data = signed.to_vec();
    let mut accts = accounts_payload(&b.metas);
    let (mut hs, mut hc) = (sl, c);
    match v {
        "data" => {
            if data.is_empty() {
                data.push(1)
            } else {
                let n = data.len() - 1;
                data[n] ^= 1;
            }
        },
        "datam" => {
            if data.is_empty() {
                data.push(1)
            } else {
                let n = sha(&[signed, &c.to_le_bytes()])[2] as usize * 7 % data.len();
                data[n] ^= 0x10
            }
        },
        "datalen" => data.push(0),
        "acc" => {
            let n = victim(&accts, signed, c);
            let at = sha(&[signed, &sl.to_le_bytes()])[1] as usize % 32;
            accts[n + at] ^= 1;
        },
        "accflag" => {
            let n = victim(&accts, signed, c);
            accts[n + 32] ^= 1;
        },
        "accsig" => {
            let n = victim(&accts, signed, c);
            accts[n + 33] ^= 1;
        },
        "acc0" => accts[0] ^= 1,
        "data0" => {
            if !data.is_empty() {
                data[0] ^= 1
            } else {
                data.push(0)
            }
        },
        "accdrop" => accts.truncate(accts.len() - 40),
        "slot" => hs = hs.wrapping_add(1),
        "ctr" => hc = hc.wrapping_add(1),
        _ => {},
    }
    let real = keccak(&[signed, &accounts_payload(&b.metas), &sl.to_le_bytes(), &c.to_le_bytes()]);
    let hash = keccak(&[&data, &accts, &hs.to_le_bytes(), &hc.to_le_bytes()]);
    let mut extra: Vec<u8> = vec![];
    let mut auth = vec![7u8; if v == "walong" { 195 } else { 37 }];
    let origin = "https://swig.example";
    let mut msg: Vec<u8> = match v {
        "wa" | "waord" | "waord2" | "waorig" | "walen" | "wanoorg" | "waauth" | "watree" | "walong" | "wacut"
        | "wafield" | "wacross" => {
            let order: [u8; 4] = match v {
                "waord" => [1, 0, 3, 4],
                "waord2" => [1, 2, 2, 3],
                "wanoorg" => [2, 1, 0, 0],
                "wafield" => [1, 2, 3, 5],
                "wacross" => [2, 3, 1, 4],
                _ => [1, 2, 3, 4],
            };
            if v == "walen" {
                auth = vec![7; 196];
            }
            let mk = |org: &str| {
                let mut f = vec![];
                for o in order {
                    match o {
                        1 => f.push("\"type\":\"webauthn.get\"".to_string()),
                        2 => f.push(format!("\"challenge\":\"{}\"", b64u(&hash))),
                        3 => f.push(format!("\"origin\":\"{org}\"")),
                        4 => f.push("\"crossOrigin\":false".to_string()),
                        _ => {},
                    }
                }
                format!("{{{}}}", f.join(","))
            };
            let json = mk(if v == "waorig" { "https://evil.example" } else { origin });
            let (mut tree, enc) = huffman(origin.as_bytes());
            if v == "watree" {
                tree.pop();
            }
            extra.extend_from_slice(&1u16.to_le_bytes());
            extra.extend_from_slice(&(auth.len() as u16).to_le_bytes());
            let mut pa = auth.clone();
            if v == "waauth" {
                pa[32] ^= 1;
            }
            extra.extend_from_slice(&pa);
            extra.extend_from_slice(&order);
            extra.extend_from_slice(&(origin.len() as u16).to_le_bytes());
            extra.extend_from_slice(&(tree.len() as u16).to_le_bytes());
            extra.extend_from_slice(&(enc.len() as u16).to_le_bytes());
            extra.extend_from_slice(&tree);
            extra.extend_from_slice(&enc);
            if v == "wacut" {
                extra.truncate(extra.len() - 1);
            }
            [auth.clone(), sha(&[json.as_bytes()]).to_vec()].concat()
        },
        "waj" | "wachal" | "watype" | "wanest" | "wajlen" | "waesc" | "waext" | "wajauth" | "waorigj" | "wachals"
        | "wanotype" | "wajbig" | "walongj" | "wanum" => {
            if v == "walongj" {
                auth = vec![7; 195];
            }
            let ch = b64u(&hash);
            let other = b64u(&sha(&[&hash]));
            let json = match v {
                "wachal" => format!("{{\"type\":\"webauthn.get\",\"challenge\":\"{other}\",\"origin\":\"{origin}\"}}"),
                "wachals" => format!("{{\"type\":\"webauthn.get\",\"challenge\":\"{ch}A\",\"origin\":\"{origin}\"}}"),
                "watype" => format!("{{\"type\":\"webauthn.create\",\"challenge\":\"{ch}\",\"origin\":\"{origin}\"}}"),
                "wanotype" => format!("{{\"challenge\":\"{ch}\",\"origin\":\"{origin}\"}}"),
                "wanest" => format!("{{\"type\":\"webauthn.get\",\"x\":{{\"challenge\":\"{ch}\"}},\"origin\":\"{origin}\"}}"),
                "wanum" => format!("{{\"type\":\"webauthn.get\",\"challenge\":7,\"x\":\"{ch}\"}}"),
                "waorigj" => format!("{{\"type\":\"webauthn.get\",\"challenge\":\"{other}\",\"origin\":\"x\",\"challenge\":\"{ch}\"}}"),
                "waesc" => format!("{{\"type\":\"webauthn.get\",\"a\\\"b\":1,\"challenge\":\"{ch}\"}}"),
                "waext" => format!(
                    "{{ \"x\" : {{ \"challenge\" : \"no\", \"y\":[1,2] }} , \"type\" : \"webauthn.get\" ,\n \"challenge\" : \"{ch}\",\"tokenBinding\":{{}},\"origin\":\"{origin}\"}}"
                ),
                "wajbig" => format!("{{\"type\":\"webauthn.get\",\"challenge\":\"{ch}\",\"p\":\"{}\"}}", "z".repeat(1000)),
                _ => format!("{{\"type\":\"webauthn.get\",\"challenge\":\"{ch}\",\"origin\":\"{origin}\",\"crossOrigin\":false}}"),
            };
            extra.extend_from_slice(&2u16.to_le_bytes());
            extra.extend_from_slice(&(auth.len() as u16).to_le_bytes());
            let mut pa = auth.clone();
            if v == "wajauth" {
                pa[0] ^= 1;
            }
            extra.extend_from_slice(&pa);
            extra.extend_from_slice(&(json.len() as u16).to_le_bytes());
            extra.extend_from_slice(json.as_bytes());
            if v == "wajlen" {
                extra.push(b' ');
            }
            [auth.clone(), sha(&[json.as_bytes()]).to_vec()].concat()
        },
        "kind3" => {
            extra.extend_from_slice(&3u16.to_le_bytes());
            extra.extend_from_slice(&[0; 20]);
            hash.to_vec()
        },
        "kind1b" => {
            extra.push(1);
            hash.to_vec()
        },
        _ => hash.to_vec(),
    };
    let _ = real;
    if v == "msg" {
        msg.push(0);
    }
    if v == "msgcut" {
        msg.pop();
    }
    let mk = |pk: &[u8; 33], msg: &[u8], n: usize| {
        let sig = r1_sign(pk, msg);
        let mut d = vec![n as u8, 0];
        let start = 2 + 14 * n;
        let mo = start + 97 + if v == "offs" { 4 } else { 0 };
        for _ in 0..n {
            let idx: u16 = if v == "idx" { 0 } else { u16::MAX };
            for x in [start as u16 + 33, u16::MAX, start as u16, u16::MAX, mo as u16, msg.len() as u16, idx] {
                d.extend_from_slice(&x.to_le_bytes());
            }
        }
        d.extend_from_slice(pk);
        d.extend_from_slice(&sig);
        if v == "offs" {
            d.extend_from_slice(&[0; 4]);
        }
        d.extend_from_slice(msg);
        d
    };
    let mut pd = mk(&pk, &msg, if v == "two" { 2 } else { 1 });
    if v == "pkoff" {
        // verifies another key's signature, but shows ours at the fixed offset
        let evil = w.r1_pub("q9");
        let sig = r1_sign(&evil, &msg);
        let at = pd.len() as u16;
        pd[2 + 4..2 + 6].copy_from_slice(&at.to_le_bytes());
        pd[49..113].copy_from_slice(&sig);
        pd.extend_from_slice(&evil);
    }
    if v == "sigoff" {
        // verifies the other key's signature over a message placed elsewhere
        let evil = w.r1_pub("q9");
        let m2 = b"something else entirely, 32 byte".to_vec();
        let sig = r1_sign(&evil, &m2);
        let base = pd.len() as u16;
        for (o, x) in [(0usize, base), (4, base + 64), (8, base + 97)] {
            pd[2 + o..4 + o].copy_from_slice(&x.to_le_bytes());
        }
        pd.extend_from_slice(&sig);
        pd.extend_from_slice(&evil);
        pd.extend_from_slice(&m2);
    }
    let prog = if v == "prog" { w.k("pA") } else { r1_id() };
    let mut pre = Ix { program: prog, metas: vec![], data: pd };
    if v == "prog" {
        pre.data[0] = 1;
    }
    let filler = Ix { program: w.k("pB"), metas: vec![], data: vec![0] };
    match v {
        "nopre" => {},
        "wrongpre" => b.pre.push(filler),
        "gap" => {
            b.pre.push(pre);
            b.pre.push(filler);
        },
        "after" => {
            b.pre.push(filler);
            b.post.push(pre);
        },
        "far" => {
            b.pre.push(filler);
            b.pre.push(pre);
        },
        _ => b.pre.push(pre),
    }
    let mut p = vec![];
    p.extend_from_slice(&sl.to_le_bytes());
    p.extend_from_slice(&c.to_le_bytes());
    p.push(match v {
        "sysv" => 0,
        "sysoob" => b.metas.len() as u8,
        _ => si as u8,
    });
    p.extend_from_slice(&[0; 4]);
    p.extend_from_slice(&extra);
    if v == "short" {
        p.truncate(16);
    }
    if v == "tiny" {
        p.truncate(8);
    }
    p
}

fn pe(w: &World, b: &mut Bld, by: &str, v: &str, special: Option<Vec<u8>>) -> Vec<u8> {
    // "..2": the same, but the instruction is pointed at explicitly
    let (v, at) = match v {
        "acc02" | "acc12" | "swap2" | "accs2" | "one2" | "none2" | "prog2" | "pref2" | "preflast2" | "shortpref2" | "more2"
        | "exact2" => (&v[..v.len() - 1], true),
        _ => (v, false),
    };
    let (prog, px) = by.split_once(':').unwrap_or((by, "f4"));
    let si = b.at(r(ixs_sysvar()));
    b.norm();
    let mut data = prefix_bytes(px);
    if let Some(s) = special {
        data = s;
    } else {
        match v {
            "exact" => {},
            _ => data.extend_from_slice(&[1, 2, 3, 4, 5]),
        }
    }
    match v {
        "pref" if !data.is_empty() => data[0] ^= 4,
        "preflast" if !data.is_empty() => {
            let n = (prefix_bytes(px).len().max(1) - 1).min(data.len() - 1);
            data[n] ^= 4
        },
        "shortpref" => data.truncate(prefix_bytes(px).len().saturating_sub(1)),
        _ => {},
    }
    let program = match v {
        "prog" => w.k(if prog == "pA" { "pB" } else { "pA" }),
        _ => w.k(prog),
    };
    let mut m = vec![r(b.metas[0].key), r(b.metas[1].key)];
    match v {
        "acc0" => m[0] = r(w.k("x")),
        "acc1" => m[1] = r(w.k("x")),
        "swap" => m.swap(0, 1),
        "accs" => m = vec![r(w.k("x")), m[0].clone(), m[1].clone()],
        "one" => m.truncate(1),
        "none" => m.clear(),
        "more" => m.push(r(w.k("x"))),
        _ => {},
    }
    let ix = Ix { program, metas: m, data };
    let filler = Ix { program: w.k("pC"), metas: vec![], data: vec![0, 9] };
    match v {
        "ok2" => {
            b.pre.push(ix);
            b.pre.push(filler);
        },
        "after" => {
            b.pre.push(filler);
            b.post.push(ix);
        },
        "fut" => {
            b.pre.push(filler);
            b.post.push(ix);
        },
        "cur0" => {},
        "far" => {
            b.pre.push(ix);
            b.pre.push(filler);
        },
        _ if at => {
            b.pre.push(ix);
            b.pre.push(filler);
        },
        _ => b.pre.push(ix),
    }
    match v {
        _ if at => vec![si as u8, 0],
        "ok2" => vec![si as u8, 0],
        "fut" => vec![si as u8, 2],
        "self2" => vec![si as u8, 1],
        "sys" => vec![0],
        "sysoob" => vec![b.metas.len() as u8],
        "len3" => vec![si as u8, 0, 0],
        "len0" => vec![],
        _ => vec![si as u8],
    }
}
