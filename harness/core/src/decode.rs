//! Independent decoder: raw account bytes -> the specification's abstract state (JSON).
use serde_json::{json, Map, Value};

use crate::{svm::*, world::*};

pub fn u16a(d: &[u8], o: usize) -> usize { u16::from_le_bytes(d[o..o + 2].try_into().unwrap()) as usize }
pub fn u32a(d: &[u8], o: usize) -> u32 { u32::from_le_bytes(d[o..o + 4].try_into().unwrap()) }
pub fn u64a(d: &[u8], o: usize) -> u64 { u64::from_le_bytes(d[o..o + 8].try_into().unwrap()) }
pub fn u128a(d: &[u8], o: usize) -> u128 { u128::from_le_bytes(d[o..o + 16].try_into().unwrap()) }

pub fn act(p: i64) -> Map<String, Value> {
    let mut m = Map::new();
    m.insert("p".into(), json!(p));
    m.insert("k".into(), json!("0"));
    m.insert("k2".into(), json!("0"));
    for f in ["a", "l", "w", "r", "id"] {
        m.insert(f.into(), json!(0));
    }
    m.insert("s".into(), json!([0, 0, 0]));
    m
}

fn window(w: u64) -> Value { json!(if w > 2_000_000_000 { 2_000_000_000i64 } else { w as i64 }) }

pub const ACT_LEN: [usize; 27] = [
    0, 8, 32, 32, 144, 40, 64, 0, 0, 72, 8, 32, 0, 0, 32, 0, 40, 64, 72, 96, 0, 8, 0, 8, 8, 8, 8,
];

/// decode one action body
fn action(w: &World, ty: usize, b: &[u8], bad: &mut String) -> Value {
    let mut m = act(ty as i64);
    if ty >= ACT_LEN.len() || ty == 0 || b.len() != act_len(ty) {
        bad.push_str(&format!("action {ty} len {};", b.len()));
        return Value::Object(m);
    }
    let mut s = |k: &str, v: Value| {
        m.insert(k.into(), v);
    };
    match ty {
        1 | 10 => s("a", w.units(u64a(b, 0))),
        2 | 11 => {
            s("l", w.units(u64a(b, 0)));
            s("w", window(u64a(b, 8)));
            s("r", w.slot_u(u64a(b, 16)));
            s("a", w.units(u64a(b, 24)));
        },
        3 => s("k", json!(w.name(&b[0..32]))),
        4 => {
            let target = w.name(&b[80..112]);
            let sc = w.scps.get(&target).map(|c| c.scale).unwrap_or(1);
            s("a", scaled(u128a(b, 0), sc));
            s("l", scaled(u128a(b, 16), sc));
            s("w", window(u64a(b, 32)));
            s("r", w.slot_u(u64a(b, 40)));
            s("k2", json!(w.name(&b[48..80])));
            s("k", json!(target));
            s("id", json!(u64a(b, 112) as i64));
            s("s", json!([u64a(b, 120) as i64, u64a(b, 128) as i64, u64a(b, 136) as i64]));
        },
        5 => {
            s("k", json!(w.name(&b[0..32])));
            s("a", w.tunits(u64a(b, 32)));
        },
        6 => {
            s("k", json!(w.name(&b[0..32])));
            s("w", window(u64a(b, 32)));
            s("l", w.tunits(u64a(b, 40)));
            s("a", w.tunits(u64a(b, 48)));
            s("r", w.slot_u(u64a(b, 56)));
        },
        9 => {
            s("k", json!(w.dkey(&b[0..32])));
            s("id", json!(b[33] as i64));
            s("r", json!(u32a(b, 36) as i64));
            s("k2", json!(match () {
                _ if b[40..72] == [0u8; 32] => "0".to_string(),
                _ if b[40..72] == w.id("A") => "A".into(),
                _ if b[40..72] == w.id("B") => "B".into(),
                _ => "?".into(),
            }));
            // the stored bump must be the canonical one
            if b[0..32] != [0u8; 32] {
                let (k, bump) = find_pda(&[b"sub-account", &b[40..72], &b[36..40]], &swig_id());
                if k[..] != b[0..32] || bump != b[32] {
                    bad.push_str("subaccount bump;");
                }
            }
        },
        14 => {},
        16 => {
            s("k", json!(w.name(&b[0..32])));
            s("a", w.units(u64a(b, 32)));
        },
        17 => {
            s("k", json!(w.name(&b[0..32])));
            s("l", w.units(u64a(b, 32)));
            s("w", window(u64a(b, 40)));
            s("r", w.slot_u(u64a(b, 48)));
            s("a", w.units(u64a(b, 56)));
        },
        18 => {
            s("k", json!(w.name(&b[0..32])));
            s("k2", json!(w.name(&b[32..64])));
            s("a", w.tunits(u64a(b, 64)));
        },
        19 => {
            s("k", json!(w.name(&b[0..32])));
            s("k2", json!(w.name(&b[32..64])));
            s("l", w.tunits(u64a(b, 64)));
            s("w", window(u64a(b, 72)));
            s("r", w.slot_u(u64a(b, 80)));
            s("a", w.tunits(u64a(b, 88)));
        },
        21 | 23 | 24 | 25 | 26 => s("id", json!(u32a(b, 0) as i64)),
        _ => {},
    }
    Value::Object(m)
}
pub fn act_len(ty: usize) -> usize { ACT_LEN[ty] }

pub const AUTH_NAMES: [&str; 9] = ["?", "ed", "eds", "k1", "k1s", "r1", "r1s", "pe", "pes"];
pub const AUTH_LEN: [usize; 9] = [0, 32, 80, 40, 88, 40, 88, 80, 128];

fn authority(w: &World, ty: usize, b: &[u8], bad: &mut String) -> Value {
    if ty == 0 || ty > 8 || b.len() != AUTH_LEN[ty] {
        bad.push_str(&format!("authority {ty} len {};", b.len()));
        return json!({"t":"?","k":"?","odo":0,"mx":0,"sk":"0","se":0});
    }
    let t = AUTH_NAMES[ty];
    let (k, odo, so) = match ty {
        1 | 2 => (w.name(&b[0..32]), 0, 32),
        3..=6 => {
            if b[33..36] != [0, 0, 0] {
                bad.push_str("authority padding;");
            }
            (w.pubname33(&b[0..33]), u32a(b, 36) as i64, 40)
        },
        _ => {
            let n = b[32] as usize;
            if n > 40 || b[40 + n.min(40)..80].iter().any(|x| *x != 0) {
                bad.push_str("prefix;");
            }
            (format!("{}:{}", w.name(&b[0..32]), prefix_name(&b[40..40 + n.min(40)])), 0, 80)
        },
    };
    // the odometer is stored relative to nothing; values above 2^31 are reported modulo a tag
    let odo = if odo > 2_000_000_000 { odo - 4_294_967_296 } else { odo };
    if ty % 2 == 0 {
        let sk = w.dkey(&b[so..so + 32]);
        json!({"t":t,"k":k,"odo":odo,"mx":window(u64a(b, so + 32)),"sk":sk,"se":w.slot_u(u64a(b, so + 40))})
    } else {
        json!({"t":t,"k":k,"odo":odo,"mx":0,"sk":"0","se":0})
    }
}
pub fn prefix_bytes(n: &str) -> Vec<u8> {
    match n {
        "f0" => vec![],
        "fr" => b"rplauth1".to_vec(),
        "f1" => vec![9],
        "f4" => vec![1, 2, 3, 4],
        "f8" => vec![8, 7, 6, 5, 4, 3, 2, 1],
        "f40" => (0..40).map(|i| 100 + i as u8).collect(),
        _ => n.as_bytes().to_vec(),
    }
}
pub fn prefix_name(b: &[u8]) -> String {
    for n in ["f0", "f1", "f4", "f8", "f40", "fr"] {
        if prefix_bytes(n) == b {
            return n.into();
        }
    }
    "f?".into()
}

/// Role table of a wallet account decoded from raw bytes.
pub fn swig(w: &World, wn: &str) -> Value {
    let a = w.svm.get(&w.k(&format!("sw:{wn}")));
    let empty = |ex: &str, bad: String| {
        json!({"ex":ex,"ctr":0,"sub":0,"v2":false,"cl":"0","ro":[],"bad":bad,"rd":"","tl":0})
    };
    if a.lamports == 0 && a.data.is_empty() {
        return empty("none", String::new());
    }
    let d = &a.data;
    if a.owner != swig_id() {
        return empty("none", if a.data.is_empty() { String::new() } else { "owner;".into() });
    }
    if d.len() == 1 && d[0] == 255 {
        return empty("closed", String::new());
    }
    if d.len() < 48 || d[0] != 1 {
        return empty("bad", format!("disc {:?} len {}", d.first(), d.len()));
    }
    let mut bad = String::new();
    let id = w.id(wn);
    if d[2..34] != id {
        bad.push_str("id;");
    }
    if d[1] != find_pda(&[b"swig", &id], &swig_id()).1 {
        bad.push_str("bump;");
    }
    let n = u16a(d, 34);
    let ctr = u32a(d, 36);
    let wb = find_pda(&[b"swig-wallet-address", &w.k(&format!("sw:{wn}"))], &swig_id()).1;
    let v2 = d[40] != 0 && d[41..44] == [0, 0, 0];
    if v2 && d[40] != wb {
        bad.push_str("wallet bump;");
    }
    if !v2 && d[40..44] != old_mark(w) {
        bad.push_str("old mark;");
    }
    let rt = &d[48..];
    let mut roles = vec![];
    let mut c = 0usize;
    for _ in 0..n {
        if c + 16 > rt.len() {
            bad.push_str("role cut;");
            break;
        }
        let ty = u16a(rt, c);
        let al = u16a(rt, c + 2);
        let na = u16a(rt, c + 4);
        let pad = u16a(rt, c + 6);
        let rid = u32a(rt, c + 8);
        let end = u32a(rt, c + 12) as usize;
        if pad != 0 {
            bad.push_str("role padding;");
        }
        if end > rt.len() || c + 16 + al > end {
            bad.push_str("role boundary;");
            break;
        }
        let au = authority(w, ty, &rt[c + 16..c + 16 + al], &mut bad);
        let ab = &rt[c + 16 + al..end];
        let mut acts = vec![];
        let mut x = 0usize;
        while x < ab.len() {
            if x + 8 > ab.len() {
                bad.push_str("action cut;");
                break;
            }
            let at = u16a(ab, x);
            let l = u16a(ab, x + 2);
            let bd = u32a(ab, x + 4) as usize;
            if x + 8 + l > ab.len() || bd != x + 8 + l {
                bad.push_str("action boundary;");
                break;
            }
            acts.push(action(w, at, &ab[x + 8..x + 8 + l], &mut bad));
            x = bd;
        }
        if acts.len() != na {
            bad.push_str("action count;");
        }
        roles.push(json!({"id":rid as i64,"au":au,"ac":acts}));
        c = end;
    }
    let tail = &rt[c..];
    let mut cl = "0".to_string();
    let mut tl = tail.len();
    if tail.len() >= 40 && tail[0..8] == [1, 1, 32, 0, 0, 0, 0, 0] {
        cl = w.name(&tail[8..40]);
        tl -= 40;
        if tail[40..].iter().any(|b| *b != 0) {
            bad.push_str("tail garbage;");
        }
    } else if tail.iter().any(|b| *b != 0) {
        bad.push_str("tail;");
    }
    let rd = if bad.is_empty() {
        let r = crate::readers::check(w, wn, d, &roles, &cl, tail.len());
        if r.is_empty() {
            let c = if cl == "0" { "0".into() } else { tail[8..40].iter().map(|b| format!("{b:02x}")).collect::<String>() };
            let c = crate::client::read(d, &c);
            if c.is_empty() { c } else { format!("client: {c}") }
        } else {
            r
        }
    } else {
        String::new()
    };
    json!({"ex":"live","ctr":ctr as i64,"sub": if v2 { u32a(d,44) as i64 } else {0},"v2":v2,"cl":cl,"ro":roles,"bad":bad,"rd":rd,"tl":tl as i64})
}

/// where the counter of a role's key is kept
pub fn counter_at(d: &[u8], id: u32) -> Option<usize> {
    if d.len() < 48 || d[0] != 1 {
        return None;
    }
    let rt = &d[48..];
    let mut c = 0usize;
    for _ in 0..u16a(d, 34) {
        if c + 16 > rt.len() {
            return None;
        }
        if u32a(rt, c + 8) == id {
            return ((3..=6).contains(&u16a(rt, c)) && c + 56 <= rt.len()).then_some(48 + c + 16 + 36);
        }
        c = u32a(rt, c + 12) as usize;
    }
    None
}

/// header bytes 40..48 of a first-generation wallet held the reserved lamports
pub fn old_mark(_w: &World) -> [u8; 4] { [0, 0x51, 0x0d, 0] }

pub fn state(w: &World) -> Value {
    let mut ac = Map::new();
    let mut names: Vec<String> = w.tracked.clone();
    for a in &w.wallets {
        names.push(format!("sw:{a}"));
        names.push(format!("wa:{a}"));
        for n in w.subs1.iter().chain([]) {
            if n.starts_with(&format!("s1:{a}:")) {
                names.push(n.clone());
            }
        }
        for i in &w.subs2 {
            names.push(format!("st:{a}:{i}"));
            names.push(format!("as:{a}:{i}"));
        }
    }
    // bytes without a meaning of their own that differ from the first contents; the programs
    // only ever flip one bit of them, anything else is reported as an offset + 1000
    let other = |n: &str, d: &[u8], at: &dyn Fn(usize) -> bool| -> Vec<usize> {
        let f = &w.first[n];
        (0..d.len().max(f.len()))
            .filter(|i| at(*i) && d.get(*i) != f.get(*i))
            .map(|i| if d.get(i).copied() == f.get(i).map(|b| b ^ 0x40) { i } else { i + 1000 })
            .collect()
    };
    let mut tk = Map::new();
    let mut sk = Map::new();
    let mut sc = Map::new();
    let mut s2 = Map::new();
    for n in &names {
        let a = w.svm.get(&w.k(n));
        ac.insert(n.clone(), json!({"l":w.units(a.lamports),"o":w.name(&a.owner),"n":a.data.len()}));
        if n.starts_with("st:") {
            s2.insert(n.clone(), sub2(w, n, &a));
        }
    }
    for n in &w.toks {
        let a = w.svm.get(&w.k(n));
        let d = &a.data;
        if (a.owner == token_id() || a.owner == token22_id()) && d.len() >= 165 {
            let del = if d[72..76] == [1, 0, 0, 0] { w.name(&d[76..108]) } else { "0".into() };
            let cla = if d[129..133] == [1, 0, 0, 0] { w.name(&d[133..165]) } else { "0".into() };
            tk.insert(n.clone(), json!({"m":w.name(&d[0..32]),"au":w.name(&d[32..64]),"a":w.tunits(u64a(d,64)),
                "st":d[108] as i64,"de":del,"da":w.tunits(u64a(d,121)),"cl":cla,
                "o":other(n, d, &|i| (109..121).contains(&i) || i >= 165)}));
        } else {
            tk.insert(n.clone(), json!({"m":"0","au":"0","a":0,"st":0,"de":"0","da":0,"cl":"0","o":[]}));
        }
    }
    for n in &w.stks {
        let a = w.svm.get(&w.k(n));
        let d = &a.data;
        if d.len() >= 200 {
            sk.insert(n.clone(), json!({"d":w.units(u64a(d,156)),"wd":w.name(&d[44..76]),"st":u32a(d,0) as i64,
                "o":other(n, d, &|i| (4..44).contains(&i) || (76..156).contains(&i) || i >= 164)}));
        } else {
            sk.insert(n.clone(), json!({"d":0,"wd":"0","st":0,"o":[]}));
        }
    }
    for (n, c) in &w.scps {
        let a = w.svm.get(&w.k(n));
        let d = &a.data;
        if d.len() == c.len {
            let v = if c.start < c.end { scaled(get_num(d, c.start, c.end), c.scale) } else { json!(0) };
            // bytes outside the field that differ from their initial content; the puppets only
            // ever write one alternative value, anything else is reported as an offset + 1000
            let mut o = vec![];
            for (i, b) in d.iter().enumerate() {
                let init = (i as u8).wrapping_mul(7) | 1;
                if !(i >= c.start && i < c.end) && *b != init {
                    o.push(if *b == init ^ 0x40 { i } else { i + 1000 });
                }
            }
            sc.insert(n.clone(), json!({"v":v,"o":o}));
        } else {
            sc.insert(n.clone(), json!({"v":-1,"o":[]}));
        }
    }
    for m in [&mut tk, &mut sk, &mut sc, &mut s2] {
        m.insert("_".into(), json!(0));
    }
    let mut sw = Map::new();
    for a in &w.wallets {
        sw.insert(a.clone(), swig(w, a));
    }
    json!({"slot":w.slot_now(),"z0":w.zero_slot(),"ac":ac,"tk":tk,"sk":sk,"sc":sc,"s2":s2,"sw":sw})
}

fn sub2(w: &World, n: &str, a: &Acct) -> Value {
    let none = json!({"ex":false,"en":0,"id":0,"sw":"0","as":"0"});
    if a.owner != swig_id() && a.data.is_empty() {
        return none;
    }
    let d = &a.data;
    if a.owner != swig_id() || d.len() != 72 || d[0] != 2 {
        return json!({"ex":false,"en":-1,"id":d.len() as i64,"sw":"bad","as":w.name(&a.owner)});
    }
    let parts: Vec<&str> = n.split(':').collect();
    let id = w.id(parts[1]);
    let i: u32 = parts[2].parse().unwrap();
    let (_, b1) = find_pda(&[b"sub-account-v2-state", &id, &i.to_le_bytes()], &swig_id());
    let (_, b2) = find_pda(&[b"sub-account-v2", &id, &i.to_le_bytes()], &swig_id());
    let sw = if d[8..40] == w.id("A") { "A" } else if d[8..40] == w.id("B") { "B" } else { "?" };
    let bumps = if d[1] == b1 && d[2] == b2 { "" } else { "!bump" };
    json!({"ex":true,"en":d[3] as i64,"id":u32a(d,4) as i64,"sw":format!("{sw}{bumps}"),"as":w.name(&d[40..72])})
}
