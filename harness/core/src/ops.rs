//! Specification operations -> real transactions.
use serde_json::{json, Value};

use crate::{decode::*, proof::*, svm::*, world::*};

/* ------------------------------ permissions ------------------------------ */
pub fn act_body(w: &World, a: &Value) -> Vec<u8> {
    let ty = gi(a, "p") as usize;
    let mut b: Vec<u8> = vec![];
    let kk = |f: &str| w.k(gs(a, f));
    let lam = |f: &str| w.lam(gi(a, f)).to_le_bytes();
    let tok = |f: &str| w.tk(gi(a, f)).to_le_bytes();
    let win = |f: &str| (if gi(a, f) == 2_000_000_000 { u64::MAX } else { gi(a, f) as u64 }).to_le_bytes();
    // stored slot fields are raw zero unless stated otherwise
    let rs = raw_slot(w, gi(a, "r")).to_le_bytes();
    match ty {
        1 | 10 => b.extend(lam("a")),
        2 | 11 => {
            b.extend(lam("l"));
            b.extend(win("w"));
            b.extend(rs);
            b.extend(lam("a"));
        },
        3 => b.extend(kk("k")),
        4 => {
            let t = gs(a, "k");
            let sc = w.scps.get(t).map(|c| c.scale).unwrap_or(1);
            b.extend((gi(a, "a") as u128 * sc).to_le_bytes());
            b.extend((gi(a, "l") as u128 * sc).to_le_bytes());
            b.extend(win("w"));
            b.extend(rs);
            b.extend(kk("k2"));
            b.extend(kk("k"));
            b.extend((gi(a, "id") as u64).to_le_bytes());
            for x in ga(a, "s") {
                b.extend((x.as_i64().unwrap() as u64).to_le_bytes());
            }
        },
        5 => {
            b.extend(kk("k"));
            b.extend(tok("a"));
        },
        6 => {
            b.extend(kk("k"));
            b.extend(win("w"));
            b.extend(tok("l"));
            b.extend(tok("a"));
            b.extend(rs);
        },
        9 => {
            b = vec![0; 72];
            if gs(a, "k") != "0" {
                b[..32].copy_from_slice(&kk("k"));
            }
        },
        14 => b = vec![0; 32],
        16 => {
            b.extend(kk("k"));
            b.extend(lam("a"));
        },
        17 => {
            b.extend(kk("k"));
            b.extend(lam("l"));
            b.extend(win("w"));
            b.extend(rs);
            b.extend(lam("a"));
        },
        18 => {
            b.extend(kk("k"));
            b.extend(kk("k2"));
            b.extend(tok("a"));
        },
        19 => {
            b.extend(kk("k"));
            b.extend(kk("k2"));
            b.extend(tok("l"));
            b.extend(win("w"));
            b.extend(rs);
            b.extend(tok("a"));
        },
        21 | 23 | 24 | 25 | 26 => {
            b.extend((gi(a, "id") as u32).to_le_bytes());
            b.extend([0; 4]);
        },
        _ => {},
    }
    b
}

/// (bytes, number of permissions); `mu` mutates the encoding
pub fn acts_bytes(w: &World, acts: &[&Value], mu: &Value) -> (Vec<u8>, usize) {
    let m = gs(mu, "m");
    let j = gi(mu, "j").max(0) as usize;
    let mut out = vec![];
    let mut pos = 0usize;
    for (i, a) in acts.iter().enumerate() {
        let mut ty = gi(a, "p") as u16;
        let mut body = act_body(w, a);
        let mut len = body.len();
        if i == j {
            match m {
                "type" => ty = 27 + gi(mu, "d") as u16,
                "type0" => ty = 0,
                "long" => {
                    body.extend([0; 8]);
                    len += 8;
                },
                "short" if body.len() >= 8 => {
                    body.truncate(body.len() - 8);
                    len -= 8;
                },
                "short" => {
                    body.extend([0; 8]);
                    len += 8;
                },
                "lenhdr" => len += 8,
                "lenhdr1" => len += 1,
                "lenbig" => len = 60000,
                "empty" if !body.is_empty() => {
                    body.clear();
                    len = 0;
                },
                "empty" => {
                    body.push(0);
                    len = 1;
                },
                _ => {},
            }
        }
        pos += 8 + body.len();
        out.extend(ty.to_le_bytes());
        out.extend((len as u16).to_le_bytes());
        let bd = match m {
            "bd0" => 0u32,
            "bdx" => 7 + 3 * i as u32,
            _ => pos as u32,
        };
        out.extend(bd.to_le_bytes());
        out.extend(body);
    }
    match m {
        "cut" => {
            out.truncate(out.len().saturating_sub(1));
        },
        "cut8" => {
            let l = acts.last().map(|a| act_body(w, a).len()).unwrap_or(0);
            out.truncate(out.len().saturating_sub(l.max(1)));
        },
        "tail4" => out.extend([1, 0, 8, 0]),
        "tail1" => out.push(0),
        "tail8z" => out.extend([0; 8]),
        // a header hidden inside the first permission's body, reached only by following
        // the submitted boundary
        "hide" => {
            // only where it must be refused: a list without a managing permission
            if out.len() >= 24 && !acts.iter().any(|a| [7, 8].contains(&gi(a, "p"))) {
                out[4..8].copy_from_slice(&8u32.to_le_bytes());
                let l = out.len() as u32;
                out[8..10].copy_from_slice(&7u16.to_le_bytes());
                out[10..12].copy_from_slice(&0u16.to_le_bytes());
                out[12..16].copy_from_slice(&l.to_le_bytes());
            }
        },
        _ => {},
    }
    (out, acts.len())
}

/* ------------------------------ authorities ------------------------------ */
pub fn atype(t: &str) -> u16 { AUTH_NAMES.iter().position(|x| *x == t).unwrap_or(0) as u16 }

/// creation bytes of an authority record {t,k,mx,sk,fx}
pub fn auth_bytes(w: &World, au: &Value) -> (u16, Vec<u8>) {
    let t = gs(au, "t");
    let k = gs(au, "k");
    let fx = gs(au, "fx");
    let sk = || if gs(au, "sk") == "0" { [0u8; 32] } else { w.k(gs(au, "sk")) };
    let mx = || (gi(au, "mx") as u64).to_le_bytes();
    let mut b: Vec<u8> = match t {
        "ed" => w.k(k).to_vec(),
        "eds" => [&w.k(k)[..], &sk(), &mx()].concat(),
        "k1" => {
            if fx == "+comp" {
                w.k1_comp(k).to_vec()
            } else {
                w.k1_pub(k).to_vec()
            }
        },
        "k1s" => {
            let p = if fx == "+comp" {
                let mut p = [0u8; 64];
                p[..33].copy_from_slice(&w.k1_comp(k));
                p
            } else {
                w.k1_pub(k)
            };
            [&p[..], &sk(), &mx()].concat()
        },
        "r1" => w.r1_pub(k).to_vec(),
        "r1s" => [&w.r1_pub(k)[..], &[0; 7], &sk(), &mx()].concat(),
        "pe" | "pes" => {
            let (p, f) = k.split_once(':').unwrap_or((k, "f4"));
            let pf = prefix_bytes(f);
            let mut b = w.k(p).to_vec();
            b.push(pf.len() as u8);
            b.extend([0; 7]);
            let mut x = [0u8; 40];
            x[..pf.len()].copy_from_slice(&pf);
            b.extend(x);
            if t == "pes" {
                b.extend(sk());
                b.extend(mx());
                b.extend([0; 8]);
            }
            match fx {
                "plen" => b[32] = 41,
                "plen255" => b[32] = 255,
                "swigprog" => b[..32].copy_from_slice(&swig_id()),
                _ => {},
            }
            b
        },
        _ => vec![0; 32],
    };
    let mut ty = atype(t);
    match fx {
        "short" => {
            b.pop();
        },
        "long" => b.push(0),
        "empty" => b.clear(),
        "long8" => b.extend([0; 8]),
        "type0" => ty = 0,
        "type9" => ty = 9,
        "typebig" => ty = 256 + ty,
        _ => {},
    }
    (ty, b)
}

/* ------------------------------ inner instructions ------------------------------ */
#[derive(Clone, Debug)]
pub struct Inner {
    pub program: Key,
    pub metas: Vec<Meta>,
    pub data: Vec<u8>,
}
fn u32le(x: u32) -> [u8; 4] { x.to_le_bytes() }

pub fn inner(w: &World, x: &Value) -> Inner {
    let f = w.k(gs(x, "f"));
    let t = w.k(gs(x, "t"));
    let au = w.k(gs(x, "au"));
    let a = gi(x, "a");
    let prog = w.k(gs(x, "p"));
    let kind = gs(x, "k");
    let mint = w.k(gs(x, "mi"));
    let (program, metas, data): (Key, Vec<Meta>, Vec<u8>) = match gs(x, "i") {
        "xfer" => {
            let mut m = vec![ws(f), crate::svm::w(t)];
            let mut d = [&u32le(2)[..], &w.lam(a).to_le_bytes()].concat();
            match kind {
                "ext" => m.push(r(prog_or(w, x, "sys"))),
                "long" => d.extend([0; 3]),
                _ => {},
            }
            (SYSTEM, m, d)
        },
        "tok" => {
            if kind == "c" {
                (
                    prog,
                    vec![crate::svm::w(f), r(mint), crate::svm::w(t), rs(au)],
                    [&[12u8][..], &w.tk(a).to_le_bytes(), &[6]].concat(),
                )
            } else {
                (prog, vec![crate::svm::w(f), crate::svm::w(t), rs(au)], [&[3u8][..], &w.tk(a).to_le_bytes()].concat())
            }
        },
        "tclose" => (prog, vec![crate::svm::w(f), crate::svm::w(t), rs(au)], vec![9]),
        "tappr" => (prog, vec![crate::svm::w(f), r(t), rs(au)], [&[4u8][..], &w.tk(a).to_le_bytes()].concat()),
        "tsetown" => (prog, vec![crate::svm::w(f), rs(au)], [&[6u8, 2, 1][..], &t].concat()),
        "tsetclose" => (prog, vec![crate::svm::w(f), rs(au)], [&[6u8, 3, 1][..], &t].concat()),
        "tcfg" => (prog, vec![crate::svm::w(f), rs(au)], [&[100u8][..], &(a as u64).to_le_bytes()].concat()),
        "burn" => (prog, vec![crate::svm::w(f), crate::svm::w(mint), rs(au)], [&[8u8][..], &w.tk(a).to_le_bytes()].concat()),
        "swig" => {
            let ix = build(w, &x["op"]).and_then(|v| v.into_iter().find(|i| i.program == swig_id())).unwrap();
            (swig_id(), ix.metas, ix.data)
        },
        "assign" => (SYSTEM, vec![ws(f)], [&u32le(1)[..], &prog].concat()),
        "alloc" => (SYSTEM, vec![ws(f)], [&u32le(8)[..], &(a as u64).to_le_bytes()].concat()),
        "stkw" => (
            stake_id(),
            vec![crate::svm::w(f), crate::svm::w(t), rs(au)],
            [&u32le(4)[..], &w.lam(a).to_le_bytes()].concat(),
        ),
        "stksplit" => (
            stake_id(),
            vec![crate::svm::w(f), crate::svm::w(t), rs(au)],
            [&u32le(3)[..], &w.lam(a).to_le_bytes()].concat(),
        ),
        "stkmix" => (
            stake_id(),
            vec![crate::svm::w(f), crate::svm::w(t), rs(au)],
            [&u32le(100)[..], &w.lam(a).to_le_bytes(), &w.lam(gi(x, "b")).to_le_bytes()].concat(),
        ),
        "stkset" => (
            stake_id(),
            vec![crate::svm::w(f), r(f), rs(au)],
            [&u32le(2)[..], &w.lam(a).to_le_bytes()].concat(),
        ),
        "stkcfg" => (
            stake_id(),
            vec![crate::svm::w(f), r(f), rs(au)],
            [&u32le(101)[..], &(a as u64).to_le_bytes()].concat(),
        ),
        "stkauth" => (
            stake_id(),
            vec![crate::svm::w(f), r(t), rs(au)],
            [&u32le(1)[..], &0u64.to_le_bytes()].concat(),
        ),
        _ => {
            // puppet
            let mut m = vec![];
            let mut d = vec![];
            match kind {
                "w" | "ws" => {
                    let c = &w.scps[gs(x, "f")];
                    let mut v = vec![0u8; c.end - c.start];
                    let n = v.len();
                    put_num(&mut v, 0, n, a as u128 * c.scale);
                    m.push(crate::svm::w(f));
                    d.push(0xA0);
                    d.push(0);
                    d.extend((c.start as u16).to_le_bytes());
                    d.push(v.len() as u8);
                    d.extend(v);
                    if kind == "ws" {
                        m.push(rs(au));
                        d.extend([0xA2, 1]);
                    }
                },
                "o" => {
                    m.push(crate::svm::w(f));
                    // byte offset a, flipped relative to its initial content
                    d.extend([0xA0, 0]);
                    d.extend((a as u16).to_le_bytes());
                    d.extend([1, ((a as u8).wrapping_mul(7) | 1) ^ 0x40]);
                },
                "pull" => {
                    m.extend([ws(f), crate::svm::w(t), r(w.k("sys"))]);
                    d.push(0xA4);
                    d.extend(w.lam(a).to_le_bytes());
                },
                "tpull" => {
                    m.extend([crate::svm::w(f), crate::svm::w(t), rs(au), r(w.k(gs(x, "m")))]);
                    d.push(0xA5);
                    d.extend(w.tk(a).to_le_bytes());
                },
                "mv" => {
                    m.push(crate::svm::w(f));
                    m.push(crate::svm::w(t));
                    d.extend([0xA1, 0, 1]);
                    d.extend(w.lam(a).to_le_bytes());
                },
                "sig" => {
                    m.push(rs(au));
                    d.extend([0xA2, 0]);
                },
                "sig2" => {
                    m.push(r(t));
                    m.push(rs(au));
                    d.extend([0xA2, 1]);
                },
                "sigl" => {
                    m.extend((0..a).map(|_| r(t)));
                    m.push(rs(au));
                    d.extend([0xA2, a as u8]);
                },
                "nopl" => {
                    m.push(r(f));
                    d.extend(std::iter::repeat(7).take(a as usize));
                },
                "fail" => d.push(0xA3),
                _ => {
                    m.push(r(f));
                    d.push(0);
                },
            }
            (prog, m, d)
        },
    };
    Inner { program, metas, data }
}
fn prog_or(w: &World, x: &Value, d: &str) -> Key { w.k(if gs(x, "p").is_empty() { d } else { gs(x, "p") }) }

/// accounts an inner instruction touches
pub fn inner_names(w: &World, x: &Value) -> Vec<Key> {
    let i = inner(w, x);
    i.metas.iter().map(|m| m.key).chain([i.program]).collect()
}

/// Independent compact encoder: first (or last) occurrence of every account.
fn encode(b: &Bld, ixs: &[Inner], last: bool) -> Vec<u8> {
    let pos = |k: &Key| -> u8 {
        let it = |m: &Meta| m.key == *k;
        (if last { b.metas.iter().rposition(it) } else { b.metas.iter().position(it) }).unwrap_or(255) as u8
    };
    let mut o = vec![ixs.len() as u8];
    for i in ixs {
        o.push(pos(&i.program));
        o.push(i.metas.len() as u8);
        for m in &i.metas {
            o.push(pos(&m.key));
        }
        o.extend((i.data.len() as u16).to_le_bytes());
        o.extend(&i.data);
    }
    o
}

fn client_encode(w: &World, acting: Key, sub: bool, b: &mut Bld, ixs: &[Inner]) -> Vec<u8> {
    use solana_program::{instruction as si, pubkey::Pubkey};
    let pk = |k: &Key| Pubkey::new_from_array(*k);
    let accts: Vec<si::AccountMeta> = b
        .metas
        .iter()
        .map(|m| si::AccountMeta { pubkey: pk(&m.key), is_signer: m.signer, is_writable: m.writable })
        .collect();
    let list: Vec<si::Instruction> = ixs
        .iter()
        .map(|i| si::Instruction {
            program_id: pk(&i.program),
            accounts: i
                .metas
                .iter()
                .map(|m| si::AccountMeta { pubkey: pk(&m.key), is_signer: m.signer, is_writable: m.writable })
                .collect(),
            data: i.data.clone(),
        })
        .collect();
    let _ = w;
    // the wallet address (or sub-account) signs through the program, never in the transaction
    let (a, c) = if sub {
        swig_compact_instructions::compact_instructions_sub_account(pk(&b.metas[0].key), pk(&acting), accts, list)
    } else {
        swig_compact_instructions::compact_instructions(pk(&acting), accts, list)
    };
    b.metas = a
        .iter()
        .map(|m| Meta { key: m.pubkey.to_bytes(), signer: m.is_signer, writable: m.is_writable })
        .collect();
    c.into_bytes()
}

/// Completes `ls`: every account used by the inner instructions is listed.
pub fn complete(w: &World, op: &mut Value) {
    if let Some(ix) = op.get_mut("ix").and_then(|x| x.as_array_mut()) {
        for x in ix.iter_mut().filter(|x| gs(x, "i") == "swig") {
            complete(w, &mut x["op"]);
            let ms: Vec<String> = inner(w, x).metas.iter().map(|m| w.name(&m.key)).collect();
            x["ms"] = json!(ms);
        }
    }
    let mut ls: Vec<String> = ga(op, "ls").iter().map(|x| x.as_str().unwrap().to_string()).collect();
    let i = gs(op, "i").to_string();
    let wn = gs(op, "w").to_string();
    let k2 = gs(op, "k2");
    let mut base: Vec<String> = vec![format!("sw:{wn}"), if k2.is_empty() { "sys" } else { k2 }.into()];
    match i.as_str() {
        "sign" => base.push(gs(op, "k1").to_string()),
        "ss1" => base.push(gs(op, "sub").to_string()),
        "ss2" => {
            base.push(format!("as:{wn}:{}", gi(op, "n")));
            base.push(format!("st:{wn}:{}", gi(op, "n")));
        },
        "repl" => {
            op["nk"] = json!(match gs(op, "kl") {
                "z33" => w.pubname33(&[0; 33]),
                "bad64" => w.pubname33(&[&[3u8][..], &[5; 32]].concat()),
                "bad33" => w.pubname33(&[&[9u8][..], &[6; 32]].concat()),
                _ => gs(op, "key").to_string(),
            });
            return;
        },
        _ => return,
    }
    for x in ga(op, "ix") {
        for k in inner_names(w, x) {
            let n = w.name(&k);
            if !ls.contains(&n) && !base.contains(&n) {
                ls.push(n);
            }
        }
    }
    op["ls"] = json!(ls);
}

fn payload(w: &World, op: &Value, b: &mut Bld, acting: Key, sub: bool) -> Vec<u8> {
    let ixs: Vec<Inner> = ga(op, "ix").into_iter().map(|x| inner(w, x)).collect();
    let mut p = match gs(op, "enc") {
        "c" => client_encode(w, acting, sub, b, &ixs),
        "l" => encode(b, &ixs, true),
        _ => encode(b, &ixs, false),
    };
    match gs(op, "fl") {
        "cut" => {
            p.pop();
        },
        "cutbig" => p.truncate(p.len() / 2),
        "cnt" => p[0] += 1,
        "cntbig" => p[0] = 255,
        "pidx" => p[1] = b.metas.len() as u8 + 1,
        "pidx255" => p[1] = 255,
        "aidx" => p[3] = b.metas.len() as u8 + 1,
        "dlen" => {
            let n = p[2] as usize;
            let o = 3 + n;
            let l = u16::from_le_bytes([p[o], p[o + 1]]) + 5;
            // only the last instruction's length can run over the end
            if ixs.len() == 1 {
                p[o..o + 2].copy_from_slice(&l.to_le_bytes());
            } else {
                p.pop();
            }
        },
        "dlenbig" => {
            let n = p[2] as usize;
            let o = 3 + n;
            p[o..o + 2].copy_from_slice(&65535u16.to_le_bytes());
        },
        "empty" => p.clear(),
        "nacc" => {
            // account list longer than the payload
            p.truncate(3);
            p[2] = 200;
        },
        "+trail" => p.extend([9, 9, 9]),
        _ => {},
    }
    p
}

/* ------------------------------ transactions ------------------------------ */
pub fn swk(w: &World, n: &str) -> Key { w.k(&format!("sw:{n}")) }
pub fn wak(w: &World, n: &str) -> Key { w.k(&format!("wa:{n}")) }

fn args(parts: &[&[u8]]) -> Vec<u8> { parts.concat() }
fn l16(x: u64) -> [u8; 2] { (x as u16).to_le_bytes() }
fn l32(x: i64) -> [u8; 4] { (x as u32).to_le_bytes() }
fn l64(x: u64) -> [u8; 8] { x.to_le_bytes() }

pub fn target_types(t: i64) -> u16 { t as u16 }

/// The transaction for an operation, or None for environment operations.
pub fn build(w: &World, op: &Value) -> Option<Vec<Ix>> {
    use crate::svm::w as mw;
    let i = gs(op, "i");
    let wn = gs(op, "w");
    let sw = swk(w, wn);
    let wa = wak(w, wn);
    let role = gi(op, "r");
    let pay = w.k(gs(op, "pay"));
    let fl = gs(op, "fl");
    let null = Value::Null;
    let mu = op.get("mu").unwrap_or(&null);
    let mu = if i != "create" && gs(mu, "m") == "hide" { &null } else { mu };
    let pf = op.get("pf").unwrap_or(&null);
    let mut special: Option<Vec<u8>> = None;
    let mut b;
    // (instruction data before the authority payload, signed bytes)
    let (data, signed): (Vec<u8>, Vec<u8>) = match i {
        "create" => {
            b = Bld::new(vec![mw(sw), ws(pay), mw(wa), r(SYSTEM)]);
            let (ty, ab) = auth_bytes(w, &op["au"]);
            let (acts, _) = acts_bytes(w, &ga(op, "acts"), mu);
            let id = w.id(wn);
            let mut bump = find_pda(&[b"swig", &id], &swig_id()).1;
            let mut wb = find_pda(&[b"swig-wallet-address", &sw], &swig_id()).1;
            let mut idd = id;
            match fl {
                "bump" => bump = bump.wrapping_sub(1),
                "wbump" => wb = wb.wrapping_sub(1),
                "id" => idd[0] ^= 1,
                "wa" => b.metas[2] = mw(w.k("x")),
                "sw" => b.metas[0] = mw(w.k("x")),
                "wasw" => b.metas[2] = mw(sw),
                "payns" => b.metas[1] = mw(pay),
                _ => {},
            }
            let mut d = args(&[&l16(0), &l16(ty as u64), &l16(ab.len() as u64), &[bump, wb], &idd, &ab, &acts]);
            if fl == "alen" {
                d[4..6].copy_from_slice(&60000u16.to_le_bytes());
            }
            (d, vec![])
        },
        "add" => {
            b = Bld::new(vec![mw(sw), ws(pay), r(SYSTEM)]);
            let (ty, ab) = auth_bytes(w, &op["au"]);
            let (acts, n) = acts_bytes(w, &ga(op, "acts"), mu);
            let mut d = args(&[
                &l16(1),
                &l16(ab.len() as u64),
                &l16(acts.len() as u64),
                &l16(ty as u64),
                &[n as u8, 0, 0, 0],
                &l32(role),
                &ab,
                &acts,
            ]);
            match fl {
                "payns" => b.metas[1] = mw(pay),
                "rosw" => b.metas[0] = r(sw),
                "nosys" => b.metas[2] = r(w.k("x")),
                "alen" => d[2..4].copy_from_slice(&60000u16.to_le_bytes()),
                "aclen" => d[4..6].copy_from_slice(&60000u16.to_le_bytes()),
                _ => {},
            }
            (d.clone(), d)
        },
        "rem" => {
            b = Bld::new(vec![mw(sw), ws(pay), r(SYSTEM)]);
            if fl == "rosw" {
                b.metas[0] = r(sw);
            }
            if fl == "nosys" {
                b.metas[2] = r(w.k("x"));
            }
            let d = args(&[&l16(2), &l16(0), &[0; 4], &l32(role), &l32(gi(op, "tgt"))]);
            (d.clone(), d)
        },
        "upd" => {
            b = Bld::new(vec![mw(sw), ws(pay), r(SYSTEM)]);
            let (acts, n) = acts_bytes(w, &ga(op, "acts"), mu);
            let (num, body): (u8, Vec<u8>) = match gs(op, "m") {
                "rep" => (n as u8, acts),
                "rep0" => (0, [&[0u8][..], &acts].concat()),
                "add" => (0, [&[1u8][..], &acts].concat()),
                "delt" => {
                    let t: Vec<u8> = ga(op, "tys").iter().map(|x| x.as_i64().unwrap() as u8).collect();
                    (0, [&[2u8][..], &t].concat())
                },
                "deli" => {
                    let mut t = vec![3u8];
                    for x in ga(op, "idx") {
                        t.extend((x.as_i64().unwrap() as u16).to_le_bytes());
                    }
                    if gs(mu, "m") == "odd" {
                        t.push(0);
                    }
                    (0, t)
                },
                "op4" => (0, [&[4u8][..], &acts].concat()),
                _ => (0, vec![]),
            };
            if fl == "nosys" {
                b.metas[2] = r(w.k("x"));
            }
            let mut d = args(&[
                &l16(upd_disc()),
                &l16(body.len() as u64),
                &[num, 0, 0, 0],
                &l32(role),
                &l32(gi(op, "tgt")),
                &body,
            ]);
            if fl == "aclen" {
                d[2..4].copy_from_slice(&60000u16.to_le_bytes());
            }
            (d.clone(), d)
        },
        "sess" => {
            b = Bld::new(vec![mw(sw), ws(pay), r(SYSTEM)]);
            let dur = gi(op, "dur");
            let dur = if dur < 0 { u64::MAX } else { dur as u64 };
            let key = if gs(op, "key") == "0" { [0; 32] } else { w.k(gs(op, "key")) };
            let d = args(&[&l16(sess_disc()), &l16(0), &l32(role), &l64(dur), &key]);
            (d.clone(), d)
        },
        "repl" => {
            b = Bld::new(vec![mw(sw), mw(wa), r(SYSTEM)]);
            let key = gs(op, "key");
            let kb: Vec<u8> = match gs(op, "kl") {
                "64" => w.k1_pub(key).to_vec(),
                "33" if key.starts_with('q') => w.r1_pub(key).to_vec(),
                "33" => w.k1_comp(key).to_vec(),
                "32" => w.k(key).to_vec(),
                "31" => w.k(key)[..31].to_vec(),
                "z33" => vec![0; 33],
                "bad64" => vec![5; 64],
                "bad33" => [&[9u8][..], &[6; 32]].concat(),
                _ => vec![],
            };
            let d = args(&[
                &l16(repl_disc()),
                &l16(if fl == "pad" { 1 } else { 0 }),
                &l32(role),
                &l32(gi(op, "tgt")),
                &l16(kb.len() as u64 + if fl == "klen" { 1 } else { 0 }),
                &l16(0),
                &kb,
            ]);
            if gs(pf, "m") == "pe" {
                special = Some(repl_special(w, op, &kb));
            }
            if fl == "wa1" {
                b.metas[1] = mw(w.k("x"));
            }
            (d.clone(), d)
        },
        "sign" => {
            let k1 = w.k(gs(op, "k1"));
            b = Bld::new(vec![mw(sw), mw(k1), third(w, op)]);
            if gs(op, "k1") == "sys" {
                b.metas[1] = r(k1);
            }
            list(w, op, &mut b);
            let p = payload(w, op, &mut b, k1, false);
            let mut d = args(&[&l16(sign_disc()), &l16(p.len() as u64), &l32(role), &p]);
            if fl == "plen" {
                d[2..4].copy_from_slice(&60000u16.to_le_bytes());
            }
            (d, p)
        },
        "ss1" => {
            let sub = w.k(gs(op, "sub"));
            b = Bld::new(vec![mw(sw), mw(sub), third(w, op)]);
            list(w, op, &mut b);
            let p = payload(w, op, &mut b, sub, true);
            let d = args(&[&l16(ss1_disc()), &l16(p.len() as u64), &l32(role), &[0; 8], &p]);
            (d, p)
        },
        "ss2" => {
            let n = gi(op, "n");
            let st = w.k(&format!("st:{}:{}", sub_w(op, "sn"), sub_i(op, "si", n)));
            let asx = w.k(&format!("as:{}:{}", sub_w(op, "sn"), sub_i(op, "ai", n)));
            b = Bld::new(vec![mw(sw), mw(st), mw(asx), third(w, op)]);
            list(w, op, &mut b);
            let p = payload(w, op, &mut b, asx, true);
            let d = args(&[&l16(20), &l16(p.len() as u64), &l32(role), &l32(n), &[0; 4], &p]);
            (d.clone(), d)
        },
        "claim" => {
            b = Bld::new(vec![mw(sw), ws(pay), r(SYSTEM)]);
            let key = if gs(op, "key") == "0" { [0; 32] } else { w.k(gs(op, "key")) };
            let d = args(&[&l16(claim_disc()), &l16(0), &l32(role), &key]);
            (d.clone(), d)
        },
        "closetok" => {
            b = Bld::new(vec![mw(sw), mw(wa), mw(w.k(gs(op, "dst"))), r(w.k(gs(op, "p")))]);
            for t in ga(op, "ls") {
                b.metas.push(mw(w.k(t.as_str().unwrap())));
            }
            let off = 4 + gi(op, "off");
            let d = args(&[&l16(closetok_disc()), &l16(off as u64), &l32(role)]);
            if fl == "wa1" {
                b.metas[1] = mw(w.k("x"));
            }
            // the proof accounts must not be treated as token accounts: they come before them
            let lead: Vec<Meta> = proof_metas(w, pf);
            if !lead.is_empty() {
                let at = 4;
                for (j, m) in lead.into_iter().enumerate() {
                    b.metas.insert(at + j, m);
                }
                let off = off + (b.metas.len() - 4 - ga(op, "ls").len()) as i64;
                let d = args(&[&l16(closetok_disc()), &l16(off as u64), &l32(role)]);
                (d.clone(), d)
            } else {
                (d.clone(), d)
            }
        },
        "closeswig" => {
            b = Bld::new(vec![mw(sw), mw(wa), mw(w.k(gs(op, "dst"))), r(SYSTEM)]);
            if fl == "wa1" {
                b.metas[1] = mw(w.k("x"));
            }
            let d = args(&[&l16(closeswig_disc()), &l16(0), &l32(role)]);
            (d.clone(), d)
        },
        "mig" => {
            // swig, authority, payer, wallet address, system
            b = Bld::new(vec![mw(sw), r(w.k("x")), ws(pay), mw(wa), r(SYSTEM)]);
            let mut wb = find_pda(&[b"swig-wallet-address", &sw], &swig_id()).1;
            match fl {
                "wbump" => wb = wb.wrapping_sub(1),
                "wa" => b.metas[3] = mw(w.k("x")),
                _ => {},
            }
            let d = args(&[&l16(mig_disc()), &[wb, 0], &l32(role)]);
            (d.clone(), d)
        },
        "xassets" => {
            b = Bld::new(vec![mw(sw), mw(wa), ws(pay), r(SYSTEM)]);
            for t in ga(op, "tr") {
                b.metas.push(mw(w.k(gs(t, "f"))));
                b.metas.push(mw(w.k(gs(t, "t"))));
                b.metas.push(r(w.k(gs(t, "p"))));
            }
            if fl == "wa1" {
                b.metas[1] = mw(w.k("x"));
            }
            let d = args(&[&l16(xassets_disc()), &l16(0), &l32(role)]);
            (d.clone(), d)
        },
        "cs1" => {
            let sub = w.k(gs(op, "sub"));
            b = Bld::new(vec![mw(sw), ws(pay), mw(sub), r(SYSTEM)]);
            // the bump that goes with the named address
            let mut bump = sub1_bump(w, gs(op, "sub"));
            if fl == "bump" {
                bump = bump.wrapping_sub(1);
            }
            let d = args(&[&l16(cs1_disc()), &l16(0), &l32(role), &[bump], &[0; 7]]);
            (d.clone(), d)
        },
        "tg1" => {
            b = Bld::new(vec![mw(sw), ws(pay), mw(w.k(gs(op, "sub")))]);
            let d = args(&[&l16(tg1_disc()), &[gi(op, "en") as u8], &[0; 5], &l32(gi(op, "tr")), &l32(role)]);
            (d.clone(), d)
        },
        "wd1" => {
            b = Bld::new(vec![mw(sw), ws(pay), mw(w.k(gs(op, "sub"))), r(w.k("x")), mw(w.k(gs(op, "k1"))), r(SYSTEM)]);
            // proof metas at a fixed place, token accounts at 6..8 after them is not possible:
            // account 3 is the authority account, so the proof goes there when it fits
            let pm = proof_metas(w, pf);
            if pm.len() == 1 {
                b.metas[3] = pm[0].clone();
            }
            let t = &op["tok"];
            if !gs(t, "f").is_empty() {
                b.metas.push(mw(w.k(gs(t, "f"))));
                b.metas.push(mw(w.k(gs(t, "t"))));
                b.metas.push(r(w.k(gs(t, "p"))));
            }
            let amt = if gs(t, "f").is_empty() { w.lam(gi(op, "a")) } else { w.tk(gi(op, "a")) };
            let d = args(&[&l16(wd1_disc()), &l16(0), &l32(role), &l64(amt)]);
            (d.clone(), d)
        },
        "cs2" => {
            let n = gi(op, "n");
            let st = w.k(&format!("st:{wn}:{n}"));
            let asx = w.k(&format!("as:{wn}:{}", sub_i(op, "ai", n)));
            b = Bld::new(vec![mw(sw), ws(pay), mw(st), mw(asx), r(SYSTEM)]);
            let id = w.id(wn);
            let nb = (n as u32).to_le_bytes();
            let mut sb = find_pda(&[b"sub-account-v2-state", &id, &nb], &swig_id()).1;
            let mut ab = find_pda(&[b"sub-account-v2", &id, &(sub_i(op, "ai", n) as u32).to_le_bytes()], &swig_id()).1;
            match fl {
                "sbump" => sb = sb.wrapping_sub(1),
                "abump" => ab = ab.wrapping_sub(1),
                "nosys" => b.metas[4] = r(w.k("x")),
                _ => {},
            }
            let d = args(&[&l16(18), &l16(0), &l32(role), &[sb, ab], &[0; 6]]);
            (d.clone(), d)
        },
        "tg2" => {
            let n = gi(op, "n");
            let st = w.k(&format!("st:{}:{}", sub_w(op, "sn"), sub_i(op, "si", n)));
            b = Bld::new(vec![mw(sw), ws(pay), mw(st)]);
            let d = args(&[&l16(19), &[gi(op, "en") as u8, 0], &l32(role), &l32(n), &[0; 4]]);
            (d.clone(), d)
        },
        "wd2" => {
            let n = gi(op, "n");
            let st = w.k(&format!("st:{}:{}", sub_w(op, "sn"), sub_i(op, "si", n)));
            let asx = w.k(&format!("as:{}:{}", sub_w(op, "sn"), sub_i(op, "ai", n)));
            b = Bld::new(vec![mw(sw), ws(pay), mw(st), mw(asx), mw(w.k(gs(op, "k1"))), r(w.k("x")), r(SYSTEM)]);
            let pm = proof_metas(w, pf);
            if pm.len() == 1 {
                b.metas[5] = pm[0].clone();
            }
            let t = &op["tok"];
            if !gs(t, "f").is_empty() {
                b.metas.push(mw(w.k(gs(t, "f"))));
                b.metas.push(mw(w.k(gs(t, "t"))));
                b.metas.push(r(w.k(gs(t, "p"))));
            }
            if fl == "extra" {
                b.metas.push(r(w.k("x")));
            }
            let amt = if gs(t, "f").is_empty() { w.lam(gi(op, "a")) } else { w.tk(gi(op, "a")) };
            let d = args(&[&l16(21), &l16(0), &l32(role), &l32(n), &[0; 4], &l64(amt)]);
            (d.clone(), d)
        },
        _ => return None,
    };
    let mut data = data;
    if matches!(i, "add" | "rem" | "upd" | "sess" | "repl" | "claim" | "closeswig" | "mig" | "cs1" | "tg1" | "cs2" | "tg2") {
        pads(w, op, &mut b);
    }
    if i != "create" {
        // "xrole": the signature the key made for the same call under another role
        let (mut signed, mut pf) = (signed, pf.clone());
        if gs(&pf, "v") == "xrole" {
            pf["v"] = json!("ok");
            if !matches!(i, "sign" | "ss1") {
                let n = signed.len() - 1;
                signed[n] ^= 1;
            }
        }
        let p = prove(w, &mut b, &pf, &signed, special);
        data.extend(p);
    } else {
        b.norm();
    }
    match fl {
        "trunc" => {
            data.pop();
        },
        "args" => data.truncate(3),
        "disc" => data[..2].copy_from_slice(&[3, 0]),
        "few" => b.metas.truncate(1),
        "own" => b.metas[0] = mw(w.k(&format!("fk:{wn}"))),
        _ => {},
    }
    let mut tx = b.pre;
    tx.push(Ix { program: swig_id(), metas: b.metas, data });
    tx.extend(b.post);
    Some(tx)
}

fn sub_w<'a>(op: &'a Value, f: &str) -> &'a str {
    let s = gs(op, f);
    if s.is_empty() {
        gs(op, "w")
    } else {
        s
    }
}
fn sub_i(op: &Value, f: &str, n: i64) -> i64 { op.get(f).and_then(|x| x.as_i64()).unwrap_or(n) }

/// accounts nobody uses: `np` of them, in front of (pp = "f") or behind the listed ones;
/// pp = "d" repeats a few
fn pads(w: &World, op: &Value, b: &mut Bld) {
    let n = gi(op, "np");
    for i in 0..n {
        let j = if gs(op, "pp") == "d" { i % 5 } else { i };
        let k = w.k(&format!("f{j}"));
        b.metas.push(if j % 3 == 1 { crate::svm::w(k) } else { r(k) });
    }
}

/// the account in the place of the system program, which is not looked at
fn third(w: &World, op: &Value) -> Meta {
    match gs(op, "k2") {
        "" => r(SYSTEM),
        n => {
            let k = w.k(n);
            Meta { key: k, signer: false, writable: !w.svm.get(&k).exec }
        },
    }
}

fn list(w: &World, op: &Value, b: &mut Bld) {
    if gs(op, "pp") != "b" {
        pads(w, op, b);
    }
    list2(w, op, b);
    if gs(op, "pp") == "b" {
        pads(w, op, b);
        b.norm();
    }
}

fn list2(w: &World, op: &Value, b: &mut Bld) {
    let os: Vec<String> = ga(op, "os").iter().map(|x| x.as_str().unwrap().to_string()).collect();
    let ro: Vec<String> = ga(op, "ro").iter().map(|x| x.as_str().unwrap().to_string()).collect();
    for n in ga(op, "ls") {
        let n = n.as_str().unwrap();
        let k = w.k(n);
        let exec = w.svm.get(&k).exec;
        b.metas.push(Meta { key: k, signer: os.iter().any(|x| x == n), writable: !exec && !ro.iter().any(|x| x == n) });
    }
    for n in os {
        let k = w.k(&n);
        match b.metas.iter_mut().find(|m| m.key == k) {
            Some(m) => m.signer = true,
            None => b.metas.push(ws(k)),
        }
    }
    b.norm();
}

/// the extra account a proof lists, when it can take a fixed position
fn proof_metas(w: &World, pf: &Value) -> Vec<Meta> {
    match gs(pf, "m") {
        "ed" => vec![if gs(pf, "v") == "nosig" { r(w.k(gs(pf, "by"))) } else { rs(w.k(gs(pf, "by"))) }],
        "r1" | "pe" => vec![r(ixs_sysvar())],
        _ => vec![],
    }
}

fn sub1_bump(w: &World, name: &str) -> u8 {
    let p: Vec<&str> = name.split(':').collect();
    if p.len() != 3 {
        return 255;
    }
    let rid: u32 = p[2].parse().unwrap_or(0);
    find_pda(&[b"sub-account", &w.id(p[1]), &rid.to_le_bytes()], &swig_id()).1
}

/// data a program-execution authority must have been shown to replace an authority
fn repl_special(w: &World, op: &Value, kb: &[u8]) -> Vec<u8> {
    let wn = gs(op, "w");
    let cur = op.get("cur").cloned().unwrap_or(json!({"t":"?","k":"?"}));
    let t = atype(gs(&cur, "t"));
    let canon = |k: &str| -> Vec<u8> {
        if k == "?030505" {
            [&[3u8][..], &[5; 32]].concat()
        } else if k == "?090606" {
            [&[9u8][..], &[6; 32]].concat()
        } else if k == "?000000" {
            vec![0; 33]
        } else if k.starts_with('q') {
            w.r1_pub(k).to_vec()
        } else if k.starts_with('s') {
            w.k1_comp(k).to_vec()
        } else {
            w.k(k).to_vec()
        }
    };
    let new = match gs(op, "kl") {
        "64" => w.k1_comp(gs(op, "key")).to_vec(),
        "bad64" => [&[3u8][..], &[5; 32]].concat(),
        _ => kb.to_vec(),
    };
    let mut tgt = gi(op, "tgt");
    let mut acting = gi(op, "r");
    let mut cur = canon(gs(&cur, "k"));
    let v = gs(&op["pf"], "sp");
    match v {
        "tgt" => tgt += 1,
        "act" => acting += 1,
        "cur" => cur[0] ^= 1,
        _ => {},
    }
    let mut ty = t;
    if v == "ty" {
        ty += 1;
    }
    let mut new = new;
    if v == "new" && !new.is_empty() {
        new[0] ^= 1;
    }
    let h = sha(&[
        b"swig-replace-authority-v1",
        &swk(w, wn),
        &wak(w, wn),
        &(acting as u32).to_le_bytes(),
        &(tgt as u32).to_le_bytes(),
        &ty.to_le_bytes(),
        &cur,
        &new,
    ]);
    let mut d = b"rplauth1".to_vec();
    d.extend(h);
    match v {
        "any" => d = b"rplauth1whatever".to_vec(),
        "long" => d.push(0),
        _ => {},
    }
    d
}

pub fn upd_disc() -> u64 { swig::instruction::SwigInstruction::UpdateAuthorityV1 as u64 }
pub fn sess_disc() -> u64 { swig::instruction::SwigInstruction::CreateSessionV1 as u64 }
pub fn repl_disc() -> u64 { swig::instruction::SwigInstruction::ReplaceAuthorityV1 as u64 }
pub fn sign_disc() -> u64 { swig::instruction::SwigInstruction::SignV2 as u64 }
pub fn ss1_disc() -> u64 { swig::instruction::SwigInstruction::SubAccountSignV1 as u64 }
pub fn claim_disc() -> u64 { swig::instruction::SwigInstruction::SetRentClaimerV1 as u64 }
pub fn closetok_disc() -> u64 { swig::instruction::SwigInstruction::CloseTokenAccountV1 as u64 }
pub fn closeswig_disc() -> u64 { swig::instruction::SwigInstruction::CloseSwigV1 as u64 }
pub fn mig_disc() -> u64 { swig::instruction::SwigInstruction::MigrateToWalletAddressV1 as u64 }
pub fn xassets_disc() -> u64 { swig::instruction::SwigInstruction::TransferAssetsV1 as u64 }
pub fn cs1_disc() -> u64 { swig::instruction::SwigInstruction::CreateSubAccountV1 as u64 }
pub fn tg1_disc() -> u64 { swig::instruction::SwigInstruction::ToggleSubAccountV1 as u64 }
pub fn wd1_disc() -> u64 { swig::instruction::SwigInstruction::WithdrawFromSubAccountV1 as u64 }

/* ------------------------------ execution ------------------------------ */
/// Runs one operation; returns (accepted, why).
pub fn run(w: &mut World, op: &mut Value) -> (bool, String) {
    complete(w, op);
    match gs(op, "i") {
        "slot" => {
            w.svm.slot += gi(op, "d") as u64;
            return (true, String::new());
        },
        "fund" => {
            let k = w.k(gs(op, "n"));
            let mut a = w.svm.get(&k);
            a.lamports += w.lam(gi(op, "a"));
            w.svm.set(k, a);
            return (true, String::new());
        },
        "dep" => {
            let k = w.k(gs(op, "n"));
            let mut a = w.svm.get(&k);
            let x = u64a(&a.data, 64) + w.tk(gi(op, "a"));
            a.data[64..72].copy_from_slice(&x.to_le_bytes());
            w.svm.set(k, a);
            return (true, String::new());
        },
        "freeze" => {
            let k = w.k(gs(op, "n"));
            let mut a = w.svm.get(&k);
            a.data[108] = gi(op, "a") as u8;
            w.svm.set(k, a);
            return (true, String::new());
        },
        "old" => {
            let k = swk(w, gs(op, "w"));
            let mut a = w.svm.get(&k);
            a.data[40..44].copy_from_slice(&old_mark(w));
            a.data[44..48].copy_from_slice(&[0; 4]);
            w.svm.set(k, a);
            return (true, String::new());
        },
        "bulk" => {
            let was = w.clone();
            for _ in 0..gi(op, "n") {
                let r = run(w, &mut op["op"].clone());
                if !r.0 {
                    *w = was;
                    return r;
                }
            }
            return (true, String::new());
        },
        "odo" => {
            // the counter of a role that was used that often before the history starts
            let k = swk(w, gs(op, "w"));
            let mut a = w.svm.get(&k);
            let Some(at) = crate::decode::counter_at(&a.data, gi(op, "r") as u32) else {
                return (false, "no counter".into());
            };
            a.data[at..at + 4].copy_from_slice(&(gi(op, "a") as u32).to_le_bytes());
            w.svm.set(k, a);
            return (true, String::new());
        },
        "dec" => {
            for n in op["rt"].as_object().map(|m| m.keys().cloned().collect::<Vec<_>>()).unwrap_or_default() {
                w.key(&n);
            }
            op["got"] = listing(w, op);
            return (true, String::new());
        },
        "lay" => {
            op["me"] = json!(swig_id().to_vec());
            if !(gb(op, "cl") && crate::client::lay(op)) {
                crate::lay::run(op);
            }
            return (true, String::new());
        },
        "ctr" | "subn" => {
            let k = swk(w, gs(op, "w"));
            let mut a = w.svm.get(&k);
            let o = if gs(op, "i") == "ctr" { 36 } else { 44 };
            if a.data.len() < 48 {
                return (false, "no wallet".into());
            }
            a.data[o..o + 4].copy_from_slice(&(gi(op, "a") as u32).to_le_bytes());
            w.svm.set(k, a);
            return (true, String::new());
        },
        _ => {},
    }
    if gs(op, "fl") == "own" {
        // same bytes, foreign owner
        let n = format!("fk:{}", gs(op, "w"));
        let k = w.key(&n);
        let mut a = w.svm.get(&swk(w, gs(op, "w")));
        a.owner = w.k("pA");
        w.svm.set(k, a);
    }
    let mut tx = match build(w, op) {
        Some(t) => t,
        None => return (false, "unknown op".into()),
    };
    if gi(op, "np") > 0 {
        let me = tx.iter().find(|x| x.program == swig_id()).unwrap();
        op["na"] = json!(me.metas.len());
        let hi: Vec<String> = me.metas.iter().skip(100).map(|m| w.name(&m.key)).filter(|n| !n.starts_with("?")).collect();
        op["hi"] = json!(hi);
    }
    if gb(op, "via") {
        // somebody else's program passes the instruction on, signing for its own addresses
        if let Some(x) = tx.iter_mut().find(|x| x.program == swig_id()) {
            x.program = relay_id();
            x.metas.insert(0, r(swig_id()));
        }
    }
    // a call that changes the wallet under the feet of its caller can keep the caller busy for ever
    let calls = ga(op, "ix").iter().any(|x| gs(x, "i") == "swig");
    let r = if calls && !w.svm.ends(&tx) {
        Err((tx.len(), crate::svm::Fail::Rt("compute budget".into())))
    } else {
        w.svm.exec(&tx)
    };
    if gs(op, "fl") == "own" {
        let k = w.k(&format!("fk:{}", gs(op, "w")));
        w.svm.accts.remove(&k);
    }
    match r {
        Ok(()) => (true, String::new()),
        Err((i, f)) => (false, format!("{i}:{f:?}")),
    }
}

/// Encodes the intended instructions, damages the encoding as told, and reports what the program's own
/// iterator makes of the bytes: once taken one by one, once all collected before any of them is looked at.
fn listing(w: &World, op: &mut Value) -> Value {
    use swig_compact_instructions::InstructionIterator;
    let mut b = Bld::new(vec![]);
    let name = |k: &[u8]| w.name(k);
    for a in ga(op, "ac") {
        b.metas.push(Meta { key: w.k(a[0].as_str().unwrap()), signer: a[1] == 1, writable: a[2] == 1 });
    }
    let me = w.k(gs(op, "me"));
    let ixs: Vec<Inner> = ga(op, "int")
        .iter()
        .map(|x| Inner {
            program: w.k(gs(x, "p")),
            metas: ga(x, "a")
                .iter()
                .map(|n| {
                    let k = w.k(n.as_str().unwrap());
                    let r = &op["rt"][n.as_str().unwrap()];
                    Meta { key: k, signer: r[0] == 1 || k == me, writable: r[1] == 1 }
                })
                .collect(),
            data: ga(x, "d").iter().map(|v| v.as_u64().unwrap() as u8).collect(),
        })
        .collect();
    let mut bytes: Vec<u8> = match gs(op, "enc") {
        "c" => client_encode(w, me, false, &mut b, &ixs),
        "s" => client_encode(w, me, true, &mut b, &ixs),
        "l" => encode(&b, &ixs, true),
        _ => encode(&b, &ixs, false),
    };
    for m in ga(op, "mu") {
        let (at, v) = (gi(m, "at") as usize, gi(m, "v"));
        match gs(m, "m") {
            "set" if !bytes.is_empty() => {
                let n = bytes.len();
                bytes[at % n] = v as u8;
            },
            "cut" => bytes.truncate(at % (bytes.len() + 1)),
            "add" => bytes.extend(vec![v as u8; at]),
            _ => {},
        }
    }
    op["by"] = json!(bytes);
    op["ac1"] = json!(b.metas.iter().map(|m| json!([name(&m.key), m.signer as u8, m.writable as u8])).collect::<Vec<_>>());
    // a transaction gives an account the rights of all its mentions
    for i in 0..b.metas.len() {
        let k = b.metas[i].key;
        let (s, x) = b.metas.iter().filter(|m| m.key == k).fold((false, false), |a, m| (a.0 || m.signer, a.1 || m.writable));
        b.metas[i].signer = s;
        b.metas[i].writable = x;
    }
    op["ac2"] = json!(b.metas.iter().map(|m| json!([name(&m.key), m.signer as u8, m.writable as u8])).collect::<Vec<_>>());
    let rk: Vec<Key> = ga(op, "rk").iter().map(|n| w.k(n.as_str().unwrap())).collect();
    let look = |late: bool| -> Value {
        let r = Svm::ask(|| {
            with_infos(&b.metas, |infos| {
                let rks: Vec<&Key> = rk.iter().collect();
                let mut out: Vec<Value> = vec![];
                let mut er = false;
                macro_rules! tell {
                    ($h:expr) => {{
                        let h = $h;
                        let i = h.borrow();
                        let a: Vec<Value> = i
                            .accounts
                            .iter()
                            .map(|m| json!([name(&m.pubkey[..]), m.is_signer as u8, m.is_writable as u8]))
                            .collect();
                        out.push(json!({"p": name(&i.program_id[..]), "a": a, "d": i.data, "u": h.uses_swig_signer}));
                    }};
                }
                match InstructionIterator::new(infos, &bytes, &me, &rks) {
                    Err(_) => er = true,
                    Ok(it) if late => {
                        let mut v = vec![];
                        for x in it {
                            match x {
                                Ok(h) => v.push(h),
                                Err(_) => {
                                    er = true;
                                    break;
                                },
                            }
                        }
                        for h in v.iter() {
                            tell!(h);
                        }
                    },
                    Ok(it) => {
                        for x in it {
                            match x {
                                Ok(h) => tell!(&h),
                                Err(_) => {
                                    er = true;
                                    break;
                                },
                            }
                        }
                    },
                }
                json!({"er": er, "ix": out}).to_string()
            })
        });
        r.and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(json!({"er":false,"ix":[],"no":"answer"}))
    };
    json!([look(false), look(true)])
}

/// World from an init operation.
pub fn world(op: &Value) -> World {
    let mut w = World::new(
        gi(op, "seed") as u64,
        gs(op, "s").parse().unwrap(),
        gs(op, "t").parse().unwrap(),
        gs(op, "base").parse().unwrap(),
    );
    for p in ga(op, "plain") {
        w.plain(gs(p, "n"), gi(p, "l"));
    }
    for x in ga(op, "wallets") {
        w.wallets.push(x.as_str().unwrap().into());
    }
    for t in ga(op, "tok") {
        w.token_acct(gs(t, "n"), gs(t, "p"), gs(t, "m"), gs(t, "au"), gi(t, "a"), gi(t, "len") as usize);
    }
    for t in ga(op, "stk") {
        w.stake_acct(gs(t, "n"), gs(t, "wd"), gi(t, "d"), gi(t, "x"));
    }
    for t in ga(op, "scp") {
        let c = ScpCfg {
            owner: gs(t, "o").into(),
            len: gi(t, "len") as usize,
            start: gi(t, "st") as usize,
            end: gi(t, "en") as usize,
            scale: gs(t, "sc").parse().unwrap(),
        };
        w.scoped_acct(gs(t, "n"), c, gi(t, "v"));
    }
    for x in ga(op, "subs1") {
        w.subs1.push(x.as_str().unwrap().into());
    }
    for x in ga(op, "subs2") {
        w.subs2.push(x.as_i64().unwrap() as u32);
    }
    w
}
