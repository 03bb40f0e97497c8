//! The library's view of a wallet account's bytes: arbitrary bytes offered as authority, permissions or tail.
use serde_json::{json, Value};
use swig_state::{
    action::{self as act, ActionLoader, Actionable},
    authority::{authority_type_to_length, AuthorityType},
    role::Position,
    swig::{Swig, SwigBuilder, SwigWithRoles},
    tail::{self, rent_claimer, AnyTailEntry, SavedTail},
    Transmutable,
};

use crate::{decode::*, readers::Al, svm::*, world::*};

fn bs(v: &Value, k: &str) -> Vec<u8> { ga(v, k).iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect() }

fn found(r: Result<Option<Vec<u8>>, ()>) -> Value {
    match r {
        Ok(Some(d)) => json!({"r":"found","d":d}),
        Ok(None) => json!({"r":"none","d":[]}),
        Err(_) => json!({"r":"error","d":[]}),
    }
}

fn look<'a, T: Actionable<'a> + 'a>(b: &'a [u8]) -> Value {
    let mut v = found(
        ActionLoader::find_action::<T>(b)
            .map(|x| x.map(|x| unsafe { std::slice::from_raw_parts(x as *const T as *const u8, T::LEN) }.to_vec()))
            .map_err(|_| ()),
    );
    v["t"] = json!(T::TYPE as u16);
    v
}

fn looks(b: &[u8]) -> Value {
    json!([
        look::<act::all::All>(b),
        look::<act::manage_authority::ManageAuthority>(b),
        look::<act::sol_limit::SolLimit>(b),
        look::<act::token_limit::TokenLimit>(b),
        look::<act::sub_account::SubAccount>(b),
        look::<act::sub_account_v2::SubAccountV2Sign>(b),
        look::<act::stake_all::StakeAll>(b)
    ])
}

fn reads(t: &[u8]) -> Value {
    let kind = |e: &AnyTailEntry| match e {
        AnyTailEntry::RentClaimer(r) => json!({"k":r.header.kind,"v":r.claimer.to_vec()}),
        AnyTailEntry::Unknown(u) => json!({"k":u.header.kind,"v":u.value.to_vec()}),
    };
    let all = match AnyTailEntry::read_all(t) {
        Ok(v) => json!({"r":"found","l":v.iter().map(kind).collect::<Vec<_>>()}),
        Err(_) => json!({"r":"error","l":[]}),
    };
    json!({
        "strict": found(rent_claimer::read_strict(t).map(|x| x.map(|x| x.to_vec())).map_err(|_| ())),
        "first": found(rent_claimer::read(t).map(|x| x.map(|x| x.to_vec())).map_err(|_| ())),
        "all": all,
    })
}

/// a buffer aligned as account data is
fn grown(d: &[u8], n: usize) -> Al {
    let mut v = d.to_vec();
    v.resize(n, 0);
    Al::new(&v)
}

fn add(d: &[u8], q: &Value) -> Option<Vec<u8>> {
    let t = AuthorityType::try_from(gi(q, "t") as u16).ok()?;
    let (ad, ac) = (Al::new(&bs(q, "ad")), Al::new(&bs(q, "ac")));
    let old = Al::new(d);
    let saved = SavedTail::take(Swig::split_parts(old.b()).ok()?.tail).ok()?;
    let n = d.len() + Position::LEN + authority_type_to_length(&t).ok()? + ac.b().len();
    let mut new = grown(d, n);
    {
        let (h, rest) = new.m().split_at_mut(Swig::LEN);
        let room = rest.len() - saved.len();
        let mut b = SwigBuilder {
            role_buffer: &mut rest[..room],
            swig: unsafe { swig_state::TransmutableMut::load_mut_unchecked(h).ok()? },
        };
        b.add_role(t, ad.b(), ac.b()).ok()?;
    }
    let end = Swig::roles_end_offset(new.b()).ok()?;
    new.m()[end..].fill(0);
    saved.restore_at(new.m(), end).ok()?;
    if end + saved.len() != n {
        return None;
    }
    Some(new.b().to_vec())
}

fn rem(d: &[u8], id: u32) -> Option<Vec<u8>> {
    let mut a = Al::new(d);
    let saved = SavedTail::take(Swig::split_parts(a.b()).ok()?.tail).ok()?;
    let gone = {
        let room = Swig::roles_end_offset(a.b()).ok()? - Swig::LEN;
        let (h, rest) = a.m().split_at_mut(Swig::LEN);
        let mut b = SwigBuilder {
            role_buffer: &mut rest[..room],
            swig: unsafe { swig_state::TransmutableMut::load_mut_unchecked(h).ok()? },
        };
        b.remove_role(id).ok()?.1
    };
    let n = d.len() - gone;
    let mut a = grown(&a.b()[..n], n);
    let end = Swig::roles_end_offset(a.b()).ok()?;
    a.m()[end..].fill(0);
    // at the very end or where the roles end: the same place
    saved.restore(a.m()).ok()?;
    (end + saved.len() == n).then(|| a.b().to_vec())
}

/// The account with one part of it falsified: the number of roles, a role's kind or end, or its length.
fn damage(d: &[u8], q: &Value) -> Vec<u8> {
    let mut b = d.to_vec();
    let n = u16a(d, 34) as usize;
    let (r, v) = (gi(q, "r") as usize, gi(q, "v"));
    let mut at = vec![0usize];
    for _ in 0..n {
        at.push(u32a(d, 48 + at[at.len() - 1] + 12) as usize);
    }
    match gs(q, "f") {
        "count" => {
            let c = if q["abs"] == true { v } else { n as i64 + v };
            b[34..36].copy_from_slice(&(c as u16).to_le_bytes());
        },
        "end" if n > 0 => {
            let o = 48 + at[r % n];
            let base = match gi(q, "of") {
                0 => at[r % n] as i64,
                1 => at[r % n + 1] as i64,
                2 => at[n] as i64,
                _ => d.len() as i64 - 48,
            };
            b[o + 12..o + 16].copy_from_slice(&((base + v) as u32).to_le_bytes());
        },
        "kind" if n > 0 => {
            let o = 48 + at[r % n];
            b[o..o + 2].copy_from_slice(&(v as u16).to_le_bytes());
        },
        "cut" => {
            let base = match gi(q, "of") {
                0 => 0,
                1 => 48 + at[r % (n + 1)] as i64,
                _ => d.len() as i64,
            };
            b.resize((base + v).max(0) as usize, 0);
        },
        _ => {},
    }
    b
}

/// What the readers say of such bytes.
fn doubt(b: &[u8], kind: bool) -> Value {
    let a = Al::new(b);
    let mut m = Al::new(b);
    let num = |r: Result<usize, ()>| r.map(|x| x as i64).unwrap_or(-1);
    let split = Swig::split_parts(a.b()).map(|p| [p.roles.len(), p.tail.len()]).unwrap_or_default();
    let pair = Swig::split_roles_and_tail(a.b()).map(|p| [p.0.len(), p.1.len()]).unwrap_or_default();
    let splitm = Swig::split_parts_mut(m.m()).map(|p| [p.roles.len(), p.tail.len()]).unwrap_or_default();
    let pairm = Swig::split_roles_and_tail_mut(m.m()).map(|p| [p.0.len(), p.1.len()]).unwrap_or_default();
    // a role nobody has, so that no role is taken apart
    let w = SwigWithRoles::from_bytes(a.b());
    let say = |r: Result<bool, ()>| match r {
        Ok(true) => "found",
        Ok(false) => "none",
        Err(_) => "error",
    };
    let all = b.len() - 48usize.min(b.len());
    let end = num(Swig::roles_end_offset(a.b()).map_err(|_| ()));
    let mut r = Al::new(&b[b.len() - all..]);
    let room = if end >= 48 { end as usize - 48 } else { all };
    json!({
        "end": end,
        "whole": w.is_ok(),
        "parts": [split, pair, splitm, pairm],
        "id": w.as_ref().map_or("error", |w| say(w.get_role(4_000_000_007).map(|x| x.is_some()).map_err(|_| ()))),
        "mut": say(Swig::get_mut_role(4_000_000_007, &mut r.m()[..room]).map(|x| x.is_some()).map_err(|_| ())),
        // only where every role's authority is where it says
        "key": if kind { w.as_ref().map_or("error", |w| say(w.lookup_role_id(&[7u8; 40]).map(|x| x.is_some()).map_err(|_| ()))) } else { "" },
    })
}

/// Runs the steps; each gets whether it succeeded and the account's bytes afterwards.
pub fn run(op: &mut Value) {
    let o = op.clone();
    let r = Svm::ask(move || {
        let mut q: Vec<Value> = ga(&o, "q").into_iter().cloned().collect();
        let h = &o["h"];
        let id: [u8; 32] = bs(h, "id").try_into().unwrap();
        let mut s = Swig::new(id, gi(h, "bump") as u8, gi(h, "wb") as u8);
        s.role_counter = gi(h, "next") as u32;
        s.sub_account_counter = gi(h, "subs") as u32;
        let mut a = Al::new(&[0u8; 48]);
        let _ = SwigBuilder::create(a.m(), s);
        let mut d = a.b().to_vec();
        for x in q.iter_mut() {
            let was = d.clone();
            x["bad"] = json!("");
            if gs(x, "s") == "dmg" {
                let b = damage(&d, x);
                x["says"] = doubt(&b, gs(x, "f") == "kind");
                x["by"] = json!(b);
                x["ok"] = json!(true);
                x["got"] = json!([]);
                continue;
            }
            let r = match gs(x, "s") {
                "add" => {
                    let ac = Al::new(&bs(x, "ac"));
                    x["fd"] = looks(ac.b());
                    add(&d, x)
                },
                "rem" => rem(&d, gi(x, "r") as u32),
                _ => {
                    let t = bs(x, "by");
                    x["rd"] = reads(Al::new(&t).b());
                    let e = Swig::roles_end_offset(Al::new(&d).b()).unwrap_or(48);
                    d.truncate(e);
                    d.extend(t);
                    Some(d.clone())
                },
            };
            x["ok"] = json!(r.is_some());
            d = r.unwrap_or(was);
            x["got"] = if x["ok"] == true { json!(d) } else { json!([]) };
            if x["ok"] == true && u16a(&d, 34) > 0 && u16a(&d, 34) < 8 && d.len() < 3000 {
                x["bad"] = json!(crate::readers::bytes(&d));
            }
        }
        json!(q).to_string()
    });
    let q: Option<Value> = r.and_then(|s| serde_json::from_str(&s).ok());
    match q {
        Some(q) => op["q"] = q,
        // no answer: nothing came out of any step
        None => {
            for x in op["q"].as_array_mut().unwrap() {
                x["bad"] = json!("no answer");
                x["ok"] = json!(false);
                x["got"] = json!([]);
                x["fd"] = json!([]);
                x["rd"] = json!({});
                x["says"] = json!({});
                if gs(x, "s") == "dmg" {
                    x["by"] = json!([]);
                }
            }
        },
    }
}
