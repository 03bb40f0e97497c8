//! Cross-check of the crate's own readers against the independent raw decoding.
use serde_json::Value;
use swig_state::{
    action as ac,
    authority::{
        ed25519::Ed25519SessionAuthority, programexec::session::ProgramExecSessionAuthority,
        secp256k1::Secp256k1SessionAuthority, secp256r1::Secp256r1SessionAuthority,
    },
    role::Role,
    swig::{Swig, SwigWithRoles},
    tail,
};

use crate::{decode::*, svm::*, world::*};

/// 8-aligned copy of account bytes, as every loader of the account provides
pub struct Al(Vec<u64>, usize);
impl Al {
    pub fn new(d: &[u8]) -> Al {
        let mut v = vec![0u64; d.len() / 8 + 1];
        unsafe { std::ptr::copy_nonoverlapping(d.as_ptr(), v.as_mut_ptr() as *mut u8, d.len()) };
        Al(v, d.len())
    }
    pub fn b(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.0.as_ptr() as *const u8, self.1) } }
    pub fn m(&mut self) -> &mut [u8] { unsafe { std::slice::from_raw_parts_mut(self.0.as_mut_ptr() as *mut u8, self.1) } }
}

#[derive(Clone)]
pub struct RawRole {
    pub ty: usize,
    pub id: u32,
    pub auth: Vec<u8>,
    /// (type, offset of the body inside the role's action bytes, body)
    pub acts: Vec<(usize, usize, Vec<u8>)>,
}

pub fn raw_roles(d: &[u8]) -> Vec<RawRole> {
    let n = u16a(d, 34);
    let rt = &d[48..];
    let mut c = 0;
    let mut o = vec![];
    for _ in 0..n {
        let ty = u16a(rt, c);
        let al = u16a(rt, c + 2);
        let id = u32a(rt, c + 8);
        let end = u32a(rt, c + 12) as usize;
        let auth = rt[c + 16..c + 16 + al].to_vec();
        let ab = &rt[c + 16 + al..end];
        let mut acts = vec![];
        let mut x = 0;
        while x < ab.len() {
            let t = u16a(ab, x);
            let l = u16a(ab, x + 2);
            acts.push((t, x + 8, ab[x + 8..x + 8 + l].to_vec()));
            x += 8 + l;
        }
        o.push(RawRole { ty, id, auth, acts });
        c = end;
    }
    o
}

/// the bytes a client looks the role up with
fn lookup_key(r: &RawRole) -> Vec<u8> {
    match r.ty {
        1 | 2 => r.auth[..32].to_vec(),
        3..=6 => r.auth[..33].to_vec(),
        7 => r.auth.clone(),
        _ => {
            let n = r.auth[32] as usize;
            [&r.auth[..33], &r.auth[40..40 + n]].concat()
        },
    }
}
fn identity(r: &RawRole) -> Vec<u8> {
    match r.ty {
        1 | 2 => r.auth[..32].to_vec(),
        3..=6 => r.auth[..33].to_vec(),
        _ => r.auth[40..40 + r.auth[32] as usize].to_vec(),
    }
}
fn matches(r: &RawRole, k: &[u8]) -> bool {
    match (r.ty, k.len()) {
        (1 | 2, 32) | (3..=6, 33) => r.auth[..k.len()] == *k,
        (7, 80) => r.auth[..32] == k[..32] && {
            let n = r.auth[32] as usize;
            r.auth[40..40 + n] == k[40..40 + n]
        },
        (8, n) if n >= 33 => lookup_key(r) == k,
        _ => false,
    }
}

macro_rules! typed {
    ($role:expr, $raw:expr, $bad:expr, $base:expr, $(($n:expr, $t:ty, $k:expr)),* $(,)?) => {
        $(
            {
                let mine: Vec<usize> = $raw.acts.iter().filter(|a| a.0 == $n).map(|a| a.1).collect();
                match $role.get_all_actions_of_type::<$t>() {
                    Ok(v) => {
                        let got: Vec<usize> = v.iter().map(|p| *p as *const $t as usize - $base).collect();
                        if got != mine {
                            $bad.push_str(&format!("all_of_type {} of {}: {:?} {:?};", $n, $raw.id, got, mine));
                        }
                    },
                    Err(_) => $bad.push_str("all_of_type err;"),
                }
                // lookup of each stored entry by its own key finds the first entry with that key
                let klen: usize = $k;
                let list: Vec<(usize, Vec<u8>)> = $raw.acts.iter().filter(|a| a.0 == $n).map(|a| (a.1, a.2.clone())).collect();
                for (_, body) in &list {
                    let key = body[..klen.min(body.len())].to_vec();
                    let want = list.iter().find(|b| b.1[..klen.min(b.1.len())] == key[..]).map(|b| b.0);
                    let got = $role.get_action::<$t>(&key).ok().flatten().map(|p| p as *const $t as usize - $base);
                    if got != want {
                        $bad.push_str(&format!("get_action {} of {}: {:?} {:?};", $n, $raw.id, got, want));
                    }
                }
                // a key one byte off finds only what has exactly that key
                for (_, body) in list.iter().take(3) {
                    for at in [0, 3, klen / 2, 30, 31, 32, klen - 1.min(klen)] {
                        if at >= klen || body.len() < klen {
                            continue;
                        }
                        let mut key = body[..klen].to_vec();
                        key[at] ^= 1;
                        let want = list.iter().find(|b| b.1[..klen] == key[..]).map(|b| b.0);
                        let got = $role.get_action::<$t>(&key).ok().flatten().map(|p| p as *const $t as usize - $base);
                        if got != want {
                            $bad.push_str(&format!("get_action {} of {} near key: {:?} {:?};", $n, $raw.id, got, want));
                        }
                    }
                }
                if list.is_empty() {
                    if !matches!($role.get_action::<$t>(&[0u8; 64][..klen]), Ok(None)) {
                        $bad.push_str(&format!("get_action {} of {} not none;", $n, $raw.id));
                    }
                } else if klen > 0 && $n != 9 && !list.iter().any(|b| b.1.starts_with(&[0xEEu8; 64][..klen])) {
                    if !matches!($role.get_action::<$t>(&[0xEEu8; 64][..klen]), Ok(None)) {
                        $bad.push_str(&format!("get_action {} of {} foreign key;", $n, $raw.id));
                    }
                }
            }
        )*
    };
}

fn one_role(role: &Role, raw: &RawRole, bad: &mut String) {
    let p = role.position;
    if p.id() != raw.id
        || p.authority_length() as usize != raw.auth.len()
        || p.num_actions() as usize != raw.acts.len()
        || p.authority_type().map(|t| t as usize).unwrap_or(99) != raw.ty
        || role.authority_type().map(|t| t as usize).unwrap_or(99) != raw.ty
    {
        bad.push_str(&format!("position of {};", raw.id));
        return;
    }
    let a = role.authority;
    if a.authority_type() as usize != raw.ty || a.length() != raw.auth.len() || a.session_based() != (raw.ty % 2 == 0) {
        bad.push_str(&format!("authority info of {};", raw.id));
    }
    if a.identity().map(|x| x.to_vec()).unwrap_or_default() != identity(raw) {
        bad.push_str(&format!("identity of {};", raw.id));
    }
    let odo = match raw.ty {
        3..=6 => Some(u32a(&raw.auth, 36)),
        _ => None,
    };
    if a.signature_odometer() != odo {
        bad.push_str(&format!("odometer of {};", raw.id));
    }
    let sess = match raw.ty {
        2 => a.as_any().downcast_ref::<Ed25519SessionAuthority>().map(|s| (s.session_key, s.max_session_length, s.current_session_expiration)),
        4 => a.as_any().downcast_ref::<Secp256k1SessionAuthority>().map(|s| (s.session_key, s.max_session_age, s.current_session_expiration)),
        6 => a.as_any().downcast_ref::<Secp256r1SessionAuthority>().map(|s| (s.session_key, s.max_session_age, s.current_session_expiration)),
        8 => a.as_any().downcast_ref::<ProgramExecSessionAuthority>().map(|s| (s.session_key, s.max_session_length, s.current_session_expiration)),
        _ => None,
    };
    if raw.ty % 2 == 0 {
        let o = match raw.ty {
            2 => 32,
            8 => 80,
            _ => 40,
        };
        let mut k = [0u8; 32];
        k.copy_from_slice(&raw.auth[o..o + 32]);
        if sess != Some((k, u64a(&raw.auth, o + 32), u64a(&raw.auth, o + 40))) {
            bad.push_str(&format!("session of {};", raw.id));
        }
    }
    match role.get_all_actions() {
        Ok(v) => {
            let got: Vec<(usize, usize, usize)> = v
                .iter()
                .map(|x| (x.permission().map(|p| p as usize).unwrap_or(99), x.length() as usize, x.boundary() as usize))
                .collect();
            let want: Vec<(usize, usize, usize)> = raw.acts.iter().map(|x| (x.0, x.2.len(), x.1 + x.2.len())).collect();
            if got != want {
                bad.push_str(&format!("all_actions of {};", raw.id));
            }
        },
        Err(_) => bad.push_str(&format!("all_actions of {} err;", raw.id)),
    }
    let base = role.actions.as_ptr() as usize;
    use ac::*;
    typed!(role, raw, bad, base,
        (1, sol_limit::SolLimit, 0),
        (2, sol_recurring_limit::SolRecurringLimit, 0),
        (3, program::Program, 32),
        (5, token_limit::TokenLimit, 32),
        (6, token_recurring_limit::TokenRecurringLimit, 32),
        (7, all::All, 0),
        (8, manage_authority::ManageAuthority, 0),
        (10, stake_limit::StakeLimit, 0),
        (11, stake_recurring_limit::StakeRecurringLimit, 0),
        (12, stake_all::StakeAll, 0),
        (13, program_all::ProgramAll, 0),
        (14, program_curated::ProgramCurated, 0),
        (15, all_but_manage_authority::AllButManageAuthority, 0),
        (16, sol_destination_limit::SolDestinationLimit, 32),
        (17, sol_recurring_destination_limit::SolRecurringDestinationLimit, 32),
        (18, token_destination_limit::TokenDestinationLimit, 64),
        (19, token_recurring_destination_limit::TokenRecurringDestinationLimit, 64),
        (20, close_swig_authority::CloseSwigAuthority, 0),
        (21, replace_authority::ReplaceAuthority, 4),
        (22, sub_account_v2::SubAccountV2Create, 0),
        (23, sub_account_v2::SubAccountV2All, 4),
        (24, sub_account_v2::SubAccountV2Sign, 4),
        (25, sub_account_v2::SubAccountV2Withdraw, 4),
        (26, sub_account_v2::SubAccountV2Toggle, 4),
    );
    // entries whose key is not a leading field
    let scopes: Vec<&(usize, usize, Vec<u8>)> = raw.acts.iter().filter(|a| a.0 == 4).collect();
    for s in &scopes {
        let key = &s.2[80..112];
        let want = scopes.iter().find(|t| t.2[80..112] == *key).map(|t| t.1);
        let got = role.get_action::<program_scope::ProgramScope>(key).ok().flatten().map(|p| p as *const _ as usize - base);
        if got != want {
            bad.push_str(&format!("get_action scope of {};", raw.id));
        }
    }
    let subs: Vec<&(usize, usize, Vec<u8>)> = raw.acts.iter().filter(|a| a.0 == 9).collect();
    for s in &subs {
        let key = &s.2[..32];
        if key == [0; 32] {
            continue;
        }
        let want = subs.iter().find(|t| t.2[..32] == *key).map(|t| t.1);
        let got = role.get_action::<sub_account::SubAccount>(key).ok().flatten().map(|p| p as *const _ as usize - base);
        if got != want {
            bad.push_str(&format!("get_action sub of {};", raw.id));
        }
    }
}

pub fn check(w: &World, _wn: &str, d: &[u8], _roles: &[Value], cl: &str, _tail: usize) -> String {
    let mut bad = bytes(d);
    let mut al = Al::new(d);
    let want = if cl == "0" { None } else { Some(w.k(cl)) };
    match Swig::split_parts(al.b()) {
        Ok(p) => {
            let t: Vec<u8> = p.tail.to_vec();
            if t.len() <= 40 {
                match tail::rent_claimer::read_strict(&t) {
                    Ok(g) => {
                        if g.copied() != want {
                            bad.push_str("claimer;");
                        }
                    },
                    Err(_) => bad.push_str("claimer err;"),
                }
            }
        },
        Err(_) => bad.push_str("split;"),
    }
    let _ = &mut al;
    bad
}

thread_local! {
    /// accounts asked about last: most steps leave most of them as they were
    static SEEN: std::cell::RefCell<Vec<(Vec<u8>, String)>> = std::cell::RefCell::new(vec![]);
}

/// every reader over one live wallet account; "" when all agree with the raw decoding
pub fn bytes(d: &[u8]) -> String {
    SEEN.with(|s| {
        let mut s = s.borrow_mut();
        if let Some(x) = s.iter().find(|x| x.0 == d) {
            return x.1.clone();
        }
        let a = ask_all(d);
        s.insert(0, (d.to_vec(), a.clone()));
        s.truncate(4);
        a
    })
}

fn ask_all(d: &[u8]) -> String {
    let mut bad = String::new();
    let al = Al::new(d);
    let raw = raw_roles(d);
    let end = 48 + raw.iter().map(|r| 16 + r.auth.len() + r.acts.iter().map(|a| 8 + a.2.len()).sum::<usize>()).sum::<usize>();
    match Swig::roles_end_offset(al.b()) {
        Ok(e) if e == end => {},
        _ => bad.push_str("roles_end;"),
    }
    match Swig::split_roles_and_tail(al.b()) {
        Ok((r, t)) if r == &d[48..end] && t == &d[end..] => {},
        _ => bad.push_str("split_roles_and_tail;"),
    }
    let s = match SwigWithRoles::from_bytes(al.b()) {
        Ok(s) => s,
        Err(_) => return "from_bytes;".into(),
    };
    let h = s.state;
    if h.discriminator != d[0]
        || h.bump != d[1]
        || h.id[..] != d[2..34]
        || h.roles as usize != u16a(d, 34)
        || h.role_counter != u32a(d, 36)
        || h.wallet_bump != d[40]
        || h.sub_account_counter != u32a(d, 44)
    {
        bad.push_str("header;");
    }
    for r in &raw {
        match s.get_role(r.id) {
            Ok(Some(role)) => one_role(&role, r, &mut bad),
            Ok(None) => bad.push_str(&format!("role {} missing;", r.id)),
            Err(_) => bad.push_str(&format!("role {} err;", r.id)),
        }
        let k = lookup_key(r);
        let mut asked = vec![k.clone()];
        // the same key in full, and keys one byte off
        if raw.len() < 9 {
            if r.ty == 3 || r.ty == 4 {
                if let Ok(p) = libsecp256k1::PublicKey::parse_compressed(&k[..33].try_into().unwrap()) {
                    asked.push(p.serialize()[1..].to_vec());
                }
            }
            for at in [0, 15, 30, 31, 32, k.len() - 1] {
                if at < k.len() && !(r.ty > 6 && at == 32) {
                    let mut n = k.clone();
                    n[at] ^= 2;
                    asked.push(n);
                }
            }
        }
        for (i, k) in asked.iter().enumerate() {
            let want = raw
                .iter()
                .find(|x| matches(x, k) || (k.len() == 64 && (x.ty == 3 || x.ty == 4) && i == 1 && x.auth[..33] == r.auth[..33]))
                .map(|x| x.id);
            match s.lookup_role_id(k) {
                Ok(g) if g == want => {},
                // an address that is also the beginning of the longer key looked up
                Ok(Some(g)) if raw.iter().any(|x| x.id == g && lookup_key(x).len() < k.len() && k.starts_with(&lookup_key(x))) => {},
                g => bad.push_str(&format!("lookup {i} of role {}: {:?} {:?};", r.id, g, want)),
            }
        }
    }
    let top = u32a(d, 36);
    for i in (0..top + 2).take(40) {
        if !raw.iter().any(|r| r.id == i) && !matches!(s.get_role(i), Ok(None)) {
            bad.push_str(&format!("role {i} of nobody;"));
        }
    }
    if !raw.iter().any(|r| lookup_key(r).starts_with(&[0xEE; 32]))
        && (!matches!(s.lookup_role_id(&[0xEE; 32]), Ok(None)) || !matches!(s.lookup_role_id(&[0xEE; 33]), Ok(None)))
    {
        bad.push_str("lookup of nobody;");
    }
    // scoped accounts: the lowest role, its first matching scope
    let mut order = raw.clone();
    order.sort_by_key(|r| r.id);
    for r in &raw {
        for a in r.acts.iter().filter(|a| a.0 == 4) {
            let t = &a.2[80..112];
            let want = order.iter().find_map(|r| {
                r.acts.iter().find(|b| b.0 == 4 && b.2[80..112] == *t).map(|b| (r.id as u8, b.2.clone()))
            });
            let got = s.find_program_scope_by_target(t).map(|(i, p)| {
                let b = unsafe { std::slice::from_raw_parts(&p as *const _ as *const u8, 144) };
                (i, b.to_vec())
            });
            if got != want {
                bad.push_str(&format!("scope by target in {};", r.id));
            }
        }
    }
    if !raw.iter().any(|r| r.acts.iter().any(|b| b.0 == 4 && b.2[80..112] == [0xEE; 32])) && s.find_program_scope_by_target(&[0xEE; 32]).is_some() {
        bad.push_str("scope of nobody;");
    }
    // damaged tables are refused rather than misread
    for cut in [0usize, 1, 20, 47, 48, 60, end - 1] {
        if cut < end && SwigWithRoles::from_bytes(Al::new(&d[..cut]).b()).is_ok() {
            bad.push_str(&format!("accepts {cut} of {end} bytes;"));
        }
    }
    let mut x = d.to_vec();
    x[60..64].copy_from_slice(&(d.len() as u32).to_le_bytes());
    if SwigWithRoles::from_bytes(Al::new(&x).b()).is_ok() {
        bad.push_str("accepts a boundary outside;");
    }
    x[60..64].copy_from_slice(&8u32.to_le_bytes());
    if SwigWithRoles::from_bytes(Al::new(&x).b()).is_ok() {
        bad.push_str("accepts a boundary inside the header;");
    }
    bad
}
