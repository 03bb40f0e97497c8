//! A small Solana runtime: accounts, transactions, privilege rules, CPI, sysvars,
//! precompiles and the native/SPL programs the wallet talks to.  It runs the real
//! `swig` program in-process through the same serialized input buffer the loader uses.
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
};

use sha2::{Digest, Sha256};

pub type Key = [u8; 32];

pub fn b58(s: &str) -> Key {
    let mut out = [0u8; 32];
    const AL: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    for c in s.bytes() {
        let mut carry = AL.iter().position(|x| *x == c).unwrap() as u32;
        for b in out.iter_mut().rev() {
            carry += *b as u32 * 58;
            *b = carry as u8;
            carry >>= 8;
        }
        assert!(carry == 0);
    }
    out
}

pub const SYSTEM: Key = [0u8; 32];
pub fn swig_id() -> Key { swig::ID }

pub struct Ids {
    pub token: Key,
    pub token22: Key,
    pub stake: Key,
    pub sysvar: Key,
    pub ixs: Key,
    pub r1: Key,
    pub ed: Key,
    pub native: Key,
    pub bpf: Key,
}
thread_local! {
    pub static IDS: Ids = Ids {
        token: b58("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA"),
        token22: b58("TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb"),
        stake: b58("Stake11111111111111111111111111111111111111"),
        sysvar: b58("Sysvar1111111111111111111111111111111111111"),
        ixs: b58("Sysvar1nstructions1111111111111111111111111"),
        r1: b58("Secp256r1SigVerify1111111111111111111111111"),
        ed: b58("Ed25519SigVerify111111111111111111111111111"),
        native: b58("NativeLoader1111111111111111111111111111111"),
        bpf: b58("BPFLoaderUpgradeab1e11111111111111111111111"),
    };
}
pub fn token_id() -> Key { IDS.with(|i| i.token) }
pub fn token22_id() -> Key { IDS.with(|i| i.token22) }
pub fn stake_id() -> Key { IDS.with(|i| i.stake) }
/// a program that passes its accounts and data on to the program named first
pub fn relay_id() -> Key { [0x52; 32] }
pub fn ixs_sysvar() -> Key { IDS.with(|i| i.ixs) }
pub fn r1_id() -> Key { IDS.with(|i| i.r1) }

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Acct {
    pub owner: Key,
    pub lamports: u64,
    pub data: Vec<u8>,
    pub exec: bool,
}

#[derive(Clone, Debug)]
pub struct Meta {
    pub key: Key,
    pub signer: bool,
    pub writable: bool,
}
pub fn w(key: Key) -> Meta { Meta { key, signer: false, writable: true } }
pub fn ws(key: Key) -> Meta { Meta { key, signer: true, writable: true } }
pub fn r(key: Key) -> Meta { Meta { key, signer: false, writable: false } }
pub fn rs(key: Key) -> Meta { Meta { key, signer: true, writable: false } }

#[derive(Clone, Debug)]
pub struct Ix {
    pub program: Key,
    pub metas: Vec<Meta>,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    /// program returned an error code
    Err(u64),
    /// program panicked
    Panic(String),
    /// runtime rule broken
    Rt(String),
}

#[derive(Clone)]
pub struct Svm {
    pub accts: BTreeMap<Key, Acct>,
    pub slot: u64,
    pub lpby: u64,
    /// keys whose secp256r1 signature the ideal precompile accepts: sig = H(pk||msg)
    pub puppets: BTreeSet<Key>,
    pub scope_prog: BTreeSet<Key>,
    pub cpi_trace: Vec<CpiRec>,
}

#[derive(Clone, Debug)]
pub struct CpiRec {
    pub program: Key,
    pub metas: Vec<Meta>,
    pub data: Vec<u8>,
    pub depth: u64,
}

struct Frame {
    program: Key,
    metas: Vec<Meta>,               // merged, one per instruction account slot
    buf: *mut u8,
    offs: BTreeMap<Key, usize>,     // key -> offset of raw account in buf
    depth: u64,
    lam_in: BTreeMap<Key, Acct>,
}

struct Run {
    svm: Svm,
    frames: Vec<Frame>,
    tx: Vec<Ix>,
    cur: usize,
}
thread_local! {
    static RUN: RefCell<Option<Run>> = RefCell::new(None);
}

struct Abort(Fail);

/* ---------- raw account layout of pinocchio's input buffer ---------- */
const HDR: usize = 88; // borrow,signer,writable,exec,delta(4),key32,owner32,lamports8,datalen8
const GROW: usize = 10240;

fn rd64(p: *const u8) -> u64 { unsafe { std::ptr::read_unaligned(p as *const u64) } }
fn wr64(p: *mut u8, v: u64) { unsafe { std::ptr::write_unaligned(p as *mut u64, v) } }

unsafe fn raw_get(p: *const u8) -> (Key, u64, Vec<u8>) {
    let mut owner = [0u8; 32];
    std::ptr::copy_nonoverlapping(p.add(40), owner.as_mut_ptr(), 32);
    let lam = rd64(p.add(72));
    let len = rd64(p.add(80)) as usize;
    let data = std::slice::from_raw_parts(p.add(HDR), len.min(20_000_000)).to_vec();
    (owner, lam, data)
}
unsafe fn raw_put(p: *mut u8, a: &Acct) {
    std::ptr::copy_nonoverlapping(a.owner.as_ptr(), p.add(40), 32);
    wr64(p.add(72), a.lamports);
    wr64(p.add(80), a.data.len() as u64);
    std::ptr::copy_nonoverlapping(a.data.as_ptr(), p.add(HDR), a.data.len());
}

pub fn sha(parts: &[&[u8]]) -> Key {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
pub fn keccak(parts: &[&[u8]]) -> Key {
    use sha3::Digest as _;
    let mut h = sha3::Keccak256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

pub fn create_pda(seeds: &[&[u8]], program: &Key) -> Option<Key> {
    if seeds.len() > 16 || seeds.iter().any(|s| s.len() > 32) {
        return None;
    }
    let mut h = Sha256::new();
    for s in seeds {
        h.update(s);
    }
    h.update(program);
    h.update(b"ProgramDerivedAddress");
    let k: Key = h.finalize().into();
    if curve25519_dalek::edwards::CompressedEdwardsY(k).decompress().is_some() {
        None
    } else {
        Some(k)
    }
}
pub fn find_pda(seeds: &[&[u8]], program: &Key) -> (Key, u8) {
    for b in (0..=255u8).rev() {
        let bb = [b];
        let mut s = seeds.to_vec();
        s.push(&bb);
        if let Some(k) = create_pda(&s, program) {
            return (k, b);
        }
    }
    panic!("no pda")
}

impl Svm {
    pub fn new(lpby: u64) -> Self {
        Svm {
            accts: BTreeMap::new(),
            slot: 0,
            lpby,
            puppets: BTreeSet::new(),
            scope_prog: BTreeSet::new(),
            cpi_trace: vec![],
        }
    }
    pub fn rent(&self, len: usize) -> u64 { (128 + len as u64).wrapping_mul(self.lpby).wrapping_mul(2) }
    pub fn get(&self, k: &Key) -> Acct { self.accts.get(k).cloned().unwrap_or_default() }
    pub fn set(&mut self, k: Key, a: Acct) { self.accts.insert(k, a); }

    /// Whether the transaction ends within the time a transaction may take; tried in a child
    /// process, as the program cannot be stopped here.
    pub fn ends(&self, tx: &[Ix]) -> bool {
        extern "C" {
            fn fork() -> i32;
            fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
            fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
            fn _exit(code: i32) -> !;
        }
        const RLIMIT_CPU: i32 = 0;
        const SIGXCPU: i32 = 24;
        unsafe {
            let pid = fork();
            if pid < 0 {
                return true;
            }
            if pid == 0 {
                setrlimit(RLIMIT_CPU, &[1, 5]);
                let _ = self.clone().exec(tx);
                _exit(0);
            }
            let mut status = 0;
            while waitpid(pid, &mut status, 0) < 0 {}
            status & 0x7f != SIGXCPU
        }
    }

    pub fn ask(f: impl FnOnce() -> String) -> Option<String> { crate::ask::ask(f) }

    /// Execute one transaction atomically.
    pub fn exec(&mut self, tx: &[Ix]) -> Result<(), (usize, Fail)> {
        self.cpi_trace.clear();
        let mut work = self.clone();
        for (i, ix) in tx.iter().enumerate() {
            if ix.program == r1_id() {
                if let Err(e) = verify_r1(tx, ix) {
                    return Err((i, Fail::Rt(e)));
                }
            }
        }
        for (i, ix) in tx.iter().enumerate() {
            let run = Run { svm: work.clone(), frames: vec![], tx: tx.to_vec(), cur: i };
            RUN.with(|r| *r.borrow_mut() = Some(run));
            let res = if ix.program == relay_id() {
                invoke_frame(ix.metas[0].key, ix.metas[1..].to_vec(), ix.data.clone(), 2)
            } else {
                invoke_frame(ix.program, ix.metas.clone(), ix.data.clone(), 1)
            };
            let run = RUN.with(|r| r.borrow_mut().take().unwrap());
            match res {
                Ok(()) => work = run.svm,
                Err(e) => return Err((i, e)),
            }
        }
        // transaction-level: every account must be rent exempt or empty, unless untouched
        for (k, a) in work.accts.iter() {
            let was = self.accts.get(k);
            if a.lamports > 0 && a.lamports < self.rent(a.data.len()) {
                let ok = match was {
                    Some(b) => {
                        b.lamports > 0
                            && b.lamports < self.rent(b.data.len())
                            && b.data.len() == a.data.len()
                            && a.lamports <= b.lamports
                    },
                    None => false,
                };
                if !ok {
                    return Err((tx.len(), Fail::Rt("rent".into())));
                }
            }
        }
        work.accts.retain(|_, a| a.lamports > 0 || a.exec);
        let tr = std::mem::take(&mut work.cpi_trace);
        *self = work;
        self.cpi_trace = tr;
        Ok(())
    }
}

fn with_run<T>(f: impl FnOnce(&mut Run) -> T) -> T { RUN.with(|r| f(r.borrow_mut().as_mut().unwrap())) }

/// Run `program` with the given (already privilege-checked) metas on the current accounts.
fn invoke_frame(program: Key, metas: Vec<Meta>, data: Vec<u8>, depth: u64) -> Result<(), Fail> {
    if depth > 5 {
        return Err(Fail::Rt("call depth".into()));
    }
    // merge privileges of duplicate metas
    let mut merged: Vec<Meta> = Vec::new();
    for m in &metas {
        let s = metas.iter().any(|x| x.key == m.key && x.signer);
        let wr = metas.iter().any(|x| x.key == m.key && x.writable);
        merged.push(Meta { key: m.key, signer: s, writable: wr });
    }
    let pre: BTreeMap<Key, Acct> =
        with_run(|r| merged.iter().map(|m| (m.key, r.svm.get(&m.key))).collect());
    let res = if program == swig::ID {
        run_swig(&merged, &data, depth)
    } else {
        run_builtin(program, &merged, &data)
    };
    res?;
    // account rules on what the program itself (not its callees) could do are enforced in
    // run_swig / the builtins; lamport conservation over the frame:
    let (a, b) = with_run(|r| {
        let post: u128 = pre.keys().map(|k| r.svm.get(k).lamports as u128).sum();
        (pre.values().map(|x| x.lamports as u128).sum::<u128>(), post)
    });
    if a != b {
        return Err(Fail::Rt("lamports unbalanced".into()));
    }
    Ok(())
}

fn ixs_data(tx: &[Ix], cur: usize) -> Vec<u8> {
    let mut d = vec![];
    d.extend_from_slice(&(tx.len() as u16).to_le_bytes());
    let base = d.len();
    d.resize(base + 2 * tx.len(), 0);
    for (i, ix) in tx.iter().enumerate() {
        let o = d.len() as u16;
        d[base + 2 * i..base + 2 * i + 2].copy_from_slice(&o.to_le_bytes());
        d.extend_from_slice(&(ix.metas.len() as u16).to_le_bytes());
        for m in &ix.metas {
            d.push(m.signer as u8 | ((m.writable as u8) << 1));
            d.extend_from_slice(&m.key);
        }
        d.extend_from_slice(&ix.program);
        d.extend_from_slice(&(ix.data.len() as u16).to_le_bytes());
        d.extend_from_slice(&ix.data);
    }
    d.extend_from_slice(&(cur as u16).to_le_bytes());
    d
}

/// Account references as a program gets them.
pub fn with_infos<T>(metas: &[Meta], f: impl FnOnce(&[pinocchio::account_info::AccountInfo]) -> T) -> T {
    use pinocchio::lazy_entrypoint::{InstructionContext, MaybeAccount};
    let size = 8 + metas.len() * (HDR + GROW + 16) + 64;
    let mut store: Vec<u128> = vec![0; size / 16 + 2];
    let buf = store.as_mut_ptr() as *mut u8;
    let mut p = 8usize;
    unsafe {
        wr64(buf, metas.len() as u64);
        for (i, m) in metas.iter().enumerate() {
            if let Some(j) = metas[..i].iter().position(|x| x.key == m.key) {
                *buf.add(p) = j as u8;
                p += 8;
                continue;
            }
            *buf.add(p) = 0xff;
            *buf.add(p + 1) = m.signer as u8;
            *buf.add(p + 2) = m.writable as u8;
            std::ptr::copy_nonoverlapping(m.key.as_ptr(), buf.add(p + 8), 32);
            p += HDR + GROW;
            p = (p + 7) & !7;
            p += 8;
        }
        let mut ctx = InstructionContext::new_unchecked(buf);
        let mut v: Vec<pinocchio::account_info::AccountInfo> = vec![];
        for _ in metas {
            let a = match ctx.next_account_unchecked() {
                MaybeAccount::Account(a) => a,
                MaybeAccount::Duplicated(j) => v[j as usize].clone(),
            };
            v.push(a);
        }
        f(&v)
    }
}

fn run_swig(metas: &[Meta], data: &[u8], depth: u64) -> Result<(), Fail> {
    // serialize
    let (accts, sysv): (Vec<Acct>, Vec<u8>) = with_run(|r| {
        (metas.iter().map(|m| r.svm.get(&m.key)).collect(), ixs_data(&r.tx, r.cur))
    });
    let mut size = 8 + data.len() + 8 + 32 + 64;
    for a in &accts {
        size += HDR + 8 + GROW + 16 + a.data.len() + sysv.len();
    }
    let mut store: Vec<u128> = vec![0; size / 16 + 2];
    let buf = store.as_mut_ptr() as *mut u8;
    let mut offs: BTreeMap<Key, usize> = BTreeMap::new();
    let mut first: Vec<(Key, usize)> = vec![];
    let mut p = 8usize;
    let mut orig_len: BTreeMap<Key, usize> = BTreeMap::new();
    unsafe {
        wr64(buf, metas.len() as u64);
        for (i, m) in metas.iter().enumerate() {
            if let Some((_, j)) = first.iter().find(|(k, _)| *k == m.key) {
                *buf.add(p) = *j as u8;
                p += 8;
                continue;
            }
            first.push((m.key, i));
            offs.insert(m.key, p);
            let mut a = accts[i].clone();
            if m.key == ixs_sysvar() {
                a.data = sysv.clone();
                a.owner = IDS.with(|x| x.sysvar);
                a.lamports = 1;
            }
            orig_len.insert(m.key, a.data.len());
            *buf.add(p) = 0xff;
            *buf.add(p + 1) = m.signer as u8;
            *buf.add(p + 2) = m.writable as u8;
            *buf.add(p + 3) = a.exec as u8;
            std::ptr::copy_nonoverlapping(m.key.as_ptr(), buf.add(p + 8), 32);
            raw_put(buf.add(p), &a);
            p += HDR + a.data.len() + GROW;
            p = (p + 7) & !7;
            wr64(buf.add(p), u64::MAX);
            p += 8;
        }
        wr64(buf.add(p), data.len() as u64);
        p += 8;
        std::ptr::copy_nonoverlapping(data.as_ptr(), buf.add(p), data.len());
        p += data.len();
        std::ptr::copy_nonoverlapping(swig::ID.as_ptr(), buf.add(p), 32);
    }
    let view: BTreeMap<Key, Acct> =
        offs.keys().map(|k| (*k, with_run(|r| r.svm.get(k)))).collect();
    with_run(|r| {
        r.frames.push(Frame {
            program: swig::ID,
            metas: metas.to_vec(),
            buf,
            offs: offs.clone(),
            depth,
            lam_in: view,
        })
    });
    let res = catch_unwind(AssertUnwindSafe(|| unsafe {
        let ctx = pinocchio::lazy_entrypoint::InstructionContext::new_unchecked(buf);
        swig::process_instruction(ctx)
    }));
    let out = match res {
        Ok(Ok(())) => sync_from_caller(true),
        Ok(Err(e)) => Err(Fail::Err(u64::from(e))),
        Err(p) => match p.downcast::<Abort>() {
            Ok(a) => Err(a.0),
            Err(p) => {
                let s = if let Some(s) = p.downcast_ref::<String>() {
                    s.clone()
                } else if let Some(s) = p.downcast_ref::<&str>() {
                    s.to_string()
                } else {
                    "panic".into()
                };
                Err(Fail::Panic(s))
            },
        },
    };
    with_run(|r| {
        r.frames.pop();
    });
    drop(store);
    out
}

/// Take over what the running swig program wrote into its buffer, checking the account rules.
fn sync_from_caller(_exit: bool) -> Result<(), Fail> {
    with_run(|r| {
        let (buf, offs, metas, program) = {
            let f = r.frames.last().unwrap();
            (f.buf, f.offs.clone(), f.metas.clone(), f.program)
        };
        for (k, o) in offs.iter() {
            if *k == ixs_sysvar() {
                continue;
            }
            let m = metas.iter().find(|m| m.key == *k).unwrap();
            let (owner, lam, data) = unsafe { raw_get(buf.add(*o)) };
            let prev = r.frames.last().unwrap().lam_in.get(k).cloned().unwrap_or_default();
            if owner == prev.owner && lam == prev.lamports && data == prev.data {
                continue;
            }
            let e = |s: &str| Err(Fail::Rt(s.into()));
            if !m.writable {
                return e("readonly modified");
            }
            if prev.exec {
                return e("executable modified");
            }
            if lam < prev.lamports && prev.owner != program {
                return e("external lamport spend");
            }
            if data != prev.data {
                if prev.owner != program {
                    return e("external data modified");
                }
                if data.len() > prev.data.len() + GROW {
                    return e("realloc");
                }
            }
            if owner != prev.owner {
                if prev.owner != program || data.iter().any(|b| *b != 0) {
                    return e("owner change");
                }
            }
            let a = Acct { owner, lamports: lam, data, exec: prev.exec };
            r.frames.last_mut().unwrap().lam_in.insert(*k, a.clone());
            r.svm.accts.insert(*k, a);
        }
        Ok(())
    })
}

fn sync_to_caller() {
    with_run(|r| {
        let keys: Vec<(Key, usize)> =
            r.frames.last().unwrap().offs.iter().map(|(k, o)| (*k, *o)).collect();
        for (k, o) in keys {
            if k == ixs_sysvar() {
                continue;
            }
            let a = r.svm.get(&k);
            let f = r.frames.last_mut().unwrap();
            let oldlen = unsafe { rd64(f.buf.add(o + 80)) } as usize;
            unsafe {
                raw_put(f.buf.add(o), &a);
                if a.data.len() < oldlen {
                    std::ptr::write_bytes(f.buf.add(o + HDR + a.data.len()), 0, oldlen - a.data.len());
                }
            }
            f.lam_in.insert(k, a);
        }
    })
}

fn abort(f: Fail) -> ! { resume_unwind(Box::new(Abort(f))) }
fn rt(s: &str) -> ! { abort(Fail::Rt(s.into())) }

unsafe fn key_at(p: *const u8) -> Key {
    let mut k = [0u8; 32];
    std::ptr::copy_nonoverlapping(p, k.as_mut_ptr(), 32);
    k
}

unsafe fn seeds_at(addr: *const u8, n: u64) -> Vec<Vec<u8>> {
    let mut out = vec![];
    for i in 0..n as usize {
        let p = addr.add(i * 16);
        let ptr = rd64(p) as *const u8;
        let len = rd64(p.add(8)) as usize;
        out.push(if len == 0 { vec![] } else { std::slice::from_raw_parts(ptr, len).to_vec() });
    }
    out
}

#[no_mangle]
pub unsafe extern "C-unwind" fn sol_invoke_signed_c(
    ix: *const u8,
    _infos: *const u8,
    infos_len: u64,
    signers: *const u8,
    nsigners: u64,
) -> u64 {
    let program = key_at(rd64(ix) as *const u8);
    let accs = rd64(ix.add(8)) as *const u8;
    let n = rd64(ix.add(16)) as usize;
    let dptr = rd64(ix.add(24)) as *const u8;
    let dlen = rd64(ix.add(32)) as usize;
    let data = if dlen == 0 { vec![] } else { std::slice::from_raw_parts(dptr, dlen).to_vec() };
    let mut metas = vec![];
    for i in 0..n {
        let p = accs.add(i * 16);
        metas.push(Meta {
            key: key_at(rd64(p) as *const u8),
            writable: *p.add(8) != 0,
            signer: *p.add(9) != 0,
        });
    }
    let caller = with_run(|r| r.frames.last().unwrap().program);
    let mut pdas = vec![];
    for i in 0..nsigners as usize {
        let p = signers.add(i * 16);
        let seeds = seeds_at(rd64(p) as *const u8, rd64(p.add(8)));
        let refs: Vec<&[u8]> = seeds.iter().map(|s| &s[..]).collect();
        match create_pda(&refs, &caller) {
            Some(k) => pdas.push(k),
            None => rt("invalid seeds"),
        }
    }
    let (cmetas, depth) = with_run(|r| {
        let f = r.frames.last().unwrap();
        (f.metas.clone(), f.depth)
    });
    if !cmetas.iter().any(|m| m.key == program) {
        rt("cpi: program account missing");
    }
    for m in &metas {
        match cmetas.iter().find(|c| c.key == m.key) {
            None => rt("cpi: account missing"),
            Some(c) => {
                if m.writable && !c.writable {
                    rt("cpi: writable escalation");
                }
                if m.signer && !c.signer && !pdas.contains(&m.key) {
                    rt("cpi: signer escalation");
                }
            },
        }
    }
    if infos_len > 128 {
        rt("cpi: too many account infos");
    }
    // re-entrancy: a program may only call itself directly
    let reenter = with_run(|r| {
        let n = r.frames.len();
        r.frames.iter().enumerate().any(|(i, f)| f.program == program && i + 1 != n)
    });
    if reenter {
        rt("reentrancy");
    }
    if let Err(e) = sync_from_caller(false) {
        abort(e);
    }
    with_run(|r| {
        r.svm.cpi_trace.push(CpiRec { program, metas: metas.clone(), data: data.clone(), depth })
    });
    match invoke_frame(program, metas, data, depth + 1) {
        Ok(()) => {},
        Err(e) => abort(e),
    }
    sync_to_caller();
    0
}

/* ------------------------------- builtins ------------------------------- */

fn u64at(d: &[u8], o: usize) -> Result<u64, Fail> {
    d.get(o..o + 8)
        .map(|x| u64::from_le_bytes(x.try_into().unwrap()))
        .ok_or(Fail::Rt("ix data".into()))
}
fn u32at(d: &[u8], o: usize) -> Result<u32, Fail> {
    d.get(o..o + 4)
        .map(|x| u32::from_le_bytes(x.try_into().unwrap()))
        .ok_or(Fail::Rt("ix data".into()))
}
fn err<T>(s: &str) -> Result<T, Fail> { Err(Fail::Rt(s.into())) }

fn run_builtin(program: Key, m: &[Meta], d: &[u8]) -> Result<(), Fail> {
    let is_puppet = with_run(|r| r.svm.puppets.contains(&program));
    if program == SYSTEM {
        system(m, d)
    } else if program == token_id() || program == token22_id() {
        token(program, m, d)
    } else if program == stake_id() {
        stake(m, d)
    } else if program == r1_id() {
        Ok(())
    } else if is_puppet {
        puppet(program, m, d)
    } else {
        err("not a program")
    }
}

fn need(m: &[Meta], n: usize) -> Result<(), Fail> {
    if m.len() < n {
        err("not enough accounts")
    } else {
        Ok(())
    }
}

fn move_lamports(from: &Key, to: &Key, amt: u64) -> Result<(), Fail> {
    with_run(|r| {
        let mut a = r.svm.get(from);
        if a.lamports < amt {
            return err("insufficient lamports");
        }
        a.lamports -= amt;
        r.svm.accts.insert(*from, a);
        let mut b = r.svm.get(to);
        b.lamports = match b.lamports.checked_add(amt) {
            Some(x) => x,
            None => return err("overflow"),
        };
        r.svm.accts.insert(*to, b);
        Ok(())
    })
}

fn system(m: &[Meta], d: &[u8]) -> Result<(), Fail> {
    let tag = u32at(d, 0)?;
    match tag {
        0 => {
            need(m, 2)?;
            let lam = u64at(d, 4)?;
            let space = u64at(d, 12)? as usize;
            let owner: Key = d.get(20..52).ok_or(Fail::Rt("data".into()))?.try_into().unwrap();
            if !m[0].signer || !m[1].signer || !m[0].writable || !m[1].writable {
                return err("create: signer/writable");
            }
            let to = with_run(|r| r.svm.get(&m[1].key));
            // CreateAccount requires an empty destination with zero lamports
            if to.lamports > 0 || !to.data.is_empty() || to.owner != SYSTEM {
                return err("create: in use");
            }
            let from = with_run(|r| r.svm.get(&m[0].key));
            if from.owner != SYSTEM || !from.data.is_empty() {
                return err("create: from");
            }
            move_lamports(&m[0].key, &m[1].key, lam)?;
            with_run(|r| {
                let mut a = r.svm.get(&m[1].key);
                a.owner = owner;
                a.data = vec![0; space];
                r.svm.accts.insert(m[1].key, a);
            });
            Ok(())
        },
        1 => {
            need(m, 1)?;
            let owner: Key = d.get(4..36).ok_or(Fail::Rt("data".into()))?.try_into().unwrap();
            if !m[0].signer || !m[0].writable {
                return err("assign: signer");
            }
            with_run(|r| {
                let mut a = r.svm.get(&m[0].key);
                if a.owner == owner {
                    return Ok(());
                }
                if a.owner != SYSTEM {
                    return err("assign: owner");
                }
                a.owner = owner;
                r.svm.accts.insert(m[0].key, a);
                Ok(())
            })
        },
        2 => {
            need(m, 2)?;
            let lam = u64at(d, 4)?;
            if !m[0].signer || !m[0].writable || !m[1].writable {
                return err("transfer: signer/writable");
            }
            let from = with_run(|r| r.svm.get(&m[0].key));
            if from.owner != SYSTEM || !from.data.is_empty() {
                return err("transfer: from");
            }
            move_lamports(&m[0].key, &m[1].key, lam)
        },
        8 => {
            need(m, 1)?;
            let space = u64at(d, 4)? as usize;
            if !m[0].signer || !m[0].writable {
                return err("allocate: signer");
            }
            with_run(|r| {
                let mut a = r.svm.get(&m[0].key);
                if a.owner != SYSTEM || !a.data.is_empty() || space > 10_000_000 {
                    return err("allocate: in use");
                }
                a.data = vec![0; space];
                r.svm.accts.insert(m[0].key, a);
                Ok(())
            })
        },
        _ => err("system: unknown"),
    }
}

fn tok_acc(program: &Key, k: &Key) -> Result<Acct, Fail> {
    let a = with_run(|r| r.svm.get(k));
    if a.owner != *program || a.data.len() < 165 || a.data[108] == 0 {
        return err("token: not an account");
    }
    Ok(a)
}
fn put(k: &Key, a: Acct) { with_run(|r| { r.svm.accts.insert(*k, a); }) }

fn token(program: Key, m: &[Meta], d: &[u8]) -> Result<(), Fail> {
    let tag = *d.first().ok_or(Fail::Rt("data".into()))?;
    // who may move `amt` from account a: owner, or delegate within allowance
    fn authorize(a: &mut Acct, who: &Meta, amt: u64) -> Result<(), Fail> {
        if !who.signer {
            return err("token: authority must sign");
        }
        if a.data[108] == 2 {
            return err("token: frozen");
        }
        if a.data[72..76] == [1, 0, 0, 0] && a.data[76..108] == who.key {
            let del = u64at(&a.data, 121)?;
            if del < amt {
                return err("token: allowance");
            }
            let left = del - amt;
            a.data[121..129].copy_from_slice(&left.to_le_bytes());
            if left == 0 {
                a.data[72..108].fill(0);
            }
            return Ok(());
        }
        if a.data[32..64] != who.key {
            return err("token: owner mismatch");
        }
        Ok(())
    }
    let bal = |a: &Acct| u64::from_le_bytes(a.data[64..72].try_into().unwrap());
    match tag {
        3 | 12 => {
            let (si, di, ai) = if tag == 3 { (0, 1, 2) } else { (0, 2, 3) };
            need(m, ai + 1)?;
            let amt = u64at(d, 1)?;
            if !m[si].writable || !m[di].writable {
                return err("token: writable");
            }
            let mut s = tok_acc(&program, &m[si].key)?;
            let t = tok_acc(&program, &m[di].key)?;
            if bal(&s) < amt {
                return err("token: insufficient");
            }
            if s.data[0..32] != t.data[0..32] {
                return err("token: mint mismatch");
            }
            if tag == 12 && s.data[0..32] != m[1].key {
                return err("token: mint account");
            }
            authorize(&mut s, &m[ai], amt)?;
            let same = m[si].key == m[di].key;
            let sb = bal(&s);
            if same {
                put(&m[si].key, s);
                return Ok(());
            }
            s.data[64..72].copy_from_slice(&(sb - amt).to_le_bytes());
            put(&m[si].key, s);
            let mut t = t;
            let tb = bal(&t).checked_add(amt).ok_or(Fail::Rt("overflow".into()))?;
            t.data[64..72].copy_from_slice(&tb.to_le_bytes());
            put(&m[di].key, t);
            Ok(())
        },
        4 => {
            need(m, 3)?;
            let amt = u64at(d, 1)?;
            let mut s = tok_acc(&program, &m[0].key)?;
            if !m[2].signer || s.data[32..64] != m[2].key || !m[0].writable {
                return err("token: approve");
            }
            s.data[72..76].copy_from_slice(&[1, 0, 0, 0]);
            s.data[76..108].copy_from_slice(&m[1].key);
            s.data[121..129].copy_from_slice(&amt.to_le_bytes());
            put(&m[0].key, s);
            Ok(())
        },
        6 => {
            need(m, 2)?;
            let kind = *d.get(1).ok_or(Fail::Rt("data".into()))?;
            let some = *d.get(2).ok_or(Fail::Rt("data".into()))?;
            let mut s = tok_acc(&program, &m[0].key)?;
            if !m[0].writable {
                return err("token: writable");
            }
            match kind {
                2 => {
                    if !m[1].signer || s.data[32..64] != m[1].key || some != 1 {
                        return err("token: set owner");
                    }
                    let k: Key = d.get(3..35).ok_or(Fail::Rt("d".into()))?.try_into().unwrap();
                    s.data[32..64].copy_from_slice(&k);
                    s.data[72..108].fill(0);
                    s.data[121..129].fill(0);
                },
                3 => {
                    let auth: Key = if s.data[129..133] == [1, 0, 0, 0] {
                        s.data[133..165].try_into().unwrap()
                    } else {
                        s.data[32..64].try_into().unwrap()
                    };
                    if !m[1].signer || auth != m[1].key {
                        return err("token: set close");
                    }
                    if some == 1 {
                        let k: Key = d.get(3..35).ok_or(Fail::Rt("d".into()))?.try_into().unwrap();
                        s.data[129..133].copy_from_slice(&[1, 0, 0, 0]);
                        s.data[133..165].copy_from_slice(&k);
                    } else {
                        s.data[129..165].fill(0);
                    }
                },
                _ => return err("token: authority kind"),
            }
            put(&m[0].key, s);
            Ok(())
        },
        8 => {
            // burn [account, mint, authority]
            need(m, 3)?;
            let amt = u64at(d, 1)?;
            let mut s = tok_acc(&program, &m[0].key)?;
            if bal(&s) < amt || !m[0].writable {
                return err("token: burn");
            }
            authorize(&mut s, &m[2], amt)?;
            let sb = bal(&s);
            s.data[64..72].copy_from_slice(&(sb - amt).to_le_bytes());
            put(&m[0].key, s);
            Ok(())
        },
        // change one of the bytes this reduction gives no meaning
        100 => {
            need(m, 2)?;
            let mut s = tok_acc(&program, &m[0].key)?;
            let o = u64at(d, 1)? as usize;
            if !m[0].writable || !m[1].signer || s.data[32..64] != m[1].key {
                return err("token: poke");
            }
            if !((109..121).contains(&o) || o >= 165) || o >= s.data.len() {
                return err("token: offset");
            }
            s.data[o] ^= 0x40;
            put(&m[0].key, s);
            Ok(())
        },
        9 => {
            need(m, 3)?;
            let s = tok_acc(&program, &m[0].key)?;
            if !m[0].writable || !m[1].writable || m[0].key == m[1].key {
                return err("token: close");
            }
            if bal(&s) != 0 {
                return err("token: nonzero balance");
            }
            let auth: Key = if s.data[129..133] == [1, 0, 0, 0] {
                s.data[133..165].try_into().unwrap()
            } else {
                s.data[32..64].try_into().unwrap()
            };
            if !m[2].signer || auth != m[2].key {
                return err("token: close authority");
            }
            move_lamports(&m[0].key, &m[1].key, s.lamports)?;
            put(&m[0].key, Acct { owner: SYSTEM, lamports: 0, data: vec![], exec: false });
            Ok(())
        },
        _ => err("token: unknown"),
    }
}

/// Stake program, reduced to what moves value: Withdraw(4) and Split(3); 200-byte accounts
/// (withdrawer at 44..76, delegated stake at 156..164).
fn stake(m: &[Meta], d: &[u8]) -> Result<(), Fail> {
    let tag = u32at(d, 0)?;
    need(m, 3)?;
    let mut s = with_run(|r| r.svm.get(&m[0].key));
    if s.owner != stake_id() || s.data.len() < 200 {
        return err("stake: account");
    }
    let amt = u64at(d, 4)?;
    if !m[2].signer || s.data[44..76] != m[2].key || !m[0].writable || !m[1].writable {
        return err("stake: authority");
    }
    match tag {
        4 => move_lamports(&m[0].key, &m[1].key, amt),
        3 => {
            // split: lamports and delegated stake move to another stake account
            let mut t = with_run(|r| r.svm.get(&m[1].key));
            if t.owner != stake_id() || t.data.len() < 200 || m[0].key == m[1].key {
                return err("stake: dest");
            }
            let del = u64at(&s.data, 156)?;
            if del < amt {
                return err("stake: delegated");
            }
            s.data[156..164].copy_from_slice(&(del - amt).to_le_bytes());
            put(&m[0].key, s);
            let td = u64at(&t.data, 156)?.wrapping_add(amt);
            t.data[156..164].copy_from_slice(&td.to_le_bytes());
            put(&m[1].key, t);
            move_lamports(&m[0].key, &m[1].key, amt)
        },
        // part of the stake deactivates while lamports leave
        100 => {
            let b = u64at(d, 12)?;
            let del = u64at(&s.data, 156)?;
            if del < b {
                return err("stake: delegated");
            }
            s.data[156..164].copy_from_slice(&(del - b).to_le_bytes());
            put(&m[0].key, s);
            move_lamports(&m[0].key, &m[1].key, amt)
        },
        // change of delegated stake only (delegate/deactivate): set delegated to amt
        2 => {
            s.data[156..164].copy_from_slice(&amt.to_le_bytes());
            put(&m[0].key, s);
            Ok(())
        },
        // change one of the bytes this reduction gives no meaning
        101 => {
            let o = amt as usize;
            if !((4..44).contains(&o) || (76..156).contains(&o) || o >= 164) || o >= s.data.len() {
                return err("stake: offset");
            }
            s.data[o] ^= 0x40;
            put(&m[0].key, s);
            Ok(())
        },
        // authorize: hand the withdraw authority to another key (account 1)
        1 => {
            let k = m[1].key;
            s.data[44..76].copy_from_slice(&k);
            put(&m[0].key, s);
            Ok(())
        },
        _ => err("stake: unknown"),
    }
}

/// A generic program whose instruction data is a script over the accounts it owns:
/// 0xA0 write: [acct idx u8][off u16][len u8][bytes]; 0xA1 move lamports out of an owned
/// account: [from u8][to u8][u64]; 0xA2 require signer [idx]; 0xA3 fail; 0xA4 system transfer
/// [u64] of metas 0 to 1; 0xA5 token transfer [u64] of metas 0 to 1, authority 2, program 3;
/// other bytes: ignored.
fn puppet(program: Key, m: &[Meta], d: &[u8]) -> Result<(), Fail> {
    let mut i = 0;
    if d.is_empty() || !(0xA0..=0xA5).contains(&d[0]) {
        return Ok(());
    }
    while i < d.len() {
        match d[i] {
            0xA0 => {
                let k = *d.get(i + 1).ok_or(Fail::Rt("d".into()))? as usize;
                let off = u16::from_le_bytes(d[i + 2..i + 4].try_into().unwrap()) as usize;
                let len = d[i + 4] as usize;
                let b = d[i + 5..i + 5 + len].to_vec();
                i += 5 + len;
                need(m, k + 1)?;
                let mut a = with_run(|r| r.svm.get(&m[k].key));
                if a.owner != program || !m[k].writable || a.data.len() < off + len {
                    return err("puppet: write");
                }
                a.data[off..off + len].copy_from_slice(&b);
                put(&m[k].key, a);
            },
            0xA1 => {
                let (f, t) = (d[i + 1] as usize, d[i + 2] as usize);
                let amt = u64at(d, i + 3)?;
                i += 11;
                need(m, f.max(t) + 1)?;
                let a = with_run(|r| r.svm.get(&m[f].key));
                if a.owner != program || !m[f].writable || !m[t].writable {
                    return err("puppet: move");
                }
                move_lamports(&m[f].key, &m[t].key, amt)?;
            },
            0xA2 => {
                let k = d[i + 1] as usize;
                i += 2;
                need(m, k + 1)?;
                if !m[k].signer {
                    return err("puppet: signer");
                }
            },
            0xA3 => return err("puppet: fail"),
            0xA4 => {
                let amt = u64at(d, i + 1)?;
                i += 9;
                need(m, 3)?;
                system(&m[..2], &[&2u32.to_le_bytes()[..], &amt.to_le_bytes()].concat())?;
            },
            0xA5 => {
                let amt = u64at(d, i + 1)?;
                i += 9;
                need(m, 4)?;
                token(m[3].key, &m[..3], &[&[3u8][..], &amt.to_le_bytes()].concat())?;
            },
            _ => i += 1,
        }
    }
    Ok(())
}

/* ---------------------- secp256r1 precompile (ideal) ---------------------- */
/// Idealised signature: only someone who "has" the key calls this.
pub fn r1_sign(pk: &[u8; 33], msg: &[u8]) -> [u8; 64] {
    let a = sha(&[b"r1a", pk, msg]);
    let b = sha(&[b"r1b", pk, msg]);
    let mut s = [0u8; 64];
    s[..32].copy_from_slice(&a);
    s[32..].copy_from_slice(&b);
    s
}

fn verify_r1(tx: &[Ix], ix: &Ix) -> Result<(), String> {
    let d = &ix.data;
    if d.len() < 2 {
        return Err("r1: short".into());
    }
    let n = d[0] as usize;
    if n == 0 || n > 8 || d.len() < 2 + 14 * n {
        return Err("r1: count".into());
    }
    let get = |idx: u16, off: usize, len: usize| -> Result<Vec<u8>, String> {
        let src: &[u8] = if idx == u16::MAX {
            d
        } else {
            &tx.get(idx as usize).ok_or("r1: ix index")?.data
        };
        src.get(off..off + len).map(|x| x.to_vec()).ok_or("r1: offset".to_string())
    };
    for i in 0..n {
        let o = 2 + 14 * i;
        let f = |j: usize| u16::from_le_bytes(d[o + 2 * j..o + 2 * j + 2].try_into().unwrap());
        let sig = get(f(1), f(0) as usize, 64)?;
        let pk: [u8; 33] = get(f(3), f(2) as usize, 33)?.try_into().unwrap();
        let msg = get(f(6), f(4) as usize, f(5) as usize)?;
        if r1_sign(&pk, &msg)[..] != sig[..] {
            return Err("r1: bad signature".into());
        }
    }
    Ok(())
}

/* ------------------------------- syscalls ------------------------------- */

#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_(p: *const u8, n: u64) {
    if std::env::var_os("SWIGH_LOG").is_some() {
        eprintln!("  log: {}", String::from_utf8_lossy(std::slice::from_raw_parts(p, n as usize)));
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_64_(_: u64, _: u64, _: u64, _: u64, _: u64) {}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_compute_units_() {}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_pubkey(_: *const u8) {}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_data(_: *const u8, _: u64) {}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_remaining_compute_units() -> u64 { 1_000_000 }
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_set_return_data(_: *const u8, _: u64) {}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_return_data(_: *mut u8, _: u64, _: *mut Key) -> u64 { 0 }

#[no_mangle]
pub unsafe extern "C-unwind" fn sol_create_program_address(
    seeds: *const u8,
    n: u64,
    program: *const u8,
    out: *const u8,
) -> u64 {
    let s = seeds_at(seeds, n);
    let refs: Vec<&[u8]> = s.iter().map(|x| &x[..]).collect();
    match create_pda(&refs, &key_at(program)) {
        Some(k) => {
            std::ptr::copy_nonoverlapping(k.as_ptr(), out as *mut u8, 32);
            0
        },
        None => 1,
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_try_find_program_address(
    seeds: *const u8,
    n: u64,
    program: *const u8,
    out: *const u8,
    bump: *const u8,
) -> u64 {
    let s = seeds_at(seeds, n);
    let refs: Vec<&[u8]> = s.iter().map(|x| &x[..]).collect();
    if refs.len() > 15 || refs.iter().any(|x| x.len() > 32) {
        return 1;
    }
    let (k, b) = find_pda(&refs, &key_at(program));
    std::ptr::copy_nonoverlapping(k.as_ptr(), out as *mut u8, 32);
    *(bump as *mut u8) = b;
    0
}
unsafe fn slices(vals: *const u8, n: u64) -> Vec<Vec<u8>> { seeds_at(vals, n) }
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_sha256(vals: *const u8, n: u64, out: *mut u8) -> u64 {
    let s = slices(vals, n);
    let refs: Vec<&[u8]> = s.iter().map(|x| &x[..]).collect();
    std::ptr::copy_nonoverlapping(sha(&refs).as_ptr(), out, 32);
    0
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_keccak256(vals: *const u8, n: u64, out: *mut u8) -> u64 {
    let s = slices(vals, n);
    let refs: Vec<&[u8]> = s.iter().map(|x| &x[..]).collect();
    std::ptr::copy_nonoverlapping(keccak(&refs).as_ptr(), out, 32);
    0
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_secp256k1_recover(
    hash: *const u8,
    rec: u64,
    sig: *const u8,
    out: *mut u8,
) -> u64 {
    let h = key_at(hash);
    let s = std::slice::from_raw_parts(sig, 64);
    let Ok(msg) = libsecp256k1::Message::parse_slice(&h) else { return 1 };
    let Ok(rid) = libsecp256k1::RecoveryId::parse(rec as u8) else { return 2 };
    if rec > 3 {
        return 2;
    }
    let Ok(sg) = libsecp256k1::Signature::parse_standard_slice(s) else { return 3 };
    match libsecp256k1::recover(&msg, &sg, &rid) {
        Ok(pk) => {
            let b = pk.serialize();
            std::ptr::copy_nonoverlapping(b[1..].as_ptr(), out, 64);
            0
        },
        Err(_) => 3,
    }
}
fn clock_bytes() -> [u8; 40] {
    let slot = with_run(|r| r.svm.slot);
    let mut b = [0u8; 40];
    b[0..8].copy_from_slice(&slot.to_le_bytes());
    b[32..40].copy_from_slice(&((slot / 2) as i64).to_le_bytes());
    b
}
fn rent_bytes() -> [u8; 17] {
    let l = with_run(|r| r.svm.lpby);
    let mut b = [0u8; 17];
    b[0..8].copy_from_slice(&l.to_le_bytes());
    b[8..16].copy_from_slice(&2.0f64.to_le_bytes());
    b[16] = 50;
    b
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_clock_sysvar(out: *mut u8) -> u64 {
    let b = clock_bytes();
    std::ptr::copy_nonoverlapping(b.as_ptr(), out, 40);
    0
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_rent_sysvar(out: *mut u8) -> u64 {
    let b = rent_bytes();
    std::ptr::copy_nonoverlapping(b.as_ptr(), out, 17);
    0
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_sysvar(id: *const u8, out: *mut u8, off: u64, len: u64) -> u64 {
    let k = key_at(id);
    let b: Vec<u8> = if k == b58("SysvarC1ock11111111111111111111111111111111") {
        clock_bytes().to_vec()
    } else if k == b58("SysvarRent111111111111111111111111111111111") {
        rent_bytes().to_vec()
    } else {
        return 2;
    };
    match b.get(off as usize..(off + len) as usize) {
        Some(x) => {
            std::ptr::copy_nonoverlapping(x.as_ptr(), out, x.len());
            0
        },
        None => 1,
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memcpy_(d: *mut u8, s: *const u8, n: u64) {
    std::ptr::copy(s, d, n as usize)
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memmove_(d: *mut u8, s: *const u8, n: u64) {
    std::ptr::copy(s, d, n as usize)
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memset_(d: *mut u8, c: u8, n: u64) {
    std::ptr::write_bytes(d, c, n as usize)
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memcmp_(a: *const u8, b: *const u8, n: u64, out: *mut i32) {
    let x = std::slice::from_raw_parts(a, n as usize);
    let y = std::slice::from_raw_parts(b, n as usize);
    let mut v = 0;
    for i in 0..n as usize {
        if x[i] != y[i] {
            v = x[i] as i32 - y[i] as i32;
            break;
        }
    }
    *out = v;
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_stack_height() -> u64 {
    with_run(|r| r.frames.last().map(|f| f.depth).unwrap_or(1))
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_curve_validate_point(_curve: u64, p: *const u8, _res: *mut u8) -> u64 {
    let k = key_at(p);
    curve25519_dalek::edwards::CompressedEdwardsY(k).decompress().is_none() as u64
}
