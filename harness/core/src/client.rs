//! The library as clients compile it, in a process of its own (`swigc`, found beside this binary's folder).
use std::{
    io::{BufRead, BufReader, Write},
    process::{Child, ChildStdout, Command, Stdio},
    sync::Mutex,
};

use serde_json::{json, Value};

struct Link(Child, BufReader<ChildStdout>);
enum State {
    New,
    None,
    Up(Link),
}
static LINK: Mutex<State> = Mutex::new(State::New);
static LAST: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);

fn start() -> Option<Link> {
    let exe = std::env::current_exe().ok()?;
    let p = exe.parent()?.parent()?.join("client/release/swigc");
    let mut c = Command::new(p).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().ok()?;
    let o = BufReader::new(c.stdout.take()?);
    Some(Link(c, o))
}

/// one question; None where there is no client to ask
fn put(q: &str) -> Option<String> {
    let mut s = LINK.lock().unwrap();
    if let State::New = *s {
        *s = start().map(State::Up).unwrap_or(State::None);
    }
    let State::Up(l) = &mut *s else { return None };
    let mut a = String::new();
    let i = l.0.stdin.as_mut()?;
    if writeln!(i, "{q}").and_then(|_| i.flush()).is_err() || l.1.read_line(&mut a).unwrap_or(0) == 0 {
        *s = State::None;
        return None;
    }
    Some(a.trim_end().to_string())
}

/// what the client's readers find wrong with an account
pub fn read(d: &[u8], cl: &str) -> String {
    let h: String = d.iter().map(|b| format!("{b:02x}")).collect();
    let q = json!({"i":"read","d":h,"cl":cl}).to_string();
    let mut last = LAST.lock().unwrap();
    if let Some(x) = last.iter().find(|x| x.0 == q) {
        return x.1.clone();
    }
    let a = put(&q).unwrap_or_default();
    last.insert(0, (q, a.clone()));
    last.truncate(4);
    a
}

pub fn lay(op: &mut Value) -> bool {
    match put(&op.to_string()).and_then(|a| serde_json::from_str::<Value>(&a).ok()) {
        Some(v) => {
            op["q"] = v["q"].clone();
            true
        },
        None => false,
    }
}
