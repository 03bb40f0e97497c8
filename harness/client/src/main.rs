//! swigc: the same questions put to the library as a client of the wallet compiles it (without the
//! on-chain cfg). One JSON request per line, one answer per line.
#[path = "../../core/src/ask.rs"]
mod ask;
#[path = "../../core/src/lay.rs"]
mod lay;
#[path = "../../core/src/readers.rs"]
mod readers;

mod decode {
    pub fn u16a(d: &[u8], o: usize) -> usize { u16::from_le_bytes(d[o..o + 2].try_into().unwrap()) as usize }
    pub fn u32a(d: &[u8], o: usize) -> u32 { u32::from_le_bytes(d[o..o + 4].try_into().unwrap()) }
    pub fn u64a(d: &[u8], o: usize) -> u64 { u64::from_le_bytes(d[o..o + 8].try_into().unwrap()) }
}
mod svm {
    pub struct Svm;
    impl Svm {
        pub fn ask(f: impl FnOnce() -> String) -> Option<String> { crate::ask::ask(f) }
    }
}
mod world {
    use serde_json::Value;
    /// keys are named by their hexadecimal digits here
    pub struct World;
    impl World {
        pub fn k(&self, n: &str) -> [u8; 32] { super::hex(n).try_into().unwrap() }
    }
    pub fn gs<'a>(v: &'a Value, k: &str) -> &'a str { v.get(k).and_then(|x| x.as_str()).unwrap_or("") }
    pub fn gi(v: &Value, k: &str) -> i64 { v.get(k).and_then(|x| x.as_i64()).unwrap_or(0) }
    pub fn ga<'a>(v: &'a Value, k: &str) -> Vec<&'a Value> {
        v.get(k).and_then(|x| x.as_array()).map(|a| a.iter().collect()).unwrap_or_default()
    }
}

fn hex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for l in std::io::stdin().lines() {
        let Ok(l) = l else { break };
        let mut op: serde_json::Value = serde_json::from_str(&l).unwrap();
        if op["i"] == "lay" {
            lay::run(&mut op);
            println!("{op}");
        } else {
            let d = hex(world::gs(&op, "d"));
            let cl = world::gs(&op, "cl").to_string();
            let r = ask::ask(|| format!("={}", readers::check(&world::World, "", &d, &[], &cl, 0)));
            println!("{}", r.as_deref().and_then(|r| r.strip_prefix('=')).unwrap_or("no answer;"));
        }
    }
}
