use std::panic::{catch_unwind, AssertUnwindSafe};

/// What `f` has to say, asked in a child process, which may crash or run for ever.
pub fn ask(f: impl FnOnce() -> String) -> Option<String> {
    use std::io::{Read, Write};
    extern "C" {
        fn fork() -> i32;
        fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
        fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
        fn _exit(code: i32) -> !;
    }
    let (mut rx, mut tx) = std::os::unix::net::UnixStream::pair().ok()?;
    unsafe {
        let pid = fork();
        if pid < 0 {
            return None;
        }
        if pid == 0 {
            setrlimit(0, &[2, 6]);
            setrlimit(4, &[0, 0]);
            let r = catch_unwind(AssertUnwindSafe(f)).unwrap_or_default();
            let _ = tx.write_all(r.as_bytes());
            _exit(0);
        }
        drop(tx);
        let mut s = String::new();
        let _ = rx.read_to_string(&mut s);
        let mut status = 0;
        while waitpid(pid, &mut status, 0) < 0 {}
        (status == 0 && !s.is_empty()).then_some(s)
    }
}
