//! Stands for `typst query`: answers from STUB_JSON as STUB_PLAN says.
//!
//! Plan items, separated by ';':
//!   short=N  only the first N bytes are printed
//!   exit=N   exit status
//!   kill=N   dies by signal N after printing
//!   err=TEXT prints to the standard error stream
//!   bad=N    the byte at N is not UTF-8
//!   tail=T   prints T after the answer
//!   slow=N   prints in pieces of N bytes
use std::io::Write;

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
    fn fcntl(fd: i32, cmd: i32, ...) -> i32;
}

fn main() {
    let plan = std::env::var("STUB_PLAN").unwrap_or_default();
    let get = |k: &str| plan.split(';').find_map(|p| p.strip_prefix(k)).map(|s| s.to_string());
    if let Ok(p) = std::env::var("STUB_ARGS") {
        let a: Vec<String> = std::env::args().skip(1).collect();
        let _ = std::fs::write(p, a.join("\n"));
    }
    let mut json = std::env::var("STUB_JSON").ok().and_then(|p| std::fs::read(p).ok()).unwrap_or_default();
    if let Some(n) = get("short=").and_then(|n| n.parse().ok()) {
        json.truncate(n);
    }
    if let Some(n) = get("bad=").and_then(|n| n.parse::<usize>().ok()) {
        if n < json.len() {
            json[n] = 0xff;
        }
    }
    if let Some(t) = get("tail=") {
        json.extend(t.as_bytes());
    }
    if let Some(e) = get("err=") {
        eprintln!("{e}");
    }
    // the simulator delivers the answer as a whole, so the pipe has to hold it
    const F_SETPIPE_SZ: i32 = 1031;
    if json.len() > 60000 && unsafe { fcntl(1, F_SETPIPE_SZ, 1 << 20) } < json.len() as i32 {
        std::process::exit(98);
    }
    let piece = get("slow=").and_then(|n| n.parse().ok()).unwrap_or(usize::MAX).max(1);
    let mut out = std::io::stdout().lock();
    for c in json.chunks(piece.min(json.len().max(1))) {
        let _ = out.write_all(c);
        let _ = out.flush();
    }
    if let Some(s) = get("kill=").and_then(|n| n.parse().ok()) {
        unsafe { kill(std::process::id() as i32, s) };
    }
    std::process::exit(get("exit=").and_then(|n| n.parse().ok()).unwrap_or(0));
}
