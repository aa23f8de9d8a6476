//! Bindings of the scheduler runtime and of a few process primitives.
use std::alloc::{GlobalAlloc, Layout};

#[allow(dead_code)]
#[allow(suspicious_runtime_symbol_definitions)]
extern "C" {
    pub fn simrt_share();
    pub fn simrt_config(seed: u64, mean: u64, policy: i32, stall: u32, spurious: u32, limit: u64);
    pub fn simrt_replay(pairs: *const u64, n: u64);
    pub fn simrt_add_thread() -> i32;
    pub fn simrt_enter(tid: i32);
    pub fn simrt_wait_entered(tid: i32);
    pub fn simrt_exit();
    pub fn simrt_park_forever();
    pub fn simrt_run() -> i32;
    pub fn simrt_trace_len() -> u64;
    pub fn simrt_trace_get(i: u64, tid: *mut u64, n: *mut u64);
    pub fn simrt_cur() -> i64;
    pub fn simrt_sync(per_1024: u32);
    pub fn simrt_counter(i: i32) -> u64;
    pub fn simrt_events() -> u64;
    pub fn simrt_hash() -> u64;
    pub fn simrt_sim_ns() -> u64;
    pub fn simrt_use_run_arena();
    fn simrt_alloc(n: usize, align: usize) -> *mut u8;
    fn simrt_free(p: *mut u8, n: usize, align: usize);

    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, p: *mut u8, n: usize) -> isize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
}

pub struct SimAlloc;
// SAFETY: the runtime's allocator returns disjoint blocks of the asked size and alignment
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        simrt_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        simrt_free(p, l.size(), l.align())
    }
}

pub fn exit_now(code: i32) -> ! {
    unsafe { _exit(code) }
}

pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { write(fd, b.as_ptr(), b.len()) };
        if n <= 0 {
            exit_now(71);
        }
        b = &b[n as usize..];
    }
}

pub fn read_some(fd: i32, buf: &mut [u8]) -> usize {
    let n = unsafe { read(fd, buf.as_mut_ptr(), buf.len()) };
    if n < 0 {
        0
    } else {
        n as usize
    }
}

/// How a child process ended
#[derive(Debug, Clone, PartialEq)]
pub enum End {
    Exit(i32),
    Signal(i32),
}

/// Starts `f` in a forked process; it writes to the pipe whose end is passed
pub fn spawn_process(f: impl FnOnce(i32)) -> (i32, i32) {
    let mut fds = [0i32; 2];
    unsafe {
        if pipe(fds.as_mut_ptr()) != 0 {
            exit_now(72);
        }
        let pid = fork();
        if pid < 0 {
            exit_now(73);
        }
        if pid == 0 {
            close(fds[0]);
            f(fds[1]);
            exit_now(0);
        }
        close(fds[1]);
        (pid, fds[0])
    }
}

pub fn wait_process(pid: i32) -> End {
    let mut st = 0;
    unsafe {
        while waitpid(pid, &mut st, 0) < 0 {}
    }
    if st & 0x7f == 0 {
        End::Exit((st >> 8) & 0xff)
    } else {
        End::Signal(st & 0x7f)
    }
}

/// Runs `f` in a forked process, returns what it wrote and how it ended
pub fn in_process(secs: u32, f: impl FnOnce(i32)) -> (Vec<u8>, End) {
    let (pid, fd) = spawn_process(|w| {
        unsafe { alarm(secs) };
        f(w)
    });
    let mut out = Vec::new();
    let mut buf = vec![0u8; 65536];
    loop {
        let n = read_some(fd, &mut buf);
        if n == 0 {
            break;
        }
        out.extend_from_slice(&buf[..n]);
    }
    unsafe { close(fd) };
    let e = wait_process(pid);
    (out, e)
}
