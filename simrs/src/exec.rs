//! Executes scenarios: the reference (each operation alone in a fresh process)
//! and the simulated run itself.
use crate::rng::Rng;
use crate::rt::{self, End};
use crate::scenario::*;
use mitex_lexer::sim::Site;
use mitex_spec::CommandSpec;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Ctl {
    pace: Pace,
    rng: Rng,
    points: u64,
    cancel: u64,
    refills: u64,
}
thread_local! {
    static CTL: RefCell<Option<Ctl>> = const { RefCell::new(None) };
}
struct Cancelled;

fn hook(site: Site, default: usize) -> usize {
    let mut fire = false;
    let r = CTL.with(|c| {
        let mut c = c.borrow_mut();
        let Some(c) = c.as_mut() else { return default };
        c.points += 1;
        if c.cancel != 0 && c.points == c.cancel {
            fire = true;
        }
        match site {
            Site::PlainRefill | Site::MacroRefill => {
                c.refills += 1;
                match c.pace.mode {
                    1 => c.pace.a as usize,
                    2 => 1 + c.rng.below(c.pace.b as usize),
                    3 => usize::MAX / 64,
                    _ => default,
                }
            }
            _ => 0,
        }
    });
    if fire {
        std::panic::panic_any(Cancelled);
    }
    r
}

pub fn install() {
    mitex_lexer::sim::install(hook);
    std::panic::set_hook(Box::new(|_| {}));
}

pub fn listing(spec: &CommandSpec) -> String {
    let mut v: Vec<String> =
        spec.items().map(|(k, i)| format!("{k:?} {}", serde_json::to_value(i).unwrap_or(Value::Null))).collect();
    v.sort();
    v.join("\n")
}

/// What a specification written as JSON means, from the documentation of its
/// items and without the code under test. None: not known to be well-formed.
pub fn model_listing(text: &str) -> Option<String> {
    let j: Value = serde_json::from_str(text).ok()?;
    let mut v = vec![];
    for (k, i) in j["commands"].as_object()? {
        let right = |p: Value| json!({"kind": "right", "pattern": p});
        let fixed = |n: u64| right(json!({"kind": "fixed-len", "len": n}));
        let none = json!({"kind": "none"});
        let cmd = |args: Value, alias: &Value| json!({"Cmd": {"args": args, "alias": alias}});
        let env = |args: Value, ctx: &str| json!({"Env": {"args": args, "ctx_feature": {"kind": ctx}, "alias": null}});
        let m = match i["kind"].as_str()? {
            "cmd" => cmd(i["args"].clone(), &i["alias"]),
            "env" => json!({"Env": {"args": i["args"], "ctx_feature": i["ctx_feature"], "alias": i["alias"]}}),
            "sym" => cmd(right(none), &Value::Null),
            "cmd0" => cmd(fixed(0), &Value::Null),
            "cmd1" => cmd(fixed(1), &Value::Null),
            "cmd2" => cmd(fixed(2), &Value::Null),
            "left1-cmd" => cmd(json!({"kind": "left1"}), &Value::Null),
            "matrix-env" => env(none, "is-matrix"),
            "normal-env" => env(none, "none"),
            "glob-env" => json!({"Env": {"args": {"kind": "glob", "pattern": i["pattern"]}, "ctx_feature": i["ctx_feature"], "alias": i["alias"]}}),
            "alias-sym" => cmd(right(none), &i["alias"]),
            "greedy-cmd" => cmd(right(json!({"kind": "greedy"})), &i["alias"]),
            "infix-cmd" => cmd(json!({"kind": "infix-greedy"}), &i["alias"]),
            "glob-cmd" => cmd(right(json!({"kind": "glob", "pattern": i["pattern"]})), &i["alias"]),
            _ => return None,
        };
        v.push(format!("{k:?} {m}"));
    }
    v.sort();
    Some(v.join("\n"))
}

/// What the result of an operation must be according to a model that shares
/// no code with the converter; None where there is none.
fn model(op: &Op, s: &Scenario) -> Option<String> {
    if op.damage.kind != 0 {
        return None;
    }
    match op.kind.as_str() {
        "cspec" | "jspec" => model_listing(&op.doc).map(|l| format!("ok:{l}")),
        "load" | "shared" if op.spec >= 0 => model_listing(s.specs.get(op.spec as usize)?).map(|l| format!("ok:{l}")),
        _ => None,
    }
}

/// Loaded specifications of a scenario
pub struct Specs {
    pub shared: Vec<CommandSpec>,
    pub blobs: Vec<Vec<u8>>,
}

pub fn load_specs(s: &Scenario) -> Specs {
    let mut r = Specs { shared: vec![], blobs: vec![] };
    for j in &s.specs {
        let json: mitex_spec::JsonCommandSpec = match serde_json::from_str(j) {
            Ok(j) => j,
            Err(_) => Default::default(),
        };
        let c: CommandSpec = json.into();
        r.blobs.push(c.to_bytes());
        r.shared.push(c);
    }
    r
}

/// The stored bytes of a specification after the simulated storage fault
fn damaged(op: &Op, specs: &Specs) -> Vec<u8> {
    let mut b = specs.blobs.get(op.spec as usize).cloned().unwrap_or_default();
    let n = b.len().max(1);
    let d = &op.damage;
    match d.kind {
        1 => {
            let mut r = Rng::new(d.a);
            for _ in 0..d.b.max(1) {
                if !b.is_empty() {
                    // biased to the end, where the root object and its pointers are
                    let i = if r.chance(1, 2) { b.len() - 1 - r.below(b.len().min(64)) } else { r.below(b.len()) };
                    b[i] ^= 1 << r.below(8);
                }
            }
        }
        2 => b.truncate((d.a as usize) % n),
        3 => {
            let s = (d.a as usize) % n;
            let e = (s + d.b as usize).min(b.len());
            b[s..e].fill(0);
        }
        4 => {
            if let Some(o) = specs.blobs.get(d.other as usize) {
                let cut = (d.a as usize) % n;
                let tail = o.get(cut..).unwrap_or(&[]).to_vec();
                b.truncate(cut);
                b.extend(tail);
            }
        }
        5 => b.extend((0..d.a % 64 + 1).map(|i| (i * 37 + d.b) as u8)),
        6 => {
            let s = (d.a as usize) % n;
            let e = (s + 512).min(b.len());
            let dup = b[s..e].to_vec();
            b.splice(s..s, dup);
        }
        _ => {}
    }
    b
}

/// Places bytes at a given misalignment inside a 16-aligned buffer
struct Placed {
    buf: Vec<u128>,
    off: usize,
    len: usize,
}
impl Placed {
    fn new(b: &[u8], off: usize) -> Self {
        let mut buf = vec![0u128; (b.len() + off) / 16 + 1];
        // SAFETY: the vector holds at least off + len bytes
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), (buf.as_mut_ptr() as *mut u8).add(off), b.len()) };
        Placed { buf, off, len: b.len() }
    }
    fn get(&self) -> &[u8] {
        // SAFETY: as above
        unsafe { std::slice::from_raw_parts((self.buf.as_ptr() as *const u8).add(self.off), self.len) }
    }
}

fn show(r: Result<String, String>) -> String {
    match r {
        Ok(s) => format!("ok:{s}"),
        Err(s) => format!("err:{s}"),
    }
}
fn show_bytes(r: Result<Vec<u8>, String>) -> String {
    match r {
        Ok(b) => match String::from_utf8(b) {
            Ok(s) => format!("ok:{s}"),
            Err(e) => format!("not-utf8:{e}"),
        },
        Err(s) => format!("err:{s}"),
    }
}

thread_local! {
    /// Where a host keeps what it passes to the plugin: the same addresses for every call
    static HOST: RefCell<[Vec<u128>; 2]> = const { RefCell::new([Vec::new(), Vec::new()]) };
}

/// Places bytes in the host's buffer `k` at a fixed offset and calls `f` on them
fn in_host_buffer<R>(k: usize, bytes: &[u8], off: usize, f: impl FnOnce(&[u8]) -> R) -> R {
    let mut buf = HOST.with(|h| std::mem::take(&mut h.borrow_mut()[k]));
    let need = (bytes.len() + off) / 16 + 1;
    if buf.len() < need {
        buf.resize(need.next_power_of_two().max(4096), 0);
    }
    // SAFETY: the vector holds at least off + len bytes
    let s = unsafe {
        let p = (buf.as_mut_ptr() as *mut u8).add(off);
        std::ptr::copy_nonoverlapping(bytes.as_ptr(), p, bytes.len());
        std::slice::from_raw_parts(p, bytes.len())
    };
    let r = catch_unwind(AssertUnwindSafe(|| f(s)));
    // a caller reuses its buffer: nothing may be kept that points into it
    // SAFETY: as above
    unsafe { std::ptr::write_bytes((buf.as_mut_ptr() as *mut u8).add(off), b'#', bytes.len()) };
    HOST.with(|h| h.borrow_mut()[k] = buf);
    match r {
        Ok(r) => r,
        Err(p) => std::panic::resume_unwind(p),
    }
}

fn with_bytes<R>(b: &[u8], op: &Op, f: impl FnOnce(&[u8]) -> R) -> R {
    if op.host {
        in_host_buffer(0, b, op.align as usize, f)
    } else {
        let p = Placed::new(b, op.align as usize);
        f(p.get())
    }
}

fn run_kind(op: &Op, specs: &Specs) -> String {
    if op.host {
        in_host_buffer(1, op.doc.as_bytes(), 0, |d| run_kind_on(op, std::str::from_utf8(d).unwrap_or(""), specs))
    } else {
        run_kind_on(op, &op.doc, specs)
    }
}

/// The tokens of a document one by one: through the buffers of the lexer with
/// macros ("lex") or without ("lex_nm"), or straight from the text ("lexref").
/// White space between expanded tokens is not part of what macros promise.
fn tokens(kind: &str, doc: &str, spec: CommandSpec) -> String {
    use mitex_lexer::{CommandName, Lexer, MacroEngine, Token};
    let mut out = String::from("ok:");
    let mut put = |t: (Token, &str)| {
        if !t.0.is_trivia() {
            out.push_str(&format!("{:?} {:?}\n", t.0, t.1));
        }
    };
    match kind {
        "lex" => {
            let mut l = Lexer::new_with_bumper(doc, spec.clone(), MacroEngine::new(spec));
            while let Some(t) = l.eat() {
                put(t);
            }
        }
        "lex_nm" => {
            let mut l = Lexer::<()>::new(doc, spec);
            while let Some(t) = l.eat() {
                put(t);
            }
        }
        _ => {
            let mut l = <Token as logos::Logos>::lexer_with_extras(doc, (spec, 0..0));
            while let Some(t) = l.next() {
                let t = t.unwrap();
                let text = match t {
                    Token::CommandName(CommandName::BeginEnvironment | CommandName::EndEnvironment) => &doc[l.extras.1.clone()],
                    _ => l.slice(),
                };
                put((t, text));
            }
        }
    }
    out
}

fn run_kind_on(op: &Op, doc: &str, specs: &Specs) -> String {
    let custom = || specs.shared.get(op.spec as usize).cloned();
    let bytes = || if op.spec < 0 { Vec::new() } else { damaged(op, specs) };
    match op.kind.as_str() {
        "text" => show(mitex::convert_text(doc, custom())),
        "math" => show(mitex::convert_math(doc, custom())),
        "math_nm" => show(mitex::convert_math_no_macro(doc, custom())),
        "tree" | "tree_nm" => {
            let spec = custom().unwrap_or_else(|| mitex_spec_gen::DEFAULT_SPEC.clone());
            let n = if op.kind == "tree" {
                mitex_parser::parse(doc, spec)
            } else {
                mitex_parser::parse_without_macro(doc, spec)
            };
            format!("ok:{n:#?}")
        }
        // the tokens as the parser gets them, and as the text has them
        "lex" | "lex_nm" | "lexref" => {
            let spec = custom().unwrap_or_else(|| mitex_spec_gen::DEFAULT_SPEC.clone());
            tokens(&op.kind, doc, spec)
        }
        "wtext" | "wmath" => {
            with_bytes(&bytes(), op, |b| {
                show_bytes(if op.kind == "wtext" {
                    mitex_wasm_host::convert_text(doc.as_bytes(), b)
                } else {
                    mitex_wasm_host::convert_math(doc.as_bytes(), b)
                })
            })
        }
        // compile a specification from JSON and read it back
        "cspec" => match mitex_wasm_host::compile_spec(doc.as_bytes()) {
            Err(e) => format!("err:{e}"),
            Ok(b) => {
                with_bytes(&b, op, |b| format!("ok:{}", listing(&CommandSpec::from_bytes(b))))
            }
        },
        // the same specification without going through its binary form
        "jspec" => match serde_json::from_str::<mitex_spec::JsonCommandSpec>(doc) {
            Err(e) => format!("err:{e}"),
            Ok(j) => format!("ok:{}", listing(&CommandSpec::from(j))),
        },
        // load a stored specification, use it, store it again
        "load" => {
            let s = with_bytes(&bytes(), op, CommandSpec::from_bytes);
            let l = listing(&s);
            let again = s.to_bytes();
            let q = Placed::new(&again, 0);
            let l2 = listing(&CommandSpec::from_bytes(q.get()));
            if l != l2 {
                return format!("unstable:{l}\n----\n{l2}");
            }
            format!("ok:{l}")
        }
        "shared" => format!("ok:{}", custom().map(|c| listing(&c)).unwrap_or_default()),
        k => format!("unknown-kind:{k}"),
    }
}

/// Messages of rejected specifications mention memory addresses
fn without_addresses(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("0x") {
        out.push_str(&rest[..i]);
        out.push_str("0x_");
        rest = rest[i + 2..].trim_start_matches(|c: char| c.is_ascii_hexdigit());
    }
    out + rest
}

fn run_op(op: &Op, specs: &Specs) -> (String, u64, u64) {
    let mut first: Option<String> = None;
    let mut one = op.clone();
    for i in 1..op.times {
        if op.vary {
            one.doc = format!("{} {i}", op.doc);
        }
        let r = run_once(&one, specs);
        if op.vary {
            continue;
        }
        match &first {
            None => first = Some(r.0),
            Some(f) if *f != r.0 => return r,
            _ => {}
        }
    }
    let r = run_once(op, specs);
    match first {
        // the reference tells which of them is wrong
        Some(f) if f != r.0 && op.times > 1 => (if op.cancel > 0 { r.0 } else { f + "\nthen:" + &r.0 }, r.1, r.2),
        _ => r,
    }
}

fn run_once(op: &Op, specs: &Specs) -> (String, u64, u64) {
    CTL.with(|c| {
        *c.borrow_mut() = Some(Ctl { pace: op.pace.clone(), rng: Rng::new(op.pace.a), points: 0, cancel: op.cancel, refills: 0 })
    });
    let r = catch_unwind(AssertUnwindSafe(|| run_kind(op, specs)));
    let (pts, refills) = CTL.with(|c| c.borrow_mut().take().map(|c| (c.points, c.refills)).unwrap_or((0, 0)));
    let s = match r {
        Ok(s) => s,
        Err(p) => {
            if p.is::<Cancelled>() {
                "cancelled:".to_string()
            } else if let Some(s) = p.downcast_ref::<&str>() {
                format!("panic:{}", without_addresses(s))
            } else if let Some(s) = p.downcast_ref::<String>() {
                format!("panic:{}", without_addresses(s))
            } else {
                "panic:?".to_string()
            }
        }
    };
    (s, pts, refills)
}

#[derive(Clone, Debug)]
pub struct Done {
    pub result: String,
    pub points: u64,
    pub refills: u64,
}

struct SendPtr(*mut Vec<Done>, *const Vec<Op>, *const Specs);
unsafe impl Send for SendPtr {}

/// Runs the threads of a scenario in this process under the scheduler.
fn simulate(threads: &[Vec<Op>], specs: &Specs, sched: &Sched, limit: u64) -> (i32, Vec<Vec<Done>>) {
    unsafe {
        rt::simrt_config(sched.seed, sched.mean, sched.policy, sched.stall, sched.spurious, limit);
        rt::simrt_sync(sched.sync);
        if let Some(seg) = &sched.segments {
            let flat: Vec<u64> = seg.iter().flat_map(|s| [s.0, s.1]).collect();
            rt::simrt_replay(flat.as_ptr(), seg.len() as u64);
        }
        let mut results: Vec<Box<Vec<Done>>> = threads.iter().map(|t| Box::new(Vec::with_capacity(t.len()))).collect();
        for (i, ops) in threads.iter().enumerate() {
            let tid = rt::simrt_add_thread();
            let p = SendPtr(&mut *results[i], ops, specs);
            std::thread::Builder::new()
                .stack_size(32 << 20)
                .spawn(move || {
                    let p = p;
                    rt::simrt_enter(tid);
                    let (out, ops, specs) = (&mut *p.0, &*p.1, &*p.2);
                    for op in ops {
                        let (result, points, refills) = run_op(op, specs);
                        out.push(Done { result, points, refills });
                    }
                    rt::simrt_exit();
                    rt::simrt_park_forever();
                })
                .expect("spawn");
            rt::simrt_wait_entered(tid);
        }
        let v = rt::simrt_run();
        (v, results.into_iter().map(|b| *b).collect())
    }
}

pub const REF_LIMIT: u64 = 6_000_000;

fn ref_key(op: &Op) -> Op {
    let mut o = op.same_as.as_deref().cloned().unwrap_or_else(|| op.clone());
    o.pace = Pace::default();
    o.cancel = 0;
    o.align = 0;
    o.same_as = None;
    o.host = false;
    o.times = 0;
    o.vary = false;
    o
}

/// The outcome of an operation executed alone in a fresh process
#[derive(Clone, Debug)]
pub struct Ref {
    pub result: Option<String>,
    pub points: u64,
    pub events: u64,
    pub why: String,
}

/// Runs `f` in a forked process, on a new thread whose allocations come from
/// the arena of the run and whose hash seeds come from `seed`: nothing of what
/// the parent did before shows in addresses or in iteration orders.
fn in_clean_process(secs: u32, seed: u64, f: impl FnOnce(i32) + Send) -> (Vec<u8>, End) {
    rt::in_process(secs, |fd| {
        std::thread::scope(|sc| {
            let h = std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(sc, move || {
                unsafe {
                    rt::simrt_use_run_arena();
                    rt::simrt_config(seed, 1, 0, 0, 0, 1);
                }
                f(fd);
                rt::exit_now(0);
            });
            let _ = h.expect("spawn").join();
        });
        rt::exit_now(74);
    })
}

fn reference(op: &Op, s: &Scenario) -> Ref {
    let (out, end) = in_clean_process(20, 99, |fd| {
        let op = op.clone();
        let mut s = s.clone();
        if op.spec < 0 {
            s.specs.clear(); // not used by this call
        }
        let specs = &load_specs(&s);
        let sched = Sched { seed: 99, mean: u64::MAX >> 24, ..Default::default() };
        let (v, r) = simulate(&[vec![op.clone()]], specs, &sched, REF_LIMIT);
        if v == 1 {
            let d = &r[0][0];
            let head = format!("{} {}\n", d.points, unsafe { rt::simrt_events() });
            rt::write_all(fd, head.as_bytes());
            rt::write_all(fd, d.result.as_bytes());
        }
        rt::exit_now(if v == 1 { 0 } else { 40 + v });
    });
    if end != End::Exit(0) {
        return Ref { result: None, points: 0, events: 0, why: format!("{end:?}") };
    }
    let nl = out.iter().position(|b| *b == b'\n').unwrap_or(0);
    let head = String::from_utf8_lossy(&out[..nl]).to_string();
    let mut it = head.split(' ').map(|x| x.parse::<u64>().unwrap_or(0));
    Ref {
        points: it.next().unwrap_or(0),
        events: it.next().unwrap_or(0),
        result: Some(String::from_utf8_lossy(out.get(nl + 1..).unwrap_or(&[])).to_string()),
        why: String::new(),
    }
}

fn first_difference(want: &str, got: &str) -> (String, String) {
    let (mut w, mut g) = (want.lines(), got.lines());
    loop {
        match (w.next(), g.next()) {
            (None, None) => return (String::new(), String::new()),
            (a, b) if a != b => return (clip(a.unwrap_or("(nothing)")), clip(b.unwrap_or("(nothing)"))),
            _ => {}
        }
    }
}

fn clip(s: &str) -> String {
    let mut e = s.len().min(600);
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    s[..e].to_string()
}

/// Executes a whole scenario in a process of its own (call it in a fork) and
/// reports as JSON.
pub fn run_scenario(s: &Scenario) -> Value {
    install();
    // references, one fresh process per distinct operation
    let mut keys: Vec<Op> = vec![];
    let mut refs: Vec<Ref> = vec![];
    let mut skipped = 0u64;
    let mut threads: Vec<Vec<Op>> = vec![];
    let mut expect: Vec<Vec<usize>> = vec![];
    let mut total = 0u64;
    for t in &s.threads {
        let mut ops = vec![];
        let mut ex = vec![];
        for op in t {
            let k = ref_key(op);
            let i = match keys.iter().position(|x| *x == k) {
                Some(i) => i,
                None => {
                    refs.push(reference(&k, s));
                    keys.push(k);
                    keys.len() - 1
                }
            };
            if refs[i].result.is_none() {
                if op.damage.kind != 0 && refs[i].why.contains("Signal") && !refs[i].why.contains("Signal(14)") {
                    return json!({"violation": {"what": "process died while using a damaged specification",
                        "thread": 0, "op": op.to_json(), "expected": "rejected or usable", "got": refs[i].why}});
                }
                skipped += 1; // too long for the simulator, or it dies on its own
                continue;
            }
            let mut op = op.clone();
            if op.cancel > 0 {
                op.cancel = 1 + op.cancel % refs[i].points.max(1);
            }
            total += refs[i].events * op.times.max(1);
            ops.push(op);
            ex.push(i);
        }
        threads.push(ops);
        expect.push(ex);
    }
    let limit = total * 20 + 20_000_000;
    let warm = s.warm;
    let mut distinct = 0u64;
    let (out, end) = in_clean_process(60, s.sched.seed, |fd| {
        let s = s.clone();
        let threads = threads.clone();
        let specs = load_specs(&s);
        if warm {
            let _ = mitex::convert_math("\\alpha", None);
        }
        let (v, r) = simulate(&threads, &specs, &s.sched, limit);
        let val = json!({
            "verdict": v,
            "results": r.iter().map(|t| t.iter().map(|d| json!([d.result, d.points, d.refills])).collect::<Vec<_>>()).collect::<Vec<_>>(),
            "counters": (0..11).map(|i| unsafe { rt::simrt_counter(i) }).collect::<Vec<_>>(),
            "events": unsafe { rt::simrt_events() },
            "hash": unsafe { rt::simrt_hash() }.to_string(),
            "sim_ns": unsafe { rt::simrt_sim_ns() },
        });
        rt::write_all(fd, val.to_string().as_bytes());
        rt::exit_now(0);
    });
    let segments = || -> Value {
        unsafe {
            let n = rt::simrt_trace_len();
            let mut v: Vec<Value> = (0..n)
                .map(|i| {
                    let (mut a, mut b) = (0, 0);
                    rt::simrt_trace_get(i, &mut a, &mut b);
                    json!([a, b])
                })
                .collect();
            let c = rt::simrt_cur();
            if c >= 0 && end != End::Exit(0) {
                v.push(json!([c, 1u64 << 40]));
            }
            Value::Array(v)
        }
    };
    if end != End::Exit(0) {
        return json!({"violation": {"what": "the process died", "got": format!("{end:?}"), "expected": "every operation completes"}, "segments": segments()});
    }
    let v: Value = serde_json::from_slice(&out).unwrap_or(Value::Null);
    let verdict = v["verdict"].as_i64().unwrap_or(0);
    if verdict != 1 {
        let what = if verdict == 2 { "deadlock: every unfinished thread waits" } else { "no progress within the step bound" };
        return json!({"violation": {"what": what, "expected": "every operation completes", "got": what}, "segments": segments()});
    }
    let mut kinds = std::collections::BTreeMap::<String, u64>::new();
    let (mut cancelled, mut refills, mut nops) = (0u64, 0u64, 0u64);
    for (t, ops) in threads.iter().enumerate() {
        for (i, op) in ops.iter().enumerate() {
            let got = v["results"][t][i][0].as_str().unwrap_or("missing:");
            refills += v["results"][t][i][2].as_u64().unwrap_or(0);
            nops += 1;
            let class = got.split(':').next().unwrap_or("").to_string();
            *kinds.entry(class.clone()).or_default() += 1;
            if class == "cancelled" {
                cancelled += 1;
                continue;
            }
            let want = refs[expect[t][i]].result.as_deref().unwrap_or("");
            let bad = if class == "not-utf8" || class == "unstable" || class == "unknown-kind" {
                Some("the result is malformed")
            } else if op.cancel == 0 && model(op, s).is_some_and(|m| m != got) {
                return json!({"violation": {"what": "the specification is not the one it was made from", "thread": t, "index": i, "op": op.to_json(),
                    "expected": first_difference(&model(op, s).unwrap_or_default(), got).0, "got": first_difference(&model(op, s).unwrap_or_default(), got).1},
                    "segments": segments()});
            } else if got != want {
                Some("the result differs from that of the same call alone in a fresh process")
            } else {
                None
            };
            if let Some(what) = bad {
                return json!({"violation": {"what": what, "thread": t, "index": i, "op": op.to_json(),
                    "expected": clip(want), "got": clip(got)}, "segments": segments()});
            }
            if op.pace.mode != 0 || op.kind != "" {
                distinct += 1;
            }
        }
    }
    let _ = distinct;
    json!({"ok": true, "ops": nops, "skipped": skipped, "classes": kinds, "cancelled": cancelled, "refills": refills,
        "counters": v["counters"], "events": v["events"], "hash": v["hash"], "sim_ns": v["sim_ns"], "segs": unsafe { rt::simrt_trace_len() },
        "refs": refs.len()})
}

/// The commands of the default specification, read in a process of its own
pub fn default_items() -> Vec<(String, Value)> {
    let (out, _) = rt::in_process(60, |fd| {
        let mut v: Vec<(String, Value)> = mitex_spec_gen::DEFAULT_SPEC
            .items()
            .map(|(k, i)| (k.to_string(), serde_json::to_value(i).unwrap_or(Value::Null)))
            .collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        rt::write_all(fd, serde_json::to_string(&v).unwrap().as_bytes());
    });
    serde_json::from_slice(&out).unwrap_or_default()
}
