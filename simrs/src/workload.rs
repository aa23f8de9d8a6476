//! Which scenarios are generated for which property.
use crate::gen::*;
use crate::rng::Rng;
use crate::scenario::*;
use serde_json::{json, Value};

pub fn vocabulary(items: Vec<(String, Value)>) -> Vocabulary {
    let mut v = Vocabulary::default();
    for (name, it) in items {
        // macro declarations are generated on purpose only
        const DECL: &[&str] = &["newcommand", "renewcommand", "providecommand", "DeclareRobustCommand", "newenvironment", "renewenvironment",
            "DeclareTextCommand", "DeclareTextCommandDefault", "ProvideTextCommand", "ProvideTextCommandDefault", "AtEndOfClass", "AtEndOfPackage",
            "AtBeginDocument", "AtEndDocument", "item", "verb", "begin", "end", "left", "right"];
        let ascii = name.chars().all(|c| c.is_ascii_alphabetic()) && !DECL.contains(&name.as_str());
        if let Some(c) = it.get("Cmd") {
            let mut m = c.as_object().cloned().unwrap_or_default();
            let args = &c["args"];
            if ascii {
                match args["kind"].as_str().unwrap_or("") {
                    "left1" => v.left1.push(name.clone()),
                    "infix-greedy" => v.infix.push(name.clone()),
                    _ => {
                        let p = &args["pattern"];
                        match p["kind"].as_str().unwrap_or("") {
                            "none" => v.symbols.push(name.clone()),
                            "fixed-len" => {
                                let n = p["len"].as_u64().unwrap_or(0);
                                if n == 0 {
                                    v.symbols.push(name.clone())
                                } else {
                                    v.cmds.push((name.clone(), "t".repeat(n as usize)))
                                }
                            }
                            "glob" => v.cmds.push((name.clone(), p["pattern"].as_str().unwrap_or("t").to_string())),
                            "greedy" => v.greedy.push(name.clone()),
                            _ => {}
                        }
                    }
                }
            }
            m.insert("kind".into(), json!("cmd"));
            v.items.push((name, Value::Object(m)));
        } else if let Some(e) = it.get("Env") {
            let mut m = e.as_object().cloned().unwrap_or_default();
            match e["ctx_feature"]["kind"].as_str().unwrap_or("") {
                "is-matrix" => v.matrix_envs.push(name.clone()),
                "is-math" | "is-cases" => v.math_envs.push(name.clone()),
                f => v.other_envs.push((name.clone(), f.to_string())),
            }
            m.insert("kind".into(), json!("env"));
            v.items.push((name, Value::Object(m)));
        }
    }
    v
}

fn pace(r: &mut Rng) -> Pace {
    match r.below(8) {
        0 => Pace::default(),
        1 => Pace { mode: 1, a: 1, b: 0 },
        2 => Pace { mode: 1, a: r.range(2, 6) as u64, b: 0 },
        3 => Pace { mode: 1, a: r.range(7, 200) as u64, b: 0 },
        4 => Pace { mode: 3, a: 0, b: 0 },
        _ => {
            let b = *r.pick(&[2u64, 3, 5, 9, 20, 60]);
            Pace { mode: 2, a: r.next() >> 1, b }
        }
    }
}

fn sched(r: &mut Rng) -> Sched {
    let mean = match r.below(6) {
        0 => r.range(4, 40),
        1 => r.range(40, 400),
        2 | 3 => r.range(400, 4000),
        4 => r.range(4000, 40000),
        _ => r.range(40000, 400000),
    } as u64;
    Sched {
        seed: r.next() >> 1,
        mean,
        policy: r.below(2) as i32,
        stall: if r.chance(1, 3) { r.range(1, 60) as u32 } else { 0 },
        spurious: if r.chance(1, 4) { r.range(10, 200) as u32 } else { 0 },
        sync: *r.pick(&[0, 0, 0, 30, 150, 500]),
        segments: None,
    }
}

struct Pool {
    specs: Vec<String>,
    names: Vec<Vec<String>>,
    docs: Vec<(String, bool)>,
}

/// Documents that have much in common: macro names, texts, commands.
fn pool(r: &mut Rng, v: &Vocabulary, nspecs: usize, ndocs: usize, size: (usize, usize)) -> Pool {
    let mut p = Pool { specs: vec![], names: vec![], docs: vec![] };
    for i in 0..nspecs {
        let (mut s, mut n) = spec_json(r, v, i);
        if i > 0 && r.chance(1, 2) {
            // a variant of another specification, of the same size
            let k = r.below(i);
            s = p.specs[k].clone();
            n = p.names[k].clone();
            for t in 0..9 {
                s = s.replace(&format!("simhandler{t}x"), &format!("simhandler{}x", (t + 1 + i) % 10));
                s = s.replace(&format!("\"over{t}"), &format!("\"over{}", (t + 1 + i) % 10));
            }
            if r.chance(1, 2) {
                // the same shapes at other commands
                let o = *r.pick(&["{,p}t", "{,t}t", "{p,}t", "{b,}t"]);
                s = s.replace("{,b}t", o);
                s = s.replace("\"bt\"", "\"tt\"").replace("\"pt\"", "\"bt\"");
            }
            if r.chance(1, 2) {
                s = s.replace("\"simcmda\"", "\"simcmdz\"");
                for x in n.iter_mut() {
                    *x = x.replace("simcmda", "simcmdz");
                }
            }
        }
        p.specs.push(s);
        p.names.push(n);
    }
    let all: Vec<String> = p.names.iter().flatten().cloned().collect();
    while p.docs.len() < ndocs {
        let math = r.chance(1, 2);
        let k = if p.docs.is_empty() { r.below(6) } else { r.below(10) };
        let d = match k {
            0..=5 => {
                let errors = r.chance(1, 3);
                let macros = r.chance(4, 5);
                let size = r.range(size.0, size.1) as i64;
                let extra: Vec<String> = if r.chance(1, 2) { all.clone() } else { vec![] };
                let mut g = Gen::new(r.fork(), v);
                g.doc(math, macros, errors, size, &extra)
            }
            6 => bare_uses(r, &all),
            7 => {
                // a near copy of another document
                let (o, _) = r.pick(&p.docs).clone();
                let mut cs: Vec<char> = o.chars().collect();
                if !cs.is_empty() {
                    let i = r.below(cs.len());
                    if cs[i].is_ascii_lowercase() {
                        cs[i] = if cs[i] == 'x' { 'y' } else { 'x' };
                    } else {
                        cs.push('z');
                    }
                }
                cs.into_iter().collect()
            }
            8 => {
                // a prefix or a suffix of another document
                let (o, _) = r.pick(&p.docs).clone();
                let cs: Vec<char> = o.chars().collect();
                let cut = r.below(cs.len() + 1);
                if r.chance(1, 2) {
                    cs[..cut].iter().collect()
                } else {
                    cs[cut..].iter().collect()
                }
            }
            _ => r.pick(&p.docs).0.clone(),
        };
        // self-referring macros would never stop expanding, in TeX as well
        if p.docs.iter().all(|x| x.0 != d) || r.chance(1, 3) {
            p.docs.push((d, math));
        }
    }
    p
}

fn conversion(r: &mut Rng, p: &Pool) -> Op {
    let (doc, math) = r.pick(&p.docs).clone();
    let math = if r.chance(1, 6) { !math } else { math };
    let spec = if p.specs.is_empty() || r.chance(1, 2) { -1 } else { r.below(p.specs.len()) as i64 };
    let kind = match r.below(12) {
        0 => "tree",
        1 => "tree_nm",
        2 => "math_nm",
        3..=5 => {
            if math {
                "wmath"
            } else {
                "wtext"
            }
        }
        _ => {
            if math {
                "math"
            } else {
                "text"
            }
        }
    };
    Op { kind: kind.into(), doc, spec, align: if r.chance(1, 2) { 0 } else { r.below(16) as u8 }, host: r.chance(1, 2), ..Default::default() }
}

/// A pair of calls that must agree: a renamed command under a specification
/// that defines it, and the original one under the default specification.
fn renamed(r: &mut Rng, v: &Vocabulary, p: &mut Pool) -> Option<Op> {
    let (n, _) = r.pick(&v.cmds).clone();
    let item = v.items.iter().find(|i| i.0 == n)?.1.clone();
    // the handler name defaults to the command name, so name it explicitly
    if item["alias"].is_null() {
        return None;
    }
    // commands which the converter treats by name keep their meaning
    const BY_NAME: &[&str] = &["label", "ref", "eqref", "item", "caption", "color", "textcolor", "colorbox", "text", "operatorname", "includegraphics", "section", "href", "mathbb", "substack", "hspace", "vspace", "tag", "mbox"];
    if BY_NAME.contains(&n.as_str()) {
        return None;
    }
    let tail = *r.pick(&["{a}{b}", "{x+1}{2}{3}", " x y", "[3]{x}"]);
    let pre = *r.pick(&["", "a+", "{b} "]);
    let spec = p.specs.len() as i64;
    p.specs.push(json!({"commands": {"simrenamed": item}}).to_string());
    p.names.push(vec![]);
    let orig_spec = p.specs.len() as i64;
    p.specs.push(json!({"commands": {n.clone(): v.items.iter().find(|i| i.0 == n)?.1.clone()}}).to_string());
    p.names.push(vec![]);
    let orig = Op { kind: "math".into(), doc: format!("{pre}\\{n}{tail}"), spec: if r.chance(1, 2) { -1 } else { orig_spec }, ..Default::default() };
    Some(Op { kind: "math".into(), doc: format!("{pre}\\simrenamed{tail}"), spec, same_as: Some(Box::new(orig)), ..Default::default() })
}

pub fn generate(property: &str, seed: u64, v: &Vocabulary) -> Scenario {
    let mut r = Rng::new(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ 0xABCD);
    let r = &mut r;
    let mut s = Scenario { property: property.into(), warm: r.chance(1, 2), sched: sched(r), ..Default::default() };
    match property {
        "C01" if r.chance(1, 3) => {
            // many short calls on few documents: everything shared is used by several threads at once
            s.warm = r.chance(1, 2);
            let nd = r.range(1, 3);
            let ns = r.below(3);
            let p = pool(r, v, ns, nd, (1, 6));
            let calls: Vec<Op> = (0..r.range(1, 3)).map(|_| {
                let mut op = conversion(r, &p);
                if r.chance(2, 3) {
                    op.spec = -1;
                }
                op
            }).collect();
            s.sched.mean = *r.pick(&[200, 1000, 5000, 20000]);
            s.sched.sync = *r.pick(&[0, 60, 150, 300, 500]);
            for _ in 0..r.range(2, 4) {
                let mut ops = vec![];
                for _ in 0..r.range(3, 12) {
                    let mut op = r.pick(&calls).clone();
                    if r.chance(1, 2) {
                        op.doc = r.pick(&p.docs).0.clone();
                    }
                    ops.push(op);
                }
                s.threads.push(ops);
            }
            s.specs = p.specs;
        }
        "C01" => {
            s.warm = r.chance(1, 3);
            let nt = *r.pick(&[2, 2, 3, 3, 4, 5, 6]);
            let nd = r.range(2, 5);
            let ns = r.below(4);
            let big = r.chance(1, 8);
            let mut p = pool(r, v, ns, nd, if big { (60, 260) } else { (3, 50) });
            let swarm_cancel = r.chance(1, 4);
            let swarm_pace = r.chance(1, 3);
            let swarm_bad = r.chance(1, 3);
            let extra = if ns > 0 && r.chance(1, 2) { renamed(r, v, &mut p) } else { None };
            for _ in 0..nt {
                let n = r.range(1, 4);
                let mut ops = vec![];
                for _ in 0..n {
                    let mut op = match &extra {
                        Some(o) if r.chance(1, 6) => o.clone(),
                        _ if !p.specs.is_empty() && r.chance(1, 10) => {
                            let k = r.below(p.specs.len());
                            if r.chance(1, 2) {
                                Op { kind: "cspec".into(), doc: p.specs[k].clone(), spec: -1, ..Default::default() }
                            } else {
                                Op { kind: "load".into(), spec: k as i64, damage: if swarm_bad && r.chance(1, 2) { damage(r, p.specs.len()) } else { Damage::default() }, ..Default::default() }
                            }
                        }
                        _ => conversion(r, &p),
                    };
                    if swarm_cancel && r.chance(1, 4) {
                        op.cancel = 1 + (r.next() >> 8);
                    }
                    if swarm_pace {
                        op.pace = pace(r);
                    }
                    ops.push(op);
                }
                s.threads.push(ops);
            }
            s.specs = p.specs;
        }
        "C02" if r.chance(1, 12) => {
            // a long-lived process: hundreds of small calls, most of them of the same few kinds
            let ns = r.below(3);
            let p = pool(r, v, ns, 4, (1, 5));
            let mut calls: Vec<Op> = (0..r.range(2, 6)).map(|_| conversion(r, &p)).collect();
            for op in calls.iter_mut() {
                if r.chance(1, 3) {
                    op.doc = format!("{}\\{}", op.doc, *r.pick(&["undefinedcommand", "end{x}", "begin{x}", "newcommand", "}"]));
                }
                if r.chance(1, 5) {
                    op.cancel = 1 + (r.next() >> 8);
                }
            }
            let n = r.range(60, 500);
            let focus = r.chance(1, 2);
            let mut ops: Vec<Op> = (0..n).map(|_| if focus && r.chance(7, 8) { calls[0].clone() } else { r.pick(&calls).clone() }).collect();
            for _ in 0..r.range(2, 6) {
                ops.push(conversion(r, &p));
            }
            s.specs = p.specs;
            s.sched.mean = u64::MAX >> 24;
            s.threads.push(ops);
        }
        "C02" | "C04" if r.chance(1, 12) => {
            // specifications that come and go, alike but for what one pattern or handler says
            let pats: &[&str] = if r.chance(1, 2) { &["{,b}t", "{,p}t", "{,t}t", "{b,}t", "{t,}t"] } else { &["tt", "bt", "pt", "t*", "*t"] };
            let extra = spec_json(r, v, 0).0;
            let full = r.chance(1, 2);
            for i in 0..r.range(2, 3) {
                let mut j: serde_json::Value = if full { serde_json::from_str(&extra).unwrap_or_default() } else { json!({"commands": {}}) };
                j["commands"]["simcmda"] = json!({"kind": "glob-cmd", "pattern": *r.pick(pats), "alias": format!("handler{}", if r.chance(1, 2) { i } else { 0 })});
                j["commands"]["simcmdb"] = json!({"kind": *r.pick(&["cmd1", "cmd2", "sym"])});
                s.specs.push(j.to_string());
            }
            let docs: Vec<String> = (0..r.range(1, 3)).map(|_| {
                format!("\\simcmda{} \\simcmdb{}", *r.pick(&["[a]{b}", "{b}", "[a]{b}{c}", "(a){b}", "[a][b]{c}", " b"]), *r.pick(&["{b}", "{b}{c}", " b c"]))
            }).collect();
            let kinds: &[&str] = match r.below(3) {
                0 => &["wmath"],
                1 => &["wmath", "math"],
                _ => &["wmath", "wtext", "math", "tree"],
            };
            let mut ops = vec![];
            for _ in 0..r.range(6, 30) {
                let k = r.below(s.specs.len());
                ops.push(match r.below(12) {
                    0 => Op { kind: "load".into(), spec: k as i64, ..Default::default() },
                    1 => Op { kind: "cspec".into(), doc: s.specs[k].clone(), spec: -1, ..Default::default() },
                    _ => Op { kind: r.pick(kinds).to_string(), doc: r.pick(&docs).clone(), spec: k as i64, align: if r.chance(3, 4) { 0 } else { r.below(16) as u8 }, host: r.chance(1, 4), ..Default::default() },
                });
            }
            s.sched.mean = u64::MAX >> 24;
            s.threads.push(ops);
        }
        "C02" if r.chance(1, 30) => {
            // a long-lived process that meets many different documents, and some of them again
            let ns = r.below(3);
            let nd = r.range(40, 220);
            let mut p = pool(r, v, ns, 6, (1, 4));
            let same_len = r.chance(1, 2);
            let families = r.range(1, 6);
            let only = if r.chance(1, 2) { Some(r.below(6)) } else { None };
            for i in 0..nd {
                let i = if same_len { 1000 + i } else { i };
                let d = match only.unwrap_or_else(|| r.below(families)) {
                    5 => {
                        let mut t = String::new();
                        for _ in 0..r.range(3, 10) {
                            if r.chance(1, 4) {
                                t.push_str(&format!("\\{}{{a}}{{b}} ", r.pick(&v.cmds).0));
                            } else {
                                t.push_str(&format!("\\{} ", r.pick(&v.symbols)));
                            }
                        }
                        t
                    }
                    0 => format!("x_{{{i}}}"),
                    1 => format!("\\newcommand{{\\m{}}}[1]{{#1^{i}}}\\m{} y", letters(i), letters(i)),
                    2 => format!("\\frac{{{i}}}{{b}}"),
                    3 => format!("\\u{} {i}", letters(i)),
                    _ => format!("\\sqrt[{i}]{{x}} \\text{{t{i}}}"),
                };
                p.docs.push((d, true));
            }
            let calls: Vec<Op> = p.docs.clone().iter().map(|d| {
                let mut op = conversion(r, &p);
                op.doc = d.0.clone();
                op.spec = if r.chance(3, 4) { -1 } else { op.spec };
                op.kind = if d.1 { "math" } else { "text" }.into();
                op
            }).collect();
            let mut ops = vec![];
            for i in 0..calls.len() {
                ops.push(calls[i].clone());
                if r.chance(1, 4) {
                    let back = if r.chance(1, 2) { i } else { i.min(8) };
                    ops.push(calls[i - r.below(back + 1)].clone());
                }
            }
            ops.push(calls[0].clone());
            s.specs = p.specs;
            s.sched.mean = u64::MAX >> 24;
            s.threads.push(ops);
        }
        "C02" if r.chance(1, 100) => {
            // a process that lives very long: short calls, again and again
            let ns = r.below(2);
            let p = pool(r, v, ns, 4, (1, 3));
            let n = *r.pick(&[300, 1100, 1100, 2500, 5000]);
            let n = if r.chance(1, 12) { 70000 } else { n };
            let mut ops = vec![];
            for i in 0..3 {
                let mut op = conversion(r, &p);
                if i == 1 {
                    if r.chance(1, 2) {
                        op.doc = (*r.pick(&["x", "\\alpha y", "a_1", "\\frac12", ""])).into();
                    }
                    op.times = n;
                    op.vary = r.chance(1, 2);
                    if op.doc.len() > 400 / (1 + n as usize / 1000) {
                        op.doc = "b".into();
                    }
                    if n > 10000 {
                        op.spec = -1;
                    }
                }
                ops.push(op);
            }
            s.specs = p.specs;
            s.sched.mean = u64::MAX >> 24;
            s.threads.push(ops);
        }
        "C02" => {
            // one caller, a long history; interrupted and failing calls in between
            let nd = r.range(3, 9);
            let ns = r.below(4);
            let big = r.chance(1, 10);
            let mut p = pool(r, v, ns, nd, if big { (40, 200) } else { (2, 40) });
            if r.chance(1, 8) {
                other_sizes(r, v, &mut p);
            }
            let ren = if ns > 0 { renamed(r, v, &mut p) } else { None };
            let n = r.range(4, 24);
            let cancel_rate = *r.pick(&[0, 1, 1, 2, 4]);
            let mut ops = vec![];
            for _ in 0..n {
                let mut op = match r.below(12) {
                    0 if ren.is_some() => ren.clone().unwrap(),
                    1 if !p.specs.is_empty() => {
                        let k = r.below(p.specs.len());
                        Op { kind: "load".into(), spec: k as i64, damage: if r.chance(1, 2) { damage(r, p.specs.len()) } else { Damage::default() }, ..Default::default() }
                    }
                    2 if !p.specs.is_empty() => {
                        let mut j = r.pick(&p.specs).clone();
                        if r.chance(1, 2) {
                            let mut at = j.len() / 2;
                            while !j.is_char_boundary(at) {
                                at -= 1;
                            }
                            j.truncate(at);
                        }
                        Op { kind: "cspec".into(), doc: j, spec: -1, ..Default::default() }
                    }
                    _ => conversion(r, &p),
                };
                if cancel_rate > 0 && r.chance(cancel_rate, 8) {
                    op.cancel = 1 + (r.next() >> 8);
                }
                if r.chance(1, 6) {
                    op.pace = pace(r);
                }
                ops.push(op);
            }
            s.specs = p.specs;
            s.sched.mean = u64::MAX >> 24;
            s.threads.push(ops);
        }
        "C03" if r.chance(1, 4) => {
            // tokens: what the buffers hand out is what the text holds, with macros replaced
            let mut ops = vec![];
            if r.chance(2, 3) {
                let size = *r.pick(&[3, 8, 20, 60]);
                let (doc, plain) = expansion_pair(r, size);
                let want = Op { kind: "lexref".into(), doc: plain, spec: -1, ..Default::default() };
                for _ in 0..r.range(3, 8) {
                    ops.push(Op { kind: "lex".into(), doc: doc.clone(), spec: -1, pace: pace(r), same_as: Some(Box::new(want.clone())), ..Default::default() });
                }
            } else {
                let (math, macros, errors) = (r.chance(1, 2), r.chance(1, 2), r.chance(1, 2));
                let size = r.range(5, 500) as i64;
                let doc = Gen::new(r.fork(), v).doc(math, macros, errors, size, &[]);
                let want = Op { kind: "lexref".into(), doc: doc.clone(), spec: -1, ..Default::default() };
                for _ in 0..r.range(3, 8) {
                    ops.push(Op { kind: "lex_nm".into(), doc: doc.clone(), spec: -1, pace: pace(r), same_as: Some(Box::new(want.clone())), ..Default::default() });
                }
            }
            s.sched.mean = u64::MAX >> 24;
            s.threads.push(ops);
        }
        "C03" => {
            // the same document under many refill schedules
            let math = r.chance(1, 2);
            let size = match r.below(5) {
                0 => r.range(1, 10),
                1 | 2 => r.range(10, 80),
                3 => r.range(80, 300),
                _ => r.range(300, 700),
            } as i64;
            let ns = r.below(2);
            let p = pool(r, v, ns, 1, (1, 4));
            let all: Vec<String> = p.names.iter().flatten().cloned().collect();
            let errors = r.chance(1, 3);
            let macros = r.chance(4, 5);
            let mut g = Gen::new(r.fork(), v);
            let mut doc = g.doc(math, macros, errors, size, &all);
            if r.chance(1, 3) {
                // long runs move the refill boundaries of the shipped page size
                let pad = r.range(1, 190);
                doc.insert_str(0, &"a ".repeat(pad));
            }
            let kinds: &[&str] = if math { &["math", "tree", "math_nm", "tree_nm"] } else { &["text", "tree", "tree_nm"] };
            let mut ops = vec![];
            if !macros && !errors && !doc.contains("\\if") && r.chance(1, 2) {
                // without macros, the macro engine hands out what the plain lexer does
                for (a, b) in [("tree", "tree_nm"), ("math", "math_nm")] {
                    if a == "math" && !math {
                        continue;
                    }
                    let want = Op { kind: b.into(), doc: doc.clone(), spec: -1, ..Default::default() };
                    for _ in 0..r.range(1, 4) {
                        ops.push(Op { kind: a.into(), doc: doc.clone(), spec: -1, pace: pace(r), same_as: Some(Box::new(want.clone())), ..Default::default() });
                    }
                }
            }
            for k in kinds {
                if *k != kinds[0] && r.chance(1, 2) {
                    continue;
                }
                let spec = if ns > 0 && r.chance(1, 2) { 0 } else { -1 };
                ops.push(Op { kind: k.to_string(), doc: doc.clone(), spec, pace: Pace { mode: 1, a: 1, b: 0 }, ..Default::default() });
                ops.push(Op { kind: k.to_string(), doc: doc.clone(), spec, pace: Pace { mode: 3, a: 0, b: 0 }, ..Default::default() });
                for _ in 0..r.range(2, 6) {
                    ops.push(Op { kind: k.to_string(), doc: doc.clone(), spec, pace: pace(r), ..Default::default() });
                }
            }
            s.specs = p.specs;
            s.sched.mean = u64::MAX >> 24;
            s.threads.push(ops);
        }
        "C04" => {
            // specifications through their stored form, at any address, in any process
            let ns = r.range(1, 4);
            let mut p = pool(r, v, ns, 3, (3, 30));
            other_sizes(r, v, &mut p);
            let nt = r.range(1, 3);
            for _ in 0..nt {
                let mut ops = vec![];
                for _ in 0..r.range(2, 8) {
                    let k = r.below(ns);
                    let al = r.below(16) as u8;
                    let host = r.chance(1, 2);
                    let json = p.specs[k].clone();
                    match r.below(5) {
                        0 => ops.push(Op { kind: "load".into(), spec: k as i64, align: al, host, same_as: Some(Box::new(Op { kind: "jspec".into(), doc: json, spec: -1, ..Default::default() })), ..Default::default() }),
                        1 => ops.push(Op { kind: "cspec".into(), doc: json.clone(), spec: -1, align: al, host, same_as: Some(Box::new(Op { kind: "shared".into(), spec: k as i64, ..Default::default() })), ..Default::default() }),
                        2 => ops.push(Op { kind: "shared".into(), spec: k as i64, same_as: Some(Box::new(Op { kind: "jspec".into(), doc: json, spec: -1, ..Default::default() })), ..Default::default() }),
                        _ => {
                            // converting with the stored form equals converting with the loaded one
                            let mut op = conversion(r, &p);
                            op.spec = k as i64;
                            let m = op.kind.contains("math");
                            op.kind = if m { "wmath" } else { "wtext" }.into();
                            op.align = al;
                            op.host = host;
                            let mut o = op.clone();
                            o.kind = if m { "math" } else { "text" }.into();
                            op.same_as = Some(Box::new(o));
                            ops.push(op);
                        }
                    }
                }
                s.threads.push(ops);
            }
            s.specs = p.specs;
        }
        "C05" => {
            let ns = r.range(1, 3);
            let mut p = pool(r, v, ns, 3, (2, 20));
            other_sizes(r, v, &mut p);
            let mut ops = vec![];
            for _ in 0..r.range(3, 10) {
                let k = r.below(ns) as i64;
                match r.below(5) {
                    0 => ops.push(conversion(r, &p)),
                    1 | 2 => {
                        let mut op = conversion(r, &p);
                        op.spec = k;
                        op.kind = if op.kind.contains("math") { "wmath" } else { "wtext" }.into();
                        op.damage = damage(r, ns);
                        op.align = r.below(16) as u8;
                        ops.push(op);
                    }
                    _ => ops.push(Op { kind: "load".into(), spec: k, damage: damage(r, ns), align: r.below(16) as u8, host: r.chance(1, 2), ..Default::default() }),
                }
            }
            s.specs = p.specs;
            s.sched.mean = u64::MAX >> 24;
            s.threads.push(ops);
        }
        _ => {}
    }
    if matches!(property, "C02" | "C04" | "C05") && r.chance(1, 40) {
        // one of the calls is made again and again
        let t = r.below(s.threads.len());
        let n = *r.pick(&[40, 300, 300, 1100]);
        let small = |o: &Op| o.doc.len() < 200 && o.times == 0 && (o.spec < 0 || s.specs.get(o.spec as usize).map_or(0, |j| j.len()) < 4000);
        let fit: Vec<usize> = (0..s.threads[t].len()).filter(|i| small(&s.threads[t][*i])).collect();
        if !fit.is_empty() {
            let k = *r.pick(&fit);
            s.threads[t][k].times = n;
            s.threads[t][k].vary = s.threads[t][k].same_as.is_none() && s.threads[t][k].kind != "cspec" && s.threads[t][k].kind != "jspec" && r.chance(1, 3);
        }
    }
    s
}

fn damage(r: &mut Rng, ns: usize) -> Damage {
    Damage { kind: r.range(1, 6) as u8, a: r.next() >> 1, b: *r.pick(&[1, 1, 1, 2, 3, 8, 64]), other: r.below(ns) as i64 }
}

/// Makes one of the specifications as large as the one of the library, larger, or tiny
fn other_sizes(r: &mut Rng, v: &Vocabulary, p: &mut Pool) {
    if p.specs.is_empty() || !r.chance(1, 5) {
        return;
    }
    let k = r.below(p.specs.len());
    let Ok(mut j) = serde_json::from_str::<serde_json::Value>(&p.specs[k]) else { return };
    let Some(m) = j["commands"].as_object_mut() else { return };
    match r.below(6) {
        0 => m.clear(),
        4 | 5 => {
            // unusual names and handlers
            let odd = ["", " ", "\u{0}", "\\", "é", "名前", "a b", "simcmda ", "\u{10ffff}", "{", "*", "0"];
            for _ in 0..r.range(1, 5) {
                let n = if r.chance(1, 6) { "n".repeat(r.range(200, 70000)) } else { r.pick(&odd).to_string() };
                let a = r.pick(&odd).to_string();
                m.insert(n, json!({"kind": *r.pick(&["alias-sym", "greedy-cmd", "infix-cmd"]), "alias": a}));
            }
        }
        1 => {
            for (n, i) in &v.items {
                m.entry(n.clone()).or_insert_with(|| i.clone());
            }
        }
        k => {
            for i in 0..r.range(100, if k == 2 { 600 } else { 2500 }) {
                m.insert(format!("simbulk{i}"), json!({"kind": "alias-sym", "alias": format!("simbulkhandler{}", i * 7919 % 10007)}));
            }
        }
    }
    p.specs[k] = j.to_string();
}

/// A number as letters, for the name of a command
fn letters(mut i: usize) -> String {
    let mut t = String::new();
    loop {
        t.push((b'a' + (i % 26) as u8) as char);
        i /= 26;
        if i == 0 {
            return t;
        }
    }
}
