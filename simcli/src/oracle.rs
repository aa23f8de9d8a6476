//! Expected results of the command line tool, from the library alone.
//!
//! oracle             reads {"id", "stage": "document"|"syntax", "path"} lines,
//!                    answers {"id", "ok"} or {"id", "err"} lines
//! oracle aliases -   the handler names a compiled document defines
//! oracle spec FILE   lists the commands of a stored specification
//! oracle json FILE   lists the commands of a specification in JSON form
//! oracle merge FILE  the same for a packages file: later packages win
use std::io::{BufRead, Write};

/// As one JSON object; what each item has to be is up to the simulator
fn listing(spec: &mitex_spec::CommandSpec) -> String {
    let all = spec.items().map(|(k, i)| (k.to_string(), serde_json::to_value(i).expect("item")));
    let all: Vec<_> = all.collect();
    let n = all.len();
    let map: serde_json::Map<_, _> = all.into_iter().collect();
    assert_eq!(map.len(), n, "a command is listed twice");
    serde_json::Value::Object(map).to_string()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "aliases" {
        let mut names = std::collections::BTreeSet::new();
        for (_, i) in mitex_spec_gen::DEFAULT_SPEC.items() {
            // through the JSON form, which does not depend on the item types
            let v = serde_json::to_value(i).expect("item");
            for k in ["Cmd", "Env"] {
                if let Some(n) = v[k]["alias"].as_str() {
                    let word = !n.is_empty() && n.bytes().all(|b| b.is_ascii_alphanumeric());
                    if word && !["and", "or", "in", "not"].contains(&n) {
                        names.insert(n.to_string());
                    }
                }
            }
        }
        for n in names {
            println!("{n}");
        }
        return;
    }
    if a.len() == 3 {
        let b = std::fs::read(&a[2]).expect("read");
        let l = match a[1].as_str() {
            "spec" => listing(&mitex_spec::CommandSpec::from_bytes(&b)),
            "json" => {
                let j: mitex_spec::JsonCommandSpec = serde_json::from_slice(&b).expect("json");
                listing(&j.into())
            }
            _ => {
                let p: mitex_spec::query::PackagesVec = serde_json::from_slice(&b).expect("json");
                let mut j = mitex_spec::JsonCommandSpec::default();
                for pkg in p.0 {
                    for (n, i) in pkg.spec.commands {
                        j.commands.insert(n, i);
                    }
                }
                listing(&j.into())
            }
        };
        println!("{l}");
        return;
    }
    std::panic::set_hook(Box::new(|_| {}));
    let (stdin, mut stdout) = (std::io::stdin().lock(), std::io::stdout().lock());
    for line in stdin.lines() {
        let v: serde_json::Value = serde_json::from_str(&line.expect("line")).expect("request");
        let path = v["path"].as_str().expect("path").to_string();
        let syntax = v["stage"] == "syntax";
        let r = std::panic::catch_unwind(|| {
            let doc = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
            if syntax {
                Ok(format!("{:#?}", mitex_parser::parse(&doc, mitex_spec_gen::DEFAULT_SPEC.clone())))
            } else {
                mitex::convert_text(&doc, None)
            }
        });
        let out = match r {
            Ok(Ok(s)) => serde_json::json!({"id": v["id"], "ok": s}),
            Ok(Err(e)) => serde_json::json!({"id": v["id"], "err": e}),
            Err(_) => serde_json::json!({"id": v["id"], "err": "panic"}),
        };
        writeln!(stdout, "{out}").expect("answer");
        stdout.flush().expect("flush");
    }
}
