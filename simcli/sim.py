#!/usr/bin/env python3
"""Deterministic simulator of the command line tool's world.

sim.py check <ID> --seed S --runs N --secs T --workers W --out FILE --replay-dir DIR
sim.py replay FILE

One run is one history of commands in a scratch directory. The real `mitex`
binary runs behind shim.c, which decides every system call result, random byte
and allocation from the plan of the command; the plan comes from the run's seed.
"""
import contextlib, ctypes, hashlib, json, os, random, re, select, shutil, signal, subprocess, sys, tempfile, time
from multiprocessing import Process, Pipe

HERE = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(os.path.dirname(HERE), "target/simcli")
MITEX = os.path.join(TARGET, "release/mitex")
ORACLE = os.path.join(TARGET, "release/oracle")
SPECBUILD = os.path.join(TARGET, "release/specbuild")
STUB = os.path.join(TARGET, "release/typst-stub")
SHIM = os.path.join(TARGET, "shim.so")
BUILT = "out/mitex-artifacts/spec/default.rkyv"
PREBUILT = "crates/mitex-spec-gen/assets/artifacts/spec/default.rkyv"
ARTIFACTS = "target/mitex-artifacts/spec"

# ------------------------------------------------------------------ workload

WORDS = ["lorem", "ipsum", "x", "Alpha", "42", "3.14", "naïve", "日本語", "é", "word,", "end."]
FRAGS = [
    "\\section{Title}\n", "\\textbf{bold} ", "\\emph{it} ", "$a^2 + b_{i}$ ", "$$\\frac{1}{2}$$ ", "\n\n", "\\[ \\sum_{i=0}^n i \\] ",
    "\\begin{itemize}\n\\item one\n\\item two\n\\end{itemize}\n", "\\begin{equation}x = y\\end{equation}\n",
    "$\\alpha \\le \\beta$ ", "% a comment\n", "\\begin{align}a &= b \\\\ c &= d\\end{align} ", "\\label{a} ", "~", "\\\\ ",
    "\\newcommand{\\mm}[1]{[#1]}\n\\renewcommand{\\mm}[1]{(#1)}\\mm{z} ", "$\\sqrt[3]{x}$ ", "\\iftypst #let u = 1 \\fi ", "\r\n", "\t",
    "$\\begin{pmatrix}1 & 2 \\\\ 3 & 4\\end{pmatrix}$ ", "\\textit{\\textbf{n}} ", "``quoted'' ", "\\# \\% \\& ", "\\caption{c} ",
]
BAD = ["\\undefinedcommand ", "} ", "$\\nosuchthing$ ", "\\end{equation} "]
INNAMES = ["main.tex", "doc.tex", "noext", "a.b.tex", "sub/deep.tex", "über.tex", "space name.tex", "other.latex", "x.TEX",
           ".hidden.tex", "trailing.", "long" + "g" * 200 + ".tex", "typst.typ.tex", "notes.typ", "sub/formula.typ"]
OUTNAMES = ["out.typ", "out.txt", "main.typ", "sub/out.typ", "other.txt", "no-such-dir/out.typ", "adir", "keep.typ", "doc.typ"]


def document(r):
    k = r.randrange(10)
    if k == 0:
        return ""
    n = r.choice([1, 2, 4, 8, 20, 60]) if k < 8 else r.choice([400, 1500])
    s = []
    bad = r.random() < 0.15
    for _ in range(n):
        s.append(r.choice(FRAGS) if r.random() < 0.6 else r.choice(WORDS) + " ")
    if bad:
        s.insert(r.randrange(len(s) + 1), r.choice(BAD))
    d = "".join(s)
    if r.random() < 0.05:
        d = "\ufeff" + d
    if r.random() < 0.03:
        # characters that some tools take for an end or drop
        k = r.choice([0, len(d), len(d), r.randrange(len(d) + 1)])
        d = d[:k] + r.choice(["\0", "\x1a", "\x04", "\x0c", "\u2028", "\r", "\x0b", "\u200b"]) * r.choice([1, 1, 3]) + d[k:]
    x = r.random()
    if x < 0.02 and not bad:
        # longer than any buffer on the way
        d = (d + "\n\n") * r.choice([20, 60]) if 1000 < len(d) < 15000 else "".join(r.choice(WORDS) + " " for _ in range(r.choice([15000, 40000])))
    elif x < 0.1:
        # exactly as long as a buffer, or nearly
        n = r.choice([1024, 4096, 8192, 16384, 65536, 131072] if x < 0.03 else [1024, 4096, 8192]) + r.choice([-1, 0, 0, 1])
        n -= len(d.encode())
        if n > 2:
            d += "\n" + r.choice(["%" + "c" * (n - 2), "w" * (n - 1), ("ab " * n)[:n - 1], "a" * (n % 2) + "é" * (n // 2 - 1) + "b" * (n > 1 and 1)])
    return d


def pacing(r):
    p = ["seed=%d" % r.randrange(1, 1 << 30)]
    if r.random() < 0.6:
        p.append("short=%d" % r.choice([100, 500, 1000]))
    if r.random() < 0.6:
        p.append("eintr=%d" % r.choice([50, 300, 600]))
    if r.random() < 0.3:
        p.append("size=%d" % r.randrange(1, 4))
    if r.random() < 0.1:
        p.append("norandom=1")
    if r.random() < 0.5:
        p.append("pad=%d" % r.randrange(1, 5000))
    if r.random() < 0.5:
        p.append("clock=%d" % r.choice([0, 1, -100000, 1 << 31, 1 << 33, r.randrange(1 << 31)]))
        if r.random() < 0.5:
            p.append("jump=%d" % r.choice([50, 512, 1024]))
    return p


def environment(r):
    e = {}
    for k, vs in (("LANG", ["C", "de_DE.UTF-8", "tr_TR.UTF-8"]), ("LC_ALL", ["C", "POSIX"]), ("TZ", ["UTC", "Asia/Tokyo"]),
                  ("COLUMNS", ["10", "300"]), ("RUST_BACKTRACE", ["1"]), ("TERM", ["dumb", "xterm-256color"]),
                  ("HOME", ["/nonexistent"]), ("NO_COLOR", ["1"]), ("SOURCE_DATE_EPOCH", ["0"]), ("TMPDIR", ["/nonexistent", "/dev"]),
                  ("CLICOLOR_FORCE", ["1"]), ("PWD", ["/nonexistent"]), ("USER", ["nobody", "root"]), ("LINES", ["1"]), ("CI", ["true"]),
                  ("RUST_LOG", ["trace"]), ("RUST_MIN_STACK", ["16777216"]), ("XDG_CONFIG_HOME", ["/nonexistent"]), ("EDITOR", ["vi"]),
                  ("PAGER", ["cat"]), ("MANPATH", ["/nonexistent"]), ("SHELL", ["/bin/fish", "/bin/zsh"]), ("HOSTNAME", ["h"])):
        if r.random() < 0.15:
            e[k] = r.choice(vs)
    if r.random() < 0.3:
        # moves the stack
        e["FILLER"] = "f" * r.randrange(20000)
    return e


def surroundings(r):
    """What a process can learn of where it runs."""
    p = []
    if r.random() < 0.4:
        p.append("envs=%d" % r.randrange(1, 1 << 20))
    if r.random() < 0.4:
        p.append("tty=%d" % r.randrange(8))
    if r.random() < 0.4:
        p.append("pid=%d" % r.choice([1, 2, 300, 4242, 99999, 4194303]))
    if r.random() < 0.4:
        p.append("ppid=%d" % r.choice([0, 1, 2, 77777]))
    return p


FEATURES = ["none", "is-math", "is-matrix", "is-cases", "is-figure", "is-table", "is-itemize", "is-enumerate"]


def arg_pattern(r):
    return r.choice([{"kind": "none"}, {"kind": "fixed-len", "len": r.choice([0, 1, 2, 3, 9, 255])}, {"kind": "greedy"},
                     {"kind": "range-len", "min": r.randrange(3), "max": r.choice([0, 1, 2, 5, 255])}, {"kind": "glob", "pattern": glob(r)}])


def glob(r):
    return r.choice(["{,b}t", "tt", "t", "*", "", "{,b}{,b}t", "b{t,tt}*", "{,p}" * 9 + "t"])


def json_spec_items(r, n):
    items = {}
    for _ in range(n):
        name = r.choice(["frac", "alpha", "foo", "bar", "baz", "equation", "é", "x*", "sum", "a", "b", "c", "d", "e", "\U0001d54f", "q\"q", "b\\s", "", "sevenby", "eight888", "nine99999"]) + r.choice(["", "", "z", "q"])
        alias = r.choice(["h%d", "h%d", "h%d", "mitex-handle-%d", "é%d", "a\"\\\n%d", "eightby%d", "l" * 120 + "%d"]) % r.randrange(100) if r.random() < 0.95 else ""
        items[name] = r.choice([
            {"kind": "sym"}, {"kind": "cmd0"}, {"kind": "cmd1"}, {"kind": "cmd2"}, {"kind": "left1-cmd"}, {"kind": "matrix-env"},
            {"kind": "normal-env"}, {"kind": "alias-sym", "alias": alias}, {"kind": "greedy-cmd", "alias": alias}, {"kind": "infix-cmd", "alias": alias},
            {"kind": "glob-cmd", "pattern": glob(r), "alias": alias},
            {"kind": "glob-env", "pattern": glob(r), "alias": alias, "ctx_feature": {"kind": r.choice(FEATURES)}},
            {"kind": "cmd", "args": r.choice([{"kind": "right", "pattern": arg_pattern(r)}, {"kind": "left1"}, {"kind": "infix-greedy"}]), "alias": r.choice([None, alias])},
            {"kind": "env", "args": arg_pattern(r), "ctx_feature": {"kind": r.choice(FEATURES)}, "alias": r.choice([None, alias])},
        ])
    return items


def canonical(item):
    """What an item of the query stands for in the specification."""
    def cmd(pattern, alias=None, **kind):
        return {"Cmd": {"args": kind or {"kind": "right", "pattern": pattern}, "alias": alias}}

    def env(args, feature, alias=None):
        return {"Env": {"args": args, "ctx_feature": feature, "alias": alias}}
    k, none = item["kind"], {"kind": "none"}
    fixed = {"cmd0": 0, "cmd1": 1, "cmd2": 2}
    if k in fixed:
        return cmd({"kind": "fixed-len", "len": fixed[k]})
    if k in ("sym", "alias-sym"):
        return cmd(none, item.get("alias"))
    if k == "greedy-cmd":
        return cmd({"kind": "greedy"}, item["alias"])
    if k == "glob-cmd":
        return cmd({"kind": "glob", "pattern": item["pattern"]}, item["alias"])
    if k == "left1-cmd":
        return cmd(None, kind="left1")
    if k == "infix-cmd":
        return cmd(None, item["alias"], kind="infix-greedy")
    if k in ("matrix-env", "normal-env"):
        return env(none, {"kind": "is-matrix"} if k == "matrix-env" else none)
    if k == "glob-env":
        return env({"kind": "glob", "pattern": item["pattern"]}, item["ctx_feature"], item["alias"])
    if k == "cmd":
        return {"Cmd": {"args": item["args"], "alias": item["alias"]}}
    return env(item["args"], item["ctx_feature"], item["alias"])


def packages(r):
    n = r.choice([1, 1, 2, 3, 5])
    return [{"name": "pkg%d" % i, "spec": {"commands": json_spec_items(r, r.choice([0, 1, 3, 10, 40]))}} for i in r.sample(range(9), n)] if r.random() > 0.03 else [
        {"name": "big", "spec": {"commands": {"cmd%d" % i: {"kind": "alias-sym", "alias": "handler%d" % (i * 7919 % 10007)} for i in range(r.choice([300, 1500]))}}}]


def stub(r, size):
    """How the simulated typst behaves; 'ok' says whether its query succeeded."""
    k = r.randrange(14)
    if k == 12 and size > 70:
        # in the value: what the tool does not look at may be anything
        return {"plan": "bad=%d" % r.randrange(32, size - 31), "ok": False}
    if k >= 12:
        return {"plan": "tail=%s" % r.choice(["x", "[]", ",", "error", "null"]), "ok": False}
    if k < 6:
        return {"plan": "slow=%d" % r.choice([7, 100, 5000]) if r.random() < 0.3 else "", "ok": True}
    if k == 6:
        return {"plan": "short=%d" % r.randrange(max(size, 1)), "ok": False}
    if k == 7:
        return {"plan": "short=0;exit=1;err=error: file not found", "ok": False}
    if k == 8:
        return {"plan": "exit=%d;err=error: unclean end" % r.choice([1, 2, 101]), "ok": False}
    if k == 9:
        return {"plan": "kill=%d" % r.choice([9, 6, 15]), "ok": False}
    if k == 10:
        return {"plan": "short=%d;kill=9" % r.randrange(max(size, 1)), "ok": False}
    return {"plan": "err=warning: something", "ok": True}


def compile_cmd(r, files, prop):
    i = r.choice([f for f in files if f in INNAMES] + (["missing.tex"] if r.random() < 0.3 else []))
    c = {"cmd": "compile", "in": i, "stage": r.choice([None, None, None, "document", "syntax"])}
    o = None
    if r.random() < 0.6:
        o = r.choice(OUTNAMES) if r.random() < 0.8 else "new-%d.typ" % r.randrange(3)
        if o == i:
            o = None
    form = r.randrange(4)
    if o is None:
        c["args"] = [[i], ["-i", i], ["--input", i], ["--input=" + i]][form]
        base = i.rsplit("/", 1)
        stem = base[-1]
        stem = stem.rsplit(".", 1)[0] if "." in stem.lstrip(".") else stem
        c["out"] = "/".join(base[:-1] + [stem + ".typ"])
    else:
        c["args"] = [[i, o], ["-i", i, "-o", o], ["--output", o, "--input", i], [i, o]][form]
        c["out"] = o
    if r.random() < 0.1:
        # other ways to name the same files
        c["args"] = [r.choice(["./" + a, "sub/../" + a, a]) if a in (i, o) else a for a in c["args"]]
    if c["stage"]:
        c["args"] = ["--stage", c["stage"]] + c["args"]
    if r.random() < 0.15:
        c["args"] = ["-w", "."] + c["args"]
    c["verb"] = r.choice(["compile", "compile", "c"])
    return c


def concurrent(r, s):
    """Groups of commands that run at the same time in one directory."""
    s["dirs"] = ["sub", "adir", "crates/mitex-cli", "packages/mitex/specs"]
    s["files"] = {"packages/mitex/specs/mod.typ": "// specs", "keep": "k"}
    for n in r.sample(INNAMES, r.choice([2, 3, 4])):
        s["files"][n] = document(r) if r.random() < 0.9 else ""
    for n in r.sample(["main.typ", "out.typ", "keep.typ", "doc.typ", "other.txt", "sub/deep.typ"], 2):
        s["files"][n] = "old contents of " + n + "z" * r.choice([0, 10, 20000])
    if r.random() < 0.5:
        s["dirs"].append(ARTIFACTS)
        for n in ("packages.json", "default.json", "default.rkyv"):
            if r.random() < 0.6:
                s["files"][ARTIFACTS + "/" + n] = "previous " + n + "y" * r.choice([0, 30000])
    s["order"] = {}
    for g in range(r.choice([1, 1, 2])):
        kind = r.choice(["compile", "compile", "compile", "same", "manual", "generate", "mixed", "mixed"])
        group = []
        n = r.choice([2, 2, 2, 3, 4])
        query = json.dumps([{"func": "metadata", "value": packages(r), "label": "<mitex-packages>"}])
        for i in range(n):
            k = kind if kind != "mixed" else r.choice(["compile", "compile", "manual", "generate", "completion", "version"])
            if k == "same" and group:
                c = json.loads(json.dumps(group[0]))
            elif k in ("compile", "same"):
                c = compile_cmd(r, s["files"], "C21")
            elif k == "manual":
                c = {"cmd": "manual", "dest": r.choice(["man", "man", "sub", "a/b/c", "a/b/d"])}
            elif k == "generate":
                st = stub(r, len(query.encode())) if r.random() < 0.4 else {"plan": "", "ok": True}
                c = {"cmd": "generate", "json": query, "stub": st["plan"], "query_ok": st["ok"]}
            elif k == "completion":
                c = {"cmd": "completion", "shell": r.choice(["bash", "zsh", "fish"])}
            else:
                c = {"cmd": "version", "args": r.choice([["-V"], ["--VV", "full"], ["--VV", "json"]])}
            if c["cmd"] == "compile":
                # no command reads what another one writes, and no two write different things to one place
                reads = {x["in"] for x in group if x["cmd"] == "compile"}
                writes = {x["out"]: x for x in group if x["cmd"] == "compile"}
                x = writes.get(c["out"])
                if c["out"] in reads or c["in"] in writes or x and (x["in"], x.get("stage") == "syntax") != (c["in"], c.get("stage") == "syntax"):
                    if c["in"] in writes:
                        continue
                    c["out"] = "out-%d.typ" % i
                    c["args"] = (["--stage", c["stage"]] if c["stage"] else []) + ["-i", c["in"], "-o", c["out"]]
            c["group"] = g
            group.append(c)
        s["cmds"] += group
        s["order"][str(g)] = {"seed": r.randrange(1 << 30), "policy": r.choice(["uniform", "uniform", "runs", "priority", "lockstep"])}
    s["faulty"] = r.random() < 0.3


def scenario(prop, seed):
    r = random.Random(seed * 2654435761 + 17)
    s = {"property": prop, "files": {}, "dirs": ["sub", "adir"], "cmds": []}
    if prop in ("C06", "C07", "C08"):
        for n in r.sample(INNAMES, r.choice([1, 2, 3])):
            s["files"][n] = document(r)
        if r.random() < 0.2:
            s["files"]["doc.tex"] = {"hex": r.choice(["ff", "61c3", "7820 e9".replace(" ", ""), "c080"])}
        for n in r.sample(["main.typ", "out.typ", "keep.typ", "doc.typ", "other.txt", "sub/deep.typ", "sub/out.typ"], 3):
            if r.random() < 0.7:
                s["files"][n] = "old contents of " + n + "\n" * r.randrange(3) + "z" * r.choice([0, 10, 20000])
        for _ in range(r.choice([1, 2, 3, 5])):
            s["cmds"].append(compile_cmd(r, s["files"], prop))
        # an output left by an earlier run which resembles the one to be written
        for c in s["cmds"]:
            if isinstance(s["files"].get(c["in"]), str) and not c["out"] in INNAMES + ["adir"] and "no-such" not in c["out"] and r.random() < 0.2:
                s["files"][c["out"]] = {"like": c["in"], "stage": c["stage"] or "document", "how": r.choice(["same", "flip", "flip", "head", "tail", "longer", "shuffled"])}
        # the documents are edited between the commands
        for c in s["cmds"][1:]:
            if r.random() < 0.3:
                n = r.choice([f for f in s["files"] if f in INNAMES])
                old = s["files"][n]
                new = document(r)
                if isinstance(old, str) and old and r.random() < 0.5:
                    k = r.randrange(len(old))
                    new = old[:k] + ("q" if old[k].isalpha() and old[k] != "q" else old[k]) + old[k + 1:]
                c["edit"] = {n: new}
        if prop == "C08":
            s["dirs"] += ["crates/mitex-cli", "packages/mitex/specs"]
            s["files"]["packages/mitex/specs/mod.typ"] = "// specs"
            for k in range(len(s["cmds"])):
                x = r.random()
                if x < 0.12:
                    s["cmds"][k] = {"cmd": "manual", "dest": r.choice(["man", "sub", "a/b/c"])}
                elif x < 0.2:
                    s["cmds"][k] = {"cmd": "completion", "shell": r.choice(["bash", "zsh", "fish", "elvish", "powershell"])}
                elif x < 0.26:
                    s["cmds"][k] = {"cmd": "version", "args": r.choice([["-V"], ["--version"], ["--VV", "full"], ["--VV", "json"], ["--VV", "json-plain"], ["--VV", "features"], ["--VV", "short"]])}
                elif x < 0.5:
                    st = {"ok": False}
                    text = json.dumps([{"func": "metadata", "value": packages(r), "label": "<mitex-packages>"}])
                    while not st["ok"]:
                        st = stub(r, len(text.encode()))
                    s["cmds"][k] = {"cmd": "generate", "json": text, "stub": st["plan"], "query_ok": True}
            for c in s["cmds"]:
                c["argv0"] = r.choice([None, None, "mitex", "/usr/local/bin/mitex", "m", ""])
                c["stdin"] = r.choice([None, None, "", "text on the input\n"])
        s["times"] = {n: r.choice([0, 1, 10**9, 2 * 10**9, 4 * 10**9]) for n in sorted(s["files"]) if r.random() < 0.15}
    elif prop == "C09":
        s["dirs"] = ["crates/mitex-cli", "packages/mitex/specs"]
        s["files"] = {"packages/mitex/specs/mod.typ": "// specs", "Cargo.toml": "[workspace]"}
        if r.random() < 0.7:
            s["dirs"].append(ARTIFACTS)
            for n in ("packages.json", "default.json", "default.rkyv"):
                k = r.random()
                if k < 0.03:
                    s["dirs"].append(ARTIFACTS + "/" + n)
                elif k < 0.8:
                    s["files"][ARTIFACTS + "/" + n] = "previous " + n + "y" * r.choice([0, 100, 30000])
        for _ in range(r.choice([1, 2, 3])):
            p = packages(r)
            k = r.randrange(12)
            items = [{"func": "metadata", "value": p, "label": "<mitex-packages>"}]
            good = True
            if k == 0:
                items, good = [], False
            elif k == 1:
                items, good = items * 2, False
            elif k == 2:
                items[0]["value"] = r.choice([{}, [{"name": 1}], "text", None, [{"name": "a", "spec": {"commands": {"x": {"kind": "nope"}}}}]])
                good = False
            text = json.dumps(items)
            st = stub(r, len(text.encode()))
            s["cmds"].append({"cmd": "generate", "json": text, "stub": st["plan"], "query_ok": st["ok"] and good})
    elif prop == "C21":
        concurrent(r, s)
    elif prop == "C22":
        s["dirs"] = ["crates/mitex-spec-gen/src", "packages/mitex/specs", "out"]
        s["files"] = {"packages/mitex/specs/mod.typ": "// specs", "crates/mitex-spec-gen/Cargo.toml": "[package]"}
        if r.random() < 0.8:
            s["files"]["Cargo.toml"] = "[workspace]"
        if r.random() < 0.8:
            s["files"][PREBUILT] = "prebuilt" + "p" * r.choice([0, 10, 9000, 70000, 200000])
        if r.random() < 0.5:
            s["dirs"].append("out/mitex-artifacts/spec")
            for n in ("packages.json", "default.json", "default.rkyv"):
                k = r.random()
                if k < 0.02:
                    s["dirs"].append("out/mitex-artifacts/spec/" + n)
                elif k < 0.8:
                    s["files"]["out/mitex-artifacts/spec/" + n] = "previous " + n + "y" * r.choice([0, 100, 30000])
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.randrange(12)
            items = [{"func": "metadata", "value": packages(r), "label": "<mitex-packages>"}]
            good = True
            if k < 2:
                items, good = [[], items * 2][k], False
            text = json.dumps(items)
            st = stub(r, len(text.encode()))
            s["cmds"].append({"cmd": "build", "json": text, "stub": st["plan"], "typst": r.random() < 0.7, "query_ok": st["ok"] and good})
    else:  # C10
        s["files"] = {"keep": "k"}
        s["dirs"] = ["sub"]
        for _ in range(r.choice([1, 2, 3])):
            k = r.randrange(3)
            if k == 0:
                d = r.choice(["man", "sub/man", "sub", "a/b/c"])
                s["cmds"].append({"cmd": "manual", "dest": d})
                if r.random() < 0.3 and d in ("sub",) and not any(x.startswith("sub/") for x in s["dirs"]):
                    s["files"]["sub/mitex-cli.1"] = "q" * r.choice([5, 50000])
                if r.random() < 0.12:
                    # something that is not a file is in the way of a page
                    x = d + "/mitex-cli" + r.choice(["", "-compile", "-completion", "-manual", "-spec"]) + ".1"
                    if not any(y.startswith(d + "/") for y in s["files"]):
                        s["dirs"].append(x)
            elif k == 1:
                s["cmds"].append({"cmd": "completion", "shell": r.choice(["bash", "zsh", "fish", "elvish", "powershell"])})
            else:
                s["cmds"].append({"cmd": "version", "args": r.choice([["-V"], ["--version"], ["--VV", "full"], ["--VV", "json"], ["--VV", "json-plain"], ["--VV", "features"], ["--VV", "short"]])})
    for k, c in enumerate(s["cmds"]):
        c["pace"] = pacing(r)
        if prop == "C21":
            c["id"] = k
            # processes never share their randomness; they do share the clock, nearly
            c["pace"] = ["seed=%d" % (r.randrange(1 << 24) * 64 + k)] + [x for x in c["pace"] if not x.startswith(("seed", "clock", "jump"))]
            c["pace"].append("clock=%d" % (1700000000 + r.choice([0, 0, 0, 1])))
        c["env"] = environment(r) if prop == "C08" else {}
        if prop == "C08":
            c["pace"] += surroundings(r)
        c["draw"] = r.randrange(1 << 40)
    s["seed"] = seed
    return s


# Which errors an operation can meet
ERRS = {"open-r": [13, 24, 5, 2, 23], "open-w": [13, 28, 30, 5, 24], "open-wt": [13, 28, 30, 5, 24], "read": [5, 5, 11], "write": [28, 5, 122, 27, 9999],
        "stdout": [32, 28, 5, 9999], "stderr": [5, 28], "close": [5], "mkdir": [13, 28, 30], "stat": [5, 13], "spawn": [2, 11, 12, 13],
        "fsync": [5], "rename": [5, 28], "unlink": [5], "truncate": [5]}


def faults(prop, c, ops, allocs):
    """Chooses the faults of a command, given the operations it makes without."""
    r = random.Random(c["draw"])
    p = []
    if prop == "C08":
        return p
    k = r.random()
    if k < 0.12 or not ops:
        return p
    n = len(ops)
    # the late operations, which finish the output, are as interesting as the early ones
    kinds = sorted({o[0] for o in ops})

    def of_kind():
        # rare operations (opening, creating a directory, starting a process) are as likely as writes
        k = r.choice(kinds)
        return r.choice([i for i, o in enumerate(ops) if o[0] == k])

    pick = lambda: r.choice([of_kind, of_kind, lambda: r.randrange(n), lambda: n - 1 - min(n - 1, int(r.expovariate(0.5)))])()
    writes = [i for i, o in enumerate(ops) if o[0] == "write"]
    if k < 0.55:
        for _ in range(r.choice([1, 1, 1, 2])):
            i = r.choice(writes) if writes and r.random() < 0.25 else pick()
            p.append("at=%d:%d" % (i, r.choice(ERRS.get(ops[i][0], [5]))))
    elif k < 0.65:
        total = sum(o[2] for o in ops if o[0] == "write")
        p.append("full=%d" % (r.choice([0, 1, total // 2, max(total - 1, 0), r.randrange(total + 1)])))
    elif k < 0.83:
        i = r.choice(writes) if writes and r.random() < 0.4 else pick()
        if ops[i][0] == "write" and r.random() < 0.6:
            p.append("crashb=%d:%d" % (i, r.randrange(ops[i][2] + 1)))
        else:
            p.append("crash=%d%s" % (i, r.choice(["", "+"])))
    elif k < 0.95:
        p.append("mem=%d%s" % (r.randrange(max(allocs, 1)), r.choice(["", "", "+"])))
    elif any(o[0] == "spawn" for o in ops):
        p.append("spawn=%d" % r.choice([2, 11, 12, 13]))
    # pacing shifts operation numbers: an exact fault goes with plain pacing half the time
    return p


# ------------------------------------------------------------------ execution

class Oracle:
    def __init__(self):
        self.p = subprocess.Popen([ORACLE], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        self.cache = {}

    def convert(self, data, stage, tmp):
        key = (hashlib.sha1(data).digest(), stage)
        if key not in self.cache:
            f = os.path.join(tmp, "oracle-input")
            with open(f, "wb") as h:
                h.write(data)
            self.p.stdin.write((json.dumps({"id": 0, "stage": stage, "path": f}) + "\n").encode())
            self.p.stdin.flush()
            if not select.select([self.p.stdout], [], [], 10)[0]:
                # a document whose macros never stop expanding: nothing can be said about it
                self.p.kill()
                self.p.wait()
                self.p = subprocess.Popen([ORACLE], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
                raise Harness("the oracle takes too long")
            line = self.p.stdout.readline()
            if not line:
                raise Harness("the oracle died")
            if len(self.cache) > 500:
                self.cache.clear()
            self.cache[key] = json.loads(line)
        return self.cache[key]


class Harness(Exception):
    pass


class Snap(dict):
    """File contents by name, and their times."""

    def __init__(self):
        self.times = {}


class World:
    """A scratch directory and the means to run commands in it."""

    def __init__(self, tmp, oracle):
        self.tmp, self.oracle = tmp, oracle
        self.root = os.path.join(tmp, "w")
        self.bin = os.path.join(tmp, "bin")
        os.makedirs(self.bin, exist_ok=True)
        link = os.path.join(self.bin, "typst")
        if not os.path.islink(link):
            os.symlink(STUB, link)
        self.n = 0
        self.base = None
        self.baselines = {}
        self.queries = {}

    def reset(self, s):
        self.clear(self.root)
        os.makedirs(self.root)
        for d in s["dirs"]:
            os.makedirs(os.path.join(self.root, d), exist_ok=True)
        for n, t in s["files"].items():
            p = os.path.join(self.root, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(self.content(s, t))
        for n, t in s.get("times", {}).items():
            if n in s["files"]:
                os.utime(os.path.join(self.root, n), (t, t))

    def content(self, s, t):
        if not isinstance(t, dict):
            return t.encode()
        if "hex" in t:
            return bytes.fromhex(t["hex"])
        a = self.oracle.convert((s["files"].get(t["like"]) or "").encode(), t["stage"], self.tmp)
        b = bytearray((self.base[0] + a.get("ok", "")).encode())
        how = t["how"]
        if how == "flip" and b:
            b[-1] ^= 1
        elif how == "head":
            b = b[:len(b) // 2]
        elif how == "tail":
            b = b[len(b) // 2:]
        elif how == "longer":
            b += b"\nand more"
        elif how == "shuffled":
            b.reverse()
        return bytes(b)

    def clear(self, d):
        assert d.startswith(self.tmp + "/")
        shutil.rmtree(d, ignore_errors=True)

    def snapshot(self):
        out = Snap()
        for d, ds, fs in os.walk(self.root):
            for x in ds:
                out[os.path.relpath(os.path.join(d, x), self.root) + "/"] = None
            for x in fs:
                p = os.path.join(d, x)
                with open(p, "rb") as f:
                    out[os.path.relpath(p, self.root)] = f.read()
                out.times[os.path.relpath(p, self.root)] = os.stat(p).st_mtime_ns
        return out

    def restore(self, snap):
        self.clear(self.root)
        os.makedirs(self.root)
        for n in snap:
            if n.endswith("/"):
                os.makedirs(os.path.join(self.root, n), exist_ok=True)
        for n, b in snap.items():
            if b is not None:
                with open(os.path.join(self.root, n), "wb") as f:
                    f.write(b)
                os.utime(os.path.join(self.root, n), ns=(snap.times[n],) * 2)

    @contextlib.contextmanager
    def elsewhere(self):
        """Another, empty directory to run a command in."""
        root = self.root
        self.root = os.path.join(self.tmp, "elsewhere/with a longer name")
        self.clear(self.root)
        os.makedirs(self.root)
        try:
            yield
        finally:
            self.root = root

    def argv(self, c):
        if c["cmd"] == "compile":
            return [c.get("verb", "compile")] + c["args"]
        if c["cmd"] == "generate":
            return ["spec", "generate"]
        if c["cmd"] == "build":
            return []
        if c["cmd"] == "manual":
            return ["manual", c["dest"]]
        if c["cmd"] == "completion":
            return ["completion", c["shell"]]
        return list(c["args"])

    def start(self, c, plan, tag="", fds=()):
        env = {"PATH": self.bin + ":/usr/bin:/bin", "LD_PRELOAD": SHIM, "SIM_ROOT": self.root,
               "SIM_TRACE": os.path.join(self.tmp, "trace" + tag), "SIM_PLAN": ";".join(plan)}
        env.update(c.get("env") or {})
        if c["cmd"] == "generate":
            j = os.path.join(self.tmp, "stub%s.json" % tag)
            with open(j, "w") as f:
                f.write(c["json"])
            env.update({"CARGO_MANIFEST_DIR": os.path.join(self.root, "crates/mitex-cli"), "STUB_JSON": j, "STUB_PLAN": c["stub"]})
        if c["cmd"] == "build":
            j = os.path.join(self.tmp, "stub%s.json" % tag)
            with open(j, "w") as f:
                f.write(c["json"])
            env.update({"CARGO_MANIFEST_DIR": os.path.join(self.root, "crates/mitex-spec-gen"), "OUT_DIR": os.path.join(self.root, "out"),
                        "STUB_JSON": j, "STUB_PLAN": c["stub"]})
            if not c["typst"]:
                env["PATH"] = "/nonexistent"
        t = env["SIM_TRACE"]
        with open(t, "wb"):
            pass
        so, se = open(os.path.join(self.tmp, "so" + tag), "w+b"), open(os.path.join(self.tmp, "se" + tag), "w+b")
        exe = SPECBUILD if c["cmd"] == "build" else MITEX
        si = subprocess.DEVNULL
        if c.get("stdin") is not None:
            si = open(os.path.join(self.tmp, "si" + tag), "w+b")
            si.write(c["stdin"].encode())
            si.seek(0)
        p = subprocess.Popen([c["argv0"] if c.get("argv0") is not None else exe] + self.argv(c), executable=exe, cwd=self.root, env=env, stdin=si, stdout=so, stderr=se, pass_fds=fds)
        if c.get("stdin") is not None:
            si.close()
        return {"p": p, "so": so, "se": se, "trace": t, "plan": plan}

    def run(self, c, plan):
        h = self.start(c, plan)
        hang = False
        try:
            h["p"].wait(60)
        except subprocess.TimeoutExpired:
            h["p"].kill()
            hang = True
        return self.finish(h, hang)

    def together(self, cmds, plans, order):
        """Runs commands at the same time. Each asks for a turn before every
        operation; order says who gets it, so that one process runs at a time."""
        n = len(cmds)
        r = random.Random(order["seed"])
        given = list(order["turns"]) if "turns" in order else None
        handles, asks, gives = [], [], []
        for k, c in enumerate(cmds):
            gr, gw = os.pipe()
            ar, aw = os.pipe()
            for fd, to in ((gr, 700), (aw, 701)):
                os.dup2(fd, to, inheritable=True)
                os.close(fd)
            handles.append(self.start(c, plans[k] + ["turn=700:701", "pid=%d" % (4100 + c["id"])], "-%d" % k, (700, 701)))
            os.close(700)
            os.close(701)
            asks.append(ar)
            gives.append(gw)
        pending, why, live, turns, hang = [b""] * n, [""] * n, set(range(n)), [], False
        prio = [r.random() for _ in range(n)]
        last = None
        try:
            while live and not hang:
                for k in sorted(live):
                    while k in live and not pending[k]:
                        if not select.select([asks[k]], [], [], 60)[0]:
                            hang = True
                            break
                        b = os.read(asks[k], 64)
                        if b:
                            pending[k] += b
                        else:
                            live.discard(k)
                if not live or hang:
                    break
                cand = sorted(live)
                k = None
                if given is not None:
                    while given and k is None:
                        x = given.pop(0)
                        k = next((j for j in cand if cmds[j]["id"] == x), None)
                    if k is None:
                        # blocked processes wait until the others are done
                        k = next((j for j in cand if pending[j][:1] == b"o"), cand[len(turns) % len(cand)])
                elif order["policy"] == "uniform":
                    k = r.choice(cand)
                elif order["policy"] == "runs":
                    k = last if last in cand and pending[last][:1] == b"o" and r.random() < 0.85 else r.choice(cand)
                elif order["policy"] == "priority":
                    if r.random() < 0.06:
                        prio[r.randrange(n)] = r.random()
                    k = max(cand, key=lambda j: prio[j])
                    if pending[k][:1] != b"o":
                        prio[k] = min(prio) - 0.01
                else:
                    k = cand[len(turns) % len(cand)]
                turns.append(cmds[k]["id"])
                last = k
                pending[k] = pending[k][1:]
                try:
                    os.write(gives[k], b"x")
                except BrokenPipeError:
                    live.discard(k)
                if len(turns) > 100000:
                    hang = True
        finally:
            for h in handles:
                if hang and h["p"].poll() is None:
                    h["p"].kill()
            for fd in asks + gives:
                os.close(fd)
        res = []
        for h in handles:
            late = False
            try:
                h["p"].wait(60)
            except subprocess.TimeoutExpired:
                h["p"].kill()
                late = True
            res.append(self.finish(h, hang or late))
        return res, turns

    def finish(self, h, hang):
        rc = h["p"].wait()
        plan, t = h["plan"], h["trace"]
        with h["so"] as so, h["se"] as se:
            so.seek(0)
            se.seek(0)
            out, err = so.read(), se.read()
        with open(t, "r", errors="replace") as f:
            tr = f.read().splitlines()
        ops, fired, allocs = [], [], 0
        for l in tr:
            w = l.rsplit(" ", 3)
            if l.startswith("op "):
                head = w[0].split(" ", 3)
                ops.append((head[2], head[3] if len(head) > 3 else "", int(w[1])))
                if w[2] == "fault":
                    fired.append(head[2] + ":" + w[3])
            elif l.startswith("eintr"):
                fired.append("eintr")
            elif l.startswith(("full", "crash", "nomem")):
                fired.append(l.split(" ")[0])
            elif l.startswith("end"):
                allocs = int(l.split("allocs=")[1])
        if any(x.startswith("spawn=") for x in plan) and any(o[0] == "spawn" for o in ops):
            fired.append("spawn:failed")
        return {"rc": rc, "out": out, "err": err, "ops": ops, "fired": fired, "allocs": allocs, "hang": hang,
                "hash": hashlib.sha1("\n".join(tr).encode()).hexdigest()}


HARMLESS = ("eintr",)


def hard(res):
    return [f for f in res["fired"] if f not in HARMLESS]


def pages(w, c):
    """Fault-free output of a command, from a directory of its own."""
    key = json.dumps([c["cmd"], c.get("shell"), c.get("args")])
    if key not in w.baselines:
        cc = dict(c, env={}, argv0=None, stdin=None)
        if c["cmd"] == "manual":
            cc["dest"] = "m"
        with w.elsewhere():
            r = w.run(cc, ["seed=1"])
            files = {k[2:]: v for k, v in w.snapshot().items() if v is not None}
        w.baselines[key] = (r["rc"], r["out"], files)
    return w.baselines[key]


def artifacts(w, c):
    """What the specification command writes in a run of its own, for the same query."""
    key = c["json"]
    if key not in w.queries:
        if len(w.queries) > 50:
            w.queries.clear()
        with w.elsewhere():
            os.makedirs(os.path.join(w.root, "crates/mitex-cli"))
            r = w.run(dict(c, env={}, argv0=None, stdin=None, stub=""), ["seed=1"])
            files = {k: v for k, v in w.snapshot().items() if k.startswith(ARTIFACTS)}
        w.queries[key] = (r["rc"], r["out"], files)
    return w.queries[key]


def prelude(w):
    """What the tool writes before the conversion, checked against the specification."""
    if w.base is None:
        with w.elsewhere():
            with open(os.path.join(w.root, "p.tex"), "w") as f:
                f.write("x")
            r = w.run({"cmd": "compile", "args": ["p.tex", "p.out"]}, ["seed=1"])
            conv = w.oracle.convert(b"x", "document", w.tmp).get("ok", "")
            try:
                with open(os.path.join(w.root, "p.out"), "rb") as f:
                    t = f.read().decode()
            except OSError:
                t = ""
        names = subprocess.run([ORACLE, "aliases", "-"], capture_output=True, text=True).stdout.split()
        head = t[:len(t) - len(conv)] if t.endswith(conv) else t
        lets = [l.split(" ")[1] for l in head.splitlines() if l.startswith("#let ")]
        problem = None
        if r["rc"] != 0:
            problem = "a plain document does not compile: exit status %d" % r["rc"]
        elif not t.endswith("\n" + conv):
            problem = "the output does not end in the conversion"
        elif sorted(lets) != sorted(names):
            problem = "the prelude defines %d names, the specification has %d handlers" % (len(lets), len(names))
        elif any(l != '#let %s = mitex-scope.at("%s", default: none);' % (n, n) for l, n in
                 zip([l for l in head.splitlines() if l.startswith("#let ")], lets)):
            problem = "a prelude definition is malformed"
        elif sum(1 for l in head.splitlines() if l.startswith("#import \"@preview/mitex:")) != 1:
            problem = "the prelude does not import the package"
        w.base = (head, problem)
    return w.base


def expected(w, c, before):
    """(bytes or None, reason) the compile command has to write."""
    src = before.get(c["in"])
    if src is None:
        return None, "no such input"
    if c["out"] == c["in"]:
        # the name of the output is not given and would be that of the input
        return None, "the input would be replaced"
    stage = "syntax" if c.get("stage") == "syntax" else "document"
    a = w.oracle.convert(src, stage, w.tmp)
    if "ok" not in a:
        return None, a.get("err", "")
    return (prelude(w)[0] + a["ok"]).encode(), ""


def writable(c, before):
    """Can the output be opened at all?"""
    o = c["out"]
    if o + "/" in before:
        return False
    d = os.path.dirname(o)
    return d == "" or d + "/" in before


def show(b):
    if b is None:
        return "nothing"
    return "%d bytes %s" % (len(b), b[-60:].decode("utf-8", "replace").__repr__())


def diff(before, after, ignore=()):
    out = []
    for k in sorted(set(before) | set(after)):
        if k in ignore:
            continue
        if (k in before) != (k in after) or before.get(k) != after.get(k):
            out.append(k)
    return out


def judge_compile(w, prop, c, plan, res, before, after):
    want, why = expected(w, c, before)
    got = after.get(c["out"])
    old = before.get(c["out"])
    rc = res["rc"]
    perfect = not hard(res)
    can = want is not None and writable(c, before)
    opened = any(o[0] in ("open-wt", "open-w", "rename") for o in res["ops"])
    if prop == "C06":
        if res["hang"]:
            return "the command does not end", "an exit status", "no exit within 60 s"
        if rc == 0 and want is None:
            return "exit status 0 although nothing could be converted", "failure: " + why, show(got)
        if rc == 0 and got != want:
            return "exit status 0 but the output is not the complete conversion", show(want), show(got)
        if perfect and can and rc != 0:
            return "a convertible document was rejected although no fault occurred", "exit status 0", "%d %s" % (rc, res["err"][-200:].decode("utf-8", "replace"))
        if rc != 0 and rc != -9 and not res["err"].strip() and not any(f.startswith("stderr") for f in res["fired"]):
            return "the command failed without a diagnostic", "a message", "exit status %d" % rc
        if prelude(w)[1]:
            return "the prelude is wrong", "definitions of every handler", prelude(w)[1]
    if prop == "C07":
        ch = diff(before, after, ignore=(c["out"],))
        if ch:
            return "a file other than the output changed", "only %r" % c["out"], ", ".join(ch)
        if (want is None or not can) and got != old:
            return "the output changed although there was nothing to write", show(old), show(got)
        if rc != 0 and not opened and got != old:
            return "the output changed before it was opened", show(old), show(got)
        if got != old and got is not None and want is not None and not want.startswith(got):
            return "the output is neither the old one nor a beginning of the new one", show(want), show(got)
        if got is None and old is not None:
            return "the existing output vanished", show(old), show(got)
        first_w = next((i for i, o in enumerate(res["ops"]) if o[0] in ("open-wt", "open-w")), None)
        if first_w is not None and want is None:
            return "the output was opened although there was nothing to write", "no write access", str(res["ops"][first_w])
    if prop == "C08":
        if perfect and can:
            if rc != 0:
                return "the outcome depends on the run", "exit status 0", "%d %s" % (rc, res["err"][-200:].decode("utf-8", "replace"))
            if got != want:
                return "the output depends on the run", show(want), show(got)
        if perfect and not can:
            key = ("fail", c["in"], c["out"], hashlib.sha1(before.get(c["in"]) or b"-").hexdigest())
            if key in w.baselines and w.baselines[key] != rc:
                return "the exit status depends on the run", str(w.baselines[key]), str(rc)
            w.baselines[key] = rc
    return None


def listing(kind, path):
    p = subprocess.run([ORACLE, kind, path], capture_output=True)
    return json.loads(p.stdout) if p.returncode == 0 else None


def queried(text):
    """The specification an answer of the query defines: later packages win."""
    merged = {}
    for p in json.loads(text)[0]["value"]:
        merged.update(p["spec"]["commands"])
    return {n: canonical(i) for n, i in merged.items()}


def judge_generate(w, c, plan, res, before, after):
    names = ["packages.json", "default.json", "default.rkyv"]
    arts = [ARTIFACTS + "/" + n for n in names]
    rc = res["rc"]
    spawn_failed = any(f.startswith("spawn") for f in res["fired"])
    query_ok = c["query_ok"] and not spawn_failed
    if res["hang"]:
        return "the command does not end", "an exit status", "no exit within 60 s"
    ch = [x for x in diff(before, after, ignore=arts) if not x.startswith("target/")]
    if ch:
        return "a file other than the artifacts changed", "only the artifacts", ", ".join(ch)
    if rc == 0 and not query_ok:
        return "exit status 0 although the query failed", "failure", "stub " + c["stub"]
    if not query_ok:
        ch = diff(before, after)
        if any(x in arts for x in ch):
            return "a failed query changed the stored artifacts", "the previous artifacts", ", ".join(ch)
    if rc != 0 and rc != -9 and not res["err"].strip() and not any(f.startswith("stderr") for f in res["fired"]):
        return "the command failed without a diagnostic", "a message", "exit status %d" % rc
    blocked = any(a + "/" in before for a in arts)
    if query_ok and not hard(res) and rc != 0 and not blocked:
        return "the artifacts were not generated although no fault occurred", "exit status 0", "%d %s" % (rc, res["err"][-200:].decode("utf-8", "replace"))
    if rc == 0:
        want = queried(c["json"])
        try:
            with open(os.path.join(w.root, arts[0]), "rb") as h:
                names = [p["name"] for p in json.load(h)]
        except (OSError, KeyError, TypeError, ValueError):
            names = None
        if names != [p["name"] for p in json.loads(c["json"])[0]["value"]]:
            return "exit status 0 but packages.json does not list the queried packages", "their names in order", repr(names)[:200]
        for kind, a in (("merge", arts[0]), ("json", arts[1]), ("spec", arts[2])):
            got = listing(kind, os.path.join(w.root, a))
            if got != want:
                d = sorted(n for n in set(got or {}) | set(want) if (got or {}).get(n) != want.get(n))
                return "exit status 0 but %s does not hold the queried specification" % a.rsplit("/", 1)[1], "%d commands" % len(want), \
                    "unreadable" if got is None else "differs in %d commands: %s" % (len(d), [[n, got.get(n), want.get(n)] for n in d[:2]])
    return None


def judge_build(w, c, plan, res, before, after):
    rc = res["rc"]
    if res["hang"]:
        return "the build step does not end", "an exit status", "no exit within 60 s"
    ch = [x for x in diff(before, after) if not x.startswith("out/")]
    if ch:
        return "a file other than the built ones changed", "only OUT_DIR", ", ".join(ch)
    # a file that cannot be looked at counts as absent
    blind = any(f.startswith("stat") for f in res["fired"])
    generating = c["typst"] and "Cargo.toml" in before
    query_ok = c["query_ok"] and not any(f.startswith("spawn") for f in res["fired"])
    if rc != 0 and rc != -9 and not res["err"].strip() and not any(f.startswith("stderr") for f in res["fired"]):
        return "the build step failed without a diagnostic", "a message", "exit status %d" % rc
    d = os.path.dirname(BUILT)
    blocked = any(d + "/" + n + "/" in before for n in (("packages.json", "default.json", "default.rkyv") if generating else ("default.rkyv",)))
    possible = not blocked and (query_ok if generating else PREBUILT in before)
    if possible and not hard(res) and rc != 0:
        return "the specification was not built although no fault occurred", "exit status 0", "%d %s" % (rc, res["err"][-300:].decode("utf-8", "replace"))
    if rc == 0:
        good = []
        if generating and query_ok:
            good.append(listing("spec", os.path.join(w.root, BUILT)) == queried(c["json"]))
        if not generating or blind:
            good.append(PREBUILT in before and after.get(BUILT) == before[PREBUILT])
        if not any(good):
            return "exit status 0 but the library would get another specification", "the queried one" if generating else "the prebuilt one", show(after.get(BUILT))
    return None


def judge_text(w, c, plan, res, before, after):
    brc, bout, bfiles = pages(w, c)
    rc = res["rc"]
    if res["hang"]:
        return "the command does not end", "an exit status", "no exit within 60 s"
    if brc != 0:
        return "the command fails without any fault", "exit status 0", str(brc)
    blocked = c["cmd"] == "manual" and any(c["dest"].rstrip("/") + "/" + n + "/" in before for n in bfiles)
    if not hard(res) and rc != 0 and not blocked:
        return "the command failed although no fault occurred", "exit status 0", "%d %s" % (rc, res["err"][-200:].decode("utf-8", "replace"))
    if rc != 0 and rc != -9 and not res["err"].strip() and not any(f.startswith("stderr") for f in res["fired"]):
        return "the command failed without a diagnostic", "a message", "exit status %d" % rc
    if c["cmd"] == "manual":
        mine = [c["dest"].rstrip("/") + "/" + n for n in bfiles]
        ch = [x for x in diff(before, after, ignore=mine) if not (x.endswith("/") and (c["dest"] + "/").startswith(x))]
        if ch:
            return "a file that is not a manual page changed", "only manual pages", ", ".join(ch)
        if rc == 0:
            # the main page names the commands; each of them has a page
            top = bfiles.get("mitex-cli.1", b"").decode("utf-8", "replace").replace("\\-", "-")
            named = [x for x in re.findall(r"^\S*?-([\w-]+)\(1\)$", top, re.M) if x != "help"]
            for x in named:
                b = bfiles.get("mitex-cli-%s.1" % x, b"").decode("utf-8", "replace")
                if not all(".SH " + t in b for t in ("NAME", "SYNOPSIS", "DESCRIPTION")):
                    return "exit status 0 but a command has no manual page", "mitex-cli-%s.1" % x, ", ".join(sorted(bfiles))
            if not named:
                return "exit status 0 but the manual names no commands", "pages of the commands", top[:300]
            for n, b in bfiles.items():
                got = after.get(c["dest"] + "/" + n)
                if got != b:
                    return "exit status 0 but a manual page is not complete", "%s: %s" % (n, show(b)), show(got)
    else:
        if diff(before, after):
            return "the command changed files", "no change", ", ".join(diff(before, after))
        if rc == 0 and res["out"] != bout:
            return "exit status 0 but the printed text is not complete", show(bout), show(res["out"])
    return None


def judge_group(w, cmds, results, before, after):
    """Each command of a group does what it does alone, and nothing else happens."""
    noisy = any(hard(r) for r in results)
    mine, content = set(), {}
    for c, res in zip(cmds, results):
        if c["cmd"] == "compile":
            want, why = expected(w, c, before)
            can = want is not None and writable(c, before)
            outs = {c["out"]: want} if can else {}
        elif c["cmd"] == "manual":
            can = True
            outs = {c["dest"] + "/" + n: b for n, b in pages(w, c)[2].items()}
            d = c["dest"]
            while d:
                mine.add(d + "/")
                d = os.path.dirname(d)
        elif c["cmd"] == "generate":
            can = c["query_ok"] and not any(f.startswith("spawn") for f in res["fired"])
            outs = {ARTIFACTS + "/" + n: None for n in ("packages.json", "default.json", "default.rkyv")} if can else {}
            if can or hard(res):
                mine |= {"target/", "target/mitex-artifacts/", ARTIFACTS + "/"}
        else:
            can, outs = True, {}
        c["_can"], c["_outs"] = can, outs
        mine |= set(outs)
        if hard(res):
            mine |= {c["out"]} if c["cmd"] == "compile" else set()
    dirty = {o for c, r in zip(cmds, results) if hard(r) for o in c["_outs"]}
    for k, (c, res) in enumerate(zip(cmds, results)):
        rc, name = res["rc"], " ".join(["mitex"] + w.argv(c))
        if res["hang"]:
            return k, "a command does not end while others run", "an exit status", "%s: no exit" % name
        if hard(res):
            continue
        diagnosis = "%d %s" % (rc, res["err"][-200:].decode("utf-8", "replace"))
        if c["_can"] and rc != 0:
            return k, "a command fails because others run at the same time", "%s: exit status 0" % name, diagnosis
        if not c["_can"] and rc == 0:
            return k, "a command that has to fail succeeds because others run at the same time", "%s: failure" % name, "exit status 0"
        if c["cmd"] in ("completion", "version") and res["out"] != pages(w, c)[1]:
            return k, "what a command prints depends on the commands that run at the same time", show(pages(w, c)[1]), show(res["out"])
        if c["cmd"] == "generate":
            if c["_can"] and not dirty & set(c["_outs"]):
                v = judge_generate(w, c, [], dict(res, rc=0), before, dict(before))
                if v:
                    return k, "commands at the same time: " + v[0], v[1], v[2]
            continue
        for o, b in c["_outs"].items():
            if o not in dirty and after.get(o) != b:
                return k, "the output of a command depends on the commands that run at the same time", "%s: %s" % (o, show(b)), show(after.get(o))
    ch = [x for x in diff(before, after, ignore=mine) if x in before or not noisy]
    if ch:
        return 0, "commands at the same time change or leave behind other files", "only their outputs", ", ".join(ch)
    return None


def run_groups(w, s, stats=None):
    prelude(w)
    w.reset(s)
    for g in sorted({c["group"] for c in s["cmds"]}):
        cmds = [c for c in s["cmds"] if c["group"] == g]
        before = w.snapshot()
        for k, c in enumerate(cmds):
            if c["cmd"] in ("manual", "completion", "version"):
                pages(w, c)
            if "plan" not in c:
                c["plan"] = list(c["pace"])
                if s["faulty"] and c["draw"] % len(cmds) == 0:
                    dry = w.run(c, c["plan"])
                    w.restore(before)
                    c["plan"] += faults("C21", c, dry["ops"], dry["allocs"])
        order = s["order"][str(g)]
        results, turns = w.together(cmds, [c["plan"] for c in cmds], order)
        order["turns"] = turns
        after = w.snapshot()
        switches = sum(1 for a, b in zip(turns, turns[1:]) if a != b)
        if stats is not None:
            stats["commands"] += len(cmds)
            stats["switches"] += switches
            stats["hashes"] += [hashlib.sha1(bytes(t & 255 for t in turns)).hexdigest()] + [r["hash"] for r in results]
            for c, res in zip(cmds, results):
                stats["ops"] += len(res["ops"])
                for f in res["fired"]:
                    stats["faults"][f] = stats["faults"].get(f, 0) + 1
                for x in c["plan"]:
                    q = x.split("=")[0]
                    if q in ("size", "short", "norandom", "pad", "clock"):
                        stats["pace"][q] = stats["pace"].get(q, 0) + 1
                stats["exits"][str(res["rc"])] = stats["exits"].get(str(res["rc"]), 0) + 1
            if switches >= 2:
                stats["nontrivial"] += 1
        v = judge_group(w, cmds, results, before, after)
        for c in cmds:
            c.pop("_can", None)
            c.pop("_outs", None)
        if v:
            k = v[0]
            return {"what": v[1], "expected": v[2], "got": v[3], "command": s["cmds"].index(cmds[k]), "argv": ["mitex"] + w.argv(cmds[k]),
                    "plan": ";".join(cmds[k]["plan"]), "exit": results[k]["rc"], "fired": results[k]["fired"][:20],
                    "commands": [" ".join(["mitex"] + w.argv(c)) for c in cmds], "schedule": turns,
                    "operations": {str(c["id"]): ["%s %s %d" % o for o in r["ops"][:60]] for c, r in zip(cmds, results)}}
    return None


def judge_again(w, c, plan, res, before, after):
    """The same command writes the same bytes, however the run differs."""
    if c["cmd"] == "generate":
        rc, out, files = artifacts(w, c)
        if rc != 0 or res["rc"] != 0:
            return "the specification was not generated although no fault occurred", "exit status 0", "%d, %d %s" % (rc, res["rc"], res["err"][-200:].decode("utf-8", "replace"))
        got = {k: v for k, v in after.items() if k.startswith(ARTIFACTS)}
        for n in sorted(set(files) | set(got)):
            if files.get(n) != got.get(n):
                return "a stored artifact depends on the run", "%s: %s" % (n, show(files.get(n))), show(got.get(n))
        if res["out"] != out:
            return "what the command prints depends on the run", show(out), show(res["out"])
        return None
    v = judge_text(w, c, plan, res, before, after)
    return v and ("the output depends on the run: " + v[0],) + v[1:]


def judge(w, prop, c, plan, res, before, after):
    if c["cmd"] == "compile":
        return judge_compile(w, prop, c, plan, res, before, after)
    if prop == "C08":
        return judge_again(w, c, plan, res, before, after)
    if c["cmd"] == "generate":
        return judge_generate(w, c, plan, res, before, after)
    if c["cmd"] == "build":
        return judge_build(w, c, plan, res, before, after)
    return judge_text(w, c, plan, res, before, after)


def run_scenario(w, s, stats=None):
    """Executes a history; returns None or a violation. Fills in the plans."""
    prop = s["property"]
    if prop == "C21":
        return run_groups(w, s, stats)
    prelude(w) if prop in ("C06", "C07", "C08") else None
    w.reset(s)
    for i, c in enumerate(s["cmds"]):
        for n, t in c.get("edit", {}).items():
            with open(os.path.join(w.root, n), "wb") as f:
                f.write(t.encode())
        before = w.snapshot()
        if c["cmd"] in ("manual", "completion", "version"):
            pages(w, c)
        elif c["cmd"] == "generate" and prop == "C08":
            artifacts(w, c)
        if "plan" not in c:
            plan = list(c["pace"])
            if prop != "C08":
                dry = w.run(c, plan)
                w.restore(before)
                plan += faults(prop, c, dry["ops"], dry["allocs"])
            c["plan"] = plan
        res = w.run(c, c["plan"])
        after = w.snapshot()
        if stats is not None:
            stats["commands"] += 1
            stats["ops"] += len(res["ops"])
            for f in res["fired"]:
                stats["faults"][f] = stats["faults"].get(f, 0) + 1
            for x in c["plan"]:
                k = x.split("=")[0]
                if k in ("size", "short", "norandom", "pad", "clock", "jump", "envs", "tty", "pid", "ppid"):
                    stats["pace"][k] = stats["pace"].get(k, 0) + 1
            stats["exits"][str(res["rc"])] = stats["exits"].get(str(res["rc"]), 0) + 1
            stats["hashes"].append(res["hash"])
            if hard(res) or prop == "C08" and len(c["plan"]) + len(c["env"]) > 1:
                stats["nontrivial"] += 1
        v = judge(w, prop, c, c["plan"], res, before, after)
        if v:
            return {"what": v[0], "expected": v[1], "got": v[2], "command": i, "argv": ["mitex"] + w.argv(c), "plan": ";".join(c["plan"]),
                    "exit": res["rc"], "fired": res["fired"][:20], "operations": ["%s %s %d" % o for o in res["ops"][:60]]}
    # recovery: once faults stop, every command of the history gets through
    if prop in ("C06", "C09", "C10", "C22") and not s.get("no_recovery"):
        for i, c in enumerate(s["cmds"]):
            before = w.snapshot()
            res = w.run(dict(c, env={}), ["seed=5"])
            v = judge(w, prop, c, ["seed=5"], res, before, w.snapshot())
            if stats is not None:
                stats["recoveries"] += 1
            if v:
                return {"what": "after the faults stopped: " + v[0], "expected": v[1], "got": v[2], "command": i, "argv": ["mitex"] + w.argv(c),
                        "plan": "seed=5", "exit": res["rc"], "fired": res["fired"][:20]}
    return None


def minimise(w, s, v, secs):
    t0 = time.time()
    what = v["what"]
    best, bv, trials = s, v, 0

    def attempt(c):
        nonlocal best, bv, trials
        if time.time() - t0 > secs:
            return False
        trials += 1
        try:
            x = run_scenario(w, json.loads(json.dumps(c)))
        except Harness:
            return False
        if x and x["what"] == what:
            best, bv = c, x
            return True
        return False

    again = True
    while again and time.time() - t0 < secs:
        again = False
        i = len(best["cmds"]) - 1
        while i >= 0 and len(best["cmds"]) > 1:
            c = json.loads(json.dumps(best))
            del c["cmds"][i]
            again |= attempt(c)
            i -= 1
        for i in range(len(best["cmds"])):
            j = len(best["cmds"][i].get("plan", [])) - 1
            while j >= 0:
                c = json.loads(json.dumps(best))
                del c["cmds"][i]["plan"][j]
                again |= attempt(c)
                j -= 1
            if best["cmds"][i].get("env"):
                c = json.loads(json.dumps(best))
                c["cmds"][i]["env"] = {}
                again |= attempt(c)
        for g in list(best.get("order", {})):
            # fewer turns given, then fewer switches: what is not given goes to the first that can go on
            size = max(len(best["order"][g].get("turns", [])) // 2, 1)
            while size >= 1 and time.time() - t0 < secs:
                at = 0
                while at < len(best["order"][g].get("turns", [])):
                    c = json.loads(json.dumps(best))
                    t = c["order"][g]["turns"]
                    c["order"][g]["turns"] = t[:at] + t[at + size:]
                    if attempt(c):
                        again = True
                    else:
                        at += size
                size //= 2
        for n in list(best["files"]):
            c = json.loads(json.dumps(best))
            del c["files"][n]
            if attempt(c):
                again = True
                continue
            t = best["files"][n]
            if not isinstance(t, str):
                continue
            size = len(t) // 2
            while size >= 1 and time.time() - t0 < secs:
                at = 0
                while at < len(best["files"][n]):
                    t = best["files"][n]
                    c = json.loads(json.dumps(best))
                    c["files"][n] = t[:at] + t[at + size:]
                    if attempt(c):
                        again = True
                    else:
                        at += size
                size //= 2
    return best, bv, trials


def new_stats():
    return {"commands": 0, "ops": 0, "faults": {}, "pace": {}, "exits": {}, "hashes": [], "nontrivial": 0, "recoveries": 0, "switches": 0}


def scratch():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix="simcli-", dir=base)


def run_seed(seed, i):
    return (seed * 1000003 + i) & ((1 << 48) - 1)


def fixed_addresses():
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


def worker(conn, prop, seed, runs, t_end, k, n):
    fixed_addresses()
    tmp = scratch()
    try:
        w = World(tmp, Oracle())
        i = k
        while i < runs and time.time() < t_end:
            s = scenario(prop, run_seed(seed, i))
            st = new_stats()
            v = run_scenario(w, s, st)
            if v:
                x = run_scenario(w, json.loads(json.dumps(s)))
                if not x or x["what"] != v["what"]:
                    conn.send(("error", i, "run %d did not repeat: %s / %s" % (i, v, x)))
                    break
                b, bv, trials = minimise(w, s, v, 60)
                conn.send(("violation", i, {"scenario": b, "violation": bv, "trials": trials}))
                break
            sample = None
            if i < 6 and st["nontrivial"]:
                sample = {"run": i, "files": {k2: (len(v2) if isinstance(v2, str) else v2) for k2, v2 in s["files"].items()},
                          "cmds": [{"argv": w.argv(c), "plan": ";".join(c["plan"]), "stub": c.get("stub")} for c in s["cmds"]],
                          "fired": st["faults"], "exits": st["exits"]}
            conn.send(("ok", i, {"stats": st, "sample": sample}))
            i += n
        w.oracle.p.stdin.close()
    except Exception as e:
        import traceback
        conn.send(("error", -1, traceback.format_exc()))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        conn.send(("done", -1, None))


def arg(k, d):
    return sys.argv[sys.argv.index(k) + 1] if k in sys.argv else d


RULES = {
    "C06": "a run is one history of compile commands; non-trivial when at least one hard fault (error, full disk, crash, failed allocation) was actually delivered",
    "C07": "a run is one history of compile commands; non-trivial when at least one hard fault was actually delivered",
    "C08": "a run is one history of commands under one draw of hash seeds, address padding, call pacing, file size reports, clocks, file times and environment; non-trivial when at least one of them differed from the baseline",
    "C09": "a run is one history of spec generate commands; non-trivial when at least one hard fault was actually delivered or the simulated typst misbehaved",
    "C21": "a run is one or two groups of commands that run at the same time, interleaved operation by operation; non-trivial when the scheduler switched between them at least twice",
    "C22": "a run is one history of build steps of the specification crate; non-trivial when at least one hard fault was actually delivered or the simulated typst misbehaved",
    "C10": "a run is one history of manual, completion and version commands; non-trivial when at least one hard fault was actually delivered",
}


def check(prop):
    seed, runs, secs, nw = int(arg("--seed", "1")), int(arg("--runs", "100")), float(arg("--secs", "60")), int(arg("--workers", "8"))
    t0 = time.time()
    procs = []
    for k in range(nw):
        a, b = Pipe(False)
        p = Process(target=worker, args=(b, prop, seed, runs, t0 + secs, k, nw))
        p.start()
        b.close()
        procs.append((p, a))
    tot, samples, errors, violations, done, nontrivial = new_stats(), [], [], [], 0, 0
    distinct = set()
    from multiprocessing.connection import wait
    conns = {a: p for p, a in procs}
    while conns:
        for a in wait(list(conns)):
            try:
                kind, i, x = a.recv()
            except EOFError:
                errors.append("a worker died")
                del conns[a]
                continue
            if kind == "done":
                del conns[a]
            elif kind == "error":
                errors.append(x)
            elif kind == "violation":
                violations.append((i, x))
            else:
                done += 1
                st = x["stats"]
                for k in ("commands", "ops", "recoveries", "switches"):
                    tot[k] += st[k]
                for k in ("faults", "pace", "exits"):
                    for f, c in st[k].items():
                        tot[k][f] = tot[k].get(f, 0) + c
                if st["nontrivial"]:
                    nontrivial += 1
                    distinct.add(hashlib.sha1("".join(st["hashes"]).encode()).hexdigest())
                if x["sample"]:
                    samples.append(x["sample"])
    for p, _ in procs:
        p.join()
    wall = time.time() - t0
    lines = []
    for i, x in sorted(violations, key=lambda v: v[0])[:1]:
        d = arg("--replay-dir", "/verif/replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d-%d.json" % (prop, seed, i))
        with open(path, "w") as f:
            json.dump({"simulator": "simcli", "property": prop, "seed": run_seed(seed, i), "run": i, "violation": x["violation"],
                       "scenario": x["scenario"], "minimisation_trials": x["trials"]}, f, indent=1)
        print("violation: " + json.dumps({k: x["violation"][k] for k in ("what", "expected", "got", "argv", "plan", "exit")}))
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
    for e in errors[:3]:
        print("simcli: " + str(e), file=sys.stderr)
    ev = {
        "evaluations": done, "distinct_nontrivial": len(distinct), "nontrivial_runs": nontrivial, "rule": RULES[prop] +
        "; distinct by the hash of the traces of all its commands (operation, path, size, outcome)",
        "samples": samples[:3], "runs_per_hour": int(done / max(wall, 0.01) * 3600), "seeds_per_hour": int(done / max(wall, 0.01) * 3600),
        "simulated_commands": tot["commands"], "recovery_commands": tot["recoveries"], "simulated_operations": tot["ops"], "context_switches": tot["switches"],
        "simulated_time": "the tool reads no clock; simulated time is counted in operations",
        "faults": tot["faults"], "perturbations": tot["pace"], "exit_statuses": tot["exits"],
        "real_components": ["mitex command line tool (shipped main.rs)", "mitex libraries", "clap", "std", "kernel file system in a scratch directory"],
        "stub_components": ["results of system calls, randomness and allocation (shim)", "typst program (stub)"],
        "harness_errors": len(errors),
    }
    with open(arg("--out", "/dev/stdout"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    if lines:
        return 1
    if errors:
        return 3
    print("ok: %d histories, %d distinct non-trivial, %d commands, %.1f s" % (done, len(distinct), tot["commands"], wall))
    return 0


def replay(path):
    fixed_addresses()
    with open(path) as f:
        x = json.load(f)
    tmp = scratch()
    try:
        w = World(tmp, Oracle())
        v = run_scenario(w, x["scenario"])
        w.oracle.p.stdin.close()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if v:
        print(json.dumps(v, indent=1))
        print("VIOLATION property=%s replay=%s" % (x["property"], path))
        return 1
    print("not reproduced")
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "check":
        sys.exit(check(sys.argv[2]))
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1] == "log":
        fixed_addresses()
        tmp = scratch()
        try:
            w = World(tmp, Oracle())
            for i in range(int(arg("--runs", "50"))):
                st = new_stats()
                v = run_scenario(w, scenario(sys.argv[2], run_seed(int(arg("--seed", "1")), i)), st)
                print(i, hashlib.sha1("".join(st["hashes"]).encode()).hexdigest(), st["faults"], st["exits"], v)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
