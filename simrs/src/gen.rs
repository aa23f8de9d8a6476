//! Workload generator: TeX documents and command specifications.
use crate::rng::Rng;
use serde_json::{json, Value};

/// What the generator knows about the commands of the default specification
#[derive(Clone, Default)]
pub struct Vocabulary {
    pub symbols: Vec<String>,
    pub cmds: Vec<(String, String)>, // name, pattern letters like "tt", "{,b}t"
    pub infix: Vec<String>,
    pub left1: Vec<String>,
    pub greedy: Vec<String>,
    pub math_envs: Vec<String>,
    pub matrix_envs: Vec<String>,
    pub other_envs: Vec<(String, String)>,
    pub items: Vec<(String, Value)>, // in the JSON form of a specification
}

pub const MACROS: &[&str] = &["maca", "macb", "macc", "macd", "mace", "macf"];
pub const ENVS: &[&str] = &["enva", "envb", "envc"];
const WORDS: &[&str] = &[
    "alpha", "lorem", "x", "ab", "Ipsum", "42", "3.14", "naïve", "日本語", "é", "ﬁ", "word", "q", "zz", "Ω",
];
const PUNCT: &[&str] = &[",", ".", ";", ":", "!", "?", "-", "--", "---", "``", "''", "'", "/", "=", "+", "<", ">", "|", "*", "@", "\""];

pub struct Gen<'v> {
    pub r: Rng,
    pub v: &'v Vocabulary,
    out: String,
    /// macros which may be used: (name, nargs)
    usable: Vec<(usize, usize)>,
    envs: Vec<(usize, usize)>,
    budget: i64,
    depth: usize,
    errors: bool,
    macros: bool,
    extra: Vec<String>, // additional command names to sprinkle
}

impl<'v> Gen<'v> {
    pub fn new(r: Rng, v: &'v Vocabulary) -> Self {
        Gen { r, v, out: String::new(), usable: vec![], envs: vec![], budget: 0, depth: 0, errors: false, macros: true, extra: vec![] }
    }

    pub fn doc(&mut self, math: bool, macros: bool, errors: bool, size: i64, extra: &[String]) -> String {
        self.out.clear();
        self.usable.clear();
        self.envs.clear();
        self.errors = errors;
        self.macros = macros;
        self.extra = extra.to_vec();
        self.budget = size;
        self.depth = 0;
        while self.budget > 0 {
            if math {
                self.math_item();
            } else {
                self.text_item();
            }
        }
        if self.errors && self.r.chance(1, 3) {
            let j = ["}", "{", "\\end{equation}", "\\begin{align}", "$", "\\left(", "\\right)", "\\fi", "\\else", "\\undefinedcmd", "\\)", "#", "%", "\\", "\\newcommand{\\maca}", "\\newcommand", "\\maca", "\\begin{enva}", "\\macb{", "\\iffalse", "\\iftypst"];
            let k = self.r.below(j.len());
            let at = self.boundary();
            self.out.insert_str(at, j[k]);
        }
        std::mem::take(&mut self.out)
    }

    fn boundary(&mut self) -> usize {
        let n = self.out.len();
        let mut at = self.r.below(n + 1);
        while !self.out.is_char_boundary(at) {
            at -= 1;
        }
        at
    }

    fn p(&mut self, s: &str) {
        self.out.push_str(s);
        self.budget -= 1;
    }
    fn ws(&mut self) {
        let k = self.r.below(20);
        self.p(match k {
            0 => "\n",
            1 => "  ",
            2 => "\t",
            3 => "\r\n",
            4 => " % comment $ } \\x\n",
            _ => " ",
        });
    }
    fn word(&mut self) {
        let w = *self.r.pick(WORDS);
        self.p(w);
    }

    fn text_item(&mut self) {
        self.depth += 1;
        let k = if self.depth > 5 { self.r.below(8) } else { self.r.below(34) };
        match k {
            0..=3 => self.word(),
            4..=5 => self.ws(),
            6 => {
                let w = *self.r.pick(PUNCT);
                self.p(w)
            }
            7 => self.p("\n\n"),
            8..=11 => {
                let (a, b) = *self.r.pick(&[("$", "$"), ("\\(", "\\)"), ("$$", "$$"), ("\\[", "\\]")]);
                self.p(a);
                self.math_seq(6);
                self.p(b);
            }
            12..=14 => {
                let c = *self.r.pick(&["\\section", "\\textbf", "\\emph", "\\textit", "\\label", "\\ref", "\\subsection", "\\underline", "\\texttt", "\\cite", "\\eqref", "\\caption", "\\section*", "\\footnote"]);
                self.p(c);
                if c == "\\label" || c == "\\ref" || c == "\\cite" || c == "\\eqref" {
                    let l = *self.r.pick(&["{a}", "{eq:x}", "{fig:one}", "{a_b}"]);
                    self.p(l);
                } else {
                    self.p("{");
                    self.text_seq(3);
                    self.p("}");
                }
            }
            15..=17 => {
                let e = *self.r.pick(&["itemize", "enumerate"]);
                self.p("\\begin{");
                self.p(e);
                self.p("}\n");
                for _ in 0..self.r.range(1, 3) {
                    self.p("\\item ");
                    self.text_seq(4);
                    self.p("\n");
                }
                self.p("\\end{");
                self.p(e);
                self.p("}\n");
            }
            18..=19 => self.math_env(),
            20 => {
                self.p("\\begin{figure}[ht]\n\\centering\n\\includegraphics[width=0.5\\textwidth]{img.png}\n\\caption{");
                self.text_seq(2);
                self.p("}\n\\label{fig:one}\n\\end{figure}\n");
            }
            21 => {
                self.p("\\begin{table}\n\\begin{tabular}{|c|l|}\n\\hline\n");
                for _ in 0..self.r.range(1, 3) {
                    self.text_seq(2);
                    self.p(" & ");
                    self.text_seq(2);
                    self.p(" \\\\\n");
                    if self.r.chance(1, 2) {
                        self.p("\\hline\n");
                    }
                }
                self.p("\\end{tabular}\n\\caption{cap}\n\\label{tab:one}\n\\end{table}\n");
            }
            22..=24 => self.define(),
            25..=27 => self.use_macro(false),
            28 => {
                let c = *self.r.pick(&["\\iffalse", "\\iftrue", "\\iftypst", "\\ifmmode"]);
                let c = if c == "\\ifmmode" && !self.errors { "\\iftrue" } else { c };
                self.conditional(c, c != "\\iftypst", false);
            }
            29 => {
                self.p("{");
                self.text_seq(3);
                self.p("}");
            }
            30 => {
                let c = *self.r.pick(&["\\\\", "~", "\\,", "\\%", "\\&", "\\#", "\\_", "\\{", "\\}", "\\$", "\\ ", "\\quad", "\\LaTeX", "\\color{red}", "\\textcolor{blue}{b}"]);
                self.p(c);
            }
            31 => self.env_use(),
            32 => {
                let b = self.r.chance(1, 2);
                self.p(if b { "[" } else { "(" });
                self.text_seq(2);
                self.p(if b { "]" } else { ")" });
            }
            _ => self.extra_cmd(),
        }
        self.depth -= 1;
    }
    /// One conditional, sometimes inside of others
    fn conditional(&mut self, c: &str, other: bool, math: bool) {
        let around = if self.r.chance(1, 4) { self.r.range(1, 4) } else { 0 };
        let other = other && self.r.chance(1, 2);
        let seq = |g: &mut Self| if math { g.math_seq(2) } else { g.text_seq(2) };
        for _ in 0..around {
            self.p("\\iftrue ");
            if self.r.chance(1, 3) {
                seq(self);
            }
        }
        self.p(c);
        self.p(" ");
        seq(self);
        if other {
            self.p("\\else ");
            seq(self);
        }
        self.p("\\fi ");
        for _ in 0..around {
            if self.r.chance(1, 3) {
                seq(self);
            }
            if self.r.chance(1, 3) {
                self.p("\\else ");
                seq(self);
            }
            self.p("\\fi ");
        }
    }

    fn text_seq(&mut self, n: usize) {
        for _ in 0..self.r.range(1, n) {
            self.text_item();
        }
    }

    fn extra_cmd(&mut self) {
        if self.extra.is_empty() {
            return self.word();
        }
        let c = self.r.pick(&self.extra).clone();
        self.p(&c);
        for _ in 0..self.r.below(3) {
            self.p("{");
            self.word();
            self.p("}");
        }
        self.p(" ");
    }

    fn math_env(&mut self) {
        let (e, pre) = match self.r.below(8) {
            0 => ("equation".to_string(), ""),
            1 => ("align".into(), ""),
            2 => ("aligned".into(), ""),
            3 => ("cases".into(), ""),
            4 => ("array".into(), "{c|c}"),
            5 if !self.v.matrix_envs.is_empty() => (self.r.pick(&self.v.matrix_envs).clone(), ""),
            6 if !self.v.math_envs.is_empty() => (self.r.pick(&self.v.math_envs).clone(), ""),
            _ => ("pmatrix".into(), ""),
        };
        self.p("\\begin{");
        self.p(&e);
        self.p("}");
        self.p(pre);
        let multi = self.r.chance(3, 4);
        for _ in 0..self.r.range(1, 2) {
            self.math_seq(4);
            if multi {
                self.p(" & ");
                self.math_seq(3);
                self.p(" \\\\ ");
            }
        }
        if self.r.chance(1, 4) {
            self.p("\\label{eq:x}");
        }
        self.p("\\end{");
        self.p(&e);
        self.p("}");
    }

    fn arg(&mut self) {
        if self.r.chance(1, 4) {
            let w = *self.r.pick(&["x", "2", "\\alpha", "ab"]);
            self.p(" ");
            self.p(w);
            self.p(" ");
        } else {
            self.p("{");
            self.math_seq(3);
            self.p("}");
        }
    }

    fn math_item(&mut self) {
        self.depth += 1;
        let k = if self.depth > 6 { self.r.below(7) } else { self.r.below(36) };
        match k {
            0..=2 => {
                let w = *self.r.pick(&["x", "y", "12", "ab", "f(x)", "α", "k"]);
                self.p(w)
            }
            3 => self.ws(),
            4 => {
                let w = *self.r.pick(&["+", "-", "=", "<", "'", "''", "/", "!", ",", "|", "*", "\"", "~", ":", ";"]);
                self.p(w)
            }
            5..=6 => {
                if self.v.symbols.is_empty() {
                    self.p("\\alpha ");
                } else {
                    let s = self.r.pick(&self.v.symbols).clone();
                    self.p("\\");
                    self.p(&s);
                    self.p(" ");
                }
            }
            7..=10 => {
                self.p("x");
                let t = self.r.chance(1, 2);
                self.p(if t { "^" } else { "_" });
                self.arg();
                if self.r.chance(1, 3) {
                    self.p(if t { "_" } else { "^" });
                    self.arg();
                }
            }
            11..=16 => {
                if self.v.cmds.is_empty() {
                    self.p("\\frac");
                    self.arg();
                    self.arg();
                } else {
                    let (c, pat) = self.r.pick(&self.v.cmds).clone();
                    self.p("\\");
                    self.p(&c);
                    for ch in pat.chars() {
                        match ch {
                            't' => self.arg(),
                            'b' if self.r.chance(1, 2) => {
                                self.p("[");
                                self.word();
                                self.p("]");
                            }
                            'p' if self.r.chance(1, 2) => self.p("(1)"),
                            _ => {}
                        }
                    }
                    self.p(" ");
                }
            }
            17 => {
                self.p("{");
                self.math_seq(2);
                let i = self.v.infix.first().cloned().unwrap_or_else(|| "over".into());
                let i = if self.v.infix.is_empty() { i } else { self.r.pick(&self.v.infix).clone() };
                self.p(" \\");
                self.p(&i);
                self.p(" ");
                self.math_seq(2);
                self.p("}");
            }
            18 => {
                self.p("\\sum");
                if !self.v.left1.is_empty() {
                    let c = self.r.pick(&self.v.left1).clone();
                    self.p("\\");
                    self.p(&c);
                }
                self.p("_{i}^n ");
            }
            19 => {
                if !self.v.greedy.is_empty() {
                    let c = self.r.pick(&self.v.greedy).clone();
                    self.p("\\");
                    self.p(&c);
                    self.p(" ");
                }
                self.math_item();
            }
            20..=21 => self.math_env(),
            22..=23 => {
                let (a, b) = *self.r.pick(&[("(", ")"), ("[", "]"), ("\\{", "\\}"), ("|", "|"), (".", ")"), ("\\langle", "\\rangle")]);
                self.p("\\left");
                self.p(a);
                self.p(" ");
                self.math_seq(3);
                self.p(" \\right");
                self.p(b);
                self.p(" ");
            }
            24 => {
                self.p("{");
                self.math_seq(3);
                self.p("}");
            }
            25 => {
                let w = *self.r.pick(&["\\text{a b $x$ c}", "\\mathrm{d}x", "\\operatorname{op}", "\\sqrt[3]{x}", "\\frac12", "\\textcolor{red}{x}", "\\color{blue}x", "\\mathbb R", "\\hat x", "\\bigl(", "\\big|", "\\substack{a\\\\b}", "\\tag{1}", "\\label{a}", "\\not=", "\\mbox{hi}", "\\limits"]);
                let w = if w == "\\mbox{hi}" && !self.errors { "\\text{hi}" } else { w };
                self.p(w);
                if w.ends_with(|c: char| c.is_alphabetic()) {
                    self.p(" ");
                }
            }
            26..=28 => self.define(),
            29..=32 => self.use_macro(true),
            33 => {
                let c = *self.r.pick(&["\\iffalse", "\\iftrue"]);
                self.conditional(c, true, true);
            }
            34 => self.env_use(),
            _ => self.extra_cmd(),
        }
        self.depth -= 1;
    }
    fn math_seq(&mut self, n: usize) {
        for _ in 0..self.r.range(1, n) {
            self.math_item();
        }
    }

    fn body(&mut self, limit: usize, nargs: usize) {
        // the body of macro `limit` refers only to macros with a smaller index
        for _ in 0..self.r.range(1, 3) {
            match self.r.below(6) {
                0 | 1 if nargs > 0 => {
                    let n = self.r.range(1, nargs);
                    self.p(&format!("#{n}"));
                }
                2 if limit > 0 => {
                    let below: Vec<_> = self.usable.iter().filter(|m| m.0 < limit).cloned().collect();
                    if below.is_empty() {
                        self.p("z");
                    } else {
                        let m = *self.r.pick(&below);
                        self.p(&format!("\\{}", MACROS[m.0]));
                        for _ in 0..m.1 {
                            self.p("{q}");
                        }
                        self.p(" ");
                    }
                }
                3 => self.p("x^2 "),
                4 => self.p("\\alpha "),
                _ => self.p("w"),
            }
        }
    }

    fn define(&mut self) {
        if !self.macros {
            return self.word();
        }
        if self.r.chance(1, 4) {
            // an environment
            let k = self.r.below(ENVS.len());
            let n = self.r.below(3);
            let known = self.envs.iter().any(|e| e.0 == k);
            let c = *self.r.pick(&["newenvironment", "newenvironment", "renewenvironment"]);
            let c = match (self.errors, known) {
                (false, true) => "renewenvironment",
                (false, false) => "newenvironment",
                _ => c,
            };
            self.p(&format!("\\{c}{{{}}}", ENVS[k]));
            if n > 0 {
                self.p(&format!("[{n}]"));
            }
            self.p("{");
            self.body(0, n);
            self.p("}{");
            self.body(0, 0);
            self.p("}");
            self.envs.retain(|e| e.0 != k);
            self.envs.push((k, n));
            return;
        }
        let k = self.r.below(MACROS.len());
        let n = self.r.below(4);
        let known = self.usable.iter().any(|m| m.0 == k);
        let c = match self.r.below(6) {
            0 => "providecommand",
            1 => "DeclareRobustCommand",
            2 => "renewcommand",
            _ if known => "renewcommand",
            _ => "newcommand",
        };
        let c = match c {
            _ if self.errors => c,
            "renewcommand" if !known => "newcommand",
            "DeclareRobustCommand" if known => "renewcommand",
            _ => c,
        };
        self.p(&format!("\\{c}{{\\{}}}", MACROS[k]));
        if n > 0 {
            self.p(&format!("[{n}]"));
            if self.r.chance(1, 5) {
                self.p("[dflt]");
            }
        }
        self.p("{");
        self.body(k, n);
        self.p("}");
        if self.r.chance(1, 2) {
            self.p("\n");
        }
        if !(known && c == "providecommand") {
            self.usable.retain(|m| m.0 != k);
            self.usable.push((k, n));
        }
    }

    fn use_macro(&mut self, _math: bool) {
        if !self.macros {
            return self.word();
        }
        if self.usable.is_empty() || self.r.chance(1, 12) {
            if self.errors {
                let k = self.r.below(MACROS.len());
                self.p(&format!("\\{} ", MACROS[k]));
            } else {
                self.define();
            }
            return;
        }
        let m = *self.r.pick(&self.usable);
        self.p(&format!("\\{}", MACROS[m.0]));
        for _ in 0..m.1 {
            let k = self.r.below(3);
            self.p(["{a}", "{b c}", "{\\beta}"][k]);
        }
        self.p(" ");
    }

    fn env_use(&mut self) {
        if self.envs.is_empty() || !self.macros {
            return self.define();
        }
        let (k, n) = *self.r.pick(&self.envs);
        self.p(&format!("\\begin{{{}}}", ENVS[k]));
        for _ in 0..n {
            self.p("{u}");
        }
        self.p(" body ");
        self.p(&format!("\\end{{{}}}", ENVS[k]));
    }
}

/// A small document which uses macros and commands without defining them
pub fn bare_uses(r: &mut Rng, extra: &[String]) -> String {
    let mut s = String::new();
    if r.chance(1, 3) {
        // nothing but one command
        return match r.below(3) {
            0 if !extra.is_empty() => r.pick(extra).clone(),
            1 if !extra.is_empty() => format!("{}{}", r.pick(extra), *r.pick(&["{a}", "[a]{b}", "[a]", "(a)", "{a}{b}", " x"])),
            _ => format!("\\{}", *r.pick(&["sqrt", "frac", "alpha", "undefinedcmd", "simcmda", "simcmdz", "maca", "textbf"])),
        };
    }
    for _ in 0..r.range(1, 3) {
        match r.below(4) {
            0 => s.push_str(&format!("\\{} ", r.pick(MACROS))),
            1 => s.push_str(&format!("\\{}{{a}}{{b}} ", r.pick(MACROS))),
            2 => {
                let e = r.pick(ENVS);
                s.push_str(&format!("\\begin{{{e}}} body \\end{{{e}}}"));
            }
            _ if !extra.is_empty() => s.push_str(&format!("{}{{a}} ", r.pick(extra))),
            _ => s.push_str("x "),
        }
    }
    s
}

fn glob_pattern(r: &mut Rng) -> &'static str {
    r.pick(&["{,b}t", "{,b}{,b}t", "tt", "t*", "*", "{,p}{,b}{,t}t", "", "b{t,tt}"])
}

fn arg_pattern(r: &mut Rng) -> serde_json::Value {
    match r.below(6) {
        0 => json!({"kind":"none"}),
        1 => json!({"kind":"greedy"}),
        2 => json!({"kind":"glob","pattern":glob_pattern(r)}),
        3 => json!({"kind":"range-len","min":r.below(3),"max":*r.pick(&[0, 1, 2, 4, 255])}),
        _ => json!({"kind":"fixed-len","len":*r.pick(&[0, 1, 2, 3, 4, 9, 255])}),
    }
}

/// A specification in its JSON form: some default commands, some of them with
/// another alias or shape, and some new ones. Returns the new command names.
pub fn spec_json(r: &mut Rng, v: &Vocabulary, tag: usize) -> (String, Vec<String>) {
    let mut m = serde_json::Map::new();
    let keep = r.range(5, 40);
    for _ in 0..keep {
        let (n, it) = r.pick(&v.items).clone();
        m.insert(n, it);
    }
    for n in ["frac", "sqrt", "sum", "alpha", "equation", "pmatrix", "itemize", "text", "label", "item"] {
        if r.chance(2, 3) {
            if let Some(i) = v.items.iter().find(|i| i.0 == n) {
                m.insert(i.0.clone(), i.1.clone());
            }
        }
    }
    let mut names = vec![];
    for k in 0..r.range(1, 5) {
        let n = format!("simcmd{}", (b'a' + k as u8) as char);
        let alias = format!("simhandler{tag}x{k}");
        if r.chance(1, 4) {
            // an environment
            let feature = *r.pick(&["none", "is-math", "is-matrix", "is-cases", "is-figure", "is-table", "is-itemize", "is-enumerate"]);
            let n = format!("simenv{}", (b'a' + k as u8) as char);
            let it = match r.below(4) {
                0 => json!({"kind": *r.pick(&["matrix-env", "normal-env"])}),
                1 => json!({"kind":"glob-env","pattern":glob_pattern(r),"alias":alias,"ctx_feature":{"kind":feature}}),
                _ => json!({"kind":"env","args":arg_pattern(r),"ctx_feature":{"kind":feature},"alias":alias}),
            };
            m.insert(n.clone(), it);
            let args = *r.pick(&["", "{a}", "[b]", "[b]{a}", "{a}{c}"]);
            let body = *r.pick(&["x", "a & b \\\\ c", "\\item a \\item b", "", "\\caption{a}"]);
            names.push(format!("\\begin{{{n}}}{args}{body}\\end{{{n}}}"));
            continue;
        }
        let it = match r.below(12) {
            9 => json!({"kind":"cmd","args":{"kind":"right","pattern":arg_pattern(r)},"alias":alias}),
            10 => json!({"kind":"cmd","args":{"kind": *r.pick(&["left1", "infix-greedy"])},"alias":alias}),
            11 => json!({"kind": *r.pick(&["cmd0", "left1-cmd"])}),
            0 => json!({"kind":"sym"}),
            1 => json!({"kind":"cmd1"}),
            2 => json!({"kind":"cmd2"}),
            3 => json!({"kind":"alias-sym","alias":alias}),
            4 => json!({"kind":"glob-cmd","pattern":"{,b}t","alias":alias}),
            5 => json!({"kind":"glob-cmd","pattern":*r.pick(&["tt", "bt", "pt", "t*"]),"alias":alias}),
            6 => json!({"kind":"greedy-cmd","alias":alias}),
            7 => json!({"kind":"infix-cmd","alias":alias}),
            _ => json!({"kind":"cmd","args":{"kind":"right","pattern":{"kind":"range-len","min":1,"max":2}},"alias":alias}),
        };
        m.insert(n.clone(), it);
        names.push(format!("\\{n}"));
    }
    // override well-known commands under another handler
    for n in ["frac", "alpha", "sqrt", "textbf", "section", "beta"] {
        if r.chance(1, 3) {
            m.insert(n.into(), json!({"kind":"glob-cmd","pattern":"{,b}t","alias":format!("over{tag}{n}")}));
        }
    }
    (serde_json::to_string(&json!({ "commands": m })).unwrap(), names)
}

/// Part of a macro body or of a document that uses macros
#[derive(Clone)]
enum Piece {
    Text(String),
    Arg(usize),
    Use(usize, Vec<Vec<Piece>>),
    Env(usize, Vec<Vec<Piece>>, Vec<Piece>),
}

struct Def {
    nargs: usize,
    body: Vec<Piece>,
    end: Vec<Piece>,
}

fn source(ps: &[Piece], out: &mut String) {
    let args = |v: &[Vec<Piece>], out: &mut String| {
        for a in v {
            out.push('{');
            source(a, out);
            out.push('}');
        }
    };
    for p in ps {
        match p {
            Piece::Text(t) => out.push_str(t),
            Piece::Arg(n) => out.push_str(&format!("#{n} ")),
            Piece::Use(m, a) => {
                out.push_str(&format!("\\{}", MACROS[*m]));
                args(a, out);
                out.push(' ');
            }
            Piece::Env(e, a, b) => {
                out.push_str(&format!("\\begin{{{}}}", ENVS[*e]));
                args(a, out);
                out.push(' ');
                source(b, out);
                out.push_str(&format!("\\end{{{}}} ", ENVS[*e]));
            }
        }
    }
}

type Defs = std::collections::BTreeMap<(bool, usize), Def>;

/// What is left when every macro is replaced by what it stands for
fn expand(ps: &[Piece], args: &[String], defs: &Defs, out: &mut String) {
    let strings = |v: &[Vec<Piece>]| -> Vec<String> {
        v.iter()
            .map(|a| {
                let mut s = String::new();
                expand(a, args, defs, &mut s);
                s
            })
            .collect()
    };
    for p in ps {
        match p {
            Piece::Text(t) => out.push_str(t),
            Piece::Arg(n) => {
                out.push_str(&args[*n - 1]);
                out.push(' ');
            }
            Piece::Use(m, a) => {
                expand(&defs[&(false, *m)].body, &strings(a), defs, out);
                out.push(' ');
            }
            Piece::Env(e, a, b) => {
                let d = &defs[&(true, *e)];
                expand(&d.body, &strings(a), defs, out);
                out.push(' ');
                expand(b, args, defs, out);
                out.push(' ');
                expand(&d.end, &strings(a), defs, out);
                out.push(' ');
            }
        }
    }
}

fn pieces(r: &mut Rng, n: usize, nargs: usize, defs: &Defs, below: usize, depth: usize, v: &mut Vec<Piece>) {
    for _ in 0..n {
        let ms: Vec<usize> = defs.keys().filter(|k| !k.0 && k.1 < below).map(|k| k.1).collect();
        let es: Vec<usize> = if below < MACROS.len() { vec![] } else { defs.keys().filter(|k| k.0).map(|k| k.1).collect() };
        let args = |r: &mut Rng, k: usize| -> Vec<Vec<Piece>> {
            (0..k)
                .map(|_| {
                    let mut a = vec![];
                    let n = r.range(1, 3);
                    pieces(r, n, nargs, defs, below, depth + 1, &mut a);
                    a
                })
                .collect()
        };
        match r.below(10) {
            0..=2 if nargs > 0 => v.push(Piece::Arg(r.range(1, nargs))),
            3..=5 if !ms.is_empty() && depth < 3 => {
                let m = *r.pick(&ms);
                let a = args(r, defs[&(false, m)].nargs);
                v.push(Piece::Use(m, a));
            }
            6 if !es.is_empty() && depth < 2 => {
                let e = *r.pick(&es);
                let a = args(r, defs[&(true, e)].nargs);
                let mut b = vec![];
                let n = r.range(1, 4);
                pieces(r, n, nargs, defs, below, depth + 1, &mut b);
                v.push(Piece::Env(e, a, b));
            }
            _ => v.push(Piece::Text((*r.pick(&["x ", "lorem ipsum ", "\\alpha ", "{ a b } ", "+ ", "y_1 ", "naïve ", "^ 2 ", "\\frac{a}{b} ", "& ", "(c) ", "\n", "z, w "])).to_string())),
        }
    }
}

/// A document full of macros, and the same document written without them
pub fn expansion_pair(r: &mut Rng, size: usize) -> (String, String) {
    let mut defs = Defs::new();
    let (mut a, mut b) = (String::new(), String::new());
    for _ in 0..r.range(1, 6) {
        for _ in 0..r.below(3) {
            let env = r.chance(1, 4);
            let k = r.below(if env { ENVS.len() } else { MACROS.len() });
            let known = defs.contains_key(&(env, k));
            let nargs = r.below(4);
            let below = if env { 0 } else { k };
            let (mut body, mut end) = (vec![], vec![]);
            let n = r.range(1, 5);
            pieces(r, n, nargs, &defs, below, 0, &mut body);
            if env {
                let n = r.range(1, 3);
                pieces(r, n, nargs, &defs, below, 0, &mut end);
            }
            let mut c = match (env, known) {
                (false, false) => *r.pick(&["newcommand", "providecommand", "DeclareRobustCommand"]),
                (false, true) => *r.pick(&["renewcommand", "renewcommand", "providecommand"]),
                (true, false) => "newenvironment",
                (true, true) => "renewenvironment",
            };
            // what a kept macro uses must keep its shape
            if known && defs[&(env, k)].nargs != nargs {
                if env {
                    continue;
                }
                c = "providecommand";
            }
            a.push_str(&format!("\\{c}{{{}}}", if env { ENVS[k].to_string() } else { format!("\\{}", MACROS[k]) }));
            if nargs > 0 {
                a.push_str(&format!("[{nargs}]"));
            }
            a.push('{');
            source(&body, &mut a);
            a.push('}');
            if env {
                a.push('{');
                source(&end, &mut a);
                a.push('}');
            }
            a.push_str(r.pick(&["", "\n", " "]));
            if !(known && c == "providecommand") {
                defs.insert((env, k), Def { nargs, body, end });
            }
        }
        let n = r.range(1, size);
        let mut doc = vec![];
        pieces(r, n, 0, &defs, MACROS.len(), 0, &mut doc);
        source(&doc, &mut a);
        expand(&doc, &[], &defs, &mut b);
        if b.len() > 20_000 {
            break;
        }
    }
    (a, b)
}
