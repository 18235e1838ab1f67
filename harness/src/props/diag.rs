//! C19: where a message says the mistake is.
use crate::engine::*;
use crate::tool::*;
use std::path::{Component, Path, PathBuf};

/// Clusters of several code points that a reader sees as one character.
const CLUSTERS: &[&str] = &["e\u{301}", "👨\u{200d}👩\u{200d}👧", "🇯🇵", "n\u{303}", "❤\u{fe0f}", "각", "न\u{93f}", "ก\u{e33}", "क\u{903}"];

/// Split into what a reader sees as characters. Only the clusters above occur.
fn graphemes(s: &str) -> Vec<&str> {
    let mut v = vec![];
    let mut rest = s;
    while !rest.is_empty() {
        let n = match CLUSTERS.iter().find(|c| rest.starts_with(**c)) {
            Some(c) => c.len(),
            None => rest.chars().next().unwrap().len_utf8(),
        };
        v.push(&rest[..n]);
        rest = &rest[n..];
    }
    v
}

#[derive(Clone, Debug)]
struct L {
    text: String,
    /// (id, first column, column after the last)
    mark: Option<(usize, usize, usize)>,
}

fn plain(s: impl Into<String>) -> L {
    L { text: s.into(), mark: None }
}

/// `«` and `»` stand around the offending text.
fn marked(s: &str, id: usize) -> L {
    let a = s.find('«').expect("mark");
    let b = s.find('»').expect("mark");
    let head = &s[..a];
    let mid = &s[a + '«'.len_utf8()..b];
    let tail = &s[b + '»'.len_utf8()..];
    let start = graphemes(head).len();
    L { text: format!("{}{}{}", head, mid, tail), mark: Some((id, start, start + graphemes(mid).len())) }
}

#[derive(Debug)]
struct F {
    name: String,
    /// each block stays together
    blocks: Vec<Vec<L>>,
    eol: u64,
    last_newline: bool,
}

impl F {
    fn lines(&self) -> Vec<&L> {
        self.blocks.iter().flatten().collect()
    }
    fn bytes(&self) -> Vec<u8> {
        let ls = self.lines();
        let mut s = String::new();
        for (i, l) in ls.iter().enumerate() {
            s.push_str(&l.text);
            if i + 1 < ls.len() || self.last_newline {
                s.push_str(match self.eol {
                    0 | 1 => "\n",
                    2 => "\r\n",
                    _ => {
                        if i % 3 == 1 {
                            "\r\n"
                        } else {
                            "\n"
                        }
                    }
                });
            }
        }
        s.into_bytes()
    }
}

#[derive(Clone, Debug)]
struct Exp {
    id: usize,
    /// the columns are exactly those of the marked text, not just within it
    exact: bool,
}

fn e(id: usize, exact: bool) -> Exp {
    Exp { id, exact }
}

#[derive(Debug)]
struct Want {
    /// The places of the message; of each the text itself and the calls outwards.
    groups: Vec<Vec<Exp>>,
    any_order: bool,
    chain: bool,
    says: Vec<String>,
    what: &'static str,
}

fn uni(src: &mut Src) -> String {
    let n = src.usize(6);
    (0..n)
        .map(|_| match src.below(3) {
            0 => *src.pick(&["a", "x y", ";", "*", "1", "'"]),
            1 => *src.pick(&["é", "日", "ß", "\u{3000}", "\u{a0}", "Ω"]),
            _ => *src.pick(CLUSTERS),
        })
        .collect()
}

fn comment(src: &mut Src) -> String {
    match src.below(3) {
        0 => String::new(),
        1 => format!(" ; {} \"", uni(src)),
        _ => src.pick(&["  ", "\t", ";", "\t ; x", " ;;"]).to_string(),
    }
}

fn indent(src: &mut Src) -> String {
    src.pick(&[" ", "  ", "\t", " \t ", "        ", "\t\t", "\u{3000}"]).to_string()
}

/// A block of valid lines.
fn filler(src: &mut Src, n: usize) -> Vec<L> {
    let i = indent(src);
    let c = comment(src);
    match src.below(14) {
        0 => vec![plain("")],
        1 => vec![plain(format!("; {}", uni(src)))],
        2 => vec![plain(format!("* {} \"", uni(src)))],
        3 => vec![plain(format!("{}nop{}", i, c))],
        4 => vec![plain(format!("{}mov #{}, ${:x}{}", i, src.below(256), src.below(512), c))],
        5 => vec![plain(format!("filler{}:{}", n, c))],
        6 => vec![plain(format!("Filler{}: add @R{}{}", n, src.below(4), c))],
        7 => vec![plain(format!("{}.byte \"{}\", {}{}", i, uni(src), src.below(256), c))],
        8 => vec![plain(format!("fill{} = {}{}", n, src.below(100), c))],
        9 => {
            // a string may go over several lines
            vec![plain(format!("{}.byte \"{}", i, uni(src))), plain(format!("{} ;\"{}", uni(src), c))]
        }
        10 => vec![
            plain(format!("%macro fmac{} %x, %y{}", n, c)),
            plain(format!("{}mov #%x, %y", i)),
            plain(""),
            plain(format!("l%:{}brf l%{}", i, c)),
            plain(format!("%end{}", c)),
            plain(format!("{}fmac{} 1, 2", i, n)),
        ],
        11 => (0..src.usize(12)).map(|_| plain("")).collect(),
        12 => vec![plain(format!("{}.word {}{}", i, src.below(65536), c))],
        _ => vec![plain(format!("{}.text 140 \"{}\\\"\"{}", i, uni(src), c))],
    }
}

fn body_filler(src: &mut Src) -> L {
    let i = indent(src);
    let c = comment(src);
    plain(match src.below(4) {
        0 => String::new(),
        1 => format!("{}nop{}", i, c),
        2 => format!("{}add #{}{}", i, src.below(256), c),
        _ => format!("{};{}", i, uni(src)),
    })
}

struct Tree {
    files: Vec<F>,
}

/// main and files it includes, directly or not, each once.
fn tree(src: &mut Src) -> Tree {
    let k = src.usize(4);
    let mut files = vec![];
    let dirs = ["", "", "inc/", "src/", "日本/", "a b/c/"];
    for i in 0..=k {
        let d = *src.pick(&dirs);
        let name = if i == 0 {
            format!("{}{}", d, src.pick(&["main.s", "mäin.s", "main"]))
        } else {
            format!("{}f{}{}", d, i, src.pick(&[".i", ".s", "日.inc"]))
        };
        let n = src.usize(9);
        let blocks = (0..n).map(|j| filler(src, 100 * i + j)).collect();
        files.push(F { name, blocks, eol: src.below(4), last_newline: !src.chance(1, 4) });
    }
    for i in 1..=k {
        let by = src.usize(i);
        let up = files[by].name.matches('/').count();
        let p = format!("{}{}", "../".repeat(up), files[i].name);
        let l = plain(format!("{}.include {}\"{}\"{}", indent(src), src.pick(&["", "asm "]), p, comment(src)));
        put(src, &mut files[by], vec![l]);
    }
    Tree { files }
}

fn put(src: &mut Src, f: &mut F, b: Vec<L>) {
    let at = f.blocks.len() - src.usize(f.blocks.len() + 1);
    f.blocks.insert(at, b);
}

fn put_any(src: &mut Src, t: &mut Tree, b: Vec<L>) -> usize {
    let n = t.files.len();
    let f = n - 1 - src.usize(n);
    put(src, &mut t.files[f], b);
    f
}

/// Mistakes in an instruction: may stand at the top level, after a label, or in a macro.
/// (text, exact columns, what the message mentions)
fn instr_mistake(src: &mut Src, body: bool) -> (String, bool, Vec<String>, &'static str) {
    let big = format!("{}", 256 + src.below(100_000));
    let name = format!("nowhere{}", src.below(100));
    let (t, x, s, w): (String, bool, Vec<String>, &'static str) = match src.below(if body { 15 } else { 16 }) {
        0 => (
            match src.below(6) {
                0 => format!("ld «{}»", name),
                1 => format!("mov #«{}», $10", name),
                2 => format!("mov #5, «{}»", name),
                3 => format!("bp $100, 3, «{}»", name),
                4 => format!("be @R1, #3, «{}»", name),
                _ => format!("callf «{}»", name),
            },
            true,
            vec![name.clone()],
            "unknown-name",
        ),
        1 => (
            match src.below(4) {
                0 => format!("ld 1 + «{}» * 2", name),
                1 => format!("add #-(3 + «{}»)", name),
                2 => format!("jmpf >  «{}»", name),
                _ => format!("add #$10 &  «{}» | 5", name),
            },
            true,
            vec![name.clone()],
            "unknown-name-in-expression",
        ),
        2 => (
            match src.below(3) {
                0 => format!("mov #«{}», $10", big),
                1 => format!("be $1f, «$F000»"),
                _ => format!("add #«{}»", big),
            },
            true,
            vec![],
            "immediate",
        ),
        3 => (format!("{} «{}»", src.pick(&["ld", "st", "push", "inc", "xch"]), 512 + src.below(9999)), true, vec![], "d9"),
        4 => (format!("mov #5, «$200 + {}»", src.below(100)), true, vec![], "d9-expression"),
        5 => (format!("{} $100, «{}»", src.pick(&["set1", "clr1", "not1"]), 8 + src.below(9)), true, vec![], "bit"),
        6 => (format!("{} «$F0{:02X}»", src.pick(&["br", "bz", "bnz"]), src.below(256)), true, vec![], "branch"),
        7 => (format!("{} «${}00»", src.pick(&["jmp", "call"]), 40 + src.below(50)), true, vec![], "far"),
        8 => (format!("{} «{}»", src.pick(&["callf", "jmpf"]), 65536 + src.below(5000)), true, vec![], "a16"),
        9 => (format!("ld «{} / 0»", src.below(500)), true, vec![], "division"),
        10 => (format!("add #1 + «{}/(3-3)»", src.below(500)), false, vec![], "division-nested"),
        11 => (format!("ld «2147483647 + {}»", 1 + src.below(500)), true, vec![], "overflow"),
        12 => {
            let t = src.pick(&["nop 3", "mov 5, 6", "mov #5", "ld #5", "bp $100, 1", "push @R1", "ldc 1, 2", "add 1, 2", "add", "set1"]).to_string();
            let n = t.split(' ').next().unwrap().to_string();
            (format!("«{}»", t), true, vec![n], "arguments")
        }
        13 => (
            format!("«{}{}»", name, src.pick(&["", " 1", " #5, @R0", " 1, (2+3)*4"])),
            true,
            if body { vec![] } else { vec![name.clone()] },
            "unknown-macro",
        ),
        14 => (format!("{} «.{}»", src.pick(&["ld", "callf", "jmpf"]), name), true, vec![format!(".{}", name)], "unknown-local"),
        _ => (format!("ld «{}%»", name), true, vec![], "macro-label"),
    };
    (t, x, s, w)
}

fn syntax_mistake(src: &mut Src, body: bool) -> (String, bool, Vec<String>, &'static str) {
    let u = uni(src);
    let n = if body { 8 } else { 22 };
    let (t, x, w): (String, bool, &'static str) = match src.below(n) {
        0 => (format!("ld «{}»", src.pick(&["`", "!", "?", "[", "é", "日", "👨\u{200d}👩\u{200d}👧", "{", "\\", "@R4", "99999999999"])), false, "character"),
        1 => (format!("ld ($3«»"), false, "end-of-line"),
        2 => (format!("mov #5,«»"), false, "end-of-line"),
        3 => (format!("mov #5, «,» $10"), false, "comma"),
        4 => (format!("ld $3«{}»", src.pick(&[")", " 4", " x", " #5", " @R0", " \"a\"", ":"])), false, "left-over"),
        5 => (format!("add «{}»", src.pick(&["\"a\"", "*", "/", ")", "="])), false, "operand"),
        6 => (format!("ld 3 + «{}»", src.pick(&["*", "/", ")", "#5", ","])), false, "operand"),
        7 => (format!("«{}»", src.pick(&[".frob 3", ".frob \"x\"", ".fröb 3", "= 3", "# 3", "5", "@R1"])), false, "statement"),
        8 => (format!(".byte \"{}\" «2»", u), true, "comma"),
        9 => (format!(".byte \"{}\", «,» 2", u), false, "operand"),
        10 => (format!(".include «foo» \"{}\"", "x"), true, "include-type"),
        11 => (format!(".include sprite \"{}.png\" {}=«\"z\"»", "x", src.pick(&["type", "header"])), true, "sprite"),
        12 => (format!(".include sprite \"{}.png\" header=\"no\", type=«7»", "x"), true, "sprite"),
        13 => (format!("«.byte»"), true, "nothing"),
        14 => (format!("«.word»"), true, "nothing"),
        15 => (format!(".org «{}»", src.pick(&["foo", "\"x\"", "-5", "(3)", "#3"])), false, "org"),
        16 => (format!(".text 30«,» \"{}\"", u), true, "text"),
        17 => (format!(".{} «{}» \"{}\"", src.pick(&["text", "string"]), src.pick(&["foo", "@R1", "%x"]), u), true, "text"),
        18 => (format!("«%end»"), true, "end"),
        19 => (format!("«a%»: nop"), true, "macro-label"),
        20 => (format!(".org 5 «5»"), true, "left-over"),
        _ => (format!("x y «5»"), false, "left-over"),
    };
    (t, x, vec![], w)
}

fn directive_mistake(src: &mut Src) -> (String, bool, Vec<String>, &'static str) {
    let u = uni(src);
    let name = format!("nowhere{}", src.below(100));
    let v = 256 + src.below(10_000);
    let (t, x, s, w): (String, bool, Vec<String>, &'static str) = match src.below(13) {
        0 => (format!(".byte \"{}\", «{}», 3", u, v), true, vec![format!("{}", v)], "byte"),
        1 => (format!(".byte \"{}\", «-{}»", u, v), false, vec![format!("-{}", v)], "byte"),
        2 => (format!(".word 1,  «{}», 3", 65536 + v), true, vec![format!("{}", 65536 + v)], "word"),
        3 => (format!("«.text 3 \"{}abcd\"»", u), true, vec![], "text"),
        4 => (format!("«.string 3 \"{}abcd\"»", u), true, vec![], "string"),
        5 => (format!("«.org {}»", 65536 + v), true, vec![], "org"),
        6 => (format!(".cnop «-1», 4"), false, vec![], "cnop"),
        7 => (format!(".cnop 0, «{}»", name), true, vec![], "cnop"),
        8 => (format!(".byte \"{}\", 4, <«{}»", u, name), true, vec![name.clone()], "unknown-name"),
        9 => (format!(".word «{}» , 7", name), true, vec![name.clone()], "unknown-name"),
        10 => (format!(".word \t«5/0»"), true, vec![], "division"),
        11 => (format!(".byte \"{}\",\t«$fff +  {}»", u, v), true, vec![], "byte-expression"),
        _ => (format!(".byte \"{}\"{}«{}» * 2", u, ", 5 + ", name), true, vec![name.clone()], "unknown-name"),
    };
    (t, x, s, w)
}

fn simple(src: &mut Src, t: &mut Tree) -> Want {
    let k = src.below(3);
    let (text, exact, says, what) = match k {
        0 => instr_mistake(src, false),
        1 => syntax_mistake(src, false),
        _ => directive_mistake(src),
    };
    let at_start = text.starts_with("«=") || text.starts_with("x y");
    let head = if k == 0 && src.chance(1, 3) {
        format!("{}{}:{}", src.pick(&["", " "]), src.pick(&["here", "Here.2", ".h"]), src.pick(&["", " ", "\t"]))
    } else if k == 2 && src.chance(1, 10) {
        String::new()
    } else if at_start {
        String::new()
    } else {
        indent(src)
    };
    let eol = what == "end-of-line";
    let tail = if what == "character" && text.contains('"') { String::new() } else { comment(src) };
    let mut l = marked(&format!("{}{}{}", head, text, tail), 0);
    if eol {
        // anywhere from the last token to the end of the line
        let n = graphemes(&l.text).len();
        let m = l.mark.unwrap();
        l.mark = Some((0, m.1, n));
    }
    put_any(src, t, vec![l]);
    Want { groups: vec![vec![e(0, exact && !eol)]], any_order: false, chain: true, says, what }
}

/// Definitions of macros m0 (outermost) ... with a call of m0; the innermost body holds `line`.
/// Returns the ids of the calls, from the innermost outwards.
fn nest(src: &mut Src, t: &mut Tree, depth: usize, params: &[&str], args: &[Vec<String>], inner: Vec<L>, first_id: usize, calls: usize) -> Vec<Vec<Exp>> {
    // call of level k stands in the body of level k-1
    let call = |src: &mut Src, k: usize, id: usize| -> L {
        let a = &args[k];
        let head = match src.below(4) {
            0 => format!("c{}_{}:{}", k, id, src.pick(&["", " ", "\t"])),
            _ => indent(src),
        };
        let name = src.pick(&[format!("m{}", k), format!("M{}", k)]).clone();
        let txt = if a.is_empty() { format!("«{}»", name) } else { format!("«{} {}»", name, a.join(", ")) };
        marked(&format!("{}{}{}", head, txt, comment(src)), id)
    };
    let mut chain_inner = vec![];
    for k in 0..depth {
        let ps = params.iter().map(|p| format!("%{}", p)).collect::<Vec<_>>().join(", ");
        let mut b = vec![plain(format!("{}%macro m{} {}{}", src.pick(&["", " "]), k, ps, comment(src)))];
        for _ in 0..src.usize(3) {
            b.push(body_filler(src));
        }
        if k + 1 < depth {
            let id = first_id + k;
            let mut l = call(src, k + 1, id);
            if l.text.starts_with("c") && calls > 1 {
                l = marked(&format!(" «m{}{}»", k + 1, if args[k + 1].is_empty() { String::new() } else { format!(" {}", args[k + 1].join(", ")) }), id);
            }
            b.push(l);
            chain_inner.insert(0, e(id, false));
        } else {
            b.extend(inner.iter().cloned());
        }
        for _ in 0..src.usize(3) {
            b.push(body_filler(src));
        }
        b.push(plain(format!("{}%end{}", src.pick(&["", "  "]), comment(src))));
        put_any(src, t, b);
    }
    let mut chains = vec![];
    for c in 0..calls {
        let id = first_id + depth + c;
        let l = call(src, 0, id);
        if c == 0 {
            put_any(src, t, vec![l]);
        } else {
            // after the earlier call, in the file read last: the main file
            let n = t.files[0].blocks.len();
            t.files[0].blocks.insert(n, vec![l]);
        }
        let mut ch = chain_inner.clone();
        ch.push(e(id, false));
        chains.push(ch);
    }
    chains
}

fn simple_args(src: &mut Src, depth: usize, n: usize) -> Vec<Vec<String>> {
    (0..depth)
        .map(|_| (0..n).map(|_| src.pick(&["1", "$10", "1+2", "5", "-3"]).to_string()).collect())
        .collect()
}

fn in_macro(src: &mut Src, t: &mut Tree) -> Want {
    let depth = 1 + src.usize(4);
    let syntax = src.chance(1, 4);
    let (text, exact, says, what) = if syntax { syntax_mistake(src, true) } else { instr_mistake(src, true) };
    let np = src.usize(3);
    let params = &["p", "q"][..np];
    let args = simple_args(src, depth, np);
    let eol = what == "end-of-line";
    let head = if !syntax && src.chance(1, 4) { format!("{}%: ", src.pick(&["z", ".z"])) } else { indent(src) };
    let mut l = marked(&format!("{}{}{}", head, text, comment(src)), 0);
    if eol {
        let n = graphemes(&l.text).len();
        let m = l.mark.unwrap();
        l.mark = Some((0, m.1, n));
    }
    let chains = nest(src, t, depth, params, &args, vec![l], 1, 1);
    let mut g = vec![e(0, exact && !eol)];
    if !syntax {
        g.extend(chains[0].clone());
    }
    Want { groups: vec![g], any_order: false, chain: true, says, what: if syntax { "syntax-in-macro" } else { "in-macro" } }
}

/// The mistake is the argument of the outermost call.
fn in_argument(src: &mut Src, t: &mut Tree) -> Want {
    let depth = 1 + src.usize(3);
    let name = format!("nowhere{}", src.below(100));
    let (arg, use_, says) = match src.below(5) {
        0 => (format!("{}", 300 + src.below(1000)), "mov #%p, $10", vec![]),
        1 => (format!("{}", 600 + src.below(1000)), "ld %p", vec![]),
        2 => (name.clone(), src.pick(&["ld %p", "add #%p", "callf %p"]).clone(), vec![name]),
        3 => (format!("{}", 300 + src.below(1000)), "be $10, %p, %p", vec![]),
        _ => (format!("{}", 9 + src.below(1000)), "set1 5, %p", vec![]),
    };
    let use_ = if use_.starts_with("be") { "add #%p" } else { use_ };
    let mut args: Vec<Vec<String>> = vec![vec!["%p".to_string()]; depth];
    args[0] = vec!["1".to_string()];
    let inner = plain(format!("{}{}{}", indent(src), use_, comment(src)));
    nest(src, t, depth, &["p"], &args, vec![inner], 1, 0);
    let l = marked(&format!("{}m0 «{}»{}", indent(src), arg, comment(src)), 0);
    put_any(src, t, vec![l]);
    Want { groups: vec![vec![e(0, true)]], any_order: false, chain: false, says, what: "in-argument" }
}

/// Something is declared twice.
fn twice(src: &mut Src, t: &mut Tree) -> Want {
    let upper = |src: &mut Src, s: &str| if src.bool() { s.to_uppercase() } else { s.to_string() };
    match src.below(5) {
        0 | 1 => {
            // two labels; the second in the main file's end
            let n = upper(src, "twin");
            let a = marked(&format!("{}«{}:»{}", src.pick(&["", " "]), n, comment(src)), 1);
            let n = upper(src, "twin");
            let b = marked(&format!("{}«{}:»{}nop{}", src.pick(&["", "\t"]), n, src.pick(&["", " "]), comment(src)), 0);
            put_any(src, t, vec![a]);
            t.files[0].blocks.push(vec![b]);
            for i in 0..src.usize(3) {
                let f = filler(src, 9000 + i);
                t.files[0].blocks.push(f);
            }
            Want { groups: vec![vec![e(0, true)], vec![e(1, true)]], any_order: false, chain: true, says: vec![], what: "label-twice" }
        }
        2 => {
            let w = ["=", "equ"];
            let n = upper(src, "twin");
            let a = marked(&format!("{}«{} {} {}»{}", src.pick(&["", " "]), n, src.pick(&w), src.below(99), comment(src)), 1);
            let n = upper(src, "twin");
            let b = marked(&format!("{}«{} {} {}»{}", src.pick(&["", " "]), n, src.pick(&w), src.below(99), comment(src)), 0);
            put_any(src, t, vec![a]);
            t.files[0].blocks.push(vec![b]);
            Want { groups: vec![vec![e(0, true)], vec![e(1, true)]], any_order: false, chain: true, says: vec![], what: "variable-twice" }
        }
        3 => {
            let n = upper(src, "twin");
            let a = marked(&format!("%macro «{}» %a, %b{}", n, comment(src)), 1);
            let n = upper(src, "twin");
            let b = marked(&format!("%macro  «{}» %c,%d{}", n, comment(src)), 0);
            put_any(src, t, vec![a, plain("%end")]);
            t.files[0].blocks.push(vec![b, plain(" nop"), plain("%end")]);
            Want { groups: vec![vec![e(0, true)], vec![e(1, true)]], any_order: false, chain: true, says: vec![], what: "macro-twice" }
        }
        _ => {
            // a variable and a label
            let n = upper(src, "twin");
            let a = marked(&format!("«{} = {}»{}", n, src.below(99), comment(src)), 0);
            let n = upper(src, "twin");
            let b = marked(&format!("«{}:»{}", n, comment(src)), 1);
            put_any(src, t, vec![a]);
            put_any(src, t, vec![b]);
            Want { groups: vec![vec![e(0, true)], vec![e(1, true)]], any_order: true, chain: true, says: vec![], what: "label-and-variable" }
        }
    }
}

/// A macro with a global label, called twice.
fn label_in_macro(src: &mut Src, t: &mut Tree) -> Want {
    let depth = 1 + src.usize(3);
    let np = src.usize(2);
    let params = &["p", "q"][..np];
    let args = simple_args(src, depth, np);
    let l = marked(&format!("{}«twin:»{}{}", src.pick(&["", " "]), src.pick(&["", " nop"]), comment(src)), 0);
    let ch = nest(src, t, depth, params, &args, vec![l], 1, 2);
    let g = |c: &Vec<Exp>| {
        let mut v = vec![e(0, true)];
        v.extend(c.clone());
        v
    };
    Want { groups: vec![g(&ch[1]), g(&ch[0])], any_order: true, chain: true, says: vec![], what: "label-of-macro-twice" }
}

fn header_mistake(src: &mut Src, t: &mut Tree) -> Want {
    let n = src.pick(&["ld", "NOP", "mov", "callf", "Bp"]).to_string();
    let (lines, what): (Vec<L>, &'static str) = match src.below(5) {
        0 => (vec![marked(&format!("%macro «{}»{}", n, comment(src)), 0), plain("%end")], "macro-named-like-instruction"),
        1 => (vec![marked(&format!("%macro mm %a,  %b, «{}»{}", src.pick(&["%a", "%B"]), comment(src)), 0), plain("%end")], "parameter-twice"),
        2 => (vec![marked(&format!("%macro mm %a, «{}»{}", src.pick(&["3", "b", "(7)", "$10"]), comment(src)), 0), plain("%end")], "parameter"),
        3 => (vec![marked(&format!("%macro mm %a «{}»{}", src.pick(&["3", "b", "%b", ")"]), comment(src)), 0), plain("%end")], "parameter-left-over"),
        _ => (vec![plain("%macro mm"), plain(" nop"), marked(&format!(" %end «{}»{}", src.pick(&["x", "%end", "5"]), comment(src)), 0)], "end-left-over"),
    };
    put_any(src, t, lines);
    Want { groups: vec![vec![e(0, what != "parameter")]], any_order: false, chain: true, says: vec![], what }
}

fn at_end(src: &mut Src, t: &mut Tree) -> Want {
    if src.bool() {
        let l = marked(&format!("%macro «mm» %a{}", comment(src)), 0);
        let mut b = vec![l];
        for _ in 0..src.usize(4) {
            b.push(body_filler(src));
        }
        t.files[0].blocks.push(b);
        Want { groups: vec![vec![e(0, true)]], any_order: false, chain: true, says: vec![], what: "macro-without-end" }
    } else {
        let k = src.usize(t.files.len());
        let l = marked(&format!("{}.byte 1, «\"abc{}»", indent(src), uni(src)), 0);
        t.files[k].blocks.push(vec![l]);
        Want { groups: vec![vec![e(0, false)]], any_order: false, chain: true, says: vec![], what: "open-string" }
    }
}

fn in_header(src: &mut Src, t: &mut Tree) -> Want {
    let mut blocks = vec![];
    let n = src.usize(6);
    for i in 0..n {
        blocks.push(match src.below(5) {
            0 => vec![plain("")],
            1 => vec![plain(format!("// {}", uni(src)))],
            2 => vec![plain(format!("/* {}", uni(src))), plain(uni(src)), plain("*/")],
            3 => vec![plain(format!("#define HD{} {} // {}", i, src.below(100), uni(src)))],
            _ => vec![plain(format!("/* {} */ #define HX{} ({} + 1)", uni(src), i, src.below(100)))],
        });
    }
    let mut f = F { name: format!("{}h.h", src.pick(&["", "inc/", "日本/"])), blocks, eol: src.below(4), last_newline: !src.chance(1, 4) };
    let name = format!("nowhere{}", src.below(100));
    let (text, exact, says, what): (String, bool, Vec<String>, &'static str) = match src.below(5) {
        0 => (format!("#define HY «{}»", name), true, vec![name], "header-name"),
        1 => (format!("#define HY 3 + «{}/0»", src.below(100)), true, vec![], "header-division"),
        2 => (format!("#define «{}» 3", src.pick(&["5", "\"x\"", "("])), true, vec![], "header-define"),
        3 => (format!("/* {} */ #define HY «{}»", uni(src), src.pick(&["`", "!", "é"])), false, vec![], "header-character"),
        _ => (format!("#define HY 3 «{}»", src.pick(&["4", "x", "\"a\""])), true, vec![], "header-left-over"),
    };
    let tail = src.pick(&["", " // x", " /* y */"]).to_string();
    put(src, &mut f, vec![marked(&format!("{}{}", text, tail), 0)]);
    let up = t.files[0].name.matches('/').count();
    let l = plain(format!(" .include cpp \"{}{}\"{}", "../".repeat(up), f.name, comment(src)));
    put(src, &mut t.files[0], vec![l]);
    t.files.push(f);
    Want { groups: vec![vec![e(0, exact)]], any_order: false, chain: true, says, what }
}

#[derive(Debug)]
struct Loc {
    path: PathBuf,
    line: usize,
    start: usize,
    end: Option<usize>,
    shown: String,
    caret: String,
    chained: bool,
}

fn lexical(p: &Path) -> PathBuf {
    let mut r = PathBuf::new();
    for c in p.components() {
        match c {
            Component::ParentDir => {
                r.pop();
            }
            Component::CurDir => {}
            c => r.push(c),
        }
    }
    r
}

/// `path:line:column` or `path:line:column-column`
fn place(s: &str) -> Option<(String, usize, usize, Option<usize>)> {
    let (rest, cols) = s.rsplit_once(':')?;
    let (path, line) = rest.rsplit_once(':')?;
    let num = |x: &str| -> Option<usize> {
        if x.is_empty() || !x.bytes().all(|b| b.is_ascii_digit()) {
            None
        } else {
            x.parse().ok()
        }
    };
    let line = num(line)?;
    let (a, b) = match cols.split_once('-') {
        Some((a, b)) => (num(a)?, Some(num(b)?)),
        None => (num(cols)?, None),
    };
    Some((path.to_string(), line, a, b))
}

fn locations(err: &str, cwd: &Path) -> Vec<Loc> {
    let lines: Vec<&str> = err.split('\n').collect();
    let mut v = vec![];
    let mut i = 0;
    while i < lines.len() {
        let (chained, body) = match lines[i].strip_prefix("  | ") {
            Some(b) => (true, b),
            None => (false, lines[i]),
        };
        if let Some((p, line, start, end)) = place(body) {
            let strip = |s: Option<&&str>| -> String {
                let s = s.copied().unwrap_or("");
                let s = if chained { s.strip_prefix("  | ").unwrap_or("?") } else { s };
                s.strip_prefix("  ").unwrap_or("?").to_string()
            };
            v.push(Loc { path: lexical(&cwd.join(p)), line, start, end, shown: strip(lines.get(i + 1)), caret: strip(lines.get(i + 2)), chained });
            i += 3;
            continue;
        }
        i += 1;
    }
    v
}

fn judge(got: &Loc, want: &Exp, t: &Tree, dir: &Path) -> Result<(), String> {
    for f in &t.files {
        for (i, l) in f.lines().iter().enumerate() {
            let (id, s, n) = match l.mark {
                Some(m) => m,
                None => continue,
            };
            if id != want.id {
                continue;
            }
            if got.path != lexical(&dir.join(&f.name)) {
                return Err(format!("the place is in {}, the message says {}", f.name, got.path.display()));
            }
            if got.line != i + 1 {
                return Err(format!("the place is line {} of {}, the message says line {}", i + 1, f.name, got.line));
            }
            let end = got.end.unwrap_or(got.start);
            let inside = got.start >= s && got.start <= n && end >= got.start && end <= n;
            let exact = got.start == s && end == n;
            if !inside || (want.exact && !exact) {
                return Err(format!(
                    "the offending text has the columns {}-{} of line {} of {}, the message says {}-{}",
                    s,
                    n,
                    i + 1,
                    f.name,
                    got.start,
                    end
                ));
            }
            if got.shown != l.text {
                return Err(format!("line {} of {} is shown as {:?}, it is {:?}", i + 1, f.name, got.shown, l.text));
            }
            let g = graphemes(&got.caret);
            let first = g.iter().position(|x| *x == "^");
            let count = g.iter().skip_while(|x| **x != "^").take_while(|x| **x == "^").count();
            if first != Some(got.start) || count != (end - got.start).max(1) || g[..got.start].iter().any(|x| !x.chars().all(char::is_whitespace)) {
                return Err(format!("the mark under line {} of {} is {:?} for the columns {}-{}", i + 1, f.name, got.caret, got.start, end));
            }
            // a tab is as wide under the line as in it
            let shown = graphemes(&got.shown);
            if (0..got.start).any(|i| (g[i] == "\t") != (shown.get(i) == Some(&"\t"))) {
                return Err(format!("the mark under line {} of {} does not stand under the text, for a tab: {:?} under {:?}", i + 1, f.name, got.caret, got.shown));
            }
            return Ok(());
        }
    }
    Err(format!("no mark {}", want.id))
}

fn c19(src: &mut Src, ctx: &mut Ctx, make: fn(&mut Src, &mut Tree) -> Want) -> CaseResult {
    let mut t = tree(src);
    let want = make(src, &mut t);
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    for f in &t.files {
        files.push((f.name.clone(), f.bytes()));
    }
    if want.what == "open-string" {
        let k = t.files.iter().position(|f| f.lines().iter().any(|l| l.mark.is_some())).unwrap();
        let last = t.files[k].lines().last().map_or(false, |l| l.mark.is_some());
        if !last {
            return ok(false, "quote follows", vec![]);
        }
    }
    for (n, d) in &files {
        ctx.write(n, d);
    }
    let (cwd, main) = match src.below(4) {
        0 => {
            let sub = "where/i am";
            std::fs::create_dir_all(ctx.path(sub)).expect("mkdir");
            (ctx.path(sub), format!("../../{}", t.files[0].name))
        }
        1 => match t.files[0].name.rsplit_once('/') {
            Some((d, n)) => (ctx.path(d), n.to_string()),
            None => (ctx.dir.clone(), format!("./{}", t.files[0].name)),
        },
        _ => (ctx.dir.clone(), t.files[0].name.clone()),
    };
    let r = ctx.wb_in(&cwd, &["assemble", &main, "-o", "o.vms"])?;
    let mut rp = repro_files(&files, &format!("waterbear assemble {} -o o.vms (in {})", main, cwd.strip_prefix(&ctx.dir).unwrap().display()));
    rp.push_str(&format!("--- mistake: {} {:?}\n--- message\n{}\n", want.what, want.groups, r.err));
    if !r.rejected() {
        return fail(format!("a program with a mistake ({}): {}", want.what, r.how()), rp);
    }
    let locs = locations(&r.err, &cwd);
    let mut groups: Vec<Vec<&Loc>> = vec![];
    for l in &locs {
        if l.chained && !groups.is_empty() {
            groups.last_mut().unwrap().push(l);
        } else {
            groups.push(vec![l]);
        }
    }
    if groups.len() != want.groups.len() {
        return fail(format!("{}: the message shows {} places instead of {}", want.what, groups.len(), want.groups.len()), rp);
    }
    let check = |order: &[usize]| -> Result<(), String> {
        for (g, w) in groups.iter().zip(order.iter().map(|i| &want.groups[*i])) {
            if want.chain && g.len() != w.len() {
                return Err(format!("{} calls are listed, there are {}", g.len() - 1, w.len() - 1));
            }
            for (l, x) in g.iter().zip(w.iter()) {
                judge(l, x, &t, &ctx.dir)?;
            }
        }
        Ok(())
    };
    let straight: Vec<usize> = (0..want.groups.len()).collect();
    let back: Vec<usize> = straight.iter().rev().copied().collect();
    let mut res = check(&straight);
    if want.any_order && res.is_err() && check(&back).is_ok() {
        res = Ok(());
    }
    if let Err(m) = res {
        return fail(format!("{}: {}", want.what, m), rp);
    }
    let head = r.err.split(&format!(":{}:{}", locs[0].line, locs[0].start)).next().unwrap_or("");
    for s in &want.says {
        if !head.contains(s.as_str()) {
            return fail(format!("{}: the message does not mention {:?}", want.what, s), rp);
        }
    }
    let key = format!("{} {:?} {:?}", want.what, want.groups, files.iter().map(|f| show(&f.1)).collect::<Vec<_>>());
    ok(true, key, vec![want.what])
}

fn c19_simple(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    c19(src, ctx, simple)
}
fn c19_macro(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    c19(src, ctx, in_macro)
}
fn c19_argument(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    c19(src, ctx, in_argument)
}
fn c19_twice(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    if src.chance(1, 3) {
        c19(src, ctx, label_in_macro)
    } else {
        c19(src, ctx, twice)
    }
}
fn c19_other(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    match src.below(3) {
        0 => c19(src, ctx, header_mistake),
        1 => c19(src, ctx, at_end),
        _ => c19(src, ctx, in_header),
    }
}

/// (the directive, `@` for the path; the file; its content; what is wrong)
fn broken_files(src: &mut Src) -> (String, String, Option<Vec<u8>>, &'static str) {
    let i = indent(src);
    let c = comment(src);
    let name = format!("{}{}", src.pick(&["", "bad/", "日本/"]), src.pick(&["wrong.xyz", "wröng", "no such file.png"]));
    let how = *src.pick(&["", "asm ", "bytes ", "cpp ", "icon ", "sprite "]);
    let line = format!("{}.include {}\"@\"{}", i, how, c);
    let text = how == "" || how == "asm " || how == "cpp ";
    match src.below(3) {
        0 => (line, name, None, "missing-file"),
        1 if text => (line, name, Some(b"; \xff\xfe\n nop\n".to_vec()), "not-utf8"),
        1 if how != "bytes " => {
            let n = src.usize(40);
            (line, name, Some(vec![0x89; n]), "not-an-image")
        }
        2 if how == "" || how == "asm " => {
            let b = name.rsplit('/').next().unwrap().to_string();
            (line, name, Some(format!(" .include \"{}\"\n", b).into_bytes()), "includes-itself")
        }
        _ => (line, name, None, "missing-file"),
    }
}

/// A file the program names is missing or no good: the message names it.
fn c19_files(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut t = tree(src);
    let (line, bad, data, what) = broken_files(src);
    let k = src.usize(t.files.len());
    let up = t.files[k].name.matches('/').count();
    let path = format!("{}{}", "../".repeat(up), bad);
    let l = plain(line.replace('@', &path));
    put(src, &mut t.files[k], vec![l]);
    let mut files: Vec<(String, Vec<u8>)> = t.files.iter().map(|f| (f.name.clone(), f.bytes())).collect();
    if let Some(d) = data {
        files.push((bad.clone(), d));
    }
    for (n, d) in &files {
        ctx.write(n, d);
    }
    let main = t.files[0].name.clone();
    let r = ctx.wb(&["assemble", &main, "-o", "o.vms"])?;
    let mut rp = repro_files(&files, &format!("waterbear assemble {} -o o.vms", main));
    rp.push_str(&format!("--- message\n{}\n", r.err));
    if !r.rejected() {
        return fail(format!("{}: {}", what, r.how()), rp);
    }
    let base = bad.rsplit('/').next().unwrap();
    let body = r.err.splitn(2, '✘').nth(1).unwrap_or("");
    if !body.contains(base) {
        return fail(format!("{}: the message does not name {}", what, base), rp);
    }
    ok(true, format!("{} {} {}", what, bad, files.len()), vec![what])
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C19",
        rule: "a mistake of a known kind stood at a known place and the program was rejected with a message whose places were all compared",
        families: vec![
            Family { name: "top-level", run: c19_simple, quick: 6000, thorough: 120000, sweep: None },
            Family { name: "macro", run: c19_macro, quick: 4000, thorough: 80000, sweep: None },
            Family { name: "argument", run: c19_argument, quick: 1500, thorough: 30000, sweep: None },
            Family { name: "twice", run: c19_twice, quick: 3000, thorough: 60000, sweep: None },
            Family { name: "other", run: c19_other, quick: 2500, thorough: 50000, sweep: None },
            Family { name: "files", run: c19_files, quick: 1000, thorough: 20000, sweep: None },
        ],
        assumptions: &[
            "one mistake per program",
            "columns count what a reader sees as one character, from 0; a tab is one column",
        ],
    }]
}
