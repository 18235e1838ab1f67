//! C16 (assemble, expand) and C18 (image, icon, vmi): whatever the input, the command ends
//! on its own terms.
use crate::engine::*;
use crate::gen;
use crate::img;
use crate::model::*;
use crate::props::macros;
use crate::props::text;
use crate::tool::*;

const WORDS: &[&str] = &[
    ".org", ".byte", ".word", ".text", ".string", ".cnop", ".include", "asm", "cpp", "bytes", "icon", "sprite", "%macro", "%end", "%macro m", "equ", "=", ":", "::", ",", "#", "(", ")", "+", "-", "*", "/", "&", "|", "^",
    "<", ">", "@R0", "@R3", "@r2", "@", "@R4", "%", "%a", "a%", "%a%", "%%", "$", "$1F", "$FFFF", "0x10", "0x", "0b101", "0o17", "%101", "12", "0", "1", "255", "256", "65535", "65536", "2147483647", "4294967295",
    "1'000", "'", "'''", "\"", "\"s\"", "\"\\n\"", "\"\\\"", "\\", ";", "; c", "*", "\n", "\n", "\n", "\n ", "\r\n", "\t", " ", ".l", "l:", "lab:", "lab", ".l:", "speed", "speed=", "eyecatch=", "type=", "header=", "\"masked\"",
    "\"yes\"", "\"h.h\"", "\"b.bin\"", "\"i.png\"", "\"leaf.s\"", "\"main.s\"", "\"\"", "\".\"", "\"/\"", "ünï", "日本", "e\u{301}", "\u{feff}", "\u{0}", "~", "`", "!", "?", "[", "]", "{", "}", "1.5", "--", "not1", "ext", "acc",
    "psw", "label%:", "label%", "m", "m 1", "m %a", "m:", "_", "a.b", "a$b", "$b", "0xG", "0b2", "0o8", "%2", "1a", "a'b", "br", "be", "mov", "ld", "nop", "callf", "jmp", "bp", "dbnz", "ret", "add", "inc", "push", "clr1",
];

fn mnemonic(src: &mut Src) -> String {
    let f = src.usize(FORMS.len());
    FORMS[f].0.to_string()
}

fn word(src: &mut Src) -> String {
    match src.below(6) {
        0 => mnemonic(src),
        1 => format!("{}", gen::interesting(src, -40000, 70000)),
        _ => src.pick(WORDS).to_string(),
    }
}

/// Sizes of hundreds of megabytes are a request for as much output; keep them out.
pub fn tame(t: Vec<u8>) -> Vec<u8> {
    let low = t.to_ascii_lowercase();
    let has = |w: &[u8]| low.windows(w.len()).any(|x| x == w);
    if !has(b".text") && !has(b".string") && !has(b".cnop") {
        return t;
    }
    let mut o = Vec::with_capacity(t.len());
    let mut run = 0;
    let mut all01 = true;
    for b in t {
        let digit = b.is_ascii_hexdigit() || b == b'\'';
        if digit {
            run += 1;
            all01 &= matches!(b, b'0' | b'1' | b'\'');
            if run > 5 && !(all01 && run < 22) {
                continue;
            }
        } else {
            run = 0;
            all01 = true;
        }
        o.push(b);
    }
    o
}

/// Edits of a text: characters, tokens, lines.
pub fn mutate(src: &mut Src, t: &str) -> Vec<u8> {
    let mut b: Vec<u8> = t.as_bytes().to_vec();
    let n = *src.pick(&[1usize, 1, 1, 2, 3, 6]);
    for _ in 0..n {
        let len = b.len();
        let at = src.usize(len + 1);
        match src.below(11) {
            0 => {
                let w = word(src);
                b.splice(at..at, w.bytes());
            }
            1 => {
                let e = (at + 1 + src.usize(6)).min(len);
                b.drain(at.min(e)..e);
            }
            2 => {
                if at < len {
                    b[at] = match src.below(3) {
                        0 => src.below(256) as u8,
                        1 => *src.pick(b"\"\\;%$#@(),.:*\n\r\t =-0"),
                        _ => b[at] ^ (1 << src.below(8)),
                    };
                }
            }
            3 => b.truncate(at),
            4 | 5 => {
                // lines: delete, duplicate, swap
                let mut ls: Vec<Vec<u8>> = b.split(|c| *c == b'\n').map(|l| l.to_vec()).collect();
                let i = src.usize(ls.len());
                let j = src.usize(ls.len());
                match src.below(4) {
                    0 => {
                        ls.remove(i);
                    }
                    1 => {
                        let l = ls[i].clone();
                        ls.insert(j, l);
                    }
                    2 => ls.swap(i, j),
                    _ => {
                        let l = ls[i].clone();
                        ls[j].extend(l);
                    }
                }
                b = ls.join(&b'\n');
            }
            6 => {
                // a token elsewhere
                let i = src.usize(len + 1);
                let e = (i + 1 + src.usize(12)).min(len);
                let w = b[i.min(e)..e].to_vec();
                b.splice(at..at, w);
            }
            7 => {
                // a number becomes another
                if let Some(p) = (at..len).find(|p| b[*p].is_ascii_digit()) {
                    let mut e = p;
                    while e < len && b[e].is_ascii_digit() {
                        e += 1;
                    }
                    let w = src.pick(&["0", "-1", "255", "256", "-32769", "65536", "2147483647", "2147483648", "99999999999", "$", "0x", "%", ""]).to_string();
                    b.splice(p..e, w.bytes());
                }
            }
            8 => {
                b.insert(at, *src.pick(b"\"()\\%;\n\0\xff\xc3\x80"));
            }
            9 => {
                let w = src.pick(&["é", "日", "e\u{301}", "\u{200d}", "\u{feff}", "👩‍👩‍👧", "\u{85}", "\u{2028}", "\r", "\u{0b}", "\u{0}"]).to_string();
                // on a character boundary
                let mut p = at;
                while p < b.len() && (b[p] & 0xC0) == 0x80 {
                    p += 1;
                }
                b.splice(p..p, w.bytes());
            }
            _ => {
                if at < len {
                    // case
                    let e = (at + 8).min(len);
                    for c in &mut b[at..e] {
                        *c = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
                    }
                }
            }
        }
    }
    b
}

fn extras(src: &mut Src) -> Vec<(String, Vec<u8>)> {
    let mut f = vec![];
    let (h, _) = text::header(src, "H_");
    let h = if src.chance(1, 3) { tame(mutate(src, &h)) } else { h.into_bytes() };
    f.push(("h.h".to_string(), h));
    f.push(("b.bin".to_string(), (0..src.usize(20)).map(|i| (i * 37) as u8).collect()));
    let leaf = src.pick(&[" nop\n", "", "x:", ";", " .byte 1,2", "%macro", "*", ".q", " .include asm \"main.s\"\n"]).to_string();
    f.push(("leaf.s".to_string(), leaf.into_bytes()));
    let p = img::Pic::still(8, 8, img::paint(src, 64, &[[0, 0, 0, 255], [255, 255, 255, 0], [90, 30, 200, 255]]));
    f.push(("i.png".to_string(), img::png_mode(src, &p, &img::Mode::Rgba8, false)));
    f
}

/// Assemble or expand; the oracle of C16.
pub fn must_end(ctx: &mut Ctx, files: &[(String, Vec<u8>)], main: &str, expand: bool) -> Result<&'static str, Stop> {
    for (n, d) in files {
        ctx.write(n, d);
    }
    ctx.remove("out.vms");
    let (r, cmd) = if expand { (ctx.wb(&["expand", main])?, format!("waterbear expand {}", main)) } else { (ctx.wb(&["assemble", main, "-o", "out.vms"])?, format!("waterbear assemble {} -o out.vms", main)) };
    let rp = || repro_files(files, &cmd);
    if !r.clean() {
        return fail(format!("{}: {}", cmd, r.how()), rp());
    }
    let o = ctx.read("out.vms");
    if r.rejected() {
        let bad_line = main.chars().any(|c| (0xf700..0xf800).contains(&(c as u32))) && r.err.trim().len() > "[ERROR]".len();
        if !bad_line && (!r.err.contains("[ERROR]") || !r.err.contains('✘') || r.err.split('✘').nth(1).map(|x| x.trim().is_empty()).unwrap_or(true)) {
            return fail(format!("exit 1 without an error message: {:?}", clip(&r.err, 200)), rp());
        }
        if o.is_some() {
            return fail("exit 1 with an output file", rp());
        }
        Ok("refused")
    } else {
        if !expand && o.is_none() {
            return fail("exit 0 without an output file", rp());
        }
        Ok("accepted")
    }
}

fn c16_mutated(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let p = text::rich(src);
    let mut t = macros::text(src, &p);
    let ex = if src.chance(1, 2) { extras(src) } else { vec![] };
    if !ex.is_empty() {
        for _ in 0..1 + src.usize(3) {
            let l = src
                .pick(&[
                    " .include cpp \"h.h\"",
                    " .include bytes \"b.bin\"",
                    ".include asm \"leaf.s\"",
                    " .include sprite \"i.png\"",
                    " .include sprite \"i.png\" type=\"masked\", header=\"no\"",
                    " .include icon \"i.png\" speed=4",
                    " .include icon \"i.png\" eyecatch=\"i.png\"",
                    " .include \"leaf.s\"",
                ])
                .to_string();
            let mut ls: Vec<&str> = t.split('\n').collect();
            let at = src.usize(ls.len());
            ls.insert(at, &l);
            t = ls.join("\n");
        }
    }
    let m = tame(mutate(src, &t));
    let mut files = vec![("main.s".to_string(), m.clone())];
    files.extend(ex);
    let l = must_end(ctx, &files, "main.s", src.chance(1, 3))?;
    ok(m.len() > 10, show(&m), vec![l])
}

fn c16_tokens(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = 1 + src.usize(60);
    let mut t = String::new();
    for _ in 0..n {
        match src.below(8) {
            0 => {
                // a line that nearly makes sense
                let f = src.usize(FORMS.len());
                let mut l = format!("\n {}", FORMS[f].0);
                for k in 0..src.usize(4) {
                    l.push_str(if k == 0 { " " } else { ", " });
                    if src.bool() {
                        l.push('#');
                    }
                    let w = word(src);
                    l.push_str(&w);
                }
                t.push_str(&l);
            }
            1 => {
                let nm = src.pick(&["m", "n", "o"]).to_string();
                let a = src.pick(&["", " %a", " %a, %b", "%a", " a"]).to_string();
                t.push_str(&format!("\n%macro {}{}\n", nm, a));
            }
            2 => t.push_str(*src.pick(&["\n%end\n", "\n%end", "\n m\n", "\n n 1\n", "\nl:\n", "\n.l\n", "\nx = 1\n"])),
            _ => {
                let w = word(src);
                t.push_str(&w);
                if src.chance(2, 3) {
                    t.push_str(*src.pick(&[" ", " ", "\t", ""]));
                }
            }
        }
    }
    let m = tame(t.into_bytes());
    let ex = if src.chance(1, 3) { extras(src) } else { vec![] };
    let mut files = vec![("main.s".to_string(), m.clone())];
    files.extend(ex);
    let l = must_end(ctx, &files, "main.s", src.chance(1, 3))?;
    ok(m.len() > 10, show(&m), vec![l])
}

fn c16_raw(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = src.usize(120);
    let style = src.below(4);
    let b: Vec<u8> = (0..n)
        .map(|_| match style {
            0 => src.below(256) as u8,
            1 => 32 + src.below(95) as u8,
            2 => *src.pick(b" \n\t.\"\\%;:,#()+-*$0123abx'"),
            _ => *src.pick("é日x \n\"\u{301}.%".as_bytes()),
        })
        .collect();
    let m = tame(b);
    let l = must_end(ctx, &[("main.s".into(), m.clone())], "main.s", src.chance(1, 3))?;
    ok(m.len() > 1, show(&m), vec![l])
}

/// every one- and two-token file
fn c16_short(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let a = WORDS[src.usize(WORDS.len())];
    let ex = extras(&mut Src::replay(vec![]));
    for (n, d) in &ex {
        ctx.write(n, d);
    }
    let mut n = 0;
    let mut go = |ctx: &mut Ctx, t: String, expand: bool| -> Result<(), Stop> {
        n += 1;
        must_end(ctx, &[("main.s".into(), tame(t.into_bytes()))], "main.s", expand).map(|_| ())
    };
    for s in ["", "\n", " ", "\n "] {
        go(ctx, format!("{}{}", s, a), false)?;
        go(ctx, format!("{}{}{}", a, s, a), true)?;
    }
    for b in WORDS {
        go(ctx, format!("{}{}", a, b), false)?;
        go(ctx, format!(" {} {}\n", a, b), false)?;
        go(ctx, format!(" .byte {} {}", a, b), false)?;
        go(ctx, format!("%macro m %a\n {} {}\n%end\n m 1", a, b), false)?;
    }
    okn(true, format!("token {:?} with every other", a), vec![], n)
}

/// every token cut short at every byte in a program with every kind of statement
fn c16_prefix(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    const ALL: &str = "* star\n.include cpp \"h.h\"\nv = $1'F ; c\nw equ 0b101+0o17*(2-%11)/-1&3|4^<5\n.org $10\n.cnop 0,4\ng:\n.l: nop\n mov #<w, @R2\n be @R1, #1, .l\n bp acc, 7, .l\n%macro m %a, %b\n.q%: ld %a\n br .q%\n n %b\n%end\n%macro n %x\n add #%x+1\n%end\n m 1, g\n m @R0, 2\n .byte \"a\\n\\\"b\", -1, 'x\n .word g, .l+1\n .text 8 \"tt\"\n .string 3 \"é\"\n .include bytes \"b.bin\"\n .include sprite \"i.png\" type=\"masked\", header=\"no\"\n .include icon \"i.png\" speed=4, eyecatch=\"i.png\"\n .include asm \"leaf.s\"\n callf g\n";
    let at = src.usize(700);
    let all = ALL.as_bytes();
    if at > all.len() {
        return ok(false, "", vec![]);
    }
    for (n, d) in extras(&mut Src::replay(vec![])) {
        ctx.write(&n, &d);
    }
    let cut = all[..at].to_vec();
    let mut del = all.to_vec();
    if at < del.len() {
        del.remove(at);
    }
    let mut n = 0;
    let mut vs: Vec<Vec<u8>> = vec![cut, del];
    for c in b"\"(;%\n \\0" {
        let mut x = all.to_vec();
        x.insert(at, *c);
        vs.push(x);
    }
    // the same with the stray ' removed, so that later statements are reached
    for i in 0..vs.len() {
        let y: Vec<u8> = String::from_utf8_lossy(&vs[i]).replace(", 'x", "").into_bytes();
        vs.push(y);
    }
    for v in vs {
        let v = tame(v);
        must_end(ctx, &[("main.s".into(), v.clone())], "main.s", false)?;
        must_end(ctx, &[("main.s".into(), v)], "main.s", true)?;
        n += 2;
    }
    okn(true, format!("prefix of {} bytes and edits there", at), vec![], n)
}

/// deep nesting, long lines, many of everything
fn c16_extreme(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = *src.pick(&[1usize, 2, 50, 99, 100, 101, 199, 200, 201, 250, 300, 400, 498, 499, 500, 501, 502, 600, 1000, 3000]);
    let k = 1 + src.usize(3);
    let rep = |s: &str, n: usize| s.repeat(n);
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    let kind = src.below(26);
    // where the length costs little, far beyond every limit
    let n = if [0, 1, 2, 3, 15, 20, 21].contains(&kind) && src.chance(1, 3) { *src.pick(&[10000usize, 40000, 150000]) } else { n };
    let m = if src.chance(1, 3) { *src.pick(&[10000usize, 40000]) } else { n };
    let un = src.pick(&["-", "<", ">", "- ", "-<"]).to_string();
    let bi = src.pick(&["+", "-", "*", "&", "|", "^", "/"]).to_string();
    let t = match kind {
        0 => format!(" .byte {}1{}\n", rep("(", n), rep(")", n)),
        1 => format!(" .byte {}1\n", rep(&un, n)),
        2 => format!(" .word 1{}\n", rep(&format!("{}1", bi), n)),
        3 => format!(" .word {}1{}\n", rep(&format!("1{}(", bi), n), rep(")", n)),
        4 => (0..n).map(|i| format!("%macro m{} %a\n m{} %a{}\n%end\n", i, i + 1, rep(&format!("{}1", bi), k - 1))).collect::<String>() + &format!("%macro m{} %a\n add #0&(%a)\n%end\n m0 1\n", n),
        5 => (0..n.min(60)).map(|i| format!("%macro m{} %a\n m{} {}%a\n%end\n", i, i + 1, rep(&un, 1 + n / 3))).collect::<String>() + &format!("%macro m{} %a\n add #0&(%a)\n%end\n m0 1\n", n.min(60)),
        6 => (0..n.min(80)).map(|i| format!("%macro m{} %a\n m{} (%a){}(%a)\n%end\n", i, i + 1, bi)).collect::<String>() + &format!("%macro m{} %a\n add #0&(%a)\n%end\n m0 1\n", n.min(80)),
        7 => {
            for i in 0..n {
                files.push((format!("f{}.s", i), format!(".include asm \"f{}.s\"\n", i + 1).into_bytes()));
            }
            files.push((format!("f{}.s", n), b" nop\n".to_vec()));
            ".include asm \"f0.s\"\n".to_string()
        }
        8 => (0..n).map(|i| format!("v{} = v{} + 1\n", i + 1, i)).collect::<String>().replacen("v1 = v0", "v0 = 1\nv1 = v0", 1) + &format!(" .word v{}\n", n),
        9 => format!(" .byte {}\n", rep("1,", n)) + &format!(" .byte {}1\n", rep("1,", n * 20)),
        10 => format!("{}:\n br {}\n", rep("a", n * 10), rep("a", n * 10)),
        11 => format!(" .text {} \"{}\"\n", n * 10, rep("é", n * 5)),
        12 => (0..n).map(|i| format!("l{}: .byte {}\n", i, i % 200)).collect::<String>(),
        13 => (0..n).map(|i| format!("l{}:\n.x:\n br .x\n", i)).collect::<String>(),
        14 => format!("%macro m {}\n nop\n%end\n m {}\n", (0..n).map(|i| format!("%a{}", i)).collect::<Vec<_>>().join(", "), vec!["1"; n].join(", ")),
        15 => format!("%macro m %a\n nop\n%end\n m {}1{}\n", rep("(", n), rep(")", n)),
        16 => format!("{}\n", rep("\n", n * 20)) + &rep(";\n", n) + &rep("*\n", n),
        17 => format!(" .org {}\n nop\n .org {}\n .byte 1,2,3,4\n", 65536 - n.min(65536), 65535 - k),
        18 => format!(" .cnop {}, {}\n nop\n .cnop {}, {}\n", n * 100, k, k, n * 100) + "x: br x\n",
        19 => format!(" .byte 1 {}\n", rep(" ", n * 100)) + &format!(" .byte \"{}\n", rep("\n", n)),
        20 => format!(" .byte \"{}\"\n", rep("\\\"", n)) + &rep(" .byte \"\\\\\"\n", k),
        21 => format!("{}1\n", rep(" .byte ", n)),
        22 => format!("%macro a\n{}\n%end\n{}", rep(" nop\n", n), rep(" a\n", k * 20)),
        23 => format!("%macro a\nx%:\n.y%: br .y%\n br x%\n%end\n{}", rep(" a\n", n)),
        24 => {
            files.push(("h.h".into(), ((0..n).map(|i| format!("#define V{} {}{}{}\n", i, rep("(", k), if i > 0 { format!("V{} + 1", i - 1) } else { "1".into() }, rep(")", k))).collect::<String>() + &format!("#define W {}1{}\n#define X 1{}\n", rep("(", m), rep(")", m), rep(" + 1", m))).into_bytes()));
            " .include cpp \"h.h\"\n .word V0\n".to_string()
        }
        _ => {
            files.push(("h.h".into(), format!("/*{}\n#define {} 1\n//{}", rep("*", n), rep("Z", n * 10), rep("/", n)).into_bytes()));
            " .include cpp \"h.h\"\n".to_string() + &rep(" .include bytes \"h.h\"\n", k)
        }
    };
    files.push(("main.s".into(), t.clone().into_bytes()));
    let l = must_end(ctx, &files, "main.s", src.chance(1, 3))?;
    ok(true, format!("shape {} of size {} x{} {} {}: {}", kind, n, k, un, bi, clip(&t, 200)), vec![l])
}

/// Programs whose size is a parameter, each long in one way only.
const LONG: &[(&str, usize, fn(usize) -> String)] = &[
    ("lines", 1, |n| " nop\n".repeat(n)),
    ("one line", 1, |n| format!(" .byte {}1\n", "1,".repeat(n))),
    ("labels", 1, |n| (0..n).map(|i| format!("l{}: nop\n", i)).collect()),
    ("names", 4, |n| (0..n).map(|i| format!("n{} equ {}\n", i, i)).collect()),
    ("used names", 1, |n| (0..n / 2).map(|i| format!("n{} equ {}\n", i, i & 255)).collect::<String>() + &(0..n / 2).map(|i| format!(" .byte n{}\n", i)).collect::<String>()),
    ("chained names", 4, |n| "v0 = 1\n".to_string() + &(0..n / 8).map(|i| format!("v{} = v{}\n", i + 1, i)).collect::<String>()),
    ("locals", 1, |n| "g:\n".to_string() + &(0..n).map(|i| format!(".l{}: nop\n", i)).collect::<String>()),
    ("locals of many", 1, |n| (0..n / 2).map(|i| format!("l{}:\n.x:\n br .x\n", i)).collect()),
    ("branches", 1, |n| (0..n / 2).map(|i| format!("l{}:\n br l{}\n", i, i)).collect()),
    ("forward", 1, |n| (0..n / 4).map(|i| format!(" jmpf l{}\n", i)).collect::<String>() + &(0..n / 4).map(|i| format!("l{}:\n", i)).collect::<String>()),
    ("orgs", 1, |n| (0..n / 2).map(|i| format!(" .org {}\n nop\n", i * 2)).collect()),
    ("comments", 4, |n| "; hello\n".repeat(n)),
    ("empty lines", 4, |n| "\n".repeat(n * 4)),
    ("long comment", 4, |n| format!(";{}\n", "x".repeat(n * 10))),
    ("blanks", 4, |n| format!("{} nop\n", " ".repeat(n * 10))),
    ("long string", 1, |n| format!(" .byte \"{}\"\n", "x".repeat(n))),
    ("open string", 4, |n| format!(" .byte \"{}", "x\n".repeat(n))),
    ("strings", 1, |n| " .byte \"x\"\n".repeat(n)),
    ("escapes", 1, |n| format!(" .byte \"{}\"\n", "\\n".repeat(n))),
    ("long name", 4, |n| format!("{}: nop\n", "a".repeat(n * 10))),
    ("long number", 4, |n| format!(" .byte {}1\n", "0".repeat(n * 10))),
    ("parted number", 4, |n| format!(" .byte {}1\n", "0'".repeat(n * 5))),
    ("text", 1, |n| " .text 1 \"a\"\n".repeat(n)),
    ("cnops", 4, |n| " .cnop 0,4\n".repeat(n)),
    ("calls", 1, |n| "%macro m %a\n add #%a\n%end\n".to_string() + &" m 1\n".repeat(n / 2)),
    ("calls with labels", 1, |n| "%macro m\nx%: nop\n%end\n".to_string() + &" m\n".repeat(n)),
    ("calls in a macro", 1, |n| "%macro k\n nop\n%end\n%macro m\n".to_string() + &" k\n".repeat(n) + "%end\n m\n"),
    ("macros", 1, |n| (0..n / 4).map(|i| format!("%macro m{}\n nop\n%end\n m{}\n", i, i)).collect()),
    ("long macro", 1, |n| format!("%macro m\n{}%end\n m\n", " nop\n".repeat(n))),
    ("open macro", 4, |n| format!("%macro m\n{}", " nop\n".repeat(n))),
    ("parameters", 4, |n| format!("%macro m {}\n nop\n%end\n", (0..n / 10).map(|i| format!("%a{}", i)).collect::<Vec<_>>().join(","))),
    ("arguments", 1, |n| format!("%macro m {}\n .byte %a0\n%end\n m {}\n", (0..n / 40).map(|i| format!("%a{}", i)).collect::<Vec<_>>().join(","), vec!["1"; n / 40].join(","))),
    ("letters", 4, |n| "; \u{e9}\u{65e5}\n".repeat(n)),
    ("joined emoji", 4, |n| format!(";{}\n", "\u{1f468}\u{200d}\u{1f469}".repeat(n))),
    ("marks", 4, |n| format!("; e{}\n", "\u{301}".repeat(n * 2))),
    ("flags", 4, |n| format!(";{}\n", "\u{1f1ef}".repeat(n * 2))),
    ("wide blanks", 4, |n| format!("{} nop\n", "\u{a0}".repeat(n))),
    ("returns", 4, |n| format!("{} nop\n", "\r".repeat(n))),
    ("colons", 4, |n| ":".repeat(n)),
    ("percents", 4, |n| "%".repeat(n)),
    ("operators", 4, |n| format!(" .byte {}1\n", "-".repeat(n))),
    ("parentheses", 1, |n| format!(" .byte {}1{}\n", "(".repeat(n), ")".repeat(n))),
    ("wrong at the end", 1, |n| " nop\n".repeat(n) + " jmp\n"),
    ("wrong after a long line", 1, |n| format!(" .byte {}nosuch\n", "1, ".repeat(n))),
    ("wrong after a wide line", 1, |n| format!(" .byte \"{}\", nosuch\n", "\u{65e5}e\u{301}".repeat(n / 4))),
    ("unknown token at the end", 1, |n| "l: nop\n".repeat(n) + " ~\n"),
    ("included text", 1, |n| " .include asm \"one.s\"\n".repeat(n / 20)),
    ("included bytes", 1, |n| " .include bytes \"one.s\"\n".repeat(n / 20)),
    ("definitions", 1, |n| format!(" .include cpp \"h.h\"\n .word V{}\n", n / 2)),
    ("bare labels", 4, |n| (0..n).map(|i| format!("l{}:\n", i)).collect()),
    ("bare locals", 4, |n| "g:\n".to_string() + &(0..n).map(|i| format!(".l{}:\n", i)).collect::<String>()),
    ("nothing but orgs", 4, |n| " .org 0\n".repeat(n)),
    ("calls of nothing", 4, |n| "%macro m %a\n%end\n".to_string() + &" m 1\n".repeat(n)),
    ("calls of labels", 2, |n| "%macro m\nx%:\n%end\n".to_string() + &" m\n".repeat(n)),
    ("too long", 4, |n| format!(" .byte {}1\n", "1,".repeat(n))),
    ("too many lines", 4, |n| " nop\n".repeat(n)),
];

fn c16_scaling(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = src.usize(LONG.len() * 2);
    let (name, big, f) = LONG[i / 2];
    let args: &[&str] = if i % 2 == 0 { &["assemble", "main.s", "-o", "out.vms"] } else { &["expand", "main.s"] };
    let n = 15000 * big;
    let mut set = |ctx: &mut Ctx, k: usize| {
        ctx.reset();
        ctx.write("main.s", f(n * k).as_bytes());
        ctx.write("one.s", b" nop\n");
        ctx.write("h.h", (0..=n * k / 2).map(|i| format!("#define V{} {}\n", i, i)).collect::<String>().as_bytes());
    };
    match growth(ctx, args, &mut set)? {
        Ok((a, z)) => ok(true, format!("{} of \"{}\", {} and {}", args[0], name, n, 4 * n), vec![if z.cpu > 0.5 { "felt" } else { "quick" }, if a.code == z.code { "same status" } else { "other status" }]),
        Err(m) => fail(format!("{} of a program that is long in one way (\"{}\", {} then {}): {}", args[0], name, n, 4 * n, m), format!("waterbear {}\nmain.s begins {:?}", args.join(" "), clip(&f(n), 300))),
    }
}

/// C header text
fn c16_header(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let t = match src.below(3) {
        0 => {
            let (h, _) = text::header(src, "H_");
            mutate(src, &h)
        }
        1 => {
            const W: &[&str] = &[
                "#define", "#", "define", "# define", "#include", "#ifdef", "A", "B_1", "_", "(", ")", "+", "-", "*", "/", "1", "0x", "0xFF", "0b", "0b1", "0b2", "017", "08", "1u", "1L", "\"s\"", "'c'", "/*", "*/", "//", "\\\n", "\n", "\n", "\n", " ", "\t",
                "4294967296", "99999999999999999999", "é", "日本", "\u{0}", "~", "<<", ">>", "&&", "{", "}", ";", ",", "A(x)", "\r\n", "\r", ".", "$", "%", "@", "1.0", "e\u{301}",
            ];
            let mut s = String::new();
            for _ in 0..1 + src.usize(40) {
                s.push_str(*src.pick(W));
                if src.bool() {
                    s.push(' ');
                }
            }
            s.into_bytes()
        }
        _ => (0..src.usize(60)).map(|_| if src.chance(1, 3) { src.below(256) as u8 } else { *src.pick(b"#define A(1+*/ \n\t0xb\"\\") }).collect(),
    };
    let main = src.pick(&[" .include cpp \"h.h\"\n", "%macro m\n .include cpp \"h.h\"\n%end\n m\n", " .include cpp \"h.h\"\n .include cpp \"h.h\"\n", " nop\n .include asm \"h.h\"\n"]).to_string();
    let main = main.into_bytes();
    let t = if main.windows(3).any(|w| w == b"asm") { tame(t) } else { t };
    let l = must_end(ctx, &[("h.h".into(), t.clone()), ("main.s".into(), main)], "main.s", src.chance(1, 3))?;
    ok(t.len() > 3, show(&t), vec![l])
}

/// paths that are no files, include graphs with cycles
fn c16_paths(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    ctx.write("d/x.s", b" nop\n");
    ctx.write("e/main2.s", b".include asm \"../main.s\"\n");
    ctx.write("empty.s", b"");
    ctx.write("bad.s", b"\xff\xfe .byte 1\n");
    ctx.write("ü n.s", b" .byte 9\n");
    let cases: &[(&str, &str)] = &[
        ("main.s", ".include asm \"d\"\n"),
        ("main.s", ".include asm \"main.s\"\n"),
        ("main.s", ".include asm \"./main.s\"\n"),
        ("main.s", ".include asm \"d/../main.s\"\n"),
        ("main.s", ".include asm \"e/main2.s\"\n"),
        ("main.s", ".include asm \"\"\n"),
        ("main.s", ".include asm \".\"\n"),
        ("main.s", ".include asm \"/\"\n"),
        ("main.s", ".include asm \"nope.s\"\n"),
        ("main.s", ".include asm \"bad.s\"\n"),
        ("main.s", ".include asm \"empty.s\"\n"),
        ("main.s", ".include asm \"empty.s\" x\n"),
        ("main.s", ".include cpp \"d\"\n"),
        ("main.s", ".include cpp \"nope.h\"\n"),
        ("main.s", ".include cpp \"bad.s\"\n"),
        ("main.s", ".include bytes \"d\"\n"),
        ("main.s", ".include bytes \"nope\"\n"),
        ("main.s", ".include bytes \"main.s\"\n"),
        ("main.s", ".include icon \"d\"\n"),
        ("main.s", ".include icon \"nope.png\"\n"),
        ("main.s", ".include icon \"empty.s\"\n"),
        ("main.s", ".include icon \"bad.s\" speed=99999999999\n"),
        ("main.s", ".include sprite \"nope.gif\"\n"),
        ("main.s", ".include sprite \"d\" type=\"masked\"\n"),
        ("main.s", ".include asm \"ü n.s\"\n"),
        ("main.s", ".include \"ü n.s\"\n.include asm \"d/x.s\"\n"),
        ("main.s", ".include asm \"a\\0b\"\n"),
        ("main.s", ".include bytes \"a\\nb\"\n"),
        ("main.s", ".include asm \"\\\\\"\n"),
        ("nope.s", ""),
        ("d", ""),
        ("", ""),
        ("bad.s", ""),
        ("empty.s", ""),
        ("ü n.s", ""),
        ("d/x.s/y", ""),
        ("./d/../main.s", ".include asm \"main.s\"\n"),
        ("\u{f7ff}.s", ""),
        ("m\nain.s", ""),
        ("main.s", ".include asm \"d/x.s\"\n.include asm \"d/x.s\"\n"),
    ];
    let (main, t) = cases[src.usize(cases.len())];
    ctx.write("main.s", t.as_bytes());
    let a = must_end(ctx, &[], main, false)?;
    let b = must_end(ctx, &[], main, true)?;
    okn(true, format!("{} {:?}: {} {}", main, t, a, b), vec![a, b], 2)
}

// ------------------------------------------------------------------------ C18

fn be32(o: &mut Vec<u8>, v: u32) {
    o.extend(v.to_be_bytes());
}

/// A PNG with correct checksums and wrong contents.
fn odd_png(src: &mut Src) -> Vec<u8> {
    let w = *src.pick(&[1u32, 2, 32, 72, 0, 9, 300]);
    let h = *src.pick(&[1u32, 2, 32, 56, 0, 7]);
    let depth = *src.pick(&[8u8, 8, 8, 1, 2, 4, 16, 0, 3]);
    let ct = *src.pick(&[6u8, 2, 0, 3, 4, 1, 7, 6]);
    let mut o = vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10];
    let mut ih = vec![];
    be32(&mut ih, w);
    be32(&mut ih, h);
    ih.extend([depth, ct, 0, 0, *src.pick(&[0u8, 0, 0, 1, 2])]);
    img::chunk(&mut o, b"IHDR", &ih);
    if ct == 3 && src.chance(3, 4) || src.chance(1, 8) {
        let n = src.usize(6) * 3 + if src.chance(1, 4) { 1 } else { 0 };
        img::chunk(&mut o, b"PLTE", &vec![77; n]);
        if src.bool() {
            let n = src.usize(10);
            img::chunk(&mut o, b"tRNS", &vec![5; n]);
        }
    }
    let anim = src.bool();
    if anim {
        let mut a = vec![];
        be32(&mut a, *src.pick(&[1u32, 2, 3, 0, 0xFFFF]));
        be32(&mut a, 0);
        img::chunk(&mut o, b"acTL", &a);
    }
    let bits = match ct {
        2 => 3,
        4 => 2,
        6 => 4,
        _ => 1,
    } * depth as usize;
    let row = 1 + (w as usize * bits + 7) / 8;
    let full = row * h as usize;
    let mut seq = 0u32;
    let frames = if anim { src.usize(4) } else { 1 };
    for i in 0..frames.max(1) {
        if anim {
            let mut fc = vec![];
            be32(&mut fc, if src.chance(1, 8) { 9 } else { seq });
            seq += 1;
            be32(&mut fc, if src.chance(1, 5) { *src.pick(&[0, 1, 2, 400, 0x7FFF_FFFF]) } else { w });
            be32(&mut fc, if src.chance(1, 5) { *src.pick(&[0, 1, 2, 400]) } else { h });
            be32(&mut fc, if src.chance(1, 5) { *src.pick(&[1, 31, 400, 0xFFFF_FFFF]) } else { 0 });
            be32(&mut fc, if src.chance(1, 5) { 3 } else { 0 });
            fc.extend([0, *src.pick(&[1u8, 0, 255]), 0, *src.pick(&[100u8, 0, 1])]);
            fc.extend([*src.pick(&[0u8, 1, 2, 3]), *src.pick(&[0u8, 1, 2])]);
            img::chunk(&mut o, b"fcTL", &fc);
        }
        let n = match src.below(6) {
            0 => src.usize(full + 1),
            1 => full + 5,
            _ => full,
        };
        let fill = src.below(6) as u8;
        let mut raw: Vec<u8> = (0..n).map(|i| if row > 0 && i % row == 0 { fill } else { (i * 31) as u8 }).collect();
        if raw.len() > 3 && src.chance(1, 4) {
            raw[0] = 200;
        }
        let mut z = img::zlib(&raw);
        if src.chance(1, 5) {
            let at = src.usize(z.len());
            z[at] ^= 1 << src.below(8);
        }
        if src.chance(1, 8) {
            let n = src.usize(z.len());
            z.truncate(n);
        }
        if i == 0 {
            if src.chance(11, 12) {
                img::chunk(&mut o, b"IDAT", &z);
            }
        } else {
            let mut d = seq.to_be_bytes().to_vec();
            seq += 1;
            d.extend(z);
            img::chunk(&mut o, b"fdAT", &d);
        }
    }
    if src.chance(5, 6) {
        img::chunk(&mut o, b"IEND", &[]);
    }
    o
}

fn odd_gif(src: &mut Src) -> Vec<u8> {
    let mut o = if src.chance(1, 10) { b"GIF87a".to_vec() } else { b"GIF89a".to_vec() };
    let w = *src.pick(&[1u16, 32, 8, 0, 300]);
    let h = *src.pick(&[1u16, 32, 8, 0, 5]);
    o.extend(w.to_le_bytes());
    o.extend(h.to_le_bytes());
    let gct = src.chance(3, 4);
    o.extend([if gct { 0x80 | 1 } else { 0 }, src.below(5) as u8, 0]);
    if gct {
        o.extend([0, 0, 0, 255, 255, 255, 255, 0, 0, 0, 255, 0]);
    }
    for _ in 0..src.usize(4) {
        if src.chance(2, 3) {
            o.extend([0x21, 0xF9, 4, src.below(32) as u8, src.below(9) as u8, src.below(2) as u8, src.below(6) as u8, 0]);
        }
        if src.chance(1, 6) {
            o.extend([0x21, 0xFE, 3, b'a', b'b', b'c', 0]);
        }
        o.push(0x2C);
        let x = if src.chance(1, 4) { *src.pick(&[1u16, 31, 400, 65535]) } else { 0 };
        let y = if src.chance(1, 4) { *src.pick(&[1u16, 31, 400, 65535]) } else { 0 };
        let fw = if src.chance(1, 3) { *src.pick(&[0u16, 1, 2, 33, 400]) } else { w };
        let fh = if src.chance(1, 3) { *src.pick(&[0u16, 1, 2, 33, 400]) } else { h };
        for v in [x, y, fw, fh] {
            o.extend(v.to_le_bytes());
        }
        let lct = src.chance(1, 4);
        o.push(if lct { 0x80 } else { 0 } | if src.chance(1, 4) { 0x40 } else { 0 });
        if lct {
            o.extend([1, 2, 3, 4, 5, 6]);
        }
        let min = *src.pick(&[2u8, 2, 2, 8, 1, 0, 12, 200]);
        o.push(min);
        let n = match src.below(4) {
            0 => src.usize(20),
            1 => fw as usize * fh as usize + 7,
            _ => fw as usize * fh as usize,
        };
        let idx: Vec<u8> = (0..n.min(20000)).map(|i| (i % 4) as u8).collect();
        let mut d = if (2..=8).contains(&min) { img::lzw(min, &idx) } else { vec![1, 2, 3, 4] };
        if src.chance(1, 4) && !d.is_empty() {
            let at = src.usize(d.len());
            d[at] ^= 1 << src.below(8);
        }
        for c in d.chunks(255) {
            o.push(c.len() as u8);
            o.extend(c);
        }
        if src.chance(7, 8) {
            o.push(0);
        }
    }
    if src.chance(5, 6) {
        o.push(0x3B);
    }
    o
}

fn edit_bytes(src: &mut Src, b: &mut Vec<u8>) {
    for _ in 0..1 + src.usize(4) {
        let len = b.len();
        if len == 0 {
            break;
        }
        let at = if src.bool() { src.usize(len.min(64)) } else { src.usize(len) };
        match src.below(5) {
            0 => b[at] ^= 1 << src.below(8),
            1 => b[at] = *src.pick(&[0u8, 1, 127, 128, 255]),
            2 => b.truncate(at),
            3 => {
                let e = (at + 1 + src.usize(8)).min(len);
                b.drain(at..e);
            }
            _ => {
                let x = src.below(256) as u8;
                b.insert(at, x);
            }
        }
    }
}

/// Larger canvases than these are only a matter of memory.
fn huge(b: &[u8], ext: &str) -> bool {
    let be = |i: usize| b.get(i..i + 4).map(|x| u32::from_be_bytes(x.try_into().unwrap()) as u64).unwrap_or(0);
    let le = |i: usize| b.get(i..i + 4).map(|x| u32::from_le_bytes(x.try_into().unwrap()) as u64).unwrap_or(0);
    let l2 = |i: usize| b.get(i..i + 2).map(|x| u16::from_le_bytes(x.try_into().unwrap()) as u64).unwrap_or(0);
    let too = |w: u64, h: u64| w.saturating_mul(h) > 2_000_000 || w > 100_000 || h > 100_000;
    match ext {
        "png" => too(be(16), be(20)),
        "gif" => {
            // any pair of 16-bit numbers could be a frame's size
            too(l2(6), l2(8)) || (10..b.len().saturating_sub(9)).any(|i| b[i] == 0x2C && too(l2(i + 5), l2(i + 7)))
        }
        "bmp" => {
            let w = le(18) as u32 as i32;
            let h = le(22) as u32 as i32;
            too(w.unsigned_abs() as u64, h.unsigned_abs() as u64)
        }
        _ => {
            let t: String = b.iter().take(40).map(|c| if c.is_ascii_digit() { *c as char } else { ' ' }).collect();
            t.split_whitespace().any(|n| n.len() > 4)
        }
    }
}

fn end_all(ctx: &mut Ctx, file: &str, rp: &str, cmds: &[Vec<&str>]) -> Result<(u64, u64), Stop> {
    let (mut okc, mut bad) = (0, 0);
    let _ = file;
    for c in cmds {
        let r = ctx.wb(c)?;
        if !r.clean() {
            return fail(format!("waterbear {}: {}", c.join(" "), r.how()), format!("{}--- command\nwaterbear {}\n", rp, c.join(" ")));
        }
        if r.rejected() && r.err.trim().is_empty() {
            return fail(format!("waterbear {}: exit 1 without a message", c.join(" ")), format!("{}--- command\nwaterbear {}\n", rp, c.join(" ")));
        }
        if r.ok() {
            okc += 1
        } else {
            bad += 1
        }
    }
    Ok((okc, bad))
}

fn c18_images(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut untouched = false;
    let (ext, mut b): (&str, Vec<u8>) = match src.below(10) {
        8 | 9 => {
            // a sound picture with few colours and the wrong size
            untouched = src.chance(3, 4);
            let (w, h) = match src.below(4) {
                0 => (32 + src.usize(3) - 1, 32 + src.usize(3) - 1),
                1 => (72 + src.usize(3) - 1, 56 + src.usize(3) - 1),
                2 => (1 + src.usize(90), 1 + src.usize(70)),
                _ => (*src.pick(&[1usize, 31, 32, 33, 71, 72, 73]), *src.pick(&[1usize, 31, 32, 33, 55, 56, 57])),
            };
            let n = 1 + src.usize(17);
            let pal = img::colours(src, n, false, true);
            let f = 1 + src.weighted(&[6, 1]);
            let frames: Vec<Vec<img::Px>> = (0..f).map(|_| img::paint(src, w * h, &pal)).collect();
            let p = img::Pic { w, h, frames, delay: vec![if f > 1 { 100 } else { 0 }; f] };
            img::store(src, &p)
        }
        0 | 1 => ("png", odd_png(src)),
        2 | 3 => ("gif", odd_gif(src)),
        4 => {
            let p = text::sprite_pic(src, 20);
            img::store(src, &p)
        }
        5 => {
            let p = text::icon_pic(src);
            img::store(src, &p)
        }
        6 => {
            let n = src.usize(60);
            let mut v: Vec<u8> = match src.below(4) {
                0 => vec![],
                1 => b"GIF89a".to_vec(),
                2 => vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10],
                _ => b"BM".to_vec(),
            };
            v.extend((0..n).map(|_| src.below(256) as u8));
            (*src.pick(&["png", "gif", "bmp"]), v)
        }
        _ => {
            let p = img::Pic::still(5, 4, vec![[1, 2, 3, 255]; 20]);
            if src.bool() {
                ("bmp", img::bmp(&p))
            } else {
                ("ppm", img::ppm(&p))
            }
        }
    };
    if !untouched && src.chance(1, 2) {
        edit_bytes(src, &mut b);
    }
    // an extension that does not fit the contents
    let ext2 = if src.chance(1, 10) { *src.pick(&["png", "gif", "bmp", "jpg", "tga", "ico", "webp", "txt", "", "GIF", "PNG", "pnm", "tif", "ff", "hdr", "qoi", "dds", "exr"]) } else { ext };
    if ["png", "gif", "bmp", "ppm"].iter().any(|e| huge(&b, e) && (*e == ext || *e == ext2.to_lowercase())) || (ext2 != ext && !["png", "gif", "bmp", "txt", "", "GIF", "PNG"].contains(&ext2)) && b.len() > 200 {
        return ok(false, "", vec!["skipped-huge"]);
    }
    let name = if ext2.is_empty() { "pic".to_string() } else { format!("pic.{}", ext2) };
    ctx.write(&name, &b);
    let eye = img::Pic::still(72, 56, vec![[1, 2, 3, 255]; 72 * 56]);
    ctx.write("good.bmp", &img::bmp(&eye));
    let small = img::Pic::still(32, 32, vec![[1, 2, 3, 255]; 32 * 32]);
    ctx.write("small.bmp", &img::bmp(&small));
    ctx.write("g.s", format!(" .include icon \"small.bmp\" eyecatch=\"{}\"\n", name).as_bytes());
    ctx.write("i.s", format!(" .include icon \"{}\"\n", name).as_bytes());
    ctx.write("e.s", format!(" .include icon \"{}\" eyecatch=\"{}\"\n", name, name).as_bytes());
    ctx.write("s.s", format!(" .include sprite \"{}\" type=\"masked\"\n", name).as_bytes());
    let rp = format!("--- file {} ({} bytes)\nb\"{}\"\n", name, b.len(), b.iter().take(6000).copied().collect::<Vec<u8>>().escape_ascii());
    let cmds: Vec<Vec<&str>> = vec![
        vec!["image", &name, "-f", *src.pick(&["json", "json-pretty", "1bit-asm", "1bit-asm-masked", "nosuch"])],
        vec!["image", &name, "-o", "o.txt"],
        vec!["icon", &name],
        vec!["icon", &name, "-s", *src.pick(&["0", "65535", "3"]), "-e", if src.bool() { &name } else { "good.bmp" }],
        vec!["icon", "small.bmp", "-e", &name],
        vec!["assemble", *src.pick(&["i.s", "s.s", "e.s", "g.s"]), "-o", "o.vms"],
    ];
    let (a, r) = end_all(ctx, &name, &rp, &cmds)?;
    let mut l = vec![];
    if a > 0 {
        l.push("some-accepted");
    }
    if r > 0 {
        l.push("some-refused");
    }
    okn(b.len() > 8, format!("{} {} bytes hash {:016x}", name, b.len(), hash_bytes(&b)), l, cmds.len() as u64)
}

fn c18_options(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let p = text::icon_pic(&mut Src::replay(vec![]));
    let png = img::png_mode(&mut Src::replay(vec![]), &p, &img::Mode::Rgba8, false);
    ctx.write("a.png", &png);
    ctx.write("d/x", b"");
    ctx.write("empty.png", b"");
    ctx.write("a.vms", &[7u8; 0x300]);
    ctx.write("empty.vms", b"");
    ctx.write("i.txt", &png);
    let cases: &[(&[&str], i32)] = &[
        (&["icon", "a.png", "-s", "x"], 1),
        (&["icon", "a.png", "-s", ""], 1),
        (&["icon", "a.png", "-s", "-1"], 1),
        (&["icon", "a.png", "-s", "65536"], 1),
        (&["icon", "a.png", "-s", "1.5"], 1),
        (&["icon", "a.png", "-s", "99999999999999999999"], 1),
        (&["icon", "a.png", "-s", " 5"], 1),
        (&["icon", "a.png", "-s", "ü"], 1),
        (&["icon", "a.png", "-s", "65535"], 0),
        (&["icon", "a.png", "-e", "nope.png"], 1),
        (&["icon", "a.png", "-e", "empty.png"], 1),
        (&["icon", "a.png", "-e", "d"], 1),
        (&["icon", "a.png", "-e", ""], 1),
        (&["icon", "a.png", "-e", "a.png"], 1),
        (&["icon", "nope.png"], 1),
        (&["icon", "d"], 1),
        (&["icon", ""], 1),
        (&["icon", "empty.png"], 1),
        (&["icon", "i.txt"], 1),
        (&["icon", "a.png"], 0),
        (&["image", "nope.png"], 1),
        (&["image", "d"], 1),
        (&["image", ""], 1),
        (&["image", "i.txt"], 1),
        (&["image", "empty.png"], 1),
        (&["image", "a.png", "-o", "nodir/o"], 1),
        (&["image", "a.png", "-o", "d"], 1),
        (&["image", "a.png", "-o", ""], 1),
        (&["image", "a.png", "-f", "json", "-o", "o.json"], 0),
        (&["image", "a.png/", "-f", "json"], 1),
        (&["vmi", "nope.vms"], 1),
        (&["vmi", "d"], 1),
        (&["vmi", ""], 1),
        (&["vmi", "empty.vms"], 1),
        (&["vmi", "empty.vms", "-g"], 1),
        (&["vmi", "a.vms", "-o", "nodir/o"], 1),
        (&["vmi", "a.vms", "-o", "d"], 1),
        (&["vmi", "a.vms", "-o", ""], 1),
        (&["vmi", "a.vms", "-g"], 0),
        (&["vmi", "a.vms", "-c", "", "-o", "x.vmi"], 0),
        (&["vmi", "/"], 1),
        (&["vmi", ".."], 1),
        (&["vmi", "."], 1),
        (&["vmi", "d/.."], 1),
        (&["icon", "\u{f7ff}.png"], 1),
        (&["icon", "a.png", "-s", "\u{f7ff}"], 1),
        (&["icon", "a.png", "-e", "e\u{f7c0}.png"], 1),
        (&["image", "\u{f7ff}.png"], 1),
        (&["image", "a.png", "-f", "\u{f7fe}"], 1),
        (&["vmi", "a\u{f780}.vms"], 1),
        (&["\u{f7ed}\u{f7a0}\u{f780}"], 1),
        (&["icon", "none\nsuch.png"], 1),
    ];
    let (c, want) = cases[src.usize(cases.len())];
    let r = ctx.wb(c)?;
    if r.code != Some(want) || (want == 1 && r.err.trim().is_empty()) {
        return fail(format!("{:?}: expected exit {}, got {}: {}", c, want, r.how(), clip(&r.err, 300)), format!("{:?}\n", c));
    }
    ok(true, format!("{:?}", c), vec![])
}

fn c18_vmi(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = match src.below(4) {
        0 => *src.pick(&[0usize, 1, 0x0F, 0x10, 0x11, 0x2F, 0x30, 0x31, 0x20F, 0x210, 0x22F, 0x230, 0x231]),
        1 => src.usize(0x40),
        2 => src.usize(0x300),
        _ => 0x200 + src.usize(0x200),
    };
    let st = src.below(3);
    let b: Vec<u8> = (0..n).map(|i| if st == 0 { src.below(256) as u8 } else { (i * 7) as u8 }).collect();
    let stem = src.pick(&["a", "abcdefgh", "abcdefghijkl", "averyveryverylongname", "ünï", "日本語日本語", "A.B.C", ".hid", "x y", "vms", "a.vms.b", "-x", "a\u{f7ff}b", "a\nb"]).to_string();
    let ext = src.pick(&[".vms", ".vms", ".VMS", "", ".bin", ".vms.vms", "."]).to_string();
    let name = format!("{}{}", stem, ext);
    ctx.write(&name, &b);
    let path = format!("./{}", name);
    let c = src.pick(&["", "(c) me", "a copyright of exactly 32 bytes!!", "ünïcödé ünïcödé ünïcödé ünïcödé ünïcödé", "日本語日本語日本語日本語日本語", "x", "\n\t\u{1}", "c\u{f7e4}"]).to_string();
    let mut v: Vec<&str> = vec!["vmi", if src.bool() && !name.starts_with('-') { &name } else { &path }];
    let game = src.bool();
    if game {
        v.push("-g");
    }
    if src.bool() {
        v.push("-c");
        v.push(&c);
    }
    if src.bool() {
        v.push("-o");
        v.push(*src.pick(&["o.vmi", "out", "ö", "o\u{f7ff}"]));
    }
    let rp = format!("--- file {} ({} bytes)\n{}\n", name, n, hex(&b));
    let (a, _) = end_all(ctx, &name, &rp, &[v.clone()])?;
    ok(n > 0, format!("{:?} on {} bytes", v, n), vec![if a > 0 { "written" } else { "refused" }])
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C16",
            rule: "generated programs (all statements, macros, includes of every kind) damaged by 1..6 edits of bytes, tokens, numbers, lines; token soup; raw bytes; C header soup; nesting and chains up to 150000 deep; every pair of 150 tokens in four places; every prefix and every one-byte edit of a program with every kind of statement; nesting, length and count extremes around the limits; bad paths and include cycles; programs long in one way only, of which one four times as large may not take more than ten times the CPU time (nor eight times the memory). assemble or expand must end with 0 or 1, a message exactly on 1, an output exactly on 0. Non-trivial: more than 10 bytes.",
            families: vec![
                Family { name: "paths", run: c16_paths, quick: 0, thorough: 0, sweep: Some(40) },
                Family { name: "prefix", run: c16_prefix, quick: 0, thorough: 0, sweep: Some(700) },
                Family { name: "short", run: c16_short, quick: 0, thorough: 0, sweep: Some(WORDS.len()) },
                Family { name: "scaling", run: c16_scaling, quick: 0, thorough: 0, sweep: Some(LONG.len() * 2) },
                Family { name: "extreme", run: c16_extreme, quick: 1200, thorough: 6000, sweep: None },
                Family { name: "mutated", run: c16_mutated, quick: 12000, thorough: 300000, sweep: None },
                Family { name: "tokens", run: c16_tokens, quick: 6000, thorough: 150000, sweep: None },
                Family { name: "raw", run: c16_raw, quick: 3000, thorough: 60000, sweep: None },
                Family { name: "header", run: c16_header, quick: 4000, thorough: 60000, sweep: None },
            ],
            assumptions: &["macro calls and includes that multiply on every level ask for exponentially large programs and are not generated; .text, .string and .cnop sizes stay below some megabytes"],
        },
        Property {
            id: "C18",
            rule: "valid PNG, APNG, GIF, BMP and PPM files with 1..4 byte edits, PNG and GIF files with valid checksums and inconsistent contents, raw bytes, wrong extensions: each through image, icon (with speed and eyecatch) and assemble; VMS files of all lengths around the header sizes with odd names; a table of bad options and paths with the status they must give. Any panic, hang, signal or silent failure is a violation. Non-trivial: more than 8 bytes (images), not empty (VMS).",
            families: vec![
                Family { name: "options", run: c18_options, quick: 0, thorough: 0, sweep: Some(52) },
                Family { name: "images", run: c18_images, quick: 6000, thorough: 120000, sweep: None },
                Family { name: "vmi", run: c18_vmi, quick: 2500, thorough: 40000, sweep: None },
            ],
            assumptions: &["images of more than two million pixels are not generated"],
        },
    ]
}
