//! Generators of valid programs, expressions and operand values.
use crate::engine::Src;
use crate::model::*;

pub const RESERVED: &[&str] = &["equ"];

/// A fresh identifier not in `used` (lower-case compared).
pub fn name(src: &mut Src, used: &mut Vec<String>, local: bool) -> String {
    const STEMS: &[&str] = &[
        "a", "b", "x", "loop", "start", "data_1", "addr", "psw", "acc", "addx", "ld1", "movi", "end", "macro", "byte", "org", "icon",
        "r0", "_u", "k$2", "q.r", "Main", "notx", "brz", "equal", "include", "asm", "e", "f0", "clr", "very_long_label_name_0123456789",
    ];
    let mut base = STEMS[src.usize(STEMS.len())].to_string();
    if src.chance(1, 5) {
        // anything the lexical grammar allows
        const FIRST: &[u8] = b"abzAZ_mnxX";
        const REST: &[u8] = b"abzAZ_mnxX019$.";
        base = (FIRST[src.usize(FIRST.len())] as char).to_string();
        for _ in 0..src.usize(8) {
            base.push(REST[src.usize(REST.len())] as char);
        }
    }
    if local {
        base = format!(".{}", base);
    }
    let mut n = base.clone();
    let mut i = 0;
    loop {
        let low = n.to_lowercase();
        let bad = used.contains(&low)
            || is_mnemonic(&low)
            || RESERVED.contains(&low.as_str())
            || [".byte", ".org", ".word", ".text", ".string", ".include", ".cnop"].contains(&low.as_str());
        if !bad {
            used.push(low);
            return n;
        }
        i += 1;
        n = format!("{}{}", base, i);
    }
}

pub fn interesting(src: &mut Src, lo: i64, hi: i64) -> i64 {
    // lo is the simplest
    match src.below(6) {
        0 => lo,
        1 => hi,
        2 => {
            let c = [0i64, 1, -1, 2, 7, 8, 15, 16, 127, 128, 255, 256, 511, 512, 4095, 4096, 32767, 32768, 65535, -128, -32768, 0x1000, 0x80, 0x100];
            let v = *src.pick(&c);
            if v >= lo && v <= hi {
                v
            } else {
                lo
            }
        }
        _ => src.range(lo, hi),
    }
}

/// An expression that evaluates to exactly `v` under the given symbols.
/// Every intermediate value stays within 32 bits.
pub fn expr_for(src: &mut Src, v: i64, syms: &[(String, i64)], depth: u32) -> E {
    let fits = |x: i64| (I32MIN..=I32MAX).contains(&x);
    let leaf = |v: i64| {
        if v == I32MIN {
            // not expressible as a negated literal
            bin('-', num(I32MIN + 1), num(1))
        } else {
            num(v)
        }
    };
    let pickw: &[u64] = if depth == 0 { &[6, 5] } else { &[5, 5, 2, 2, 2, 2, 2, 1, 1, 2] };
    match src.weighted(pickw) {
        0 => leaf(v),
        1 => {
            if syms.is_empty() {
                return leaf(v);
            }
            // a symbol equal to v if there is one
            let same: Vec<&(String, i64)> = syms.iter().filter(|s| s.1 == v).collect();
            if !same.is_empty() && src.chance(3, 4) {
                return sym(&same[src.usize(same.len())].0);
            }
            let (n, sv) = src.pick(syms).clone();
            let d = v - sv;
            if d == 0 {
                sym(&n)
            } else if !fits(d) {
                leaf(v)
            } else if d > 0 || d == I32MIN {
                bin('+', sym(&n), leaf(d))
            } else {
                bin('-', sym(&n), leaf(-d))
            }
        }
        2 => {
            // a + b
            let a = src.range(-300, 70000);
            let (a, b) = if fits(v - a) { (a, v - a) } else { (v, 0) };
            bin('+', expr_for(src, a, syms, depth - 1), expr_for(src, b, syms, depth - 1))
        }
        3 => {
            let b = src.range(-300, 70000);
            let (a, b) = if fits(v + b) { (v + b, b) } else { (v, 0) };
            bin('-', expr_for(src, a, syms, depth - 1), expr_for(src, b, syms, depth - 1))
        }
        4 => {
            // q*d (+ r)
            let d = *src.pick(&[2i64, 3, 7, -1, -2, 16, 255, 10]);
            let q = v / d;
            let r = v - q * d;
            if !fits(q) || !fits(q * d) {
                return leaf(v);
            }
            let m = bin('*', expr_for(src, q, syms, depth - 1), expr_for(src, d, syms, depth - 1));
            if r == 0 {
                m
            } else if src.bool() {
                bin('+', m, expr_for(src, r, syms, depth - 1))
            } else {
                bin('+', expr_for(src, r, syms, depth - 1), m)
            }
        }
        5 => {
            // truncating division
            let d = *src.pick(&[1i64, 2, 3, 5, -2, -7, 256]);
            let n = v * d;
            // a numerator with the same truncated quotient
            let rem = src.below(d.unsigned_abs()) as i64;
            let n = if v > 0 {
                n + if d > 0 { rem } else { -rem }
            } else if v < 0 {
                n + if d > 0 { -rem } else { rem }
            } else {
                *src.pick(&[0i64, rem, -rem])
            };
            if !fits(n) || n / d != v {
                return leaf(v);
            }
            bin('/', expr_for(src, n, syms, depth - 1), expr_for(src, d, syms, depth - 1))
        }
        6 => {
            // byte selectors
            if (0..=255).contains(&v) {
                if src.bool() {
                    let k = src.range(-3, 300);
                    un('<', expr_for(src, v + 256 * k, syms, depth - 1))
                } else {
                    let k = src.range(-3, 300);
                    let lo = src.range(0, 255);
                    un('>', expr_for(src, v * 256 + lo + 65536 * k, syms, depth - 1))
                }
            } else {
                leaf(v)
            }
        }
        7 => {
            if fits(-v) {
                un('-', expr_for(src, -v, syms, depth - 1))
            } else {
                leaf(v)
            }
        }
        8 => {
            let y = src.range(-70000, 70000);
            bin('^', expr_for(src, v ^ y, syms, depth - 1), expr_for(src, y, syms, depth - 1))
        }
        _ => {
            if src.bool() {
                // v = a & b : set extra disjoint bits on both sides
                let x = src.range(0, 0xFFFF) & !v;
                let y = src.range(0, 0xFFFF) & !v & !x;
                bin('&', expr_for(src, v | x, syms, depth - 1), expr_for(src, v | y, syms, depth - 1))
            } else {
                let m = src.range(0, 0xFFFF);
                let a = v & m;
                let b = (v & !m) | (v & src.range(0, 0xFFFF));
                bin('|', expr_for(src, a, syms, depth - 1), expr_for(src, b, syms, depth - 1))
            }
        }
    }
}

/// A value accepted by operand kind `k` for an instruction followed by address `next`.
pub fn operand_value(src: &mut Src, k: K, next: i64, syms: &[(String, i64)]) -> Option<i64> {
    let (lo, hi) = match k {
        K::I8 => (0, 255),
        K::D9 => (0, 511),
        K::Ri => (0, 3),
        K::B3 => (0, 7),
        K::A16 => (0, 65535),
        K::A12 => {
            let b = next & 0xF000;
            (b, b + 0xFFF)
        }
        K::R8 => ((next - 128).max(0), (next + 127).min(65535)),
        K::R16 => ((next - 32769).max(0), (next + 32766).min(65535)),
    };
    if lo > hi {
        return None;
    }
    // prefer a label when one fits
    if matches!(k, K::A12 | K::A16 | K::R8 | K::R16) {
        let fit: Vec<i64> = syms.iter().map(|s| s.1).filter(|v| *v >= lo && *v <= hi).collect();
        if !fit.is_empty() && src.chance(2, 3) {
            return Some(fit[src.usize(fit.len())]);
        }
    }
    Some(match src.below(5) {
        0 => lo,
        1 => hi,
        2 => interesting(src, lo, hi),
        _ => src.range(lo, hi),
    })
}

pub const STR_CHARS: &[&str] = &[
    "a", "b", "Z", "0", "9", " ", "~", "!", "'", "\"", "\\", ";", "#", "%", "*", ",", ":", "@", "\n", "\r", "\t", "\u{8}", "\0", "é", "ß", "日", "😀", "$", "n", "t", "r", "\r\n", "\n*", "\u{7f}", "\u{b}", "\u{1b}", "\u{85}", "\u{feff}", "e\u{301}",
];

pub fn string(src: &mut Src, max: usize) -> String {
    let n = src.usize(max + 1);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(src.pick(STR_CHARS));
    }
    s
}

#[derive(Clone)]
pub struct Opts {
    pub max_stmts: usize,
    pub orgs: bool,
    pub far_orgs: bool,
    pub locals: bool,
    pub equs: bool,
    pub depth: u32,
    pub data: bool,
    pub back_orgs: bool,
}

impl Default for Opts {
    fn default() -> Opts {
        Opts { max_stmts: 24, orgs: true, far_orgs: true, locals: true, equs: true, depth: 3, data: true, back_orgs: true }
    }
}

#[derive(Clone, Debug)]
enum Sk {
    Label(String),
    Instr(usize),
    Byte(Vec<Option<String>>),
    Word(usize),
    Text(i64, String),
    Str(i64, String),
    Org(i64),
    Cnop(i64, i64),
    Equ(String),
}

/// A program that the reference accepts.
pub fn program(src: &mut Src, o: &Opts) -> Vec<St> {
    let n = 1 + src.usize(o.max_stmts);
    let mut used: Vec<String> = vec![];
    let mut local_used: Vec<String> = vec![];
    let mut sk: Vec<Sk> = vec![];
    let mut pos = 0i64;
    for _ in 0..n {
        let w = [
            12u64,
            6,
            if o.locals { 4 } else { 0 },
            if o.data { 5 } else { 0 },
            if o.data { 3 } else { 0 },
            if o.data { 2 } else { 0 },
            if o.orgs { 2 } else { 0 },
            if o.orgs { 2 } else { 0 },
            if o.equs { 4 } else { 0 },
        ];
        match src.weighted(&w) {
            0 => {
                let f = src.usize(FORMS.len());
                // leave room for relative targets within 0..65535
                if pos < 65400 {
                    sk.push(Sk::Instr(f));
                    pos += isize_of(f) as i64;
                } else {
                    sk.push(Sk::Instr(FORMS.iter().position(|f| f.0 == "nop").unwrap()));
                    pos += 1;
                }
            }
            1 => {
                local_used.clear();
                sk.push(Sk::Label(name(src, &mut used, false)));
            }
            2 => sk.push(Sk::Label(name(src, &mut local_used, true))),
            3 => {
                let k = 1 + src.usize(5);
                let mut v = vec![];
                for _ in 0..k {
                    if src.chance(1, 4) {
                        v.push(Some(string(src, 6)));
                    } else {
                        v.push(None);
                    }
                }
                pos += v.iter().map(|x| x.as_ref().map(|s| s.len()).unwrap_or(1) as i64).sum::<i64>();
                sk.push(Sk::Byte(v));
            }
            4 => {
                let k = 1 + src.usize(4);
                pos += 2 * k as i64;
                sk.push(Sk::Word(k));
            }
            5 => {
                let s = string(src, 8);
                let n = s.len() as i64 + *src.pick(&[0i64, 0, 1, 2, 5, 20]);
                pos += n;
                sk.push(if src.bool() { Sk::Text(n, s) } else { Sk::Str(n, s) });
            }
            6 => {
                let a = match src.below(6) {
                    0 | 1 => pos + src.range(0, 40),
                    2 => {
                        if o.back_orgs {
                            src.range(0, pos.min(0xFFFF))
                        } else {
                            pos
                        }
                    }
                    3 => src.range(0, 0x300),
                    4 => {
                        if o.far_orgs && src.chance(1, 6) {
                            *src.pick(&[0xFFFFi64, 0xFFFE, 0xFFF0, 0xFF00, 0x8000, 0x7FFE, 0x1000, 0xFFE])
                        } else {
                            pos
                        }
                    }
                    _ => pos,
                };
                let a = if o.back_orgs { a } else { a.max(pos) };
                let a = a.min(0xFFFF);
                sk.push(Sk::Org(a));
                pos = a;
            }
            7 => {
                let m = *src.pick(&[1i64, 2, 3, 4, 16, 64, 100, 0x200]);
                let a = if src.chance(1, 3) { src.range(0, 20) } else { 0 };
                sk.push(Sk::Cnop(a, m));
                let r = pos % m;
                pos = if r == 0 { pos } else { pos + m - r } + a;
            }
            _ => sk.push(Sk::Equ(name(src, &mut used, false))),
        }
    }
    fill(src, &sk, o)
}

fn dummy(sk: &Sk) -> St {
    match sk {
        Sk::Label(n) => St::Label(n.clone()),
        Sk::Instr(f) => St::Instr(
            FORMS[*f].0.to_string(),
            FORMS[*f]
                .1
                .iter()
                .map(|k| match k {
                    K::I8 => Op::Imm(num(0)),
                    K::Ri => Op::Ind(0),
                    _ => Op::Dir(num(0)),
                })
                .collect(),
        ),
        Sk::Byte(v) => St::Byte(
            v.iter()
                .map(|b| match b {
                    Some(s) => BV::Str(s.clone()),
                    None => BV::Ex(num(0)),
                })
                .collect(),
        ),
        Sk::Word(k) => St::Word(vec![num(0); *k]),
        Sk::Text(n, s) => St::Text(*n, s.clone()),
        Sk::Str(n, s) => St::Str(*n, s.clone()),
        Sk::Org(a) => St::Org(*a),
        Sk::Cnop(a, m) => St::Cnop(*a, *m),
        Sk::Equ(n) => St::Equ(n.clone(), num(0)),
    }
}

fn fill(src: &mut Src, sk: &[Sk], o: &Opts) -> Vec<St> {
    let d: Vec<St> = sk.iter().map(dummy).collect();
    let lay = layout(&d).expect("generated layout");
    let globals: Vec<(String, i64)> = lay.globals.iter().map(|(k, v)| (orig(&d, k), *v)).collect();
    let mut names = globals.clone();
    let mut out = d.clone();
    // variables first, in program order
    for (i, s) in sk.iter().enumerate() {
        if let Sk::Equ(n) = s {
            let v = match src.below(5) {
                0 => src.range(0, 255),
                1 => src.range(-200, 70000),
                2 => interesting(src, I32MIN + 1, I32MAX),
                3 => lay.pos[i],
                _ => src.range(0, 0x1FF),
            };
            let e = expr_for(src, v, &names, o.depth);
            out[i] = St::Equ(n.clone(), e);
            names.push((n.clone(), v));
        }
    }
    for (i, s) in sk.iter().enumerate() {
        let scope = &lay.scope[i];
        let mut syms = names.clone();
        let mut loc: Vec<(String, i64)> = lay.locals.iter().filter(|(k, _)| &k.0 == scope).map(|(k, v)| (orig(&d, &k.1), *v)).collect();
        loc.sort();
        // locals twice: make them likely
        syms.extend(loc.clone());
        syms.extend(loc);
        match s {
            Sk::Instr(f) => {
                let next = lay.pos[i] + isize_of(*f) as i64;
                let mut ops = vec![];
                for k in FORMS[*f].1 {
                    let labels: Vec<(String, i64)> = syms.clone();
                    let v = operand_value(src, *k, next, &labels).unwrap_or(0);
                    ops.push(match k {
                        K::Ri => Op::Ind(v as u8),
                        K::I8 => Op::Imm(expr_for(src, v, &syms, o.depth)),
                        _ => Op::Dir(expr_for(src, v, &syms, o.depth)),
                    });
                }
                out[i] = St::Instr(FORMS[*f].0.to_string(), ops);
            }
            Sk::Byte(vs) => {
                out[i] = St::Byte(
                    vs.iter()
                        .map(|b| match b {
                            Some(s) => BV::Str(s.clone()),
                            None => {
                                let v = interesting(src, -128, 255);
                                BV::Ex(expr_for(src, v, &syms, o.depth))
                            }
                        })
                        .collect(),
                )
            }
            Sk::Word(k) => {
                out[i] = St::Word(
                    (0..*k)
                        .map(|_| {
                            let v = interesting(src, -32768, 65535);
                            expr_for(src, v, &syms, o.depth)
                        })
                        .collect(),
                )
            }
            _ => {}
        }
    }
    out
}

/// The spelling used in the source for a lower-cased name.
fn orig(d: &[St], low: &str) -> String {
    for s in d {
        if let St::Label(n) = s {
            if n.to_lowercase() == *low {
                return n.clone();
            }
        }
    }
    low.to_string()
}
