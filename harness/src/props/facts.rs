//! C28: what an error message says about the values at hand is true.
use crate::engine::*;
use crate::gen;
use crate::img::{self, Pic, Px};
use crate::model::*;
use crate::props::dis;
use crate::render;
use crate::tool::*;

#[derive(Clone, Debug)]
enum Fact {
    /// a whole decimal number
    Dec(i64),
    /// a whole number after 0x or $
    Hex(u64),
    /// a text, in any letter case
    Says(String),
    /// a text that must not be there, in any letter case
    Not(String),
    /// texts that follow one another, white space counting as one blank
    Order(Vec<String>),
    Any(Vec<Fact>),
    All(Vec<Fact>),
}
use Fact::*;

struct Words {
    low: String,
    dec: Vec<i64>,
    hex: Vec<u64>,
}

impl Words {
    fn new(s: &str) -> Words {
        let c: Vec<char> = s.chars().collect();
        let mut dec = vec![];
        let mut hex = vec![];
        let mut i = 0;
        let part = |x: char| x.is_alphanumeric() || x == '_' || x == '.';
        while i < c.len() {
            let before = if i > 0 { c[i - 1] } else { ' ' };
            let zx = c[i] == '0' && i + 1 < c.len() && (c[i + 1] == 'x' || c[i + 1] == 'X');
            if !part(before) && (zx || c[i] == '$') {
                let mut j = if zx { i + 2 } else { i + 1 };
                let start = j;
                while j < c.len() && c[j].is_ascii_hexdigit() {
                    j += 1;
                }
                if j > start {
                    if let Ok(v) = u64::from_str_radix(&c[start..j].iter().collect::<String>(), 16) {
                        hex.push(v);
                    }
                    i = j;
                    continue;
                }
            }
            if c[i].is_ascii_digit() && !part(before) {
                let start = i;
                while i < c.len() && c[i].is_ascii_digit() {
                    i += 1;
                }
                if i < c.len() && (c[i].is_alphabetic() || c[i] == '_') {
                    continue;
                }
                if let Ok(v) = c[start..i].iter().collect::<String>().parse::<i64>() {
                    dec.push(if before == '-' { -v } else { v });
                }
                continue;
            }
            i += 1;
        }
        Words { low: s.to_lowercase(), dec, hex }
    }
    fn holds(&self, f: &Fact) -> bool {
        match f {
            Dec(v) => self.dec.contains(v),
            Hex(v) => self.hex.contains(v),
            Says(s) => self.low.contains(&s.to_lowercase()),
            Order(v) => {
                let flat = self.low.split_whitespace().collect::<Vec<_>>().join(" ");
                let mut at = 0;
                v.iter().all(|s| match flat[at..].find(&s.to_lowercase()) {
                    Some(i) => {
                        at += i + s.len();
                        true
                    }
                    None => false,
                })
            }
            Not(s) => !self.low.contains(&s.to_lowercase()),
            Any(v) => v.iter().any(|f| self.holds(f)),
            All(v) => v.iter().all(|f| self.holds(f)),
        }
    }
}

/// The message proper: after the cross, before the first place.
fn head(err: &str) -> String {
    let body = err.splitn(2, '✘').nth(1).unwrap_or(err);
    let mut out = vec![];
    for l in body.split('\n') {
        let t = l.trim_end();
        // path:line:column
        let p: Vec<&str> = t.rsplitn(3, ':').collect();
        if p.len() == 3 && !p[1].is_empty() && p[1].bytes().all(|b| b.is_ascii_digit()) && p[0].starts_with(|c: char| c.is_ascii_digit()) {
            break;
        }
        out.push(l);
    }
    out.join("\n")
}

fn check(r: &Run, facts: &[Fact], what: &'static str, whole: bool, rp: String) -> Result<(), Stop> {
    let rp = format!("{}--- message\n{}\n", rp, r.err);
    if !r.rejected() {
        return fail(format!("{}: {}", what, r.how()), rp);
    }
    let h = if whole { r.err.clone() } else { head(&r.err) };
    let w = Words::new(&h);
    for f in facts {
        if !w.holds(f) {
            return fail(format!("{}: the message should state {:?}; it says {:?}", what, f, clip(h.trim(), 300)), rp);
        }
    }
    Ok(())
}

/// A valid program, the global symbols, and where its end stands.
fn base(src: &mut Src) -> Option<(Vec<St>, Vec<(String, i64)>, i64, Vec<String>)> {
    let o = gen::Opts { max_stmts: 7, far_orgs: false, ..Default::default() };
    let mut sts = gen::program(src, &o);
    let mut used: Vec<String> = vec![];
    // some room in the address space
    if src.bool() {
        sts.push(St::Org(match src.below(3) {
            0 => src.range(0, 0xFFF0),
            1 => 0x1000 * src.range(1, 15) + src.range(-6, 6),
            _ => src.range(0, 600),
        }));
    }
    let im = match reference(&sts) {
        Ok(i) => i,
        Err(_) => return None,
    };
    let mut syms: Vec<(String, i64)> = vec![];
    for (n, v) in im.lay.globals.iter().chain(im.vars.iter()) {
        syms.push((n.clone(), *v));
        used.push(n.clone());
    }
    for st in &sts {
        if let St::Label(n) = st {
            used.push(n.to_lowercase());
        }
    }
    Some((sts, syms, im.lay.end, used))
}

fn run_text(ctx: &mut Ctx, text: &str) -> Result<Run, Stop> {
    ctx.write("main.s", text.as_bytes());
    ctx.wb(&["assemble", "main.s", "-o", "out.vms"])
}

fn retry() -> CaseResult {
    ok(false, "", vec!["no-base"])
}

/// `st` at the end of the program, perhaps as the body of a macro with the wrong value as argument.
fn finish(src: &mut Src, sts: &[St], st: St, tail: bool) -> String {
    let mut v = sts.to_vec();
    if let St::Instr(m, ops) = &st {
        if src.chance(1, 4) {
            // the last operand that is an expression becomes the argument
            if let Some(i) = ops.iter().rposition(|o| matches!(o, Op::Dir(_) | Op::Imm(_))) {
                let mut o2 = ops.clone();
                let e = match &ops[i] {
                    Op::Dir(e) => {
                        o2[i] = Op::Dir(E::MArg("zzp".into()));
                        e.clone()
                    }
                    Op::Imm(e) => {
                        o2[i] = Op::Imm(E::MArg("zzp".into()));
                        e.clone()
                    }
                    _ => unreachable!(),
                };
                let body = render::R::plain().instr(m, &o2);
                let mut t = render::fancy(src, &v);
                if !t.ends_with('\n') {
                    t.push('\n');
                }
                t.push_str(&format!("%macro zzfact %zzp\n  {}\n%end\n  zzfact {}\n", body, render::plain_expr(&e)));
                return t;
            }
        }
    }
    v.push(st);
    if tail && src.bool() {
        v.push(St::Byte(vec![BV::Ex(num(1))]));
    }
    render::fancy(src, &v)
}

/// Values that do not fit an operand.
fn c28_operands(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (sts, syms, pos, _) = match base(src) {
        Some(x) => x,
        None => return retry(),
    };
    let forms: Vec<usize> = (0..FORMS.len()).filter(|f| FORMS[*f].1.iter().any(|k| *k != K::Ri)).collect();
    let f = *src.pick(&forms);
    let next = pos + isize_of(f) as i64;
    let ks = FORMS[f].1;
    let which: Vec<usize> = (0..ks.len()).filter(|i| ks[*i] != K::Ri).collect();
    let w = *src.pick(&which);
    let over = |src: &mut Src, bits: u32| -> i64 {
        let lim = 1i64 << bits;
        match src.below(6) {
            0 => lim,
            1 => lim + src.range(0, 40),
            2 => -1,
            3 => -src.range(1, 70000),
            4 => lim * src.range(1, 9) + src.range(0, lim - 1),
            _ => src.range(lim, I32MAX),
        }
    };
    let unsigned = |v: i64, bits: i64| vec![Dec(v), Dec(bits), Says("unsigned".into())];
    let (v, facts, what): (i64, Vec<Fact>, &'static str) = match ks[w] {
        K::I8 => {
            let v = over(src, 8);
            (v, unsigned(v, 8), "immediate")
        }
        K::D9 => {
            let v = over(src, 9);
            (v, unsigned(v, 9), "direct address")
        }
        K::B3 => {
            let v = over(src, 3);
            (v, unsigned(v, 3), "bit number")
        }
        K::A16 => {
            let v = over(src, 16);
            (v, unsigned(v, 16), "16-bit address")
        }
        K::A12 if src.chance(1, 3) => {
            let v = over(src, 16);
            (v, unsigned(v, 16), "12-bit address outside the address space")
        }
        K::A12 => {
            let page = next >> 12 & 0xF;
            if next > 0xFFFF {
                return retry();
            }
            let other = (page + src.range(1, 15)) % 16;
            let v = other * 0x1000 + *src.pick(&[0i64, 1, 0xFFF, 0x800, 0x123, 0xABC, next & 0xFFF]);
            let b4 = |x: i64| Says(format!("{:04b}", x));
            let b = |x: i64| format!("{:04b}", x);
            let roles = vec![
                Order(vec!["target".into(), format!("0x{:04x}", v), "position".into(), format!("0x{:04x}", next)]),
                Order(vec![format!("target: {}", b(other))]),
                Order(vec![format!("position: {}", b(page))]),
            ];
            (v, vec![Hex(v as u64), Hex(next as u64), b4(page), b4(other), All(roles)], "other page")
        }
        K::R8 | K::R16 => {
            let (bits, bias) = if ks[w] == K::R8 { (8, 0) } else { (16, 1) };
            if src.chance(1, 3) {
                let v = match src.below(3) {
                    0 => 65536 + src.range(0, 100),
                    1 => src.range(65536, I32MAX),
                    _ => -src.range(1, 100000),
                };
                let mut fs = vec![Says("address".into())];
                if v > 0 {
                    fs.push(Any(vec![Hex(v as u64), Dec(v)]));
                } else {
                    fs.push(Any(vec![Dec(v), Hex(v as i32 as u32 as u64), Says(format!("-0x{:x}", -v)), Says(format!("-${:x}", -v))]));
                }
                (v, fs, "target outside the address space")
            } else {
                let lim = 1i64 << (bits - 1);
                let mut c = vec![];
                for d in [lim, lim + 1, -lim - 1, -lim - 2, lim + src.range(0, 300), -lim - 1 - src.range(0, 300), src.range(0, 65535) - next] {
                    let v = next + d - bias;
                    if (0..=65535).contains(&v) && !(-lim..lim).contains(&d) {
                        c.push((v, d));
                    }
                }
                if c.is_empty() {
                    return retry();
                }
                let (v, d) = *src.pick(&c);
                (v, vec![Dec(d), Dec(bits), Says("signed".into()), Not("unsigned".into())], "too far")
            }
        }
        K::Ri => unreachable!(),
    };
    let mut ops = vec![];
    for (i, k) in ks.iter().enumerate() {
        ops.push(if *k == K::Ri {
            Op::Ind(src.below(4) as u8)
        } else {
            let x = if i == w {
                v
            } else {
                match gen::operand_value(src, *k, next, &syms) {
                    Some(x) => x,
                    None => return retry(),
                }
            };
            let d = src.below(3) as u32;
            let e = gen::expr_for(src, x, &syms, d);
            if *k == K::I8 {
                Op::Imm(e)
            } else {
                Op::Dir(e)
            }
        });
    }
    let text = finish(src, &sts, St::Instr(FORMS[f].0.to_string(), ops), true);
    let r = run_text(ctx, &text)?;
    check(&r, &facts, what, false, crate::props::lang::repro(&text))?;
    ok(true, format!("{} {:?} {}", what, facts, text), vec![what])
}

/// Data, lengths, positions, division, names.
fn c28_directives(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (mut sts, syms, _, mut used) = match base(src) {
        Some(x) => x,
        None => return retry(),
    };
    let d = src.below(3) as u32;
    let list = |src: &mut Src, e: E, byte: bool, syms: &[(String, i64)]| -> St {
        let n = src.usize(3);
        let m = src.usize(3);
        let other = |src: &mut Src| {
            let v = src.range(0, 200);
            gen::expr_for(src, v, syms, 1)
        };
        if byte {
            let mut v: Vec<BV> = vec![];
            for _ in 0..n {
                v.push(if src.bool() { BV::Str(src.pick(&["a", "é", "10"]).to_string()) } else { BV::Ex(other(src)) });
            }
            v.push(BV::Ex(e));
            for _ in 0..m {
                v.push(BV::Ex(other(src)));
            }
            St::Byte(v)
        } else {
            let mut v: Vec<E> = vec![];
            for _ in 0..n {
                v.push(other(src));
            }
            v.push(e);
            for _ in 0..m {
                v.push(other(src));
            }
            St::Word(v)
        }
    };
    let (st, facts, what): (St, Vec<Fact>, &'static str) = match src.below(8) {
        0 | 1 => {
            let byte = src.bool();
            let (lo, hi) = if byte { (-128, 255) } else { (-32768, 65535) };
            let v = match src.below(6) {
                0 => hi + 1,
                1 => lo - 1,
                2 => hi + src.range(1, 300),
                3 => lo - src.range(1, 300),
                4 => src.range(hi + 1, I32MAX),
                _ => src.range(I32MIN + 1, lo - 1),
            };
            let e = gen::expr_for(src, v, &syms, d);
            (list(src, e, byte, &syms), vec![Dec(v), Says(if byte { "byte" } else { "word" }.into())], if byte { "byte" } else { "word" })
        }
        2 => {
            let s = gen::string(src, 12);
            let n = s.len() as i64;
            if n == 0 {
                return retry();
            }
            let len = src.range(0, n - 1);
            let fs = vec![Dec(n), Dec(len), Order(vec!["given".into(), format!("({})", n), "specified".into(), format!("({})", len)])];
            (if src.bool() { St::Text(len, s) } else { St::Str(len, s) }, fs, "text too long")
        }
        3 => {
            let v = match src.below(3) {
                0 => 0x10000,
                1 => 0x10000 + src.range(0, 300),
                _ => src.range(0x10000, I32MAX),
            };
            (St::Org(v), vec![Any(vec![Hex(v as u64), Dec(v)])], "position")
        }
        4 => {
            let v = match src.below(3) {
                0 => 0,
                1 => src.range(-300, 300),
                _ => src.range(-70000, 70000),
            };
            let l = gen::expr_for(src, v, &syms, d);
            let z = if src.bool() { num(0) } else { gen::expr_for(src, 0, &syms, 2) };
            let mut e = bin('/', l, z);
            match src.below(5) {
                0 => e = bin('+', num(src.range(1, 9)), e),
                1 => e = bin('*', e, num(2)),
                2 => e = un('<', e),
                _ => {}
            }
            let st = match src.below(4) {
                0 => list(src, e, true, &syms),
                1 => list(src, e, false, &syms),
                2 => St::Equ(gen::name(src, &mut used, false), e),
                _ => St::Instr("ld".into(), vec![Op::Dir(e)]),
            };
            (st, vec![Dec(v), Dec(0), Says(format!("{}/0", v))], "division")
        }
        5 => {
            let local = src.chance(1, 4);
            let n = gen::name(src, &mut used, local);
            let mut e = sym(&n);
            match src.below(4) {
                0 => e = bin('+', num(src.range(1, 9)), e),
                1 => e = bin('*', e, num(2)),
                2 => e = un('<', e),
                _ => {}
            }
            let st = match src.below(4) {
                0 => list(src, e, true, &syms),
                1 => list(src, e, false, &syms),
                2 if !local => St::Equ(gen::name(src, &mut used, false), e),
                3 => St::Instr(src.pick(&["callf", "jmp", "br", "brf"]).to_string(), vec![Op::Dir(e)]),
                _ => St::Instr(src.pick(&["ld", "push", "xch"]).to_string(), vec![Op::Dir(e)]),
            };
            (st, vec![Says(n)], "unknown name")
        }
        6 => {
            let n = gen::name(src, &mut used, false);
            let define = |src: &mut Src, n: &str| {
                if src.bool() {
                    St::Label(n.to_string())
                } else {
                    St::Equ(n.to_string(), num(src.range(0, 99)))
                }
            };
            let first = define(src, &n);
            sts.push(first);
            (define(src, &n), vec![Says(n)], "name twice")
        }
        _ => {
            // a local name twice in one scope
            let g = gen::name(src, &mut used, false);
            let n = gen::name(src, &mut used, true);
            sts.push(St::Label(g));
            sts.push(St::Label(n.clone()));
            (St::Label(n.clone()), vec![Says(n)], "local name twice")
        }
    };
    // a line over 0xFFFF reads only literals
    let text = finish(src, &sts, st, what != "position");
    let r = run_text(ctx, &text)?;
    check(&r, &facts, what, false, crate::props::lang::repro(&text))?;
    ok(true, format!("{} {:?} {}", what, facts, text), vec![what])
}

/// Macro names and numbers of arguments.
fn c28_macros(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut used: Vec<String> = ["zz"].iter().map(|s| s.to_string()).collect();
    let n = gen::name(src, &mut used, false);
    let params = |src: &mut Src, k: usize| -> String { (0..k).map(|i| format!("%{}{}", src.pick(&["a", "p", "val"]), i)).collect::<Vec<_>>().join(", ") };
    let args = |src: &mut Src, k: usize| -> String {
        (0..k)
            .map(|_| match src.below(4) {
                0 => format!("{}", src.below(10)),
                1 => "@R1".to_string(),
                2 => format!("#{}", src.below(10)),
                _ => "(1 + 2) * 3".to_string(),
            })
            .collect::<Vec<_>>()
            .join(", ")
    };
    let up = |src: &mut Src, n: &str| if src.chance(1, 3) { n.to_uppercase() } else { n.to_string() };
    let (text, facts, what, both): (String, Vec<Fact>, &'static str, bool) = match src.below(5) {
        0 => {
            // a wrong number of arguments
            let mut ar: Vec<usize> = (0..1 + src.usize(3)).map(|_| src.usize(9)).collect();
            ar.sort();
            ar.dedup();
            let c = src.usize(12);
            if ar.contains(&c) {
                return retry();
            }
            let mut lines: Vec<String> = ar
                .iter()
                .map(|k| {
                    let p = params(src, *k);
                    let m = up(src, &n);
                    format!("%macro {} {}\n  nop\n%end", m, p)
                })
                .collect();
            let at = src.usize(lines.len() + 1);
            let a = args(src, c);
            let m = up(src, &n);
            lines.insert(at, format!("  {} {}", m, a));
            // the name, or both numbers
            let numbers = All(vec![Dec(c as i64), Any(ar.iter().map(|k| Dec(*k as i64)).collect())]);
            let fs = vec![Any(vec![Says(n.clone()), numbers])];
            (lines.join("\n") + "\n", fs, "number of arguments", true)
        }
        1 => {
            // twice the same
            let k = src.usize(10);
            let (p, q) = (params(src, k), params(src, k));
            let other = params(src, k + 1);
            let mut lines = vec![format!("%macro {} {}\n  nop\n%end", up(src, &n), p), format!("%macro {} {}\n%end", up(src, &n), q)];
            if src.bool() {
                let at = src.usize(3);
                lines.insert(at, format!("%macro {} {}\n%end", n, other));
            }
            (lines.join("\n") + "\n", vec![Says(n.clone()), Dec(k as i64)], "macro twice", true)
        }
        2 => {
            let m = src.pick(&mnemonics()).to_string();
            let k = src.usize(4);
            let p = params(src, k);
            let m2 = up(src, &m);
            (format!("%macro {} {}\n  nop\n%end\n", m2, p), vec![Says(m)], "named like an instruction", true)
        }
        3 => {
            // recursion, directly or around
            let len = 1 + src.usize(3);
            let names: Vec<String> = (0..len).map(|_| gen::name(src, &mut used, false)).collect();
            let mut lines = vec![];
            for i in 0..len {
                lines.push(format!("%macro {} %x\n  nop\n  {} %x\n%end", up(src, &names[i]), up(src, &names[(i + 1) % len])));
            }
            let at = src.usize(lines.len() + 1);
            lines.insert(at, format!("  {} 5", names[src.usize(len)]));
            (lines.join("\n") + "\n", vec![Any(names.iter().map(|n| Says(n.clone())).collect())], "macro calls itself", true)
        }
        _ => {
            let k = 1 + src.usize(4);
            let a = args(src, k);
            (format!("  nop\n  {} {}\n  nop\n", n, a), vec![Says(n.clone())], "no such macro", true)
        }
    };
    let r = run_text(ctx, &text)?;
    check(&r, &facts, what, false, crate::props::lang::repro(&text))?;
    if both {
        let r = ctx.wb(&["expand", "main.s"])?;
        check(&r, &facts, what, false, format!("--- file main.s\n{}\n--- command\nwaterbear expand main.s\n", text))?;
    }
    ok(true, format!("{} {}", what, text), vec![what])
}

fn mnemonics() -> Vec<&'static str> {
    let mut v: Vec<&'static str> = vec![];
    for f in FORMS {
        if !v.contains(&f.0) {
            v.push(f.0);
        }
    }
    v
}

fn kind_name(k: K) -> &'static str {
    match k {
        K::I8 => "#i8",
        K::D9 => "d9",
        K::Ri => "@ri",
        K::B3 => "b3",
        K::A12 => "a12",
        K::A16 => "a16",
        K::R8 => "r8",
        K::R16 => "r16",
    }
}

/// The forms a message offers are the documented ones.
fn c28_forms(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let ms = mnemonics();
    let m = *src.pick(&ms);
    let ops: Vec<Op> = (0..src.usize(5))
        .map(|_| match src.below(3) {
            0 => Op::Dir(num(src.range(0, 7))),
            1 => Op::Imm(num(src.range(0, 7))),
            _ => Op::Ind(src.below(4) as u8),
        })
        .collect();
    if find_form(m, &ops).is_some() {
        return ok(false, "", vec!["a form"]);
    }
    let line = {
        let mut r = render::R::fancy(src);
        r.instr(m, &ops)
    };
    let text = match src.below(3) {
        0 => format!("  nop\n  {}\n  nop\n", line),
        1 => format!("here: {}", line),
        _ => format!("%macro zz\n  {}\n%end\n  zz\n", line),
    };
    let r = run_text(ctx, &text)?;
    let rp = format!("{}--- message\n{}\n", crate::props::lang::repro(&text), r.err);
    if !r.rejected() {
        return fail(format!("{} with the wrong operands: {}", m, r.how()), rp);
    }
    let want: Vec<String> = FORMS.iter().filter(|f| f.0 == m).map(|f| f.1.iter().map(|k| kind_name(*k)).collect::<Vec<_>>().join(",")).collect();
    let low = r.err.to_lowercase();
    if !Words::new(&head(&r.err)).holds(&Says(m.to_string())) {
        return fail(format!("{} with the wrong operands: the message does not name the instruction", m), rp);
    }
    if want == [""] {
        if !Words::new(&low).holds(&All(vec![Dec(0), Says("argument".into())])) {
            return fail(format!("{} takes no operands: the message does not say so", m), rp);
        }
        return ok(true, text, vec!["no-operands"]);
    }
    let got: Vec<String> = match low.find("allowed form") {
        None => return fail(format!("{} with the wrong operands: no allowed forms are listed", m), rp),
        Some(i) => low[i..]
            .lines()
            .skip(1)
            .map(|l| l.trim())
            .take_while(|l| !l.is_empty())
            .map(|l| l.strip_prefix(m).unwrap_or("?").replace(' ', ""))
            .collect(),
    };
    let sorted = |v: &[String]| {
        let mut v = v.to_vec();
        v.sort();
        v
    };
    if sorted(&got) != sorted(&want) {
        return fail(format!("{} with the wrong operands: the allowed forms are {:?}, the message lists {:?}", m, want, got), rp);
    }
    ok(true, text, vec!["forms"])
}

fn pic(src: &mut Src, w: usize, h: usize, frames: usize, pal: &[Px]) -> Pic {
    let f: Vec<Vec<Px>> = (0..frames).map(|_| img::paint(src, w * h, pal)).collect();
    Pic { w, h, frames: f, delay: vec![if frames > 1 { 100 } else { 0 }; frames] }
}

/// Sizes, colours and values of images and their options.
fn c28_images(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = 1 + src.usize(12);
    let pal = img::colours(src, n, false, true);
    let stem = src.pick(&["picture", "my icon", "ünï", "a.b"]).to_string();
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    let mut save = |src: &mut Src, stem: &str, p: &Pic| -> String {
        let (ext, d) = img::store(src, p);
        let n = format!("{}.{}", stem, ext);
        files.push((n.clone(), d));
        n
    };
    let mut cmd: Option<Vec<String>> = None;
    let mut whole = false;
    let (line, facts, what): (String, Vec<Fact>, &'static str) = match src.below(8) {
        0 => {
            // colours
            let k = if src.chance(1, 3) { *src.pick(&[255usize, 256, 257, 258, 272, 273, 300, 512, 513, 700, 1000, 1024]) } else { 17 + src.usize(60) };
            let many = img::colours(src, k, false, true);
            let fr = 1 + src.usize(3);
            let p = pic(src, 32, 32, fr, &many);
            let count = match img::icon_bytes(&p, 10, None) {
                Err(img::IconRej::Palette(n)) => n,
                _ => return retry(),
            };
            let f = save(src, &stem, &p);
            cmd = Some(vec!["icon".into(), f.clone()]);
            (format!("  .include icon \"{}\"\n", f), vec![Says(f), Dec(16), Dec(count as i64)], "colours")
        }
        1 => {
            let (w, h) = match src.below(3) {
                0 => (31 + 2 * src.usize(2), 32),
                1 => (32, 1 + src.usize(31)),
                _ => (1 + src.usize(70), 1 + src.usize(70)),
            };
            if (w, h) == (32, 32) {
                return retry();
            }
            let p = pic(src, w, h, 1, &pal);
            let f = save(src, &stem, &p);
            cmd = Some(vec!["icon".into(), f.clone()]);
            (format!("  .include icon \"{}\"\n", f), vec![Says(f), Any(vec![Says("32x32".into()), Dec(32)])], "icon size")
        }
        2 => {
            let (w, h) = match src.below(3) {
                0 => (71 + 2 * src.usize(2), 56),
                1 => (72, 1 + src.usize(55)),
                _ => (1 + src.usize(80), 1 + src.usize(80)),
            };
            if (w, h) == (72, 56) {
                return retry();
            }
            let p = pic(src, 32, 32, 1, &pal);
            let f = save(src, "main icon", &p);
            let p = pic(src, w, h, 1, &pal);
            let e = save(src, &stem, &p);
            cmd = Some(vec!["icon".into(), f.clone(), "-e".into(), e.clone()]);
            let right = Any(vec![Says("72x56".into()), All(vec![Dec(72), Dec(56)])]);
            (format!("  .include icon \"{}\" eyecatch=\"{}\"\n", f, e), vec![Says(e), right, Not("main icon".into())], "eyecatch size")
        }
        3 | 4 => {
            let big = 256 + src.usize(60);
            let small = 1 + src.usize(8);
            let wide = src.bool();
            let p = if wide { pic(src, big, small, 1, &pal) } else { pic(src, small, big, 1, &pal) };
            let f = save(src, &stem, &p);
            let t = src.pick(&["simple", "masked"]).to_string();
            whole = true;
            let fs = vec![Dec(big as i64), Dec(255), Says(if wide { "too wide" } else { "too tall" }.into())];
            (format!("  .include sprite \"{}\" type=\"{}\"\n", f, t), fs, if wide { "sprite width" } else { "sprite height" })
        }
        5 => {
            let p = pic(src, 8, 8, 1, &pal);
            let f = save(src, &stem, &p);
            let v = src.pick(&["weird", "simples", "mask", "1bit", "x y"]).to_string();
            if src.bool() {
                (format!("  .include sprite \"{}\" type=\"{}\"\n", f, v), vec![Says(v)], "sprite type")
            } else {
                (format!("  .include sprite \"{}\" type=\"simple\", header=\"{}\"\n", f, v), vec![Says(v)], "sprite header")
            }
        }
        6 => {
            let p = pic(src, 32, 32, 1, &pal);
            let f = save(src, &stem, &p);
            let v = if src.bool() { 65536 + src.range(0, 90000) } else { -32769 - src.range(0, 90000) };
            let e = gen::expr_for(src, v, &[], 1);
            (format!("  .include icon \"{}\" speed={}\n", f, render::plain_expr(&e)), vec![Dec(v)], "icon speed")
        }
        _ => {
            // not an image
            let kind = *src.pick(&["icon", "sprite"]);
            let f = format!("{}.{}", stem, src.pick(&["png", "gif", "bmp"]));
            let k = src.usize(40);
            let d: Vec<u8> = (0..k).map(|_| src.below(256) as u8).collect();
            files.push((f.clone(), d));
            cmd = Some(vec![if kind == "icon" { "icon" } else { "image" }.into(), f.clone()]);
            (format!("  .include {} \"{}\"{}\n", kind, f, if kind == "sprite" { " type=\"simple\"" } else { "" }), vec![Says(f)], "not an image")
        }
    };
    for (n, d) in &files {
        ctx.write(n, d);
    }
    let r = run_text(ctx, &line)?;
    let mut all = vec![("main.s".to_string(), line.clone().into_bytes())];
    all.extend(files.clone());
    let rp = repro_files(&all, "waterbear assemble main.s -o out.vms");
    check(&r, &facts, what, whole, rp)?;
    if let Some(c) = cmd {
        let a: Vec<&str> = c.iter().map(|s| s.as_str()).collect();
        let r = ctx.wb(&a)?;
        // the command's own arguments are not shown; the message is all there is
        check(&r, &facts, what, true, repro_files(&all, &format!("waterbear {}", a.join(" "))))?;
    }
    ok(true, format!("{} {:?} {}", what, facts, line), vec![what])
}

/// Where a file cannot be disassembled, and the byte that stands there.
fn c28_opcodes(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let bios = src.chance(1, 5);
    let mut code = dis::image(src, bios);
    let t = match dis::trace(&code, dis::entries(bios)) {
        Ok(t) => t,
        Err(_) => return ok(false, "", vec!["bad-already"]),
    };
    if t.ins.is_empty() {
        return ok(false, "", vec!["no-code"]);
    }
    let undef: Vec<u8> = (0..=255u8).filter(|b| decode(&[*b, 0, 0, 0], 0).is_none()).collect();
    // (the documented opcodes leave none undefined at present)
    let at: Vec<usize> = t.ins.iter().filter(|(_, i)| i.size > 1 || !undef.is_empty()).map(|(p, _)| *p).collect();
    if at.is_empty() {
        return ok(false, "", vec!["no-code"]);
    }
    let p = *src.pick(&at);
    let what = if undef.is_empty() || (src.chance(1, 4) && t.ins[&p].size > 1) {
        // cut it off
        code.truncate(p + 1 + src.usize(t.ins[&p].size - 1));
        "cut off"
    } else {
        code[p] = *src.pick(&undef);
        "undefined opcode"
    };
    let mut bads = vec![];
    let t = match dis::trace_all(&code, dis::entries(bios), &mut bads) {
        Some(t) => t,
        None => return ok(false, "", vec!["bad-already"]),
    };
    if t.ambiguous || bads.is_empty() {
        return ok(false, "", vec!["not-reached"]);
    }
    ctx.write("in.vms", &code);
    let opts: &[&str] = if bios { &["-t", "bios"] } else { &[] };
    let (r, _) = dis::disassemble(ctx, "in.vms", "out.s", opts)?;
    let any = Any(
        bads.iter()
            .map(|p| All(vec![Any(vec![Dec(*p as i64), Hex(*p as u64)]), Any(vec![Dec(code[*p] as i64), Hex(code[*p] as u64)])]))
            .collect(),
    );
    check(&r, &[any], what, true, dis::bytes_repro(&code, &format!("waterbear disassemble in.vms -o out.s {}", opts.join(" "))))?;
    ok(true, format!("{} {} {:016x}", what, bads[0], hash_bytes(&code)), vec![what])
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C28",
        rule: "programs with exactly one mistake of a known kind, behind a random valid program that gives position and symbols: operand values of every form and kind (through expressions, symbols and macro arguments), data, lengths, positions, divisions, names, macro calls and definitions, wrong operand kinds, image sizes, colours and options, instructions cut off by the end of a file to disassemble. The message must state the computed value, the width or limit, the distance, the page bits, the name, the numbers of arguments, the documented forms, the file. Non-trivial: the program has the mistake and every fact was looked up in the message.",
        families: vec![
            Family { name: "operands", run: c28_operands, quick: 4000, thorough: 60000, sweep: None },
            Family { name: "directives", run: c28_directives, quick: 4000, thorough: 60000, sweep: None },
            Family { name: "macros", run: c28_macros, quick: 1500, thorough: 20000, sweep: None },
            Family { name: "forms", run: c28_forms, quick: 2500, thorough: 30000, sweep: None },
            Family { name: "images", run: c28_images, quick: 1200, thorough: 12000, sweep: None },
            Family { name: "opcodes", run: c28_opcodes, quick: 2500, thorough: 30000, sweep: None },
        ],
        assumptions: &["facts are looked for as whole numbers or names anywhere in the message; its wording is free", "one mistake per input; of several cut-off instructions any may be named"],
    }]
}
