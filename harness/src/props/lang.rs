//! C01..C06: the core language: encoding, ranges, forms, expressions, layout, symbols.
use crate::engine::*;
use crate::gen;
use crate::model::*;
use crate::render;
use crate::tool::*;

/// The one-file oracle: the tool must produce exactly the reference's bytes, or
/// reject when the reference rejects.
pub fn judge(got: &Asm, want: &Result<Vec<u8>, String>, repro: &str) -> Result<(), Stop> {
    match (got, want) {
        (Asm::Ok(b), Ok(w)) if b == w => Ok(()),
        (Asm::Rejected(_), Err(_)) => Ok(()),
        (g, Ok(w)) => {
            let first = if let Asm::Ok(b) = g {
                match b.iter().zip(w.iter()).position(|(x, y)| x != y) {
                    Some(p) => format!("first difference at offset ${:04x}; lengths {} (got) {} (expected)", p, b.len(), w.len()),
                    None => format!("lengths differ: {} (got) {} (expected)", b.len(), w.len()),
                }
            } else {
                String::new()
            };
            fail(
                format!("{}\n  expected {} bytes: {}\n  got {}", first, w.len(), hex(w), g.describe()),
                repro.to_string(),
            )
        }
        (g, Err(why)) => fail(format!("expected a clean rejection ({}), got {}", why, g.describe()), repro.to_string()),
    }
}

pub fn want_of(r: &Result<Image, (usize, Rej)>) -> Result<Vec<u8>, String> {
    match r {
        Ok(i) => Ok(i.bytes.clone()),
        Err((i, e)) => Err(format!("statement {}: {:?}", i, e)),
    }
}

pub fn repro(src: &str) -> String {
    format!("--- file main.s\n{}\n--- command\nwaterbear assemble main.s -o out.vms\n", src)
}

pub fn check_program(ctx: &mut Ctx, sts: &[St], text: &str) -> Result<Result<Vec<u8>, String>, Stop> {
    let want = want_of(&reference(sts));
    let got = assemble_src(ctx, text)?;
    judge(&got, &want, &repro(text))?;
    Ok(want)
}

// ------------------------------------------------------------------------ C01

fn domain(k: K) -> i64 {
    match k {
        K::I8 | K::R8 => 256,
        K::D9 => 512,
        K::Ri => 4,
        K::B3 => 8,
        K::A12 => 4096,
        K::A16 | K::R16 => 65536,
    }
}

/// Every value of every operand kind of one form (other operands vary alongside).
fn c01_sweep(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let form = src.below(FORMS.len() as u64) as usize;
    let (mn, kinds, _) = FORMS[form];
    let size = isize_of(form) as i64;
    let mut combos: Vec<Vec<i64>> = vec![];
    let mix = |i: i64, salt: i64, d: i64| -> i64 {
        let mut s = (i as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ (salt as u64) << 7;
        (splitmix(&mut s) % d as u64) as i64
    };
    if kinds.is_empty() {
        combos.push(vec![]);
    }
    for (ki, k) in kinds.iter().enumerate() {
        let d = domain(*k);
        for v in 0..d {
            let mut c = vec![0; kinds.len()];
            for (kj, k2) in kinds.iter().enumerate() {
                c[kj] = if kj == ki { v } else { mix(v, (ki * 7 + kj) as i64, domain(*k2)) };
            }
            combos.push(c);
        }
    }
    if kinds.len() >= 2 {
        // full product of the first two kinds when it is small
        let (a, b) = (domain(kinds[0]), domain(kinds[1]));
        if a * b <= 8192 {
            for x in 0..a {
                for y in 0..b {
                    let mut c = vec![x, y];
                    if kinds.len() == 3 {
                        c.push(mix(x * 512 + y, 3, domain(kinds[2])));
                    }
                    combos.push(c);
                }
            }
        }
    }
    let mut n = 0;
    let chunk = 8000usize;
    let wide = kinds.iter().any(|k| matches!(k, K::R16));
    let mut texts: Vec<(String, Vec<u8>)> = vec![];
    if wide {
        // d = t - next + 1 covers -32768..32767 as the instruction moves through memory
        for k in 0..3i64 {
            let mut t = String::new();
            let mut exp = vec![];
            for i in 0..21844i64 {
                let d = 32767 - (3 * i + k);
                let next = 3 * i + 3;
                let target = next + d - 1;
                t.push_str(&format!(" {} ${:x}\n", mn, target));
                exp.extend(encode_fields(form, &[d]));
                n += 1;
            }
            texts.push((t, exp));
        }
    } else {
        for (ci, ch) in combos.chunks(chunk).enumerate() {
            // pages for the 12-bit forms: one per chunk repetition
            let pages: Vec<i64> = if kinds.contains(&K::A12) { (0..16).collect() } else { vec![0] };
            for page in pages {
                let base: i64 = if kinds.contains(&K::A12) { page << 12 } else { 0x100 + (ci as i64 % 7) };
                let mut t = String::new();
                let mut exp = vec![0u8; base as usize];
                t.push_str(&format!(" .org ${:x}\n", base));
                let mut pos = base;
                for (i, c) in ch.iter().enumerate() {
                    if kinds.contains(&K::A12) && i % 2000 == 0 {
                        // stay inside the page
                        if i > 0 {
                            texts.push((std::mem::take(&mut t), std::mem::take(&mut exp)));
                            t.push_str(&format!(" .org ${:x}\n", base));
                            exp = vec![0u8; base as usize];
                            pos = base;
                        }
                    }
                    let next = pos + size;
                    let mut ops = vec![];
                    let mut fields = vec![];
                    for (k, v) in kinds.iter().zip(c) {
                        let (txt, f) = match k {
                            K::I8 => (format!("#${:x}", v), *v),
                            K::D9 | K::B3 => (format!("${:x}", v), *v),
                            K::Ri => (format!("@R{}", v), *v),
                            K::A16 => (format!("${:x}", v), *v),
                            K::A12 => (format!("${:x}", (next & 0xF000) | v), *v),
                            K::R8 => {
                                let d = if *v > 127 { *v - 256 } else { *v };
                                (format!("{}", next + d), d)
                            }
                            K::R16 => unreachable!(),
                        };
                        ops.push(txt);
                        fields.push(f);
                    }
                    t.push_str(&format!(" {} {}\n", mn, ops.join(", ")));
                    exp.extend(encode_fields(form, &fields));
                    pos = next;
                    n += 1;
                }
                texts.push((t, exp));
            }
        }
    }
    for (t, exp) in texts {
        let got = assemble_src(ctx, &t)?;
        if let Asm::Ok(b) = &got {
            if *b != exp {
                // locate the first wrong instruction
                let p = b.iter().zip(exp.iter()).position(|(x, y)| x != y).unwrap_or(b.len().min(exp.len()));
                let base: usize = t.lines().next().and_then(|l| l.trim().strip_prefix(".org $")).and_then(|h| usize::from_str_radix(h, 16).ok()).unwrap_or(0);
                let li = (p - base.min(p)) / size as usize;
                let line = t.lines().filter(|l| !l.contains(".org")).nth(li).unwrap_or("?");
                let at = base + li * size as usize;
                let end = (at + size as usize).min(b.len()).min(exp.len());
                return fail(
                    format!(
                        "`{}` at ${:04x}: expected {} got {} (pattern {})",
                        line.trim(),
                        at,
                        hex(&exp[at.min(end)..end]),
                        hex(&b[at.min(end)..end]),
                        FORMS[form].2
                    ),
                    repro(&format!(" .org ${:x}\n{}\n", at, line)),
                );
            }
        } else {
            return fail(format!("form {} {:?}: {}", mn, kinds, got.describe()), repro(&clip(&t, 4000)));
        }
    }
    okn(true, format!("{} {:?}: {} operand combinations", mn, kinds, n), vec![], n)
}

fn c01_programs(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let o = gen::Opts { max_stmts: 40, data: false, ..Default::default() };
    let sts = gen::program(src, &o);
    let text = render::fancy(src, &sts);
    check_program(ctx, &sts, &text)?;
    let n = sts.iter().filter(|s| matches!(s, St::Instr(..))).count();
    okn(n >= 3, text, vec![], n as u64)
}

// ------------------------------------------------------------------------ C02

fn hostile(src: &mut Src, k: K, next: i64) -> i64 {
    let (lo, hi, modulus) = match k {
        K::I8 => (0, 255, 256),
        K::D9 => (0, 511, 512),
        K::Ri => (0, 3, 4),
        K::B3 => (0, 7, 8),
        K::A16 => (0, 65535, 65536),
        K::A12 => (next & 0xF000, (next & 0xF000) + 0xFFF, 4096),
        K::R8 => (next - 128, next + 127, 256),
        K::R16 => (next - 32769, next + 32766, 65536),
    };
    match src.below(9) {
        0 => hi + 1,
        1 => lo - 1,
        2 => hi,
        3 => lo,
        4 => {
            // congruent to a valid value
            let v = src.range(lo, hi);
            let m = *src.pick(&[modulus, 256, 512, 4096, 65536, 1 << 24]);
            let r = v + m * src.range(1, 5);
            if src.bool() {
                r
            } else {
                v - m * src.range(1, 5)
            }
        }
        5 => *src.pick(&[65535i64, 65536, 65537, -1, 32768, 32767, 0, 127, 128, 256]),
        6 => *src.pick(&[I32MAX, I32MIN, I32MAX - 1, I32MIN + 1, -65536, -256, -32768]),
        7 => hi + 1 + src.range(0, 600),
        _ => lo - 1 - src.range(0, 600),
    }
}

fn c02(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut sts = vec![];
    let mut syms: Vec<(String, i64)> = vec![];
    let mut labels: Vec<&'static str> = vec![];
    let org = match src.below(8) {
        0 => 0,
        1 => src.range(0, 300),
        2 => (src.range(1, 15) << 12) - src.range(0, 4),
        3 => 65535 - src.range(0, 200),
        4 => src.range(0, 65000),
        5 => 32768 + src.range(-4, 4),
        6 => *src.pick(&[128i64, 127, 126, 125, 129, 130]),
        _ => src.range(0, 65000),
    };
    if org > 0 {
        sts.push(St::Org(org));
    }
    if src.bool() {
        sts.push(St::Label("here".into()));
        syms.push(("here".into(), org));
    }
    let which = src.weighted(&[8, 2, 2]);
    let mut pos = org;
    let pad = src.below(3) as i64;
    if pad > 0 {
        sts.push(St::Byte((0..pad).map(|_| BV::Ex(num(0))).collect()));
        pos += pad;
    }
    let target;
    match which {
        0 => {
            // an instruction with one hostile operand
            let forms: Vec<usize> = (0..FORMS.len()).filter(|f| FORMS[*f].1.iter().any(|k| *k != K::Ri)).collect();
            let f = *src.pick(&forms);
            let next = pos + isize_of(f) as i64;
            let cand: Vec<usize> = (0..FORMS[f].1.len()).filter(|i| FORMS[f].1[*i] != K::Ri).collect();
            let bad = *src.pick(&cand);
            let mut ops = vec![];
            for (i, k) in FORMS[f].1.iter().enumerate() {
                let v = if i == bad {
                    hostile(src, *k, next).clamp(I32MIN, I32MAX)
                } else {
                    gen::operand_value(src, *k, next, &[]).unwrap_or(0)
                };
                let d = src.below(3) as u32;
                let e = gen::expr_for(src, v, &syms, d);
                ops.push(match k {
                    K::Ri => Op::Ind(v as u8),
                    K::I8 => Op::Imm(e),
                    _ => Op::Dir(e),
                });
            }
            target = St::Instr(FORMS[f].0.into(), ops);
        }
        1 => {
            let v = match src.below(8) {
                0 => 255,
                1 => 256,
                2 => -128,
                3 => -129,
                4 => src.range(-128, 255) + 256 * src.range(1, 4),
                5 => src.range(-128, 255) - 512,
                6 => *src.pick(&[I32MAX, I32MIN, 65535, 65536, -65536, 511, 512]),
                _ => src.range(-140, 270),
            };
            let k = src.usize(3);
            let mut vs = vec![BV::Ex(num(1)); k];
            let e = gen::expr_for(src, v, &syms, 1);
            vs.push(BV::Ex(e));
            if src.bool() {
                vs.push(BV::Str("x".into()));
            }
            target = St::Byte(vs);
        }
        _ => {
            let v = match src.below(8) {
                0 => 65535,
                1 => 65536,
                2 => -32768,
                3 => -32769,
                4 => src.range(-32768, 65535) + 65536 * src.range(1, 4),
                5 => src.range(-32768, 65535) - 131072,
                6 => *src.pick(&[I32MAX, I32MIN, 1 << 24, -65536]),
                _ => src.range(-33000, 66000),
            };
            let k = src.usize(3);
            let mut vs = vec![num(1); k];
            vs.push(gen::expr_for(src, v, &syms, 1));
            target = St::Word(vs);
        }
    }
    // sometimes the value travels through a named constant
    if src.chance(1, 3) {
        if let St::Instr(m, ops) = &target {
            if let Some(i) = (0..ops.len()).find(|i| matches!(ops[*i], Op::Dir(_))) {
                let mut ops = ops.clone();
                if let Op::Dir(e) = ops[i].clone() {
                    sts.insert(0, St::Equ("viaconst".into(), e));
                    ops[i] = Op::Dir(sym("viaconst"));
                    sts.push(St::Instr(m.clone(), ops));
                    labels.push("via-constant");
                }
            } else {
                sts.push(target);
            }
        } else {
            sts.push(target);
        }
    } else {
        sts.push(target);
    }
    if src.bool() {
        sts.push(St::Instr("nop".into(), vec![]));
    }
    let text = render::fancy(src, &sts);
    let want = check_program(ctx, &sts, &text)?;
    labels.push(if want.is_err() { "must-reject" } else { "must-accept" });
    ok(true, text, labels)
}

// ------------------------------------------------------------------------ C03

fn mnemonics() -> Vec<&'static str> {
    let mut v: Vec<&'static str> = vec![];
    for f in FORMS {
        if !v.contains(&f.0) {
            v.push(f.0);
        }
    }
    v
}

/// all shapes of up to 4 operands
fn shapes() -> Vec<Vec<u8>> {
    let mut out = vec![vec![]];
    let mut cur: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..4 {
        let mut nx = vec![];
        for c in &cur {
            for k in 0..3u8 {
                let mut d = c.clone();
                d.push(k);
                nx.push(d);
            }
        }
        out.extend(nx.clone());
        cur = nx;
    }
    out
}

fn c03_sweep(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let sh = shapes();
    let ms = mnemonics();
    let i = src.below((sh.len() * ms.len()) as u64) as usize;
    let m = ms[i / sh.len()];
    let ops: Vec<Op> = sh[i % sh.len()]
        .iter()
        .enumerate()
        .map(|(j, k)| match k {
            0 => Op::Dir(num(2 + j as i64)),
            1 => Op::Imm(num(3)),
            _ => Op::Ind(1),
        })
        .collect();
    let sts = vec![St::Instr(m.into(), ops)];
    let text = render::plain(&sts);
    let want = check_program(ctx, &sts, &text)?;
    ok(true, text, vec![if want.is_ok() { "documented" } else { "undocumented" }])
}

fn c03_malformed(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let o = gen::Opts { max_stmts: 8, far_orgs: false, ..Default::default() };
    let sts = gen::program(src, &o);
    let lines_before = render::plain(&sts);
    let f = src.usize(FORMS.len());
    let valid = |src: &mut Src, f: usize| -> String {
        let ops: Vec<Op> = FORMS[f]
            .1
            .iter()
            .map(|k| match k {
                K::I8 => Op::Imm(num(src.range(0, 255))),
                K::Ri => Op::Ind(src.below(4) as u8),
                _ => Op::Dir(num(src.range(0, 7))),
            })
            .collect();
        let mut r = render::R::plain();
        r.instr(FORMS[f].0, &ops)
    };
    let v = valid(src, f);
    let kind = src.below(30);
    let bad: String = match kind {
        27 | 28 => {
            // a literal beyond 32 bits, which no other number may stand in for
            let n = *src.pick(&[
                "2147483648", "4294967295", "4294967296", "4294967297", "4'294'967'295", "4294967301", "8589934593", "9999999999999999999999", "18446744073709551615", "18446744073709551617", "$80000000", "$FFFFFFFF", "$ffff'ffff", "$100000001", "$FFFFFFFFFFFFFFFF", "$10000000000000001",
                "0x80000000", "0xFFFFFFFE", "0x100000000", "0o37777777777", "0o40000000001", "0o20000000000", "%11111111111111111111111111111111", "0b100000000000000000000000000000001", "0b10000000000000000000000000000000",
            ]);
            let f = *src.pick(&["  .byte ~", "  .word ~", "  .byte 1, <~", "  .word ~ & 5", "  ld ~", "  add #~", "  mov #~, 1", "  bp 1, ~, 0", "zq9 = ~", "zq9 equ ~ / 2", "  .byte 0 * ~", "  .word (~)", "  .org ~", "  .text ~ \"a\"", "  .string ~ \"a\"", "  .cnop 0, ~", "  .cnop ~, 4", "  callf ~", "  br ~", "  .word > ~"]);
            f.replace('~', n)
        }
        29 => {
            let r = *src.pick(&["@R00", "@R01", "@r03", "@R10", "@R1R", "@R1x", "@R", "@R-1", "@R1'0", "@R$1", "@R 1", "@ R1", "R1@", "@@R1", "@R4", "@R1 @R1", "@R1.", "@R1_", "@R1:"]);
            let f = *src.pick(&["  ld ~", "  st ~", "  mov #1, ~", "  add ~", "  inc ~", "  be ~, #1, 0", "  dbnz ~, 0", "  xch ~", "  xor ~"]);
            f.replace('~', r)
        }
        24..=26 => {
            // a file that is there, named by a directive with too much on its line, or too little
            ctx.write("real.s", src.pick(&["", "; nothing\n", "  nop\n", "zr9 = 1\n"]).as_bytes());
            ctx.write("real.bin", b"\x01\x02");
            ctx.write("real.h", b"#define ZR8 1\n");
            let dot = crate::img::Pic::still(8, 1, vec![[0, 0, 0, 255]; 8]);
            ctx.write("real.bmp", &crate::img::bmp(&dot));
            let ico = crate::img::Pic::still(32, 32, vec![[0, 0, 0, 255]; 1024]);
            ctx.write("icon.bmp", &crate::img::bmp(&ico));
            let (inc, pict) = *src.pick(&[("\"real.s\"", false), ("asm \"real.s\"", false), ("bytes \"real.bin\"", false), ("cpp \"real.h\"", false), ("sprite \"real.bmp\"", true), ("icon \"icon.bmp\"", true)]);
            let junk = if pict {
                // (a name with a value after `=` is a property)
                *src.pick(&["junk", "5", "\"x\"", ":", "type", "speed", "type=", "speed=", "=", "= 1", "#1", "@R0", "nop", "%x", "(1)", "header \"no\"", "header=\"no\" 5", "header=\"no\" \"no\"", "header=\"no\" speed", "header=\"no\", speed", "header=\"no\",,speed=1", "speed=#1", "speed=@R1", "speed=1 nop", "header==\"no\"", "1=1"])
            } else {
                *src.pick(&["junk", "5", "\"x\"", ":", "nop", "= 1", "#1", "@R0", "type=\"simple\"", "header=\"no\"", "speed=1", "speed", ", \"real.s\"", ",", "+ 1", "asm", "bytes", "cpp", "%x", "x%", "(1)", ".include \"real.s\"", ".byte 1", "equ 1", "*", "-"])
            };
            format!("  .include {} {}", inc, junk)
        }
        0 => format!("  {},", v),
        1 => format!("  {} {}", v, valid(src, src_form())),
        2 => format!("  {} )", v),
        3 => {
            // drop one comma
            let two: Vec<usize> = (0..FORMS.len()).filter(|f| FORMS[*f].1.len() >= 2).collect();
            let g = *src.pick(&two);
            let t = valid(src, g);
            format!("  {}", t.replacen(',', " ", 1))
        }
        4 => {
            let two: Vec<usize> = (0..FORMS.len()).filter(|f| FORMS[*f].1.len() >= 2).collect();
            let g = *src.pick(&two);
            let t = valid(src, g);
            format!("  {}", t.replacen(',', ",,", 1))
        }
        5 => format!("  {}", *src.pick(&[".byte", ".word", ".org", ".text", ".string", ".cnop", ".include", ".text 5", ".string 5", ".cnop 1", ".cnop 1,", ".string \"x\"", ".text \"x\" 5", ".byte 1,", ".byte ,1", ".word \"ab\"", ".org \"5\"", ".include bytes", ".include foo \"x\""])),
        6 => format!("lbl_bad: .byte {}", src.range(0, 9)),
        7 => format!("  .byte {}(1", *src.pick(&["", "1+", "2*("])),
        8 => format!("  .{} 1", *src.pick(&["bytes", "db", "wordd", "align", "orgg", "foo", "text1"])),
        9 => format!("  ld @R{}", *src.pick(&["4", "5", "9", "a", ""])),
        10 => "  add #".to_string(),
        11 => format!("  .org {}", *src.pick(&["-1", "lbl", "#5", "(5)", "5+1", "@R1"])),
        12 => format!("  .cnop {}", *src.pick(&["0, undefd", "undefd, 4", "0 4", "1, 2, 3", "\"a\", 4"])),
        13 => format!("  .byte {}", *src.pick(&["1 + ", "* 2", "1 2", "+ 1", "1 + * 2", "1 / / 2", "()", "1 = 2", "#1", "@R0", "1 & ", "a b", "$", "'a'", "[1]", "{1}", "!1", "~1", "1 % 2", "1 ? 2", "`", "0b2", "0xg", "$g", "12ab"])),
        14 => format!("{} 5", *src.pick(&["x9 = 5", "x9 equ 5", "=", "equ", "5 =", "x9 = =", "x9 equ equ"])),
        15 => format!("  {}", *src.pick(&["x9 =", "x9 equ", "=", ":", "#5", "5", "\"text\"", "@R1", "(5)", ","])),
        16 => format!("  {}", *src.pick(&["\"unterminated", ".byte \"abc", ".text 9 \"abc", ".include \"abc"])),
        17 => {
            // near-miss mnemonic
            let ms = mnemonics();
            let m = *src.pick(&ms);
            let mut s: Vec<char> = m.chars().collect();
            match src.below(3) {
                0 => s.push(*src.pick(&['x', 'e', '1', '_', 'c', 'f'])),
                1 => {
                    let i = src.usize(s.len());
                    s.remove(i);
                }
                _ => {
                    let i = src.usize(s.len());
                    s.insert(i, *src.pick(&['a', 'c', 'q', '9']));
                }
            }
            let mut n: String = s.into_iter().collect();
            if n.is_empty() || n.as_bytes()[0].is_ascii_digit() || is_mnemonic(&n) || n == "equ" {
                n = format!("zz{}", m);
            }
            format!("  {}", n)
        }
        18 => format!("  .text {} \"{}\"", src.range(0, 3), "abcd"),
        19 => format!("  .string {} \"{}\"", src.range(0, 5), "日日"),
        20 => format!("  .org {}", *src.pick(&["$10000", "65536", "70000", "$7fffffff", "%10000000000000000"])),
        21 => format!("  {}", *src.pick(&["%end", "%macro", "%macro add %x", "%macro zz 5", "%macro zz @R1", "%macro zz x", "%foo", "zz9%", "zz9%:", ".zz9%"])),
        22 => format!("  .include {}", *src.pick(&["\"missing_file.s\"", "asm \"missing_file.s\"", "bytes \"missing.bin\"", "cpp \"missing.h\"", "icon \"missing.png\"", "sprite \"missing.png\"", "missing", "\"a\" \"b\"", "sprite \"x.png\" type=\"weird\"", "sprite \"x.png\" header=\"maybe\"", "sprite \"x.png\" type=5", "icon \"x.png\" speed=\"fast\""])),
        // `mul :` and `mul = 5` would be a label and a constant
        _ if FORMS[f].1.is_empty() => format!("  {} {}", v, *src.pick(&["\"x\"", "9 9", "= = =", ", 5", "#"])),
        _ => format!("  {} {}", v, *src.pick(&["@R1", "\"x\"", ":", "=5", "#1", "9 9", "= = ="])),
    };
    // an appended operand can turn `mul` etc. into another documented form: never,
    // the pieces above are separated by blanks, not commas.
    let mut lines: Vec<String> = lines_before.lines().map(|s| s.to_string()).collect();
    let at = src.usize(lines.len() + 1);
    lines.insert(at, bad.clone());
    if kind == 16 {
        // a string may span lines: what follows must not close this one
        if let Some(q) = (at + 1..lines.len()).find(|i| lines[*i].contains('"')) {
            lines.truncate(q);
        }
    }
    let text = lines.join("\n") + "\n";
    let got = assemble_src(ctx, &text)?;
    judge(&got, &Err(format!("malformed line `{}`", bad)), &repro(&text))?;
    ok(true, bad, vec!["malformed-line"])
}

fn src_form() -> usize {
    FORMS.iter().position(|f| f.0 == "nop").unwrap()
}

// ------------------------------------------------------------------------ C04

fn random_expr(src: &mut Src, syms: &[(String, i64)], depth: u32) -> E {
    if depth == 0 || src.chance(1, 5) {
        return if !syms.is_empty() && src.chance(1, 4) {
            sym(&syms[src.usize(syms.len())].0)
        } else {
            let v = match src.below(6) {
                0 => src.range(0, 9),
                1 => src.range(0, 255),
                2 => src.range(0, 65535),
                3 => gen::interesting(src, 0, I32MAX),
                4 => src.range(0, I32MAX),
                _ => src.range(0, 100),
            };
            num(v)
        };
    }
    match src.weighted(&[3, 3, 2, 2, 1, 1, 1, 1, 1, 1]) {
        0 => bin('+', random_expr(src, syms, depth - 1), random_expr(src, syms, depth - 1)),
        1 => bin('-', random_expr(src, syms, depth - 1), random_expr(src, syms, depth - 1)),
        2 => bin('*', random_expr(src, syms, depth - 1), random_expr(src, syms, depth - 1)),
        3 => bin('/', random_expr(src, syms, depth - 1), random_expr(src, syms, depth - 1)),
        4 => bin('&', random_expr(src, syms, depth - 1), random_expr(src, syms, depth - 1)),
        5 => bin('|', random_expr(src, syms, depth - 1), random_expr(src, syms, depth - 1)),
        6 => bin('^', random_expr(src, syms, depth - 1), random_expr(src, syms, depth - 1)),
        7 => un('-', random_expr(src, syms, depth - 1)),
        8 => un('<', random_expr(src, syms, depth - 1)),
        _ => un('>', random_expr(src, syms, depth - 1)),
    }
}

fn c04(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut sts: Vec<St> = vec![];
    let mut syms: Vec<(String, i64)> = vec![];
    let mut used = vec![];
    let org = src.range(0, 600);
    sts.push(St::Org(org));
    let l = gen::name(src, &mut used, false);
    sts.push(St::Label(l.clone()));
    syms.push((l, org));
    for _ in 0..src.usize(4) {
        let n = gen::name(src, &mut used, false);
        let v = match src.below(4) {
            0 => src.range(-300, 300),
            1 => gen::interesting(src, I32MIN + 1, I32MAX),
            2 => 0,
            _ => src.range(0, 70000),
        };
        sts.push(St::Equ(n.clone(), num(v)));
        syms.push((n, v));
    }
    let head = sts.clone();
    let env_syms = syms.clone();
    let env = move |s: &str| env_syms.iter().find(|x| x.0.to_lowercase() == s).map(|x| x.1);
    let k = 1 + src.usize(12);
    let mut n = 0;
    let mut ops = 0;
    let mut rejects: Vec<(E, EvErr)> = vec![];
    for _ in 0..k {
        let d = 1 + src.below(4) as u32;
        let e = random_expr(src, &syms, d);
        match e.eval(&env) {
            Ok(v) => {
                // shift the value into the range of a word so that all 32 bits are observed
                let r = src.range(-1000, 65000);
                let k = r - v;
                let w = if v >= -32768 && v <= 65535 && src.bool() {
                    e.clone()
                } else if k >= 0 && k <= I32MAX {
                    bin('+', e.clone(), num(k))
                } else if k < 0 && -k <= I32MAX {
                    bin('-', e.clone(), num(-k))
                } else if v == I32MIN {
                    bin('+', e.clone(), num(I32MAX))
                } else {
                    bin('-', e.clone(), num(I32MAX))
                };
                match w.eval(&env) {
                    Ok(x) if (-32768..=65535).contains(&x) => {
                        n += 1;
                        ops += e.size();
                        match src.below(5) {
                            0 => {
                                // through a constant
                                let c = gen::name(src, &mut used, false);
                                sts.push(St::Equ(c.clone(), w));
                                sts.push(St::Word(vec![sym(&c)]));
                            }
                            1 if (0..=511).contains(&v) => sts.push(St::Instr("ld".into(), vec![Op::Dir(e)])),
                            2 if (0..=255).contains(&v) => sts.push(St::Instr("add".into(), vec![Op::Imm(e)])),
                            _ => sts.push(St::Word(vec![w])),
                        }
                    }
                    _ => {}
                }
            }
            Err(er) => rejects.push((e, er)),
        }
    }
    let text = render::fancy(src, &sts);
    check_program(ctx, &sts, &text)?;
    let mut labels = vec![];
    let mut sub = n;
    if let Some((e, er)) = rejects.first() {
        let mut s2 = head.clone();
        // a failing expression anywhere it can stand
        match src.below(3) {
            0 => s2.push(St::Equ("zzbad".into(), e.clone())),
            1 => s2.push(St::Word(vec![e.clone()])),
            _ => s2.push(St::Byte(vec![BV::Ex(un('<', e.clone()))])),
        }
        let t2 = render::fancy(src, &s2);
        let got = assemble_src(ctx, &t2)?;
        judge(&got, &Err(format!("{:?}", er)), &repro(&t2))?;
        labels.push(match er {
            EvErr::DivZero => "rejects-divide-by-zero",
            EvErr::Overflow => "rejects-overflow",
            EvErr::Undefined(_) => "rejects-undefined",
        });
        sub += 1;
    }
    okn(ops >= 3 || !labels.is_empty(), text, labels, sub)
}

/// Every pair of operators without parentheses: precedence and associativity,
/// and every operator on a grid of boundary values.
fn c04_pairs(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = src.below(4) as usize;
    let ops = ['+', '-', '*', '/', '&', '|', '^'];
    let un_ops = ['-', '<', '>'];
    let mut sts = vec![];
    let p = |c: char| bin(c, num(1), num(1)).prec();
    let mut sub = 0;
    let mut lines = String::new();
    let mut exp: Vec<u8> = vec![];
    let mut put = |text: String, v: i64| {
        // low 16 bits via .word with a mask independent of sign
        lines.push_str(&format!("  .word {}\n", text));
        exp.push(v as u8);
        exp.push((v >> 8) as u8);
        sub += 1;
    };
    let none = |_: &str| None;
    if i == 0 {
        let vals: &[(i64, i64, i64)] = &[(100, 7, 3), (12, 5, 2), (60000, 250, 6), (9, 4, 4), (255, 16, 15), (1, 2, 3)];
        for a in ops {
            for b in ops {
                for (x, y, z) in vals {
                    let e = if p(b) > p(a) { bin(a, num(*x), bin(b, num(*y), num(*z))) } else { bin(b, bin(a, num(*x), num(*y)), num(*z)) };
                    if let Ok(v) = e.eval(&none) {
                        if (-32768..=65535).contains(&v) {
                            put(format!("{} {} {} {} {}", x, a, y, b, z), v);
                            put(format!("{}{}{}{}{}", x, a, y, b, z), v);
                        }
                    }
                }
            }
        }
    } else if i == 1 {
        for u in un_ops {
            for a in ops {
                for (x, y) in [(5i64, 3i64), (300, 7), (4660, 2), (65535, 255)] {
                    let e = bin(a, un(u, num(x)), num(y));
                    if let Ok(v) = e.eval(&none) {
                        if (-32768..=65535).contains(&v) {
                            put(format!("{}{} {} {}", u, x, a, y), v);
                        }
                    }
                    let e = bin(a, num(x), un(u, num(y)));
                    if let Ok(v) = e.eval(&none) {
                        if (-32768..=65535).contains(&v) {
                            put(format!("{} {} {}{}", x, a, u, y), v);
                        }
                    }
                    for w in un_ops {
                        let e = un(u, un(w, bin(a, num(x), num(y))));
                        if let Ok(v) = e.eval(&none) {
                            if (-32768..=65535).contains(&v) {
                                put(format!("{}{}({}{}{})", u, w, x, a, y), v);
                            }
                        }
                    }
                }
            }
        }
    } else if i == 2 {
        let g: &[i64] = &[0, 1, -1, 2, -2, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, -32768, -65536, 1000000, -1000000, I32MAX, I32MIN + 1];
        for a in ops {
            for x in g {
                for y in g {
                    let e = bin(a, num(*x), num(*y));
                    if let Ok(v) = e.eval(&none) {
                        for sel in ['<', '>'] {
                            let w = if sel == '<' { v & 0xFF } else { (v >> 8) & 0xFF };
                            put(format!("{}({} {} {})", sel, x, a, y), w);
                        }
                        // the upper half of the 32 bits
                        put(format!(">(({} {} {}) / 65536)", x, a, y), ((v / 65536) >> 8) & 0xFF);
                        put(format!("<(({} {} {}) / 65536)", x, a, y), (v / 65536) & 0xFF);
                    }
                }
            }
        }
    } else {
        // number literals in every radix
        for v in (0..70000i64).step_by(37).chain([0, 1, 255, 256, 65535]) {
            let v = v.min(65535);
            put(format!("{}", v), v);
            put(format!("${:X}", v), v);
            put(format!("0x{:x}", v), v);
            put(format!("0o{:o}", v), v);
            put(format!("%{:b}", v), v);
            put(format!("0b{:b}", v), v);
        }
        sts.push(St::Raw(String::new()));
    }
    let _ = sts;
    let got = assemble_src(ctx, &lines)?;
    if let Asm::Ok(b) = &got {
        if *b != exp {
            let q = b.iter().zip(exp.iter()).position(|(x, y)| x != y).unwrap_or(0) / 2;
            let l = lines.lines().nth(q).unwrap_or("?");
            return fail(
                format!("`{}` expected {} got {}", l.trim(), hex(&exp[2 * q..2 * q + 2]), hex(b.get(2 * q..2 * q + 2).unwrap_or(&[]))),
                repro(&format!("{}\n", l)),
            );
        }
    } else {
        return fail(got.describe(), repro(&clip(&lines, 3000)));
    }
    okn(true, format!("operator grid {}: {} expressions", i, sub), vec![], sub)
}

// ------------------------------------------------------------------------ C05

fn c05(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let o = gen::Opts { max_stmts: 20, depth: 1, ..Default::default() };
    let mut sts = gen::program(src, &o);
    let lay = layout(&sts).unwrap();
    // observe every label's position
    if !lay.globals.is_empty() && src.chance(2, 3) && lay.globals.values().all(|v| *v <= 65535) {
        let ws: Vec<E> = lay.globals.keys().map(|k| sym(k)).collect();
        sts.push(St::Word(ws));
    }
    let text = render::fancy(src, &sts);
    check_program(ctx, &sts, &text)?;
    let has = |f: &dyn Fn(&St) -> bool| sts.iter().filter(|s| f(s)).count();
    let org = has(&|s| matches!(s, St::Org(_)));
    let cnop = has(&|s| matches!(s, St::Cnop(..)));
    let text_n = has(&|s| matches!(s, St::Text(..) | St::Str(..)));
    let mut labels = vec![];
    if org > 0 {
        labels.push("org");
    }
    if cnop > 0 {
        labels.push("cnop");
    }
    if text_n > 0 {
        labels.push("text/string");
    }
    // back-tracking overwrite
    let mut back = false;
    for (i, s) in sts.iter().enumerate() {
        if let St::Org(a) = s {
            if i > 0 && *a < lay.pos.get(i).copied().unwrap_or(0) {
                back = true;
            }
        }
    }
    if back {
        labels.push("org-backwards");
    }
    ok(org + cnop + text_n > 0, text, labels)
}

/// .cnop at every position of a grid, .text/.string at every pad length.
fn c05_grid(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = src.below(40) as i64;
    let mut t = String::new();
    let mut exp: Vec<u8> = vec![];
    let mut sub = 0;
    if i < 32 {
        let ms = [1i64, 2, 3, 4, 5, 7, 8, 10, 16, 17, 32, 33, 64, 100, 128, 255, 256, 257, 512, 1000, 1024, 4096, 6, 9, 12, 48, 96, 320, 511, 513, 2048, 15];
        let m = ms[i as usize];
        for pos in 0..48i64 {
            for a in [0i64, 1, 2, m - 1, m, m + 1, 30] {
                // each probe in its own stretch: start at the current length
                let start = exp.len() as i64;
                if start + 2 * m + 100 > 60000 {
                    break;
                }
                let _ = pos;
                t.push_str(&format!("  .byte {}\n", 1 + (sub % 200)));
                exp.push(1 + (sub % 200) as u8);
                t.push_str(&format!("  .cnop {}, {}\n", a, m));
                let p = exp.len() as i64;
                let up = (p + m - 1) / m * m + a;
                exp.resize(up as usize, 0);
                sub += 1;
            }
        }
        t.push_str("  .byte 99\n");
        exp.push(99);
    } else {
        let base = (i - 32) * 5;
        for len in base..base + 5 {
            for pad in [0i64, 1, 2, 7, 32] {
                let s: String = (0..len).map(|k| (b'a' + (k % 26) as u8) as char).collect();
                t.push_str(&format!("  .text {} \"{}\"\n  .string {} \"{}\"\n", len + pad, s, len + pad, s));
                exp.extend(s.bytes());
                exp.resize(exp.len() + pad as usize, b' ');
                exp.extend(s.bytes());
                exp.resize(exp.len() + pad as usize, 0);
                sub += 2;
            }
        }
    }
    let got = assemble_src(ctx, &t)?;
    judge(&got, &Ok(exp), &repro(&t))?;
    okn(true, format!("directive grid {}", i), vec![], sub as u64)
}

// ------------------------------------------------------------------------ C06

fn c06(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    // several scopes that reuse the same local names; constants between them
    let nscopes = 1 + src.usize(4);
    let mut used = vec![];
    let local_pool = [".loop", ".a", ".end", ".x1"];
    let mut sts: Vec<St> = vec![];
    let mut globals: Vec<String> = vec![];
    let mut consts: Vec<String> = vec![];
    for sc in 0..nscopes {
        if !(sc == 0 && src.bool()) {
            let g = gen::name(src, &mut used, false);
            globals.push(g.clone());
            sts.push(St::Label(g));
        }
        let k = src.usize(5);
        let mut defined: Vec<&str> = vec![];
        let bare = src.chance(1, 3);
        for _ in 0..k {
            match src.below(if bare { 2 } else { 5 }) {
                0 => {
                    let l = *src.pick(&local_pool);
                    if !defined.contains(&l) {
                        defined.push(l);
                        sts.push(St::Label(l.into()));
                    }
                }
                1 => {
                    let c = gen::name(src, &mut used, false);
                    consts.push(c.clone());
                    sts.push(St::Equ(c, num(0)));
                }
                _ if bare => {}
                2 => sts.push(St::Byte(vec![BV::Ex(num(0)); 1 + src.usize(3)])),
                _ => sts.push(St::Word(vec![num(0)])),
            }
        }
        // now and then a scope without a byte of its own: the next label has its address
        if src.chance(1, 4) {
            continue;
        }
        sts.push(St::Word(vec![num(0); 1 + src.usize(3)]));
        if src.bool() {
            sts.push(St::Instr("jmp".into(), vec![Op::Dir(num(0))]));
        }
    }
    let lay = layout(&sts).unwrap();
    // fill constants: chains over labels anywhere and constants above
    let mut above: Vec<String> = globals.clone();
    let mut out = sts.clone();
    for (i, s) in sts.iter().enumerate() {
        if let St::Equ(n, _) = s {
            let e = if above.is_empty() || src.chance(1, 4) {
                num(src.range(0, 500))
            } else {
                let a = sym(src.pick(&above));
                match src.below(3) {
                    0 => a,
                    1 => bin('+', a, num(src.range(0, 9))),
                    _ => {
                        let b = sym(src.pick(&above));
                        bin('-', bin('+', a, b), num(src.range(0, 9)))
                    }
                }
            };
            out[i] = St::Equ(n.clone(), e);
            above.push(n.clone());
        }
    }
    // fill uses
    let mut localrefs = 0;
    for (i, s) in sts.iter().enumerate() {
        let scope = lay.scope[i].clone();
        let mut locs: Vec<String> = lay.locals.keys().filter(|k| k.0 == scope).map(|k| k.1.clone()).collect();
        locs.sort();
        let mut choose = |src: &mut Src, lab: bool| -> E {
            if !locs.is_empty() && src.bool() {
                localrefs += 1;
                sym(&locs[src.usize(locs.len())])
            } else if !globals.is_empty() && (lab || src.bool()) {
                sym(src.pick(&globals))
            } else if !consts.is_empty() && !lab {
                sym(src.pick(&consts))
            } else {
                num(1)
            }
        };
        match s {
            St::Word(v) => out[i] = St::Word(v.iter().map(|_| choose(src, false)).collect()),
            St::Instr(m, _) => out[i] = St::Instr(m.clone(), vec![Op::Dir(choose(src, true))]),
            _ => {}
        }
    }
    // sometimes break it
    let mut kind = "valid";
    match src.below(12) {
        0 => {
            kind = "undefined-name";
            let at = src.usize(out.len() + 1);
            out.insert(at, St::Word(vec![sym("nowhere")]));
        }
        1 => {
            kind = "local-out-of-scope?";
            let at = src.usize(out.len() + 1);
            out.insert(at, St::Word(vec![sym(src.pick(&local_pool))]));
        }
        2 if !globals.is_empty() => {
            kind = "duplicate-label";
            let g = src.pick(&globals).clone();
            let at = src.usize(out.len() + 1);
            out.insert(at, St::Label(if src.bool() { g.to_uppercase() } else { g }));
        }
        3 if !globals.is_empty() => {
            kind = "constant-vs-label";
            let g = src.pick(&globals).clone();
            let at = src.usize(out.len() + 1);
            out.insert(at, St::Equ(if src.bool() { g.to_uppercase() } else { g }, num(1)));
        }
        4 if !consts.is_empty() => {
            kind = "duplicate-constant";
            let g = src.pick(&consts).clone();
            let at = src.usize(out.len() + 1);
            out.insert(at, St::Equ(if src.bool() { g.to_uppercase() } else { g }, num(1)));
        }
        5 => {
            kind = "duplicate-local?";
            let at = src.usize(out.len() + 1);
            let l = src.pick(&local_pool).to_string();
            out.insert(at, St::Label(if src.bool() { l.to_uppercase() } else { l }));
        }
        6 if !consts.is_empty() => {
            kind = "constant-used-above?";
            let c = src.pick(&consts).clone();
            let at = src.usize(out.len() + 1);
            out.insert(at, St::Equ("zz_early".into(), bin('+', sym(&c), num(1))));
            out.push(St::Word(vec![sym("zz_early")]));
        }
        7 => {
            kind = "constant-from-local";
            let l = src.pick(&local_pool).to_string();
            out.push(St::Label("zz_scope".into()));
            out.push(St::Label(l.clone()));
            out.push(St::Equ("zz_c".into(), sym(&l)));
        }
        _ => {}
    }
    let text = render::fancy(src, &out);
    let want = check_program(ctx, &out, &text)?;
    ok(
        localrefs > 0 || want.is_err(),
        text,
        vec![kind, if want.is_err() { "must-reject" } else { "must-accept" }],
    )
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            rule: "sweep: for each of the documented instruction forms, every value of every operand field (other operands varied with it), assembled at fixed positions and compared byte for byte with an encoder interpreting the documented bit patterns; programs: random programs of instructions, labels, constants and .org with operands as random expressions, compared with the reference assembler. Non-trivial: at least 3 instructions.",
            families: vec![
                Family { name: "sweep", run: c01_sweep, quick: 0, thorough: 0, sweep: Some(FORMS.len()) },
                Family { name: "programs", run: c01_programs, quick: 6000, thorough: 60000, sweep: None },
            ],
            assumptions: &["the bit patterns in docs/instructions.md are the specification"],
        },
        Property {
            id: "C02",
            rule: "one instruction operand, .byte or .word value placed at, just past, far past, or congruent (modulo the field) to its documented range, at varied positions including page and bank edges, directly or through a constant; the reference decides accept (exact bytes) or reject. Every case is non-trivial.",
            families: vec![Family { name: "ranges", run: c02, quick: 12000, thorough: 120000, sweep: None }],
            assumptions: &[],
        },
        Property {
            id: "C03",
            rule: "sweep: every mnemonic with every sequence of 0..4 operand kinds (direct, immediate, indirect), accepted exactly when documented; malformed: one malformed line of 27 kinds inserted in a random valid program, which must be rejected. Every case is non-trivial.",
            families: vec![
                Family { name: "sweep", run: c03_sweep, quick: 0, thorough: 0, sweep: Some(121 * 46) },
                Family { name: "malformed", run: c03_malformed, quick: 6000, thorough: 40000, sweep: None },
            ],
            assumptions: &[],
        },
        Property {
            id: "C04",
            rule: "random expression trees over literals in all radixes, labels and constants, rendered with minimal or redundant parentheses, observed in full 32-bit precision by shifting each value into word range; expressions that divide by zero or leave 32 bits must be rejected. pairs: all operator pairs, all unary/binary combinations, all operators on a boundary grid, literals of every radix. long: chains of up to 480 terms (of one operator family or all), nesting to the left and right and bare parentheses up to 235 deep, runs of prefix operators. Non-trivial: at least 3 operators, or a required rejection.",
            families: vec![
                Family { name: "pairs", run: c04_pairs, quick: 0, thorough: 0, sweep: Some(4) },
                Family { name: "trees", run: c04, quick: 8000, thorough: 80000, sweep: None },
                Family { name: "long", run: super::large::c04, quick: 1200, thorough: 12000, sweep: None },
            ],
            assumptions: &["precedence: prefix - < >, then * /, then + -, then & | ^, all left-associative (as the parser's own tests show)"],
        },
        Property {
            id: "C05",
            rule: "random programs mixing .org (forwards and backwards), .byte, .word, .text, .string, .cnop, labels and instructions, compared with the reference layout; label positions are observed through .word. grid: .cnop for 32 moduli at running positions, .text/.string for all lengths 0..39 and several pads. large: up to 3500 statements, lists of up to 500 values and strings of up to 5000 characters on one line, every label asked for. past-64k: programs whose data goes on behind address $FFFF. Non-trivial: has an .org, .cnop, .text or .string.",
            families: vec![
                Family { name: "grid", run: c05_grid, quick: 0, thorough: 0, sweep: Some(40) },
                Family { name: "programs", run: c05, quick: 8000, thorough: 80000, sweep: None },
                Family { name: "large", run: super::large::c05, quick: 300, thorough: 4000, sweep: None },
                Family { name: "past-64k", run: super::large::past, quick: 800, thorough: 10000, sweep: None },
            ],
            assumptions: &[],
        },
        Property {
            id: "C06",
            rule: "programs of several label scopes reusing local label names, constants chained over labels and earlier constants, forward and backward references, one of seven ways of breaking the rules in about half of the cases; the reference decides accept (exact bytes) or reject. large: up to 2500 scopes and hundreds of chained constants, perhaps one undefined or repeated name somewhere. past-64k: names whose values lie past address $FFFF. Non-trivial: references a local label or must be rejected.",
            families: vec![
                Family { name: "scopes", run: c06, quick: 10000, thorough: 100000, sweep: None },
                Family { name: "large", run: super::large::c06, quick: 300, thorough: 3000, sweep: None },
                Family { name: "past-64k", run: super::large::past, quick: 800, thorough: 8000, sweep: None },
            ],
            assumptions: &[],
        },
    ]
}
