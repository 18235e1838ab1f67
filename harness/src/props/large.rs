//! Inputs of unusual size, for several properties: long expressions, programs of
//! thousands of statements, deep and wide include trees, many frames. Each is
//! built from a few choices (how much, and a seed for the filling), so that a
//! failure still shrinks to the smallest size that shows it.
use super::lang::{check_program, judge, repro, want_of};
use crate::engine::*;
use crate::img::{self, Pic, Px};
use crate::model::*;
use crate::tool::*;

struct Rng(u64);
impl Rng {
    fn new(src: &mut Src) -> Rng {
        Rng(src.below(1 << 32).wrapping_mul(0x9E37_79B9) ^ 0x55)
    }
    fn below(&mut self, n: u64) -> u64 {
        splitmix(&mut self.0) % n
    }
    fn pick<'a, T>(&mut self, x: &'a [T]) -> &'a T {
        let i = self.below(x.len() as u64) as usize;
        &x[i]
    }
}

fn size(n: usize) -> &'static str {
    match n {
        0..=9 => "up-to-9",
        10..=49 => "10-49",
        50..=255 => "50-255",
        256..=999 => "256-999",
        _ => "1000-up",
    }
}

/// A size: often at or next to one of the given ones, else anything up to the last.
fn amount(src: &mut Src, edges: &[i64], max: i64) -> usize {
    if src.chance(1, 2) {
        let e = *src.pick(edges);
        (e + src.range(0, 2) - 1).clamp(1, max) as usize
    } else {
        src.range(1, max) as usize
    }
}

/// Split a program's text error out of the way: the reference may reject.
fn settle(ctx: &mut Ctx, sts: &[St], text: &str, key: String, labels: Vec<&'static str>, n: usize) -> CaseResult {
    let w = check_program(ctx, sts, text)?;
    let mut l = labels;
    l.push(if w.is_ok() { "accepted" } else { "rejected" });
    okn(true, key, l, n as u64)
}

// ------------------------------------------------------------------------ C04

fn leaf(g: &mut Rng) -> i64 {
    match g.below(4) {
        0 => *g.pick(&[0i64, 1, 2, 3, 255, 256, 65535]),
        1 => g.below(0x10000) as i64,
        _ => g.below(10) as i64,
    }
}

/// Long chains, deep nesting, long prefix runs.
pub fn c04(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    // terms the tool has to take: its own bound is 500
    let n = amount(src, &[2, 8, 32, 64, 100, 127, 128, 200, 255, 256, 400, 480], 480);
    let shape = src.below(6) as usize;
    // a parenthesis counts as a term
    let n = if shape >= 2 { n.min(235) } else { n };
    let mut g = Rng::new(src);
    let (text, want): (String, Result<i64, EvErr>) = match shape {
        0 | 1 => {
            // a chain with one operator family (0) or with all of them (1), no
            // parentheses: precedence and associativity along the whole length
            let ops: &[char] = if shape == 0 { *g.pick(&[&['+', '-'][..], &['&', '|', '^'][..], &['*', '/'][..]]) } else { &['+', '-', '*', '/', '&', '|', '^'] };
            let mut vals = vec![];
            let mut oper = vec![];
            for i in 0..n {
                vals.push(match oper.last() {
                    Some('/') => 1 + g.below(4) as i64,
                    Some('*') => *g.pick(&[0i64, 1, 1, 2, 3]),
                    _ => leaf(&mut g),
                });
                if i + 1 < n {
                    oper.push(*g.pick(ops));
                }
            }
            let mut t = String::new();
            for (i, v) in vals.iter().enumerate() {
                t.push_str(&if i % 3 == 2 { format!("${:x}", v) } else { v.to_string() });
                if let Some(o) = oper.get(i) {
                    t.push_str(&format!(" {} ", o));
                }
            }
            // three passes, from the tightest to the loosest
            let fold = |vals: Vec<i64>, oper: Vec<char>, these: &[char]| -> Result<(Vec<i64>, Vec<char>), EvErr> {
                let mut v = vec![vals[0]];
                let mut o = vec![];
                for (i, op) in oper.iter().enumerate() {
                    if these.contains(op) {
                        let a = v.pop().unwrap();
                        v.push(bin(*op, num(a), num(vals[i + 1])).eval(&|_| None)?);
                    } else {
                        o.push(*op);
                        v.push(vals[i + 1]);
                    }
                }
                Ok((v, o))
            };
            let r = fold(vals, oper, &['*', '/']).and_then(|(v, o)| fold(v, o, &['+', '-'])).and_then(|(v, o)| fold(v, o, &['&', '|', '^']));
            (t, r.map(|(v, _)| v[0]))
        }
        2 | 3 => {
            // nested to the right or to the left with parentheses
            let mut v: Result<i64, EvErr> = Ok(leaf(&mut g));
            let mut t = v.clone().unwrap().to_string();
            for _ in 1..n {
                let x = leaf(&mut g);
                let op = *g.pick(&['+', '-', '&', '|', '^', '-', '+', '*', '/']);
                let right = shape == 2;
                v = v.and_then(|v| {
                    if right {
                        bin(op, num(x), E::Num(v)).eval(&|_| None)
                    } else {
                        bin(op, E::Num(v), num(x)).eval(&|_| None)
                    }
                });
                t = if right { format!("{} {} ({})", x, op, t) } else { format!("({}) {} {}", t, op, x) };
                if v.is_err() {
                    break;
                }
            }
            (t, v)
        }
        4 => {
            // a run of prefix operators
            let mut v: Result<i64, EvErr> = Ok(leaf(&mut g));
            let mut t = v.clone().unwrap().to_string();
            for i in 1..n {
                let op = if i < 3 { *g.pick(&['-', '<', '>']) } else { *g.pick(&['-', '-', '-', '<']) };
                v = v.and_then(|v| un(op, E::Num(v)).eval(&|_| None));
                t = format!("{}{}", op, t);
            }
            (t, v)
        }
        _ => {
            // parentheses around parentheses
            let x = leaf(&mut g);
            (format!("{}{}{}", "(".repeat(n), x, ")".repeat(n)), Ok(x))
        }
    };
    let t = format!("whole = {}\n .word whole & 65535, (whole / 65536) & 65535\n .word {}\n", text, if shape < 2 && n > 460 { "1".to_string() } else { format!("({}) & 255", text) });
    let want = want.and_then(|v| {
        let lo = v & 0xFFFF;
        let hi = bin('&', bin('/', E::Num(v), num(65536)), num(65535)).eval(&|_| None)?;
        let last = if shape < 2 && n > 460 { 1 } else { v & 255 };
        Ok([lo, hi, last].iter().flat_map(|x| (*x as u16).to_le_bytes()).collect::<Vec<u8>>())
    });
    let got = assemble_src(ctx, &t)?;
    let rejected = want.is_err();
    judge(&got, &want.map_err(|e| format!("{:?}", e)), &repro(&t))?;
    okn(
        true,
        t,
        vec![["chain-one-family", "chain-all-operators", "nested-right", "nested-left", "prefix-run", "parentheses"][shape], size(n), if rejected { "rejected" } else { "accepted" }],
        n as u64,
    )
}

// ------------------------------------------------------------------------ C05

/// Thousands of statements; every label's position is asked for at the end.
fn many_statements(src: &mut Src) -> (Vec<St>, usize) {
    let n = amount(src, &[100, 255, 256, 1000, 3000], 3500);
    let longs = src.below(4);
    let mut g = Rng::new(src);
    let mut sts = vec![];
    let mut labels: Vec<String> = vec![];
    let mut room: i64 = 60000;
    let mut pos: i64 = 0;
    for i in 0..n {
        if room < 700 {
            break;
        }
        let st = match g.below(12) {
            0 | 1 => {
                let l = format!("pos_{}", i);
                labels.push(l.clone());
                St::Label(l)
            }
            2 => {
                let max = if longs == 1 && g.below(20) == 0 { 500 } else { 6 };
                let k = 1 + g.below(max);
                St::Byte((0..k).map(|_| BV::Ex(num(g.below(256) as i64))).collect())
            }
            3 => {
                let max = if longs == 2 && g.below(20) == 0 { 300 } else { 4 };
                let k = 1 + g.below(max);
                St::Word(
                    (0..k)
                        .map(|_| match labels.last() {
                            Some(l) if g.below(2) == 0 => sym(l),
                            _ => num(g.below(65536) as i64),
                        })
                        .collect(),
                )
            }
            4 => {
                let max = if longs == 3 && g.below(20) == 0 { 5000.min(room as u64 - 200) } else { 12 };
                let k = g.below(max + 1) as usize;
                let t: String = (0..k).map(|_| (b'a' + g.below(26) as u8) as char).collect();
                match g.below(3) {
                    0 => St::Byte(vec![BV::Str(t)]),
                    1 => St::Str(k as i64 + g.below(4) as i64, t),
                    _ => St::Text(k as i64 + g.below(4) as i64, t),
                }
            }
            5 => St::Cnop(g.below(2) as i64, *g.pick(&[2i64, 4, 8, 16])),
            6 => match labels.last() {
                Some(l) => St::Instr("callf".into(), vec![Op::Dir(sym(l))]),
                None => St::Instr("nop".into(), vec![]),
            },
            7 => St::Instr("mov".into(), vec![Op::Imm(num(g.below(256) as i64)), Op::Dir(num(g.below(512) as i64))]),
            8 => St::Instr("jmpf".into(), vec![Op::Dir(sym(&format!("pos_end")))]),
            9 => St::Instr("ld".into(), vec![Op::Dir(num(g.below(512) as i64))]),
            _ => St::Instr((*g.pick(&["nop", "ret", "rol", "push"])).to_string(), vec![]),
        };
        let st = match st {
            St::Instr(m, o) if m == "push" && o.is_empty() => St::Instr(m, vec![Op::Dir(num(g.below(512) as i64))]),
            s => s,
        };
        let sz = st_size(&st, pos).unwrap_or(0);
        pos += sz;
        room -= sz;
        sts.push(st);
    }
    sts.push(St::Label("pos_end".into()));
    labels.push("pos_end".into());
    // not all of them in one line, and not more than fits
    let step = 1 + labels.len() * 2 / (room.max(4) as usize);
    let show: Vec<E> = labels.iter().step_by(step).map(|l| sym(l)).collect();
    for c in show.chunks(100) {
        if pos + 2 * c.len() as i64 > 65000 {
            break;
        }
        pos += 2 * c.len() as i64;
        sts.push(St::Word(c.to_vec()));
    }
    (sts, n)
}

pub fn c05(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (sts, n) = many_statements(src);
    let t = crate::render::plain(&sts);
    let w = check_program(ctx, &sts, &t)?;
    let longest = t.lines().map(|l| l.len()).max().unwrap_or(0);
    okn(
        true,
        format!("{}:{}", n, hash_bytes(t.as_bytes())),
        vec![size(n), if longest > 1000 { "long-line" } else { "short-lines" }, if w.is_ok() { "accepted" } else { "rejected" }],
        n as u64,
    )
}

pub fn c10(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (sts, n) = many_statements(src);
    let t = crate::render::plain(&sts);
    let w = want_of(&reference(&sts));
    ctx.write("main.s", t.as_bytes());
    let rp = repro_files(&[("main.s".to_string(), t.as_bytes().to_vec())], "waterbear expand main.s > again.s; waterbear assemble again.s -o out.vms");
    let main = ctx.path("main.s").display().to_string();
    let r = ctx.wb(&["expand", &main])?;
    if !r.ok() {
        return match &w {
            Ok(_) => fail(format!("the program assembles but expand fails: {}", r.how()), rp),
            Err(_) if r.clean() => ok(false, "", vec!["both-rejected"]),
            Err(_) => fail(format!("expand: {}", r.how()), rp),
        };
    }
    ctx.write("again.s", &r.out);
    let got = assemble_existing(ctx, "again.s", "out.vms")?;
    judge(&got, &w, &rp)?;
    okn(w.is_ok(), format!("{}:{}", n, hash_bytes(t.as_bytes())), vec![size(n)], n as u64)
}

// ------------------------------------------------------------------------ C06

/// Very many scopes, labels and constants; perhaps one name that is missing or
/// said twice.
pub fn c06(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = amount(src, &[100, 255, 256, 1000, 2000], 2500);
    let locals = 1 + src.below(6) as usize;
    let spoil = src.below(5);
    let where_ = src.below(n as u64) as usize;
    let mut g = Rng::new(src);
    let mut sts = vec![];
    // as long as it stays below 64 KiB
    let per = 4 + 3 * locals as i64;
    let n = n.min((60000 / per) as usize);
    let where_ = where_.min(n - 1);
    // similar names: with and without a digit more, in a different case
    let name = |i: usize| -> String { ["scope", "Scope_", "s", "S."][i % 4].to_string() + &i.to_string() };
    let mut consts: Vec<String> = vec![];
    for i in 0..n {
        sts.push(St::Label(name(i)));
        for k in 0..locals {
            sts.push(St::Label(format!(".l{}", k)));
            sts.push(St::Instr("nop".into(), vec![]));
        }
        let l = g.below(locals as u64);
        let far = g.below(n as u64) as usize;
        let mut w = vec![sym(&format!(".l{}", l)), sym(&name(far))];
        if g.below(3) == 0 {
            let c = format!("const_{}", i);
            let e = match consts.last() {
                Some(p) if g.below(2) == 0 => bin('&', bin('+', sym(p), num(g.below(50) as i64)), num(0xFFFF)),
                _ => bin('&', sym(&name(g.below(n as u64) as usize)), num(0xFFF)),
            };
            sts.push(St::Equ(c.clone(), e));
            consts.push(c);
            if consts.len() % 60 == 0 {
                // no chain without end
                consts.push(format!("start_{}", i));
                sts.push(St::Equ(format!("start_{}", i), num(i as i64)));
            }
        }
        if i == where_ {
            match spoil {
                1 => w[1] = sym("never_defined"),
                2 => w[0] = sym(".nowhere"),
                3 => sts.push(St::Label(name(far).to_uppercase())),
                _ => {}
            }
        }
        sts.push(St::Word(w));
        if i % 3 == 0 {
            if let Some(c) = consts.last() {
                if g.below(2) == 0 {
                    let c = c.clone();
                    sts.push(St::Byte(vec![BV::Ex(un('<', sym(&c)))]));
                }
            }
        }
    }
    let t = crate::render::plain(&sts);
    let label = ["plain", "undefined", "undefined-local", "label-twice", "plain"][spoil as usize];
    settle(ctx, &sts, &t, format!("{}:{}", n, hash_bytes(t.as_bytes())), vec![size(n), label], n)
}

/// Programs that go on past 64 KiB, where no instruction can point any more but
/// data, names, .cnop and a later .org still mean what they always do.
pub fn past(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut sts = vec![];
    let mut pos: i64 = 0;
    if src.bool() {
        let at = *src.pick(&[0xFFFFi64, 0xFFFE, 0xFFF0, 0xFF00, 0x8000, 0]);
        sts.push(St::Org(at));
        pos = at;
    }
    let spoil = src.weighted(&[6, 1, 1, 1]);
    let n = 4 + src.usize(30);
    let at = src.usize(n);
    let mut g = Rng::new(src);
    let mut names: Vec<String> = vec![];
    let mut locals: Vec<String> = vec![];
    let mut back = false;
    let mut top = pos;
    let seen = |e: E, g: &mut Rng| -> St {
        match g.below(4) {
            0 => St::Word(vec![bin('&', e, num(0xFFFF))]),
            1 => St::Byte(vec![BV::Ex(bin('/', e, num(0x10000)))]),
            2 => St::Byte(vec![BV::Ex(un('<', e.clone())), BV::Ex(un('>', e.clone())), BV::Ex(bin('/', e, num(1 << 16)))]),
            _ => St::Word(vec![bin('-', e.clone(), bin('&', e, num(!0xFFFF & 0x7FFF_FFFF)))]),
        }
    };
    let mut wants: Vec<String> = vec![];
    for i in 0..n {
        let st = match g.below(11) {
            0 | 1 => {
                let l = format!("far_{}", i);
                names.push(l.clone());
                locals.clear();
                St::Label(l)
            }
            2 => {
                let l = format!(".l{}", i);
                locals.push(l.clone());
                St::Label(l)
            }
            3 => {
                let c = format!("const_{}", i);
                let e = match names.last() {
                    Some(l) if g.below(2) == 0 => bin('+', sym(l), num(g.below(300) as i64)),
                    _ => num(g.below(1 << 20) as i64),
                };
                names.push(c.clone());
                St::Equ(c, e)
            }
            4 => St::Text(*g.pick(&[100i64, 5000, 40000, 65000]), "filled".into()),
            5 => St::Str(*g.pick(&[100i64, 3000, 65535]), "filled".into()),
            6 => St::Cnop(g.below(2) as i64, *g.pick(&[2i64, 16, 256, 4096, 65536, 100000])),
            7 if !back && pos > 0xFFFF && g.below(3) == 0 => {
                back = true;
                St::Org(g.below(0x10000) as i64)
            }
            8 => St::Instr("nop".into(), vec![]),
            9 => match (names.is_empty(), locals.last()) {
                (false, _) => {
                    let l = g.pick(&names).clone();
                    seen(sym(&l), &mut g)
                }
                (_, Some(l)) => seen(sym(&l.clone()), &mut g),
                _ => St::Byte(vec![BV::Ex(num(7))]),
            },
            _ => match locals.last() {
                Some(l) => seen(sym(&l.clone()), &mut g),
                None => {
                    // a name that comes later
                    let l = format!("end_{}", wants.len());
                    wants.push(l.clone());
                    seen(sym(&l), &mut g)
                }
            },
        };
        if i == at {
            match spoil {
                1 => sts.push(seen(sym("never_defined"), &mut g)),
                2 => sts.push(seen(sym(".nowhere"), &mut g)),
                3 => {
                    if let Some(l) = names.last() {
                        sts.push(St::Label(l.to_uppercase()));
                    }
                }
                _ => {}
            }
        }
        pos = match &st {
            St::Org(v) => *v,
            s => pos + st_size(s, pos).unwrap_or(0),
        };
        top = top.max(pos);
        sts.push(st);
    }
    for l in wants {
        sts.push(St::Label(l));
        sts.push(St::Byte(vec![BV::Ex(num(1))]));
    }
    for l in names {
        sts.push(seen(sym(&l), &mut g));
    }
    let t = crate::render::plain(&sts);
    let w = check_program(ctx, &sts, &t)?;
    let label = ["plain", "undefined", "undefined-local", "label-twice"][spoil];
    okn(
        top > 0xFFFF,
        format!("{}", hash_bytes(t.as_bytes())),
        vec![label, if back { "back-again" } else { "onwards" }, if w.is_ok() { "accepted" } else { "rejected" }],
        n as u64,
    )
}

// ------------------------------------------------------------------------ C09

/// White space, comments and lines of unusual length change nothing.
pub fn c09(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = amount(src, &[255, 256, 4096, 8192, 65535, 65536], 70000);
    let what = src.below(8) as usize;
    let mut g = Rng::new(src);
    let v = g.below(256);
    let long = |s: &str| s.repeat(n);
    let name: String = (0..n.min(3000)).map(|i| (b'a' + (i % 26) as u8) as char).collect();
    let (t, label): (String, &'static str) = match what {
        0 => (format!("{}mov #{},{}$100{}\nhere:{}\n{}.word here\n", long(" "), v, long("\t"), long(" "), long(" "), long("\t ")), "white-space"),
        1 => (format!("  mov #{}, $100 ;{}\nhere: ;{}\n .word here ;{}", v, long("x"), long(" ; \""), long("'")), "comments"),
        2 => (format!("{}  mov #{}, $100\n{}here:{} .word here{}", long("\n"), v, long("\n;\n"), long("\n"), long("\n")), "empty-lines"),
        3 => (format!("  mov #{}, $100\n*{}\nhere:\n .word here\n{}", v, long("*"), long("* a star comment\n")), "star-comments"),
        4 => (format!("  mov #{}{}, $100\nhere:\n .word here + {}0\n", long("0"), v, long("0")), "leading-zeros"),
        5 => (format!("  mov #$0{}'{:x}, $100\nhere:\n .word here\n", long("'0"), v), "separators"),
        6 => (format!("{0} = {1}\n mov #{0}, $100\nhere{0}:\n .word here{2}\n", name, v, name.to_uppercase()), "names"),
        _ => (format!("  mov #{}, $100\nhere:\n .word here{}", v, "\r\n".repeat(n)), "crlf"),
    };
    let mut w = encode_fields(find_form("mov", &[Op::Imm(num(0)), Op::Dir(num(0x100))]).unwrap(), &[v as i64, 0x100]);
    let at = w.len() as u16;
    w.extend(at.to_le_bytes());
    let got = assemble_src(ctx, &t)?;
    judge(&got, &Ok(w), &repro(&t))?;
    ok(true, format!("{} {} {}", label, n, v), vec![label, size(n)])
}

// ------------------------------------------------------------------------ C11

/// Deep chains of includes, very many included files, one file very many times.
pub fn c11(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let shape = src.below(4) as usize;
    let n = match shape {
        0 | 3 => amount(src, &[10, 64, 100, 128, 190], 195),
        1 => amount(src, &[10, 64, 128, 256, 300], 320),
        _ => amount(src, &[10, 256, 500, 1000], 1000),
    };
    // a mistake at the far end of it all
    let spoil = src.chance(1, 5);
    let mut g = Rng::new(src);
    let b = |g: &mut Rng| g.below(256) as u8;
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    let mut want: Vec<u8> = vec![];
    let bad = if spoil { " .include \"nothere.s\"\n" } else { "" };
    match shape {
        0 | 3 => {
            // each file before and after the one it includes; all in one
            // directory, or each in a directory below
            let down = shape == 3;
            let mut pre = vec![];
            let mut post = vec![];
            let mut dir = String::new();
            for i in 0..=n {
                let (x, y) = (b(&mut g), b(&mut g));
                let name = if i == 0 { "main.s".to_string() } else { format!("f{}.s", i) };
                let step = if down && i % 8 == 7 { "d/" } else { "" };
                let up = if down && i % 8 == 3 && i % 3 == 0 { "./" } else { "" };
                let inc = if i < n { format!(" .include \"{}{}f{}.s\"\n", up, step, i + 1) } else { bad.to_string() };
                files.push((format!("{}{}", dir, name), format!(" .byte {}\nlab_{}:\n{} .byte {}\n", x, i, inc, y).into_bytes()));
                dir.push_str(step);
                pre.push(x);
                post.push(y);
            }
            post.reverse();
            want.extend(pre);
            want.extend(post);
        }
        1 => {
            let mut main = String::new();
            for i in 0..n {
                let x = b(&mut g);
                let kind = g.below(3);
                let name = format!("f{}.{}", i, ["s", "bin", "h"][kind as usize]);
                match kind {
                    0 => {
                        files.push((name.clone(), format!(" .byte {}", x).into_bytes()));
                        main.push_str(&format!(" .include \"{}\"\n", name));
                    }
                    1 => {
                        files.push((name.clone(), vec![x]));
                        main.push_str(&format!(" .include bytes \"{}\"\n", name));
                    }
                    _ => {
                        files.push((name.clone(), format!("#define H{} {}", i, x).into_bytes()));
                        main.push_str(&format!(" .include cpp \"{}\"\n .byte H{}\n", name, i));
                    }
                }
                want.push(x);
            }
            main.push_str(bad);
            files.insert(0, ("main.s".into(), main.into_bytes()));
        }
        _ => {
            let x = b(&mut g);
            let y = b(&mut g);
            let mut main = String::new();
            for i in 0..n {
                if g.below(2) == 0 {
                    main.push_str(" .include \"a.s\"\n");
                    want.push(x);
                    want.push(y);
                } else {
                    main.push_str(&format!("l{}: .include bytes \"b.bin\"\n", i).replace(": ", ":\n "));
                    want.push(y);
                }
            }
            main.push_str(bad);
            files.push(("main.s".into(), main.into_bytes()));
            files.push(("a.s".into(), format!(" .byte {}\n .include bytes \"b.bin\"\n", x).into_bytes()));
            files.push(("b.bin".into(), vec![y]));
        }
    }
    let got = assemble(ctx, &files, "main.s")?;
    let w = if spoil { Err("a file that is not there".to_string()) } else { Ok(want) };
    judge(&got, &w, &repro_files(&files, "waterbear assemble main.s -o out.vms"))?;
    okn(
        true,
        format!("{} {} {} {}", shape, n, spoil, g.below(1 << 40)),
        vec![["chain", "many-files", "one-file-often", "chain-of-directories"][shape], size(n), if spoil { "rejected" } else { "accepted" }],
        n as u64,
    )
}

// ------------------------------------------------------------------------ C12

/// A header with very many definitions, long comments.
pub fn c12(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = amount(src, &[100, 256, 1000, 3000], 3000);
    let crlf = src.chance(1, 4);
    let mut g = Rng::new(src);
    let nl = if crlf { "\r\n" } else { "\n" };
    let mut h = String::new();
    let mut vals: Vec<i64> = vec![];
    let mut longs = 0;
    for i in 0..n {
        let mut v = g.below(65536) as i64;
        match g.below(30) {
            0 => h.push_str(&format!("/*{}*/{}", " * x\n".repeat(g.below(200) as usize), nl)),
            1 => h.push_str(&format!("//{}{}", "/* ".repeat(g.below(200) as usize), nl)),
            2 => h.push_str(&nl.repeat(g.below(100) as usize)),
            _ => {}
        }
        let e = match g.below(5) {
            0 => format!("0x{:X}", v),
            1 => format!("({})", v),
            2 if i > 0 => {
                let back = 1 + g.below((i as u64).min(40)) as usize;
                v = (vals[i - back] + 1) & 0xFFFF;
                format!("((D_{} + 1) & 0xFFFF)", i - back)
            }
            3 if g.below(n as u64) < 8 => {
                // a definition of several hundred tokens on its one line
                let k = 60 + g.below(300) as usize;
                longs += 1;
                let mut t = String::new();
                v = 0;
                for j in 0..k {
                    let x = g.below(400) as i64;
                    v = if j > 0 && g.below(3) == 0 { t.push_str(" - "); v - x } else { if j > 0 { t.push_str(" + "); } v + x };
                    t.push_str(&x.to_string());
                }
                v &= 0xFFFF;
                format!("(({}) & 0xFFFF)", t)
            }
            _ => v.to_string(),
        };
        h.push_str(&format!("#define D_{} {}{}{}", i, e, if g.below(4) == 0 { " // note" } else { "" }, nl));
        vals.push(v);
    }
    let mut t = String::from(" .include cpp \"all.h\"\n");
    let mut want = vec![];
    for i in 0..n {
        if i < 200 || i + 200 > n || g.below(4) == 0 {
            t.push_str(&format!(" .word D_{}\n", i));
            want.extend((vals[i] as u16).to_le_bytes());
        }
    }
    let files = vec![("main.s".to_string(), t.into_bytes()), ("all.h".to_string(), h.clone().into_bytes())];
    let got = assemble(ctx, &files, "main.s")?;
    judge(&got, &Ok(want), &repro_files(&files, "waterbear assemble main.s -o out.vms"))?;
    okn(true, format!("{}:{}", n, hash_bytes(h.as_bytes())), vec![size(n), if crlf { "crlf" } else { "lf" }, if longs > 0 { "long-line" } else { "short-lines" }], n as u64)
}

// ------------------------------------------------------------------- C21, C22

fn frames(src: &mut Src, w: usize, h: usize, pal: &[Px]) -> Pic {
    let n = amount(src, &[16, 17, 100, 128, 255, 256, 257, 300], 300);
    let mut g = Rng::new(src);
    let k = 2 + g.below(pal.len() as u64 - 1) as usize;
    // every frame is different from the one before
    let mut fs: Vec<Vec<Px>> = vec![];
    let mut f: Vec<Px> = (0..w * h).map(|_| pal[g.below(k as u64) as usize]).collect();
    for i in 0..n {
        let at = (i * 37 + g.below(9) as usize) % (w * h);
        let old = f[at];
        f[at] = *pal[..k].iter().find(|c| **c != old).unwrap();
        fs.push(f.clone());
    }
    let delay = (0..n).map(|i| if i % 5 == 0 { 20 } else { 100 }).collect();
    Pic { w, h, frames: fs, delay }
}

fn animated(src: &mut Src, p: &Pic) -> (&'static str, Vec<u8>) {
    if p.frames.len() > 1 && src.bool() {
        ("png", img::png_mode(&mut Src::replay(vec![]), p, &img::Mode::Rgba8, true))
    } else {
        ("gif", img::gif(p))
    }
}

const PAL: &[Px] = &[
    [0, 0, 0, 255],
    [255, 255, 255, 255],
    [255, 0, 0, 255],
    [0, 255, 0, 255],
    [0, 0, 255, 255],
    [17, 34, 51, 255],
    [170, 187, 204, 255],
    [85, 85, 0, 255],
    [0, 85, 170, 255],
    [238, 221, 0, 255],
    [34, 0, 68, 255],
    [102, 153, 102, 255],
    [255, 136, 0, 255],
    [136, 0, 255, 255],
    [0, 136, 136, 255],
    [187, 17, 187, 255],
];

pub fn c21(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut p = frames(src, 32, 32, PAL);
    if src.bool() {
        p.frames.truncate(127);
        p.delay.truncate(127);
    }
    let (ext, d) = animated(src, &p);
    let n = p.frames.len();
    let name = format!("i.{}", ext);
    let w = img::icon_bytes(&p, 10, None).unwrap();
    let w: Result<Vec<u8>, String> = Ok(w);
    let files = vec![("main.s".to_string(), format!(" .include icon \"{}\"\n", name).into_bytes()), (name, d)];
    let got = assemble(ctx, &files, "main.s")?;
    let l = vec![size(n), ext, if w.is_ok() { "accepted" } else { "rejected" }];
    judge(&got, &w, &repro_files(&files, "waterbear assemble main.s -o out.vms"))?;
    okn(true, format!("{} {}", n, p.summary()), l, n as u64)
}

pub fn c22(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (w, h) = *src.pick(&[(8usize, 8usize), (1, 1), (9, 3), (16, 4), (48, 2), (3, 32)]);
    let p = frames(src, w, h, &PAL[..2]);
    let masked = src.bool();
    let header = src.bool();
    let (ext, d) = animated(src, &p);
    let n = p.frames.len();
    let name = format!("i.{}", ext);
    let want = img::sprite_bytes(&p, masked, header);
    let files = vec![
        (
            "main.s".to_string(),
            format!(" .include sprite \"{}\" type=\"{}\", header=\"{}\"\n", name, if masked { "masked" } else { "simple" }, if header { "yes" } else { "no" }).into_bytes(),
        ),
        (name, d),
    ];
    let got = assemble(ctx, &files, "main.s")?;
    judge(&got, &Ok(want), &repro_files(&files, "waterbear assemble main.s -o out.vms"))?;
    okn(true, format!("{} {}", n, p.summary()), vec![size(n), ext], n as u64)
}

// ------------------------------------------------------------------------ C07

/// Macros in quantity: nested deep, with many parameters, called very often,
/// very many of them, one name with very many parameter counts.
pub fn c07(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let shape = src.below(5) as usize;
    let n = match shape {
        0 => amount(src, &[10, 50, 64, 90], 95),
        1 | 4 => amount(src, &[8, 16, 32, 64, 100], 120),
        _ => amount(src, &[100, 255, 256, 1000, 2000], 2000),
    };
    let spoil = src.below(6);
    let mut g = Rng::new(src);
    let first = g.below(2) == 0;
    let mut defs = String::new();
    let mut calls = String::new();
    let mut sts: Vec<St> = vec![];
    let ld = |v: i64| St::Instr("ld".into(), vec![Op::Dir(num(v))]);
    let jmp = |l: &str| St::Instr("jmpf".into(), vec![Op::Dir(sym(l))]);
    let movi = |v: i64, d: i64| St::Instr("mov".into(), vec![Op::Imm(num(v)), Op::Dir(num(d))]);
    let mut bad = match spoil {
        1 => Some("no such macro"),
        _ => None,
    };
    match shape {
        0 => {
            // m0 calls m1 with its parameter and one more, and so on
            let mut order: Vec<usize> = (0..n).collect();
            for i in (1..n).rev() {
                order.swap(i, g.below(i as u64 + 1) as usize);
            }
            for i in order {
                let inner = if i + 1 < n { format!("  m{} %a + 1, %b\n", i + 1) } else { String::new() };
                defs.push_str(&format!("%macro m{} %a, %b\n  ld %a\n{}  st %b\n%end\n", i, inner));
            }
            let (a, b) = (g.below(256) as i64, g.below(512) as i64);
            calls.push_str(&format!("  m0 {}, {}\n", a, b));
            for i in 0..n {
                sts.push(ld(a + i as i64));
            }
            for _ in 0..n {
                sts.push(St::Instr("st".into(), vec![Op::Dir(num(b))]));
            }
        }
        1 => {
            let mut order: Vec<usize> = (0..n).collect();
            for i in (1..n).rev() {
                order.swap(i, g.below(i as u64 + 1) as usize);
            }
            let params: Vec<String> = (0..n).map(|i| format!("%p{}", i)).collect();
            defs.push_str(&format!("%macro many {}\n", params.join(", ")));
            for i in &order {
                defs.push_str(&format!("  mov #%p{}, $100\n", i));
            }
            defs.push_str("%end\n");
            let mut times = 1 + g.below(20);
            while times > 0 {
                times -= 1;
                let args: Vec<i64> = (0..n).map(|_| g.below(256) as i64).collect();
                calls.push_str(&format!("  many {}\n", args.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(", ")));
                for i in &order {
                    sts.push(movi(args[*i], 0x100));
                }
            }
            if spoil == 2 {
                calls.push_str(&format!("  many {}\n", vec!["1"; n + 1].join(", ")));
                bad = Some("one argument too many");
            }
        }
        2 => {
            for i in 0..n {
                defs.push_str(&format!("%macro mac_{} %v\n  mov #%v, ${:x}\n%end\n", i, i % 512));
                let v = g.below(256) as i64;
                if g.below(4) > 0 {
                    calls.push_str(&format!("  MAC_{} {}\n", i, v));
                    sts.push(movi(v, i as i64 % 512));
                }
            }
            if spoil == 2 {
                defs.push_str(&format!("%macro Mac_{} %w\n  ld %w\n%end\n", g.below(n as u64)));
                bad = Some("a macro twice");
            }
        }
        3 => {
            defs.push_str("%macro skip %to\n  jmpf out%\nagain%:\n  jmpf %to\nout%:\n  jmpf again%\n%end\n");
            sts.push(St::Label("start".into()));
            calls.push_str("start:\n");
            for i in 0..n {
                let o = format!("out__{}", i);
                let a = format!("again__{}", i);
                calls.push_str("  skip start\n");
                sts.push(jmp(&o));
                sts.push(St::Label(a.clone()));
                sts.push(jmp("start"));
                sts.push(St::Label(o));
                sts.push(jmp(&a));
            }
        }
        _ => {
            for i in 0..n {
                let params: Vec<String> = (0..i).map(|k| format!("%a{}", k)).collect();
                defs.push_str(&format!("%macro same {}\n", params.join(", ")));
                if i > 0 {
                    defs.push_str(&format!("  ld %a{}\n", i - 1));
                }
                defs.push_str(&format!("  mov #{}, $100\n%end\n", i));
            }
            for _ in 0..30 {
                let k = g.below(n as u64) as usize;
                let args: Vec<i64> = (0..k).map(|_| g.below(512) as i64).collect();
                calls.push_str(&format!("  same {}\n", args.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(", ")));
                if let Some(v) = args.last() {
                    sts.push(ld(*v));
                }
                sts.push(movi(k as i64, 0x100));
            }
            if spoil == 2 {
                calls.push_str(&format!("  same {}\n", vec!["1"; n].join(", ")));
                bad = Some("no macro with that many parameters");
            }
        }
    }
    if spoil == 1 {
        calls.push_str("  nosuch 1\n");
    }
    let t = if first { format!("{}{}", defs, calls) } else { format!("{}{}", calls, defs) };
    let w = match bad {
        Some(why) => Err(why.to_string()),
        None => want_of(&reference(&sts)),
    };
    let got = assemble_src(ctx, &t)?;
    let accepted = w.is_ok();
    judge(&got, &w, &repro(&t))?;
    okn(
        true,
        format!("{}:{}", n, hash_bytes(t.as_bytes())),
        vec![["nested", "many-parameters", "many-macros", "called-often", "many-arities"][shape], size(n), if accepted { "accepted" } else { "rejected" }],
        n as u64,
    )
}
