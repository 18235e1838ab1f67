//! C13, C14, C15, C17: the disassembler. The oracle is an independent decoder (the
//! documented bit patterns) and flow tracer.
use crate::engine::*;
use crate::model::*;
use crate::tool::*;
use std::collections::{BTreeMap, BTreeSet};

pub const VECTORS: &[usize] = &[0, 0x3, 0xb, 0x13, 0x1b, 0x23, 0x2b, 0x33, 0x3b, 0x43, 0x4b, 0x130];
pub const BIOS: &[usize] = &[0, 0x3, 0xb, 0x13, 0x1b, 0x23, 0x2b, 0x33, 0x3b, 0x43, 0x4b, 0x130, 0x100, 0x108, 0x110, 0x120, 0x140, 0x1f0];

pub fn entries(bios: bool) -> &'static [usize] {
    if bios {
        BIOS
    } else {
        VECTORS
    }
}

#[derive(Clone, Debug)]
pub struct Ins {
    pub form: usize,
    pub vals: Vec<i64>,
    pub size: usize,
}

impl Ins {
    /// Where the address operand, if any, points.
    pub fn target(&self, pos: usize) -> Option<i64> {
        let next = (pos + self.size) as i64;
        for (k, v) in FORMS[self.form].1.iter().zip(&self.vals) {
            match k {
                K::A12 => return Some((next & 0xF000) | *v),
                K::A16 => return Some(*v),
                K::R8 => return Some(next + *v),
                K::R16 => return Some(next - 1 + *v),
                _ => {}
            }
        }
        None
    }
    pub fn is_switch(&self) -> bool {
        FORMS[self.form].0 == "not1" && self.vals == [0x10D, 0]
    }
}

#[derive(Clone, Debug)]
pub enum Bad {
    Undefined(usize),
    Truncated(usize),
}

#[derive(Default, Debug)]
pub struct Trace {
    pub ins: BTreeMap<usize, Ins>,
    pub from: BTreeMap<usize, BTreeSet<usize>>,
    pub entries: Vec<usize>,
    /// a far jump after the memory switch that is reached in another way too
    pub ambiguous: bool,
    /// far jumps not followed
    pub flash: BTreeSet<usize>,
}

impl Trace {
    /// Instructions whose flow leaves the 64 KiB address space by a branch.
    pub fn leaves(&self, pos: usize) -> bool {
        let i = &self.ins[&pos];
        match i.target(pos) {
            Some(t) => !(0..=0xFFFF).contains(&t),
            None => false,
        }
    }
    pub fn covered(&self) -> BTreeSet<usize> {
        let mut s = BTreeSet::new();
        for (p, i) in &self.ins {
            for k in 0..i.size {
                s.insert(p + k);
            }
        }
        s
    }
    pub fn overlaps(&self, pos: usize) -> BTreeSet<usize> {
        let mut s = BTreeSet::new();
        let n = self.ins[&pos].size;
        for p in pos.saturating_sub(3)..pos {
            if let Some(i) = self.ins.get(&p) {
                if p + i.size > pos {
                    s.insert(p);
                }
            }
        }
        for p in pos + 1..pos + n {
            if self.ins.contains_key(&p) {
                s.insert(p);
            }
        }
        s
    }
}

pub fn trace(code: &[u8], entry: &[usize]) -> Result<Trace, Bad> {
    trace_with(code, entry, None)
}

/// All the reachable places that cannot be decoded; the code is followed elsewhere.
pub fn trace_all(code: &[u8], entry: &[usize], bads: &mut Vec<usize>) -> Option<Trace> {
    trace_with(code, entry, Some(bads)).ok()
}

fn trace_with(code: &[u8], entry: &[usize], mut bads: Option<&mut Vec<usize>>) -> Result<Trace, Bad> {
    let mut t = Trace { entries: entry.iter().copied().filter(|e| *e < code.len()).collect(), ..Default::default() };
    let mut todo: Vec<usize> = t.entries.clone();
    // Far jumps after a memory switch are not followed; whether that is the only way to
    // reach them is known at the end.
    let mut after_switch: BTreeSet<usize> = BTreeSet::new();
    let mut far: Vec<usize> = vec![];
    loop {
        let p = match todo.pop() {
            Some(p) => p,
            None if far.is_empty() => break,
            None => {
                // now the far jumps that no memory switch precedes
                for f in std::mem::take(&mut far) {
                    if after_switch.contains(&f) {
                        t.flash.insert(f);
                        continue;
                    }
                    let x = t.ins[&f].target(f).unwrap() as usize;
                    t.from.entry(x).or_default().insert(f);
                    todo.push(x);
                }
                continue;
            }
        };
        if p >= code.len() || t.ins.contains_key(&p) {
            continue;
        }
        let (form, vals, size) = match decode(code, p) {
            Some(x) => x,
            None => {
                if let Some(b) = &mut bads {
                    if !b.contains(&p) {
                        b.push(p);
                    }
                    continue;
                }
                // an instruction cut short decodes once padded
                let mut c = code[p..].to_vec();
                c.extend([0, 0, 0]);
                return Err(if decode(&c, 0).is_some() { Bad::Truncated(p) } else { Bad::Undefined(p) });
            }
        };
        let i = Ins { form, vals, size };
        let next = p + size;
        let mn = FORMS[form].0;
        let tgt = i.target(p);
        let mut to: Vec<i64> = vec![];
        match mn {
            "ret" | "reti" => {}
            "jmpf" => far.push(p),
            "jmp" | "br" | "brf" => to.push(tgt.unwrap()),
            "bz" | "bnz" | "bp" | "bpc" | "bn" | "dbnz" | "be" | "bne" | "call" | "callf" | "callr" => {
                to.push(tgt.unwrap());
                to.push(next as i64);
            }
            _ => to.push(next as i64),
        }
        if i.is_switch() {
            after_switch.insert(next);
        }
        t.ins.insert(p, i);
        for x in to {
            if x >= 0 {
                t.from.entry(x as usize).or_default().insert(p);
                todo.push(x as usize);
            }
        }
    }
    for f in &after_switch {
        if let Some(i) = t.ins.get(f) {
            if FORMS[i.form].0 == "jmpf" {
                let others = t.from.get(f).map(|s| s.iter().any(|p| *p + 2 != *f)).unwrap_or(false);
                if others || t.entries.contains(f) || !t.flash.contains(f) {
                    t.ambiguous = true;
                }
            }
        }
    }
    Ok(t)
}

// ---------------------------------------------------------------- generation

fn one_byte(src: &mut Src) -> u8 {
    // ret, reti, nop, rol, mul
    *src.pick(&[0xA0u8, 0xB0, 0x00, 0xE0, 0x30, 0xA0])
}

fn opcode_pool() -> &'static Vec<usize> {
    use std::sync::OnceLock;
    static P: OnceLock<Vec<usize>> = OnceLock::new();
    P.get_or_init(|| (0..FORMS.len()).collect())
}

/// One instruction for position `pos`; targets are biased to interesting places.
fn instr(src: &mut Src, pos: usize, len: usize, marks: &[usize]) -> Vec<u8> {
    let f = *src.pick(opcode_pool());
    let next = (pos + isize_of(f)) as i64;
    let mut vals = vec![];
    for k in FORMS[f].1 {
        let (lo, hi) = match k {
            K::I8 => (0, 255),
            K::D9 => (0, 511),
            K::Ri => (0, 3),
            K::B3 => (0, 7),
            K::A12 => (0, 4095),
            K::A16 => (0, 65535),
            K::R8 => (-128, 127),
            K::R16 => (-32768, 32767),
        };
        let v = match k {
            K::A12 | K::A16 | K::R8 | K::R16 => {
                let t: i64 = match src.below(12) {
                    0..=3 if !marks.is_empty() => *src.pick(marks) as i64 + *src.pick(&[0i64, 0, 0, 0, 1, 2, -1]),
                    4..=6 => pos as i64 + src.range(-30, 60),
                    7 => pos as i64,
                    8 => next,
                    9 => *src.pick(&[0i64, 3, 0x130, 0xFFF, 0x1000, 0xFFFF, 0xFFFE, 0x100]),
                    10 => len as i64 + src.range(-4, 4),
                    _ => src.range(0, (len as i64 - 1).max(0)),
                };
                let raw = match k {
                    K::A12 => t & 0xFFF,
                    K::A16 => t & 0xFFFF,
                    K::R8 => t - next,
                    _ => t - next + 1,
                };
                raw.clamp(lo, hi)
            }
            K::D9 => match src.below(4) {
                0 => *src.pick(&[0x100i64, 0x101, 0x10D, 0x125, 0x163, 0x166, 0x180, 0x1FF, 0xFF, 0]),
                1 => src.range(0x100, 0x1FF),
                _ => src.range(lo, hi),
            },
            _ => src.range(lo, hi),
        };
        vals.push(v);
    }
    encode_fields(f, &vals)
}

pub fn image_len(src: &mut Src) -> usize {
    match src.below(48) {
        0..=2 => src.usize(0x60),
        3..=5 => *src.pick(&[0usize, 1, 2, 3, 4, 0x4b, 0x4c, 0x4d, 0x4e, 0x130, 0x131, 0x132, 0x1f0, 0x1f1]),
        6..=26 => 0x60 + src.usize(0x140),
        27..=33 => 0x1F2 + src.usize(0x400),
        34..=36 => *src.pick(&[0x200usize, 0x400, 0xFFF, 0x1000, 0x1001, 0x1003, 0x1100, 0x2000]),
        37 => *src.pick(&[0xFFFFusize, 0x10000, 0xFFFE, 0xFFF0, 0x8000]),
        38 => 0x1000 + src.usize(0x3000),
        _ => 0x80 + src.usize(0x80),
    }
}

/// Bytes that disassemble (nearly always).
pub fn image(src: &mut Src, bios: bool) -> Vec<u8> {
    let len = image_len(src);
    let mut code: Vec<u8> = match src.below(5) {
        0 => {
            let mut st = src.below(1 << 30);
            (0..len)
                .map(|_| {
                    st = st.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    (st >> 40) as u8
                })
                .collect()
        }
        1 => vec![0xA0; len],
        2 => vec![src.below(256) as u8; len],
        3 => {
            let t = b"text \t\n\r with \\ \" ; and \x7f \x80 \x1f data";
            (0..len).map(|i| t[i % t.len()]).collect()
        }
        _ => vec![0; len],
    };
    let ent = entries(bios);
    // plant runs of instructions at entry points and at a few other places
    let mut marks: Vec<usize> = ent.iter().copied().filter(|e| *e < len).collect();
    for _ in 0..src.usize(6) {
        if len > 0 {
            marks.push(src.usize(len));
        }
    }
    if len > 0x1000 {
        for p in [0xFFDusize, 0xFFE, 0xFFF, 0x1000] {
            if src.chance(1, 3) {
                marks.push(p);
            }
        }
    }
    if len > 8 && src.chance(1, 2) {
        marks.push(len - 1 - src.usize(6));
    }
    let dense = src.chance(1, 3);
    let ms = marks.clone();
    for m in &ms {
        if !dense && src.chance(1, 4) {
            continue;
        }
        let mut p = *m;
        let n = 1 + src.usize(if dense { 12 } else { 5 });
        for j in 0..n {
            if src.chance(1, 14) {
                // the switch of program memory and a far jump
                let a = if marks.is_empty() { 0 } else { *src.pick(&marks) };
                let b = [0xB8u8, 0x0D, 0x21, (a >> 8) as u8, a as u8];
                let skip = src.below(6);
                let b = match skip {
                    0 => vec![0xB8, 0x0D, 0x00, 0x21, (a >> 8) as u8, a as u8],
                    1 => vec![0xB9, 0x0D, 0x21, (a >> 8) as u8, a as u8],
                    2 => vec![0xA8, 0x0D, 0x21, (a >> 8) as u8, a as u8],
                    _ => b.to_vec(),
                };
                for (i, x) in b.iter().enumerate() {
                    if p + i < len {
                        code[p + i] = *x;
                    }
                }
                p += b.len();
                continue;
            }
            let b = instr(src, p, len, &marks);
            for (i, x) in b.iter().enumerate() {
                if p + i < len {
                    code[p + i] = *x;
                }
            }
            if src.chance(1, 6) {
                marks.push(p);
            }
            p += b.len();
            if j + 1 == n && src.chance(3, 4) && p < len {
                code[p] = *src.pick(&[0xA0u8, 0xB0, 0xA0]);
            }
        }
    }
    // text or data somewhere
    for _ in 0..src.usize(3) {
        if len > 0x50 {
            let at = src.usize(len);
            let t = gen_text(src);
            for (i, x) in t.iter().enumerate() {
                if at + i < len {
                    code[at + i] = *x;
                }
            }
        }
    }
    repair(src, &mut code, ent);
    code
}

/// A file as long as the address space, or nearly, or as pages are, with code at its
/// very end and targets at, just before and just past that end, and around address 0.
pub fn end_image(src: &mut Src, bios: bool) -> Vec<u8> {
    let len = *src.pick(&[0x10000usize, 0x10000, 0x10000, 0xFFFF, 0xFFFE, 0x8000, 0x1000, 0x200, 0x14C]);
    let ent = entries(bios);
    let mut code = vec![0u8; len];
    for e in ent {
        if *e < len {
            code[*e] = 0xA0;
        }
    }
    let start = len - 1 - src.usize(24);
    code[0..3].copy_from_slice(&[0x21, (start >> 8) as u8, start as u8]);
    let mut p = start;
    while p < len {
        let f = *src.pick(opcode_pool());
        let n = isize_of(f);
        let next = (p + n) as i64;
        let mut vals = vec![];
        for k in FORMS[f].1 {
            let (lo, hi) = match k {
                K::I8 => (0, 255),
                K::D9 => (0, 511),
                K::Ri => (0, 3),
                K::B3 => (0, 7),
                K::A12 => (0, 4095),
                K::A16 => (0, 65535),
                K::R8 => (-128, 127),
                K::R16 => (-32768, 32767),
            };
            let t = match src.below(8) {
                0..=3 => len as i64 + src.range(-3, 3),
                4 => src.range(0, 3),
                5 => 0x10000 + src.range(-2, 2),
                6 => start as i64 + src.range(-2, 2),
                _ => next + src.range(-128, 127),
            };
            vals.push(match k {
                K::A12 => t & 0xFFF,
                K::A16 => t & 0xFFFF,
                K::R8 => (t - next).clamp(lo, hi),
                K::R16 => (t - next + 1).clamp(lo, hi),
                _ => src.range(lo, hi),
            });
        }
        for (i, x) in encode_fields(f, &vals).iter().enumerate() {
            if p + i < len {
                code[p + i] = *x;
            }
        }
        p += n;
    }
    if src.chance(1, 2) {
        code[len - 1] = *src.pick(&[0xA0u8, 0xB0]);
    }
    repair(src, &mut code, ent);
    code
}

fn gen_text(src: &mut Src) -> Vec<u8> {
    let n = 1 + src.usize(40);
    let style = src.below(3);
    (0..n)
        .map(|_| match style {
            0 => *src.pick(b"abc;\"\\'%~ \t\n\r\x7f.:*"),
            1 => src.below(256) as u8,
            _ => 0xF0 | src.below(16) as u8,
        })
        .collect()
}

fn repair(src: &mut Src, code: &mut [u8], ent: &[usize]) {
    for _ in 0..400 {
        match trace(code, ent) {
            Ok(_) => return,
            Err(Bad::Undefined(p)) | Err(Bad::Truncated(p)) => {
                code[p] = one_byte(src);
            }
        }
    }
}

fn args_of(src: &mut Src) -> (bool, Vec<&'static str>) {
    let t = *src.pick(&["", "game", "bios", "bios", "file", "raw"]);
    let mut v = vec![];
    if !t.is_empty() {
        v.push(if src.bool() { "-t" } else { "--type" });
        v.push(t);
    }
    (t == "bios", v)
}

pub fn disassemble(ctx: &mut Ctx, file: &str, out: &str, opts: &[&str]) -> Result<(Run, Option<Vec<u8>>), Stop> {
    ctx.remove(out);
    let mut a = vec!["disassemble", file, "-o", out];
    a.extend(opts);
    let r = ctx.wb(&a)?;
    let o = ctx.read(out);
    Ok((r, o))
}

pub fn bytes_repro(code: &[u8], cmd: &str) -> String {
    let mut s = format!("--- file in.vms ({} bytes, hex)\n", code.len());
    // runs of one value are abbreviated
    let mut i = 0;
    while i < code.len() {
        let mut j = i;
        while j < code.len() && code[j] == code[i] {
            j += 1;
        }
        if j - i >= 16 {
            s.push_str(&format!("{:02x}*{} ", code[i], j - i));
            i = j;
        } else {
            s.push_str(&format!("{:02x} ", code[i]));
            i += 1;
        }
        if s.len() > 60000 {
            s.push_str("...");
            break;
        }
    }
    s.push_str(&format!("\n--- command\n{}\n", cmd));
    s
}

// ------------------------------------------------------------------------ C13

fn c13_check(ctx: &mut Ctx, code: &[u8], opts: &[&str]) -> Result<(bool, String), Stop> {
    ctx.write("in.vms", code);
    let (r, o) = disassemble(ctx, "in.vms", "dis.s", opts)?;
    let rp = bytes_repro(code, &format!("waterbear disassemble in.vms -o dis.s {}; waterbear assemble dis.s -o out.vms", opts.join(" ")));
    if !r.ok() {
        if r.rejected() {
            return Ok((false, rp));
        }
        return fail(format!("disassemble: {}", r.how()), rp);
    }
    if o.is_none() {
        return fail("disassemble exit 0 without an output file", rp);
    }
    let listing = show(&o.unwrap());
    match assemble_existing(ctx, "dis.s", "out.vms")? {
        Asm::Ok(b) if b == code => Ok((true, rp)),
        Asm::Ok(b) => {
            let d = (0..b.len().max(code.len())).find(|i| b.get(*i) != code.get(*i)).unwrap_or(0);
            fail(
                format!("the reassembled file differs: {} bytes for {}, first difference at {:#x}: {:?} for {:?}", b.len(), code.len(), d, b.get(d), code.get(d)),
                format!("{}--- listing\n{}", rp, clip(&listing, 20000)),
            )
        }
        o => fail(format!("the listing does not assemble: {}", o.describe()), format!("{}--- listing\n{}", rp, clip(&listing, 20000))),
    }
}

fn key_of(code: &[u8]) -> String {
    format!("len {:#x} hash {:016x} start {}", code.len(), hash_bytes(code), clip(&hex(&code[..code.len().min(64)]), 300))
}

fn c13(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (bios, mut opts) = args_of(src);
    if src.bool() {
        opts.push("-a");
    }
    let code = image(src, bios);
    if let Ok(t) = trace(&code, entries(bios)) {
        // the assembler takes minutes for tens of thousands of labels
        if t.ins.len() > 15000 && t.from.len() > 15000 && t.ins.keys().filter(|p| t.ins.contains_key(&(**p + 1)) && t.ins[p].size > 1).count() > 8000 {
            return ok(false, "", vec!["too-many-overlaps"]);
        }
    }
    let (done, _) = c13_check(ctx, &code, &opts)?;
    let mut labels = vec![if done { "round-trip" } else { "not-disassembled" }];
    if let Ok(t) = trace(&code, entries(bios)) {
        if t.ins.keys().any(|p| !t.overlaps(*p).is_empty()) {
            labels.push("overlapping-code");
        }
        if !t.flash.is_empty() {
            labels.push("memory-switch");
        }
        if t.ins.keys().any(|p| t.leaves(*p)) {
            labels.push("leaves-address-space");
        }
        let c = t.covered();
        if (0..code.len()).any(|i| !c.contains(&i) && code[i] != 0) {
            labels.push("data");
        }
    }
    ok(done && !code.is_empty(), key_of(&code), labels)
}

fn c13_ends(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (bios, mut opts) = args_of(src);
    if src.bool() {
        opts.push("-a");
    }
    let code = end_image(src, bios);
    let (done, _) = c13_check(ctx, &code, &opts)?;
    let mut labels = vec![if done { "round-trip" } else { "not-disassembled" }];
    if let Ok(t) = trace(&code, entries(bios)) {
        if t.ins.keys().any(|p| t.leaves(*p)) {
            labels.push("leaves-address-space");
        }
    }
    ok(done, key_of(&code), labels)
}

/// raw bytes of every kind, without repair
fn c13_raw(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (_, mut opts) = args_of(src);
    if src.bool() {
        opts.push("-a");
    }
    let n = src.usize(0x160);
    let code: Vec<u8> = (0..n).map(|_| if src.chance(1, 4) { *src.pick(&[0xA0u8, 0, 0xB0]) } else { src.below(256) as u8 }).collect();
    let (done, _) = c13_check(ctx, &code, &opts)?;
    ok(done, key_of(&code), vec![if done { "round-trip" } else { "not-disassembled" }])
}

/// every first byte and a grid of operand bytes at address 0x50 and at the end
fn c13_sweep(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let op = src.below(256) as u8;
    let mut n = 0;
    let mut done = 0;
    for (a, b) in [(0u8, 0u8), (0xFF, 0xFF), (0x01, 0x80), (0x0D, 0x7F), (0x80, 0x02)] {
        for at in [0x50usize, 0x12D, 0xFFD, 0x7FFE] {
            let len = at + 0x40;
            let mut code = vec![0u8; len];
            for e in VECTORS {
                if *e < len {
                    code[*e] = 0xA0;
                }
            }
            for p in at.saturating_sub(0x20)..len {
                code[p] = 0xA0;
            }
            // jmpf to it from address 0
            code[0..3].copy_from_slice(&[0x21, (at >> 8) as u8, at as u8]);
            code[at..at + 3].copy_from_slice(&[op, a, b]);
            n += 1;
            if c13_check(ctx, &code, &[])?.0 {
                done += 1;
            }
        }
    }
    okn(done > 0, format!("opcode {:02x}: {} of {} disassembled", op, done, n), vec![], n)
}

// ------------------------------------------------------------- listing parser

#[derive(Clone, Debug)]
pub struct Line {
    pub pos: Option<usize>,
    pub text: String,
}

pub fn parse_lines(s: &str) -> Result<Vec<Line>, String> {
    let mut v = vec![];
    for (n, l) in s.lines().enumerate() {
        // a comment that starts with a line feed continues on a line without prefix
        let (a, b) = match (l.get(..6), l.get(6..)) {
            (Some(a), Some(b)) if a.ends_with("| ") => (a, b),
            _ => {
                if l.trim().is_empty() || l.trim_start().starts_with(';') {
                    v.push(Line { pos: None, text: l.to_string() });
                    continue;
                }
                return Err(format!("line {}: no position column: {:?}", n + 1, l));
            }
        };
        let pos = if a == "    | " {
            None
        } else {
            match usize::from_str_radix(&a[..4], 16) {
                Ok(p) if a[..4].to_uppercase() == a[..4] => Some(p),
                _ => return Err(format!("line {}: bad position: {:?}", n + 1, l)),
            }
        };
        v.push(Line { pos, text: b.to_string() });
    }
    Ok(v)
}

/// split off a trailing comment (not inside a string; listings have none)
fn cut_comment(s: &str) -> (&str, Option<&str>) {
    match s.find(';') {
        Some(i) => (s[..i].trim(), Some(s[i + 1..].trim_start_matches(';').trim())),
        None => (s.trim(), None),
    }
}

#[derive(Clone, Debug)]
pub enum LL {
    Comment(String),
    Label(String),
    Org(i64),
    /// with the comment after it
    Bytes(Vec<u8>, Option<String>),
    Cnop,
    Equ(String, i64),
    Ins(String, Vec<String>, Option<String>),
    Blank,
}

pub fn parse_num(s: &str) -> Option<i64> {
    let s = s.trim();
    let (neg, s) = match s.strip_prefix('-') {
        Some(r) => (true, r.trim()),
        None => (false, s),
    };
    let v = if let Some(h) = s.strip_prefix('$') {
        i64::from_str_radix(h, 16).ok()?
    } else if let Some(h) = s.strip_prefix("0x") {
        i64::from_str_radix(h, 16).ok()?
    } else if let Some(b) = s.strip_prefix('%') {
        i64::from_str_radix(b, 2).ok()?
    } else {
        s.parse().ok()?
    };
    Some(if neg { -v } else { v })
}

pub fn classify(text: &str) -> Result<LL, String> {
    let t = text.trim();
    if t.is_empty() {
        return Ok(LL::Blank);
    }
    if let Some(c) = t.strip_prefix(';') {
        return Ok(LL::Comment(c.trim_start_matches(';').trim().to_string()));
    }
    let (c, cmt) = cut_comment(t);
    if c.ends_with(':') {
        return Ok(LL::Label(c[..c.len() - 1].trim().to_string()));
    }
    let low = c.to_lowercase();
    if let Some(r) = low.strip_prefix(".org") {
        return parse_num(r).map(LL::Org).ok_or(format!("bad .org: {}", text));
    }
    if let Some(r) = low.strip_prefix(".byte") {
        let mut v = vec![];
        for x in r.split(',') {
            let n = parse_num(x).ok_or(format!("bad .byte: {}", text))?;
            if !(0..=255).contains(&n) {
                return Err(format!("bad .byte value: {}", text));
            }
            v.push(n as u8);
        }
        let c = text.find(';').map(|i| text[i + 1..].strip_prefix(' ').unwrap_or(&text[i + 1..]).trim_end().to_string());
        return Ok(LL::Bytes(v, c));
    }
    if low.starts_with(".cnop") {
        return Ok(LL::Cnop);
    }
    if let Some((n, v)) = c.split_once('=') {
        return parse_num(v).map(|v| LL::Equ(n.trim().to_string(), v)).ok_or(format!("bad constant: {}", text));
    }
    let mut w = c.split_whitespace();
    if let (Some(a), Some(b), Some(v)) = (w.next(), w.next(), w.next()) {
        if b.eq_ignore_ascii_case("equ") {
            return parse_num(v).map(|v| LL::Equ(a.to_string(), v)).ok_or(format!("bad constant: {}", text));
        }
    }
    let (mn, rest) = match c.find(char::is_whitespace) {
        Some(i) => (&c[..i], c[i..].trim()),
        None => (c, ""),
    };
    let ops = if rest.is_empty() { vec![] } else { rest.split(',').map(|x| x.trim().to_string()).collect() };
    Ok(LL::Ins(mn.to_lowercase(), ops, cmt.map(|x| x.to_string())))
}

/// Names of the hardware's special function registers.
const HW: &[(&str, i64)] = &[
    ("acc", 0x100), ("psw", 0x101), ("b", 0x102), ("c", 0x103), ("trl", 0x104), ("trh", 0x105), ("sp", 0x106), ("pcon", 0x107), ("ie", 0x108), ("ip", 0x109), ("ext", 0x10D), ("ocr", 0x10E),
    ("t0con", 0x110), ("t0prr", 0x111), ("t0l", 0x112), ("t0lr", 0x113), ("t0h", 0x114), ("t0hr", 0x115), ("t1cnt", 0x118), ("t1lc", 0x11A), ("t1l", 0x11B), ("t1lr", 0x11B), ("t1hc", 0x11C),
    ("t1h", 0x11D), ("t1hr", 0x11D), ("mcr", 0x120), ("stad", 0x122), ("cnr", 0x123), ("tdr", 0x124), ("xbnk", 0x125), ("vccr", 0x127), ("scon0", 0x130), ("sbuf0", 0x131), ("sbr", 0x132),
    ("scon1", 0x134), ("sbuf1", 0x135), ("p1", 0x144), ("p1ddr", 0x145), ("p1fcr", 0x146), ("p3", 0x14C), ("p3ddr", 0x14D), ("p3int", 0x14E), ("fpr", 0x154), ("p7", 0x15C), ("i01cr", 0x15D), ("i23cr", 0x15E),
    ("isl", 0x15F), ("vsel", 0x163), ("vrmad1", 0x164), ("vrmad2", 0x165), ("vtrbf", 0x166), ("vlreg", 0x167), ("btcr", 0x17F),
];
const PSW: &[(&str, i64)] = &[("cy", 7), ("ac", 6), ("irbk1", 4), ("irbk0", 3), ("ov", 2), ("rambk0", 1), ("p", 0)];

pub struct Listing {
    pub at: BTreeMap<usize, Vec<LL>>,
    /// label -> position of the next positioned line
    pub labels: Vec<(String, usize)>,
    pub equ: BTreeMap<String, i64>,
    pub entry: BTreeSet<usize>,
    pub overlaps: BTreeMap<usize, BTreeSet<usize>>,
}

fn hexlist(s: &str) -> Result<Vec<usize>, String> {
    s.split(',').map(|x| usize::from_str_radix(x.trim(), 16).map_err(|_| format!("bad address list {:?}", s))).collect()
}

pub fn parse_listing(s: &str) -> Result<Listing, String> {
    let mut l = Listing { at: BTreeMap::new(), labels: vec![], equ: BTreeMap::new(), entry: BTreeSet::new(), overlaps: BTreeMap::new() };
    let mut pend_label: Vec<String> = vec![];
    let mut pend_entry = false;
    let mut pend_over: Option<BTreeSet<usize>> = None;
    for line in parse_lines(s)? {
        let c = classify(&line.text)?;
        match (&c, line.pos) {
            (LL::Comment(t), None) => {
                if t == "Entry point" {
                    pend_entry = true;
                }
                if let Some(x) = t.strip_prefix("Overlaps with:") {
                    pend_over = Some(hexlist(x)?.into_iter().collect());
                }
            }
            (LL::Blank, None) | (LL::Cnop, None) => {}
            (LL::Equ(n, v), None) => {
                if l.equ.insert(n.to_lowercase(), *v).is_some() {
                    return Err(format!("constant {} twice", n));
                }
            }
            (LL::Label(n), None) => pend_label.push(n.clone()),
            (_, Some(p)) => {
                if pend_entry {
                    l.entry.insert(p);
                    pend_entry = false;
                }
                match &c {
                    LL::Org(o) => {
                        if *o != p as i64 {
                            return Err(format!(".org {:#x} at position {:#x}", o, p));
                        }
                    }
                    LL::Bytes(..) | LL::Ins(..) => {
                        for n in pend_label.drain(..) {
                            l.labels.push((n, p));
                        }
                        if let Some(o) = pend_over.take() {
                            if l.overlaps.insert(p, o).is_some() {
                                return Err(format!("two overlap notes at {:04X}", p));
                            }
                        }
                        l.at.entry(p).or_default().push(c.clone());
                    }
                    _ => return Err(format!("a position on {:?}", line.text)),
                }
            }
            _ => return Err(format!("no position on {:?}", line.text)),
        }
    }
    if !pend_label.is_empty() {
        return Err(format!("label {} at the end", pend_label[0]));
    }
    Ok(l)
}

/// `first`: the value of the instruction's first operand.
fn operand_ok(k: K, v: i64, first: i64, target: Option<i64>, op: &str, l: &Listing, labels: &BTreeMap<String, usize>) -> bool {
    let low = op.to_lowercase();
    let n = parse_num(op);
    match k {
        K::I8 => op.strip_prefix('#').and_then(|x| parse_num(x.trim())) == Some(v),
        K::Ri => low == format!("@r{}", v),
        // a register: its own name if it is a name
        K::D9 => {
            if PSW.iter().any(|h| h.0 == low) || HW.iter().any(|h| h.0 == low && h.1 != v) {
                return false;
            }
            if HW.iter().any(|h| h.1 == v) && !HW.iter().any(|h| h.0 == low) {
                return false;
            }
            n.or(l.equ.get(&low).copied()) == Some(v)
        }
        // a bit: only the bits of PSW have names
        K::B3 => {
            if first == 0x101 && n.is_some() && PSW.iter().any(|h| h.1 == v) {
                return false;
            }
            if n.is_none() && first != 0x101 || PSW.iter().any(|h| h.0 == low && h.1 != v) {
                return false;
            }
            n.or(l.equ.get(&low).copied()) == Some(v)
        }
        // code
        _ => n.or(labels.get(&low).map(|p| *p as i64)) == target,
    }
}

/// Statement-by-statement comparison of a listing with the reference trace.
fn compare(code: &[u8], t: &Trace, l: &Listing) -> Result<(), String> {
    let labels: BTreeMap<String, usize> = l.labels.iter().map(|(n, p)| (n.to_lowercase(), *p)).collect();
    for (p, i) in &t.ins {
        let ls = match l.at.get(p) {
            Some(x) => x,
            None => return Err(format!("reachable instruction at {:04X} ({}) is not in the listing", p, FORMS[i.form].0)),
        };
        if ls.len() != 1 {
            return Err(format!("{} lines at {:04X}", ls.len(), p));
        }
        match &ls[0] {
            LL::Bytes(b, _) => {
                if !t.leaves(*p) {
                    return Err(format!("reachable instruction at {:04X} ({}) is listed as data", p, FORMS[i.form].0));
                }
                if b[..] != code[*p..*p + i.size] {
                    return Err(format!("instruction bytes at {:04X} listed as {}", p, hex(b)));
                }
            }
            LL::Ins(mn, ops, _) => {
                let (fm, ks, _) = FORMS[i.form];
                if mn != fm || ops.len() != ks.len() {
                    return Err(format!("at {:04X} {} {:?} is listed, the bytes {} are {} {:?}", p, mn, ops, hex(&code[*p..*p + i.size]), fm, i.vals));
                }
                for ((k, v), o) in ks.iter().zip(&i.vals).zip(ops) {
                    if !operand_ok(*k, *v, i.vals[0], i.target(*p), o, l, &labels) {
                        return Err(format!("at {:04X} {} lists operand {:?}, the bytes {} mean {:?} (target {:?})", p, mn, o, hex(&code[*p..*p + i.size]), i.vals, i.target(*p)));
                    }
                }
            }
            o => return Err(format!("{:?} at {:04X}", o, p)),
        }
    }
    let cov = t.covered();
    let mut shown: BTreeSet<usize> = BTreeSet::new();
    for (p, ls) in &l.at {
        for x in ls {
            match x {
                LL::Ins(mn, ..) => {
                    if !t.ins.contains_key(p) {
                        return Err(format!("{} at {:04X} is listed as an instruction but is not reachable", mn, p));
                    }
                }
                LL::Bytes(b, _) => {
                    if t.ins.contains_key(p) {
                        continue;
                    }
                    for (k, y) in b.iter().enumerate() {
                        if code.get(p + k) != Some(y) {
                            return Err(format!("data at {:04X} lists {:02x} for {:?}", p + k, y, code.get(p + k)));
                        }
                        if cov.contains(&(p + k)) {
                            return Err(format!("byte {:04X} of an instruction is listed as data", p + k));
                        }
                        if !shown.insert(p + k) {
                            return Err(format!("byte {:04X} is listed twice", p + k));
                        }
                    }
                }
                _ => {}
            }
        }
    }
    for (p, b) in code.iter().enumerate() {
        if *b != 0 && !cov.contains(&p) && !shown.contains(&p) {
            return Err(format!("byte {:02x} at {:04X} is in no line", b, p));
        }
    }
    Ok(())
}

fn listing(ctx: &mut Ctx, code: &[u8], opts: &[&str]) -> Result<(Run, Option<String>, String), Stop> {
    ctx.write("in.vms", code);
    let (r, o) = disassemble(ctx, "in.vms", "dis.s", opts)?;
    let rp = bytes_repro(code, &format!("waterbear disassemble in.vms -o dis.s {}", opts.join(" ")));
    if !r.clean() {
        return fail(format!("disassemble: {}", r.how()), rp);
    }
    if r.ok() != o.is_some() {
        return fail(format!("exit status {:?} and output file present: {}", r.code, o.is_some()), rp);
    }
    Ok((r, o.map(|b| String::from_utf8_lossy(&b).to_string()), rp))
}

fn c14_check(ctx: &mut Ctx, code: &[u8], bios: bool, opts: &[&str]) -> Result<&'static str, Stop> {
    let t = trace(code, entries(bios));
    let mut o2 = opts.to_vec();
    o2.push("-p");
    let (r, text, rp) = listing(ctx, code, &o2)?;
    match t {
        Err(b) => {
            if r.ok() {
                return fail(format!("reachable code cannot be decoded ({:x?}) but the disassembler reports success", b), format!("{}--- listing\n{}", rp, clip(&text.unwrap_or_default(), 8000)));
            }
            if r.err.trim().is_empty() {
                return fail("failure without a message", rp);
            }
            Ok(match b {
                Bad::Undefined(_) => "undefined-opcode",
                Bad::Truncated(_) => "truncated-instruction",
            })
        }
        Ok(t) => {
            if t.ambiguous {
                return Ok("memory-switch-ambiguous");
            }
            if !r.ok() {
                return fail(format!("all reachable code decodes, but: {}", clip(&r.err, 300)), rp);
            }
            let text = text.unwrap();
            let rp = format!("{}--- listing\n{}", rp, clip(&text, 12000));
            let l = match parse_listing(&text) {
                Ok(l) => l,
                Err(e) => return fail(e, rp),
            };
            if let Err(e) = compare(code, &t, &l) {
                return fail(e, rp);
            }
            Ok(if t.flash.is_empty() { "compared" } else { "compared-with-memory-switch" })
        }
    }
}

fn c14(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (bios, opts) = args_of(src);
    let code = image(src, bios);
    let l = c14_check(ctx, &code, bios, &opts)?;
    ok(l.starts_with("compared") && code.len() > 3, key_of(&code), vec![l])
}

fn c14_ends(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (bios, opts) = args_of(src);
    let code = end_image(src, bios);
    let l = c14_check(ctx, &code, bios, &opts)?;
    ok(l.starts_with("compared"), key_of(&code), vec![l])
}

fn c14_raw(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (bios, opts) = args_of(src);
    let n = src.usize(0x220);
    let ret = src.below(6);
    let code: Vec<u8> = (0..n).map(|_| if src.chance(ret, 10) { *src.pick(&[0xA0u8, 0, 0xB0]) } else { src.below(256) as u8 }).collect();
    let l = c14_check(ctx, &code, bios, &opts)?;
    ok(true, key_of(&code), vec![l])
}

/// every opcode byte, alone at address 0 with every second byte value class
fn c14_sweep(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let op = src.below(256) as u8;
    let mut n = 0;
    for a in [0u8, 1, 0x0D, 0x7F, 0x80, 0xFF, 0x20] {
        for b in [0u8, 0x7F, 0x80, 0xFF, 0x10] {
            let mut code = vec![0xA0u8; 0x150];
            code[0x60..0x63].copy_from_slice(&[op, a, b]);
            code[0..3].copy_from_slice(&[0x21, 0, 0x60]);
            c14_check(ctx, &code, false, &[])?;
            n += 1;
        }
    }
    // cut short
    for len in 0..3 {
        let mut code = vec![0x21, 0, 3];
        code.extend(&[op, 0, 0][..len]);
        c14_check(ctx, &code, false, &[])?;
        n += 1;
    }
    okn(true, format!("opcode {:02x}", op), vec![], n)
}

// ------------------------------------------------------------------------ C15

fn strip_positions(s: &str) -> String {
    let mut o = String::new();
    for l in s.lines() {
        let b = match l.get(..6) {
            Some(a) if a.ends_with("| ") => &l[6..],
            _ => l,
        };
        o.push_str(b.trim_end());
        o.push('\n');
    }
    o
}

/// How the text in a run of data bytes is shown.
fn data_text(b: &[u8]) -> Option<String> {
    if !b.iter().any(|c| (32..=126).contains(c)) {
        return None;
    }
    let s: String = b
        .iter()
        .map(|c| match c {
            32..=126 => (*c as char).to_string(),
            9 => "\\t".into(),
            10 => "\\n".into(),
            13 => "\\r".into(),
            _ => ".".into(),
        })
        .collect();
    Some(s.trim_end().to_string())
}

fn strip_arrived(s: &str) -> String {
    let mut o = String::new();
    for l in s.lines() {
        let b = match l.find("; Arrived from: ") {
            Some(i) => &l[..i],
            None => l,
        };
        o.push_str(b.trim_end());
        o.push('\n');
    }
    o
}

fn c15(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (bios, opts) = args_of(src);
    let code = if src.chance(1, 10) { end_image(src, bios) } else { image(src, bios) };
    let t = match trace(&code, entries(bios)) {
        Ok(t) if !t.ambiguous => t,
        _ => return ok(false, "", vec!["skipped"]),
    };
    let mut all: Vec<&str> = opts.clone();
    all.push(if src.bool() { "-p" } else { "--positions" });
    all.push(if src.bool() { "-a" } else { "--arrived_from" });
    let (r, text, rp) = listing(ctx, &code, &all)?;
    if !r.ok() {
        return fail(format!("disassemble fails: {}", clip(&r.err, 300)), rp);
    }
    let text = text.unwrap();
    let rp = format!("{}--- listing\n{}", rp, clip(&text, 12000));
    let l = match parse_listing(&text) {
        Ok(l) => l,
        Err(e) => return fail(e, rp),
    };
    // labels
    let mut defined: BTreeMap<String, usize> = BTreeMap::new();
    for (n, p) in &l.labels {
        let low = n.to_lowercase();
        let want = low.strip_prefix("label_").and_then(|h| usize::from_str_radix(h, 16).ok());
        if want != Some(*p) {
            return fail(format!("label {} stands at {:04X}", n, p), rp);
        }
        if defined.insert(low, *p).is_some() {
            return fail(format!("label {} twice", n), rp);
        }
        if !t.ins.contains_key(p) {
            return fail(format!("label {} is not at an instruction", n), rp);
        }
    }
    let mut arrows = 0;
    let mut leaves = 0;
    for (p, i) in &t.ins {
        let line = l.at.get(p).and_then(|x| x.first());
        if t.leaves(*p) {
            // listed as its bytes; the arrivals are the same
            let cmt = match line {
                Some(LL::Bytes(_, c)) => c,
                _ => return fail(format!("no line of bytes at {:04X}", p), rp),
            };
            let want: Vec<usize> = t.from.get(p).into_iter().flatten().copied().collect();
            let want = if want.is_empty() { None } else { Some(format!("Arrived from: {}", want.iter().map(|x| format!("{:04X}", x)).collect::<Vec<_>>().join(", "))) };
            if *cmt != want {
                return fail(format!("instruction at {:04X}, listed as bytes: {:?} for {:?}", p, cmt, want), rp);
            }
            leaves += 1;
            continue;
        }
        let (ops, cmt) = match l.at.get(p).and_then(|x| x.first()) {
            Some(LL::Ins(_, ops, c)) => (ops, c),
            _ => return fail(format!("no instruction line at {:04X}", p), rp),
        };
        // targets
        if let Some(tg) = i.target(*p) {
            let idx = FORMS[i.form].1.iter().position(|k| matches!(k, K::A12 | K::A16 | K::R8 | K::R16)).unwrap();
            let o = &ops[idx];
            let val = parse_num(o).or_else(|| defined.get(&o.to_lowercase()).map(|p| *p as i64));
            if val != Some(tg) {
                return fail(format!("operand {} of the instruction at {:04X} denotes {:?}, its target is {:#x}", o, p, val, tg), rp);
            }
            // a target in the listing is named, not numbered
            if t.ins.contains_key(&(tg as usize)) && !t.flash.contains(p) && parse_num(o).is_some() {
                return fail(format!("the instruction at {:04X} names its target {:#x} by number", p, tg), rp);
            }
        }
        // arrivals
        let want: BTreeSet<usize> = t.from.get(p).cloned().unwrap_or_default();
        let got: Vec<usize> = match cmt {
            None => vec![],
            Some(c) => match c.strip_prefix("Arrived from:") {
                Some(x) => match hexlist(x) {
                    Ok(v) => v,
                    Err(e) => return fail(e, rp),
                },
                None => return fail(format!("unexpected comment {:?} at {:04X}", c, p), rp),
            },
        };
        let gs: BTreeSet<usize> = got.iter().copied().collect();
        if gs != want || !gs.iter().eq(got.iter()) {
            return fail(format!("instruction at {:04X}: arrivals listed {:x?}, real {:x?}", p, got, want), rp);
        }
        arrows += want.len();
        // overlaps
        let o = l.overlaps.get(p).cloned().unwrap_or_default();
        if o != t.overlaps(*p) {
            return fail(format!("instruction at {:04X}: overlaps listed {:x?}, real {:x?}", p, o, t.overlaps(*p)), rp);
        }
    }
    // the text of the data
    let mut texts = 0;
    for (p, v) in &l.at {
        if t.ins.contains_key(p) {
            continue;
        }
        for x in v {
            if let LL::Bytes(b, c) = x {
                let want = data_text(b);
                texts += want.is_some() as usize;
                if *c != want {
                    return fail(format!("the text of the data at {:04X} is shown as {:?}, it is {:?}", p, c, want), rp);
                }
            }
        }
    }
    let we: BTreeSet<usize> = t.entries.iter().copied().collect();
    if l.entry != we {
        return fail(format!("entry points marked {:x?}, real {:x?}", l.entry, we), rp);
    }
    // the other option combinations differ from this listing by the annotations only
    let mut o2 = opts.clone();
    o2.push("-p");
    let (_, p_only, _) = listing(ctx, &code, &o2)?;
    let p_only = p_only.unwrap_or_default();
    let mut o3 = opts.clone();
    o3.push("-a");
    let (_, a_only, _) = listing(ctx, &code, &o3)?;
    let a_only = a_only.unwrap_or_default();
    let (_, plain, _) = listing(ctx, &code, &opts)?;
    let plain = plain.unwrap_or_default();
    if p_only.contains("Arrived from") || plain.contains("Arrived from") {
        return fail("arrival notes without the option", rp);
    }
    let norm = |s: &str| s.lines().map(|l| l.trim_end().to_string() + "\n").collect::<String>();
    if strip_arrived(&text) != norm(&p_only) {
        return fail("the listing with arrival notes differs in more than the notes", format!("{}--- without -a\n{}", rp, clip(&p_only, 6000)));
    }
    if strip_positions(&p_only) != norm(&plain) || strip_positions(&text) != norm(&a_only) {
        return fail("the listing with positions differs in more than the positions", format!("{}--- without -p\n{}", rp, clip(&plain, 6000)));
    }
    let mut labels = vec![];
    if !l.overlaps.is_empty() {
        labels.push("overlaps");
    }
    if !l.labels.is_empty() {
        labels.push("labels");
    }
    if leaves > 0 {
        labels.push("leaves-address-space");
    }
    if texts > 0 {
        labels.push("text-shown");
    }
    okn(!l.labels.is_empty() && arrows > 0, key_of(&code), labels, t.ins.len() as u64)
}

// ------------------------------------------------------------------------ C17

fn c17_check(ctx: &mut Ctx, code: &[u8], opts: &[&str]) -> Result<&'static str, Stop> {
    ctx.write("in.vms", code);
    let (r, o) = disassemble(ctx, "in.vms", "dis.s", opts)?;
    let rp = bytes_repro(code, &format!("waterbear disassemble in.vms -o dis.s {}", opts.join(" ")));
    if !r.clean() {
        return fail(format!("disassemble: {}", r.how()), rp);
    }
    if r.ok() && o.is_none() {
        return fail("exit 0 without an output file", rp);
    }
    if r.rejected() && (o.is_some() || r.err.trim().is_empty()) {
        return fail(format!("exit 1, output file present: {}, message: {:?}", o.is_some(), r.err), rp);
    }
    if let Some(o) = &o {
        if std::str::from_utf8(o).is_err() {
            return fail("the listing is not text", rp);
        }
    }
    Ok(if r.ok() { "listed" } else { "refused" })
}

fn opts_any(src: &mut Src) -> (bool, Vec<&'static str>) {
    let (b, mut o) = args_of(src);
    if src.bool() {
        o.push("-a");
    }
    if src.bool() {
        o.push("-p");
    }
    (b, o)
}

fn c17_structured(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (bios, opts) = opts_any(src);
    let mut code = image(src, bios);
    // damage
    for _ in 0..src.usize(5) {
        if !code.is_empty() {
            let at = src.usize(code.len());
            code[at] = src.below(256) as u8;
        }
    }
    if src.chance(1, 3) {
        let n = src.usize(code.len() + 1);
        code.truncate(n);
    }
    if src.chance(1, 8) {
        let n = *src.pick(&[0x10000usize, 0x10001, 0x10002, 0x10010, 0x18000, 0x20000]);
        let fill = *src.pick(&[0u8, 0xA0, 0xFF, 0x01]);
        code.resize(n, fill);
        if src.bool() {
            for i in 0..16 {
                let at = 0xFFF8 + i;
                if at < code.len() {
                    code[at] = src.below(256) as u8;
                }
            }
        }
    }
    let l = c17_check(ctx, &code, &opts)?;
    ok(code.len() > 2, key_of(&code), vec![l])
}

fn c17_raw(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (_, opts) = opts_any(src);
    let n = match src.below(3) {
        0 => src.usize(8),
        1 => src.usize(0x60),
        _ => src.usize(0x240),
    };
    let style = src.below(3);
    let code: Vec<u8> = (0..n)
        .map(|_| match style {
            0 => src.below(256) as u8,
            1 => *src.pick(&[0u8, 0xA0, 0x01, 0x10, 0x11, 0x20, 0x21, 0x28, 0x38, 0xFF, 0x80, 0xB8, 0x0D, 0x53, 0x31, 0x48, 0x68, 0x98]),
            _ => {
                if src.chance(1, 3) {
                    0xA0
                } else {
                    src.below(256) as u8
                }
            }
        })
        .collect();
    let l = c17_check(ctx, &code, &opts)?;
    ok(code.len() > 1, key_of(&code), vec![l])
}

/// all images of length 0, 1; two-byte and three-byte ones by opcode
fn c17_short(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let op = src.below(257);
    let mut n = 0;
    if op == 256 {
        c17_check(ctx, &[], &["-p", "-a"])?;
        return okn(true, "empty", vec![], 1);
    }
    let op = op as u8;
    c17_check(ctx, &[op], &["-p", "-a"])?;
    for a in [0u8, 1, 2, 0x7F, 0x80, 0xFE, 0xFF] {
        c17_check(ctx, &[op, a], &["-p", "-a"])?;
        for b in [0u8, 1, 0x7F, 0x80, 0xFF] {
            c17_check(ctx, &[op, a, b], &["-p", "-a"])?;
            c17_check(ctx, &[0xA0, 0, 0, op, a, b], &["-a"])?;
            n += 2;
        }
    }
    okn(true, format!("opcode {:02x}", op), vec![], n + 8)
}

/// bad options and paths
fn c17_options(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    ctx.write("in.vms", &[0xA0, 0, 0, 0xA0]);
    ctx.write("dir/x", b"");
    ctx.write("ünï.vms", &[0xA0]);
    let cases: &[&[&str]] = &[
        &["disassemble", "nope.vms", "-o", "o.s"],
        &["disassemble", "dir", "-o", "o.s"],
        &["disassemble", "in.vms", "-o", "dir"],
        &["disassemble", "in.vms", "-o", "nodir/o.s"],
        &["disassemble", "in.vms", "-o", "o.s", "-t", "nosuch"],
        &["disassemble", "in.vms", "-o", "o.s", "-t", ""],
        &["disassemble", "in.vms", "-o", "o.s", "-t", "GAME"],
        &["disassemble", "", "-o", "o.s"],
        &["disassemble", "in.vms", "-o", ""],
        &["disassemble", "in.vms/x", "-o", "o.s"],
        &["disassemble", "\u{f7ff}.vms", "-o", "o.s"],
        &["disassemble", "in.vms", "-o", "o\u{f780}.s"],
        &["disassemble", "in.vms", "-o", "o.s", "-t", "\u{f7c3}"],
    ];
    let good: &[&[&str]] = &[&["disassemble", "ünï.vms", "-o", "ö.s"], &["disassemble", "in.vms", "-o", "dir/o.s", "-t", "raw", "-p", "-a"], &["disassemble", "in.vms", "--output", "o.s", "--type=file"]];
    let i = src.usize(cases.len() + good.len());
    let (a, want) = if i < cases.len() { (cases[i], 1) } else { (good[i - cases.len()], 0) };
    let r = ctx.wb(a)?;
    if r.code != Some(want) || (want == 1 && r.err.trim().is_empty()) {
        return fail(format!("{:?}: expected exit {}, got {} ({})", a, want, r.how(), clip(&r.err, 300)), format!("{:?}", a));
    }
    ok(true, format!("{:?}", a), vec![])
}

/// Images whose size is a parameter, each uniform.
const WIDE: &[(&str, fn(usize) -> Vec<u8>)] = &[
    ("nops", |n| vec![0; n]),
    ("two-byte", |n| [0x62, 5].repeat(n / 2)),
    ("branches to the next", |n| [0x90, 0].repeat(n / 2)),
    ("branches to themselves", |n| [0x90, 0xfe].repeat(n / 2)),
    ("branches beyond the next", |n| [0x90, 1].repeat(n / 2 - 2)),
    ("branches into the next", |n| [0x90, 0xff].repeat(n / 2)),
    ("calls", |n| (0..n / 4).flat_map(|i| [0x20, ((i * 4) >> 8) as u8, (i * 4) as u8, 0]).collect()),
    ("jumps", |n| (0..n / 3).flat_map(|i| [0x21, (((i + 1) * 3) >> 8) as u8, ((i + 1) * 3) as u8]).collect()),
    ("calls of one place", |n| [0x20, 0, 0].repeat(n / 3)),
    ("data", |n| (0..n).map(|i| if i < 0x2a0 { [1u8, 0xfe][i & 1] } else { (i * 7 + (i >> 8) * 13) as u8 | 1 }).collect()),
    ("text", |n| (0..n).map(|i| if i < 0x2a0 { [1u8, 0xfe][i & 1] } else { b"hello"[i % 5] }).collect()),
    ("zeros", |n| (0..n).map(|i| if i < 0x2a0 { [1u8, 0xfe][i & 1] } else { 0 }).collect()),
    ("spots", |n| (0..n).map(|i| if i < 0x2a0 { [1u8, 0xfe][i & 1] } else if i % 17 == 0 { b'x' } else { 0 }).collect()),
];

fn c17_scaling(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (name, f) = WIDE[src.usize(WIDE.len())];
    const N: usize = 16000;
    let args = ["disassemble", "in.vms", "-o", "dis.s", "-a", "-p"];
    let mut set = |ctx: &mut Ctx, k: usize| {
        ctx.reset();
        let mut b = f(N * k);
        let l = b.len();
        b[l - 2..].copy_from_slice(&[0x01, 0xfe]);
        ctx.write("in.vms", &b);
    };
    match growth(ctx, &args, &mut set)? {
        Ok((a, z)) => ok(true, format!("\"{}\", {} and {} bytes", name, N, 4 * N), vec![if z.cpu > 0.5 { "felt" } else { "quick" }, if a.code == z.code { "same status" } else { "other status" }]),
        Err(m) => fail(format!("a uniform image (\"{}\", {} then {} bytes): {}", name, N, 4 * N, m), format!("waterbear {}\nin.vms begins {}", args.join(" "), hex(&f(N)[..64]))),
    }
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C13",
            rule: "images of 0..65536 bytes: instruction runs planted at entry points and elsewhere with targets biased to other runs, into instructions, past page and file ends, memory switches, text; repaired until every reachable byte decodes; raw random bytes; all 256 opcodes x 5 operand patterns x 4 positions; files as long as the address space with code at the very end and targets at, before and past it. All file types, with and without -a. Non-trivial: the disassembler reported success on a non-empty file (then the reassembled bytes must be equal).",
            families: vec![
                Family { name: "opcodes", run: c13_sweep, quick: 0, thorough: 0, sweep: Some(256) },
                Family { name: "images", run: c13, quick: 5000, thorough: 80000, sweep: None },
                Family { name: "ends", run: c13_ends, quick: 400, thorough: 20000, sweep: None },
                Family { name: "raw", run: c13_raw, quick: 1500, thorough: 20000, sweep: None },
            ],
            assumptions: &["files over 64 KiB are outside the assembler's address space and not judged"],
        },
        Property {
            id: "C14",
            rule: "the same images; the listing is parsed and compared with an independent decoder and flow tracer: the set of instruction positions, each mnemonic and operand value (through the constants the listing defines, and the hardware's register names), data bytes; refusal exactly when reachable code does not decode. All 256 opcodes x 35 operand patterns and cut-short ends; files as long as the address space with code at the very end. Non-trivial: compared and longer than 3 bytes, or raw.",
            families: vec![
                Family { name: "opcodes", run: c14_sweep, quick: 0, thorough: 0, sweep: Some(256) },
                Family { name: "images", run: c14, quick: 5000, thorough: 80000, sweep: None },
                Family { name: "ends", run: c14_ends, quick: 500, thorough: 20000, sweep: None },
                Family { name: "raw", run: c14_raw, quick: 3000, thorough: 40000, sweep: None },
            ],
            assumptions: &[
                "whether a far jump after the memory switch is followed when it is also reached in another way is not specified; such images are counted (memory-switch-ambiguous) and not compared",
                "zero bytes of data need not be listed",
                "a branch out of the 64 KiB address space is listed as its bytes",
            ],
        },
        Property {
            id: "C15",
            rule: "the same images under -p -a, -p, -a and no option: label names and places, operand targets, arrival lists, overlap notes and entry-point marks compared with the reference trace; the four listings equal up to the annotations. Non-trivial: at least one label and one arrival.",
            families: vec![Family { name: "images", run: c15, quick: 2500, thorough: 60000, sweep: None }],
            assumptions: &[],
        },
        Property {
            id: "C17",
            rule: "damaged and truncated images, images beyond 64 KiB, raw bytes, every opcode as 1..6 byte files, bad paths and options; uniform images of 16000 and 64000 bytes, of which the larger may not take more than ten times the CPU time (nor eight times the memory); any panic, hang, signal, success without output or refusal with output is a violation. Non-trivial: more than one byte.",
            families: vec![
                Family { name: "short", run: c17_short, quick: 0, thorough: 0, sweep: Some(257) },
                Family { name: "options", run: c17_options, quick: 0, thorough: 0, sweep: Some(16) },
                Family { name: "scaling", run: c17_scaling, quick: 0, thorough: 0, sweep: Some(WIDE.len()) },
                Family { name: "structured", run: c17_structured, quick: 5000, thorough: 80000, sweep: None },
                Family { name: "raw", run: c17_raw, quick: 6000, thorough: 80000, sweep: None },
            ],
            assumptions: &[],
        },
    ]
}
