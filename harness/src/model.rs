//! The reference semantics of the assembly language, written from docs/*.md
//! (instruction bit patterns, directives) and independent of waterbear's code.
use std::collections::{BTreeMap, HashMap};

// ---------------------------------------------------------------- expressions

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Num(i64),
    Sym(String),
    /// '-', '>' (upper byte), '<' (lower byte)
    Un(char, Box<E>),
    /// + - * / & | ^
    Bin(char, Box<E>, Box<E>),
    /// macro parameter %x
    MArg(String),
    /// hygienic label x%
    HLab(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum EvErr {
    Undefined(String),
    DivZero,
    Overflow,
}

pub const I32MIN: i64 = i32::MIN as i64;
pub const I32MAX: i64 = i32::MAX as i64;

fn fit(v: i64) -> Result<i64, EvErr> {
    if v < I32MIN || v > I32MAX {
        Err(EvErr::Overflow)
    } else {
        Ok(v)
    }
}

pub fn num(v: i64) -> E {
    if v < 0 {
        E::Un('-', Box::new(E::Num(-v)))
    } else {
        E::Num(v)
    }
}
pub fn sym(s: &str) -> E {
    E::Sym(s.to_string())
}
pub fn bin(op: char, a: E, b: E) -> E {
    E::Bin(op, Box::new(a), Box::new(b))
}
pub fn un(op: char, a: E) -> E {
    E::Un(op, Box::new(a))
}

impl E {
    pub fn eval(&self, env: &dyn Fn(&str) -> Option<i64>) -> Result<i64, EvErr> {
        match self {
            E::Num(n) => fit(*n),
            E::Sym(s) => env(&s.to_lowercase()).ok_or_else(|| EvErr::Undefined(s.clone())),
            E::Un(op, e) => {
                let v = e.eval(env)?;
                match op {
                    '-' => fit(-v),
                    '>' => Ok((v >> 8) & 0xFF),
                    '<' => Ok(v & 0xFF),
                    _ => unreachable!(),
                }
            }
            E::Bin(op, a, b) => {
                let x = a.eval(env)?;
                let y = b.eval(env)?;
                match op {
                    '+' => fit(x + y),
                    '-' => fit(x - y),
                    '*' => fit(x * y),
                    '/' => {
                        if y == 0 {
                            Err(EvErr::DivZero)
                        } else {
                            fit(x / y)
                        }
                    }
                    '&' => Ok(x & y),
                    '|' => Ok(x | y),
                    '^' => Ok(x ^ y),
                    _ => unreachable!(),
                }
            }
            E::MArg(_) | E::HLab(_) => Err(EvErr::Undefined("macro operand".into())),
        }
    }
    pub fn prec(&self) -> u32 {
        match self {
            E::Bin(op, _, _) => match op {
                '*' | '/' => 4,
                '+' | '-' => 3,
                _ => 1,
            },
            E::Un(..) => 6,
            _ => 9,
        }
    }
    pub fn size(&self) -> usize {
        match self {
            E::Un(_, e) => 1 + e.size(),
            E::Bin(_, a, b) => 1 + a.size() + b.size(),
            _ => 1,
        }
    }
}

// --------------------------------------------------------------- instructions

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    I8,
    D9,
    Ri,
    B3,
    A12,
    A16,
    R8,
    R16,
}

/// mnemonic, operand kinds, documented bit pattern (docs/instructions.md).
/// In the patterns: i immediate, d direct, R register, b bit, a address, r relative.
pub const FORMS: &[(&str, &[K], &str)] = &[
    ("add", &[K::I8], "10000001 [i7][i6][i5][i4][i3][i2][i1][i0]"),
    ("add", &[K::D9], "1000001[d8] [d7][d6][d5][d4][d3][d2][d1][d0]"),
    ("add", &[K::Ri], "100001[R1][R0]"),
    ("addc", &[K::I8], "10010001 [i7][i6][i5][i4][i3][i2][i1][i0]"),
    ("addc", &[K::D9], "1001001[d8] [d7][d6][d5][d4][d3][d2][d1][d0]"),
    ("addc", &[K::Ri], "100101[R1][R0]"),
    ("sub", &[K::I8], "10100001 [i7][i6][i5][i4][i3][i2][i1][i0]"),
    ("sub", &[K::D9], "1010001[d8] [d7][d6][d5][d4][d3][d2][d1][d0]"),
    ("sub", &[K::Ri], "101001[R1][R0]"),
    ("subc", &[K::I8], "10110001 [i7][i6][i5][i4][i3][i2][i1][i0]"),
    ("subc", &[K::D9], "1011001[d8] [d7][d6][d5][d4][d3][d2][d1][d0]"),
    ("subc", &[K::Ri], "101101[R1][R0]"),
    ("inc", &[K::D9], "0110001[d8] [d7][d6][d5][d4][d3][d2][d1][d0]"),
    ("inc", &[K::Ri], "011001[R1][R0]"),
    ("dec", &[K::D9], "0111001[d8] [d7][d6][d5][d4][d3][d2][d1][d0]"),
    ("dec", &[K::Ri], "011101[R1][R0]"),
    ("mul", &[], "00110000"),
    ("div", &[], "01000000"),
    ("and", &[K::I8], "11100001 [i7][i6][i5][i4][i3][i2][i1][i0]"),
    ("and", &[K::D9], "1110001[d8] [d7][d6][d5][d4][d3][d2][d1][d0]"),
    ("and", &[K::Ri], "111001[R1][R0]"),
    ("or", &[K::I8], "11010001 [i7][i6][i5][i4][i3][i2][i1][i0]"),
    ("or", &[K::D9], "1101001[d8] [d7][d6][d5][d4][d3][d2][d1][d0]"),
    ("or", &[K::Ri], "110101[R1][R0]"),
    ("xor", &[K::I8], "11110001 [i7][i6][i5][i4][i3][i2][i1][i0]"),
    ("xor", &[K::D9], "1111001[d8] [d7][d6][d5][d4][d3][d2][d1][d0]"),
    ("xor", &[K::Ri], "111101[R1][R0]"),
    ("rol", &[], "11100000"),
    ("rolc", &[], "11110000"),
    ("ror", &[], "11000000"),
    ("rorc", &[], "11010000"),
    ("clr1", &[K::D9, K::B3], "110[d8]1[b2][b1][b0] [d7][d6][d5][d4][d3][d2][d1][d0]"),
    ("set1", &[K::D9, K::B3], "111[d8]1[b2][b1][b0] [d7][d6][d5][d4][d3][d2][d1][d0]"),
    ("not1", &[K::D9, K::B3], "101[d8]1[b2][b1][b0] [d7][d6][d5][d4][d3][d2][d1][d0]"),
    ("ld", &[K::D9], "0000001[d8] [d7][d6][d5][d4][d3][d2][d1][d0]"),
    ("ld", &[K::Ri], "000001[R1][R0]"),
    ("st", &[K::D9], "0001001[d8] [d7][d6][d5][d4][d3][d2][d1][d0]"),
    ("st", &[K::Ri], "000101[R1][R0]"),
    ("mov", &[K::I8, K::D9], "0010001[d8] [d7][d6][d5][d4][d3][d2][d1][d0] [i7][i6][i5][i4][i3][i2][i1][i0]"),
    ("mov", &[K::I8, K::Ri], "001001[R1][R0] [i7][i6][i5][i4][i3][i2][i1][i0]"),
    ("ldc", &[], "11000001"),
    ("push", &[K::D9], "0110000[d8] [d7][d6][d5][d4][d3][d2][d1][d0]"),
    ("pop", &[K::D9], "0111000[d8] [d7][d6][d5][d4][d3][d2][d1][d0]"),
    ("xch", &[K::D9], "1100001[d8] [d7][d6][d5][d4][d3][d2][d1][d0]"),
    ("xch", &[K::Ri], "110001[R1][R0]"),
    ("ldf", &[], "01010000"),
    ("stf", &[], "01010001"),
    ("jmp", &[K::A12], "001[a11]1[a10][a9][a8] [a7][a6][a5][a4][a3][a2][a1][a0]"),
    ("jmpf", &[K::A16], "00100001 [a15][a14][a13][a12][a11][a10][a9][a8] [a7][a6][a5][a4][a3][a2][a1][a0]"),
    ("br", &[K::R8], "00000001 [r7][r6][r5][r4][r3][r2][r1][r0]"),
    ("brf", &[K::R16], "00010001 [r7][r6][r5][r4][r3][r2][r1][r0] [r15][r14][r13][r12][r11][r10][r9][r8]"),
    ("bz", &[K::R8], "10000000 [r7][r6][r5][r4][r3][r2][r1][r0]"),
    ("bnz", &[K::R8], "10010000 [r7][r6][r5][r4][r3][r2][r1][r0]"),
    ("bp", &[K::D9, K::B3, K::R8], "011[d8]1[b2][b1][b0] [d7][d6][d5][d4][d3][d2][d1][d0] [r7][r6][r5][r4][r3][r2][r1][r0]"),
    ("bpc", &[K::D9, K::B3, K::R8], "010[d8]1[b2][b1][b0] [d7][d6][d5][d4][d3][d2][d1][d0] [r7][r6][r5][r4][r3][r2][r1][r0]"),
    ("bn", &[K::D9, K::B3, K::R8], "100[d8]1[b2][b1][b0] [d7][d6][d5][d4][d3][d2][d1][d0] [r7][r6][r5][r4][r3][r2][r1][r0]"),
    ("dbnz", &[K::D9, K::R8], "0101001[d8] [d7][d6][d5][d4][d3][d2][d1][d0] [r7][r6][r5][r4][r3][r2][r1][r0]"),
    ("dbnz", &[K::Ri, K::R8], "010101[R1][R0] [r7][r6][r5][r4][r3][r2][r1][r0]"),
    ("be", &[K::I8, K::R8], "00110001 [i7][i6][i5][i4][i3][i2][i1][i0] [r7][r6][r5][r4][r3][r2][r1][r0]"),
    ("be", &[K::D9, K::R8], "0011001[d8] [d7][d6][d5][d4][d3][d2][d1][d0] [r7][r6][r5][r4][r3][r2][r1][r0]"),
    ("be", &[K::Ri, K::I8, K::R8], "001101[R1][R0] [i7][i6][i5][i4][i3][i2][i1][i0] [r7][r6][r5][r4][r3][r2][r1][r0]"),
    ("bne", &[K::I8, K::R8], "01000001 [i7][i6][i5][i4][i3][i2][i1][i0] [r7][r6][r5][r4][r3][r2][r1][r0]"),
    ("bne", &[K::D9, K::R8], "0100001[d8] [d7][d6][d5][d4][d3][d2][d1][d0] [r7][r6][r5][r4][r3][r2][r1][r0]"),
    ("bne", &[K::Ri, K::I8, K::R8], "010001[R1][R0] [i7][i6][i5][i4][i3][i2][i1][i0] [r7][r6][r5][r4][r3][r2][r1][r0]"),
    ("call", &[K::A12], "000[a11]1[a10][a9][a8] [a7][a6][a5][a4][a3][a2][a1][a0]"),
    ("callf", &[K::A16], "00100000 [a15][a14][a13][a12][a11][a10][a9][a8] [a7][a6][a5][a4][a3][a2][a1][a0]"),
    ("callr", &[K::R16], "00010000 [r7][r6][r5][r4][r3][r2][r1][r0] [r15][r14][r13][r12][r11][r10][r9][r8]"),
    ("ret", &[], "10100000"),
    ("reti", &[], "10110000"),
    ("nop", &[], "00000000"),
];

pub fn is_mnemonic(s: &str) -> bool {
    FORMS.iter().any(|f| f.0 == s)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Bit {
    Const(u8),
    Var(char, u32),
}

pub fn bits(form: usize) -> Vec<Bit> {
    let mut out = vec![];
    let mut it = FORMS[form].2.chars();
    while let Some(c) = it.next() {
        match c {
            '0' => out.push(Bit::Const(0)),
            '1' => out.push(Bit::Const(1)),
            ' ' => {}
            '[' => {
                let l = it.next().unwrap();
                let mut n = 0;
                for d in it.by_ref() {
                    if d == ']' {
                        break;
                    }
                    n = n * 10 + d.to_digit(10).unwrap();
                }
                out.push(Bit::Var(l, n));
            }
            _ => unreachable!(),
        }
    }
    assert!(out.len() % 8 == 0);
    out
}

fn letter(k: K) -> char {
    match k {
        K::I8 => 'i',
        K::D9 => 'd',
        K::Ri => 'R',
        K::B3 => 'b',
        K::A12 | K::A16 => 'a',
        K::R8 | K::R16 => 'r',
    }
}

pub fn isize_of(form: usize) -> usize {
    use std::sync::OnceLock;
    static SIZES: OnceLock<Vec<usize>> = OnceLock::new();
    SIZES.get_or_init(|| (0..FORMS.len()).map(|f| bits(f).len() / 8).collect())[form]
}

/// Encode with already resolved field values (relative fields: the offset itself).
pub fn encode_fields(form: usize, vals: &[i64]) -> Vec<u8> {
    let kinds = FORMS[form].1;
    let bs = bits(form);
    let mut out = vec![0u8; bs.len() / 8];
    for (i, b) in bs.iter().enumerate() {
        let v = match b {
            Bit::Const(c) => *c as i64,
            Bit::Var(l, n) => {
                let idx = kinds.iter().position(|k| letter(*k) == *l).unwrap();
                (vals[idx] >> n) & 1
            }
        };
        out[i / 8] |= (v as u8) << (7 - i % 8);
    }
    out
}

/// Decode the instruction at `at`: form and field values (relative: sign-extended offset).
pub fn decode(code: &[u8], at: usize) -> Option<(usize, Vec<i64>, usize)> {
    use std::sync::OnceLock;
    static TAB: OnceLock<Vec<Vec<Bit>>> = OnceLock::new();
    let tab = TAB.get_or_init(|| (0..FORMS.len()).map(bits).collect());
    // a form matches if its constant bits match; the table is prefix-free on the
    // documented patterns except immediate/direct pairs, which differ in the low bits
    let mut best: Option<(usize, usize)> = None;
    for (f, bs) in tab.iter().enumerate() {
        let mut consts = 0;
        let mut m = true;
        for (i, b) in bs.iter().enumerate() {
            if i >= 8 {
                break;
            }
            if let Bit::Const(c) = b {
                consts += 1;
                if at >= code.len() || (code[at] >> (7 - i)) & 1 != *c {
                    m = false;
                    break;
                }
            }
        }
        if m && best.map(|(_, c)| consts > c).unwrap_or(true) {
            best = Some((f, consts));
        }
    }
    let (f, _) = best?;
    let n = isize_of(f);
    if at + n > code.len() {
        return None;
    }
    let kinds = FORMS[f].1;
    let mut vals = vec![0i64; kinds.len()];
    for (i, b) in tab[f].iter().enumerate() {
        if let Bit::Var(l, bn) = b {
            let idx = kinds.iter().position(|k| letter(*k) == *l).unwrap();
            let bit = (code[at + i / 8] >> (7 - i % 8)) & 1;
            vals[idx] |= (bit as i64) << bn;
        }
    }
    for (k, v) in kinds.iter().zip(vals.iter_mut()) {
        match k {
            K::R8 if *v > 127 => *v -= 256,
            K::R16 if *v > 32767 => *v -= 65536,
            _ => {}
        }
    }
    Some((f, vals, n))
}

// ------------------------------------------------------------------ statements

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Dir(E),
    Imm(E),
    Ind(u8),
    /// a macro parameter used as a whole operand
    Par(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum BV {
    Ex(E),
    Str(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum St {
    Label(String),
    Instr(String, Vec<Op>),
    Byte(Vec<BV>),
    Word(Vec<E>),
    Text(i64, String),
    Str(i64, String),
    Org(i64),
    Cnop(i64, i64),
    Equ(String, E),
    /// raw source line(s) with no effect on the output
    Raw(String),
    /// data whose bytes come from elsewhere (include directives): source text, bytes
    Data(String, Vec<u8>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Rej {
    Ev(EvErr),
    Range,
    Dup(String),
    BadOrg,
    TooLong,
    BadForm,
}

impl From<EvErr> for Rej {
    fn from(e: EvErr) -> Rej {
        Rej::Ev(e)
    }
}

pub fn find_form(mn: &str, ops: &[Op]) -> Option<usize> {
    FORMS.iter().position(|(m, ks, _)| {
        *m == mn
            && ks.len() == ops.len()
            && ks.iter().zip(ops).all(|(k, o)| match (k, o) {
                (K::I8, Op::Imm(_)) => true,
                (K::Ri, Op::Ind(_)) => true,
                (K::I8, _) | (K::Ri, _) => false,
                (_, Op::Dir(_)) => true,
                _ => false,
            })
    })
}

/// Does `v` fit operand kind `k` of an instruction whose successor is at `next`?
/// Returns the field value.
pub fn field(k: K, v: i64, next: i64) -> Option<i64> {
    match k {
        K::I8 => (0..=255).contains(&v).then_some(v),
        K::D9 => (0..=511).contains(&v).then_some(v),
        K::Ri => (0..=3).contains(&v).then_some(v),
        K::B3 => (0..=7).contains(&v).then_some(v),
        K::A16 => (0..=65535).contains(&v).then_some(v),
        K::A12 => ((0..=65535).contains(&v) && (v & 0xF000) == (next & 0xF000)).then_some(v & 0xFFF),
        K::R8 => {
            let d = v - next;
            ((0..=65535).contains(&v) && (-128..=127).contains(&d)).then_some(d)
        }
        K::R16 => {
            let d = v - next + 1;
            ((0..=65535).contains(&v) && (-32768..=32767).contains(&d)).then_some(d)
        }
    }
}

pub struct Layout {
    /// position of each statement
    pub pos: Vec<i64>,
    pub end: i64,
    pub max: i64,
    /// scope name of each statement
    pub scope: Vec<String>,
    pub globals: BTreeMap<String, i64>,
    pub locals: HashMap<(String, String), i64>,
}

pub fn st_size(st: &St, pos: i64) -> Result<i64, Rej> {
    Ok(match st {
        St::Label(_) | St::Equ(..) | St::Raw(_) => 0,
        St::Instr(m, ops) => isize_of(find_form(m, ops).ok_or(Rej::BadForm)?) as i64,
        St::Byte(v) => v
            .iter()
            .map(|b| match b {
                BV::Ex(_) => 1,
                BV::Str(s) => s.len() as i64,
            })
            .sum(),
        St::Word(v) => 2 * v.len() as i64,
        St::Text(n, _) | St::Str(n, _) => *n,
        St::Org(a) => {
            if *a > 0xFFFF {
                return Err(Rej::BadOrg);
            }
            *a - pos
        }
        St::Cnop(a, m) => {
            let r = pos % m;
            let up = if r == 0 { pos } else { pos + (m - r) };
            up + a - pos
        }
        St::Data(_, b) => b.len() as i64,
    })
}

pub fn layout(sts: &[St]) -> Result<Layout, (usize, Rej)> {
    let mut l = Layout {
        pos: vec![],
        end: 0,
        max: 0,
        scope: vec![],
        globals: BTreeMap::new(),
        locals: HashMap::new(),
    };
    let mut scope = String::new();
    let mut pos = 0i64;
    for (i, st) in sts.iter().enumerate() {
        if let St::Label(n) = st {
            let n = n.to_lowercase();
            if n.starts_with('.') {
                if l.locals.insert((scope.clone(), n.clone()), pos).is_some() {
                    return Err((i, Rej::Dup(n)));
                }
            } else {
                if l.globals.insert(n.clone(), pos).is_some() {
                    return Err((i, Rej::Dup(n)));
                }
                scope = n;
            }
        }
        l.pos.push(pos);
        l.scope.push(scope.clone());
        pos += st_size(st, pos).map_err(|e| (i, e))?;
        l.max = l.max.max(pos);
    }
    l.end = pos;
    Ok(l)
}

pub struct Image {
    pub bytes: Vec<u8>,
    pub lay: Layout,
    pub vars: BTreeMap<String, i64>,
}

/// The reference assembler (macros and includes already flattened).
pub fn reference(sts: &[St]) -> Result<Image, (usize, Rej)> {
    let lay = layout(sts)?;
    let mut names: BTreeMap<String, i64> = lay.globals.clone();
    let mut vars = BTreeMap::new();
    for (i, st) in sts.iter().enumerate() {
        if let St::Equ(n, e) = st {
            let n = n.to_lowercase();
            let v = {
                let env = |s: &str| names.get(s).copied();
                e.eval(&env).map_err(|e| (i, e.into()))?
            };
            if names.insert(n.clone(), v).is_some() {
                return Err((i, Rej::Dup(n)));
            }
            vars.insert(n, v);
        }
    }
    let mut out = vec![0u8; lay.max as usize];
    for (i, st) in sts.iter().enumerate() {
        let scope = &lay.scope[i];
        let env = |s: &str| {
            if s.starts_with('.') {
                lay.locals.get(&(scope.clone(), s.to_string())).copied()
            } else {
                names.get(s).copied()
            }
        };
        let pos = lay.pos[i] as usize;
        let b = st_bytes(st, pos as i64, &env).map_err(|e| (i, e))?;
        out[pos..pos + b.len()].copy_from_slice(&b);
    }
    Ok(Image { bytes: out, lay, vars })
}

pub fn st_bytes(st: &St, pos: i64, env: &dyn Fn(&str) -> Option<i64>) -> Result<Vec<u8>, Rej> {
    Ok(match st {
        St::Instr(m, ops) => {
            let f = find_form(m, ops).ok_or(Rej::BadForm)?;
            let next = pos + isize_of(f) as i64;
            let mut vals = vec![];
            for (k, o) in FORMS[f].1.iter().zip(ops) {
                let v = match o {
                    Op::Dir(e) | Op::Imm(e) => e.eval(env)?,
                    Op::Ind(r) => *r as i64,
                    Op::Par(_) => return Err(Rej::BadForm),
                };
                vals.push(field(*k, v, next).ok_or(Rej::Range)?);
            }
            encode_fields(f, &vals)
        }
        St::Byte(vs) => {
            let mut o = vec![];
            for v in vs {
                match v {
                    BV::Str(s) => o.extend_from_slice(s.as_bytes()),
                    BV::Ex(e) => {
                        let v = e.eval(env)?;
                        if !(-128..=255).contains(&v) {
                            return Err(Rej::Range);
                        }
                        o.push(v as u8);
                    }
                }
            }
            o
        }
        St::Word(vs) => {
            let mut o = vec![];
            for e in vs {
                let v = e.eval(env)?;
                if !(-32768..=65535).contains(&v) {
                    return Err(Rej::Range);
                }
                o.push(v as u8);
                o.push((v >> 8) as u8);
            }
            o
        }
        St::Text(n, s) | St::Str(n, s) => {
            if s.len() as i64 > *n {
                return Err(Rej::TooLong);
            }
            let pad = if matches!(st, St::Text(..)) { b' ' } else { 0 };
            let mut o = s.as_bytes().to_vec();
            o.resize(*n as usize, pad);
            o
        }
        St::Data(_, b) => b.clone(),
        St::Cnop(..) | St::Org(_) | St::Label(_) | St::Equ(..) | St::Raw(_) => vec![],
    })
}
