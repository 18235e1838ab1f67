//! Rendering the model's statements as source text, plainly or with randomised
//! formatting (radix, case, spacing, comments, line ends).
use crate::engine::Src;
use crate::model::*;

pub struct R<'a> {
    pub src: Option<&'a mut Src>,
    /// add blank/comment lines and trailing comments
    pub comments: bool,
    pub crlf: bool,
    /// randomise letter case of names, mnemonics, directives
    pub case: bool,
    /// randomise redundant parentheses
    pub parens: bool,
    /// control characters may stand unescaped in strings
    pub raw: bool,
    /// blanks other than the space and the tab now and then
    pub uni: bool,
    /// the string that comes is the end of its statement: it may go over lines
    tail: bool,
    pub lines: Vec<String>,
}

impl<'a> R<'a> {
    pub fn plain() -> R<'static> {
        R { src: None, comments: false, crlf: false, case: false, parens: false, raw: false, uni: false, tail: false, lines: vec![] }
    }
    pub fn fancy(src: &'a mut Src) -> R<'a> {
        let case = src.chance(1, 2);
        let comments = src.chance(1, 2);
        let crlf = src.chance(1, 6);
        let parens = src.chance(1, 2);
        R { src: Some(src), comments, crlf, case, parens, raw: false, uni: false, tail: false, lines: vec![] }
    }
    pub fn coin(&mut self, n: u64, d: u64) -> bool {
        match &mut self.src {
            Some(s) => s.chance(n, d),
            None => false,
        }
    }
    fn below(&mut self, n: u64) -> u64 {
        match &mut self.src {
            Some(s) => s.below(n),
            None => 0,
        }
    }
    pub fn word(&mut self, w: &str) -> String {
        if !self.case {
            return w.to_string();
        }
        match self.below(4) {
            0 | 1 => w.to_string(),
            2 => w.to_uppercase(),
            _ => {
                let mut s = String::new();
                for c in w.chars() {
                    if self.below(2) == 1 {
                        s.extend(c.to_uppercase());
                    } else {
                        s.push(c);
                    }
                }
                s
            }
        }
    }
    fn blank(&mut self) -> &'static str {
        let b = ["\u{a0}", "\u{3000}", "\u{b}", "\u{c}", "\u{2003}", " \u{a0} ", "\t\u{2009}", "\u{202f}"];
        b[self.below(b.len() as u64) as usize]
    }
    /// optional white space
    pub fn ws(&mut self) -> &'static str {
        if self.uni && self.below(12) == 11 {
            return self.blank();
        }
        match self.below(8) {
            1 => " ",
            2 => "  ",
            3 => "\t",
            _ => "",
        }
    }
    /// mandatory white space
    pub fn ws1(&mut self) -> &'static str {
        if self.uni && self.below(12) == 11 {
            return self.blank();
        }
        match self.below(6) {
            1 => "  ",
            2 => "\t",
            3 => "      ",
            _ => " ",
        }
    }
    fn seps(&mut self, digits: &str) -> String {
        if self.src.is_none() || digits.len() < 2 || !self.coin(1, 10) {
            return digits.to_string();
        }
        let mut s = String::new();
        let cs: Vec<char> = digits.chars().collect();
        for (i, c) in cs.iter().enumerate() {
            s.push(*c);
            if i + 1 < cs.len() && self.below(3) == 1 {
                s.push('\'');
            }
        }
        s
    }
    pub fn number(&mut self, v: i64) -> String {
        let z = if self.coin(1, 8) { "0".repeat(1 + self.below(3) as usize) } else { String::new() };
        match self.below(8) {
            1 | 2 => {
                let h = format!("{}{:x}", z, v);
                let h = self.hexcase(h);
                format!("${}", self.seps(&h))
            }
            3 => {
                let h = format!("{}{:x}", z, v);
                let h = self.hexcase(h);
                let x = if self.coin(1, 3) { "0X" } else { "0x" };
                format!("{}{}", x, self.seps(&h))
            }
            4 if v < 1 << 24 => {
                let h = format!("{}{:b}", z, v);
                format!("%{}", self.seps(&h))
            }
            5 if v < 1 << 24 => {
                let h = format!("{}{:b}", z, v);
                let x = if self.coin(1, 3) { "0B" } else { "0b" };
                format!("{}{}", x, self.seps(&h))
            }
            6 => {
                let h = format!("{}{:o}", z, v);
                let x = if self.coin(1, 3) { "0O" } else { "0o" };
                format!("{}{}", x, self.seps(&h))
            }
            _ => {
                let h = format!("{}{}", if self.below(4) == 3 { z.as_str() } else { "" }, v);
                self.seps(&h)
            }
        }
    }
    fn hexcase(&mut self, h: String) -> String {
        if self.coin(1, 2) {
            h.to_uppercase()
        } else {
            h
        }
    }
    pub fn expr(&mut self, e: &E) -> String {
        self.expr_p(e, 0)
    }
    fn expr_p(&mut self, e: &E, min: u32) -> String {
        let mut s = match e {
            E::Num(n) => self.number(*n),
            E::Sym(n) => self.word(n),
            E::MArg(n) => {
                let w = self.word(n);
                format!("%{}", w)
            }
            E::HLab(n) => {
                let w = self.word(n);
                format!("{}%", w)
            }
            E::Un(op, a) => {
                let w = self.ws();
                let a = self.expr_p(a, 6);
                format!("{}{}{}", op, w, a)
            }
            E::Bin(op, a, b) => {
                let p = e.prec();
                let x = self.expr_p(a, p);
                let w1 = if self.src.is_none() { " " } else { self.ws() };
                let w2 = if self.src.is_none() { " " } else { self.ws() };
                let y = self.expr_p(b, p + 1);
                // `name%...` would lex as a hygienic label
                format!("{}{}{}{}{}", x, w1, op, w2, y)
            }
        };
        let extra = self.parens && self.coin(1, 12);
        if e.prec() < min || extra {
            let w = self.ws();
            s = format!("({}{}{})", w, s, w);
        }
        s
    }
    pub fn op(&mut self, o: &Op) -> String {
        match o {
            Op::Dir(e) => self.expr(e),
            Op::Imm(e) => {
                let w = self.ws();
                let e = self.expr(e);
                format!("#{}{}", w, e)
            }
            Op::Ind(r) => {
                if self.case && self.coin(1, 3) {
                    format!("@r{}", r)
                } else {
                    format!("@R{}", r)
                }
            }
            Op::Par(n) => {
                let w = self.word(n);
                format!("%{}", w)
            }
        }
    }
    fn list(&mut self, parts: Vec<String>) -> String {
        let mut s = String::new();
        for (i, p) in parts.iter().enumerate() {
            if i > 0 {
                if self.src.is_none() {
                    s.push_str(", ");
                } else {
                    let a = if self.coin(1, 8) { " " } else { "" };
                    let b = match self.below(4) {
                        1 => "",
                        2 => "  ",
                        _ => " ",
                    };
                    s.push_str(a);
                    s.push(',');
                    s.push_str(b);
                }
            }
            s.push_str(p);
        }
        s
    }
    pub fn instr(&mut self, m: &str, ops: &[Op]) -> String {
        let w = self.word(m);
        if ops.is_empty() {
            return w;
        }
        let sp = self.ws1();
        let parts: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
        let l = self.list(parts);
        format!("{}{}{}", w, sp, l)
    }
    pub fn string(&mut self, s: &str) -> String {
        let mut o = String::from("\"");
        for c in s.chars() {
            if self.raw && ("\r\u{8}\0".contains(c) || c == '\n' && self.tail) && self.coin(1, 2) {
                o.push(c);
                continue;
            }
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                '\r' => o.push_str("\\r"),
                '\t' => {
                    if self.coin(1, 2) {
                        o.push('\t')
                    } else {
                        o.push_str("\\t")
                    }
                }
                '\u{8}' => o.push_str("\\b"),
                '\0' => o.push_str("\\0"),
                c => {
                    // an escape of any other character is the character itself
                    if c.is_ascii() && !c.is_ascii_control() && !"rntb0".contains(c) && self.src.is_some() && self.coin(1, 40) {
                        o.push('\\');
                    }
                    o.push(c)
                }
            }
        }
        o.push('"');
        o
    }
    fn number_arg(&mut self, n: i64) -> String {
        self.number(n)
    }
    /// One statement as one line, without indentation.
    pub fn st(&mut self, st: &St) -> String {
        match st {
            St::Label(n) => {
                let w = self.word(n);
                if n.starts_with('.') && self.coin(1, 4) {
                    w
                } else {
                    let s = if self.coin(1, 12) { " " } else { "" };
                    format!("{}{}:", w, s)
                }
            }
            St::Instr(m, ops) => self.instr(m, ops),
            St::Byte(vs) => {
                let d = self.word(".byte");
                let sp = self.ws1();
                let parts: Vec<String> = vs
                    .iter()
                    .enumerate()
                    .map(|(i, v)| match v {
                        BV::Ex(e) => self.expr(e),
                        BV::Str(s) => {
                            self.tail = i + 1 == vs.len();
                            let s = self.string(s);
                            self.tail = false;
                            s
                        }
                    })
                    .collect();
                let l = self.list(parts);
                format!("{}{}{}", d, sp, l)
            }
            St::Word(vs) => {
                let d = self.word(".word");
                let sp = self.ws1();
                let parts: Vec<String> = vs.iter().map(|v| self.expr(v)).collect();
                let l = self.list(parts);
                format!("{}{}{}", d, sp, l)
            }
            St::Text(n, s) | St::Str(n, s) => {
                let d = self.word(if matches!(st, St::Text(..)) { ".text" } else { ".string" });
                let sp = self.ws1();
                let n = self.number_arg(*n);
                let w = self.ws1();
                self.tail = true;
                let s = self.string(s);
                self.tail = false;
                format!("{}{}{}{}{}", d, sp, n, w, s)
            }
            St::Org(n) => {
                let d = self.word(".org");
                let sp = self.ws1();
                let n = self.number_arg(*n);
                format!("{}{}{}", d, sp, n)
            }
            St::Cnop(a, m) => {
                let d = self.word(".cnop");
                let sp = self.ws1();
                let parts = vec![self.number(*a), self.number(*m)];
                let l = self.list(parts);
                format!("{}{}{}", d, sp, l)
            }
            St::Equ(n, e) => {
                let w = self.word(n);
                let e = self.expr(e);
                if self.coin(1, 2) {
                    let q = self.word("equ");
                    let a = self.ws1();
                    format!("{} {}{}{}", w, q, a, e)
                } else if self.src.is_none() {
                    format!("{} = {}", w, e)
                } else {
                    let a = self.ws();
                    let b = self.ws();
                    format!("{}{}={}{}", w, a, b, e)
                }
            }
            St::Raw(s) | St::Data(s, _) => s.clone(),
        }
    }
    pub fn comment_text(&mut self) -> String {
        let c = [
            "comment", "", ";;", "mov #1, 2", "label:", "\"quote", "* star", "it's", "%macro x", "é ü ∑", "a,b:c", ".byte 1",
            "a\u{b}jmp b", "\u{c} .byte 7", "x\rret", "\u{85}.byte 2", "\u{2028}nop", "\0.org 3", "\u{1b}[0m", "\u{7f}\u{feff}",
        ];
        let i = self.below(c.len() as u64) as usize;
        format!(";{}", c[i])
    }
    pub fn line(&mut self, s: String) {
        let mut l = s;
        if self.comments && self.coin(1, 6) {
            let w = self.ws();
            let c = self.comment_text();
            l = format!("{}{}{}", l, w, c);
        } else if self.coin(1, 12) {
            l.push_str(if self.coin(1, 2) { "\t" } else { "  " });
        }
        self.lines.push(l);
    }
    fn maybe_filler(&mut self) {
        if self.comments && self.coin(1, 7) {
            let l = match self.below(4) {
                0 => String::new(),
                1 => "   ".to_string(),
                2 => {
                    let c = self.comment_text();
                    let star = ["*", "*=", "**", "* ", "*-", "*(", "*\"", "*.", "*$1", "*5", "*x "];
                    let i = self.below(2 * star.len() as u64) as usize;
                    if i < star.len() {
                        format!("{}{}", star[i], c.trim_start_matches(';'))
                    } else {
                        format!("*{}", c)
                    }
                }
                _ => {
                    let w = self.ws();
                    format!("{}{}", w, self.comment_text())
                }
            };
            self.lines.push(l);
        }
    }
    /// Render the statements; returns the 1-based line number of each.
    pub fn stmts(&mut self, sts: &[St]) -> Vec<usize> {
        let mut at = vec![];
        let mut i = 0;
        while i < sts.len() {
            self.maybe_filler();
            let st = &sts[i];
            let mut s = self.st(st);
            let indent = match st {
                St::Label(_) => self.ws(),
                St::Equ(..) => self.ws(),
                _ => {
                    if self.src.is_none() {
                        "  "
                    } else {
                        match self.below(5) {
                            1 => " ",
                            2 => "\t",
                            3 => "",
                            _ => "  ",
                        }
                    }
                }
            };
            // a statement may never start a line with `*` at column 0; none does
            s = format!("{}{}", indent, s);
            at.push(self.lines.len() + 1);
            if let St::Label(_) = st {
                if i + 1 < sts.len() {
                    if let St::Instr(..) = &sts[i + 1] {
                        if self.coin(1, 3) {
                            if !s.ends_with(':') {
                                s.push(':');
                            }
                            let n = self.st(&sts[i + 1]);
                            let w = self.ws();
                            s = format!("{}{}{}", s, w, n);
                            at.push(self.lines.len() + 1);
                            i += 1;
                        }
                    }
                }
            }
            self.line(s);
            i += 1;
        }
        at
    }
    pub fn text(&mut self) -> String {
        let nl = if self.crlf { "\r\n" } else { "\n" };
        let mut s = self.lines.join(nl);
        if !self.lines.is_empty() && !self.coin(1, 8) {
            s.push_str(nl);
        }
        s
    }
}

pub fn plain(sts: &[St]) -> String {
    let mut r = R::plain();
    r.stmts(sts);
    r.text()
}

pub fn fancy(src: &mut Src, sts: &[St]) -> String {
    let mut r = R::fancy(src);
    r.stmts(sts);
    r.text()
}

pub fn plain_expr(e: &E) -> String {
    R::plain().expr(e)
}
