//! C09..C12: formatting, expand, include trees, included bytes and C headers.
use crate::engine::*;
use crate::gen;
use crate::img;
use crate::model::*;
use crate::props::lang::judge;
use crate::props::macros::{self, Prog, Top};
use crate::render::R;
use crate::tool::*;

/// A program with a bit of everything.
pub fn rich(src: &mut Src) -> Prog {
    match src.below(4) {
        0 | 1 => {
            let o = gen::Opts { max_stmts: 20, ..Default::default() };
            Prog { macs: vec![], tops: gen::program(src, &o).into_iter().map(Top::St).collect() }
        }
        2 => macros::program(src),
        _ => {
            let mut p = macros::program(src);
            for _ in 0..1 + src.usize(4) {
                let st = data_st(src);
                let at = src.usize(p.tops.len() + 1);
                p.tops.insert(at, Top::St(st));
            }
            p
        }
    }
}

/// A data statement that needs no names.
pub fn data_st(src: &mut Src) -> St {
    match src.below(5) {
        0 => St::Byte(
            (0..1 + src.usize(3))
                .map(|_| {
                    if src.chance(1, 3) {
                        BV::Str(gen::string(src, 6))
                    } else {
                        let v = gen::interesting(src, -128, 255);
                        BV::Ex(gen::expr_for(src, v, &[], 2))
                    }
                })
                .collect(),
        ),
        1 => St::Word(
            (0..1 + src.usize(2))
                .map(|_| {
                    let v = gen::interesting(src, -32768, 65535);
                    gen::expr_for(src, v, &[], 2)
                })
                .collect(),
        ),
        2 | 3 => {
            let s = gen::string(src, 6);
            let n = s.len() as i64 + src.range(0, 4);
            if src.bool() {
                St::Text(n, s)
            } else {
                St::Str(n, s)
            }
        }
        _ => St::Cnop(src.range(0, 3), *src.pick(&[1i64, 2, 4, 16])),
    }
}

fn main_repro(t: &str, cmd: &str) -> String {
    repro_files(&[("main.s".to_string(), t.as_bytes().to_vec())], cmd)
}

// ------------------------------------------------------------------------ C09

fn render(src: &mut Src, p: &Prog) -> String {
    let mut r = R::fancy(src);
    r.raw = r.coin(1, 3);
    r.uni = r.coin(1, 5);
    macros::render_into(&mut r, p);
    r.text()
}

fn c09(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let p = rich(src);
    let a = render(src, &p);
    let b = render(src, &p);
    let w = macros::want(&p);
    let ga = assemble_src(ctx, &a)?;
    let gb = assemble_src(ctx, &b)?;
    let rp = format!("--- file a.s\n{}\n--- file b.s (the same program, formatted differently)\n{}\n--- command\nwaterbear assemble a.s -o a.vms; waterbear assemble b.s -o b.vms\n", a, b);
    let same = match (&ga, &gb) {
        (Asm::Ok(x), Asm::Ok(y)) => x == y,
        (Asm::Rejected(_), Asm::Rejected(_)) => true,
        _ => false,
    };
    if !same {
        return fail(format!("two formattings of one program differ: {} / {}", ga.describe(), gb.describe()), rp);
    }
    judge(&ga, &w, &rp)?;
    let mut labels = vec![if w.is_ok() { "accepted" } else { "must-reject" }];
    if a.contains("\r\n") != b.contains("\r\n") {
        labels.push("line-ends-differ");
    }
    if a.to_lowercase() != b.to_lowercase() {
        labels.push("beyond-case");
    }
    ok(w.is_ok() && a != b, format!("{}\n=====\n{}", a, b), labels)
}

/// Line-level rewritings applied to the text of a program.
fn c09_lines(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let p = rich(src);
    let mut r = R::fancy(src);
    macros::render_into(&mut r, &p);
    let lines = r.lines.clone();
    let base = format!("{}\n", lines.join("\n"));
    let mut out: Vec<String> = vec![];
    for l in &lines {
        while src.chance(1, 4) {
            out.push(
                src.pick(&["", " ", "\t\t", "; note", "   ;indented \"quote", "* star comment", "*", "*= 5", "*** ***", "*x = 1", "*.org 5", "*;", "*\"", ";", "; ünïcode 日本 ✓", ";\\", "*\\", "; %end", ";.org 5", "\t; tab", "; a\u{b}.byte 1", "*\u{c}.byte 1", ";\r.byte 1", "*\u{85} ret", "; \u{2029}.byte 1", ";\0.byte 1"]).to_string(),
            );
        }
        let mut l = l.clone();
        let t = l.trim_start().to_string();
        let quoted = l.contains('"');
        // indentation
        if src.chance(1, 3) && !l.starts_with('*') {
            let k = src.pick(&["", " ", "\t", "\t \t", "                    "]).to_string();
            l = format!("{}{}", k, t);
        }
        // after the statement
        if src.chance(1, 3) && !l.starts_with('*') {
            l.push_str(*src.pick(&[" ", "\t", "  ; c", ";c", " ; \"", ";;;", "\t;\t", " ; é", ";* x", " ;\u{b}.byte 1", ";\rnop", " ; \u{c}ret", ";\u{2028}.byte 3"]));
        }
        let _ = quoted;
        out.push(l);
    }
    while src.chance(1, 3) {
        out.push(src.pick(&["", "; end", "*", "   "]).to_string());
    }
    let nl = if src.chance(1, 4) { "\r\n" } else { "\n" };
    let mut t = out.join(nl);
    if src.chance(2, 3) {
        t.push_str(nl);
    }
    let w = macros::want(&p);
    let ga = assemble_src(ctx, &base)?;
    judge(&ga, &w, &main_repro(&base, "waterbear assemble main.s -o out.vms"))?;
    let gb = assemble_src(ctx, &t)?;
    judge(&gb, &w, &main_repro(&t, "waterbear assemble main.s -o out.vms"))?;
    ok(w.is_ok() && t != base, t, vec![if w.is_ok() { "accepted" } else { "must-reject" }])
}

// ------------------------------------------------------------------ resources

#[derive(Clone, Debug)]
pub enum Kind {
    Bytes,
    Cpp,
    Icon,
    Sprite,
    Leaf,
}

#[derive(Clone, Debug)]
pub struct Res {
    pub kind: Kind,
    pub ext: String,
    pub data: Vec<u8>,
    /// what stands in the program in its place
    pub sts: Vec<St>,
    /// speed/type/header text; `\u{2}` stands for the eyecatch path
    pub props: String,
    pub eye: Option<(String, Vec<u8>)>,
}

#[derive(Clone, Debug)]
pub enum Item {
    Top(Top),
    Inc(usize),
}

pub struct Bundle {
    pub macs: Vec<macros::Mac>,
    pub items: Vec<Item>,
    pub res: Vec<Res>,
}

pub fn icon_pic(src: &mut Src) -> img::Pic {
    let n = *src.pick(&[1usize, 2, 3, 15, 16, 4]);
    let alpha = src.chance(1, 3);
    let mut pal = img::colours(src, n, alpha, true);
    // neighbours that reduce to the same four bits
    for _ in 0..src.usize(4) {
        let mut c = *src.pick(&pal);
        c[src.usize(3)] ^= 1;
        if pal.iter().any(|p| img::argb4(p) == img::argb4(&c)) && !pal.contains(&c) {
            pal.push(c);
        }
    }
    let f = if src.chance(1, 3) { 1 + src.usize(4) } else { 1 };
    let frames: Vec<Vec<img::Px>> = (0..f).map(|_| img::paint(src, 32 * 32, &pal)).collect();
    let delay = (0..f).map(|_| if f == 1 { 0 } else { 10 * src.range(0, 30) as u32 }).collect();
    img::Pic { w: 32, h: 32, frames, delay }
}

pub fn eye_pic(src: &mut Src) -> img::Pic {
    let n = *src.pick(&[2usize, 1, 15, 16, 17, 100, 255, 256, 257, 300, 1500, 4000]);
    let alpha = src.chance(1, 4);
    let pal = img::colours(src, n, alpha, true);
    let mut px = img::paint(src, 72 * 56, &pal);
    if src.chance(1, 4) {
        px.reverse();
    }
    let mut p = img::Pic::still(72, 56, px);
    if src.chance(1, 5) {
        // an animated one: the first frame is the eyecatch
        let more = 1 + src.usize(2);
        for _ in 0..more {
            let n = *src.pick(&[1usize, 4, 17, 257]);
            let pal = img::colours(src, n, false, true);
            p.frames.push(img::paint(src, 72 * 56, &pal));
        }
        p.delay = (0..=more).map(|_| 10 * src.range(0, 30) as u32).collect();
    }
    p
}

pub fn sprite_pic(src: &mut Src, max: i64) -> img::Pic {
    let side = |src: &mut Src| match src.below(4) {
        0 => *src.pick(&[1i64, 7, 8, 9, 15, 16, 17]),
        1 => src.range(1, max.min(40)),
        2 => max,
        _ => src.range(1, max),
    };
    let w = side(src).min(max) as usize;
    let h = if w > 60 { src.range(1, 12) as usize } else { side(src).min(max) as usize };
    let (w, h) = if src.chance(1, 4) { (h, w) } else { (w, h) };
    let n = 1 + src.usize(8);
    let alpha = src.chance(2, 3);
    let pal = img::colours(src, n, alpha, false);
    let f = if src.chance(1, 4) { 2 + src.usize(2) } else { 1 };
    let frames: Vec<Vec<img::Px>> = (0..f).map(|_| img::paint(src, w * h, &pal)).collect();
    let delay = (0..f).map(|_| if f == 1 { 0 } else { 10 * src.range(0, 30) as u32 }).collect();
    img::Pic { w, h, frames, delay }
}

fn comment_bits(src: &mut Src, lines: bool) -> String {
    let bits = [" ", "a", "*", "/", "//", "#define Z 1", "\"", "'", "1", "é", "\\", "\t", "\u{b}", "\r", ";", "/*", "**", "\n", "\n#define ZZ 2\n"];
    let n = src.usize(5);
    (0..n).map(|_| bits[src.usize(if lines { bits.len() } else { bits.len() - 2 })]).collect()
}

fn block_comment(src: &mut Src, lines: bool) -> String {
    let mut b = comment_bits(src, lines);
    // the first */ after the opening is the end
    while let Some(i) = format!("{}*/", b).find("*/") {
        if i == b.len() {
            break;
        }
        b.replace_range(i..i + 1, "");
    }
    format!("/*{}*/", b)
}

fn c_comment(src: &mut Src) -> String {
    if src.bool() {
        block_comment(src, true)
    } else {
        format!("//{}", comment_bits(src, false))
    }
}

/// `#define` lines, comments and blank lines; the constants it defines.
pub fn header(src: &mut Src, tag: &str) -> (String, Vec<(String, i64)>) {
    let mut t = String::new();
    let mut names: Vec<(String, i64)> = vec![];
    let n = 1 + src.usize(6);
    let nl = if src.chance(1, 5) { "\r\n" } else { "\n" };
    for i in 0..n {
        while src.chance(1, 3) {
            if src.chance(1, 3) {
                let c = c_comment(src);
                t.push_str(&c);
                t.push_str(nl);
                continue;
            }
            t.push_str(*src.pick(&[
                "",
                "// a comment",
                "/* block */",
                "/* two\n   lines \" ' */",
                "//",
                "/**/",
                "/* ünï 日本 ✓ */",
                "// ; * % \"",
                "/* #define HID 5\n#define HID2 6 */",
                "/***/",
                "/* a * / */",
                "// é",
            ]));
            t.push_str(nl);
        }
        let base = src.pick(&["A", "Speed", "max_len", "_x", "FLAG_1", "b2"]).to_string();
        let name = format!("{}{}_{}", tag, base, i);
        let v = gen::interesting(src, 0, 65535);
        let ref_ = if names.is_empty() { None } else { Some(src.pick(&names).clone()) };
        let e = match src.below(10) {
            0 | 1 => format!("0x{:x}", v),
            2 => format!("0X{:X}", v),
            3 => format!("0b{:b}", v),
            4 => format!("0B{:b}", v),
            5 => format!("({})", v),
            6 if v > 0 => {
                let k = src.range(0, v);
                format!("({} + {})", v - k, k)
            }
            7 => match &ref_ {
                Some((n, w)) if v >= *w => format!("{} + {}", n, v - w),
                Some((n, w)) => format!("({} - {})", n, w - v),
                None => format!("{}", v),
            },
            _ => format!("{}", v),
        };
        let d = src.pick(&["#define", "#define", "# define", "#  define"]).to_string();
        let sp = src.pick(&[" ", "\t", "   "]).to_string();
        let sp2 = match src.below(6) {
            5 => block_comment(src, false),
            k => [" ", "\t\t", "  ", " /* v */ ", " "][k as usize].to_string(),
        };
        t.push_str(&format!("{}{}{}{}{}", d, sp, name, sp2, e));
        match src.below(9) {
            8 => {
                let c = c_comment(src);
                t.push_str(&c);
            }
            k => t.push_str(["", "", " // note", " /* note */", "  ", "// x", " /* two\n lines */", ""][k as usize]),
        }
        if i + 1 < n || !src.chance(1, 4) {
            t.push_str(nl);
        }
        names.push((name, v));
    }
    if src.chance(1, 4) {
        t.push_str(nl);
        t.push_str(*src.pick(&["/* unterminated", "// last", "/* end */", "\n\n"]));
    }
    (t, names)
}

pub fn bytes_data(src: &mut Src) -> Vec<u8> {
    match src.below(6) {
        0 => vec![],
        1 => (0..=255).collect(),
        2 => (0..1 + src.usize(40)).map(|_| src.below(256) as u8).collect(),
        3 => b".org 5\n\"quote\" ; \\n %macro \r\n".to_vec(),
        4 => {
            let n = *src.pick(&[1usize, 255, 256, 257, 1000, 4096, 5000, 20000, 40000]);
            let mut st = src.below(1 << 30);
            (0..n)
                .map(|_| {
                    st = st.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    (st >> 40) as u8
                })
                .collect()
        }
        _ => vec![src.below(256) as u8; 1 + src.usize(300)],
    }
}

fn join_props(src: &mut Src, props: &[String]) -> String {
    if props.is_empty() {
        return String::new();
    }
    format!(" {}", props.join(*src.pick(&[", ", ",", " , "])))
}

pub fn resource(src: &mut Src, k: usize) -> Res {
    match src.below(8) {
        0 | 1 => {
            let d = bytes_data(src);
            Res { kind: Kind::Bytes, ext: src.pick(&["bin", "dat", "s", "png", "h"]).to_string(), sts: vec![St::Data(String::new(), d.clone())], data: d, props: String::new(), eye: None }
        }
        2 | 3 => {
            let (t, names) = header(src, &format!("H{}_", k));
            Res {
                kind: Kind::Cpp,
                ext: src.pick(&["h", "hpp", "inc"]).to_string(),
                data: t.into_bytes(),
                sts: names.iter().map(|(n, v)| St::Equ(n.clone(), num(*v))).collect(),
                props: String::new(),
                eye: None,
            }
        }
        4 => {
            let p = icon_pic(src);
            let (ext, data) = img::store(src, &p);
            let mut props: Vec<String> = vec![];
            let mut speed = 10;
            if src.chance(1, 2) {
                speed = gen::interesting(src, 0, 65535);
                props.push(format!("speed={}", speed));
            }
            let mut eye = None;
            let mut ep = None;
            if src.chance(1, 3) {
                let e = eye_pic(src);
                let (x, d) = img::store(src, &e);
                eye = Some((x.to_string(), d));
                ep = Some(e);
                let at = src.usize(props.len() + 1);
                props.insert(at, "eyecatch=\"\u{2}\"".into());
            }
            let b = img::icon_bytes(&p, speed as u16, ep.as_ref()).expect("icon");
            Res { kind: Kind::Icon, ext: ext.into(), data, sts: vec![St::Data(String::new(), b)], props: join_props(src, &props), eye }
        }
        5 => {
            let p = sprite_pic(src, 40);
            let (ext, data) = img::store(src, &p);
            let masked = src.bool();
            let header = src.bool();
            let mut props: Vec<String> = vec![];
            if masked || src.bool() {
                props.push(format!("type=\"{}\"", if masked { "masked" } else { "simple" }));
            }
            if !header || src.bool() {
                props.push(format!("header=\"{}\"", if header { "yes" } else { "no" }));
            }
            if src.bool() {
                props.reverse();
            }
            let b = img::sprite_bytes(&p, masked, header);
            Res { kind: Kind::Sprite, ext: ext.into(), data, sts: vec![St::Data(String::new(), b)], props: join_props(src, &props), eye: None }
        }
        _ => {
            // label-free text, so that it can stand in several places
            let sts: Vec<St> = (0..src.usize(4)).map(|_| if src.bool() { data_st(src) } else { St::Instr(src.pick(&["nop", "ret", "rol"]).to_string(), vec![]) }).collect();
            let mut r = R::fancy(src);
            r.stmts(&sts);
            let t = r.text();
            Res { kind: Kind::Leaf, ext: src.pick(&["s", "i", "inc", "h"]).to_string(), data: t.into_bytes(), sts, props: String::new(), eye: None }
        }
    }
}

pub fn bundle(src: &mut Src, max: usize) -> Bundle {
    let p = rich(src);
    let mut items: Vec<Item> = p.tops.into_iter().map(Item::Top).collect();
    let mut res = vec![];
    let n = src.usize(max + 1);
    for k in 0..n {
        let r = resource(src, k);
        let places = match r.kind {
            Kind::Cpp => 1,
            _ => 1 + if src.chance(1, 3) { 1 + src.usize(2) } else { 0 },
        };
        let used: Vec<String> = r.sts.iter().filter_map(|s| if let St::Equ(n, _) = s { Some(n.clone()) } else { None }).collect();
        for _ in 0..places {
            let at = src.usize(items.len() + 1);
            items.insert(at, Item::Inc(k));
        }
        for u in used {
            if src.chance(3, 4) {
                let at = src.usize(items.len() + 1);
                let u = if src.chance(1, 4) { u.to_lowercase() } else { u };
                items.insert(at, Item::Top(Top::St(St::Word(vec![sym(&u)]))));
            }
        }
        res.push(r);
    }
    Bundle { macs: p.macs, items, res }
}

pub fn flat(b: &Bundle) -> Prog {
    let mut tops = vec![];
    for i in &b.items {
        match i {
            Item::Top(t) => tops.push(t.clone()),
            Item::Inc(k) => tops.extend(b.res[*k].sts.iter().cloned().map(Top::St)),
        }
    }
    Prog { macs: b.macs.clone(), tops }
}

/// Logical lines; an include is the line `\u{1}<k>`.
pub fn lines_of(src: &mut Src, b: &Bundle) -> Vec<String> {
    let mut r = R::fancy(src);
    for i in &b.items {
        match i {
            Item::Top(t) => macros::render_into(&mut r, &Prog { macs: b.macs.clone(), tops: vec![t.clone()] }),
            Item::Inc(k) => r.lines.push(format!("\u{1}{}", k)),
        }
    }
    r.lines
}

// ---------------------------------------------------------------- file trees

pub struct Tree {
    pub files: Vec<(String, Vec<u8>)>,
    /// for each text file: the chain of files that include it, itself last
    pub chains: Vec<Vec<usize>>,
    counter: usize,
    dirs: Vec<String>,
    places: Vec<Option<String>>,
    eyes: Vec<Option<String>>,
    abs: String,
    allow_abs: bool,
    /// many file names differ only in case or in a detail
    alike: bool,
    same: bool,
    taken: Vec<String>,
    /// relative paths as they stand in the sources
    spelled: Vec<String>,
    /// where the tool is started, if paths may be spelled from there
    fall: Option<String>,
    /// what such paths mean from the file they stand in: nothing may be there
    fallen: Vec<String>,
}

/// A path from directory `from` to file `to`, both relative to the root.
pub fn rel(from: &str, to: &str) -> String {
    let a: Vec<&str> = from.split('/').filter(|s| !s.is_empty()).collect();
    let b: Vec<&str> = to.split('/').collect();
    let mut k = 0;
    while k < a.len() && k + 1 < b.len() && a[k] == b[k] {
        k += 1;
    }
    let mut v: Vec<&str> = vec![".."; a.len() - k];
    v.extend(&b[k..]);
    v.join("/")
}

/// The file `path` means in directory `dir`, if it is inside the root.
fn below(dir: &str, path: &str) -> Option<String> {
    let mut v: Vec<&str> = dir.split('/').filter(|s| !s.is_empty()).collect();
    for p in path.split('/') {
        match p {
            "" | "." => {}
            ".." => {
                v.pop()?;
            }
            p => v.push(p),
        }
    }
    if v.is_empty() {
        None
    } else {
        Some(v.join("/"))
    }
}

fn dir_of(p: &str) -> String {
    match p.rfind('/') {
        Some(i) => p[..i].to_string(),
        None => String::new(),
    }
}

impl Tree {
    fn new(src: &mut Src, b: &Bundle, ctx: &Ctx) -> Tree {
        let mut dirs = vec![String::new()];
        for d in ["inc", "src/sub", "a dir", "inc/deep/er", "ünï"] {
            if src.bool() {
                dirs.push(d.to_string());
            }
        }
        // directories that differ only far from their last part
        let twins = src.chance(1, 3);
        if twins {
            let t: &[&str] = src.pick(&[&["src/inc", "lib/inc"][..], &["a/x/lib", "b/x/lib", "a/y/lib"][..], &["inc", "inc/inc", "inc/inc/inc"][..], &["v1.s/inc", "v2.s/inc"][..], &["sub", "Sub", "SUB"][..]]);
            dirs.extend(t.iter().map(|d| d.to_string()));
            dirs.sort();
            dirs.dedup();
        }
        Tree {
            files: vec![],
            chains: vec![],
            counter: 0,
            dirs,
            places: vec![None; b.res.len()],
            eyes: vec![None; b.res.len()],
            abs: ctx.dir.display().to_string(),
            allow_abs: src.chance(1, 3),
            alike: src.chance(1, 2),
            same: twins || src.chance(1, 6),
            taken: vec![],
            spelled: vec![],
            fall: None,
            fallen: vec![],
        }
    }
    fn fresh(&mut self, src: &mut Src, stem: &str, ext: &str) -> String {
        self.counter += 1;
        let d = src.pick(&self.dirs).clone();
        // the same name in every directory, and names without an extension or with several
        if self.same && src.chance(2, 3) || src.chance(1, 12) {
            let pict = ["png", "gif", "bmp", "ppm"].contains(&ext);
            let n = match if pict { 7 } else { src.below(8) } {
                0 | 1 => src.pick(&["Makefile", "file", "README", "x"]).to_string(),
                2 => src.pick(&[".s", ".hidden", ".config.s", ".."]).to_string() + if src.bool() { "" } else { "x" },
                3 => src.pick(&["part.v1.s", "a.b", "end.", "...s", "x.tar.gz"]).to_string(),
                _ => format!("{}.{}", stem, ext),
            };
            let p = if d.is_empty() { n.clone() } else { format!("{}/{}", d, n) };
            if n != ".." && !self.taken.contains(&p) && !self.dirs.contains(&p) && p != "inc" {
                self.taken.push(p.clone());
                return p;
            }
        }
        // names that are alike but for case, spaces or letters with more than one spelling
        let stem = match src.below(if self.alike { 2 } else { 40 }) {
            0 => {
                let c = if src.bool() { stem.to_uppercase() } else { stem.to_string() };
                let n = format!("{}.{}", c, if src.bool() { ext.to_uppercase() } else { ext.to_string() });
                let p = if d.is_empty() { n } else { format!("{}/{}", d, n) };
                if !self.taken.contains(&p) {
                    self.taken.push(p.clone());
                    return p;
                }
                stem.to_string()
            }
            1 => format!("{}{}", stem, src.pick(&[" ", "é", "e\u{301}", " (copy) ", "'", ".s", "%20", "#", ";"])),
            _ => stem.to_string(),
        };
        let n = format!("{}{}.{}", stem, self.counter, ext);
        if d.is_empty() {
            n
        } else {
            format!("{}/{}", d, n)
        }
    }
    fn spell(&mut self, src: &mut Src, from: &str, to: &str) -> String {
        if let Some(cwd) = self.fall.clone() {
            if src.chance(1, 3) {
                let p = rel(&cwd, to);
                match below(from, &p) {
                    Some(q) if q != to => {
                        self.fallen.push(q);
                        return p;
                    }
                    _ => {}
                }
            }
        }
        let s = self.spell_any(src, from, to);
        if !s.starts_with('/') {
            self.spelled.push(s.clone());
        }
        s
    }
    fn spell_any(&mut self, src: &mut Src, from: &str, to: &str) -> String {
        let r = rel(from, to);
        match src.below(8) {
            0 => format!("./{}", r),
            1 if self.allow_abs => format!("{}/{}", self.abs, to),
            2 => {
                // through a directory that exists
                let d: Vec<&String> = self.dirs.iter().filter(|d| !d.is_empty()).collect();
                if d.is_empty() {
                    return r;
                }
                let d = src.pick(&d).to_string();
                let up = "../".repeat(d.split('/').count());
                let down = rel(from, &format!("{}/x", d));
                let down = down[..down.len() - 1].trim_end_matches('/').to_string();
                if down.is_empty() {
                    r
                } else {
                    format!("{}/{}{}", down, up, to)
                }
            }
            _ => r,
        }
    }
    fn include_line(&mut self, src: &mut Src, b: &Bundle, k: usize, from: &str) -> String {
        let r = &b.res[k];
        if self.places[k].is_none() {
            let p = self.fresh(src, "res", &r.ext);
            self.files.push((p.clone(), r.data.clone()));
            self.places[k] = Some(p);
            if let Some((x, d)) = &r.eye {
                let p = self.fresh(src, "eye", x);
                self.files.push((p.clone(), d.clone()));
                self.eyes[k] = Some(p);
            }
        }
        let place = self.places[k].clone().unwrap();
        let path = self.spell(src, from, &place);
        let kw = match r.kind {
            Kind::Bytes => "bytes ",
            Kind::Cpp => "cpp ",
            Kind::Icon => "icon ",
            Kind::Sprite => "sprite ",
            Kind::Leaf => {
                if src.bool() {
                    "asm "
                } else {
                    ""
                }
            }
        };
        let mut props = r.props.clone();
        if let Some(e) = self.eyes[k].clone() {
            let e = self.spell(src, from, &e);
            props = props.replace('\u{2}', &e);
        }
        let d = src.pick(&[".include", ".include", ".INCLUDE"]).to_string();
        let w = src.pick(&["", "  ", "\t"]).to_string();
        let c = src.pick(&["", "", " ; included", "  "]).to_string();
        format!("{}{} {}\"{}\"{}{}", w, d, kw, path, props, c)
    }
    /// Write `lines` as file `path`, moving some ranges of lines to further files.
    fn put(&mut self, src: &mut Src, b: &Bundle, path: &str, lines: &[String], depth: usize, chain: &[usize]) -> usize {
        let me = self.files.len();
        self.files.push((path.to_string(), vec![]));
        let mut chain = chain.to_vec();
        chain.push(me);
        self.chains.push(chain.clone());
        let dir = dir_of(path);
        let mut out: Vec<String> = vec![];
        let mut i = 0;
        let cuts = if depth == 0 { 0 } else { src.usize(4) };
        let mut left = cuts;
        while i < lines.len() || left > 0 {
            if left > 0 && (i >= lines.len() || src.chance(1, 3)) {
                left -= 1;
                let n = src.usize(lines.len() - i + 1);
                let ext = src.pick(&["s", "i", "inc", "h", "asm"]).to_string();
                let sub = self.fresh(src, "part", &ext);
                self.put(src, b, &sub, &lines[i..i + n], depth - 1, &chain);
                let p = self.spell(src, &dir, &sub);
                let kw = if src.bool() { "asm " } else { "" };
                out.push(format!("{}.include {}\"{}\"", src.pick(&["", "  "]), kw, p));
                i += n;
                continue;
            }
            if let Some(k) = lines[i].strip_prefix('\u{1}') {
                let k: usize = k.parse().unwrap();
                let l = self.include_line(src, b, k, &dir);
                out.push(l);
            } else {
                out.push(lines[i].clone());
            }
            i += 1;
        }
        let nl = if src.chance(1, 6) { "\r\n" } else { "\n" };
        let mut t = out.join(nl);
        if !src.chance(1, 3) {
            t.push_str(nl);
        }
        self.files[me].1 = t.into_bytes();
        me
    }
}

fn c11(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let b = bundle(src, 3);
    let lines = lines_of(src, &b);
    let mut tree = Tree::new(src, &b, ctx);
    let main = tree.fresh(src, "main", "s");
    let depth = 1 + src.usize(4);
    let cwd = src.pick(&tree.dirs).clone();
    if src.chance(1, 4) {
        tree.fall = Some(cwd.clone());
    }
    tree.put(src, &b, &main, &lines, depth, &[]);
    tree.fall = None;
    let w = macros::want(&flat(&b));
    // decoys: the same file names where the tool is started
    let fall = !tree.fallen.is_empty();
    let decoys = !fall && src.chance(1, 2);
    let mut files = tree.files.clone();
    if tree.fallen.iter().any(|q| files.iter().any(|f| f.0 == *q)) {
        return ok(false, "the path leads to another file", vec![]);
    }
    // a directory is not a file
    let mut hollow = false;
    for q in tree.fallen.clone() {
        if src.chance(1, 3) && !files.iter().any(|f| q.starts_with(&format!("{}/", f.0))) {
            hollow = true;
            ctx.write(&format!("{}/.keep", q), b"");
        }
    }
    if decoys {
        for (p, _) in tree.files.clone() {
            let name = p.rsplit('/').next().unwrap().to_string();
            for d in [cwd.clone()] {
                let q = if d.is_empty() { name.clone() } else { format!("{}/{}", d, name) };
                if !files.iter().any(|f| f.0 == q) {
                    files.push((q, b".byte \"decoy\"\n".to_vec()));
                }
            }
        }
        // and what the paths in the sources mean from there
        for s in &tree.spelled {
            if let Some(q) = below(&cwd, s) {
                if !files.iter().any(|f| f.0 == q || f.0.starts_with(&format!("{}/", q)) || q.starts_with(&format!("{}/", f.0))) && !tree.dirs.contains(&q) {
                    files.push((q, b".byte \"decoy\"\n".to_vec()));
                }
            }
        }
    }
    for d in &tree.dirs {
        if !d.is_empty() {
            ctx.write(&format!("{}/.keep", d), b"");
        }
    }
    for (n, d) in &files {
        ctx.write(n, d);
    }
    let cwd_path = ctx.path(&cwd);
    let arg = match src.below(3) {
        0 => format!("{}/{}", ctx.dir.display(), main),
        1 => format!("./{}", rel(&cwd, &main)),
        _ => rel(&cwd, &main),
    };
    let out = ctx.path("the out.vms").display().to_string();
    let run = |ctx: &mut Ctx| -> Result<Asm, Stop> {
        ctx.remove("the out.vms");
        let r = ctx.wb_in(&cwd_path, &["assemble", &arg, "-o", &out])?;
        Ok(if r.ok() && fall && !r.err.to_lowercase().contains("warning") {
            Asm::Broken("no warning about a path that is not relative to its file".into())
        } else if r.ok() {
            match ctx.read("the out.vms") {
                Some(b) => Asm::Ok(b),
                None => Asm::Broken("exit 0 without output".into()),
            }
        } else if r.rejected() {
            Asm::Rejected(r.err)
        } else {
            Asm::Broken(r.how())
        })
    };
    let rp = repro_files(&files, &format!("cd <dir>/{} && waterbear assemble {} -o {}", cwd, arg, out));
    let got = run(ctx)?;
    judge(&got, &w, &rp)?;
    let mut labels = vec![if w.is_ok() { "accepted" } else { "must-reject" }];
    let maxd = tree.chains.iter().map(|c| c.len()).max().unwrap_or(1);
    labels.push(match maxd {
        1 => "depth-1",
        2 => "depth-2",
        3 => "depth-3",
        _ => "depth-4+",
    });
    if decoys {
        labels.push("decoys");
    }
    if fall {
        labels.push(if hollow { "fallback-past-directory" } else { "fallback" });
    }
    for r in &b.res {
        labels.push(match r.kind {
            Kind::Bytes => "bytes",
            Kind::Cpp => "cpp",
            Kind::Icon => "icon",
            Kind::Sprite => "sprite",
            Kind::Leaf => "leaf",
        });
    }
    let mut sub = 1;
    // a broken include somewhere in the tree
    if w.is_ok() {
        let v = src.pick(&tree.chains).clone();
        let at = *v.last().unwrap();
        let (path, text) = tree.files[at].clone();
        let dir = dir_of(&path);
        let (bad, what): (String, &'static str) = match src.below(6) {
            4 | 5 => {
                // a file that is there, with something left over on the line
                let p = if dir.is_empty() { "zz9.s".to_string() } else { format!("{}/zz9.s", dir) };
                ctx.write(&p, b"; nothing\n");
                let kind = src.pick(&["", "asm ", "bytes ", "cpp "]).to_string();
                let j = src.pick(&["junk", "5", "\"zz9.s\"", ", 1", "nop", "= 1", ":", "header=\"no\"", "asm", "#1"]).to_string();
                (format!(".include {}\"zz9.s\" {}", kind, j), "junk-after-include")
            }
            0 | 1 => {
                let kind = src.pick(&["", "asm ", "bytes ", "cpp ", "icon ", "sprite "]).to_string();
                let p = src.pick(&["no_such_file.s", "nowhere/x.png", "../../no_such", "no such.bin"]).to_string();
                let props = if kind == "sprite " { " type=\"simple\"" } else { "" };
                (format!(".include {}\"{}\"{}", kind, p, props), "missing-file")
            }
            _ => {
                let t = *src.pick(&v);
                let to = tree.files[t].0.clone();
                let p = tree.spell(src, &dir, &to);
                (format!(".include \"{}\"", p), "recursive-include")
            }
        };
        // only at a place where a line of its own may stand: the start or the end
        let mut t = String::from_utf8(text).unwrap();
        if src.bool() {
            t = format!("{}\n{}", bad, t);
        } else {
            t = format!("{}\n{}", t, bad);
        }
        // (the end of a file may be inside a string or macro only if a part was cut there,
        // and parts are cut at line boundaries, so a line of its own is always possible)
        ctx.write(&path, t.as_bytes());
        let got = run(ctx)?;
        let mut f2 = files.clone();
        if let Some(f) = f2.iter_mut().find(|f| f.0 == path) {
            f.1 = t.into_bytes();
        }
        let rp = repro_files(&f2, &format!("cd <dir>/{} && waterbear assemble {} -o {}", cwd, arg, out));
        judge(&got, &Err(what.to_string()), &rp)?;
        labels.push(what);
        sub += 1;
    }
    okn(w.is_ok() && tree.chains.len() > 1, rp, labels, sub)
}

// ------------------------------------------------------------------------ C10

pub fn single_file(src: &mut Src, b: &Bundle) -> Vec<(String, Vec<u8>)> {
    let lines = lines_of(src, b);
    let mut files = vec![];
    let mut out: Vec<String> = vec![];
    for l in &lines {
        if let Some(k) = l.strip_prefix('\u{1}') {
            let k: usize = k.parse().unwrap();
            let r = &b.res[k];
            let p = format!("res{}.{}", k, r.ext);
            let kw = match r.kind {
                Kind::Bytes => "bytes ",
                Kind::Cpp => "cpp ",
                Kind::Icon => "icon ",
                Kind::Sprite => "sprite ",
                Kind::Leaf => "",
            };
            let mut props = r.props.clone();
            if let Some((x, d)) = &r.eye {
                let e = format!("eye{}.{}", k, x);
                props = props.replace('\u{2}', &e);
                files.push((e, d.clone()));
            }
            files.push((p.clone(), r.data.clone()));
            out.push(format!(".include {}\"{}\"{}", kw, p, props));
        } else {
            out.push(l.clone());
        }
    }
    let mut v = vec![("in/main.s".to_string(), format!("{}\n", out.join("\n")).into_bytes())];
    v.extend(files.into_iter().map(|(n, d)| (format!("in/{}", n), d)));
    v
}

fn c10(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let max = if src.chance(1, 2) { 2 } else { 0 };
    let b = bundle(src, max);
    let w = macros::want(&flat(&b));
    let mut files = single_file(src, &b);
    // the names of pictures come back in comments
    let odd = format!("d{}r", raw_byte(0xfe));
    let top = *src.pick(&["in", "in", "in", "in", "in", "i\nn", "i\n  .byte 1 ; n", "i\rn", "ü ;", odd.as_str()]);
    for f in files.iter_mut() {
        f.0 = f.0.replacen("in", top, 1);
    }
    for (n, d) in &files {
        ctx.write(n, d);
    }
    let ind = ctx.path(top);
    let cmd = "(cd the directory of main.s && waterbear expand main.s) > out/again.s; cd out && waterbear assemble again.s -o out.vms";
    let rp = repro_files(&files, cmd);
    let r = ctx.wb_in(&ind, &["expand", "main.s"])?;
    if !r.clean() {
        return fail(format!("expand: {}", r.how()), rp);
    }
    if !r.ok() {
        if w.is_ok() {
            return fail(format!("the program assembles but expand fails: {}", clip(&r.err, 600)), rp);
        }
        return ok(false, "", vec!["both-rejected"]);
    }
    ctx.write("out/again.s", &r.out);
    let outd = ctx.path("out");
    let out = ctx.path("out.vms").display().to_string();
    let r2 = ctx.wb_in(&outd, &["assemble", "again.s", "-o", &out])?;
    let rp = format!("{}--- expand printed\n{}\n", rp, show(&r.out));
    let got = if r2.ok() {
        match ctx.read("out.vms") {
            Some(b) => Asm::Ok(b),
            None => Asm::Broken("exit 0 without output".into()),
        }
    } else if r2.rejected() {
        Asm::Rejected(r2.err)
    } else {
        Asm::Broken(r2.how())
    };
    judge(&got, &w, &rp)?;
    let mut labels = vec![if top == "in" { "plain-directory" } else { "odd-directory" }, if w.is_ok() { "round-trip" } else { "rejected-after-expand" }];
    if b.macs.iter().any(|m| !m.body.is_empty()) {
        labels.push("macros");
    }
    for r in &b.res {
        labels.push(match r.kind {
            Kind::Bytes => "bytes",
            Kind::Cpp => "cpp",
            Kind::Icon => "icon",
            Kind::Sprite => "sprite",
            Kind::Leaf => "leaf",
        });
    }
    ok(w.is_ok(), repro_files(&files[..1], cmd), labels)
}

/// expand must refuse what it cannot expand
fn c10_reject(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let p = macros::program(src);
    let mut r = R::fancy(src);
    macros::render_into(&mut r, &p);
    let lines = r.lines.clone();
    let nl = if r.crlf { "\r\n" } else { "\n" };
    const BAD: &[(&str, &[&str])] = &[
        ("call-of-undefined-macro", &["  no_such_macro 1, 2"]),
        ("call-of-undefined-macro-without-arguments", &["  no_such_macro"]),
        ("wrong-argument-count", &["%macro wac9 %a, %b", "  ld %a", "%end", "  wac9 1"]),
        ("wrong-argument-count", &["  wac9", "%macro wac9 %a", "  ld %a", "%end"]),
        ("macro-twice", &["%macro twice9 %a", "  ld %a", "%end", "%macro TWICE9 %b", "%end"]),
        ("recursive-macro", &["%macro rec9 %a", "  rec9 %a", "%end", "  rec9 1"]),
        ("mutually-recursive-macros", &["%macro reca9", "  recb9", "%end", "  reca9", "%macro recb9", "  reca9", "%end"]),
        ("unknown-parameter", &["%macro unk9 %a", "  ld %b", "%end", "  unk9 1"]),
        ("repeated-parameter", &["%macro rep9 %a, %A", "  ld %a", "%end"]),
        ("macro-named-like-instruction", &["%macro ld %a", "%end"]),
        ("unterminated-string", &["  .byte \"abc"]),
        ("junk", &["  .byte 1 2"]),
        ("junk", &["  mov #1, 2 3"]),
        ("junk", &["  .org 5 5"]),
        ("missing-operand", &["  .byte 1,"]),
        ("bad-directive", &["  .nosuch 1"]),
        ("unclosed-paren", &["  .word (1 + 2"]),
        ("wrong-form", &["  mov @R1, 5, 6"]),
        ("missing-include", &["  .include \"nope.s\""]),
        ("missing-include", &["  .include bytes \"nope.s\""]),
        ("bad-literal", &["  .byte 99999999999"]),
    ];
    let bad: (&'static str, &'static [&'static str]) = *src.pick(BAD);
    let cuts: Vec<usize> = {
        // not inside a macro definition
        let mut v = vec![];
        let mut inside = false;
        for (i, l) in lines.iter().enumerate() {
            let t = l.trim().to_lowercase();
            if !inside {
                v.push(i);
            }
            if t.starts_with("%macro") {
                inside = true;
            } else if t.starts_with("%end") {
                inside = false;
            }
        }
        v.push(lines.len());
        v
    };
    let at = if bad.0 == "unterminated-string" { lines.len() } else { *src.pick(&cuts) };
    let mut ls = lines.clone();
    for (i, b) in bad.1.iter().enumerate() {
        ls.insert(at + i, b.to_string());
    }
    let t = ls.join(nl);
    ctx.write("main.s", t.as_bytes());
    let r = ctx.wb(&["expand", "main.s"])?;
    let rp = main_repro(&t, "waterbear expand main.s");
    if !r.rejected() || r.err.trim().is_empty() {
        return fail(format!("expand of a program with an error ({}): {} {}", bad.0, r.how(), clip(&r.err, 300)), rp);
    }
    ok(true, t, vec![bad.0])
}

// ------------------------------------------------------------------------ C12

fn c12_bytes(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let o = gen::Opts { max_stmts: 8, ..Default::default() };
    let mut p: Vec<St> = gen::program(src, &o);
    let n = 1 + src.usize(3);
    let mut files = vec![];
    let mut total = 0;
    for k in 0..n {
        let mut d = bytes_data(src);
        if src.chance(1, 8) {
            // up to the end of the address space and beyond
            let extra = *src.pick(&[65535usize, 65536, 65537, 70000, 131073]);
            d = (0..extra).map(|i| (i * 7 % 251) as u8 ^ d.first().copied().unwrap_or(0)).collect();
        }
        total += d.len();
        let name = format!("{}{}.{}", src.pick(&["data", "a b", "ünï", "x.y", "it's", "semi;colon"]), k, src.pick(&["bin", "s", "png", "h", "noext"]));
        let at = src.usize(p.len() + 1);
        let kw = src.pick(&["bytes", "bytes", "BYTES", "Bytes"]).to_string();
        p.insert(at, St::Data(format!(".include {} \"{}\"{}", kw, name, src.pick(&["", " ", " ; c"])), d.clone()));
        files.push((name, d));
    }
    let t = crate::render::fancy(src, &p);
    let w = crate::props::lang::want_of(&reference(&p));
    let mut all = vec![("main.s".to_string(), t.as_bytes().to_vec())];
    all.extend(files);
    let got = assemble(ctx, &all, "main.s")?;
    let rp = repro_files(&all, "waterbear assemble main.s -o out.vms");
    judge(&got, &w, &rp)?;
    let key = format!("{} total {} {:016x}", t, total, hash_bytes(&all.iter().flat_map(|f| f.1.clone()).collect::<Vec<u8>>()));
    ok(w.is_ok() && total > 0, key, vec![if w.is_ok() { "accepted" } else { "must-reject" }])
}

/// every byte value at every alignment, alone
fn c12_byte_sweep(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = src.below(300) as usize;
    let d: Vec<u8> = if i < 256 {
        vec![i as u8]
    } else {
        // lengths
        let n = [0usize, 2, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 100000][i - 256];
        (0..n).map(|k| (k ^ (k >> 8)) as u8).collect()
    };
    let files = vec![("main.s".to_string(), b"  .byte 1\n  .include bytes \"d.bin\"\nend:\n  .byte 2\n  .word end & $FFFF\n".to_vec()), ("d.bin".to_string(), d.clone())];
    let got = assemble(ctx, &files, "main.s")?;
    let mut want = vec![1];
    want.extend(&d);
    let e = want.len();
    want.extend([2, e as u8, (e >> 8) as u8]);
    let rp = repro_files(&files, "waterbear assemble main.s -o out.vms");
    judge(&got, &Ok(want), &rp)?;
    ok(true, format!("{}", i), vec![])
}

fn c12_header(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = 1 + src.usize(2);
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    let mut lines: Vec<String> = vec![];
    let mut body: Vec<(String, i64)> = vec![];
    for k in 0..n {
        let (t, names) = header(src, &format!("H{}_", k));
        let f = format!("h{}.{}", k, src.pick(&["h", "inc", "s"]));
        files.push((f.clone(), t.into_bytes()));
        lines.push(format!(".include {} \"{}\"{}", src.pick(&["cpp", "CPP", "cpp"]), f, src.pick(&["", " ; c", "  "])));
        body.extend(names);
    }
    // uses, in any order, before or after the includes
    let mut uses: Vec<(String, i64)> = body.clone();
    src.shuffle(&mut uses);
    let mut want = vec![];
    let mut out: Vec<String> = vec![];
    let cut = src.usize(uses.len() + 1);
    for (i, (n, v)) in uses.iter().enumerate() {
        if i == cut {
            out.extend(lines.clone());
        }
        let n = if src.chance(1, 4) { n.to_uppercase() } else { n.clone() };
        out.push(format!("  .word {}", n));
        want.extend([*v as u8, (*v >> 8) as u8]);
    }
    if cut == uses.len() {
        out.extend(lines.clone());
    }
    out.push("  .byte \"end\"".into());
    want.extend(b"end");
    let (w, what): (Result<Vec<u8>, String>, &'static str) = match src.below(8) {
        0 => {
            // a name defined twice
            let d = src.pick(&body).0.clone();
            let d = if src.bool() { d.to_lowercase() } else { d };
            match src.below(4) {
                0 => {
                    let i = src.usize(files.len());
                    let mut t = String::from_utf8(files[i].1.clone()).unwrap();
                    t = format!("#define {} 5\n{}", d, t);
                    files[i].1 = t.into_bytes();
                }
                1 => {
                    let at = src.usize(out.len() + 1);
                    out.insert(at, format!("{} = 5", d));
                }
                2 => {
                    let at = src.usize(out.len() + 1);
                    out.insert(at, format!("{}:", d));
                }
                _ => {
                    files.push(("again.h".into(), format!("#define {} 1\n", d).into_bytes()));
                    let at = src.usize(out.len() + 1);
                    out.insert(at, ".include cpp \"again.h\"".into());
                }
            }
            (Err("a name defined twice".into()), "duplicate")
        }
        1 => {
            let i = src.usize(out.len());
            let i = (i..out.len()).chain(0..i).find(|i| out[*i].starts_with(".include")).unwrap();
            let l = out[i].split(';').next().unwrap().to_string();
            out[i] = format!("{} {}", l, src.pick(&["5", "junk", "\"x\"", ", 1", ":"]));
            (Err("junk after the include".into()), "junk")
        }
        2 => {
            let i = src.usize(files.len());
            let bad = src.pick(&["#define", "#define 5 6", "#define ONLY_NAME9", "#define X9 \"str\"", "#define X9 (1", "#define X9 1 2", "#define X9 0xG", "#defined X9 1", "#def X9 1", "#definex X9 1", "##define X9 1", "#undef X9", "#", "# 1", "#define X9 1 /", "#define X9, 1", "#define X9 /* 1 */"]).to_string();
            let t = String::from_utf8(files[i].1.clone()).unwrap();
            files[i].1 = format!("{}\n{}", bad, t).into_bytes();
            (Err("a define line that is not a name and a value".into()), "bad-define")
        }
        _ => (Ok(want), "accepted"),
    };
    let t = format!("{}\n", out.join("\n"));
    let mut all = vec![("main.s".to_string(), t.into_bytes())];
    all.extend(files);
    let got = assemble(ctx, &all, "main.s")?;
    let rp = repro_files(&all, "waterbear assemble main.s -o out.vms");
    judge(&got, &w, &rp)?;
    ok(true, rp, vec![what])
}

/// A source, an included file or a header that is not UTF-8 text must be refused, not repaired.
fn c12_not_text(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    const BAD: &[(&[u8], &str)] = &[
        (b"\xc3", "lead-byte"),
        (b"\xe6\x97", "cut-3"),
        (b"\xe6", "cut-3"),
        (b"\xf0\x9f\x98", "cut-4"),
        (b"\xf0\x9f", "cut-4"),
        (b"\xf0", "cut-4"),
        (b"\x80", "continuation"),
        (b"\xbf\xbf", "continuation"),
        (b"\xff", "never"),
        (b"\xfe", "never"),
        (b"\xe9", "latin-1"),
        (b"\xc0\x80", "overlong"),
        (b"\xc1\xbf", "overlong"),
        (b"\xe0\x80\xaf", "overlong"),
        (b"\xed\xa0\x80", "surrogate"),
        (b"\xed\xbf\xbf", "surrogate"),
        (b"\xf4\x90\x80\x80", "above"),
        (b"\xf5\x80\x80\x80", "above"),
    ];
    let o = gen::Opts { max_stmts: 5, far_orgs: false, ..Default::default() };
    let p = gen::program(src, &o);
    let t = crate::render::plain(&p);
    let nl = if src.chance(1, 5) { "\r\n" } else { "\n" };
    let mut names: Vec<(String, String)> = vec![("main.s".into(), t)];
    let inc = src.below(3);
    if inc > 0 {
        names[0].1.push_str("  .include \"sub/inc.s\"\n");
        names.push(("sub/inc.s".into(), "  .byte 1, 2\n".into()));
    }
    if inc > 1 {
        names[1].1.push_str("  .include \"deep.i\"\n");
        names.push(("sub/deep.i".into(), "  nop\n".into()));
    }
    if src.bool() {
        names[0].1.push_str("  .include cpp \"h.h\"\n");
        names.push(("h.h".into(), "#define NOTTEXT1 5\n".into()));
    }
    let at = src.usize(names.len());
    let header = names[at].0.ends_with(".h");
    let (bad, kind) = *src.pick(BAD);
    // where: in a comment or in a string; before, among or after the other lines
    let tail = src.pick(&["", "", "x", " ", " é", "日"]).to_string();
    let in_string = !header && src.bool();
    let mut lines: Vec<String> = names[at].1.lines().map(|s| s.to_string()).collect();
    let k = match src.below(3) {
        0 => 0,
        1 => src.usize(lines.len() + 1),
        _ => lines.len(),
    };
    // a cut sequence must not be completed by what follows
    let line = if in_string {
        format!("  .byte \"{}\u{1}{}\"", src.pick(&["", "a", "é"]), tail)
    } else if header {
        format!("// {}\u{1}{}", src.pick(&["", "a", "é"]), tail)
    } else {
        format!("{}; {}\u{1}{}", src.pick(&["", "  ", "  nop "]), src.pick(&["", "a", "é"]), tail)
    };
    lines.insert(k, line);
    let mut text = lines.join(nl);
    let at_end = k + 1 == lines.len() && src.bool();
    if !at_end {
        text.push_str(nl);
    }
    let good: Vec<(String, Vec<u8>)> = names
        .iter()
        .enumerate()
        .map(|(i, f)| (f.0.clone(), if i == at { text.replace('\u{1}', "ü").into_bytes() } else { f.1.clone().into_bytes() }))
        .collect();
    let rp = repro_files(&good, "waterbear assemble main.s -o out.vms");
    match assemble(ctx, &good, "main.s")? {
        Asm::Ok(_) => {}
        // the bytes of the string moved a branch out of reach, say
        Asm::Rejected(_) => return ok(false, rp, vec!["rejected-anyway"]),
        Asm::Broken(e) => return fail(format!("a program with a non-ASCII letter in a comment or string: {}", e), rp),
    }
    let mut raw: Vec<u8> = vec![];
    for (i, part) in text.split('\u{1}').enumerate() {
        if i > 0 {
            raw.extend(bad);
        }
        raw.extend(part.as_bytes());
    }
    assert!(std::str::from_utf8(&raw).is_err());
    let mut broken = good.clone();
    broken[at].1 = raw;
    let rp = repro_files(&broken, "waterbear assemble main.s -o out.vms");
    let got = assemble(ctx, &broken, "main.s")?;
    judge(&got, &Err(format!("{} holds bytes that are not UTF-8 text ({})", broken[at].0, kind)), &rp)?;
    let r = ctx.wb(&["expand", "main.s"])?;
    if !r.rejected() || r.err.trim().is_empty() {
        return fail(format!("expand of a program whose {} is not UTF-8 text ({}): {}", broken[at].0, kind, r.how()), rp);
    }
    ok(true, rp, vec![kind, if at_end { "at-the-end" } else { "inside" }])
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C09",
            rule: "random programs with and without macros; (1) two independent random renderings (spacing, case, radix, digit separators, parentheses, comments, blank lines, line ends, = / EQU, labels on their own line, raw or escaped control characters in strings) must agree with each other and the reference; (2) a rendering and a line-level rewriting of it (comment and blank lines, indentation, trailing comments, LF/CRLF, missing last line end); large: white space, comments, empty lines, leading zeros, names of up to 70,000 characters or lines. Non-trivial: accepted and the two texts differ.",
            families: vec![
                Family { name: "renderings", run: c09, quick: 3500, thorough: 40000, sweep: None },
                Family { name: "lines", run: c09_lines, quick: 3500, thorough: 40000, sweep: None },
                Family { name: "large", run: super::large::c09, quick: 400, thorough: 4000, sweep: None },
            ],
            assumptions: &[],
        },
        Property {
            id: "C10",
            rule: "random programs with macros, data, strings and up to two included files of every kind: expand's output is assembled in another directory and compared with the reference; programs with one macro or syntax error of 20 kinds must make expand fail; large: programs of up to 3500 statements. Non-trivial: the program assembles (round trip) or the error was planted.",
            families: vec![
                Family { name: "round-trip", run: c10, quick: 7000, thorough: 50000, sweep: None },
                Family { name: "errors", run: c10_reject, quick: 1500, thorough: 10000, sweep: None },
                Family { name: "large", run: super::large::c10, quick: 200, thorough: 2000, sweep: None },
            ],
            assumptions: &["for a program whose error shows only when bytes are generated, expand may succeed; its output must then be rejected by assemble"],
        },
        Property {
            id: "C11",
            rule: "random programs split at line boundaries into a random tree of files (depth up to 5, six directories, relative, ./, ../, through-directory and absolute spellings, with or without the asm keyword, mixed line ends, missing last line end, files included in several places, nested bytes/cpp/icon/sprite resources), assembled from a random directory with decoy files of the same names there, or with some paths that hold only from that directory (perhaps a directory of that name next to the source); then one missing or recursive include planted somewhere in the tree; large: chains of up to 195 includes (in one directory or ever deeper ones), up to 320 included files, one file up to 1000 times, perhaps a missing file at the far end. Non-trivial: accepted and at least two source files.",
            families: vec![
                Family { name: "trees", run: c11, quick: 7000, thorough: 40000, sweep: None },
                Family { name: "large", run: super::large::c11, quick: 300, thorough: 3000, sweep: None },
            ],
            assumptions: &[],
        },
        Property {
            id: "C12",
            rule: "bytes includes: random programs with up to three files of random content (empty, all values, text that looks like source, up to 131 KB), every single byte value and 44 lengths; C headers of define lines in every literal form, comments and blank lines, uses of each constant before and after, duplicates, junk and malformed define lines; a program with one byte sequence that is not UTF-8 (18 kinds, in a comment or string, at the end or inside) in its main file, an included file or a header, next to its well-formed twin; large: headers of up to 3000 definitions, some several hundred tokens long. Non-trivial: accepted with some included byte, or any header case.",
            families: vec![
                Family { name: "byte-sweep", run: c12_byte_sweep, quick: 0, thorough: 0, sweep: Some(300) },
                Family { name: "bytes", run: c12_bytes, quick: 4000, thorough: 30000, sweep: None },
                Family { name: "headers", run: c12_header, quick: 8000, thorough: 50000, sweep: None },
                Family { name: "not-text", run: c12_not_text, quick: 1500, thorough: 10000, sweep: None },
                Family { name: "large", run: super::large::c12, quick: 300, thorough: 3000, sweep: None },
            ],
            assumptions: &[],
        },
    ]
}
