//! C07, C08: macros. The oracle is an independent inliner over the model's statements
//! followed by the reference assembler.
use crate::engine::*;
use crate::gen;
use crate::model::*;
use crate::props::lang::{judge, want_of};
use crate::render::R;
use crate::tool::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ty {
    /// an expression 0..255
    V,
    /// a whole immediate operand
    I,
    /// an indirection operand
    Rr,
    /// an address
    L,
}

#[derive(Clone, Debug)]
pub enum MS {
    Label(String),
    HLabel(String),
    Instr(String, Vec<Op>),
    Call(String, Vec<Op>),
    Raw(String),
}

#[derive(Clone, Debug)]
pub struct Mac {
    pub name: String,
    pub params: Vec<(String, Ty)>,
    pub body: Vec<MS>,
}

#[derive(Clone, Debug)]
pub enum Top {
    St(St),
    Call(String, Vec<Op>),
    Def(usize),
}

#[derive(Clone, Debug)]
pub struct Prog {
    pub macs: Vec<Mac>,
    pub tops: Vec<Top>,
}

// ------------------------------------------------------------------- inliner

struct Scope<'a> {
    args: Vec<(String, Op)>,
    labels: Vec<(String, String)>,
    _p: std::marker::PhantomData<&'a ()>,
}

fn sub_e(e: &E, sc: &Scope) -> Result<E, String> {
    Ok(match e {
        E::MArg(n) => match sc.args.iter().find(|a| a.0.eq_ignore_ascii_case(n)) {
            Some((_, Op::Dir(e))) => e.clone(),
            Some(_) => return Err(format!("parameter {} is not an expression", n)),
            None => return Err(format!("unknown parameter {}", n)),
        },
        E::HLab(n) => match sc.labels.iter().find(|a| a.0.eq_ignore_ascii_case(n)) {
            Some((_, u)) => E::Sym(u.clone()),
            None => return Err(format!("no hygienic label {}", n)),
        },
        E::Un(o, a) => un(*o, sub_e(a, sc)?),
        E::Bin(o, a, b) => bin(*o, sub_e(a, sc)?, sub_e(b, sc)?),
        e => e.clone(),
    })
}

fn sub_op(o: &Op, sc: &Scope) -> Result<Op, String> {
    Ok(match o {
        Op::Par(n) | Op::Dir(E::MArg(n)) => match sc.args.iter().find(|a| a.0.eq_ignore_ascii_case(n)) {
            Some((_, op)) => op.clone(),
            None => return Err(format!("unknown parameter {}", n)),
        },
        Op::Dir(e) => Op::Dir(sub_e(e, sc)?),
        Op::Imm(e) => Op::Imm(sub_e(e, sc)?),
        Op::Ind(r) => Op::Ind(*r),
    })
}

fn inline_call(p: &Prog, name: &str, args: &[Op], ctr: &mut usize, stack: &mut Vec<usize>, out: &mut Vec<St>) -> Result<(), String> {
    let mi = p
        .macs
        .iter()
        .position(|m| m.name.eq_ignore_ascii_case(name) && m.params.len() == args.len())
        .ok_or_else(|| format!("no macro {}/{}", name, args.len()))?;
    if stack.contains(&mi) {
        return Err(format!("recursive macro {}", name));
    }
    stack.push(mi);
    let m = &p.macs[mi];
    let mut sc = Scope { args: vec![], labels: vec![], _p: std::marker::PhantomData };
    for ((n, _), a) in m.params.iter().zip(args) {
        sc.args.push((n.clone(), a.clone()));
    }
    for s in &m.body {
        if let MS::HLabel(l) = s {
            if sc.labels.iter().any(|x| x.0.eq_ignore_ascii_case(l)) {
                return Err(format!("hygienic label {} twice", l));
            }
            *ctr += 1;
            sc.labels.push((l.clone(), format!("{}__hyg{}", l, ctr)));
        }
    }
    for s in &m.body {
        match s {
            MS::Label(l) => out.push(St::Label(l.clone())),
            MS::HLabel(l) => {
                let u = &sc.labels.iter().find(|x| x.0.eq_ignore_ascii_case(l)).unwrap().1;
                out.push(St::Label(u.clone()));
            }
            MS::Instr(n, ops) => {
                let ops: Result<Vec<Op>, String> = ops.iter().map(|o| sub_op(o, &sc)).collect();
                out.push(St::Instr(n.clone(), ops?));
            }
            MS::Call(n, ops) => {
                let ops: Result<Vec<Op>, String> = ops.iter().map(|o| sub_op(o, &sc)).collect();
                inline_call(p, n, &ops?, ctr, stack, out)?;
            }
            MS::Raw(_) => {}
        }
        if out.len() > 30000 {
            return Err("too large".into());
        }
    }
    stack.pop();
    Ok(())
}

pub fn inline(p: &Prog) -> Result<Vec<St>, String> {
    let mut out = vec![];
    let mut ctr = 0;
    for t in &p.tops {
        match t {
            Top::St(s) => out.push(s.clone()),
            Top::Call(n, a) => inline_call(p, n, a, &mut ctr, &mut vec![], &mut out)?,
            Top::Def(_) => {}
        }
    }
    Ok(out)
}

pub fn want(p: &Prog) -> Result<Vec<u8>, String> {
    let sts = inline(p)?;
    want_of(&reference(&sts))
}

// ----------------------------------------------------------------- rendering

fn args_text(r: &mut R, ops: &[Op]) -> String {
    let v: Vec<String> = ops.iter().map(|o| r.op(o)).collect();
    v.join(if r.coin(1, 4) { "," } else { ", " })
}

fn call_text(r: &mut R, n: &str, ops: &[Op]) -> String {
    let w = r.word(n);
    if ops.is_empty() {
        w
    } else {
        let a = args_text(r, ops);
        let s = r.ws1();
        format!("{}{}{}", w, s, a)
    }
}

pub fn def_lines(r: &mut R, m: &Mac) {
    let kw = r.word("%macro");
    let n = r.word(&m.name);
    let ps: Vec<String> = m
        .params
        .iter()
        .map(|p| {
            let w = r.word(&p.0);
            format!("%{}", w)
        })
        .collect();
    let sp = r.ws1();
    let l = if ps.is_empty() { format!("{}{}{}", kw, sp, n) } else { format!("{}{}{} {}", kw, sp, n, ps.join(", ")) };
    r.line(l);
    for s in &m.body {
        let t = match s {
            MS::Label(l) => {
                let w = r.word(l);
                format!("{}:", w)
            }
            MS::HLabel(l) => {
                let w = r.word(l);
                if l.starts_with('.') && r.coin(1, 2) {
                    format!("{}%", w)
                } else {
                    format!("{}%:", w)
                }
            }
            MS::Instr(n, ops) => {
                let t = r.instr(n, ops);
                format!("  {}", t)
            }
            MS::Call(n, ops) => {
                let t = call_text(r, n, ops);
                format!("  {}", t)
            }
            MS::Raw(t) => t.clone(),
        };
        r.line(t);
    }
    let e = r.word("%end");
    r.line(e);
}

pub fn render_into(r: &mut R, p: &Prog) {
    for t in &p.tops {
        match t {
            Top::St(s) => {
                r.stmts(std::slice::from_ref(s));
            }
            Top::Call(n, a) => {
                let t = call_text(r, n, a);
                r.line(format!("  {}", t));
            }
            Top::Def(i) => {
                let m = p.macs[*i].clone();
                def_lines(r, &m);
            }
        }
    }
}

pub fn text(src: &mut Src, p: &Prog) -> String {
    let mut r = R::fancy(src);
    render_into(&mut r, p);
    r.text()
}

// ---------------------------------------------------------------- generation

struct G {
    globals: Vec<String>,
    consts: Vec<(String, i64)>,
}

fn val_expr(src: &mut Src, g: &G, params: &[(String, Ty)], depth: u32) -> E {
    // an expression of small non-negative value
    let vs: Vec<&String> = params.iter().filter(|p| p.1 == Ty::V).map(|p| &p.0).collect();
    match src.below(9) {
        0 | 1 if !vs.is_empty() => E::MArg(src.pick(&vs).to_string()),
        // any operator right between two parameters, brought back into range by `<`, or
        // left to the range check where it cannot leave it
        7 | 8 if !vs.is_empty() => {
            let p = |src: &mut Src| E::MArg(src.pick(&vs).to_string());
            let o = *src.pick(&['+', '-', '*', '/', '&', '|', '^']);
            let (a, b) = (p(src), p(src));
            let a = if src.chance(1, 6) { un(*src.pick(&['-', '<', '>']), a) } else { a };
            let t = bin(o, a, b);
            match src.below(6) {
                0 => t, // may be out of range: then it has to be refused
                1 => un('>', t),
                _ => un('<', t),
            }
        }
        2 if !g.consts.is_empty() => sym(&src.pick(&g.consts).0),
        3 if depth > 0 => bin('&', bin('+', val_expr(src, g, params, depth - 1), val_expr(src, g, params, depth - 1)), num(127)),
        4 if depth > 0 => un('<', bin('-', val_expr(src, g, params, depth - 1), bin('*', val_expr(src, g, params, depth - 1), num(3)))),
        5 if depth > 0 => bin('/', val_expr(src, g, params, depth - 1), num(src.range(1, 4))),
        _ => num(src.range(0, 255)),
    }
}

fn lab_expr(src: &mut Src, g: &G, params: &[(String, Ty)], hyg: &[String]) -> E {
    let ls: Vec<&String> = params.iter().filter(|p| p.1 == Ty::L).map(|p| &p.0).collect();
    match src.below(6) {
        0 | 1 if !hyg.is_empty() => E::HLab(src.pick(hyg).clone()),
        2 | 3 if !ls.is_empty() => E::MArg(src.pick(&ls).to_string()),
        4 if !ls.is_empty() => bin('+', E::MArg(src.pick(&ls).to_string()), num(src.range(0, 3))),
        _ if !g.globals.is_empty() => sym(src.pick(&g.globals)),
        _ => num(src.range(0x100, 0x140)),
    }
}

fn norm(o: Op) -> Op {
    match o {
        Op::Dir(E::MArg(n)) => Op::Par(n),
        o => o,
    }
}

fn operand(src: &mut Src, k: K, g: &G, params: &[(String, Ty)], hyg: &[String]) -> Op {
    let of = |t: Ty| -> Vec<String> { params.iter().filter(|p| p.1 == t).map(|p| p.0.clone()).collect() };
    norm(match k {
        K::I8 => {
            let is = of(Ty::I);
            if !is.is_empty() && src.bool() {
                Op::Par(src.pick(&is).clone())
            } else {
                Op::Imm(val_expr(src, g, params, 2))
            }
        }
        K::Ri => {
            let rs = of(Ty::Rr);
            if !rs.is_empty() && src.chance(3, 4) {
                Op::Par(src.pick(&rs).clone())
            } else {
                Op::Ind(src.below(4) as u8)
            }
        }
        K::D9 => {
            if src.chance(1, 5) {
                Op::Dir(bin('+', val_expr(src, g, params, 1), num(src.range(0, 256))))
            } else {
                Op::Dir(val_expr(src, g, params, 2))
            }
        }
        K::B3 => Op::Dir(bin('&', val_expr(src, g, params, 1), num(7))),
        _ => Op::Dir(lab_expr(src, g, params, hyg)),
    })
}

fn arg(src: &mut Src, t: Ty, g: &G, params: &[(String, Ty)], hyg: &[String]) -> Op {
    match t {
        Ty::V => norm(Op::Dir(val_expr(src, g, params, 2))),
        Ty::I => operand(src, K::I8, g, params, hyg),
        Ty::Rr => operand(src, K::Ri, g, params, hyg),
        Ty::L => norm(Op::Dir(lab_expr(src, g, params, hyg))),
    }
}

pub fn program(src: &mut Src) -> Prog {
    let mut used: Vec<String> = vec![];
    let mut g = G { globals: vec![], consts: vec![] };
    for _ in 0..1 + src.usize(3) {
        g.globals.push(gen::name(src, &mut used, false));
    }
    for _ in 0..src.usize(3) {
        let n = gen::name(src, &mut used, false);
        g.consts.push((n, src.range(0, 255)));
    }
    // signatures first; macro i may call macro j > i
    let n = 1 + src.usize(4);
    let mut macs: Vec<Mac> = vec![];
    for i in 0..n {
        let k = if src.chance(1, 12) { 5 + src.usize(8) } else { src.usize(5) };
        let mut params = vec![];
        for _ in 0..k {
            // parameter names may coincide with globals, constants and each other's
            let mut pn = if src.chance(1, 4) {
                if src.bool() && !g.consts.is_empty() {
                    src.pick(&g.consts).0.clone()
                } else {
                    src.pick(&g.globals).clone()
                }
            } else {
                src.pick(&["a", "b", "op", "addr", "x1", "val", "reg", "ld", "end1", "from", "upto", "length", "source_address"]).to_string()
            };
            while params.iter().any(|p: &(String, Ty)| p.0.eq_ignore_ascii_case(&pn)) || pn.eq_ignore_ascii_case("macro") || pn.eq_ignore_ascii_case("end") || pn.chars().next().unwrap().is_ascii_digit() {
                pn.push('q');
            }
            params.push((pn, *src.pick(&[Ty::V, Ty::I, Ty::Rr, Ty::L, Ty::V])));
        }
        let reuse = if i > 0 && src.chance(1, 3) { Some(macs[src.usize(i)].name.clone()) } else { None };
        let name = match reuse {
            Some(r) if !macs.iter().any(|m: &Mac| m.name == r && m.params.len() == params.len()) => r,
            _ => gen::name(src, &mut used, false),
        };
        macs.push(Mac { name, params, body: vec![] });
    }
    for i in 0..n {
        let params = macs[i].params.clone();
        let mut hyg: Vec<String> = vec![];
        for _ in 0..src.usize(4) {
            let h = match src.below(4) {
                0 => src.pick(&g.globals).clone(),
                1 => src.pick(&["l", "again", "done"]).to_string(),
                _ => src.pick(&[".l", ".skip", ".no_carry", ".x"]).to_string(),
            };
            if !hyg.iter().any(|x| x.eq_ignore_ascii_case(&h)) {
                hyg.push(h);
            }
        }
        // A global hygienic label opens a scope of its own, which hides the local ones
        // from the code on its other side: references across it are rightly refused.
        let scoped = hyg.iter().any(|h| !h.starts_with('.'));
        let refs: Vec<String> = if scoped { hyg.iter().filter(|h| !h.starts_with('.') || src.chance(1, 8)).cloned().collect() } else { hyg.clone() };
        let len = src.usize(6) + hyg.len();
        let mut body = vec![];
        for _ in 0..len {
            if i + 1 < n && src.chance(1, 4) {
                let j = i + 1 + src.usize(n - i - 1);
                let tys: Vec<Ty> = macs[j].params.iter().map(|p| p.1).collect();
                let a = tys.iter().map(|t| arg(src, *t, &g, &params, &refs)).collect();
                body.push(MS::Call(macs[j].name.clone(), a));
            } else {
                let f = src.usize(FORMS.len());
                let ops = FORMS[f].1.iter().map(|k| operand(src, *k, &g, &params, &refs)).collect();
                body.push(MS::Instr(FORMS[f].0.into(), ops));
            }
        }
        for h in hyg {
            let at = src.usize(body.len() + 1);
            body.insert(at, MS::HLabel(h));
        }
        if src.chance(1, 20) {
            let at = src.usize(body.len() + 1);
            body.insert(at, MS::Label(src.pick(&["plain", ".loc"]).to_string()));
        }
        macs[i].body = body;
    }
    // the top level
    let mut tops: Vec<Top> = vec![];
    for gl in g.globals.clone() {
        tops.push(Top::St(St::Label(gl)));
        for _ in 0..src.usize(2) {
            let f = src.usize(FORMS.len());
            let ops = FORMS[f].1.iter().map(|k| operand(src, *k, &g, &[], &[])).collect();
            tops.push(Top::St(St::Instr(FORMS[f].0.into(), ops)));
        }
    }
    let calls = 1 + src.usize(6);
    for _ in 0..calls {
        let j = src.usize(n);
        let tys: Vec<Ty> = macs[j].params.iter().map(|p| p.1).collect();
        let a = tys.iter().map(|t| arg(src, *t, &g, &[], &[])).collect();
        let at = src.usize(tops.len() + 1);
        tops.insert(at, Top::Call(macs[j].name.clone(), a));
    }
    for i in 0..n {
        let at = src.usize(tops.len() + 1);
        tops.insert(at, Top::Def(i));
    }
    for (c, v) in g.consts.iter() {
        let at = src.usize(tops.len() + 1);
        tops.insert(at, Top::St(St::Equ(c.clone(), num(*v))));
    }
    if src.chance(1, 3) {
        tops.insert(0, Top::St(St::Org(*src.pick(&[0x10i64, 0x100, 0xFE0, 0x7FF0]))));
    }
    Prog { macs, tops }
}

fn repro(t: &str) -> String {
    format!("--- file main.s\n{}\n--- command\nwaterbear assemble main.s -o out.vms\n", t)
}

fn depth_of(p: &Prog, m: usize) -> usize {
    p.macs[m]
        .body
        .iter()
        .filter_map(|s| if let MS::Call(n, a) = s { p.macs.iter().position(|x| x.name == *n && x.params.len() == a.len()) } else { None })
        .map(|j| if j > m { 1 + depth_of(p, j) } else { 0 })
        .max()
        .unwrap_or(0)
}

pub fn called_depth(p: &Prog) -> usize {
    p.tops
        .iter()
        .filter_map(|t| if let Top::Call(n, a) = t { p.macs.iter().position(|x| x.name == *n && x.params.len() == a.len()) } else { None })
        .map(|j| 1 + depth_of(p, j))
        .max()
        .unwrap_or(0)
}

fn c07(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let p = program(src);
    let t = text(src, &p);
    let w = want(&p);
    let got = assemble_src(ctx, &t)?;
    let mut rp = repro(&t);
    let mut labels = vec![];
    if let Ok(sts) = inline(&p) {
        let flat = crate::render::plain(&sts);
        rp.push_str(&format!("--- hand-inlined equivalent\n{}\n", flat));
        judge(&got, &w, &rp)?;
        if src.chance(1, 4) {
            let g2 = assemble_src(ctx, &flat)?;
            judge(&g2, &w, &rp)?;
            labels.push("flat-assembled-too");
        }
    } else {
        judge(&got, &w, &rp)?;
    }
    labels.push(if w.is_ok() { "accepted" } else { "must-reject" });
    let d = called_depth(&p);
    labels.push(match d {
        0 | 1 => "depth-1",
        2 => "depth-2",
        _ => "depth-3+",
    });
    ok(w.is_ok() && p.macs.iter().any(|m| !m.params.is_empty()), t, labels)
}

/// Few macros, many calls: every expansion keeps labels of its own.
fn c07_many(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = match src.below(4) {
        0 => src.range(2, 60),
        1 => src.range(60, 600),
        2 => src.range(600, 2000),
        _ => src.range(2000, 5000),
    } as usize;
    let stems = ["l", "l_1", "L", "again", "l__1", "x"];
    let local = src.bool();
    let mut macs = vec![];
    let k = 1 + src.usize(2);
    for i in 0..k {
        let l = format!("{}{}", if local { "." } else { "" }, src.pick(&stems));
        let back = src.bool();
        let mut body = vec![MS::HLabel(l.clone())];
        let br = match src.below(3) {
            0 => MS::Instr("dbnz".into(), vec![Op::Par("p".into()), Op::Dir(E::HLab(l.clone()))]),
            1 => MS::Instr("br".into(), vec![Op::Dir(E::HLab(l.clone()))]),
            _ => MS::Instr("jmpf".into(), vec![Op::Dir(bin('+', E::HLab(l.clone()), E::MArg("p".into())))]),
        };
        body.insert(if back { 1 } else { 0 }, br);
        macs.push(Mac { name: format!("mac{}", i), params: vec![("p".into(), Ty::V)], body });
    }
    if src.bool() {
        // through another macro
        let body = (0..1 + src.usize(2)).map(|_| MS::Call(format!("mac{}", src.usize(k)), vec![Op::Par("p".into())])).collect();
        macs.push(Mac { name: "outer".into(), params: vec![("p".into(), Ty::V)], body });
    }
    let mut tops: Vec<Top> = (0..macs.len()).map(Top::Def).collect();
    for l in ["l", "l_2", "l_1_2", "x0"] {
        if src.chance(1, 3) {
            let l = if local { format!(".{}", l) } else { l.to_string() };
            tops.push(Top::St(St::Label(l)));
        }
    }
    for i in 0..n {
        let m = &macs[i % macs.len()];
        tops.push(Top::Call(m.name.clone(), vec![Op::Dir(num((i % 256) as i64))]));
    }
    let p = Prog { macs, tops };
    let mut r = R::plain();
    render_into(&mut r, &p);
    let t = r.text();
    let got = assemble_src(ctx, &t)?;
    let w = want(&p);
    judge(&got, &w, &repro(&t))?;
    ok(w.is_ok(), t, vec![if w.is_ok() { "accepted" } else { "must-reject" }, if n >= 600 { "600+ calls" } else { "under 600 calls" }])
}

/// A chain of macros, each handing its parameters on.
fn c07_chain(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let depth = src.range(2, 60) as usize;
    let k = 1 + src.usize(3);
    let mut order: Vec<usize> = (0..k).collect();
    let mut macs = vec![];
    let same_name = src.chance(1, 3); // told apart by the number of parameters only
    for i in 0..depth {
        let extra = if same_name { i } else { src.usize(2) };
        let params: Vec<(String, Ty)> = (0..k).map(|j| (format!("p{}", j), Ty::V)).chain((0..extra).map(|j| (format!("e{}", j), Ty::V))).collect();
        macs.push(Mac { name: if same_name { "chain".into() } else { format!("chain{}", i) }, params, body: vec![] });
    }
    for i in 0..depth {
        if src.chance(1, 3) && k > 1 {
            let a = src.usize(k);
            order.swap(0, a);
        }
        let mut body = vec![];
        if src.chance(1, 2) {
            body.push(MS::HLabel("l".into()));
            body.push(MS::Instr("jmpf".into(), vec![Op::Dir(E::HLab("l".into()))]));
        }
        if i + 1 < depth {
            let next = &macs[i + 1];
            let mut a: Vec<Op> = order
                .iter()
                .map(|j| {
                    let e = E::MArg(format!("p{}", j));
                    match src.below(6) {
                        0 => Op::Dir(bin('^', e, num(src.range(0, 255)))),
                        1 => Op::Dir(un('<', bin('+', e, num(1)))),
                        _ => Op::Par(format!("p{}", j)),
                    }
                })
                .collect();
            while a.len() < next.params.len() {
                a.push(Op::Dir(num(a.len() as i64)));
            }
            body.push(MS::Call(next.name.clone(), a));
        } else {
            for j in 0..k {
                body.push(MS::Instr("add".into(), vec![Op::Imm(E::MArg(format!("p{}", j)))]));
            }
        }
        if src.chance(1, 4) {
            body.push(MS::Instr("ld".into(), vec![Op::Par(format!("p{}", src.usize(k)))]));
        }
        macs[i].body = body;
    }
    let mut tops: Vec<Top> = (0..depth).map(Top::Def).collect();
    if src.bool() {
        tops.reverse();
    }
    let first = &macs[0];
    let a: Vec<Op> = first.params.iter().map(|_| Op::Dir(num(src.range(0, 255)))).collect();
    let at = src.usize(tops.len() + 1);
    tops.insert(at, Top::Call(first.name.clone(), a.clone()));
    tops.push(Top::Call(first.name.clone(), a));
    let p = Prog { macs, tops };
    let t = text(src, &p);
    let got = assemble_src(ctx, &t)?;
    let w = want(&p);
    judge(&got, &w, &repro(&t))?;
    ok(w.is_ok(), t, vec![if w.is_ok() { "accepted" } else { "must-reject" }, if depth > 20 { "depth 21..60" } else { "depth 2..20" }])
}

// ------------------------------------------------------------------------ C08

/// A macro that is certainly called from the top level, possibly through others.
fn reached(p: &Prog) -> Vec<usize> {
    let mut r: Vec<usize> = vec![];
    let find = |n: &String, a: &Vec<Op>| p.macs.iter().position(|x| x.name.eq_ignore_ascii_case(n) && x.params.len() == a.len());
    let mut todo: Vec<usize> = p.tops.iter().filter_map(|t| if let Top::Call(n, a) = t { find(n, a) } else { None }).collect();
    while let Some(m) = todo.pop() {
        if r.contains(&m) {
            continue;
        }
        r.push(m);
        for s in &p.macs[m].body {
            if let MS::Call(n, a) = s {
                if let Some(j) = find(n, a) {
                    todo.push(j);
                }
            }
        }
    }
    r
}

fn c08(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let base = program(src);
    let mut p = base.clone();
    let rm = reached(&p);
    let m = *src.pick(&rm);
    let at = src.usize(p.macs[m].body.len() + 1);
    let tat = src.usize(p.tops.len() + 1);
    let kind = src.below(28);
    let mut extra: Option<(usize, String)> = None; // raw text line inserted among the tops
    let mut drop_end = false;
    let what: &'static str = match kind {
        0 => {
            p.tops.insert(tat, Top::Call("no_such_macro".into(), vec![Op::Dir(num(1)); src.usize(3)]));
            "undefined-macro-at-top"
        }
        1 => {
            p.macs[m].body.insert(at, MS::Call("no_such_macro".into(), vec![Op::Dir(num(1)); src.usize(3)]));
            "undefined-macro-in-macro"
        }
        2 | 3 => {
            let n = p.macs[m].name.clone();
            let have: Vec<usize> = p.macs.iter().filter(|x| x.name == n).map(|x| x.params.len()).collect();
            let mut k = src.usize(6);
            while have.contains(&k) {
                k += 1;
            }
            let a = vec![Op::Dir(num(1)); k];
            if kind == 2 {
                p.tops.insert(tat, Top::Call(n, a));
                "wrong-arity-at-top"
            } else {
                p.macs[m].body.insert(at, MS::Call(n, a));
                "wrong-arity-in-macro"
            }
        }
        4 => {
            let mut d = p.macs[src.usize(base.macs.len())].clone();
            if src.bool() {
                d.name = d.name.to_uppercase();
            }
            for (i, q) in d.params.iter_mut().enumerate() {
                q.0 = format!("{}{}", q.0, i);
            }
            d.body = vec![MS::Instr("nop".into(), vec![])];
            p.macs.push(d);
            p.tops.insert(tat, Top::Def(p.macs.len() - 1));
            "second-definition"
        }
        5 => {
            let q = src.pick(&["x", "Op"]).to_string();
            let q2 = if src.bool() { q.to_lowercase() } else { q.clone() };
            let mut ps = vec![(q, Ty::V), (q2, Ty::V)];
            if src.bool() {
                ps.insert(src.usize(3), ("other".into(), Ty::V));
            }
            p.macs.push(Mac { name: "dup_par".into(), params: ps, body: vec![MS::Instr("nop".into(), vec![])] });
            p.tops.insert(tat, Top::Def(p.macs.len() - 1));
            "repeated-parameter"
        }
        6 => {
            let f = src.usize(FORMS.len());
            let k = if src.chance(1, 4) { 5 + src.usize(20) } else { src.usize(5) };
            let n = if src.bool() { FORMS[f].0.to_string() } else { FORMS[f].0.to_uppercase() };
            p.macs.push(Mac { name: n, params: (0..k).map(|i| (format!("p{}", i), Ty::V)).collect(), body: vec![] });
            p.tops.insert(tat, Top::Def(p.macs.len() - 1));
            "named-like-an-instruction"
        }
        7 => {
            let o = match src.below(3) {
                0 => Op::Par("no_par".into()),
                1 => Op::Dir(bin('+', E::MArg("no_par".into()), num(1))),
                _ => Op::Dir(bin('*', num(2), E::MArg("no_par".into()))),
            };
            p.macs[m].body.insert(at, MS::Instr("ld".into(), vec![o]));
            "unknown-parameter"
        }
        8 => {
            extra = Some((tat, src.pick(&["top%:", ".top%", "top%: nop", ".top%: nop"]).to_string()));
            "hygienic-label-outside"
        }
        9 => {
            extra = Some((tat, src.pick(&["  jmp l%", "  .word l%", "  br .l%+1", "zc = l%", "  .byte <l%"]).to_string()));
            "hygienic-reference-outside"
        }
        10 => {
            extra = Some((tat, src.pick(&["  ld %a", "  .byte 1, %a", "  add #%op", "zc = %a", "  .word 3 * %a"]).to_string()));
            "parameter-outside"
        }
        11 => {
            let body = match src.below(4) {
                0 => vec![],
                1 => vec![MS::HLabel("l".into())],
                _ => vec![MS::Instr("nop".into(), vec![])],
            };
            p.macs.push(Mac { name: "unended".into(), params: (0..src.usize(4)).map(|i| (format!("p{}", i), Ty::V)).collect(), body });
            p.tops.push(Top::Def(p.macs.len() - 1));
            drop_end = true;
            "missing-end"
        }
        12 => {
            let n = p.macs[m].name.clone();
            let a: Vec<Op> = p.macs[m].params.iter().map(|q| Op::Par(q.0.clone())).collect();
            p.macs[m].body.insert(at, MS::Call(n, a));
            "self-call"
        }
        13 => {
            let n = p.macs[m].name.clone();
            let a: Vec<Op> = p.macs[m].params.iter().map(|q| Op::Par(q.0.clone())).collect();
            p.macs[m].body.insert(at, MS::Call("helper9".into(), a.clone()));
            let body = vec![MS::Call(n, a)];
            let params = p.macs[m].params.clone();
            p.macs.push(Mac { name: "helper9".into(), params, body });
            p.tops.insert(tat, Top::Def(p.macs.len() - 1));
            "mutual-calls"
        }
        14 => {
            p.macs.push(Mac {
                name: "dup_lab".into(),
                params: vec![],
                body: vec![MS::HLabel("dl".into()), MS::Instr("nop".into(), vec![]), MS::HLabel(if src.bool() { "dl".into() } else { "DL".into() })],
            });
            p.tops.insert(tat, Top::Def(p.macs.len() - 1));
            p.tops.push(Top::Call("dup_lab".into(), vec![]));
            "hygienic-label-twice"
        }
        15 => {
            // the callee names its caller's parameter
            p.macs.push(Mac { name: "inner9".into(), params: vec![], body: vec![MS::Instr("ld".into(), vec![if src.bool() { Op::Par("outer_par".into()) } else { Op::Dir(bin('+', E::MArg("outer_par".into()), num(0))) }])] });
            p.tops.insert(tat, Top::Def(p.macs.len() - 1));
            p.macs.push(Mac { name: "outer9".into(), params: vec![("outer_par".into(), Ty::V)], body: vec![MS::Call("inner9".into(), vec![])] });
            p.tops.push(Top::Def(p.macs.len() - 1));
            p.tops.push(Top::Call("outer9".into(), vec![Op::Dir(num(5))]));
            "caller's-parameter-in-callee"
        }
        16 => {
            let inner = vec![MS::Instr("jmpf".into(), vec![Op::Dir(E::HLab("outer_lab".into()))])];
            p.macs.push(Mac { name: "inner9".into(), params: vec![], body: inner });
            p.tops.insert(tat, Top::Def(p.macs.len() - 1));
            p.macs.push(Mac { name: "outer9".into(), params: vec![], body: vec![MS::HLabel("outer_lab".into()), MS::Call("inner9".into(), vec![])] });
            p.tops.push(Top::Def(p.macs.len() - 1));
            p.tops.push(Top::Call("outer9".into(), vec![]));
            "caller's-label-in-callee"
        }
        17 => {
            p.macs.push(Mac { name: "lab9".into(), params: vec![], body: vec![MS::HLabel("hidden_lab".into()), MS::Instr("nop".into(), vec![])] });
            p.tops.insert(tat, Top::Def(p.macs.len() - 1));
            p.tops.push(Top::Call("lab9".into(), vec![]));
            p.tops.push(Top::St(St::Instr("jmpf".into(), vec![Op::Dir(sym("hidden_lab"))])));
            "hygienic-label-by-plain-name"
        }
        18 => {
            // an operand that is not a value inside an expression
            let o = if src.bool() { Op::Imm(num(3)) } else { Op::Ind(1) };
            let place = match src.below(4) {
                0 => Op::Imm(E::MArg("q".into())),
                1 => Op::Dir(bin('+', E::MArg("q".into()), num(1))),
                2 => Op::Dir(un('<', E::MArg("q".into()))),
                _ => Op::Imm(bin('&', num(7), E::MArg("q".into()))),
            };
            let mn = if matches!(place, Op::Imm(_)) { "add" } else { "ld" };
            p.macs.push(Mac { name: "mac_q".into(), params: vec![("q".into(), Ty::V)], body: vec![MS::Instr(mn.into(), vec![place])] });
            p.tops.insert(tat, Top::Def(p.macs.len() - 1));
            p.tops.push(Top::Call("mac_q".into(), vec![o]));
            "non-value-argument-in-expression"
        }
        19 => {
            // a documented mnemonic with operands of the wrong kind after substitution
            p.macs.push(Mac { name: "mac_q".into(), params: vec![("q".into(), Ty::I)], body: vec![MS::Instr("st".into(), vec![Op::Par("q".into())])] });
            p.tops.insert(tat, Top::Def(p.macs.len() - 1));
            p.tops.push(Top::Call("mac_q".into(), vec![Op::Imm(num(3))]));
            "wrong-operand-kind-after-substitution"
        }
        20 => {
            // value out of range only after substitution
            p.macs.push(Mac { name: "mac_q".into(), params: vec![("q".into(), Ty::V)], body: vec![MS::Instr("add".into(), vec![Op::Imm(bin('*', E::MArg("q".into()), num(2)))])] });
            p.tops.insert(tat, Top::Def(p.macs.len() - 1));
            p.tops.push(Top::Call("mac_q".into(), vec![Op::Dir(bin('+', num(100), num(28)))]));
            "out-of-range-after-substitution"
        }
        21 => {
            // a definition whose own lines are not well-formed
            let t = src.pick(&[
                "%macro j9 %a\n  nop\n%end j9",
                "%macro j9\n  nop\n%end %macro",
                "%macro j9\n  nop\n%end nop",
                "%macro j9 %a %b\n  nop\n%end",
                "%macro j9 %a,\n  nop\n%end",
                "%macro j9 ,%a\n  nop\n%end",
                "%macro j9 %a,,%b\n  nop\n%end",
                "%macro j9 a\n  nop\n%end",
                "%macro j9 #%a\n  nop\n%end",
                "%macro j9 %a, 3\n  nop\n%end",
                "%macro %a\n  nop\n%end",
                "%macro\n  nop\n%end",
                "%macro 9j\n  nop\n%end",
                "%macro j9: %a\n  nop\n%end",
                "%macro j9 k9 %a\n  nop\n%end",
            ]);
            extra = Some((tat, t.to_string()));
            "malformed-definition"
        }
        22 => {
            let t = src.pick(&["%end", "  %end", "%END", "%end ; nothing to end", "nop\n%end", "%macro j9\n  nop\n%end\n%end"]);
            extra = Some((tat, t.to_string()));
            "end-without-macro"
        }
        23 => {
            let t = src.pick(&[
                "%macro j9\n  nop\n%macro j8\n  nop\n%end\n%end",
                "%macro j9 %a\n%macro j8 %a\n  ld %a\n%end\n  ld %a\n%end",
                "%macro j9\n%macro j8\n%end",
            ]);
            extra = Some((tat, t.to_string()));
            "definition-in-a-definition"
        }
        25 | 26 => {
            // an argument that names a hygienic label of the macro called
            let l = src.pick(&["own_lab", "Loop", ".dot"]).to_string();
            let written = if src.bool() { l.to_lowercase() } else { l.clone() };
            let a = match src.below(4) {
                0 | 1 => E::HLab(written),
                2 => bin('+', E::HLab(written), num(src.range(0, 3))),
                _ => un('<', E::HLab(written)),
            };
            let used = match src.below(5) {
                0 => Op::Par("q".into()),
                1 => Op::Dir(bin('+', E::MArg("q".into()), num(1))),
                2 => Op::Dir(bin('-', E::MArg("q".into()), num(0))),
                3 => Op::Dir(bin('*', num(1), E::MArg("q".into()))),
                _ => Op::Dir(bin('+', E::HLab(l.clone()), bin('-', E::MArg("q".into()), E::MArg("q".into())))),
            };
            let mut body = vec![MS::HLabel(l), MS::Instr("jmpf".into(), vec![used])];
            if src.bool() {
                body.swap(0, 1);
            }
            p.macs.push(Mac { name: "takes9".into(), params: vec![("q".into(), Ty::V)], body });
            p.tops.insert(tat, Top::Def(p.macs.len() - 1));
            let call = vec![Op::Dir(a)];
            if src.bool() {
                p.tops.push(Top::Call("takes9".into(), call));
            } else {
                // handed on by a macro that has no such label
                p.macs.push(Mac { name: "gives9".into(), params: vec![], body: vec![MS::HLabel("another".into()), MS::Call("takes9".into(), call)] });
                p.tops.push(Top::Def(p.macs.len() - 1));
                p.tops.push(Top::Call("gives9".into(), vec![]));
            }
            "callee's-label-in-argument"
        }
        24 => {
            // calls that are not well-formed: a macro of every arity up to 3 is there
            let c = src.pick(&["m9 1,", "m9 1,,2", "m9 ,1", "m9 1 2", "m9 (1", "m9 1)", "m9 1, 2; 3,\n  3", "m9 %", "m9 #", "m9 @R4", "m9 @", "m9 1, #", "m9 \"a\"", "m9 1 nop", "m9: 1", "m9 = 1, 2"]);
            let place = src.bool();
            let defs = "%macro m9\n  nop\n%end\n%macro m9 %a\n  nop\n%end\n%macro m9 %a, %b\n  nop\n%end\n%macro m9 %a, %b, %c\n  nop\n%end";
            let t = if place { format!("{}\n  {}", defs, c) } else { format!("{}\n%macro user9\n  {}\n%end\n  user9", defs, c) };
            extra = Some((tat, t));
            "malformed-call"
        }
        _ => {
            // a non-hygienic label in a macro called twice
            p.macs.push(Mac { name: "twice9".into(), params: vec![], body: vec![MS::Label("fixed_lab".into())] });
            p.tops.insert(tat, Top::Def(p.macs.len() - 1));
            p.tops.push(Top::Call("twice9".into(), vec![]));
            p.tops.push(Top::Call("twice9".into(), vec![]));
            "plain-label-twice"
        }
    };
    let mut r = R::fancy(src);
    if let Some((i, t)) = &extra {
        let a = Prog { macs: p.macs.clone(), tops: p.tops[..*i].to_vec() };
        let b = Prog { macs: p.macs.clone(), tops: p.tops[*i..].to_vec() };
        render_into(&mut r, &a);
        for l in t.split('\n') {
            r.line(l.to_string());
        }
        render_into(&mut r, &b);
    } else {
        render_into(&mut r, &p);
    }
    if drop_end {
        while let Some(l) = r.lines.pop() {
            if l.trim().to_lowercase().starts_with("%end") {
                break;
            }
        }
    }
    let t = r.text();
    let got = assemble_src(ctx, &t)?;
    judge(&got, &Err(format!("misuse: {}", what)), &repro(&t))?;
    // the twin without the misuse
    let t0 = text(src, &base);
    let w = want(&base);
    let g0 = assemble_src(ctx, &t0)?;
    judge(&g0, &w, &repro(&t0))?;
    let mut labels = vec![what];
    if w.is_ok() {
        labels.push("twin-accepted");
    }
    ok(w.is_ok(), t, labels)
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C07",
            rule: "1..4 macros (overloaded by argument count in a third of the programs, parameters and hygienic labels sharing names with globals and constants, nested calls up to depth 4), 1..6 top-level calls, definitions anywhere; the reference is an independent inliner plus the reference assembler; in a quarter of the cases the hand-inlined text goes through the tool too. Further programs call a few macros with hygienic labels up to 5000 times, and nest calls up to 60 deep (also of macros that share one name). large: nested up to 95 deep, up to 120 parameters or parameter counts of one name, up to 2000 macros or calls, with or without one misuse. Non-trivial: accepted and some macro has a parameter.",
            families: vec![
                Family { name: "programs", run: c07, quick: 8000, thorough: 80000, sweep: None },
                Family { name: "many-calls", run: c07_many, quick: 60, thorough: 600, sweep: None },
                Family { name: "chains", run: c07_chain, quick: 600, thorough: 6000, sweep: None },
                Family { name: "large", run: super::large::c07, quick: 300, thorough: 3000, sweep: None },
            ],
            assumptions: &[],
        },
        Property {
            id: "C08",
            rule: "one misuse of 26 kinds planted in a generated macro program (must be rejected cleanly), and the same program without it (must give the reference's bytes). Non-trivial: the twin is accepted.",
            families: vec![Family { name: "misuse", run: c08, quick: 6000, thorough: 60000, sweep: None }],
            assumptions: &["errors inside the body of a macro that is never called need not be reported"],
        },
    ]
}
