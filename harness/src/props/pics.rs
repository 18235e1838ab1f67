//! C21 icon includes, C22 sprite includes, C23 image limits, C24 image and icon commands.
use super::lang::{judge, want_of};
use super::text::{eye_pic, icon_pic, sprite_pic};
use crate::engine::*;
use crate::gen;
use crate::img::{self, Pic, Px};
use crate::model::*;
use crate::tool::*;

fn repro_pics(files: &[(String, Vec<u8>)], pics: &[(String, Pic)], cmd: &str) -> String {
    let mut s = String::new();
    for (n, d) in files {
        if pics.iter().any(|p| &p.0 == n) {
            s.push_str(&format!("--- file {} (image: {})\n{}\n", n, pics.iter().find(|p| &p.0 == n).unwrap().1.summary(), if d.len() <= 6000 { d.iter().map(|b| format!("{:02x}", b)).collect::<String>() } else { format!("{} bytes; re-create with the replay command", d.len()) }));
        } else {
            s.push_str(&format!("--- file {}\n{}\n", n, show(d)));
        }
    }
    s.push_str(&format!("--- command\n{}\n", cmd));
    s
}

/// An expression without names with the given value, as text.
fn speed_text(src: &mut Src, v: i64) -> String {
    match src.below(6) {
        0 | 1 => format!("{}", v),
        2 if v >= 0 => format!("${:x}", v),
        3 if v >= 0 => format!("0b{:b}", v),
        4 => {
            let k = src.range(0, 50);
            format!("{} - {}", v + k, k)
        }
        5 => format!("({})", crate::render::plain_expr(&gen::expr_for(src, v, &[], 2))),
        _ => format!("({})", v),
    }
}

fn file_name(src: &mut Src, stem: &str, k: usize, ext: &str) -> String {
    let dir = *src.pick(&["", "", "", "img/", "a b/", "ü/", "so;me/", "b\n  .byte 7 ; c/"]);
    let ext = match src.below(12) {
        0 => ext.to_uppercase(),
        1 => format!("{}{}", ext[..1].to_uppercase(), &ext[1..]),
        _ => ext.to_string(),
    };
    format!("{}{}{}.{}", dir, stem, k, ext)
}

/// A file name inside a string of a source file.
fn quoted(n: &str) -> String {
    n.replace('\n', "\\n")
}

fn sep(src: &mut Src) -> &'static str {
    *src.pick(&[", ", ",", " , ", "  ,\t"])
}

/// `key = value` with free spacing and case of the key.
fn prop(src: &mut Src, k: &str, v: &str) -> String {
    let k = match src.below(5) {
        0 => k.to_uppercase(),
        _ => k.to_string(),
    };
    let sp = *src.pick(&["", "", " "]);
    format!("{}{}={}{}", k, sp, sp, v)
}

// ------------------------------------------------------------------------ C21

fn c21(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let o = gen::Opts { max_stmts: 5, ..Default::default() };
    let mut p: Vec<St> = gen::program(src, &o);
    let n = if src.chance(1, 12) { 4 + src.usize(30) } else { 1 + src.weighted(&[5, 2, 1]) };
    let mut files = vec![];
    let mut pics: Vec<(String, Pic)> = vec![];
    let mut icons: Vec<(String, Pic, &'static str)> = vec![];
    let mut labels = vec![];
    if n > 3 {
        labels.push("many");
    }
    for k in 0..n {
        // many includes need not be many pictures; nor need two includes be two files
        let early = icons.first().cloned().filter(|_| src.chance(1, 5) || (k > 3 && src.chance(3, 4)));
        let (name, pic, ext, data) = match early {
            Some((n, p, x)) if src.bool() => (n, p, x, None),
            other => {
                let pic = match other {
                    Some((_, p, _)) => p,
                    None => icon_pic(src),
                };
                let (ext, data) = img::store(src, &pic);
                (file_name(src, "icon", k, ext), pic, ext, Some(data))
            }
        };
        labels.push(if data.is_none() { "same-file" } else { "own-file" });
        let mut props = vec![];
        let mut speed = 10i64;
        if src.chance(2, 3) {
            speed = match src.below(3) {
                0 => *src.pick(&[0i64, 1, 10, 255, 256, 32767, 32768, 65535, -1, -32768]),
                _ => src.range(-32768, 65535),
            };
            let v = speed_text(src, speed);
            props.push(prop(src, "speed", &v));
            labels.push("speed");
        }
        let mut ep = None;
        if src.chance(1, 3) {
            let e = eye_pic(src);
            let (x, d) = img::store(src, &e);
            let en = file_name(src, "eye", k, x);
            props.push(prop(src, "eyecatch", &format!("\"{}\"", quoted(&en))));
            labels.push(match e.frames[0].iter().map(img::argb4).collect::<std::collections::HashSet<u16>>().len() {
                0..=16 => "eyecatch-16",
                17..=256 => "eyecatch-256",
                _ => "eyecatch-true-colour",
            });
            files.push((en.clone(), d));
            pics.push((en, e.clone()));
            ep = Some(e);
        }
        if src.bool() {
            props.reverse();
        }
        let s = sep(src);
        let kw = *src.pick(&["icon", "icon", "ICON"]);
        let line = format!(".include {} \"{}\"{}{}", kw, quoted(&name), if props.is_empty() { "" } else { " " }, props.join(s));
        let want = img::icon_bytes(&pic, speed as u16, ep.as_ref()).expect("icon");
        if pic.frames.len() > 1 {
            labels.push("frames");
        }
        labels.push(match ext {
            "png" => "png",
            "gif" => "gif",
            _ => "bmp/ppm",
        });
        let at = src.usize(p.len() + 1);
        p.insert(at, St::Data(line, want));
        icons.push((name.clone(), pic.clone(), ext));
        if let Some(data) = data {
            files.push((name.clone(), data));
            pics.push((name, pic));
        }
    }
    let t = crate::render::fancy(src, &p);
    let w = want_of(&reference(&p));
    let mut all = vec![("main.s".to_string(), t.as_bytes().to_vec())];
    all.extend(files);
    let got = assemble(ctx, &all, "main.s")?;
    let rp = repro_pics(&all, &pics, "waterbear assemble main.s -o out.vms");
    judge(&got, &w, &rp)?;
    let key = format!("{}\n{}", t, pics.iter().map(|p| format!("{}: {}", p.0, p.1.summary())).collect::<Vec<_>>().join("\n"));
    okn(w.is_ok(), key, labels, pics.iter().map(|p| p.1.frames.iter().map(|f| f.len() as u64).sum::<u64>()).sum())
}

/// Every channel value through the reduction to four bits: 256 values of one channel in
/// 16 images of 16 colours.
fn c21_channels(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = src.below(64) as usize;
    let (ch, block) = (i / 16, i % 16);
    let mut px: Vec<Px> = vec![];
    for k in 0..32 * 32 {
        let mut c = [85u8, 170, 0, 255];
        c[ch] = (block * 16 + k % 16) as u8;
        px.push(c);
    }
    let p = Pic::still(32, 32, px);
    let d = img::png_mode(&mut Src::replay(vec![]), &p, &img::Mode::Rgba8, false);
    let files = vec![("main.s".to_string(), b".include icon \"i.png\"\n".to_vec()), ("i.png".to_string(), d)];
    let got = assemble(ctx, &files, "main.s")?;
    judge(&got, &Ok(img::icon_bytes(&p, 10, None).unwrap()), &repro_pics(&files, &[("i.png".into(), p)], "waterbear assemble main.s -o out.vms"))?;
    okn(true, format!("channel {} values {}..{}", ch, block * 16, block * 16 + 15), vec![], 16)
}

// ------------------------------------------------------------------------ C22

fn sprite_props(src: &mut Src, masked: bool, header: bool) -> String {
    let mut props: Vec<String> = vec![];
    if masked || src.bool() {
        props.push(prop(src, "type", if masked { "\"masked\"" } else { "\"simple\"" }));
    }
    if !header || src.bool() {
        props.push(prop(src, "header", if header { "\"yes\"" } else { "\"no\"" }));
    }
    if src.bool() {
        props.reverse();
    }
    let s = sep(src);
    if props.is_empty() {
        String::new()
    } else {
        format!(" {}", props.join(s))
    }
}

fn c22(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let o = gen::Opts { max_stmts: 5, ..Default::default() };
    let mut p: Vec<St> = gen::program(src, &o);
    let mut labels = vec![];
    let n = if src.chance(1, 12) { 4 + src.usize(30) } else { 1 + src.weighted(&[5, 2, 1]) };
    if n > 3 {
        labels.push("many");
    }
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    let mut pics: Vec<(String, Pic)> = vec![];
    for k in 0..n {
        let header = src.bool();
        let masked = src.bool();
        let max = match src.below(4) {
            0 => 255,
            1 if !header => 300,
            _ => 40,
        };
        let again = !pics.is_empty() && (src.chance(1, 4) || k > 3) && (!header || (pics[0].1.w < 256 && pics[0].1.h < 256));
        let pic = if again { pics[0].1.clone() } else { sprite_pic(src, max) };
        let same = again && src.bool();
        let name = if same {
            pics[0].0.clone()
        } else {
            let (ext, data) = img::store(src, &pic);
            let name = file_name(src, "s", k, ext);
            files.push((name.clone(), data));
            pics.push((name.clone(), pic.clone()));
            name
        };
        labels.push(if same { "same-file" } else { "own-file" });
        let kw = *src.pick(&["sprite", "sprite", "Sprite"]);
        let line = format!(".include {} \"{}\"{}", kw, quoted(&name), sprite_props(src, masked, header));
        labels.push(if masked { "masked" } else { "simple" });
        if !header {
            labels.push("no-header");
        }
        if pic.frames.len() > 1 {
            labels.push("frames");
        }
        if pic.w % 8 != 0 {
            labels.push("padding");
        }
        if pic.w > 255 || pic.h > 255 {
            labels.push("over-255");
        }
        let want = img::sprite_bytes(&pic, masked, header);
        let at = src.usize(p.len() + 1);
        p.insert(at, St::Data(line, want));
    }
    let t = crate::render::fancy(src, &p);
    let w = want_of(&reference(&p));
    let mut all = vec![("main.s".to_string(), t.as_bytes().to_vec())];
    all.extend(files);
    let got = assemble(ctx, &all, "main.s")?;
    let rp = repro_pics(&all, &pics, "waterbear assemble main.s -o out.vms");
    judge(&got, &w, &rp)?;
    let key = format!("{}\n{}", t, pics.iter().map(|p| format!("{}: {}", p.0, p.1.summary())).collect::<Vec<_>>().join("\n"));
    okn(w.is_ok(), key, labels, pics.iter().map(|p| p.1.frames.iter().map(|f| f.len() as u64).sum::<u64>()).sum())
}

/// All grey levels, all alpha levels, and the neighbourhood of the luminance threshold.
fn c22_levels(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = src.below(258) as usize;
    let mut px: Vec<Px> = vec![];
    match i {
        0 => (0..256).for_each(|k| px.push([k as u8, k as u8, k as u8, 255])),
        1 => (0..256).for_each(|k| px.push([if k % 2 == 0 { 0 } else { 255 }, 0, if k % 2 == 0 { 0 } else { 255 }, k as u8])),
        _ => {
            // for one red value, the greens and blues either side of the threshold
            let r = (i - 2) as u32;
            for b in 0..256u32 {
                let rest = 12750i64 - 30 * r as i64 - 11 * b as i64;
                let g = (rest / 59).clamp(0, 255) as u8;
                for g in [g.saturating_sub(1), g, g.saturating_add(1)] {
                    let c = [r as u8, g, b as u8, 255 - (b as u8 & 1)];
                    px.push(if img::ambiguous(&c) { [0, 0, 0, 255] } else { c });
                }
            }
        }
    }
    let w = if px.len() == 256 { 16 } else { 32 };
    let h = px.len() / w;
    let p = Pic::still(w, h, px);
    let d = img::png_mode(&mut Src::replay(vec![]), &p, &img::Mode::Rgba8, false);
    let files = vec![("main.s".to_string(), b".include sprite \"i.png\" type=\"masked\"\n".to_vec()), ("i.png".to_string(), d)];
    let got = assemble(ctx, &files, "main.s")?;
    judge(&got, &Ok(img::sprite_bytes(&p, true, true)), &repro_pics(&files, &[("i.png".into(), p.clone())], "waterbear assemble main.s -o out.vms"))?;
    okn(true, format!("levels {}", i), vec![], (p.w * p.h) as u64)
}

/// Every width and height 1..=32, each type, with and without header.
fn c22_sizes(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = src.below(256) as usize;
    let (w, h) = (1 + i % 64, [1usize, 2, 7, 9][i / 64]);
    let mut t = String::new();
    let mut want = vec![];
    let px: Vec<Px> = (0..w * h)
        .map(|k| {
            let r = (k * 2654435761usize) >> 7;
            [[0, 255][r & 1], [10, 240][r & 1], 128, [255, 0][(r >> 1) & 1]]
        })
        .collect();
    let p = Pic::still(w, h, px);
    for (m, hd) in [(false, false), (true, true), (true, false), (false, true)] {
        t.push_str(&format!(".include sprite \"i.png\" type=\"{}\", header=\"{}\"\n", if m { "masked" } else { "simple" }, if hd { "yes" } else { "no" }));
        want.extend(img::sprite_bytes(&p, m, hd));
    }
    let d = img::png_mode(&mut Src::replay(vec![]), &p, &img::Mode::Rgba8, false);
    let files = vec![("main.s".to_string(), t.into_bytes()), ("i.png".to_string(), d)];
    let got = assemble(ctx, &files, "main.s")?;
    judge(&got, &Ok(want), &repro_pics(&files, &[("i.png".into(), p)], "waterbear assemble main.s -o out.vms"))?;
    okn(true, format!("{}x{}", w, h), vec![], 4)
}

// ------------------------------------------------------------------------ C23

fn near(src: &mut Src, n: usize) -> usize {
    match src.below(6) {
        0 | 1 => n,
        2 => n - 1,
        3 => n + 1,
        4 => (n as i64 + src.range(-8, 8)) as usize,
        _ => *src.pick(&[n / 2, n * 2, 1, n + 8, n - 8, n * 4]),
    }
}

fn sized(src: &mut Src, w: usize, h: usize, pal: &[Px], frames: usize) -> Pic {
    let f: Vec<Vec<Px>> = (0..frames).map(|_| img::paint(src, w * h, pal)).collect();
    Pic { w, h, frames: f, delay: vec![if frames > 1 { 100 } else { 0 }; frames] }
}

/// Same pixels, but for a frame on which an extra colour may stand.
fn few(src: &mut Src) -> Vec<Px> {
    let n = 1 + src.usize(12);
    img::colours(src, n, false, true)
}

struct Limit {
    what: &'static str,
    icon: Pic,
    eye: Option<Pic>,
    ok: bool,
}

fn icon_limit(src: &mut Src) -> Limit {
    match src.below(4) {
        0 => {
            // icon size
            let pal = few(src);
            let (w, h) = match src.below(12) {
                0 => (64, 16),
                1 => (16, 64),
                2 => (1024, 1),
                3 => {
                    let s = *src.pick(&[1usize, 8, 16, 24, 31, 33, 40, 48, 64]);
                    (s, s)
                }
                4 => (32, 1 + src.usize(80)),
                5 => (1 + src.usize(80), 32),
                6 => *src.pick(&[(72usize, 56usize), (56, 32), (48, 32), (32, 56)]),
                _ => (near(src, 32), near(src, 32)),
            };
            let fr = 1 + src.usize(2);
            let icon = sized(src, w, h, &pal, fr);
            Limit { what: "icon-size", icon, eye: None, ok: w == 32 && h == 32 }
        }
        1 | 2 => {
            // icon palette
            let n = *src.pick(&[15usize, 16, 17, 17, 18, 20, 33, 255, 256, 257, 264, 272, 512, 520, 1024]);
            let alpha = src.chance(1, 3);
            let mut pal = img::colours(src, n, alpha, true);
            if src.bool() {
                // more 8-bit colours that reduce to one already there
                for i in 0..n.min(16) {
                    let mut c = pal[i];
                    c[src.usize(3)] ^= 1;
                    if img::argb4(&c) == img::argb4(&pal[i]) && !pal.contains(&c) {
                        pal.push(c);
                    }
                }
            }
            let fr = if n > 20 { 1 } else { 1 + src.usize(3) };
            let mut icon = sized(src, 32, 32, &pal, fr);
            if fr > 1 && src.bool() {
                // the last of the n colours only in the last frame
                let last = pal[n - 1];
                let four = img::argb4(&last);
                let sub = pal[0];
                for f in 0..fr {
                    for p in icon.frames[f].iter_mut() {
                        if img::argb4(p) == four {
                            *p = sub;
                        }
                    }
                }
                let at = src.usize(1024);
                icon.frames[fr - 1][at] = last;
            } else if src.chance(1, 3) {
                // a colour that occurs once
                let last = pal[n - 1];
                let sub = pal[0];
                for f in 0..fr {
                    for p in icon.frames[f].iter_mut() {
                        if img::argb4(p) == img::argb4(&last) {
                            *p = sub;
                        }
                    }
                }
                let at = *src.pick(&[0usize, 1023, 31, 32, 500]);
                icon.frames[0][at] = last;
            }
            let k = icon.frames.iter().flatten().map(img::argb4).collect::<std::collections::HashSet<u16>>().len();
            Limit { what: "icon-palette", icon, eye: None, ok: k <= 16 }
        }
        _ => {
            let icon = icon_pic(src);
            let (w, h) = match src.below(10) {
                0 => (56, 72),
                1 => (32, 32),
                2 => (144, 28),
                3 => {
                    let s = *src.pick(&[72usize, 56, 64, 48, 36, 28, 112, 144, 8]);
                    (s, s)
                }
                4 => (72, 1 + src.usize(120)),
                5 => (1 + src.usize(120), 56),
                _ => (near(src, 72), near(src, 56)),
            };
            let n = *src.pick(&[3usize, 16, 17, 200, 257]);
            let pal = img::colours(src, n.min(w * h), false, true);
            let eye = sized(src, w, h, &pal, 1);
            Limit { what: "eyecatch-size", icon, eye: Some(eye), ok: w == 72 && h == 56 }
        }
    }
}

fn c23_icon(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let l = icon_limit(src);
    let (x, d) = img::store(src, &l.icon);
    let name = format!("i.{}", x);
    let mut files = vec![(name.clone(), d)];
    let mut pics = vec![(name.clone(), l.icon.clone())];
    let mut t = String::from("  .byte 1\n");
    let speed = src.chance(1, 3);
    let mut props = vec![];
    if speed {
        props.push("speed=7".to_string());
    }
    let mut args = vec!["icon".to_string(), name.clone()];
    if speed {
        args.push("-s".into());
        args.push("7".into());
    }
    if let Some(e) = &l.eye {
        let (x, d) = img::store(src, e);
        let en = format!("e.{}", x);
        files.push((en.clone(), d));
        pics.push((en.clone(), e.clone()));
        props.push(format!("eyecatch=\"{}\"", quoted(&en)));
        args.push("-e".into());
        args.push(en);
    }
    t.push_str(&format!("  .include icon \"{}\" {}\n  .byte 2\n", name, props.join(", ")));
    let want = img::icon_bytes(&l.icon, if speed { 7 } else { 10 }, l.eye.as_ref());
    assert_eq!(want.is_ok(), l.ok);
    let w = match want {
        Ok(b) => {
            let mut v = vec![1];
            v.extend(b);
            v.push(2);
            Ok(v)
        }
        Err(e) => Err(format!("{:?}", e)),
    };
    let mut all = vec![("main.s".to_string(), t.into_bytes())];
    all.extend(files);
    let got = assemble(ctx, &all, "main.s")?;
    let rp = repro_pics(&all, &pics, "waterbear assemble main.s -o out.vms");
    judge(&got, &w, &rp)?;
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let r = ctx.wb(&a)?;
    let rp = repro_pics(&all, &pics, &format!("waterbear {}", args.join(" ")));
    if w.is_ok() != r.ok() || !r.clean() {
        return fail(format!("icon command: {}, expected {}: {}", r.how(), if w.is_ok() { "success" } else { "exit 1" }, clip(&r.err, 300)), rp);
    }
    if w.is_err() && (r.err.trim().is_empty() || !r.out.is_empty()) {
        return fail("icon command failed without a message, or printed assembly all the same", rp);
    }
    let key = format!("{} {:?} {:?}", l.what, w.is_ok(), pics.iter().map(|p| p.1.summary()).collect::<Vec<_>>());
    ok(true, key, vec![l.what, if l.ok { "within" } else { "beyond" }])
}

fn c23_sprite(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let side = |src: &mut Src| match src.below(3) {
        0 => *src.pick(&[254usize, 255, 256, 257]),
        1 => *src.pick(&[512usize, 511, 1000, 256 + 8, 300]),
        _ => 1 + src.usize(20),
    };
    let (w, h) = if src.bool() { (side(src), 1 + src.usize(8)) } else { (1 + src.usize(8), side(src)) };
    let (w, h) = if src.chance(1, 6) { (*src.pick(&[254usize, 255, 256]), *src.pick(&[254usize, 255, 256])) } else { (w, h) };
    let pal = few(src);
    let fr = 1 + src.weighted(&[4, 1]);
    let p = sized(src, w, h, &pal, fr);
    let masked = src.bool();
    let header = src.chance(2, 3);
    let (x, d) = img::store(src, &p);
    let name = format!("i.{}", x);
    let t = format!("  .byte 1\n  .include sprite \"{}\"{}\n  .byte 2\n", name, sprite_props(src, masked, header));
    let okay = !header || (w <= 255 && h <= 255);
    let want = if okay {
        let mut v = vec![1];
        v.extend(img::sprite_bytes(&p, masked, header));
        v.push(2);
        Ok(v)
    } else {
        Err(format!("{}x{} with a header", w, h))
    };
    let want = match want {
        Ok(v) if v.len() > 65536 => Err("past the end of the address space".to_string()),
        w => w,
    };
    let files = vec![("main.s".to_string(), t.into_bytes()), (name.clone(), d)];
    let got = assemble(ctx, &files, "main.s")?;
    judge(&got, &want, &repro_pics(&files, &[(name, p.clone())], "waterbear assemble main.s -o out.vms"))?;
    ok(true, format!("{} masked={} header={}", p.summary(), masked, header), vec!["sprite", if okay { "within" } else { "beyond" }])
}

/// Option values that mean nothing.
fn c23_options(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let words = ["mask", "maskd", "simpel", "none", "", "true", "false", "1", "yess", "n", "on", "off", "masked ", " simple", "simple,masked", "yes no", "é", "no\\n"];
    let w = *src.pick(&words);
    let big = match src.below(3) {
        0 => *src.pick(&[65536i64, -32769, 65537, 131072, -32770, 65535 + 65536, 1 << 30]),
        1 => src.range(65536, 1 << 31),
        _ => -src.range(32769, 1 << 31),
    };
    let (kind, line): (&'static str, String) = match src.below(9) {
        0 => ("type", format!(".include sprite \"i.png\" type=\"{}\"", w)),
        1 => ("header", format!(".include sprite \"i.png\" header=\"{}\"", w)),
        2 => {
            let n = src.range(0, 300);
            ("type-number", format!(".include sprite \"i.png\" type={}", n))
        }
        3 => {
            let n = *src.pick(&["1", "0", "yes", "no", "$ff"]);
            ("header-number", format!(".include sprite \"i.png\" header={}", n))
        }
        4 | 5 => ("speed-range", format!(".include icon \"i.png\" speed={}", if src.bool() { format!("{}", big) } else { format!("({} - 1)", big + 1) })),
        6 => {
            let s = *src.pick(&["7", "", "fast", "10"]);
            ("speed-string", format!(".include icon \"i.png\" speed=\"{}\"", s))
        }
        7 => {
            let n = *src.pick(&["5", "name", "$10 + 2"]);
            ("eyecatch-number", format!(".include icon \"i.png\" eyecatch={}", n))
        }
        _ => ("speed-name", ".include icon \"i.png\" speed=fast".to_string()),
    };
    // the wrong one may be accompanied by a right one
    let line = if kind.starts_with("type") && src.bool() {
        format!("{}, header=\"no\"", line)
    } else if kind.starts_with("header") && src.bool() {
        format!("{}, type=\"masked\"", line)
    } else {
        line
    };
    let p = Pic::still(32, 32, vec![[0, 0, 0, 255]; 1024]);
    let d = img::png_mode(&mut Src::replay(vec![]), &p, &img::Mode::Rgba8, false);
    let files = vec![("main.s".to_string(), format!("  .byte 1\n  {}\n", line).into_bytes()), ("i.png".to_string(), d)];
    let got = assemble(ctx, &files, "main.s")?;
    judge(&got, &Err(format!("{} is not a valid option", line)), &repro_pics(&files, &[("i.png".into(), p)], "waterbear assemble main.s -o out.vms"))?;
    ok(true, line, vec![kind])
}

// ------------------------------------------------------------------------ C24

fn c24_icon(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let p = icon_pic(src);
    let (x, d) = img::store(src, &p);
    let name = file_name(src, "i", 0, x);
    let mut files = vec![(name.clone(), d)];
    let mut pics = vec![(name.clone(), p.clone())];
    let mut props = vec![];
    let mut args = vec!["icon".to_string()];
    let mut opts: Vec<Vec<String>> = vec![vec![name.clone()]];
    let mut speed = 10;
    if src.chance(2, 3) {
        speed = gen::interesting(src, 0, 65535);
        props.push(format!("speed={}", speed));
        opts.push(match src.below(3) {
            0 => vec!["-s".into(), format!("{}", speed)],
            1 => vec!["--speed".into(), format!("{}", speed)],
            _ => vec![format!("--speed={}", speed)],
        });
    }
    let mut eye = None;
    if src.chance(1, 3) {
        let e = eye_pic(src);
        let (x, d) = img::store(src, &e);
        let en = file_name(src, "e", 0, x);
        files.push((en.clone(), d));
        pics.push((en.clone(), e.clone()));
        props.push(format!("eyecatch=\"{}\"", quoted(&en)));
        opts.push(vec![src.pick(&["-e", "--eyecatch"]).to_string(), en]);
        eye = Some(e);
    }
    src.shuffle(&mut opts);
    args.extend(opts.into_iter().flatten());
    let mut all = vec![("inc.s".to_string(), format!(".include icon \"{}\" {}\n", quoted(&name), props.join(", ")).into_bytes())];
    all.extend(files);
    let inc = assemble(ctx, &all, "inc.s")?;
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let r = ctx.wb(&a)?;
    let rp = repro_pics(&all, &pics, &format!("waterbear {} > cmd.s; waterbear assemble cmd.s -o out.vms; waterbear assemble inc.s -o out.vms", args.join(" ")));
    if !r.ok() {
        return fail(format!("icon command failed: {} {}", r.how(), clip(&r.err, 400)), rp);
    }
    ctx.write("elsewhere/cmd.s", &r.out);
    let cmd = assemble_existing(ctx, "elsewhere/cmd.s", "o2.vms")?;
    let want = Ok(img::icon_bytes(&p, speed as u16, eye.as_ref()).expect("icon"));
    let rp = format!("{}--- what the command printed\n{}\n", rp, clip(&r.stdout(), 3000));
    judge(&inc, &want, &rp)?;
    judge(&cmd, &want, &rp)?;
    ok(true, format!("{} {}", args.join(" "), pics.iter().map(|p| p.1.summary()).collect::<Vec<_>>().join(" ")), vec!["icon", if eye.is_some() { "eyecatch" } else { "plain" }])
}

fn c24_sprite(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let max = *src.pick(&[40i64, 40, 255, 300]);
    let p = sprite_pic(src, max);
    let (x, d) = img::store(src, &p);
    let name = file_name(src, "s", 0, x);
    let masked = src.bool();
    let fmt = match (masked, src.below(3)) {
        (true, _) => Some("1bit-asm-masked"),
        (false, 0) => None,
        _ => Some("1bit-asm"),
    };
    let mut opts: Vec<Vec<String>> = vec![vec![name.clone()]];
    if let Some(f) = fmt {
        opts.push(match src.below(3) {
            0 => vec!["-f".into(), f.into()],
            1 => vec!["--format".into(), f.into()],
            _ => vec![format!("--format={}", f)],
        });
    }
    let out = src.bool();
    if out {
        opts.push(vec![src.pick(&["-o", "--output"]).to_string(), "cmd out.s".into()]);
    }
    src.shuffle(&mut opts);
    let mut args = vec!["image".to_string()];
    args.extend(opts.into_iter().flatten());
    let all = vec![("inc.s".to_string(), format!(".include sprite \"{}\" type=\"{}\"\n", quoted(&name), if masked { "masked" } else { "simple" }).into_bytes()), (name.clone(), d)];
    let inc = assemble(ctx, &all, "inc.s")?;
    if out && src.bool() {
        ctx.write("cmd out.s", b" .byte 1,2,3 ; an earlier, quite different file that is rather longer than nothing\n .byte 4\n");
    }
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let r = ctx.wb(&a)?;
    let rp = repro_pics(&all, &[(name, p.clone())], &format!("waterbear {}; assemble what it wrote; waterbear assemble inc.s -o out.vms", args.join(" ")));
    if !r.ok() {
        return fail(format!("image command failed: {} {}", r.how(), clip(&r.err, 400)), rp);
    }
    if out {
        if !r.out.is_empty() {
            return fail("with an output file named, something was printed to standard output", rp);
        }
    } else {
        ctx.write("cmd out.s", &r.out);
    }
    let cmd = assemble_existing(ctx, "cmd out.s", "o2.vms")?;
    let want = if p.w > 255 || p.h > 255 { Err("too large for a header".to_string()) } else { Ok(img::sprite_bytes(&p, masked, true)) };
    judge(&inc, &want, &rp)?;
    judge(&cmd, &want, &rp)?;
    ok(want.is_ok(), format!("{} {}", args.join(" "), p.summary()), vec!["sprite", if out { "to-file" } else { "stdout" }])
}

#[derive(Debug, Clone, PartialEq)]
enum J {
    Num(f64),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
    Str(String),
    Lit(String),
}

struct JP<'a> {
    b: &'a [u8],
    i: usize,
}

impl<'a> JP<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && self.b[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> Result<(), String> {
        self.ws();
        if self.b.get(self.i) == Some(&c) {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected {:?} at byte {}", c as char, self.i))
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        self.b.get(self.i).copied().unwrap_or(0)
    }
    fn string(&mut self) -> Result<String, String> {
        self.eat(b'"')?;
        let s = self.i;
        while self.i < self.b.len() && self.b[self.i] != b'"' {
            self.i += if self.b[self.i] == b'\\' { 2 } else { 1 };
        }
        let r = String::from_utf8_lossy(&self.b[s..self.i.min(self.b.len())]).to_string();
        self.eat(b'"')?;
        Ok(r)
    }
    fn value(&mut self) -> Result<J, String> {
        match self.peek() {
            b'{' => {
                self.eat(b'{')?;
                let mut v = vec![];
                if self.peek() == b'}' {
                    self.eat(b'}')?;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.eat(b':')?;
                    v.push((k, self.value()?));
                    if self.peek() == b',' {
                        self.eat(b',')?;
                    } else {
                        self.eat(b'}')?;
                        return Ok(J::Obj(v));
                    }
                }
            }
            b'[' => {
                self.eat(b'[')?;
                let mut v = vec![];
                if self.peek() == b']' {
                    self.eat(b']')?;
                    return Ok(J::Arr(v));
                }
                loop {
                    v.push(self.value()?);
                    if self.peek() == b',' {
                        self.eat(b',')?;
                    } else {
                        self.eat(b']')?;
                        return Ok(J::Arr(v));
                    }
                }
            }
            b'"' => Ok(J::Str(self.string()?)),
            _ => {
                let s = self.i;
                while self.i < self.b.len() && (self.b[self.i].is_ascii_alphanumeric() || b"+-.".contains(&self.b[self.i])) {
                    self.i += 1;
                }
                let t = std::str::from_utf8(&self.b[s..self.i]).unwrap();
                if t.is_empty() {
                    return Err(format!("no value at byte {}", s));
                }
                Ok(t.parse().map(J::Num).unwrap_or(J::Lit(t.into())))
            }
        }
    }
}

fn json(b: &[u8]) -> Result<J, String> {
    let mut p = JP { b, i: 0 };
    let v = p.value()?;
    p.ws();
    if p.i != b.len() {
        return Err(format!("text after the end at byte {}", p.i));
    }
    Ok(v)
}

fn get<'a>(j: &'a J, k: &str) -> Result<&'a J, String> {
    match j {
        J::Obj(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1).ok_or(format!("no member {}", k)),
        _ => Err(format!("no object around {}", k)),
    }
}
fn arr(j: &J) -> Result<&Vec<J>, String> {
    match j {
        J::Arr(v) => Ok(v),
        _ => Err("no array".into()),
    }
}
fn numb(j: &J) -> Result<f64, String> {
    match j {
        J::Num(v) => Ok(*v),
        _ => Err("no number".into()),
    }
}

/// Delays are given as fractions of a second, the denominator 0 meaning 100.
fn same_pic(j: &J, p: &Pic, delays: &[(u16, u16)]) -> Result<(), String> {
    let fr = arr(get(j, "frames")?)?;
    if fr.len() != p.frames.len() {
        return Err(format!("{} frames listed, the image has {}", fr.len(), p.frames.len()));
    }
    for (k, f) in fr.iter().enumerate() {
        let d = arr(get(f, "delay")?)?;
        if d.len() != 2 {
            return Err("delay is not a pair".into());
        }
        let (n, den) = (numb(&d[0])?, numb(&d[1])?);
        let (num, d) = (delays[k].0 as f64, if delays[k].1 == 0 { 100.0 } else { delays[k].1 as f64 });
        let same = if num == 0.0 { n == 0.0 } else { n * d == num * 1000.0 * den };
        if !same {
            return Err(format!("frame {}: delay {}/{} ms listed, {}/{} s in the image", k, n, den, num, d));
        }
        let rows = arr(get(f, "rows")?)?;
        if rows.len() != p.h {
            return Err(format!("frame {}: {} rows listed, {} in the image", k, rows.len(), p.h));
        }
        for (y, r) in rows.iter().enumerate() {
            let r = arr(r)?;
            if r.len() != p.w {
                return Err(format!("frame {} row {}: {} pixels listed, {} in the image", k, y, r.len(), p.w));
            }
            for (x, c) in r.iter().enumerate() {
                let got = [numb(get(c, "red")?)?, numb(get(c, "green")?)?, numb(get(c, "blue")?)?, numb(get(c, "alpha")?)?];
                let want = p.frames[k][y * p.w + x];
                if (0..4).any(|i| got[i] != want[i] as f64) {
                    return Err(format!("frame {} pixel ({}, {}): {:?} listed, {:?} in the image", k, x, y, got, want));
                }
            }
        }
    }
    Ok(())
}

fn c24_json(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let p = match src.below(6) {
        0 => icon_pic(src),
        1 => sprite_pic(src, 255),
        _ => sprite_pic(src, 40),
    };
    let (x, mut d) = img::store(src, &p);
    let name = file_name(src, "j", 0, x);
    let mut delays: Vec<(u16, u16)> = p.delay.iter().map(|x| (*x as u16, 1000)).collect();
    if x == "png" && p.frames.len() > 1 && src.chance(2, 3) {
        // other units than milliseconds
        let den = *src.pick(&[100u16, 0, 10, 1, 60, 30, 24, 7, 997, 65535, 1000]);
        for t in delays.iter_mut() {
            let den = if src.chance(1, 4) { *src.pick(&[100u16, 0, 50, 3, 1001]) } else { den };
            *t = (*src.pick(&[0u16, 1, 2, 5, 100, 1000, 65535, 12, 33]), den);
        }
        img::retime(&mut d, &delays);
    }
    let rp = repro_pics(&[(name.clone(), d.clone())], &[(name.clone(), p.clone())], &format!("waterbear image {} -f json[-pretty] [-o out]", name));
    ctx.write(&name, &d);
    let mut parsed = vec![];
    let mut labels = vec!["json"];
    for fmt in ["json", "json-pretty"] {
        let r = ctx.wb(&["image", &name, "-f", fmt])?;
        if !r.ok() {
            return fail(format!("image -f {}: {} {}", fmt, r.how(), clip(&r.err, 400)), rp);
        }
        let j = match json(&r.out) {
            Ok(j) => j,
            Err(e) => return fail(format!("image -f {} did not print valid JSON: {}\n{}", fmt, e, clip(&r.stdout(), 500)), rp),
        };
        if let Err(e) = same_pic(&j, &p, &delays) {
            return fail(format!("image -f {}: {}", fmt, e), rp);
        }
        if src.bool() {
            if src.bool() {
                ctx.write("o.json", &vec![b'x'; r.out.len() + 100]);
            }
            let r2 = ctx.wb(&["image", &name, "-o", "o.json", "-f", fmt])?;
            if !r2.ok() || !r2.out.is_empty() {
                return fail(format!("image -f {} -o: {} stdout {:?}", fmt, r2.how(), clip(&r2.stdout(), 200)), rp);
            }
            let w = ctx.read("o.json").unwrap_or_default();
            let mut printed = r.out.clone();
            if printed.last() == Some(&b'\n') {
                printed.pop();
            }
            if w != printed && w != r.out {
                return fail(format!("image -f {}: the file differs from the printed text ({} and {} bytes)", fmt, w.len(), r.out.len()), rp);
            }
            labels.push("to-file");
        }
        parsed.push(j);
    }
    if parsed[0] != parsed[1] {
        return fail("the compact and the pretty form differ".to_string(), rp);
    }
    if p.frames.len() > 1 {
        labels.push("frames");
    }
    okn(true, format!("{} {}", name, p.summary()), labels, (p.w * p.h * p.frames.len()) as u64)
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C21",
            rule: "random programs with one to three icon includes: 32x32 images of 1 to 16 reduced colours (with 8-bit neighbours that reduce alike, with and without alpha), one to four frames, eyecatch images of 1 to 4000 colours (also animated ones, of which the first frame counts), speed absent or any word as an expression, both property orders, written as PNG (every colour type, filter and depth), APNG, GIF, BMP, PPM; every value of each channel; up to 300 frames. The whole output is compared with the reference encoding. Non-trivial: the program assembles.",
            families: vec![
                Family { name: "channels", run: c21_channels, quick: 0, thorough: 0, sweep: Some(64) },
                Family { name: "icons", run: c21, quick: 2200, thorough: 25000, sweep: None },
                Family { name: "many-frames", run: super::large::c21, quick: 120, thorough: 1500, sweep: None },
            ],
            assumptions: &["image files are decoded by the image crate; that decoding itself is only checked through the pixels that come out"],
        },
        Property {
            id: "C22",
            rule: "random programs with one to three sprite includes of sizes 1 to 300, all type and header options in every order, one to three frames, random colours and alpha; every width 1..64 with every option; all grey and alpha levels; for each red and blue value the greens either side of the luminance threshold; up to 300 frames. Non-trivial: the program assembles.",
            families: vec![
                Family { name: "sizes", run: c22_sizes, quick: 0, thorough: 0, sweep: Some(256) },
                Family { name: "levels", run: c22_levels, quick: 0, thorough: 0, sweep: Some(258) },
                Family { name: "sprites", run: c22, quick: 5000, thorough: 50000, sweep: None },
                Family { name: "many-frames", run: super::large::c22, quick: 400, thorough: 4000, sweep: None },
            ],
            assumptions: &["a luminance of exactly 127.5 is not generated: which side it falls on is not specified"],
        },
        Property {
            id: "C23",
            rule: "icon sizes, icon palettes (also split over frames, colours occurring once, 8-bit neighbours) and eyecatch sizes on and around the limits, through the include and the icon command; sprites around 255 with and without a header; unknown type and header values, speeds outside a word, values of the wrong kind. Each must be accepted with the reference bytes or rejected, as the limit says. Every case is non-trivial.",
            families: vec![
                Family { name: "icon", run: c23_icon, quick: 2200, thorough: 25000, sweep: None },
                Family { name: "sprite", run: c23_sprite, quick: 2500, thorough: 25000, sweep: None },
                Family { name: "options", run: c23_options, quick: 1500, thorough: 10000, sweep: None },
            ],
            assumptions: &[],
        },
        Property {
            id: "C24",
            rule: "random icons, eyecatch images and sprites: the printed assembly is assembled and compared with the include and the reference; JSON is parsed by an independent parser and every pixel, row, frame and delay (also in APNG units other than milliseconds) compared with the generated image, compact against pretty, printed against written to a file. Non-trivial: within the sprite size limit.",
            families: vec![
                Family { name: "icon", run: c24_icon, quick: 1500, thorough: 15000, sweep: None },
                Family { name: "sprite", run: c24_sprite, quick: 2500, thorough: 25000, sweep: None },
                Family { name: "json", run: c24_json, quick: 2000, thorough: 20000, sweep: None },
            ],
            assumptions: &[],
        },
    ]
}
