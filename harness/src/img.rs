//! Image model, writers for the file formats waterbear reads, and the reference
//! encodings of VMU icons and 1-bit sprites (docs/directives.md).
use crate::engine::Src;

pub type Px = [u8; 4];

#[derive(Clone, Debug, PartialEq)]
pub struct Pic {
    pub w: usize,
    pub h: usize,
    pub frames: Vec<Vec<Px>>,
    /// milliseconds
    pub delay: Vec<u32>,
}

impl Pic {
    pub fn still(w: usize, h: usize, px: Vec<Px>) -> Pic {
        assert_eq!(px.len(), w * h);
        Pic { w, h, frames: vec![px], delay: vec![0] }
    }
    pub fn opaque(&self) -> bool {
        self.frames.iter().flatten().all(|p| p[3] == 255)
    }
    pub fn colours(&self, first_only: bool) -> Vec<Px> {
        let mut v: Vec<Px> = vec![];
        let mut seen = std::collections::HashSet::new();
        for f in &self.frames {
            for p in f {
                if seen.insert(*p) {
                    v.push(*p);
                }
            }
            if first_only {
                break;
            }
        }
        v
    }
    pub fn summary(&self) -> String {
        let mut h = 0u64;
        for f in &self.frames {
            for p in f {
                h = (h ^ u32::from_le_bytes(*p) as u64).wrapping_mul(0x100_0000_01b3).rotate_left(7);
            }
        }
        format!("{}x{} frames={} colours={} opaque={} hash={:016x}", self.w, self.h, self.frames.len(), self.colours(false).len(), self.opaque(), h)
    }
}

// --------------------------------------------------------------------- PNG

fn crc32(b: &[u8]) -> u32 {
    let mut c = 0xFFFF_FFFFu32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 };
        }
    }
    !c
}

fn adler(b: &[u8]) -> u32 {
    let (mut a, mut s) = (1u32, 0u32);
    for x in b {
        a = (a + *x as u32) % 65521;
        s = (s + a) % 65521;
    }
    (s << 16) | a
}

pub fn zlib(b: &[u8]) -> Vec<u8> {
    let mut o = vec![0x78, 0x01];
    let chunks: Vec<&[u8]> = if b.is_empty() { vec![&[]] } else { b.chunks(60000).collect() };
    for (i, c) in chunks.iter().enumerate() {
        o.push((i + 1 == chunks.len()) as u8);
        o.extend((c.len() as u16).to_le_bytes());
        o.extend((!(c.len() as u16)).to_le_bytes());
        o.extend(*c);
    }
    o.extend(adler(b).to_be_bytes());
    o
}

pub fn chunk(o: &mut Vec<u8>, t: &[u8; 4], d: &[u8]) {
    o.extend((d.len() as u32).to_be_bytes());
    let mut x = t.to_vec();
    x.extend(d);
    let c = crc32(&x);
    o.extend(x);
    o.extend(c.to_be_bytes());
}

/// How the samples of a PNG are stored.
#[derive(Clone, Debug, PartialEq)]
pub enum Mode {
    Rgba8,
    Rgb8,
    Rgba16,
    Gray8,
    GrayA8,
    /// palette with optional alpha, at the given bit depth
    Index(u8, Vec<Px>),
}

fn paeth(a: i32, b: i32, c: i32) -> i32 {
    let p = a + b - c;
    let (pa, pb, pc) = ((p - a).abs(), (p - b).abs(), (p - c).abs());
    if pa <= pb && pa <= pc {
        a
    } else if pb <= pc {
        b
    } else {
        c
    }
}

fn scan(src: &mut Src, mode: &Mode, w: usize, h: usize, px: &[Px]) -> Vec<u8> {
    let mut rows: Vec<Vec<u8>> = vec![];
    for y in 0..h {
        let mut r = vec![];
        let row = &px[y * w..y * w + w];
        match mode {
            Mode::Rgba8 => row.iter().for_each(|p| r.extend(p)),
            Mode::Rgb8 => row.iter().for_each(|p| r.extend(&p[..3])),
            Mode::Rgba16 => row.iter().for_each(|p| p.iter().for_each(|c| r.extend([*c, *c]))),
            Mode::Gray8 => row.iter().for_each(|p| r.push(p[0])),
            Mode::GrayA8 => row.iter().for_each(|p| r.extend([p[0], p[3]])),
            Mode::Index(bits, pal) => {
                let per = 8 / *bits as usize;
                for c in row.chunks(per) {
                    let mut b = 0u8;
                    for (i, p) in c.iter().enumerate() {
                        let k = pal.iter().position(|q| q == p).unwrap() as u8;
                        b |= k << (8 - *bits as usize * (i + 1));
                    }
                    r.push(b);
                }
            }
        }
        rows.push(r);
    }
    let bpp = match mode {
        Mode::Rgba8 => 4,
        Mode::Rgb8 => 3,
        Mode::Rgba16 => 8,
        Mode::GrayA8 => 2,
        _ => 1,
    };
    let filt = if src.chance(1, 2) { src.below(6) } else { 0 };
    let mut o = vec![];
    for y in 0..h {
        let f = if filt == 5 { (y % 5) as u8 } else { filt as u8 };
        o.push(f);
        for i in 0..rows[y].len() {
            let x = rows[y][i] as i32;
            let a = if i >= bpp { rows[y][i - bpp] as i32 } else { 0 };
            let b = if y > 0 { rows[y - 1][i] as i32 } else { 0 };
            let c = if y > 0 && i >= bpp { rows[y - 1][i - bpp] as i32 } else { 0 };
            let v = match f {
                0 => x,
                1 => x - a,
                2 => x - b,
                3 => x - (a + b) / 2,
                _ => x - paeth(a, b, c),
            };
            o.push(v as u8);
        }
    }
    o
}

/// A PNG (one frame) or APNG of the picture, stored in a randomly chosen way.
pub fn png(src: &mut Src, p: &Pic) -> Vec<u8> {
    let cols = p.colours(false);
    let gray = cols.iter().all(|c| c[0] == c[1] && c[1] == c[2]);
    let animated = p.frames.len() > 1 || src.chance(1, 8);
    let mut modes = vec![Mode::Rgba8];
    if p.opaque() {
        modes.push(Mode::Rgb8);
        if gray {
            modes.push(Mode::Gray8);
        }
    }
    if gray {
        modes.push(Mode::GrayA8);
    }
    if !animated {
        modes.push(Mode::Rgba16);
    }
    if cols.len() <= 256 && !animated {
        let bits: u8 = match cols.len() {
            0..=2 => 1,
            3..=4 => 2,
            5..=16 => 4,
            _ => 8,
        };
        modes.push(Mode::Index(bits, cols.clone()));
        if bits < 8 {
            modes.push(Mode::Index(8, cols.clone()));
        }
    }
    let mode = src.pick(&modes).clone();
    png_mode(src, p, &mode, animated)
}

pub fn png_mode(src: &mut Src, p: &Pic, mode: &Mode, animated: bool) -> Vec<u8> {
    let mut o = vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10];
    let (depth, ct) = match mode {
        Mode::Rgba8 => (8, 6),
        Mode::Rgb8 => (8, 2),
        Mode::Rgba16 => (16, 6),
        Mode::Gray8 => (8, 0),
        Mode::GrayA8 => (8, 4),
        Mode::Index(b, _) => (*b, 3),
    };
    let mut ih = vec![];
    ih.extend((p.w as u32).to_be_bytes());
    ih.extend((p.h as u32).to_be_bytes());
    ih.extend([depth, ct, 0, 0, 0]);
    chunk(&mut o, b"IHDR", &ih);
    if let Mode::Index(_, pal) = mode {
        let pl: Vec<u8> = pal.iter().flat_map(|c| c[..3].to_vec()).collect();
        chunk(&mut o, b"PLTE", &pl);
        if pal.iter().any(|c| c[3] != 255) {
            let t: Vec<u8> = pal.iter().map(|c| c[3]).collect();
            chunk(&mut o, b"tRNS", &t);
        }
    }
    if animated {
        let mut a = vec![];
        a.extend((p.frames.len() as u32).to_be_bytes());
        a.extend(0u32.to_be_bytes());
        chunk(&mut o, b"acTL", &a);
    }
    let mut seq = 0u32;
    for (i, f) in p.frames.iter().enumerate() {
        if animated {
            let mut fc = vec![];
            fc.extend(seq.to_be_bytes());
            seq += 1;
            fc.extend((p.w as u32).to_be_bytes());
            fc.extend((p.h as u32).to_be_bytes());
            fc.extend([0u8; 8]);
            fc.extend((p.delay[i] as u16).to_be_bytes());
            fc.extend(1000u16.to_be_bytes());
            fc.extend([0, 0]);
            chunk(&mut o, b"fcTL", &fc);
        }
        let z = zlib(&scan(src, mode, p.w, p.h, f));
        if i == 0 {
            let k = if src.chance(1, 6) { (z.len() / 2).max(1) } else { z.len() };
            for c in z.chunks(k) {
                chunk(&mut o, b"IDAT", c);
            }
        } else {
            let mut d = seq.to_be_bytes().to_vec();
            seq += 1;
            d.extend(z);
            chunk(&mut o, b"fdAT", &d);
        }
    }
    chunk(&mut o, b"IEND", &[]);
    o
}

/// Give the frames of an animated PNG other delays: fractions of a second,
/// the denominator 0 standing for 100.
pub fn retime(png: &mut [u8], delays: &[(u16, u16)]) {
    let (mut at, mut k) = (8, 0);
    while at + 12 <= png.len() {
        let n = u32::from_be_bytes([png[at], png[at + 1], png[at + 2], png[at + 3]]) as usize;
        if &png[at + 4..at + 8] == b"fcTL" && k < delays.len() {
            png[at + 28..at + 30].copy_from_slice(&delays[k].0.to_be_bytes());
            png[at + 30..at + 32].copy_from_slice(&delays[k].1.to_be_bytes());
            let c = crc32(&png[at + 4..at + 8 + n]);
            png[at + 8 + n..at + 12 + n].copy_from_slice(&c.to_be_bytes());
            k += 1;
        }
        at += 12 + n;
    }
}

// --------------------------------------------------------------------- GIF

pub fn lzw(min: u8, idx: &[u8]) -> Vec<u8> {
    // a clear code before the table grows past its first width
    let clear = 1u32 << min;
    let width = min as u32 + 1;
    let mut bits: Vec<u8> = vec![];
    let mut acc = 0u32;
    let mut n = 0u32;
    let put = |v: u32, acc: &mut u32, n: &mut u32, bits: &mut Vec<u8>| {
        *acc |= v << *n;
        *n += width;
        while *n >= 8 {
            bits.push(*acc as u8);
            *acc >>= 8;
            *n -= 8;
        }
    };
    let run = ((clear as usize) - 2).max(1);
    for c in idx.chunks(run) {
        put(clear, &mut acc, &mut n, &mut bits);
        for i in c {
            put(*i as u32, &mut acc, &mut n, &mut bits);
        }
    }
    put(clear + 1, &mut acc, &mut n, &mut bits);
    if n > 0 {
        bits.push(acc as u8);
    }
    bits
}

/// A GIF of the picture; pixels must be opaque or [0,0,0,0], at most 255 colours
/// in all. Transparent pixels only in the first frame.
pub fn gif(p: &Pic) -> Vec<u8> {
    let mut cols: Vec<Px> = p.colours(false).into_iter().filter(|c| c[3] == 255).collect();
    assert!(cols.len() <= 255);
    let trans = !p.opaque();
    let ti = cols.len();
    if trans {
        cols.push([9, 8, 7, 0]);
    }
    let mut bits = 2u8;
    while (1usize << bits) < cols.len() {
        bits += 1;
    }
    let mut o = b"GIF89a".to_vec();
    o.extend((p.w as u16).to_le_bytes());
    o.extend((p.h as u16).to_le_bytes());
    o.extend([0x80 | 0x70 | (bits - 1), 0, 0]);
    for i in 0..1usize << bits {
        let c = cols.get(i).copied().unwrap_or([1, 2, 3, 255]);
        o.extend(&c[..3]);
    }
    if p.frames.len() > 1 {
        o.extend([0x21, 0xFF, 11]);
        o.extend(b"NETSCAPE2.0");
        o.extend([3, 1, 0, 0, 0]);
    }
    for (i, f) in p.frames.iter().enumerate() {
        o.extend([0x21, 0xF9, 4, trans as u8 | (1 << 2)]);
        o.extend(((p.delay[i] / 10) as u16).to_le_bytes());
        o.extend([if trans { ti as u8 } else { 0 }, 0]);
        o.push(0x2C);
        o.extend([0, 0, 0, 0]);
        o.extend((p.w as u16).to_le_bytes());
        o.extend((p.h as u16).to_le_bytes());
        o.push(0);
        let idx: Vec<u8> = f.iter().map(|c| if c[3] == 0 { ti as u8 } else { cols.iter().position(|q| q == c).unwrap() as u8 }).collect();
        o.push(bits);
        let d = lzw(bits, &idx);
        for c in d.chunks(255) {
            o.push(c.len() as u8);
            o.extend(c);
        }
        o.push(0);
    }
    o.push(0x3B);
    o
}

// --------------------------------------------------------------------- BMP

/// 24-bit BMP of an opaque picture.
pub fn bmp(p: &Pic) -> Vec<u8> {
    let stride = (p.w * 3 + 3) / 4 * 4;
    let size = stride * p.h;
    let mut o = b"BM".to_vec();
    o.extend((54 + size as u32).to_le_bytes());
    o.extend(0u32.to_le_bytes());
    o.extend(54u32.to_le_bytes());
    o.extend(40u32.to_le_bytes());
    o.extend((p.w as i32).to_le_bytes());
    o.extend((p.h as i32).to_le_bytes());
    o.extend(1u16.to_le_bytes());
    o.extend(24u16.to_le_bytes());
    o.extend(0u32.to_le_bytes());
    o.extend((size as u32).to_le_bytes());
    o.extend([0u8; 16]);
    for y in (0..p.h).rev() {
        let mut row = vec![];
        for x in 0..p.w {
            let c = p.frames[0][y * p.w + x];
            row.extend([c[2], c[1], c[0]]);
        }
        row.resize(stride, 0);
        o.extend(row);
    }
    o
}

/// Binary PPM of an opaque picture.
pub fn ppm(p: &Pic) -> Vec<u8> {
    let mut o = format!("P6\n{} {}\n255\n", p.w, p.h).into_bytes();
    for c in &p.frames[0] {
        o.extend(&c[..3]);
    }
    o
}

/// Store the picture in some format that can hold it; returns the extension.
pub fn store(src: &mut Src, p: &Pic) -> (&'static str, Vec<u8>) {
    let cols = p.colours(false);
    let gif_ok = cols.iter().filter(|c| c[3] == 255).count() <= 255
        && cols.iter().all(|c| c[3] == 255 || *c == [0, 0, 0, 0])
        && p.frames.iter().skip(1).flatten().all(|c| c[3] == 255)
        && p.delay.iter().all(|d| d % 10 == 0);
    let bmp_ok = p.frames.len() == 1 && p.opaque() && p.delay[0] == 0;
    match src.below(6) {
        3 | 4 if gif_ok => ("gif", gif(p)),
        5 if bmp_ok => {
            if src.chance(1, 3) {
                ("ppm", ppm(p))
            } else {
                ("bmp", bmp(p))
            }
        }
        _ => {
            let d = png(src, p);
            ("png", d)
        }
    }
}

// -------------------------------------------------------------- references

/// round(15 c / 255)
pub fn to4(c: u8) -> u16 {
    ((30 * c as u32 + 255) / 510) as u16
}
pub fn argb4(p: &Px) -> u16 {
    to4(p[3]) << 12 | to4(p[0]) << 8 | to4(p[1]) << 4 | to4(p[2])
}

#[derive(Clone, Debug, PartialEq)]
pub enum IconRej {
    Size(usize, usize),
    Palette(usize),
    EyecatchSize(usize, usize),
}

fn palette(frames: &[Vec<u16>]) -> Vec<u16> {
    let mut pal: Vec<u16> = vec![];
    let mut seen = std::collections::HashSet::new();
    for f in frames {
        for c in f {
            if seen.insert(*c) {
                pal.push(*c);
            }
        }
    }
    pal
}

pub fn icon_bytes(p: &Pic, speed: u16, eye: Option<&Pic>) -> Result<Vec<u8>, IconRej> {
    let frames: Vec<Vec<u16>> = p.frames.iter().map(|f| f.iter().map(argb4).collect()).collect();
    let pal = palette(&frames);
    if pal.len() > 16 {
        return Err(IconRej::Palette(pal.len()));
    }
    if (p.w, p.h) != (32, 32) {
        return Err(IconRej::Size(p.w, p.h));
    }
    let mut o: Vec<u8> = vec![];
    let word = |o: &mut Vec<u8>, v: u16| o.extend(v.to_le_bytes());
    word(&mut o, frames.len() as u16);
    word(&mut o, speed);
    let eye4: Option<Vec<u16>> = eye.map(|e| e.frames[0].iter().map(argb4).collect());
    let epal = eye4.as_ref().map(|e| palette(std::slice::from_ref(e)));
    word(
        &mut o,
        match &epal {
            None => 0,
            Some(p) if p.len() <= 16 => 3,
            Some(p) if p.len() <= 256 => 2,
            Some(_) => 1,
        },
    );
    word(&mut o, 0);
    word(&mut o, 0);
    word(&mut o, 0);
    o.extend([0u8; 20]);
    for i in 0..16 {
        word(&mut o, pal.get(i).copied().unwrap_or(0));
    }
    let at = |pal: &Vec<u16>, c: u16| pal.iter().position(|x| *x == c).unwrap();
    for f in &frames {
        for c in f.chunks(2) {
            o.push((at(&pal, c[0]) << 4 | at(&pal, c[1])) as u8);
        }
    }
    if let (Some(e), Some(px), Some(ep)) = (eye, eye4, epal) {
        if (e.w, e.h) != (72, 56) {
            return Err(IconRej::EyecatchSize(e.w, e.h));
        }
        if ep.len() <= 16 {
            for i in 0..16 {
                word(&mut o, ep.get(i).copied().unwrap_or(0));
            }
            for c in px.chunks(2) {
                o.push((at(&ep, c[0]) << 4 | at(&ep, c[1])) as u8);
            }
        } else if ep.len() <= 256 {
            for i in 0..256 {
                word(&mut o, ep.get(i).copied().unwrap_or(0));
            }
            for c in px {
                o.push(at(&ep, c) as u8);
            }
        } else {
            for c in px {
                word(&mut o, c);
            }
        }
    }
    Ok(o)
}

/// 100 x weighted luminance
pub fn lum100(p: &Px) -> u32 {
    30 * p[0] as u32 + 59 * p[1] as u32 + 11 * p[2] as u32
}
/// Half way between 127 and 128: rounding is not specified.
pub fn ambiguous(p: &Px) -> bool {
    lum100(p) == 12750
}

pub fn sprite_bytes(p: &Pic, masked: bool, header: bool) -> Vec<u8> {
    let mut o = vec![];
    for f in &p.frames {
        if header {
            o.push(p.w as u8);
            o.push(p.h as u8);
        }
        if masked {
            for row in f.chunks(p.w) {
                for c in row.chunks(8) {
                    let mut b = 0xFFu8;
                    for (i, q) in c.iter().enumerate() {
                        if q[3] >= 128 {
                            b &= !(0x80 >> i);
                        }
                    }
                    o.push(b);
                }
            }
        }
        for row in f.chunks(p.w) {
            for c in row.chunks(8) {
                let mut b = 0u8;
                for (i, q) in c.iter().enumerate() {
                    if lum100(q) < 12750 {
                        b |= 0x80 >> i;
                    }
                }
                o.push(b);
            }
        }
    }
    o
}

// -------------------------------------------------------------- generation

pub fn colour(src: &mut Src, alpha: bool) -> Px {
    let c = |src: &mut Src| match src.below(4) {
        0 => *src.pick(&[0u8, 255, 8, 9, 25, 26, 127, 128, 246, 247]),
        _ => src.below(256) as u8,
    };
    let a = if alpha {
        match src.below(3) {
            0 => 255,
            1 => *src.pick(&[0u8, 127, 128, 8, 9, 246, 247, 254]),
            _ => src.below(256) as u8,
        }
    } else {
        255
    };
    let mut p = [c(src), c(src), c(src), a];
    if src.chance(1, 5) {
        p[1] = p[0];
        p[2] = p[0];
    }
    if ambiguous(&p) {
        p[2] ^= 1;
        if ambiguous(&p) {
            p[0] ^= 3;
        }
    }
    p
}

/// Pixels drawn from `pal`, each colour present when there is room.
pub fn paint(src: &mut Src, n: usize, pal: &[Px]) -> Vec<Px> {
    let style = src.below(3);
    let mut st = src.below(1 << 30);
    let mut v = Vec::with_capacity(n);
    let mut r = || {
        // a cheap local generator: one recorded choice per picture, not per pixel
        st = st.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (st >> 33) as usize
    };
    let mut cur = 0;
    for i in 0..n {
        let k = match style {
            0 => i % pal.len(),
            1 => r() % pal.len(),
            _ => {
                if r() % 5 == 0 {
                    cur = r() % pal.len();
                }
                cur
            }
        };
        v.push(pal[k]);
    }
    // make sure every colour occurs
    if pal.len() <= n {
        for (i, c) in pal.iter().enumerate() {
            if !v.contains(c) {
                let at = (r() % (n / pal.len().max(1)).max(1)) + i * (n / pal.len());
                v[at] = *c;
            }
        }
    }
    v
}

/// `n` colours, distinct after reduction to four bits when `distinct4`.
pub fn colours(src: &mut Src, n: usize, alpha: bool, distinct4: bool) -> Vec<Px> {
    let mut v: Vec<Px> = vec![];
    let mut seen4 = std::collections::HashSet::new();
    let mut seen8 = std::collections::HashSet::new();
    let mut st = src.below(1 << 30);
    while v.len() < n {
        let c = if v.len() < 20 {
            colour(src, alpha)
        } else {
            st = st.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let b = (st >> 32) as u32;
            [b as u8, (b >> 8) as u8, (b >> 16) as u8, if alpha { (b >> 24) as u8 } else { 255 }]
        };
        let c = if seen8.contains(&c) {
            // walk to a free one
            st = st.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let b = (st >> 32) as u32;
            [b as u8, (b >> 8) as u8, (b >> 16) as u8, c[3]]
        } else {
            c
        };
        if ambiguous(&c) || seen8.contains(&c) || (distinct4 && seen4.contains(&argb4(&c))) {
            continue;
        }
        seen8.insert(c);
        seen4.insert(argb4(&c));
        v.push(c);
    }
    v
}
