//! Reference model of a shapefile pair: generator, encoder and an independent decoder.
use crate::cp1252::CP1252;
use crate::ctx::{self, C};
use crate::stream::{Fault, What};
use std::io::ErrorKind;

pub type Pt = (u64, u64); // bits of two f64
pub type Rings = Vec<Vec<Pt>>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Enc { Ascii, Utf8, W1252, Latin1 }
pub fn enc_ref(e: Enc) -> encoding::EncodingRef {
    match e {
        Enc::Ascii => encoding::all::ASCII,
        Enc::Utf8 => encoding::all::UTF_8,
        Enc::W1252 => encoding::all::WINDOWS_1252,
        Enc::Latin1 => encoding::all::ISO_8859_1,
    }
}
pub fn decode(e: Enc, b: &[u8]) -> Option<String> {
    match e {
        Enc::Ascii => if b.iter().all(|&x| x < 128) { Some(b.iter().map(|&x| x as char).collect()) } else { None },
        Enc::Utf8 => std::str::from_utf8(b).ok().map(|s| s.to_string()),
        Enc::W1252 => Some(b.iter().map(|&x| if x < 128 { x as char } else { char::from_u32(CP1252[x as usize - 128]).unwrap() }).collect()),
        Enc::Latin1 => Some(b.iter().map(|&x| x as char).collect()),
    }
}

#[derive(Clone, Debug)]
pub struct Field { pub name: Vec<u8>, pub ty: u8, pub len: u8 }

#[derive(Clone, Debug)]
pub struct Dataset {
    pub enc: Enc,
    pub bbox: [f64; 4], // xmin ymin xmax ymax
    pub shapes: Vec<(u32, Rings)>,
    pub fields: Vec<Field>,
    pub rows: Vec<Vec<u8>>,
    pub hdr_extra: Vec<u8>, // after the field descriptors (normally 0x0d)
    pub noise: u64, // what is in the bytes that mean nothing (0: zeros)
}

/// What reading one field of one row must give.
#[derive(Clone, Debug, PartialEq)]
pub enum Val { Is(String), Err, Any,
    /// An error, or one of these.
    ErrOr(Vec<String>) }

pub fn ref_value(enc: Enc, f: &Field, offset: usize, row: &[u8]) -> Val {
    let end = offset + f.len as usize;
    if end > row.len() {
        return Val::Err;
    }
    let b = &row[offset..end];
    match f.ty {
        b'C' => {
            let mut n = b.len();
            while n > 0 && b[n - 1] == b' ' { n -= 1; }
            match decode(enc, &b[..n]) { Some(s) => Val::Is(s), None => Val::Err }
        }
        b'N' => {
            let mut i = 0;
            while i < b.len() && b[i] == b' ' { i += 1; }
            let t = &b[i..];
            let mut j = 0;
            if j < t.len() && t[j] == b'-' { j += 1; }
            let d0 = j;
            while j < t.len() && t[j].is_ascii_digit() { j += 1; }
            let mut ok = j > d0;
            if ok && j < t.len() && t[j] == b'.' {
                j += 1;
                let d1 = j;
                while j < t.len() && t[j].is_ascii_digit() { j += 1; }
                ok = j > d1;
            }
            if ok && j == t.len() {
                Val::Is(String::from_utf8(t.to_vec()).unwrap())
            } else {
                Val::Err
            }
        }
        b'+' | b'|' => {
            if b.len() == 4 {
                Val::Is((b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16 | (b[3] as u32) << 24).to_string())
            } else if b.len() < 4 { Val::Err } else {
                Val::ErrOr(vec![(b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16 | (b[3] as u32) << 24).to_string()])
            }
        }
        b'F' | b'D' | b'L' => err_or_text(b),
        _ => Val::Any,
    }
}
fn err_or_text(b: &[u8]) -> Val {
    match std::str::from_utf8(b) {
        Ok(t) => Val::ErrOr(vec![t.to_string(), t.trim().to_string(), t.trim_start().to_string(), t.trim_end().to_string()]),
        Err(_) => Val::Any,
    }
}

fn text_for(enc: Enc, max: usize) -> Vec<u8> {
    // A value whose last byte is not a space, at most `max` bytes.
    let mut out = Vec::new();
    let want = match ctx::below(5) { 0 => 0, 1 => max, 2 => max.min(1), _ => ctx::below(max as u32 + 1) as usize };
    let style = ctx::below(4);
    let mut r = ctx::Sub::new();
    let mut tries = 0;
    while out.len() < want && tries < 400 {
        tries += 1;
        let piece: Vec<u8> = match (enc, style) {
            (Enc::Utf8, 2) | (Enc::Utf8, 3) => {
                let cs = ['é', 'ß', '中', '😀', 'a', 'Ω', ' ', '\u{7f}', 'ÿ', '\u{800}', '\u{ffff}', '\u{10ffff}'];
                cs[r.below(cs.len() as u64) as usize].to_string().into_bytes()
            }
            (Enc::W1252, 2) | (Enc::Latin1, 2) => vec![128 + r.below(128) as u8],
            (Enc::W1252, 3) | (Enc::Latin1, 3) => vec![r.below(256) as u8],
            (_, 1) => vec![b' ', b'x', b'0', b'.'][r.below(4) as usize..][..1].to_vec(),
            _ => vec![32 + r.below(95) as u8],
        };
        if out.len() + piece.len() <= want { out.extend(piece); }
    }
    while out.last() == Some(&b' ') {
        out.pop();
    }
    if out.iter().any(|&b| b >= 128) { ctx::cnt(if enc == Enc::Utf8 { C::p_utf8 } else { C::p_w1252 }); }
    out
}

fn number_for(max: usize) -> Vec<u8> {
    if max == 0 { return vec![]; }
    let mut r = ctx::Sub::new();
    let neg = max >= 2 && ctx::chance(1, 3);
    let room = max - neg as usize;
    let total = 1 + ctx::below(room as u32) as usize;
    let mut s = String::new();
    if neg { s.push('-'); }
    let dot = total >= 3 && ctx::chance(1, 2);
    let dotpos = if dot { 1 + ctx::below(total as u32 - 2) as usize } else { usize::MAX };
    for i in 0..total {
        if i == dotpos { s.push('.'); } else { s.push((b'0' + r.below(10) as u8) as char); }
    }
    s.into_bytes()
}

pub struct GenCfg { pub max_recs: u32, pub big: bool, pub unsupported_types: bool, pub geo: bool }

pub fn gen(cfg: &GenCfg) -> Dataset {
    let enc = *ctx::pick(&[Enc::Ascii, Enc::Utf8, Enc::W1252, Enc::Latin1]);
    if cfg.max_recs >= 20 && ctx::chance(1, 150) { return gen_many(enc, cfg.max_recs >= 24); }
    let nrec = ctx::size(4, cfg.max_recs) as usize;
    let nf = if ctx::chance(1, 40) { if ctx::chance(1, 4) { *ctx::pick(&[240u32, 240, 500, 1000, 1800]) + ctx::below(60) } else { ctx::below(120) } } else { ctx::below(7) } as usize;
    if nf > 20 { ctx::cnt(C::p_manyfields); }
    if nrec == 0 { ctx::cnt(C::p_emptyfile); }
    let mut fields = Vec::new();
    let mut width = 1usize;
    for i in 0..nf {
        let tys: &[u8] = if cfg.unsupported_types { b"CN+|CNCNDLF@O?" } else { b"CN+|CNCN" };
        let ty = *ctx::pick(tys);
        let mut len = match ty {
            b'+' | b'|' => 4,
            b'N' => if ctx::chance(1, 12) { 1 + ctx::below(255) } else { 1 + ctx::below(20) },
            b'C' => match ctx::below(8) { 0 => 10, 1 => 0, 2 => 1, 3 => 254, 4 => 255, _ => 1 + ctx::below(60) },
            b'D' => 8, b'L' => 1, b'@' | b'O' => 8,
            _ => 1 + ctx::below(20),
        };
        if width + len as usize > 60000 { len = if ty == b'C' { 0 } else { 1 }; }
        if ty == b'+' || ty == b'|' { len = 4; ctx::cnt(C::p_long); }
        if ty == b'N' { ctx::cnt(C::p_num); }
        width += len as usize;
        let mut name = format!("{}{}", pick_name(), i).into_bytes();
        let full = ctx::chance(1, 5);
        if full { while name.len() < 11 { name.push(b'A' + (name.len() as u8)); } }
        if enc == Enc::Utf8 && ctx::chance(1, 8) { name = format!("é{}", i).into_bytes(); }
        name.truncate(11);
        // (names need be neither there nor distinct)
        match ctx::below(80) { 0 => name.clear(), 1 if i > 0 => { let f: &Field = &fields[ctx::below(i as u32) as usize]; name = f.name.clone(); } _ => {} }
        fields.push(Field { name, ty, len: len as u8 });
    }
    let mut rows = Vec::new();
    for _ in 0..nrec {
        let mut row = vec![match ctx::below(60) { 0..=5 => b'*', 6 => *ctx::pick(&[0x1au8, 0, 0x0d, 0xff]), _ => b' ' }];
        for f in &fields {
            let l = f.len as usize;
            match f.ty {
                b'C' => { let mut v = text_for(enc, l); v.resize(l, b' '); row.extend(v); }
                b'N' => { let v = number_for(l); row.extend(std::iter::repeat(b' ').take(l - v.len())); row.extend(v); }
                b'+' | b'|' => {
                    let v: u32 = match ctx::below(4) { 0 => 0, 1 => u32::MAX, 2 => 1 << 31, _ => ctx::below(u32::MAX) };
                    row.extend(v.to_le_bytes());
                }
                b'D' => row.extend(b"20170502"),
                b'L' => row.extend(b"T"),
                _ => { let mut r = ctx::Sub::new(); row.extend((0..l).map(|_| b'0' + r.below(10) as u8)); }
            }
        }
        rows.push(row);
    }
    // geometry
    let bbox = gen_bbox(cfg.geo);
    let giant = if nrec > 0 && ctx::chance(1, 120) { ctx::below(nrec as u32) as usize } else { usize::MAX };
    let mut shapes = Vec::new();
    for i in 0..nrec {
        if i == giant { shapes.push((i as u32 + 1, giant_rings(&bbox, cfg.geo))); continue; }
        let nr = 1 + ctx::size(2, 12) as usize;
        if nr > 1 { ctx::cnt(C::p_multipart); }
        let mut rings = Vec::new();
        for _ in 0..nr {
            let np = if cfg.big && ctx::chance(1, 30) { 4 + ctx::below(1500) } else { 4 + ctx::size(4, 40) } as usize;
            if np * 16 > 8192 { ctx::cnt(C::p_bigrec); }
            let ring = if cfg.geo { geo_ring(&bbox, np) } else { any_ring(&bbox, np) };
            rings.push(ring.iter().map(|p| (p.0.to_bits(), p.1.to_bits())).collect());
        }
        let num = if ctx::chance(1, 12) { ctx::below(u32::MAX) } else { i as u32 + 1 };
        shapes.push((num, rings));
    }
    let hdr_extra = match ctx::below(8) { 7 => { let mut v = vec![0x0d]; let n = *ctx::pick(&[31u32, 32, 263, 263, 1 + ctx::below(300)]); let z = ctx::below(2) == 0; let mut r = ctx::Sub::from(ctx::below(1 << 30) as u64); v.extend((0..n).map(|_| if z { 0 } else { r.next() as u8 })); v } 0 => vec![], 1 => vec![0x0d, 0x00], 2 => { let mut v = vec![0x0d]; v.resize(1 + ctx::below(31) as usize, 0); v } _ => vec![0x0d] };
    Dataset { enc, bbox, shapes, fields, rows, hdr_extra, noise: noise() }
}
fn noise() -> u64 { if ctx::chance(1, 4) { ctx::cnt(C::p_noise); 1 + ctx::below(u32::MAX - 1) as u64 } else { 0 } }

fn gen_bbox(geo: bool) -> [f64; 4] {
    if !geo && ctx::chance(1, 20) {
        let s = [f64::NAN, f64::INFINITY, -0.0, f64::MAX, f64::from_bits(1), f64::MIN];
        return [*ctx::pick(&s), *ctx::pick(&s), *ctx::pick(&s), *ctx::pick(&s)];
    }
    let (ox, oy, sc) = match ctx::below(7) { 6 => { let sc = 10f64.powi(ctx::below(60) as i32 - 30); (sc * (ctx::below(2001) as f64 - 1000.0), sc * (ctx::below(2001) as f64 - 1000.0), sc) } 0 => (0.0, 0.0, 100.0), 1 => (-180.0, -90.0, 180.0), 2 => (7.6e6, 1.2e6, 2.5e5), 3 => (-1.0e3, 5.0, 0.125), 4 => (-3.0e-7, 1.0e-9, 1.0e-6), _ => (-2.0e12, 4.0e13, 1.0e13) };
    let (a, b) = (ctx::below(3), ctx::below(4));
    [ox, oy, ox + sc * (1.0 + a as f64), oy + sc * if b == 3 { 0.03125 } else { 1.0 + b as f64 }]
}

/// One record with a very long ring, or with very many rings.
fn giant_rings(bbox: &[f64; 4], geo: bool) -> Rings {
    ctx::cnt(C::p_giant);
    let bits = |v: Vec<(f64, f64)>| v.iter().map(|p| (p.0.to_bits(), p.1.to_bits())).collect::<Vec<Pt>>();
    let how = ctx::below(8);
    if how < 5 {
        let np = match how { 0 | 1 => 1500 + ctx::below(3000), 2 | 3 => 4000 + ctx::below(9000), _ => 65_500 + ctx::below(200) } as usize;
        return vec![bits(if geo { star(bbox, np) } else { any_ring(bbox, np) })];
    }
    let nr = match how { 5 | 6 => 200 + ctx::below(400), _ => if ctx::chance(1, 3) { 65_500 + ctx::below(100) } else { 1000 + ctx::below(4000) } } as usize;
    let mut r = ctx::Sub::new();
    (0..nr).map(|_| bits(tiny_box(bbox, &mut r))).collect()
}
fn tiny_box(b: &[f64; 4], r: &mut ctx::Sub) -> Vec<(f64, f64)> {
    let (w, h) = (b[2] - b[0], b[3] - b[1]);
    let (x, y) = (0.99 * r.unit(), 0.99 * r.unit());
    let mut s = 0.0001 + 0.009 * r.unit();
    if r.below(60) == 0 { s *= 1e-8; }
    let (xa, ya, xb, yb) = (b[0] + w * x, b[1] + h * y, b[0] + w * (x + s), b[1] + h * (y + s));
    let mut v = vec![(xa, ya), (xa, yb), (xb, yb), (xa, ya)];
    if r.below(3) == 0 { v.insert(3, (xb, ya)); }
    if r.below(3) == 0 { v.reverse(); }
    v
}

/// A file with hundreds of records, or with more than 65536.
fn gen_many(enc: Enc, most: bool) -> Dataset {
    ctx::cnt(C::p_many);
    let nrec = if !most { 250 + ctx::below(400) } else if ctx::chance(1, 16) { 65_530 + ctx::below(20) } else { 250 + ctx::below(1500) } as usize;
    let bbox = gen_bbox(true);
    let mut fields = vec![Field { name: b"serial".to_vec(), ty: b'C', len: 7 }];
    if ctx::chance(1, 2) { fields.push(Field { name: b"n".to_vec(), ty: b'N', len: 6 }); }
    if ctx::chance(1, 2) { fields.push(Field { name: b"id".to_vec(), ty: b'+', len: 4 }); }
    let mut r = ctx::Sub::new();
    let mut rows = Vec::new();
    let mut shapes = Vec::new();
    for i in 0..nrec {
        let mut row = vec![b' '];
        for f in &fields {
            match f.ty { b'C' => row.extend(format!("{:<7}", i).into_bytes()), b'N' => row.extend(format!("{:>6}", i).into_bytes()), _ => row.extend((i as u32).to_le_bytes()) }
        }
        rows.push(row);
        let rings = (0..1 + r.below(2)).map(|_| tiny_box(&bbox, &mut r).iter().map(|p| (p.0.to_bits(), p.1.to_bits())).collect()).collect();
        shapes.push((i as u32 + 1, rings));
    }
    Dataset { enc, bbox, shapes, fields, rows, hdr_extra: vec![0x0d], noise: noise() }
}

fn pick_name() -> &'static str { *ctx::pick(&["f", "NAME", "DBUID", "a_", "x y"]) }

fn any_ring(b: &[f64; 4], np: usize) -> Vec<(f64, f64)> {
    let mut r = ctx::Sub::new();
    let odd = ctx::chance(1, 6);
    let mut v: Vec<(f64, f64)> = (0..np - 1).map(|_| {
        if odd && r.below(4) == 0 {
            let s = [f64::MAX, f64::MIN_POSITIVE, -0.0, f64::INFINITY, 1e-300, -1e38];
            (s[r.below(6) as usize], s[r.below(6) as usize])
        } else {
            (b[0] + (b[2] - b[0]) * r.unit(), b[1] + (b[3] - b[1]) * r.unit())
        }
    }).collect();
    // (the format wants the last point to equal the first, but says nothing of a reader that checks it)
    v.push(if odd && r.below(3) == 0 { (b[0], b[1]) } else { v[0] });
    v
}

/// A simple (star-shaped) ring of either direction inside the box, of any size up to all of it.
fn geo_ring(b: &[f64; 4], np: usize) -> Vec<(f64, f64)> {
    let (w, h) = (b[2] - b[0], b[3] - b[1]);
    let mut v: Vec<(f64, f64)>;
    match ctx::below(6) {
        0 | 1 => {
            // an axis-parallel box: the whole extent, a corner of it, or somewhere
            let (x0, y0, x1, y1) = match ctx::below(4) {
                0 => (0.25, 0.25, 0.5, 0.5),
                1 => (0.0, 0.0, 1.0, 1.0),
                2 => (0.75 + 0.2 * ctx::below(100) as f64 / 100.0, 0.0, 1.0, 0.01 + 0.2 * ctx::below(100) as f64 / 100.0),
                _ => { let a = ctx::below(900) as f64 / 1000.0; let c = ctx::below(900) as f64 / 1000.0; (a, c, a + 0.1, c + 0.1) }
            };
            let xa = b[0] + w * x0; let xb = if x1 == 1.0 { b[2] } else { b[0] + w * x1 };
            let ya = b[1] + h * y0; let yb = if y1 == 1.0 { b[3] } else { b[1] + h * y1 };
            v = vec![(xa, ya), (xa, yb), (xb, yb), (xb, ya), (xa, ya)];
        }
        2 => { let mut r = ctx::Sub::new(); v = tiny_box(b, &mut r); }
        _ => v = star(b, np),
    }
    if ctx::chance(1, 3) { v.reverse(); }
    if ctx::chance(1, 4) {
        // repeated points, and points so close that they fall together
        let mut r = ctx::Sub::new();
        for _ in 0..1 + r.below(4) {
            let i = r.below(v.len() as u64) as usize;
            let p = v[i];
            let q = if i > 0 && i + 1 < v.len() && r.below(2) == 0 { (p.0 + w * 2e-11 * (r.unit() - 0.5), p.1 + h * 2e-11 * (r.unit() - 0.5)) } else { p };
            v.insert(i, if (b[0]..=b[2]).contains(&q.0) && (b[1]..=b[3]).contains(&q.1) { q } else { p });
        }
        ctx::cnt(C::p_dup);
    }
    v
}

/// A star-shaped ring around a point, of any size down to a few units of the grid.
fn star(b: &[f64; 4], np: usize) -> Vec<(f64, f64)> {
    let (w, h) = (b[2] - b[0], b[3] - b[1]);
    let mut r = ctx::Sub::new();
    let (cx, cy) = (0.1 + 0.8 * r.unit(), 0.1 + 0.8 * r.unit());
    let mut m = cx.min(1.0 - cx).min(cy).min(1.0 - cy);
    if r.below(8) == 0 { m *= [1e-8, 1e-9, 1e-10, 1e-11, 0.0][r.below(5) as usize]; }
    let mut v: Vec<(f64, f64)> = (0..np - 1).map(|i| {
        let a = -(i as f64) / (np - 1) as f64 * std::f64::consts::TAU;
        let rr = m * (0.3 + 0.7 * r.unit());
        (b[0] + w * (cx + rr * a.cos()), b[1] + h * (cy + rr * a.sin()))
    }).collect();
    v.push(v[0]);
    v
}

// ---------------------------------------------------------------- encoding

pub fn record_body(rings: &Rings) -> Vec<u8> {
    let mut b = Vec::new();
    b.extend(5u32.to_le_bytes());
    let (mut x0, mut y0, mut x1, mut y1) = (f64::INFINITY, f64::INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY);
    let mut n = 0u32;
    for r in rings {
        for p in r {
            let (x, y) = (f64::from_bits(p.0), f64::from_bits(p.1));
            x0 = x0.min(x); y0 = y0.min(y); x1 = x1.max(x); y1 = y1.max(y);
            n += 1;
        }
    }
    // (nothing depends on a record's own box)
    if ctx::chance(1, 16) { let v = *ctx::pick(&[0.0, f64::NAN, 1e300, -1.0]); x1 = v; y0 = v; if ctx::chance(1, 2) { x0 = v; y1 = v; } }
    for v in [x0, y0, x1, y1] { b.extend(v.to_le_bytes()); }
    b.extend((rings.len() as u32).to_le_bytes());
    b.extend(n.to_le_bytes());
    let mut s = 0u32;
    for r in rings { b.extend(s.to_le_bytes()); s += r.len() as u32; }
    for r in rings { for p in r { b.extend(p.0.to_le_bytes()); b.extend(p.1.to_le_bytes()); } }
    b
}

/// Encodes record bodies with their headers; returns the file and each record's offset.
pub fn encode_shp(d: &Dataset, bodies: &[(u32, Vec<u8>)]) -> (Vec<u8>, Vec<usize>) {
    let mut f = vec![0u8; 100];
    let bbox = &d.bbox;
    if d.noise != 0 {
        let mut r = ctx::Sub::from(d.noise);
        if r.below(2) == 0 { for k in 4..24 { f[k] = r.next() as u8; } }
        for k in 0..4 { let v = [0.0, 1.5, -1e39, f64::NAN][r.below(4) as usize]; f[68 + 8 * k..76 + 8 * k].copy_from_slice(&v.to_le_bytes()); }
    }
    f[0..4].copy_from_slice(&9994u32.to_be_bytes());
    f[28..32].copy_from_slice(&1000u32.to_le_bytes());
    f[32..36].copy_from_slice(&5u32.to_le_bytes());
    for i in 0..4 { f[36 + 8 * i..44 + 8 * i].copy_from_slice(&bbox[i].to_le_bytes()); }
    let mut offs = Vec::new();
    for (num, b) in bodies {
        offs.push(f.len());
        f.extend(num.to_be_bytes());
        f.extend((b.len() as u32 / 2).to_be_bytes());
        f.extend(b);
    }
    let words = f.len() as u32 / 2;
    f[24..28].copy_from_slice(&words.to_be_bytes());
    (f, offs)
}
pub fn encode_dbf(d: &Dataset) -> Vec<u8> {
    let width: usize = 1 + d.fields.iter().map(|f| f.len as usize).sum::<usize>();
    let mut f = vec![0u8; 32];
    f[0] = 3; f[1] = 117; f[2] = 4; f[3] = 24;
    f[4..8].copy_from_slice(&(d.rows.len() as u32).to_le_bytes());
    let mut noise = ctx::Sub::from(d.noise);
    if d.noise != 0 {
        f[0] = [0x03, 0x04, 0x05, 0x30, 0x83, 0x8b, 0xf5, 0xfb][noise.below(8) as usize];
        f[1] = noise.next() as u8;
        f[2] = noise.below(13) as u8;
        f[3] = noise.below(32) as u8;
        for k in 12..32 { f[k] = noise.next() as u8; }
    }
    let hl = 32 + 32 * d.fields.len() + d.hdr_extra.len();
    f[8..10].copy_from_slice(&(hl as u16).to_le_bytes());
    f[10..12].copy_from_slice(&(width as u16).to_le_bytes());
    for x in &d.fields {
        let mut h = vec![0u8; 32];
        if d.noise != 0 {
            for k in 12..32 { h[k] = noise.next() as u8; }
            if noise.below(2) == 0 { for k in (x.name.len() + 1).min(11)..11 { h[k] = noise.next() as u8; } }
        }
        h[..x.name.len()].copy_from_slice(&x.name);
        h[11] = x.ty;
        h[16] = x.len;
        f.extend(h);
    }
    f.extend(&d.hdr_extra);
    for r in &d.rows { f.extend(r); }
    if d.noise != 0 { f.push(0x1a); if noise.below(4) == 0 { f.extend(vec![0u8; noise.below(600) as usize]); } }
    f
}
pub fn encode(d: &Dataset) -> (Vec<u8>, Vec<usize>, Vec<u8>) {
    let bodies: Vec<(u32, Vec<u8>)> = d.shapes.iter().map(|(n, r)| (*n, record_body(r))).collect();
    let (s, offs) = encode_shp(d, &bodies);
    (s, offs, encode_dbf(d))
}

// ---------------------------------------------------------------- reference decoder

#[derive(Clone, Debug)]
pub enum Ev<T> {
    Ok(T),
    /// Must be rejected.
    Bad,
    /// Unusual: may be rejected or delivered as given.
    Gray(T),
    /// The bytes are not there.
    Io(ErrorKind),
    /// A record that runs past the declared end of the file: some error, and nothing after it is defined.
    Over,
}

fn be(b: &[u8], i: usize) -> u32 { u32::from_be_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]) }
fn le(b: &[u8], i: usize) -> u32 { u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]) }
fn le64(b: &[u8], i: usize) -> u64 { (le(b, i) as u64) | (le(b, i + 4) as u64) << 32 }

/// Are bytes [pos, pos+n) delivered? If not: the error kind a reader meets.
fn need(len: usize, faults: &[Fault], pos: usize, n: usize) -> Result<(), ErrorKind> {
    if n == 0 { return Ok(()); }
    let f = faults.iter().filter(|f| f.at >= pos && f.at < pos + n && f.at <= len).min_by_key(|f| f.at);
    match f {
        Some(f) => Err(match f.what { What::Eof => ErrorKind::UnexpectedEof, What::Err(k, _) => k }),
        None => if pos + n > len { Err(ErrorKind::UnexpectedEof) } else { Ok(()) },
    }
}

pub fn judge_body(b: &[u8]) -> Ev<Rings> {
    if b.len() < 4 || le(b, 0) != 5 || b.len() < 44 { return Ev::Bad; }
    let np = le(b, 36) as u64;
    let nn = le(b, 40) as u64;
    if np == 0 || 44 + 4 * np + 16 * nn != b.len() as u64 { return Ev::Bad; }
    let (np, nn) = (np as usize, nn as usize);
    let mut starts: Vec<usize> = (0..np).map(|i| le(b, 44 + 4 * i) as usize).collect();
    let odd = starts[0] != 0;
    starts.push(nn);
    for w in starts.windows(2) {
        if w[0] > w[1] || w[1] > nn || w[1] - w[0] < 4 { return Ev::Bad; }
    }
    let rings: Rings = starts.windows(2).map(|w| (w[0]..w[1]).map(|i| { let o = 44 + 4 * np + 16 * i; (le64(b, o), le64(b, o + 8)) }).collect()).collect();
    if odd { Ev::Gray(rings) } else { Ev::Ok(rings) }
}

pub struct RefShp { pub open: Ev<[f64; 4]>, pub recs: Vec<Ev<(u32, Rings)>>, pub ends: Vec<usize> }
pub fn ref_shp(f: &[u8], faults: &[Fault]) -> RefShp {
    let mut out = RefShp { open: Ev::Bad, recs: vec![], ends: vec![] };
    if let Err(k) = need(f.len(), faults, 0, 100) { out.open = Ev::Io(k); return out; }
    if be(f, 0) != 9994 || le(f, 28) != 1000 || le(f, 32) != 5 { return out; }
    let bb = [0, 1, 2, 3].map(|i| f64::from_bits(le64(f, 36 + 8 * i)));
    out.open = Ev::Ok(bb);
    let total = be(f, 24) as usize * 2;
    let mut pos = 100usize;
    while pos < total {
        if let Err(k) = need(f.len(), faults, pos, 8) { out.recs.push(Ev::Io(k)); out.ends.push(pos); return out; }
        let num = be(f, pos);
        let n = be(f, pos + 4) as usize * 2;
        if n > 1 << 30 { ctx::cnt(C::p_hugelen); }
        if pos + 8 + n > total { out.recs.push(Ev::Over); out.ends.push(pos); return out; }
        if let Err(k) = need(f.len(), faults, pos + 8, n) { out.recs.push(Ev::Io(k)); out.ends.push(pos); return out; }
        let body = &f[pos + 8..pos + 8 + n];
        pos += 8 + n;
        out.ends.push(pos);
        out.recs.push(match judge_body(body) { Ev::Ok(r) => Ev::Ok((num, r)), Ev::Gray(r) => Ev::Gray((num, r)), _ => Ev::Bad });
    }
    out
}

pub struct RefDbf { pub open: Ev<Vec<Field>>, pub rows: Vec<Ev<Vec<u8>>>, pub n_rows: u64 }
pub fn ref_dbf(f: &[u8], faults: &[Fault], enc: Enc, cap: usize) -> RefDbf {
    let mut out = RefDbf { open: Ev::Bad, rows: vec![], n_rows: 0 };
    if let Err(k) = need(f.len(), faults, 0, 32) { out.open = Ev::Io(k); return out; }
    let odd_date = f[2] > 12 || f[3] > 31;
    let n = le(f, 4) as u64;
    let hl = f[8] as usize | (f[9] as usize) << 8;
    let rl = f[10] as usize | (f[11] as usize) << 8;
    if hl < 32 || rl == 0 { return out; }
    if let Err(k) = need(f.len(), faults, 32, hl - 32) { out.open = Ev::Io(k); if odd_date { out.open = Ev::Bad } return out; }
    let mut fields = Vec::new();
    let mut gray = odd_date;
    let mut width = 1;
    for c in f[32..hl].chunks(32) {
        if c.len() < 32 || c[0] == 0x0d { break; } // 0x0d ends the table; the header may go on
        let e = c[..11].iter().position(|&x| x == 0).unwrap_or(11);
        if decode(enc, &c[..e]).is_none() { gray = true; }
        width += c[16] as usize;
        fields.push(Field { name: c[..e].to_vec(), ty: c[11], len: c[16] });
    }
    // A field table that does not fit the row may be rejected on opening.
    if width > rl { gray = true; }
    out.open = if gray { Ev::Gray(fields) } else { Ev::Ok(fields) };
    out.n_rows = n;
    let mut pos = hl;
    for _ in 0..n {
        if out.rows.len() >= cap { break; }
        if let Err(k) = need(f.len(), faults, pos, rl) { out.rows.push(Ev::Io(k)); return out; }
        out.rows.push(Ev::Ok(f[pos..pos + rl].to_vec()));
        pos += rl;
    }
    out
}

// ---------------------------------------------------------------- storage damage

/// Applies storage damage to the two images. `offs`: record offsets in the .shp image.
pub fn damage(shp: &mut Vec<u8>, dbf: &mut Vec<u8>, offs: &[usize], n_fields: usize) {
    let n = 1 + ctx::below(3);
    for _ in 0..n {
        let which = ctx::below(2);
        match ctx::below(9) {
            0 => {
                let f = if which == 0 { &mut *shp } else { &mut *dbf };
                if f.is_empty() { continue; }
                let p = ctx::below(f.len() as u32) as usize;
                let b = ctx::below(8);
                f[p] ^= 1 << b;
                ctx::cnt(C::f_flip);
                ctx::fev("flip", which as u64, (p * 8) as u64 + b as u64);
            }
            1 | 2 | 3 | 4 => {
                // a length, count or index field
                let val: u32 = match ctx::below(8) {
                    0 => 0, 1 => 1, 2 => u32::MAX, 3 => 0x7fff_ffff, 4 => 0x8000_0000, 5 => ctx::below(64), 6 => ctx::below(4096), _ => ctx::below(u32::MAX),
                };
                if which == 0 {
                    let mut places: Vec<(usize, bool)> = vec![(24, true), (0, true), (28, false), (32, false)];
                    if !offs.is_empty() {
                        let o = *ctx::pick(offs);
                        places.extend([(o + 4, true), (o + 4, true), (o + 8, false), (o + 44, false), (o + 48, false), (o + 52, false), (o + 56, false), (o + 60, false), (o, true)]);
                    }
                    let (p, big) = *ctx::pick(&places);
                    if p + 4 > shp.len() { continue; }
                    let old = be(shp, p);
                    let oldle = le(shp, p);
                    let v = match ctx::below(3) { 0 => val, 1 => (if big { old } else { oldle }).wrapping_add(1 + ctx::below(4)), _ => (if big { old } else { oldle }).wrapping_sub(1 + ctx::below(4)) };
                    shp[p..p + 4].copy_from_slice(&if big { v.to_be_bytes() } else { v.to_le_bytes() });
                    ctx::fev("set-field-shp", p as u64, v as u64);
                } else {
                    let mut places = vec![(4usize, 4usize), (8, 2), (10, 2), (2, 1), (3, 1)];
                    if n_fields > 0 {
                        let k = ctx::below(n_fields as u32) as usize;
                        places.extend([(32 + 32 * k + 16, 1), (32 + 32 * k + 11, 1), (32 + 32 * k, 1), (32 + 32 * k + 10, 1), (32 + 32 * k + 16, 1)]);
                    }
                    let (p, w) = *ctx::pick(&places);
                    if p + w > dbf.len() { continue; }
                    let v = if ctx::chance(1, 2) { val } else if w == 1 { dbf[p] as u32 ^ 0 } else { dbf[p] as u32 | (dbf[p + 1] as u32) << 8 }.wrapping_add(ctx::below(5)).wrapping_sub(2);
                    dbf[p..p + w].copy_from_slice(&v.to_le_bytes()[..w]);
                    ctx::fev("set-field-dbf", p as u64, v as u64);
                }
                ctx::cnt(C::f_setfield);
            }
            5 => {
                let f = if which == 0 { &mut *shp } else { &mut *dbf };
                let p = ctx::below(f.len() as u32 + 1) as usize;
                f.truncate(p);
                ctx::cnt(C::f_trunc);
                ctx::fev("lost-tail", which as u64, p as u64);
            }
            6 => {
                let f = if which == 0 { &mut *shp } else { &mut *dbf };
                let bs = *ctx::pick(&[16usize, 64, 512]);
                if f.is_empty() { continue; }
                let p = ctx::below((f.len() / bs) as u32 + 1) as usize * bs;
                let e = (p + bs).min(f.len());
                let fill = *ctx::pick(&[0u8, 0xff]);
                if p < e { for x in &mut f[p..e] { *x = fill; } }
                ctx::cnt(C::f_zero);
                ctx::fev("lost-block", which as u64, p as u64);
            }
            7 => {
                // torn or misdirected: a block replaced by another block of either file
                let bs = *ctx::pick(&[8usize, 32, 100, 512]);
                let other = ctx::chance(1, 2);
                let src = if (which == 0) ^ other { shp.clone() } else { dbf.clone() };
                let f = if which == 0 { &mut *shp } else { &mut *dbf };
                if src.is_empty() || f.is_empty() { continue; }
                let sp = ctx::below(src.len() as u32) as usize;
                let dp = ctx::below(f.len() as u32) as usize;
                let m = bs.min(src.len() - sp).min(f.len() - dp);
                f[dp..dp + m].copy_from_slice(&src[sp..sp + m]);
                ctx::cnt(if other { C::f_misdir } else { C::f_torn });
                ctx::fev("stale-block", which as u64, dp as u64);
            }
            _ => {
                let f = if which == 0 { &mut *shp } else { &mut *dbf };
                let k = 1 + ctx::below(64) as usize;
                let mut r = ctx::Sub::new();
                f.extend((0..k).map(|_| r.next() as u8));
                ctx::cnt(C::f_append);
                ctx::fev("trailing-garbage", which as u64, k as u64);
            }
        }
    }
}
