//! Generator of valid polygon coverages, with the ground truth of what each region covers.
use crate::ctx::{self, Sub, C};
use std::collections::{BTreeMap, BTreeSet};

pub type P = (u32, u32);
pub type Seg = (P, P);
/// Net boundary of each region: (region, segment with smaller point first) -> how often the
/// boundary (interior on its right) runs along it, negative for the opposite direction.
pub type Net = BTreeMap<(u32, Seg), i32>;

#[derive(Clone, Debug)]
pub enum RingSpec { Points(Vec<P>), Edges(Vec<Vec<P>>) }
impl RingSpec {
    pub fn points(&self) -> Vec<P> {
        match self {
            RingSpec::Points(p) => p.clone(),
            RingSpec::Edges(es) => {
                let mut v: Vec<P> = vec![];
                for e in es { for (i, p) in e.iter().enumerate() { if i > 0 || v.is_empty() { v.push(*p); } } }
                v
            }
        }
    }
}
#[derive(Clone, Debug)]
pub struct RegSpec { pub id: u32, pub outer: Vec<RingSpec>, pub inner: Vec<RingSpec>, pub junk: bool }
#[derive(Clone, Debug)]
pub struct Cov {
    pub regions: Vec<RegSpec>,
    pub net: Net,
    /// Some region touches itself at a single point.
    pub pinch: bool,
    pub flipped: bool,
    /// The same regions, divided into polygons, rings and edges in another way.
    pub alt: Vec<RegSpec>,
}

pub fn shoelace(p: &[P]) -> i128 {
    let n = p.len();
    (0..n).map(|i| { let (a, b) = (p[i], p[(i + 1) % n]); a.0 as i128 * b.1 as i128 - b.0 as i128 * a.1 as i128 }).sum()
}
pub fn add_seg(net: &mut Net, id: u32, a: P, b: P) {
    if a == b { return; }
    let (k, s) = if a < b { ((a, b), 1) } else { ((b, a), -1) };
    let e = net.entry((id, k)).or_insert(0);
    *e += s;
    if *e == 0 { net.remove(&(id, k)); }
}
/// Adds a closed point sequence.
pub fn add_loop(net: &mut Net, id: u32, p: &[P]) {
    for i in 0..p.len() { add_seg(net, id, p[i], p[(i + 1) % p.len()]); }
}

struct Face { label: u32, loops: Vec<Vec<P>> } // first loop clockwise, the others counter-clockwise

const DIR: [(i64, i64); 16] = [
    (1000, 0), (924, 383), (707, 707), (383, 924), (0, 1000), (-383, 924), (-707, 707), (-924, 383),
    (-1000, 0), (-924, -383), (-707, -707), (-383, -924), (0, -1000), (383, -924), (707, -707), (924, -383),
];

fn clamp(x: i64) -> u32 { x.clamp(0, u32::MAX as i64) as u32 }

fn polyline(a: (i64, i64), b: (i64, i64), n: u64, wiggle: bool, r: &mut Sub) -> Vec<P> {
    let mut v = vec![(clamp(a.0), clamp(a.1))];
    let (dx, dy) = (b.0 - a.0, b.1 - a.1);
    let n = n.min(dx.abs().max(dy.abs()) as u64 / 4);
    for k in 1..=n as i64 {
        let n1 = n as i64 + 1;
        let (mut x, mut y) = (a.0 as i128 + dx as i128 * k as i128 / n1 as i128, a.1 as i128 + dy as i128 * k as i128 / n1 as i128);
        if wiggle {
            // stay within a quarter of the distance to the nearer end
            let amp = (dx.abs().max(dy.abs()) as i128 * k.min(n1 - k) as i128 / n1 as i128 / 4) as i64;
            let off = r.below(2 * amp as u64 + 1) as i128 - amp as i128;
            if dx.abs() > dy.abs() { y += off } else { x += off }
        }
        v.push((clamp(x as i64), clamp(y as i64)));
    }
    v.push((clamp(b.0), clamp(b.1)));
    v.dedup();
    v
}

/// A star-shaped polygon around `c`; `more` points on each side, if there is room for them.
fn polygon(c: (i64, i64), rad: i64, more: u64, r: &mut Sub) -> Vec<P> {
    let k = [4usize, 8, 5, 6, 3, 16][r.below(6) as usize];
    let rot = r.below(16) as usize;
    let mut v: Vec<(i64, i64)> = vec![];
    for i in 0..k {
        let d = DIR[(rot + i * 16 / k) % 16];
        let rr = rad - (r.below(rad as u64 / 4 + 1) as i64);
        v.push(((d.0 as i128 * rr as i128 / 1000) as i64, (d.1 as i128 * rr as i128 / 1000) as i64));
    }
    let more = (more as i64).min(rad / 1024);
    if more > 0 {
        let mut u = vec![];
        for i in 0..k {
            let (a, b) = (v[i], v[(i + 1) % k]);
            u.push(a);
            for j in 1..=more {
                // towards the center, so that it stays star-shaped
                let t = 1000 - r.below(100) as i128;
                let at = |a: i64, b: i64| ((a as i128 * (more + 1 - j) as i128 + b as i128 * j as i128) * t / 1000 / (more + 1) as i128) as i64;
                u.push((at(a.0, b.0), at(a.1, b.1)));
            }
        }
        v = u;
    }
    v.into_iter().map(|p| (clamp(c.0 + p.0), clamp(c.1 + p.1))).collect()
}
fn rev(p: &[P]) -> Vec<P> { p.iter().rev().cloned().collect() }

/// Traces loops from directed segments; at a point with several ways out takes the sharpest right turn.
fn trace(segs: &[(P, P)]) -> Vec<Vec<P>> {
    let mut out: BTreeMap<P, Vec<P>> = BTreeMap::new();
    for (a, b) in segs { out.entry(*a).or_default().push(*b); }
    let mut loops = vec![];
    while let Some((&start, _)) = out.iter().next() {
        let mut cur = start;
        let mut prev: Option<P> = None;
        let mut l = vec![];
        loop {
            let v = out.get_mut(&cur).expect("closed chain");
            let i = if v.len() == 1 || prev.is_none() { 0 } else {
                let p = prev.unwrap();
                let inc = (p.0 as f64 - cur.0 as f64, p.1 as f64 - cur.1 as f64); // direction back
                let ang = |q: &P| {
                    let o = (q.0 as f64 - cur.0 as f64, q.1 as f64 - cur.1 as f64);
                    // angle from the way back, turning counter-clockwise on screen = right-hand side first
                    let mut t = f64::atan2(inc.0 * o.1 - inc.1 * o.0, inc.0 * o.0 + inc.1 * o.1);
                    // y down: positive cross = clockwise on screen; interior is on the right of travel
                    t = -t;
                    if t <= 0.0 { t += 2.0 * std::f64::consts::PI; }
                    t
                };
                let mut best = 0;
                for j in 1..v.len() { if ang(&v[j]) < ang(&v[best]) { best = j; } }
                best
            };
            let nx = v.remove(i);
            if v.is_empty() { out.remove(&cur); }
            l.push(cur);
            prev = Some(cur);
            cur = nx;
            if cur == start && {
                // close here unless the sharpest turn goes on
                true
            } { break; }
        }
        loops.push(l);
    }
    loops
}

/// Regions that are no coverage at all: rings that overlap, cross themselves and each other, run along
/// each other, have spikes and repeated points.
pub fn wild() -> Cov {
    ctx::cnt(C::p_t_wild);
    let grid = *ctx::pick(&[2u64, 3, 4, 6, 9, 40]);
    let (scale, off) = match ctx::below(4) { 0 => (u32::MAX as u64 / grid, 0u64), 1 => (1, u32::MAX as u64 - grid), 2 => (1 + ctx::below(1000) as u64, ctx::below(1 << 20) as u64), _ => (1, 1) };
    let mut r = Sub::new();
    let pool: Vec<Vec<P>> = (0..1 + r.below(3)).map(|_| (0..3 + r.below(7)).map(|_| ((off + scale * r.below(grid + 1)) as u32, (off + scale * r.below(grid + 1)) as u32)).collect()).collect();
    let ring = |r: &mut Sub| -> RingSpec {
        // one of the rings used elsewhere, or a new one
        let mut p: Vec<P> = if r.below(3) == 0 { let mut p = pool[r.below(pool.len() as u64) as usize].clone(); if r.below(2) == 0 { p.reverse(); } let k = r.below(p.len() as u64) as usize; p.rotate_left(k); p }
            else { (0..3 + r.below(6)).map(|_| ((off + scale * r.below(grid + 1)) as u32, (off + scale * r.below(grid + 1)) as u32)).collect() };
        if r.below(6) == 0 { let k = r.below(p.len() as u64) as usize; let q = p[k]; p.insert(k, q); }
        p.push(p[0]);
        if r.below(2) == 0 { return RingSpec::Points(p); }
        let mut es: Vec<Vec<P>> = vec![];
        let mut cur = vec![p[0]];
        for (k, q) in p.iter().enumerate().skip(1) {
            cur.push(*q);
            if k == p.len() - 1 || r.below(3) == 0 { es.push(std::mem::replace(&mut cur, vec![*q])); }
        }
        RingSpec::Edges(es)
    };
    let n = 1 + ctx::below(5);
    let regions = (0..n).map(|i| RegSpec {
        id: 100 + i,
        outer: (0..if r.below(12) == 0 { 0 } else { 1 + r.below(3) }).map(|_| ring(&mut r)).collect(),
        inner: (0..r.below(3).saturating_sub(r.below(2))).map(|_| ring(&mut r)).collect(),
        junk: false,
    }).collect();
    Cov { regions, net: Net::new(), pinch: true, flipped: true, alt: vec![] }
}

/// One region with one very long border.
pub fn giant() -> Cov {
    ctx::cnt(C::p_t_giant);
    let n = *ctx::pick(&[300u64, 5000, 66_000, 100_000]);
    let mut r = Sub::new();
    let mut p: Vec<P> = (0..n).map(|i| ((i * 40_000 + r.below(40_000)) as u32, ((1 << 30) + r.below(3 << 30)) as u32)).collect();
    let (a, b) = (p[0], p[p.len() - 1]);
    let ring = if r.below(3) == 0 {
        p.push((b.0, 0)); p.push((a.0, 0)); p.push(a);
        RingSpec::Points(p)
    } else { RingSpec::Edges(vec![p, vec![b, (b.0, 0), (a.0, 0), a]]) };
    Cov { regions: vec![RegSpec { id: 100, outer: vec![ring], inner: vec![], junk: false }], net: Net::new(), pinch: true, flipped: true, alt: vec![] }
}

/// Whether some region has several separate corners at this node.
fn touches_itself(lab: &[Vec<u32>], diag: &[Vec<(u8, u32)>], i: usize, j: usize) -> bool {
    let (w, h) = (lab.len() as i64, lab[0].len() as i64);
    let mut around: Vec<u32> = vec![];
    // clockwise: the cells to the north-west, north-east, south-east and south-west
    for (k, (dx, dy)) in [(-1i64, -1i64), (0, -1), (0, 0), (-1, 0)].iter().enumerate() {
        let (x, y) = (i as i64 + dx, j as i64 + dy);
        if x < 0 || y < 0 || x >= w || y >= h { around.push(0); continue; }
        let (d, low) = diag[x as usize][y as usize];
        let up = lab[x as usize][y as usize];
        match (d, k) {
            (0, _) => around.push(up),
            (1, 0) => around.extend(&[low, up]),
            (1, 1) => around.push(low),
            (1, 2) => around.extend(&[up, low]),
            (1, _) => around.push(up),
            (_, 0) => around.push(low),
            (_, 1) => around.extend(&[up, low]),
            (_, 2) => around.push(up),
            _ => around.extend(&[low, up]),
        }
    }
    let n = around.len();
    (0..n).any(|a| around[a] != 0 && (0..n).filter(|&b| around[b] == around[a] && around[(b + 1) % n] != around[a]).count() > 1)
}

pub struct Cfg { pub pinch_ok: bool, pub flips: bool, pub plain_rings: bool, pub junk: bool, pub small: bool, pub big: bool, pub alt: bool }

pub fn gen(cfg: &Cfg) -> Cov {
    let big = if cfg.big { ctx::below(120) } else { 0 };
    let mut long = if big == 118 { if ctx::chance(1, 8) { 1 + ctx::below(3000) as u64 } else { 1 + ctx::below(400) as u64 } } else { 0 };
    let (w, h) = if big == 119 {
        ctx::cnt(C::p_t_big);
        match ctx::below(24) {
            0..=5 => (1, 20 + ctx::below(280) as usize),
            6..=11 => (20 + ctx::below(280) as usize, 1),
            23 => { (128 + ctx::below(8) as usize, 128 + ctx::below(8) as usize) }
            _ => (8 + ctx::below(14) as usize, 8 + ctx::below(14) as usize),
        }
    } else if long > 0 { ctx::cnt(C::p_t_long); if ctx::chance(1, 20) { long = *ctx::pick(&[66_000u64, 100_000]); } (1 + ctx::below(2) as usize, 1 + ctx::below(2) as usize) }
    else if ctx::chance(1, 10) { (1 + ctx::below(7) as usize, 1 + ctx::below(7) as usize) } else { (1 + ctx::below(4) as usize, 1 + ctx::below(4) as usize) };
    let bulk = w * h > 60;
    let huge = w * h > 10_000;
    let m = w.max(h) as i64;
    let full = !cfg.small && ctx::chance(1, 4);
    let s: i64 = if full { u32::MAX as i64 / m } else if ctx::chance(1, 4) && !cfg.small { ((1 << (12 + ctx::below(14))) / m).max(64) } else { 64 << ctx::below(4) };
    let (ox, oy) = if full { (0, 0) } else {
        let room = u32::MAX as i64 - s * (m + 1);
        let o = |k: u32| match k { 0 => s, 1 => room - 1, 2 => s / 2, _ => s + ctx::below(1 << 20) as i64 };
        (o(ctx::below(4)), o(ctx::below(4)))
    };
    if full || ox > 1 << 31 || oy > 1 << 31 { ctx::cnt(C::p_t_full); }
    let straight = ctx::chance(1, 4);
    let mut r = Sub::new();
    let jit = |r: &mut Sub| if straight { 0 } else { r.below(s as u64 / 5 + 1) as i64 - s / 10 };
    let mut node = vec![vec![(0i64, 0i64); h + 1]; w + 1];
    for i in 0..=w { for j in 0..=h {
        let (mut x, mut y) = (ox + s * i as i64 + jit(&mut r), oy + s * j as i64 + jit(&mut r));
        if full { if i == 0 { x = x.max(0) } if i == w { x = x.min(u32::MAX as i64) } if j == 0 { y = y.max(0) } if j == h { y = y.min(u32::MAX as i64) } }
        node[i][j] = (clamp(x) as i64, clamp(y) as i64);
    } }
    let mids = if long > 0 { long } else if huge { 1 } else { ctx::below(4) as u64 };
    let mut hb = vec![vec![vec![]; h + 1]; w];
    let mut vb = vec![vec![vec![]; h]; w + 1];
    for i in 0..w { for j in 0..=h { let n = if huge { 1 } else if long > 60_000 && i + j > 0 { 0 } else if long > 60_000 { long } else { r.below(mids + 1) }; hb[i][j] = polyline(node[i][j], node[i + 1][j], n, !straight, &mut r); } }
    for i in 0..=w { for j in 0..h { let n = if huge { 1 } else if long > 60_000 { 0 } else { r.below(mids + 1) }; vb[i][j] = polyline(node[i][j], node[i][j + 1], n, !straight, &mut r); } }
    // labels: 0 is "no region"
    let nl = if bulk && ctx::chance(1, 2) { 30 + ctx::below(70) } else { 1 + ctx::below(6) };
    let empty_den = *ctx::pick(&[6u32, 3, 1000, 12]);
    let draw = |r: &mut Sub, n: u32| if bulk { r.below(n as u64) as u32 } else { ctx::below(n) };
    let mut lab = vec![vec![0u32; h]; w];
    let each = ctx::chance(1, if huge { 2 } else { 5 });
    for i in 0..w { for j in 0..h {
        lab[i][j] = if each { 1 + (i * h + j) as u32 } else if i + j > 0 && draw(&mut r, 3) == 2 { if i > 0 { lab[i - 1][j] } else { lab[i][j - 1] } } else if draw(&mut r, empty_den) == 1 { 0 } else { 1 + draw(&mut r, nl) };
    } }
    let is_pinch = |lab: &Vec<Vec<u32>>, i: usize, j: usize| -> bool {
        let (a, b, c, d) = (lab[i - 1][j - 1], lab[i][j - 1], lab[i - 1][j], lab[i][j]);
        (a == d && a != 0 && a != b && a != c) || (b == c && b != 0 && b != a && b != d)
    };
    let mut pinch = false;
    let allow = cfg.pinch_ok && ctx::chance(1, 3);
    if !allow {
        for round in 0.. {
            let mut any = false;
            for i in 1..w { for j in 1..h {
                if is_pinch(&lab, i, j) {
                    any = true;
                    let (a, d) = (lab[i - 1][j - 1], lab[i][j]);
                    if a == d && a != 0 { lab[i][j - 1] = a; } else { let b = lab[i][j - 1]; lab[i][j] = b; }
                }
            } }
            if !any { break; }
            if round > 30 { for c in lab.iter_mut() { for x in c.iter_mut() { *x = 1; } } break; }
        }
    } else {
        for i in 1..w { for j in 1..h { pinch |= is_pinch(&lab, i, j); } }
        if pinch { ctx::cnt(C::p_t_pinch); }
    }
    // faces cut in two by a diagonal: 1 from top left to bottom right, 2 from top right to bottom left; and the label of the lower part
    let mut diag = vec![vec![(0u8, 0u32); h]; w];
    if ctx::chance(1, 4) && !huge {
        ctx::cnt(C::p_t_diag);
        for i in 0..w { for j in 0..h {
            let k = draw(&mut r, 4);
            if k < 2 {
                diag[i][j] = (1 + k as u8, if each { (w * h + 1 + i * h + j) as u32 } else { draw(&mut r, nl + 1) });
                let p = (0..4).any(|c| touches_itself(&lab, &diag, i + c % 2, j + c / 2));
                if p && !allow { diag[i][j] = (0, 0); } else if p && !pinch { pinch = true; ctx::cnt(C::p_t_pinch); }
            }
        } }
    }
    // faces
    let mut faces: Vec<Face> = vec![];
    for i in 0..w { for j in 0..h {
        if diag[i][j].0 > 0 {
            let n = if s < 1024 { 0 } else { r.below(mids + 1) };
            let d = if diag[i][j].0 == 1 { polyline(node[i][j], node[i + 1][j + 1], n, false, &mut r) } else { polyline(node[i + 1][j], node[i][j + 1], n, false, &mut r) };
            let close = |parts: &[(&[P], bool)]| -> Vec<P> { parts.iter().flat_map(|(l, back)| { let l2 = if *back { rev(l) } else { l.to_vec() }; l2[..l2.len() - 1].to_vec() }).collect() };
            let (up, down) = if diag[i][j].0 == 1 {
                (close(&[(&hb[i][j], false), (&vb[i + 1][j], false), (&d, true)]), close(&[(&d, false), (&hb[i][j + 1], true), (&vb[i][j], true)]))
            } else {
                (close(&[(&hb[i][j], false), (&d, false), (&vb[i][j], true)]), close(&[(&vb[i + 1][j], false), (&hb[i][j + 1], true), (&d, true)]))
            };
            faces.push(Face { label: lab[i][j], loops: vec![up] });
            faces.push(Face { label: diag[i][j].1, loops: vec![down] });
            continue;
        }
        let mut o: Vec<P> = vec![];
        let mut push = |l: &[P], back: bool| { let l2 = if back { rev(l) } else { l.to_vec() }; o.extend(&l2[..l2.len() - 1]); };
        push(&hb[i][j], false);
        push(&vb[i + 1][j], false);
        push(&hb[i][j + 1], true);
        push(&vb[i][j], true);
        let mut f = Face { label: lab[i][j], loops: vec![o] };
        let isl = if long > 0 { 2 } else { 7 };
        if draw(&mut r, isl) == isl - 1 {
            let more = if long > 0 { r.below(80) } else if r.below(4) == 0 && !bulk { r.below(8) } else { 0 };
            let ns = [node[i][j], node[i + 1][j], node[i][j + 1], node[i + 1][j + 1]];
            let c = (ns.iter().map(|n| n.0).sum::<i64>() / 4, ns.iter().map(|n| n.1).sum::<i64>() / 4);
            let rad = s / 16 + r.below((s / 7 - s / 16) as u64 + 1) as i64;
            let p = polygon(c, rad, more, &mut r);
            f.loops.push(rev(&p));
            let l1 = draw(&mut r, nl + 1);
            match { let n = if rad < 48 { 2 } else { 3 }; draw(&mut r, n) } {
                0 => faces.push(Face { label: l1, loops: vec![p] }),
                1 => {
                    // divided island
                    let l2 = draw(&mut r, nl + 1);
                    let hf = p.len() / 2;
                    let mid = (clamp(c.0), clamp(c.1));
                    let mut a: Vec<P> = p[..=hf].to_vec();
                    let mut b: Vec<P> = p[hf..].to_vec();
                    b.push(p[0]);
                    if draw(&mut r, 2) == 1 || p.len() == 3 || more > 0 { a.push(mid); b.push(mid); }
                    if l1 == lab[i][j] || l2 == lab[i][j] { ctx::cnt(C::p_t_partial); }
                    faces.push(Face { label: l1, loops: vec![a] });
                    faces.push(Face { label: l2, loops: vec![b] });
                }
                _ => {
                    let q = polygon(c, rad / 6, more, &mut r);
                    let l2 = draw(&mut r, nl + 1);
                    ctx::cnt(C::p_t_island);
                    faces.push(Face { label: l1, loops: vec![p, rev(&q)] });
                    faces.push(Face { label: l2, loops: vec![q] });
                }
            }
        }
        faces.push(f);
    } }
    for f in &faces {
        for (k, l) in f.loops.iter().enumerate() {
            let a = shoelace(l);
            if (k == 0) != (a > 0) || a == 0 { ctx::harness_error(&format!("generator: face loop {} has area {}: {:?}", k, a, l)); }
        }
    }
    // regions
    let mut net = Net::new();
    let labels: BTreeSet<u32> = faces.iter().map(|f| f.label).filter(|&l| l > 0).collect();
    for f in &faces { if f.label > 0 { for p in &f.loops { add_loop(&mut net, 100 + f.label, p); } } }
    let assemble = |r: &mut Sub| -> (Vec<RegSpec>, bool) {
    let mut loops_of: Vec<(u32, Vec<Vec<P>>, Vec<Vec<P>>)> = vec![];
    let mode = ctx::below(3);
    let mut by_label: BTreeMap<u32, Vec<&Face>> = BTreeMap::new();
    for f in &faces { by_label.entry(f.label).or_default().push(f); }
    for &l in &labels {
        let id = 100 + l;
        let fs: Vec<&Face> = by_label.remove(&l).unwrap();
        let mut clusters: Vec<Vec<&Face>> = vec![];
        match mode {
            0 => for f in fs { clusters.push(vec![f]); },
            1 => clusters.push(fs),
            _ => {
                let k = 1 + r.below(3) as usize;
                clusters = (0..k).map(|_| vec![]).collect();
                for f in fs { let c = r.below(k as u64) as usize; clusters[c].push(f); }
            }
        }
        let (mut outer, mut inner) = (vec![], vec![]);
        for c in clusters {
            if c.is_empty() { continue; }
            let ls: Vec<Vec<P>> = if c.len() == 1 { c[0].loops.clone() } else {
                let mut n = Net::new();
                for f in &c { for p in &f.loops { add_loop(&mut n, 0, p); } }
                let segs: Vec<(P, P)> = n.iter().map(|((_, (a, b)), k)| if *k > 0 { (*a, *b) } else { (*b, *a) }).collect();
                if c.len() > 1 { ctx::cnt(C::p_t_merge); }
                trace(&segs)
            };
            for x in ls { if shoelace(&x) > 0 { outer.push(x) } else { inner.push(x) } }
        }
        if !inner.is_empty() { ctx::cnt(C::p_t_hole); }
        loops_of.push((id, outer, inner));
    }
    // nodes
    let mut deg: BTreeMap<P, BTreeSet<P>> = BTreeMap::new();
    for (_, o, i) in &loops_of { for l in o.iter().chain(i) { for k in 0..l.len() {
        let (a, b) = (l[k], l[(k + 1) % l.len()]);
        deg.entry(a).or_default().insert(b);
        deg.entry(b).or_default().insert(a);
    } } }
    let all_nodes = cfg.plain_rings || ctx::chance(1, 2);
    let extra = r.below(4);
    let mut nodes: BTreeSet<P> = deg.iter().filter(|(_, d)| all_nodes || d.len() != 2).map(|(p, _)| *p).collect();
    if !all_nodes { for p in deg.keys() { if extra > 0 && r.below(8) < extra { nodes.insert(*p); } } }
    for (_, o, i) in &loops_of { for l in o.iter().chain(i) {
        if l.iter().all(|p| !nodes.contains(p)) { nodes.insert(l[r.below(l.len() as u64) as usize]); }
    } }
    let flips = cfg.flips && ctx::chance(1, 6);
    let dups = ctx::chance(1, 10);
    let ring = |l: &Vec<P>, r: &mut Sub| -> RingSpec {
        let starts: Vec<usize> = (0..l.len()).filter(|&k| nodes.contains(&l[k])).collect();
        let st = starts[r.below(starts.len() as u64) as usize];
        let mut pts: Vec<P> = l[st..].iter().chain(&l[..st]).cloned().collect();
        pts.push(pts[0]);
        if flips && r.below(2) == 0 { pts.reverse(); }
        if all_nodes && (cfg.plain_rings || r.below(3) > 0) {
            if dups && r.below(3) == 0 { let k = r.below(pts.len() as u64) as usize; let p = pts[k]; pts.insert(k, p); }
            return RingSpec::Points(pts);
        }
        let mut es: Vec<Vec<P>> = vec![];
        let mut cur = vec![pts[0]];
        for (k, p) in pts.iter().enumerate().skip(1) {
            cur.push(*p);
            if nodes.contains(p) || k == pts.len() - 1 { es.push(std::mem::replace(&mut cur, vec![*p])); }
        }
        RingSpec::Edges(es)
    };
    let mut regions: Vec<RegSpec> = vec![];
    for (id, o, i) in &loops_of {
        let outer = o.iter().map(|l| ring(l, r)).collect();
        let inner = i.iter().map(|l| ring(l, r)).collect();
        regions.push(RegSpec { id: *id, outer, inner, junk: false });
    }
    (regions, flips)
    };
    let (mut regions, flips) = assemble(&mut r);
    let alt = if cfg.alt && !huge { assemble(&mut r).0 } else { vec![] };
    if cfg.junk && ctx::chance(1, 6) {
        let p = (clamp(ox), clamp(oy));
        let q = (clamp(ox + s / 2), clamp(oy + s / 3));
        let junk = |k: u32| match k { 0 => RingSpec::Points(vec![p, p, p, p]), 1 => RingSpec::Points(vec![p, q, p]), _ => RingSpec::Edges(vec![vec![p, q], vec![q, p]]) };
        let k = if cfg.plain_rings { 0 } else { ctx::below(3) };
        if regions.is_empty() || ctx::chance(1, 2) {
            let at = ctx::below(regions.len() as u32 + 1) as usize;
            let outer = if !cfg.plain_rings && ctx::chance(1, 4) { vec![] } else { vec![junk(k)] };
            regions.insert(at, RegSpec { id: 90_000, outer, inner: vec![], junk: true });
        } else {
            let at = ctx::below(regions.len() as u32) as usize;
            if !cfg.plain_rings && ctx::chance(1, 2) { regions[at].inner.push(junk(k)); } else { regions[at].outer.insert(0, junk(k)); }
        }
    }
    if regions.is_empty() { ctx::cnt(C::p_t_empty); }
    Cov { regions, net, pinch, flipped: flips, alt }
}
