//! Topology world: operation histories on generated coverages in a simulated environment
//! (allocator, hash seeds, scheduler, failing clones), checked step by step.
use crate::arena;
use crate::cover::{self, add_loop, Cov, Net, RingSpec, Seg, P};
use crate::ctx::{self, C};
use crate::model::{self, Dataset, Enc, Field};
use crate::os;
use crate::sched;
use crate::stream::SimStream;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use topogeo::clip::{clip_topology, ClipMask};
use topogeo::geo;
use topogeo::normalize;
use topogeo::read::shapefile as sf;
use topogeo::simplify;
use topogeo::topology::{Direction, TopoEdge, TopoRing, Topology, TopologyBuilder};

// ---------------------------------------------------------------- the caller's data

const ALIVE: u64 = 0x11fe_11fe_11fe_11fe;
static LIVE: AtomicI64 = AtomicI64::new(0);
static MADE: AtomicU64 = AtomicU64::new(0);
/// The clone that panics (counting down); 0: none.
static PANIC_AT: AtomicI64 = AtomicI64::new(0);

pub struct Tok { magic: u64, pub id: u32, boxed: Box<u32> }
impl Tok {
    fn new(id: u32) -> Tok {
        LIVE.fetch_add(1, SeqCst);
        MADE.fetch_add(1, SeqCst);
        Tok { magic: ALIVE, id, boxed: Box::new(id) }
    }
    fn ok(&self) -> bool { self.magic == ALIVE && *self.boxed == self.id }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        let _g = ctx::harness();
        sched::yield_point("clone", 6);
        if self.magic != ALIVE { ctx::violate("data-lost", "a value was cloned after it had been dropped"); unsafe { libc::_exit(0) } }
        if PANIC_AT.load(SeqCst) > 0 && PANIC_AT.fetch_sub(1, SeqCst) == 1 {
            ctx::cnt(C::f_clonepanic);
            ctx::fev("clone-panics", self.id as u64, 0);
            std::panic::panic_any(Injected);
        }
        ctx::ev("clone", self.id as u64, 0);
        Tok::new(self.id)
    }
}
struct Injected;
impl Drop for Tok {
    fn drop(&mut self) {
        let _g = ctx::harness();
        if self.magic != ALIVE { ctx::violate("double-drop", &format!("a value was dropped twice (id field now {})", self.id)); unsafe { libc::_exit(0) } }
        self.magic = 0xdead;
        LIVE.fetch_sub(1, SeqCst);
    }
}

// ---------------------------------------------------------------- snapshots

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Link { Null, Ring(u32, bool, u32), Bad } // region, outer?, index
#[derive(Clone, PartialEq, Debug)]
pub struct RingSnap { edges: Vec<(usize, bool)>, region_ok: bool }
#[derive(Clone, PartialEq, Debug)]
pub struct RegSnap { id: u32, outer: Vec<RingSnap>, inner: Vec<RingSnap> }
#[derive(Clone, PartialEq, Debug)]
pub struct Snap { regions: Vec<RegSnap>, edges: Vec<(Vec<P>, [Link; 2])> }

/// Copies a topology out without following any pointer that does not point into it.
fn snap(t: &Topology<Tok>) -> Result<Snap, (&'static str, String)> {
    let _g = ctx::harness();
    let base = t.edges.as_ptr() as usize;
    let size = std::mem::size_of::<TopoEdge<Tok>>();
    let mut where_is: BTreeMap<usize, Link> = BTreeMap::new();
    for (i, r) in t.regions.iter().enumerate() {
        for (k, x) in r.outer_rings.iter().enumerate() { where_is.insert(x as *const TopoRing<Tok> as usize, Link::Ring(i as u32, true, k as u32)); }
        for (k, x) in r.inner_rings.iter().enumerate() { where_is.insert(x as *const TopoRing<Tok> as usize, Link::Ring(i as u32, false, k as u32)); }
    }
    let mut regions = vec![];
    for r in t.regions.iter() {
        if !r.data.ok() { return Err(("data-lost", "a region's data is not a live value".into())); }
        let rp = r as *const _ as usize;
        let conv = |rs: &[TopoRing<Tok>]| -> Result<Vec<RingSnap>, (&'static str, String)> {
            let mut v = vec![];
            for ring in rs {
                let mut es = vec![];
                for de in ring.directed_edges.iter() {
                    let a = de.edge as usize;
                    if a < base || (a - base) % size != 0 || (a - base) / size >= t.edges.len() {
                        return Err(("links", format!("a ring of region {} uses an edge that is not one of the topology's {} edges", r.data.id, t.edges.len())));
                    }
                    es.push(((a - base) / size, de.direction == Direction::Forward));
                }
                v.push(RingSnap { edges: es, region_ok: ring.region as usize == rp });
            }
            Ok(v)
        };
        regions.push(RegSnap { id: r.data.id, outer: conv(&r.outer_rings)?, inner: conv(&r.inner_rings)? });
    }
    let edges = t.edges.iter().map(|e| {
        let l = |p: *const TopoRing<Tok>| if p.is_null() { Link::Null } else { where_is.get(&(p as usize)).cloned().unwrap_or(Link::Bad) };
        (e.points.iter().map(|p| (p.0, p.1)).collect(), [l(e.rings[0]), l(e.rings[1])])
    }).collect();
    Ok(Snap { regions, edges })
}

impl Snap {
    fn ring_points(&self, r: &RingSnap) -> Vec<P> {
        // closed: the last point repeats the first
        let mut v: Vec<P> = vec![];
        for &(e, fwd) in &r.edges {
            let p = &self.edges[e].0;
            let it: Vec<P> = if fwd { p.clone() } else { p.iter().rev().cloned().collect() };
            for q in it { if v.last() != Some(&q) { v.push(q); } }
        }
        v
    }
    fn rings(&self) -> impl Iterator<Item = (usize, bool, usize, &RingSnap)> {
        self.regions.iter().enumerate().flat_map(|(i, r)| {
            r.outer.iter().enumerate().map(move |(k, x)| (i, true, k, x)).chain(r.inner.iter().enumerate().map(move |(k, x)| (i, false, k, x)))
        })
    }
    /// The net boundary of each region, outer rings taken clockwise and inner ones counter-clockwise.
    fn net(&self) -> Net {
        let mut n = Net::new();
        for (i, outer, _, r) in self.rings() {
            let mut p = self.ring_points(r);
            if p.len() > 1 && p.first() == p.last() { p.pop(); }
            let a = cover::shoelace(&p);
            if (a < 0) == outer && a != 0 { p.reverse(); }
            add_loop(&mut n, self.regions[i].id, &p);
        }
        n
    }
    fn ids(&self) -> Vec<u32> { self.regions.iter().map(|r| r.id).collect() }
    fn vertices(&self) -> BTreeSet<P> { self.edges.iter().flat_map(|e| e.0.iter().cloned()).collect() }
    fn seg_uses(&self) -> BTreeMap<Seg, u32> {
        let mut m = BTreeMap::new();
        for e in &self.edges { for w in e.0.windows(2) {
            let k = if w[0] < w[1] { (w[0], w[1]) } else { (w[1], w[0]) };
            *m.entry(k).or_insert(0) += 1;
        } }
        m
    }
    fn hash(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        let mut f = |v: u64| ctx::hash_bytes(&mut h, &v.to_le_bytes());
        for r in &self.regions {
            f(r.id as u64); f(r.outer.len() as u64);
            for x in r.outer.iter().chain(&r.inner) { f(x.edges.len() as u64); for e in &x.edges { f(e.0 as u64 * 2 + e.1 as u64); } }
        }
        for e in &self.edges { f(e.0.len() as u64); for p in &e.0 { f((p.0 as u64) << 32 | p.1 as u64); } }
        h
    }
}

// ---------------------------------------------------------------- oracles

/// C10: the graph is closed and its links are exact.
fn check_links(s: &Snap) -> Result<(), String> {
    let mut uses: BTreeMap<usize, Vec<Link>> = BTreeMap::new();
    for (i, outer, k, r) in s.rings() {
        let id = s.regions[i].id;
        if !r.region_ok { return Err(format!("{} ring {} of region {} names another region (or none) as its own", if outer { "outer" } else { "inner" }, k, id)); }
        if r.edges.is_empty() { return Err(format!("a ring of region {} has no edges", id)); }
        for j in 0..r.edges.len() {
            let (a, b) = (r.edges[j], r.edges[(j + 1) % r.edges.len()]);
            let (pa, pb) = (&s.edges[a.0].0, &s.edges[b.0].0);
            if pa.len() < 2 || pb.len() < 2 { return Err(format!("a ring of region {} uses an edge with fewer than two points", id)); }
            let end = if a.1 { pa[pa.len() - 1] } else { pa[0] };
            let start = if b.1 { pb[0] } else { pb[pb.len() - 1] };
            if end != start { return Err(format!("ring {} of region {} is not closed: edge {} ends at {:?}, the next one starts at {:?}", k, id, j, end, start)); }
            uses.entry(a.0).or_default().push(Link::Ring(i as u32, outer, k as u32));
        }
    }
    for (e, (_, links)) in s.edges.iter().enumerate() {
        let mut want = uses.remove(&e).unwrap_or_default();
        let mut got: Vec<Link> = links.iter().filter(|l| **l != Link::Null).cloned().collect();
        if got.contains(&Link::Bad) { return Err(format!("edge {} names a ring that is not in the topology", e)); }
        want.sort();
        got.sort();
        if want != got { return Err(format!("edge {} names the rings {:?} but {:?} run along it", e, got, want)); }
    }
    Ok(())
}

/// Boundaries along the lines that were clipped at, in a form that does not depend on how they are
/// divided: what runs there and back cancels, what continues is joined.
fn canon(n: Net, lines: &[Mask]) -> Net {
    if lines.is_empty() { return n; }
    let mut out = Net::new();
    let mut d: BTreeMap<(u32, bool, u32), BTreeMap<i128, i32>> = BTreeMap::new();
    for (k, v) in n {
        match lines.iter().find(|m| m.on(k.1 .0) && m.on(k.1 .1)) {
            None => { out.insert(k, v); }
            Some(m) => {
                let e = d.entry((k.0, m.x_axis, m.c)).or_default();
                let (a, b) = (m.o(k.1 .0), m.o(k.1 .1));
                let (a, b, v) = if a < b { (a, b, v) } else { (b, a, -v) };
                *e.entry(a).or_insert(0) += v;
                *e.entry(b).or_insert(0) -= v;
            }
        }
    }
    for ((id, x_axis, c), m) in d {
        let (mut at, mut level) = (0i128, 0i32);
        for (x, dv) in m {
            if dv == 0 { continue; }
            if level != 0 {
                let pt = |o: i128| if x_axis { (c, o as u32) } else { (o as u32, c) };
                let (p, q) = (pt(at), pt(x));
                if p < q { out.insert((id, (p, q)), level); } else { out.insert((id, (q, p)), -level); }
            }
            level += dv;
            at = x;
        }
    }
    out
}
fn diff_net(want: &Net, got: &Net) -> Option<String> {
    for (k, v) in want { if got.get(k) != Some(v) { return Some(format!("region {} lost the boundary {:?}-{:?} ({} expected, {} found)", k.0, k.1 .0, k.1 .1, v, got.get(k).unwrap_or(&0))); } }
    for (k, v) in got { if want.get(k) != Some(v) { return Some(format!("region {} gained the boundary {:?}-{:?} ({} found, {} expected)", k.0, k.1 .0, k.1 .1, v, want.get(k).unwrap_or(&0))); } }
    None
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Mask { x_axis: bool, keep_ge: bool, c: u32 }
impl Mask {
    fn a(&self, p: P) -> i128 { (if self.x_axis { p.0 } else { p.1 }) as i128 }
    fn o(&self, p: P) -> i128 { (if self.x_axis { p.1 } else { p.0 }) as i128 }
    /// 1 inside, 0 on, -1 outside
    fn loc(&self, p: P) -> i32 {
        let d = self.a(p) - self.c as i128;
        (if self.keep_ge { d.signum() } else { -d.signum() }) as i32
    }
    fn on(&self, p: P) -> bool { self.loc(p) == 0 }
    fn real(&self) -> ClipMask {
        match (self.x_axis, self.keep_ge) {
            (true, true) => ClipMask::MinX(self.c), (true, false) => ClipMask::MaxX(self.c),
            (false, true) => ClipMask::MinY(self.c), (false, false) => ClipMask::MaxY(self.c),
        }
    }
    /// The crossing of p-q with the mask line as a fraction (num, den), den > 0.
    fn cross(&self, p: P, q: P) -> (i128, i128) {
        let (mut num, mut den) = (self.o(p) * (self.a(q) - self.a(p)) + (self.c as i128 - self.a(p)) * (self.o(q) - self.o(p)), self.a(q) - self.a(p));
        if den < 0 { num = -num; den = -den; }
        (num, den)
    }
    /// No vertex lies close to the line without being on it, and no two crossings come close.
    fn clean(&self, s: &Snap) -> bool {
        let mut xs: Vec<(f64, bool)> = vec![];
        for e in &s.edges {
            for p in &e.0 {
                let d = (self.a(*p) - self.c as i128).abs();
                if d > 0 && d < 8 { return false; }
                if d == 0 { xs.push((self.o(*p) as f64, true)); }
            }
            for w in e.0.windows(2) {
                if self.loc(w[0]) * self.loc(w[1]) < 0 {
                    let (n, d) = self.cross(w[0], w[1]);
                    xs.push((n as f64 / d as f64, self.o(w[0]) == self.o(w[1])));
                }
            }
        }
        xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
        xs.windows(2).all(|w| w[1].0 - w[0].0 >= 4.0 || (w[1].0 == w[0].0 && w[0].1 && w[1].1))
    }
}

/// Clip: the exact comparison of boundaries.
fn clip_exact(m: &Mask, pre: &Net, post: &Net) -> Result<(), String> {
    let mut exact = Net::new();
    let mut cross: BTreeMap<(u32, P, i32), Vec<(i128, i128)>> = BTreeMap::new();
    for (&(id, (p, q)), &n) in pre {
        match (m.loc(p), m.loc(q)) {
            (0, 0) => {}
            (a, b) if a >= 0 && b >= 0 => { exact.insert((id, (p, q)), n); }
            (1, -1) => for _ in 0..n.abs() { cross.entry((id, p, n.signum())).or_default().push(m.cross(p, q)); },
            (-1, 1) => for _ in 0..n.abs() { cross.entry((id, q, -n.signum())).or_default().push(m.cross(p, q)); },
            _ => {}
        }
    }
    let mut got: BTreeMap<(u32, P, i32), Vec<i128>> = BTreeMap::new();
    for (&(id, (p, q)), &n) in post {
        let (a, b) = (m.loc(p), m.loc(q));
        if a < 0 || b < 0 { return Err(format!("region {} still has a boundary outside the mask: {:?}-{:?}", id, p, q)); }
        if a == 0 && b == 0 { continue; }
        let n = n - exact.remove(&(id, (p, q))).unwrap_or(0);
        if n == 0 { continue; }
        if a > 0 && b > 0 { return Err(format!("region {} gained the boundary {:?}-{:?}", id, p, q)); }
        let (inner, x, d) = if a > 0 { (p, q, n) } else { (q, p, -n) };
        for _ in 0..d.abs() { got.entry((id, inner, d.signum())).or_default().push(m.o(x)); }
    }
    if let Some(((id, (p, q)), _)) = exact.iter().next() { return Err(format!("region {} lost the boundary {:?}-{:?}", id, p, q)); }
    for (k, mut want) in cross {
        let mut g = got.remove(&k).unwrap_or_default();
        g.sort();
        want.sort_by(|a, b| (a.0 * b.1).cmp(&(b.0 * a.1)));
        if g.len() != want.len() { return Err(format!("region {}: {} of {} cut boundaries at {:?} are left", k.0, g.len(), want.len(), k.1)); }
        for (x, (n, d)) in g.iter().zip(&want) {
            if (x * d - n).abs() > *d { return Err(format!("region {}: the boundary from {:?} is cut at {} instead of {:.3}", k.0, k.1, x, *n as f64 / *d as f64)); }
        }
    }
    if let Some((k, _)) = got.iter().next() { return Err(format!("region {} gained a boundary from {:?} to the mask", k.0, k.1)); }
    Ok(())
}

/// Clip where vertices or crossings coincide within rounding: inner boundaries exactly, the rest by area.
fn clip_area(m: &Mask, pre: &Net, post: &Net, lines: &[Mask]) -> Result<(), String> {
    let inside = |n: &Net| -> Net { n.iter().filter(|((_, (p, q)), _)| m.loc(*p) > 0 && m.loc(*q) > 0 && !lines.iter().any(|l| l.on(*p) && l.on(*q))).map(|(k, v)| (*k, *v)).collect() };
    if let Some(d) = diff_net(&inside(pre), &inside(post)) { return Err(d); }
    let depth = |p: P| (m.a(p) - m.c as i128).abs() as f64;
    let mut area: BTreeMap<u32, (f64, f64, f64)> = BTreeMap::new(); // want, tolerance, got
    for (&(id, (p, q)), &n) in pre {
        let e = area.entry(id).or_default();
        let (lp, lq) = (m.loc(p), m.loc(q));
        let (op, oq) = (m.o(p) as f64, m.o(q) as f64);
        let x = |num: (i128, i128)| (num.0 / num.1) as f64 + (num.0 % num.1) as f64 / num.1 as f64;
        let (a2, tol) = match (lp, lq) {
            (a, b) if a >= 0 && b >= 0 => ((depth(p) + depth(q)) * (oq - op), 0.0),
            (1, -1) => (depth(p) * (x(m.cross(p, q)) - op), depth(p) * 1.1 + 2.0),
            (-1, 1) => (depth(q) * (oq - x(m.cross(p, q))), depth(q) * 1.1 + 2.0),
            _ => (0.0, 0.0),
        };
        e.0 += a2 * n as f64;
        e.1 += tol * n.abs() as f64 + a2.abs() * 1e-12;
    }
    for (&(id, (p, q)), &n) in post {
        if m.loc(p) < 0 || m.loc(q) < 0 { return Err(format!("region {} still has a boundary outside the mask: {:?}-{:?}", id, p, q)); }
        let e = area.entry(id).or_default();
        let a2 = (depth(p) + depth(q)) * (m.o(q) as f64 - m.o(p) as f64);
        e.2 += a2 * n as f64;
        e.1 += a2.abs() * 1e-12;
    }
    for (id, (want, tol, got)) in area {
        if (want - got).abs() > tol + 1.0 { return Err(format!("region {} covers {} (twice the area) after clipping instead of {} +- {}", id, got.abs(), want.abs(), tol)); }
    }
    Ok(())
}

/// Which regions have something left after a clip: Some(true/false) if certain.
fn clip_alive(m: &Mask, pre: &Net, id: u32, clean: bool) -> Option<bool> {
    let mut any = false;
    for (&(i, (p, q)), _) in pre.range((id, ((0, 0), (0, 0)))..(id + 1, ((0, 0), (0, 0)))) {
        debug_assert_eq!(i, id);
        any |= m.loc(p) > 0 || m.loc(q) > 0;
    }
    if !any { Some(false) } else if clean { Some(true) } else { None }
}

fn check_cover(op: &Op, pre: &Snap, post: &Snap, pre_net: &Net, post_net: &Net, clean: bool, lines: &[Mask]) -> Result<(), String> {
    match op {
        Op::Normalize => {
            if pre.ids() != post.ids() { return Err(format!("regions {:?} became {:?}", pre.ids(), post.ids())); }
            if let Some(d) = diff_net(pre_net, post_net) { return Err(d); }
            for (i, outer, k, r) in post.rings() {
                let p = post.ring_points(r);
                let a = cover::shoelace(&p);
                if (outer && a < 0) || (!outer && a > 0) { return Err(format!("{} ring {} of region {} is {}", if outer { "outer" } else { "inner" }, k, post.regions[i].id, if a > 0 { "clockwise" } else { "counter-clockwise" })); }
            }
            for r in &post.regions {
                let mut seen: BTreeSet<usize> = BTreeSet::new();
                for x in r.outer.iter().chain(&r.inner) { for e in &x.edges {
                    if !seen.insert(e.0) { return Err(format!("region {} still has an inner border: {:?}", r.id, post.edges[e.0].0)); }
                } }
            }
        }
        Op::Clip(m) => {
            let ids: Vec<u32> = post.ids();
            let mut it = ids.iter();
            let mut next = it.next();
            for id in pre.ids() {
                let alive = next == Some(&id);
                if alive { next = it.next(); }
                if let Some(w) = clip_alive(m, pre_net, id, clean) {
                    if w != alive { return Err(if w { format!("region {} has something left inside the mask but was dropped", id) } else { format!("region {} has nothing left inside the mask but was kept", id) }); }
                }
                if !alive { ctx::cnt(C::p_t_dropreg); }
            }
            if next.is_some() { return Err(format!("regions {:?} became {:?}", pre.ids(), ids)); }
            match clip_exact(m, pre_net, post_net) {
                Ok(()) => {}
                // rounding can put a cut on an earlier clip line: compare piece by piece
                Err(e) if clean => if clip_exact(m, &pre.net(), &post.net()).is_err() { return Err(e) },
                Err(_) => clip_area(m, pre_net, post_net, lines)?,
            }
        }
        Op::Simplify(_) => {}
    }
    Ok(())
}

/// C14: every stretch of border is stored once.
fn check_shared(s: &Snap, lines: &[Mask], cut: Option<&Mask>) -> Result<(), String> {
    for ((p, q), n) in s.seg_uses() {
        if p == q { continue; }
        if n > 1 && !lines.iter().any(|m| m.on(p) && m.on(q)) { return Err(format!("the border {:?}-{:?} is stored {} times", p, q, n)); }
    }
    // along the line that was just cut at, too, one edge is enough for two rings
    let mut same: BTreeMap<Vec<P>, (u32, u32)> = BTreeMap::new();
    for e in &s.edges {
        let uses = e.1.iter().filter(|l| **l != Link::Null).count() as u32;
        if uses == 0 || !cut.map(|m| e.0.iter().all(|p| m.on(*p))).unwrap_or(false) { continue; }
        let r: Vec<P> = e.0.iter().rev().cloned().collect();
        let x = same.entry(r.min(e.0.clone())).or_default();
        x.0 += 1;
        x.1 += uses;
    }
    for (p, (n, uses)) in same {
        if n > 1 && uses <= 2 { return Err(format!("the border {:?} of two rings is stored {} times", p, n)); }
    }
    Ok(())
}

/// C14: a border that two regions shared before is shared after, to the last unit.
fn check_paired(op: &Op, pre: &Net, post: &Net) -> Result<(), String> {
    fn totals(n: &Net) -> BTreeMap<Seg, (i32, u32)> {
        let mut t: BTreeMap<Seg, (i32, u32)> = BTreeMap::new();
        for ((_, s), v) in n { let e = t.entry(*s).or_default(); e.0 += *v; e.1 += 1; }
        t
    }
    let (a, b) = (totals(pre), totals(post));
    match op {
        Op::Normalize => for (s, (v, n)) in &a {
            if *v == 0 && *n == 2 && b.get(s) != Some(&(0, 2)) { return Err(format!("the border {:?}-{:?} is no longer that of two regions", s.0, s.1)); }
        },
        Op::Clip(m) => {
            // by the end point inside: are all borders from there to the line (or beyond it) shared?
            let inner = |s: &Seg| match (m.loc(s.0), m.loc(s.1)) { (1, y) if y < 1 => Some(s.0), (x, 1) if x < 1 => Some(s.1), _ => None };
            let mut shared: BTreeMap<P, bool> = BTreeMap::new();
            for (s, (v, n)) in &a { if let Some(p) = inner(s) { *shared.entry(p).or_insert(true) &= *v == 0 && *n == 2; } }
            for (s, (v, n)) in &b { if let Some(p) = inner(s) {
                if shared.get(&p) == Some(&true) && (*v != 0 || *n != 2) { return Err(format!("the border {:?}-{:?}, common to two regions before clipping, is that of {} with {} left over", s.0, s.1, n, v)); }
            } }
            for (s, (v, n)) in &a {
                if m.loc(s.0) > 0 && m.loc(s.1) > 0 && *v == 0 && *n == 2 && b.get(s) != Some(&(0, 2)) { return Err(format!("the border {:?}-{:?} is no longer that of two regions", s.0, s.1)); }
            }
        }
        Op::Simplify(_) => {}
    }
    Ok(())
}

fn check_simplified(pre: &Snap, post: &Snap) -> Result<(), String> {
    if pre.ids() != post.ids() || pre.edges.len() != post.edges.len() { return Err("simplifying changed the regions or edges".into()); }
    for (a, b) in pre.rings().zip(post.rings()) {
        if a.0 != b.0 || a.1 != b.1 || a.2 != b.2 || a.3.edges != b.3.edges { return Err(format!("simplifying changed the borders of a ring of region {}", pre.regions[a.0].id)); }
    }
    for (i, (a, b)) in pre.edges.iter().zip(&post.edges).enumerate() {
        if a.1 != b.1 { return Err(format!("simplifying changed which rings use edge {}", i)); }
        let (a, b) = (&a.0, &b.0);
        if b.len() < 2 || a[0] != b[0] || a[a.len() - 1] != b[b.len() - 1] { return Err(format!("simplifying moved an end of {:?}: {:?}", a, b)); }
        let mut it = a.iter();
        if !b.iter().all(|p| it.any(|q| q == p)) { return Err(format!("simplifying {:?} gave other or reordered points: {:?}", a, b)); }
        if a[0] == a[a.len() - 1] && a.len() >= 4 && b.len() < 4 { return Err(format!("simplifying collapsed the closed border {:?} to {:?}", a, b)); }
        if b.len() < a.len() { ctx::cnt(C::p_t_removed); }
        if b.len() == 4 && a.len() > 4 && b[0] == b[3] { ctx::cnt(C::p_t_minring); }
    }
    Ok(())
}

/// C17: the normal form.
fn check_canonical(s: &Snap) -> Result<(), String> {
    // which regions an edge separates (0: none on that side)
    let sides = |e: usize| -> Vec<u32> {
        let mut v: Vec<u32> = s.edges[e].1.iter().map(|l| match l { Link::Ring(r, _, _) => s.regions[*r as usize].id, _ => 0 }).collect();
        v.sort();
        v
    };
    let start = |r: &RingSnap| { let (e, f) = r.edges[0]; let p = &s.edges[e].0; if f { p[0] } else { p[p.len() - 1] } };
    for r in &s.regions {
        let mut seen: BTreeSet<usize> = BTreeSet::new();
        for (kind, rings) in [("outer", &r.outer), ("inner", &r.inner)] {
            for (k, x) in rings.iter().enumerate() {
                if x.edges.is_empty() { return Err(format!("{} ring {} of region {} has no edges", kind, k, r.id)); }
                let n = x.edges.len();
                for j in 0..n {
                    if !seen.insert(x.edges[j].0) { return Err(format!("two rings of region {} share an edge", r.id)); }
                    if n > 1 && sides(x.edges[j].0) == sides(x.edges[(j + 1) % n].0) { return Err(format!("edges {} and {} of {} ring {} of region {} separate the same regions {:?}", j, (j + 1) % n, kind, k, r.id, sides(x.edges[j].0))); }
                }
                let first = start(x);
                let least = if n == 1 { *s.edges[x.edges[0].0].0.iter().min().unwrap() } else { x.edges.iter().map(|&(e, f)| { let p = &s.edges[e].0; if f { p[0] } else { p[p.len() - 1] } }).min().unwrap() };
                if first != least { return Err(format!("{} ring {} of region {} starts at {:?} and not at its leftmost/topmost node {:?}", kind, k, r.id, first, least)); }
                if k > 0 && start(&rings[k - 1]) > first { return Err(format!("{} rings {} and {} of region {} are not in order", kind, k - 1, k, r.id)); }
            }
        }
    }
    Ok(())
}
fn differs(a: &Snap, b: &Snap) -> &'static str {
    if a.ids() != b.ids() { "regions differ" } else if a.edges.len() != b.edges.len() { "number of edges differs" }
    else if a.edges.iter().zip(&b.edges).any(|(x, y)| x.0 != y.0) { "points or order of edges differ" } else if a.regions != b.regions { "rings differ" } else { "links differ" }
}

// C16: Visvalingam's rule, written down directly.
fn tri(a: P, b: P, c: P) -> u128 {
    let d = |p: u32, q: u32| p as i128 - q as i128;
    (d(b.0, a.0) * d(c.1, a.1) - d(c.0, a.0) * d(b.1, a.1)).unsigned_abs()
}
/// The points left of `p` for the given threshold and the effective weights of all points; None if
/// two points are equally unimportant at some time, so that the rule does not say which goes first.
fn visvalingam(p: &[P], max: u128) -> Option<(Vec<usize>, Vec<u128>)> {
    let n = p.len();
    let (mut prev, mut next): (Vec<usize>, Vec<usize>) = ((0..n).map(|i| i.wrapping_sub(1)).collect(), (1..=n).collect());
    let mut w: Vec<u128> = (0..n).map(|i| if i == 0 || i == n - 1 { u128::MAX } else { tri(p[i - 1], p[i], p[i + 1]) }).collect();
    let mut q: BTreeSet<(u128, usize)> = (1..n - 1).map(|i| (w[i], i)).collect();
    let mut last = 0u128;
    let mut gone = vec![false; n];
    let closed = p[0] == p[n - 1];
    let mut alive: BTreeSet<usize> = (0..n).collect();
    while let Some(&(a, _)) = q.iter().next() {
        if a > max { break; }
        // all points that go with this weight
        last = a;
        let mut removed = Vec::new();
        let mut ties = Vec::new();
        let mut many = false;
        while let Some(&(b, i)) = q.iter().next() {
            if b > last { break; }
            // (of the last two points of a closed border neither matters more)
            if !(closed && q.len() == 2) {
                for (k, &(_, j)) in q.iter().skip(1).take_while(|x| x.0 == b).enumerate() {
                    if k == 100 { if b > 0 { return None; } many = true; break; }
                    ties.push((i, j));
                }
            }
            q.remove(&(b, i));
            w[i] = last;
            gone[i] = true;
            alive.remove(&i);
            removed.push(i);
            let (l, r) = (prev[i], next[i]);
            next[l] = r;
            prev[r] = l;
            for j in [l, r] {
                if j == 0 || j == n - 1 { continue; }
                q.remove(&(w[j], j));
                w[j] = tri(p[prev[j]], p[j], p[next[j]]);
                q.insert((w[j], j));
            }
        }
        if !ties.is_empty() {
            // Equally important points may go in any order. The order makes no difference between points that two
            // or more points that stay lie between: what happens on one side does not reach the other.
            removed.sort();
            let mut group: BTreeMap<usize, usize> = BTreeMap::new();
            for (k, &i) in removed.iter().enumerate() {
                let apart = k == 0 || alive.range(removed[k - 1] + 1..i).take(2).count() == 2;
                let g = if apart { i } else { group[&removed[k - 1]] };
                group.insert(i, g);
            }
            // Within a group: try all orders.
            let unclear: BTreeSet<usize> = ties.iter().filter(|&&(i, j)| group.get(&j).map_or(true, |g| *g == group[&i])).map(|(i, _)| group[i]).collect();
            if !unclear.is_empty() && closed && alive.len() < 7 { return None; }
            let groups: Vec<usize> = if many { removed.iter().cloned().filter(|i| group[i] == *i).collect() } else { unclear.into_iter().collect() };
            for g in groups {
                let k = removed.binary_search(&g).unwrap();
                let mem: Vec<usize> = removed[k..].iter().cloned().take_while(|i| group[i] == g).collect();
                if last == 0 {
                    // points on one straight line all go, whatever the order
                    let (l, r) = (*alive.range(..g).next_back()?, *alive.range(mem[mem.len() - 1]..).next()?);
                    let d = |i: usize, j: usize| ((p[j].0 as i128 - p[i].0 as i128), (p[j].1 as i128 - p[i].1 as i128));
                    let (dx, dy) = d(l, r);
                    let line: Vec<usize> = std::iter::once(l).chain(mem.iter().cloned()).chain(std::iter::once(r)).collect();
                    if line.windows(2).all(|x| { let (ex, ey) = d(x[0], x[1]); dx * ey == dy * ex && dx * ex + dy * ey > 0 }) { continue; }
                    if many { return None; }
                }
                let from = alive.range(..g).rev().take(2).last().cloned()?;
                let to = alive.range(mem[mem.len() - 1]..).take(2).last().cloned()?;
                let all: Vec<usize> = (from..=to).filter(|i| alive.contains(i) || group.get(i) == Some(&g)).collect();
                let pts: Vec<P> = all.iter().map(|&i| p[i]).collect();
                if pts[0] == pts[pts.len() - 1] { return None; }
                let ends = visvalingam_ties(&pts, last)?;
                let want: Vec<usize> = (0..all.len()).filter(|&k| !gone[all[k]]).collect();
                if ends.len() != 1 || !ends.contains(&want) { return None; }
            }
            ctx::cnt(C::p_v_apart);
        }
    }
    Some(((0..n).filter(|&i| !gone[i]).collect(), w))
}
/// All outcomes the rule allows when points are equally unimportant (None: too many).
fn visvalingam_ties(p: &[P], max: u128) -> Option<BTreeSet<Vec<usize>>> {
    if p.len() > 40 { return None; }
    let mut seen: BTreeSet<(Vec<usize>, u128)> = BTreeSet::new();
    let mut todo = vec![((0..p.len()).collect::<Vec<usize>>(), 0u128)];
    let mut out = BTreeSet::new();
    while let Some((v, last)) = todo.pop() {
        if !seen.insert((v.clone(), last)) { continue; }
        if seen.len() > 2000 { return None; }
        let ws: Vec<u128> = v.windows(3).map(|x| tri(p[x[0]], p[x[1]], p[x[2]])).collect();
        let a = match ws.iter().min() { None => { out.insert(v); continue; } Some(a) => *a };
        if a.max(last) > max { out.insert(v); continue; }
        if p[0] == p[p.len() - 1] && v.len() <= 4 {
            if a <= last { return None; }
            out.insert(v);
            continue;
        }
        for (k, w) in ws.iter().enumerate() {
            if *w == a { let mut u = v.clone(); u.remove(k + 1); todo.push((u, last.max(a))); }
        }
    }
    Some(out)
}
fn check_visvalingam(pre: &Snap, post: &Snap, max: u64) -> Result<(), String> {
    if pre.edges.len() != post.edges.len() { return Err("simplifying changed the number of edges".into()); }
    for (a, b) in pre.edges.iter().zip(&post.edges) {
        let (a, b) = (&a.0, &b.0);
        let closed = a[0] == a[a.len() - 1];
        if closed && a.len() < 4 { if a != b { return Err(format!("{:?} became {:?}", a, b)); } continue; }
        let pts = |v: &[usize]| -> Vec<P> { v.iter().map(|&i| a[i]).collect() };
        match visvalingam(a, max as u128) {
            Some((left, w)) => {
                ctx::cnt(C::p_v_exact);
                if !closed || left.len() >= 4 {
                    if pts(&left) != *b { return Err(format!("{:?} became {:?} instead of {:?}", a, b, pts(&left))); }
                    continue;
                }
                // a closed border keeps its two most important points
                ctx::cnt(C::p_t_minring);
                let mut idx: Vec<usize> = (1..a.len() - 1).collect();
                idx.sort_by(|&i, &j| w[j].cmp(&w[i]));
                let (w1, w2) = (w[idx[0]], w[idx[1]]);
                let mut good = false;
                'o: for &i in &idx { for &j in &idx {
                    if i < j && ((w[i] == w1 && w[j] == w2) || (w[i] == w2 && w[j] == w1)) && *b == pts(&[0, i, j, a.len() - 1]) { good = true; break 'o; }
                    if w[i].max(w[j]) < w2 { break; }
                } }
                if !good { return Err(format!("the closed border {:?} became {:?}, which are not its two most important points", a, b)); }
            }
            None => if let Some(all) = visvalingam_ties(a, max as u128) {
                ctx::cnt(C::p_v_ties);
                if !all.iter().any(|v| pts(v) == *b) { return Err(format!("{:?} became {:?}, which no order of equally important points gives", a, b)); }
            } else {
                // whatever the order was: the rule does not stop before all points that are left matter enough
                ctx::cnt(C::p_v_skip);
                if let Some(x) = b.windows(3).find(|x| (!closed || b.len() > 4) && tri(x[0], x[1], x[2]) <= max as u128) {
                    return Err(format!("{:?} is left in a border of {} points, of which {} are left, and matters no more than {}", x[1], a.len(), b.len(), max));
                }
            },
        }
    }
    Ok(())
}
/// A threshold close to the weight of some point.
fn draw_weight(s: &Snap) -> u64 {
    if s.edges.is_empty() { return 0; }
    let e = &s.edges[ctx::below(s.edges.len() as u32) as usize].0;
    if e.len() < 3 { return ctx::below(1000) as u64; }
    let k = 1 + ctx::below(e.len() as u32 - 2) as usize;
    let j = (k + 1 + ctx::below(3) as usize).min(e.len() - 1);
    (tri(e[k - 1], e[k], e[j]).min(u64::MAX as u128 - 1) as u64 + ctx::below(3) as u64).saturating_sub(1)
}

// ---------------------------------------------------------------- operations

#[derive(Clone, Debug)]
pub enum Op { Normalize, Clip(Mask), Simplify(u64) }

fn ring_of(r: &RingSpec) -> geo::Ring {
    let pt = |p: &P| geo::Point(p.0, p.1);
    match r {
        RingSpec::Points(p) => geo::Ring::Points(p.iter().map(pt).collect::<Vec<_>>().into_boxed_slice()),
        RingSpec::Edges(es) => geo::Ring::Edges(es.iter().map(|e| geo::Edge(e.iter().map(pt).collect::<Vec<_>>().into_boxed_slice())).collect::<Vec<_>>().into_boxed_slice()),
    }
}
fn regions_of(c: &Cov) -> Vec<geo::Region<Tok>> { regions_from(&c.regions) }
fn regions_from(rs: &[cover::RegSpec]) -> Vec<geo::Region<Tok>> {
    rs.iter().map(|r| geo::Region {
        data: Tok::new(r.id),
        outer_rings: r.outer.iter().map(ring_of).collect::<Vec<_>>().into_boxed_slice(),
        inner_rings: r.inner.iter().map(ring_of).collect::<Vec<_>>().into_boxed_slice(),
    }).collect()
}
fn build(regions: Vec<geo::Region<Tok>>) -> Result<Topology<Tok>, String> {
    ctx::guarded(move || {
        let mut b = TopologyBuilder::new();
        for r in regions { b.add_region(r); }
        b.into_topology()
    })
}
fn ids_of(c: &Cov) -> Vec<u32> { c.regions.iter().filter(|r| !r.junk).map(|r| r.id).collect() }

/// Writes the coverage as a shapefile, reads it back through the ingest and returns its regions with
/// the ground truth in grid coordinates.
fn ingest(c: &Cov) -> Result<(Vec<geo::Region<Tok>>, Net), (&'static str, String)> {
    ctx::cnt(C::p_e2e);
    let m = u32::MAX as f64;
    let lonlat = ctx::chance(1, 2);
    let bbox = if lonlat { [-180.0, -90.0, 180.0, 90.0] } else { [0.0, 0.0, m, m] };
    let fx = |p: P| -> (f64, f64) {
        if lonlat { (-180.0 + p.0 as f64 * (360.0 / m), 90.0 - p.1 as f64 * (180.0 / m)) } else { (p.0 as f64, m - p.1 as f64) }
    };
    let mut shapes = vec![];
    let mut rows = vec![];
    for (i, r) in c.regions.iter().enumerate() {
        let rings = r.outer.iter().chain(&r.inner).map(|l| l.points().into_iter().map(|p| { let (x, y) = fx(p); (x.to_bits(), y.to_bits()) }).collect()).collect();
        shapes.push((i as u32 + 1, rings));
        rows.push(format!(" {:>6}", r.id).into_bytes());
    }
    let d = Dataset { enc: Enc::Ascii, bbox, shapes, fields: vec![Field { name: b"ID".to_vec(), ty: b'N', len: 6 }], rows, hdr_extra: vec![0x0d], noise: 0 };
    let (s, _, b) = model::encode(&d);
    let mut ss = SimStream::plain(0, Arc::new(s));
    let mut ds = SimStream::plain(1, Arc::new(b));
    ss.draw_schedule();
    ds.draw_schedule();
    let got = ctx::guarded(move || -> Result<Vec<geo::Region<u32>>, String> {
        let mut rd = sf::ShapefileReader::new(Box::new(ss) as Box<dyn Read>, Box::new(ds) as Box<dyn Read>, model::enc_ref(Enc::Ascii)).map_err(|e| e.to_string())?;
        let f = rd.get_field("ID").ok_or("no ID field")?;
        let mut v = vec![];
        for r in sf::ShapefileGeoIterator::new(&mut rd) {
            let r = r.map_err(|e| e.to_string())?;
            let id: u32 = f.read_string(&r.data).map_err(|e| e.to_string())?.parse().map_err(|_| "bad id".to_string())?;
            v.push(geo::Region { data: id, outer_rings: r.outer_rings, inner_rings: r.inner_rings });
        }
        Ok(v)
    }).map_err(|p| ("panic", format!("reading the coverage panicked: {}", p)))?.map_err(|e| ("ingest", format!("the coverage could not be read: {}", e)))?;
    if got.len() != c.regions.len() { return Err(("ingest", format!("{} regions stored, {} read", c.regions.len(), got.len()))); }
    // The map from stored points to grid points must be a function, within one unit of the identity.
    let mut map: BTreeMap<P, P> = BTreeMap::new();
    let mut out = vec![];
    let pts = |r: &geo::Ring| -> Vec<P> { r.points().iter().map(|p| (p.0, p.1)).collect() };
    for (g, r) in got.into_iter().zip(&c.regions) {
        if g.data != r.id { return Err(("ingest", format!("region {} came with the data of {}", r.id, g.data))); }
        let (mut go, mut gi) = (g.outer_rings.iter().map(pts), g.inner_rings.iter().map(pts));
        for (outer, l) in r.outer.iter().map(|l| (true, l)).chain(r.inner.iter().map(|l| (false, l))) {
            let l = l.points();
            let q = match if outer { go.next() } else { gi.next() } { Some(q) => q, None => return Err(("ingest", format!("a ring of region {} is missing or on the wrong side", r.id))) };
            if q.len() != l.len() { return Err(("ingest", format!("a ring of region {} changed its number of points", r.id))); }
            for (a, b) in l.iter().zip(&q) {
                if (a.0 as i64 - b.0 as i64).abs() > 1 || (a.1 as i64 - b.1 as i64).abs() > 1 { return Err(("ingest", format!("{:?} was read as {:?}", a, b))); }
                if *map.entry(*a).or_insert(*b) != *b { return Err(("ingest", format!("{:?} was read as {:?} and as {:?}", a, map[a], b))); }
            }
        }
        out.push(geo::Region { data: Tok::new(g.data), outer_rings: g.outer_rings, inner_rings: g.inner_rings });
    }
    let mut net = Net::new();
    for ((id, (p, q)), n) in &c.net {
        for _ in 0..n.abs() { if *n > 0 { cover::add_seg(&mut net, *id, map[p], map[q]) } else { cover::add_seg(&mut net, *id, map[q], map[p]) } }
    }
    Ok((out, net))
}

fn draw_mask(s: &Snap) -> Mask {
    let vs: Vec<P> = s.vertices().into_iter().collect();
    let x_axis = ctx::chance(1, 2);
    let keep_ge = ctx::chance(1, 2);
    let m0 = Mask { x_axis, keep_ge, c: 0 };
    let coords: Vec<i64> = vs.iter().map(|p| m0.a(*p) as i64).collect();
    let c = if coords.is_empty() { ctx::below(1000) as i64 } else {
        let (lo, hi) = (*coords.iter().min().unwrap(), *coords.iter().max().unwrap());
        match ctx::below(8) {
            0 => lo + (hi - lo) / 2,
            1..=4 => lo + ((hi - lo) as f64 * (ctx::below(10001) as f64 / 10000.0)) as i64,
            5 => *ctx::pick(&coords),
            6 => *ctx::pick(&coords) + ctx::below(7) as i64 - 3,
            _ => *ctx::pick(&[lo - 10, hi + 10, 0, u32::MAX as i64, lo, hi]),
        }
    };
    Mask { c: c.clamp(0, u32::MAX as i64) as u32, ..m0 }
}
/// The four clips that cut out one tile: a rectangle within the bounds of some ring, in some order.
fn draw_tile(s: &Snap) -> Vec<Mask> {
    let rings: Vec<&RingSnap> = s.rings().map(|x| x.3).collect();
    if rings.is_empty() { return vec![]; }
    ctx::cnt(C::p_t_tile);
    // holes are of particular interest
    let holes: Vec<&RingSnap> = s.rings().filter(|x| !x.1).map(|x| x.3).collect();
    let r = if !holes.is_empty() && ctx::chance(2, 3) { holes[ctx::below(holes.len() as u32) as usize] } else { rings[ctx::below(rings.len() as u32) as usize] };
    let p = s.ring_points(r);
    let mut v = vec![];
    for x_axis in [true, false] {
        let m = Mask { x_axis, keep_ge: true, c: 0 };
        let (lo, hi) = (p.iter().map(|q| m.a(*q)).min().unwrap(), p.iter().map(|q| m.a(*q)).max().unwrap());
        let w = hi - lo;
        // at most the middle half, so that it often lies inside the ring altogether
        let a = lo + w / 4 + w / 4 * ctx::below(101) as i128 / 100;
        let b = a + 1 + w / 4 * ctx::below(101) as i128 / 100;
        v.push(Mask { c: a.min(u32::MAX as i128) as u32, ..m });
        v.push(Mask { x_axis, keep_ge: false, c: b.min(u32::MAX as i128) as u32 });
    }
    for i in (1..4).rev() { v.swap(i, ctx::below(i as u32 + 1) as usize); }
    v
}
fn draw_threshold() -> u64 {
    match ctx::below(5) { 0 => 0, 1 => ctx::below(50) as u64, 2 => 1 << ctx::below(63), 3 => ctx::below(200_000) as u64, _ => *ctx::pick(&[u64::MAX, 1, i64::MAX as u64, 1 << 40]) }
}

/// Some borders cross, overlap or touch anywhere but at common vertices (outside the clip lines).
fn tangled(s: &Snap, lines: &[Mask]) -> bool {
    let segs: Vec<Seg> = s.seg_uses().keys().filter(|(p, q)| !lines.iter().any(|m| m.on(*p) && m.on(*q))).cloned().collect();
    let cross = |a: P, b: P, c: P| ((b.0 as i128 - a.0 as i128) * (c.1 as i128 - a.1 as i128) - (b.1 as i128 - a.1 as i128) * (c.0 as i128 - a.0 as i128)).signum();
    let within = |a: P, b: P, c: P| c.0 >= a.0.min(b.0) && c.0 <= a.0.max(b.0) && c.1 >= a.1.min(b.1) && c.1 <= a.1.max(b.1);
    for (i, &(a, b)) in segs.iter().enumerate() {
        for &(c, d) in &segs[i + 1..] {
            if c.0 > b.0 { break; } // sorted by the smaller x
            if c.1.min(d.1) > a.1.max(b.1) || c.1.max(d.1) < a.1.min(b.1) { continue; }
            let (u, v, w, x) = (cross(a, b, c), cross(a, b, d), cross(c, d, a), cross(c, d, b));
            if u * v < 0 && w * x < 0 { return true; }
            for (o, p, q, r) in [(u, a, b, c), (v, a, b, d), (w, c, d, a), (x, c, d, b)] {
                if o == 0 && r != p && r != q && within(p, q, r) { return true; }
            }
        }
    }
    false
}

/// True if later operations are outside the properties' domain: rounding or simplifying made borders
/// coincide or turned a ring over.
fn degenerate(pre: Option<&Snap>, s: &Snap, lines: &[Mask]) -> bool {
    if s.seg_uses().iter().any(|((p, q), n)| p == q || (*n > 1 && !lines.iter().any(|m| m.on(*p) && m.on(*q)))) { return true; }
    for e in &s.edges { if e.0.len() < 4 && e.0[0] == e.0[e.0.len() - 1] { return true; } }
    if let Some(pre) = pre {
        for (a, b) in pre.rings().zip(s.rings()) {
            let (x, y) = (cover::shoelace(&pre.ring_points(a.3)), cover::shoelace(&s.ring_points(b.3)));
            if x.signum() != y.signum() { return true; }
        }
        if tangled(s, lines) { return true; }
    }
    false
}
/// Some region touches itself at a single point.
fn pinched(net: &Net) -> bool {
    let mut out: BTreeSet<(u32, P)> = BTreeSet::new();
    for ((id, (p, q)), n) in net {
        let from = if *n > 0 { *p } else { *q };
        if n.abs() > 1 || !out.insert((*id, from)) { return true; }
    }
    false
}

/// More than two rings run along some stretch of border (a tile cut out of nested rings).
fn crowded(s: &Snap) -> bool {
    let mut seen: BTreeSet<Vec<P>> = BTreeSet::new();
    s.edges.iter().any(|e| { let mut k = e.0.clone(); let mut r = k.clone(); r.reverse(); if r < k { k = r; } !seen.insert(k) })
}

#[derive(Clone, Copy, PartialEq)]
enum Prop { Links, Data, Cover, Borders, Canon, Visv }

fn apply(t: Topology<Tok>, op: &Op, keep: &mut Vec<Topology<Tok>>, hold: bool) -> Result<Topology<Tok>, String> {
    match op {
        Op::Normalize => { ctx::cnt(C::p_t_norm); let r = ctx::guarded(|| normalize(&t)); finish(t, r, keep, hold) }
        Op::Clip(m) => { ctx::cnt(C::p_t_clip); let r = ctx::guarded(|| clip_topology(&t, &m.real())); finish(t, r, keep, hold) }
        Op::Simplify(a) => { ctx::cnt(C::p_t_simplify); ctx::guarded(move || simplify(t, *a)) }
    }
}
fn finish(t: Topology<Tok>, r: Result<Topology<Tok>, String>, keep: &mut Vec<Topology<Tok>>, hold: bool) -> Result<Topology<Tok>, String> {
    if hold { keep.push(t); } else { ctx::cnt(C::f_dropsrc); ctx::sut(move || drop(t)); }
    r
}

thread_local!(static NEST: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });

fn show(s: &Snap) {
    if !ctx::tracing() { return; }
    for r in &s.regions {
        for (n, rs) in [("outer", &r.outer), ("inner", &r.inner)] { for x in rs { ctx::note(&format!("        region {} {} {:?}", r.id, n, s.ring_points(x))); } }
    }
    for (i, e) in s.edges.iter().enumerate() { ctx::note(&format!("        edge {} {:?} {:?}", i, e.0, e.1)); }
}

/// Builds a coverage, runs a history over it and checks each step. Returns the operations and snapshots.
fn history(prop: Prop, max_ops: u32) {
    let giant = prop == Prop::Visv && ctx::chance(1, 150);
    let wild = giant || matches!(prop, Prop::Links | Prop::Data | Prop::Visv) && ctx::chance(1, 6);
    let e2e = prop != Prop::Data && !wild && ctx::chance(1, 6);
    let cov = if giant { cover::giant() } else if wild { cover::wild() } else { cover::gen(&cover::Cfg { pinch_ok: prop != Prop::Borders && prop != Prop::Canon, flips: !e2e, plain_rings: e2e, junk: true, small: false, big: true, alt: prop == Prop::Canon }) };
    let n_ops = ctx::below(max_ops + 1);
    if n_ops >= 3 { ctx::cnt(C::p_t_chain); }
    let live0 = LIVE.load(SeqCst);
    let (regions, net0) = if e2e {
        match ingest(&cov) { Ok(x) => x, Err((c, m)) => { if prop == Prop::Cover || c == "panic" { ctx::violate(c, &m); } return; } }
    } else { (regions_of(&cov), cov.net.clone()) };
    let mut t = match build(regions) { Ok(t) => t, Err(p) => { ctx::violate("panic", &format!("building panicked: {}", p)); return; } };
    let mut keep: Vec<Topology<Tok>> = vec![];
    let mut kept: Vec<Snap> = vec![];
    let mut lines: Vec<Mask> = vec![];
    let mut s = match snap(&t) { Ok(s) => s, Err((c, m)) => { ctx::violate(c, &format!("after building: {}", m)); return; } };
    ctx::ev("built", s.regions.len() as u64, s.edges.len() as u64);
    if s.edges.len() > 65_536 { ctx::cnt(C::p_t_huge); }
    ctx::fp(s.hash());
    show(&s);
    let mut net = s.net();
    match prop {
        Prop::Links => if let Err(m) = check_links(&s) { ctx::violate("links", &format!("after building: {}", m)); return; },
        Prop::Cover => {
            if s.ids() != ids_of(&cov) { ctx::violate("regions", &format!("regions {:?} were built as {:?}", ids_of(&cov), s.ids())); return; }
            if let Some(d) = diff_net(&net0, &net) { ctx::violate("coverage", &format!("after building: {}", d)); return; }
        }
        Prop::Borders => {
            if let Err(m) = check_shared(&s, &lines, None) { ctx::violate("not-shared", &format!("after building: {}", m)); return; }
            if s.edges.iter().any(|e| e.1[1] != Link::Null) { ctx::cnt(C::p_t_shared); }
        }
        Prop::Canon => if !cov.alt.is_empty() && !e2e && ctx::chance(1, 2) {
            // the same ground divided in another way has the same normal form
            ctx::cnt(C::p_t_alt);
            let t2 = match build(regions_from(&cov.alt)) { Ok(t) => t, Err(p) => { ctx::violate("panic", &format!("building panicked: {}", p)); return; } };
            let (a, b) = match (ctx::guarded(|| normalize(&t)), ctx::guarded(|| normalize(&t2))) { (Ok(a), Ok(b)) => (a, b), (Err(p), _) | (_, Err(p)) => { ctx::violate("panic", &format!("normalizing panicked: {}", p)); return; } };
            match (snap(&a), snap(&b)) {
                (Ok(x), Ok(y)) => {
                    show(&x);
                    ctx::note("   the other way:");
                    if let Ok(z) = snap(&t2) { show(&z); }
                    show(&y);
                    if x != y { ctx::violate("not-canonical", &format!("the same regions, divided differently, have two normal forms: {}", differs(&x, &y))); return; }
                }
                (Err((c, m)), _) | (_, Err((c, m))) => { ctx::violate(c, &m); return; }
            }
            ctx::sut(move || { drop(t2); drop(a); drop(b); });
        },
        Prop::Visv => {}
        Prop::Data if wild => {
            let (ids, got) = (ids_of(&cov), s.ids());
            let mut it = ids.iter();
            if !got.iter().all(|x| it.any(|y| y == x)) { ctx::violate("regions", &format!("regions {:?} were built as {:?}", ids, got)); return; }
            if LIVE.load(SeqCst) - live0 != got.len() as i64 { ctx::violate("data-lost", &format!("{} values are alive after building {} regions", LIVE.load(SeqCst) - live0, got.len())); return; }
        }
        Prop::Data => {
            if s.ids() != ids_of(&cov) { ctx::violate("regions", &format!("regions {:?} were built as {:?}", ids_of(&cov), s.ids())); return; }
            if let Some(d) = diff_net(&net0, &net) { ctx::violate("data-moved", &format!("after building: {}", d)); return; }
        }
    }
    let mut degen = false;
    // simplifying can move a hole out of its region or a region into another one
    let mut loosened = false;
    let mut plan = if n_ops >= 3 && ctx::chance(1, 6) { draw_tile(&s) } else { vec![] };
    let n_ops = n_ops.max(plan.len() as u32 + ctx::below(2) * !plan.is_empty() as u32);
    for step in 0..n_ops {
        let op = if !plan.is_empty() && ctx::chance(7, 8) { Op::Clip(plan.pop().unwrap()) } else { match ctx::below(6) {
            0..=1 => Op::Normalize,
            // more than removing points on straight lines can make borders cross
            5 => Op::Simplify(if prop == Prop::Cover { 0 } else { draw_threshold() }),
            2..=4 if prop == Prop::Visv && ctx::chance(2, 3) => Op::Simplify(draw_weight(&s)),
            2..=3 if prop == Prop::Canon && ctx::chance(1, 2) => Op::Normalize,
            _ => Op::Clip(draw_mask(&s)),
        } };
        let mut clean = true;
        if let Op::Clip(m) = &op {
            clean = m.clean(&s);
            if s.edges.iter().any(|e| e.0.iter().any(|p| m.on(*p))) { ctx::cnt(C::p_t_clipvertex); }
            lines.push(*m);
        }
        if (prop == Prop::Borders || prop == Prop::Canon) && matches!(op, Op::Normalize) && pinched(&s.net()) { break; }
        if prop == Prop::Canon && matches!(op, Op::Normalize) && crowded(&s) { break; }
        ctx::note(&format!("  step {}: {:?} clean {}", step, op, clean));
        // a failing clone first
        if prop == Prop::Data && !matches!(op, Op::Simplify(_)) && ctx::chance(1, 2) {
            let k = 1 + ctx::below(s.regions.len() as u32 + 1) as i64;
            let (live, blocks) = (LIVE.load(SeqCst), arena::a().live_blocks);
            PANIC_AT.store(k, SeqCst);
            let r = match &op { Op::Normalize => ctx::guarded(|| normalize(&t)), Op::Clip(m) => ctx::guarded(|| clip_topology(&t, &m.real())), _ => unreachable!() };
            let fired = PANIC_AT.swap(0, SeqCst) <= 0;
            match r {
                Ok(x) => { if fired { ctx::violate("clone-panic-lost", "a panic of the caller's clone was swallowed"); return; } ctx::sut(move || drop(x)); }
                Err(p) => if !fired { ctx::violate("panic", &format!("{:?} panicked: {}", op, p)); return; },
            }
            if LIVE.load(SeqCst) != live { ctx::violate("data-lost", &format!("after {:?} with a failing clone {} values are alive instead of {}", op, LIVE.load(SeqCst), live)); return; }
            if arena::a().live_blocks != blocks { ctx::violate("memory-lost", &format!("after {:?} with a failing clone {} blocks are allocated instead of {}", op, arena::a().live_blocks, blocks)); return; }
            match snap(&t) { Ok(x) if x == s => {} Ok(_) => { ctx::violate("source-changed", &format!("{:?} with a failing clone changed its source", op)); return; } Err((c, m)) => { ctx::violate(c, &m); return; } }
        }
        let hold = ctx::chance(1, 2);
        if hold && prop == Prop::Links && !matches!(op, Op::Simplify(_)) { kept.push(s.clone()); }
        let made0 = LIVE.load(SeqCst);
        t = match apply(t, &op, &mut keep, hold) { Ok(t) => t, Err(p) => { ctx::violate("panic", &format!("step {} {:?} panicked: {}", step, op, p)); return; } };
        if ctx::chance(1, 4) { ctx::cnt(C::f_valmove); let b = ctx::sut(|| Box::new(t)); t = ctx::sut(|| *b); }
        let post = match snap(&t) { Ok(s) => s, Err((c, m)) => { ctx::violate(c, &format!("after step {} {:?}: {}", step, op, m)); return; } };
        ctx::ev("step", post.regions.len() as u64, post.edges.len() as u64);
        ctx::hash_out(post.hash());
        ctx::fp(post.hash());
        show(&post);
        let post_net = canon(post.net(), &lines);
        match prop {
            Prop::Links => if let Err(m) = check_links(&post) { ctx::violate("links", &format!("after step {} {:?}: {}", step, op, m)); return; },
            Prop::Cover => if let Err(m) = check_cover(&op, &s, &post, &net, &post_net, clean, &lines) { ctx::violate("coverage", &format!("after step {} {:?}: {}", step, op, m)); return; },
            Prop::Borders => match &op {
                Op::Simplify(_) => if let Err(m) = check_simplified(&s, &post) { ctx::violate("simplify", &format!("after step {} {:?}: {}", step, op, m)); return; },
                _ => if clean { if let Err(m) = check_shared(&post, &lines, if let Op::Clip(m) = &op { Some(m) } else { None }).and_then(|_| if loosened { Ok(()) } else { check_paired(&op, &net, &post_net) }) { ctx::violate("not-shared", &format!("after step {} {:?}: {}", step, op, m)); return; } },
            },
            Prop::Canon => if let Op::Normalize = op {
                if let Err(m) = check_canonical(&post) { ctx::violate("not-canonical", &format!("after step {} {:?}: {}", step, op, m)); return; }
                match ctx::guarded(|| normalize(&t)) {
                    Err(p) => { ctx::violate("panic", &format!("normalizing again after step {} panicked: {}", step, p)); return; }
                    Ok(x) => {
                        match snap(&x) {
                            Ok(y) => if y != post { show(&y); ctx::violate("not-canonical", &format!("after step {} normalizing again changed the topology: {}", step, differs(&post, &y))); return; },
                            Err((c, m)) => { ctx::violate(c, &m); return; }
                        }
                        ctx::sut(move || drop(x));
                    }
                }
            },
            Prop::Visv => if let Op::Simplify(a) = op {
                if let Err(m) = check_visvalingam(&s, &post, a) { ctx::violate("simplify", &format!("after step {} {:?}: {}", step, op, m)); return; }
            },
            Prop::Data => {
                let held = if hold && !matches!(op, Op::Simplify(_)) { s.regions.len() } else { 0 } as i64;
                let want = made0 - s.regions.len() as i64 + held + post.regions.len() as i64;
                if LIVE.load(SeqCst) != want { ctx::violate("data-lost", &format!("after step {} {:?} {} values are alive instead of {}", step, op, LIVE.load(SeqCst), want)); return; }
                // the data is still attached to its own ground
                match &op {
                    Op::Simplify(_) => if s.ids() != post.ids() { ctx::violate("data-moved", "simplifying changed the regions' data"); return; },
                    _ if wild => {
                        let ids = s.ids();
                        let mut it = ids.iter();
                        if !post.ids().iter().all(|x| it.any(|y| y == x)) { ctx::violate("data-moved", &format!("after step {} {:?}: regions {:?} became {:?}", step, op, ids, post.ids())); return; }
                    }
                    _ => if let Err(m) = check_data(&op, degen, &s, &post, &net, &post_net, &lines) { ctx::violate("data-moved", &format!("after step {} {:?}: {}", step, op, m)); return; },
                }
                for (k, x) in keep.iter().enumerate() { if let Err((c, m)) = snap(x) { ctx::violate(c, &format!("source {} after step {}: {}", k, step, m)); return; } }
            }
        }
        if let Op::Clip(_) = op { if post.edges.len() > 0 && post.regions.len() > 0 && post_net != net { ctx::cnt(C::p_t_clipcut); } }
        let end = match &op { Op::Clip(_) => !clean, Op::Simplify(_) => degenerate(Some(&s), &post, &lines), Op::Normalize => false } || degenerate(None, &post, &lines);
        loosened |= matches!(op, Op::Simplify(a) if a > 0) && post.edges != s.edges;
        s = post;
        net = post_net;
        // another history on the same thread, between two operations of this one
        if NEST.with(|n| n.get()) && ctx::chance(1, 2) {
            NEST.with(|n| n.set(false));
            ctx::cnt(C::p_nested);
            ctx::note("  (another history)");
            history(prop, 3);
            ctx::note("  (back)");
            if ctx::violated() { return; }
        }
        degen |= end;
        if degen && (prop == Prop::Cover || prop == Prop::Borders || prop == Prop::Canon) { break; }
    }
    // the sources that were kept are still whole
    if prop == Prop::Links {
        for (k, x) in keep.iter().enumerate() {
            match snap(x) { Ok(s) => if let Err(m) = check_links(&s) { ctx::violate("links", &format!("source {} at the end: {}", k, m)); return; } else if s != kept[k] { ctx::violate("source-changed", &format!("source {} is not what it was", k)); return; }, Err((c, m)) => { ctx::violate(c, &format!("source {} at the end: {}", k, m)); return; } }
        }
        ctx::sut(move || drop(keep));
        match snap(&t) {
            Ok(x) => {
                if x != s { ctx::violate("links", "the topology changed when the topologies it was made from were dropped"); return; }
            }
            Err((c, m)) => { ctx::violate(c, &format!("after dropping its sources: {}", m)); return; }
        }
        ctx::sut(move || drop(t));
    } else {
        ctx::sut(move || { drop(t); drop(keep); });
    }
}

/// The data of each region stays with its ground: some boundary strictly inside is common.
fn check_data(op: &Op, degen: bool, pre: &Snap, post: &Snap, pre_net: &Net, post_net: &Net, lines: &[Mask]) -> Result<(), String> {
    let (a, b) = (pre.ids(), post.ids());
    let mut it = a.iter();
    if !b.iter().all(|x| it.any(|y| y == x)) { return Err(format!("regions {:?} became {:?}", a, b)); }
    // (a region that simplifying flattened has no boundary left)
    if let Op::Normalize = op { if !degen && a != b { return Err(format!("regions {:?} became {:?}", a, b)); } }
    for ((id, (p, q)), n) in post_net {
        // a boundary of the result that is none of this region's but one of another region's in the same direction
        // (what a clip cut off can come to lie, to the unit, on a neighbour's border)
        if let Op::Clip(m) = op { if m.on(*p) || m.on(*q) { continue; } }
        if pre_net.get(&(*id, (*p, *q))) == Some(n) || lines.iter().any(|m| m.on(*p) && m.on(*q)) { continue; }
        let other = a.iter().find(|o| *o != id && pre_net.get(&(**o, (*p, *q))).map(|m| m.signum() == n.signum()).unwrap_or(false) && pre_net.get(&(*id, (*p, *q))).is_none());
        if let Some(o) = other { return Err(format!("the boundary {:?}-{:?} of region {} now belongs to {}", p, q, o, id)); }
    }
    Ok(())
}

fn env() {
    arena::seeded();
    unsafe { os::ENTROPY = ctx::below(1 << 30) as u64 };
}
/// Runs `f` on a fresh thread, whose hash seeds come from the simulated entropy.
fn fresh(f: impl FnOnce() + Send + 'static) { sched::run_fresh(vec![Box::new(f)]); }

/// Something this thread did earlier, with other regions: a builder given up half-way, another history, an
/// operation cut short by a panic. Nothing of it may show in what comes after.
fn past(panics: bool) {
    ctx::cnt(C::p_past);
    let cov = if ctx::chance(1, 4) { cover::wild() } else { cover::gen(&cover::Cfg { pinch_ok: true, flips: true, plain_rings: false, junk: true, small: true, big: false, alt: false }) };
    let mut rs = regions_of(&cov);
    match ctx::below(if panics { 3 } else { 2 }) {
        0 => {
            rs.truncate(ctx::below(cov.regions.len() as u32 + 1) as usize);
            let _ = ctx::guarded(move || { let mut b = TopologyBuilder::new(); for r in rs { b.add_region(r); } drop(b); });
        }
        how => {
            let t = match build(rs) { Ok(t) => t, Err(_) => return };
            let s = match snap(&t) { Ok(s) => s, Err(_) => return };
            let op = match ctx::below(5) { 0..=1 => Op::Normalize, 4 if how == 1 => Op::Simplify(draw_threshold()), _ => Op::Clip(draw_mask(&s)) };
            let mut keep = vec![];
            if how == 2 { PANIC_AT.store(1 + ctx::below(s.regions.len().max(1) as u32) as i64, SeqCst); }
            let r = apply(t, &op, &mut keep, false);
            PANIC_AT.store(0, SeqCst);
            ctx::sut(move || { drop(r); drop(keep); });
        }
    }
}

/// One history, or two in the same process: at the same time, or one after the other.
fn histories(prop: Prop, max: u32) {
    env();
    match ctx::below(11) {
        10 => fresh(move || { NEST.with(|n| n.set(true)); history(prop, max.max(2)) }),
        0 => { ctx::cnt(C::p_two); sched::run_fresh(vec![Box::new(move || history(prop, max)), Box::new(move || history(prop, max))]) }
        1 => { ctx::cnt(C::p_two); fresh(move || { history(prop, max); if !ctx::violated() { history(prop, max) } }) }
        2 => fresh(move || { past(true); if !ctx::violated() { history(prop, max) } }),
        _ => fresh(move || history(prop, max)),
    }
}
pub fn c10() { histories(Prop::Links, 5) }
pub fn c11() {
    env();
    fresh(|| {
        // (what is set up once in a process and kept is not lost)
        ctx::sut(|| {
            let sq = |a: u32, b: u32| geo::Ring::Points(vec![geo::Point(a, a), geo::Point(b, a), geo::Point(b, b), geo::Point(a, b), geo::Point(a, a)].into_boxed_slice());
            let mut b = TopologyBuilder::new();
            b.add_region(geo::Region { data: Tok::new(1), outer_rings: vec![sq(0, 90)].into_boxed_slice(), inner_rings: vec![].into_boxed_slice() });
            let t = b.into_topology();
            let n = normalize(&t);
            let c = clip_topology(&n, &ClipMask::MinX(30));
            drop(simplify(c, 5));
        });
        let (blocks, live) = (arena::a().live_blocks, LIVE.load(SeqCst));
        if ctx::chance(1, 8) { NEST.with(|n| n.set(true)); }
        if ctx::chance(1, 6) {
            // a builder that is given up half-way
            ctx::cnt(C::p_abandon);
            let cov = cover::gen(&cover::Cfg { pinch_ok: true, flips: true, plain_rings: false, junk: true, small: true, big: false, alt: false });
            let k = ctx::below(cov.regions.len() as u32 + 1) as usize;
            let rs: Vec<_> = regions_of(&cov).into_iter().take(k).collect();
            if let Err(p) = ctx::guarded(move || { let mut b = TopologyBuilder::new(); for r in rs { b.add_region(r); } drop(b); }) { ctx::violate("panic", &format!("adding regions panicked: {}", p)); return; }
            if LIVE.load(SeqCst) != live { ctx::violate("data-lost", &format!("{} values were not dropped with the builder they had been added to", LIVE.load(SeqCst) - live)); return; }
            if arena::a().live_blocks != blocks { ctx::violate("memory-lost", &format!("{} blocks were not released with their builder", arena::a().live_blocks as i64 - blocks as i64)); return; }
        }
        history(Prop::Data, 4);
        if !ctx::violated() && ctx::chance(1, 10) { ctx::cnt(C::p_two); history(Prop::Data, 4); }
        if ctx::violated() { return; }
        if LIVE.load(SeqCst) != live { ctx::violate("data-lost", &format!("{} values were never dropped (of {})", LIVE.load(SeqCst) - live, MADE.load(SeqCst))); return; }
        if arena::a().live_blocks != blocks { ctx::violate("memory-lost", &format!("{} blocks were never released", arena::a().live_blocks - blocks)); }
    });
}
pub fn c13() { histories(Prop::Cover, 5) }
pub fn c16() { histories(Prop::Visv, 4) }
pub fn c17() { histories(Prop::Canon, 5) }
pub fn c14() { histories(Prop::Borders, 5) }

// ---------------------------------------------------------------- C12

/// Runs the operations without checks; a snapshot after each step.
fn replay_ops(cov: &Cov, ops: &[Op]) -> Result<Vec<Snap>, (&'static str, String)> {
    let mut t = build(regions_of(cov)).map_err(|p| ("panic", format!("building panicked: {}", p)))?;
    let mut out = vec![snap(&t)?];
    let mut keep = vec![];
    for op in ops {
        t = apply(t, op, &mut keep, false).map_err(|p| ("panic", format!("{:?} panicked: {}", op, p)))?;
        out.push(snap(&t)?);
    }
    ctx::sut(move || drop(t));
    Ok(out)
}

struct Shared(Topology<Tok>);
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}

type Base = Arc<Mutex<Option<(Vec<Op>, Vec<Snap>)>>>;

/// Draws a history while running it in the present environment.
fn draw_history(cov: &Cov, max: u32) -> Option<(Vec<Op>, Vec<Snap>)> {
    let fail = |c: &str, m: String| { ctx::violate(c, &m); None };
    let mut t = match build(regions_of(cov)) { Ok(t) => t, Err(p) => return fail("panic", format!("building panicked: {}", p)) };
    let mut s = match snap(&t) { Ok(s) => s, Err((c, m)) => return fail(c, m) };
    let (mut ops, mut snaps, mut keep) = (vec![], vec![s.clone()], vec![]);
    let n = ctx::below(max + 1);
    if n >= 3 { ctx::cnt(C::p_t_chain); }
    let mut plan = if n >= 3 && ctx::chance(1, 6) { draw_tile(&s) } else { vec![] };
    for _ in 0..n.max(plan.len() as u32) {
        let op = if !plan.is_empty() { Op::Clip(plan.pop().unwrap()) } else { match ctx::below(6) { 0..=1 => Op::Normalize, 5 => Op::Simplify(draw_threshold()), _ => Op::Clip(draw_mask(&s)) } };
        t = match apply(t, &op, &mut keep, false) { Ok(t) => t, Err(p) => return fail("panic", format!("{:?} panicked: {}", op, p)) };
        let post = match snap(&t) { Ok(s) => s, Err((c, m)) => return fail(c, m) };
        ops.push(op.clone());
        snaps.push(post.clone());
        ctx::note(&format!("  calm {:?}", op));
        s = post;
    }
    ctx::sut(move || drop(t));
    Some((ops, snaps))
}

fn compare(what: &str, ops: &[Op], want: &[Snap], got: &[Snap]) {
    for (k, (a, b)) in want.iter().zip(got).enumerate() {
        if a != b {
            let name = if k == 0 { "building".to_string() } else { format!("{:?}", ops[k - 1]) };
            let d = if a.regions.len() != b.regions.len() { "number of regions" } else if a.edges.len() != b.edges.len() { "number of edges" }
                else if a.edges.iter().zip(&b.edges).any(|(x, y)| x.0 != y.0) { "points or order of edges" } else if a.regions != b.regions { "rings" } else { "links" };
            ctx::violate("differs", &format!("{}: {} gave another topology in another environment: {} differ", what, name, d));
            return;
        }
    }
}

pub fn c12() {
    // One history in a calm environment...
    arena::calm();
    unsafe { os::ENTROPY = 1 };
    let mut n = 1 + ctx::below(3) as usize;
    if ctx::chance(1, 3) { n = 1; }
    let covs: Vec<Arc<Cov>> = (0..n).map(|_| Arc::new(if ctx::chance(1, 6) { cover::wild() } else { cover::gen(&cover::Cfg { pinch_ok: true, flips: true, plain_rings: false, junk: true, small: n > 1, big: n == 1, alt: false }) })).collect();
    let mut bases: Vec<(Arc<Cov>, Vec<Op>, Vec<Snap>)> = vec![];
    for c in &covs {
        let slot: Base = Arc::new(Mutex::new(None));
        let (s2, c2) = (slot.clone(), c.clone());
        fresh(move || { let r = draw_history(&c2, 4); *s2.lock().unwrap() = r; });
        let got = slot.lock().unwrap().take();
        match got { None => return, Some((o, s)) => bases.push((c.clone(), o, s)) }
    }
    // ... and again in a drawn one, all of them at the same time.
    env();
    ctx::cnt(C::f_hash);
    ctx::fev("entropy", unsafe { os::ENTROPY }, 0);
    let share = n > 1 && ctx::chance(1, 3);
    let mut tasks: Vec<Box<dyn FnOnce() + Send>> = vec![];
    if share {
        // several tasks work on one shared source
        let (c, ops, snaps) = bases[0].clone();
        let src: Arc<Mutex<Option<Arc<Shared>>>> = Arc::new(Mutex::new(None));
        let (s2, c2) = (src.clone(), c.clone());
        fresh(move || { if let Ok(t) = build(regions_of(&c2)) { *s2.lock().unwrap() = Some(Arc::new(Shared(t))); } });
        let got = src.lock().unwrap().take();
        let src = match got { Some(s) => s, None => { ctx::violate("panic", "building panicked in another environment"); return; } };
        let first = ops.iter().position(|o| matches!(o, Op::Simplify(_))).unwrap_or(ops.len());
        let (ops, snaps) = (ops[..first.min(1)].to_vec(), snaps[..first.min(1) + 1].to_vec());
        for i in 0..n {
            let (src, ops, snaps) = (src.clone(), ops.clone(), snaps.clone());
            tasks.push(Box::new(move || {
                let t: &Topology<Tok> = &src.0;
                let r = match ops.first() {
                    None => return,
                    Some(Op::Normalize) => ctx::guarded(|| normalize(t)),
                    Some(Op::Clip(m)) => ctx::guarded(|| clip_topology(t, &m.real())),
                    _ => return,
                };
                match r {
                    Err(p) => ctx::violate("panic", &format!("task {} on a shared topology panicked: {}", i, p)),
                    Ok(x) => {
                        let got = vec![match snap(t) { Ok(s) => s, Err((c, m)) => { ctx::violate(c, &m); return; } }, match snap(&x) { Ok(s) => s, Err((c, m)) => { ctx::violate(c, &m); return; } }];
                        compare(&format!("task {} on a shared topology", i), &ops, &snaps, &got);
                        ctx::sut(move || drop(x));
                    }
                }
            }));
        }
        sched::run_fresh(tasks);
        drop(src);
    } else {
        for (i, (c, ops, snaps)) in bases.into_iter().enumerate() {
            let before = if ctx::chance(1, 3) { 1 + ctx::below(2) } else { 0 };
            tasks.push(Box::new(move || {
                for _ in 0..before { past(n == 1); if ctx::violated() { return; } }
                match replay_ops(&c, &ops) {
                    Err((c, m)) => ctx::violate(c, &format!("task {}: {}", i, m)),
                    Ok(got) => { for g in &got { ctx::hash_out(g.hash()); } compare(&format!("task {}", i), &ops, &snaps, &got) }
                }
            }));
        }
        sched::run_fresh(tasks);
    }
}

pub fn scenario(_: &str) -> Option<fn()> { None }
