//! Reader world: one or more reader sessions over simulated streams or simulated files, checked
//! against the reference decoder.
use crate::arena;
use crate::ctx::{self, C};
use crate::model::{self, Dataset, Enc, Ev, Field, Pt, RefDbf, RefShp, Rings, Val};
use crate::os;
use crate::sched;
use crate::stream::{Fault, SimStream, What, KINDS};
use std::ffi::OsString;
use std::io::{BufReader, ErrorKind, Read};
use std::os::unix::ffi::OsStringExt;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use topogeo::geo as tgeo;
use topogeo::read::shapefile as sf;
use topogeo::read::shapefile::{dbf, shp};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Joined, Shp, Dbf, Geo }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Side { Shp, Dbf, Join }

#[derive(Clone, PartialEq, Debug)]
pub struct Row { pub bytes: Vec<u8>, pub vals: Vec<Result<String, ()>> }

#[derive(Clone, PartialEq, Debug)]
pub enum Item {
    Shp(u32, Rings),
    Row(Row),
    Pair(Rings, Row),
    Geo(Vec<Vec<(u32, u32)>>, Vec<Vec<(u32, u32)>>, Row),
    Err(Side, Option<ErrorKind>),
    /// The consumer did not look at this one.
    Skip,
    End,
}

type Rd = Box<dyn Read + Send>;

#[derive(Clone)]
pub struct Session {
    pub kind: Kind,
    pub enc: Enc,
    pub shp: Arc<Vec<u8>>,
    pub dbf: Arc<Vec<u8>>,
    pub s_faults: Vec<Fault>,
    pub d_faults: Vec<Fault>,
    pub s_stream: Option<SimStream>,
    pub d_stream: Option<SimStream>,
    pub s_buf: usize, // 0: no BufReader
    pub d_buf: usize,
    pub stop_after: Option<usize>,
    pub format: bool,
    /// The consumer keeps every record it got until the end.
    pub hold: bool,
    /// The consumer collects all items in one call.
    pub collect: bool,
    /// After this many items the reader moves to another thread.
    pub hop: Option<usize>,
    /// The consumer skips some of the items.
    pub skip: bool,
    /// So many records are read before ingesting the rest.
    pub plain_first: Option<usize>,
    pub path: Option<PathOpen>,
}
#[derive(Clone)]
pub struct PathOpen { pub path: PathBuf, pub how: u32 }

#[derive(Default)]
pub struct Log {
    pub open_err: Option<(Side, Option<ErrorKind>)>,
    pub bbox: Option<[u64; 4]>,
    pub names: Option<Vec<String>>,
    pub lookups_ok: bool,
    pub file_bytes: Option<u64>,
    pub row_count: Option<(u64, u64)>,
    pub items: Vec<Item>,
    pub panic: Option<String>,
    pub no_end: bool,
    pub after_end_bad: bool,
    pub stopped: bool,
    /// The end came within so many items that the consumer meant to skip.
    pub end_slack: usize,
    /// A record that was held and is not what it was when it was delivered.
    pub changed: Option<usize>,
}

type Later = Box<dyn FnOnce()>;
thread_local!(static NESTED: std::cell::RefCell<Vec<Later>> = const { std::cell::RefCell::new(vec![]) });
/// Between two records of one reader: maybe another reader runs on the same thread.
fn nested() {
    let some = NESTED.with(|n| !n.borrow().is_empty());
    if some && ctx::chance(1, 3) { let f = NESTED.with(|n| n.borrow_mut().pop().unwrap()); f(); }
}

fn shp_side(e: &shp::ShpError) -> (Side, Option<ErrorKind>) {
    (Side::Shp, match *e { shp::ShpError::IOError(ref x) => Some(x.kind()), _ => None })
}
fn dbf_side(e: &dbf::DbfError) -> (Side, Option<ErrorKind>) {
    (Side::Dbf, match *e { dbf::DbfError::IOError(ref x) => Some(x.kind()), _ => None })
}
fn sf_side(e: &sf::ShapefileError) -> (Side, Option<ErrorKind>) {
    match *e {
        sf::ShapefileError::ShpError(ref x) => shp_side(x),
        sf::ShapefileError::DbfError(ref x) => dbf_side(x),
        _ => (Side::Join, None),
    }
}
fn rings_of(rs: &[shp::ShpPolygonRing]) -> Rings {
    rs.iter().map(|r| r.0.iter().map(|p| (p.0.to_bits(), p.1.to_bits())).collect()).collect()
}
fn tring(r: &tgeo::Ring) -> Vec<(u32, u32)> {
    match *r {
        tgeo::Ring::Points(ref p) => p.iter().map(|p| (p.0, p.1)).collect(),
        tgeo::Ring::Edges(ref es) => {
            let mut v: Vec<(u32, u32)> = vec![];
            for e in es.iter() { for (i, p) in e.0.iter().enumerate() { if i > 0 || v.is_empty() { v.push((p.0, p.1)); } } }
            v
        }
    }
}

/// Passes an iterator on, but not for ever.
struct Bounded<'a, I> { it: &'a mut I, bytes0: u64, calls: u64, no_end: bool }
impl<'a, I: Iterator> Iterator for Bounded<'a, I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.calls += 1;
        if self.calls > SUPPLIED.load(SeqCst) - self.bytes0 + 16 { self.no_end = true; return None; }
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) { self.it.size_hint() }
}

struct Runner<'a> { log: Log, sess: &'a Session, bytes0: u64, fmt_sink: u64 }

static SUPPLIED: AtomicU64 = AtomicU64::new(0);
pub fn supplied(n: u64) { SUPPLIED.fetch_add(n, SeqCst); }

impl<'a> Runner<'a> {
    /// Runs code under test; a panic ends the session.
    fn call<T>(&mut self, f: impl FnOnce() -> T) -> Option<T> {
        match ctx::guarded(f) {
            Ok(v) => Some(v),
            Err(p) => { self.log.panic = Some(p); None }
        }
    }
    fn row(&mut self, fields: &[dbf::DbfField], r: &dbf::DbfRecord) -> Option<Row> {
        let mut vals = Vec::new();
        for f in fields {
            let v = self.call(|| f.read_string(r))?;
            vals.push(match v { Ok(s) => { if std::str::from_utf8(s.as_bytes()).is_err() { Err(()) } else { Ok(s.clone()) } } Err(_) => Err(()) });
        }
        if self.sess.format {
            let s = self.call(|| format!("{}", r))?;
            self.fmt_sink += s.len() as u64;
        }
        Some(Row { bytes: r.bytes.to_vec(), vals })
    }
    /// The consumer: asks until the end, ignoring errors.
    fn drive<T, I: Iterator<Item = T>>(&mut self, it: &mut I, mut conv: impl FnMut(&mut Self, &T) -> Option<Item>) {
        let mut held: Vec<T> = Vec::new();
        let mut had_err = false;
        let mut calls = 0u64;
        let mut held_at: Vec<usize> = Vec::new();
        let mut take = |s: &mut Self, v: &T, again: Option<usize>| -> bool {
            let x = match conv(s, v) { Some(x) => x, None => return false };
            if let Some(k) = again { return s.log.items[k] == x; }
            match &x {
                Item::Err(s, k) => { had_err = true; ctx::ev("item-err", *s as u64, k.map(|k| k as u64 + 1).unwrap_or(0)) }
                _ => ctx::ev("item-ok", s.log.items.len() as u64, 0),
            }
            if had_err { ctx::cnt(C::p_after_err); }
            s.log.items.push(x);
            true
        };
        if self.sess.collect {
            // everything at once
            ctx::cnt(C::p_collect);
            let mut b = Bounded { it, bytes0: self.bytes0, calls: 0, no_end: false };
            let all: Vec<T> = match self.call(|| (&mut b).collect()) { Some(v) => v, None => return };
            if b.no_end { self.log.no_end = true; return; }
            for v in &all { if !take(self, v, None) { return; } }
            self.log.items.push(Item::End);
            ctx::ev("end", 0, 0);
            let _ = self.call(move || drop(all));
        } else {
            // true: goes on
            let mut part = |s: &mut Self, it: &mut I, until: usize| -> bool {
                loop {
                    if s.log.items.len() >= until { return true; }
                    if let Some(k) = s.sess.stop_after {
                        if s.log.items.len() >= k { s.log.stopped = true; ctx::cnt(C::p_dropmid); return false; }
                    }
                    calls += 1;
                    if calls > SUPPLIED.load(SeqCst) - s.bytes0 + 16 {
                        s.log.no_end = true;
                        return false;
                    }
                    let n = if s.sess.skip && ctx::chance(1, 2) { ctx::cnt(C::p_skip); ctx::below(4) as usize } else { 0 };
                    match match s.call(|| if n > 0 { it.nth(n) } else { it.next() }) { Some(x) => x, None => return false } {
                        None => {
                            s.log.end_slack = n;
                            s.log.items.push(Item::End);
                            ctx::ev("end", 0, 0);
                            return false;
                        }
                        Some(v) => {
                            for _ in 0..n { s.log.items.push(Item::Skip); }
                            if !take(s, &v, None) { return false; }
                            if s.sess.hold { held.push(v); held_at.push(s.log.items.len() - 1); }
                            nested();
                        }
                    }
                }
            };
            let mut on = true;
            if let Some(k) = self.sess.hop { on = part(self, it, k); }
            if on { if self.sess.hop.is_some() { sched::hop(|| { part(self, it, usize::MAX); }) } else { part(self, it, usize::MAX); } }
            if self.log.items.last() != Some(&Item::End) { return; }
        }
        // what was delivered first is still what it was
        for (v, k) in held.iter().zip(&held_at).take(50) {
            if !take(self, v, Some(*k)) { if self.log.panic.is_none() { self.log.changed = Some(*k); } return; }
        }
        for k in 0..3 {
            let skip = k == 1 && self.sess.skip;
            match self.call(|| if skip { it.nth(2) } else { it.next() }) {
                Some(None) => {}
                Some(Some(_)) => { self.log.after_end_bad = true; return; }
                None => return,
            }
        }
    }
    fn joined<R: Read, S: Read>(&mut self, o: Result<sf::ShapefileReader<R, S>, sf::ShapefileError>) {
        let mut rd = match o {
            Err(e) => { self.log.open_err = Some(sf_side(&e)); if self.sess.format { self.fmt_err(&e); } return; }
            Ok(r) => r,
        };
        let bb = match self.call(|| *rd.bounding_box()) { Some(b) => b, None => return };
        self.log.bbox = Some([bb.0, bb.1, bb.2, bb.3].map(|f| f.to_bits()));
        let fields = match self.call(|| rd.dbf_fields()) { Some(f) => f, None => return };
        self.log.names = Some(fields.iter().map(|f| f.name.clone()).collect());
        let mut ok = true;
        let mut looked = Vec::new();
        for f in fields.iter() {
            let g = match self.call(|| rd.get_field(&f.name)) { Some(g) => g, None => return };
            ok &= g.as_ref().map(|g| g.name == f.name).unwrap_or(false);
            if let Some(g) = g { looked.push(g.clone()); }
        }
        // Half of the consumers read through the fields they looked up by name.
        let distinct = { let mut n: Vec<&String> = fields.iter().map(|f| &f.name).collect(); n.sort(); n.windows(2).all(|w| w[0] != w[1]) };
        let fields: Vec<dbf::DbfField> = if self.sess.hold && ok && distinct { looked } else { fields.to_vec() };
        let g = match self.call(|| rd.get_field("no such field!")) { Some(g) => g, None => return };
        self.log.lookups_ok = ok && g.is_none();
        if self.sess.kind == Kind::Geo {
            // some of the records are read plainly before the ingest starts
            if let Some(k) = self.sess.plain_first {
                ctx::cnt(C::p_mixed);
                for _ in 0..k {
                    let x = match self.call(|| rd.next()) { Some(Some(x)) => x, Some(None) => { self.log.items.push(Item::End); return; } None => return };
                    let it = match &x {
                        Err(e) => { let (a, b) = sf_side(e); Item::Err(a, b) }
                        Ok(r) => { let row = match self.row(&fields, &r.data) { Some(r) => r, None => return }; Item::Pair(rings_of(&r.rings), row) }
                    };
                    self.log.items.push(it);
                }
            }
            let mut it = match self.call(|| sf::ShapefileGeoIterator::new(&mut rd)) { Some(i) => i, None => return };
            self.drive(&mut it, |s, x| {
                Some(match x {
                    Err(e) => { if s.sess.format { s.fmt_err(e); } let (a, b) = sf_side(e); Item::Err(a, b) }
                    Ok(r) => {
                        if s.sess.format {
                            let t = s.call(|| format!("{}{:?}", r, r.outer_rings))?;
                            s.fmt_sink += t.len() as u64;
                        }
                        let row = s.row(&fields, &r.data)?;
                        Item::Geo(r.outer_rings.iter().map(tring).collect(), r.inner_rings.iter().map(tring).collect(), row)
                    }
                })
            });
        } else {
            self.drive(&mut rd, |s, x| {
                Some(match x {
                    Err(e) => { if s.sess.format { s.fmt_err(e); } let (a, b) = sf_side(e); Item::Err(a, b) }
                    Ok(r) => {
                        if s.sess.format {
                            let t = s.call(|| format!("{}", r))?;
                            s.fmt_sink += t.len() as u64;
                        }
                        let row = s.row(&fields, &r.data)?;
                        Item::Pair(rings_of(&r.rings), row)
                    }
                })
            });
        }
        let _ = self.call(move || drop(rd));
    }
    #[allow(deprecated)]
    fn fmt_err(&mut self, e: &dyn std::error::Error) {
        if let Some(s) = self.call(|| format!("{} {:?} {} {}", e, e, e.description(), e.cause().is_some())) { self.fmt_sink += s.len() as u64; }
    }
    fn shp<R: Read>(&mut self, o: Result<shp::ShpReader<R>, shp::ShpError>) {
        let mut rd = match o { Err(e) => { self.log.open_err = Some(shp_side(&e)); if self.sess.format { self.fmt_err(&e); } return; } Ok(r) => r };
        let bb = rd.header.bounding_box;
        self.log.bbox = Some([bb.0, bb.1, bb.2, bb.3].map(|f| f.to_bits()));
        self.log.file_bytes = Some(rd.header.file_n_bytes as u64);
        self.log.lookups_ok = true;
        self.drive(&mut rd, |s, x| {
            Some(match x {
                Err(e) => { if s.sess.format { s.fmt_err(e); } let (a, b) = shp_side(e); Item::Err(a, b) }
                Ok(r) => Item::Shp(r.record_number, rings_of(&r.rings)),
            })
        });
        let _ = self.call(move || drop(rd));
    }
    fn dbf<S: Read>(&mut self, o: Result<dbf::DbfReader<S>, dbf::DbfError>) {
        let mut rd = match o { Err(e) => { self.log.open_err = Some(dbf_side(&e)); if self.sess.format { self.fmt_err(&e); } return; } Ok(r) => r };
        let meta = rd.meta.clone();
        let fields: &[dbf::DbfField] = &meta.fields;
        self.log.names = Some(fields.iter().map(|f| f.name.clone()).collect());
        let mut ok = true;
        for f in fields {
            let g = match self.call(|| rd.get_field(&f.name)) { Some(g) => g, None => return };
            ok &= g.map(|g| g.name == f.name).unwrap_or(false);
        }
        self.log.lookups_ok = ok;
        self.log.row_count = Some((meta.n_records as u64, meta.n_bytes_per_record as u64));
        self.drive(&mut rd, |s, x| {
            Some(match x {
                Err(e) => { if s.sess.format { s.fmt_err(e); } let (a, b) = dbf_side(e); Item::Err(a, b) }
                Ok(r) => Item::Row(s.row(fields, r)?),
            })
        });
        let _ = self.call(move || drop(rd));
    }
}

pub fn run_session(sess: &mut Session) -> Log {
    let s = sess.s_stream.take();
    let d = sess.d_stream.take();
    let mut r = Runner { log: Log::default(), sess, bytes0: SUPPLIED.load(SeqCst), fmt_sink: 0 };
    let enc = model::enc_ref(sess.enc);
    let wrap = |st: Option<SimStream>, cap: usize| -> Rd {
        let st = st.expect("stream");
        if cap > 0 { ctx::sut(|| Box::new(BufReader::with_capacity(cap, st)) as Rd) } else { Box::new(st) }
    };
    if let Some(po) = &sess.path {
        let p = po.path.as_path();
        match (sess.kind, po.how) {
            (Kind::Shp, _) => if let Some(o) = r.call(|| shp::open(p)) { r.shp(o) },
            (Kind::Dbf, 0) => if let Some(o) = r.call(|| dbf::open_ascii(p)) { r.dbf(o) },
            (Kind::Dbf, _) => if let Some(o) = r.call(|| dbf::open(p, enc)) { r.dbf(o) },
            (_, 0) => if let Some(o) = r.call(|| match sess.enc { Enc::Ascii => sf::open_ascii(p), Enc::Utf8 => sf::open_utf8(p), Enc::W1252 => sf::open_windows1252(p), Enc::Latin1 => sf::open(p, enc) }) { r.joined(o) },
            _ => if let Some(o) = r.call(|| sf::open(p, enc)) { r.joined(o) },
        }
    } else {
        match sess.kind {
            Kind::Shp => { let s = wrap(s, sess.s_buf); if let Some(o) = r.call(|| shp::ShpReader::new(s)) { r.shp(o) } }
            Kind::Dbf => { let d = wrap(d, sess.d_buf); if let Some(o) = r.call(|| dbf::DbfReader::new(d, enc)) { r.dbf(o) } }
            _ => {
                let s = wrap(s, sess.s_buf);
                let d = wrap(d, sess.d_buf);
                if let Some(o) = r.call(|| sf::ShapefileReader::new(s, d, enc)) { r.joined(o) }
            }
        }
    }
    ctx::hash_out(r.fmt_sink);
    r.log
}

// ---------------------------------------------------------------- judging

struct Refs { rs: RefShp, rd: RefDbf, rs0: RefShp, rd0: RefDbf }

#[derive(Debug)]
enum Want {
    Ok(usize),
    OkOrErr(usize),
    /// An error of this side (None: any), parse error or the given I/O kind (None: any kind of error)
    Err(Option<Side>, Option<Option<ErrorKind>>),
    End,
}

fn want(kind: Kind, r: &Refs, i: usize) -> (Want, bool) {
    // (expectation, whether positions after this one are undefined)
    let s = r.rs.recs.get(i);
    let d = r.rd.rows.get(i);
    fn one<T>(x: &Ev<T>, side: Side, i: usize) -> (Want, bool) {
        match x {
            Ev::Ok(_) => (Want::Ok(i), false),
            Ev::Gray(_) => (Want::OkOrErr(i), false),
            Ev::Bad => (Want::Err(Some(side), Some(None)), false),
            Ev::Io(k) => (Want::Err(Some(side), Some(Some(*k))), true),
            Ev::Over => (Want::Err(Some(side), None), true),
        }
    }
    match kind {
        Kind::Shp => match s { None => (Want::End, false), Some(x) => one(x, Side::Shp, i) },
        Kind::Dbf => match d { None => (Want::End, false), Some(x) => one(x, Side::Dbf, i) },
        _ => match (s, d) {
            (None, None) => (Want::End, false),
            // A stream that fails where the other file has already ended: its own error counts.
            (None, Some(Ev::Io(k))) => (Want::Err(Some(Side::Dbf), Some(Some(*k))), true),
            (Some(Ev::Io(k)), None) => (Want::Err(Some(Side::Shp), Some(Some(*k))), true),
            (None, Some(_)) | (Some(_), None) => (Want::Err(None, None), true),
            (Some(a), Some(b)) => match (one(a, Side::Shp, i), one(b, Side::Dbf, i)) {
                (x, (Want::Ok(_), _)) => x,
                ((Want::Ok(_), _), y) => y,
                ((_, p), (_, q)) => (Want::Err(None, None), p || q),
            },
        },
    }
}

fn val_ok(w: &Val, g: &Result<String, ()>) -> bool {
    match (w, g) {
        (Val::Any, _) => true,
        (Val::Is(a), Ok(b)) => a == b,
        (Val::Err, Err(())) => true,
        (Val::ErrOr(_), Err(())) => true,
        (Val::ErrOr(v), Ok(b)) => v.contains(b),
        _ => false,
    }
}
pub fn row_ok(enc: Enc, fields: &[Field], want: &[u8], got: &Row) -> Result<(), String> {
    if got.bytes != want { return Err(format!("row bytes differ: stored {:?}, delivered {:?}", short(want), short(&got.bytes))); }
    if got.vals.len() != fields.len() { return Err("field count".into()); }
    let mut off = 1;
    for (f, v) in fields.iter().zip(&got.vals) {
        let w = model::ref_value(enc, f, off, want);
        if !val_ok(&w, v) { return Err(format!("field {:?} type {:?} at {}+{}: stored value {:?}, delivered {:?}", String::from_utf8_lossy(&f.name), f.ty as char, off, f.len, w, v)); }
        off += f.len as usize;
    }
    Ok(())
}
fn short(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(&b[..b.len().min(60)]).into_owned();
    format!("{}{}", s, if b.len() > 60 { "…" } else { "" })
}

fn shoelace(p: &[(u32, u32)]) -> i128 {
    p.windows(2).map(|w| w[0].0 as i128 * w[1].1 as i128 - w[1].0 as i128 * w[0].1 as i128).sum()
}
/// Checks an ingested region against the stored rings.
fn geo_ok(bbox: &[f64; 4], rings: &Rings, outer: &[Vec<(u32, u32)>], inner: &[Vec<(u32, u32)>]) -> Result<(), String> {
    if outer.len() + inner.len() != rings.len() { return Err(format!("{} rings stored, {}+{} ingested", rings.len(), outer.len(), inner.len())); }
    // Numbers of outer rings that may have been taken by the rings so far.
    let mut taken: Vec<usize> = vec![0];
    let m = u32::MAX as f64;
    for (k, r) in rings.iter().enumerate() {
        let q: Vec<(f64, f64)> = r.iter().map(|p: &Pt| {
            let (x, y) = (f64::from_bits(p.0), f64::from_bits(p.1));
            ((x - bbox[0]) / (bbox[2] - bbox[0]) * m, (bbox[3] - y) / (bbox[3] - bbox[1]) * m)
        }).collect();
        if q.iter().any(|p| !(p.0 >= -0.5 && p.0 <= m + 0.5 && p.1 >= -0.5 && p.1 <= m + 0.5)) {
            ctx::cnt(C::p_geo_out);
            return Ok(()); // a point outside the declared box: no promise
        }
        let fl: Vec<(u32, u32)> = q.iter().map(|p| (p.0 as u32, p.1 as u32)).collect();
        let a = shoelace(&fl);
        let per: f64 = q.windows(2).map(|w| (w[0].0 - w[1].0).abs() + (w[0].1 - w[1].1).abs()).sum::<f64>() * 4.0 + 64.0;
        let near = |g: Option<&Vec<(u32, u32)>>| g.map(|g| g.len() == q.len() && g.iter().zip(&q).all(|(g, q)| (g.0 as f64 - q.0).abs() <= 1.001 && (g.1 as f64 - q.1).abs() <= 1.001)).unwrap_or(false);
        // too thin to tell its direction after rounding: either side
        let thin = (a.abs() as f64) < per;
        if thin && a == 0 { ctx::cnt(C::p_flat); }
        if a.unsigned_abs() > 1u128 << 62 { ctx::cnt(C::p_fullrange); }
        if a < 0 { ctx::cnt(C::p_inner); }
        let mut next = Vec::new();
        for &t in &taken {
            if (thin || a < 0) && near(inner.get(k - t)) { next.push(t); }
            if (thin || a > 0) && near(outer.get(t)) { next.push(t + 1); }
        }
        next.dedup();
        if next.is_empty() {
            return Err(format!("ring {}: {} expected near {:?}…, got {} outer and {} inner rings without it in its place", k, if thin { "a thin ring" } else if a > 0 { "an outer ring" } else { "an inner ring" }, &fl[..fl.len().min(5)], outer.len(), inner.len()));
        }
        taken = next;
    }
    if !taken.contains(&outer.len()) { return Err("more rings ingested than stored".into()); }
    Ok(())
}

fn item_is(sess: &Session, r: &Refs, it: &Item, k: usize) -> Result<(), String> {
    fn get<T>(x: Option<&Ev<T>>) -> Option<&T> { match x { Some(Ev::Ok(v)) | Some(Ev::Gray(v)) => Some(v), _ => None } }
    let s = get(r.rs0.recs.get(k));
    let d = get(r.rd0.rows.get(k));
    let fields = match &r.rd0.open { Ev::Ok(f) | Ev::Gray(f) => f.clone(), _ => vec![] };
    match it {
        Item::Shp(n, rings) => {
            let s = s.ok_or("there is no such record")?;
            if *n != s.0 { return Err(format!("record number {} stored, {} delivered", s.0, n)); }
            if *rings != s.1 { return Err(format!("geometry differs from stored record {}", k)); }
            Ok(())
        }
        Item::Row(row) => row_ok(sess.enc, &fields, d.ok_or("there is no such row")?, row),
        Item::Pair(rings, row) => {
            if *rings != s.ok_or("there is no such record")?.1 { return Err(format!("geometry differs from stored record {}", k)); }
            row_ok(sess.enc, &fields, d.ok_or("there is no such row")?, row)
        }
        Item::Geo(o, i, row) => {
            let bb = match &r.rs0.open { Ev::Ok(b) | Ev::Gray(b) => *b, _ => return Err("no header".into()) };
            let rings = &s.ok_or("there is no such record")?.1;
            if bb.iter().all(|x| x.is_finite()) && bb[0] < bb[2] && bb[1] < bb[3] { geo_ok(&bb, rings, o, i)?; }
            row_ok(sess.enc, &fields, d.ok_or("there is no such row")?, row)
        }
        _ => Err("not a record".into()),
    }
}

/// Compares one session's log with the reference; `tag` prefixes the violation class.
pub fn judge(sess: &Session, log: &Log) {
    let no: Vec<Fault> = vec![];
    let rs = model::ref_shp(&sess.shp, &sess.s_faults);
    let rs0 = model::ref_shp(&sess.shp, &no);
    let cap = if sess.kind == Kind::Dbf { 1 << 20 } else { rs.recs.len().max(rs0.recs.len()) + 2 };
    let rd = model::ref_dbf(&sess.dbf, &sess.d_faults, sess.enc, cap);
    let rd0 = model::ref_dbf(&sess.dbf, &no, sess.enc, cap);
    let r = Refs { rs, rd, rs0, rd0 };
    if let Some(p) = &log.panic {
        let loc = p.rsplit(" at ").next().unwrap_or("").to_string();
        ctx::violate(&format!("panic {}", loc), p);
        return;
    }
    if log.no_end { ctx::violate("no-end", "the reader was asked more often than its streams supplied bytes and still did not report the end"); return; }
    if log.after_end_bad { ctx::violate("end-not-final", "an item was delivered after the end had been reported"); return; }
    if let Some(k) = log.changed { ctx::violate("record-changed", &format!("record {} changed after it was delivered", k)); return; }
    let use_s = sess.kind != Kind::Dbf;
    let use_d = sess.kind != Kind::Shp;
    // opening
    fn io<T>(e: &Ev<T>, side: Side, used: bool) -> Option<(Side, Option<Option<ErrorKind>>)> {
        if !used { return None; }
        match e { Ev::Io(k) => Some((side, Some(Some(*k)))), Ev::Bad => Some((side, None)), _ => None }
    }
    fn gray<T>(e: &Ev<T>) -> bool { matches!(e, Ev::Gray(_)) }
    let bad: Vec<_> = [io(&r.rs.open, Side::Shp, use_s), io(&r.rd.open, Side::Dbf, use_d)].into_iter().flatten().collect();
    let may = (use_s && gray(&r.rs.open)) || (use_d && gray(&r.rd.open));
    match &log.open_err {
        Some((side, kind)) => {
            if bad.is_empty() && !may { ctx::violate("open-refused", &format!("opening failed ({:?}, {:?}) though both headers were readable", side, kind)); return; }
            if !may && !bad.iter().any(|(s, k)| s == side && k.map(|k| k == *kind).unwrap_or(true)) {
                ctx::violate("open-error", &format!("opening reported {:?} {:?}, expected one of {:?}", side, kind, bad));
            }
            return;
        }
        None => if !bad.is_empty() {
            ctx::violate("open-accepted", &format!("opening succeeded, expected one of {:?}", bad));
            return;
        }
    }
    if use_s {
        if let Ev::Ok(bb) | Ev::Gray(bb) = &r.rs0.open {
            if log.bbox != Some(bb.map(|f| f.to_bits())) { ctx::violate("header", &format!("bounding box {:?} stored, {:?} delivered", bb, log.bbox.map(|b| b.map(f64::from_bits)))); return; }
        }
    }
    if use_d {
        if let Ev::Ok(fs) | Ev::Gray(fs) = &r.rd0.open {
            let names: Option<Vec<String>> = fs.iter().map(|f| model::decode(sess.enc, &f.name)).collect();
            if let Some(n) = names {
                if log.names.as_ref() != Some(&n) { ctx::violate("header", &format!("field names {:?} stored, {:?} delivered", n, log.names)); return; }
            }
            if !log.lookups_ok { ctx::violate("header", "field lookup by name fails"); return; }
        }
    }
    if let Some(n) = log.file_bytes {
        let w = u32::from_be_bytes([sess.shp[24], sess.shp[25], sess.shp[26], sess.shp[27]]) as u64 * 2;
        if n != w { ctx::violate("header", &format!("file length {} stored, {} delivered", w, n)); return; }
    }
    if let Some((n, l)) = log.row_count {
        let w = (u32::from_le_bytes([sess.dbf[4], sess.dbf[5], sess.dbf[6], sess.dbf[7]]) as u64, sess.dbf[10] as u64 | (sess.dbf[11] as u64) << 8);
        if (n, l) != w { ctx::violate("header", &format!("{:?} rows and bytes per row stored, {:?} delivered", w, (n, l))); return; }
    }
    // records
    let mut lost = false; // after an I/O error or a count mismatch
    let mut last: i64 = -1;
    let mut had_err = false;
    for (i, it) in log.items.iter().enumerate() {
        ctx::hash_out(match it { Item::End => 1, Item::Err(s, _) => 2 + *s as u64, _ => 9 });
        if lost {
            // Errors and the end are fine; a record must be a stored one, later than all before.
            if !matches!(it, Item::Err(..) | Item::End | Item::Skip) {
                let n = r.rs0.recs.len().max(r.rd0.rows.len());
                let mut why = String::from("no stored record left");
                let mut found = None;
                for k in (last + 1) as usize..n {
                    match item_is(sess, &r, it, k) { Ok(()) => { found = Some(k); break; } Err(e) => why = e }
                }
                match found {
                    Some(k) => last = k as i64,
                    None => { ctx::violate("forged-after-error", &format!("item {} after an error is not a stored record: {}", i, why)); return; }
                }
            }
            continue;
        }
        had_err |= matches!(it, Item::Err(..));
        let (w, stop) = want(sess.kind, &r, i);
        match (&w, it) {
            (Want::End, Item::End) => {}
            (_, Item::End) if log.end_slack > 0 && (i..=i + log.end_slack).any(|j| { let (w, stop) = want(sess.kind, &r, j); matches!(w, Want::End) || stop && j < i + log.end_slack }) => {}
            (Want::End, x) => { ctx::violate(if matches!(x, Item::Err(..)) { "extra-error" } else { "extra-record" }, &format!("item {} delivered after the last record: {}", i, brief(x))); return; }
            (_, Item::Skip) => {}
            (Want::Ok(k), x @ (Item::Err(..) | Item::End)) => { ctx::violate(if matches!(x, Item::End) { "early-end" } else { "good-record-refused" }, &format!("item {}: stored record {} expected, got {}", i, k, brief(x))); return; }
            (Want::Ok(k), x) => {
                if let Err(e) = item_is(sess, &r, x, *k) { ctx::violate("wrong-record", &format!("item {}: {}", i, e)); return; }
                if had_err { ctx::cnt(C::p_neighbour); }
            }
            (Want::OkOrErr(_), Item::Err(..)) => {}
            (Want::OkOrErr(k), x) => if let Err(e) = item_is(sess, &r, x, *k) { ctx::violate("wrong-record", &format!("item {}: {}", i, e)); return; },
            (Want::Err(..), Item::End) => { ctx::violate("silent-end", &format!("item {}: the end was reported instead of {:?}", i, w)); return; }
            (Want::Err(side, kind), Item::Err(s, k)) => {
                ctx::cnt(C::p_rejected);
                if side.map(|x| x != *s).unwrap_or(false) || kind.map(|x| x != *k).unwrap_or(false) {
                    ctx::violate("wrong-error", &format!("item {}: expected {:?}, got error of {:?} side, kind {:?}", i, w, s, k));
                    return;
                }
            }
            (Want::Err(..), x) => { ctx::violate("bad-record-delivered", &format!("item {}: expected {:?}, got {}", i, w, brief(x))); return; }
        }
        last = i as i64;
        if stop { lost = true; }
    }
    if !log.stopped && log.items.last() != Some(&Item::End) { ctx::violate("no-end", "iteration did not reach the end"); }
}
fn brief(x: &Item) -> String {
    match x { Item::Err(s, k) => format!("an error of {:?} side, kind {:?}", s, k), Item::End => "the end".into(), _ => "a record".into() }
}

// ---------------------------------------------------------------- building sessions

fn draw_buf() -> usize {
    match ctx::below(4) { 0 => 0, 1 => 8192, 2 => 1 + ctx::below(64) as usize, _ => *ctx::pick(&[1usize, 7, 32, 100, 512, 65536]) }
}

pub fn fresh(kind: Kind, id: u64, enc: Enc, shp: Vec<u8>, dbf: Vec<u8>) -> Session {
    let shp = Arc::new(shp);
    let dbf = Arc::new(dbf);
    let mut s = SimStream::plain(id * 2, shp.clone());
    let mut d = SimStream::plain(id * 2 + 1, dbf.clone());
    s.draw_schedule();
    d.draw_schedule();
    let collect = ctx::chance(1, 5);
    let skip = !collect && ctx::chance(1, 6);
    let hop = if ctx::chance(1, 8) { Some(ctx::below(4) as usize) } else { None };
    Session {
        kind, enc, collect, skip, hop, shp, dbf, s_faults: vec![], d_faults: vec![], s_stream: Some(s), d_stream: Some(d),
        s_buf: draw_buf(), d_buf: draw_buf(), stop_after: None, format: false, hold: ctx::chance(1, 4), plain_first: if kind == Kind::Geo && ctx::chance(1, 6) { Some(ctx::below(5) as usize) } else { None }, path: None,
    }
}
fn draw_kind() -> Kind { *ctx::pick(&[Kind::Joined, Kind::Joined, Kind::Shp, Kind::Dbf, Kind::Geo]) }

/// Draws stream faults; biased to record boundaries, headers and the inside of records.
fn draw_faults(len: usize, marks: &[usize], header: usize, as_errno: bool) -> Vec<Fault> {
    let mut v: Vec<Fault> = vec![];
    let n = 1 + ctx::below(if ctx::chance(1, 4) { 3 } else { 1 });
    for _ in 0..n {
        let at = match ctx::below(5) {
            0 if !marks.is_empty() => { let m = *ctx::pick(marks); (m + ctx::below(14) as usize).saturating_sub(2) }
            1 if !marks.is_empty() => *ctx::pick(marks),
            2 => ctx::below(header.min(len) as u32 + 1) as usize,
            3 => len.saturating_sub(ctx::below(20) as usize),
            _ => ctx::below(len as u32 + 1) as usize,
        }.min(len);
        if v.iter().any(|f| f.at == at) { continue; }
        let what = if ctx::chance(1, 2) { What::Eof } else {
            let (k, no) = *ctx::pick(KINDS);
            What::Err(if as_errno { std::io::Error::from_raw_os_error(no).kind() } else { k }, no)
        };
        let persistent = ctx::chance(1, 2);
        ctx::cnt(if at < header { C::p_eof_hdr } else if marks.contains(&at) { C::p_eof_bound } else { C::p_eof_mid });
        v.push(Fault { at, what, persistent });
    }
    v
}
fn add_faults(sess: &mut Session, offs: &[usize], as_errno: bool) {
    let which = ctx::below(3);
    if which != 1 && sess.kind != Kind::Dbf {
        sess.s_faults = draw_faults(sess.shp.len(), offs, 100, as_errno);
    }
    if (which != 0 || sess.s_faults.is_empty()) && sess.kind != Kind::Shp {
        let hl = sess.dbf.get(8).copied().unwrap_or(0) as usize | (sess.dbf.get(9).copied().unwrap_or(0) as usize) << 8;
        let rl = (sess.dbf.get(10).copied().unwrap_or(0) as usize | (sess.dbf.get(11).copied().unwrap_or(0) as usize) << 8).max(1);
        let marks: Vec<usize> = (0..).map(|k| hl + k * rl).take_while(|&p| p <= sess.dbf.len()).take(2000).collect();
        sess.d_faults = draw_faults(sess.dbf.len(), &marks, hl, as_errno);
    }
    if let Some(s) = sess.s_stream.as_mut() { s.faults = sess.s_faults.clone(); s.as_errno = as_errno; }
    if let Some(d) = sess.d_stream.as_mut() { d.faults = sess.d_faults.clone(); d.as_errno = as_errno; }
}

/// Runs the sessions as concurrent tasks and judges each.
fn run_all(sessions: Vec<Session>) {
    let n = sessions.len();
    let out: Arc<std::sync::Mutex<Vec<Option<(Session, Log)>>>> = Arc::new(std::sync::Mutex::new((0..n).map(|_| None).collect()));
    let one = |i: usize, mut s: Session| { let out = out.clone(); move || { let log = run_session(&mut s); out.lock().unwrap()[i] = Some((s, log)); } };
    let how = if n > 1 { ctx::below(4) } else { 0 };
    if how < 2 {
        // at the same time
        sched::run(sessions.into_iter().enumerate().map(|(i, s)| Box::new(one(i, s)) as Box<dyn FnOnce() + Send>).collect());
    } else {
        // on one thread: one after the other, or one between two records of another
        ctx::cnt(C::p_nested);
        let mut later: Vec<Later> = sessions.into_iter().enumerate().map(|(i, s)| Box::new(one(i, s)) as Later).collect();
        later.reverse();
        if how == 3 { let first = later.pop().unwrap(); NESTED.with(|n| *n.borrow_mut() = later); first(); later = NESTED.with(|n| std::mem::take(&mut *n.borrow_mut())); }
        while let Some(f) = later.pop() { f(); }
    }
    for x in out.lock().unwrap().iter() {
        let (s, l) = x.as_ref().unwrap();
        judge(s, l);
    }
}

fn n_sessions() -> usize { if ctx::chance(1, 4) { 2 + ctx::below(2) as usize } else { 1 } }

/// In-record damage that leaves the record framing alone.
fn bad_body(rings: &Rings) -> Vec<u8> {
    let mut b = model::record_body(rings);
    let np = rings.len();
    let set = |b: &mut Vec<u8>, o: usize, v: u32| b[o..o + 4].copy_from_slice(&v.to_le_bytes());
    let nn: usize = rings.iter().map(|r| r.len()).sum();
    match ctx::below(17) {
        0 => set(&mut b, 0, *ctx::pick(&[0u32, 1, 3, 8, 15, 25, 31, 6, u32::MAX, 0x0500_0000])),
        1 => set(&mut b, 36, 0),
        2 => set(&mut b, 36, *ctx::pick(&[np as u32 + 1, (np as u32).wrapping_sub(1), u32::MAX, 0x4000_0000, np as u32 + 4])),
        3 => set(&mut b, 40, *ctx::pick(&[nn as u32 + 1, nn as u32 - 1, 0, u32::MAX, 0x1000_0000])),
        4 => { let k = ctx::below(np as u32) as usize; set(&mut b, 44 + 4 * k, nn as u32 + ctx::below(3)); }
        5 => { let k = ctx::below(np as u32) as usize; set(&mut b, 44 + 4 * k, *ctx::pick(&[u32::MAX, u32::MAX - 2, 0x8000_0000, nn as u32 - 1, nn as u32 - 2, nn as u32 - 3])); }
        6 => { let k = ctx::below(np as u32) as usize; let v = ctx::below(nn as u32 + 2); set(&mut b, 44 + 4 * k, v); }
        7 => { if np > 1 { let k = 1 + ctx::below(np as u32 - 1) as usize; let prev = u32::from_le_bytes([b[40 + 4 * k], b[41 + 4 * k], b[42 + 4 * k], b[43 + 4 * k]]); let d = ctx::below(4); set(&mut b, 44 + 4 * k, (prev + d).saturating_sub(ctx::below(2))); } else { set(&mut b, 44, nn as u32); } }
        8 => { let k = ctx::below(45) as usize & !1; b.truncate(k); }
        9 => { let k = 2 * (1 + ctx::below(20) as usize); let l = b.len() - k.min(b.len()); b.truncate(l); }
        10 => { let k = 2 * (1 + ctx::below(20)) as usize; let mut r = ctx::Sub::new(); b.extend((0..k).map(|_| r.next() as u8)); }
        11 => { // part and point counts that cancel out in size: 4 more parts, 1 point fewer
            set(&mut b, 36, np as u32 + 4); set(&mut b, 40, nn as u32 - 1);
        }
        12 => { // counts that overflow 32-bit arithmetic to the right size
            set(&mut b, 36, np as u32 | 0x4000_0000);
        }
        13 => { // a polygon of nothing: no parts, with or without points
            let k = *ctx::pick(&[0usize, 0, 4, nn]);
            set(&mut b, 36, 0); set(&mut b, 40, k as u32);
            b.truncate(44);
            b.resize(44 + 16 * k, 0);
        }
        14 => { // parts without points, or with too few
            let (p, k) = (*ctx::pick(&[1usize, 1, 2, np]), ctx::below(5) as usize);
            let k = if p == 1 { k.min(3) } else { k };
            set(&mut b, 36, p as u32); set(&mut b, 40, k as u32);
            b.resize(44 + 4 * p + 16 * k, 0);
            for j in 0..p { let v = if j == 0 { 0 } else { ctx::below(k as u32 + 1) }; set(&mut b, 44 + 4 * j, v); }
        }
        15 => { // nothing in the record, or only its shape type
            let k = *ctx::pick(&[0usize, 2, 4, 4, 36, 40, 44]);
            b.truncate(k);
            if k >= 4 && ctx::chance(1, 2) { set(&mut b, 0, 0); }
        }
        _ => { // every part index shifted
            for k in 0..np { let o = 44 + 4 * k; let v = u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]]); set(&mut b, o, v.wrapping_add(1)); }
        }
    }
    ctx::cnt(C::f_badrec);
    ctx::fev("bad-record", b.len() as u64, 0);
    b
}

/// Bodies of a dataset with some records damaged in place.
fn bodies(d: &Dataset, num: u32, den: u32) -> Vec<(u32, Vec<u8>)> {
    d.shapes.iter().map(|(n, r)| (*n, if ctx::chance(num, den) { bad_body(r) } else { model::record_body(r) })).collect()
}

// ---------------------------------------------------------------- the properties

pub fn env() {
    arena::seeded();
    unsafe { os::ENTROPY = ctx::below(1 << 30) as u64 };
}

pub fn c01() {
    env();
    let n = n_sessions();
    let v = (0..n).map(|i| {
        let kind = draw_kind();
        let d = model::gen(&model::GenCfg { max_recs: 60, big: true, unsupported_types: false, geo: kind == Kind::Geo });
        let (s, _, b) = model::encode(&d);
        fresh(kind, i as u64, d.enc, s, b)
    }).collect();
    run_all(v);
}

pub fn c02() {
    env();
    let n = n_sessions();
    let v = (0..n).map(|i| {
        let kind = draw_kind();
        let d = model::gen(&model::GenCfg { max_recs: 24, big: true, unsupported_types: false, geo: kind == Kind::Geo });
        let (mut s, offs, mut b) = model::encode(&d);
        // the beginning of a much longer file
        let far = ctx::chance(1, 6);
        if far {
            ctx::cnt(C::f_longer);
            let more = |now: u32| match ctx::below(4) { 0 => now.saturating_add(1 + ctx::below(100)), 1 => now | 1 << (15 + ctx::below(17)), 2 => u32::MAX - ctx::below(3), _ => now.saturating_add(ctx::below(u32::MAX)) };
            let which = ctx::below(3);
            if which != 1 { let w = more(s.len() as u32 / 2).max(s.len() as u32 / 2 + 1); s[24..28].copy_from_slice(&w.to_be_bytes()); ctx::fev("declared-length", 0, w as u64); }
            if which != 0 { let w = more(d.rows.len() as u32).max(d.rows.len() as u32 + 1); b[4..8].copy_from_slice(&w.to_le_bytes()); ctx::fev("declared-length", 1, w as u64); }
        }
        let mut x = fresh(kind, i as u64, d.enc, s, b);
        if !far || ctx::chance(1, 2) { add_faults(&mut x, &offs, false); }
        x
    }).collect();
    run_all(v);
}

pub fn c03() {
    env();
    let kind = draw_kind();
    let d = model::gen(&model::GenCfg { max_recs: 23, big: false, unsupported_types: false, geo: false });
    let bs = bodies(&d, 1, 4);
    let (mut s, offs) = model::encode_shp(&d, &bs);
    let mut b = model::encode_dbf(&d);
    if ctx::chance(2, 3) { model::damage(&mut s, &mut b, &offs, d.fields.len()); }
    let mut x = fresh(kind, 0, d.enc, s, b);
    if ctx::chance(1, 2) { add_faults(&mut x, &offs, false); }
    let log = run_session(&mut x);
    // only termination and finality are judged here
    if let Some(p) = &log.panic { ctx::violate("panic", &format!("the reader panicked instead of ending: {}", p)); }
    if log.no_end { ctx::violate("no-end", "the reader was asked more often than its streams supplied bytes and still did not report the end"); }
    if log.after_end_bad { ctx::violate("end-not-final", "an item was delivered after the end had been reported"); }
    for it in &log.items { ctx::hash_out(match it { Item::End => 1, Item::Err(..) => 2, _ => 3 }); }
}

pub fn c04() {
    env();
    let kind = draw_kind();
    let d = model::gen(&model::GenCfg { max_recs: 23, big: false, unsupported_types: true, geo: false });
    let bs = bodies(&d, 1, 8);
    let (mut s, offs) = model::encode_shp(&d, &bs);
    let mut b = model::encode_dbf(&d);
    model::damage(&mut s, &mut b, &offs, d.fields.len());
    let mut x = fresh(kind, 0, d.enc, s, b);
    x.format = true;
    if ctx::chance(1, 6) { add_faults(&mut x, &offs, false); }
    let log = run_session(&mut x);
    judge(&x, &log);
}

pub fn c05() {
    env();
    let n = n_sessions();
    let v = (0..n).map(|i| {
        let kind = *ctx::pick(&[Kind::Joined, Kind::Shp, Kind::Geo]);
        let d = model::gen(&model::GenCfg { max_recs: 40, big: false, unsupported_types: false, geo: kind == Kind::Geo });
        let den = *ctx::pick(&[2u32, 3, 6, 1]);
        let bs = bodies(&d, 1, den);
        let (s, _) = model::encode_shp(&d, &bs);
        fresh(kind, i as u64, d.enc, s, model::encode_dbf(&d))
    }).collect();
    run_all(v);
}

pub fn c06() {
    env();
    let a = arena::a();
    a.lim_base = 1 << 20;
    a.lim_mult = 16;
    let kind = draw_kind();
    let d = model::gen(&model::GenCfg { max_recs: 12, big: true, unsupported_types: false, geo: false });
    let bs = bodies(&d, 1, 6);
    let (mut s, offs) = model::encode_shp(&d, &bs);
    let mut b = model::encode_dbf(&d);
    if ctx::chance(1, 2) && !offs.is_empty() {
        // the length or a count of one record
        let o = *ctx::pick(&offs);
        let place = *ctx::pick(&[4usize, 4, 44, 48]);
        let v: u32 = match ctx::below(4) { 0 => u32::MAX, 1 => 1 << (16 + ctx::below(16)), 2 => ctx::below(u32::MAX), _ => 100_000 + ctx::below(4_000_000) };
        let big = place == 4;
        if o + place + 4 <= s.len() {
            s[o + place..o + place + 4].copy_from_slice(&if big { v.to_be_bytes() } else { v.to_le_bytes() });
            if ctx::chance(1, 2) { s[24..28].copy_from_slice(&(u32::MAX / 2).to_be_bytes()); }
            ctx::cnt(C::f_setfield);
            ctx::fev("set-length", o as u64 + place as u64, v as u64);
        }
    } else {
        model::damage(&mut s, &mut b, &offs, d.fields.len());
    }
    let mut x = fresh(kind, 0, d.enc, s, b);
    x.s_buf = x.s_buf.min(8192);
    x.d_buf = x.d_buf.min(8192);
    if ctx::chance(1, 4) { add_faults(&mut x, &offs, false); }
    let _log = run_session(&mut x);
    ctx::hash_out(arena::a().peak);
}

pub fn c07() {
    env();
    let n = n_sessions();
    let v = (0..n).map(|i| {
        let kind = *ctx::pick(&[Kind::Joined, Kind::Geo]);
        let mut d = model::gen(&model::GenCfg { max_recs: 40, big: false, unsupported_types: false, geo: kind == Kind::Geo });
        match ctx::below(4) {
            0 => {}
            1 => { let k = ctx::below(4) as usize + 1; let l = d.shapes.len(); if l > 0 { d.shapes.truncate(l - k.min(l)); ctx::cnt(C::f_count); ctx::cnt(C::p_join_dbf); ctx::fev("fewer-shapes", k as u64, 0); } }
            2 => { let k = ctx::below(4) as usize + 1; let l = d.rows.len(); if l > 0 { d.rows.truncate(l - k.min(l)); ctx::cnt(C::f_count); ctx::cnt(C::p_join_shp); ctx::fev("fewer-rows", k as u64, 0); } }
            _ => {}
        }
        let bs = if ctx::chance(1, 2) { bodies(&d, 1, 4) } else { bodies(&d, 0, 1) };
        let (s, offs) = model::encode_shp(&d, &bs);
        let mut x = fresh(kind, i as u64, d.enc, s, model::encode_dbf(&d));
        if ctx::chance(1, 3) { add_faults(&mut x, &offs, false); }
        x
    }).collect();
    run_all(v);
}

struct Shared<T>(T);
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}

/// The same rows with their fields in another order, or with other fields under the same names: a
/// file of the same length.
fn sibling(d: &Dataset) -> Dataset {
    let nf = d.fields.len();
    let mut perm: Vec<usize> = (0..nf).collect();
    for _ in 0..1 + ctx::below(3) { let (a, b) = (ctx::below(nf as u32) as usize, ctx::below(nf as u32) as usize); perm.swap(a, b); }
    let mut e = d.clone();
    let keep_names = ctx::chance(1, 2);
    e.fields = perm.iter().map(|&k| d.fields[k].clone()).collect();
    if keep_names { for k in 0..nf { e.fields[k].name = d.fields[k].name.clone(); } }
    let starts: Vec<usize> = d.fields.iter().scan(1usize, |o, f| { let s = *o; *o += f.len as usize; Some(s) }).collect();
    e.rows = d.rows.iter().map(|r| {
        let mut v = vec![r[0]];
        for &k in &perm { v.extend(&r[starts[k]..starts[k] + d.fields[k].len as usize]); }
        v
    }).collect();
    e
}

pub fn c08() {
    env();
    let mut d = model::gen(&model::GenCfg { max_recs: 12, big: false, unsupported_types: true, geo: false });
    // Stored rows with bytes that are not values of their fields.
    if ctx::chance(1, 2) {
        let n = 1 + ctx::below(6);
        for _ in 0..n {
            if d.rows.is_empty() { break; }
            let i = ctx::below(d.rows.len() as u32) as usize;
            let nums: Vec<usize> = (0..d.fields.len()).filter(|&k| d.fields[k].ty == b'N').collect();
            if !nums.is_empty() && ctx::chance(1, 3) {
                // nearly a number
                let k = *ctx::pick(&nums);
                let t: &[u8] = *ctx::pick(&[&b"1."[..], b".5", b"-", b"+5", b"1.2.3", b"1-2", b"- 5", b"5 ", b"", b"1e5", b"0x1", b"NaN", b"inf", b"--5", b"-.5", b"1,5", b".", b"5\n", b"\t5", b"1_0", b"5.-1", b"*", b"\xd9\xa1", b"5\0"]);
                let at: usize = 1 + d.fields[..k].iter().map(|f| f.len as usize).sum::<usize>();
                let l = d.fields[k].len as usize;
                if t.len() > l { continue; }
                for q in 0..l { d.rows[i][at + q] = b' '; }
                d.rows[i][at + l - t.len()..at + l].copy_from_slice(t);
                ctx::cnt(C::f_badval);
                ctx::fev("bad-number", i as u64, k as u64);
                continue;
            }
            let p = ctx::below(d.rows[i].len() as u32) as usize;
            let v = match ctx::below(3) { 0 => *ctx::pick(b" -.+09e\0\n\t"), 1 => 0x80 + ctx::below(128) as u8, _ => ctx::below(256) as u8 };
            d.rows[i][p] = v;
            ctx::cnt(C::f_badval);
            ctx::fev("bad-value", i as u64, p as u64);
        }
    }
    let mut b = model::encode_dbf(&d);
    // Field table damage: lengths and types that do not fit the row.
    let mut fields = d.fields.clone();
    if ctx::chance(1, 4) && !fields.is_empty() {
        let k = ctx::below(fields.len() as u32) as usize;
        if ctx::chance(1, 2) { fields[k].len = ctx::below(256) as u8; b[32 + 32 * k + 16] = fields[k].len; }
        else { fields[k].ty = *ctx::pick(b"CN+|DLF@O"); b[32 + 32 * k + 11] = fields[k].ty; }
        ctx::cnt(C::f_setfield);
        ctx::fev("field-table", k as u64, fields[k].len as u64);
    }
    let enc = d.enc;
    // Other files of the same shape read in the same process: the same fields in another order, or
    // the same names on other fields.
    let mut files: Vec<(Vec<Field>, Vec<Vec<u8>>, Vec<u8>)> = vec![(fields, d.rows.clone(), b)];
    if d.fields.len() > 1 && ctx::chance(1, 2) {
        ctx::cnt(C::p_sibling);
        for _ in 0..1 + ctx::below(2) {
            let mut e = sibling(&d);
            if ctx::chance(1, 3) && e.rows.len() > 1 { e.rows.pop(); }
            let b = model::encode_dbf(&e);
            let at = ctx::below(files.len() as u32 + 1) as usize;
            files.insert(at, (e.fields, e.rows, b));
        }
    }
    let by_name = ctx::chance(1, 2);
    let mut opened = Vec::new();
    for (k, (fields, rows, b)) in files.into_iter().enumerate() {
        let mut st = SimStream::plain(k as u64, Arc::new(b));
        st.draw_schedule();
        let names: Vec<Option<String>> = fields.iter().map(|f| model::decode(enc, &f.name)).collect();
        let distinct = { let mut n = names.clone(); n.sort(); n.windows(2).all(|w| w[0] != w[1]) && n.iter().all(|n| n.is_some()) };
        let got = ctx::guarded(move || {
            let mut rd = dbf::DbfReader::new(Box::new(st) as Rd, model::enc_ref(enc)).ok()?;
            let fs: Vec<dbf::DbfField> = if by_name && distinct { names.iter().map(|n| rd.get_field(n.as_ref().unwrap())).flatten().collect() } else { rd.meta.fields.iter().cloned().collect() };
            let mut recs = Vec::new();
            while let Some(r) = rd.next() { recs.push(r.ok()?); }
            Some((fs, recs))
        });
        let (fs, recs) = match got {
            Err(p) => { ctx::violate("panic", &p); return; }
            Ok(None) => return, // refused on opening: judged elsewhere
            Ok(Some(x)) => x,
        };
        if fs.len() != fields.len() || recs.len() != rows.len() { ctx::violate("wrong-record", "rows or fields are missing"); return; }
        opened.push((fs, recs, fields, rows));
    }
    let n = 1 + ctx::below(4) as usize;
    if n > 1 && opened.iter().any(|o| o.2.iter().any(|f| f.ty == b'N')) { ctx::cnt(C::p_firstuse); }
    let sizes: Vec<(usize, usize)> = opened.iter().map(|o| (o.3.len(), o.2.len())).collect();
    let shared = Arc::new(Shared(opened));
    let tasks: Vec<Box<dyn FnOnce() + Send>> = (0..n).map(|_| {
        let sh = shared.clone();
        let mut order: Vec<(usize, usize, usize)> = vec![];
        for (k, &(n, m)) in sizes.iter().enumerate() { for i in 0..n { for j in 0..m { order.push((k, i, j)); } } }
        let mut r = ctx::Sub::new();
        for i in (1..order.len()).rev() { order.swap(i, r.below(i as u64 + 1) as usize); }
        order.truncate(60);
        let show = ctx::chance(1, 3);
        Box::new(move || {
            let sh: &Shared<_> = &sh;
            for (k, i, j) in order {
                let (fs, recs, fields, rows) = &sh.0[k];
                sched::yield_point("value", 4);
                let got = match ctx::guarded(|| fs[j].read_string(&recs[i])) { Err(p) => { ctx::violate("panic", &format!("reading field {} of row {}: {}", j, i, p)); return; } Ok(v) => v };
                let off = 1 + fields[..j].iter().map(|f| f.len as usize).sum::<usize>();
                let w = model::ref_value(enc, &fields[j], off, &rows[i]);
                let g = got.map_err(|_| ()).map(|s| s.clone());
                ctx::hash_out(g.is_ok() as u64);
                if let Ok(s) = &g { if std::str::from_utf8(s.as_bytes()).is_err() { ctx::violate("wrong-value", "text is not valid UTF-8"); return; } }
                if !val_ok(&w, &g) {
                    ctx::violate("wrong-value", &format!("row {} field {} (type {:?}, {}+{}), row bytes {:?}: stored value {:?}, delivered {:?}", i, j, fields[j].ty as char, off, fields[j].len, &rows[i][off.min(rows[i].len())..(off + fields[j].len as usize).min(rows[i].len())], w, g));
                    return;
                }
            }
            if show {
                for (_, recs, fields, rows) in sh.0.iter() {
                    for (i, r) in recs.iter().take(6).enumerate() {
                        sched::yield_point("print", 4);
                        let copy = if i % 2 == 1 { ctx::guarded(|| r.clone()).ok() } else { None };
                        let t = match ctx::guarded(|| format!("{}", copy.as_ref().unwrap_or(r))) { Err(p) => { ctx::violate("panic", &format!("formatting a record: {}", p)); return; } Ok(t) => t.to_string() };
                        let mut off = 1;
                        let mut want: Option<Vec<String>> = Some(vec![]);
                        for f in fields {
                            match (model::ref_value(enc, f, off, &rows[i]), want.as_mut()) { (Val::Is(v), Some(w)) => w.push(v), _ => want = None }
                            off += f.len as usize;
                        }
                        let mut at = 0;
                        for v in want.unwrap_or_default() {
                            match t[at..].find(&v) { Some(p) => at += p + v.len(), None => { ctx::violate("wrong-print", &format!("row {}: the value {:?} is not, or not in its place, in {:?}", i, v, t)); return; } }
                        }
                    }
                }
            }
        }) as Box<dyn FnOnce() + Send>
    }).collect();
    sched::run(tasks);
}

pub fn c09() {
    env();
    let n = n_sessions();
    let v = (0..n).map(|i| {
        let d = model::gen(&model::GenCfg { max_recs: 24, big: true, unsupported_types: false, geo: true });
        let bs = if ctx::chance(1, 4) { bodies(&d, 1, 5) } else { bodies(&d, 0, 1) };
        let (s, offs) = model::encode_shp(&d, &bs);
        let mut x = fresh(Kind::Geo, i as u64, d.enc, s, model::encode_dbf(&d));
        if ctx::chance(1, 4) { add_faults(&mut x, &offs, false); }
        x
    }).collect();
    run_all(v);
}

// ---------------------------------------------------------------- opening by path

fn vfile(path: &[u8], stream: SimStream) -> os::VFile {
    os::VFile { path: path.to_vec(), stream, open_errno: None, open_eintr: 0, fds: vec![], streams: vec![], opens: 0, closes: 0, link: None }
}

pub fn c15() {
    env();
    let mut d = model::gen(&model::GenCfg { max_recs: 24, big: true, unsupported_types: false, geo: false });
    let kind = *ctx::pick(&[Kind::Joined, Kind::Joined, Kind::Joined, Kind::Shp, Kind::Dbf]);
    let how = ctx::below(2);
    if kind == Kind::Dbf && how == 0 {
        // open_ascii: keep to ASCII content
        d = model::gen(&model::GenCfg { max_recs: 8, big: false, unsupported_types: false, geo: false });
        if d.enc != Enc::Ascii { return; }
    }
    let (mut s, offs, mut b) = model::encode(&d);
    if ctx::chance(1, 8) {
        // a header that is no header
        ctx::cnt(C::p_badhdr);
        match ctx::below(5) { 0 => s[1] ^= 1, 1 => s[28] ^= 4, 2 => s[32] = 3, 3 => b[8..10].copy_from_slice(&[5, 0]), _ => b[10..12].copy_from_slice(&[0, 0]) }
        ctx::fev("damaged-header", 0, 0);
    }
    // a decoy data set with other content
    let decoy = { let mut e = d.clone(); e.enc = d.enc; for r in e.rows.iter_mut() { for x in r.iter_mut() { *x ^= 1; } } e.bbox[0] += 1.0; e.fields.insert(0, Field { name: b"decoy".to_vec(), ty: b'C', len: 0 }); e };
    let (ds, _, db) = model::encode(&decoy);
    let dir: &[u8] = *ctx::pick(&[&b"/simdisk/"[..], b"/simdisk/a dir/", b"/simdisk/dir.shp/", b"/simdisk/v1.2/x.y/", b"/simdisk/\xc3\xa9t\xc3\xa9/", b"/simdisk/raw\xff\xfe/", b"/simdisk/up/../", b"/simdisk//two//", b"simdisk/", b"simdisk/rel.d/"]);
    let stem: &[u8] = *ctx::pick(&[&b"map"[..], b"map.v2", b"a b", b"shp", b"x.shp", b"\xe4\xb8\xad", b"bad\x80name", b"2017.04.24-tracts", b"map.dbf", b"."]);
    let stem: &[u8] = if stem == b"." { b"long_name_long_name_long_name_long_name_long_name_long_name_long_name_long_name_long_name_long_name_long_name_long_name" } else { stem };
    let ext: &[u8] = *ctx::pick(&[&b".shp"[..], b".shp", b".SHP", b".shape", b".geo", b""]);
    let ext: &[u8] = if ext.is_empty() && stem.contains(&b'.') { b".shp" } else { ext };
    let cat = |parts: &[&[u8]]| -> Vec<u8> { parts.concat() };
    let shp_path = cat(&[dir, stem, ext]);
    let dbf_path = cat(&[dir, stem, b".dbf"]);
    let po = PathOpen { path: PathBuf::from(OsString::from_vec(if kind == Kind::Dbf { dbf_path.clone() } else { shp_path.clone() })), how };
    if ctx::chance(1, 3) {
        // an earlier version of one or both files, read by an earlier reader
        ctx::cnt(C::p_version);
        let which = ctx::below(3);
        let (ds, db) = if d.fields.len() > 1 && ctx::chance(1, 2) { let mut e = sibling(&d); if ctx::chance(1, 2) { let h = e.shapes.len() / 2; e.shapes.rotate_left(h); } let (s, _, b) = model::encode(&e); (s, b) } else { (ds.clone(), db.clone()) };
        let mut x = fresh(kind, 2, d.enc, if which == 0 { s.clone() } else { ds.clone() }, if which == 1 { b.clone() } else { db.clone() });
        x.path = Some(po.clone());
        unsafe { os::VFS = Some(vec![vfile(&shp_path, x.s_stream.take().unwrap()), vfile(&dbf_path, x.d_stream.take().unwrap())]) };
        let log = run_session(&mut x);
        unsafe { (*std::ptr::addr_of_mut!(os::VFS)).take() };
        unsafe { (*std::ptr::addr_of_mut!(os::UNKNOWN_OPENS)).clear() };
        judge(&x, &log);
        if ctx::violated() { return; }
    }
    let mut x = fresh(kind, 0, d.enc, s, b);
    if ctx::chance(1, 2) { add_faults(&mut x, &offs, true); }
    if let Some(s) = x.s_stream.as_mut() { s.as_errno = true; }
    if let Some(d) = x.d_stream.as_mut() { d.as_errno = true; }
    let mut fs = vec![vfile(&shp_path, x.s_stream.take().unwrap()), vfile(&dbf_path, x.d_stream.take().unwrap())];
    if ctx::chance(1, 4) {
        // one or both are links to files elsewhere, with neighbours of their own
        let which = ctx::below(3);
        if which != 1 { fs[0].link = Some(b"/simdisk/store/blob-17.shp".to_vec()); }
        if which != 0 { fs[1].link = Some(b"/simdisk/store2/blob-17.dbf".to_vec()); }
        ctx::cnt(C::p_link);
    }
    // neighbours that must not be read
    let first = stem.split(|&c| c == b'.').next().unwrap().to_vec();
    let ds = Arc::new(ds);
    let db = Arc::new(db);
    for (p, dat) in [
        (cat(&[dir, &first, b".shp"]), &ds), (cat(&[dir, &first, b".dbf"]), &db), (cat(&[dir, stem, b".DBF"]), &db), (cat(&[dir, stem, ext, b".dbf"]), &db),
        (cat(&[b"/simdisk/", stem, b".dbf"]), &db), (cat(&[b"/simdisk/", stem, ext]), &ds), (cat(&[dir, stem]), &ds), (cat(&[dir, b".dbf"]), &db),
        (b"/simdisk/store/blob-17.dbf".to_vec(), &db), (b"/simdisk/store2/blob-17.shp".to_vec(), &ds),
    ] {
        if fs.iter().all(|f| os::norm(&f.path) != os::norm(&p)) { fs.push(vfile(&p, SimStream::plain(9, dat.clone()))); }
    }
    let missing = ctx::below(10);
    let mut expect_open: Option<Vec<(Side, ErrorKind)>> = None;
    let mut err = |fs: &mut Vec<os::VFile>, i: usize, side: Side| {
        let no = *ctx::pick(&[libc::ENOENT, libc::EACCES, libc::EMFILE, libc::EIO, libc::ENFILE, libc::ENOMEM, libc::ELOOP]);
        fs[i].open_errno = Some(no);
        expect_open.get_or_insert_with(Vec::new).push((side, std::io::Error::from_raw_os_error(no).kind()));
    };
    if missing == 9 && kind != Kind::Dbf { err(&mut fs, 0, Side::Shp); }
    if (missing == 8 || (missing == 9 && ctx::chance(1, 3))) && kind != Kind::Shp { err(&mut fs, 1, Side::Dbf); }
    for i in 0..2 { if ctx::chance(1, 5) { fs[i].open_eintr = 1 + ctx::below(3); } }
    x.path = Some(po);
    if ctx::chance(1, 4) { x.stop_after = Some(ctx::below(4) as usize); x.collect = false; }
    unsafe { os::VFS = Some(fs) };
    let twin = expect_open.is_none() && ctx::chance(1, 6);
    let mut log = Log::default();
    if twin {
        // the same path opened again while the first reader is at work
        ctx::cnt(C::p_twin);
        let mut y = fresh(kind, 4, d.enc, x.shp.to_vec(), x.dbf.to_vec());
        y.s_faults = x.s_faults.clone();
        y.d_faults = x.d_faults.clone();
        y.path = x.path.clone();
        y.s_stream = None;
        y.d_stream = None;
        if ctx::chance(1, 4) { y.stop_after = Some(ctx::below(4) as usize); y.collect = false; }
        run_all(if ctx::chance(1, 2) { vec![x.clone(), y] } else { vec![y, x.clone()] });
        if ctx::violated() { return; }
    } else {
        log = run_session(&mut x);
    }
    let fs = unsafe { (*std::ptr::addr_of_mut!(os::VFS)).take().unwrap() };
    if let Some(p) = &log.panic { ctx::violate("panic", p); return; }
    for (i, f) in fs.iter().enumerate() {
        if i >= 2 && f.opens > 0 { ctx::violate("wrong-file", &format!("opened {:?} when asked for {:?}", String::from_utf8_lossy(&f.path), String::from_utf8_lossy(&shp_path))); return; }
        if f.opens != f.closes || !f.fds.is_empty() { ctx::violate("descriptor-leak", &format!("{:?}: opened {} times, closed {} times", String::from_utf8_lossy(&f.path), f.opens, f.closes)); return; }
        if f.opens > 0 { ctx::cnt(C::p_fdclose); }
        if f.opens > 1 { ctx::ev("reopened", i as u64, 0); }
    }
    let unknown = unsafe { std::mem::take(&mut *std::ptr::addr_of_mut!(os::UNKNOWN_OPENS)) };
    if !unknown.is_empty() { ctx::violate("wrong-file", &format!("opened {:?} when asked for {:?}", unknown, String::from_utf8_lossy(&shp_path))); return; }
    if let Some(e) = expect_open {
        // Which file is reported when several things are wrong is not fixed; but something is.
        match log.open_err {
            None => ctx::violate("open-accepted", &format!("opening succeeded although {:?} could not be opened", e)),
            Some((side, k)) => {
                let header_bad = matches!(model::ref_shp(&x.shp, &x.s_faults).open, Ev::Io(_) | Ev::Bad) || matches!(model::ref_dbf(&x.dbf, &x.d_faults, x.enc, 0).open, Ev::Io(_) | Ev::Bad);
                if !header_bad && !e.iter().any(|(s, kk)| *s == side && Some(*kk) == k) { ctx::violate("open-error", &format!("opening reported {:?} {:?}, expected {:?}", side, k, e)); }
            }
        }
        return;
    }
    if !twin { judge(&x, &log); }
}
