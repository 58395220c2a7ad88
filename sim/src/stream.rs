//! A stream whose delivery schedule and faults are explicit lists.
use crate::ctx::{self, C};
use std::io::{self, ErrorKind, Read};
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum Step { Chunk(usize), Eintr }

#[derive(Clone, Debug, PartialEq)]
pub enum What { Err(ErrorKind, i32), Eof }

#[derive(Clone, Debug)]
pub struct Fault { pub at: usize, pub what: What, pub persistent: bool }

/// The error kinds (with the errno used when they come from a system call).
pub const KINDS: &[(ErrorKind, i32)] = &[
    (ErrorKind::Other, libc::EIO), (ErrorKind::PermissionDenied, libc::EACCES), (ErrorKind::WouldBlock, libc::EAGAIN),
    (ErrorKind::TimedOut, libc::ETIMEDOUT), (ErrorKind::ConnectionReset, libc::ECONNRESET), (ErrorKind::BrokenPipe, libc::EPIPE),
    (ErrorKind::ConnectionAborted, libc::ECONNABORTED), (ErrorKind::NotFound, libc::ENOENT), (ErrorKind::InvalidInput, libc::EINVAL),
    (ErrorKind::InvalidData, libc::EBADMSG), (ErrorKind::UnexpectedEof, libc::ESTALE), (ErrorKind::OutOfMemory, libc::ENOMEM), (ErrorKind::NotConnected, libc::ENOTCONN),
    (ErrorKind::Unsupported, libc::EOPNOTSUPP), (ErrorKind::StorageFull, libc::EDQUOT), (ErrorKind::ResourceBusy, libc::EBUSY), (ErrorKind::HostUnreachable, libc::EHOSTUNREACH),
];

#[derive(Clone)]
pub struct SimStream {
    pub id: u64,
    pub data: Arc<Vec<u8>>,
    pub pos: usize,
    pub steps: Vec<Step>,
    pub si: usize,
    pub faults: Vec<Fault>,
    pub reads: u64,
    pub as_errno: bool,
}

impl SimStream {
    pub fn plain(id: u64, data: Arc<Vec<u8>>) -> SimStream {
        SimStream { id, data, pos: 0, steps: vec![], si: 0, faults: vec![], reads: 0, as_errno: false }
    }
    /// Draws a delivery schedule: a short list of steps, repeated.
    pub fn draw_schedule(&mut self) {
        let n = match ctx::below(4) { 0 => 0, 1 => 1, _ => 1 + ctx::below(6) };
        for _ in 0..n {
            let st = match ctx::below(8) {
                0 => Step::Chunk(1 << 20),
                1 => Step::Chunk(1),
                2 => Step::Chunk(1 + ctx::below(7) as usize),
                3 => Step::Chunk(1 + ctx::below(40) as usize),
                4 => Step::Chunk(1 + ctx::below(400) as usize),
                5 => Step::Chunk(*ctx::pick(&[4usize, 8, 16, 31, 32, 33, 44, 99, 100, 101, 108, 512, 4096])),
                _ => Step::Eintr,
            };
            self.steps.push(st);
        }
        if !self.steps.is_empty() && self.steps.iter().all(|s| matches!(s, Step::Eintr)) {
            // interrupted reads come in finite bursts
            self.steps.push(Step::Chunk(1 + ctx::below(64) as usize));
        }
        // long files in proportionally larger pieces
        let least = self.data.len() / 40_000;
        for s in self.steps.iter_mut() { if let Step::Chunk(k) = s { *k = (*k).max(least + 1); } }
    }
}

impl Read for SimStream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let _g = ctx::harness();
        crate::sched::yield_point("read", 12);
        self.reads += 1;
        if self.reads > 20 * self.data.len() as u64 + 20_000 {
            ctx::violate("no-progress", "stream read without bound");
            unsafe { libc::_exit(0) }
        }
        if buf.is_empty() {
            return Ok(0);
        }
        // delivery schedule
        let mut want = buf.len();
        if !self.steps.is_empty() {
            let st = self.steps[self.si % self.steps.len()].clone();
            self.si += 1;
            match st {
                Step::Eintr => {
                    ctx::cnt(C::f_eintr);
                    ctx::fev("eintr", self.id, self.pos as u64);
                    return Err(io::Error::from(ErrorKind::Interrupted));
                }
                Step::Chunk(k) => want = want.min(k),
            }
        }
        // faults
        let pos = self.pos;
        if let Some(i) = self.faults.iter().position(|f| f.at == pos) {
            let f = self.faults[i].clone();
            if !f.persistent { self.faults.remove(i); }
            return match f.what {
                What::Eof => {
                    ctx::cnt(if f.persistent { C::f_eof_p } else { C::f_eof_t });
                    ctx::fev("eof-fault", self.id, pos as u64);
                    Ok(0)
                }
                What::Err(k, no) => {
                    ctx::cnt(if f.persistent { C::f_ioerr_p } else { C::f_ioerr_t });
                    ctx::fev("io-error", self.id, pos as u64);
                    Err(if self.as_errno { io::Error::from_raw_os_error(no) } else { io::Error::new(k, "injected") })
                }
            };
        }
        let stop = self.faults.iter().map(|f| f.at).filter(|&x| x > pos).min().unwrap_or(usize::MAX).min(self.data.len());
        let n = want.min(stop - pos.min(stop));
        if n == 0 { ctx::ev("read", self.id, 0); return Ok(0); }
        buf[..n].copy_from_slice(&self.data[pos..pos + n]);
        // what lies beyond is anybody's guess
        let e = buf.len().min(n + 48);
        for x in &mut buf[n..e] { *x ^= 0x5a; }
        self.pos += n;
        unsafe { crate::arena::DELIVERED += n as u64 };
        crate::rworld::supplied(n as u64);
        if n < buf.len() && n > 0 && pos + n < self.data.len() {
            ctx::cnt(C::f_short_read);
            ctx::fev("short-read", self.id, n as u64);
        } else {
            ctx::ev("read", self.id, n as u64);
        }
        Ok(n)
    }
}
