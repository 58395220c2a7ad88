//! The simulated allocator: code under test allocates from a fixed-address arena under a
//! seeded policy; harness code uses the system allocator.
use crate::ctx::{self, C};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::VecDeque;
use std::ptr::addr_of_mut;

const BASE: usize = 0x2000_0000_0000;
const SIZE: usize = 1 << 32;
/// From here on freed blocks are always reused and no gaps are made.
const FULL: usize = 1 << 28;
pub const HARD_CAP: u64 = 400 << 20;

#[derive(Clone, Copy, PartialEq)]
pub enum Reuse { Never, Lifo, Fifo, Random }
#[derive(Clone, Copy, PartialEq)]
pub enum Realloc { Keep, Move, Random }

pub struct Arena {
    pub on: bool,
    bump: usize,
    free: [VecDeque<usize>; 160],
    pub reuse: Reuse,
    pub gap: u32, // 0: none
    pub realloc: Realloc,
    pub poison: u8,
    rng: ctx::Sub,
    pub live: u64,
    pub live_blocks: u64,
    pub peak: u64,
    pub largest: u64,
    pub n_allocs: u64,
    /// Memory rule of C06: live <= lim_base + lim_mult * DELIVERED (0: off).
    pub lim_base: u64,
    pub lim_mult: u64,
}
const E: VecDeque<usize> = VecDeque::new();
static mut A: Arena = Arena {
    on: false, bump: BASE, free: [E; 160], reuse: Reuse::Lifo, gap: 0, realloc: Realloc::Keep, poison: 0, rng: unsafe_sub(),
    live: 0, live_blocks: 0, peak: 0, largest: 0, n_allocs: 0, lim_base: 0, lim_mult: 0,
};
const fn unsafe_sub() -> ctx::Sub {
    unsafe { std::mem::transmute::<u64, ctx::Sub>(0) }
}
pub static mut DELIVERED: u64 = 0;

pub fn a() -> &'static mut Arena {
    unsafe { &mut *addr_of_mut!(A) }
}

/// Reserves the arena. Done once per process, before any run is forked.
pub fn map() {
    unsafe {
        let p = libc::mmap(
            BASE as *mut _, SIZE, libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE, -1, 0,
        );
        if p as usize != BASE {
            eprintln!("cannot map the simulation arena");
            std::process::exit(2);
        }
    }
}

/// Plain policy: bump allocation, LIFO reuse, reallocation in place where it fits.
pub fn calm() {
    let s = a();
    s.on = true;
    s.reuse = Reuse::Lifo;
    s.gap = 0;
    s.realloc = Realloc::Keep;
    s.poison = 0xa5;
}
/// Draws a policy for this run.
pub fn seeded() {
    let s = a();
    calm();
    if ctx::chance(3, 4) {
        s.reuse = *ctx::pick(&[Reuse::Lifo, Reuse::Never, Reuse::Fifo, Reuse::Random]);
        s.gap = *ctx::pick(&[0, 16, 64, 4096]);
        s.realloc = *ctx::pick(&[Realloc::Keep, Realloc::Move, Realloc::Random]);
        s.poison = *ctx::pick(&[0xa5, 0x00, 0xff, 0x5b]);
        s.rng = ctx::Sub::new();
        ctx::fev("alloc.policy", (s.reuse as u64) << 8 | s.realloc as u64, s.gap as u64);
    }
}

fn class(size: usize, align: usize) -> (usize, usize) {
    let sz = size.max(1);
    if align <= 16 && sz <= 1024 {
        let c = (sz + 15) / 16; // 1..=64
        (c, c * 16)
    } else {
        let p = sz.max(align).next_power_of_two();
        (64 + p.trailing_zeros() as usize, p)
    }
}

unsafe fn arena_alloc(l: Layout) -> *mut u8 {
    let _g = ctx::harness();
    crate::sched::yield_point("alloc", 1);
    let s = a();
    s.n_allocs += 1;
    let size = l.size() as u64;
    s.largest = s.largest.max(size);
    if s.lim_base > 0 && s.live + size > s.lim_base + s.lim_mult * DELIVERED {
        ctx::violate("memory", &format!(
            "{} bytes requested with {} live after only {} bytes were supplied (allowance {} + {} x supplied)",
            size, s.live, DELIVERED, s.lim_base, s.lim_mult));
        libc::_exit(0);
    }
    if s.live + size > HARD_CAP {
        ctx::violate("memory-cap", &format!("{} bytes requested with {} live exceeds the simulated machine's {} bytes", size, s.live, HARD_CAP));
        libc::_exit(0);
    }
    if s.n_allocs > 60_000_000 {
        ctx::violate("no-progress", "60 million allocations in one run");
        libc::_exit(0);
    }
    let (c, sz) = class(l.size(), l.align());
    let list = &mut s.free[c];
    let mut p = 0usize;
    if !list.is_empty() {
        p = match s.reuse {
            Reuse::Never => if s.bump > BASE + FULL { list.pop_back().unwrap() } else { 0 },
            Reuse::Lifo => list.pop_back().unwrap(),
            Reuse::Fifo => list.pop_front().unwrap(),
            Reuse::Random => if s.rng.below(2) == 0 && s.bump < BASE + FULL { 0 } else { let n = list.len() as u64; list.swap_remove_back(s.rng.below(n) as usize).unwrap() },
        };
        if p != 0 { ctx::cnt(C::f_reuse); }
    }
    if p == 0 {
        if s.gap > 0 && s.bump < BASE + FULL && s.rng.below(3) == 0 {
            s.bump += 16 * (1 + s.rng.below(s.gap as u64 / 16) as usize);
            ctx::cnt(C::f_gap);
        }
        let al = l.align().max(16);
        s.bump = (s.bump + al - 1) & !(al - 1);
        if s.bump + sz > BASE + SIZE {
            ctx::harness_error("arena exhausted");
        }
        p = s.bump;
        s.bump += sz;
    }
    s.live += size;
    s.live_blocks += 1;
    s.peak = s.peak.max(s.live);
    // Fresh memory is not zero: whatever was there before.
    let fill = l.size().min(1 << 16);
    std::ptr::write_bytes(p as *mut u8, s.poison ^ 0x3c, fill);
    p as *mut u8
}

unsafe fn arena_free(p: *mut u8, l: Layout) {
    let _g = ctx::harness();
    let s = a();
    let (c, _) = class(l.size(), l.align());
    s.live = s.live.wrapping_sub(l.size() as u64);
    s.live_blocks = s.live_blocks.wrapping_sub(1);
    std::ptr::write_bytes(p, s.poison, l.size().min(1 << 16));
    s.free[c].push_back(p as usize);
}

fn ours(p: *mut u8) -> bool {
    let x = p as usize;
    x >= BASE && x < BASE + SIZE
}

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ctx::in_sut() && a().on { arena_alloc(l) } else { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if ctx::in_sut() && a().on {
            let p = arena_alloc(l);
            if !p.is_null() { std::ptr::write_bytes(p, 0, l.size()); }
            p
        } else {
            System.alloc_zeroed(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ours(p) { arena_free(p, l) } else { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !ours(p) && !(ctx::in_sut() && a().on) {
            return System.realloc(p, l, n);
        }
        let nl = Layout::from_size_align_unchecked(n, l.align());
        if ours(p) {
            let s = a();
            let keep = match s.realloc {
                Realloc::Keep => true,
                Realloc::Move => false,
                Realloc::Random => s.rng.below(2) == 0,
            };
            if keep && class(l.size(), l.align()).0 == class(n, l.align()).0 {
                s.live = s.live - l.size() as u64 + n as u64;
                return p;
            }
        }
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
            if ours(p) {
                ctx::cnt(C::f_move);
                if n < l.size() { ctx::cnt(C::f_shrinkmove); }
            }
        }
        q
    }
}
