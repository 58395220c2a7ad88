//! Per-run context: the choice source, the event log, counters, the violation record.
//!
//! All of it lives in one shared-memory block, so that the parent process sees what a
//! run did even if the run's process dies.
use std::cell::Cell;
use std::ptr::{addr_of, addr_of_mut};

pub const MAX_CHOICES: usize = 1 << 17;
pub const MAX_TRACE: usize = 1 << 20;

macro_rules! counters {
    ($($id:ident = $name:expr),* $(,)?) => {
        #[allow(non_camel_case_types)]
        #[derive(Clone, Copy)]
        pub enum C { $($id),*, COUNT }
        pub const CNAMES: &[&str] = &[$($name),*];
    };
}
counters! {
    // faults and environment actions that actually fired
    f_short_read = "fault.short_read", f_eintr = "fault.interrupted_read",
    f_ioerr_t = "fault.io_error_transient", f_ioerr_p = "fault.io_error_persistent",
    f_eof_t = "fault.early_eof_transient", f_eof_p = "fault.early_eof_persistent",
    f_open_fail = "fault.open_fails", f_sys_eintr = "fault.syscall_eintr", f_sys_short = "fault.syscall_short_read",
    f_sys_eio = "fault.syscall_error",
    f_flip = "damage.bit_flip", f_setfield = "damage.length_or_count_field", f_trunc = "damage.lost_tail",
    f_zero = "damage.lost_block", f_torn = "damage.torn_or_stale_block", f_append = "damage.trailing_garbage",
    f_misdir = "damage.misdirected_block", f_badrec = "damage.record_content", f_count = "damage.record_count_mismatch",
    f_badval = "damage.attribute_bytes",
    f_move = "alloc.moving_realloc", f_reuse = "alloc.freed_block_reused", f_gap = "alloc.random_gap",
    f_shrinkmove = "alloc.shrink_moved",
    f_longer = "storage.file_declared_longer",
    f_hash = "env.hash_seed_changed", f_preempt = "sched.preemption", f_futex = "sched.futex_wait_yield",
    f_clonepanic = "fault.clone_panics", f_dropsrc = "env.source_dropped_early", f_valmove = "env.topology_value_moved",
    // probes
    p_eof_mid = "probe.error_inside_record", p_eof_hdr = "probe.error_inside_header", p_eof_bound = "probe.error_at_record_boundary",
    p_after_err = "probe.calls_after_error", p_multipart = "probe.multi_ring_record", p_bigrec = "probe.record_over_8k",
    p_utf8 = "probe.multibyte_text", p_w1252 = "probe.cp1252_text", p_emptyfile = "probe.no_records",
    p_rejected = "probe.record_rejected", p_neighbour = "probe.good_record_after_rejected",
    p_long = "probe.long_field", p_num = "probe.numeric_field", p_manyfields = "probe.over_20_fields",
    p_join_shp = "probe.more_geometries_than_rows", p_join_dbf = "probe.more_rows_than_geometries",
    p_flat = "probe.ring_flattened_by_rounding", p_sibling = "probe.sibling_file_same_shape",
    p_hop = "probe.reader_moved_to_another_thread", p_collect = "probe.consumer_collects", p_skip = "probe.consumer_skips", p_version = "probe.file_rewritten_between_opens", p_noise = "probe.nonzero_unused_bytes", p_nested = "probe.sessions_on_one_thread", p_mixed = "probe.reader_and_ingest_mixed", p_abandon = "probe.builder_abandoned", p_twin = "probe.same_file_open_twice", p_link = "probe.symbolic_links", p_past = "probe.thread_with_a_past", p_badhdr = "probe.damaged_header", p_t_diag = "probe.faces_cut_diagonally", p_t_wild = "probe.regions_that_are_no_coverage", p_t_giant = "probe.very_long_border", p_two = "probe.two_histories_in_one_process",
    p_hugelen = "probe.length_field_over_1g", p_fullrange = "probe.ring_over_quarter_extent",
    p_inner = "probe.inner_ring", p_geo_out = "probe.point_outside_bbox",
    p_t_norm = "probe.normalize_op", p_t_clip = "probe.clip_op", p_t_simplify = "probe.simplify_op",
    p_t_shared = "probe.shared_border", p_t_hole = "probe.region_with_hole", p_t_merge = "probe.adjoining_rings_merged",
    p_t_dropreg = "probe.region_clipped_away", p_t_clipcut = "probe.ring_cut_by_mask", p_t_clipvertex = "probe.mask_through_vertex",
    p_t_island = "probe.island_in_lake", p_t_pinch = "probe.region_touches_itself_at_point", p_t_ringhole = "probe.merge_forms_hole",
    p_t_full = "probe.coordinates_over_2_31", p_t_chain = "probe.history_of_3_or_more_ops", p_t_empty = "probe.empty_topology",
    p_t_removed = "probe.simplify_removed_points", p_t_minring = "probe.closed_border_kept_at_4_points",
    p_e2e = "probe.pipeline_from_file", p_sessions = "probe.concurrent_sessions", p_firstuse = "probe.first_use_interleaved",
    p_fdclose = "probe.descriptors_closed", p_dropmid = "probe.reader_dropped_midway",
    p_giant = "probe.giant_record", p_many = "probe.hundreds_of_records", p_dup = "probe.repeated_points",
    p_t_tile = "probe.tile_cut_out", p_t_alt = "probe.divided_in_two_ways", p_v_exact = "probe.edges_against_visvalingam", p_v_ties = "probe.edges_with_equal_weights", p_v_apart = "probe.equal_weights_far_apart", p_v_skip = "probe.edges_with_too_many_equal_weights",
    p_t_big = "probe.over_60_faces", p_t_huge = "probe.over_65536_edges", p_t_long = "probe.long_borders",
    p_t_onecut = "probe.connector_edge_made", p_t_partial = "probe.hole_partly_filled",
}

#[repr(C)]
pub struct Shared {
    pub status: u32, // 0 running, 1 ok, 2 violation, 3 harness error
    pub n_choices: u32,
    pub hash: u64,
    pub schedhash: u64,
    pub n_events: u64,
    pub nontrivial: u64,
    pub counters: [u64; 128],
    pub class: [u8; 160],
    pub msg: [u8; 4096],
    pub trace_len: u32,
    pub choices: [u32; MAX_CHOICES],
    pub trace: [u8; MAX_TRACE],
}

pub static mut SH: *mut Shared = std::ptr::null_mut();

pub fn sh() -> &'static mut Shared {
    unsafe { &mut *SH }
}

pub fn init_shared() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        SH = p as *mut Shared;
    }
}

pub fn reset_shared() {
    let s = sh();
    s.status = 0;
    s.n_choices = 0;
    s.hash = 0xcbf29ce484222325;
    s.schedhash = 0xcbf29ce484222325;
    s.n_events = 0;
    s.nontrivial = 0;
    s.counters = [0; 128];
    s.class[0] = 0;
    s.msg[0] = 0;
    s.trace_len = 0;
}

fn put(dst: &mut [u8], src: &str) {
    let n = src.len().min(dst.len() - 1);
    dst[..n].copy_from_slice(&src.as_bytes()[..n]);
    dst[n] = 0;
}
fn get(src: &[u8]) -> String {
    let n = src.iter().position(|&b| b == 0).unwrap_or(src.len());
    String::from_utf8_lossy(&src[..n]).into_owned()
}
pub fn class() -> String {
    get(&sh().class)
}
pub fn msg() -> String {
    get(&sh().msg)
}
pub fn set_class_msg(c: &str, m: &str) {
    put(&mut sh().class, c);
    put(&mut sh().msg, m);
}

// ---------------------------------------------------------------- SUT flag

thread_local! {
    /// True while code of the system under test runs on this thread.
    static IN_SUT: Cell<bool> = const { Cell::new(false) };
}

pub fn in_sut() -> bool {
    IN_SUT.with(|c| c.get())
}

pub struct Flag(bool);
impl Drop for Flag {
    fn drop(&mut self) {
        let v = self.0;
        IN_SUT.with(|c| c.set(v));
    }
}
/// Marks the current thread as running harness code until the guard is dropped.
pub fn harness() -> Flag {
    IN_SUT.with(|c| Flag(c.replace(false)))
}
/// Runs `f` as code of the system under test.
pub fn sut<T>(f: impl FnOnce() -> T) -> T {
    let _g = IN_SUT.with(|c| Flag(c.replace(true)));
    f()
}

// ---------------------------------------------------------------- choices

pub enum Mode {
    Random([u64; 4]),
    Replay(Vec<u32>, usize),
}
pub static mut MODE: Mode = Mode::Replay(Vec::new(), 0);
pub static mut TRACE: bool = false;

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn set_random(seed: u64) {
    let mut x = seed;
    let st = [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)];
    unsafe { *addr_of_mut!(MODE) = Mode::Random(st) }
}
pub fn set_replay(v: Vec<u32>) {
    unsafe { *addr_of_mut!(MODE) = Mode::Replay(v, 0) }
}
pub fn tracing() -> bool {
    unsafe { *addr_of!(TRACE) }
}

fn next_u64(s: &mut [u64; 4]) -> u64 {
    let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
    let t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = s[3].rotate_left(45);
    r
}

/// The only source of randomness of a run: a value in 0..n. 0 is the simplest value.
pub fn below(n: u32) -> u32 {
    if n <= 1 {
        return 0;
    }
    let s = sh();
    let v = match unsafe { &mut *addr_of_mut!(MODE) } {
        Mode::Random(st) => (((next_u64(st) >> 32) * n as u64) >> 32) as u32,
        Mode::Replay(v, pos) => {
            let r = if *pos < v.len() { v[*pos] % n } else { 0 };
            *pos += 1;
            r
        }
    };
    if (s.n_choices as usize) < MAX_CHOICES {
        s.choices[s.n_choices as usize] = v;
        s.n_choices += 1;
        v
    } else {
        0
    }
}
/// lo..=hi
pub fn range(lo: u32, hi: u32) -> u32 {
    lo + below(hi - lo + 1)
}
/// True with probability num/den; false is the simple value.
pub fn chance(num: u32, den: u32) -> bool {
    below(den) >= den - num
}
/// Mostly small sizes, sometimes larger, up to `max`.
pub fn size(small: u32, max: u32) -> u32 {
    if max > small && chance(1, 12) {
        below(max + 1)
    } else {
        below(small + 1)
    }
}
pub fn pick<'a, T>(xs: &'a [T]) -> &'a T {
    &xs[below(xs.len() as u32) as usize]
}

/// A private PRNG whose seed is one choice, for bulk data.
pub struct Sub(u64);
impl Sub {
    pub fn new() -> Sub {
        Sub(below(1 << 30) as u64)
    }
    pub fn from(x: u64) -> Sub {
        Sub(x)
    }
    pub fn next(&mut self) -> u64 {
        splitmix(&mut self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            (((self.next() >> 32) as u128 * n as u128) >> 32) as u64
        }
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

// ---------------------------------------------------------------- events

fn fnv(h: &mut u64, v: u64) {
    for i in 0..8 {
        *h = (*h ^ ((v >> (8 * i)) & 0xff)).wrapping_mul(0x100000001b3);
    }
}
pub fn hash_bytes(h: &mut u64, b: &[u8]) {
    for &x in b {
        *h = (*h ^ x as u64).wrapping_mul(0x100000001b3);
    }
}

/// Records one event. Never draws a choice and never reads a clock.
pub fn ev(what: &str, a: u64, b: u64) {
    let _g = harness();
    let s = sh();
    s.n_events += 1;
    hash_bytes(&mut s.hash, what.as_bytes());
    fnv(&mut s.hash, a);
    fnv(&mut s.hash, b);
    if tracing() {
        note(&format!("{:>5} task{} {} {} {}", s.n_events, crate::sched::me(), what, a, b));
    }
}
/// Same, and part of the schedule/fault fingerprint used to count distinct runs.
pub fn fev(what: &str, a: u64, b: u64) {
    let s = sh();
    s.nontrivial += 1;
    hash_bytes(&mut s.schedhash, what.as_bytes());
    fnv(&mut s.schedhash, a);
    fnv(&mut s.schedhash, b);
    ev(what, a, b);
}
/// Adds to the fingerprint without counting as a fault or schedule event (operation histories).
pub fn fp(v: u64) { fnv(&mut sh().schedhash, v); }
/// Adds result data to the event hash (so that determinism checks cover outcomes too).
pub fn hash_out(v: u64) {
    fnv(&mut sh().hash, v);
}
pub fn note(line: &str) {
    if tracing() {
        let s = sh();
        let n = s.trace_len as usize;
        let b = line.as_bytes();
        if n + b.len() + 1 < MAX_TRACE {
            s.trace[n..n + b.len()].copy_from_slice(b);
            s.trace[n + b.len()] = b'\n';
            s.trace_len += b.len() as u32 + 1;
        }
    }
}
pub fn trace_text() -> String {
    String::from_utf8_lossy(&sh().trace[..sh().trace_len as usize]).into_owned()
}
pub fn cnt(c: C) {
    sh().counters[c as usize] += 1;
}

/// Records the first violation of the run.
pub fn violate(class: &str, msg: &str) {
    let _g = harness();
    let s = sh();
    if s.status == 0 {
        put(&mut s.class, class);
        put(&mut s.msg, msg);
        s.status = 2;
        note(&format!("VIOLATION {}: {}", class, msg));
    }
}
pub fn violated() -> bool {
    sh().status == 2
}
pub fn harness_error(msg: &str) -> ! {
    let _g = harness();
    let s = sh();
    put(&mut s.class, "harness");
    put(&mut s.msg, msg);
    s.status = 3;
    unsafe { libc::_exit(0) }
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _g = harness();
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, loc));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
/// Runs `f` as code under test and catches its panics.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sut(f))) {
        Ok(v) => Ok(v),
        Err(payload) => {
            let _g = harness();
            drop(payload);
            Err(last_panic())
        }
    }
}
