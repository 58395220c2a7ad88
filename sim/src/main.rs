//! Deterministic simulation of topogeo: see /verif/DESIGN.md.
mod arena;
mod cover;
mod cp1252;
mod ctx;
mod model;
mod os;
mod rworld;
mod sched;
mod stream;
mod tworld;

use ctx::{sh, C};
use std::collections::HashSet;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: arena::SimAlloc = arena::SimAlloc;

pub struct Prop { id: &'static str, run: fn(), rule: &'static str, real: &'static str, stub: &'static str }

const READ_REAL: &str = "topogeo read::shapefile (shp, dbf, shapefile, geo), std io::BufReader/read_exact, encoding, regex, byteorder, lazy_static";
const READ_STUB: &str = "byte streams (SimStream), allocator (arena), thread scheduler (baton), hash seeds";
const TOPO_REAL: &str = "topogeo topology, normalize, clip, simplify, geo (and read::shapefile where the pipeline starts from a file), std HashMap/BTreeMap/Vec";
const TOPO_STUB: &str = "allocator (arena), getrandom (hash seeds), thread scheduler (baton), caller's Clone/Drop, byte streams";

fn props() -> Vec<Prop> {
    let r = |id, run, rule| Prop { id, run, rule, real: READ_REAL, stub: READ_STUB };
    let t = |id, run, rule| Prop { id, run, rule, real: TOPO_REAL, stub: TOPO_STUB };
    vec![
        r("C01", rworld::c01, "one run = 1-3 concurrent reader sessions over generated valid files; non-trivial = at least one short or interrupted read, preemption or non-default allocator policy"),
        r("C02", rworld::c02, "one run = 1-3 concurrent sessions with 1-3 injected stream errors or early ends; non-trivial = at least one fault or schedule event fired"),
        r("C03", rworld::c03, "one run = one session over a damaged and/or faulty file pair whose consumer ignores errors; non-trivial = at least one damage, fault or schedule event"),
        r("C04", rworld::c04, "one run = one session over a pair of files with 1-3 storage damages; non-trivial = at least one damage, fault or schedule event"),
        r("C05", rworld::c05, "one run = 1-3 sessions over files with some records damaged inside intact framing; non-trivial = at least one damaged record or schedule event"),
        r("C06", rworld::c06, "one run = one session over a pair of files with damaged length/count fields under the memory rule; non-trivial = at least one damage, fault or schedule event"),
        r("C07", rworld::c07, "one run = 1-3 joined sessions with unequal counts, rejected records or stream faults; non-trivial = at least one of those or a schedule event"),
        r("C08", rworld::c08, "one run = 1-4 tasks reading values of shared rows, first use included; non-trivial = at least one damage or schedule event"),
        r("C09", rworld::c09, "one run = 1-3 ingest sessions; non-trivial = at least one fault or schedule event"),
        t("C10", tworld::c10, "one run = an operation history on a generated coverage under a drawn allocator policy and hash seed; non-trivial = at least one environment event"),
        t("C11", tworld::c11, "one run = an operation history with counted caller data and clone panics; non-trivial = at least one environment event or clone panic"),
        t("C12", tworld::c12, "one run = one history executed in a calm and in a drawn environment, alone or among concurrent tasks; non-trivial = at least one environment event"),
        t("C13", tworld::c13, "one run = an operation history checked for coverage after each step; non-trivial = at least one environment event"),
        t("C14", tworld::c14, "one run = an operation history checked for shared borders after each step; non-trivial = at least one environment event"),
        t("C16", tworld::c16, "one run = an operation history whose simplifications are compared with Visvalingam's rule written down directly; non-trivial = at least one environment event"),
        t("C17", tworld::c17, "one run = an operation history checked for normal form after each normalization; non-trivial = at least one environment event"),
        Prop { id: "C15", run: rworld::c15, rule: "one run = one session opened by path on the simulated disk; non-trivial = at least one system-call fault, short read or environment event",
            real: "topogeo read::shapefile open functions, std fs::File and io::BufReader, encoding, regex", stub: "open/read system calls (simulated disk), allocator, thread scheduler, hash seeds" },
    ]
}

#[derive(Clone, Default)]
struct Out { status: u32, class: String, msg: String, hash: u64, sched: u64, nontrivial: u64, choices: Vec<u32>, events: u64 }

enum How<'a> { Seed(u64), Choices(&'a [u32]) }

/// Executes one run in its own process.
fn exec(run: fn(), how: How, trace: bool, want_choices: bool) -> Out {
    ctx::reset_shared();
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            // CPU-time guard against endless loops, and a wall-clock one far beyond it.
            let tv = libc::itimerval { it_interval: std::mem::zeroed(), it_value: libc::timeval { tv_sec: 40, tv_usec: 0 } };
            libc::setitimer(libc::ITIMER_PROF, &tv, std::ptr::null_mut());
            libc::alarm(600);
            match how { How::Seed(s) => ctx::set_random(s), How::Choices(c) => ctx::set_replay(c.to_vec()) }
            *std::ptr::addr_of_mut!(ctx::TRACE) = trace;
            arena::calm();
            if std::panic::catch_unwind(run).is_err() {
                ctx::harness_error(&format!("panic in the harness: {}", ctx::last_panic()));
            }
            if sh().status == 0 { sh().status = 1; }
            libc::_exit(0);
        }
        if pid < 0 { eprintln!("fork failed"); std::process::exit(2); }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let s = sh();
        let mut o = Out { status: s.status, class: ctx::class(), msg: ctx::msg(), hash: s.hash, sched: s.schedhash, nontrivial: s.nontrivial, choices: vec![], events: s.n_events };
        if libc::WIFSIGNALED(st) && o.status != 2 {
            let sig = libc::WTERMSIG(st);
            if sig == libc::SIGKILL {
                o.status = 3;
                o.msg = "run killed from outside".into();
            } else {
                o.status = 2;
                o.class = if sig == libc::SIGPROF || sig == libc::SIGALRM { "hang".into() } else { format!("crash signal {}", sig) };
                o.msg = format!("the process was ended by signal {} after {} events", sig, o.events);
            }
        } else if o.status == 0 {
            o.status = 2;
            o.class = "crash exit".into();
            o.msg = "the process ended before the run did".into();
        }
        if want_choices || o.status == 2 { o.choices = s.choices[..s.n_choices as usize].to_vec(); }
        o
    }
}

fn run_seed(verif_seed: u64, prop: &str, i: u64) -> u64 {
    let mut x = verif_seed ^ 0x5eed_0000;
    let mut h = ctx::splitmix(&mut x);
    ctx::hash_bytes(&mut h, prop.as_bytes());
    let mut y = h ^ i.wrapping_mul(0x2545_f491_4f6c_dd1d);
    ctx::splitmix(&mut y)
}

struct Batch { runs: u64, events: u64, counters: Vec<u64>, distinct: HashSet<u64>, nontrivial: u64, reruns: u64, rerun_diffs: u64, viol: Option<(u64, Out)>, err: Option<String> }

fn worker(p: &Prop, vs: u64, w: u64, n: u64, until: Instant, max_runs: u64, stop: &AtomicU32) -> Batch {
    let mut b = Batch { runs: 0, events: 0, counters: vec![0; C::COUNT as usize], distinct: HashSet::new(), nontrivial: 0, reruns: 0, rerun_diffs: 0, viol: None, err: None };
    let mut i = w;
    while Instant::now() < until && i < max_runs && stop.load(SeqCst) == 0 {
        let o = exec(p.run, How::Seed(run_seed(vs, p.id, i)), false, false);
        b.runs += 1;
        b.events += o.events;
        for k in 0..C::COUNT as usize { b.counters[k] += sh().counters[k]; }
        if o.nontrivial > 0 { b.nontrivial += 1; b.distinct.insert(o.sched); }
        match o.status {
            2 => { stop.store(1, SeqCst); b.viol = Some((i, o)); break; }
            3 => { stop.store(1, SeqCst); b.err = Some(format!("run {}: {}", i, o.msg)); break; }
            _ => {}
        }
        if b.runs % 97 == 0 {
            let o2 = exec(p.run, How::Seed(run_seed(vs, p.id, i)), false, false);
            b.reruns += 1;
            if o2.hash != o.hash || o2.status != o.status { b.rerun_diffs += 1; }
        }
        i += n;
    }
    b
}

fn put_u64(v: &mut Vec<u8>, x: u64) { v.extend(x.to_le_bytes()); }
fn put_s(v: &mut Vec<u8>, s: &str) { put_u64(v, s.len() as u64); v.extend(s.as_bytes()); }
struct Rdr<'a>(&'a [u8]);
impl<'a> Rdr<'a> {
    fn u(&mut self) -> u64 { let (a, b) = self.0.split_at(8); self.0 = b; u64::from_le_bytes(a.try_into().unwrap()) }
    fn s(&mut self) -> String { let n = self.u() as usize; let (a, b) = self.0.split_at(n); self.0 = b; String::from_utf8_lossy(a).into_owned() }
}

/// Runs the search on all cores.
fn search(p: &Prop, vs: u64, secs: f64, max_runs: u64, workers: u64) -> Batch {
    let until = Instant::now() + Duration::from_secs_f64(secs);
    let stop = unsafe {
        let m = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        &*(m as *const AtomicU32)
    };
    let mut pipes = vec![];
    for w in 0..workers {
        unsafe {
            let mut fds = [0; 2];
            libc::pipe(fds.as_mut_ptr());
            let pid = libc::fork();
            if pid == 0 {
                libc::close(fds[0]);
                ctx::init_shared();
                let b = worker(p, vs, w, workers, until, max_runs, stop);
                let mut v = vec![];
                for x in [b.runs, b.events, b.nontrivial, b.reruns, b.rerun_diffs] { put_u64(&mut v, x); }
                for x in &b.counters { put_u64(&mut v, *x); }
                put_u64(&mut v, b.distinct.len() as u64);
                for x in &b.distinct { put_u64(&mut v, *x); }
                match &b.err { Some(e) => put_s(&mut v, e), None => put_s(&mut v, "") }
                match &b.viol {
                    None => put_u64(&mut v, u64::MAX),
                    Some((i, o)) => {
                        put_u64(&mut v, *i);
                        put_s(&mut v, &o.class);
                        put_s(&mut v, &o.msg);
                        put_u64(&mut v, o.hash);
                        put_u64(&mut v, o.choices.len() as u64);
                        for c in &o.choices { put_u64(&mut v, *c as u64); }
                    }
                }
                let mut f = std::fs::File::from_raw_fd(fds[1]);
                let _ = f.write_all(&v);
                drop(f);
                libc::_exit(0);
            }
            libc::close(fds[1]);
            pipes.push((fds[0], pid));
        }
    }
    let mut t = Batch { runs: 0, events: 0, counters: vec![0; C::COUNT as usize], distinct: HashSet::new(), nontrivial: 0, reruns: 0, rerun_diffs: 0, viol: None, err: None };
    for (fd, pid) in pipes {
        let mut v = vec![];
        let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
        let _ = f.read_to_end(&mut v);
        unsafe { let mut st = 0; libc::waitpid(pid, &mut st, 0); }
        if v.is_empty() { t.err = Some("a worker died".into()); continue; }
        let mut r = Rdr(&v);
        t.runs += r.u(); t.events += r.u(); t.nontrivial += r.u(); t.reruns += r.u(); t.rerun_diffs += r.u();
        for k in 0..C::COUNT as usize { t.counters[k] += r.u(); }
        let n = r.u();
        for _ in 0..n { t.distinct.insert(r.u()); }
        let e = r.s();
        if !e.is_empty() { t.err = Some(e); }
        let i = r.u();
        if i != u64::MAX {
            let mut o = Out { status: 2, class: r.s(), msg: r.s(), hash: r.u(), ..Out::default() };
            let n = r.u();
            for _ in 0..n { o.choices.push(r.u() as u32); }
            if t.viol.as_ref().map(|v| i < v.0).unwrap_or(true) { t.viol = Some((i, o)); }
        }
    }
    t
}

/// Minimises a failing choice sequence, keeping the violation class.
fn shrink(p: &Prop, start: &Out, secs: f64) -> (Out, u64) {
    let until = Instant::now() + Duration::from_secs_f64(secs);
    let mut best = start.clone();
    let mut n = 0u64;
    let mut tried: HashSet<Vec<u32>> = HashSet::new();
    let mut attempt = |v: Vec<u32>, best: &mut Out, n: &mut u64| -> bool {
        if !tried.insert(v.clone()) { return false; }
        *n += 1;
        let o = exec(p.run, How::Choices(&v), false, true);
        if o.status == 2 && o.class == best.class {
            let mut c = o.choices.clone();
            while c.last() == Some(&0) { c.pop(); }
            let shorter = c.len() < best.choices.len() || (c.len() == best.choices.len() && c < best.choices);
            if shorter { *best = Out { choices: c, ..o }; return true; }
        }
        false
    };
    while best.choices.last() == Some(&0) { best.choices.pop(); }
    loop {
        let before = best.choices.clone();
        // cut the tail
        let mut lo = 0;
        while lo < best.choices.len() && Instant::now() < until {
            let mid = (lo + best.choices.len()) / 2;
            if !attempt(best.choices[..mid].to_vec(), &mut best, &mut n) { lo = mid + 1; }
        }
        // remove or zero spans
        let mut sz = (best.choices.len() / 2).next_power_of_two().max(1);
        while sz >= 1 && Instant::now() < until {
            let mut i = 0;
            while i < best.choices.len() && Instant::now() < until {
                let e = (i + sz).min(best.choices.len());
                let mut v = best.choices.clone();
                v.drain(i..e);
                let mut ok = attempt(v, &mut best, &mut n);
                if !ok && best.choices[i..e].iter().any(|&x| x != 0) {
                    let mut v = best.choices.clone();
                    for x in &mut v[i..e] { *x = 0; }
                    ok = attempt(v, &mut best, &mut n);
                }
                if !ok { i += sz; }
            }
            sz /= 2;
        }
        // lower single values
        let mut i = 0;
        while i < best.choices.len() && Instant::now() < until {
            let x = best.choices[i];
            for y in [x / 16, x / 2, x.saturating_sub(1)] {
                if y < x && i < best.choices.len() {
                    let mut v = best.choices.clone();
                    v[i] = y;
                    if attempt(v, &mut best, &mut n) { break; }
                }
            }
            i += 1;
        }
        if best.choices == before || Instant::now() >= until { break; }
    }
    (best, n)
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jlist(v: impl Iterator<Item = String>) -> String { format!("[{}]", v.collect::<Vec<_>>().join(", ")) }

fn root() -> String { std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()) }

fn field<'a>(t: &'a str, k: &str) -> &'a str {
    let i = t.find(&format!("\"{}\":", k)).unwrap_or_else(|| { eprintln!("replay file lacks {}", k); std::process::exit(2) });
    t[i + k.len() + 3..].trim_start()
}

fn replay(path: &str) -> i32 {
    let t = match std::fs::read_to_string(path) { Ok(t) => t, Err(e) => { eprintln!("{}: {}", path, e); return 2; } };
    let unq = |s: &str| -> String { s[1..].split('"').next().unwrap().to_string() };
    let id = unq(field(&t, "property"));
    let class = unq(field(&t, "class"));
    let hash: u64 = u64::from_str_radix(&unq(field(&t, "event_hash")), 16).unwrap();
    let ch = field(&t, "choices");
    let choices: Vec<u32> = ch[1..ch.find(']').unwrap()].split(',').filter_map(|x| x.trim().parse().ok()).collect();
    let ps = props();
    let p = ps.iter().find(|p| p.id == id).expect("property");
    let o = exec(p.run, How::Choices(&choices), true, false);
    print!("{}", ctx::trace_text());
    if o.status == 2 && o.class.replace('"', "'") == class {
        println!("reproduced: {} ({}), event hash {:016x}{}", o.class, o.msg, o.hash, if o.hash == hash { "" } else { " (differs from the recorded one)" });
        println!("VIOLATION property={} replay={}", id, path);
        if o.hash == hash { 1 } else { 3 }
    } else {
        println!("not reproduced: status {} {} {}", o.status, o.class, o.msg);
        0
    }
}

fn check(id: &str) -> i32 {
    let t0 = Instant::now();
    let ps = props();
    let p = match ps.iter().find(|p| p.id == id) { Some(p) => p, None => { eprintln!("unknown property {}", id); return 2; } };
    let vs: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) { "thorough" } else { "quick" };
    let secs: f64 = std::env::var("SIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 420.0 } else { 45.0 });
    let max_runs: u64 = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let workers: u64 = std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8).clamp(2, 16));
    println!("property {} tier {} VERIF_SEED={} workers {}", id, tier, vs, workers);
    // findings that are known and recorded
    let kf = std::fs::read_to_string(format!("{}/known_findings.txt", root())).unwrap_or_default();
    for line in kf.lines().filter(|l| l.starts_with("known: ")) {
        let rest = &line[7..];
        let prop = rest.split_whitespace().find_map(|w| w.strip_prefix("property=")).unwrap_or("");
        let sc = rest.split_whitespace().find_map(|w| w.strip_prefix("scenario=")).unwrap_or("");
        if prop != id { continue; }
        if let Some(f) = tworld::scenario(sc) {
            let o = exec(f, How::Choices(&[]), false, false);
            if o.status == 2 { println!("KNOWN-FINDING: property={} {}", id, rest); }
            else { println!("note: the known finding {} does not show any more", sc); }
        }
    }
    let b = search(p, vs, secs, max_runs, workers);
    let search_s = t0.elapsed().as_secs_f64();
    if let Some(e) = &b.err {
        if b.viol.is_none() { eprintln!("HARNESS ERROR {}", e); return 2; }
    }
    // written-out sample cases of this run
    let mut samples = vec![];
    for i in 0..400u64 {
        if samples.len() >= 3 || i >= b.runs { break; }
        let o = exec(p.run, How::Seed(run_seed(vs, id, i)), true, false);
        if o.nontrivial == 0 { continue; }
        let tr = ctx::trace_text();
        let lines: Vec<&str> = tr.lines().take(60).collect();
        samples.push(format!("{{\"run\": {}, \"seed\": {}, \"events\": {}, \"first_events\": {}}}", i, js(&format!("{:016x}", run_seed(vs, id, i))), o.events, jlist(lines.iter().map(|l| js(l)))));
    }
    let mut code = 0;
    let mut viol_js = String::new();
    if let Some((i, o)) = &b.viol {
        println!("run {} seed {:016x}: {}: {}", i, run_seed(vs, id, *i), o.class, o.msg);
        let (best, n) = shrink(p, o, if tier == "thorough" { 60.0 } else { 15.0 });
        let fin = exec(p.run, How::Choices(&best.choices), true, true);
        let _ = std::fs::create_dir_all(format!("{}/replays", root()));
        let path = format!("{}/replays/{}-{:016x}.json", root(), id, run_seed(vs, id, *i));
        let tr = ctx::trace_text();
        let body = format!(
            "{{\n\"property\": {},\n\"class\": {},\n\"message\": {},\n\"verif_seed\": {},\n\"run\": {},\n\"seed\": {},\n\"event_hash\": {},\n\"shrink_runs\": {},\n\"original_choices\": {},\n\"choices\": [{}],\n\"trace\": {}\n}}\n",
            js(id), js(&fin.class.replace('"', "'")), js(&fin.msg), vs, i, js(&format!("{:016x}", run_seed(vs, id, *i))), js(&format!("{:016x}", fin.hash)), n, o.choices.len(),
            best.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","), jlist(tr.lines().map(|l| format!("\n{}", js(l)))));
        if std::fs::write(&path, body).is_err() { eprintln!("cannot write {}", path); }
        println!("minimised from {} to {} choices in {} runs", o.choices.len(), best.choices.len(), n);
        println!("{}: {}", fin.class, fin.msg);
        let again = std::process::Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&path).output();
        println!("replay in a fresh process: {}", match again { Ok(o) if o.status.code() == Some(1) => "same violation, same event hash", Ok(o) if o.status.code() == Some(3) => "same violation", _ => "NOT reproduced" });
        println!("VIOLATION property={} replay={}", id, path);
        viol_js = format!(", \"violation\": {}", js(&format!("{}: {}", fin.class, fin.msg)));
        code = 1;
    }
    let mut faults = vec![];
    let mut probes = vec![];
    for k in 0..C::COUNT as usize {
        let n = ctx::CNAMES[k];
        if b.counters[k] == 0 { continue; }
        let e = format!("{}: {}", js(n), b.counters[k]);
        if n.starts_with("probe.") { probes.push(e) } else { faults.push(e) }
    }
    let ev = format!(
        "{{\n\"property\": {},\n\"tier\": {},\n\"seed\": {},\n\"level\": \"exploration\",\n\"coverage\": {{\n\"evaluations\": {},\n\"distinct_nontrivial\": {},\n\"nontrivial_runs\": {},\n\"rule\": {},\n\"distinct_measure\": \"different sequences of environment events (faults, short reads, preemptions, damage, policies) with their positions, together with the operation history and its results where the run is one\",\n\"runs_per_hour\": {},\n\"simulated_events\": {},\n\"simulated_time\": \"the code under test has no clock or timer; simulated time is counted in events\",\n\"faults_injected\": {{{}}},\n\"probes\": {{{}}},\n\"determinism_reruns\": {},\n\"determinism_differences\": {},\n\"workers\": {},\n\"components_real\": {},\n\"components_simulated\": {},\n\"samples\": [{}]{}\n}},\n\"assumptions\": [\"a clean batch is evidence, not proof: schedules, faults and inputs are sampled\", \"preemption happens at reads, allocations, clones, lock waits and value calls of the code under test\"],\n\"wall_s\": {:.2},\n\"violations\": {}\n}}\n",
        js(id), js(tier), vs, b.runs, b.distinct.len(), b.nontrivial, js(p.rule), (b.runs as f64 / search_s * 3600.0) as u64, b.events, faults.join(", "), probes.join(", "),
        b.reruns, b.rerun_diffs, workers, js(p.real), js(p.stub), samples.join(",\n"), viol_js, t0.elapsed().as_secs_f64(), (code == 1) as u32);
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", root(), id), ev) { eprintln!("cannot write evidence: {}", e); return 2; }
    println!("{} runs, {} distinct non-trivial, {} events, {} reruns ({} differ), {:.1} s", b.runs, b.distinct.len(), b.events, b.reruns, b.rerun_diffs, t0.elapsed().as_secs_f64());
    code
}

/// Determinism: prints one line per seed; outputs of two invocations must be identical.
fn hashes(id: &str, from: u64, n: u64) {
    let ps = props();
    let p = ps.iter().find(|p| p.id == id).expect("property");
    let vs: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    for i in from..from + n {
        let o = exec(p.run, How::Seed(run_seed(vs, id, i)), false, false);
        println!("{} {} {} {:016x} {:016x} {} {}", id, i, o.status, o.hash, o.sched, o.events, sh().n_choices);
    }
}

fn main() {
    ctx::init_shared();
    ctx::install_panic_hook();
    arena::map();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2]),
        Some("replay") => replay(&a[2]),
        Some("hashes") => { hashes(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap()); 0 }
        Some("trace") => {
            let ps = props();
            let p = ps.iter().find(|p| p.id == a[2]).expect("property");
            let vs: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let o = exec(p.run, How::Seed(run_seed(vs, &a[2], a[3].parse().unwrap())), true, false);
            print!("{}", ctx::trace_text());
            println!("status {} {} {}", o.status, o.class, o.msg);
            0
        }
        Some("scenario") => {
            let f = tworld::scenario(&a[2]).expect("scenario");
            let o = exec(f, How::Choices(&[]), true, false);
            print!("{}", ctx::trace_text());
            println!("status {} {} {}", o.status, o.class, o.msg);
            0
        }
        Some("list") => { for p in props() { println!("{}", p.id); } 0 }
        _ => { eprintln!("usage: sim check <ID> | replay <file> | hashes <ID> <from> <n> | trace <ID> <run>"); 2 }
    };
    std::process::exit(code);
}
