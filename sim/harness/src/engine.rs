//! Runs simulated executions: one run, a batch, minimisation, replay files and evidence.
use crate::scen::{self, Scenario};
use crate::world::{self, Violation};
use simrt::{Outcome, Source, Stop, Stream};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct RunOut {
    pub stop: Stop,
    pub viol: Vec<Violation>,
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub sim_ns: u64,
    pub hash: u64,
    pub stats: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub log: Vec<String>,
    pub choices: Vec<Vec<u32>>,
    pub nontrivial: bool,
    pub dev_ops: usize,
}

const SLOTS: usize = 64;
static BEATS: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];

// ------------------------------------------------------------------------------------------------
// The code under test may abort the process (a panic while unwinding, a stack overflow)

struct InFlight {
    seed: AtomicU64,
    scenario: Mutex<&'static str>,
}
static FLIGHT: [InFlight; SLOTS] = [const {
    InFlight {
        seed: AtomicU64::new(0),
        scenario: Mutex::new(""),
    }
}; SLOTS];
/// Property, directory, thorough
static ABORT_CTX: Mutex<Option<(String, String, bool)>> = Mutex::new(None);
/// What to report if an attempt to shrink a violation aborts
static SHRINKING: Mutex<Option<String>> = Mutex::new(None);
thread_local! { static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) }; }

extern "C" {
    fn signal(sig: i32, h: usize) -> usize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
}

fn say(s: &str) {
    unsafe { write(1, s.as_ptr(), s.len()) };
}

extern "C" fn on_abort(sig: i32) {
    let slot = SLOT.with(|s| s.get());
    let ctx = ABORT_CTX.try_lock().ok().and_then(|c| c.clone());
    if let (true, Some((prop, dir, thorough))) = (slot < SLOTS, ctx) {
        if let Some(p) = SHRINKING.try_lock().ok().and_then(|p| p.clone()) {
            say(&format!("VIOLATION property={prop} replay={p}\n  (not minimised: a variation of it aborts the process)\n"));
            unsafe { _exit(1) }
        }
        let seed = FLIGHT[slot].seed.load(Ordering::Relaxed);
        let name = FLIGHT[slot].scenario.try_lock().map(|n| *n).unwrap_or("");
        let path = format!("{dir}/replays/{prop}-abort-{seed:016x}.replay");
        let _ = std::fs::create_dir_all(format!("{dir}/replays"));
        let what = "the code under test aborted the process (a panic while unwinding from a panic, a failed allocation, or a stack overflow)";
        let _ = std::fs::write(
            &path,
            format!("lxisim-replay 1\nproperty {prop}\nscenario {name}\nthorough {}\nseed {seed}\nkind abort\nviolation {what}\n", thorough as u8),
        );
        say(&format!("VIOLATION property={prop} replay={path}\n  abort (signal {sig}): {what} (scenario {name}, seed {seed})\n"));
        unsafe { _exit(1) }
    }
    unsafe { _exit(134) }
}

pub fn catch_aborts(prop: &str, dir: &str, thorough: bool) {
    *ABORT_CTX.lock().unwrap() = Some((prop.into(), dir.into(), thorough));
    unsafe {
        signal(6, on_abort as usize);
        signal(4, on_abort as usize);
    }
}

/// Draw the knobs of one run. 0 draws give the plainest configuration.
fn swarm(s: &mut simrt::Sim, sc: &Scenario) {
    let d = |s: &mut simrt::Sim, st, n| s.draw(st, n) as usize;
    s.cfg.workers = [1, 2, 2, 3, 4, 1, 2][d(s, Stream::Sched, 7)];
    s.cfg.preempt = [0, 2, 4, 10, 40][d(s, Stream::Sched, 5)];
    s.cfg.pick = [0, 1, 3, 2][d(s, Stream::Sched, 4)] as u32;
    s.cfg.hurry = [0, 40, 10, 3][d(s, Stream::Sched, 4)];
    s.cfg.max_steps = sc.max_steps;
    if sc.net {
        let f = Stream::Fault;
        s.net.cfg.lat_min = [50_000, 1_000, 1_000_000, 20_000_000][d(s, f, 4)];
        s.net.cfg.lat_jitter = [0, 100_000, 4_000_000, 60_000_000][d(s, f, 4)];
        s.net.cfg.cap = [65536, 4096, 300, 48][d(s, f, 4)];
        if s.net.cfg.cap < sc.min_cap {
            s.net.cfg.cap = sc.min_cap
        }
        s.net.cfg.short = [0, 0, 4, 2][d(s, f, 4)];
        s.net.cfg.short_max = [1, 3, 20, 200][d(s, f, 4)];
        s.net.cfg.rst_on_unread = d(s, f, 2) == 1;
    }
}

/// Execute one run on a fresh OS thread
pub fn run_one(sc: &'static Scenario, prop: &'static str, thorough: bool, src: Source, verbose: bool, slot: usize) -> RunOut {
    let h = std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(move || {
            simrt::set_heartbeat(&BEATS[slot % SLOTS]);
            // Nobody gets more memory than this at once
            simrt::alloc::set_single_limit(1 << 28);
            SLOT.with(|s| s.set(slot % SLOTS));
            FLIGHT[slot % SLOTS].seed.store(if let Source::Seed(s) = &src { *s } else { 0 }, Ordering::Relaxed);
            *FLIGHT[slot % SLOTS].scenario.lock().unwrap() = sc.name;
            let out = exec(sc, prop, thorough, &src, verbose);
            out
        })
        .expect("thread");
    h.join().expect("run thread panicked (harness defect)")
}

fn exec(sc: &'static Scenario, prop: &'static str, thorough: bool, src: &Source, verbose: bool) -> RunOut {
    world::reset();
    let ctx = scen::Ctx { prop, thorough };
    let run = sc.run;
    let o: Outcome<()> = simrt::run(
        src,
        verbose,
        |s| {
            swarm(s, sc);
            (sc.tune)(s);
        },
        move || run(ctx),
        |stop, r| {
            if stop != Stop::Done || r.is_none() {
                let main_panicked = simrt::with(|s| s.panics.iter().any(|p| p.task == "main"));
                let what = match stop {
                    Stop::Quiescent => "deadlock: nothing can run and no timer is pending, but clients still wait",
                    Stop::Steps => "livelock: the step limit was reached",
                    Stop::Time => "the simulated time limit was reached",
                    Stop::Done => "main ended without a result",
                };
                if !main_panicked {
                    world::violate("STUCK", "stuck", format!("{what} ({stop:?})"));
                }
            }
            let panics = simrt::with(|s| s.panics.clone());
            for p in panics {
                // Those of the code under test, wherever it was called from
                let pp = if p.at.contains("/simrt/") || p.at.starts_with("src/") {
                    "HARNESS"
                } else if p.task == "main" {
                    "STUCK"
                } else {
                    "PANIC"
                };
                world::violate(pp, "panic", format!("{} at {} in task {}", p.msg, p.at, p.task));
            }
        },
    );
    let (mut viol, probes, nontrivial, dev_ops) =
        world::w(|x| (std::mem::take(&mut x.viol), std::mem::take(&mut x.counts), x.nontrivial, x.ops.len()));
    world::reset();
    for v in viol.iter_mut() {
        match v.prop {
            // A run that does not get to its end breaks whatever the scenario was there to show
            "STUCK" => v.prop = sc.stuck.unwrap_or(prop),
            "PANIC" => v.prop = if sc.panic_own { prop } else { "C15" },
            _ => {}
        }
    }
    let mut stats = o.stats;
    if simrt::alloc::refused() > 0 {
        *stats.entry("fault_alloc_refused").or_insert(0) += simrt::alloc::refused();
    }
    RunOut {
        stop: o.stop,
        viol,
        steps: o.steps,
        switches: o.switches,
        preemptions: o.preemptions,
        sim_ns: o.sim_ns,
        hash: o.trace_hash,
        stats,
        probes,
        log: o.log,
        choices: o.choices,
        nontrivial,
        dev_ops,
    }
}

fn relevant<'a>(r: &'a RunOut, prop: &str) -> Option<&'a Violation> {
    if let Some(h) = r.viol.iter().find(|v| v.prop == "HARNESS") {
        return Some(h);
    }
    r.viol.iter().find(|v| v.prop == prop)
}

// ------------------------------------------------------------------------------------------------
// Batch

pub struct Opts {
    pub prop: &'static str,
    pub thorough: bool,
    pub seed: u64,
    pub runs: Option<u64>,
    pub wall: Option<f64>,
    pub threads: usize,
    pub dir: String,
    pub only: Option<String>,
    pub all_props: bool,
}

#[derive(Default)]
struct Agg {
    runs: u64,
    hashes: HashSet<u64>,
    nontrivial: u64,
    distinct_nt: HashSet<u64>,
    steps: u64,
    switches: u64,
    preemptions: u64,
    sim_ns: u64,
    stats: BTreeMap<&'static str, u64>,
    probes: BTreeMap<&'static str, u64>,
    stops: BTreeMap<String, u64>,
    per_scen: BTreeMap<&'static str, u64>,
    dev_ops: u64,
    found: Option<(u64, &'static Scenario, RunOut)>,
    others: BTreeMap<(&'static str, &'static str), u64>,
}

fn plan(prop: &str, only: &Option<String>) -> Vec<&'static Scenario> {
    let mut v: Vec<&'static Scenario> = Vec::new();
    for (p, list) in scen::PLAN {
        if *p == prop {
            for (name, weight) in *list {
                if only.as_ref().map_or(false, |o| o != name) {
                    continue;
                }
                let s = scen::find(name);
                for _ in 0..*weight {
                    v.push(s)
                }
            }
        }
    }
    v
}

fn scenario_of(i: u64, long: &[&'static Scenario], list: &[&'static Scenario]) -> &'static Scenario {
    match long.get(i as usize) {
        Some(s) => s,
        None => list[(i % list.len() as u64) as usize],
    }
}

pub fn seed_of(base: u64, prop: &str, i: u64) -> u64 {
    let mut h = base;
    for b in prop.bytes() {
        h = simrt::choice::mix(h, b as u64);
    }
    simrt::choice::mix(h, i)
}

pub fn batch(o: &Opts) -> i32 {
    let t0 = Instant::now();
    catch_aborts(o.prop, &o.dir, o.thorough);
    let mut list = plan(o.prop, &o.only);
    let long: Vec<&'static Scenario> = scen::LONG
        .iter()
        .filter(|(p, n, _)| *p == o.prop && o.only.as_ref().map_or(true, |x| x == n))
        .flat_map(|(_, n, k)| std::iter::repeat(scen::find(n)).take((*k * if o.thorough { 12 } else { 1 }) as usize))
        .collect();
    if list.is_empty() {
        list = long.clone();
    }
    let long = Arc::new(long);
    if list.is_empty() {
        eprintln!("no scenario for {}", o.prop);
        return 2;
    }
    let total = o.runs.unwrap_or_else(|| {
        let q: u64 = list.iter().map(|s| s.runs).sum::<u64>() / list.len() as u64;
        if o.thorough {
            q * 12
        } else {
            q
        }
    });
    let wall = o.wall.unwrap_or(if o.thorough { 1500.0 } else { 150.0 });
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let agg = Arc::new(Mutex::new(Agg::default()));
    let list = Arc::new(list);
    let current: Arc<Vec<Mutex<Option<(u64, u64, &'static str)>>>> =
        Arc::new((0..o.threads).map(|_| Mutex::new(None)).collect());
    let busy = Arc::new(AtomicUsize::new(o.threads));
    let mut hs = Vec::new();
    for t in 0..o.threads {
        let (next, stop, agg, list, long, current, busy) =
            (next.clone(), stop.clone(), agg.clone(), list.clone(), long.clone(), current.clone(), busy.clone());
        let (prop, thorough, seed) = (o.prop, o.thorough, o.seed);
        hs.push(std::thread::spawn(move || {
            loop {
                if stop.load(Ordering::Relaxed) || t0.elapsed().as_secs_f64() > wall {
                    break;
                }
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= total {
                    break;
                }
                let sc = scenario_of(i, &long, &list);
                let sd = seed_of(seed, prop, i);
                *current[t].lock().unwrap() = Some((i, sd, sc.name));
                let r = run_one(sc, prop, thorough, Source::Seed(sd), false, t);
                *current[t].lock().unwrap() = None;
                let mut g = agg.lock().unwrap();
                g.runs += 1;
                g.hashes.insert(r.hash);
                if r.nontrivial {
                    g.nontrivial += 1;
                    g.distinct_nt.insert(r.hash);
                }
                g.steps += r.steps;
                g.switches += r.switches;
                g.preemptions += r.preemptions;
                g.sim_ns += r.sim_ns;
                g.dev_ops += r.dev_ops as u64;
                for (k, v) in &r.stats {
                    *g.stats.entry(k).or_insert(0) += v;
                }
                for (k, v) in &r.probes {
                    *g.probes.entry(k).or_insert(0) += v;
                }
                *g.stops.entry(format!("{:?}", r.stop)).or_insert(0) += 1;
                *g.per_scen.entry(sc.name).or_insert(0) += 1;
                for v in &r.viol {
                    *g.others.entry((v.prop, v.kind)).or_insert(0) += 1;
                }
                if relevant(&r, prop).is_some() {
                    let better = g.found.as_ref().map_or(true, |f| i < f.0);
                    if better {
                        g.found = Some((i, sc, r));
                    }
                    stop.store(true, Ordering::Relaxed);
                }
            }
            busy.fetch_sub(1, Ordering::Relaxed);
        }));
    }
    // Watchdog: a single poll that never returns
    let mut last = [0u64; SLOTS];
    let mut since = vec![Instant::now(); o.threads];
    while busy.load(Ordering::Relaxed) > 0 {
        std::thread::sleep(Duration::from_millis(20));
        for t in 0..o.threads {
            let b = BEATS[t].load(Ordering::Relaxed);
            let idle = current[t].lock().unwrap().is_none();
            if idle || b != last[t] {
                last[t] = b;
                since[t] = Instant::now();
            } else if since[t].elapsed().as_secs() > 40 {
                let c = *current[t].lock().unwrap();
                if let Some((_, sd, name)) = c {
                    let path = format!("{}/replays/{}-hang-{sd}.replay", o.dir, o.prop);
                    let _ = std::fs::create_dir_all(format!("{}/replays", o.dir));
                    let _ = std::fs::write(
                        &path,
                        format!("lxisim-replay 1\nproperty {}\nscenario {name}\nthorough {}\nseed {sd}\nkind hang\nviolation a single poll of the code under test did not return within 40 s\n", o.prop, o.thorough as u8),
                    );
                    println!("VIOLATION property={} replay={path}", o.prop);
                    println!("  a poll of the code under test never returned (scenario {name}, seed {sd})");
                    write_evidence(o, &agg.lock().unwrap(), t0.elapsed().as_secs_f64(), &[], 1, total);
                    std::process::exit(1);
                }
            }
        }
    }
    for h in hs {
        let _ = h.join();
    }
    let mut g = agg.lock().unwrap();
    let found = g.found.take();
    let wall_search = t0.elapsed().as_secs_f64();
    // Samples: the first runs of this batch, once more with the log on
    let mut samples = Vec::new();
    for i in 0..3u64.min(g.runs) {
        let sc = scenario_of(i, &long, &list);
        let sd = seed_of(o.seed, o.prop, i);
        let r = run_one(sc, o.prop, o.thorough, Source::Seed(sd), true, 0);
        let mut l: Vec<String> = r.log.iter().take(24).map(|x| x.chars().take(160).collect()).collect();
        l.insert(0, format!("scenario {} seed {sd} trace {:016x} steps {} sim_ms {:.3}", sc.name, r.hash, r.steps, r.sim_ns as f64 / 1e6));
        samples.push(l.join("\n"));
    }
    let code = if let Some((i, sc, r)) = found {
        let v = relevant(&r, o.prop).unwrap().clone();
        if v.prop == "HARNESS" {
            eprintln!("harness error in run {i} (scenario {}): {} {}", sc.name, v.kind, v.msg);
            write_evidence(o, &g, wall_search, &samples, 0, total);
            return 3;
        }
        println!("run {i} scenario {} seed {}: {} {}: {}", sc.name, seed_of(o.seed, o.prop, i), v.prop, v.kind, v.msg);
        let whole = write_replay(o, sc, i, &r.choices, &r, &v, &r.choices);
        *SHRINKING.lock().unwrap() = Some(whole);
        let (min, mr) = minimise(sc, o.prop, o.thorough, &v, r.choices.clone(), if o.thorough { 90.0 } else { 25.0 });
        let path = write_replay(o, sc, i, &min, &mr, &v, &r.choices);
        println!("VIOLATION property={} replay={path}", o.prop);
        let mv = relevant(&mr, o.prop).cloned().unwrap_or(v);
        println!("  {}: {}", mv.kind, mv.msg);
        1
    } else {
        0
    };
    write_evidence(o, &g, wall_search, &samples, code as i64, total);
    println!(
        "{} runs={} distinct={} steps={} sim_s={:.0} wall_s={:.1} ({})",
        o.prop,
        g.runs,
        g.hashes.len(),
        g.steps,
        g.sim_ns as f64 / 1e9,
        wall_search,
        if code == 0 { "held on everything explored" } else { "violated" }
    );
    if std::env::var("LXISIM_DEBUG").is_ok() {
        eprintln!("stops {:?}", g.stops);
        eprintln!("stats {:?}", g.stats);
        eprintln!("probes {:?}", g.probes);
        eprintln!("violations by class {:?}", g.others);
    }
    code
}

// ------------------------------------------------------------------------------------------------
// Minimisation

fn same(r: &RunOut, prop: &str, want: &Violation) -> bool {
    r.viol.iter().any(|v| v.prop == prop && v.kind == want.kind)
        && !r.viol.iter().any(|v| v.prop == "HARNESS")
}

fn minimise(
    sc: &'static Scenario,
    prop: &'static str,
    thorough: bool,
    want: &Violation,
    start: Vec<Vec<u32>>,
    budget: f64,
) -> (Vec<Vec<u32>>, RunOut) {
    let t0 = Instant::now();
    let mut cur = start;
    let go = |c: &Vec<Vec<u32>>| run_one(sc, prop, thorough, Source::Replay(c.clone()), false, SLOTS - 1);
    let mut best = go(&cur);
    if !same(&best, prop, want) {
        // Recorded choices must reproduce; say so instead of shrinking something else
        eprintln!("warning: the recorded choices did not reproduce the violation");
        return (cur, best);
    }
    let left = |t0: &Instant| t0.elapsed().as_secs_f64() < budget;
    let mut progress = true;
    while progress && left(&t0) {
        progress = false;
        // 1. shorten each stream from its end
        for st in 0..cur.len() {
            let mut n = cur[st].len();
            while n > 0 && left(&t0) {
                let keep = cur[st].len().saturating_sub(n);
                let mut c = cur.clone();
                c[st].truncate(keep);
                let r = go(&c);
                if same(&r, prop, want) {
                    cur = c;
                    best = r;
                    progress = true;
                    n = n.min(cur[st].len());
                    if n == 0 {
                        break;
                    }
                } else {
                    n /= 2;
                }
            }
        }
        // 2. zero, then delete, ranges
        for st in 0..cur.len() {
            for mode in 0..2 {
                let mut n = (cur[st].len() / 2).max(1);
                loop {
                    let mut i = 0;
                    while i < cur[st].len() && left(&t0) {
                        let j = (i + n).min(cur[st].len());
                        let mut c = cur.clone();
                        if mode == 0 {
                            if c[st][i..j].iter().all(|x| *x == 0) {
                                i = j;
                                continue;
                            }
                            c[st][i..j].iter_mut().for_each(|x| *x = 0);
                        } else {
                            c[st].drain(i..j);
                        }
                        let r = go(&c);
                        if same(&r, prop, want) {
                            cur = c;
                            best = r;
                            progress = true;
                            if mode == 0 {
                                i = j;
                            }
                        } else {
                            i = j;
                        }
                    }
                    if n == 1 || !left(&t0) {
                        break;
                    }
                    n /= 2;
                }
            }
        }
        // 3. lower single values
        for st in 0..cur.len() {
            let mut i = 0;
            while i < cur[st].len() && left(&t0) {
                let v = cur[st][i];
                for nv in [v / 2, v.saturating_sub(1)] {
                    if nv < v {
                        let mut c = cur.clone();
                        c[st][i] = nv;
                        let r = go(&c);
                        if same(&r, prop, want) {
                            cur = c;
                            best = r;
                            progress = true;
                            break;
                        }
                    }
                }
                i += 1;
            }
        }
    }
    for s in cur.iter_mut() {
        while s.last() == Some(&0) {
            s.pop();
        }
    }
    let r = go(&cur);
    if same(&r, prop, want) {
        best = r;
    }
    (cur, best)
}

fn nums(v: &[u32]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}

fn write_replay(o: &Opts, sc: &Scenario, i: u64, min: &[Vec<u32>], mr: &RunOut, v: &Violation, orig: &[Vec<u32>]) -> String {
    let dir = format!("{}/replays", o.dir);
    let _ = std::fs::create_dir_all(&dir);
    let seed = seed_of(o.seed, o.prop, i);
    let path = format!("{dir}/{}-{}-{seed:016x}.replay", o.prop, sc.name);
    let log = run_one(scen::find(sc.name), o.prop, o.thorough, Source::Replay(min.to_vec()), true, 0).log;
    let mv = mr.viol.iter().find(|x| x.prop == o.prop && x.kind == v.kind).unwrap_or(v);
    let text = format!(
        "lxisim-replay 1\nproperty {}\nscenario {}\nthorough {}\nseed {seed}\nkind {}\nviolation {}\ntrace_hash {:016x}\nsteps {}\noriginal_choices {} {} {}\nwork {}\nsched {}\nfault {}\n--- schedule and fault trace of the minimised run\n{}\n",
        o.prop,
        sc.name,
        o.thorough as u8,
        v.kind,
        mv.msg.replace('\n', " "),
        mr.hash,
        mr.steps,
        orig[0].len(),
        orig[1].len(),
        orig[2].len(),
        nums(&min[0]),
        nums(&min[1]),
        nums(&min[2]),
        log.join("\n")
    );
    let _ = std::fs::write(&path, text);
    path
}

/// Re-execute a replay file; exit 1 and print the violation if it occurs again
pub fn replay(path: &str, verbose: bool) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let mut f: BTreeMap<String, String> = BTreeMap::new();
    for l in text.lines() {
        if l.starts_with("---") {
            break;
        }
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        f.insert(k.into(), v.into());
    }
    let get = |k: &str| f.get(k).cloned().unwrap_or_default();
    let prop = scen::prop_id(&get("property"));
    let sc = scen::find(&get("scenario"));
    let thorough = get("thorough") == "1";
    let ints = |k: &str| get(k).split_whitespace().filter_map(|x| x.parse().ok()).collect::<Vec<u32>>();
    let src = if f.contains_key("work") {
        Source::Replay(vec![ints("work"), ints("sched"), ints("fault")])
    } else {
        Source::Seed(get("seed").parse().unwrap_or(0))
    };
    if get("kind") == "abort" {
        let dir = std::env::temp_dir().join("lxisim-replay");
        catch_aborts(prop, dir.to_str().unwrap(), thorough);
    }
    if get("kind") == "hang" {
        std::thread::spawn(move || {
            let t = Instant::now();
            let mut last = 0;
            let mut since = t;
            loop {
                std::thread::sleep(Duration::from_millis(100));
                let b = BEATS[0].load(Ordering::Relaxed);
                if b != last {
                    last = b;
                    since = Instant::now();
                } else if since.elapsed().as_secs() > 40 {
                    println!("VIOLATION property={prop} replay=hang");
                    std::process::exit(1);
                }
            }
        });
    }
    let r = run_one(sc, prop, thorough, src, true, 0);
    if verbose {
        for l in &r.log {
            println!("{l}");
        }
    }
    println!("trace_hash {:016x} (file says {})", r.hash, get("trace_hash"));
    let mut code = 0;
    for v in &r.viol {
        println!("{} {}: {}", v.prop, v.kind, v.msg);
    }
    if r.viol.iter().any(|v| v.prop == prop && (get("kind").is_empty() || v.kind == get("kind"))) {
        println!("VIOLATION property={prop} replay={path}");
        code = 1;
    } else {
        println!("the violation did not occur");
    }
    code
}

// ------------------------------------------------------------------------------------------------
// Determinism self-test

pub fn selftest(runs: u64, seed: u64, print: bool) -> i32 {
    let bad = Arc::new(AtomicU64::new(0));
    let next = Arc::new(AtomicU64::new(0));
    let all: Vec<(&'static str, &'static Scenario)> = scen::PLAN
        .iter()
        .flat_map(|(p, l)| l.iter().map(move |(n, _)| (*p, scen::find(n))))
        .collect();
    let all = Arc::new(all);
    let lines = Arc::new(Mutex::new(BTreeMap::new()));
    let hs: Vec<_> = (0..8usize)
        .map(|t| {
            let (bad, next, all, lines) = (bad.clone(), next.clone(), all.clone(), lines.clone());
            std::thread::spawn(move || loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= runs {
                    break;
                }
                let (p, sc) = all[(i % all.len() as u64) as usize];
                let sd = seed_of(seed, p, i);
                let a = run_one(sc, p, false, Source::Seed(sd), true, t);
                let b = run_one(sc, p, false, Source::Seed(sd), true, t);
                let c = run_one(sc, p, false, Source::Replay(a.choices.clone()), true, t);
                for (what, x) in [("second run", &b), ("replay", &c)] {
                    if x.hash != a.hash || x.log != a.log || x.steps != a.steps {
                        bad.fetch_add(1, Ordering::Relaxed);
                        let k = a.log.iter().zip(x.log.iter()).position(|(m, n)| m != n);
                        eprintln!(
                            "NOT DETERMINISTIC: {} seed {sd} {what}: {:x}/{} vs {:x}/{}; first difference {:?}",
                            sc.name, a.hash, a.steps, x.hash, x.steps,
                            k.map(|k| (&a.log[k], &x.log[k]))
                        );
                    }
                }
                lines.lock().unwrap().insert(i, (sc.name, a.hash, a.steps));
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    let g = lines.lock().unwrap();
    if print {
        for (i, (n, h, s)) in g.iter() {
            println!("{i} {n} {h:016x} {s}");
        }
    }
    println!("selftest: {} seeds x 3 executions, {} differences", g.len(), bad.load(Ordering::Relaxed));
    (bad.load(Ordering::Relaxed) > 0) as i32
}

// ------------------------------------------------------------------------------------------------
// Evidence

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jmap<K: AsRef<str>>(m: impl Iterator<Item = (K, u64)>) -> String {
    let v: Vec<String> = m.map(|(k, v)| format!("{}: {v}", js(k.as_ref()))).collect();
    format!("{{{}}}", v.join(", "))
}

fn write_evidence(o: &Opts, g: &Agg, wall: f64, samples: &[String], violations: i64, planned: u64) {
    let dir = format!("{}/evidence", o.dir);
    let _ = std::fs::create_dir_all(&dir);
    let faults: Vec<(&str, u64)> = g.stats.iter().map(|(k, v)| (*k, *v)).collect();
    let mut names: Vec<&str> = scen::PLAN
        .iter()
        .filter(|(p, _)| *p == o.prop)
        .flat_map(|(_, l)| l.iter().map(|(n, _)| *n))
        .collect();
    names.dedup();
    let rules: Vec<String> = names.iter().map(|n| format!("[{n}] {}", scen::find(n).rule)).collect();
    let per_h = |x: f64| if wall > 0.0 { x * 3600.0 / wall } else { 0.0 };
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"planned_runs\": {planned},\n  \"distinct_nontrivial\": {},\n  \"nontrivial_runs\": {},\n  \"distinct_schedules\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"runs_per_scenario\": {},\n  \"runs_per_hour\": {:.0},\n  \"seeds_per_hour\": {:.0},\n  \"simulated_seconds\": {:.3},\n  \"scheduler_steps\": {},\n  \"task_switches\": {},\n  \"preemptions_inside_polls\": {},\n  \"device_calls\": {},\n  \"faults_and_rare_events\": {},\n  \"probes\": {},\n  \"run_endings\": {},\n  \"distinctness_measure\": \"64-bit hash over every scheduling decision, event time and logged operation of a run\",\n  \"real_code\": [\"lxi-device\", \"lxi-hislip\", \"lxi-socket (raw)\", \"lxi-telnet\", \"lxi-vxi11\", \"async-listen\", \"futures channels, locks and combinators\", \"async-std future/io/stream/channel combinators\", \"libtelnet-rs\"],\n  \"stubbed\": [\"async-std executor, timers, TCP, UDP and Unix sockets (simulated)\", \"operating system clock, random source, sleep and futex (simulated)\", \"spin and futures locks: real algorithm with preemption points\", \"the instrument behind the Device trait\", \"the clients (independent protocol implementations of the harness)\"]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        js(o.prop),
        js(if o.thorough { "thorough" } else { "quick" }),
        o.seed,
        g.runs,
        g.distinct_nt.len(),
        g.nontrivial,
        g.hashes.len(),
        js(&rules.join(" ")),
        samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        jmap(g.per_scen.iter().map(|(k, v)| (*k, *v))),
        per_h(g.runs as f64),
        per_h(g.hashes.len() as f64),
        g.sim_ns as f64 / 1e9,
        g.steps,
        g.switches,
        g.preemptions,
        g.dev_ops,
        jmap(faults.into_iter()),
        jmap(g.probes.iter().map(|(k, v)| (*k, *v))),
        jmap(g.stops.iter().map(|(k, v)| (k.as_str(), *v))),
        js("a clean batch is evidence over the sampled schedules, faults and workloads, not a proof; preemption happens at lock operations, spawns and poll boundaries; weak memory orderings are not modelled"),
        wall,
        violations
    );
    let _ = std::fs::write(format!("{dir}/{}.json", o.prop), text);
}
