#[macro_use]
mod world;
mod clients;
mod engine;
mod excl;
mod lin;
mod scen;
mod srv;

#[global_allocator]
static ALLOC: simrt::alloc::Counting = simrt::alloc::Counting;

struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        simrt::active()
    }
    fn log(&self, r: &log::Record) {
        // Format the record as a real logger would, then drop it or show it
        simrt::alloc::uncounted(|| {
            let s = format!("{}", r.args());
            if std::env::var_os("LXISIM_LOG").is_some() {
                simrt::simlog!("    log {} {}", r.target(), s);
            }
            std::hint::black_box(s);
        });
    }
    fn flush(&self) {}
}
static SINK: Sink = Sink;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    simrt::install_panic_hook();
    let _ = log::set_logger(&SINK);
    log::set_max_level(log::LevelFilter::Trace);
    let seed: u64 = opt("--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let code = match a.first().map(|s| s.as_str()) {
        Some("run") => {
            let tier = opt("--tier")
                .or_else(|| std::env::var("VERIF_TIER").ok())
                .unwrap_or_else(|| "quick".into());
            let o = engine::Opts {
                prop: scen::prop_id(&opt("--prop").expect("--prop")),
                thorough: tier == "thorough",
                seed,
                runs: opt("--runs").and_then(|s| s.parse().ok()),
                wall: opt("--wall").and_then(|s| s.parse().ok()),
                threads: opt("--threads")
                    .and_then(|s| s.parse().ok())
                    .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()).min(16)),
                dir: opt("--dir").unwrap_or_else(|| ".".into()),
                only: opt("--scenario"),
                all_props: false,
            };
            engine::batch(&o)
        }
        Some("replay") => engine::replay(&a[1], !a.iter().any(|x| x == "--quiet")),
        Some("one") => {
            let prop = scen::prop_id(&opt("--prop").expect("--prop"));
            let sc = scen::find(&opt("--scenario").expect("--scenario"));
            let r = engine::run_one(sc, prop, false, simrt::Source::Seed(seed), true, 0);
            for l in &r.log {
                println!("{l}");
            }
            println!("{:?} steps {} hash {:016x}", r.stop, r.steps, r.hash);
            for v in &r.viol {
                println!("{v:?}");
            }
            0
        }
        Some("selftest") => engine::selftest(
            opt("--runs").and_then(|s| s.parse().ok()).unwrap_or(400),
            seed,
            a.iter().any(|x| x == "--print"),
        ),
        _ => {
            eprintln!("usage: lxisim run --prop ID [--tier quick|thorough] [--seed N] [--runs N] [--dir D] | replay FILE | one --prop P --scenario S --seed N | selftest [--runs N]");
            2
        }
    };
    std::process::exit(code)
}
