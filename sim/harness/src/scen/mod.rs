//! Scenarios: what is started, what clients do, and what must hold.
use std::future::Future;
use std::pin::Pin;

pub mod any;
pub mod chaos;
pub mod handles;
pub mod hislip;
pub mod hislip2;
pub mod listen;
pub mod locks;
pub mod mem;
pub mod raw;
pub mod rpc;
pub mod status;
pub mod telnet;
pub mod vxi;
pub mod vxi2;

#[derive(Clone, Copy)]
pub struct Ctx {
    pub prop: &'static str,
    pub thorough: bool,
}

pub type Fut = Pin<Box<dyn Future<Output = ()>>>;

pub struct Scenario {
    pub name: &'static str,
    pub run: fn(Ctx) -> Fut,
    pub tune: fn(&mut simrt::Sim),
    /// Draw network conditions
    pub net: bool,
    pub min_cap: usize,
    pub max_steps: u64,
    /// Property a run that never ends is charged to (None: the property being checked)
    pub stuck: Option<&'static str>,
    /// Charge panics of server tasks to the property being checked
    pub panic_own: bool,
    /// Runs of a quick check
    pub runs: u64,
    /// What makes a run non-trivial
    pub rule: &'static str,
}

pub fn no_tune(_: &mut simrt::Sim) {}

pub const BASE: Scenario = Scenario {
    name: "",
    run: |_| Box::pin(async {}),
    tune: no_tune,
    net: true,
    min_cap: 0,
    max_steps: 400_000,
    stuck: None,
    panic_own: false,
    runs: 20_000,
    rule: "",
};

static ALL: &[Scenario] = &[Scenario {
    name: "handles",
    run: |c| Box::pin(handles::run(c)),
    net: false,
    stuck: Some("C03"),
    panic_own: true,
    runs: 300_000,
    rule: "at least six lock operations of which one waiting acquire was granted",
    ..BASE
}, Scenario {
    name: "raw",
    run: |c| Box::pin(raw::run(c)),
    max_steps: 3_000_000,
    runs: 120_000,
    rule: "at least two commands were executed",
    ..BASE
}, Scenario {
    name: "telnet",
    run: |c| Box::pin(telnet::run(c)),
    max_steps: 3_000_000,
    runs: 120_000,
    rule: "at least two lines were executed",
    ..BASE
}, Scenario {
    name: "hislip_data",
    max_steps: 3_000_000,
    run: |c| Box::pin(hislip::data(c)),
    runs: 120_000,
    rule: "at least three requests reached a device",
    ..BASE
}, Scenario {
    name: "hislip_clear",
    run: |c| Box::pin(hislip2::clear(c)),
    max_steps: 3_000_000,
    runs: 120_000,
    rule: "at least one device clear was completed",
    ..BASE
}, Scenario {
    name: "hislip_sessions",
    run: |c| Box::pin(hislip2::sessions(c)),
    runs: 120_000,
    rule: "at least one session was opened by a churning client",
    ..BASE
}, Scenario {
    name: "vxi_links",
    run: |c| Box::pin(vxi2::links(c)),
    net: false,
    max_steps: 60_000_000,
    runs: 16,
    rule: "links that stayed open during hundreds or more than 65536 others still worked",
    ..BASE
}, Scenario {
    name: "handles_many",
    run: |c| Box::pin(handles::many(c)),
    panic_own: true,
    net: false,
    max_steps: 60_000_000,
    runs: 48,
    rule: "255 to 65700 handles held one shared lock at once, those waiting got it after them",
    ..BASE
}, Scenario {
    name: "hislip_wrap",
    run: |c| Box::pin(hislip2::wrap(c)),
    net: false,
    max_steps: 60_000_000,
    runs: 16,
    rule: "session ids started over while a session stayed open, which then still worked",
    ..BASE
}, Scenario {
    name: "hislip_srq",
    run: |c| Box::pin(hislip2::srq(c)),
    runs: 120_000,
    rule: "at least one service request was due and received",
    ..BASE
}, Scenario {
    name: "hislip_errors",
    run: |c| Box::pin(hislip2::errors(c)),
    // The server does not read what follows a malformed header; a reset would take its answer away
    tune: |s| s.net.cfg.rst_on_unread = false,
    runs: 120_000,
    rule: "at least one erroneous message was answered",
    ..BASE
}, Scenario {
    name: "hislip_status",
    run: |c| Box::pin(hislip2::status(c)),
    // A client must be able to send requests that wait for the lock
    min_cap: 4096,
    runs: 120_000,
    rule: "at least one status was answered while another client held a lock",
    ..BASE
}, Scenario {
    name: "vxi_data",
    run: |c| Box::pin(vxi::data(c)),
    max_steps: 3_000_000,
    runs: 120_000,
    rule: "at least three requests reached a device",
    ..BASE
}, Scenario {
    name: "rpc",
    run: |c| Box::pin(rpc::run(c)),
    max_steps: 3_000_000,
    runs: 120_000,
    rule: "at least three calls were answered",
    ..BASE
}, Scenario {
    name: "locks",
    run: |c| Box::pin(locks::run(c)),
    // A client must be able to send what waits for the lock
    min_cap: 4096,
    tune: |s| s.cfg.max_time = 15_000 * 1_000_000_000,
    runs: 120_000,
    rule: "at least six lock operations of which one waiting acquire was granted",
    ..BASE
}, Scenario {
    name: "vxi_abort",
    run: |c| Box::pin(vxi2::aborts(c)),
    min_cap: 300,
    runs: 120_000,
    rule: "at least one waiting operation was aborted",
    ..BASE
}, Scenario {
    name: "vxi_srq",
    run: |c| Box::pin(vxi2::srq(c)),
    min_cap: 300,
    runs: 120_000,
    rule: "at least one interrupt call was due and received",
    ..BASE
}, Scenario {
    name: "listen",
    run: |c| Box::pin(listen::run(c)),
    max_steps: 3_000_000,
    runs: 120_000,
    rule: "the limit was reached and one more client waited",
    ..BASE
}, Scenario {
    name: "chaos",
    run: |c| Box::pin(chaos::run(c)),
    min_cap: 300,
    max_steps: 20_000_000,
    panic_own: true,
    runs: 120_000,
    rule: "hostile clients have done what they do, and new clients were served afterwards",
    ..BASE
}, Scenario {
    name: "mem",
    run: |c| Box::pin(mem::run(c)),
    tune: |s| s.cfg.max_time = 20_000 * 1_000_000_000,
    min_cap: 300,
    max_steps: 20_000_000,
    runs: 30_000,
    rule: "the rounds were completed and the heap was compared",
    ..BASE
}, Scenario {
    name: "broadcast",
    run: |c| Box::pin(status::broadcast(c)),
    net: false,
    panic_own: true,
    runs: 300_000,
    rule: "a receiver got at least two events",
    ..BASE
}, Scenario {
    name: "pmap_client",
    run: |c| Box::pin(rpc::client(c)),
    runs: 120_000,
    rule: "at least two calls were answered",
    ..BASE
}];

pub static PLAN: &[(&str, &[(&str, u32)])] = &[("C01", &[("handles", 3), ("locks", 3), ("hislip_clear", 1)]), ("C02", &[("handles", 1)]), ("C03", &[("handles", 2), ("locks", 1)]), ("C06", &[("raw", 1)]), ("C07", &[("telnet", 1)]),
    ("C04", &[("locks", 1)]),
    ("C05", &[("locks", 1)]),
    ("C14", &[("vxi_srq", 1)]),
    ("C15", &[("chaos", 1)]),
    ("C16", &[("listen", 1)]),
    ("C17", &[("mem", 1)]),
    ("C21", &[("broadcast", 1)]),
    ("C22", &[("vxi_abort", 1), ("locks", 1)]),
    ("C24", &[("locks", 1)]),
    ("C08", &[("vxi_data", 1)]),
    ("C09", &[("rpc", 2), ("vxi_data", 1)]),
    ("C10", &[("hislip_data", 1)]),
    ("C11", &[("hislip_clear", 1)]),
    ("C12", &[("hislip_sessions", 3), ("hislip_data", 1)]),
    ("C13", &[("hislip_srq", 1)]),
    ("C18", &[("hislip_status", 2), ("hislip_data", 1), ("vxi_data", 1)]),
    ("C19", &[("rpc", 1), ("pmap_client", 1)]),
    ("C20", &[("hislip_data", 1), ("vxi_data", 1)]),
    ("C23", &[("vxi_data", 1)]),
    ("C25", &[("hislip_errors", 1)]),
    ("C28", &[("hislip_data", 1), ("hislip_clear", 1), ("hislip_sessions", 1)]),
];

/// Long runs, of which a check does a few before all others: how many in a quick check
pub static LONG: &[(&str, &str, u64)] = &[("C12", "hislip_wrap", 16), ("C23", "vxi_links", 16), ("C02", "handles_many", 160)];

static IDS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15",
    "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C28",
];

pub fn find(name: &str) -> &'static Scenario {
    ALL.iter()
        .find(|s| s.name == name)
        .unwrap_or_else(|| panic!("no scenario {name}"))
}

pub fn prop_id(s: &str) -> &'static str {
    IDS.iter().find(|p| **p == s).unwrap_or_else(|| panic!("no property {s}"))
}

/// Wait until `f` holds, at most `limit` ns
pub async fn settle(limit: u64, mut f: impl FnMut() -> bool) -> bool {
    let end = simrt::now() + limit;
    let mut step = 20_000;
    loop {
        if f() {
            return true;
        }
        if simrt::now() >= end {
            return false;
        }
        simrt::time::sleep_ns(step).await;
        step = (step * 2).min(limit / 50 + 1);
    }
}

pub fn pick<T: Copy>(v: &[T]) -> T {
    v[simrt::choose(simrt::Stream::Work, v.len() as u32) as usize]
}

/// Now and then a run is about sizes beyond any window, buffer or 16-bit length
pub fn wide() -> bool {
    let y = one_in(250);
    if y {
        simrt::with(|s| {
            s.net.cfg.cap = 65536;
            s.net.cfg.short = 0;
        });
        crate::world::probe("wide_run");
    }
    y
}

/// A largest size for those
pub fn huge() -> u32 {
    pick(&[66_000, 140_000, 300_000, 540_000])
}

pub fn fpick<T: Copy>(v: &[T]) -> T {
    v[simrt::choose(simrt::Stream::Fault, v.len() as u32) as usize]
}

/// Two keys of shared locks
pub fn key_pair() -> (&'static [u8], &'static [u8]) {
    const LONG: &[u8] = &[b'k'; 200];
    pick(&[(&b"a"[..], &b"b"[..]), (b"k", b"key"), (b"key", b"Key"), (b"a", b" a"), (LONG, &LONG[..199])])
}

/// An identifier that resembles one of these (and may be one of them)
pub fn relative(ids: &[u32]) -> u32 {
    let id = if ids.is_empty() { 1 } else { ids[below(ids.len() as u32) as usize] };
    match below(7) {
        0 => id.wrapping_add(1),
        1 => id.wrapping_sub(1),
        2 => id ^ 1 << below(32),
        3 => id | pick(&[0x1_0000, 0x100, 0x8000_0000]),
        4 => id.swap_bytes(),
        5 => !id,
        _ => id << 1,
    }
}

/// One that resembles these, but too large to be that of any link
pub fn stranger(ids: &[u32]) -> u32 {
    match relative(ids) {
        x if x < 0x100 => x | 0x1_0000,
        x => x,
    }
}

pub fn below(n: u32) -> u32 {
    simrt::choose(simrt::Stream::Work, n)
}

pub fn one_in(n: u32) -> bool {
    simrt::chance(simrt::Stream::Work, 1, n)
}

/// Position of the first difference, for messages
pub fn diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b.iter()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!(
        "lengths {} and {}, first difference at {}: {:?} / {:?}",
        a.len(),
        b.len(),
        i,
        crate::world::show(&a[i..]),
        crate::world::show(&b[i..])
    )
}
