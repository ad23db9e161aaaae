//! Listeners: configured ports, limits, and faults of accepting and setting up connections.
use super::any::{self, Any, Kind, KINDS, PATH};
use super::*;
use crate::clients::*;
use crate::srv::{self, Inst};
use crate::world::*;
use lxi_device::status::Sender as StatusSender;
use simrt::Stream;
use std::cell::Cell;
use std::io::ErrorKind;
use std::rc::Rc;

/// What accept(2) reports without anything being wrong with the listener
const ERRORS: [Option<ErrorKind>; 9] = [
    None,
    None,
    Some(ErrorKind::ConnectionAborted),
    Some(ErrorKind::ConnectionReset),
    Some(ErrorKind::ConnectionRefused),
    Some(ErrorKind::OutOfMemory),
    Some(ErrorKind::PermissionDenied),
    Some(ErrorKind::NotConnected),
    Some(ErrorKind::TimedOut),
];

struct Sh {
    kind: Kind,
    port: u16,
    limit: usize,
    /// Clients that were answered and have not begun to leave
    served: Cell<usize>,
}

impl Sh {
    fn enter(&self, who: u32) {
        let n = self.served.get() + 1;
        self.served.set(n);
        if n > self.limit {
            fail!("C16", "over_limit", "{:?} client {who} is served beside {} others, the limit is {}", self.kind, n - 1, self.limit);
        }
        if n == self.limit {
            probe("limit_reached");
        }
    }
    fn exit(&self) {
        self.served.set(self.served.get() - 1);
    }
}

fn trouble(kind: Kind, port: u16) {
    if kind == Kind::Hislip && simrt::choose(Stream::Fault, 3) == 0 {
        let n = 1 + simrt::choose(Stream::Fault, 2);
        return w(|x| x.spawn_fails += n);
    }
    let k = fpick(&ERRORS);
    let n = 1 + simrt::choose(Stream::Fault, 3);
    if kind == Kind::Unix {
        simrt::net::inject_accept_errors_path(PATH, k, n)
    } else {
        simrt::net::inject_accept_errors(port, k, n)
    }
}

/// Open a connection without asking for anything
async fn bare(kind: Kind, port: u16, tag: u32) -> Option<Conn> {
    match kind {
        Kind::Unix => Conn::open_path(PATH, tag).await.ok(),
        _ => Conn::open(addr(port), tag).await.ok(),
    }
}

/// Go in some way; the connection may stay half open for a while
fn go(a: Any) {
    let mut v = a.conns();
    let how = simrt::choose(Stream::Fault, 6);
    if how == 5 && v.len() == 2 {
        // Only one of the two connections is lost
        let first = v.remove(simrt::choose(Stream::Fault, 2) as usize);
        first.leave();
        let second = v.pop().unwrap();
        simrt::count("lost_one_channel");
        simrt::spawn_labeled("lingering", async move {
            second.until_end().await;
            second.close()
        })
        .detach();
    }
    for c in v {
        match how {
            0 | 1 => c.close(),
            2 => {
                simrt::count("client_reset");
                c.abort();
                c.close()
            }
            3 | 4 => {
                // Only this side is closed
                simrt::count("client_half_close");
                let _ = c.clone_out().shutdown(std::net::Shutdown::Write);
                if how == 3 {
                    c.close()
                } else {
                    simrt::spawn_labeled("lingering", async move {
                        think(200_000).await;
                        c.close()
                    })
                    .detach()
                }
            }
            _ => c.close(),
        }
    }
}

async fn visit(sh: Rc<Sh>, who: u32) {
    match below(8) {
        0 => {
            // Gone before anything is asked, perhaps before it is accepted
            if let Some(c) = bare(sh.kind, sh.port, who).await {
                if one_in(2) {
                    simrt::count("client_reset");
                    c.abort();
                } else if one_in(2) {
                    think(40).await;
                }
                c.leave();
            }
        }
        1 => {
            // Says half of something
            if let Some(c) = bare(sh.kind, sh.port, who).await {
                let b = pick(&[&b"\x80"[..], b"HS\0\0", b"W", b"\xff", b"HS\0\0\0\0\0\0\0\0\0\0\0\0\0\0"]);
                let _ = c.send(b).await;
                think(60).await;
                c.leave();
            }
        }
        _ => {
            let end = simrt::now() + 300 * SEC;
            let mut a = loop {
                let refused = w(|x| x.spawn_failed);
                match Any::open(sh.kind, sh.port, who).await {
                    Ok(a) => break a,
                    Err(_) if w(|x| x.spawn_failed) > refused => think(100).await,
                    Err(e) => {
                        if sh.kind != Kind::Hislip || simrt::now() > end || !e.contains("Fatal(4)") {
                            fail!("C16", "not_served", "{:?} client {who}: {e}", sh.kind);
                            return;
                        }
                        probe("refused_by_limit");
                        think(100).await;
                    }
                }
            };
            let mut inside = false;
            for _ in 0..1 + below(4) {
                if let Err(e) = a.ask(300 * SEC).await {
                    fail!("C16", "not_served", "{:?} client {who}: {e}", sh.kind);
                    return;
                }
                if !inside {
                    inside = true;
                    sh.enter(who);
                }
                think(50).await;
            }
            sh.exit();
            go(a);
        }
    }
}

pub async fn run(_c: Ctx) {
    let mut dev = SimDev::new(0);
    dev.slow = pick(&[0, 0, 1_000_000]);
    let inst = Inst::with(dev);
    let srq = StatusSender::new();
    let kind = pick(&KINDS);
    let (port, port2) = pick(&[(5025, 40_000), (4880, 1024), (1111, 65_535), (4322, 4323), (4323, 4322), (2000, 2001)]);
    if one_in(4) {
        simrt::with(|s| s.net.nodelay_fails = true);
    }
    let sv = any::start(kind, port, port2, 1 + below(4) as usize, &inst, &srq);
    let limit = sv.limit;
    // The configured ports, and no others
    if kind == Kind::Unix {
        if !srv::up_path(PATH).await {
            return;
        }
    } else if !srv::up(port).await {
        return;
    }
    let mut want = match kind {
        Kind::Unix => vec![],
        Kind::Core | Kind::Async => {
            if !srv::up(port2).await {
                return;
            }
            vec![port, port2]
        }
        _ => vec![port],
    };
    want.sort();
    let got = simrt::net::listening_ports();
    if got != want {
        fail!("C16", "ports", "{kind:?} server configured for {want:?} listens on {got:?}");
    }
    let sh = Rc::new(Sh { kind, port, limit, served: Cell::new(0) });
    // Clients come and go while accepting fails now and then
    let mut tasks = Vec::new();
    for i in 0..limit as u32 + 1 + below(3) {
        let sh = sh.clone();
        tasks.push(simrt::spawn_labeled("client", async move {
            for k in 0..1 + below(3) {
                think(60).await;
                visit(sh.clone(), 1 + i * 4 + k).await;
            }
        }));
    }
    for _ in 0..below(6) {
        think(100).await;
        trouble(kind, port);
    }
    for t in tasks {
        t.await;
    }
    simrt::net::clear_accept_errors();
    w(|x| x.spawn_fails = 0);
    if failed() {
        return;
    }
    // All have gone: there is room for as many as configured
    simrt::time::sleep_ns(20 * SEC).await;
    let mut all: Vec<Any> = Vec::new();
    let mut tasks = Vec::new();
    for i in 0..limit as u32 {
        tasks.push(simrt::spawn_labeled("probe", async move {
            let mut a = Any::open(kind, port, 200 + i).await?;
            a.ask(60 * SEC).await.map(|_| a)
        }));
    }
    for (i, t) in tasks.into_iter().enumerate() {
        match t.await {
            Ok(a) => all.push(a),
            Err(e) => {
                fail!("C16", "place_lost", "{kind:?}: all clients have gone, but number {} of {limit} new ones is not served: {e}", i + 1);
                return;
            }
        }
    }
    if kind == Kind::Core {
        // The port of the async server is told to clients
        let (v, _) = all[0].vxi().unwrap();
        match v.create(7, false, 0, super::vxi::NAMES[0]).await {
            Ok(x) if x[0] == 0 && x[2] == port2 as u32 => {}
            x => {
                fail!("C16", "abort_port", "create_link was answered with {x:?}, the async server listens on {port2}");
            }
        }
    }
    nontrivial();
    // One more has to wait until any of them goes
    for round in 0..1 + below(3) {
        let who = 300 + round;
        let done: Rc<Cell<bool>> = Rc::default();
        let d = done.clone();
        let extra = simrt::spawn_labeled("extra", async move {
            let r = loop {
                match Any::open(kind, port, who).await {
                    Err(e) if kind == Kind::Hislip && e.contains("Fatal(4)") => {
                        simrt::time::sleep_ns(SEC).await;
                    }
                    Err(e) => break Err(e),
                    Ok(mut a) => break a.ask(PATIENCE).await.map(|_| a),
                }
            };
            d.set(true);
            r
        });
        simrt::time::sleep_ns(5 * SEC).await;
        if done.get() {
            if let Err(e) = extra.await {
                fail!("C16", "not_served", "{kind:?} client {who}: {e}");
            } else {
                fail!("C16", "over_limit", "{kind:?} client {who} is served beside {limit} others, the limit is {limit}");
            }
            return;
        }
        // Those that are served are not disturbed by it
        for a in all.iter_mut() {
            if let Err(e) = a.ask(60 * SEC).await {
                fail!("C16", "disturbed", "{kind:?} client {}: {e}", a.tag);
                return;
            }
        }
        let i = below(all.len() as u32) as usize;
        go(all.remove(i));
        settle(30 * SEC, || done.get()).await;
        if !done.get() {
            fail!("C16", "place_lost", "{kind:?} client {who} waits although one of {limit} has gone");
            return;
        }
        match extra.await {
            Ok(a) => all.push(a),
            Err(e) => {
                fail!("C16", "not_served", "{kind:?} client {who}: {e}");
                return;
            }
        }
    }
    for a in all {
        a.leave()
    }
    simrt::time::sleep_ns(SEC).await;
    for (i, t) in sv.tasks.iter().enumerate() {
        if t.is_finished() {
            fail!("C16", "ended", "{kind:?} server task {i} has ended");
        }
    }
}
