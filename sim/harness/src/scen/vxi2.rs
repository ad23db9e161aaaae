//! VXI-11 aborts and service requests.
use super::vxi::{ASY, CORE};
use super::*;
use crate::clients::*;
use crate::srv::{self, Inst};
use crate::world::*;
use lxi_device::lock::LockHandle;
use lxi_device::status::Sender as StatusSender;
use simrt::{now, stamp};
use std::cell::{Cell, RefCell};
use std::future::poll_fn;
use std::rc::Rc;

const SLACK: u64 = 30 * SEC;

/// Upper bound of the time a short message takes to the server
fn lag() -> u64 {
    let (lat, cap) = simrt::with(|x| (x.net.cfg.lat_min + x.net.cfg.lat_jitter, x.net.cfg.cap as u64));
    4 * SEC + lat * (6 + 2000 / cap)
}

// ------------------------------------------------------------------------------------------------
// Aborts

/// What keeps an operation waiting
enum Held {
    Lock(LockHandle<Dev>),
    Device(#[allow(dead_code)] futures_guard::Guard),
}

mod futures_guard {
    use crate::srv::Inst;
    use simrt::Task;
    use std::cell::Cell;
    use std::rc::Rc;
    /// A task that keeps the device until this is dropped
    pub struct Guard {
        over: Rc<Cell<bool>>,
        _task: Task<()>,
    }
    impl Guard {
        pub async fn new(i: &Inst) -> Guard {
            let over = Rc::new(Cell::new(false));
            let got = Rc::new(Cell::new(false));
            let (o, g, d) = (over.clone(), got.clone(), i.dev.clone());
            let t = simrt::spawn_labeled("device-user", async move {
                let _g = d.lock().await;
                g.set(true);
                while !o.get() {
                    simrt::time::sleep_ns(100_000_000).await;
                }
            });
            while !got.get() {
                simrt::time::sleep_ns(1_000_000).await;
            }
            Guard { over, _task: t }
        }
    }
    impl Drop for Guard {
        fn drop(&mut self) {
            self.over.set(true)
        }
    }
}

struct Waiting {
    code: Cell<u32>,
    start: Cell<u64>,
    done: Cell<u64>,
    fail: RefCell<Option<End>>,
}

/// An operation that waits, or None: LOCK
fn operation(lid: u32, proc: u32, to: u32, seq: u32) -> Vec<u8> {
    match proc {
        vx::LOCK => a_lock(lid, 1, to),
        vx::WRITE => a_write(lid, to, vx::WAITLOCK | vx::END, &make_cmd(1, seq, b"W", 5, 0, 1000, b"").bytes),
        vx::READ => a_read(lid, 10, to, vx::WAITLOCK, 0),
        vx::CREATE_LINK => a_create(1, true, to, "inst0"),
        _ => a_generic(lid, vx::WAITLOCK, to),
    }
}

const OPS: [u32; 8] = [vx::LOCK, vx::WRITE, vx::READ, vx::READSTB, vx::TRIGGER, vx::CLEAR, vx::REMOTE, vx::LOCAL];

struct Link {
    rpc: Rc<RefCell<Option<Rpc>>>,
    lid: u32,
    tag: u32,
}

/// Start an operation in a task of its own
fn start(l: &Link, proc: u32, to: u32, seq: u32) -> (Rc<Waiting>, simrt::Task<()>) {
    let w = Rc::new(Waiting { code: Cell::new(u32::MAX), start: Cell::new(now()), done: Cell::new(0), fail: RefCell::new(None) });
    let (w2, rpc, lid) = (w.clone(), l.rpc.clone(), l.lid);
    let t = simrt::spawn_labeled("op", async move {
        let mut r = rpc.borrow_mut().take().unwrap();
        w2.start.set(now());
        match r.ok(proc, &operation(lid, proc, to, seq)).await {
            Ok(b) => {
                w2.code.set(Rd(&b).u().unwrap_or(9999));
                w2.done.set(now());
            }
            Err(e) => *w2.fail.borrow_mut() = Some(e),
        }
        *rpc.borrow_mut() = Some(r);
    });
    (w, t)
}

async fn abort(a: &mut Rpc, lid: u32) -> Result<u32, End> {
    let t0 = now();
    let r = a.ok(1, &u32b(lid)).await;
    if now() - t0 > SLACK {
        fail!("C22", "late_answer", "an abort of link {lid} was answered after {} ms", (now() - t0) / MS);
    }
    match r {
        Ok(b) => Ok(Rd(&b).u().unwrap_or(9999)),
        Err(e) => {
            fail!("C22", "no_answer", "an abort of link {lid} was not answered: {e:?}");
            Err(e)
        }
    }
}

pub async fn aborts(_c: Ctx) {
    let inst = Inst::new(0);
    let _v = srv::vxi(CORE, ASY, &[("inst0", &inst)], StatusSender::new(), true);
    for p in [CORE, ASY] {
        if !srv::up(p).await {
            return;
        }
    }
    let _ = rounds(&inst).await;
}

async fn rounds(inst: &Inst) -> Result<(), End> {
    let open = |tag| async move {
        match Rpc::open(addr(CORE), vx::CORE, tag).await {
            Ok(r) => Ok(Vxi { rpc: r }),
            Err(e) => {
                fail!("C16", "not_accepted", "client {tag}: {e:?}");
                Err(End::Bad("open".into()))
            }
        }
    };
    // Client 1 has two links, client 2 one: identifiers are not in the order of the clients
    let mut v1 = open(1).await?;
    let mut v2 = open(2).await?;
    let mut lids = vec![];
    let dummy = v2.link("inst0").await?;
    for i in [below(2), 2, 3] {
        lids.push(if i < 2 { v1.link("inst0").await? } else if i == 2 { v2.link("inst0").await? } else { v1.link("inst0").await? });
    }
    let gone = dummy;
    let e = v2.simple(vx::DESTROY_LINK, &u32b(dummy)).await?;
    if e != 0 {
        fail!("C23", "destroy_code", "destroy of link {dummy} was answered with error {e}");
    }
    let (own, theirs, other) = (lids[0], lids[1], lids[2]);
    let a = Link { rpc: Rc::new(RefCell::new(Some(v1.rpc))), lid: own, tag: 1 };
    let b = Link { rpc: Rc::new(RefCell::new(Some(v2.rpc))), lid: theirs, tag: 2 };
    let mut ab = match Rpc::open(addr(ASY), vx::ASYNC, 500).await {
        Ok(r) => r,
        Err(e) => {
            fail!("C16", "not_accepted", "abort channel: {e:?}");
            return Ok(());
        }
    };
    let expect = |lid: u32, e: u32| {
        let known = lid == own || lid == theirs || lid == other;
        let want = if known { 0 } else { vx::E_LINK };
        if e != want {
            fail!("C22", if known { "abort_refused" } else { "abort_unknown" }, "an abort of link {lid} was answered with error {e}; links are {own}, {other} and {theirs}");
        }
    };
    let lag = lag();
    let mut seq = 0;
    for round in 0..1 + below(4) {
        // Aborts while everybody is idle
        for _ in 0..pick(&[0, 0, 1, 2, 4]) {
            let lid = pick(&[own, own, theirs, other, gone, 0, stranger(&lids)]);
            let e = abort(&mut ab, lid).await?;
            expect(lid, e);
        }
        think(200).await;
        // What keeps them waiting
        let device = one_in(3);
        let held = if device {
            Held::Device(futures_guard::Guard::new(inst).await)
        } else {
            let mut l = LockHandle::new(inst.lock.clone(), inst.dev.clone());
            if l.try_acquire(pick(&[b"", b"key"])).is_err() {
                fail!("C04", "not_free", "nobody holds a lock, lock info says {:?}", l.lock_info());
                return Ok(());
            }
            Held::Lock(l)
        };
        let ops = if device { &OPS[1..] } else { &OPS[..] };
        let proc = if !device && one_in(9) { vx::CREATE_LINK } else { pick(ops) };
        let to = pick(&[60_000u32, 120_000]);
        let (w1, t1) = start(&a, proc, to, seq);
        let (w2, t2) = start(&b, pick(ops), 400_000, seq + 1);
        seq += 2;
        // The abort, once it certainly waits
        simrt::time::sleep_ns(lag + below(50) as u64 * 100 * MS).await;
        let lid = pick(&[own, own, own, other, gone, 0, stranger(&lids)]);
        let n = pick(&[1, 1, 2, 5]);
        let (mut sent, aborted) = (0, lid == own && proc != vx::CREATE_LINK);
        for _ in 0..n {
            if w1.done.get() != 0 && lid != own {
                break;
            }
            let e = abort(&mut ab, lid).await?;
            expect(lid, e);
            sent = sent.max(now());
        }
        let limit = to as u64 * MS;
        if aborted {
            if !settle(SLACK, || w1.done.get() != 0 || w1.fail.borrow().is_some()).await {
                fail!("C22", "not_aborted", "client {}: procedure {proc} on link {own} goes on {} ms after it was aborted", a.tag, SLACK / MS);
            } else if w1.code.get() != vx::E_ABORT {
                fail!("C22", "abort_code", "client {}: procedure {proc} on link {own} was aborted and ended with error {}", a.tag, w1.code.get());
            } else {
                nontrivial();
                if w1.done.get() > sent.max(w1.start.get()) + SLACK {
                    fail!("C22", "late_abort", "client {}: procedure {proc} on link {own} ended {} ms after it was aborted", a.tag, (w1.done.get() - sent) / MS);
                }
            }
        } else {
            // It goes on until its time is over
            settle(limit + SLACK, || w1.done.get() != 0 || w1.fail.borrow().is_some()).await;
            let (took, code) = (w1.done.get().saturating_sub(w1.start.get()), w1.code.get());
            if code == vx::E_ABORT {
                fail!("C22", "wrong_aborted", "client {}: procedure {proc} on link {own} was aborted when link {lid} was", a.tag);
            } else if code != vx::E_LOCKED || took < limit {
                fail!("C05", "ended", "client {}: procedure {proc} ready to wait {to} ms ended after {} ms with error {code}", a.tag, took / MS);
            }
        }
        if w2.done.get() != 0 {
            if w2.code.get() == vx::E_ABORT {
                fail!("C22", "wrong_aborted", "client {}: its operation on link {theirs} was aborted when link {lid} was", b.tag);
            } else {
                fail!("C05", "ended", "client {}: its operation ended with error {} though it cannot proceed", b.tag, w2.code.get());
            }
        }
        // An abort after the end is one of an idle link
        for _ in 0..pick(&[0, 0, 1, 3]) {
            let e = abort(&mut ab, own).await?;
            expect(own, e);
        }
        drop(held);
        t2.await;
        t1.await;
        for (w, l) in [(&w1, &a), (&w2, &b)] {
            if let Some(e) = w.fail.borrow_mut().take() {
                fail!(if e == End::Timeout { "C22" } else { "C15" }, "session_ended", "client {}: {e:?} in place of a reply", l.tag);
                return Err(e);
            }
        }
        if w2.code.get() != 0 {
            let p = if w2.code.get() == vx::E_ABORT { "C22" } else { "C05" };
            fail!(p, "not_done", "client {}: its operation on link {theirs} could proceed but ended with error {}", b.tag, w2.code.get());
        }
        // Nothing is left of the aborts
        for l in [&b, &a] {
            let mut r = l.rpc.borrow_mut().take().unwrap();
            let (lid, all) = (l.lid, l.tag == 1);
            let what: &[u32] = if all { &[vx::UNLOCK, vx::WRITE, vx::LOCK, vx::UNLOCK] } else { &[vx::UNLOCK] };
            for p in what {
                let arg = if *p == vx::UNLOCK { u32b(lid).to_vec() } else { operation(lid, *p, 60_000, seq) };
                let code = r.ok(*p, &arg).await.map(|b| Rd(&b).u().unwrap_or(9999))?;
                let ok = code == 0 || (*p == vx::UNLOCK && code == vx::E_NOLOCK);
                if !ok {
                    let c = if code == vx::E_ABORT { "C22" } else { "C05" };
                    fail!(c, "aborted_later", "client {} round {round}: procedure {p} on link {lid} ended with error {code} after everything was free again", l.tag);
                }
            }
            *l.rpc.borrow_mut() = Some(r);
        }
        seq += 1;
    }
    // A client that has gone
    a.rpc.borrow_mut().take().unwrap().conn.leave();
    simrt::time::sleep_ns(SLACK).await;
    for lid in [own, other] {
        let e = abort(&mut ab, lid).await?;
        if e != vx::E_LINK {
            fail!("C22", "abort_unknown", "an abort of link {lid}, whose client has gone, was answered with error {e}");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// Service requests

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Tcp,
    Udp,
    /// Nothing listens
    Refused,
    /// Takes the connection and ends it
    Reset,
    /// Takes the connection and reads nothing
    Stall,
    /// Works for a while, then ends the connection
    Dies,
    /// Nobody receives the datagrams
    Void,
}

struct Chan {
    client: u32,
    prog: u32,
    vers: u32,
    created_t: u64,
    /// Stamp and time when it is certainly destroyed
    to: u64,
    to_t: u64,
    lossy: bool,
    calls: Vec<(u64, u64, Vec<u8>)>,
}

struct En {
    handle: Vec<u8>,
    client: u32,
    from: u64,
    to: u64,
    to_t: u64,
}

#[derive(Default)]
struct Log {
    chans: RefCell<Vec<Chan>>,
    ens: RefCell<Vec<En>>,
    events: RefCell<Vec<(u64, u64)>>,
    next: Cell<u32>,
    /// Clients that are idle
    idle: Cell<u32>,
    phase: Cell<u32>,
    lossy: Cell<bool>,
    /// Events of this phase
    raised: Cell<usize>,
}

type L = Rc<Log>;

fn intr_call(log: &L, ch: usize, m: &[u8]) {
    let mut r = Rd(m);
    let mut c = log.chans.borrow_mut();
    let v = (|| {
        let h = [r.u()?, r.u()?, r.u()?, r.u()?, r.u()?, r.u()?];
        let _ = (r.u()?, r.opaque()?, r.u()?, r.opaque()?);
        Some((h, r.opaque()?))
    })();
    let (h, handle) = match v {
        Some(x) if r.end() => x,
        _ => {
            fail!("C14", "call_shape", "interrupt channel: a call that cannot be decoded: {}", show(m));
            return;
        }
    };
    let want = [h[0], 0, 2, c[ch].prog, c[ch].vers, 30];
    if h != want {
        fail!("C14", "call_header", "interrupt channel: call header {h:?}, expected {want:?}");
        return;
    }
    c[ch].calls.push((stamp(), now(), handle));
}

async fn take(c: &Conn, n: usize) -> Result<Vec<u8>, End> {
    loop {
        match c.take(n).await {
            Err(End::Timeout) => {}
            r => return r,
        }
    }
}

/// Receive interrupt calls as `mode` does; None: the port
fn serve_channel(log: L, ch: usize, mode: Mode, host: [u8; 4], port: u16, tag: u32) -> simrt::Task<()> {
    let at = std::net::SocketAddr::from((host, port));
    let life = below(100) as u64 * 200 * MS;
    match mode {
        Mode::Udp => {
            let s = simrt::udp::UdpSocket::bind(at).unwrap();
            simrt::spawn_labeled("intr-udp", async move {
                let mut b = vec![0; 2000];
                loop {
                    if let Ok((n, _)) = s.recv_from(&mut b).await {
                        intr_call(&log, ch, &b[..n]);
                    }
                }
            })
        }
        Mode::Refused | Mode::Void => simrt::spawn_labeled("intr-none", async {}),
        _ => {
            let l = simrt::net::TcpListener::bind(at).unwrap();
            simrt::spawn_labeled("intr-tcp", async move {
                let s = match poll_fn(|cx| l.poll_accept(cx)).await {
                    Ok(s) => s,
                    Err(_) => return,
                };
                if mode == Mode::Stall {
                    s.set_cap(false, 64);
                    std::future::pending::<()>().await;
                }
                if mode == Mode::Reset {
                    think(20).await;
                    if one_in(2) {
                        s.abort()
                    }
                    return;
                }
                let c = Conn::new(s, tag);
                let run = async {
                    loop {
                        let h = match take(&c, 4).await {
                            Ok(h) => u32::from_be_bytes(h.try_into().unwrap()),
                            Err(_) => break,
                        };
                        let n = (h & 0x7fff_ffff) as usize;
                        if h & 0x8000_0000 == 0 || n > 2000 {
                            fail!("C14", "call_shape", "interrupt channel: record header {h:#x}");
                            break;
                        }
                        match take(&c, n).await {
                            Ok(m) => intr_call(&log, ch, &m),
                            Err(_) => break,
                        }
                    }
                };
                if mode == Mode::Dies {
                    let _ = simrt::time::timeout_ns(life, run).await;
                    if one_in(2) {
                        c.s.abort()
                    }
                } else {
                    run.await
                }
                c.leave();
            })
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum ChanState {
    None,
    Good(usize),
    Lossy(usize),
    Bad,
}

struct S {
    v: Vxi,
    tag: u32,
    log: L,
    /// Links, and what is enabled on them
    links: Vec<(u32, Option<usize>)>,
    chan: ChanState,
    cur: Option<usize>,
    tasks: Vec<simrt::Task<()>>,
    limit: u64,
}

impl S {
    async fn open(tag: u32, log: L) -> Result<S, End> {
        match Vxi::open(CORE, tag).await {
            Ok(v) => Ok(S { v, tag, log, links: vec![], chan: ChanState::None, cur: None, tasks: vec![], limit: lag() + SLACK }),
            Err(e) => {
                fail!("C16", "not_accepted", "client {tag}: {e:?}");
                Err(End::Bad("open".into()))
            }
        }
    }

    async fn call(&mut self, proc: u32, args: &[u8]) -> Result<u32, End> {
        let t0 = now();
        let r = self.v.rpc.ok(proc, args).await;
        if now() - t0 > self.limit {
            fail!("C14", "core_late", "client {}: procedure {proc} was answered after {} ms", self.tag, (now() - t0) / MS);
        }
        match r {
            Ok(b) => Ok(Rd(&b).u().unwrap_or(9999)),
            Err(e) => {
                fail!("C14", "core_disturbed", "client {}: {e:?} in place of a reply to procedure {proc}", self.tag);
                Err(e)
            }
        }
    }

    fn off(&self, en: usize) {
        let mut e = self.log.ens.borrow_mut();
        e[en].to = stamp();
        e[en].to_t = now();
    }

    async fn link(&mut self) -> Result<(), End> {
        let lid = self.v.link("inst0").await?;
        self.links.push((lid, None));
        Ok(())
    }

    async fn enable(&mut self, i: usize) -> Result<(), End> {
        let n = self.log.next.get();
        self.log.next.set(n + 1);
        let mut handle = n.to_be_bytes().to_vec();
        handle.extend(payload(n as u64, 7, below(37) as usize, true));
        let en = self.log.ens.borrow().len();
        self.log.ens.borrow_mut().push(En { handle: handle.clone(), client: self.tag, from: stamp(), to: u64::MAX, to_t: u64::MAX });
        let e = self.call(vx::ENABLE_SRQ, &a_srq(self.links[i].0, true, &handle)).await?;
        if e != 0 {
            fail!("C14", "enable_code", "client {}: enabling service requests was answered with error {e}", self.tag);
        }
        if let Some(old) = self.links[i].1.replace(en) {
            self.off(old);
        }
        Ok(())
    }

    async fn disable(&mut self, i: usize) -> Result<(), End> {
        let h = if one_in(2) { b"x".to_vec() } else { vec![] };
        let e = self.call(vx::ENABLE_SRQ, &a_srq(self.links[i].0, false, &h)).await?;
        if e != 0 {
            fail!("C14", "disable_code", "client {}: disabling service requests was answered with error {e}", self.tag);
        }
        if let Some(old) = self.links[i].1.take() {
            self.off(old);
        }
        Ok(())
    }

    async fn destroy(&mut self, i: usize) -> Result<(), End> {
        let (lid, en) = self.links.remove(i);
        let e = self.call(vx::DESTROY_LINK, &u32b(lid)).await?;
        if e != 0 {
            fail!("C23", "destroy_code", "client {}: destroy of link {lid} was answered with error {e}", self.tag);
        }
        if let Some(old) = en {
            self.off(old);
        }
        let e = self.call(vx::ENABLE_SRQ, &a_srq(lid, true, b"gone")).await?;
        if e != vx::E_LINK {
            fail!("C23", "link_left", "client {}: enabling service requests on the destroyed link {lid} was answered with error {e}", self.tag);
        }
        Ok(())
    }

    async fn create_chan(&mut self, mode: Mode) -> Result<(), End> {
        let n = self.log.chans.borrow().len();
        let port = 20_000 + n as u16;
        let (prog, vers) = if one_in(2) { (vx::INTR, 1) } else { (0x2000_0000 + n as u32, 1 + below(9)) };
        self.log.chans.borrow_mut().push(Chan {
            client: self.tag, prog, vers, created_t: now(), to: u64::MAX, to_t: u64::MAX,
            lossy: mode == Mode::Udp && self.log.lossy.get(), calls: vec![],
        });
        // On the same host or on another
        let host = pick(&[[127, 0, 0, 1], [10, 0, 0, 7]]);
        let t = serve_channel(self.log.clone(), n, mode, host, port, self.tag + 700);
        self.tasks.push(t);
        let udp = matches!(mode, Mode::Udp | Mode::Void);
        let e = self.call(vx::CREATE_INTR, &a_intr(u32::from_be_bytes(host), port, prog, vers, udp as u32)).await?;
        let ok: &[u32] = match (self.chan, mode) {
            (ChanState::Good(_) | ChanState::Lossy(_), _) => &[vx::E_CHAN_EST],
            (ChanState::None, Mode::Refused) => &[vx::E_CHAN],
            (ChanState::None, _) => &[0],
            (ChanState::Bad, Mode::Refused) => &[vx::E_CHAN_EST, vx::E_CHAN],
            (ChanState::Bad, _) => &[vx::E_CHAN_EST, 0],
        };
        if !ok.contains(&e) {
            fail!("C14", "channel_code", "client {}: creating an interrupt channel ({mode:?}) with the present one {:?} was answered with error {e}", self.tag, self.chan);
        }
        if e == 0 {
            if let Some(c) = self.cur {
                self.chan_off(c);
            }
            self.cur = Some(n);
            self.chan = match mode {
                Mode::Udp if self.log.lossy.get() => ChanState::Lossy(n),
                Mode::Tcp | Mode::Udp => ChanState::Good(n),
                _ => ChanState::Bad,
            };
        } else {
            self.chan_off(n);
        }
        Ok(())
    }

    fn chan_off(&self, n: usize) {
        let mut c = self.log.chans.borrow_mut();
        c[n].to = stamp();
        c[n].to_t = now();
    }

    async fn destroy_chan(&mut self) -> Result<(), End> {
        let e = self.call(vx::DESTROY_INTR, &[]).await?;
        let ok: &[u32] = match self.chan {
            ChanState::Good(_) | ChanState::Lossy(_) => &[0],
            ChanState::None => &[vx::E_CHAN],
            ChanState::Bad => &[0, vx::E_CHAN],
        };
        if !ok.contains(&e) {
            fail!("C14", "channel_code", "client {}: destroying the interrupt channel {:?} was answered with error {e}", self.tag, self.chan);
        }
        if let Some(n) = self.cur.take() {
            self.chan_off(n);
        }
        self.chan = ChanState::None;
        Ok(())
    }

    async fn step(&mut self) -> Result<(), End> {
        if self.links.is_empty() {
            self.link().await?;
        }
        let i = below(self.links.len() as u32) as usize;
        match below(13) {
            0..=2 => self.enable(i).await,
            3 | 4 => self.disable(i).await,
            5 if self.links.len() > 1 => self.destroy(i).await,
            6 if self.links.len() < 4 => self.link().await,
            7 | 8 => {
                let m = pick(&[Mode::Tcp, Mode::Tcp, Mode::Udp, Mode::Refused, Mode::Reset, Mode::Stall, Mode::Dies, Mode::Void]);
                self.create_chan(m).await
            }
            9 => self.destroy_chan().await,
            _ => self.core(i).await,
        }
    }

    /// The core connection works
    async fn core(&mut self, i: usize) -> Result<(), End> {
        let lid = self.links[i].0;
        let e = if one_in(2) {
            self.call(vx::READSTB, &a_generic(lid, vx::WAITLOCK, 20_000)).await?
        } else {
            self.call(vx::WRITE, &a_write(lid, 20_000, vx::WAITLOCK | vx::END, b"W1.0.0.0;")).await?
        };
        if e != 0 {
            fail!("C14", "core_disturbed", "client {}: an operation on the core channel was answered with error {e}", self.tag);
        }
        Ok(())
    }

    fn gone(self) {
        for (_, en) in &self.links {
            if let Some(en) = en {
                let mut e = self.log.ens.borrow_mut();
                e[*en].to_t = now() + SLACK;
                // Events are compared by time
                e[*en].to = u64::MAX - 1;
            }
        }
        self.v.rpc.conn.leave();
        // Channels listen on: nothing may come
        std::mem::forget(self.tasks);
    }
}

async fn srq_client(tag: u32, log: L, churns: bool) -> Result<(), End> {
    think(50).await;
    let mut s = S::open(tag, log.clone()).await?;
    let rounds = 2;
    for r in 1..=rounds {
        for _ in 0..1 + below(10) {
            s.step().await?;
            if one_in(3) {
                simrt::time::sleep_ns(below(80) as u64 * 100 * MS).await;
            } else {
                think(30).await;
            }
            if churns && one_in(12) {
                s.gone();
                think(100).await;
                s = S::open(tag, log.clone()).await?;
            }
        }
        // A state in which something is due
        if one_in(2) {
            if s.chan == ChanState::None || s.chan == ChanState::Bad {
                s.destroy_chan().await?;
                s.create_chan(pick(&[Mode::Tcp, Mode::Udp])).await?;
            }
            if s.links.iter().all(|l| l.1.is_none()) {
                if s.links.is_empty() {
                    s.link().await?;
                }
                s.enable(0).await?;
            }
        }
        // No more events; what is under way ends
        log.idle.set(log.idle.get() + 1);
        simrt::time::sleep_ns(40 * SEC).await;
        let counts = || -> Vec<usize> { log.chans.borrow().iter().map(|c| c.calls.len()).collect() };
        let before = counts();
        if !settle(900 * SEC, || log.phase.get() == 2 * r - 1).await {
            return Ok(());
        }
        // Events are raised now
        if !settle(900 * SEC, || log.phase.get() == 2 * r).await {
            return Ok(());
        }
        let raised = log.raised.get();
        let mut due = 0;
        for (i, c) in log.chans.borrow().iter().enumerate() {
            if c.client != tag || c.lossy {
                continue;
            }
            let new: Vec<&Vec<u8>> = c.calls[before.get(i).copied().unwrap_or(0)..].iter().map(|c| &c.2).collect();
            for (_, en) in &s.links {
                let Some(en) = en else { continue };
                let h = &log.ens.borrow()[*en].handle;
                let n = new.iter().filter(|x| *x == &h).count();
                if s.chan == ChanState::Good(i) {
                    due += 1;
                    if n == 0 {
                        fail!("C14", "no_interrupt", "client {tag}: {} status events, but no interrupt call with handle {} came", raised, show(h));
                    }
                    if n > raised {
                        fail!("C14", "too_many", "client {tag}: {} status events, {n} interrupt calls with handle {}", raised, show(h));
                    }
                }
            }
            for x in new {
                let mine = s.links.iter().any(|l| l.1.map_or(false, |en| log.ens.borrow()[en].handle == *x));
                if !mine || s.cur != Some(i) {
                    fail!("C14", "unexpected", "client {tag}: an interrupt call with handle {} came; channel {i}, current {:?}", show(x), s.cur);
                }
            }
        }
        if due > 0 {
            nontrivial();
        }
        // The core connection is as good as ever
        for i in 0..s.links.len() {
            s.core(i).await?;
        }
        log.idle.set(log.idle.get() + 1);
        if !settle(900 * SEC, || log.phase.get() == 2 * r && log.idle.get() == 0).await {
            return Ok(());
        }
    }
    s.gone();
    Ok(())
}

pub async fn srq(_c: Ctx) {
    // Datagrams are lost and duplicated
    let lossy = one_in(4);
    if lossy {
        simrt::with(|s| {
            s.net.cfg.udp_loss = 4;
            s.net.cfg.udp_dup = 5;
            s.net.cfg.udp_jitter = 2 * SEC;
        });
    }
    let mut dev = SimDev::new(0);
    dev.slow = pick(&[0, 0, 1_000_000]);
    let inst = Inst::with(dev);
    let mut sender = StatusSender::new();
    let _v = srv::vxi(CORE, ASY, &[("inst0", &inst)], sender.clone(), true);
    if !srv::up(CORE).await {
        return;
    }
    let log: L = Rc::default();
    log.lossy.set(lossy);
    let n = 1 + below(3);
    let mut tasks = Vec::new();
    let left = Rc::new(Cell::new(n));
    for tag in 1..=n {
        let (log, left) = (log.clone(), left.clone());
        let churns = one_in(2);
        tasks.push(simrt::spawn_labeled("client", async move {
            let _ = srq_client(tag, log.clone(), churns).await;
            left.set(left.get() - 1);
        }));
    }
    let raise = |s: &mut StatusSender| {
        log.events.borrow_mut().push((stamp(), now()));
        s.send_status(0x40);
    };
    for r in 1..=2 {
        // While the clients are at it
        while log.idle.get() < left.get() {
            simrt::time::sleep_ns(pick(&[1, 20, 300, 3000, 15_000]) as u64 * MS).await;
            if log.idle.get() == 0 {
                for _ in 0..pick(&[1, 1, 1, 2, 5]) {
                    raise(&mut sender);
                }
            }
        }
        if left.get() == 0 {
            break;
        }
        log.idle.set(0);
        log.phase.set(2 * r - 1);
        simrt::time::sleep_ns(50 * SEC).await;
        let n = pick(&[1, 1, 1, 2, 5]);
        log.raised.set(n);
        for _ in 0..n {
            raise(&mut sender);
        }
        simrt::time::sleep_ns(50 * SEC).await;
        log.phase.set(2 * r);
        if !settle(900 * SEC, || log.idle.get() >= left.get()).await {
            fail!("C14", "core_disturbed", "a client is not served after the status events");
            return;
        }
        log.idle.set(0);
    }
    for t in tasks {
        t.await;
    }
    // Nobody is left
    simrt::time::sleep_ns(2 * SLACK).await;
    raise(&mut sender);
    simrt::time::sleep_ns(2 * SLACK).await;
    // Every call has a cause
    let (ens, events) = (log.ens.borrow(), log.events.borrow());
    for (i, c) in log.chans.borrow().iter().enumerate() {
        let mut seen: std::collections::BTreeMap<&Vec<u8>, usize> = Default::default();
        for (_, _, h) in &c.calls {
            *seen.entry(h).or_default() += 1;
        }
        for (h, n) in seen {
            let Some(en) = ens.iter().find(|e| e.handle == *h) else {
                fail!("C14", "wrong_handle", "channel {i}: an interrupt call with handle {}, which nobody gave", show(h));
                continue;
            };
            if en.client != c.client {
                fail!("C14", "wrong_channel", "channel {i} of client {}: an interrupt call with the handle {} of client {}", c.client, show(h), en.client);
                continue;
            }
            // Events that may have caused it: an earlier one may have waited for another channel to fail
            let cause = events
                .iter()
                .filter(|e| e.0 > en.from && e.0 < en.to && e.1 <= en.to_t && e.0 < c.to && e.1 <= c.to_t && e.1 + 60 * SEC > c.created_t)
                .count();
            let most = if c.lossy { 3 * cause } else { cause };
            if n > most {
                fail!("C14", "no_cause", "channel {i}: {n} interrupt calls with handle {}, but {cause} status events can have caused them", show(h));
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Very many links, one after the other

pub async fn links(_c: Ctx) {
    let inst = Inst::new(0);
    let _t = srv::vxi(CORE, ASY, &[("inst0", &inst)], StatusSender::new(), one_in(2));
    if !srv::up(CORE).await || !srv::up(ASY).await {
        return;
    }
    let total = pick(&[300u32, 65_500, 65_500]) + below(400);
    let opened: Rc<Cell<u32>> = Rc::default();
    let ended: Rc<Cell<bool>> = Rc::default();
    let live: Rc<RefCell<std::collections::HashMap<u32, u32>>> = Rc::default();
    let enter = |live: &Rc<RefCell<std::collections::HashMap<u32, u32>>>, tag: u32, lid: u32| {
        if let Some(o) = live.borrow_mut().insert(lid, tag) {
            fail!("C23", "duplicate_link", "client {tag} got link {lid}, which client {o} still has");
            return false;
        }
        true
    };
    let mut tasks = Vec::new();
    for k in 0..1 + below(4) {
        let (opened, ended, live, inst) = (opened.clone(), ended.clone(), live.clone(), inst.clone());
        let from = if one_in(2) { 0 } else { below(total) };
        tasks.push(simrt::spawn_labeled("client", async move {
            let tag = k + 1;
            super::hislip2::until(|| opened.get() >= from || ended.get()).await;
            let r: Result<(), End> = async {
                let mut v = Vxi::open(CORE, tag).await.map_err(|e| End::Bad(format!("{e:?}")))?;
                let mut mine = Vec::new();
                for _ in 0..1 + below(3) {
                    let lid = v.link("inst0").await?;
                    if !enter(&live, tag, lid) {
                        return Ok(());
                    }
                    mine.push(lid);
                }
                let mut seq = 0;
                loop {
                    let at = opened.get() + 1 + below(total / 3);
                    super::hislip2::until(|| opened.get() >= at || ended.get()).await;
                    let last = ended.get();
                    for lid in &mine {
                        seq += 1;
                        // Each has its own buffers
                        let c = format!("Q{tag}.{seq}.9.0;{lid}");
                        let (e, _) = v.write(*lid, 60_000, vx::WAITLOCK | vx::END, c.as_bytes()).await?;
                        if e != 0 {
                            fail!("C23", "link_lost", "client {tag}: a write on its link {lid} was answered with error {e} after {} others", opened.get());
                            return Ok(());
                        }
                    }
                    for (i, lid) in mine.iter().enumerate() {
                        let n = seq - mine.len() as u32 + 1 + i as u32;
                        let want = answer(format!("Q{tag}.{n}.9.0;{lid}").as_bytes()).0.unwrap();
                        let (e, _, d) = v.read(*lid, 100, 60_000, vx::WAITLOCK, 0).await?;
                        if e != 0 || d != want {
                            fail!("C23", "wrong_link", "client {tag}: reading link {lid} gave error {e}, {}; expected {}", show(&d), show(&want));
                            return Ok(());
                        }
                    }
                    if last {
                        break;
                    }
                }
                // The abort channel knows it by its identifier, too
                let mut a = Rpc::open(addr(ASY), vx::ASYNC, tag + ATAG).await.map_err(|e| End::Bad(format!("{e:?}")))?;
                for lid in &mine {
                    let e = abort(&mut a, *lid).await?;
                    if e != 0 {
                        fail!("C22", "abort_refused", "client {tag}: an abort of its link {lid} was answered with error {e}");
                        fail!("C23", "abort_refused", "client {tag}: an abort of its link {lid} was answered with error {e}");
                        return Ok(());
                    }
                    let held = LockHandle::new(inst.lock.clone(), inst.dev.clone());
                    drop(held);
                    let e = v.simple(vx::DESTROY_LINK, &u32b(*lid)).await?;
                    let e2 = v.simple(vx::DESTROY_LINK, &u32b(*lid)).await?;
                    if (e, e2) != (0, vx::E_LINK) {
                        fail!("C23", "destroy_code", "client {tag}: destroying link {lid} twice was answered with {e} and {e2}");
                        return Ok(());
                    }
                    live.borrow_mut().remove(lid);
                }
                nontrivial();
                Ok(())
            }
            .await;
            if let Err(e) = r {
                fail!("C23", "session_ended", "client {tag}: {e:?}");
            }
        }));
    }
    let mut churn = Vec::new();
    for c in 0..1 + below(3) {
        let (opened, live) = (opened.clone(), live.clone());
        churn.push(simrt::spawn_labeled("churn", async move {
            let tag = 50 + c;
            let r: Result<(), End> = async {
                while opened.get() < total && !failed() {
                    let mut v = Vxi::open(CORE, tag).await.map_err(|e| End::Bad(format!("{e:?}")))?;
                    for _ in 0..200 {
                        let n = 1 + below(60);
                        let mut lids = Vec::new();
                        // Many at once
                        for _ in 0..n {
                            v.rpc.send_call(vx::CREATE_LINK, &a_create(1, false, 0, "inst0")).await?;
                        }
                        for _ in 0..n {
                            match v.rpc.recv().await? {
                                (_, Reply::Ok(b)) if b.len() == 16 && b[..4] == [0; 4] => lids.push(Rd(&b[4..]).u().unwrap()),
                                x => {
                                    fail!("C23", "create_failed", "client {tag}: {x:?} in answer to create_link");
                                    return Ok(());
                                }
                            }
                        }
                        for lid in &lids {
                            if !enter(&live, tag, *lid) {
                                return Ok(());
                            }
                        }
                        opened.set(opened.get() + n);
                        let drop_all = one_in(40);
                        for lid in &lids {
                            live.borrow_mut().remove(lid);
                        }
                        if drop_all {
                            break;
                        }
                        for lid in &lids {
                            v.rpc.send_call(vx::DESTROY_LINK, &u32b(*lid)).await?;
                        }
                        for lid in &lids {
                            match v.rpc.recv().await? {
                                (_, Reply::Ok(b)) if b == [0; 4] => {}
                                x => {
                                    fail!("C23", "destroy_code", "client {tag}: {x:?} in answer to the destruction of link {lid}");
                                    return Ok(());
                                }
                            }
                        }
                        if opened.get() >= total || failed() {
                            break;
                        }
                    }
                    v.rpc.conn.leave();
                    // Its links go with it
                    simrt::time::sleep_ns(SEC).await;
                }
                Ok(())
            }
            .await;
            if let Err(e) = r {
                fail!("C23", "session_ended", "client {tag}: {e:?}");
            }
        }));
    }
    for x in churn {
        x.await;
    }
    ended.set(true);
    for x in tasks {
        x.await;
    }
}
