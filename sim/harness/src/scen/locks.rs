//! Clients of every protocol lock and use one device.
use super::hislip::config;
use super::vxi::{ASY, CORE};
use super::*;
use crate::clients::*;
use crate::excl::{Rec, Use};
use crate::lin::{Op, Res};
use crate::srv::{self, Inst};
use crate::world::*;
use lxi_device::lock::{LockHandle, SharedLockMode};
use lxi_device::status::Sender as StatusSender;
use lxi_device::Device;
use simrt::{now, stamp};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;

/// Time the server may take to notice that a client has gone or to answer what needs no waiting
pub const SLACK: u64 = 30 * SEC;

/// A device operation that was submitted
struct Sub {
    call: DevCall,
    handle: usize,
    thread: usize,
    submit: u64,
    wait: bool,
    /// It may reach the device or not
    optional: bool,
}

struct Failed {
    handle: usize,
    from: u64,
    to: u64,
    what: String,
}

pub struct AbortRec {
    pub lid: u32,
    pub call: u64,
    pub ret: u64,
    pub code: u32,
}

#[derive(Default)]
pub struct Sh {
    pub rec: Rec,
    next: Cell<usize>,
    threads: Cell<usize>,
    subs: RefCell<BTreeMap<u32, VecDeque<Sub>>>,
    failed: RefCell<Vec<Failed>>,
    /// Links of the VXI-11 clients: identifier, when it certainly existed from, to; when it may have existed to
    lids: RefCell<Vec<(u32, u64, u64, u64)>>,
    pub aborts: RefCell<Vec<AbortRec>>,
    /// Connections whose session lost its other one
    kept: RefCell<Vec<HConn>>,
    /// Upper bound of the time a short message takes to the server
    lag: Cell<u64>,
    keys: Cell<[&'static [u8]; 4]>,
}

impl Sh {
    pub fn new() -> Rc<Sh> {
        let s = Rc::new(Sh::default());
        let (lat, cap) = simrt::with(|x| (x.net.cfg.lat_min + x.net.cfg.lat_jitter, x.net.cfg.cap as u64));
        s.lag.set(4 * SEC + lat * (6 + 2000 / cap));
        let (a, b) = key_pair();
        s.keys.set([b"", a, b, b""]);
        s
    }
    fn handle(&self) -> usize {
        self.next.set(self.next.get() + 1);
        self.next.get()
    }
    fn thread(&self) -> usize {
        self.threads.set(self.threads.get() + 1);
        self.threads.get() - 1
    }
    fn submit(&self, tag: u32, call: DevCall, handle: usize, thread: usize, wait: bool) {
        let s = Sub { call, handle, thread, submit: stamp(), wait, optional: false };
        self.subs.borrow_mut().entry(tag).or_default().push_back(s);
    }
    /// A status query of HiSLIP: it may put the device into remote
    fn submit_status(&self, tag: u32, handle: usize, thread: usize) {
        self.submit(tag, DevCall::Remote(true), handle, thread, true);
        self.subs.borrow_mut().get_mut(&tag).unwrap().back_mut().unwrap().optional = true;
        self.submit(tag, DevCall::Status, handle, thread, true);
    }
    /// The latest submission was refused
    fn refused(&self, tag: u32) {
        self.subs.borrow_mut().get_mut(&tag).unwrap().pop_back();
    }
    /// An operation that waited failed for want of the lock
    fn failed(&self, handle: usize, from: u64, to: u64, what: String) {
        self.failed.borrow_mut().push(Failed { handle, from, to, what });
    }
    /// The client of this handle goes
    fn leave(&self, handle: usize, in_flight: bool) {
        let at = stamp();
        self.rec.releasing(handle, at);
        self.rec.ev(self.thread(), handle, at, u64::MAX, Op::Leave, Res::Ok);
        if !in_flight {
            self.rec.gone(handle, now() + SLACK);
        }
    }
    /// A refusal or a timeout must come in time. `wait`: the time the client was ready to wait
    fn timing(&self, wait: Option<u64>, t0: u64, what: &str) {
        let took = now() - t0;
        let limit = wait.unwrap_or(0);
        if took < limit {
            fail!("C05", "too_early", "{what} failed after {} ms, the client was ready to wait {} ms", took / MS, limit / MS);
        }
        let (lat, jit) = simrt::with(|s| (s.net.cfg.lat_min, s.net.cfg.lat_jitter));
        if took > limit + 500 * MS + 8 * (lat + jit) {
            fail!("C05", "too_late", "{what} failed after {} ms, the client was ready to wait {} ms", took / MS, limit / MS);
        }
    }

    /// Uses of the device, from what the device saw
    fn uses(&self, dev: usize) {
        let mut subs = self.subs.borrow_mut();
        for o in ops(dev) {
            if o.call == DevCall::Status && o.by < ATAG {
                continue;
            }
            let q = match subs.get_mut(&o.by) {
                Some(q) => q,
                None => {
                    fail!("C05", "unasked", "{} reached the device on behalf of {} without a request that was accepted", o.call.short(), o.by);
                    continue;
                }
            };
            while q.front().map_or(false, |s| s.optional && s.call != o.call) {
                q.pop_front();
            }
            if q.front().map_or(true, |s| s.call != o.call || s.submit > o.start) {
                fail!(
                    "C05", "unasked", "{} reached the device on behalf of {}; the next accepted request of that client is {}",
                    o.call.short(), o.by, q.front().map_or("none".to_string(), |s| s.call.short())
                );
                continue;
            }
            let s = q.pop_front().unwrap();
            if o.call == DevCall::Status {
                continue;
            }
            self.rec.used(Use { handle: s.handle, submit: s.submit, start: o.start, end: o.end, what: o.call.short() });
            self.rec.ev(s.thread, s.handle, s.submit, o.start, if s.wait { Op::Use } else { Op::TryUse }, Res::Ok);
        }
    }

    /// Those who gave up waiting must have had a reason all the time
    fn reasons(&self) {
        for f in self.failed.borrow().iter() {
            let from = f.from + self.lag.get();
            if f.to > from {
                if let Some((a, b)) = self.rec.free_stretch(f.handle, from, f.to, SEC) {
                    let m = format!(
                        "{} failed for want of a lock after waiting from {} to {} ms, but nobody held one from {} to {} ms",
                        f.what, f.from / MS, f.to / MS, a / MS, b / MS
                    );
                    violate("C05", "not_granted", m.clone());
                    violate("C03", "not_granted", m);
                    return;
                }
            }
        }
    }

    fn aborts_ok(&self) {
        for a in self.aborts.borrow().iter() {
            let lids = self.lids.borrow();
            let certain = lids.iter().any(|l| l.0 == a.lid && l.1 < a.call && l.2 > a.ret);
            let possible = lids.iter().any(|l| l.0 == a.lid && l.3 > a.call);
            if certain && a.code != 0 {
                fail!("C22", "abort_refused", "an abort of the existing link {} was answered with error {}", a.lid, a.code);
            }
            if !possible && a.code != vx::E_LINK {
                fail!("C22", "abort_unknown", "an abort of link {}, which does not exist, was answered with error {}", a.lid, a.code);
            }
        }
    }
}

fn wait_ms() -> u32 {
    if one_in(12) {
        // More than 16 bits hold
        return pick(&[65_536, 65_600, 100_000, 140_000]);
    }
    pick(&[0, 1, 50, 400, 3000, 20_000, 60_000])
}

/// Pause between operations: sometimes seconds
async fn pace() {
    match below(30) {
        0 => drop(simrt::time::sleep_ns(below(120) as u64 * SEC).await),
        1..=6 => drop(simrt::time::sleep_ns(below(150) as u64 * 100 * MS).await),
        _ => think(40).await,
    }
}

// ------------------------------------------------------------------------------------------------
// VXI-11

struct VLink {
    lid: u32,
    h: usize,
    held: bool,
}

struct V {
    v: Vxi,
    sh: Rc<Sh>,
    tag: u32,
    thread: usize,
    links: Vec<VLink>,
    seq: u32,
    /// Links the companion may abort
    targets: Rc<RefCell<Vec<u32>>>,
}

impl V {
    async fn create(&mut self) -> Result<(), End> {
        let sh = self.sh.clone();
        let lock = one_in(2);
        let to = wait_ms();
        let h = sh.handle();
        let (call, t0) = (stamp(), now());
        if lock {
            sh.rec.asking(h, call);
        }
        let r = self.v.create(1, lock, to, "inst0").await;
        let ret = stamp();
        let ev = |res| {
            if lock {
                sh.rec.ev(self.thread, h, call, ret, Op::Acquire(vec![], true), res)
            }
        };
        let v = match r {
            Ok(v) => v,
            Err(e) => {
                ev(Res::Unknown);
                return Err(e);
            }
        };
        match v[0] {
            0 => {
                ev(Res::Ok);
                if lock {
                    sh.rec.granted(h, true, ret);
                }
                self.links.push(VLink { lid: v[1], h, held: lock });
                sh.lids.borrow_mut().push((v[1], ret, u64::MAX, u64::MAX));
                self.targets.borrow_mut().push(v[1]);
            }
            vx::E_LOCKED if lock => {
                ev(Res::Unavailable);
                sh.rec.holds_nothing(h, ret);
                probe("link_not_locked");
                let what = format!("client {}: create_link with lock", self.tag);
                sh.timing(Some(to as u64 * MS), t0, &what);
                sh.failed(h, t0, t0 + to as u64 * MS, what);
                if v[1] != 0 && one_in(2) {
                    let e = self.v.simple(vx::CLEAR, &a_generic(v[1], 0, 0)).await?;
                    if !self.links.iter().any(|l| l.lid == v[1]) && e != vx::E_LINK {
                        fail!("C05", "link_left", "client {}: the link {} of a create_link that failed is answered with error {e}", self.tag, v[1]);
                    }
                }
            }
            e => {
                fail!("C05", "create_code", "client {}: create_link with lock {lock} was answered with error {e}", self.tag);
                return Err(End::Bad("create".into()));
            }
        }
        Ok(())
    }

    async fn lock(&mut self, i: usize) -> Result<(), End> {
        let sh = self.sh.clone();
        let (h, lid, held) = (self.links[i].h, self.links[i].lid, self.links[i].held);
        let wait = !one_in(3);
        let to = wait_ms();
        let (call, t0) = (stamp(), now());
        sh.rec.asking(h, call);
        let r = self.v.simple(vx::LOCK, &a_lock(lid, wait as u32, to)).await;
        let ret = stamp();
        let op = if wait { Op::Acquire(vec![], true) } else { Op::Try(vec![], true) };
        let ev = |res| sh.rec.ev(self.thread, h, call, ret, op.clone(), res);
        let e = match r {
            Ok(e) => e,
            Err(e) => {
                ev(Res::Unknown);
                return Err(e);
            }
        };
        let what = format!("client {}: lock of link {lid}", self.tag);
        match e {
            0 => {
                ev(Res::Ok);
                sh.rec.granted(h, true, ret);
                self.links[i].held = true;
            }
            vx::E_LOCKED => {
                ev(Res::Unavailable);
                sh.timing(if wait { Some(to as u64 * MS) } else { None }, t0, &what);
                if wait {
                    sh.failed(h, t0, t0 + to as u64 * MS, what.clone())
                }
            }
            vx::E_NOLOCK => ev(Res::AlreadyLocked),
            vx::E_ABORT if wait => {
                ev(Res::Cancelled);
                self.aborted(lid, call, ret, "lock");
            }
            e => {
                fail!("C24", "lock_code", "{what} was answered with error {e}");
                return Err(End::Bad("lock".into()));
            }
        }
        if !held && e != 0 {
            sh.rec.holds_nothing(h, ret);
        }
        if held != (e == vx::E_NOLOCK) {
            fail!("C24", "lock_truth", "{what}, which {} the lock, was answered with error {e}", if held { "holds" } else { "does not hold" });
        }
        Ok(())
    }

    /// An operation ended with the abort error
    fn aborted(&self, lid: u32, call: u64, ret: u64, what: &str) {
        probe("operation_aborted");
        let a = self.sh.aborts.borrow();
        if !a.iter().any(|a| a.lid == lid && a.code == 0 && a.call < ret && a.ret > call) {
            fail!("C22", "not_asked_for", "client {}: {what} on link {lid} ended with the abort error, but nobody aborted it then", self.tag);
        }
    }

    async fn unlock(&mut self, i: usize) -> Result<(), End> {
        let sh = self.sh.clone();
        let (h, lid, held) = (self.links[i].h, self.links[i].lid, self.links[i].held);
        let call = stamp();
        sh.rec.releasing(h, call);
        let r = self.v.simple(vx::UNLOCK, &u32b(lid)).await;
        let ret = stamp();
        let ev = |res| sh.rec.ev(self.thread, h, call, ret, Op::Release, res);
        match r {
            Err(e) => {
                ev(Res::Unknown);
                return Err(e);
            }
            Ok(0) if held => ev(Res::Exclusive),
            Ok(vx::E_NOLOCK) if !held => ev(Res::AlreadyUnlocked),
            Ok(e) => {
                ev(Res::Unknown);
                fail!("C24", "unlock_truth", "client {}: unlock of link {lid}, which {} the lock, was answered with error {e}", self.tag, if held { "holds" } else { "does not hold" });
            }
        }
        self.links[i].held = false;
        sh.rec.holds_nothing(h, ret);
        Ok(())
    }

    fn command(&mut self) -> Cmd {
        self.seq += 1;
        make_cmd(self.tag, self.seq, b"WWQ", 10, 20, 2000, &[])
    }

    /// A device operation: procedure, arguments, what reaches the device
    fn operation(&mut self, i: usize, flags: u32, to: u32) -> (u32, Vec<u8>, Option<DevCall>) {
        let lid = self.links[i].lid;
        match below(9) {
            0..=3 => {
                let c = self.command().bytes;
                (vx::WRITE, a_write(lid, to, flags | vx::END, &c), Some(DevCall::Exec(c)))
            }
            4 => (vx::TRIGGER, a_generic(lid, flags, to), Some(DevCall::Trigger)),
            5 => (vx::CLEAR, a_generic(lid, flags, to), Some(DevCall::Clear)),
            6 => (vx::REMOTE, a_generic(lid, flags, to), Some(DevCall::Remote(true))),
            7 => (vx::LOCAL, a_generic(lid, flags, to), Some(DevCall::Remote(false))),
            _ if one_in(2) => (vx::READ, a_read(lid, 10, to, flags, 0), None),
            _ => (vx::READSTB, a_generic(lid, flags, to), None),
        }
    }

    async fn operate(&mut self, i: usize) -> Result<(), End> {
        let sh = self.sh.clone();
        let (h, lid) = (self.links[i].h, self.links[i].lid);
        let wait = !one_in(3);
        let to = wait_ms();
        let (proc, args, dc) = self.operation(i, wait as u32, to);
        let n0 = ops(0).iter().filter(|o| o.by == self.tag).count();
        let (call, t0) = (stamp(), now());
        if let Some(dc) = dc.clone() {
            sh.submit(self.tag, dc, h, self.thread, wait);
        }
        let b = self.v.rpc.ok(proc, &args).await?;
        let ret = stamp();
        let code = Rd(&b).u().unwrap_or(u32::MAX);
        let done = ops(0).iter().filter(|o| o.by == self.tag).count() - n0;
        let what = format!("client {}: procedure {proc} on link {lid}", self.tag);
        let op = if wait { Op::Use } else { Op::TryUse };
        let res = match code {
            0 => {
                if dc.is_some() && done == 0 {
                    fail!("C20", "not_done", "{what} was answered with success but did not reach the device");
                    sh.refused(self.tag);
                }
                return Ok(());
            }
            vx::E_ACCESS if !wait => Res::Busy,
            vx::E_LOCKED => {
                sh.timing(if wait { Some(to as u64 * MS) } else { None }, t0, &what);
                if wait {
                    sh.failed(h, t0, t0 + to as u64 * MS, what.clone());
                }
                if wait && to < 5000 {
                    // It may have waited for the device only
                    Res::Cancelled
                } else {
                    Res::Unavailable
                }
            }
            vx::E_ABORT if wait => {
                self.aborted(lid, call, ret, "an operation");
                Res::Cancelled
            }
            e => {
                fail!("C05", "op_code", "{what} was answered with error {e}");
                return Err(End::Bad("op".into()));
            }
        };
        probe("operation_refused");
        if dc.is_some() {
            sh.refused(self.tag);
        }
        if done > 0 {
            fail!("C05", "effect", "{what} was answered with error {code} but reached the device");
        }
        sh.rec.ev(self.thread, h, call, ret, op, res);
        Ok(())
    }

    async fn destroy(&mut self, i: usize) -> Result<(), End> {
        let sh = self.sh.clone();
        let l = self.links.remove(i);
        let call = stamp();
        sh.rec.releasing(l.h, call);
        for x in sh.lids.borrow_mut().iter_mut() {
            if x.0 == l.lid && x.2 == u64::MAX {
                x.2 = call
            }
        }
        let e = self.v.simple(vx::DESTROY_LINK, &u32b(l.lid)).await;
        let ret = stamp();
        sh.rec.ev(self.thread, l.h, call, if e.is_ok() { ret } else { u64::MAX }, Op::Leave, Res::Ok);
        let e = e?;
        if e != 0 {
            fail!("C23", "destroy_code", "client {}: destroy of link {} was answered with error {e}", self.tag, l.lid);
        }
        for x in sh.lids.borrow_mut().iter_mut() {
            if x.0 == l.lid && x.3 == u64::MAX {
                x.3 = ret
            }
        }
        sh.rec.holds_nothing(l.h, ret);
        Ok(())
    }

    async fn step(&mut self) -> Result<(), End> {
        if self.links.is_empty() || (one_in(8) && self.links.len() < 3) {
            self.create().await?;
            if self.links.is_empty() {
                return Ok(());
            }
        }
        let i = below(self.links.len() as u32) as usize;
        match below(12) {
            0..=3 => self.lock(i).await?,
            4 | 5 => self.unlock(i).await?,
            6 if one_in(2) => self.destroy(i).await?,
            _ => self.operate(i).await?,
        }
        pace().await;
        Ok(())
    }
}

pub async fn vxi_client(tag: u32, sh: Rc<Sh>, steps: u32) {
    think(100).await;
    let v = match Vxi::open(CORE, tag).await {
        Ok(v) => v,
        Err(e) => {
            fail!("C16", "not_accepted", "client {tag}: {e:?}");
            return;
        }
    };
    let thread = sh.thread();
    let targets = Rc::new(RefCell::new(vec![]));
    let mut c = V { v, sh: sh.clone(), tag, thread, links: vec![], seq: 0, targets: targets.clone() };
    let over = Rc::new(Cell::new(false));
    let aborter = if one_in(2) {
        let (sh, over) = (sh.clone(), over.clone());
        Some(simrt::spawn_labeled("aborter", async move { aborter(tag + 500, sh, targets, over).await }))
    } else {
        None
    };
    let mut r = Ok(());
    for _ in 0..steps {
        r = c.step().await;
        if r.is_err() {
            break;
        }
    }
    if let Err(e) = &r {
        if !matches!(e, End::Bad(_)) {
            fail!(if *e == End::Timeout { "C03" } else { "C15" }, "session_ended", "client {tag}: {e:?} in the middle of a session");
        }
    }
    // Leave, perhaps while waiting
    let mut busy = false;
    if r.is_ok() && !c.links.is_empty() && one_in(3) {
        let i = below(c.links.len() as u32) as usize;
        let to = pick(&[400, 20_000, 60_000]);
        let (h, lid) = (c.links[i].h, c.links[i].lid);
        simrt::count("leave_while_waiting");
        // The server may notice only when the wait is over
        busy = true;
        if one_in(2) {
            sh.rec.asking(h, stamp());
            sh.rec.ev(thread, h, stamp(), u64::MAX, Op::Acquire(vec![], true), Res::Unknown);
            let _ = c.v.rpc.send_call(vx::LOCK, &a_lock(lid, 1, to)).await;
        } else {
            let (proc, args, dc) = c.operation(i, 1, to);
            if let Some(dc) = dc {
                sh.submit(tag, dc, h, thread, true);
            }
            let _ = c.v.rpc.send_call(proc, &args).await;
        }
        pace().await;
    }
    for l in &c.links {
        sh.leave(l.h, busy);
        for x in sh.lids.borrow_mut().iter_mut() {
            if x.0 == l.lid && x.2 == u64::MAX {
                x.2 = stamp()
            }
        }
    }
    c.v.rpc.conn.leave();
    over.set(true);
    if let Some(a) = aborter {
        a.await;
    }
}

async fn aborter(tag: u32, sh: Rc<Sh>, targets: Rc<RefCell<Vec<u32>>>, over: Rc<Cell<bool>>) {
    let mut a = match Rpc::open(addr(ASY), vx::ASYNC, tag).await {
        Ok(a) => a,
        Err(e) => {
            fail!("C16", "not_accepted", "client {tag}: {e:?}");
            return;
        }
    };
    while !over.get() {
        simrt::time::sleep_ns((1 + below(60)) as u64 * pick(&[10, 100, 1000]) * MS).await;
        let lid = {
            let t = targets.borrow();
            match below(5) {
                0 => pick(&[0, stranger(&t), u32::MAX]),
                _ if t.is_empty() => continue,
                _ => t[below(t.len() as u32) as usize],
            }
        };
        let (call, t0) = (stamp(), now());
        let i = sh.aborts.borrow().len();
        sh.aborts.borrow_mut().push(AbortRec { lid, call, ret: u64::MAX, code: 0 });
        let r = a.ok(1, &u32b(lid)).await;
        let mut ab = sh.aborts.borrow_mut();
        match r {
            Ok(b) => {
                ab[i].code = Rd(&b).u().unwrap_or(u32::MAX);
                ab[i].ret = stamp();
            }
            Err(e) => {
                fail!("C22", "no_answer", "an abort of link {lid} was not answered: {e:?}");
                return;
            }
        }
        if now() - t0 > SLACK {
            fail!("C22", "late_answer", "an abort of link {lid} was answered after {} ms", (now() - t0) / MS);
        }
    }
    a.conn.leave();
}

// ------------------------------------------------------------------------------------------------
// HiSLIP


async fn hislip_client(tag: u32, port: u16, sh: Rc<Sh>, steps: u32) {
    think(100).await;
    let h = match Hislip::open(port, "hislip0", pick(&[0x100, 0x200]), tag).await {
        Ok(h) => h,
        Err(e) => {
            fail!("C12", "not_opened", "client {tag}: session not opened: {e:?}");
            return;
        }
    };
    let id = sh.handle();
    let Hislip { sync, asy, .. } = h;
    let st = sh.thread();
    let s2 = sh.clone();
    let sync_task = simrt::spawn_labeled("hislip-sync", async move { hislip_sync(sync, tag, id, st, s2, steps).await });
    let at = sh.thread();
    let (asy, mid_wait) = hislip_async(asy, tag, id, at, sh.clone(), steps).await;
    // The order in which the channels end
    let early = one_in(3);
    if early {
        sh.leave(id, mid_wait);
        simrt::count("async_channel_lost");
        asy.conn.leave();
        let sync = sync_task.await;
        sync.conn.pause(false);
        sh.kept.borrow_mut().push(sync);
    } else {
        let sync = sync_task.await;
        sh.leave(id, mid_wait);
        match below(3) {
            0 => {
                simrt::count("sync_channel_lost");
                sync.conn.leave();
                sh.kept.borrow_mut().push(asy);
            }
            1 => {
                sync.conn.leave();
                asy.conn.leave();
            }
            _ => {
                asy.conn.leave();
                sync.conn.leave();
            }
        }
    }
}

async fn hislip_sync(c: HConn, tag: u32, h: usize, thread: usize, sh: Rc<Sh>, steps: u32) -> HConn {
    let mut mid = 0xffff_ff00u32;
    for k in 0..steps {
        let cmd = make_cmd(tag, k, b"QQW", 8, 20, 2000, &[]);
        mid = mid.wrapping_add(2);
        let trig = one_in(4);
        let r = if trig {
            sh.submit(tag, DevCall::Trigger, h, thread, true);
            c.send(hs::TRIGGER, 0, mid, b"").await
        } else {
            sh.submit(tag, DevCall::Exec(cmd.bytes.clone()), h, thread, true);
            c.conn.send(&command_frames(mid, &cmd.bytes, 200)).await
        };
        if r.is_err() {
            // The other channel has gone
            return c;
        }
        if !trig && cmd.resp.as_ref().map_or(false, |r| !r.is_empty()) && !(k + 1 == steps && one_in(3)) {
            loop {
                match c.recv().await {
                    Ok(m) if m.typ == hs::DATA => {}
                    Ok(m) if m.typ == hs::DATA_END => break,
                    Ok(m) => {
                        fail!("C10", "no_response", "client {tag}: message type {} in place of a response", m.typ);
                        return c;
                    }
                    Err(End::Timeout) => {
                        fail!("C03", "starved", "client {tag}: a HiSLIP request was not carried out in {} s", PATIENCE / SEC);
                        return c;
                    }
                    Err(_) => return c,
                }
            }
        }
        pace().await;
    }
    c
}

async fn hislip_async(c: HConn, tag: u32, h: usize, thread: usize, sh: Rc<Sh>, steps: u32) -> (HConn, bool) {
    let rec = sh.rec.clone();
    // What it is told it holds
    let (mut excl, mut shared) = (false, false);
    let mut pending = false;
    for k in 0..steps + 1 {
        let last = k == steps;
        let (call, t0) = (stamp(), now());
        let what = if last { pick(&[0u32, 0, 5, 99]) } else { below(10) };
        match what {
            0..=4 => {
                let key = pick(&sh.keys.get());
                let to = wait_ms();
                rec.asking(h, call);
                let x = key.is_empty();
                let op = if to > 0 { Op::Acquire(key.to_vec(), x) } else { Op::Try(key.to_vec(), x) };
                let mut wire = key.to_vec();
                if !x && one_in(6) {
                    wire.push(0)
                }
                let sent = c.send(hs::LOCK, 1, to, &wire).await;
                if last && one_in(3) {
                    simrt::count("leave_while_waiting");
                    rec.ev(thread, h, call, u64::MAX, op, Res::Unknown);
                    pending = true;
                    think(3000).await;
                    break;
                }
                let m = match (sent, recv(&c).await) {
                    (Ok(()), Ok(m)) if m.typ == hs::LOCK_R => m,
                    (_, x) => {
                        rec.ev(thread, h, call, u64::MAX, op, Res::Unknown);
                        lost(tag, "AsyncLock", &x);
                        pending = true;
                        break;
                    }
                };
                let ret = stamp();
                let what = format!("client {tag}: AsyncLock {:?}", show(key));
                match m.ctrl {
                    1 => {
                        rec.ev(thread, h, call, ret, op, Res::Ok);
                        rec.granted(h, x, ret);
                        if x {
                            excl = true
                        } else {
                            shared = true
                        }
                    }
                    0 => {
                        rec.ev(thread, h, call, ret, op, Res::Unavailable);
                        sh.timing(Some(to as u64 * MS), t0, &what);
                        if to > 0 {
                            sh.failed(h, t0, t0 + to as u64 * MS, what.clone());
                        }
                    }
                    2 | 3 => rec.ev(thread, h, call, ret, op, Res::AlreadyLocked),
                    x => fail!("C24", "lock_code", "{what} was answered with {x}"),
                }
                if m.ctrl >= 2 && !excl && !shared {
                    fail!("C24", "lock_truth", "{what} was answered with {}, though the session holds nothing", m.ctrl);
                }
                if m.ctrl != 1 && !excl && !shared {
                    rec.holds_nothing(h, ret);
                }
            }
            5 | 6 => {
                rec.releasing(h, call);
                let sent = c.send(hs::LOCK, 0, 0xffff_ff00, b"").await;
                let m = match (sent, recv(&c).await) {
                    (Ok(()), Ok(m)) if m.typ == hs::LOCK_R => m,
                    (_, x) => {
                        rec.ev(thread, h, call, u64::MAX, Op::Release, Res::Unknown);
                        lost(tag, "AsyncLock release", &x);
                        break;
                    }
                };
                let ret = stamp();
                let r = match m.ctrl {
                    1 => Res::Exclusive,
                    2 => Res::Shared,
                    3 => Res::AlreadyUnlocked,
                    x => {
                        fail!("C24", "unlock_code", "client {tag}: a release was answered with {x}");
                        Res::Unknown
                    }
                };
                let want = if excl { 1 } else if shared { 2 } else { 3 };
                if m.ctrl != want {
                    fail!("C24", "unlock_truth", "client {tag}: a release by a session that was granted exclusive {excl}, shared {shared} was answered with {}", m.ctrl);
                }
                rec.ev(thread, h, call, ret, Op::Release, r);
                (excl, shared) = (false, false);
                rec.holds_nothing(h, ret);
            }
            7 => {
                let sent = c.send(hs::LOCKINFO, 0, 0, b"").await;
                match (sent, recv(&c).await) {
                    (Ok(()), Ok(m)) if m.typ == hs::LOCKINFO_R => {
                        rec.ev(thread, h, call, stamp(), Op::Info, Res::Info(m.ctrl != 0, m.param));
                        if m.ctrl > 1 {
                            fail!("C24", "info_code", "client {tag}: lock info with control code {}", m.ctrl);
                        }
                    }
                    (_, x) => {
                        lost(tag, "AsyncLockInfo", &x);
                        break;
                    }
                }
            }
            8 => {
                sh.submit_status(tag + ATAG, h, thread);
                let sent = c.send(hs::STATUS, 0, 0xffff_ff00, b"").await;
                match (sent, recv(&c).await) {
                    (Ok(()), Ok(m)) if m.typ == hs::STATUS_R => {
                        if now() - t0 > SLACK {
                            fail!("C18", "late", "client {tag}: a status query was answered after {} ms", (now() - t0) / MS);
                        }
                    }
                    (_, x) => {
                        lost(tag, "AsyncStatusQuery", &x);
                        break;
                    }
                }
            }
            9 => {
                let to_remote = one_in(2);
                sh.submit(tag + ATAG, DevCall::Remote(to_remote), h, thread, true);
                let sent = c.send(hs::REMOTE, if to_remote { 3 } else { 6 }, 0xffff_ff00, b"").await;
                match (sent, recv(&c).await) {
                    (Ok(()), Ok(m)) if m.typ == hs::REMOTE_R => {}
                    (_, x) => {
                        lost(tag, "AsyncRemoteLocalControl", &x);
                        break;
                    }
                }
            }
            _ => {}
        }
        pace().await;
    }
    (c, pending)
}

async fn recv(c: &HConn) -> Result<HMsg, End> {
    c.recv().await
}

fn lost(tag: u32, what: &str, x: &Result<HMsg, End>) {
    match x {
        Err(End::Timeout) => fail!("C03", "starved", "client {tag}: {what} was not answered in {} s", PATIENCE / SEC),
        Err(End::Bad(e)) => fail!("C24", "answer", "client {tag}: {e} in answer to {what}"),
        Err(e) => fail!("C15", "session_ended", "client {tag}: {e:?} in answer to {what}"),
        Ok(m) => fail!("C24", "answer", "client {tag}: message type {} control {} in answer to {what}", m.typ, m.ctrl),
    }
}

// ------------------------------------------------------------------------------------------------
// Raw and telnet: they only use the device

async fn line_client(tag: u32, port: u16, telnet: bool, sh: Rc<Sh>, steps: u32) {
    think(100).await;
    let c = match Conn::open(addr(port), tag).await {
        Ok(c) => c,
        Err(e) => {
            fail!("C16", "refused", "client {tag}: {e}");
            return;
        }
    };
    let (h, thread) = (sh.handle(), sh.thread());
    for k in 0..steps {
        let cmd = make_cmd(tag, k, b"QQW", 8, 20, 2000, b"\n\r\x08\x7f\x15\xff\0");
        let answered = cmd.resp.is_some();
        sh.submit(tag, DevCall::Exec(cmd.bytes.clone()), h, thread, true);
        let mut b = cmd.bytes.clone();
        b.extend(if telnet { &b"\r\n"[..] } else { &b"\n"[..] });
        if let Err(e) = c.send(&b).await {
            fail!(if e == End::Timeout { "C03" } else { "C15" }, "session_ended", "client {tag}: {e:?} when sending");
            return;
        }
        if answered && !(k + 1 == steps && one_in(2)) {
            loop {
                match c.take(1).await {
                    Ok(b) if b == b"\n" => break,
                    Ok(_) => {}
                    Err(End::Timeout) => {
                        fail!("C03", "starved", "client {tag}: a command was not carried out in {} s", PATIENCE / SEC);
                        return;
                    }
                    Err(e) => {
                        fail!("C15", "session_ended", "client {tag}: {e:?} in place of a response");
                        return;
                    }
                }
            }
        }
        pace().await;
    }
    c.leave();
}

// ------------------------------------------------------------------------------------------------
// The application itself, with a handle of its own

async fn local_client(tag: u32, inst: Inst, sh: Rc<Sh>, steps: u32) {
    simrt::set_task_tag(tag);
    let id = sh.handle();
    let thread = sh.thread();
    let rec = sh.rec.clone();
    let mut l = LockHandle::new(inst.lock.clone(), inst.dev.clone());
    let mut seq = 0;
    for _ in 0..steps {
        let call = stamp();
        match below(7) {
            0..=2 => {
                let key = pick(&sh.keys.get());
                let limit = wait_ms() as u64 * MS;
                rec.asking(id, call);
                let wait = one_in(2);
                let r = if wait {
                    simrt::time::timeout_ns(limit, l.async_acquire(key)).await
                } else {
                    Some(l.try_acquire(key))
                };
                let res = match &r {
                    None => Res::Cancelled,
                    Some(Ok(())) => Res::Ok,
                    Some(Err(e)) => super::handles::res(e),
                };
                if r.is_none() {
                    sh.failed(id, now() - limit, now(), format!("handle {id}: acquire"));
                }
                if res == Res::Ok {
                    rec.granted(id, key.is_empty(), stamp());
                }
                let op = if wait { Op::Acquire(key.to_vec(), key.is_empty()) } else { Op::Try(key.to_vec(), key.is_empty()) };
                rec.ev(thread, id, call, stamp(), op, res);
                pace().await;
            }
            3 => {
                rec.releasing(id, call);
                let res = match l.try_release() {
                    Ok(SharedLockMode::Shared) => Res::Shared,
                    Ok(SharedLockMode::Exclusive) => Res::Exclusive,
                    Err(e) => super::handles::res(&e),
                };
                rec.ev(thread, id, call, stamp(), Op::Release, res);
                rec.holds_nothing(id, stamp());
            }
            _ => {
                let limit = wait_ms() as u64 * MS;
                seq += 1;
                let cmd = make_cmd(tag, seq, b"W", 5, 0, 1000, b"");
                match simrt::time::timeout_ns(limit, l.async_lock()).await {
                    Some(Ok(mut g)) => {
                        sh.submit(tag, DevCall::Exec(cmd.bytes.clone()), id, thread, true);
                        sh.subs.borrow_mut().get_mut(&tag).unwrap().back_mut().unwrap().submit = call;
                        g.execute(&cmd.bytes);
                    }
                    Some(Err(e)) => fail!("C03", "wait_failed", "waiting for the device failed with {e:?}"),
                    None => {
                        sh.failed(id, now() - limit, now(), format!("handle {id}: use of the device"));
                    }
                }
                pace().await;
            }
        }
    }
    let call = stamp();
    rec.releasing(id, call);
    drop(l);
    rec.ev(thread, id, call, stamp(), Op::Leave, Res::Ok);
    rec.holds_nothing(id, stamp());
}

// ------------------------------------------------------------------------------------------------

pub async fn run(_c: Ctx) {
    let mut dev = SimDev::new(0);
    dev.slow = pick(&[0, 0, 1_000_000, 10_000_000]);
    let inst = Inst::with(dev);
    let sh = Sh::new();
    let (hport, rport, tport) = (4880, 5025, 5024);
    let kinds: Vec<u32> = (0..2 + below(3)).map(|_| pick(&[0, 0, 1, 1, 2, 3, 4])).collect();
    let has = |k| kinds.contains(&k);
    let srq = StatusSender::new();
    let _v = srv::vxi(CORE, ASY, &[("inst0", &inst)], srq.clone(), true);
    let _h = if has(1) { Some(srv::hislip(config(4096), hport, &[("hislip0", &inst)], srq)) } else { None };
    let _r = if has(2) { Some(srv::raw(lxi_socket::server::ServerConfig::default(), rport, &inst)) } else { None };
    let _t = if has(3) { Some(srv::telnet(lxi_telnet::server::ServerConfig::default(), tport, &inst)) } else { None };
    for (k, p) in [(0, CORE), (0, ASY), (1, hport), (2, rport), (3, tport)] {
        if (k == 0 || has(k)) && !srv::up(p).await {
            return;
        }
    }
    let steps = 3 + below(8);
    let mut tasks = Vec::new();
    for (i, k) in kinds.iter().enumerate() {
        let (tag, k, sh, inst) = (i as u32 + 1, *k, sh.clone(), inst.clone());
        tasks.push(simrt::spawn_labeled("client", async move {
            match k {
                0 => vxi_client(tag, sh, steps).await,
                1 => hislip_client(tag, hport, sh, steps).await,
                2 => line_client(tag, rport, false, sh, steps).await,
                3 => line_client(tag, tport, true, sh, steps).await,
                _ => local_client(tag, inst, sh, steps).await,
            }
        }));
    }
    for t in tasks {
        t.await;
    }
    end_checks(&inst, &sh).await;
}

/// Everybody has left: nothing is locked, nothing keeps others out
pub async fn end_checks(inst: &Inst, sh: &Rc<Sh>) {
    let look = LockHandle::new(inst.lock.clone(), inst.dev.clone());
    if !settle(150 * SEC, || look.lock_info() == (false, 0)).await {
        fail!("C04", "lock_left", "150 s after all clients left, the lock is {:?}", look.lock_info());
        return;
    }
    // A client that comes now gets the lock and the device
    let tag = 90;
    if let Ok(mut v) = Vxi::open(CORE, tag).await {
        let r = async {
            let lid = v.link("inst0").await?;
            let e = v.simple(vx::LOCK, &a_lock(lid, 1, 120_000)).await?;
            if e != 0 {
                fail!("C04", "not_locked", "a client that comes after all others left is refused the lock with error {e}");
            }
            if look.lock_info() != (true, 0) {
                fail!("C05", "residue", "one client holds an exclusive lock, lock info says {:?}", look.lock_info());
            }
            let (e, _) = v.write(lid, 60_000, vx::WAITLOCK | vx::END, b"W90.0.0.0;").await?;
            if e != 0 {
                fail!("C04", "not_usable", "a client that comes after all others left cannot use the device, error {e}");
            }
            v.simple(vx::UNLOCK, &u32b(lid)).await
        }
        .await;
        if let Err(e) = r {
            if !matches!(e, End::Bad(_)) {
                fail!("C04", "not_served", "a client that comes after all others left is not served: {e:?}");
            }
        }
    } else {
        fail!("C16", "not_accepted", "a client that comes after all others left is not accepted");
    }
    let n = sh.rec.0.borrow().evs.len();
    w(|x| x.ops.retain(|o| o.by != tag));
    sh.uses(inst.id);
    if n >= 6 && sh.rec.0.borrow().evs.iter().any(|e| matches!(e.op, Op::Acquire(..)) && e.res == Res::Ok) {
        nontrivial();
    }
    sh.aborts_ok();
    sh.reasons();
    sh.rec.check_exclusion();
    sh.rec.check_lock("C24", "C01", "C05");
    sh.kept.borrow_mut().clear();
}
