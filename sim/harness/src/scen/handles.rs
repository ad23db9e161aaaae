//! Lock handles used directly, by tasks on several simulated threads.
use super::*;
use crate::clients::{think, MS, SEC};
use crate::excl::{Rec, Use};
use crate::lin::{Op, Res};
use crate::srv::Inst;
use crate::world::*;
use lxi_device::lock::{LockHandle, RemoteLockHandle, SharedLockError, SharedLockMode, SpinMutex};
use lxi_device::Device;
use simrt::stamp;
use std::sync::Arc;

pub fn res(e: &SharedLockError) -> Res {
    match e {
        SharedLockError::AlreadyLocked => Res::AlreadyLocked,
        SharedLockError::AlreadyUnlocked => Res::AlreadyUnlocked,
        SharedLockError::LockedByShared => Res::LockedByShared,
        SharedLockError::LockedByExclusive => Res::LockedByExclusive,
        SharedLockError::Busy => Res::Busy,
        SharedLockError::Timeout | SharedLockError::Aborted => Res::Error,
    }
}

fn of(r: &Result<(), SharedLockError>) -> Res {
    match r {
        Ok(()) => Res::Ok,
        Err(e) => res(e),
    }
}

/// Either way to reach a handle
enum H {
    Own(LockHandle<Dev>),
    Shared(Arc<SpinMutex<LockHandle<Dev>>>, RemoteLockHandle<Dev>),
}

struct Client {
    h: Option<H>,
    rec: Rec,
    handle: usize,
    thread: usize,
    tag: u32,
    seq: u32,
    /// This task may take and release locks
    locker: bool,
    user: bool,
    keys: [&'static [u8]; 3],
    inst: Inst,
    /// What this handle was told it holds: shared, exclusive
    has: (bool, bool),
}

impl Client {
    async fn acquire(&mut self, key: &[u8], wait: bool, limit: Option<u64>) {
        let rec = self.rec.clone();
        let mut excl = key.is_empty();
        let call = stamp();
        rec.asking(self.handle, call);
        let direct = one_in(2);
        let h = self.h.as_mut().unwrap();
        let r: Option<Result<(), SharedLockError>> = if !wait {
            Some(match h {
                H::Own(l) => match (direct, excl) {
                    (true, true) => l.try_acquire_exclusive(),
                    (true, false) => l.try_acquire_shared(key),
                    _ => l.try_acquire(key),
                },
                H::Shared(s, r) => {
                    if direct {
                        s.lock().try_acquire(key)
                    } else {
                        r.try_acquire(key)
                    }
                }
            })
        } else {
            let fut = async {
                match h {
                    H::Own(l) => match (direct, excl) {
                        (true, true) => l.async_acquire_exclusive().await,
                        (true, false) => l.async_acquire_shared(key).await,
                        _ => l.async_acquire(key).await,
                    },
                    H::Shared(_, r) => r.async_acquire(key).await,
                }
            };
            match limit {
                Some(t) => simrt::time::timeout_ns(t, fut).await,
                None => Some(fut.await),
            }
        };
        let out = match &r {
            None => {
                simrt::count("cancelled_acquire");
                Res::Cancelled
            }
            Some(r) => of(r),
        };
        if key.is_empty() {
            excl = true
        }
        if out == Res::Ok {
            if excl {
                self.has.1 = true
            } else {
                self.has.0 = true
            }
            rec.granted(self.handle, excl, stamp());
        }
        let op = if wait {
            Op::Acquire(key.to_vec(), excl)
        } else {
            Op::Try(key.to_vec(), excl)
        };
        rec.ev(self.thread, self.handle, call, stamp(), op, out);
        self.flags("acquire");
    }

    /// The handle says it holds what it was given
    fn flags(&self, after: &str) {
        let f = match self.h.as_ref().unwrap() {
            H::Own(l) => (l.has_shared(), l.has_exclusive()),
            H::Shared(l, _) => {
                let l = l.lock();
                (l.has_shared(), l.has_exclusive())
            }
        };
        if self.locker && f != self.has {
            fail!("C02", "flags", "handle {}: (has_shared, has_exclusive) is {f:?} after {after}, but it was given {:?}", self.handle, self.has);
        }
    }

    fn release(&mut self) {
        let rec = self.rec.clone();
        let call = stamp();
        rec.releasing(self.handle, call);
        let force = one_in(4);
        let r = match self.h.as_mut().unwrap() {
            H::Own(l) if force => {
                l.force_release();
                None
            }
            H::Shared(l, _) if force => {
                l.lock().force_release();
                None
            }
            H::Own(l) => Some(l.try_release()),
            H::Shared(l, _) => Some(l.lock().try_release()),
        };
        let (op, out) = match r {
            None => (Op::Leave, Res::Ok),
            Some(Ok(SharedLockMode::Shared)) => (Op::Release, Res::Shared),
            Some(Ok(SharedLockMode::Exclusive)) => (Op::Release, Res::Exclusive),
            Some(Err(e)) => (Op::Release, res(&e)),
        };
        let at = stamp();
        self.has = (false, false);
        rec.holds_nothing(self.handle, at);
        rec.ev(self.thread, self.handle, call, at, op, out);
        self.flags("release");
    }

    async fn use_device(&mut self, wait: bool, limit: Option<u64>) {
        let rec = self.rec.clone();
        let call = stamp();
        let h = self.h.as_ref().unwrap();
        let guard = if wait {
            let fut = async {
                match h {
                    H::Own(l) => l.async_lock().await,
                    H::Shared(_, r) => r.async_lock().await,
                }
            };
            match limit {
                Some(t) => simrt::time::timeout_ns(t, fut).await,
                None => Some(fut.await),
            }
        } else {
            Some(match h {
                H::Own(l) => l.try_lock(),
                H::Shared(_, r) => r.try_lock().await,
            })
        };
        let op = if wait { Op::Use } else { Op::TryUse };
        let out = match guard {
            None => {
                simrt::count("cancelled_device_wait");
                Res::Cancelled
            }
            Some(Err(e)) => {
                let r = res(&e);
                if wait {
                    fail!("C03", "wait_failed", "waiting for the device failed with {e:?}");
                }
                r
            }
            Some(Ok(mut g)) => {
                let n = 1 + below(2);
                for i in 0..n {
                    let c = make_cmd(self.tag, self.seq, b"W", 3, 0, 300, b"");
                    self.seq += 1;
                    let before = op_count();
                    g.execute(&c.bytes);
                    let o = ops(0).into_iter().last().unwrap();
                    if op_count() != before + 1 || o.by != self.tag {
                        fail!("C01", "overlap", "another device call came between");
                    }
                    if i == 0 {
                        rec.ev(self.thread, self.handle, call, o.start, op.clone(), Res::Ok);
                    }
                    rec.used(Use { handle: self.handle, submit: call, start: o.start, end: o.end, what: show(&c.bytes) });
                    if i + 1 < n {
                        think(3).await;
                    }
                }
                drop(g);
                return;
            }
        };
        rec.ev(self.thread, self.handle, call, stamp(), op, out);
    }

    fn look(&mut self) {
        let call = stamp();
        let direct = one_in(4);
        let (op, out) = match self.h.as_ref().unwrap() {
            _ if direct => {
                let l = self.inst.lock.lock();
                (Op::Info, Res::Info(l.exclusive_lock(), l.num_shared_locks()))
            }
            H::Own(l) => {
                if one_in(2) {
                    let i = l.lock_info();
                    (Op::Info, Res::Info(i.0, i.1))
                } else {
                    (Op::Can, of(&l.can_lock()))
                }
            }
            H::Shared(l, r) => {
                if one_in(2) {
                    let i = l.lock().lock_info();
                    (Op::Info, Res::Info(i.0, i.1))
                } else {
                    (Op::Can, of(&r.can_lock()))
                }
            }
        };
        self.rec.ev(self.thread, self.handle, call, stamp(), op, out);
    }

    async fn script(mut self, steps: u32, remake: impl Fn() -> (usize, H)) {
        simrt::set_task_tag(self.tag);
        for _ in 0..steps {
            if one_in(3) {
                think(4).await;
            }
            let limit = if one_in(3) { Some(below(30) as u64 * MS / 4) } else { None };
            match below(10) {
                0 | 1 if self.locker => self.acquire(pick(&self.keys), true, limit).await,
                2 if self.locker => self.acquire(pick(&self.keys), false, None).await,
                3 | 4 if self.locker => self.release(),
                5 if self.locker => self.look(),
                6 if self.user => self.use_device(false, None).await,
                7..=9 if self.user => {
                    // Without a limit only if somebody else can let it through
                    self.use_device(true, limit).await
                }
                // Drop the handle and go on with a new one
                0 if self.locker && matches!(self.h, Some(H::Own(_))) => {}
                _ => {
                    if matches!(self.h, Some(H::Own(_))) && one_in(3) {
                        self.drop_handle();
                        let (id, h) = remake();
                        self.handle = id;
                        self.h = Some(h);
                    } else {
                        self.look()
                    }
                }
            }
        }
        if self.locker {
            if one_in(2) {
                self.release();
            }
            if matches!(self.h, Some(H::Own(_))) {
                self.drop_handle();
            } else {
                self.release();
            }
        }
    }

    fn drop_handle(&mut self) {
        let call = stamp();
        self.rec.releasing(self.handle, call);
        self.h = None;
        self.has = (false, false);
        let at = stamp();
        self.rec.holds_nothing(self.handle, at);
        self.rec.ev(self.thread, self.handle, call, at, Op::Leave, Res::Ok);
    }
}

pub async fn run(_c: Ctx) {
    let mut dev = SimDev::new(0);
    dev.slow = pick(&[0, 0, 200_000]);
    let inst = Inst::with(dev);
    let rec = Rec::default();
    let n = 2 + below(3);
    let steps = 2 + below(8);
    let next = std::rc::Rc::new(std::cell::Cell::new(0usize));
    let fresh = {
        let next = next.clone();
        move || {
            next.set(next.get() + 1);
            next.get()
        }
    };
    let mut tasks = Vec::new();
    let mut thread = 0;
    let (a, b) = key_pair();
    let keys = [b"", a, b];
    for tag in 1..=n {
        let (i, fresh2) = (inst.clone(), fresh.clone());
        let remake = move || (fresh2(), H::Own(LockHandle::new(i.lock.clone(), i.dev.clone())));
        if one_in(3) {
            // One handle, a task that locks and a task that uses the device
            let s = Arc::new(SpinMutex::new(LockHandle::new(inst.lock.clone(), inst.dev.clone())));
            let id = fresh();
            for k in 0..2 {
                let c = Client {
                    h: Some(H::Shared(s.clone(), RemoteLockHandle::new(s.clone()))),
                    rec: rec.clone(),
                    handle: id,
                    thread,
                    tag: tag * 2 + k,
                    seq: 0,
                    locker: k == 0,
                    user: k == 1 || one_in(2),
                    keys,
                    inst: inst.clone(),
                    has: (false, false),
                };
                thread += 1;
                let r = remake.clone();
                tasks.push(simrt::spawn_labeled("client", async move { c.script(steps, r).await }));
            }
            drop(s);
        } else {
            let (id, h) = remake();
            let c = Client {
                h: Some(h),
                rec: rec.clone(),
                handle: id,
                thread,
                tag: tag * 2,
                seq: 0,
                locker: true,
                user: true,
                keys,
                inst: inst.clone(),
                has: (false, false),
            };
            thread += 1;
            tasks.push(simrt::spawn_labeled("client", async move { c.script(steps, remake).await }));
        }
    }
    // All of them must come to their end: everybody gives up what it holds
    for t in tasks {
        t.await;
    }
    let h = rec.0.borrow().evs.len();
    if h >= 6 && rec.0.borrow().evs.iter().any(|e| matches!(e.op, Op::Acquire(..)) && e.res == Res::Ok) {
        nontrivial();
    }
    let mut probe_h = LockHandle::new(inst.lock.clone(), inst.dev.clone());
    if probe_h.lock_info() != (false, 0) {
        fail!("C02", "leftover", "all handles gave up their locks but lock_info says {:?}", probe_h.lock_info());
    } else {
        if probe_h.try_lock().is_err() {
            fail!("C02", "leftover", "device not usable after all handles are gone");
        }
        if probe_h.try_acquire_exclusive().is_err() {
            fail!("C02", "leftover", "exclusive lock not available after all handles are gone");
        }
    }
    drop(probe_h);
    let _ = SEC;
    rec.check_exclusion();
    rec.check_lock("C02", "C01", "C02");
}

// ------------------------------------------------------------------------------------------------
// Very many holders of a shared lock

pub async fn many(_c: Ctx) {
    let inst = Inst::new(0);
    let mk = || LockHandle::new(inst.lock.clone(), inst.dev.clone());
    let total = pick(&[257usize, 256, 255, 300, 1000, 65_536, 65_700]);
    let mut all: Vec<LockHandle<Dev>> = Vec::new();
    let mut stranger = mk();
    let mut counted = 0u32;
    // One waits for the device, one for an exclusive lock
    let got = std::rc::Rc::new(std::cell::Cell::new(0u32));
    let mut waiters: Vec<simrt::Task<()>> = Vec::new();
    let look = |l: &LockHandle<Dev>, counted: u32, stranger: &mut LockHandle<Dev>, when: &str| {
        let i = l.lock_info();
        if i != (false, counted) {
            fail!("C02", "lock_info", "{when}: {counted} handles hold a shared lock, lock info says {i:?}");
            return false;
        }
        let (a, b) = (of(&stranger.try_acquire(b"other")), of(&stranger.can_lock()));
        if (a, b) != (Res::LockedByShared, Res::LockedByShared) {
            fail!("C02", "not_excluded", "{when}: {counted} handles hold a shared lock, another key got {a:?}, can_lock is {b:?}");
            return false;
        }
        let x = of(&stranger.try_acquire(b""));
        if x != Res::LockedByShared {
            fail!("C02", "not_excluded", "{when}: {counted} handles hold a shared lock, an exclusive one got {x:?}");
            return false;
        }
        true
    };
    for i in 0..total {
        let mut h = mk();
        let r = if one_in(2) { h.try_acquire(b"k") } else { h.async_acquire(b"k").await };
        if of(&r) != Res::Ok {
            fail!("C02", "refused", "handle {i}: joining a shared lock with its key got {r:?}");
            return;
        }
        counted += 1;
        all.push(h);
        if i == total / 2 {
            for k in 0..1 + below(3) {
                let (mut l, got) = (mk(), got.clone());
                waiters.push(simrt::spawn_labeled("waiter", async move {
                    match k {
                        0 => drop(l.async_lock().await),
                        1 => drop(l.async_acquire(b"").await),
                        _ => drop(l.async_acquire(b"other").await),
                    }
                    got.set(got.get() + 1);
                }));
            }
        }
        let edge = counted & 0xff <= 1 || counted & 0xff == 0xff;
        if (edge || one_in(200)) && !look(&all[0], counted, &mut stranger, "acquiring") {
            return;
        }
    }
    if got.get() > 0 {
        fail!("C02", "not_excluded", "someone got past {counted} holders of a shared lock");
        return;
    }
    while let Some(mut h) = if all.is_empty() { None } else { Some(all.swap_remove(below(all.len() as u32) as usize)) } {
        if of(&h.can_lock()) != Res::Ok {
            fail!("C02", "holder_excluded", "a holder of a shared lock, one of {counted}, cannot use the device: {:?}", h.can_lock());
            return;
        }
        match below(3) {
            0 => drop(h),
            1 => h.force_release(),
            _ => {
                let r = h.try_release();
                if !matches!(r, Ok(SharedLockMode::Shared)) {
                    fail!("C02", "release", "releasing one of {counted} shared locks got {r:?}");
                    return;
                }
            }
        }
        counted -= 1;
        let edge = counted & 0xff <= 1 || counted & 0xff == 0xff;
        if counted > 0 && (edge || one_in(200)) {
            if one_in(4) {
                simrt::time::sleep_ns(MS).await;
            }
            if got.get() > 0 {
                fail!("C02", "not_excluded", "someone got past {counted} holders of a shared lock");
                return;
            }
            if !look(&all[0], counted, &mut stranger, "releasing") {
                return;
            }
        }
    }
    if !settle(10 * SEC, || got.get() == waiters.len() as u32).await {
        fail!("C02", "not_released", "{} of {} waiters got through after all of {total} holders were gone", got.get(), waiters.len());
        return;
    }
    drop(stranger);
    let l = mk();
    if l.lock_info() != (false, 0) {
        fail!("C02", "lock_info", "nobody holds a lock, lock info says {:?}", l.lock_info());
    }
    nontrivial();
}
