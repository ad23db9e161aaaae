//! HiSLIP: device clear, session table, service requests, protocol errors, status under locks.
use super::hislip::*;
use super::*;
use crate::clients::*;
use crate::srv::{self, Inst};
use crate::world::*;
use lxi_device::lock::LockHandle;
use lxi_device::status::Sender as StatusSender;
use simrt::{stamp, Stream};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;

// ------------------------------------------------------------------------------------------------
// Device clear

type Holds = Rc<RefCell<Vec<(u64, u64, u64, u64)>>>;

/// One device clear and what was asked before it
struct Round {
    pre: Vec<DevCall>,
    /// Between sending DeviceClearComplete and receiving the acknowledgement
    window: (u64, u64),
}

pub async fn clear(_c: Ctx) {
    let max = pick(&[1u64 << 20, 300, 64]);
    let mut dev = SimDev::new(0);
    dev.slow = pick(&[0, 0, 1_000_000, 20_000_000]);
    dev.fail = pick(&[0, 0, 3]);
    let inst = Inst::with(dev);
    let mut srq = StatusSender::new();
    let _acc = srv::hislip(config(max), PORT, &[("hislip0", &inst)], srq.clone());
    if !srv::up(PORT).await {
        return;
    }
    let mut tasks = Vec::new();
    // Someone who locks the device now and then: (asked, granted, releasing, released)
    let holds: Holds = Rc::default();
    let locker = one_in(2);
    let stop = Rc::new(Cell::new(false));
    let lk = locker.then(|| {
        let (inst, holds, stop) = (inst.clone(), holds.clone(), stop.clone());
        simrt::spawn_labeled("locker", async move {
            let mut h = LockHandle::new(inst.lock.clone(), inst.dev.clone());
            while !stop.get() {
                think(pick(&[60u32, 400, 3000])).await;
                let a = stamp();
                if h.try_acquire(pick(&[&b""[..], b"key"])).is_ok() {
                    let i = holds.borrow().len();
                    holds.borrow_mut().push((a, stamp(), u64::MAX, u64::MAX));
                    let ms = pick(&[1u64, 50, 500, 2000]);
                    simrt::time::sleep_ns(ms * MS).await;
                    holds.borrow_mut()[i].2 = stamp();
                    let _ = h.try_release();
                    holds.borrow_mut()[i].3 = stamp();
                }
            }
        })
    });
    let n = 1 + below(2);
    for tag in 1..=n {
        let holds = holds.clone();
        tasks.push(simrt::spawn_labeled("client", async move { clear_client(tag, max as usize, holds, locker).await }));
    }
    if one_in(3) {
        for i in 0..below(8) {
            think(100).await;
            srq.send_status(0x40 | i as u8);
        }
    }
    for t in tasks {
        t.await;
    }
    stop.set(true);
    if let Some(t) = lk {
        t.await;
    }
}

async fn clear_client(tag: u32, max: usize, holds: Holds, locker: bool) {
    think(20).await;
    let h = match Hislip::open(PORT, "", pick(&[0x0100u16, 0x0200]), tag).await {
        Ok(h) => h,
        Err(e) => {
            fail!("C12", "not_opened", "client {tag}: session not opened: {e:?}");
            return;
        }
    };
    let mut s = Sess::new(h, tag, max);
    if one_in(2) {
        let v = pick(&[5u64, 40, 1000]);
        if s.h.max_size(v).await.is_err() {
            fail!("C11", "session_ended", "client {tag}: no answer to AsyncMaximumMessageSize");
            return;
        }
        s.max_in = v as usize;
    }
    let mut rounds: Vec<Round> = Vec::new();
    let big = pick(&[20, 100, 1500]);
    for r in 0..1 + below(5) {
        s.want.clear();
        // Work that the clear interrupts
        if one_in(4) {
            s.h.sync.conn.pause(true);
        }
        let mut replies: Vec<(u32, Vec<u8>)> = Vec::new();
        let mut frames: Vec<(Vec<u8>, u32)> = Vec::new();
        for _ in 0..below(4) {
            let c = s.make(b"QQRW", big.min(60), big, 20_000);
            let id = s.next_id();
            s.want.push(DevCall::Exec(c.bytes.clone()));
            if let Some(x) = &c.resp {
                if !x.is_empty() {
                    replies.push((id, x.clone()));
                }
            }
            frames.push((command_frames(id, &c.bytes, s.max_out), if one_in(3) { below(10) } else { 0 }));
        }
        if one_in(2) {
            // An unfinished command
            let c = s.make(b"QW", 30, 20, 0);
            let id = s.next_id();
            frames.push((hframe(hs::DATA, 0, id, &c.bytes[..c.bytes.len().min(s.max_out)]), 0));
            probe("unfinished_command");
        }
        // The server may be unable to take them all before the clear
        let out = s.h.sync.conn.clone_out();
        let sent = Rc::new(Cell::new(false));
        let sent2 = sent.clone();
        let writer = simrt::spawn_labeled("client-writer", async move {
            for (f, ms) in frames {
                send_split(&out, &f).await?;
                if ms > 0 {
                    simrt::time::sleep_ns(ms as u64 * MS).await;
                }
            }
            sent2.set(true);
            Ok::<(), End>(())
        });
        if one_in(3) {
            settle(SEC, || sent.get()).await;
        }
        think(30).await;
        let mut m = None;
        if s.h.asy.send(hs::ACLEAR, 0, 0, b"").await.is_ok() {
            m = s.h.arecv().await.ok();
        }
        match m {
            Some(x) if x.typ == hs::ACLEAR_ACK => {
                let overlap = w(|x| x.hislip).map_or(false, |c| c.0);
                if x.ctrl != overlap as u8 {
                    fail!("C28", "mode", "client {tag} round {r}: AsyncDeviceClearAcknowledge with control code {:#x}, overlapped mode preferred: {overlap}", x.ctrl);
                }
            }
            x => {
                fail!("C11", "no_async_ack", "client {tag} round {r}: {x:?} in place of AsyncDeviceClearAcknowledge");
                return;
            }
        }
        think(10).await;
        s.h.sync.conn.pause(false);
        if !sent.get() {
            probe("clear_while_sending");
        }
        if let Err(e) = writer.await {
            fail!("C11", "session_ended", "client {tag}: {e:?} in round {r}");
            return;
        }
        let a = stamp();
        let feature = pick(&[0u8, 1, 1, 0, 2, 3, 7, 0xff]);
        if s.h.sync.send(hs::CLEAR_COMPLETE, feature, 0, b"").await.is_err() {
            fail!("C11", "session_ended", "client {tag} round {r}: connection ended during device clear");
            return;
        }
        // What is still on its way must be responses to earlier requests, possibly cut short
        let mut got: Vec<(u32, Vec<u8>, bool)> = Vec::new();
        loop {
            match s.h.sync.recv().await {
                Ok(m) if m.typ == hs::CLEAR_ACK => {
                    if m.ctrl != feature & 1 {
                        // Neither encryption nor anything else is agreed to
                        fail!("C28", "feature", "client {tag}: asked for feature {feature}, acknowledged {}", m.ctrl);
                    }
                    break;
                }
                Ok(m) if m.typ == hs::DATA || m.typ == hs::DATA_END => {
                    match got.last_mut() {
                        Some(g) if g.0 == m.param && !g.2 => g.1.extend(m.data),
                        _ => got.push((m.param, m.data, false)),
                    }
                    if m.typ == hs::DATA_END {
                        got.last_mut().unwrap().2 = true
                    }
                }
                x => {
                    fail!("C11", "no_ack", "client {tag} round {r}: {} in place of DeviceClearAcknowledge", show_msg(&x));
                    return;
                }
            }
        }
        let b = stamp();
        if got.len() > replies.len() {
            fail!("C11", "stale", "client {tag} round {r}: {} responses to {} requests before the clear", got.len(), replies.len());
        }
        for (g, w) in got.iter().zip(replies.iter()) {
            if g.0 != w.0 || !w.1.starts_with(&g.1) || (g.2 && g.1 != w.1) {
                fail!("C11", "stale", "client {tag} round {r}: response {:#x} {} in place of {:#x} {}", g.0, show(&g.1), w.0, show(&w.1));
            }
        }
        if got.last().map_or(false, |g| !g.2) {
            probe("clear_interrupted_response");
        }
        rounds.push(Round { pre: std::mem::take(&mut s.want), window: (a, b) });
        nontrivial();
        if one_in(2) && !s.barrier("C11").await {
            return;
        }
        // Barriers belong to the next round
        let barrier: Vec<DevCall> = std::mem::take(&mut s.want);
        rounds.push(Round { pre: barrier, window: (0, 0) });
    }
    if !s.barrier("C11").await {
        return;
    }
    // The device has seen, round by round, a prefix of the requests and then the clear
    let seen = calls(tag);
    let mut i = 0;
    for (k, r) in rounds.iter().enumerate() {
        let barrier = r.window == (0, 0);
        let mut j = 0;
        while j < r.pre.len() && i < seen.len() && seen[i].call == r.pre[j] {
            i += 1;
            j += 1;
        }
        if barrier {
            if j < r.pre.len() {
                fail!("C11", "not_executed", "client {tag}: {} was not executed after a device clear; the device saw {}", r.pre[j].short(), seen.get(i).map_or("nothing".into(), |o| o.call.short()));
                return;
            }
            continue;
        }
        if i < seen.len() && seen[i].call == DevCall::Clear && seen[i].start < r.window.1 {
            if seen[i].start < r.window.0 || seen[i].end > r.window.1 {
                fail!("C11", "clear_time", "client {tag} clear {k}: the device was cleared outside of the handshake");
            }
            if holds.borrow().iter().any(|h| h.1 < r.window.0 && h.2 > seen[i].end) {
                fail!("C01", "cleared_while_locked", "client {tag}: the device was cleared while someone else held a lock");
            }
            i += 1;
        } else {
            // Refused only if someone else had locked the device
            let locked = locker && holds.borrow().iter().any(|h| h.0 < r.window.1 && h.3 > r.window.0);
            if !locked {
                fail!(
                    "C11",
                    "not_cleared",
                    "client {tag} clear {k}: the device was not cleared; after {j} of {} requests it saw {}",
                    r.pre.len(),
                    seen.get(i).map_or("nothing".into(), |o| o.call.short())
                );
                return;
            }
            probe("clear_refused_by_lock");
        }
    }
    let left: Vec<DevCall> = seen[i..].iter().map(|o| o.call.clone()).collect();
    compare(tag, &left, &s.want, true, "C11", "C11");
    s.h.close();
}

// ------------------------------------------------------------------------------------------------
// Session table

#[derive(Default)]
struct Table {
    /// Sessions: id, from (answer seen), to (client began to close)
    open: Vec<(u16, u64, u64)>,
    /// Sessions that may exist: from (request sent), to (time long after everything was closed, in ns)
    maybe: Vec<(u64, u64, u64)>,
}

impl Table {
    fn asked(&mut self) -> usize {
        self.maybe.push((stamp(), u64::MAX, u64::MAX));
        self.maybe.len() - 1
    }
    fn gone(&mut self, i: usize) {
        self.maybe[i].2 = simrt::now();
    }
}

const GRACE: u64 = 20 * SEC;

pub async fn sessions(_c: Ctx) {
    let limit = 1 + below(4) as usize;
    let devs: Vec<Inst> = (0..2).map(Inst::new).collect();
    let cfg = config(4096).max_num_sessions(limit);
    let srq = StatusSender::new();
    let _acc = srv::hislip(cfg, PORT, &[("hislip0", &devs[0]), ("two", &devs[1])], srq);
    if !srv::up(PORT).await {
        return;
    }
    let t: Rc<RefCell<Table>> = Rc::default();
    let mut tasks = Vec::new();
    for c in 0..2 + below(4) {
        let t = t.clone();
        tasks.push(simrt::spawn_labeled("client", async move {
            for k in 0..1 + below(5) {
                think(60).await;
                visit(10 * (c + 1) + k, limit, t.clone()).await;
            }
        }));
    }
    for x in tasks {
        x.await;
    }
    // Everything is closed: the whole table is free again
    simrt::time::sleep_ns(GRACE).await;
    let mut all = Vec::new();
    for i in 0..limit as u32 {
        match Hislip::open(PORT, "", 0x0100, 900 + i).await {
            Ok(h) => all.push(h),
            Err(e) => {
                fail!("C12", "place_not_freed", "all sessions are closed, but session {} of {limit} is refused: {e:?}", i + 1);
                return;
            }
        }
    }
    match Hislip::init_sync(PORT, b"", 0x0100, 990).await {
        Err(HOpen::Fatal(4)) => {}
        x => fail!("C12", "limit", "a session beyond the limit of {limit} got {:?}", x.map(|m| m.1)),
    }
    let mut ids: Vec<u16> = all.iter().map(|h| h.id).collect();
    ids.sort();
    ids.dedup();
    if ids.len() != limit {
        fail!("C12", "same_id", "{limit} open sessions have the ids {ids:?}");
    }
    for (i, h) in all.into_iter().enumerate() {
        let mut s = Sess::new(h, 900 + i as u32, 4096);
        if !s.barrier("C12").await {
            return;
        }
        s.check_calls(true);
    }
}

const MALFORMED: &str = "a malformed header with more behind it";

async fn fatal_end(tag: u32, c: &HConn, code: u8, what: &str, prop: &'static str) -> bool {
    let m = c.recv().await;
    match &m {
        // The server closes without reading on; what the client still sends then resets the connection
        Err(End::Reset) if what == MALFORMED => return true,
        Ok(x) if x.typ == hs::FATAL && x.ctrl == code => {}
        _ => {
            fail!(prop, "fatal_answer", "client {tag}: {} in answer to {what}, FatalError {code} expected", show_msg(&m));
            return false;
        }
    }
    let (rest, e) = c.conn.until_end().await;
    if !rest.is_empty() || e == End::Timeout {
        fail!(prop, "fatal_not_closed", "client {tag}: connection not closed after FatalError {code} for {what} ({} more bytes, {e:?})", rest.len());
        return false;
    }
    true
}

async fn visit(tag: u32, limit: usize, t: Rc<RefCell<Table>>) {
    let kind = below(10);
    if kind == 0 {
        // Nothing of that name
        let sub = pick(&[&b"none"[..], b"hislip1", b"\xff\xfe", b"TWO", b" "]);
        let i = t.borrow_mut().asked();
        match Hislip::init_sync(PORT, sub, 0x0100, tag).await {
            Err(HOpen::Fatal(3)) | Err(HOpen::Fatal(4)) => {}
            x => fail!("C12", "sub_address", "client {tag}: sub-address {sub:?} got {:?}", x.map(|m| m.1)),
        }
        t.borrow_mut().gone(i);
        return;
    }
    if kind == 1 {
        // A session nobody has: ids are even
        let id = pick(&[1u16, 3, 0x7fff, 0xffff, 0]);
        match Hislip::init_async(PORT, id, tag).await {
            Err(HOpen::Fatal(3)) => {}
            x => fail!("C12", "async_without_session", "client {tag}: AsyncInitialize with session id {id} got {:?}", x.map(|m| m.1)),
        }
        return;
    }
    let sub = pick(&["", "two", "hislip0"]);
    let i = t.borrow_mut().asked();
    let asked = stamp();
    let open_before = t.borrow().open.iter().filter(|o| o.2 == u64::MAX).count();
    let r = Hislip::init_sync(PORT, sub.as_bytes(), 0x0200, tag).await;
    let (sync, m) = match r {
        Ok(x) => x,
        Err(HOpen::Fatal(4)) => {
            // Right only if that many sessions may have existed
            let now = simrt::now();
            let n = t.borrow().maybe.iter().enumerate().filter(|(k, x)| *k != i && (x.2 == u64::MAX || x.2 + GRACE > now)).count();
            if n < limit {
                fail!("C12", "refused", "client {tag}: session refused, but at most {n} of {limit} exist");
            }
            probe("refused_by_limit");
            t.borrow_mut().maybe[i].2 = now.saturating_sub(GRACE);
            return;
        }
        Err(e) => {
            fail!("C12", "not_opened", "client {tag}: {e:?} in answer to Initialize");
            return;
        }
    };
    let id = m.param as u16;
    {
        let mut g = t.borrow_mut();
        // Those open before and still
        let n = g.open.iter().filter(|o| o.1 < asked && o.2 == u64::MAX).count();
        if n.min(open_before) >= limit {
            fail!("C12", "limit", "client {tag}: session {id} opened while {n} others are open, the limit is {limit}");
        }
        if g.open.iter().any(|o| o.0 == id && o.2 == u64::MAX) {
            fail!("C12", "same_id", "client {tag}: session id {id} is in use by another session");
        }
        g.open.push((id, stamp(), u64::MAX));
    }
    let me = t.borrow().open.len() - 1;
    let close = |t: &Rc<RefCell<Table>>| t.borrow_mut().open[me].2 = stamp();
    nontrivial();
    think(20).await;
    match kind {
        2 => {
            // Use without the second channel
            let f = if one_in(2) { hframe(hs::DATA_END, 0, 1, b"W1.1.0.0;") } else { hframe(hs::TRIGGER, 0, 1, b"") };
            close(&t);
            let _ = sync.conn.send(&f).await;
            fatal_end(tag, &sync, 2, "a request before the asynchronous channel exists", "C12").await;
            if !calls(tag).is_empty() {
                fail!("C12", "executed", "client {tag}: {} reached the device without an asynchronous channel", calls(tag)[0].call.short());
            }
            sync.conn.close();
        }
        3 => {
            // Leave at once
            close(&t);
            sync.conn.leave();
        }
        _ => {
            // Two, three that want the asynchronous channel
            let rivals = if kind < 6 { 1 + below(2) } else { 0 };
            let mut rt = Vec::new();
            for r in 0..rivals {
                rt.push(simrt::spawn_labeled("rival", async move {
                    think(10).await;
                    Hislip::init_async(PORT, id, tag + ATAG * (2 + r)).await
                }));
            }
            if rivals > 0 {
                think(10).await;
            }
            let mine = Hislip::init_async(PORT, id, tag + ATAG).await;
            let mut won = Vec::new();
            let mut lost = 0;
            let mut n = 0;
            let mut sort = |x: Result<(HConn, HMsg), HOpen>| match x {
                Ok((c, m)) => {
                    if m.param as u16 != 0x1234 {
                        fail!("C12", "vendor", "client {tag}: vendor id {:#x}", m.param);
                    }
                    won.push(c);
                }
                Err(HOpen::Fatal(3)) => lost += 1,
                Err(e) => {
                    fail!("C12", "async_answer", "client {tag}: {e:?} in answer to AsyncInitialize");
                }
            };
            sort(mine);
            n += 1;
            for r in rt {
                sort(r.await);
                n += 1;
            }
            if won.len() != 1 || won.len() + lost != n {
                fail!("C12", "async_not_unique", "client {tag}: {} of {n} asynchronous channels joined session {id}, {lost} were refused", won.len());
                close(&t);
                return;
            }
            let asy = won.pop().unwrap();
            // Once more, later
            if one_in(3) {
                match Hislip::init_async(PORT, id, tag + 5 * ATAG).await {
                    Err(HOpen::Fatal(3)) => {}
                    x => {
                        fail!("C12", "async_not_unique", "client {tag}: a second asynchronous channel of session {id} got {:?}", x.map(|m| m.1));
                        close(&t);
                        return;
                    }
                }
            }
            let mut s = Sess::new(Hislip { sync, asy, id, protocol: 0x200, prefer_overlap: false, vendor: 0, srqs: vec![] }, tag, 4096);
            for _ in 0..below(4) {
                if !s.barrier("C12").await {
                    close(&t);
                    return;
                }
                if one_in(3) && s.h.info().await.is_err() {
                    fail!("C12", "async_dead", "client {tag}: no answer on the asynchronous channel of session {id}");
                    close(&t);
                    return;
                }
                think(40).await;
            }
            for o in calls(tag) {
                if o.dev != (sub == "two") as usize {
                    fail!("C12", "wrong_device", "client {tag}: connected to {sub:?}, but {} reached device {}", o.call.short(), o.dev);
                }
            }
            let got: Vec<DevCall> = calls(tag).into_iter().map(|o| o.call).collect();
            compare(tag, &got, &s.want, true, "C12", "C12");
            close(&t);
            // Loss of either channel ends the session
            match simrt::choose(Stream::Fault, 4) {
                0 => s.h.close(),
                1 => {
                    s.h.sync.conn.abort();
                    s.h.asy.conn.abort();
                    s.h.close();
                }
                k => {
                    let Hislip { sync, asy, .. } = s.h;
                    let (first, second) = if k == 2 { (sync, asy) } else { (asy, sync) };
                    first.conn.leave();
                    let (_, e) = second.conn.until_end().await;
                    if e == End::Timeout {
                        fail!("C12", "half_session", "client {tag}: the {} channel stays open after the loss of the other", if k == 2 { "asynchronous" } else { "synchronous" });
                    }
                    simrt::count("lost_one_channel");
                    second.conn.close();
                }
            }
        }
    }
    t.borrow_mut().gone(i);
}

pub async fn until(f: impl Fn() -> bool) {
    let end = simrt::now() + PATIENCE;
    while !f() && !failed() && simrt::now() < end {
        simrt::time::sleep_ms(20).await;
    }
}

/// So many sessions come and go that session ids start over while some stay open
pub async fn wrap(_c: Ctx) {
    let devs: Vec<Inst> = (0..1).map(Inst::new).collect();
    let _acc = srv::hislip(config(4096).max_num_sessions(12), PORT, &[("hislip0", &devs[0])], StatusSender::new());
    if !srv::up(PORT).await {
        return;
    }
    let total = 32_700 + below(400);
    let opened: Rc<Cell<u32>> = Rc::default();
    let ended: Rc<Cell<bool>> = Rc::default();
    // Ids of open sessions
    let live: Rc<RefCell<Vec<u16>>> = Rc::default();
    let enter = |live: &Rc<RefCell<Vec<u16>>>, tag: u32, id: u16| {
        if live.borrow().contains(&id) {
            fail!("C12", "same_id", "client {tag}: session id {id} is in use by another session");
            return false;
        }
        live.borrow_mut().push(id);
        true
    };
    let mut tasks = Vec::new();
    for k in 0..1 + below(4) {
        let (opened, ended, live) = (opened.clone(), ended.clone(), live.clone());
        let from = if one_in(2) { 0 } else { below(total) };
        let late = one_in(3);
        tasks.push(simrt::spawn_labeled("client", async move {
            let tag = 10 * (k + 1);
            until(|| opened.get() >= from || ended.get()).await;
            let (sync, m) = match Hislip::init_sync(PORT, b"", 0x0100, tag).await {
                Ok(x) => x,
                Err(e) => {
                    fail!("C12", "not_opened", "client {tag}: {e:?} in answer to Initialize");
                    return;
                }
            };
            let id = m.param as u16;
            if !enter(&live, tag, id) {
                return;
            }
            if late {
                // Not joined before the others are through
                until(|| ended.get()).await;
                probe("joined_late");
            }
            let (asy, _) = match Hislip::init_async(PORT, id, tag + ATAG).await {
                Ok(x) => x,
                Err(e) => {
                    fail!("C12", "async_not_unique", "client {tag}: session {id} refuses its first asynchronous channel: {e:?}");
                    return;
                }
            };
            let mut s = Sess::new(Hislip { sync, asy, id, protocol: 0x100, prefer_overlap: false, vendor: 0, srqs: vec![] }, tag, 4096);
            loop {
                let at = opened.get() + 1 + below(9000);
                until(|| opened.get() >= at || ended.get()).await;
                let last = ended.get();
                if !s.barrier("C12").await {
                    return;
                }
                if s.h.info().await.is_err() {
                    fail!("C12", "async_dead", "client {tag}: no answer on the asynchronous channel of session {id}");
                    return;
                }
                if last {
                    break;
                }
            }
            match Hislip::init_async(PORT, id, tag + 5 * ATAG).await {
                Err(HOpen::Fatal(3)) => {}
                x => {
                    fail!("C12", "async_not_unique", "client {tag}: a second asynchronous channel of session {id} got {:?}", x.map(|m| m.1));
                    return;
                }
            }
            s.check_calls(true);
            nontrivial();
        }));
    }
    let mut churn = Vec::new();
    for c in 0..1 + below(3) {
        let (opened, live) = (opened.clone(), live.clone());
        churn.push(simrt::spawn_labeled("churn", async move {
            while opened.get() < total && !failed() {
                let (conn, m) = match Hislip::init_sync(PORT, b"", 0x0100, 500 + c).await {
                    Ok(x) => x,
                    Err(HOpen::Fatal(4)) => {
                        // Those left are still being removed
                        simrt::time::sleep_ms(1).await;
                        continue;
                    }
                    Err(e) => {
                        fail!("C12", "not_opened", "client {}: {e:?} in answer to Initialize", 500 + c);
                        return;
                    }
                };
                let id = m.param as u16;
                if !enter(&live, 500 + c, id) {
                    return;
                }
                opened.set(opened.get() + 1);
                live.borrow_mut().retain(|x| *x != id);
                conn.conn.leave();
            }
        }));
    }
    for x in churn {
        x.await;
    }
    ended.set(true);
    for x in tasks {
        x.await;
    }
}

// ------------------------------------------------------------------------------------------------
// Service requests

pub async fn srq(_c: Ctx) {
    let mut dev = SimDev::new(0);
    dev.slow = pick(&[0, 0, 1_000_000]);
    *dev.stb.borrow_mut() = Some(pick(&[0u8, 0x40, 0x50, 0x0f, 0xff]));
    let inst = Inst::with(dev);
    let mut sender = StatusSender::new();
    let _acc = srv::hislip(config(4096), PORT, &[("hislip0", &inst)], sender.clone());
    if !srv::up(PORT).await {
        return;
    }
    // Every event: (stamp, status)
    let events: Rc<RefCell<Vec<(u64, u8)>>> = Rc::default();
    let n = 1 + below(3);
    let phase = Rc::new(Cell::new(0u32));
    let ready = Rc::new(Cell::new(0u32));
    let mut tasks = Vec::new();
    for tag in 1..=n {
        let (events, phase, ready) = (events.clone(), phase.clone(), ready.clone());
        tasks.push(simrt::spawn_labeled("client", async move {
            srq_client(tag, events, phase.clone(), ready.clone()).await;
            ready.set(ready.get() + 1000);
        }));
    }
    // Sessions that come and go meanwhile
    let churn = below(4);
    let ch = simrt::spawn_labeled("churn", async move {
        for i in 0..churn {
            think(50).await;
            if let Ok(h) = Hislip::open(PORT, "", 0x0100, 100 + i).await {
                think(50).await;
                h.close();
            }
        }
    });
    let raise = |s: &mut StatusSender, v: u8| {
        events.borrow_mut().push((stamp(), v));
        s.send_status(v);
    };
    let mut v = 0u8;
    for _ in 0..below(12) {
        if !one_in(3) {
            think(80).await;
        }
        v = (v + 1) & 0x0f;
        raise(&mut sender, 0x40 | v | pick(&[0u8, 0x10, 0x80]));
    }
    ch.await;
    // Armed sessions and one event at a time: everybody gets each
    for k in 1..=2u32 {
        phase.set(2 * k - 1);
        if !settle(600 * SEC, || ready.get() >= n).await {
            return;
        }
        ready.set(0);
        v = (v + 1) & 0x0f;
        raise(&mut sender, 0x40 | v);
        phase.set(2 * k);
        if !settle(600 * SEC, || ready.get() >= n).await {
            return;
        }
        ready.set(0);
    }
    phase.set(9);
    for t in tasks {
        t.await;
    }
}

async fn srq_client(tag: u32, events: Rc<RefCell<Vec<(u64, u8)>>>, phase: Rc<Cell<u32>>, ready: Rc<Cell<u32>>) {
    let h = match Hislip::open(PORT, "", 0x0100, tag).await {
        Ok(h) => h,
        Err(e) => {
            fail!("C12", "not_opened", "client {tag}: session not opened: {e:?}");
            return;
        }
    };
    let mut s = Sess::new(h, tag, 4096);
    let dead = |tag, e: End| fail!("C13", "session_ended", "client {tag}: {e:?} in a session that saw nothing but valid requests and status events");
    // Service requests come when they come
    async fn look(s: &mut Sess) -> Result<(), End> {
        while s.h.asy.ready() {
            let m = s.h.asy.recv().await?;
            if m.typ != hs::SRQ {
                return Err(End::Bad(format!("unexpected message type {}", m.typ)));
            }
            s.h.srqs.push(m.ctrl);
        }
        match s.h.asy.conn.ended() {
            Some(e) => Err(e),
            None => Ok(()),
        }
    }
    // Traffic while events are raised
    while phase.get() == 0 {
        think(50).await;
        if let Err(e) = look(&mut s).await {
            return dead(tag, e);
        }
        match below(4) {
            0 | 1 => {
                if !s.barrier("C13").await {
                    return;
                }
            }
            2 => {
                if let Err(e) = s.status().await {
                    return dead(tag, e);
                }
            }
            _ => {
                if let Err(e) = s.h.info().await {
                    return dead(tag, e);
                }
            }
        }
    }
    for k in 1..=2u32 {
        if !settle(600 * SEC, || phase.get() >= 2 * k - 1).await {
            return;
        }
        // Until nothing is pending
        for i in 0.. {
            let before = s.h.srqs.len();
            if let Err(e) = s.status().await {
                return dead(tag, e);
            }
            simrt::time::sleep_ns(5 * SEC).await;
            if let Err(e) = look(&mut s).await {
                return dead(tag, e);
            }
            if s.h.srqs.len() == before {
                break;
            }
            if i > 20 {
                fail!("C13", "endless", "client {tag}: service requests keep coming without status events");
                return;
            }
        }
        let before = s.h.srqs.len();
        ready.set(ready.get() + 1);
        if !settle(600 * SEC, || phase.get() >= 2 * k).await {
            return;
        }
        let want = events.borrow().last().unwrap().1;
        settle(60 * SEC, || s.h.asy.ready()).await;
        if let Err(e) = look(&mut s).await {
            return dead(tag, e);
        }
        match s.h.srqs[before..] {
            [x] if x == want => nontrivial(),
            [] => fail!("C13", "no_service_request", "client {tag}: status {want:#04x} was raised, but no service request came"),
            _ => fail!("C13", "wrong_service_request", "client {tag}: status {want:#04x} was raised, service requests {:?}", &s.h.srqs[before..]),
        }
        ready.set(ready.get() + 1);
    }
    if !s.barrier("C13").await {
        return;
    }
    // Each one was raised by the device, once, in this order
    let ev = events.borrow().clone();
    let mut i = 0;
    for (k, v) in s.h.srqs.iter().enumerate() {
        while i < ev.len() && ev[i].1 != *v {
            i += 1
        }
        if i >= ev.len() {
            fail!("C13", "not_raised", "client {tag}: service request {k} ({v:#04x}) of {:x?} does not match the status events {:x?}", s.h.srqs, ev.iter().map(|e| e.1).collect::<Vec<_>>());
            return;
        }
        i += 1;
    }
    s.h.close();
}

// ------------------------------------------------------------------------------------------------
// Protocol errors

#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    /// Non-fatal Error with this code (None: any)
    Error(Option<u8>),
    Fatal(u8),
    Nothing,
}

pub async fn errors(_c: Ctx) {
    let max = pick(&[4096u64, 200]);
    let inst = Inst::new(0);
    let srq = StatusSender::new();
    let _acc = srv::hislip(config(max), PORT, &[("hislip0", &inst)], srq);
    if !srv::up(PORT).await {
        return;
    }
    // A session that must notice nothing
    let stop = Rc::new(Cell::new(false));
    let st = stop.clone();
    let witness = simrt::spawn_labeled("witness", async move {
        let h = match Hislip::open(PORT, "", 0x0100, 500).await {
            Ok(h) => h,
            Err(e) => {
                fail!("C12", "not_opened", "session not opened: {e:?}");
                return;
            }
        };
        let mut s = Sess::new(h, 500, max as usize);
        loop {
            if !s.barrier("C25").await || s.status().await.is_err() {
                fail!("C25", "witness", "a well-behaved session was disturbed");
                return;
            }
            if st.get() {
                break;
            }
            think(50).await;
        }
        s.check_calls(true);
        s.h.close();
    });
    let mut tasks = Vec::new();
    for tag in 1..=1 + below(3) {
        tasks.push(simrt::spawn_labeled("client", async move {
            if one_in(4) {
                init_errors(tag, max as usize).await
            } else {
                session_errors(tag, max as usize).await
            }
        }));
    }
    for t in tasks {
        t.await;
    }
    stop.set(true);
    witness.await;
}

fn junk(max: usize) -> Vec<u8> {
    let n = if one_in(2) { 0 } else { size(max as u32) };
    payload(7, n as u64, n as usize, true)
}

async fn init_errors(tag: u32, max: usize) {
    let c = match HConn::open(addr(PORT), tag).await {
        Ok(c) => c,
        Err(e) => {
            fail!("C16", "refused", "client {tag}: {e}");
            return;
        }
    };
    for _ in 0..below(4) {
        let typ = if one_in(2) { 128 + below(128) as u8 } else { 39 + below(89) as u8 };
        let code = if typ >= 128 { 3 } else { 1 };
        let _ = c.send(typ, below(256) as u8, below(1 << 16), &junk(max)).await;
        let m = c.recv().await;
        match &m {
            Ok(m) if m.typ == hs::ERROR && m.ctrl == code => {}
            _ => {
                fail!("C25", "error_answer", "client {tag}: {} in answer to message type {typ} before Initialize, Error {code} expected", show_msg(&m));
                return;
            }
        }
        nontrivial();
    }
    match below(3) {
        0 => {
            let typ = pick(&[1u8, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 18, 19, 20, 21, 24, 26, 28, 38]);
            let _ = c.send(typ, 0, 1, &junk(max)).await;
            fatal_end(tag, &c, 3, &format!("message type {typ} before Initialize"), "C25").await;
        }
        1 => {
            let mut f = hframe(hs::INIT, 0, 0x0100_0000, b"");
            f[below(2) as usize] ^= 1 << below(8);
            let _ = c.conn.send(&f).await;
            fatal_end(tag, &c, 1, "a malformed header", "C25").await;
        }
        _ => {
            let _ = c.send(hs::INIT, 0, 0x0100_5858, b"hislip0").await;
            match c.recv().await {
                Ok(m) if m.typ == hs::INIT_R => {}
                x => fail!("C25", "disturbed", "client {tag}: {} in answer to Initialize after errors", show_msg(&x)),
            }
        }
    }
    if !calls(tag).is_empty() {
        fail!("C25", "effect", "client {tag}: {} reached the device from an erroneous message", calls(tag)[0].call.short());
    }
    c.conn.close();
}

async fn session_errors(tag: u32, max: usize) {
    let version = pick(&[0x0100u16, 0x0200, 0x0101]);
    let h = match Hislip::open(PORT, "", version, tag).await {
        Ok(h) => h,
        Err(e) => {
            fail!("C12", "not_opened", "client {tag}: session not opened: {e:?}");
            return;
        }
    };
    let mut s = Sess::new(h, tag, max);
    let k = 1 + below(6);
    for i in 0..k {
        if one_in(5) {
            if !errors_in_clear(&mut s, max).await {
                s.h.close();
                return;
            }
            continue;
        }
        let on_async = one_in(2);
        let last = i + 1 == k && one_in(2);
        let v2 = version >= 0x0200;
        let mut frame;
        let want;
        let what;
        if last {
            // Something that must end the session
            match below(4) {
                0 => {
                    let more = one_in(2);
                    frame = hframe(if on_async { hs::LOCKINFO } else { hs::DATA_END }, 0, 7, if more { b"W1.1.0.0;evil" } else { b"" });
                    frame[below(2) as usize] ^= 1 << below(8);
                    (want, what) = (Want::Fatal(1), if more { MALFORMED } else { "a malformed header" }.to_string());
                }
                1 if on_async => {
                    let n = pick(&[0usize, 1, 7, 9, 16]);
                    frame = hframe(hs::MAXSIZE, 0, 0, &vec![1; n]);
                    (want, what) = (Want::Fatal(1), format!("AsyncMaximumMessageSize with {n} bytes"));
                }
                _ if v2 && on_async => {
                    let n = pick(&[4usize, 4, 0, 3, 5]);
                    let typ = pick(&[29u8, 32]);
                    frame = hframe(typ, 0, 0, &vec![1; n]);
                    (want, what) = (Want::Fatal(if n == 4 { 5 } else { 1 }), format!("message type {typ} with {n} bytes"));
                }
                _ if v2 => {
                    let typ = pick(&[28u8, 31, 34, 36, 37]);
                    frame = hframe(typ, 0, 0, &junk(max));
                    (want, what) = (Want::Fatal(5), format!("message type {typ}"));
                }
                _ => {
                    frame = hframe(hs::DATA_END, 0, 7, b"W1.1.0.0;evil");
                    frame[0] = b'h';
                    (want, what) = (Want::Fatal(1), MALFORMED.to_string());
                }
            }
        } else {
            let typ = match below(6) {
                0 => 128 + below(128) as u8,
                1 => 39 + below(89) as u8,
                2 => pick(&[2u8, 3]),
                _ if on_async => pick(&[0u8, 1, 5, 6, 7, 8, 9, 11, 12, 13, 14, 16, 17, 18, 20, 22, 23, 25, 26, 27, 28, 30, 31, 33, 34, 35, 36, 37, 38]),
                _ => pick(&[0u8, 1, 4, 5, 8, 9, 10, 11, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 27, 29, 30, 32, 33, 35, 38]),
            };
            let data = match typ {
                6 | 7 => b"W1.1.0.0;evil".to_vec(),
                _ => junk(max),
            };
            frame = hframe(typ, below(256) as u8, below(1 << 20), &data);
            want = match typ {
                2 | 3 => Want::Nothing,
                128.. => Want::Error(Some(3)),
                39..=127 => Want::Error(Some(1)),
                _ => Want::Error(None),
            };
            what = format!("message type {typ} on the {} channel", if on_async { "asynchronous" } else { "synchronous" });
        }
        let c = if on_async { &s.h.asy } else { &s.h.sync };
        if c.conn.send(&frame).await.is_err() {
            if what == MALFORMED {
                s.check_calls(true);
                s.h.close();
                return;
            }
            fail!("C25", "session_ended", "client {tag}: connection ended before {what}");
            return;
        }
        nontrivial();
        match want {
            Want::Nothing => {}
            Want::Error(code) => {
                let m = c.recv().await;
                match &m {
                    Ok(m) if m.typ == hs::ERROR && code.map_or(true, |x| m.ctrl == x) => {}
                    _ => {
                        fail!("C25", "error_answer", "client {tag}: {} in answer to {what}, Error {code:?} expected", show_msg(&m));
                        return;
                    }
                }
            }
            Want::Fatal(code) => {
                fatal_end(tag, c, code, &what, "C25").await;
                simrt::time::sleep_ns(SEC).await;
                s.check_calls(true);
                s.h.close();
                return;
            }
        }
        // The session goes on, with no further answer
        let ok = match below(3) {
            0 => s.barrier("C25").await,
            1 => s.status().await.is_ok(),
            _ => s.h.info().await.is_ok() && s.barrier("C25").await,
        };
        if !ok {
            fail!("C25", "disturbed", "client {tag}: the session does not go on after {what}");
            return;
        }
    }
    if s.barrier("C25").await {
        s.check_calls(true);
        if s.h.asy.conn.avail() > 0 || s.h.sync.conn.avail() > 0 {
            fail!("C25", "extra_answer", "client {tag}: unexpected answers");
        }
    }
    s.h.close();
}

/// Errors in the middle of a device clear are answered as any other, and the clear goes on
async fn errors_in_clear(s: &mut Sess, max: usize) -> bool {
    let tag = s.tag;
    if s.h.asy.send(hs::ACLEAR, 0, 0, b"").await.is_err() {
        fail!("C25", "session_ended", "client {tag}: connection ended before a device clear");
        return false;
    }
    match s.h.asy.recv().await {
        Ok(m) if m.typ == hs::ACLEAR_ACK => {}
        x => {
            fail!("C25", "disturbed", "client {tag}: {} in answer to a device clear after errors", show_msg(&x));
            return false;
        }
    }
    let n = below(3);
    for _ in 0..n {
        let (typ, data, code) = if one_in(3) {
            (hs::DATA_END, payload(7, 0, max + 1 + below(300) as usize, true), 4)
        } else {
            (39 + below(89) as u8, junk(max), 1)
        };
        let _ = s.h.sync.send(typ, below(256) as u8, below(1 << 20), &data).await;
        let m = s.h.sync.recv().await;
        match &m {
            Ok(m) if m.typ == hs::ERROR && m.ctrl == code => {}
            _ => {
                fail!("C25", "error_answer", "client {tag}: {} in answer to message type {typ} with {} bytes during a device clear, Error {code} expected", show_msg(&m), data.len());
                return false;
            }
        }
        probe("error_during_clear");
        nontrivial();
    }
    if one_in(4) {
        // One that ends the session, without the clear
        let mut f = hframe(hs::CLEAR_COMPLETE, 0, 0, b"");
        f[below(2) as usize] ^= 1 << below(8);
        let _ = s.h.sync.conn.send(&f).await;
        fatal_end(tag, &s.h.sync, 1, "a malformed header during a device clear", "C25").await;
        simrt::time::sleep_ns(SEC).await;
        s.check_calls(true);
        return false;
    }
    let _ = s.h.sync.send(hs::CLEAR_COMPLETE, 0, 0, b"").await;
    match s.h.sync.recv().await {
        Ok(m) if m.typ == hs::CLEAR_ACK => {}
        x => {
            fail!("C25", "disturbed", "client {tag}: {} in place of DeviceClearAcknowledge after errors", show_msg(&x));
            return false;
        }
    }
    s.want.push(DevCall::Clear);
    if !s.barrier("C25").await {
        fail!("C25", "disturbed", "client {tag}: the session does not go on after errors during a device clear");
        return false;
    }
    true
}

// ------------------------------------------------------------------------------------------------
// Status while locked

pub async fn status(_c: Ctx) {
    let mut dev = SimDev::new(0);
    dev.slow = pick(&[0, 0, 1_000_000, 20_000_000]);
    let inst = Inst::with(dev);
    let srq = StatusSender::new();
    let _acc = srv::hislip(config(4096), PORT, &[("hislip0", &inst)], srq);
    if !srv::up(PORT).await {
        return;
    }
    // The lock is held until everybody has seen its status
    let waiting = Rc::new(Cell::new(0));
    let done = Rc::new(Cell::new(0));
    let n = 1 + below(3);
    let by_session = one_in(2);
    let (i2, d2, w2) = (inst.clone(), done.clone(), waiting.clone());
    let locked = Rc::new(Cell::new(false));
    let l2 = locked.clone();
    let key = pick(&[&b""[..], b"k"]);
    let locker = simrt::spawn_labeled("locker", async move {
        if by_session {
            let mut h = match Hislip::open(PORT, "", 0x0100, 50).await {
                Ok(h) => h,
                Err(e) => {
                    fail!("C12", "not_opened", "{e:?}");
                    return;
                }
            };
            match h.lock(0, key).await {
                Ok(1) => {}
                x => {
                    fail!("C24", "refused", "lock on a free device: {x:?}");
                    return;
                }
            }
            l2.set(true);
            let mut s = Sess::new(h, 50, 4096);
            while d2.get() < n {
                think(30).await;
                let ok = if one_in(2) { s.barrier("C18").await } else { s.status().await.is_ok() };
                if !ok {
                    return;
                }
            }
            s.h.close();
        } else {
            let mut h = LockHandle::new(i2.lock.clone(), i2.dev.clone());
            let _ = h.try_acquire(key);
            l2.set(true);
            settle(PATIENCE, || d2.get() >= n).await;
            drop(h);
        }
        drop(w2);
    });
    let _ = waiting;
    settle(60 * SEC, || locked.get()).await;
    let mut tasks = Vec::new();
    for tag in 1..=n {
        let (done, inst) = (done.clone(), inst.clone());
        tasks.push(simrt::spawn_labeled("client", async move {
            status_client(tag, inst, &done).await;
            done.set(done.get() + 1);
        }));
    }
    for t in tasks {
        t.await;
    }
    locker.await;
}

async fn status_client(tag: u32, inst: Inst, done: &Cell<u32>) {
    think(20).await;
    let h = match Hislip::open(PORT, "", 0x0100, tag).await {
        Ok(h) => h,
        Err(e) => {
            fail!("C12", "not_opened", "client {tag}: session not opened: {e:?}");
            return;
        }
    };
    let mut s = Sess::new(h, tag, 4096);
    let mut sent = 0;
    for _ in 0..1 + below(6) {
        match below(3) {
            0 if sent < 3 => {
                // Has to wait for the lock
                let c = s.make(b"QRW", 30, 60, 1000);
                if s.send(&c).await.is_err() {
                    fail!("C18", "session_ended", "client {tag}: connection ended while the device is locked");
                    return;
                }
                sent += 1;
            }
            1 => {
                if let Some(g) = inst.dev.try_lock() {
                    *g.stb.borrow_mut() = Some(below(256) as u8);
                }
            }
            _ => {
                let a = simrt::now();
                if s.status().await.is_err() {
                    return;
                }
                let took = simrt::now() - a;
                if took > 300 * SEC {
                    fail!("C18", "late", "client {tag}: the status response took {} s while another client held a lock", took / SEC);
                }
                nontrivial();
            }
        }
        think(20).await;
    }
    done.set(done.get() + 1);
    let r = s.drain("C10").await && s.barrier("C10").await;
    done.set(done.get() - 1);
    if r {
        s.check_calls(true);
    }
    s.h.close();
}
