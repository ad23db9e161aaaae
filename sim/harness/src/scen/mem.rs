//! Memory over long histories: rounds of the same activities, and the heap in use between them.
use super::any::{self, Any, Kind, PATH};
use super::vxi::NAMES;
use super::*;
use crate::clients::*;
use crate::srv::{self, Inst};
use crate::world::*;
use lxi_device::lock::LockHandle;
use lxi_device::status::Sender as StatusSender;
use simrt::time::timeout_ns;
use simrt::udp::UdpSocket;
use std::cell::{Cell, RefCell};
use std::future::poll_fn;
use std::rc::Rc;

const LIMIT: u64 = 300 * SEC;

struct Sh {
    inst: Inst,
    srq: RefCell<StatusSender>,
    hs: RefCell<Option<Any>>,
    vx: RefCell<Option<Any>>,
    line: RefCell<Option<Any>>,
    intr: Cell<u16>,
    seq: Cell<u32>,
    /// Somebody else holds the lock
    held: Cell<bool>,
    kinds: RefCell<Vec<Kind>>,
}

const ACTS: u32 = 20;

fn needs(act: u32) -> &'static [Kind] {
    match act {
        0 => &[Kind::Raw],
        1 => &[Kind::Unix],
        2 => &[Kind::Telnet],
        3 | 4 | 10 | 13 => &[Kind::Hislip],
        5 | 6 | 8 | 11 | 12 | 14 | 16 => &[Kind::Core],
        7 => &[Kind::Pmap],
        15 => &[Kind::Raw, Kind::Hislip, Kind::Core],
        17 => &[Kind::Telnet, Kind::Raw],
        _ => &[],
    }
}

/// Done while another client holds the lock
fn under_lock(act: u32) -> bool {
    matches!(act, 13..=16)
}

fn port_of(k: Kind) -> u16 {
    match k {
        Kind::Raw => 5025,
        Kind::Telnet => 5024,
        Kind::Hislip => 4880,
        Kind::Core => 4322,
        Kind::Async => 4323,
        Kind::Pmap => 111,
        _ => 0,
    }
}

type R = Result<(), String>;

fn s<E: std::fmt::Debug>(e: E) -> String {
    format!("{e:?}")
}

async fn session(k: Kind, tag: u32, n: u32) -> R {
    let mut a = Any::open(k, port_of(k), tag).await?;
    for _ in 0..n {
        a.ask(LIMIT).await?
    }
    a.leave();
    Ok(())
}

/// Take one interrupt connection and read what comes
fn receiver(port: u16, udp: bool) -> simrt::Task<()> {
    if udp {
        let u = UdpSocket::bind(addr(port)).unwrap();
        return simrt::spawn_labeled("intr-udp", async move {
            let mut b = vec![0; 200];
            loop {
                let _ = u.recv_from(&mut b).await;
            }
        });
    }
    let l = simrt::net::TcpListener::bind(addr(port)).unwrap();
    simrt::spawn_labeled("intr-tcp", async move {
        while let Ok(c) = poll_fn(|cx| l.poll_accept(cx)).await {
            let mut b = vec![0; 200];
            while let Ok(n) = c.read(&mut b).await {
                if n == 0 {
                    break;
                }
            }
        }
    })
}

async fn act(act: u32, tag: u32, sh: &Rc<Sh>) -> R {
    let next = |n: u32| {
        let v = sh.seq.get();
        sh.seq.set(v.wrapping_add(n));
        v
    };
    match act {
        0 => session(Kind::Raw, tag, 2).await?,
        1 => session(Kind::Unix, tag, 1).await?,
        2 => session(Kind::Telnet, tag, 1).await?,
        3 => {
            let mut a = Any::open(Kind::Hislip, port_of(Kind::Hislip), tag).await?;
            if one_in(2) {
                a.ask(LIMIT).await?
            }
            if one_in(2) {
                let h = a.hislip().unwrap();
                let _ = h.lock(100, pick(&[&b""[..], b"k"])).await.map_err(s)?;
            }
            a.leave();
        }
        4 => {
            // Sessions that come to nothing
            let p = port_of(Kind::Hislip);
            match below(4) {
                0 => {
                    let (c, _) = Hislip::init_sync(p, b"", 0x200, tag).await.map_err(s)?;
                    c.conn.leave();
                }
                1 => {
                    let _ = Hislip::init_sync(p, b"unknown", 0x200, tag).await;
                }
                2 => {
                    let _ = Hislip::init_async(p, 0xffff, tag).await;
                }
                _ => {
                    let c = Conn::open(addr(p), tag).await.map_err(s)?;
                    let _ = c.send(&hframe(hs::DATA_END, 0, 0, b"x")).await;
                    c.until_end().await;
                    c.leave();
                }
            }
        }
        5 => {
            let mut v = Vxi::open(port_of(Kind::Core), tag).await.map_err(s)?;
            for i in 0..1 + below(3) {
                let x = v.create(i as i32, one_in(3), 0, NAMES[0]).await.map_err(s)?;
                if x[0] == 0 && one_in(3) {
                    let _ = v.simple(vx::LOCK, &a_lock(x[1], 0, 0)).await.map_err(s)?;
                }
                if x[0] == 0 && one_in(2) {
                    let _ = v.simple(vx::DESTROY_LINK, &u32b(x[1])).await.map_err(s)?;
                }
            }
            v.rpc.conn.leave();
        }
        6 => {
            let udp = one_in(2);
            let p = sh.intr.get();
            sh.intr.set(if p > 60_000 { 20_000 } else { p + 1 });
            let r = receiver(p, udp);
            let mut v = Vxi::open(port_of(Kind::Core), tag).await.map_err(s)?;
            let lid = v.link(NAMES[0]).await.map_err(s)?;
            let e = v.simple(vx::CREATE_INTR, &a_intr(0x7f00_0001, p, vx::INTR, 1, udp as u32)).await.map_err(s)?;
            if e != 0 {
                return Err(format!("create_intr_chan answered {e}"));
            }
            v.simple(vx::ENABLE_SRQ, &a_srq(lid, true, b"handle")).await.map_err(s)?;
            sh.srq.borrow().clone().send_status(0x40);
            think(20).await;
            match below(4) {
                0 => drop(v.simple(vx::DESTROY_LINK, &u32b(lid)).await.map_err(s)?),
                1 => drop(v.simple(vx::DESTROY_INTR, &[]).await.map_err(s)?),
                2 => drop(v.simple(vx::ENABLE_SRQ, &a_srq(lid, false, b"")).await.map_err(s)?),
                _ => {}
            }
            v.rpc.conn.leave();
            think(20).await;
            r.cancel_now();
        }
        7 => {
            session(Kind::Pmap, tag, 1).await?;
            let u = UdpSocket::bind("127.0.0.1:0".parse().unwrap()).unwrap();
            let mut q = rpc_call(tag, super::rpc::PMAP, 2, 3, &[0; 16]);
            if one_in(4) {
                q.truncate(below(q.len() as u32) as usize)
            }
            let _ = u.send_to(&q, Some(addr(111)));
            let mut b = [0; 64];
            let _ = timeout_ns(SEC, u.recv_from(&mut b)).await;
        }
        8 => session(Kind::Async, tag, 2).await?,
        9 => {
            // Handles of the application itself
            let mut h = LockHandle::new(sh.inst.lock.clone(), sh.inst.dev.clone());
            match below(3) {
                0 => {
                    let _ = h.try_acquire(pick(&[&b""[..], b"k"]));
                }
                1 => {
                    let _ = timeout_ns(5 * MS, h.async_acquire(pick(&[&b""[..], b"k", b"m"]))).await;
                }
                _ => {
                    let _ = h.try_release();
                }
            }
            if one_in(2) {
                let _ = timeout_ns(5 * MS, h.async_lock()).await;
            }
        }
        10 => {
            let mut g = sh.hs.borrow_mut().take();
            if let Some(a) = g.as_mut() {
                match below(5) {
                    0 => a.ask(LIMIT).await?,
                    1 => {
                        let h = a.hislip().unwrap();
                        let key = pick(&[&b""[..], b"k"]);
                        let r = h.lock(10, key).await.map_err(s)?;
                        if r == 1 {
                            h.unlock(0xffff_ff00).await.map_err(s)?;
                        }
                    }
                    2 => {
                        let h = a.hislip().unwrap();
                        let m = h.acall(hs::ACLEAR, 0, 0, b"", hs::ACLEAR_ACK).await.map_err(s)?;
                        h.sync.send(hs::CLEAR_COMPLETE, m.ctrl, 0, b"").await.map_err(s)?;
                        let m = h.sync.recv().await.map_err(s)?;
                        if m.typ != hs::CLEAR_ACK {
                            return Err(format!("{m:?} in place of DeviceClearAcknowledge"));
                        }
                    }
                    3 => {
                        let h = a.hislip().unwrap();
                        h.status(0, 0xffff_ff00).await.map_err(s)?;
                        h.info().await.map_err(s)?;
                    }
                    _ => {
                        sh.srq.borrow().clone().send_status(0x40);
                        think(5).await;
                        let h = a.hislip().unwrap();
                        h.status(0, 0xffff_ff00).await.map_err(s)?;
                    }
                }
                let h = a.hislip().unwrap();
                h.srqs = Vec::new();
            }
            *sh.hs.borrow_mut() = g;
        }
        11 | 12 => {
            let mut g = sh.vx.borrow_mut().take();
            if let Some(a) = g.as_mut() {
                let k = if act == 11 { below(4) } else { 4 + below(3) };
                if k == 0 {
                    a.ask(LIMIT).await?
                } else {
                    let (v, lid) = a.vxi().unwrap();
                    match k {
                        1 => {
                            let x = v.create(1, one_in(3), 0, pick(&[NAMES[0], "nothing"])).await.map_err(s)?;
                            if x[0] == 0 {
                                v.simple(vx::DESTROY_LINK, &u32b(x[1])).await.map_err(s)?;
                            }
                        }
                        2 => {
                            let r = v.simple(vx::LOCK, &a_lock(lid, 0, 0)).await.map_err(s)?;
                            if r == 0 {
                                v.simple(vx::UNLOCK, &u32b(lid)).await.map_err(s)?;
                            }
                        }
                        3 => {
                            // Written, but never ended or read
                            let c = make_cmd(tag, 1, b"Q", 5, 30, 0, b"").bytes;
                            v.write(lid, LIMIT as u32 / 1_000_000, vx::WAITLOCK | vx::END, &c).await.map_err(s)?;
                            v.write(lid, LIMIT as u32 / 1_000_000, vx::WAITLOCK, b"xyz").await.map_err(s)?;
                            v.simple(vx::CLEAR, &a_generic(lid, vx::WAITLOCK, 100_000)).await.map_err(s)?;
                        }
                        4 => {
                            let udp = one_in(2);
                            let p = sh.intr.get();
                            sh.intr.set(if p > 60_000 { 20_000 } else { p + 1 });
                            let t = receiver(p, udp);
                            let e = v.simple(vx::CREATE_INTR, &a_intr(0x7f00_0001, p, vx::INTR, 1, udp as u32)).await.map_err(s)?;
                            if e == 0 {
                                v.simple(vx::ENABLE_SRQ, &a_srq(lid, true, b"handle")).await.map_err(s)?;
                                sh.srq.borrow().clone().send_status(0x40);
                                think(20).await;
                                v.simple(vx::DESTROY_INTR, &[]).await.map_err(s)?;
                                v.simple(vx::ENABLE_SRQ, &a_srq(lid, false, b"")).await.map_err(s)?;
                            }
                            t.cancel_now();
                        }
                        5 => {
                            // No such port
                            v.simple(vx::CREATE_INTR, &a_intr(0x7f00_0001, 9, vx::INTR, 1, 0)).await.map_err(s)?;
                        }
                        _ => {
                            for on in [true, true, false] {
                                v.simple(vx::ENABLE_SRQ, &a_srq(lid, on, pick(&[&b"h"[..], b"another"]))).await.map_err(s)?;
                            }
                        }
                    }
                }
            }
            *sh.vx.borrow_mut() = g;
        }
        13 => {
            let mut g = sh.hs.borrow_mut().take();
            if let Some(a) = g.as_mut() {
                let h = a.hislip().unwrap();
                let r = h.lock(pick(&[0, 0, 5, 50]), pick(&[&b""[..], b"k", b"m"])).await.map_err(s)?;
                if r == 1 {
                    h.unlock(0xffff_ff00).await.map_err(s)?;
                }
            }
            *sh.hs.borrow_mut() = g;
        }
        14 => {
            let mut g = sh.vx.borrow_mut().take();
            if let Some(a) = g.as_mut() {
                let (v, lid) = a.vxi().unwrap();
                let (fl, to) = pick(&[(0, 0), (1, 0), (1, 5), (1, 40)]);
                match below(4) {
                    0 => drop(v.simple(vx::LOCK, &a_lock(lid, fl, to)).await.map_err(s)?),
                    1 => {
                        let x = v.create(1, true, to, NAMES[0]).await.map_err(s)?;
                        if x[0] == 0 {
                            v.simple(vx::DESTROY_LINK, &u32b(x[1])).await.map_err(s)?;
                        }
                    }
                    2 => drop(v.stb(lid, fl, to).await.map_err(s)?),
                    _ => drop(v.simple(vx::TRIGGER, &a_generic(lid, fl, to)).await.map_err(s)?),
                }
                if sh.held.get() && v.simple(vx::UNLOCK, &u32b(lid)).await.map_err(s)? == 0 {
                    return Err("a lock was granted that is held".to_string());
                }
            }
            *sh.vx.borrow_mut() = g;
        }
        15 => {
            // Leaves while its request waits
            let c = make_cmd(tag, 1, b"W", 5, 0, 0, b"\n").bytes;
            match below(3) {
                0 => {
                    let o = Conn::open(addr(port_of(Kind::Raw)), tag).await.map_err(s)?;
                    let _ = o.send(&[&c[..], b"\n"].concat()).await;
                    think(10).await;
                    o.leave();
                }
                1 => {
                    let h = Hislip::open(port_of(Kind::Hislip), "", 0x100, tag).await.map_err(s)?;
                    if one_in(2) {
                        let _ = h.command(0xffff_ff00, &c, 4000).await;
                    } else {
                        let _ = h.asy.send(hs::LOCK, 1, 1000, b"").await;
                    }
                    think(10).await;
                    h.close();
                }
                _ => {
                    let mut v = Vxi::open(port_of(Kind::Core), tag).await.map_err(s)?;
                    let lid = v.link(NAMES[0]).await.map_err(s)?;
                    let _ = if one_in(2) {
                        v.rpc.send_call(vx::LOCK, &a_lock(lid, 1, 1000)).await
                    } else {
                        v.rpc.send_call(vx::WRITE, &a_write(lid, 1000, vx::WAITLOCK | vx::END, &c)).await
                    };
                    think(10).await;
                    v.rpc.conn.leave();
                }
            }
        }
        16 => {
            // Aborted
            let mut v = Vxi::open(port_of(Kind::Core), tag).await.map_err(s)?;
            let lid = v.link(NAMES[0]).await.map_err(s)?;
            v.rpc.send_call(vx::LOCK, &a_lock(lid, 1, 2000)).await.map_err(s)?;
            think(10).await;
            let mut r = Rpc::open(addr(4323), vx::ASYNC, tag + ATAG).await.map_err(s)?;
            for _ in 0..1 + below(3) {
                r.ok(1, &u32b(lid)).await.map_err(s)?;
            }
            v.rpc.recv().await.map_err(s)?;
            if one_in(2) {
                v.simple(vx::DESTROY_LINK, &u32b(lid)).await.map_err(s)?;
            }
            v.rpc.conn.leave();
            r.conn.leave();
        }
        17 => {
            let mut g = sh.line.borrow_mut().take();
            if let Some(a) = g.as_mut() {
                a.ask(LIMIT).await?
            }
            *sh.line.borrow_mut() = g;
        }
        19 => {
            // Bytes that mean little
            let k = pick(&sh.kinds.borrow()[..]);
            let c = match k {
                Kind::Unix => Conn::open_path(PATH, tag).await,
                k => Conn::open(addr(port_of(k)), tag).await,
            };
            let c = c.map_err(s)?;
            for _ in 0..1 + below(4) {
                let b = super::chaos::junk(k, super::chaos::Role::Other, &Default::default(), 0);
                let _ = timeout_ns(SEC, c.send(&b)).await;
            }
            think(10).await;
            c.leave();
        }
        _ => {
            // Receivers of status events come and go
            let r = sh.srq.borrow().clone().get_new_receiver();
            for _ in 0..below(5) {
                sh.srq.borrow().clone().send_status(0x40);
            }
            drop(r);
            if one_in(2) {
                sh.srq.borrow().clone().send_status(0x40);
            }
        }
    }
    let _ = next(1);
    Ok(())
}

/// Forget what arrived on its own
fn drain(sh: &Sh) {
    if let Some(a) = sh.hs.borrow_mut().as_mut() {
        let h = a.hislip().unwrap();
        h.srqs = Vec::new();
        h.asy.conn.forget();
        h.sync.conn.forget();
    }
}

async fn round(menu: &[(u32, u32)], parallel: bool, sh: &Rc<Sh>, no: u32) -> R {
    let mut holder = LockHandle::new(sh.inst.lock.clone(), sh.inst.dev.clone());
    for pass in 0..2 {
        let under = pass == 1;
        let list: Vec<(u32, u32)> = menu.iter().filter(|m| under_lock(m.0) == under).cloned().collect();
        if list.is_empty() {
            continue;
        }
        if under {
            let key = pick(&[&b""[..], b"", b"k"]);
            if timeout_ns(60 * SEC, holder.async_acquire(key)).await.is_none() {
                return Err("the lock stays taken after everyone has gone".into());
            }
            sh.held.set(key.is_empty());
        }
        let mut tasks = Vec::new();
        let mut tag = 100 + no % 2 * 100;
        for (a, n) in list {
            for _ in 0..n {
                tag += 1;
                let (sh, t) = (sh.clone(), tag);
                let f = async move { act(a, t, &sh).await.map_err(|e| format!("activity {a}: {e}")) };
                if parallel && a < 9 {
                    tasks.push(simrt::spawn_labeled("act", f));
                } else {
                    f.await?;
                }
            }
        }
        for t in tasks {
            t.await?;
        }
        if under {
            holder.force_release();
            sh.held.set(false);
        }
    }
    drop(holder);
    simrt::time::sleep_ns(10 * SEC).await;
    drain(sh);
    simrt::time::sleep_ns(SEC).await;
    Ok(())
}

pub async fn run(_c: Ctx) {
    let base = simrt::alloc::live();
    let inst = Inst::new(0);
    let srq = StatusSender::new();
    let sh = Rc::new(Sh {
        inst: inst.clone(),
        srq: RefCell::new(srq.clone()),
        hs: RefCell::new(None),
        vx: RefCell::new(None),
        line: RefCell::new(None),
        intr: Cell::new(20_000),
        seq: Cell::new(0),
        held: Cell::new(false),
        kinds: RefCell::default(),
    });
    let mut menu: Vec<(u32, u32)> = Vec::new();
    for _ in 0..1 + below(3) {
        let a = below(ACTS);
        if !menu.iter().any(|m| m.0 == a) {
            menu.push((a, 1 + below(4)));
        }
    }
    let mut kinds: Vec<Kind> = Vec::new();
    for (a, _) in &menu {
        for k in needs(*a) {
            if !kinds.contains(k) {
                kinds.push(*k)
            }
        }
    }
    if menu.iter().any(|m| m.0 == 19) && kinds.is_empty() {
        kinds.push(pick(&[Kind::Raw, Kind::Unix, Kind::Telnet, Kind::Hislip, Kind::Core, Kind::Pmap]));
    }
    *sh.kinds.borrow_mut() = kinds.clone();
    let mut servers = Vec::new();
    for k in &kinds {
        let port = port_of(*k);
        servers.push(any::start(*k, port, 4323, 64, &inst, &srq));
        if *k == Kind::Unix {
            if !srv::up_path(PATH).await {
                return;
            }
        } else if !srv::up(port).await {
            return;
        }
    }
    simrt::time::sleep_ns(MS).await;
    // Clients that stay
    for (k, c) in [(Kind::Hislip, &sh.hs), (Kind::Core, &sh.vx), (Kind::Telnet, &sh.line)] {
        if kinds.contains(&k) {
            match Any::open(k, port_of(k), k as u32 + 1).await {
                Ok(mut a) => {
                    if let Err(e) = a.ask(LIMIT).await {
                        fail!("C17", "activity", "client that stays: {e}");
                        return;
                    }
                    *c.borrow_mut() = Some(a)
                }
                Err(e) => {
                    fail!("C17", "activity", "client that stays: {e}");
                    return;
                }
            }
        }
    }
    let parallel = one_in(3);
    let mut lives: Vec<i64> = Vec::new();
    let mut grown = 0;
    let mut n = 24;
    // Rounds from n/6 to n/3 against the last sixth; what only fills up its buffers stops growing
    loop {
        while lives.len() < n {
            if let Err(e) = round(&menu, parallel, &sh, lives.len() as u32).await {
                // Other properties say whether that is right
                simrt::simlog!("round {} ended: {e}", lives.len());
                probe("activity_failed");
                return;
            }
            simrt::alloc::uncounted(|| lives.push(simrt::alloc::live() - base));
            simrt::simlog!("round {}: {} bytes", lives.len(), lives[lives.len() - 1]);
        }
        let early = *lives[n / 6..n / 3].iter().max().unwrap();
        let late = *lives[n - n / 6..].iter().min().unwrap();
        let g = late - early;
        simrt::simlog!("{n} rounds of {menu:?}: {early} bytes, then {late}");
        nontrivial();
        if g <= 48 || g * 2 < grown * 3 {
            break;
        }
        probe("grew_once");
        grown = g;
        n *= 3;
        if n > 24 * 27 {
            // Buffers that fill up once in a while do not come to that much
            if g < 1500 {
                break;
            }
            fail!("C17", "grows", "memory in use grows with the number of rounds of activities {menu:?}: after {} rounds {late} bytes more than after {} to {} by {g}", n / 3, n / 18, n / 9);
            break;
        }
    }
}
