//! Clients that send anything and go in any way, beside clients that behave.
use super::any::{self, Any, Kind, KINDS, PATH};
use super::*;
use crate::clients::*;
use crate::srv::{self, Inst};
use crate::world::*;
use lxi_device::status::Sender as StatusSender;
use simrt::time::timeout_ns;
use simrt::udp::UdpSocket;
use simrt::Stream;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

const LIMIT: u64 = 120 * SEC;

fn port_of(k: Kind) -> u16 {
    match k {
        Kind::Raw => 5025,
        Kind::Telnet => 5024,
        Kind::Hislip => 4880,
        Kind::Core => 4322,
        Kind::Async => 4323,
        Kind::Pmap | Kind::Udp => 111,
        Kind::Unix => 0,
    }
}

#[derive(Default)]
pub struct Sh {
    /// Sessions whose two channels both exist
    sessions: RefCell<Vec<u16>>,
    over: Cell<bool>,
}

fn f(n: u32) -> u32 {
    simrt::choose(Stream::Fault, n)
}

/// Bytes that mean nothing; never the start of a HiSLIP message
fn noise(n: usize) -> Vec<u8> {
    let style = f(3);
    (0..n)
        .map(|i| {
            let b = match style {
                0 => simrt::choose(Stream::Fault, 256) as u8,
                1 => fpick(&[0u8, 0xff, 0x80, b'\n', b'\r', 0x7f]),
                _ => (i as u8).wrapping_mul(31) ^ 0x55,
            };
            if b == b'H' {
                b'h'
            } else {
                b
            }
        })
        .collect()
}

fn some_len() -> usize {
    match f(6) {
        0 => 0,
        1 => 1,
        2 | 3 => f(40) as usize,
        4 => f(600) as usize,
        _ => fpick(&[4096usize, 5000, 20_000]),
    }
}

fn word() -> u32 {
    match f(4) {
        0 => f(8),
        1 => fpick(&[u32::MAX, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 1 << 16, 0xff]),
        2 => f(65536),
        _ => f(256) << 24 | f(65536),
    }
}

/// Something the device answers
fn command() -> Vec<u8> {
    make_cmd(599, f(100), b"QE", 9, fpick(&[0u32, 1, 40, 2000]), 100, b"\n\r\xff\0\x7f").bytes
}

/// A HiSLIP message whose fields need not fit; anything but a lock request
fn hislip_junk(role: Role, sh: &Sh) -> Vec<u8> {
    let mut typ = match f(5) {
        0 => f(256) as u8,
        1 => f(40) as u8,
        _ => fpick(&[
            hs::INIT, hs::INIT_R, hs::FATAL, hs::ERROR, hs::DATA, hs::DATA_END, hs::DATA_END, hs::CLEAR_COMPLETE, hs::CLEAR_ACK, hs::REMOTE,
            hs::TRIGGER, 13, 14, hs::MAXSIZE, hs::AINIT, hs::ACLEAR, hs::STATUS, hs::LOCKINFO, 27, 37, 128,
        ]),
    };
    let mut ctrl = word() as u8;
    if typ == hs::LOCK {
        // Only gives back what it does not have
        match role {
            Role::Async => ctrl = 0,
            _ => typ = hs::DATA_END,
        }
    }
    let mut d = noise(some_len());
    if typ == hs::DATA_END && f(2) == 0 {
        d = command()
    }
    if typ == hs::MAXSIZE && f(2) == 0 {
        d = (fpick(&[0u64, 1, 16, 17, 256, u64::MAX, 1 << 40])).to_be_bytes().to_vec();
    }
    let mut param = word();
    if typ == hs::AINIT {
        // Not one whose owner may still have to join
        param = match sh.sessions.borrow().last() {
            Some(x) if f(2) == 0 => *x as u32,
            _ => param | 1,
        };
    }
    let mut m = hframe(typ, ctrl, param, &d);
    if f(5) == 0 {
        let l = fpick(&[0u64, 1, d.len() as u64 + 1, d.len() as u64 + 20, 1 << 20, (1 << 20) + 1, 1 << 32, 1 << 40, 1 << 63, u64::MAX]);
        m[8..16].copy_from_slice(&l.to_be_bytes());
    }
    if f(12) == 0 {
        let i = f(2) as usize;
        m[i] ^= 0x20;
    }
    if f(8) == 0 {
        let l = f(m.len() as u32) as usize;
        m.truncate(l);
    }
    m
}

/// A call record that need not be one; never takes a lock
fn rpc_junk(prog: u32, lid: u32) -> Vec<u8> {
    let prog = if f(8) == 0 { word() } else { prog };
    let mut proc = match f(8) {
        0 => word(),
        1..=3 => fpick(&[1, vx::WRITE, vx::READ, vx::READ]),
        _ => f(28),
    };
    if proc == vx::LOCK {
        proc = 0
    }
    let l = if f(4) > 0 { lid } else { word() | 0x4000_0000 };
    let mut a = Vec::new();
    match if f(3) == 0 { 99 } else { proc } {
        1 => a.extend(u32b(if lid != 0 { l } else { word() | 0x4000_0000 })),
        vx::CREATE_LINK => a = a_create(word() as i32, false, word(), fpick(&["inst0", "inst0", "", "nothing", "\u{fffd}"])),
        vx::WRITE => a = match f(2) {
            0 => a_write(l, word(), word(), &noise(f(60) as usize)),
            _ => a_write(l, word(), word() | vx::END, &command()),
        },
        vx::READ => a = a_read(l, word(), word(), word(), word() as u8),
        vx::READSTB | vx::TRIGGER | vx::CLEAR | vx::REMOTE | vx::LOCAL => a = a_generic(l, word(), word()),
        vx::UNLOCK | vx::DESTROY_LINK => a.extend(u32b(l)),
        vx::ENABLE_SRQ => a = a_srq(l, f(3) > 0, &noise(f(50) as usize)),
        vx::CREATE_INTR => a = a_intr(0x7f00_0001, fpick(&[7777u16, 7778, 5025, 1]), fpick(&[vx::INTR, 0]), word(), f(3)),
        _ => {
            for _ in 0..f(9) {
                a.extend(u32b(word()))
            }
            a.extend(noise(f(9) as usize));
            if proc == vx::CREATE_LINK && a.len() > 4 {
                // Does not ask for a lock
                let e = a.len().min(8);
                a[4..e].fill(0);
            }
        }
    }
    if f(4) == 0 && a.len() >= 4 {
        // A length in it that is wrong
        let i = f(a.len() as u32 / 4) as usize * 4;
        let w = fpick(&[u32::MAX, 0x7fff_ffff, 0x8000_0000, 0x1000_0000, 0x10_0000]);
        if !(proc == vx::CREATE_LINK && i == 4) {
            a[i..i + 4].copy_from_slice(&u32b(w));
        }
    }
    let mut m = rpc_call(word(), prog, 1, proc, &a);
    if f(8) == 0 {
        let i = f(10) as usize * 4;
        if i != 20 {
            m[i..i + 4].copy_from_slice(&u32b(word()));
        }
    }
    if f(10) == 0 {
        let l = f(m.len() as u32) as usize;
        m.truncate(l);
    }
    let mut r = record(&m);
    if f(8) == 0 {
        // Fragment headers that lie
        r[..4].copy_from_slice(&u32b(fpick(&[0x8000_0000u32, 0, 0xffff_ffff, 0x7fff_ffff, 0x8010_0001, 0x8000_0001, 0x0000_0004])));
    }
    r
}

fn telnet_junk() -> Vec<u8> {
    let mut b = Vec::new();
    for _ in 0..1 + f(30) {
        match f(6) {
            5 => b.extend(command()),
            0 => b.extend([0xff, f(256) as u8]),
            1 => b.extend([0xff, 251 + f(4) as u8, fpick(&[0u8, 1, 3, 6, 24, 31, 34, 86, 87, 255])]),
            2 => {
                b.extend([0xff, 250, fpick(&[1u8, 24, 31, 34, 86, 87, 255])]);
                b.extend(noise(f(12) as usize));
                if f(2) == 0 {
                    b.extend([0xff, 240]);
                }
            }
            3 => b.extend(noise(f(30) as usize)),
            _ => b.extend(b"\r\n"),
        }
    }
    b
}

pub fn junk(kind: Kind, role: Role, sh: &Sh, lid: u32) -> Vec<u8> {
    match kind {
        _ if f(8) == 0 => noise(some_len()),
        Kind::Raw | Kind::Unix => {
            let mut b = noise(some_len());
            if f(4) == 0 {
                b = command()
            }
            if f(2) == 0 {
                b.push(b'\n')
            }
            b
        }
        Kind::Telnet => telnet_junk(),
        Kind::Hislip => hislip_junk(role, sh),
        Kind::Core => rpc_junk(vx::CORE, lid),
        Kind::Async => rpc_junk(vx::ASYNC, lid),
        Kind::Pmap | Kind::Udp => rpc_junk(super::rpc::PMAP, 0),
    }
}

/// What a hostile connection is to its server
#[derive(Clone, Copy, PartialEq)]
pub enum Role {
    Other,
    /// HiSLIP before initialization
    Pre,
    Sync,
    Async,
}

/// Many requests whose answers nobody reads
fn flood(kind: Kind, role: Role, tag: u32, lid: u32) -> Vec<u8> {
    let mut b = Vec::new();
    let cap = simrt::with(|s| s.net.cfg.cap) as u32;
    let mut n = 30;
    match role {
        Role::Async => n = (cap / 16 + f(4)).min(300),
        Role::Pre => n = (cap / 69).min(1000),
        _ => {}
    }
    // All alike, or mixed
    let mut alike = f(2) == 0;
    let mut one = f(8);
    let exact = role == Role::Sync && f(2) == 0;
    if exact {
        // As many answers of about this size as just fit
        alike = true;
        one = f(3);
        n = (cap / [57, 41, 73][one as usize] + f(3)).saturating_sub(1).min(300);
    }
    for i in 0..n {
        let c = make_cmd(tag, i, b"Q", 5, 1500, 0, b"\n\r\xff\0\x7f").bytes;
        let which = if alike { one } else { f(8) };
        match kind {
            Kind::Raw | Kind::Unix => {
                b.extend(c);
                b.push(b'\n')
            }
            Kind::Telnet => match which {
                0 => b.extend([0xff, 246]),
                1 => b.extend([0xff, 253, 99]),
                _ => {
                    b.extend(c);
                    b.extend(b"\r\n")
                }
            },
            Kind::Hislip => match (role, which) {
                (Role::Pre, _) => b.extend(hframe(128 + which as u8, 0, 0, b"")),
                (Role::Async, 0) => b.extend(hframe(hs::LOCK, 0, i * 2, b"")),
                (Role::Async, 1) => b.extend(hframe(hs::LOCKINFO, 0, 0, b"")),
                (Role::Async, 2) => b.extend(hframe(hs::MAXSIZE, 0, 0, &1000u64.to_be_bytes())),
                (Role::Async, 3) => b.extend(hframe(hs::REMOTE, f(8) as u8, 0, b"")),
                (Role::Async, 4) => b.extend(hframe(200, 0, 0, b"")),
                (Role::Async, 5) => b.extend(hframe(hs::ACLEAR, 0, 0, b"")),
                (Role::Async, _) => b.extend(hframe(hs::STATUS, 0, i * 2, b"")),
                (_, 0) => b.extend(hframe(200, 0, i * 2, b"")),
                (_, 1) => b.extend(hframe(99, 0, i * 2, b"")),
                (_, 2) => b.extend(hframe(hs::CLEAR_COMPLETE, 0, i * 2, b"")),
                _ => b.extend(hframe(hs::DATA_END, 0, i * 2, &c)),
            },
            Kind::Core => {
                b.extend(record(&rpc_call(i, vx::CORE, 1, vx::WRITE, &a_write(lid, 1000, vx::END, &c))));
                b.extend(record(&rpc_call(i, vx::CORE, 1, vx::READ, &a_read(lid, 5000, 1000, 0, 0))));
            }
            Kind::Async => b.extend(record(&rpc_call(i, vx::ASYNC, 1, 1, &u32b(if lid != 0 { lid } else { 0x7fff_ffff })))),
            Kind::Pmap | Kind::Udp => b.extend(record(&rpc_call(i, super::rpc::PMAP, 2, 4, &[]))),
        }
    }
    if kind == Kind::Hislip && matches!(role, Role::Sync | Role::Async) && (exact || f(3) == 0) {
        // The answer that ends the session no longer fits
        b.extend(match f(3) {
            0 | 1 if role == Role::Sync => hframe(fpick(&[28u8, 31, 34, 36, 37]), 0, 0, b""),
            0 | 1 => hframe(fpick(&[29u8, 32]), 0, 0, b"abc"),
            _ => b"no message header".to_vec(),
        });
    }
    if role == Role::Pre {
        // An answer that no longer fits
        b.extend(match f(3) {
            0 => hframe(hs::AINIT, 0, word() | 1, b""),
            1 => hframe(hs::INIT, 0, word(), b"nothing"),
            _ => hframe(hs::INIT, 0, word(), b""),
        });
    }
    b
}

enum Fate {
    Goes,
    Stays,
}

/// What one hostile connection does next, with its fate when that was the last thing
async fn torment(kind: Kind, role: Role, c: &Conn, tag: u32, sh: &Sh, lid: u32) -> Option<Fate> {
    match f(12) {
        0..=3 => {
            let b = junk(kind, role, sh, lid);
            let _ = timeout_ns(3 * SEC, c.send(&b)).await;
            simrt::count("hostile_bytes");
        }
        4 | 5 => {
            c.pause(true);
            simrt::count("hostile_not_reading");
            let b = flood(kind, role, tag, lid);
            let _ = timeout_ns(3 * SEC, c.send(&b)).await;
        }
        6 => c.pause(f(2) == 0),
        7 => think(3000).await,
        8 => {
            // A long line or message without an end
            let b = match kind {
                Kind::Hislip => {
                    let mut m = hframe(hs::DATA, 0, 0, &noise(30_000));
                    m[8..16].copy_from_slice(&100_000u64.to_be_bytes());
                    m
                }
                Kind::Raw | Kind::Unix | Kind::Telnet => vec![b'x'; 30_000],
                _ => {
                    let mut m = u32b(0x8000_8000).to_vec();
                    m.extend(noise(30_000));
                    m
                }
            };
            let _ = timeout_ns(3 * SEC, c.send(&b)).await;
        }
        9 => {
            simrt::count("client_half_close");
            let _ = c.clone_out().shutdown(std::net::Shutdown::Write);
        }
        10 => {
            simrt::count("client_reset");
            c.abort();
            return Some(Fate::Goes);
        }
        _ => {
            if f(2) == 0 {
                c.clone_out().vanish();
                return Some(Fate::Stays);
            }
            return Some(Fate::Goes);
        }
    }
    if f(3) == 0 {
        think(200).await
    }
    None
}

async fn hostile(kind: Kind, tag: u32, sh: Rc<Sh>) -> Vec<Conn> {
    if kind == Kind::Udp {
        datagrams().await;
        return vec![];
    }
    let mut keep = Vec::new();
    let port = port_of(kind);
    for k in 0..1 + f(2) {
        let tag = tag + k;
        let mut v = Vec::new();
        let mut lid = 0;
        let proper = f(2) == 0;
        match kind {
            Kind::Hislip if proper => match timeout_ns(LIMIT, Hislip::open(port, "", 0x200, tag)).await {
                Some(Ok(mut h)) => {
                    if f(3) == 0 {
                        let _ = h.max_size(fpick(&[0u64, 1, 16, 40, 1 << 20, u64::MAX])).await;
                    }
                    if f(3) == 0 {
                        // A clear that is not completed
                        let _ = h.asy.send(hs::ACLEAR, 0, 0, b"").await;
                    }
                    v = vec![h.sync.conn, h.asy.conn];
                }
                _ => continue,
            },
            Kind::Core if proper => match Vxi::open(port, tag).await {
                Ok(mut x) => {
                    match timeout_ns(LIMIT, x.create(1, false, 0, "inst0")).await {
                        Some(Ok(r)) => lid = r[1],
                        _ => continue,
                    }
                    if f(2) == 0 {
                        // An interrupt channel that leads nowhere
                        let p = fpick(&[7777u16, 7778]);
                        let a = a_intr(0x7f00_0001, p, vx::INTR, 1, 0);
                        let _ = timeout_ns(LIMIT, x.rpc.call(vx::CREATE_INTR, &a)).await;
                        let _ = timeout_ns(LIMIT, x.rpc.call(vx::ENABLE_SRQ, &a_srq(lid, true, b"h"))).await;
                        simrt::count("hostile_interrupt_channel");
                    }
                    v = vec![x.rpc.conn];
                    if f(2) == 0 {
                        // Aborts what happens on that link
                        v.extend(Conn::open(addr(4323), tag).await.ok());
                    }
                }
                _ => continue,
            },
            Kind::Async if proper => match Vxi::open(4322, tag).await {
                Ok(mut x) => {
                    match timeout_ns(LIMIT, x.create(1, false, 0, "inst0")).await {
                        Some(Ok(r)) => lid = r[1],
                        _ => continue,
                    }
                    v = vec![x.rpc.conn];
                    v.extend(Conn::open(addr(port), tag).await.ok());
                }
                _ => continue,
            },
            Kind::Unix => v.extend(Conn::open_path(PATH, tag).await.ok()),
            _ => v.extend(Conn::open(addr(port), tag).await.ok()),
        }
        let role = |i| match (kind, proper, i) {
            (Kind::Hislip, false, _) => Role::Pre,
            (Kind::Hislip, true, 0) => Role::Sync,
            (Kind::Hislip, true, _) => Role::Async,
            _ => Role::Other,
        };
        let on = |i| match (kind, i) {
            (Kind::Core, 1) => Kind::Async,
            (Kind::Async, 0) if proper => Kind::Core,
            (k, _) => k,
        };
        // One after the other, or both channels of a session in turn
        let mut fates: Vec<Option<Fate>> = v.iter().map(|_| None).collect();
        let in_turn = f(2) == 0;
        let mut i = 0;
        for _ in 0..v.len() as u32 * (1 + f(7)) {
            if v.len() > 1 && (in_turn || fates[i].is_some()) {
                i = f(v.len() as u32) as usize;
            }
            if fates[i].is_none() {
                fates[i] = torment(on(i), role(i), &v[i], tag, &sh, lid).await;
            }
        }
        for (c, fate) in v.into_iter().zip(fates) {
            match fate {
                Some(Fate::Goes) => c.leave(),
                Some(Fate::Stays) => keep.push(c),
                None if f(4) == 0 || c.paused() && f(4) > 0 => {
                    simrt::count("hostile_stalls");
                    keep.push(c)
                }
                None => c.leave(),
            }
        }
    }
    keep
}

async fn datagrams() {
    let s = UdpSocket::bind("127.0.0.1:0".parse().unwrap()).unwrap();
    for _ in 0..1 + f(6) {
        let mut b = rpc_junk(super::rpc::PMAP, 0);
        if f(4) > 0 {
            b.drain(..4);
        }
        let _ = s.send_to(&b, Some(addr(111)));
        think(50).await;
    }
    simrt::count("hostile_datagrams");
}

/// Ask on the other channel or for the status
async fn aside(a: &mut Any, lock: bool) -> Result<(), String> {
    let s = |e: End| format!("{e:?}");
    if let Some(h) = a.hislip() {
        if lock {
            let r = h.lock(100_000, b"").await.map_err(s)?;
            if r != 1 {
                return Err(format!("a lock request of 100 s was answered with {r}"));
            }
            a.ask(LIMIT).await?;
            let h = a.hislip().unwrap();
            // The release is due when what was sent before has been carried out
            let r = h.unlock(0xffff_ff00).await.map_err(s)?;
            return if r == 1 { Ok(()) } else { Err(format!("a release was answered with {r}")) };
        }
        let r = h.status(0, 0xffff_ff00).await.map_err(s)?;
        return if r & !0x10 == 0 { Ok(()) } else { Err(format!("status {r:#x}")) };
    }
    if let Some((v, lid)) = a.vxi() {
        if lock {
            let r = v.simple(vx::LOCK, &a_lock(lid, vx::WAITLOCK, 100_000)).await.map_err(s)?;
            if r != 0 {
                return Err(format!("a lock request of 100 s was answered with error {r}"));
            }
            a.ask(LIMIT).await?;
            let (v, lid) = a.vxi().unwrap();
            let r = v.simple(vx::UNLOCK, &u32b(lid)).await.map_err(s)?;
            return if r == 0 { Ok(()) } else { Err(format!("a release was answered with error {r}")) };
        }
        let r = v.stb(lid, vx::WAITLOCK, 100_000).await.map_err(s)?;
        return if (r.0, r.1 & !0x10) == (0, 0) { Ok(()) } else { Err(format!("status {r:?}")) };
    }
    Ok(())
}

async fn good(kind: Kind, tag: u32, sh: Rc<Sh>) {
    think(50).await;
    let mut a = match timeout_ns(LIMIT, Any::open(kind, port_of(kind), tag)).await {
        Some(Ok(a)) => a,
        x => {
            fail!("C15", "not_served", "{kind:?} client {tag}: {:?}", x.map(|r| r.err()));
            return;
        }
    };
    if let Some(h) = a.hislip() {
        sh.sessions.borrow_mut().push(h.id);
    }
    a.size = pick(&[20, 200, 3000]);
    let mut n = 0;
    loop {
        // Lengths and kinds of requests vary
        if let Err(e) = a.ask(LIMIT).await {
            fail!("C15", "not_served", "{kind:?} client {tag}, request {n}: {e}");
            return;
        }
        n += 1;
        if one_in(3) {
            match timeout_ns(LIMIT, aside(&mut a, one_in(3))).await {
                Some(Ok(())) => {}
                x => {
                    fail!("C15", "not_served", "{kind:?} client {tag}, after request {n}: {}", x.map_or(format!("no answer in {} s", LIMIT / SEC), |r| r.unwrap_err()));
                    return;
                }
            }
        }
        if n >= 40 || (sh.over.get() && n >= 3) {
            break;
        }
        think(if n > 10 { 2000 } else { 100 }).await;
    }
    a.leave();
}

pub async fn run(_c: Ctx) {
    let mut dev = SimDev::new(0);
    dev.slow = pick(&[0, 0, 1_000_000]);
    let inst = Inst::with(dev);
    let mut srq = StatusSender::new();
    let sh: Rc<Sh> = Rc::default();
    // Two or three servers
    let mut kinds: Vec<Kind> = Vec::new();
    for _ in 0..2 + below(2) {
        let k = pick(&[&KINDS[..], &[Kind::Udp]].concat()[..]);
        if !kinds.contains(&k) {
            kinds.push(k)
        }
    }
    if kinds.contains(&Kind::Core) && kinds.contains(&Kind::Async) {
        kinds.retain(|k| *k != Kind::Async)
    }
    // Nobody reads what arrives here
    let _nowhere: Vec<_> = [7777u16, 7778].iter().map(|p| simrt::net::TcpListener::bind(addr(*p)).unwrap()).collect();
    let mut servers = Vec::new();
    for k in &kinds {
        if *k == Kind::Udp && kinds.contains(&Kind::Pmap) {
            continue;
        }
        let (port, port2) = match k {
            Kind::Core => (4322, 4323),
            Kind::Async => (4323, 4322),
            k => (port_of(*k), 0),
        };
        servers.push(any::start(*k, port, port2, 64, &inst, &srq));
        if *k == Kind::Unix {
            if !srv::up_path(PATH).await {
                return;
            }
        } else if !srv::up(port).await {
            return;
        }
    }
    simrt::time::sleep_ns(MS).await;
    let mut bad = Vec::new();
    for i in 0..1 + f(3) {
        let (k, sh) = (pick(&kinds), sh.clone());
        bad.push(simrt::spawn_labeled("hostile", async move {
            think(100).await;
            hostile(k, 500 + 10 * i, sh).await
        }));
    }
    let mut tasks = Vec::new();
    for i in 0..1 + below(3) {
        let (k, sh) = (pick(&kinds), sh.clone());
        tasks.push(simrt::spawn_labeled("client", good(k, 1 + i, sh)));
    }
    for _ in 0..f(8) {
        srq.send_status(fpick(&[0x40, 0x50, 0]));
        think(500).await;
    }
    let mut keep = Vec::new();
    for t in bad {
        keep.extend(t.await);
    }
    sh.over.set(true);
    for t in tasks {
        t.await;
    }
    if failed() {
        return;
    }
    // New clients are served as well
    for (i, k) in kinds.iter().enumerate() {
        let tag = 20 + i as u32;
        match timeout_ns(LIMIT, Any::open(*k, port_of(*k), tag)).await {
            Some(Ok(mut a)) => {
                for _ in 0..2 {
                    if let Err(e) = a.ask(LIMIT).await {
                        fail!("C15", "not_served", "new {k:?} client {tag}: {e}");
                        return;
                    }
                }
                a.leave();
            }
            x => {
                fail!("C15", "not_served", "new {k:?} client {tag}: {:?}", x.map(|r| r.err()));
                return;
            }
        }
    }
    nontrivial();
    let spun = simrt::longest_spin_ns();
    if spun > SEC {
        fail!("C15", "spinning", "an executor thread has been spinning on a lock for {} ms", spun / MS);
    }
    for s in &servers {
        if s.tasks.iter().any(|t| t.is_finished()) {
            fail!("C15", "ended", "{:?} server has ended", s.kind);
        }
    }
    // Nothing was executed for the connections of those that behave but what they asked for
    for o in ops(0) {
        if o.by > 0 && o.by < 400 {
            if let DevCall::Exec(b) = &o.call {
                if !b.starts_with(format!("Q{}.", o.by).as_bytes()) {
                    fail!("C15", "corrupted", "{} was executed for client {}", show(b), o.by);
                }
            } else if !matches!(o.call, DevCall::Status | DevCall::Remote(true)) {
                fail!("C15", "corrupted", "{} was called for client {}", o.call.short(), o.by);
            }
        }
    }
    drop(keep);
}
