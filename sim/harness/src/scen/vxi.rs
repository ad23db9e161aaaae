//! VXI-11 links: writes, reads, status, triggers, link identifiers.
use super::hislip::{calls, compare};
use super::*;
use crate::clients::*;
use crate::srv::{self, Inst};
use crate::world::*;
use lxi_device::status::Sender as StatusSender;
use simrt::{stamp, Stream};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;

pub const CORE: u16 = 4322;
pub const ASY: u16 = 4323;
pub const LONG: u32 = 600_000;
pub const NAMES: [&str; 2] = ["inst0", "gpib0,1"];

/// Links of all clients: identifier, client, from when to when it may exist
#[derive(Default)]
pub struct Registry {
    pub links: Vec<(u32, u32, u64, u64)>,
}

pub type Reg = Rc<RefCell<Registry>>;

impl Registry {
    pub fn open(&mut self, lid: u32, tag: u32, prop: &'static str) {
        if let Some(o) = self.links.iter().find(|l| l.0 == lid && l.3 == u64::MAX) {
            fail!(prop, "duplicate_link", "client {tag} got link {lid}, which client {} still has", o.1);
        }
        self.links.push((lid, tag, stamp(), u64::MAX));
    }
    pub fn closing(&mut self, lid: u32, tag: u32) {
        for l in self.links.iter_mut() {
            if l.0 == lid && l.1 == tag && l.3 == u64::MAX {
                l.3 = stamp()
            }
        }
    }
    pub fn foreign(&self, tag: u32) -> Vec<u32> {
        self.links.iter().filter(|l| l.1 != tag && l.3 == u64::MAX).map(|l| l.0).collect()
    }
}

/// The error code a client must see for what the device answered
pub fn wire(ret: Result<u8, u8>) -> u32 {
    match ret {
        Ok(_) => vx::E_OK,
        Err(1) => vx::E_UNSUPP,
        Err(2) => vx::E_IOTIMEOUT,
        Err(3) => vx::E_IO,
        Err(_) => vx::E_ACCESS,
    }
}

struct Link {
    lid: u32,
    dev: usize,
    inb: Vec<u8>,
    out: Vec<u8>,
    /// Lengths of the responses in `out`
    parts: VecDeque<usize>,
}

impl Link {
    fn took(&mut self, mut n: usize) {
        self.out.drain(..n);
        while n > 0 {
            let p = self.parts[0].min(n);
            self.parts[0] -= p;
            n -= p;
            if self.parts[0] == 0 {
                self.parts.pop_front();
            }
        }
    }
}

/// What the answer to a call must be
#[derive(Debug)]
enum Want {
    Write(usize),
    Read(u32, Vec<u8>),
    /// Nothing to read: no data
    Empty,
    /// Status: is a response waiting; which call
    Stb(bool, usize),
    Code(u32),
    /// What the device answered to this call
    Dev(usize),
    /// Refused: this link is not the client's
    Refused(u32, u32),
}

struct Client {
    v: Vxi,
    tag: u32,
    seq: u32,
    links: Vec<Link>,
    dead: Vec<u32>,
    want: Vec<DevCall>,
    /// Device each of them must reach
    on: Vec<usize>,
    pend: VecDeque<(u32, Want)>,
    reg: Reg,
    /// Nobody else uses the devices
    alone: bool,
    big: u32,
}

impl Client {
    async fn call(&mut self, proc: u32, args: &[u8], w: Want) -> Result<(), End> {
        let xid = self.v.rpc.send_call(proc, args).await?;
        self.pend.push_back((xid, w));
        Ok(())
    }

    /// Receive the answers to everything that was sent
    async fn drain(&mut self) -> Result<(), End> {
        while let Some((xid, w)) = self.pend.pop_front() {
            let (x, r) = self.v.rpc.recv().await?;
            if x != xid {
                fail!("C09", "xid", "client {}: reply with xid {x:#x} to the call with xid {xid:#x} ({w:?})", self.tag);
                return Err(End::Bad("xid".into()));
            }
            let b = match r {
                Reply::Ok(b) => b,
                r => {
                    fail!("C09", "unexpected_error", "client {}: {r:?} in answer to a well-formed call ({w:?})", self.tag);
                    return Err(End::Bad("rpc".into()));
                }
            };
            self.check(w, &b)?;
        }
        Ok(())
    }

    fn check(&mut self, want: Want, b: &[u8]) -> Result<(), End> {
        let tag = self.tag;
        let mut r = Rd(b);
        let shape = |ok: bool| {
            if !ok {
                fail!("C09", "reply_shape", "client {tag}: a reply of {} bytes", b.len());
                Err(End::Bad("shape".into()))
            } else {
                Ok(())
            }
        };
        let err = r.u();
        shape(err.is_some())?;
        let err = err.unwrap();
        match want {
            Want::Write(n) => {
                let size = r.u();
                shape(size.is_some() && r.end())?;
                if err != 0 || size != Some(n as u32) {
                    fail!("C08", "write_reply", "client {tag}: a write of {n} bytes was answered with error {err}, size {size:?}");
                }
            }
            Want::Read(reason, data) => {
                let (re, d) = (r.u(), r.opaque());
                shape(re.is_some() && d.is_some() && r.end())?;
                let d = d.unwrap();
                if err != 0 || d != data {
                    fail!("C08", "read_data", "client {tag}: read answered with error {err}; expected / received: {}", diff(&data, &d));
                    return Err(End::Bad("read".into()));
                }
                if re != Some(reason) {
                    fail!("C08", "read_reason", "client {tag}: read of {} bytes ended with reason {re:?}, expected {reason}", d.len());
                }
            }
            Want::Empty => {
                let (re, d) = (r.u(), r.opaque());
                shape(re.is_some() && d.is_some() && r.end())?;
                let d = d.unwrap();
                if !d.is_empty() || !matches!(err, 0 | vx::E_IOTIMEOUT) {
                    fail!("C08", "read_data", "client {tag}: read with nothing to read answered with error {err}, data {}", show(&d));
                }
            }
            Want::Stb(unread, idx) => {
                let stb = r.u();
                shape(stb.is_some() && r.end())?;
                let stb = stb.unwrap();
                match calls(tag).get(idx).map(|o| (o.call.clone(), o.ret)) {
                    Some((DevCall::Status, Ok(d))) => {
                        let good = (d as u32 & 0xef) | ((unread as u32) << 4);
                        if err != 0 || stb != good {
                            fail!("C18", "status", "client {tag}: READSTB answered error {err}, {stb:#04x}; the device said {d:#04x}, response waiting: {unread}");
                        }
                    }
                    Some((DevCall::Status, e)) => {
                        if err != wire(e) {
                            fail!("C18", "status_error", "client {tag}: READSTB answered error {err}, the device failed with {e:?}");
                        }
                    }
                    x => fail!("C18", "status_not_asked", "client {tag}: READSTB answered error {err}, {stb:#04x}, but the device saw {x:?}"),
                }
            }
            Want::Code(c) => {
                // DEVICE_DOCMD also answers data
                if err != c {
                    fail!("C20", "reply_code", "client {tag}: a request was answered with error {err}, expected {c}");
                }
            }
            Want::Dev(idx) => {
                shape(r.end())?;
                match calls(tag).get(idx) {
                    Some(o) if o.call == self.want[idx] => {
                        if err != wire(o.ret) {
                            fail!("C20", "reply_code", "client {tag}: {} was answered with error {err}, the device answered {:?}", o.call.short(), o.ret);
                        }
                    }
                    o => fail!("C20", "not_done", "client {tag}: {} was answered with error {err}, but the device saw {:?}", self.want[idx].short(), o.map(|o| o.call.short())),
                }
            }
            Want::Refused(proc, lid) => {
                if err != vx::E_LINK {
                    fail!("C23", "invalid_link", "client {tag}: procedure {proc} on link {lid}, which it does not have, was answered with error {err}");
                }
                if proc == vx::READ {
                    r.u();
                    if r.opaque().map_or(true, |d| !d.is_empty()) {
                        fail!("C23", "invalid_link", "client {tag}: data read from link {lid}, which it does not have");
                    }
                }
            }
        }
        Ok(())
    }

    fn expect_call(&mut self, i: usize, c: DevCall) -> usize {
        self.want.push(c);
        self.on.push(self.links[i].dev);
        self.want.len() - 1
    }

    async fn create(&mut self) -> Result<(), End> {
        self.drain().await?;
        if one_in(4) {
            let name = pick(&["", "inst1", "inst", "INST0", "gpib0", "inst0\0"]);
            let v = self.v.create(7, one_in(4), 0, name).await?;
            if v[0] == 0 {
                fail!("C23", "created_unknown", "client {}: a link was created for the unknown device {name:?}", self.tag);
            }
            self.dead.push(v[1]);
            self.dead.retain(|d| !self.links.iter().any(|l| l.lid == *d));
            return Ok(());
        }
        let dev = below(2) as usize;
        let v = self.v.create(pick(&[0, 1, -1, i32::MAX]), false, 0, NAMES[dev]).await?;
        if v[0] != 0 {
            fail!("C23", "create_failed", "client {}: create_link on an existing device answered error {}", self.tag, v[0]);
            return Err(End::Bad("create".into()));
        }
        self.reg.borrow_mut().open(v[1], self.tag, "C23");
        if v[2] != ASY as u32 {
            fail!("C22", "abort_port", "client {}: the abort port is {}, the link says {}", self.tag, ASY, v[2]);
        }
        if v[3] < 1024 {
            fail!("C08", "max_recv", "client {}: maximum receive size {}", self.tag, v[3]);
        }
        self.dead.retain(|l| *l != v[1]);
        self.links.push(Link { lid: v[1], dev, inb: vec![], out: vec![], parts: VecDeque::new() });
        Ok(())
    }

    fn make(&mut self) -> Cmd {
        self.seq += 1;
        make_cmd(self.tag, self.seq, b"QQRWE", self.big, self.big, 2000, &[])
    }

    fn executed(&mut self, i: usize) {
        let l = &mut self.links[i];
        let c = std::mem::take(&mut l.inb);
        if let (Some(r), _) = answer(&c) {
            if !r.is_empty() {
                l.parts.push_back(r.len());
                l.out.extend(r);
            }
        }
        self.expect_call(i, DevCall::Exec(c));
    }

    /// Blocks of one command
    async fn write(&mut self, i: usize, wait: bool) -> Result<(), End> {
        let c = self.make();
        let mut rest = &c.bytes[..];
        loop {
            let n = if one_in(2) { rest.len() } else { below(rest.len() as u32 + 1) as usize };
            let end = n == rest.len() && !one_in(6);
            let flags = if end { vx::END } else { 0 } | if wait { vx::WAITLOCK } else { 0 };
            let lid = self.links[i].lid;
            let block = &rest[..n];
            let to = if wait { LONG } else { pick(&[0, LONG]) };
            if wait {
                self.links[i].inb.extend(block);
                if end {
                    self.executed(i);
                }
                self.call(vx::WRITE, &a_write(lid, to, flags, block), Want::Write(n)).await?;
            } else {
                self.drain().await?;
                let (e, size) = self.v.write(lid, to, flags, block).await?;
                if e == 0 {
                    if size as usize != n {
                        fail!("C08", "write_reply", "client {}: a write of {n} bytes was answered with size {size}", self.tag);
                    }
                    self.links[i].inb.extend(block);
                    if end {
                        self.executed(i);
                    }
                } else if self.refusal(e) {
                    if size != 0 {
                        fail!("C08", "write_reply", "client {}: a refused write acknowledged {size} bytes", self.tag);
                    }
                    continue;
                } else {
                    return Err(End::Bad("write".into()));
                }
            }
            rest = &rest[n..];
            if end || (rest.is_empty() && one_in(3)) {
                return Ok(());
            }
        }
    }

    /// Is this a legitimate refusal of an operation that does not wait?
    fn refusal(&self, e: u32) -> bool {
        if matches!(e, vx::E_ACCESS | vx::E_LOCKED) && !self.alone {
            probe("refused_while_busy");
            true
        } else {
            fail!("C08", "refused", "client {}: an operation on an unlocked device was answered with error {e}", self.tag);
            false
        }
    }

    async fn read(&mut self, i: usize) -> Result<(), End> {
        let l = &self.links[i];
        let (lid, len) = (l.lid, l.out.len());
        let size = match below(7) {
            0 => below(4),
            1 => len as u32,
            2 => len as u32 + 1,
            3 => (len as u32).saturating_sub(1),
            4 => u32::MAX,
            5 => 1 + below(len as u32 + 1),
            _ => 100_000.max(below(4) * 150_000),
        };
        let termset = one_in(2);
        let term = if len > 0 && !one_in(4) { l.out[below(len as u32) as usize] } else { below(256) as u8 };
        let flags = vx::WAITLOCK | if termset { vx::TERMCHR } else { 0 };
        let args = a_read(lid, size, LONG, flags, term);
        if len == 0 || size == 0 {
            return self.call(vx::READ, &args, Want::Empty).await;
        }
        if l.parts.len() > 1 {
            // How much of several waiting responses one read returns is up to the server
            self.drain().await?;
            let (e, reason, d) = self.v.read(lid, size, LONG, flags, term).await?;
            let l = &mut self.links[i];
            let upto = if termset { l.out.iter().position(|c| *c == term).map_or(len, |p| p + 1) } else { len };
            if e != 0 || d.is_empty() || d.len() > upto.min(size as usize) || !l.out.starts_with(&d) {
                fail!("C08", "read_data", "client {}: read answered with error {e}, reason {reason}; expected / received: {}", self.tag, diff(&l.out, &d));
                return Err(End::Bad("read".into()));
            }
            l.took(d.len());
            return Ok(());
        }
        let at = if termset { l.out.iter().position(|c| *c == term) } else { None };
        let n = at.map_or(len, |p| p + 1).min(size as usize);
        let mut reason = 0;
        if n == size as usize {
            reason |= 1
        }
        if at.map_or(false, |p| p + 1 == n) {
            reason |= 2;
            probe("read_ended_by_termchar");
        }
        if n == len {
            reason |= 4
        }
        let d = l.out[..n].to_vec();
        self.links[i].took(n);
        self.call(vx::READ, &args, Want::Read(reason, d)).await
    }

    async fn generic(&mut self, i: usize, wait: bool) -> Result<(), End> {
        let lid = self.links[i].lid;
        let (proc, c) = match below(5) {
            0 => (vx::TRIGGER, DevCall::Trigger),
            1 => (vx::CLEAR, DevCall::Clear),
            2 => (vx::REMOTE, DevCall::Remote(true)),
            3 => (vx::LOCAL, DevCall::Remote(false)),
            _ => (vx::READSTB, DevCall::Status),
        };
        if wait {
            let idx = self.expect_call(i, c);
            let w = if proc == vx::READSTB { Want::Stb(!self.links[i].out.is_empty(), idx) } else { Want::Dev(idx) };
            if proc == vx::CLEAR {
                let l = &mut self.links[i];
                l.inb.clear();
                l.out.clear();
                l.parts.clear();
            }
            return self.call(proc, &a_generic(lid, vx::WAITLOCK, LONG), w).await;
        }
        self.drain().await?;
        let n = calls(self.tag).len();
        let b = self.v.rpc.ok(proc, &a_generic(lid, 0, 0)).await?;
        let now = calls(self.tag).len();
        if now == n {
            // Refused
            let e = Rd(&b).u().unwrap_or(0);
            if !self.refusal(e) {
                return Err(End::Bad("refused".into()));
            }
            if proc == vx::CLEAR {
                // What a refused clear discards is not known: clear again
                let idx = self.expect_call(i, DevCall::Clear);
                let l = &mut self.links[i];
                l.inb.clear();
                l.out.clear();
                l.parts.clear();
                self.call(proc, &a_generic(lid, vx::WAITLOCK, LONG), Want::Dev(idx)).await?;
            }
            return Ok(());
        }
        let idx = self.expect_call(i, c);
        let unread = !self.links[i].out.is_empty();
        if proc == vx::CLEAR {
            let l = &mut self.links[i];
            l.inb.clear();
            l.out.clear();
            l.parts.clear();
        }
        self.check(if proc == vx::READSTB { Want::Stb(unread, idx) } else { Want::Dev(idx) }, &b)
    }

    /// A link that is not there, or not this client's
    async fn invalid(&mut self) -> Result<(), End> {
        let foreign = self.reg.borrow().foreign(self.tag);
        let lid = match below(5) {
            0 => pick(&[0, u32::MAX, 1000]),
            4 => relative(&self.links.iter().map(|l| l.lid).collect::<Vec<_>>()),
            1 if !self.dead.is_empty() => self.dead[below(self.dead.len() as u32) as usize],
            _ if !foreign.is_empty() => {
                probe("foreign_link");
                foreign[below(foreign.len() as u32) as usize]
            }
            _ => 5000,
        };
        if self.links.iter().any(|l| l.lid == lid) {
            return Ok(());
        }
        let fl = pick(&[0, vx::WAITLOCK]);
        let (proc, args) = match below(11) {
            0 => (vx::WRITE, a_write(lid, 100, fl | vx::END, b"W1.1.0.0;smuggled")),
            1 => (vx::READ, a_read(lid, 100, 100, fl, 0)),
            2 => (vx::READSTB, a_generic(lid, fl, 100)),
            3 => (vx::TRIGGER, a_generic(lid, fl, 100)),
            4 => (vx::CLEAR, a_generic(lid, fl, 100)),
            5 => (vx::REMOTE, a_generic(lid, fl, 100)),
            6 => (vx::LOCAL, a_generic(lid, fl, 100)),
            7 => (vx::LOCK, a_lock(lid, fl, 100)),
            8 => (vx::UNLOCK, u32b(lid).to_vec()),
            9 => (vx::ENABLE_SRQ, a_srq(lid, one_in(2), b"h")),
            _ => (vx::DESTROY_LINK, u32b(lid).to_vec()),
        };
        self.call(proc, &args, Want::Refused(proc, lid)).await
    }

    async fn destroy(&mut self, i: usize) -> Result<(), End> {
        let l = self.links.remove(i);
        self.reg.borrow_mut().closing(l.lid, self.tag);
        self.dead.push(l.lid);
        self.call(vx::DESTROY_LINK, &u32b(l.lid), Want::Code(0)).await
    }

    async fn step(&mut self, pipelined: bool) -> Result<(), End> {
        if self.links.is_empty() || (one_in(12) && self.links.len() < 4) {
            self.create().await?;
            if self.links.is_empty() {
                return Ok(());
            }
        }
        let i = below(self.links.len() as u32) as usize;
        let wait = !one_in(5);
        match below(16) {
            0..=5 => self.write(i, wait).await?,
            6..=9 => self.read(i).await?,
            10..=12 => self.generic(i, wait).await?,
            13 => self.invalid().await?,
            14 => match below(4) {
                0 => self.destroy(i).await?,
                1 => {
                    let mut a = Vec::new();
                    for v in [self.links[i].lid, vx::WAITLOCK, 100, 100, 0x20000, 1, 1] {
                        a.extend(u32b(v))
                    }
                    opaque(&mut a, b"abc");
                    self.call(vx::DOCMD, &a, Want::Code(vx::E_UNSUPP)).await?
                }
                2 => self.call(vx::UNLOCK, &u32b(self.links[i].lid), Want::Code(vx::E_NOLOCK)).await?,
                _ => {}
            },
            // Read everything
            _ => {
                while !self.links[i].out.is_empty() {
                    self.read(i).await?
                }
            }
        }
        if !pipelined || one_in(4) || self.pend.len() > 8 {
            self.drain().await?;
            think(10).await;
        }
        Ok(())
    }
}

pub async fn data(_c: Ctx) {
    let mk = |id| {
        let mut d = SimDev::new(id);
        d.slow = pick(&[0, 0, 100_000, 5_000_000]);
        d.fail = pick(&[0, 0, 3]);
        *d.stb.borrow_mut() = pick(&[Some(0u8), Some(0x10), Some(0x40), Some(0x55), Some(0xff), Some(0xaa), None]);
        Inst::with(d)
    };
    let (d0, d1) = (mk(0), mk(1));
    let _t = srv::vxi(CORE, ASY, &[(NAMES[0], &d0), (NAMES[1], &d1)], StatusSender::new(), one_in(2));
    if !srv::up(CORE).await || !srv::up(ASY).await {
        return;
    }
    let wide = wide();
    let reg: Reg = Rc::default();
    let n = 1 + below(3);
    let mut tasks = Vec::new();
    for tag in 1..=n {
        let reg = reg.clone();
        tasks.push(simrt::spawn_labeled("client", async move { client(tag, reg, n == 1, wide).await }));
    }
    for t in tasks {
        t.await;
    }
    simrt::time::sleep_ns(2 * SEC).await;
    for o in w(|x| x.ops.clone()) {
        if o.by == 0 {
            fail!("C08", "unattributed", "{} reached the device for no connection", o.call.short());
        }
    }
    if op_count() >= 3 {
        nontrivial();
    }
}

async fn client(tag: u32, reg: Reg, alone: bool, wide: bool) {
    think(20).await;
    let v = match Vxi::open(CORE, tag).await {
        Ok(v) => v,
        Err(e) => {
            fail!("C16", "not_accepted", "client {tag}: {e:?}");
            return;
        }
    };
    let mut c = Client {
        v,
        tag,
        seq: 0,
        links: vec![],
        dead: vec![],
        want: vec![],
        on: vec![],
        pend: VecDeque::new(),
        reg: reg.clone(),
        alone,
        big: if wide { huge() } else { pick(&[20, 60, 300, 5000]) },
    };
    let pipelined = one_in(2);
    for _ in 0..2 + below(12) {
        if let Err(e) = c.step(pipelined).await {
            if !matches!(e, End::Bad(_)) {
                fail!("C08", "session_ended", "client {tag}: {e:?} in the middle of a session");
            }
            return;
        }
    }
    // Whatever is left must come, and nothing else
    let mut r = c.drain().await;
    for i in 0..c.links.len() {
        while r.is_ok() && !c.links[i].out.is_empty() {
            r = c.read(i).await;
            if r.is_ok() {
                r = c.drain().await;
            }
        }
    }
    if let Err(e) = r {
        if !matches!(e, End::Bad(_)) {
            fail!("C08", "session_ended", "client {tag}: {e:?} in the middle of a session");
        }
        return;
    }
    let mine = calls(tag);
    let got: Vec<DevCall> = mine.iter().map(|o| o.call.clone()).collect();
    if !compare(tag, &got, &c.want, true, "C08", "C20") {
        return;
    }
    for (o, d) in mine.iter().zip(c.on.iter()) {
        if o.dev != *d {
            fail!("C23", "wrong_device", "client {tag}: {} on a link to device {d} reached device {}", o.call.short(), o.dev);
        }
    }
    for l in &c.links {
        c.reg.borrow_mut().closing(l.lid, tag);
    }
    match simrt::choose(Stream::Fault, 5) {
        0 | 1 => c.v.rpc.conn.close(),
        2 if !c.links.is_empty() => {
            // A call cut short
            simrt::count("truncated_record");
            let l = &c.links[0];
            let m = c.make_last(l.lid, &l.inb);
            let cut = 1 + simrt::choose(Stream::Fault, m.len() as u32 - 2) as usize;
            let _ = c.v.rpc.conn.send(&m[..cut]).await;
            if one_in(2) {
                let _ = c.v.rpc.conn.s.shutdown(std::net::Shutdown::Write);
                simrt::count("client_half_close");
                simrt::time::sleep_ns(SEC).await;
            }
            let late = c.v.rpc.conn.avail();
            if late > 0 {
                fail!("C09", "truncated_answered", "client {tag}: {late} bytes in answer to a truncated call");
            }
            let want = c.want;
            c.v.rpc.conn.close();
            simrt::time::sleep_ns(SEC).await;
            let got: Vec<DevCall> = calls(tag).into_iter().map(|o| o.call).collect();
            compare(tag, &got, &want, true, "C09", "C09");
        }
        _ => {
            // Leave in the middle of pipelined requests
            for _ in 0..below(4) {
                if c.links.is_empty() {
                    break;
                }
                let i = below(c.links.len() as u32) as usize;
                let r = if one_in(2) { c.write(i, true).await } else { c.generic(i, true).await };
                if r.is_err() {
                    break;
                }
            }
            think(10).await;
            match simrt::choose(Stream::Fault, 3) {
                0 => {
                    simrt::count("client_reset");
                    c.v.rpc.conn.abort();
                }
                1 => {
                    simrt::count("client_vanishes");
                    c.v.rpc.conn.s.vanish();
                }
                _ => {}
            }
            let want = c.want;
            c.v.rpc.conn.close();
            simrt::time::sleep_ns(SEC).await;
            let got: Vec<DevCall> = calls(tag).into_iter().map(|o| o.call).collect();
            compare(tag, &got, &want, false, "C08", "C20");
        }
    }
}

impl Client {
    fn make_last(&self, lid: u32, _inb: &[u8]) -> Vec<u8> {
        let cmd = format!("W{}.{}.0.0;never", self.tag, self.seq + 1);
        record(&rpc_call(77, vx::CORE, 1, vx::WRITE, &a_write(lid, LONG, vx::WAITLOCK | vx::END, cmd.as_bytes())))
    }
}
