//! Protocol clients of the harness: independent implementations that check what they receive.
use simrt::net::TcpStream;
use simrt::time::{sleep_ns, timeout_ns};
use simrt::{chance, choose, Stream, Task};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::poll_fn;
use std::net::SocketAddr;
use std::rc::Rc;
use std::task::{Poll, Waker};

pub const SEC: u64 = 1_000_000_000;
pub const MS: u64 = 1_000_000;
/// Added to the tag of a HiSLIP client on its asynchronous channel
pub const ATAG: u32 = 1000;
/// How long a client waits, in simulated time, before it concludes that an answer never comes
pub const PATIENCE: u64 = 3000 * SEC;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Eof,
    Reset,
    /// Nothing came within PATIENCE
    Timeout,
    /// The peer sent something that no correct peer sends
    Bad(String),
}

#[derive(Default)]
struct Inbox {
    buf: VecDeque<u8>,
    end: Option<End>,
    wakers: Vec<Waker>,
    paused: bool,
    total: u64,
}

impl Inbox {
    fn wake(&mut self) {
        for w in self.wakers.drain(..) {
            w.wake()
        }
    }
}

/// A connection whose input is drained by a task of its own
pub struct Conn {
    pub s: Rc<TcpStream>,
    inb: Rc<RefCell<Inbox>>,
    pump: Option<Task<()>>,
}

impl Conn {
    pub fn new(s: TcpStream, tag: u32) -> Conn {
        s.set_tag(tag);
        let s = Rc::new(s);
        let inb = Rc::new(RefCell::new(Inbox::default()));
        let (s2, i2) = (s.clone(), inb.clone());
        let pump = simrt::spawn_labeled("client-pump", async move {
            let mut b = vec![0u8; 4096];
            loop {
                poll_fn(|cx| {
                    let mut i = i2.borrow_mut();
                    if i.paused {
                        i.wakers.push(cx.waker().clone());
                        Poll::Pending
                    } else {
                        Poll::Ready(())
                    }
                })
                .await;
                match s2.read(&mut b).await {
                    Ok(0) => {
                        let mut i = i2.borrow_mut();
                        i.end = Some(End::Eof);
                        i.wake();
                        return;
                    }
                    Ok(n) => {
                        let mut i = i2.borrow_mut();
                        i.buf.extend(&b[..n]);
                        i.total += n as u64;
                        i.wake();
                    }
                    Err(_) => {
                        let mut i = i2.borrow_mut();
                        i.end = Some(End::Reset);
                        i.wake();
                        return;
                    }
                }
            }
        });
        Conn {
            s,
            inb,
            pump: Some(pump),
        }
    }

    pub async fn open(to: SocketAddr, tag: u32) -> std::io::Result<Conn> {
        Ok(Conn::new(simrt::net::connect(to).await?, tag))
    }

    pub async fn open_path(path: &str, tag: u32) -> std::io::Result<Conn> {
        Ok(Conn::new(
            simrt::net::connect_addr(None, simrt::net::Addr::Path(path.into())).await?,
            tag,
        ))
    }

    pub fn pause(&self, p: bool) {
        let mut i = self.inb.borrow_mut();
        i.paused = p;
        i.wake();
    }

    pub fn paused(&self) -> bool {
        self.inb.borrow().paused
    }

    pub fn avail(&self) -> usize {
        self.inb.borrow().buf.len()
    }

    pub fn ended(&self) -> Option<End> {
        self.inb.borrow().end.clone()
    }

    /// Everything received and not yet taken
    pub fn peek_all(&self) -> Vec<u8> {
        self.inb.borrow().buf.iter().copied().collect()
    }

    /// Drop everything received, and the memory of it
    pub fn forget(&self) {
        self.inb.borrow_mut().buf = Default::default();
    }

    /// Send bytes as one or more segments
    pub async fn send(&self, b: &[u8]) -> Result<(), End> {
        send_split(&self.s, b).await
    }

    /// For a task of its own that sends
    pub fn clone_out(&self) -> Rc<TcpStream> {
        self.s.clone()
    }

    async fn wait(&self, n: usize) -> Result<(), End> {
        let inb = &self.inb;
        let f = poll_fn(|cx| {
            let mut i = inb.borrow_mut();
            if i.buf.len() >= n {
                Poll::Ready(Ok(()))
            } else if let Some(e) = &i.end {
                Poll::Ready(Err(e.clone()))
            } else {
                i.wakers.push(cx.waker().clone());
                Poll::Pending
            }
        });
        match timeout_ns(PATIENCE, f).await {
            Some(r) => r,
            None => Err(End::Timeout),
        }
    }

    pub async fn take(&self, n: usize) -> Result<Vec<u8>, End> {
        self.wait(n).await?;
        Ok(self.inb.borrow_mut().buf.drain(..n).collect())
    }

    /// Wait until the connection ends; everything received before
    pub async fn until_end(&self) -> (Vec<u8>, End) {
        let e = match self.wait(usize::MAX).await {
            Ok(()) => unreachable!(),
            Err(e) => e,
        };
        (self.inb.borrow_mut().buf.drain(..).collect(), e)
    }

    /// Orderly close (a reset if input is unread and the run's network does that)
    pub fn close(mut self) {
        if let Some(p) = self.pump.take() {
            p.cancel_now()
        }
    }

    pub fn abort(&self) {
        self.s.abort()
    }

    /// Leave in one of the ways clients leave
    pub fn leave(self) {
        match choose(Stream::Fault, 4) {
            0 | 1 => self.close(),
            2 => {
                simrt::count("client_reset");
                self.abort();
                self.close()
            }
            _ => {
                simrt::count("client_half_close");
                let _ = self.s.shutdown(std::net::Shutdown::Write);
                self.close()
            }
        }
    }
}

impl Drop for Conn {
    fn drop(&mut self) {
        if let Some(p) = self.pump.take() {
            p.cancel_now()
        }
    }
}

pub async fn send_split(s: &TcpStream, b: &[u8]) -> Result<(), End> {
    let mut rest = b;
    let style = choose(Stream::Fault, 4);
    while !rest.is_empty() {
        let n = match style {
            0 | 1 => rest.len(),
            2 => 1 + choose(Stream::Fault, rest.len().min(64) as u32) as usize,
            _ => {
                if rest.len() <= 40 && chance(Stream::Fault, 1, 2) {
                    1
                } else {
                    1 + choose(Stream::Fault, rest.len() as u32) as usize
                }
            }
        };
        let r = timeout_ns(PATIENCE, s.write_all(&rest[..n])).await;
        match r {
            Some(Ok(())) => {}
            Some(Err(_)) => return Err(End::Reset),
            None => return Err(End::Timeout),
        }
        rest = &rest[n..];
        if !rest.is_empty() && chance(Stream::Fault, 1, 3) {
            sleep_ns(choose(Stream::Fault, 200) as u64 * 100_000).await;
        }
    }
    Ok(())
}

/// A short random pause between actions of a client
pub async fn think(max_ms: u32) {
    match choose(Stream::Work, 4) {
        0 => {}
        1 => simrt::time::yield_now().await,
        2 => drop(sleep_ns(choose(Stream::Work, 2000) as u64 * 1000).await),
        _ => drop(sleep_ns(choose(Stream::Work, max_ms.max(1) * 10) as u64 * 100_000).await),
    }
}

// ------------------------------------------------------------------------------------------------
// ONC RPC

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Reply {
    Ok(Vec<u8>),
    ProgUnavail,
    ProgMismatch(u32, u32),
    ProcUnavail,
    Garbage,
    SystemErr,
    RpcMismatch(u32, u32),
    AuthError(u32),
    Bad(String),
}

pub fn u32b(v: u32) -> [u8; 4] {
    v.to_be_bytes()
}

pub fn opaque(out: &mut Vec<u8>, b: &[u8]) {
    out.extend(u32b(b.len() as u32));
    out.extend(b);
    while out.len() % 4 != 0 {
        out.push(0)
    }
}

pub struct Rd<'a>(pub &'a [u8]);
impl<'a> Rd<'a> {
    pub fn u(&mut self) -> Option<u32> {
        if self.0.len() < 4 {
            return None;
        }
        let v = u32::from_be_bytes(self.0[..4].try_into().unwrap());
        self.0 = &self.0[4..];
        Some(v)
    }
    pub fn opaque(&mut self) -> Option<Vec<u8>> {
        let n = self.u()? as usize;
        let p = (n + 3) / 4 * 4;
        if self.0.len() < p {
            return None;
        }
        let v = self.0[..n].to_vec();
        self.0 = &self.0[p..];
        Some(v)
    }
    pub fn end(&self) -> bool {
        self.0.is_empty()
    }
}

/// A call message
pub fn rpc_call(xid: u32, prog: u32, vers: u32, proc: u32, args: &[u8]) -> Vec<u8> {
    let mut m = Vec::new();
    for v in [xid, 0, 2, prog, vers, proc, 0, 0, 0, 0] {
        m.extend(u32b(v))
    }
    m.extend(args);
    m
}

pub fn rpc_parse(m: &[u8]) -> Option<(u32, Reply)> {
    let mut r = Rd(m);
    let xid = r.u()?;
    if r.u()? != 1 {
        return Some((xid, Reply::Bad("not a reply".into())));
    }
    let rep = match r.u()? {
        0 => {
            let _flav = r.u()?;
            let _body = r.opaque()?;
            match r.u()? {
                0 => Reply::Ok(r.0.to_vec()),
                1 => Reply::ProgUnavail,
                2 => Reply::ProgMismatch(r.u()?, r.u()?),
                3 => Reply::ProcUnavail,
                4 => Reply::Garbage,
                5 => Reply::SystemErr,
                x => Reply::Bad(format!("accept stat {x}")),
            }
        }
        1 => match r.u()? {
            0 => Reply::RpcMismatch(r.u()?, r.u()?),
            1 => Reply::AuthError(r.u()?),
            x => Reply::Bad(format!("reject stat {x}")),
        },
        x => Reply::Bad(format!("reply stat {x}")),
    };
    Some((xid, rep))
}

/// Record marking with random fragmentation
pub fn record(m: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(m.len() + 4);
    let mut rest = m;
    let frag = chance(Stream::Fault, 1, 3);
    if frag {
        simrt::count("rpc_fragmented_record");
    }
    loop {
        let n = if frag && !rest.is_empty() && chance(Stream::Fault, 2, 3) {
            choose(Stream::Fault, rest.len().min(60) as u32) as usize
        } else {
            rest.len()
        };
        let last = n == rest.len() && !(frag && chance(Stream::Fault, 1, 5));
        out.extend(u32b(n as u32 | if last { 0x8000_0000 } else { 0 }));
        out.extend(&rest[..n]);
        rest = &rest[n..];
        if last {
            return out;
        }
    }
}

pub struct Rpc {
    pub conn: Conn,
    pub xid: u32,
    pub prog: u32,
    pub vers: u32,
}

impl Rpc {
    pub async fn open(to: SocketAddr, prog: u32, tag: u32) -> std::io::Result<Rpc> {
        Ok(Rpc {
            conn: Conn::open(to, tag).await?,
            xid: choose(Stream::Work, 3) * 0x7fff_fff0,
            prog,
            vers: 1,
        })
    }

    pub async fn send_raw(&mut self, msg: &[u8]) -> Result<(), End> {
        let r = record(msg);
        self.conn.send(&r).await
    }

    pub async fn send_call(&mut self, proc: u32, args: &[u8]) -> Result<u32, End> {
        self.xid = self.xid.wrapping_add(1 + choose(Stream::Work, 3));
        let m = rpc_call(self.xid, self.prog, self.vers, proc, args);
        self.send_raw(&m).await?;
        Ok(self.xid)
    }

    pub async fn recv_record(&mut self) -> Result<Vec<u8>, End> {
        let mut m = Vec::new();
        loop {
            let h = self.conn.take(4).await?;
            let h = u32::from_be_bytes(h.try_into().unwrap());
            let n = (h & 0x7fff_ffff) as usize;
            if n > 8 << 20 {
                return Err(End::Bad(format!("record fragment of {n} bytes")));
            }
            m.extend(self.conn.take(n).await?);
            if h & 0x8000_0000 != 0 {
                return Ok(m);
            }
        }
    }

    pub async fn recv(&mut self) -> Result<(u32, Reply), End> {
        let m = self.recv_record().await?;
        rpc_parse(&m).ok_or_else(|| End::Bad(format!("undecodable reply {m:?}")))
    }

    /// Call and wait for the answer
    pub async fn call(&mut self, proc: u32, args: &[u8]) -> Result<Reply, End> {
        let xid = self.send_call(proc, args).await?;
        let (x, r) = self.recv().await?;
        if x != xid {
            crate::fail!("C09", "xid", "reply with xid {x:#x} to the call with xid {xid:#x}");
            return Err(End::Bad("xid".into()));
        }
        Ok(r)
    }

    /// Call and take a successful reply apart
    pub async fn ok(&mut self, proc: u32, args: &[u8]) -> Result<Vec<u8>, End> {
        match self.call(proc, args).await? {
            Reply::Ok(b) => Ok(b),
            r => {
                crate::fail!("C09", "unexpected_error", "procedure {proc} answered {r:?} to a well-formed call");
                Err(End::Bad(format!("{r:?}")))
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------
// VXI-11

pub mod vx {
    pub const CORE: u32 = 0x0607AF;
    pub const ASYNC: u32 = 0x0607B0;
    pub const INTR: u32 = 0x0607B1;
    pub const CREATE_LINK: u32 = 10;
    pub const WRITE: u32 = 11;
    pub const READ: u32 = 12;
    pub const READSTB: u32 = 13;
    pub const TRIGGER: u32 = 14;
    pub const CLEAR: u32 = 15;
    pub const REMOTE: u32 = 16;
    pub const LOCAL: u32 = 17;
    pub const LOCK: u32 = 18;
    pub const UNLOCK: u32 = 19;
    pub const ENABLE_SRQ: u32 = 20;
    pub const DOCMD: u32 = 22;
    pub const DESTROY_LINK: u32 = 23;
    pub const CREATE_INTR: u32 = 25;
    pub const DESTROY_INTR: u32 = 26;
    pub const WAITLOCK: u32 = 1;
    pub const END: u32 = 8;
    pub const TERMCHR: u32 = 0x80;

    pub const E_OK: u32 = 0;
    pub const E_ACCESS: u32 = 3;
    pub const E_LINK: u32 = 4;
    pub const E_CHAN: u32 = 6;
    pub const E_UNSUPP: u32 = 8;
    pub const E_LOCKED: u32 = 11;
    pub const E_NOLOCK: u32 = 12;
    pub const E_IOTIMEOUT: u32 = 15;
    pub const E_IO: u32 = 17;
    pub const E_ADDR: u32 = 21;
    pub const E_ABORT: u32 = 23;
    pub const E_CHAN_EST: u32 = 29;
}

pub struct Vxi {
    pub rpc: Rpc,
}

/// Arguments of the calls
pub fn a_create(id: i32, lock: bool, timeout: u32, dev: &str) -> Vec<u8> {
    let mut a = Vec::new();
    a.extend(u32b(id as u32));
    a.extend(u32b(lock as u32));
    a.extend(u32b(timeout));
    opaque(&mut a, dev.as_bytes());
    a
}
pub fn a_write(lid: u32, lock_to: u32, flags: u32, data: &[u8]) -> Vec<u8> {
    let mut a = Vec::new();
    for v in [lid, 5000, lock_to, flags] {
        a.extend(u32b(v))
    }
    opaque(&mut a, data);
    a
}
pub fn a_read(lid: u32, size: u32, lock_to: u32, flags: u32, term: u8) -> Vec<u8> {
    let mut a = Vec::new();
    for v in [lid, size, 5000, lock_to, flags, term as u32] {
        a.extend(u32b(v))
    }
    a
}
/// lid, flags, lock_timeout, io_timeout
pub fn a_generic(lid: u32, flags: u32, lock_to: u32) -> Vec<u8> {
    let mut a = Vec::new();
    for v in [lid, flags, lock_to, 5000] {
        a.extend(u32b(v))
    }
    a
}
pub fn a_lock(lid: u32, flags: u32, lock_to: u32) -> Vec<u8> {
    let mut a = Vec::new();
    for v in [lid, flags, lock_to] {
        a.extend(u32b(v))
    }
    a
}
pub fn a_srq(lid: u32, on: bool, handle: &[u8]) -> Vec<u8> {
    let mut a = Vec::new();
    a.extend(u32b(lid));
    a.extend(u32b(on as u32));
    opaque(&mut a, handle);
    a
}
pub fn a_intr(addr: u32, port: u16, prog: u32, vers: u32, fam: u32) -> Vec<u8> {
    let mut a = Vec::new();
    for v in [addr, port as u32, prog, vers, fam] {
        a.extend(u32b(v))
    }
    a
}

impl Vxi {
    pub async fn open(port: u16, tag: u32) -> std::io::Result<Vxi> {
        Ok(Vxi {
            rpc: Rpc::open(addr(port), vx::CORE, tag).await?,
        })
    }

    fn words(&self, b: &[u8], n: usize, what: &str) -> Result<Vec<u32>, End> {
        let mut r = Rd(b);
        let v: Vec<u32> = (0..n).filter_map(|_| r.u()).collect();
        if v.len() != n || !r.end() {
            crate::fail!("C09", "reply_shape", "{what} reply has {} bytes", b.len());
            return Err(End::Bad(what.into()));
        }
        Ok(v)
    }

    /// error, lid, abort_port, max_recv
    pub async fn create(&mut self, id: i32, lock: bool, timeout: u32, dev: &str) -> Result<Vec<u32>, End> {
        let b = self.rpc.ok(vx::CREATE_LINK, &a_create(id, lock, timeout, dev)).await?;
        self.words(&b, 4, "create_link")
    }

    /// A link on `dev` that must be granted
    pub async fn link(&mut self, dev: &str) -> Result<u32, End> {
        let v = self.create(1, false, 0, dev).await?;
        if v[0] != 0 {
            crate::fail!("C23", "create_failed", "create_link on an existing device answered error {}", v[0]);
            return Err(End::Bad("create".into()));
        }
        Ok(v[1])
    }

    pub async fn write(&mut self, lid: u32, lock_to: u32, flags: u32, data: &[u8]) -> Result<(u32, u32), End> {
        let b = self.rpc.ok(vx::WRITE, &a_write(lid, lock_to, flags, data)).await?;
        let v = self.words(&b, 2, "write")?;
        Ok((v[0], v[1]))
    }

    /// error, reason, data
    pub async fn read(&mut self, lid: u32, size: u32, lock_to: u32, flags: u32, term: u8) -> Result<(u32, u32, Vec<u8>), End> {
        let b = self.rpc.ok(vx::READ, &a_read(lid, size, lock_to, flags, term)).await?;
        let mut r = Rd(&b);
        let v = (|| Some((r.u()?, r.u()?, r.opaque()?)))();
        match v {
            Some(v) if r.end() => Ok(v),
            _ => {
                crate::fail!("C09", "reply_shape", "read reply has {} bytes", b.len());
                Err(End::Bad("read".into()))
            }
        }
    }

    pub async fn stb(&mut self, lid: u32, flags: u32, lock_to: u32) -> Result<(u32, u32), End> {
        let b = self.rpc.ok(vx::READSTB, &a_generic(lid, flags, lock_to)).await?;
        let v = self.words(&b, 2, "readstb")?;
        Ok((v[0], v[1]))
    }

    /// A call whose answer is only an error code
    pub async fn simple(&mut self, proc: u32, args: &[u8]) -> Result<u32, End> {
        let b = self.rpc.ok(proc, args).await?;
        Ok(self.words(&b, 1, "device_error")?[0])
    }
}

// ------------------------------------------------------------------------------------------------
// HiSLIP

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct HMsg {
    pub typ: u8,
    pub ctrl: u8,
    pub param: u32,
    pub data: Vec<u8>,
}

pub mod hs {
    pub const INIT: u8 = 0;
    pub const INIT_R: u8 = 1;
    pub const FATAL: u8 = 2;
    pub const ERROR: u8 = 3;
    pub const LOCK: u8 = 4;
    pub const LOCK_R: u8 = 5;
    pub const DATA: u8 = 6;
    pub const DATA_END: u8 = 7;
    pub const CLEAR_COMPLETE: u8 = 8;
    pub const CLEAR_ACK: u8 = 9;
    pub const REMOTE: u8 = 10;
    pub const REMOTE_R: u8 = 11;
    pub const TRIGGER: u8 = 12;
    pub const MAXSIZE: u8 = 15;
    pub const MAXSIZE_R: u8 = 16;
    pub const AINIT: u8 = 17;
    pub const AINIT_R: u8 = 18;
    pub const ACLEAR: u8 = 19;
    pub const SRQ: u8 = 20;
    pub const STATUS: u8 = 21;
    pub const STATUS_R: u8 = 22;
    pub const ACLEAR_ACK: u8 = 23;
    pub const LOCKINFO: u8 = 24;
    pub const LOCKINFO_R: u8 = 25;
}

pub fn hframe(typ: u8, ctrl: u8, param: u32, data: &[u8]) -> Vec<u8> {
    let mut m = vec![b'H', b'S', typ, ctrl];
    m.extend(u32b(param));
    m.extend((data.len() as u64).to_be_bytes());
    m.extend(data);
    m
}

/// One command as Data.. DataEnd messages of random sizes
pub fn command_msgs(id: u32, b: &[u8], max: usize) -> Vec<Vec<u8>> {
    let mut out = Vec::new();
    let mut rest = b;
    loop {
        let n = if rest.len() > max || (rest.len() > 1 && chance(Stream::Work, 1, 4)) {
            1 + choose(Stream::Work, rest.len().min(max) as u32) as usize
        } else {
            rest.len()
        };
        let n = n.min(rest.len());
        // Sometimes close with an empty DataEnd
        let end = n == rest.len() && !(n > 0 && chance(Stream::Work, 1, 12));
        out.push(hframe(if end { hs::DATA_END } else { hs::DATA }, 0, id, &rest[..n]));
        rest = &rest[n..];
        if end {
            return out;
        }
    }
}

pub fn command_frames(id: u32, b: &[u8], max: usize) -> Vec<u8> {
    command_msgs(id, b, max).concat()
}

pub struct HConn {
    pub conn: Conn,
}

impl HConn {
    pub async fn open(to: SocketAddr, tag: u32) -> std::io::Result<HConn> {
        Ok(HConn {
            conn: Conn::open(to, tag).await?,
        })
    }

    pub async fn send(&self, typ: u8, ctrl: u8, param: u32, data: &[u8]) -> Result<(), End> {
        self.conn.send(&hframe(typ, ctrl, param, data)).await
    }

    pub async fn recv(&self) -> Result<HMsg, End> {
        let h = self.conn.take(16).await?;
        if &h[..2] != b"HS" {
            return Err(End::Bad(format!("message header {h:?}")));
        }
        let n = u64::from_be_bytes(h[8..16].try_into().unwrap());
        if n > 16 << 20 {
            return Err(End::Bad(format!("message of {n} bytes")));
        }
        let data = self.conn.take(n as usize).await?;
        Ok(HMsg {
            typ: h[2],
            ctrl: h[3],
            param: u32::from_be_bytes(h[4..8].try_into().unwrap()),
            data,
        })
    }

    /// A message that is already here completely
    pub fn ready(&self) -> bool {
        let b = self.conn.peek_all();
        b.len() >= 16 && b.len() as u64 >= 16 + u64::from_be_bytes(b[8..16].try_into().unwrap())
    }
}

pub struct Hislip {
    pub sync: HConn,
    pub asy: HConn,
    pub id: u16,
    pub protocol: u16,
    pub prefer_overlap: bool,
    pub vendor: u16,
    /// Service requests seen while waiting for other messages
    pub srqs: Vec<u8>,
}

#[derive(Debug)]
pub enum HOpen {
    Refused,
    Fatal(u8),
    End(End),
}

impl From<End> for HOpen {
    fn from(e: End) -> Self {
        HOpen::End(e)
    }
}

impl Hislip {
    pub async fn init_sync(port: u16, sub: &[u8], version: u16, tag: u32) -> Result<(HConn, HMsg), HOpen> {
        let c = HConn::open(addr(port), tag).await.map_err(|_| HOpen::Refused)?;
        c.send(hs::INIT, 0, (version as u32) << 16 | 0x5858, sub).await?;
        let m = c.recv().await?;
        match m.typ {
            hs::INIT_R => {
                if let Some((overlap, _)) = crate::world::w(|x| x.hislip) {
                    let v = (m.param >> 16) as u16;
                    if v != version.min(0x0200) {
                        fail!("C28", "version", "client {tag}: offered version {version:#x}, negotiated {v:#x}");
                    }
                    if m.ctrl != overlap as u8 {
                        fail!("C28", "mode", "client {tag}: InitializeResponse with control code {:#x}, overlapped mode preferred: {overlap}", m.ctrl);
                    }
                }
                Ok((c, m))
            }
            hs::FATAL => Err(HOpen::Fatal(m.ctrl)),
            _ => Err(HOpen::End(End::Bad(format!("{m:?} in answer to Initialize")))),
        }
    }

    pub async fn init_async(port: u16, id: u16, tag: u32) -> Result<(HConn, HMsg), HOpen> {
        let c = HConn::open(addr(port), tag).await.map_err(|_| HOpen::Refused)?;
        c.send(hs::AINIT, 0, id as u32, b"").await?;
        let m = c.recv().await?;
        match m.typ {
            hs::AINIT_R => {
                if crate::world::w(|x| x.hislip).is_some() && (m.ctrl, m.param) != (0, 0x1234) {
                    fail!("C28", "vendor", "client {tag}: AsyncInitializeResponse with control code {:#x} and vendor id {:#x}", m.ctrl, m.param);
                }
                Ok((c, m))
            }
            hs::FATAL => Err(HOpen::Fatal(m.ctrl)),
            _ => Err(HOpen::End(End::Bad(format!("{m:?} in answer to AsyncInitialize")))),
        }
    }

    pub async fn open(port: u16, sub: &str, version: u16, tag: u32) -> Result<Hislip, HOpen> {
        let (sync, m) = Hislip::init_sync(port, sub.as_bytes(), version, tag).await?;
        let id = m.param as u16;
        let (asy, am) = Hislip::init_async(port, id, tag + ATAG).await?;
        Ok(Hislip {
            sync,
            asy,
            id,
            protocol: (m.param >> 16) as u16,
            prefer_overlap: m.ctrl & 1 == 1,
            vendor: am.param as u16,
            srqs: Vec::new(),
        })
    }

    /// The next message on the asynchronous channel that is not a service request
    pub async fn arecv(&mut self) -> Result<HMsg, End> {
        loop {
            let m = self.asy.recv().await?;
            if m.typ == hs::SRQ {
                self.srqs.push(m.ctrl);
                continue;
            }
            return Ok(m);
        }
    }

    pub async fn acall(&mut self, typ: u8, ctrl: u8, param: u32, data: &[u8], want: u8) -> Result<HMsg, End> {
        self.asy.send(typ, ctrl, param, data).await?;
        let m = self.arecv().await?;
        if m.typ != want && m.typ != hs::ERROR {
            return Err(End::Bad(format!("message type {} with control {} ({}) in answer to {typ}", m.typ, m.ctrl, crate::world::show(&m.data))));
        }
        Ok(m)
    }

    pub async fn max_size(&mut self, n: u64) -> Result<u64, End> {
        let m = self.acall(hs::MAXSIZE, 0, 0, &n.to_be_bytes(), hs::MAXSIZE_R).await?;
        if m.data.len() != 8 {
            return Err(End::Bad(format!("{m:?}")));
        }
        let size = u64::from_be_bytes(m.data[..8].try_into().unwrap());
        if let Some((_, max)) = crate::world::w(|x| x.hislip) {
            if size != max {
                fail!("C28", "message_size", "the server accepts messages of {max} bytes, but says {size}");
            }
        }
        Ok(size)
    }

    pub async fn status(&mut self, ctrl: u8, last_id: u32) -> Result<u8, End> {
        Ok(self.acall(hs::STATUS, ctrl, last_id, b"", hs::STATUS_R).await?.ctrl)
    }

    /// 0: failed (timeout), 1: granted, 2: error
    pub async fn lock(&mut self, timeout_ms: u32, key: &[u8]) -> Result<u8, End> {
        let m = self.acall(hs::LOCK, 1, timeout_ms, key, hs::LOCK_R).await?;
        Ok(m.ctrl)
    }

    /// 1: exclusive released, 2: shared released, 3: error
    pub async fn unlock(&mut self, id: u32) -> Result<u8, End> {
        let m = self.acall(hs::LOCK, 0, id, b"", hs::LOCK_R).await?;
        Ok(m.ctrl)
    }

    pub async fn info(&mut self) -> Result<(bool, u32), End> {
        let m = self.acall(hs::LOCKINFO, 0, 0, b"", hs::LOCKINFO_R).await?;
        Ok((m.ctrl != 0, m.param))
    }

    /// Send one command as Data.. DataEnd messages of random sizes
    pub async fn command(&self, id: u32, b: &[u8], max: usize) -> Result<(), End> {
        for f in command_msgs(id, b, max) {
            self.sync.conn.send(&f).await?;
        }
        Ok(())
    }

    /// One complete response; checks ids and sizes
    pub async fn response(&self, id: u32, max: usize) -> Result<Vec<u8>, End> {
        let mut out = Vec::new();
        loop {
            let m = self.sync.recv().await?;
            if m.typ != hs::DATA && m.typ != hs::DATA_END {
                return Err(End::Bad(format!(
                    "message type {} control {} ({}) in place of a response",
                    m.typ,
                    m.ctrl,
                    crate::world::show(&m.data)
                )));
            }
            if m.param != id {
                return Err(End::Bad(format!("response with message id {:#x} to request {id:#x}", m.param)));
            }
            if m.data.len() > max {
                fail!("C28", "piece_size", "response message of {} bytes, this client announced {max}", m.data.len());
                return Err(End::Bad(format!("response message of {} bytes, client announced {max}", m.data.len())));
            }
            out.extend(m.data);
            if m.typ == hs::DATA_END {
                return Ok(out);
            }
        }
    }

    pub fn close(self) {
        let Hislip { sync, asy, .. } = self;
        if chance(Stream::Work, 1, 2) {
            asy.conn.close();
            sync.conn.close();
        } else {
            sync.conn.close();
            asy.conn.close();
        }
    }
}

pub fn addr(port: u16) -> SocketAddr {
    SocketAddr::from(([127, 0, 0, 1], port))
}
