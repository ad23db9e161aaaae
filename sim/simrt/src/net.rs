//! Simulated stream network (TCP and Unix sockets).
use crate::choice::Stream as Ch;
use crate::exec::{self, count, preempt, with};
use std::collections::{BTreeMap, VecDeque};
use std::io;
use std::net::{IpAddr, Ipv4Addr, Shutdown, SocketAddr};
use std::task::{Context, Poll, Waker};

/// Address of a stream endpoint
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Addr {
    Ip(SocketAddr),
    Path(String),
    Unnamed,
}

/// How the network behaves in this run; drawn per run by the harness
#[derive(Clone, Debug)]
pub struct NetCfg {
    /// One-way latency range (ns)
    pub lat_min: u64,
    pub lat_jitter: u64,
    /// Capacity of each direction of a connection in bytes
    pub cap: usize,
    /// Reads and writes are cut short with probability 1/short (0: never)
    pub short: u32,
    /// When cutting: at most this many bytes
    pub short_max: u32,
    /// Closing with unread input sends a reset instead of an orderly end
    pub rst_on_unread: bool,
    /// UDP
    pub udp_loss: u32,
    pub udp_dup: u32,
    pub udp_jitter: u64,
}

impl Default for NetCfg {
    fn default() -> Self {
        NetCfg {
            lat_min: 50_000,
            lat_jitter: 0,
            cap: 64 * 1024,
            short: 0,
            short_max: 1,
            rst_on_unread: false,
            udp_loss: 0,
            udp_dup: 0,
            udp_jitter: 0,
        }
    }
}

#[derive(Default)]
struct Pipe {
    /// Segments on the wire; None is the end of stream
    wire: VecDeque<Option<Vec<u8>>>,
    wire_bytes: usize,
    buf: VecDeque<u8>,
    fin: bool,
    fin_sent: bool,
    last_at: u64,
    readers: Vec<Waker>,
    writers: Vec<Waker>,
    total: u64,
}

#[derive(Default)]
struct End {
    closed: bool,
    rst: bool,
    rst_reported: bool,
    shut_rd: bool,
    gone: bool,
}

struct Conn {
    addr: [Addr; 2],
    pipe: [Pipe; 2], // pipe[i]: data written by end i, read by end 1-i
    end: [End; 2],
    frozen_until: u64,
    cap: [usize; 2],
    refs: u8,
    nodelay_err: bool,
    tag: [u32; 2],
}

struct Listener {
    addr: Addr,
    queue: VecDeque<u64>,
    wakers: Vec<Waker>,
    /// accept() fails this many times with this error before looking at the queue
    fail: VecDeque<io::ErrorKind>,
    fail_os: u32,
    closed: bool,
}

#[derive(Default)]
pub struct Net {
    pub cfg: NetCfg,
    conns: BTreeMap<u64, Conn>,
    listeners: BTreeMap<u64, Listener>,
    next: u64,
    ephemeral: u16,
    /// Connections to these fail with ConnectionRefused even if someone listens
    pub refuse: Vec<SocketAddr>,
    /// set_nodelay fails on connections accepted from now on
    pub nodelay_fails: bool,
    pub udp: crate::udp::Udp,
    pub accepted: u64,
}

impl Net {
    pub(crate) fn init(&mut self) {
        self.ephemeral = 40000;
        self.next = 1;
    }
    fn id(&mut self) -> u64 {
        self.next += 1;
        self.next
    }
    pub(crate) fn ephemeral(&mut self) -> u16 {
        self.ephemeral = if self.ephemeral >= 65000 {
            40000
        } else {
            self.ephemeral + 1
        };
        self.ephemeral
    }
    pub fn open_conns(&self) -> usize {
        self.conns.len()
    }
}

fn latency() -> u64 {
    with(|s| {
        let c = (s.net.cfg.lat_min, s.net.cfg.lat_jitter);
        if c.1 == 0 {
            c.0
        } else {
            // 0 is the shortest
            c.0 + s.draw(Ch::Fault, 16) as u64 * (c.1 / 16)
        }
    })
}

fn wake_all(v: Vec<Waker>) {
    for w in v {
        w.wake()
    }
}

fn push_waker(v: &mut Vec<Waker>, w: &Waker) {
    if !v.iter().any(|x| x.will_wake(w)) {
        v.push(w.clone())
    }
}

fn err<T>(k: io::ErrorKind) -> io::Result<T> {
    Err(k.into())
}

// ---------------------------------------------------------------- listener

pub struct TcpListener {
    id: u64,
}

fn matches(l: &Addr, to: &Addr) -> bool {
    match (l, to) {
        (Addr::Ip(a), Addr::Ip(b)) => {
            a.port() == b.port() && (a.ip() == b.ip() || a.ip().is_unspecified())
        }
        (Addr::Path(a), Addr::Path(b)) => a == b,
        _ => false,
    }
}

impl TcpListener {
    pub fn bind(addr: SocketAddr) -> io::Result<Self> {
        let mut addr = addr;
        with(|s| {
            if addr.port() == 0 {
                addr.set_port(s.net.ephemeral());
            }
            if s.net
                .listeners
                .values()
                .any(|l| matches(&l.addr, &Addr::Ip(addr)))
            {
                return err(io::ErrorKind::AddrInUse);
            }
            s.log(|| format!("listen {addr}"));
            let id = s.net.id();
            s.net.listeners.insert(
                id,
                Listener {
                    addr: Addr::Ip(addr),
                    queue: VecDeque::new(),
                    wakers: vec![],
                    fail: VecDeque::new(),
                    fail_os: 0,
                    closed: false,
                },
            );
            Ok(TcpListener { id })
        })
    }

    pub fn bind_path(p: &str) -> io::Result<Self> {
        with(|s| {
            let a = Addr::Path(p.to_string());
            if s.net.listeners.values().any(|l| l.addr == a) {
                return err(io::ErrorKind::AddrInUse);
            }
            let id = s.net.id();
            s.net.listeners.insert(
                id,
                Listener {
                    addr: a,
                    queue: VecDeque::new(),
                    wakers: vec![],
                    fail: VecDeque::new(),
                    fail_os: 0,
                    closed: false,
                },
            );
            Ok(TcpListener { id })
        })
    }

    pub fn local_addr(&self) -> Addr {
        with(|s| s.net.listeners[&self.id].addr.clone())
    }

    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<TcpStream>> {
        preempt("accept");
        let r = with(|s| {
            let l = s.net.listeners.get_mut(&self.id).unwrap();
            if let Some(k) = l.fail.pop_front() {
                s.count("fault_accept_error");
                s.log(|| format!("accept fails {k:?}"));
                return Poll::Ready(err(k));
            }
            if l.fail_os > 0 && !l.queue.is_empty() {
                l.fail_os -= 1;
                s.count("fault_accept_emfile");
                s.log(|| "accept fails EMFILE".to_string());
                return Poll::Ready(Err(io::Error::from_raw_os_error(libc::EMFILE)));
            }
            match l.queue.pop_front() {
                Some(c) => Poll::Ready(Ok(c)),
                None => {
                    push_waker(&mut l.wakers, cx.waker());
                    Poll::Pending
                }
            }
        });
        r.map(|r| {
            r.map(|c| {
                with(|s| {
                    s.net.accepted += 1;
                    s.log(|| format!("accepted c{c}"))
                });
                TcpStream { id: c, end: 1 }
            })
        })
    }
}

impl Drop for TcpListener {
    fn drop(&mut self) {
        let l = exec::try_with(|s| s.net.listeners.remove(&self.id)).flatten();
        if let Some(l) = l {
            for c in l.queue {
                drop(TcpStream { id: c, end: 1 });
            }
        }
    }
}

/// Make the next accepts of the listener on `port` fail
pub fn inject_accept_errors(port: u16, kind: Option<io::ErrorKind>, n: u32) {
    inject_accept(|a| matches!(a, Addr::Ip(a) if a.port() == port), kind, n)
}

/// The same for a listener on a path
pub fn inject_accept_errors_path(path: &str, kind: Option<io::ErrorKind>, n: u32) {
    inject_accept(|a| matches!(a, Addr::Path(p) if p == path), kind, n)
}

fn inject_accept(which: impl Fn(&Addr) -> bool, kind: Option<io::ErrorKind>, n: u32) {
    let w = with(|s| {
        for l in s.net.listeners.values_mut() {
            if which(&l.addr) {
                match kind {
                    Some(k) => {
                        for _ in 0..n {
                            l.fail.push_back(k)
                        }
                    }
                    None => l.fail_os += n,
                }
                return std::mem::take(&mut l.wakers);
            }
        }
        vec![]
    });
    wake_all(w);
}

/// Forget the accept errors that have not happened
pub fn clear_accept_errors() {
    with(|s| {
        for l in s.net.listeners.values_mut() {
            l.fail.clear();
            l.fail_os = 0;
        }
    })
}

/// Every port something listens on
pub fn listening_ports() -> Vec<u16> {
    let mut v: Vec<u16> = with(|s| {
        s.net
            .listeners
            .values()
            .filter_map(|l| match &l.addr {
                Addr::Ip(a) => Some(a.port()),
                _ => None,
            })
            .collect()
    });
    v.sort();
    v
}

pub fn is_listening(port: u16) -> bool {
    with(|s| {
        s.net
            .listeners
            .values()
            .any(|l| matches!(&l.addr, Addr::Ip(a) if a.port() == port))
    })
}

pub fn is_listening_path(p: &str) -> bool {
    with(|s| {
        s.net
            .listeners
            .values()
            .any(|l| matches!(&l.addr, Addr::Path(a) if a == p))
    })
}

/// Connections waiting to be accepted on `port`
pub fn backlog(port: u16) -> usize {
    with(|s| {
        s.net
            .listeners
            .values()
            .filter(|l| matches!(&l.addr, Addr::Ip(a) if a.port() == port))
            .map(|l| l.queue.len())
            .sum()
    })
}

// ---------------------------------------------------------------- stream

/// One end of a connection; not Clone: wrap in an Arc to share
pub struct TcpStream {
    id: u64,
    end: usize,
}

impl std::fmt::Debug for TcpStream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "TcpStream(c{} end {})", self.id, self.end)
    }
}

fn new_conn(from: Addr, to: Addr) -> u64 {
    with(|s| {
        let id = s.net.id();
        let cap = s.net.cfg.cap;
        let nd = s.net.nodelay_fails;
        s.net.conns.insert(
            id,
            Conn {
                addr: [from, to],
                pipe: Default::default(),
                end: Default::default(),
                frozen_until: 0,
                cap: [cap, cap],
                refs: 2,
                nodelay_err: nd,
                tag: [0, 0],
            },
        );
        id
    })
}

/// Connect from `src`; resolves after a round trip
pub async fn connect_addr(src: Option<SocketAddr>, to: Addr) -> io::Result<TcpStream> {
    let lat = latency() * 2;
    crate::time::sleep_ns(lat).await;
    let refused = with(|s| match &to {
        Addr::Ip(a) => s.net.refuse.contains(a),
        _ => false,
    });
    let lid = with(|s| {
        s.net
            .listeners
            .iter()
            .find(|(_, l)| matches(&l.addr, &to) && !l.closed)
            .map(|(i, _)| *i)
    });
    let lid = match lid {
        Some(l) if !refused => l,
        _ => {
            count("connect_refused");
            return match to {
                Addr::Path(_) => err(io::ErrorKind::NotFound),
                _ => err(io::ErrorKind::ConnectionRefused),
            };
        }
    };
    let from = match &to {
        Addr::Ip(a) => Addr::Ip(src.unwrap_or_else(|| {
            let p = with(|s| s.net.ephemeral());
            let ip = if a.ip().is_loopback() {
                a.ip()
            } else {
                IpAddr::V4(Ipv4Addr::new(10, 0, 0, 1))
            };
            SocketAddr::new(ip, p)
        })),
        _ => Addr::Unnamed,
    };
    let id = new_conn(from, to);
    let w = with(|s| {
        s.log(|| format!("connect c{id}"));
        let l = s.net.listeners.get_mut(&lid).unwrap();
        l.queue.push_back(id);
        std::mem::take(&mut l.wakers)
    });
    wake_all(w);
    Ok(TcpStream { id, end: 0 })
}

pub async fn connect(to: SocketAddr) -> io::Result<TcpStream> {
    connect_addr(None, Addr::Ip(to)).await
}

/// A connected pair that went through no listener
pub fn pair() -> (TcpStream, TcpStream) {
    let a = SocketAddr::new(IpAddr::V4(Ipv4Addr::LOCALHOST), 1);
    let id = new_conn(Addr::Ip(a), Addr::Ip(a));
    (TcpStream { id, end: 0 }, TcpStream { id, end: 1 })
}

fn deliver(id: u64, dir: usize) {
    enum R {
        Again(u64),
        Wake(Vec<Waker>),
        Rst,
        None,
    }
    let r = with(|s| {
        let now = s.now;
        let c = match s.net.conns.get_mut(&id) {
            Some(c) => c,
            None => return R::None,
        };
        if c.frozen_until > now {
            return R::Again(c.frozen_until - now);
        }
        let dst_closed = c.end[1 - dir].closed;
        let dst_gone = c.end[1 - dir].gone;
        let p = &mut c.pipe[dir];
        let seg = match p.wire.pop_front() {
            Some(x) => x,
            None => return R::None,
        };
        match seg {
            Some(b) => {
                p.wire_bytes -= b.len();
                if dst_gone {
                    // The host has vanished: nobody answers, the window closes
                    p.wire_bytes += b.len();
                    return R::None;
                }
                if dst_closed {
                    return R::Rst;
                }
                if c.end[1 - dir].shut_rd || c.end[1 - dir].rst {
                    return R::Wake(std::mem::take(&mut p.writers));
                }
                p.total += b.len() as u64;
                p.buf.extend(b);
                R::Wake(std::mem::take(&mut p.readers))
            }
            None => {
                p.fin = true;
                R::Wake(std::mem::take(&mut p.readers))
            }
        }
    });
    match r {
        R::Again(d) => {
            exec::schedule(d, move || deliver(id, dir));
        }
        R::Wake(w) => wake_all(w),
        R::Rst => reset_end(id, dir),
        R::None => {}
    }
}

fn transmit(id: u64, dir: usize, seg: Option<Vec<u8>>) {
    let lat = latency();
    let d = with(|s| {
        let now = s.now;
        let c = s.net.conns.get_mut(&id).unwrap();
        let p = &mut c.pipe[dir];
        let at = (now + lat).max(p.last_at);
        p.last_at = at;
        if let Some(b) = &seg {
            p.wire_bytes += b.len();
        }
        p.wire.push_back(seg);
        at - now
    });
    exec::schedule(d, move || deliver(id, dir));
}

/// The end `e` of connection `id` learns that the connection was reset
fn reset_end(id: u64, e: usize) {
    let w = with(|s| {
        let c = match s.net.conns.get_mut(&id) {
            Some(c) => c,
            None => return vec![],
        };
        if c.end[e].rst || c.end[e].closed {
            return vec![];
        }
        c.end[e].rst = true;
        s.log(|| format!("c{id} end {e} reset"));
        s.count("net_reset");
        let c = s.net.conns.get_mut(&id).unwrap();
        let mut w = std::mem::take(&mut c.pipe[1 - e].readers);
        w.append(&mut c.pipe[e].writers);
        w
    });
    wake_all(w);
}

fn send_reset(id: u64, to: usize) {
    let lat = latency();
    exec::schedule(lat, move || reset_end(id, to));
}

impl TcpStream {
    /// The task that reads what this end writes works for `tag`
    pub fn set_tag(&self, tag: u32) {
        with(|s| {
            if let Some(c) = s.net.conns.get_mut(&self.id) {
                c.tag[self.end] = tag
            }
        })
    }

    pub fn id(&self) -> u64 {
        self.id
    }

    pub fn poll_read(&self, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        preempt("read");
        let r = with(|s| {
            let cfg = (s.net.cfg.short, s.net.cfg.short_max);
            let c = s.net.conns.get_mut(&self.id).unwrap();
            let e = self.end;
            let tag = c.tag[1 - e];
            if tag != 0 {
                s.tag_current(tag)
            }
            let c = s.net.conns.get_mut(&self.id).unwrap();
            let avail = c.pipe[1 - e].buf.len();
            if c.end[e].shut_rd {
                return Poll::Ready((Ok(0), vec![]));
            }
            if avail > 0 {
                if buf.is_empty() {
                    return Poll::Ready((Ok(0), vec![]));
                }
                let mut n = avail.min(buf.len());
                if n > 1 && s.chance(Ch::Fault, 1, cfg.0) {
                    s.count("net_short_read");
                    n = n.min(1 + s.draw(Ch::Fault, cfg.1.max(1)) as usize);
                }
                let c = s.net.conns.get_mut(&self.id).unwrap();
                let p = &mut c.pipe[1 - e];
                for (i, b) in p.buf.drain(..n).enumerate() {
                    buf[i] = b;
                }
                return Poll::Ready((Ok(n), std::mem::take(&mut p.writers)));
            }
            if c.end[e].rst {
                if !c.end[e].rst_reported {
                    c.end[e].rst_reported = true;
                    return Poll::Ready((err(io::ErrorKind::ConnectionReset), vec![]));
                }
                return Poll::Ready((Ok(0), vec![]));
            }
            if c.pipe[1 - e].fin {
                return Poll::Ready((Ok(0), vec![]));
            }
            push_waker(&mut c.pipe[1 - e].readers, cx.waker());
            Poll::Pending
        });
        match r {
            Poll::Ready((r, w)) => {
                wake_all(w);
                Poll::Ready(r)
            }
            Poll::Pending => Poll::Pending,
        }
    }

    pub fn poll_peek(&self, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        with(|s| {
            let c = s.net.conns.get_mut(&self.id).unwrap();
            let e = self.end;
            let p = &mut c.pipe[1 - e];
            if !p.buf.is_empty() {
                let n = p.buf.len().min(buf.len());
                for (i, b) in p.buf.iter().take(n).enumerate() {
                    buf[i] = *b;
                }
                return Poll::Ready(Ok(n));
            }
            if p.fin || c.end[e].rst {
                return Poll::Ready(Ok(0));
            }
            push_waker(&mut p.readers, cx.waker());
            Poll::Pending
        })
    }

    pub fn poll_write(&self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        preempt("write");
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let r = with(|s| {
            let cfg = (s.net.cfg.short, s.net.cfg.short_max);
            let e = self.end;
            let c = s.net.conns.get_mut(&self.id).unwrap();
            if c.end[e].rst {
                if !c.end[e].rst_reported {
                    c.end[e].rst_reported = true;
                    return Poll::Ready(err(io::ErrorKind::ConnectionReset));
                }
                return Poll::Ready(err(io::ErrorKind::BrokenPipe));
            }
            if c.pipe[e].fin_sent {
                return Poll::Ready(err(io::ErrorKind::BrokenPipe));
            }
            let used = c.pipe[e].wire_bytes + c.pipe[e].buf.len();
            let room = c.cap[e].saturating_sub(used);
            if room == 0 {
                push_waker(&mut c.pipe[e].writers, cx.waker());
                s.count("net_backpressure");
                return Poll::Pending;
            }
            let mut n = room.min(buf.len());
            if n > 1 && s.chance(Ch::Fault, 1, cfg.0) {
                s.count("net_short_write");
                n = n.min(1 + s.draw(Ch::Fault, cfg.1.max(1)) as usize);
            }
            Poll::Ready(Ok(n))
        });
        if let Poll::Ready(Ok(n)) = &r {
            transmit(self.id, self.end, Some(buf[..*n].to_vec()));
        }
        r
    }

    pub fn shutdown(&self, how: Shutdown) -> io::Result<()> {
        let rst = with(|s| {
            let c = s.net.conns.get_mut(&self.id).unwrap();
            c.end[self.end].rst
        });
        if rst {
            return err(io::ErrorKind::NotConnected);
        }
        if matches!(how, Shutdown::Write | Shutdown::Both) {
            let send = with(|s| {
                let c = s.net.conns.get_mut(&self.id).unwrap();
                !std::mem::replace(&mut c.pipe[self.end].fin_sent, true)
            });
            if send {
                transmit(self.id, self.end, None);
            }
        }
        if matches!(how, Shutdown::Read | Shutdown::Both) {
            let w = with(|s| {
                let c = s.net.conns.get_mut(&self.id).unwrap();
                c.end[self.end].shut_rd = true;
                std::mem::take(&mut c.pipe[1 - self.end].readers)
            });
            wake_all(w);
        }
        Ok(())
    }

    fn addr_of(&self, e: usize) -> io::Result<Addr> {
        with(|s| {
            let c = &s.net.conns[&self.id];
            if e != self.end && c.end[self.end].rst {
                // getpeername on a connection the peer has reset
                s.count("fault_peer_addr_error");
                return err(io::ErrorKind::NotConnected);
            }
            Ok(c.addr[e].clone())
        })
    }

    pub fn peer_addr(&self) -> io::Result<Addr> {
        self.addr_of(1 - self.end)
    }

    pub fn local_addr(&self) -> io::Result<Addr> {
        self.addr_of(self.end)
    }

    /// Address delivered by accept() itself, which never fails
    pub fn accepted_from(&self) -> SocketAddr {
        with(|s| match &s.net.conns[&self.id].addr[1 - self.end] {
            Addr::Ip(a) => *a,
            _ => SocketAddr::new(IpAddr::V4(Ipv4Addr::UNSPECIFIED), 0),
        })
    }

    pub fn set_nodelay(&self) -> io::Result<()> {
        with(|s| {
            let c = s.net.conns.get_mut(&self.id).unwrap();
            if c.nodelay_err && c.end[self.end].rst {
                s.count("fault_nodelay_error");
                return err(io::ErrorKind::InvalidInput);
            }
            Ok(())
        })
    }

    // ---- harness-side controls

    /// Abort the connection: the peer sees a reset
    pub fn abort(&self) {
        let e = self.end;
        let id = self.id;
        let w = with(|s| {
            s.count("fault_conn_reset");
            s.log(|| format!("c{id} end {e} aborts"));
            let c = s.net.conns.get_mut(&id).unwrap();
            c.end[e].closed = true;
            c.end[e].rst = true;
            c.end[e].rst_reported = true;
            let mut w = std::mem::take(&mut c.pipe[1 - e].readers);
            w.append(&mut c.pipe[e].writers);
            w
        });
        wake_all(w);
        send_reset(id, 1 - e);
    }

    /// The host of this end vanishes without a word; nothing is acknowledged any more
    pub fn vanish(&self) {
        let e = self.end;
        let id = self.id;
        with(|s| {
            s.count("fault_host_vanished");
            s.log(|| format!("c{id} end {e} vanishes"));
            let c = s.net.conns.get_mut(&id).unwrap();
            c.end[e].gone = true;
        });
    }

    /// Deliver nothing in either direction for `ns`
    pub fn freeze(&self, ns: u64) {
        with(|s| {
            s.count("fault_partition");
            let t = s.now + ns;
            let c = s.net.conns.get_mut(&self.id).unwrap();
            c.frozen_until = c.frozen_until.max(t);
        });
    }

    pub fn set_cap(&self, dir_out: bool, cap: usize) {
        with(|s| {
            let e = if dir_out { self.end } else { 1 - self.end };
            s.net.conns.get_mut(&self.id).unwrap().cap[e] = cap;
        })
    }

    /// Bytes this end has not read yet (delivered or on the wire)
    pub fn incoming(&self) -> usize {
        with(|s| {
            let p = &s.net.conns[&self.id].pipe[1 - self.end];
            p.buf.len() + p.wire_bytes
        })
    }

    /// Bytes written by this end that the peer has not read yet
    pub fn unread_by_peer(&self) -> usize {
        with(|s| {
            let p = &s.net.conns[&self.id].pipe[self.end];
            p.buf.len() + p.wire_bytes
        })
    }

    /// Has the peer closed or reset its side (as far as this end can know)?
    pub fn peer_closed(&self) -> bool {
        with(|s| {
            let c = &s.net.conns[&self.id];
            c.end[self.end].rst || c.pipe[1 - self.end].fin
        })
    }

    /// Has the peer really closed its end (omniscient)?
    pub fn peer_really_closed(&self) -> bool {
        with(|s| s.net.conns[&self.id].end[1 - self.end].closed)
    }

    pub async fn read(&self, buf: &mut [u8]) -> io::Result<usize> {
        std::future::poll_fn(|cx| self.poll_read(cx, buf)).await
    }

    pub async fn write_all(&self, mut b: &[u8]) -> io::Result<()> {
        while !b.is_empty() {
            let n = std::future::poll_fn(|cx| self.poll_write(cx, b)).await?;
            b = &b[n..];
        }
        Ok(())
    }

    pub async fn read_exact(&self, buf: &mut [u8]) -> io::Result<()> {
        let mut n = 0;
        while n < buf.len() {
            let k = self.read(&mut buf[n..]).await?;
            if k == 0 {
                return err(io::ErrorKind::UnexpectedEof);
            }
            n += k;
        }
        Ok(())
    }
}

impl Drop for TcpStream {
    fn drop(&mut self) {
        let (id, e) = (self.id, self.end);
        enum A {
            None,
            Fin,
            Rst,
        }
        let a = exec::try_with(|s| {
            let rst_cfg = s.net.cfg.rst_on_unread;
            let c = match s.net.conns.get_mut(&id) {
                Some(c) => c,
                None => return A::None,
            };
            let was_aborted = c.end[e].closed;
            c.end[e].closed = true;
            let unread = !c.pipe[1 - e].buf.is_empty();
            let a = if was_aborted || c.end[e].rst || c.end[e].gone {
                A::None
            } else if unread && rst_cfg {
                A::Rst
            } else if c.pipe[e].fin_sent {
                A::None
            } else {
                c.pipe[e].fin_sent = true;
                A::Fin
            };
            c.pipe[1 - e].buf.clear();
            c.pipe[1 - e].buf.shrink_to_fit();
            s.log(|| format!("c{id} end {e} closed"));
            a
        });
        match a {
            Some(A::Fin) => transmit(id, e, None),
            Some(A::Rst) => {
                count("net_rst_on_close");
                send_reset(id, 1 - e)
            }
            _ => {}
        }
        exec::try_with(|s| {
            let c = s.net.conns.get_mut(&id)?;
            c.refs -= 1;
            if c.refs == 0 {
                return s.net.conns.remove(&id);
            }
            None
        });
    }
}

pub fn freeze_all(ns: u64) {
    with(|s| {
        s.count("fault_partition");
        let t = s.now + ns;
        for c in s.net.conns.values_mut() {
            c.frozen_until = c.frozen_until.max(t);
        }
    })
}
