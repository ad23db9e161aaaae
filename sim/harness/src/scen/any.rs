//! One well-behaved client for every protocol, and servers of every kind.
use super::rpc::{lookup, PMAP};
use super::vxi::NAMES;
use super::*;
use crate::clients::*;
use crate::srv::{self, Acceptor, Inst};
use crate::world::*;
use lxi_device::status::Sender as StatusSender;
use lxi_vxi11::client::portmapper::prelude::Mapping;
use lxi_vxi11::server::portmapper::prelude::StaticPortMap;
use simrt::time::timeout_ns;
use simrt::udp::UdpSocket;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Raw,
    Unix,
    Telnet,
    Hislip,
    Core,
    Async,
    Pmap,
    /// The port mapper over UDP
    Udp,
}

pub const KINDS: [Kind; 7] = [Kind::Raw, Kind::Telnet, Kind::Hislip, Kind::Core, Kind::Async, Kind::Pmap, Kind::Unix];

pub const PATH: &str = "/sim/any.sock";

pub fn table() -> [Mapping; 2] {
    [Mapping::new(vx::CORE, 1, 6, 4322), Mapping::new(vx::ASYNC, 1, 6, 4323)]
}

/// A server, and where it was told to listen
pub struct Server {
    pub kind: Kind,
    pub port: u16,
    /// Second port of a VXI-11 server
    pub port2: u16,
    pub limit: usize,
    pub tasks: Vec<Acceptor>,
}

/// Start a server of this kind. A VXI-11 core server has its async server at port2 and the other way round
pub fn start(kind: Kind, port: u16, port2: u16, limit: usize, inst: &Inst, srq: &StatusSender) -> Server {
    let mut limit = limit;
    let tasks = match kind {
        Kind::Raw => vec![srv::raw(lxi_socket::server::ServerConfig::default().read_buffer(64).backpressure(limit), port, inst)],
        Kind::Unix => vec![srv::raw_unix(lxi_socket::server::ServerConfig::default().read_buffer(64).backpressure(limit), PATH, inst)],
        Kind::Telnet => vec![srv::telnet(lxi_telnet::server::ServerConfig::default().read_buffer(64).backpressure(limit), port, inst)],
        Kind::Hislip => {
            let mut cfg = lxi_hislip::server::ServerConfig::default().max_num_sessions(limit);
            if one_in(4) {
                // No limit to messages but memory
                cfg = cfg.max_message_size(pick(&[1 << 40, u64::MAX]));
            }
            vec![srv::hislip(cfg, port, &[("hislip0", inst)], srq.clone())]
        }
        Kind::Core | Kind::Async => {
            limit = 10;
            let (c, a) = if kind == Kind::Core { (port, port2) } else { (port2, port) };
            let t = srv::vxi(c, a, &[(NAMES[0], inst)], srq.clone(), one_in(2));
            vec![t.core, t.asy]
        }
        Kind::Pmap | Kind::Udp => {
            limit = 10;
            let m = StaticPortMap::new(table());
            vec![simrt::spawn_labeled("pmap", async move { m.bind(("127.0.0.1", port)).await })]
        }
    };
    Server { kind, port, port2, limit, tasks }
}

enum Inner {
    Stream(Conn, Vec<u8>),
    Hislip(Hislip, u32),
    Core(Vxi, u32),
    Rpc(Rpc),
    Udp(UdpSocket, u16),
}

pub struct Any {
    pub kind: Kind,
    pub tag: u32,
    seq: u32,
    c: Inner,
    /// Lengths of responses it asks for
    pub size: u32,
}

impl Any {
    /// Err: refused by the server's limit (HiSLIP)
    pub async fn open(kind: Kind, port: u16, tag: u32) -> Result<Any, String> {
        let e = |x: std::io::Error| format!("connection refused: {x}");
        let c = match kind {
            Kind::Raw | Kind::Telnet => Inner::Stream(Conn::open(addr(port), tag).await.map_err(e)?, vec![]),
            Kind::Unix => Inner::Stream(Conn::open_path(PATH, tag).await.map_err(e)?, vec![]),
            Kind::Hislip => Inner::Hislip(Hislip::open(port, "", 0x100, tag).await.map_err(|x| format!("{x:?}"))?, 0xffff_ff00),
            Kind::Core => Inner::Core(Vxi::open(port, tag).await.map_err(e)?, 0),
            Kind::Async => Inner::Rpc(Rpc::open(addr(port), vx::ASYNC, tag).await.map_err(e)?),
            Kind::Pmap => {
                let mut r = Rpc::open(addr(port), PMAP, tag).await.map_err(e)?;
                r.vers = 2;
                Inner::Rpc(r)
            }
            Kind::Udp => Inner::Udp(UdpSocket::bind(addr(0)).map_err(e)?, port),
        };
        Ok(Any { kind, tag, seq: 0, c, size: 30 })
    }

    /// One request, whose answer is checked
    pub async fn ask(&mut self, limit: u64) -> Result<(), String> {
        match timeout_ns(limit, self.ask_now()).await {
            Some(r) => r,
            None => Err(format!("no answer in {} s", limit / SEC)),
        }
    }

    async fn ask_now(&mut self) -> Result<(), String> {
        let s = |e: End| format!("{e:?}");
        self.seq += 1;
        let cmd = make_cmd(self.tag, self.seq, b"Q", 12, self.size, 500, b"\n\r\xff\0\x7f");
        let want = cmd.resp.clone().unwrap();
        let got = match &mut self.c {
            Inner::Stream(c, old) => {
                let telnet = self.kind == Kind::Telnet;
                let mut b = cmd.bytes.clone();
                b.extend(if telnet { &b"\r\n"[..] } else { &b"\n"[..] });
                c.send(&b).await.map_err(s)?;
                if telnet {
                    // Somewhere between prompts; it is unlike anything else that is sent
                    let mut w = want.clone();
                    w.extend(b"\r\n");
                    old.clear();
                    while !old.ends_with(&w) {
                        old.extend(c.take(1).await.map_err(|e| format!("{e:?} after {:?}, expected {:?}", show(old), show(&w)))?);
                    }
                    return Ok(());
                }
                let mut r = c.take(want.len() + 1).await.map_err(s)?;
                if r.pop() != Some(b'\n') {
                    return Err(format!("{:?} in answer to {:?}", show(&r), show(&cmd.bytes)));
                }
                r
            }
            Inner::Hislip(h, id) => {
                let i = *id;
                *id = id.wrapping_add(2);
                h.command(i, &cmd.bytes, 4096).await.map_err(s)?;
                if want.is_empty() {
                    let m = h.acall(hs::LOCKINFO, 0, 0, b"", hs::LOCKINFO_R).await.map_err(s)?;
                    return if m.typ == hs::LOCKINFO_R { Ok(()) } else { Err(format!("{m:?}")) };
                }
                h.response(i, usize::MAX).await.map_err(s)?
            }
            Inner::Core(v, lid) => {
                if *lid == 0 {
                    *lid = v.link(NAMES[0]).await.map_err(s)?;
                }
                let (e, n) = v.write(*lid, 600_000, vx::END | vx::WAITLOCK, &cmd.bytes).await.map_err(s)?;
                if (e, n as usize) != (0, cmd.bytes.len()) {
                    return Err(format!("a write of {} bytes ended with error {e}, size {n}", cmd.bytes.len()));
                }
                let (e, r, d) = v.read(*lid, 100_000, 600_000, vx::WAITLOCK, 0).await.map_err(s)?;
                if (e, r) != (0, 4) {
                    return Err(format!("a read ended with error {e}, reason {r}"));
                }
                d
            }
            Inner::Udp(u, port) => {
                let q = (pick(&[vx::CORE, vx::ASYNC, 7]), 1, pick(&[6, 6, 17]));
                let mut a = Vec::new();
                for v in [q.0, q.1, q.2, 0] {
                    a.extend(u32b(v))
                }
                let xid = self.tag << 16 | self.seq;
                u.send_to(&rpc_call(xid, PMAP, 2, 3, &a), Some(addr(*port))).map_err(|e| format!("{e}"))?;
                let mut b = [0; 500];
                let (n, _) = u.recv_from(&mut b).await.map_err(|e| format!("{e}"))?;
                let w = Some((xid, Reply::Ok(u32b(lookup(&table(), q)).to_vec())));
                let x = rpc_parse(&b[..n]);
                return if x == w { Ok(()) } else { Err(format!("lookup {xid:#x} of {q:?} was answered with {x:x?}")) };
            }
            Inner::Rpc(r) if self.kind == Kind::Async => {
                let x = r.ok(1, &u32b(0x7fff_0000)).await.map_err(s)?;
                return if x == u32b(vx::E_LINK) { Ok(()) } else { Err(format!("an abort of no link was answered with {x:?}")) };
            }
            Inner::Rpc(r) => {
                let q = (pick(&[vx::CORE, vx::ASYNC, 7]), 1, pick(&[6, 6, 17]));
                let mut a = Vec::new();
                for v in [q.0, q.1, q.2, 0] {
                    a.extend(u32b(v))
                }
                let x = r.ok(3, &a).await.map_err(s)?;
                let w = lookup(&table(), q);
                return if x == u32b(w) { Ok(()) } else { Err(format!("lookup of {q:?} was answered with {x:?}")) };
            }
        };
        if got != want {
            return Err(format!("wrong answer to {:?}: {}", show(&cmd.bytes), diff(&want, &got)));
        }
        Ok(())
    }

    pub fn conns(self) -> Vec<Conn> {
        match self.c {
            Inner::Stream(c, _) => vec![c],
            Inner::Hislip(h, _) => vec![h.sync.conn, h.asy.conn],
            Inner::Core(v, _) => vec![v.rpc.conn],
            Inner::Rpc(r) => vec![r.conn],
            Inner::Udp(..) => vec![],
        }
    }

    pub fn hislip(&mut self) -> Option<&mut Hislip> {
        match &mut self.c {
            Inner::Hislip(h, _) => Some(h),
            _ => None,
        }
    }

    /// Leave in one of the ways clients leave
    pub fn leave(self) {
        let mut v = self.conns();
        if one_in(2) {
            v.reverse();
        }
        for c in v {
            c.leave()
        }
    }

    pub fn close(self) {
        for c in self.conns() {
            c.close()
        }
    }
}

impl Any {
    /// The connection and the link of a VXI-11 core client
    pub fn vxi(&mut self) -> Option<(&mut Vxi, u32)> {
        match &mut self.c {
            Inner::Core(v, lid) => Some((v, *lid)),
            _ => None,
        }
    }
}
