//! RPC servers: answers to good and bad calls over TCP and UDP; the port mapper and its client.
use super::hislip::{calls, compare};
use super::vxi::{ASY, CORE};
use super::*;
use crate::clients::*;
use crate::srv::{self, Inst};
use crate::world::*;
use lxi_device::status::Sender as StatusSender;
use lxi_vxi11::client::portmapper::prelude::{Mapping, PortMapperClient};
use lxi_vxi11::server::portmapper::prelude::StaticPortMap;
use simrt::net::TcpStream;
use simrt::udp::UdpSocket;
use simrt::{choose, Stream};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::net::SocketAddr;
use std::rc::Rc;

pub const PMAP: u32 = 100_000;
pub const PPORT: u16 = 111;
const N: usize = 5;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Server {
    Core,
    Async,
    PmapTcp,
    PmapUdp,
}

impl Server {
    fn port(self) -> u16 {
        match self {
            Server::Core => CORE,
            Server::Async => ASY,
            _ => PPORT,
        }
    }
    fn prog(self) -> (u32, u32) {
        match self {
            Server::Core => (vx::CORE, 1),
            Server::Async => (vx::ASYNC, 1),
            _ => (PMAP, 2),
        }
    }
}

pub type Table = Rc<Vec<Mapping>>;

fn draw_table() -> Vec<Mapping> {
    (0..N)
        .map(|_| {
            Mapping::new(
                pick(&[vx::CORE, vx::ASYNC, PMAP, 7]),
                pick(&[1u32, 2, 1]),
                pick(&[6u32, 17]),
                pick(&[111u32, 4322, 65535, 1, 0]),
            )
        })
        .collect()
}

fn serve_pmap(t: &[Mapping]) -> Vec<srv::Acceptor> {
    let a: [Mapping; N] = t.to_vec().try_into().unwrap();
    let m = StaticPortMap::new(a);
    if one_in(2) {
        // Both at once
        return vec![simrt::spawn_labeled("pmap", async move { m.bind(("127.0.0.1", PPORT)).await })];
    }
    let m2 = m.clone();
    vec![
        simrt::spawn_labeled("pmap-udp", async move {
            let s = async_std::net::UdpSocket::bind(("127.0.0.1", PPORT)).await?;
            m.serve_udp(s).await
        }),
        simrt::spawn_labeled("pmap-tcp", async move {
            let l = async_std::net::TcpListener::bind(("127.0.0.1", PPORT)).await?;
            m2.serve_tcp(l).await
        }),
    ]
}

pub fn lookup(t: &[Mapping], q: (u32, u32, u32)) -> u32 {
    t.iter().find(|m| (m.prog, m.vers, m.prot) == q).map_or(0, |m| m.port & 0xffff)
}

fn dump(t: &[Mapping]) -> Vec<u8> {
    let mut b = Vec::new();
    for m in t {
        for v in [1, m.prog, m.vers, m.prot, m.port] {
            b.extend(u32b(v))
        }
    }
    b.extend(u32b(0));
    b
}

fn query() -> (u32, u32, u32) {
    (pick(&[vx::CORE, vx::ASYNC, PMAP, 7, 8]), pick(&[1u32, 2, 1, 3]), pick(&[6u32, 17, 6, 0]))
}

fn getport_args(q: (u32, u32, u32)) -> Vec<u8> {
    let mut a = Vec::new();
    for v in [q.0, q.1, q.2, below(3) * 1000] {
        a.extend(u32b(v))
    }
    a
}

/// A call and the reply it must get
struct Case {
    msg: Vec<u8>,
    reply: Reply,
    what: String,
    /// Property a wrong reply to this call breaks
    prop: &'static str,
    /// Only the start of the reply's result is known
    prefix: bool,
}

struct Gen {
    srv: Server,
    tag: u32,
    seq: u32,
    lid: Option<u32>,
    table: Table,
    want: Vec<DevCall>,
}

impl Gen {
    /// Well-formed call: procedure, arguments, reply
    fn good(&mut self) -> (u32, Vec<u8>, Reply, &'static str, bool) {
        match self.srv {
            Server::Core => match (below(5), self.lid) {
                (1 | 2, Some(l)) => {
                    self.seq += 1;
                    let c = make_cmd(self.tag, self.seq, b"W", 40, 0, 500, &[]);
                    self.want.push(DevCall::Exec(c.bytes.clone()));
                    let mut r = u32b(0).to_vec();
                    r.extend(u32b(c.bytes.len() as u32));
                    (vx::WRITE, a_write(l, 1000, vx::END | vx::WAITLOCK, &c.bytes), Reply::Ok(r), "C09", false)
                }
                (3, Some(l)) => {
                    self.want.push(DevCall::Status);
                    (vx::READSTB, a_generic(l, vx::WAITLOCK, 1000), Reply::Ok(u32b(0).to_vec()), "C09", true)
                }
                (4, _) => (vx::UNLOCK, u32b(777).to_vec(), Reply::Ok(u32b(4).to_vec()), "C09", false),
                _ => (0, vec![], Reply::Ok(vec![]), "C09", false),
            },
            Server::Async => match below(2) {
                0 => (1, u32b(pick(&[0u32, 999])).to_vec(), Reply::Ok(u32b(4).to_vec()), "C09", false),
                _ => (0, vec![], Reply::Ok(vec![]), "C09", false),
            },
            _ => match below(4) {
                0 => (0, vec![], Reply::Ok(vec![]), "C19", false),
                1 => (4, vec![], Reply::Ok(dump(&self.table)), "C19", false),
                _ => {
                    let q = query();
                    (3, getport_args(q), Reply::Ok(u32b(lookup(&self.table, q)).to_vec()), "C19", false)
                }
            },
        }
    }

    /// Arguments that cannot be decoded
    fn bad_args(&mut self) -> Option<(u32, Vec<u8>)> {
        let l = self.lid.unwrap_or(1);
        let cmd = format!("W{}.999.0.0;bad", self.tag).into_bytes();
        let cut = |mut a: Vec<u8>, keep: usize| {
            a.truncate(choose(Stream::Work, (a.len() - keep) as u32) as usize);
            a
        };
        Some(match self.srv {
            Server::Core => match below(9) {
                0 => (vx::CREATE_LINK, cut(a_create(1, false, 0, "inst0"), 3)),
                1 => {
                    // Not text
                    let mut a = a_create(1, false, 0, "");
                    a.truncate(12);
                    opaque(&mut a, b"\xff\xfe\xfd\xc0");
                    (vx::CREATE_LINK, a)
                }
                2 => (vx::WRITE, cut(a_write(l, 1000, vx::END | vx::WAITLOCK, &cmd), 3)),
                3 => {
                    // Claims more data than there is
                    let mut a = a_write(l, 1000, vx::END | vx::WAITLOCK, &cmd);
                    let n = pick(&[cmd.len() as u32 + 8, u32::MAX, 0x7fff_ffff, 1 << 20]);
                    a[16..20].copy_from_slice(&u32b(n));
                    (vx::WRITE, a)
                }
                4 => (vx::READ, cut(a_read(l, 10, 0, 0, 0), 0)),
                5 => (pick(&[vx::READSTB, vx::TRIGGER, vx::CLEAR, vx::REMOTE, vx::LOCAL]), cut(a_generic(l, vx::WAITLOCK, 1000), 0)),
                6 => (vx::LOCK, cut(a_lock(l, vx::WAITLOCK, 1000), 0)),
                7 => (pick(&[vx::UNLOCK, vx::DESTROY_LINK]), cut(u32b(l).to_vec(), 0)),
                _ => (vx::CREATE_INTR, cut(a_intr(0x7f00_0001, 9, vx::INTR, 1, 0), 0)),
            },
            Server::Async => (1, cut(u32b(1).to_vec(), 0)),
            _ => (3, cut(getport_args(query()), 0)),
        })
    }

    fn case(&mut self, xid: u32) -> Case {
        let (prog, vers) = self.srv.prog();
        let kind = below(13);
        let (proc, args, reply, prop, prefix) = if kind < 6 { self.good() } else { (0, vec![], Reply::Ok(vec![]), "C09", false) };
        let args = if matches!(kind, 7..=10) && one_in(2) { vec![1, 2, 3, 4] } else { args };
        let mut c = Case { msg: rpc_call(xid, prog, vers, proc, &args), reply, what: format!("procedure {proc}"), prop, prefix };
        match kind {
            0..=5 => {}
            6 => {
                if let Some((p, a)) = self.bad_args() {
                    simrt::count("rpc_bad_arguments");
                    c = Case {
                        msg: rpc_call(xid, prog, vers, p, &a),
                        reply: Reply::Garbage,
                        what: format!("procedure {p} with arguments {a:?}"),
                        prop: "C09",
                        prefix: false,
                    };
                }
            }
            7 => {
                let p = pick(&[0, 1, prog + 1, prog - 1, vx::INTR, u32::MAX]);
                if p != prog {
                    c.msg = rpc_call(xid, p, pick(&[vers, 0, 9]), pick(&[0, 1, 3, 10, 99]), &args);
                    c.reply = Reply::ProgUnavail;
                    c.what = format!("program {p}");
                }
            }
            8 => {
                let v = pick(&[0, vers + 1, vers + 2, u32::MAX]);
                c.msg = rpc_call(xid, prog, v, pick(&[0, 1, 3, 10, 99]), &args);
                c.reply = Reply::ProgMismatch(vers, vers);
                c.what = format!("version {v}");
            }
            9 => {
                let p = match self.srv {
                    Server::Core => pick(&[1u32, 9, 21, 24, 27, 30, 1000, u32::MAX]),
                    Server::Async => pick(&[2u32, 10, 22, u32::MAX]),
                    _ => pick(&[1u32, 2, 5, 6, u32::MAX]),
                };
                c.msg = rpc_call(xid, prog, vers, p, &args);
                c.reply = Reply::ProcUnavail;
                c.what = format!("unknown procedure {p}");
            }
            10 => {
                let v = pick(&[0u32, 1, 3, u32::MAX]);
                c.msg[8..12].copy_from_slice(&u32b(v));
                c.reply = Reply::RpcMismatch(2, 2);
                c.what = format!("RPC version {v}");
            }
            _ => {
                let body = payload(1, 2, size(400) as usize, true);
                let mut a = Vec::new();
                a.extend(u32b(pick(&[1, 2, 3, 6, u32::MAX])));
                opaque(&mut a, &body);
                let cred = one_in(2);
                let at = if cred { 24 } else { 32 };
                c.msg.splice(at..at + 8, a);
                c.reply = Reply::AuthError(if cred { 2 } else { 4 });
                c.what = format!("unsupported {}", if cred { "credentials" } else { "verifier" });
            }
        }
        c
    }
}

/// Is the reply what it must be? Any reason is accepted for refused credentials
fn matches(c: &Case, r: &Reply) -> bool {
    match (&c.reply, r) {
        (Reply::AuthError(_), Reply::AuthError(x)) => *x != 0,
        (Reply::Ok(a), Reply::Ok(b)) if c.prefix => b.starts_with(a),
        (a, b) => a == b,
    }
}

pub async fn run(_c: Ctx) {
    let mut d = SimDev::new(0);
    d.slow = pick(&[0, 0, 1_000_000]);
    let inst = Inst::with(d);
    let _t = srv::vxi(CORE, ASY, &[("inst0", &inst)], StatusSender::new(), one_in(2));
    let table: Table = Rc::new(draw_table());
    let _p = serve_pmap(&table);
    for p in [CORE, ASY, PPORT] {
        if !srv::up(p).await {
            return;
        }
    }
    if !settle(SEC, || simrt::udp::is_bound(PPORT)).await {
        fail!("C16", "not_listening", "nothing is bound to UDP port {PPORT}");
        return;
    }
    if one_in(2) {
        simrt::with(|s| s.net.cfg.udp_jitter = 8 * MS);
    }
    let n = 1 + below(3);
    let mut tasks = Vec::new();
    for tag in 1..=n {
        let t = table.clone();
        let s = pick(&[Server::Core, Server::Core, Server::Async, Server::PmapTcp, Server::PmapUdp]);
        tasks.push(simrt::spawn_labeled("client", async move {
            if s == Server::PmapUdp {
                udp_client(tag, t, n == 1).await
            } else {
                tcp_client(tag, s, t).await
            }
        }));
    }
    for t in tasks {
        t.await;
    }
}

async fn tcp_client(tag: u32, srv: Server, table: Table) {
    think(20).await;
    let (prog, _) = srv.prog();
    let mut rpc = match Rpc::open(addr(srv.port()), prog, tag).await {
        Ok(r) => r,
        Err(e) => {
            fail!("C16", "not_accepted", "client {tag}: {e:?}");
            return;
        }
    };
    let mut g = Gen { srv, tag, seq: 0, lid: None, table, want: vec![] };
    if srv == Server::Core {
        let b = match rpc.ok(vx::CREATE_LINK, &a_create(1, false, 0, "inst0")).await {
            Ok(b) => b,
            Err(_) => return,
        };
        g.lid = Rd(&b[4..]).u();
    }
    let mut pend: VecDeque<(u32, Case)> = VecDeque::new();
    let pipelined = one_in(2);
    let mut xid = pick(&[1u32, 0xffff_fff0, 0x8000_0000]);
    let k = 1 + below(12);
    for i in 0..=k {
        if i < k {
            // Identifiers may repeat; the order of the answers still tells them apart
            xid = xid.wrapping_add(pick(&[1, 1, 1, 0]));
            let c = g.case(xid);
            if rpc.send_raw(&c.msg).await.is_err() {
                fail!("C09", "connection_ended", "client {tag}: connection ended when sending {}", c.what);
                return;
            }
            pend.push_back((xid, c));
        }
        if !pipelined || i == k || one_in(4) {
            while let Some((xid, c)) = pend.pop_front() {
                match rpc.recv().await {
                    Ok((x, r)) if x == xid && matches(&c, &r) => {}
                    x => {
                        fail!(c.prop, "reply", "client {tag} of {srv:?}: {} (xid {xid:#x}) must be answered {:?}, got {x:x?}", c.what, c.reply);
                        return;
                    }
                }
                if i > 2 {
                    nontrivial();
                }
            }
            think(10).await;
        }
    }
    if rpc.conn.avail() > 0 {
        fail!("C09", "extra_reply", "client {tag}: {} bytes more than the replies to its calls", rpc.conn.avail());
    }
    match choose(Stream::Fault, 4) {
        0 => {
            // A record that is too large
            simrt::count("oversized_record");
            let l = g.lid.unwrap_or(1);
            // What is sent before the connection ends matters little; keep slow networks affordable
            let cap = simrt::with(|s| s.net.cfg.cap);
            let data = vec![b'x'; if cap > 1000 { 1 << 16 } else { 4000 }];
            let m = rpc_call(5, prog, 1, vx::WRITE, &a_write(l, 1000, vx::END | vx::WAITLOCK, &data));
            let n = pick(&[0x7fff_ffffu32, 5 << 20, (1 << 20) + 1]);
            let mut f = Vec::new();
            if cap > 1000 && one_in(4) {
                // No fragment is, but all of them together are
                let m = rpc_call(5, prog, 1, vx::WRITE, &a_write(l, 1000, vx::END | vx::WAITLOCK, &vec![b'x'; 1 << 20]));
                let parts = 2 + below(3) as usize;
                let each = m.len().div_ceil(parts);
                for (k, x) in m.chunks(each).enumerate() {
                    let last = if (k + 1) * each >= m.len() { 0x8000_0000 } else { 0 };
                    f.extend(u32b(x.len() as u32 | last));
                    f.extend(x);
                }
            } else if one_in(2) {
                f.extend(u32b(m.len() as u32));
                f.extend(&m);
                f.extend(u32b(n | 0x8000_0000));
            } else {
                f.extend(u32b(n | 0x8000_0000));
                f.extend(&m);
            }
            let _ = rpc.conn.send(&f).await;
            let (b, _) = rpc.conn.until_end().await;
            if !b.is_empty() {
                fail!("C09", "oversized_answered", "client {tag}: {} bytes in answer to an oversized record", b.len());
            }
        }
        1 => {
            simrt::count("truncated_record");
            let c = g.case(9);
            let m = record(&c.msg);
            if let (true, Some(DevCall::Exec(_) | DevCall::Status)) = (matches!(c.reply, Reply::Ok(_)) && g.srv == Server::Core && c.what != "procedure 0" && c.what != "procedure 19", g.want.last()) {
                g.want.pop();
            }
            let cut = 1 + choose(Stream::Fault, m.len() as u32 - 2) as usize;
            let _ = rpc.conn.send(&m[..cut]).await;
            if one_in(2) {
                let _ = rpc.conn.s.shutdown(std::net::Shutdown::Write);
                simrt::time::sleep_ns(SEC).await;
            }
            if rpc.conn.avail() > 0 {
                fail!("C09", "truncated_answered", "client {tag}: {} bytes in answer to a truncated record", rpc.conn.avail());
            }
        }
        2 => {
            // Not a call: no reply
            let mut m = rpc_call(5, prog, 1, 0, &[]);
            m[4..8].copy_from_slice(&u32b(pick(&[1u32, 2, 77])));
            let _ = rpc.send_raw(&m).await;
            simrt::time::sleep_ns(SEC).await;
            if rpc.conn.avail() > 0 {
                fail!("C09", "reply_to_reply", "client {tag}: {} bytes in answer to something that is not a call", rpc.conn.avail());
            }
        }
        _ => {}
    }
    rpc.conn.close();
    simrt::time::sleep_ns(SEC).await;
    let got: Vec<DevCall> = calls(tag).into_iter().map(|o| o.call).collect();
    compare(tag, &got, &g.want, true, "C09", "C09");
}

async fn udp_client(tag: u32, table: Table, alone: bool) {
    think(20).await;
    let s = UdpSocket::bind("127.0.0.1:0".parse().unwrap()).unwrap();
    let to = addr(PPORT);
    s.connect(to).unwrap();
    let mut g = Gen { srv: Server::PmapUdp, tag, seq: 0, lid: None, table, want: vec![] };
    let mut pend: BTreeMap<u32, Case> = BTreeMap::new();
    let mut done: Vec<u32> = Vec::new();
    let mut buf = vec![0; 2048];
    let k = 1 + below(10);
    for i in 0..k {
        let xid = tag * 1000 + i;
        let c = g.case(xid);
        s.send_to(&c.msg, None).unwrap();
        pend.insert(xid, c);
        match choose(Stream::Fault, 8) {
            0 => {
                simrt::count("udp_garbage");
                let junk = payload(3, i as u64, choose(Stream::Fault, 60) as usize, true);
                s.send_to(&junk, None).unwrap();
            }
            1 => {
                simrt::count("udp_truncated");
                let m = rpc_call(3, PMAP, 2, 3, b"");
                s.send_to(&m[..choose(Stream::Fault, m.len() as u32) as usize], None).unwrap();
            }
            2 => {
                // A reply sent to the server
                simrt::count("udp_reply_to_server");
                let mut m = rpc_call(3, PMAP, 2, 3, b"");
                m[7] = 1;
                s.send_to(&m, None).unwrap();
            }
            3 if alone => {
                simrt::udp::inject_error(PPORT, fpick(&[std::io::ErrorKind::ConnectionRefused, std::io::ErrorKind::ConnectionReset, std::io::ErrorKind::Other]));
                // It may hit the sending of a reply
                simrt::time::sleep_ns(100 * MS).await;
                let _ = simrt::time::timeout_ns(100 * MS, s.recv_from(&mut buf)).await;
                done.extend(pend.keys());
                pend.clear();
                continue;
            }
            _ => {}
        }
        if one_in(2) || i + 1 == k {
            while !pend.is_empty() {
                match simrt::time::timeout_ns(60 * SEC, s.recv_from(&mut buf)).await {
                    Some(Ok((n, from))) => {
                        let r = rpc_parse(&buf[..n]);
                        let c = r.as_ref().and_then(|r| pend.remove(&r.0));
                        match (c, r) {
                            (Some(c), Some((x, r))) if from == to && matches(&c, &r) => {
                                done.push(x);
                                nontrivial();
                            }
                            (Some(c), r) => {
                                fail!(c.prop, "reply", "client {tag} over UDP: {} must be answered {:?}, got {r:x?} from {from}", c.what, c.reply);
                                return;
                            }
                            (None, Some((x, _))) if done.contains(&x) && from == to => {
                                if !simrt::with(|s| s.net.cfg.udp_dup > 0) && !alone {
                                    fail!("C09", "extra_reply", "client {tag} over UDP: a second reply to call {x}");
                                }
                            }
                            (None, r) => {
                                fail!("C09", "extra_reply", "client {tag} over UDP: {r:x?}, to none of its calls");
                                return;
                            }
                        }
                    }
                    x => {
                        fail!("C19", "no_reply", "client {tag} over UDP: {x:?} in place of the reply to {}", pend.values().next().unwrap().what);
                        return;
                    }
                }
            }
            think(10).await;
        }
    }
}

// ------------------------------------------------------------------------------------------------
// The port mapper's client

/// What the peer answers to SET and UNSET: something that depends on every argument
fn verdict(proc: u32, a: u32, b: u32, c: u32, d: u32) -> u32 {
    (a.wrapping_mul(3).wrapping_add(b.wrapping_mul(5)).wrapping_add(c.wrapping_mul(7)).wrapping_add(d / 1000 * 11).wrapping_add(proc * 2) >> 1) & 1
}

/// What the peer of a client does to one call
fn crooked(tag: u32, m: &[u8], table: &[Mapping], answered: &Cell<bool>) -> Vec<Vec<u8>> {
    let mut r = Rd(m);
    let xid = r.u().unwrap_or(0);
    let mut args = Rd(m.get(40..).unwrap_or(&[]));
    let proc = Rd(m.get(20..).unwrap_or(&[])).u().unwrap_or(0);
    let ok = |xid: u32, body: &[u8]| {
        let mut b = Vec::new();
        for v in [xid, 1, 0, 0, 0, 0] {
            b.extend(u32b(v))
        }
        b.extend(body);
        b
    };
    let good = match proc {
        3 => {
            let q = (args.u().unwrap_or(0), args.u().unwrap_or(0), args.u().unwrap_or(0));
            ok(xid, &u32b(lookup(table, q)))
        }
        1 | 2 => {
            let m = [(); 4].map(|_| args.u().unwrap_or(0));
            ok(xid, &u32b(verdict(proc, m[0], m[1], m[2], m[3])))
        }
        5 => {
            // Echo the inner arguments, preceded by what they are for
            let to = [(); 3].map(|_| args.u().unwrap_or(0));
            let a = args.opaque().unwrap_or_default();
            let mut r = Vec::new();
            for v in to {
                r.extend(u32b(v))
            }
            r.extend(&a);
            let mut b = u32b(99).to_vec();
            opaque(&mut b, &r);
            ok(xid, &b)
        }
        _ => ok(xid, b""),
    };
    let mut out = Vec::new();
    for _ in 0..choose(Stream::Fault, 3) {
        match choose(Stream::Fault, 5) {
            0 | 1 => {
                simrt::count("reply_to_another_call");
                out.push(ok(xid.wrapping_sub(1 + choose(Stream::Fault, 3)), &u32b(50_000 + tag)));
            }
            2 => {
                simrt::count("reply_to_a_later_call");
                out.push(ok(xid.wrapping_add(1), &u32b(50_001)));
            }
            3 => {
                simrt::count("call_to_client");
                out.push(rpc_call(xid, PMAP, 2, 3, b""));
            }
            _ => {
                simrt::count("error_to_another_call");
                let mut b = Vec::new();
                for v in [xid.wrapping_sub(1), 1, 0, 0, 0, fpick(&[1, 3, 4, 5])] {
                    b.extend(u32b(v))
                }
                out.push(b);
            }
        }
    }
    if !(out.is_empty() && choose(Stream::Fault, 6) == 0) {
        out.push(good);
        answered.set(true);
    } else {
        // An error for this very call
        let mut b = Vec::new();
        for v in [xid, 1, 0, 0, 0, fpick(&[1, 3, 4, 5])] {
            b.extend(u32b(v))
        }
        out.push(b);
        simrt::count("error_reply");
        answered.set(false);
    }
    out
}

/// A VXI-11 server that registers itself
async fn register() {
    use futures::{AsyncReadExt, AsyncWriteExt};
    // What was registered, and whether that was confirmed
    let calls: Rc<RefCell<Vec<([u32; 4], bool)>>> = Rc::default();
    let c2 = calls.clone();
    let up = !one_in(8);
    let breaks = if choose(Stream::Fault, 5) == 0 { choose(Stream::Fault, 2) } else { 9 };
    let l = if up { Some(async_std::net::TcpListener::bind(("127.0.0.1", PPORT)).await.unwrap()) } else { None };
    let _t = simrt::spawn_labeled("crooked-tcp", async move {
        let mut n = 0;
        while let Some(l) = &l {
            let (mut s, _) = l.accept().await?;
            while n != breaks {
                let mut h = [0u8; 4];
                if s.read_exact(&mut h).await.is_err() {
                    break;
                }
                let mut m = vec![0; (u32::from_be_bytes(h) & 0x7fff_ffff) as usize];
                s.read_exact(&mut m).await?;
                let answered = Cell::new(true);
                let mut out = crooked(1, &m, &[], &answered);
                let w: Vec<u32> = m.chunks(4).map(|c| Rd(c).u().unwrap_or(0)).collect();
                if w.len() < 14 || w[5] != 1 {
                    fail!("C19", "registration", "procedure {:?} with {} words was called to register a server", w.get(5), w.len());
                    break;
                }
                let set = [w[10], w[11], w[12], w[13]];
                let mut done = answered.get() && verdict(1, w[10], w[11], w[12], w[13]) == 1;
                if done && choose(Stream::Fault, 3) == 0 {
                    // Taken by somebody else
                    done = false;
                    let i = out.len() - 1;
                    let e = out[i].len() - 4;
                    out[i][e..].copy_from_slice(&u32b(0));
                } else if answered.get() && choose(Stream::Fault, 3) > 0 {
                    done = true;
                    let i = out.len() - 1;
                    let e = out[i].len() - 4;
                    out[i][e..].copy_from_slice(&u32b(1));
                }
                c2.borrow_mut().push((set, done));
                for m in out {
                    s.write_all(&record(&m)).await?;
                }
                n += 1;
            }
            simrt::count("port_mapper_breaks");
        }
        Ok::<(), std::io::Error>(())
    });
    let core = pick(&[4322u16, 1, 65535, 0]);
    let asy = pick(&[4323u16, 40_000, 2, 0]);
    let b = lxi_vxi11::server::vxi11::prelude::VxiServerBuilder::<Dev>::new().core_port(core).async_port(asy);
    let r = simrt::time::timeout_ns(PATIENCE, b.register_portmap(("127.0.0.1", PPORT))).await;
    let calls = calls.borrow();
    let ok = match r {
        None => {
            fail!("C19", "no_answer", "registering a VXI-11 server never returned");
            return;
        }
        Some(r) => r.is_ok(),
    };
    let want = [[0x0607AF, 1, 6, core as u32], [0x0607B0, 1, 6, asy as u32]];
    let all = calls.len() == 2 && calls.iter().all(|c| c.1);
    let may = core != 0 && asy != 0;
    if ok != (all && may) {
        fail!("C19", "registration", "registering a server with ports {core} and {asy} returned {ok}; registered with the port mapper: {:?}", *calls);
    }
    let mut got: Vec<_> = calls.iter().map(|c| c.0).collect();
    let n = got.len();
    got.sort();
    if !may && n > 0 || !got.iter().enumerate().all(|(i, c)| want.contains(c) && (i == 0 || got[i - 1] != *c)) {
        fail!("C19", "registration", "a server with ports {core} and {asy} registered {:?}", *calls);
    }
    if ok {
        nontrivial();
    }
}

pub async fn client(_c: Ctx) {
    if one_in(6) {
        register().await;
        return;
    }
    let table: Table = Rc::new(draw_table());
    let real = one_in(2);
    let udp = one_in(2);
    // The port mapper may be on another host
    let to: SocketAddr = if udp && !real && one_in(2) { SocketAddr::from(([10, 0, 0, 5], PPORT)) } else { addr(PPORT) };
    let mut tasks = Vec::new();
    // The last call was answered with success
    let answered = Rc::new(Cell::new(true));
    if real {
        tasks.extend(serve_pmap(&table));
        if !srv::up(PPORT).await {
            return;
        }
        settle(SEC, || simrt::udp::is_bound(PPORT)).await;
        if udp {
            let (loss, dup) = (fpick(&[0, 0, 3, 8]), fpick(&[0, 2, 5]));
            simrt::with(|s| {
                s.net.cfg.udp_loss = loss;
                s.net.cfg.udp_dup = dup;
                s.net.cfg.udp_jitter = 60 * MS;
            });
        }
    } else if udp {
        let s = UdpSocket::bind(to).unwrap();
        let (t, a) = (table.clone(), answered.clone());
        tasks.push(simrt::spawn_labeled("crooked-udp", async move {
            let mut buf = vec![0; 2048];
            loop {
                let (n, from) = s.recv_from(&mut buf).await?;
                think(5).await;
                for m in crooked(1, &buf[..n], &t, &a) {
                    s.send_to(&m, Some(from))?;
                }
            }
        }));
    } else {
        let l = async_std::net::TcpListener::bind(("127.0.0.1", PPORT)).await.unwrap();
        let (t, a) = (table.clone(), answered.clone());
        tasks.push(simrt::spawn_labeled("crooked-tcp", async move {
            use futures::{AsyncReadExt, AsyncWriteExt};
            let (mut s, _) = l.accept().await?;
            loop {
                let mut h = [0u8; 4];
                s.read_exact(&mut h).await?;
                let n = u32::from_be_bytes(h);
                let mut m = vec![0; (n & 0x7fff_ffff) as usize];
                s.read_exact(&mut m).await?;
                for m in crooked(1, &m, &t, &a) {
                    s.write_all(&record(&m)).await?;
                }
            }
        }));
    }
    let _ = TcpStream::local_addr;
    let opened = if udp { PortMapperClient::connect_udp(to).await } else { PortMapperClient::connect_tcp(to).await };
    let mut c = match opened {
        Ok(c) => c,
        Err(e) => {
            fail!("C19", "client", "the port mapper client does not connect: {e:?}");
            return;
        }
    };
    let lossy = simrt::with(|s| s.net.cfg.udp_loss > 0);
    let patience = if lossy || (udp && real && one_in(2)) { pick(&[20 * MS, 100 * MS, 400 * MS]) } else { PATIENCE };
    let seen = RefCell::new(0);
    for i in 0..1 + below(10) {
        let q = query();
        let port = below(3) * 1000;
        let m = Mapping::new(q.0, q.1, q.2, port);
        let inner = "x".repeat(below(12) as usize);
        let what = if real { pick(&[3u32, 3, 3, 0]) } else { pick(&[3u32, 3, 0, 1, 2, 5, 6]) };
        // The answer as one number, if it came
        let r: Option<Result<u64, String>> = simrt::time::timeout_ns(patience, async {
            match what {
                3 => c.getport(m).await.map(|v| v as u64),
                1 => c.set(m).await.map(|v| v as u64),
                2 => c.unset(m).await.map(|v| v as u64),
                6 => match c.register(m).await {
                    Ok(()) => Ok(1),
                    Err(e) if format!("{e:?}") == "Portmap" => Ok(0),
                    Err(e) => Err(e),
                },
                5 if i % 2 == 0 => c.callit::<String, [u32; 3]>(q.0, q.1, q.2, inner.clone()).await.map(|v| (v == [q.0, q.1, q.2]) as u64),
                5 => c
                    .callit::<[u32; 2], [u32; 5]>(q.0, q.1, q.2, [i, 77])
                    .await
                    .map(|v| (v == [q.0, q.1, q.2, i, 77]) as u64),
                _ => c.null().await.map(|_| 0),
            }
            .map_err(|e| format!("{e:?}"))
        })
        .await;
        let good: u64 = match what {
            3 => lookup(&table, q) as u64,
            1 | 2 => verdict(what, q.0, q.1, q.2, port) as u64,
            // What was registered before does not matter
            6 => verdict(1, q.0, q.1, q.2, port) as u64,
            5 => 1,
            _ => 0,
        };
        match r {
            None if patience == PATIENCE => {
                fail!("C19", "no_answer", "call {i} (procedure {what}) of the port mapper client never returned");
                return;
            }
            None => {
                simrt::count("client_gave_up");
            }
            Some(Ok(v)) => {
                if v != good {
                    fail!("C19", "wrong_answer", "call {i} of the port mapper client, procedure {what} for {q:?}, returned {v}; the answer is {good}");
                    return;
                }
                if !real && !answered.get() {
                    fail!("C19", "wrong_answer", "call {i} of the port mapper client, procedure {what}, returned {v} though the answer was an error");
                }
                *seen.borrow_mut() += 1;
            }
            Some(Err(e)) => {
                if real || answered.get() {
                    fail!("C19", "failed", "call {i} of the port mapper client, procedure {what}, failed with {e}; the answer is {good}");
                    return;
                }
            }
        }
        think(10).await;
    }
    if *seen.borrow() >= 2 {
        nontrivial();
    }
}
