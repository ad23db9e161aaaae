//! Simulated datagram network.
use crate::choice::Stream as Ch;
use crate::exec::{self, preempt, with};
use std::collections::{BTreeMap, VecDeque};
use std::io;
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::task::{Context, Poll, Waker};

struct Sock {
    addr: SocketAddr,
    peer: Option<SocketAddr>,
    queue: VecDeque<(Vec<u8>, SocketAddr)>,
    wakers: Vec<Waker>,
    err: VecDeque<io::ErrorKind>,
}

#[derive(Default)]
pub struct Udp {
    socks: BTreeMap<u64, Sock>,
    next: u64,
}

pub struct UdpSocket {
    id: u64,
}

impl std::fmt::Debug for UdpSocket {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "UdpSocket({})", self.id)
    }
}

fn deliver(from: SocketAddr, to: SocketAddr, data: Vec<u8>, sender: u64) {
    let w = with(|s| {
        let hit = s
            .net
            .udp
            .socks
            .iter()
            .find(|(_, k)| {
                k.addr.port() == to.port()
                    && (k.addr.ip() == to.ip() || k.addr.ip().is_unspecified())
                    && k.peer.map_or(true, |p| p == from)
            })
            .map(|(i, _)| *i);
        match hit {
            Some(i) => {
                let k = s.net.udp.socks.get_mut(&i).unwrap();
                if k.queue.len() >= 256 {
                    s.count("udp_queue_full");
                    return vec![];
                }
                k.queue.push_back((data, from));
                std::mem::take(&mut k.wakers)
            }
            None => {
                // Port unreachable comes back to a connected sender
                if let Some(k) = s.net.udp.socks.get_mut(&sender) {
                    if k.peer == Some(to) {
                        k.err.push_back(io::ErrorKind::ConnectionRefused);
                        s.count("udp_unreachable");
                        let k = s.net.udp.socks.get_mut(&sender).unwrap();
                        return std::mem::take(&mut k.wakers);
                    }
                }
                vec![]
            }
        }
    });
    for x in w {
        x.wake()
    }
}

/// Put a datagram on the wire with an arbitrary source address
pub fn inject(from: SocketAddr, to: SocketAddr, data: &[u8], sender: u64) {
    let (n, lat) = with(|s| {
        let c = s.net.cfg.clone();
        if s.chance(Ch::Fault, 1, c.udp_loss) {
            s.count("fault_udp_loss");
            return (0, vec![]);
        }
        let n = if s.chance(Ch::Fault, 1, c.udp_dup) {
            s.count("fault_udp_dup");
            2
        } else {
            1
        };
        let mut l = vec![];
        for _ in 0..n {
            let j = if c.udp_jitter == 0 {
                0
            } else {
                s.draw(Ch::Fault, 16) as u64 * (c.udp_jitter / 16)
            };
            if j > 0 {
                s.count("fault_udp_delay");
            }
            l.push(c.lat_min + j)
        }
        (n, l)
    });
    for i in 0..n {
        let d = data.to_vec();
        exec::schedule(lat[i], move || deliver(from, to, d, sender));
    }
}

/// A socket bound to the loopback address reaches nothing else
fn routable(from: &SocketAddr, to: &SocketAddr) -> io::Result<()> {
    if from.ip().is_loopback() && !to.ip().is_loopback() {
        return Err(io::Error::from_raw_os_error(libc::EINVAL));
    }
    Ok(())
}

impl UdpSocket {
    pub fn bind(addr: SocketAddr) -> io::Result<Self> {
        let mut addr = addr;
        with(|s| {
            if addr.port() == 0 {
                addr.set_port(s.net.ephemeral());
            }
            if s.net.udp.socks.values().any(|k| k.addr == addr) {
                return Err(io::ErrorKind::AddrInUse.into());
            }
            s.net.udp.next += 1;
            let id = s.net.udp.next;
            s.net.udp.socks.insert(
                id,
                Sock {
                    addr,
                    peer: None,
                    queue: VecDeque::new(),
                    wakers: vec![],
                    err: VecDeque::new(),
                },
            );
            s.log(|| format!("udp bind {addr}"));
            Ok(UdpSocket { id })
        })
    }

    pub fn connect(&self, to: SocketAddr) -> io::Result<()> {
        with(|s| {
            let k = s.net.udp.socks.get_mut(&self.id).unwrap();
            routable(&k.addr, &to)?;
            k.peer = Some(to);
            Ok(())
        })
    }

    pub fn local_addr(&self) -> SocketAddr {
        with(|s| {
            let a = s.net.udp.socks[&self.id].addr;
            if a.ip().is_unspecified() && s.net.udp.socks[&self.id].peer.is_some() {
                SocketAddr::new(IpAddr::V4(Ipv4Addr::LOCALHOST), a.port())
            } else {
                a
            }
        })
    }

    pub fn peer_addr(&self) -> Option<SocketAddr> {
        with(|s| s.net.udp.socks[&self.id].peer)
    }

    pub fn send_to(&self, data: &[u8], to: Option<SocketAddr>) -> io::Result<usize> {
        preempt("udp_send");
        let (from, to) = with(|s| {
            let k = s.net.udp.socks.get_mut(&self.id).unwrap();
            if let Some(e) = k.err.pop_front() {
                return Err(io::Error::from(e));
            }
            let to = to
                .or(k.peer)
                .ok_or_else(|| io::Error::from(io::ErrorKind::NotConnected))?;
            routable(&k.addr, &to)?;
            Ok((k.addr, to))
        })?;
        if data.len() > 65_507 {
            return Err(io::Error::from_raw_os_error(libc::EMSGSIZE));
        }
        let from = if from.ip().is_unspecified() {
            SocketAddr::new(IpAddr::V4(Ipv4Addr::LOCALHOST), from.port())
        } else {
            from
        };
        inject(from, to, data, self.id);
        Ok(data.len())
    }

    /// Make the next receive or send on this socket fail
    pub fn poll_recv(
        &self,
        cx: &mut Context<'_>,
        buf: &mut [u8],
        peek: bool,
    ) -> Poll<io::Result<(usize, SocketAddr)>> {
        preempt("udp_recv");
        with(|s| {
            let k = s.net.udp.socks.get_mut(&self.id).unwrap();
            if let Some(e) = k.err.pop_front() {
                return Poll::Ready(Err(e.into()));
            }
            let item = if peek {
                k.queue.front().cloned()
            } else {
                k.queue.pop_front()
            };
            match item {
                Some((d, from)) => {
                    let n = d.len().min(buf.len());
                    buf[..n].copy_from_slice(&d[..n]);
                    Poll::Ready(Ok((n, from)))
                }
                None => {
                    if !k.wakers.iter().any(|w| w.will_wake(cx.waker())) {
                        k.wakers.push(cx.waker().clone());
                    }
                    Poll::Pending
                }
            }
        })
    }

    pub async fn recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        std::future::poll_fn(|cx| self.poll_recv(cx, buf, false)).await
    }
}

/// Make the next operation of the socket bound to `port` fail
pub fn inject_error(port: u16, k: io::ErrorKind) {
    let w = with(|s| {
        for x in s.net.udp.socks.values_mut() {
            if x.addr.port() == port {
                x.err.push_back(k);
                s.count("fault_udp_error");
                let x = s
                    .net
                    .udp
                    .socks
                    .values_mut()
                    .find(|x| x.addr.port() == port)
                    .unwrap();
                return std::mem::take(&mut x.wakers);
            }
        }
        vec![]
    });
    for x in w {
        x.wake()
    }
}

pub fn is_bound(port: u16) -> bool {
    with(|s| s.net.udp.socks.values().any(|k| k.addr.port() == port))
}

impl Drop for UdpSocket {
    fn drop(&mut self) {
        let k = exec::try_with(|s| s.net.udp.socks.remove(&self.id));
        drop(k);
    }
}
