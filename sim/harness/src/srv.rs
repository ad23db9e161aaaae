//! Start the real servers inside the simulation.
use crate::world::{Dev, SimDev};
use futures::task::{FutureObj, Spawn, SpawnError};
use lxi_device::lock::{Mutex, SharedLock, SpinMutex};
use lxi_device::status::Sender as StatusSender;
use simrt::Task;
use std::io;
use std::net::{IpAddr, Ipv4Addr};
use std::sync::Arc;

/// One instrument with its lock
#[derive(Clone)]
pub struct Inst {
    pub id: usize,
    pub dev: Arc<Mutex<Dev>>,
    pub lock: Arc<SpinMutex<SharedLock>>,
}

impl Inst {
    pub fn new(id: usize) -> Inst {
        Inst::with(SimDev::new(id))
    }
    pub fn with(d: SimDev) -> Inst {
        Inst {
            id: d.id,
            dev: Arc::new(Mutex::new(Box::new(d))),
            lock: SharedLock::new(),
        }
    }
}

pub struct Spawner;
impl Spawn for Spawner {
    fn spawn_obj(&self, f: FutureObj<'static, ()>) -> Result<(), SpawnError> {
        let refuse = crate::world::w(|x| {
            if x.spawn_fails > 0 {
                x.spawn_fails -= 1;
                x.spawn_failed += 1;
                return true;
            }
            false
        });
        if refuse {
            simrt::count("fault_spawn_refused");
            drop(f);
            return Err(SpawnError::shutdown());
        }
        simrt::spawn_labeled("hislip-conn", f).detach();
        Ok(())
    }
}

pub type Acceptor = Task<io::Result<()>>;

pub fn raw(cfg: lxi_socket::server::ServerConfig, port: u16, i: &Inst) -> Acceptor {
    let s = cfg.build();
    let (l, d) = (i.lock.clone(), i.dev.clone());
    simrt::spawn_labeled("raw-accept", async move { s.accept(("127.0.0.1", port), l, d).await })
}

pub fn raw_unix(cfg: lxi_socket::server::ServerConfig, path: &str, i: &Inst) -> Acceptor {
    let s = cfg.build();
    let (l, d) = (i.lock.clone(), i.dev.clone());
    let p = path.to_string();
    simrt::spawn_labeled("unix-accept", async move { s.accept_unix(p, l, d).await })
}

pub fn telnet(cfg: lxi_telnet::server::ServerConfig, port: u16, i: &Inst) -> Acceptor {
    let s = cfg.build();
    let (l, d) = (i.lock.clone(), i.dev.clone());
    simrt::spawn_labeled("telnet-accept", async move { s.accept(("127.0.0.1", port), l, d).await })
}

pub fn hislip(
    cfg: lxi_hislip::server::ServerConfig,
    port: u16,
    devs: &[(&str, &Inst)],
    srq: StatusSender,
) -> Acceptor {
    let mut b = lxi_hislip::server::ServerBuilder::new(cfg);
    for (n, i) in devs {
        b = b.device(n.to_string(), i.dev.clone(), i.lock.clone());
    }
    let s = b.build();
    simrt::spawn_labeled("hislip-accept", async move { s.accept(("127.0.0.1", port), srq, Spawner).await })
}

pub struct VxiTasks {
    pub core: Acceptor,
    pub asy: Acceptor,
}

/// `bind`: let the server open its ports itself
pub fn vxi(core: u16, asy: u16, devs: &[(&str, &Inst)], status: StatusSender, bind: bool) -> VxiTasks {
    let mut b = lxi_vxi11::server::vxi11::VxiServerBuilder::new().core_port(core).async_port(asy);
    for (n, i) in devs {
        b = b.device(n.to_string(), i.dev.clone(), i.lock.clone());
    }
    let (c, a) = b.build(status);
    let ip = IpAddr::V4(Ipv4Addr::LOCALHOST);
    VxiTasks {
        core: simrt::spawn_labeled("vxi-core-accept", async move {
            if bind {
                c.bind(ip).await
            } else {
                let l = async_std::net::TcpListener::bind((ip, core)).await?;
                c.serve(l).await
            }
        }),
        asy: simrt::spawn_labeled("vxi-async-accept", async move {
            if bind {
                a.bind(ip).await
            } else {
                let l = async_std::net::TcpListener::bind((ip, asy)).await?;
                a.serve(l).await
            }
        }),
    }
}

/// Wait until something listens on `port`
pub async fn up(port: u16) -> bool {
    for _ in 0..2000 {
        if simrt::net::is_listening(port) {
            return true;
        }
        simrt::time::sleep_ns(100_000).await;
    }
    crate::fail!("C16", "not_listening", "nothing listens on the configured port {port}");
    false
}

pub async fn up_path(p: &str) -> bool {
    for _ in 0..2000 {
        if simrt::net::is_listening_path(p) {
            return true;
        }
        simrt::time::sleep_ns(100_000).await;
    }
    crate::fail!("C16", "not_listening", "nothing listens on {p}");
    false
}
