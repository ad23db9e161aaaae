//! Raw socket server: framing, order, attribution.
use super::*;
use crate::clients::*;
use crate::srv::{self, Inst};
use crate::world::*;
use lxi_socket::server::ServerConfig;
use simrt::Stream;
use std::rc::Rc;

struct Plan {
    tag: u32,
    cmds: Vec<Cmd>,
    tail: Vec<u8>,
    end: u32,
}

pub async fn run(_c: Ctx) {
    let wide = wide();
    let rterm = pick(b"\n\n\r\0\x04\x7f\x1b");
    let wterm = pick(b"\n\n\r\0\x7f");
    let rbuf = pick(&[4096usize, 64, 7, 2, 1, 512 * 1024]);
    let cfg = ServerConfig::default().read_buffer(rbuf).read_termination(rterm).write_termination(wterm);
    let mut dev = SimDev::new(0);
    dev.slow = pick(&[0, 0, 100_000, 5_000_000]);
    let inst = Inst::with(dev);
    let transport = below(3);
    let server = match transport {
        0 => {
            let s = Some(srv::raw(cfg, 5025, &inst));
            if !srv::up(5025).await {
                return;
            }
            (s, None)
        }
        1 => {
            let s = Some(srv::raw_unix(cfg, "/sim/raw.sock", &inst));
            if !srv::up_path("/sim/raw.sock").await {
                return;
            }
            (s, None)
        }
        _ => (None, Some(cfg.build())),
    };
    let n = 1 + below(4);
    let mut tasks = Vec::new();
    let plans: Vec<Rc<Plan>> = (1..=n)
        .map(|tag| {
            let k = below(if wide { 4 } else { 9 });
            let big = if wide { huge() } else { pick(&[60, 200, 3000]) };
            let cmds = (0..k)
                .map(|seq| {
                    if one_in(10) {
                        Cmd { bytes: vec![], resp: None, client: tag, seq }
                    } else {
                        make_cmd(tag, seq, b"QWERQ", big, big, 2000, &[rterm])
                    }
                })
                .collect();
            let tail = if one_in(3) {
                make_cmd(tag, 90, b"QW", 20, 20, 0, &[rterm]).bytes[..1 + below(6) as usize].to_vec()
            } else {
                vec![]
            };
            Rc::new(Plan { tag, cmds, tail, end: simrt::choose(Stream::Fault, 6) })
        })
        .collect();
    for p in &plans {
        let (p, built, inst) = (p.clone(), server.1.clone(), inst.clone());
        tasks.push(simrt::spawn_labeled("client", async move {
            think(30).await;
            let conn = match transport {
                0 => Conn::open(addr(5025), p.tag).await,
                1 => Conn::open_path("/sim/raw.sock", p.tag).await,
                _ => {
                    let (a, b) = simrt::net::pair();
                    let conn = Conn::new(a, p.tag);
                    let st = async_std::net::TcpStream::from_sim(b);
                    let tag = p.tag;
                    simrt::spawn_labeled("process_client", async move {
                        use futures::AsyncReadExt;
                        let (r, w) = st.split();
                        let _ = built.unwrap().process_client(r, w, inst.lock.clone(), inst.dev.clone(), tag).await;
                    })
                    .detach();
                    Ok(conn)
                }
            };
            let conn = match conn {
                Ok(c) => c,
                Err(e) => {
                    fail!("C06", "refused", "connection refused: {e}");
                    return;
                }
            };
            client(conn, &p, wterm, rterm).await;
        }));
    }
    for t in tasks {
        t.await;
    }
    if execs(0).len() >= 2 {
        nontrivial();
    }
    simrt::time::sleep_ns(2 * SEC).await;
    // Every executed command belongs to the client it was executed for
    for o in ops(0) {
        if let DevCall::Exec(b) = &o.call {
            if o.by == 0 {
                fail!("C06", "unattributed", "command {} was executed for no connection", show(b));
            }
        } else {
            fail!("C06", "other_call", "a raw socket client caused {}", o.call.short());
        }
    }
}

fn done(tag: u32) -> Vec<Vec<u8>> {
    ops(0)
        .into_iter()
        .filter(|o| o.by == tag)
        .filter_map(|o| match o.call {
            DevCall::Exec(c) => Some(c),
            _ => None,
        })
        .collect()
}

fn compare(tag: u32, want: &[Cmd], exact: bool) {
    let got = done(tag);
    for (i, g) in got.iter().enumerate() {
        match want.get(i) {
            Some(c) if &c.bytes == g => {}
            Some(c) => {
                fail!("C06", "executed_wrong", "client {tag}: command {i} was executed as {:?}, sent {:?}", show(g), show(&c.bytes));
                return;
            }
            None => {
                fail!("C06", "executed_extra", "client {tag}: {:?} was executed after all of its {} commands", show(g), want.len());
                return;
            }
        }
    }
    if exact && got.len() < want.len() {
        fail!("C06", "not_executed", "client {tag}: only {} of {} commands were executed", got.len(), want.len());
    }
}

async fn client(conn: Conn, p: &Plan, wterm: u8, rterm: u8) {
    let expect: Vec<u8> = p
        .cmds
        .iter()
        .filter_map(|c| c.resp.as_ref())
        .flat_map(|r| r.iter().copied().chain([wterm]))
        .collect();
    let mut wire = Vec::new();
    for c in &p.cmds {
        wire.extend(&c.bytes);
        wire.push(rterm);
    }
    // Ways to leave: 0,1 graceful, 2 half-close, 3 reset in the middle, 4 close without reading, 5 vanish
    let mode = p.end;
    if mode == 3 || mode == 5 {
        wire.truncate(simrt::choose(Stream::Fault, wire.len() as u32 + 1) as usize);
    }
    let lockstep = mode < 2 && one_in(2);
    let mut got = Vec::new();
    if lockstep {
        for c in &p.cmds {
            let mut b = c.bytes.clone();
            b.push(rterm);
            if conn.send(&b).await.is_err() {
                break;
            }
            if let Some(r) = &c.resp {
                match conn.take(r.len() + 1).await {
                    Ok(x) => got.extend(x),
                    Err(e) => {
                        fail!("C06", "no_response", "client {}: {e:?} in place of the response to {:?}", p.tag, show(&c.bytes));
                        return;
                    }
                }
            }
            if one_in(4) {
                think(20).await;
            }
        }
    } else {
        if one_in(3) {
            conn.pause(true);
            simrt::count("client_stops_reading");
        }
        if conn.s.write_all(&[]).await.is_ok() {
            // The reader resumes while the writer may be blocked
            let s = conn.s.clone();
            let w = wire.clone();
            let t = simrt::spawn_labeled("client-writer", async move { send_split(&s, &w).await });
            think(50).await;
            conn.pause(false);
            let _ = t.await;
        }
    }
    match mode {
        0 | 1 => {
            match conn.take(expect.len() - got.len()).await {
                Ok(x) => got.extend(x),
                Err(e) => {
                    fail!(
                        "C06",
                        "no_response",
                        "client {}: {e:?} after {} of {} response bytes",
                        p.tag,
                        got.len() + conn.avail(),
                        expect.len()
                    );
                    return;
                }
            }
            let want = p.cmds.len();
            settle(600 * SEC, || done(p.tag).len() >= want).await;
            if !p.tail.is_empty() {
                let _ = conn.send(&p.tail).await;
                if one_in(2) {
                    simrt::time::sleep_ns(SEC).await;
                }
            }
            if conn.avail() > 0 {
                got.extend(conn.peek_all());
            }
            if got != expect {
                fail!("C06", "response", "client {}: expected / received: {}", p.tag, diff(&expect, &got));
            }
            conn.close();
            simrt::time::sleep_ns(SEC).await;
            compare(p.tag, &p.cmds, true);
        }
        2 => {
            if !p.tail.is_empty() {
                let _ = conn.send(&p.tail).await;
            }
            let _ = conn.s.shutdown(std::net::Shutdown::Write);
            simrt::count("client_half_close");
            let (x, e) = conn.until_end().await;
            if e == End::Timeout {
                fail!("C06", "no_end", "client {}: the server never ended a connection whose input had ended", p.tag);
            }
            got.extend(x);
            if got != expect {
                fail!("C06", "response", "client {}: expected / received after a half-close: {}", p.tag, diff(&expect, &got));
            }
            compare(p.tag, &p.cmds, true);
        }
        3 => {
            simrt::count("client_reset");
            conn.abort();
            conn.close();
            simrt::time::sleep_ns(SEC).await;
            compare(p.tag, &p.cmds, false);
        }
        4 => {
            simrt::count("client_closes_without_reading");
            if !p.tail.is_empty() {
                let _ = conn.send(&p.tail).await;
            }
            conn.close();
            simrt::time::sleep_ns(SEC).await;
            compare(p.tag, &p.cmds, false);
        }
        _ => {
            simrt::count("client_vanishes");
            simrt::time::sleep_ns(SEC).await;
            let x = conn.peek_all();
            if !expect.starts_with(&x) {
                fail!("C06", "response", "client {}: expected / received: {}", p.tag, diff(&expect, &x));
            }
            conn.s.vanish();
            simrt::time::sleep_ns(SEC).await;
            compare(p.tag, &p.cmds, false);
            conn.close();
        }
    }
}
