//! HiSLIP sessions: messages, responses, status, triggers, remote/local.
use super::*;
use crate::clients::*;
use crate::srv::{self, Inst};
use crate::world::*;
use lxi_device::status::Sender as StatusSender;
use lxi_hislip::server::ServerConfig;
use simrt::Stream;

pub const PORT: u16 = 4880;

pub fn config(max: u64) -> ServerConfig {
    let c = ServerConfig::default().vendor_id(0x1234).max_message_size(max);
    let overlap = one_in(2);
    w(|x| x.hislip = Some((overlap, max)));
    if overlap {
        c.prefer_overlap()
    } else {
        c.prefer_synchronized()
    }
}

/// Device calls so far made for `tag`, on any device
pub fn calls(tag: u32) -> Vec<DevOp> {
    w(|x| x.ops.iter().filter(|o| o.by == tag).cloned().collect())
}

/// Compare the calls made for `tag` with what it asked for. Charged to the property of the differing request
pub fn compare(tag: u32, got: &[DevCall], want: &[DevCall], exact: bool, exec_prop: &'static str, other_prop: &'static str) -> bool {
    let prop = |c: &DevCall| if matches!(c, DevCall::Exec(_)) { exec_prop } else { other_prop };
    for (i, g) in got.iter().enumerate() {
        match want.get(i) {
            Some(c) if c == g => {}
            Some(c) => {
                fail!(prop(c), "executed_wrong", "client {tag}: request {i} reached the device as {}, sent {}", g.short(), c.short());
                return false;
            }
            None => {
                fail!(prop(g), "executed_extra", "client {tag}: {} reached the device after all of its {} requests", g.short(), want.len());
                return false;
            }
        }
    }
    if exact && got.len() < want.len() {
        fail!(prop(&want[got.len()]), "not_executed", "client {tag}: only {} of {} requests reached the device, missing {}", got.len(), want.len(), want[got.len()].short());
        return false;
    }
    true
}

/// A session and what is still to come on its synchronous channel
pub struct Sess {
    pub h: Hislip,
    pub tag: u32,
    pub mid: u32,
    pub seq: u32,
    pub max_in: usize,
    pub max_out: usize,
    pub expect: std::collections::VecDeque<Expect>,
    /// Requests sent on the synchronous channel that reach the device
    pub want: Vec<DevCall>,
    pub remote_enabled: bool,
    /// Other messages come between the parts of a command
    pub mixed: bool,
    /// Calls the asynchronous channel causes; true: may be missing
    pub awant: Vec<(DevCall, bool)>,
}

#[derive(Debug, Clone)]
pub enum Expect {
    Response(u32, Vec<u8>),
    Error(u8),
}

impl Sess {
    pub fn new(h: Hislip, tag: u32, server_max: usize) -> Sess {
        Sess {
            h,
            tag,
            // As if it had been in use for a while, ids start over soon
            mid: if one_in(4) { 0xffff_fffa } else { 0xffff_ff00 },
            seq: 0,
            max_in: 256,
            max_out: server_max,
            expect: Default::default(),
            want: vec![],
            remote_enabled: true,
            mixed: one_in(2),
            awant: vec![],
        }
    }

    pub fn next_id(&mut self) -> u32 {
        self.mid = self.mid.wrapping_add(2);
        self.mid
    }

    pub fn make(&mut self, kinds: &[u8], fill: u32, resp: u32, busy: u32) -> Cmd {
        self.seq += 1;
        make_cmd(self.tag, self.seq, kinds, fill, resp, busy, &[])
    }

    /// Send a command; its response is expected later
    pub async fn send(&mut self, c: &Cmd) -> Result<(), End> {
        let id = self.next_id();
        let msgs = command_msgs(id, &c.bytes, self.max_out);
        let last = msgs.len() - 1;
        for (i, m) in msgs.iter().enumerate() {
            if i > 0 && self.mixed && one_in(4) {
                let other = if one_in(2) {
                    self.want.push(DevCall::Trigger);
                    hframe(hs::TRIGGER, 0, self.next_id(), b"")
                } else {
                    let typ = pick(&[128u8, 200, 255, 60]);
                    self.expect.push_back(Expect::Error(if typ >= 128 { 3 } else { 1 }));
                    hframe(typ, 0, id, b"")
                };
                self.h.sync.conn.send(&other).await?;
            }
            if i == last {
                self.want.push(DevCall::Exec(c.bytes.clone()));
                if let Some(r) = &c.resp {
                    if !r.is_empty() {
                        self.expect.push_back(Expect::Response(id, r.clone()));
                    }
                }
            }
            self.h.sync.conn.send(m).await?;
        }
        Ok(())
    }

    /// Receive everything that is expected
    pub async fn drain(&mut self, prop: &'static str) -> bool {
        while let Some(e) = self.expect.pop_front() {
            match e {
                Expect::Response(id, r) => match self.h.response(id, self.max_in).await {
                    Ok(b) if b == r => {}
                    Ok(b) => {
                        fail!(prop, "response", "client {}: expected / received: {}", self.tag, diff(&r, &b));
                        return false;
                    }
                    Err(e) => {
                        fail!(prop, "no_response", "client {}: {e:?} in place of the response to message {id:#x}", self.tag);
                        return false;
                    }
                },
                Expect::Error(code) => match self.h.sync.recv().await {
                    Ok(m) if m.typ == hs::ERROR && m.ctrl == code => {}
                    x => {
                        fail!(if code == 4 { "C10" } else { "C25" }, "error_answer", "client {}: {} in place of Error {code}", self.tag, show_msg(&x));
                        return false;
                    }
                },
            }
        }
        true
    }

    /// A command with an answer: everything before it has been handled when it returns
    pub async fn barrier(&mut self, prop: &'static str) -> bool {
        let c = self.make(b"Q", 10, 20, 0);
        let c = if c.resp.as_ref().unwrap().is_empty() {
            let mut b = c.bytes.clone();
            b.splice(.., format!("Q{}.{}.9.0;", self.tag, self.seq).into_bytes());
            let resp = answer(&b).0;
            Cmd { bytes: b, resp, ..c }
        } else {
            c
        };
        if let Err(e) = self.send(&c).await {
            fail!(prop, "no_response", "client {}: {e:?} when sending", self.tag);
            return false;
        }
        self.drain(prop).await
    }

    /// Query the status and check the answer
    pub async fn status(&mut self) -> Result<u8, End> {
        let n = calls(self.tag + ATAG).len();
        let unread = !self.expect.is_empty();
        let id = self.mid;
        if self.remote_enabled {
            self.awant.push((DevCall::Remote(true), true));
        }
        self.awant.push((DevCall::Status, false));
        let v = match self.h.status(one_in(2) as u8, id).await {
            Ok(v) => v,
            Err(e) => {
                fail!("C18", "no_status", "client {}: {e:?} in place of the status response", self.tag);
                return Err(e);
            }
        };
        let q: Vec<_> = calls(self.tag + ATAG).into_iter().skip(n).filter(|o| o.call == DevCall::Status).collect();
        match q.first().map(|o| o.ret) {
            Some(Ok(d)) => {
                if v & 0xef != d & 0xef || (v & 0x10 != 0 && !unread) {
                    fail!("C18", "status", "client {}: status {v:#04x}, the device's status byte was {d:#04x}, unread responses: {unread}", self.tag);
                }
            }
            Some(Err(_)) => {}
            None => {
                fail!("C18", "status_not_asked", "client {}: status {v:#04x} was answered without asking the device", self.tag);
            }
        }
        Ok(v)
    }

    /// Remote/local control
    pub async fn remote(&mut self, code: u8) -> Result<(), End> {
        let n = calls(self.tag + ATAG).len();
        let c: Vec<DevCall> = match code {
            0 | 2 => vec![DevCall::Lockout(false), DevCall::Remote(false)],
            1 => vec![],
            3 => vec![DevCall::Remote(true)],
            4 => vec![DevCall::Lockout(true)],
            5 => vec![DevCall::Lockout(true), DevCall::Remote(true)],
            6 => vec![DevCall::Remote(false)],
            _ => vec![],
        };
        match code {
            0 | 2 => self.remote_enabled = false,
            1 | 3 | 4 | 5 => self.remote_enabled = true,
            _ => {}
        }
        self.awant.extend(c.iter().map(|c| (c.clone(), false)));
        let mid = self.mid;
        self.h.asy.send(hs::REMOTE, code, mid, b"").await?;
        let m = match self.h.arecv().await {
            Ok(m) => m,
            Err(e) => {
                fail!("C20", "no_reply", "client {}: {e:?} in answer to AsyncRemoteLocalControl {code}", self.tag);
                return Err(e);
            }
        };
        let mine: Vec<_> = calls(self.tag + ATAG).into_iter().skip(n).collect();
        let failed = mine.iter().find_map(|o| o.ret.err());
        let good = match (code, failed) {
            (7.., _) => m.typ == hs::ERROR && m.ctrl == 2,
            (_, None) => m.typ == hs::REMOTE_R,
            (_, Some(_)) => m.typ == hs::ERROR,
        };
        if !good {
            fail!(
                "C20",
                "remote_reply",
                "client {}: AsyncRemoteLocalControl {code} (device: {failed:?}) was answered with message type {} control {}",
                self.tag, m.typ, m.ctrl
            );
        }
        Ok(())
    }

    /// All calls the device has seen for this session
    pub fn check_calls(&self, exact: bool) {
        let got: Vec<DevCall> = calls(self.tag).into_iter().map(|o| o.call).collect();
        compare(self.tag, &got, &self.want, exact, "C10", "C20");
        let got: Vec<DevCall> = calls(self.tag + ATAG).into_iter().map(|o| o.call).collect();
        let mut i = 0;
        for g in &got {
            while i < self.awant.len() && self.awant[i].0 != *g && self.awant[i].1 {
                i += 1
            }
            if i >= self.awant.len() || self.awant[i].0 != *g {
                fail!(
                    "C20",
                    "remote_calls",
                    "client {}: the asynchronous channel caused {:?}, expected {:?}",
                    self.tag, got, self.awant
                );
                return;
            }
            i += 1
        }
        if exact && self.awant[i..].iter().any(|x| !x.1) {
            fail!("C20", "remote_calls", "client {}: the asynchronous channel caused {:?}, expected {:?}", self.tag, got, self.awant);
        }
    }
}

pub fn show_msg(m: &Result<HMsg, End>) -> String {
    match m {
        Ok(m) => format!("message type {} control {} parameter {:#x} ({})", m.typ, m.ctrl, m.param, show(&m.data)),
        Err(e) => format!("{e:?}"),
    }
}

pub async fn data(_c: Ctx) {
    let wide = wide();
    let max = if wide { 1 << 20 } else { pick(&[1u64 << 20, 300, 64, 4096]) };
    let short = one_in(4);
    let mut cfg = config(max);
    if short {
        cfg = cfg.short_idn(b"SHORT,IDN,0,0");
    }
    let mk = |id| {
        let mut d = SimDev::new(id);
        d.slow = pick(&[0, 0, 100_000, 5_000_000]);
        d.fail = pick(&[0, 0, 3]);
        *d.stb.borrow_mut() = Some(pick(&[0u8, 0x10, 0x40, 0x55, 0xff, 0xaa]));
        Inst::with(d)
    };
    let (d0, d1) = (mk(0), mk(1));
    let srq = StatusSender::new();
    let _acc = srv::hislip(cfg, PORT, &[("hislip0", &d0), ("two", &d1)], srq);
    if !srv::up(PORT).await {
        return;
    }
    let n = 1 + below(3);
    let mut tasks = Vec::new();
    for tag in 1..=n {
        let d0 = d0.clone();
        tasks.push(simrt::spawn_labeled("client", async move { client(tag, max as usize, short, wide, d0).await }));
    }
    for t in tasks {
        t.await;
    }
    simrt::time::sleep_ns(2 * SEC).await;
    for o in w(|x| x.ops.clone()) {
        if o.by == 0 {
            fail!("C10", "unattributed", "{} reached the device for no connection", o.call.short());
        }
    }
    if op_count() >= 3 {
        nontrivial();
    }
}

async fn client(tag: u32, max: usize, short: bool, wide: bool, _d0: Inst) {
    think(20).await;
    let sub = pick(&["", "hislip0", "two", "hislip0"]);
    let dev = (sub == "two") as usize;
    let version = pick(&[0x0100u16, 0x0101, 0x0200, 0x0300, 0x01ff, 0x0201]);
    let h = match Hislip::open(PORT, sub, version, tag).await {
        Ok(h) => h,
        Err(e) => {
            fail!("C12", "not_opened", "client {tag}: session not opened: {e:?}");
            return;
        }
    };
    if h.protocol != version.min(0x0200) {
        fail!("C12", "protocol", "client {tag}: offered version {version:#x}, negotiated {:#x}", h.protocol);
    }
    let mut s = Sess::new(h, tag, max);
    // With a message limit smaller than commands, Data messages carry them in pieces
    let k = 1 + below(10);
    let pipelined = one_in(2);
    let big = if wide { huge() } else { pick(&[30, 200, 3000]) };
    for _ in 0..k {
        let r = match below(14) {
            0..=5 => {
                let c = s.make(b"QQRWE", big, big, 2000);
                s.send(&c).await
            }
            6 => {
                // Recognised without the device if so configured
                let id = s.next_id();
                let q: &[u8] = pick(&[&b"*IDN?"[..], b"*idn?", b"*Idn?", b"*IDN", b"*IDN?\n"]);
                if short && q.eq_ignore_ascii_case(b"*idn?") {
                    s.expect.push_back(Expect::Response(id, b"SHORT,IDN,0,0".to_vec()));
                } else {
                    s.want.push(DevCall::Exec(q.to_vec()));
                }
                s.h.command(id, q, max).await
            }
            7 | 8 => {
                let id = s.next_id();
                s.want.push(DevCall::Trigger);
                let junk = pick(&[&b""[..], b"x"]);
                s.h.sync.send(hs::TRIGGER, below(2) as u8, id, junk).await
            }
            9 => s.status().await.map(|_| ()),
            10 => {
                let code = pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 255]);
                s.remote(code).await
            }
            11 => {
                // More than the server accepts
                let n = max + 1 + size(2 * max.min(5000) as u32) as usize;
                if max < 1 << 20 || wide {
                    simrt::count("message_too_large");
                    let id = s.next_id();
                    s.expect.push_back(Expect::Error(4));
                    let mut body = vec![b'z'; n];
                    // Make what follows the header look like a message
                    if one_in(2) {
                        let f = hframe(hs::DATA_END, 0, 0x77, b"W9.9.0.0;smuggled");
                        let at = if one_in(2) { 0 } else { max.min(n - f.len().min(n)) };
                        for (i, b) in f.iter().enumerate() {
                            if at + i < n {
                                body[at + i] = *b
                            }
                        }
                    }
                    s.h.sync.send(hs::DATA_END, 0, id, &body).await
                } else {
                    Ok(())
                }
            }
            12 => {
                if !s.drain("C10").await {
                    return;
                }
                let v = if wide { pick(&[256u64, 1000, 65535, 65536, 70_000, 1 << 20, 1 << 32, 1 << 40]) } else { pick(&[256u64, 1, 7, 40, 1000, 1 << 40]) };
                match s.h.max_size(v).await {
                    Ok(m) => {
                        if m != max as u64 {
                            fail!("C28", "message_size", "client {tag}: the server announced {m}, configured {max}");
                        }
                        s.max_in = v as usize;
                        Ok(())
                    }
                    Err(e) => {
                        fail!("C10", "no_response", "client {tag}: {e:?} in answer to AsyncMaximumMessageSize");
                        return;
                    }
                }
            }
            _ => match s.h.info().await {
                Ok(x) => {
                    if x != (false, 0) {
                        fail!("C24", "lock_info", "client {tag}: lock info {x:?} though nobody ever locked");
                    }
                    Ok(())
                }
                Err(e) => {
                    fail!("C24", "no_lock_info", "client {tag}: {e:?} in answer to AsyncLockInfo");
                    return;
                }
            },
        };
        if let Err(e) = r {
            fail!("C10", "session_ended", "client {tag}: {e:?} in the middle of a session");
            return;
        }
        if !pipelined || one_in(4) {
            if !s.drain("C10").await {
                return;
            }
            think(20).await;
        }
    }
    if !s.barrier("C10").await {
        return;
    }
    for o in calls(tag).iter().chain(calls(tag + ATAG).iter()) {
        if o.dev != dev {
            fail!("C12", "wrong_device", "client {tag}: connected to {sub:?}, {} reached device {}", o.call.short(), o.dev);
        }
    }
    s.check_calls(true);
    match simrt::choose(Stream::Fault, 5) {
        0 | 1 => s.h.close(),
        2 => {
            // A message cut short
            simrt::count("truncated_message");
            let c = s.make(b"QW", 40, 20, 0);
            let id = s.next_id();
            let mut f = Vec::new();
            if one_in(2) {
                f.extend(hframe(hs::DATA, 0, id, &c.bytes[..c.bytes.len().min(max) / 2]));
            }
            let last = hframe(hs::DATA_END, 0, id, &c.bytes[..c.bytes.len().min(max)]);
            f.extend(&last[..last.len() - 1 - simrt::choose(Stream::Fault, last.len() as u32 - 1) as usize]);
            let _ = s.h.sync.conn.send(&f).await;
            if one_in(2) {
                let _ = s.h.sync.conn.s.shutdown(std::net::Shutdown::Write);
                simrt::count("client_half_close");
                simrt::time::sleep_ns(SEC).await;
            }
            let late = s.h.sync.conn.avail();
            if late > 0 {
                fail!("C10", "response", "client {tag}: {late} bytes in answer to a truncated message");
            }
            let (want, tag) = (s.want.clone(), s.tag);
            s.h.close();
            simrt::time::sleep_ns(SEC).await;
            let got: Vec<DevCall> = calls(tag).into_iter().map(|o| o.call).collect();
            compare(tag, &got, &want, true, "C10", "C20");
        }
        _ => {
            // Leave in the middle of pipelined requests
            for _ in 0..below(5) {
                let c = s.make(b"QRW", big, big, 2000);
                if s.send(&c).await.is_err() {
                    break;
                }
            }
            think(10).await;
            let (want, tag) = (s.want.clone(), s.tag);
            match simrt::choose(Stream::Fault, 3) {
                0 => {
                    simrt::count("client_reset");
                    s.h.sync.conn.abort();
                    s.h.asy.conn.abort();
                }
                1 => {
                    simrt::count("client_vanishes");
                    s.h.sync.conn.s.vanish();
                    s.h.asy.conn.s.vanish();
                }
                _ => {}
            }
            s.h.close();
            simrt::time::sleep_ns(SEC).await;
            let got: Vec<DevCall> = calls(tag).into_iter().map(|o| o.call).collect();
            compare(tag, &got, &want, false, "C10", "C20");
        }
    }
}
