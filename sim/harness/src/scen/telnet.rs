//! Telnet server: lines, editing commands, negotiation and escaping under arbitrary segmentation.
use super::*;
use crate::clients::*;
use crate::srv::{self, Inst};
use crate::world::*;
use lxi_telnet::server::ServerConfig;
use simrt::Stream;
use std::collections::BTreeMap;
use std::rc::Rc;

const IAC: u8 = 255;
const DO: u8 = 253;
const DONT: u8 = 254;
const WILL: u8 = 251;
const WONT: u8 = 252;

#[derive(Clone, Debug)]
enum Tok {
    /// Data bytes as typed (0xFF is escaped on the wire)
    Data(Vec<u8>),
    /// A two byte command
    Cmd(u8),
    Neg(u8, u8),
    Sub(Vec<u8>),
    /// Bytes that begin a sequence and never finish it
    Stub(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq)]
enum Out {
    Data(u8),
    Neg(u8, u8),
}

fn wire(t: &[Tok]) -> Vec<u8> {
    let mut v = Vec::new();
    for t in t {
        match t {
            Tok::Data(d) => {
                for b in d {
                    v.push(*b);
                    if *b == IAC {
                        v.push(IAC)
                    }
                }
            }
            Tok::Cmd(c) => v.extend([IAC, *c]),
            Tok::Neg(c, o) => v.extend([IAC, *c, *o]),
            Tok::Sub(d) => {
                v.extend([IAC, 250]);
                v.extend(d);
                v.extend([IAC, 240]);
            }
            Tok::Stub(b) => v.extend(b),
        }
    }
    v
}

/// What a correct server makes of it: the lines and the output stream (prompts left out)
fn model(t: &[Tok]) -> (Vec<Vec<u8>>, Vec<Out>) {
    let mut lines = Vec::new();
    let mut out = Vec::new();
    let mut cur: Vec<u8> = Vec::new();
    let mut on: BTreeMap<u8, bool> = BTreeMap::new();
    for t in t {
        match t {
            Tok::Data(d) => {
                for b in d {
                    if *on.get(&1).unwrap_or(&false) {
                        out.push(Out::Data(*b));
                    }
                    if *b == b'\n' {
                        if cur.last() == Some(&b'\r') {
                            cur.pop();
                        }
                        let (r, _) = answer(&cur);
                        if let Some(r) = r {
                            out.extend(r.iter().chain(b"\r\n").map(|b| Out::Data(*b)));
                        }
                        lines.push(std::mem::take(&mut cur));
                    } else {
                        cur.push(*b);
                    }
                }
            }
            Tok::Cmd(247) => {
                cur.pop();
            }
            Tok::Cmd(248) => cur.clear(),
            Tok::Cmd(_) | Tok::Sub(_) | Tok::Stub(_) => {}
            Tok::Neg(c, o) => {
                let local = matches!(*o, 0 | 1 | 3);
                let st = on.entry(*o).or_insert(false);
                match *c {
                    DO if local && !*st => {
                        *st = true;
                        out.push(Out::Neg(WILL, *o));
                    }
                    DO if !local => out.push(Out::Neg(WONT, *o)),
                    DONT if *st => {
                        *st = false;
                        out.push(Out::Neg(WONT, *o));
                    }
                    _ => {}
                }
            }
        }
    }
    (lines, out)
}

/// Take prompts and go-aheads out of the received bytes. Some(rest) if the end is incomplete.
fn parse(b: &[u8]) -> (Vec<Out>, usize) {
    let mut v = Vec::new();
    let mut i = 0;
    let mut prompts = 0;
    while i < b.len() {
        let r = &b[i..];
        if r.starts_with(b"SCPI> ") {
            prompts += 1;
            i += 6;
        } else if r[0] == IAC {
            if r.len() < 2 {
                break;
            }
            match r[1] {
                IAC => {
                    v.push(Out::Data(IAC));
                    i += 2;
                }
                3 | 249 => i += 2,
                251..=254 => {
                    if r.len() < 3 {
                        break;
                    }
                    // A refusal of what the client offers changes nothing for anybody
                    if r[1] != DONT {
                        v.push(Out::Neg(r[1], r[2]));
                    }
                    i += 3;
                }
                c => {
                    fail!("C07", "output", "the server sent IAC {c}");
                    i += 2;
                }
            }
        } else {
            v.push(Out::Data(r[0]));
            i += 1;
        }
    }
    // An incomplete prompt at the end
    for k in (1..6).rev() {
        let p: Vec<Out> = b"SCPI> "[..k].iter().map(|b| Out::Data(*b)).collect();
        if v.ends_with(&p) {
            v.truncate(v.len() - k);
            break;
        }
    }
    (v, prompts)
}

struct Plan {
    tag: u32,
    toks: Vec<Tok>,
    tail: Vec<Tok>,
    end: u32,
}

fn editing(level: u32) -> Option<Tok> {
    if level == 0 || !one_in(level) {
        return None;
    }
    Some(match below(9) {
        0 => Tok::Cmd(pick(&[241, 249, 246, 242, 243, 244, 245])),
        1 => Tok::Neg(DO, pick(&[1, 3, 0, 24, 31])),
        2 => Tok::Neg(DONT, pick(&[1, 3, 0, 24])),
        3 => Tok::Neg(pick(&[WILL, WONT]), pick(&[24, 31, 1, 3])),
        4 => Tok::Sub((0..1 + below(6)).map(|_| pick(&[24, 0, 1, b'\n', b'a', 240, 247])).collect()),
        5 | 6 => Tok::Cmd(247),
        7 => Tok::Cmd(248),
        _ => Tok::Data(vec![pick(&[IAC, b'z', 0, 240])]),
    })
}

fn line(tag: u32, seq: u32, level: u32, big: u32, wide: bool) -> Vec<Tok> {
    let mut v = Vec::new();
    let mut text = if one_in(12) {
        vec![]
    } else {
        let resp = if wide { huge() } else if one_in(8) { 4000 } else { big };
        make_cmd(tag, seq, b"QWERQ", big, resp, 2000, if one_in(3) { b"\n" } else { b"\n\r" }).bytes
    };
    if one_in(10) {
        // Only the last one belongs to the line end
        text.push(b'\r');
    }
    // Junk that is then erased, so that the line stays a command of this client
    if level > 0 && one_in(3) {
        v.push(Tok::Data(vec![b'j'; 1 + below(5) as usize]));
        if let Some(t) = editing(level) {
            if !matches!(t, Tok::Data(_)) {
                v.push(t);
            }
        }
        v.push(Tok::Cmd(248));
    }
    let mut i = 0;
    while i < text.len() {
        let n = (1 + size(if wide { 4000 } else { 30 }) as usize).min(text.len() - i);
        v.push(Tok::Data(text[i..i + n].to_vec()));
        i += n;
        if level > 0 && one_in(3) {
            v.push(Tok::Data(vec![pick(b"xyz\xff\0")]));
            v.push(Tok::Cmd(247));
        }
        if let Some(t) = editing(level) {
            match t {
                // these change the text: only after the header is safe, and the header has no such gaps
                Tok::Cmd(247) | Tok::Data(_) if i < 14 => {}
                Tok::Cmd(248) => {}
                t => v.push(t),
            }
        }
    }
    v.push(Tok::Data(if one_in(4) { b"\n".to_vec() } else { b"\r\n".to_vec() }));
    v
}

pub async fn run(_c: Ctx) {
    let mut dev = SimDev::new(0);
    dev.slow = pick(&[0, 0, 100_000, 5_000_000]);
    let inst = Inst::with(dev);
    let direct = one_in(3);
    let server = ServerConfig::default().read_buffer(pick(&[512 * 1024, 1, 16]));
    let mut server = Some(server);
    let mut _acc = None;
    let mut built = None;
    if direct {
        built = Some(server.take().unwrap().build());
    } else {
        _acc = Some(srv::telnet(server.take().unwrap(), 5024, &inst));
        if !srv::up(5024).await {
            return;
        }
    }
    let n = 1 + below(3);
    let wide = wide();
    let level = if wide { 0 } else { pick(&[0, 8, 3, 2]) };
    let plans: Vec<Rc<Plan>> = (1..=n)
        .map(|tag| {
            let big = if wide { pick(&[30, 20_000, 70_000]) } else { pick(&[30, 90, 400]) };
            let mut toks = Vec::new();
            for seq in 0..below(if wide { 3 } else { 7 }) {
                toks.extend(line(tag, seq, level, big, wide));
            }
            let mut tail = Vec::new();
            if one_in(3) {
                tail.push(Tok::Data(make_cmd(tag, 90, b"QW", 10, 10, 0, b"\n\r").bytes));
                match below(4) {
                    0 => tail.push(Tok::Stub(vec![IAC])),
                    1 => tail.push(Tok::Stub(vec![IAC, DO])),
                    2 => tail.push(Tok::Stub(vec![IAC, 250, 24])),
                    _ => {}
                }
            }
            Rc::new(Plan {
                tag,
                toks,
                tail,
                end: simrt::choose(Stream::Fault, 6),
            })
        })
        .collect();
    let mut tasks = Vec::new();
    for p in &plans {
        let (p, built, inst) = (p.clone(), built.clone(), inst.clone());
        tasks.push(simrt::spawn_labeled("client", async move {
            think(30).await;
            let conn = if direct {
                let (a, b) = simrt::net::pair();
                let conn = Conn::new(a, p.tag);
                let st = async_std::net::TcpStream::from_sim(b);
                let tag = p.tag;
                simrt::spawn_labeled("process_client", async move {
                    let _ = built.unwrap().process_client(st, inst.lock.clone(), inst.dev.clone(), tag).await;
                })
                .detach();
                Ok(conn)
            } else {
                Conn::open(addr(5024), p.tag).await
            };
            match conn {
                Ok(c) => client(c, &p).await,
                Err(e) => fail!("C07", "refused", "connection refused: {e}"),
            }
        }));
    }
    for t in tasks {
        t.await;
    }
    if execs(0).len() >= 2 {
        nontrivial();
    }
    simrt::time::sleep_ns(2 * SEC).await;
    for o in ops(0) {
        if let DevCall::Exec(b) = &o.call {
            if o.by == 0 {
                fail!("C07", "unattributed", "line {} was executed for no connection", show(b));
            }
        } else {
            fail!("C07", "other_call", "a telnet client caused {}", o.call.short());
        }
    }
}

fn done(tag: u32) -> Vec<Vec<u8>> {
    ops(0)
        .into_iter()
        .filter(|o| o.by == tag)
        .filter_map(|o| match o.call {
            DevCall::Exec(c) => Some(c),
            _ => None,
        })
        .collect()
}

fn compare(tag: u32, want: &[Vec<u8>], exact: bool) {
    let got = done(tag);
    for (i, g) in got.iter().enumerate() {
        match want.get(i) {
            Some(c) if c == g => {}
            Some(c) => {
                fail!("C07", "executed_wrong", "client {tag}: line {i} was executed as {:?}, typed {:?}", show(g), show(c));
                return;
            }
            None => {
                fail!("C07", "executed_extra", "client {tag}: {:?} was executed after all of its {} lines", show(g), want.len());
                return;
            }
        }
    }
    if exact && got.len() < want.len() {
        fail!("C07", "not_executed", "client {tag}: only {} of {} lines were executed", got.len(), want.len());
    }
}

fn outputs(tag: u32, want: &[Out], got: &[u8], exact: bool) {
    let (g, prompts) = parse(got);
    let n = g.iter().zip(want.iter()).position(|(a, b)| a != b).unwrap_or(g.len().min(want.len()));
    if g.len() > n && (n < want.len() || exact) || exact && want.len() > n {
        fail!(
            "C07",
            "output",
            "client {tag}: output differs at item {n}: expected {:?}, received {:?} (lengths {} and {})",
            &want[n..want.len().min(n + 6)],
            &g[n..g.len().min(n + 6)],
            want.len(),
            g.len()
        );
    }
    if exact && prompts == 0 {
        fail!("C07", "prompt", "client {tag} never got a prompt");
    }
}

async fn client(conn: Conn, p: &Plan) {
    let mode = p.end;
    let (lines, want) = model(&p.toks);
    let mut w = wire(&p.toks);
    if mode == 3 || mode == 5 {
        w.truncate(simrt::choose(Stream::Fault, w.len() as u32 + 1) as usize);
    }
    if one_in(3) {
        conn.pause(true);
        simrt::count("client_stops_reading");
    }
    let s = conn.s.clone();
    let t = simrt::spawn_labeled("client-writer", async move { send_split(&s, &w).await });
    think(50).await;
    conn.pause(false);
    let _ = t.await;
    match mode {
        0 | 1 => {
            let n = lines.len();
            let c = &conn;
            let w = &want;
            let tag = p.tag;
            if !settle(900 * SEC, || done(tag).len() >= n && parse(&c.peek_all()).0.len() >= w.len()).await {
                let g = parse(&conn.peek_all()).0;
                compare(p.tag, &lines, true);
                if execs(0).len() >= n {
                    fail!("C07", "no_response", "client {}: {} of {} output items arrived ({:?})", p.tag, g.len(), want.len(), conn.ended());
                }
                return;
            }
            if !p.tail.is_empty() {
                let _ = conn.send(&wire(&p.tail)).await;
            }
            simrt::time::sleep_ns(SEC).await;
            outputs(p.tag, &with_tail(p), &conn.peek_all(), true);
            conn.close();
            simrt::time::sleep_ns(SEC).await;
            compare(p.tag, &lines, true);
        }
        2 => {
            if !p.tail.is_empty() {
                let _ = conn.send(&wire(&p.tail)).await;
            }
            let _ = conn.s.shutdown(std::net::Shutdown::Write);
            simrt::count("client_half_close");
            let (x, e) = conn.until_end().await;
            if e == End::Timeout {
                fail!("C07", "no_end", "client {}: the session did not end with the client's side of the connection", p.tag);
            }
            outputs(p.tag, &with_tail(p), &x, true);
            compare(p.tag, &lines, true);
        }
        3 => {
            simrt::count("client_reset");
            conn.abort();
            conn.close();
            simrt::time::sleep_ns(SEC).await;
            compare(p.tag, &lines, false);
        }
        4 => {
            simrt::count("client_closes_without_reading");
            if !p.tail.is_empty() {
                let _ = conn.send(&wire(&p.tail)).await;
            }
            conn.close();
            simrt::time::sleep_ns(SEC).await;
            compare(p.tag, &lines, false);
        }
        _ => {
            simrt::count("client_vanishes");
            simrt::time::sleep_ns(SEC).await;
            outputs(p.tag, &want, &conn.peek_all(), false);
            conn.s.vanish();
            simrt::time::sleep_ns(SEC).await;
            compare(p.tag, &lines, false);
        }
    }
}

fn with_tail(p: &Plan) -> Vec<Out> {
    let mut all = p.toks.clone();
    all.extend(p.tail.iter().cloned());
    model(&all).1
}
