//! The status event broadcast, used directly.
use super::*;
use crate::clients::*;
use crate::world::*;
use futures::StreamExt;
use lxi_device::status::{Receiver, Sender};
use simrt::stamp;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

struct Event {
    call: u64,
    ret: u64,
}

#[derive(Default)]
struct Got {
    /// Creation
    call: u64,
    ret: u64,
    /// Beginning and end of every receive that gave something
    items: Vec<(u8, u64)>,
    /// Dropped, or ended by the stream
    over: Option<u64>,
    ended: bool,
    /// Never dropped while something may be in it
    complete: bool,
}

#[derive(Default)]
struct Hist {
    events: RefCell<Vec<Event>>,
    got: RefCell<Vec<Got>>,
}

fn new_receiver(s: &mut Sender, h: &Hist) -> (usize, Receiver) {
    let call = stamp();
    let r = s.get_new_receiver();
    let mut g = h.got.borrow_mut();
    g.push(Got { call, ret: stamp(), ..Got::default() });
    (g.len() - 1, r)
}

async fn receiver(i: usize, mut r: Receiver, h: Rc<Hist>, kind: u32, over: Rc<Cell<bool>>) {
    let item = |v: u8| h.got.borrow_mut()[i].items.push((v, stamp()));
    let n = below(12);
    let mut k = 0;
    loop {
        match kind {
            // Always ready
            0 => {}
            // Slow
            1 => think(100).await,
            // Looks now and then without waiting
            2 => {
                think(60).await;
                match r.try_next() {
                    Ok(Some(v)) => item(v),
                    Ok(None) => {
                        h.got.borrow_mut()[i].ended = true;
                        break;
                    }
                    Err(_) => {}
                }
                if over.get() {
                    // No more events: take what is left
                    while let Some(v) = r.next().await {
                        item(v);
                    }
                    h.got.borrow_mut()[i].ended = true;
                    break;
                }
                continue;
            }
            // Takes nothing until all is over
            3 => {
                while !over.get() {
                    think(100).await;
                }
            }
            // Gives up a receive now and then
            _ => {
                if let Some(v) = simrt::time::timeout_ns(below(50) as u64 * MS, r.next()).await {
                    match v {
                        Some(v) => item(v),
                        None => {
                            h.got.borrow_mut()[i].ended = true;
                            break;
                        }
                    }
                }
                continue;
            }
        }
        if kind < 2 && k == n && one_in(4) {
            // Goes
            h.got.borrow_mut()[i].over = Some(stamp());
            drop(r);
            return;
        }
        k += 1;
        match r.next().await {
            Some(v) => item(v),
            None => {
                h.got.borrow_mut()[i].ended = true;
                break;
            }
        }
    }
    h.got.borrow_mut()[i].complete = true;
}

pub async fn broadcast(_c: Ctx) {
    let mut s = Sender::new();
    let h = Rc::new(Hist::default());
    let over = Rc::new(Cell::new(false));
    let mut recs = Vec::new();
    for _ in 0..below(4) {
        let (i, r) = new_receiver(&mut s, &h);
        recs.push(simrt::spawn_labeled("receiver", receiver(i, r, h.clone(), below(5), over.clone())));
    }
    let mut tasks = Vec::new();
    let recs = Rc::new(RefCell::new(recs));
    let bursty = one_in(3);
    for _ in 0..1 + below(3) {
        let mut s = s.clone();
        let (h, over, recs) = (h.clone(), over.clone(), recs.clone());
        let n = below(15);
        tasks.push(simrt::spawn_labeled("sender", async move {
            for _ in 0..n {
                if !(bursty && one_in(2)) {
                    think(60).await;
                }
                match below(6) {
                    0 if h.got.borrow().len() < 12 => {
                        let (i, r) = new_receiver(&mut s, &h);
                        let t = simrt::spawn_labeled("receiver", receiver(i, r, h.clone(), below(5), over.clone()));
                        recs.borrow_mut().push(t);
                    }
                    1 => {
                        // One that nobody reads, and that is dropped
                        let (i, r) = new_receiver(&mut s, &h);
                        think(30).await;
                        h.got.borrow_mut()[i].over = Some(stamp());
                        drop(r);
                    }
                    2 => s = s.clone(),
                    _ => {
                        let k = {
                            let mut e = h.events.borrow_mut();
                            e.push(Event { call: stamp(), ret: u64::MAX });
                            e.len() - 1
                        };
                        s.send_status(k as u8);
                        h.events.borrow_mut()[k].ret = stamp();
                    }
                }
            }
        }));
    }
    for t in tasks {
        t.await;
    }
    // A receiver that waits gets the last event
    simrt::time::sleep_ns(SEC).await;
    over.set(true);
    drop(s);
    let recs = recs.take();
    for t in recs {
        if simrt::time::timeout_ns(600 * SEC, t).await.is_none() {
            fail!("C21", "not_ended", "a receiver waits although all senders have gone");
            return;
        }
    }
    check(&h);
}

fn check(h: &Hist) {
    let (ev, got) = (h.events.borrow(), h.got.borrow());
    let mut most = 0;
    for (i, g) in got.iter().enumerate() {
        let name = |v: u8| format!("event {v} (sent {}..{})", ev[v as usize].call, ev[v as usize].ret);
        most = most.max(g.items.len());
        for (k, (v, at)) in g.items.iter().enumerate() {
            let Some(e) = ev.get(*v as usize) else {
                fail!("C21", "never_sent", "receiver {i} got {v}, which was never sent");
                return;
            };
            if e.call > *at {
                fail!("C21", "never_sent", "receiver {i} got {} at {at}", name(*v));
            }
            if e.ret < g.call {
                fail!("C21", "too_old", "receiver {i}, created at {}, got {}", g.call, name(*v));
            }
            for (u, _) in &g.items[..k] {
                if u == v {
                    fail!("C21", "twice", "receiver {i} got {} twice", name(*v));
                }
                if ev[*u as usize].call > e.ret {
                    fail!("C21", "order", "receiver {i} got {} before {}", name(*u), name(*v));
                }
            }
        }
        // Events it had room for: nothing can have been in it
        let received = |v: usize| g.items.iter().find(|x| x.0 as usize == v).map(|x| x.1);
        for (k, e) in ev.iter().enumerate() {
            if e.call < g.ret || g.over.map_or(false, |o| o < e.ret || !g.complete) || received(k).is_some() {
                continue;
            }
            let empty = ev.iter().enumerate().all(|(j, o)| j == k || o.call > e.ret || received(j).map_or(true, |at| at < e.call));
            if empty {
                fail!("C21", "lost", "receiver {i}, created at {}, was empty but did not get {}; it got {:?}", g.ret, name(k as u8), g.items);
            }
        }
        if g.complete && !g.ended {
            fail!("C21", "not_ended", "receiver {i} did not end with its senders");
        }
    }
    if most >= 2 {
        nontrivial();
    }
    // Two that got the same two events got them in the same order, when nobody else can tell
    for (i, a) in got.iter().enumerate() {
        for (j, b) in got.iter().enumerate().skip(i + 1) {
            for (x, (v, _)) in a.items.iter().enumerate() {
                for (u, _) in &a.items[x + 1..] {
                    let p = |w: u8| b.items.iter().position(|t| t.0 == w);
                    if let (Some(pv), Some(pu)) = (p(*v), p(*u)) {
                        if pu < pv {
                            fail!("C21", "order", "receivers {i} and {j} got events {v} and {u} in different orders");
                        }
                    }
                }
            }
        }
    }
}
