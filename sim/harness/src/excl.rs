//! Exclusion: what may happen on the device between grant and release of a lock.
use crate::lin::{self, Ev, Op, Res, Verdict};
use crate::world::*;
use std::cell::RefCell;
use std::rc::Rc;

/// The time a client knows it held a lock: from the answer that granted it to its own request to release
#[derive(Clone, Debug)]
pub struct Hold {
    pub handle: usize,
    pub excl: bool,
    pub from: u64,
    pub to: u64,
}

/// One use of the device
#[derive(Clone, Debug)]
pub struct Use {
    pub handle: usize,
    pub submit: u64,
    pub start: u64,
    pub end: u64,
    pub what: String,
}

#[derive(Default)]
pub struct Hist {
    pub evs: Vec<Ev>,
    pub holds: Vec<Hold>,
    pub uses: Vec<Use>,
    /// Time in which a handle may hold some lock
    pub maybe: Vec<Maybe>,
}

/// In stamps and in simulated time
#[derive(Clone, Debug)]
pub struct Maybe {
    pub handle: usize,
    pub from: u64,
    pub to: u64,
    pub from_t: u64,
    pub to_t: u64,
}

#[derive(Clone, Default)]
pub struct Rec(pub Rc<RefCell<Hist>>);

impl Rec {
    pub fn ev(&self, thread: usize, handle: usize, call: u64, ret: u64, op: Op, res: Res) {
        self.0.borrow_mut().evs.push(Ev { thread, handle, call, ret, op, res });
    }

    pub fn granted(&self, handle: usize, excl: bool, from: u64) {
        self.0.borrow_mut().holds.push(Hold { handle, excl, from, to: u64::MAX });
    }

    /// The handle is about to give up all it holds
    pub fn releasing(&self, handle: usize, at: u64) {
        for h in self.0.borrow_mut().holds.iter_mut() {
            if h.handle == handle && h.to == u64::MAX {
                h.to = at
            }
        }
    }

    /// The handle asks for a lock
    pub fn asking(&self, handle: usize, at: u64) {
        let mut h = self.0.borrow_mut();
        if !h.maybe.iter().any(|m| m.handle == handle && m.to == u64::MAX) {
            h.maybe.push(Maybe { handle, from: at, to: u64::MAX, from_t: simrt::now(), to_t: u64::MAX });
        }
    }

    /// The handle certainly holds nothing any more
    pub fn holds_nothing(&self, handle: usize, at: u64) {
        for m in self.0.borrow_mut().maybe.iter_mut() {
            if m.handle == handle && m.to == u64::MAX {
                m.to = at;
                m.to_t = m.to_t.min(simrt::now());
            }
        }
    }

    /// The client has gone; the server knows by `t` at the latest
    pub fn gone(&self, handle: usize, t: u64) {
        for m in self.0.borrow_mut().maybe.iter_mut() {
            if m.handle == handle && m.to_t == u64::MAX {
                m.to_t = t
            }
        }
    }

    /// A stretch of at least `min` within from..to in which nobody but `handle` can have held a lock
    pub fn free_stretch(&self, handle: usize, from: u64, to: u64, min: u64) -> Option<(u64, u64)> {
        let h = self.0.borrow();
        let mut v: Vec<(u64, u64)> = h.maybe.iter().filter(|m| m.handle != handle).map(|m| (m.from_t, m.to_t)).collect();
        v.sort();
        let mut at = from;
        for (a, b) in v {
            let a = a.min(to);
            if a > at && a - at >= min {
                return Some((at, a));
            }
            at = at.max(b);
        }
        if to > at && to - at >= min {
            return Some((at, to));
        }
        None
    }

    pub fn used(&self, u: Use) {
        self.0.borrow_mut().uses.push(u)
    }

    pub fn held_now(&self, handle: usize) -> bool {
        self.0.borrow().holds.iter().any(|h| h.handle == handle && h.to == u64::MAX)
    }

    /// C01 over the recorded uses
    pub fn check_exclusion(&self) {
        let h = self.0.borrow();
        let maybe = |handle: usize, from: u64, to: u64| h.maybe.iter().any(|m| m.handle == handle && m.from <= to && m.to >= from);
        for hold in &h.holds {
            let mine: Vec<&Use> = h
                .uses
                .iter()
                .filter(|u| u.handle == hold.handle && u.start >= hold.from && u.end <= hold.to)
                .collect();
            let window = if mine.len() >= 2 {
                Some((mine.iter().map(|u| u.end).min().unwrap(), mine.iter().map(|u| u.start).max().unwrap()))
            } else {
                None
            };
            for u in &h.uses {
                if u.handle == hold.handle {
                    continue;
                }
                let allowed = |from: u64, to: u64| !hold.excl && maybe(u.handle, from, to);
                if u.submit > hold.from && u.start < hold.to && !allowed(u.submit, u.end) {
                    fail!(
                        "C01",
                        "used_while_locked",
                        "handle {} used the device ({}) at {}..{}, submitted at {}, while handle {} held {} lock from {} to {}",
                        u.handle, u.what, u.start, u.end, u.submit, hold.handle,
                        if hold.excl { "an exclusive" } else { "a shared" }, hold.from, hold.to
                    );
                    return;
                }
                if let Some((a, b)) = window {
                    if u.start > a && u.end < b && !allowed(u.submit, u.end) {
                        fail!(
                            "C01",
                            "used_between",
                            "handle {} used the device ({}) at {}..{} between uses by handle {}, which held {} lock from {} to {}",
                            u.handle, u.what, u.start, u.end, hold.handle,
                            if hold.excl { "an exclusive" } else { "a shared" }, hold.from, hold.to
                        );
                        return;
                    }
                }
            }
        }
    }

    /// The lock history against the sequential lock. `lock_prop`: what an unexplained lock history breaks,
    /// `use_prop`: a use of the device, `refuse_prop`: a refused use
    pub fn check_lock(&self, lock_prop: &'static str, use_prop: &'static str, refuse_prop: &'static str) {
        let h = self.0.borrow();
        let mut evs = h.evs.clone();
        match simrt::alloc::uncounted(|| lin::check(&evs, 60_000)) {
            Verdict::Explained => return,
            Verdict::GaveUp => {
                probe("linearizability_gave_up");
                return;
            }
            Verdict::Refuted(why) => {
                let is_use = |e: &Ev| matches!(e.op, Op::Use | Op::TryUse);
                evs.retain(|e| !is_use(e) || e.res == Res::Ok);
                let used = simrt::alloc::uncounted(|| lin::check(&evs, 60_000));
                evs.retain(|e| !is_use(e));
                match (simrt::alloc::uncounted(|| lin::check(&evs, 60_000)), used) {
                    (Verdict::Refuted(why), _) => {
                        // Is it explained by an effect of a failed request?
                        if let Verdict::Explained = simrt::alloc::uncounted(|| lin::search(&evs, 60_000, true)) {
                            fail!(refuse_prop, "residue_history", "only an effect of failed lock requests explains: {why}");
                        }
                        fail!(lock_prop, "lock_history", "{why}");
                    }
                    (_, Verdict::Refuted(why)) => fail!(use_prop, "use_history", "{why}"),
                    _ => fail!(refuse_prop, "refused_history", "{why}"),
                }
            }
        }
    }
}
