//! Reference model of the shared/exclusive lock and a linearizability check against it.
//!
//! A history is a set of threads; each thread is a sequence of operations on one handle, every operation an
//! interval of scheduler stamps. The check searches for a total order that respects the intervals and that the
//! sequential model explains (Wing and Gong, with memoisation on progress and model state).
use std::collections::{BTreeSet, HashSet};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    /// Acquire without waiting; empty key: exclusive
    Try(Vec<u8>, bool),
    /// Acquire, waiting as long as it takes or until it gives up
    Acquire(Vec<u8>, bool),
    Release,
    /// Give up everything (drop, disconnect, destroy link)
    Leave,
    Info,
    /// May the handle use the device?
    Can,
    /// Use the device without waiting
    TryUse,
    /// Use the device, waiting until allowed
    Use,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Res {
    Ok,
    Shared,
    Exclusive,
    AlreadyLocked,
    AlreadyUnlocked,
    LockedByShared,
    LockedByExclusive,
    /// Refused because the device was in use
    Busy,
    /// A client learnt only that it failed because it is not available now
    Unavailable,
    /// A client learnt only that the request made no sense
    Error,
    /// Gave up or was cancelled without effect
    Cancelled,
    Info(bool, u32),
    /// The result was never learnt
    Unknown,
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub thread: usize,
    pub handle: usize,
    pub call: u64,
    /// u64::MAX: never returned
    pub ret: u64,
    pub op: Op,
    pub res: Res,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Lock {
    pub excl: Option<usize>,
    pub key: Option<Vec<u8>>,
    pub holders: BTreeSet<usize>,
}

impl Lock {
    fn try_acquire(&mut self, h: usize, key: &[u8], exclusive: bool) -> Res {
        if exclusive {
            match self.excl {
                Some(e) if e == h => Res::AlreadyLocked,
                Some(_) => Res::LockedByExclusive,
                None => {
                    if self.key.is_none() || self.holders.contains(&h) {
                        self.excl = Some(h);
                        Res::Ok
                    } else {
                        Res::LockedByShared
                    }
                }
            }
        } else {
            if self.holders.contains(&h) {
                return Res::AlreadyLocked;
            }
            match (&self.key, self.excl) {
                (None, None) => {
                    self.key = Some(key.to_vec());
                    self.holders.insert(h);
                    Res::Ok
                }
                (None, Some(e)) if e == h => Res::AlreadyLocked,
                (None, Some(_)) => Res::LockedByExclusive,
                (Some(k), _) if k == key => {
                    self.holders.insert(h);
                    Res::Ok
                }
                // Either reason explains why a different key is refused while both kinds are held
                (Some(_), _) => Res::LockedByShared,
            }
        }
    }

    pub fn can(&self, h: usize) -> Res {
        if self.excl == Some(h) {
            Res::Ok
        } else if self.excl.is_some() {
            Res::LockedByExclusive
        } else if self.key.is_some() && !self.holders.contains(&h) {
            Res::LockedByShared
        } else {
            Res::Ok
        }
    }

    fn release(&mut self, h: usize) -> Res {
        let mut r = Res::AlreadyUnlocked;
        if self.holders.remove(&h) {
            if self.holders.is_empty() {
                self.key = None
            }
            r = Res::Shared;
        }
        if self.excl == Some(h) {
            self.excl = None;
            r = Res::Exclusive;
        }
        r
    }

    /// What a failed acquire might have left behind
    fn residues(&self, e: &Ev) -> Vec<Lock> {
        let (Op::Try(k, x) | Op::Acquire(k, x)) = &e.op else { return vec![] };
        if !matches!(e.res, Res::Unavailable | Res::Cancelled | Res::Unknown | Res::LockedByShared | Res::LockedByExclusive) {
            return vec![];
        }
        let h = e.handle;
        let mut v = Vec::new();
        let mut n = self.clone();
        n.release(h);
        v.push(n);
        let mut n = self.clone();
        if *x {
            n.excl = Some(h)
        } else {
            n.key = Some(k.clone());
            n.holders.insert(h);
        }
        v.push(n);
        v
    }

    /// The states that explain the result of the operation at this point
    fn step(&self, e: &Ev) -> Vec<Lock> {
        let h = e.handle;
        let mut n = self.clone();
        let blocked = |r: Res| matches!(r, Res::LockedByShared | Res::LockedByExclusive);
        match &e.op {
            Op::Try(k, x) => {
                let r = n.try_acquire(h, k, *x);
                let ok = match e.res {
                    Res::Unknown => true,
                    Res::Unavailable => blocked(r),
                    Res::Error => r == Res::AlreadyLocked,
                    want => want == r || (blocked(want) && blocked(r) && self.excl.is_some() && self.key.is_some()),
                };
                if ok {
                    vec![n]
                } else {
                    vec![]
                }
            }
            Op::Acquire(k, x) => {
                let r = n.try_acquire(h, k, *x);
                match e.res {
                    Res::Ok if r == Res::Ok => vec![n],
                    Res::Error | Res::AlreadyLocked if r == Res::AlreadyLocked => vec![n],
                    // Gave up: it must have had a reason to wait at some point
                    Res::Unavailable if blocked(r) => vec![self.clone()],
                    Res::Cancelled => vec![self.clone()],
                    Res::Unknown => vec![n, self.clone()],
                    _ => vec![],
                }
            }
            Op::Release => {
                let r = n.release(h);
                let ok = match e.res {
                    Res::Unknown => true,
                    Res::Ok => r != Res::AlreadyUnlocked,
                    Res::Error => r == Res::AlreadyUnlocked,
                    want => want == r,
                };
                if ok {
                    vec![n]
                } else {
                    vec![]
                }
            }
            Op::Leave => {
                n.release(h);
                vec![n]
            }
            Op::Info => match e.res {
                Res::Info(x, c) => {
                    if x == self.excl.is_some() && c as usize == self.holders.len() {
                        vec![n]
                    } else {
                        vec![]
                    }
                }
                _ => vec![n],
            },
            Op::Can | Op::TryUse | Op::Use => {
                let r = self.can(h);
                let ok = match e.res {
                    Res::Ok | Res::Busy => r == Res::Ok,
                    Res::Unavailable => blocked(r),
                    Res::Cancelled | Res::Unknown => true,
                    want => want == r,
                };
                if ok {
                    vec![n]
                } else {
                    vec![]
                }
            }
        }
    }
}

pub enum Verdict {
    Explained,
    /// The furthest the search got: operations that could not be placed
    Refuted(String),
    GaveUp,
}

pub fn check(evs: &[Ev], budget: usize) -> Verdict {
    search(evs, budget, false)
}

/// `residues`: failed acquires may have had an effect
pub fn search(evs: &[Ev], budget: usize, residues: bool) -> Verdict {
    let nt = evs.iter().map(|e| e.thread + 1).max().unwrap_or(0);
    let mut th: Vec<Vec<&Ev>> = vec![Vec::new(); nt];
    for e in evs {
        th[e.thread].push(e);
    }
    for t in th.iter_mut() {
        t.sort_by_key(|e| e.call);
    }
    let mut seen: HashSet<(Vec<u16>, Lock)> = HashSet::new();
    let mut stack: Vec<(Vec<u16>, Lock)> = vec![(vec![0; nt], Lock::default())];
    let mut best: (usize, Vec<u16>, Lock) = (0, vec![0; nt], Lock::default());
    let mut left = budget;
    while let Some((pos, st)) = stack.pop() {
        if !seen.insert((pos.clone(), st.clone())) {
            continue;
        }
        if left == 0 {
            return Verdict::GaveUp;
        }
        left -= 1;
        let mut done = true;
        let mut min_ret = u64::MAX;
        for (t, p) in pos.iter().enumerate() {
            if let Some(e) = th[t].get(*p as usize) {
                if e.ret != u64::MAX {
                    done = false;
                }
                min_ret = min_ret.min(e.ret);
            }
        }
        if done {
            return Verdict::Explained;
        }
        let n: usize = pos.iter().map(|p| *p as usize).sum();
        if n > best.0 {
            best = (n, pos.clone(), st.clone());
        }
        for t in 0..nt {
            if let Some(e) = th[t].get(pos[t] as usize) {
                if e.call <= min_ret {
                    let mut np = pos.clone();
                    np[t] += 1;
                    let v = st.step(e);
                    if residues && !v.is_empty() {
                        for s in st.residues(e) {
                            stack.push((np.clone(), s));
                        }
                    }
                    for s in v {
                        stack.push((np.clone(), s));
                    }
                }
            }
        }
    }
    let mut s = format!("no order explains the history; stuck after {} operations with lock {:?}; next: ", best.0, best.2);
    for t in 0..nt {
        if let Some(e) = th[t].get(best.1[t] as usize) {
            s.push_str(&format!(
                "[handle {} {:?} -> {:?} in {}..{}] ",
                e.handle,
                e.op,
                e.res,
                e.call,
                if e.ret == u64::MAX { "never".to_string() } else { e.ret.to_string() }
            ));
        }
    }
    Verdict::Refuted(s)
}
