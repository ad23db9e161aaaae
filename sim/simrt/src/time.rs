//! Timers on the simulated clock.
use crate::exec;
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use std::time::{Duration, Instant};

struct Inner {
    fired: bool,
    key: (u64, u64),
    waker: Option<Waker>,
}

/// Fires once at a point of simulated time
pub struct Timer {
    at: u64,
    inner: Option<Rc<RefCell<Inner>>>,
}

// A simulated run never leaves its OS thread.
unsafe impl Send for Timer {}
unsafe impl Sync for Timer {}

impl std::fmt::Debug for Timer {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Timer({})", self.at)
    }
}

impl Timer {
    pub fn after(d: Duration) -> Timer {
        let ns = d.as_nanos().min(u64::MAX as u128 / 4) as u64;
        Timer {
            at: exec::now().saturating_add(ns),
            inner: None,
        }
    }
    pub fn after_ns(ns: u64) -> Timer {
        Timer {
            at: exec::now().saturating_add(ns),
            inner: None,
        }
    }
}

impl Future for Timer {
    type Output = Instant;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Instant> {
        let now = exec::now();
        if now >= self.at {
            return Poll::Ready(Instant::now());
        }
        match &self.inner {
            Some(i) => {
                let mut i = i.borrow_mut();
                if i.fired {
                    return Poll::Ready(Instant::now());
                }
                i.waker = Some(cx.waker().clone());
            }
            None => {
                let i = Rc::new(RefCell::new(Inner {
                    fired: false,
                    key: (0, 0),
                    waker: Some(cx.waker().clone()),
                }));
                let j = i.clone();
                let key = exec::schedule(self.at - now, move || {
                    let w = {
                        let mut j = j.borrow_mut();
                        j.fired = true;
                        j.waker.take()
                    };
                    exec::count("timer_fired");
                    if let Some(w) = w {
                        w.wake()
                    }
                });
                i.borrow_mut().key = key;
                self.inner = Some(i);
            }
        }
        Poll::Pending
    }
}

impl Drop for Timer {
    fn drop(&mut self) {
        if let Some(i) = &self.inner {
            let (fired, key, w) = match i.try_borrow_mut() {
                Ok(mut i) => (i.fired, i.key, i.waker.take()),
                Err(_) => return,
            };
            drop(w);
            if !fired {
                exec::unschedule(key)
            }
        }
    }
}

pub fn sleep_ns(ns: u64) -> Timer {
    Timer::after_ns(ns)
}

pub fn sleep_ms(ms: u64) -> Timer {
    Timer::after_ns(ms * 1_000_000)
}

/// Some(output), or None when `ns` of simulated time passed first
pub async fn timeout_ns<F: Future>(ns: u64, f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let mut t = Timer::after_ns(ns);
    std::future::poll_fn(move |cx| {
        if let Poll::Ready(v) = f.as_mut().poll(cx) {
            return Poll::Ready(Some(v));
        }
        if Pin::new(&mut t).poll(cx).is_ready() {
            return Poll::Ready(None);
        }
        Poll::Pending
    })
    .await
}

pub async fn yield_now() {
    let mut done = false;
    std::future::poll_fn(move |cx| {
        if done {
            Poll::Ready(())
        } else {
            done = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    })
    .await
}
