//! What one run records: device calls, violations, probes; and the simulated instrument.
use lxi_device::{trigger::Source as Trig, Device, DeviceError};
use simrt::Stream;
use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Violation {
    /// Property the observation breaks
    pub prop: &'static str,
    /// Class of the violation, stable under minimisation
    pub kind: &'static str,
    pub msg: String,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum DevCall {
    Exec(Vec<u8>),
    Status,
    Trigger,
    Clear,
    Remote(bool),
    Lockout(bool),
}

impl DevCall {
    pub fn short(&self) -> String {
        match self {
            DevCall::Exec(c) => format!("exec({})", show(c)),
            x => format!("{x:?}"),
        }
    }
}

#[derive(Clone, Debug)]
pub struct DevOp {
    pub dev: usize,
    /// Client on whose behalf the call was made (0: unknown)
    pub by: u32,
    pub start: u64,
    pub end: u64,
    pub t: u64,
    pub call: DevCall,
    /// What the device answered to a status call, or whether another call succeeded
    pub ret: Result<u8, u8>,
}

#[derive(Default)]
pub struct World {
    pub ops: Vec<DevOp>,
    pub viol: Vec<Violation>,
    pub counts: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    in_call: BTreeMap<usize, u32>,
    /// The executor takes no task for the next n connections; how many it did not take
    pub spawn_fails: u32,
    pub spawn_failed: u32,
    /// What the HiSLIP server was configured with: prefers overlapped mode, message size
    pub hislip: Option<(bool, u64)>,
}

thread_local! {
    static W: RefCell<World> = RefCell::new(World::default());
}

pub fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    simrt::alloc::uncounted(|| W.with(|w| f(&mut w.borrow_mut())))
}

pub fn reset() {
    w(|x| *x = World::default())
}

pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.iter().take(48) {
        s.extend(std::ascii::escape_default(*c).map(|x| x as char));
    }
    if b.len() > 48 {
        s.push_str(&format!("..[{}]", b.len()));
    }
    s
}

pub fn violate(prop: &'static str, kind: &'static str, msg: String) {
    simrt::alloc::uncounted(|| {
        simrt::simlog!("VIOLATION {prop} {kind}: {msg}");
        w(|x| {
            if x.viol.len() < 40 {
                x.viol.push(Violation { prop, kind, msg })
            }
        })
    })
}

/// Something is wrong already
pub fn failed() -> bool {
    w(|x| !x.viol.is_empty())
}

#[macro_export]
macro_rules! fail {
    ($p:expr, $k:expr, $($a:tt)*) => { $crate::world::violate($p, $k, format!($($a)*)) };
}

/// Count a named event of the harness ("this condition was reached")
pub fn probe(k: &'static str) {
    w(|x| *x.counts.entry(k).or_insert(0) += 1)
}

pub fn nontrivial() {
    w(|x| x.nontrivial = true)
}

/// Device calls so far on device `dev`
pub fn ops(dev: usize) -> Vec<DevOp> {
    simrt::alloc::uncounted(|| w(|x| x.ops.iter().filter(|o| o.dev == dev).cloned().collect()))
}

/// Commands executed so far on device `dev`
pub fn execs(dev: usize) -> Vec<Vec<u8>> {
    ops(dev)
        .into_iter()
        .filter_map(|o| match o.call {
            DevCall::Exec(c) => Some(c),
            _ => None,
        })
        .collect()
}

pub fn op_count() -> usize {
    w(|x| x.ops.len())
}

// ------------------------------------------------------------------------------------------------
// Commands: "<kind><client>.<seq>.<len>.<busy>;<filler>"
//   kind Q: answers with `len` bytes; kind W: answers nothing; kind E: answers with empty data

#[derive(Clone, Debug, PartialEq)]
pub struct Cmd {
    pub bytes: Vec<u8>,
    pub resp: Option<Vec<u8>>,
    pub client: u32,
    pub seq: u32,
}

/// The bytes the device answers; a function of the command alone
pub fn answer(cmd: &[u8]) -> (Option<Vec<u8>>, u64) {
    let head = cmd.split(|c| *c == b';').next().unwrap_or(b"");
    if head.is_empty() || !matches!(head[0], b'Q' | b'W' | b'E' | b'R') {
        return (None, 0);
    }
    let s = match std::str::from_utf8(&head[1..]) {
        Ok(s) => s,
        Err(_) => return (None, 0),
    };
    let f: Vec<u64> = s.split('.').filter_map(|x| x.parse().ok()).collect();
    if f.len() != 4 {
        return (None, 0);
    }
    let busy = f[3].min(100_000) * 1000;
    match head[0] {
        b'Q' | b'R' => (
            Some(payload(f[0], f[1], f[2].min(1 << 22) as usize, head[0] == b'R')),
            busy,
        ),
        b'E' => (Some(Vec::new()), busy),
        _ => (None, busy),
    }
}

/// Recognisable answer bytes; `raw`: any byte value, else printable
pub fn payload(client: u64, seq: u64, len: usize, raw: bool) -> Vec<u8> {
    let mut v = Vec::with_capacity(len);
    let mut x = client
        .wrapping_mul(0x9E37_79B9)
        .wrapping_add(seq.wrapping_mul(0x85EB_CA6B))
        .wrapping_add(len as u64 * 31 + 7);
    if !raw {
        let tag = format!("<{client}.{seq}>");
        v.extend(tag.as_bytes().iter().take(len));
    }
    while v.len() < len {
        x = x
            .wrapping_mul(6364136223846793005)
            .wrapping_add(1442695040888963407);
        let b = (x >> 33) as u8;
        v.push(if raw { b } else { b'a' + b % 26 });
    }
    v
}

/// Draw a command. `max_fill`: filler bytes; `max_resp`: answer length; `forbid`: bytes that may not occur
pub fn make_cmd(
    client: u32,
    seq: u32,
    kinds: &[u8],
    max_fill: u32,
    max_resp: u32,
    busy_us: u32,
    forbid: &[u8],
) -> Cmd {
    use simrt::choose;
    let kind = kinds[choose(Stream::Work, kinds.len() as u32) as usize];
    let len = if matches!(kind, b'Q' | b'R') {
        size(max_resp)
    } else {
        0
    };
    let busy = if busy_us > 0 && simrt::chance(Stream::Work, 1, 3) {
        choose(Stream::Work, busy_us + 1)
    } else {
        0
    };
    let mut b = format!("{}{client}.{seq}.{len}.{busy};", kind as char).into_bytes();
    let n = size(max_fill);
    let style = choose(Stream::Work, 3);
    for i in 0..n {
        let c = match style {
            0 => b'A' + (i % 26) as u8,
            1 if n > 8000 => b" \t\r,:*?'\"\0\x7f\x80\xfe\xff#"[(i.wrapping_mul(2654435761) >> 13) as usize % 15],
            1 => b" \t\r,:*?'\"\0\x7f\x80\xfe\xff#"[choose(Stream::Work, 15) as usize],
            _ => (i as u8).wrapping_mul(37).wrapping_add(client as u8),
        };
        if !forbid.contains(&c) {
            b.push(c)
        } else {
            b.push(b'x')
        }
    }
    let (resp, _) = answer(&b);
    Cmd {
        bytes: b,
        resp,
        client,
        seq,
    }
}

/// A size up to `max`, favouring small and boundary values
pub fn size(max: u32) -> u32 {
    use simrt::choose;
    if max == 0 {
        return 0;
    }
    match choose(Stream::Work, 6) {
        0 => choose(Stream::Work, max.min(4) + 1),
        1 => choose(Stream::Work, max.min(20) + 1),
        2 | 3 => choose(Stream::Work, max.min(80) + 1),
        4 => max - choose(Stream::Work, max.min(3) + 1),
        _ => choose(Stream::Work, max + 1),
    }
}

// ------------------------------------------------------------------------------------------------
// The instrument

pub struct SimDev {
    pub id: usize,
    /// Status byte; None: get_status fails
    pub stb: RefCell<Option<u8>>,
    /// Every call other than execute fails with this probability 1/n (0: never)
    pub fail: u32,
    /// Extra time every call takes at random, in ns
    pub slow: u32,
}

// A run lives on one OS thread.
unsafe impl Send for SimDev {}

/// What the servers get: the proxy for boxed devices is exercised as well
pub type Dev = Box<SimDev>;

impl SimDev {
    pub fn new(id: usize) -> Self {
        SimDev {
            id,
            stb: RefCell::new(Some(0)),
            fail: 0,
            slow: 0,
        }
    }

    fn begin(&self) -> (u64, u64) {
        let n = w(|x| {
            let e = x.in_call.entry(self.id).or_insert(0);
            *e += 1;
            *e
        });
        if n > 1 {
            violate("C01", "overlap", format!("two calls overlap on device {}", self.id));
        }
        (simrt::stamp(), simrt::now())
    }

    fn done(&self, b: (u64, u64), call: DevCall, ret: Result<u8, u8>) {
        let end = simrt::stamp();
        simrt::simlog!("dev{} {} -> {:?}", self.id, call.short(), ret);
        w(|x| {
            *x.in_call.get_mut(&self.id).unwrap() -= 1;
            x.ops.push(DevOp {
                dev: self.id,
                by: simrt::task_tag(),
                start: b.0,
                end,
                t: b.1,
                call,
                ret,
            })
        });
    }

    fn pause(&self) {
        if self.slow > 0 && simrt::chance(Stream::Fault, 1, 3) {
            let n = simrt::choose(Stream::Fault, 8) as u64 * (self.slow as u64 / 8);
            simrt::count("device_slow");
            simrt::busy(n);
        }
    }

    fn outcome(&self) -> Result<(), DeviceError> {
        if self.fail > 0 && simrt::chance(Stream::Fault, 1, self.fail) {
            simrt::count("device_error");
            Err(match simrt::choose(Stream::Fault, 3) {
                0 => DeviceError::IoError,
                1 => DeviceError::IoTimeout,
                _ => DeviceError::NotSupported,
            })
        } else {
            Ok(())
        }
    }
}

pub fn err_code(e: &DeviceError) -> u8 {
    match e {
        DeviceError::NotSupported => 1,
        DeviceError::IoTimeout => 2,
        DeviceError::IoError => 3,
        _ => 4,
    }
}

fn rv(r: &Result<(), DeviceError>) -> Result<u8, u8> {
    match r {
        Ok(()) => Ok(0),
        Err(e) => Err(err_code(e)),
    }
}

impl Device for SimDev {
    fn execute(&mut self, cmd: &[u8]) -> Option<Vec<u8>> {
        let b = self.begin();
        let (r, busy) = answer(cmd);
        if busy > 0 {
            simrt::busy(busy);
        }
        self.pause();
        let n = r.as_ref().map_or(0, |x| x.len().min(255)) as u8;
        let c = simrt::alloc::uncounted(|| cmd.to_vec());
        self.done(b, DevCall::Exec(c), Ok(n));
        r
    }

    fn get_status(&mut self) -> Result<u8, DeviceError> {
        let b = self.begin();
        self.pause();
        let r = match *self.stb.borrow() {
            Some(v) => Ok(v),
            None => Err(DeviceError::IoError),
        };
        self.done(b, DevCall::Status, r.as_ref().map(|v| *v).map_err(err_code));
        r
    }

    fn trigger(&mut self, _source: Trig) -> Result<(), DeviceError> {
        let b = self.begin();
        self.pause();
        let r = self.outcome();
        self.done(b, DevCall::Trigger, rv(&r));
        r
    }

    fn clear(&mut self) -> Result<(), DeviceError> {
        let b = self.begin();
        self.pause();
        let r = self.outcome();
        self.done(b, DevCall::Clear, rv(&r));
        r
    }

    fn set_remote(&mut self, remote: bool) -> Result<(), DeviceError> {
        let b = self.begin();
        self.pause();
        let r = self.outcome();
        self.done(b, DevCall::Remote(remote), rv(&r));
        r
    }

    fn set_local_lockout(&mut self, enable: bool) {
        let b = self.begin();
        self.done(b, DevCall::Lockout(enable), Ok(0));
    }
}
