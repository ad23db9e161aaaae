//! Every random decision of a run is drawn here, from one of three streams, and recorded.
//!
//! A run is a pure function of (code, seed) when generating, and of (code, recorded choices) when
//! replaying. The value 0 is always the plainest option (no preemption, no fault, FIFO, smallest),
//! and a replay that runs past the end of a recorded stream draws 0, which is what makes shrinking by
//! truncation, deletion and zeroing work.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Stream {
    /// Operations, sizes and configuration of the workload
    Work = 0,
    /// Scheduling, preemption and `select!` order
    Sched = 1,
    /// Network behaviour and injected faults
    Fault = 2,
}

pub const STREAMS: usize = 3;

#[derive(Clone, Debug)]
pub enum Source {
    Seed(u64),
    Replay(Vec<Vec<u32>>),
}

struct Rng(u64);

impl Rng {
    fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.rotate_left(32).wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next();
    r.next()
}

pub struct Choices {
    rng: [Option<Rng>; STREAMS],
    replay: Vec<Vec<u32>>,
    pos: [usize; STREAMS],
    pub rec: [Vec<u32>; STREAMS],
    record: bool,
}

impl Choices {
    pub fn new(src: &Source, record: bool) -> Self {
        match src {
            Source::Seed(s) => Choices {
                rng: [
                    Some(Rng(mix(*s, 1))),
                    Some(Rng(mix(*s, 2))),
                    Some(Rng(mix(*s, 3))),
                ],
                replay: Vec::new(),
                pos: [0; STREAMS],
                rec: Default::default(),
                record,
            },
            Source::Replay(v) => Choices {
                rng: [None, None, None],
                replay: v.clone(),
                pos: [0; STREAMS],
                rec: Default::default(),
                record,
            },
        }
    }

    pub fn draw(&mut self, s: Stream, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let i = s as usize;
        let v = match &mut self.rng[i] {
            Some(r) => (r.next() >> 11) as u32 % n,
            None => {
                let v = self
                    .replay
                    .get(i)
                    .and_then(|x| x.get(self.pos[i]))
                    .copied()
                    .unwrap_or(0);
                v % n
            }
        };
        self.pos[i] += 1;
        if self.record {
            self.rec[i].push(v);
        }
        v
    }
}
