//! The choice tape: every decision of a simulated run is one entry of one of
//! four streams (scenario, schedule, benign I/O behaviour, faults).  A run is a
//! pure function of the tape (and the code); generating mode fills the tape
//! from a PRNG seeded with one integer, replay mode reads it back, and an
//! exhausted tape answers 0, which every decision reads as "nothing special".

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum S {
    Gen = 0,
    Sched = 1,
    Io = 2,
    Fault = 3,
}
pub const STREAMS: [&str; 4] = ["scenario", "schedule", "io", "fault"];

#[derive(Clone)]
pub struct Prng(u64);
impl Prng {
    pub fn new(seed: u64) -> Self {
        let mut p = Prng(seed ^ 0x9e37_79b9_7f4a_7c15);
        p.next();
        p
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

pub struct Tape {
    rng: Option<[Prng; 4]>,
    pub data: [Vec<u64>; 4],
    pos: [usize; 4],
}

pub type TapeData = [Vec<u64>; 4];

impl Tape {
    pub fn generate(seed: u64) -> Self {
        let mut root = Prng::new(seed);
        let mut mk = || Prng::new(root.next());
        Tape {
            rng: Some([mk(), mk(), mk(), mk()]),
            data: Default::default(),
            pos: [0; 4],
        }
    }
    pub fn replay(data: TapeData) -> Self {
        Tape { rng: None, data, pos: [0; 4] }
    }
    /// A value in 0..n (n >= 1).
    pub fn draw(&mut self, s: S, n: u64) -> u64 {
        let s = s as usize;
        debug_assert!(n >= 1);
        let p = self.pos[s];
        self.pos[s] += 1;
        match &mut self.rng {
            Some(r) => {
                let v = if n <= 1 { 0 } else { r[s].next() % n };
                self.data[s].push(v);
                v
            }
            None => match self.data[s].get_mut(p) {
                Some(v) => {
                    if n <= 1 {
                        *v = 0;
                    } else if *v >= n {
                        *v %= n;
                    }
                    *v
                }
                None => 0,
            },
        }
    }
    /// The tape as consumed (replay mode: cut to what was read).
    pub fn finish(mut self) -> TapeData {
        for i in 0..4 {
            let p = self.pos[i];
            self.data[i].truncate(p);
            while self.data[i].last() == Some(&0) {
                self.data[i].pop();
            }
        }
        self.data
    }
}
