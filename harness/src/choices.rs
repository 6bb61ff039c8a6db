//! Every input, schedule and fault of a scenario is drawn from one sequence of choices, so that a
//! failing run can be replayed and shrunk.
use std::task::{Wake, Waker};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;

pub struct Choices {
    pub log: Vec<u32>,
    replay: Option<Vec<u32>>,
    pos: usize,
    rng: u64,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Choices {
    pub fn random(seed: u64) -> Self {
        Self { log: vec![], replay: None, pos: 0, rng: mix(seed) }
    }
    pub fn replay(r: Vec<u32>) -> Self {
        Self { log: vec![], replay: Some(r), pos: 0, rng: 0 }
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        let n = n.max(1) as u32;
        let v = match &self.replay {
            Some(r) => r.get(self.pos).copied().unwrap_or(0) % n,
            None => {
                self.rng = self.rng.wrapping_add(1);
                (mix(self.rng) % n as u64) as u32
            }
        };
        self.pos += 1;
        self.log.push(v);
        v as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, one_in: usize) -> bool {
        // 0 (what a shrunk choice becomes) is "no"
        self.below(one_in) == one_in - 1 && one_in > 0
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())]
    }
}

#[derive(Default)]
pub struct Out {
    pub fails: Vec<(&'static [&'static str], String)>,
    pub trace: Vec<String>,
    pub verbose: bool,
    /// what the run looked like, for counting distinct ones
    pub shape: u64,
}

impl Out {
    pub fn fail(&mut self, props: &'static [&'static str], msg: impl Into<String>) {
        if self.fails.len() < 20 {
            let m = msg.into();
            if self.verbose {
                self.trace.push(format!("!! {props:?}: {m}"));
            }
            self.fails.push((props, m));
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            self.trace.push(f());
        }
    }
    pub fn feel(&mut self, x: u64) {
        self.shape = mix(self.shape ^ x);
    }
}

/// a waker that remembers that it was woken
#[derive(Default)]
pub struct Flag {
    woken: AtomicBool,
    count: AtomicUsize,
}
impl Flag {
    pub fn new() -> Arc<Self> {
        Arc::new(Self::default())
    }
    pub fn waker(self: &Arc<Self>) -> Waker {
        Waker::from(self.clone())
    }
    pub fn take(&self) -> bool {
        self.woken.swap(false, Ordering::SeqCst)
    }
    pub fn is(&self) -> bool {
        self.woken.load(Ordering::SeqCst)
    }
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.woken.store(true, Ordering::SeqCst);
        self.count.fetch_add(1, Ordering::SeqCst);
    }
}
