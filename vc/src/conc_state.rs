//! State of a concrete run: drawn values, choices, failures.
use rug::Rational;
use std::cell::RefCell;

#[derive(Clone)]
pub struct Conc {
    pub replay: Option<(Vec<Rational>, Vec<usize>)>,
    pub rng: u64,
    pub mode: u8,
    pub vals: Vec<(String, Rational)>,
    pub choices: Vec<usize>,
    pub failures: Vec<String>,
    pub checked: u64,
    pub marks: std::collections::BTreeMap<String, u64>,
    /// shared record of the drawn values (runs that do not return)
    pub trace: Option<std::sync::Arc<std::sync::Mutex<(Vec<(String, Rational)>, Vec<usize>)>>>,
}
impl Conc {
    pub fn new(seed: u64) -> Conc {
        Conc { replay: None, rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1, mode: 0, vals: vec![], choices: vec![], failures: vec![], checked: 0, marks: Default::default(), trace: None }
    }
    /// what determines the next run
    pub fn seed_state(&self) -> Conc {
        Conc { replay: self.replay.clone(), mode: self.mode, rng: self.rng, ..Conc::new(1) }
    }
    pub fn next(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 11) % n
    }
    pub fn draw(&mut self) -> Rational {
        let n = self.vals.len() as u64;
        if self.mode >= 3 && n > 0 && self.below(4) == 0 {
            let i = self.below(n) as usize;
            let v = self.vals[i].1.clone();
            if self.mode % 8 >= 6 && self.below(4) == 0 {
                // closer than double precision
                let d = Rational::from(self.below(3) as i64 - 1) >> (40 + self.below(100) as u32);
                return v + d;
            }
            return v;
        }
        match self.mode % 8 {
            0 => Rational::from(self.below(3) as i64 - 1),
            1 => Rational::from(self.below(2) as i64),
            2 | 3 => Rational::from(self.below(5) as i64 - 2),
            4 => Rational::from(self.below(13) as i64 - 6),
            5 => Rational::from((self.below(13) as i64 - 6, self.below(4) as i64 + 1)),
            6 => Rational::from((self.below(2001) as i64 - 1000, self.below(97) as i64 + 1)),
            _ => {
                let e = self.below(120) as i32 - 60;
                let m = Rational::from(self.below(2001) as i64 - 1000);
                if e >= 0 { m << e as u32 } else { m >> (-e) as u32 }
            }
        }
    }
}
/// panic payload: the drawn values do not satisfy the precondition
pub struct Skip;
thread_local! { pub static CONC: RefCell<Conc> = RefCell::new(Conc::new(1)); }
pub fn withc<R>(f: impl FnOnce(&mut Conc) -> R) -> R {
    CONC.with(|c| f(&mut c.borrow_mut()))
}
