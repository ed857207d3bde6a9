use super::constraints::ClockIndex;

/// Largest constants the clocks are compared to from above and from below.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Bounds {
    pub clocks: ClockIndex,
    upper: Vec<Option<i32>>,
    lower: Vec<Option<i32>>,
}

impl Bounds {
    pub fn new(clocks: ClockIndex) -> Self {
        Bounds { clocks, upper: vec![None; clocks], lower: vec![None; clocks] }
    }
    pub fn get_upper(&self, clock: ClockIndex) -> Option<i32> {
        self.upper[clock]
    }
    pub fn get_lower(&self, clock: ClockIndex) -> Option<i32> {
        self.lower[clock]
    }
    pub fn add_upper(&mut self, clock: ClockIndex, bound: i32) {
        let b = self.upper[clock].map_or(bound, |o| o.max(bound));
        self.upper[clock] = Some(b);
    }
    pub fn add_lower(&mut self, clock: ClockIndex, bound: i32) {
        let b = self.lower[clock].map_or(bound, |o| o.max(bound));
        self.lower[clock] = Some(b);
    }
    pub fn set_upper(&mut self, clock: ClockIndex, bound: i32) {
        self.upper[clock] = Some(bound);
    }
    pub fn set_lower(&mut self, clock: ClockIndex, bound: i32) {
        self.lower[clock] = Some(bound);
    }
    pub fn add_bounds(&mut self, other: &Self) {
        assert_eq!(self.clocks, other.clocks);
        for c in 0..self.clocks {
            if let Some(b) = other.upper[c] {
                self.add_upper(c, b);
            }
            if let Some(b) = other.lower[c] {
                self.add_lower(c, b);
            }
        }
    }
    /// The largest constant the clock is compared to, if it is compared at all.
    pub fn max(&self, clock: ClockIndex) -> Option<i32> {
        match (self.upper[clock], self.lower[clock]) {
            (Some(a), Some(b)) => Some(a.max(b)),
            (a, b) => a.or(b),
        }
    }
}
