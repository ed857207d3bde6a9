use std::fmt;

pub type ClockIndex = usize;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Inequality {
    LS(i32),
    LE(i32),
}

impl Inequality {
    pub fn is_strict(&self) -> bool {
        matches!(self, Inequality::LS(_))
    }
    pub fn bound(&self) -> i32 {
        match self {
            Inequality::LS(b) | Inequality::LE(b) => *b,
        }
    }
}

impl From<Inequality> for RawInequality {
    fn from(i: Inequality) -> Self {
        RawInequality::from_inequality(&i)
    }
}

impl From<RawInequality> for Inequality {
    fn from(r: RawInequality) -> Self {
        if r.is_strict() {
            Inequality::LS(r.bound())
        } else {
            Inequality::LE(r.bound())
        }
    }
}

/// `2 * bound + 1` for `<= bound`, `2 * bound` for `< bound`; ordered like the inequalities.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct RawInequality(pub i64);

pub const INF: RawInequality = RawInequality(i64::MAX / 4);
pub const LE_ZERO: RawInequality = RawInequality(1);
pub const LS_ZERO: RawInequality = RawInequality(0);

impl RawInequality {
    pub fn from_inequality(i: &Inequality) -> Self {
        match i {
            Inequality::LS(b) => RawInequality(2 * *b as i64),
            Inequality::LE(b) => RawInequality(2 * *b as i64 + 1),
        }
    }
    pub fn inf() -> Self {
        INF
    }
    pub fn is_inf(self) -> bool {
        self >= INF
    }
    pub fn is_strict(self) -> bool {
        self.0 & 1 == 0
    }
    pub fn bound(self) -> i32 {
        (self.0 >> 1) as i32
    }
    pub fn add(self, o: RawInequality) -> RawInequality {
        if self.is_inf() || o.is_inf() {
            return INF;
        }
        // bounds add up, strict if either is
        RawInequality((self.0 & !1) + (o.0 & !1) + (self.0 & o.0 & 1))
    }
    /// The complement: not (x - y <= c) is y - x < -c
    pub fn negated(self) -> RawInequality {
        RawInequality(1 - self.0)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Constraint {
    pub i: ClockIndex,
    pub j: ClockIndex,
    ineq: RawInequality,
}

impl Constraint {
    pub fn new(i: ClockIndex, j: ClockIndex, ineq: RawInequality) -> Self {
        Constraint { i, j, ineq }
    }
    pub fn ineq(&self) -> Inequality {
        self.ineq.into()
    }
    pub fn raw_ineq(&self) -> RawInequality {
        self.ineq
    }
}

impl fmt::Display for Constraint {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let op = if self.ineq.is_strict() { "<" } else { "<=" };
        if self.j == 0 {
            write!(f, "c:{}{}{}", self.i, op, self.ineq.bound())
        } else if self.i == 0 {
            write!(f, "-c:{}{}{}", self.j, op, self.ineq.bound())
        } else {
            write!(f, "c:{}-c:{}{}{}", self.i, self.j, op, self.ineq.bound())
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Conjunction {
    pub constraints: Vec<Constraint>,
}

impl Conjunction {
    pub fn new(constraints: Vec<Constraint>) -> Self {
        Conjunction { constraints }
    }
    pub fn iter(&self) -> std::slice::Iter<'_, Constraint> {
        self.constraints.iter()
    }
}

impl fmt::Display for Conjunction {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let s: Vec<String> = self.constraints.iter().map(|c| c.to_string()).collect();
        write!(f, "({})", s.join(" & "))
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Disjunction {
    pub conjunctions: Vec<Conjunction>,
}

impl Disjunction {
    pub fn new(conjunctions: Vec<Conjunction>) -> Self {
        Disjunction { conjunctions }
    }
    pub fn iter(&self) -> std::slice::Iter<'_, Conjunction> {
        self.conjunctions.iter()
    }
}

impl fmt::Display for Disjunction {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let s: Vec<String> = self.conjunctions.iter().map(|c| c.to_string()).collect();
        write!(f, "{}", s.join(" || "))
    }
}
