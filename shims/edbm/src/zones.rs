use crate::util::bounds::Bounds;
use crate::util::constraints::*;
use std::fmt;

/// A closed, non-empty DBM.
#[derive(Clone, PartialEq, Eq, Hash)]
struct Dbm {
    dim: usize,
    m: Vec<RawInequality>,
}

impl Dbm {
    fn universe(dim: usize) -> Dbm {
        let mut d = Dbm { dim, m: vec![INF; dim * dim] };
        for i in 0..dim {
            d.m[i] = LE_ZERO; // 0 - x_i <= 0
            d.m[i * dim + i] = LE_ZERO;
        }
        d
    }
    fn zero(dim: usize) -> Dbm {
        Dbm { dim, m: vec![LE_ZERO; dim * dim] }
    }
    #[inline]
    fn at(&self, i: usize, j: usize) -> RawInequality {
        self.m[i * self.dim + j]
    }
    #[inline]
    fn set(&mut self, i: usize, j: usize, v: RawInequality) {
        self.m[i * self.dim + j] = v;
    }
    /// Full closure; None if empty.
    fn close(mut self) -> Option<Dbm> {
        let n = self.dim;
        for k in 0..n {
            for i in 0..n {
                let ik = self.at(i, k);
                if ik.is_inf() {
                    continue;
                }
                for j in 0..n {
                    let v = ik.add(self.at(k, j));
                    if v < self.at(i, j) {
                        self.set(i, j, v);
                    }
                }
            }
            for i in 0..n {
                if self.at(i, i) < LE_ZERO {
                    return None;
                }
            }
        }
        for i in 0..n {
            self.set(i, i, LE_ZERO);
        }
        Some(self)
    }
    fn constrain(mut self, i: usize, j: usize, b: RawInequality) -> Option<Dbm> {
        if b.is_inf() || self.at(i, j) <= b {
            return Some(self);
        }
        if b.add(self.at(j, i)) < LE_ZERO {
            return None;
        }
        self.set(i, j, b);
        let n = self.dim;
        for a in 0..n {
            let ai = self.at(a, i).add(b);
            if ai.is_inf() {
                continue;
            }
            for c in 0..n {
                let v = ai.add(self.at(j, c));
                if v < self.at(a, c) {
                    self.set(a, c, v);
                }
            }
        }
        Some(self)
    }
    fn intersect(&self, o: &Dbm) -> Option<Dbm> {
        let mut d = self.clone();
        for k in 0..d.m.len() {
            if o.m[k] < d.m[k] {
                d.m[k] = o.m[k];
            }
        }
        d.close()
    }
    fn subset(&self, o: &Dbm) -> bool {
        self.m.iter().zip(o.m.iter()).all(|(a, b)| a <= b)
    }
    fn up(mut self) -> Dbm {
        for i in 1..self.dim {
            self.set(i, 0, INF);
        }
        self
    }
    fn down(mut self) -> Dbm {
        for i in 1..self.dim {
            // lower bound: the largest forced by the differences to the other clocks
            let mut b = LE_ZERO;
            for j in 1..self.dim {
                if self.at(j, i) < b {
                    b = self.at(j, i);
                }
            }
            self.set(0, i, b);
        }
        self.close().expect("the past of a zone is not empty")
    }
    fn free(mut self, x: usize) -> Dbm {
        for i in 0..self.dim {
            if i != x {
                self.set(x, i, INF);
                let v = self.at(i, 0);
                self.set(i, x, v);
            }
        }
        self.set(0, x, LE_ZERO);
        self
    }
    fn assign(self, x: usize, v: i32) -> Option<Dbm> {
        let d = self.free(x);
        d.constrain(x, 0, Inequality::LE(v).into())?
            .constrain(0, x, Inequality::LE(-v).into())
    }
    fn extrapolate(mut self, bounds: &Bounds) -> Dbm {
        let n = self.dim;
        // clocks that are never compared: any value
        let max = |i: usize| -> i64 {
            if i == 0 {
                0
            } else {
                bounds.max(i).map_or(-1, |b| b as i64)
            }
        };
        for i in 0..n {
            for j in 0..n {
                if i == j {
                    continue;
                }
                let b = self.at(i, j);
                if b.is_inf() {
                    continue;
                }
                if i != 0 && b > RawInequality(2 * max(i) + 1) {
                    self.set(i, j, INF);
                } else if b < RawInequality(-2 * max(j)) {
                    let w = if max(j) < 0 { LE_ZERO } else { RawInequality(-2 * max(j)) };
                    self.set(i, j, if i == 0 && w > LE_ZERO { LE_ZERO } else { w });
                }
            }
        }
        for i in 1..n {
            if self.at(0, i) > LE_ZERO {
                self.set(0, i, LE_ZERO);
            }
        }
        self.close().expect("extrapolation only widens")
    }
    fn subtract(&self, o: &Dbm) -> Vec<Dbm> {
        // cut off, constraint by constraint of o, what is outside of it
        let mut rest = self.clone();
        let mut out = vec![];
        if self.intersect(o).is_none() {
            return vec![self.clone()];
        }
        for (i, j, b) in o.minimal() {
            if rest.at(i, j) <= b {
                continue;
            }
            if let Some(d) = rest.clone().constrain(j, i, b.negated()) {
                out.push(d);
            }
            match rest.constrain(i, j, b) {
                Some(d) => rest = d,
                None => break,
            }
        }
        out
    }
    /// Constraints that imply all others, without redundant ones.
    fn minimal(&self) -> Vec<(usize, usize, RawInequality)> {
        let n = self.dim;
        // clocks at a fixed distance to each other form a class; one cycle per class, and
        // between the representatives only what no detour implies
        let mut class: Vec<usize> = (0..n).collect();
        for i in 0..n {
            for j in 0..i {
                if class[j] == j && self.at(i, j).add(self.at(j, i)) == LE_ZERO {
                    class[i] = j;
                    break;
                }
            }
        }
        let mut out = vec![];
        for r in (0..n).filter(|r| class[*r] == *r) {
            let mem: Vec<usize> = (0..n).filter(|i| class[*i] == r).collect();
            if mem.len() > 1 {
                for k in 0..mem.len() {
                    let (a, b) = (mem[k], mem[(k + 1) % mem.len()]);
                    out.push((a, b, self.at(a, b)));
                }
            }
        }
        let reps: Vec<usize> = (0..n).filter(|r| class[*r] == *r).collect();
        for &i in &reps {
            for &j in &reps {
                if i == j || self.at(i, j).is_inf() {
                    continue;
                }
                if i == 0 && self.at(i, j) == LE_ZERO {
                    continue; // clocks are never negative
                }
                let implied = reps.iter().any(|&k| {
                    k != i && k != j && self.at(i, k).add(self.at(k, j)) <= self.at(i, j)
                });
                if !implied {
                    out.push((i, j, self.at(i, j)));
                }
            }
        }
        out
    }
    fn unbounded(&self) -> bool {
        (1..self.dim).all(|i| self.at(i, 0).is_inf())
    }
}

/// A finite union of zones over the clocks `1..dim` (clock 0 is the constant zero).
#[derive(Clone)]
pub struct OwnedFederation {
    dim: ClockIndex,
    zones: Vec<Dbm>,
}

pub type Federation = OwnedFederation;

impl OwnedFederation {
    fn with(dim: ClockIndex, zones: Vec<Dbm>) -> Self {
        OwnedFederation { dim, zones }.reduce()
    }
    fn map(self, f: impl Fn(Dbm) -> Option<Dbm>) -> Self {
        let dim = self.dim;
        Self::with(dim, self.zones.into_iter().filter_map(f).collect())
    }
    pub fn universe(dim: ClockIndex) -> Self {
        OwnedFederation { dim, zones: vec![Dbm::universe(dim)] }
    }
    pub fn empty(dim: ClockIndex) -> Self {
        OwnedFederation { dim, zones: vec![] }
    }
    pub fn init(dim: ClockIndex) -> Self {
        OwnedFederation { dim, zones: vec![Dbm::zero(dim).up()] }
    }
    pub fn from_conjunction(c: &Conjunction, dim: ClockIndex) -> Self {
        let mut d = Some(Dbm::universe(dim));
        for k in c.iter() {
            d = d.and_then(|d| d.constrain(k.i, k.j, k.raw_ineq()));
        }
        OwnedFederation { dim, zones: d.into_iter().collect() }
    }
    pub fn from_disjunction(d: &Disjunction, dim: ClockIndex) -> Self {
        let mut f = Self::empty(dim);
        for c in d.iter() {
            f = f.union(&Self::from_conjunction(c, dim));
        }
        f
    }
    pub fn dim(&self) -> ClockIndex {
        self.dim
    }
    pub fn size(&self) -> usize {
        self.zones.len()
    }
    pub fn num_zones(&self) -> usize {
        self.zones.len()
    }
    pub fn is_empty(&self) -> bool {
        self.zones.is_empty()
    }
    pub fn is_valid(&self) -> bool {
        !self.is_empty()
    }
    pub fn is_universe(&self) -> bool {
        Self::universe(self.dim).subset_eq(self)
    }
    pub fn set_empty(self) -> Self {
        Self::empty(self.dim)
    }
    pub fn set_universe(self) -> Self {
        Self::universe(self.dim)
    }
    pub fn set_init(self) -> Self {
        Self::init(self.dim)
    }
    pub fn constrain(self, i: ClockIndex, j: ClockIndex, ineq: Inequality) -> Self {
        self.constrain_raw(i, j, ineq.into())
    }
    pub fn constrain_raw(self, i: ClockIndex, j: ClockIndex, ineq: RawInequality) -> Self {
        self.map(|d| {
            if i == j {
                if ineq < LE_ZERO { None } else { Some(d) }
            } else {
                d.constrain(i, j, ineq)
            }
        })
    }
    pub fn constrain_eq(self, clock: ClockIndex, val: i32) -> Self {
        self.constrain(clock, 0, Inequality::LE(val)).constrain(0, clock, Inequality::LE(-val))
    }
    pub fn intersection(self, o: &Self) -> Self {
        assert_eq!(self.dim, o.dim);
        let mut zs = vec![];
        for a in &self.zones {
            for b in &o.zones {
                zs.extend(a.intersect(b));
            }
        }
        Self::with(self.dim, zs)
    }
    pub fn has_intersection(&self, o: &Self) -> bool {
        assert_eq!(self.dim, o.dim);
        self.zones.iter().any(|a| o.zones.iter().any(|b| a.intersect(b).is_some()))
    }
    pub fn union(self, o: &Self) -> Self {
        assert_eq!(self.dim, o.dim);
        let mut zs = self.zones;
        zs.extend(o.zones.iter().cloned());
        Self::with(self.dim, zs)
    }
    pub fn append(self, o: &Self) -> Self {
        self.union(o)
    }
    pub fn subtraction(self, o: &Self) -> Self {
        assert_eq!(self.dim, o.dim);
        let mut zs = self.zones;
        for b in &o.zones {
            zs = zs.iter().flat_map(|a| a.subtract(b)).collect();
        }
        Self::with(self.dim, zs)
    }
    pub fn inverse(self) -> Self {
        Self::universe(self.dim).subtraction(&self)
    }
    pub fn subset_eq(&self, o: &Self) -> bool {
        assert_eq!(self.dim, o.dim);
        self.zones.iter().all(|a| o.zones.iter().any(|b| a.subset(b)))
            || self.clone().subtraction(o).is_empty()
    }
    pub fn superset_eq(&self, o: &Self) -> bool {
        o.subset_eq(self)
    }
    pub fn equals(&self, o: &Self) -> bool {
        self.dim == o.dim && self.subset_eq(o) && o.subset_eq(self)
    }
    pub fn up(self) -> Self {
        self.map(|d| Some(d.up()))
    }
    pub fn down(self) -> Self {
        self.map(|d| Some(d.down()))
    }
    pub fn free_clock(self, clock: ClockIndex) -> Self {
        self.map(|d| Some(d.free(clock)))
    }
    pub fn update_clock_val(self, clock: ClockIndex, val: i32) -> Self {
        self.map(|d| d.assign(clock, val))
    }
    /// The states from which some delay leads into `self`, not through `avoid`.
    pub fn predt(&self, avoid: &Self) -> Self {
        assert_eq!(self.dim, avoid.dim);
        let dim = self.dim;
        let one = |d: &Dbm| OwnedFederation { dim, zones: vec![d.clone()] };
        let mut res = Self::empty(dim);
        for g in &self.zones {
            let past = one(g).down();
            let mut part = past.clone();
            for b in &avoid.zones {
                let bpast = one(b).down();
                let before = one(g).intersection(&bpast).subtraction(&one(b)).down();
                let p = past.clone().subtraction(&bpast).union(&before);
                part = part.intersection(&p);
            }
            res = res.union(&part);
        }
        res
    }
    pub fn can_delay_indefinitely(&self) -> bool {
        self.zones.iter().any(|d| d.unbounded())
    }
    pub fn extrapolate_max_bounds(self, bounds: &Bounds) -> Self {
        self.map(|d| Some(d.extrapolate(bounds)))
    }
    /// The largest constants in the zones.
    pub fn get_bounds(&self) -> Bounds {
        let mut b = Bounds::new(self.dim);
        for z in &self.zones {
            for (i, j, r) in z.minimal() {
                if i != 0 {
                    b.add_upper(i, r.bound().abs());
                }
                if j != 0 {
                    b.add_lower(j, r.bound().abs());
                }
            }
        }
        b
    }
    pub fn minimal_constraints(&self) -> Disjunction {
        Disjunction::new(
            self.clone()
                .expensive_reduce()
                .zones
                .iter()
                .map(|d| {
                    Conjunction::new(
                        d.minimal().into_iter().map(|(i, j, r)| Constraint::new(i, j, r)).collect(),
                    )
                })
                .collect(),
        )
    }
    pub fn reduce(self) -> Self {
        let mut keep: Vec<Dbm> = vec![];
        for z in self.zones {
            if keep.iter().any(|k| z.subset(k)) {
                continue;
            }
            keep.retain(|k| !k.subset(&z));
            keep.push(z);
        }
        OwnedFederation { dim: self.dim, zones: keep }
    }
    /// Drops every zone the others cover and joins zones whose union is a zone.
    pub fn expensive_reduce(self) -> Self {
        let dim = self.dim;
        let mut zs = self.reduce().zones;
        'again: loop {
            for i in 0..zs.len() {
                let mut others = zs.clone();
                let z = others.remove(i);
                let me = OwnedFederation { dim, zones: vec![z] };
                if me.subtraction(&OwnedFederation { dim, zones: others.clone() }).is_empty() {
                    zs = others;
                    continue 'again;
                }
            }
            for i in 0..zs.len() {
                for j in 0..i {
                    let mut hull = zs[i].clone();
                    for k in 0..hull.m.len() {
                        hull.m[k] = hull.m[k].max(zs[j].m[k]);
                    }
                    let both = OwnedFederation { dim, zones: vec![zs[i].clone(), zs[j].clone()] };
                    let h = OwnedFederation { dim, zones: vec![hull.clone()] };
                    if h.subtraction(&both).is_empty() {
                        zs.remove(i);
                        zs.remove(j);
                        zs.push(hull);
                        continue 'again;
                    }
                }
            }
            break;
        }
        OwnedFederation { dim, zones: zs }
    }
    /// Whether a point (clock 0 is at index 0) with coordinates over a common denominator
    /// lies in the federation. Not part of EDBM: for the checks in /verif.
    pub fn contains_scaled(&self, point: &[i64], scale: i64) -> bool {
        self.zones.iter().any(|d| {
            (0..self.dim).all(|i| {
                (0..self.dim).all(|j| {
                    let b = d.at(i, j);
                    if b.is_inf() {
                        return true;
                    }
                    let diff = point[i] - point[j];
                    let lim = b.bound() as i64 * scale;
                    if b.is_strict() { diff < lim } else { diff <= lim }
                })
            })
        })
    }
}

impl PartialEq for OwnedFederation {
    fn eq(&self, o: &Self) -> bool {
        self.equals(o)
    }
}
impl Eq for OwnedFederation {}

impl std::ops::Not for OwnedFederation {
    type Output = OwnedFederation;
    fn not(self) -> Self {
        self.inverse()
    }
}
impl std::ops::Add<OwnedFederation> for OwnedFederation {
    type Output = OwnedFederation;
    fn add(self, o: OwnedFederation) -> Self {
        self.union(&o)
    }
}
impl std::ops::Add<&OwnedFederation> for OwnedFederation {
    type Output = OwnedFederation;
    fn add(self, o: &OwnedFederation) -> Self {
        self.union(o)
    }
}
impl std::ops::AddAssign<OwnedFederation> for OwnedFederation {
    fn add_assign(&mut self, o: OwnedFederation) {
        *self = std::mem::replace(self, OwnedFederation::empty(o.dim)).union(&o);
    }
}
impl std::ops::AddAssign<&OwnedFederation> for OwnedFederation {
    fn add_assign(&mut self, o: &OwnedFederation) {
        *self = std::mem::replace(self, OwnedFederation::empty(o.dim)).union(o);
    }
}
impl std::ops::Sub<OwnedFederation> for OwnedFederation {
    type Output = OwnedFederation;
    fn sub(self, o: OwnedFederation) -> Self {
        self.subtraction(&o)
    }
}
impl std::ops::Sub<&OwnedFederation> for OwnedFederation {
    type Output = OwnedFederation;
    fn sub(self, o: &OwnedFederation) -> Self {
        self.subtraction(o)
    }
}
impl std::ops::SubAssign<&OwnedFederation> for OwnedFederation {
    fn sub_assign(&mut self, o: &OwnedFederation) {
        *self = std::mem::replace(self, OwnedFederation::empty(o.dim)).subtraction(o);
    }
}
impl std::ops::BitAnd<&OwnedFederation> for OwnedFederation {
    type Output = OwnedFederation;
    fn bitand(self, o: &OwnedFederation) -> Self {
        self.intersection(o)
    }
}
impl std::ops::BitOr<&OwnedFederation> for OwnedFederation {
    type Output = OwnedFederation;
    fn bitor(self, o: &OwnedFederation) -> Self {
        self.union(o)
    }
}

impl fmt::Display for OwnedFederation {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.is_empty() {
            return write!(f, "(empty)");
        }
        write!(f, "{}", self.minimal_constraints())
    }
}
impl fmt::Debug for OwnedFederation {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
