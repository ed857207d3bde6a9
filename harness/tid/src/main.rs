//! Drives the real `TransitionID` of /repo.  The file is included by path, as the
//! project's own build in this sandbox does, so nothing else of /repo has to compile.
//!
//!   tid replay IN OUT    every input of IN (one JSON object per line, `id` or `path`)
//!                        is given to the real code; OUT gets one answer per line
//!   tid fuzz SEED N OUT  N random inputs with the real answers, as a trace for TLC
#![allow(non_snake_case)]
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub mod TransitionSystems {
    #[path = "/repo/src/TransitionSystems/transition_id.rs"]
    pub mod transition_id;
    pub use transition_id::TransitionID;
}
use TransitionSystems::TransitionID as Id;

// k: "E" an edge, "N" no edge, "J" conjunction, "P" composition, "Q" quotient;
// l and r are lists of children (one each for J and P)
fn dec(v: &Value) -> Id {
    let list = |f: &str| -> Vec<Id> { v[f].as_array().unwrap().iter().map(dec).collect() };
    let one = |f: &str| -> Box<Id> { Box::new(dec(&v[f].as_array().unwrap()[0])) };
    match v["k"].as_str().unwrap() {
        "E" => Id::Simple(v["n"].as_str().unwrap().to_string()),
        "N" => Id::None,
        "J" => Id::Conjunction(one("l"), one("r")),
        "P" => Id::Composition(one("l"), one("r")),
        "Q" => Id::Quotient(list("l"), list("r")),
        k => panic!("bad kind {}", k),
    }
}

fn enc(id: &Id) -> Value {
    let node = |k: &str, l: Vec<Value>, r: Vec<Value>| json!({"k": k, "n": "", "l": l, "r": r});
    match id {
        Id::Simple(n) => json!({"k": "E", "n": n, "l": [], "r": []}),
        Id::None => node("N", vec![], vec![]),
        Id::Conjunction(l, r) => node("J", vec![enc(l)], vec![enc(r)]),
        Id::Composition(l, r) => node("P", vec![enc(l)], vec![enc(r)]),
        Id::Quotient(l, r) => node("Q", l.iter().map(enc).collect(), r.iter().map(enc).collect()),
    }
}

fn ok(v: Value) -> Value {
    json!({"res": "ok", "v": v})
}

/// The answer of the code, as data: a panic is an answer too.
fn guarded<F: FnOnce() -> Value>(f: F) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(_) => json!({"res": "panic", "v": []}),
    }
}

fn leaves(id: &Id) -> Value {
    guarded(|| {
        ok(json!(id
            .get_leaves()
            .iter()
            .map(|slot| slot.iter().map(enc).collect::<Vec<_>>())
            .collect::<Vec<_>>()))
    })
}

fn split(path: &Vec<Id>) -> Value {
    guarded(|| match Id::split_into_component_lists(path) {
        Err(_) => json!({"res": "err", "v": []}),
        Ok(comps) => ok(json!(comps
            .iter()
            .map(|c| c
                .iter()
                .map(|t| t.iter().map(enc).collect::<Vec<_>>())
                .collect::<Vec<_>>())
            .collect::<Vec<_>>())),
    })
}

fn answer(case: &Value) -> Value {
    let path: Vec<Id> = case["path"].as_array().unwrap().iter().map(dec).collect();
    let leaves: Vec<Value> = path.iter().map(leaves).collect();
    let show: Vec<Value> = path.iter().map(|id| guarded(|| ok(json!(id.to_string())))).collect();
    json!({"leaves": leaves, "show": show, "split": split(&path)})
}

// ---- random inputs -------------------------------------------------------------

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

enum Shape {
    Leaf,
    Node(char, Box<Shape>, Box<Shape>),
}

/// How a random system and its paths look.
struct Style {
    comps: usize,   // how many components
    ops: Vec<char>, // the operators
    lean: usize,    // 0: anyhow, 1: all to the left, 2: all to the right
    idle: usize,    // one in so many components takes no edge
    side: usize,    // how many transitions a quotient uses of an operand at most
    names: usize,   // how many edge names
    budget: usize,  // how many more transitions than one the quotients use altogether
}

const NAMES: [&str; 14] = [
    "a", "E1", "b", "E25", "x&&y", "E10", "NoID", "", "(a)", "e\u{e9}\u{1f600}", "a||b", "p\\\\q", "E1 ",
    "a_rather_long_name_of_an_edge_that_goes_on_and_on_0123456789",
];

fn style(r: &mut Rng) -> Style {
    let ops = [
        vec!['J', 'P', 'Q', 'J', 'P'],
        vec!['Q', 'Q', 'J', 'P'],
        vec!['J'],
        vec!['P'],
        vec!['Q'],
        vec!['J', 'P'],
    ];
    Style {
        comps: match r.below(8) {
            0 => 10 + r.below(20),
            1 => 1,
            _ => 1 + r.below(9),
        },
        ops: ops[[0, 0, 0, 1, 2, 3, 4, 5][r.below(8)]].clone(),
        lean: [0, 0, 0, 1, 2][r.below(5)],
        idle: [5, 5, 2, 1000, 20][r.below(5)],
        side: [3, 3, 2, 1, 6][r.below(5)],
        names: [6, NAMES.len(), 2, 1][r.below(4)],
        budget: [4, 4, 8, 0][r.below(4)],
    }
}

fn shape(r: &mut Rng, st: &Style, comps: usize) -> Shape {
    if comps == 1 {
        return Shape::Leaf;
    }
    let left = match (st.lean, r.below(4)) {
        (1, _) | (0, 1) => comps - 1,
        (2, _) | (0, 0) => 1,
        _ => 1 + r.below(comps - 1),
    };
    let op = st.ops[r.below(st.ops.len())];
    Shape::Node(op, Box::new(shape(r, st, left)), Box::new(shape(r, st, comps - left)))
}

fn conforming(r: &mut Rng, st: &Style, s: &Shape, budget: &mut usize) -> Id {
    match s {
        Shape::Leaf => {
            if r.below(st.idle) == 0 {
                Id::None
            } else {
                Id::Simple(NAMES[r.below(st.names)].to_string())
            }
        }
        Shape::Node('J', x, y) => Id::Conjunction(
            Box::new(conforming(r, st, x, budget)),
            Box::new(conforming(r, st, y, budget)),
        ),
        Shape::Node('P', x, y) => Id::Composition(
            Box::new(conforming(r, st, x, budget)),
            Box::new(conforming(r, st, y, budget)),
        ),
        Shape::Node(_, x, y) => {
            let mut side = |s: &Shape, r: &mut Rng| -> Vec<Id> {
                let lo = if matches!(s, Shape::Leaf) { 0 } else { 1 };
                let n = if *budget == 0 { 1 } else { lo + r.below(st.side + 1 - lo) };
                *budget = budget.saturating_sub(n.saturating_sub(1));
                (0..n).map(|_| conforming(r, st, s, budget)).collect()
            };
            let l = side(x, r);
            let rr = side(y, r);
            Id::Quotient(l, rr)
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "replay" => {
            let input = BufReader::new(std::fs::File::open(&a[2]).unwrap());
            let mut out = BufWriter::new(std::fs::File::create(&a[3]).unwrap());
            for line in input.lines() {
                let case: Value = serde_json::from_str(&line.unwrap()).unwrap();
                writeln!(out, "{}", answer(&case)).unwrap();
            }
        }
        "fuzz" => {
            let mut r = Rng(a[2].parse().unwrap());
            let n: usize = a[3].parse().unwrap();
            let mut out = BufWriter::new(std::fs::File::create(&a[4]).unwrap());
            for _ in 0..n {
                let st = style(&mut r);
                let s = shape(&mut r, &st, st.comps);
                let len = if st.comps < 6 && r.below(12) == 0 { r.below(40) } else { r.below(6) };
                let mut path = Vec::new();
                for k in 0..len {
                    // now and then a transition comes again
                    if k > 0 && r.below(8) == 0 {
                        path.push(Id::clone(&path[r.below(k)]));
                        continue;
                    }
                    let mut budget = st.budget;
                    path.push(conforming(&mut r, &st, &s, &mut budget));
                }
                // now and then a few transitions of another system, anywhere in the path
                if len > 0 && r.below(4) == 0 {
                    let mut other = style(&mut r);
                    if r.below(2) == 0 {
                        other.comps = if r.below(2) == 0 { st.comps + 1 } else { (st.comps - 1).max(1) };
                    }
                    let s2 = shape(&mut r, &other, other.comps);
                    for _ in 0..[1, 1, 1, 2, 3, len][r.below(6)] {
                        let at = r.below(len);
                        path[at] = conforming(&mut r, &other, &s2, &mut 2);
                    }
                }
                let case = json!({ "path": path.iter().map(enc).collect::<Vec<_>>() });
                let line = json!({"path": case["path"], "got": answer(&case)});
                writeln!(out, "{}", line).unwrap();
            }
        }
        _ => panic!("usage"),
    }
}
