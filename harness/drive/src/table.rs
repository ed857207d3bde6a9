//! Compares the moves of a real system, at concrete points, with the moves of the specification.
use crate::model::*;
use reveaal::TransitionSystems::{LocationTree, TransitionSystemPtr};
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap};

fn point(v: &Value) -> Vec<i64> {
    std::iter::once(0).chain(v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap())).collect()
}

/// What the real system can do in `loc` at `p`: (action, target, clock values after the move).
pub fn moves(
    sys: &TransitionSystemPtr,
    loc: &LocationTree,
    p: &[i64],
    scale: i64,
    actions: &[String],
) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for a in actions {
        for t in sys.next_transitions(loc, a) {
            let allowed = loc.apply_invariants(t.get_allowed_federation());
            if allowed.contains_scaled(p, scale) {
                let mut q = p.to_vec();
                for u in &t.updates {
                    q[u.clock_index] = u.value as i64 * scale;
                }
                // The target's invariant must hold where the move ends.
                if let Some(inv) = t.target_locations.get_invariants() {
                    if !inv.contains_scaled(&q, scale) {
                        out.insert(json!([a, "broken target invariant"]).to_string());
                        continue;
                    }
                }
                out.insert(json!([a, loc_json(&t.target_locations.id), q[1..]]).to_string());
            }
        }
    }
    out
}

/// {"comps", "system", "scale", "points": [[loc, [v..], inv, [[action, loc, [v..]]..]]..],
///  "inputs": [..], "outputs": [..], "init": loc}
pub fn table(case: &Value) -> Value {
    let sys = match system(case) {
        Ok(s) => s,
        Err(e) => return json!({ "refused": e }),
    };
    let scale = case["scale"].as_i64().unwrap();
    let mut bad: Vec<Value> = vec![];
    let mut n = 0u64;
    let set = |k: &str| -> BTreeSet<String> {
        case[k].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
    };
    let ins: BTreeSet<String> = sys.get_input_actions().into_iter().collect();
    let outs: BTreeSet<String> = sys.get_output_actions().into_iter().collect();
    if ins != set("inputs") || outs != set("outputs") {
        bad.push(json!({"what": "actions", "inputs": ins, "outputs": outs}));
    }
    let actions: Vec<String> = ins.union(&outs).cloned().collect();
    let locs: HashMap<String, LocationTree> =
        sys.get_all_locations().into_iter().map(|l| (loc_json(&l.id).to_string(), l)).collect();
    match sys.get_initial_location() {
        Some(l) if loc_json(&l.id) == case["init"] => {}
        l => bad.push(json!({"what": "initial", "got": l.map(|l| loc_json(&l.id))})),
    }
    for q in case["points"].as_array().unwrap() {
        n += 1;
        let key = q[0].to_string();
        let loc = match locs.get(&key) {
            Some(l) => l,
            None => {
                bad.push(json!({"what": "no such location", "point": q}));
                continue;
            }
        };
        let p = point(&q[1]);
        let inv = match loc.get_invariants() {
            Some(i) => i.contains_scaled(&p, scale),
            None => true,
        };
        if inv != q[2].as_bool().unwrap() {
            bad.push(json!({"what": "invariant", "got": inv, "point": q}));
        }
        let want: BTreeSet<String> = q[3].as_array().unwrap().iter().map(|x| x.to_string()).collect();
        let got = moves(&sys, loc, &p, scale, &actions);
        if want != got {
            bad.push(json!({"what": "moves",
                "extra": got.difference(&want).collect::<Vec<_>>(),
                "missing": want.difference(&got).collect::<Vec<_>>(),
                "point": q}));
        }
        if bad.len() > 5 {
            break;
        }
    }
    json!({"n": n, "bad": bad})
}
