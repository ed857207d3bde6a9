//! Guards, updates, queries and whole component files: what the real code understands by a text.
use reveaal::DataReader::json_reader::json_to_component;
use reveaal::DataReader::json_writer::component_to_json;
use reveaal::DataReader::parse_edge::{parse_guard, parse_updates};
use reveaal::DataReader::parse_queries::parse_to_expression_tree;
use reveaal::EdgeEval::constraint_applyer::apply_constraints_to_state;
use reveaal::ModelObjects::Declarations;
use reveaal::ModelObjects::Expressions::{
    BoolExpression, ComponentVariable, OperandExpression, QueryExpression, SaveExpression, StateExpression,
    SystemExpression,
};
use edbm::zones::OwnedFederation;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn declarations(case: &Value) -> Declarations {
    Declarations {
        clocks: case["clocks"].as_array().unwrap().iter().enumerate()
            .map(|(i, c)| (c.as_str().unwrap().to_string(), i + 1)).collect(),
        ints: case["ints"].as_object().map_or(HashMap::new(), |o| {
            o.iter().map(|(k, v)| (k.clone(), v.as_i64().unwrap() as i32)).collect()
        }),
    }
}

/// The numbers (from 1) of the points of a grid of `side` half units per clock that `g` admits.
fn admitted(g: &BoolExpression, d: &Declarations, side: i64) -> Result<Vec<i64>, String> {
    let n = d.clocks.len();
    let fed = apply_constraints_to_state(g, d, OwnedFederation::universe(n + 1))?;
    Ok((0..side.pow(n as u32))
        .filter(|i| {
            let mut p = vec![0; n + 1];
            let mut k = *i;
            for j in (1..=n).rev() {
                p[j] = k % side;
                k /= side;
            }
            fed.contains_scaled(&p, 2)
        })
        .map(|i| i + 1)
        .collect())
}

fn safely(f: impl FnOnce() -> Value) -> Value {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|e| json!({"r": "panic", "why": crate::message(&e)}))
}

fn meaning(g: &BoolExpression, d: &Declarations, side: i64) -> Value {
    safely(|| match admitted(g, d, side) {
        Ok(at) => json!({"r": "ok", "at": at}),
        Err(e) => json!({"r": "refused", "why": e}),
    })
}

/// {"texts", "clocks", "ints", "side"}: what every guard admits; also once written and read back,
/// and once simplified.
pub fn guard(case: &Value) -> Value {
    let d = declarations(case);
    let side = case["side"].as_i64().unwrap();
    let answers: Vec<Value> = case["texts"].as_array().unwrap().iter().map(|t| {
        safely(|| {
            let g = match parse_guard(t.as_str().unwrap()) {
                Ok(g) => g,
                Err(_) => return json!({"r": "refused", "why": "syntax"}),
            };
            let mut a = meaning(&g, &d, side);
            let w = g.encode_expr();
            a["again"] = match parse_guard(&w) {
                Ok(h) => meaning(&h, &d, side),
                Err(_) => json!({"r": "refused", "why": "syntax"}),
            };
            a["written"] = json!(w);
            a
        })
    }).collect();
    json!({ "answers": answers })
}

/// {"texts", "clocks", "ints"}: the assignments of every update.
pub fn update(case: &Value) -> Value {
    let d = declarations(case);
    let answers: Vec<Value> = case["texts"].as_array().unwrap().iter().map(|t| {
        safely(|| {
            let us = match parse_updates(t.as_str().unwrap()) {
                Ok(us) => us,
                Err(_) => return json!({"r": "refused", "why": "syntax"}),
            };
            let list: Vec<Value> = us.iter().map(|u| {
                let c = u.compiled(&d);
                json!([c.clock_index, c.value])
            }).collect();
            json!({"r": "ok", "list": list})
        })
    }).collect();
    json!({ "answers": answers })
}

fn system(s: &SystemExpression) -> Value {
    match s {
        SystemExpression::Component(n, i) => json!(["comp", n, i.clone().unwrap_or_default()]),
        SystemExpression::Quotient(l, r) => json!(["quotient", system(l), system(r)]),
        SystemExpression::Composition(l, r) => json!(["composition", system(l), system(r)]),
        SystemExpression::Conjunction(l, r) => json!(["conjunction", system(l), system(r)]),
    }
}

fn variable(v: &ComponentVariable) -> Value {
    json!(["var", ["comp", v.component, v.special_id.clone().unwrap_or_default()], v.variable])
}

fn operand(o: &OperandExpression) -> Value {
    match o {
        OperandExpression::Number(n) => json!(["num", n.to_string()]),
        OperandExpression::Clock(v) => variable(v),
        OperandExpression::Difference(l, r) => json!(["-", operand(l), operand(r)]),
        OperandExpression::Sum(l, r) => json!(["+", operand(l), operand(r)]),
    }
}

fn state(s: &StateExpression) -> Value {
    match s {
        StateExpression::LEQ(l, r) => json!(["<=", operand(l), operand(r)]),
        StateExpression::GEQ(l, r) => json!([">=", operand(l), operand(r)]),
        StateExpression::EQ(l, r) => json!(["==", operand(l), operand(r)]),
        StateExpression::LT(l, r) => json!(["<", operand(l), operand(r)]),
        StateExpression::GT(l, r) => json!([">", operand(l), operand(r)]),
        StateExpression::AND(l) => json!(["and", l.iter().map(state).collect::<Vec<_>>()]),
        StateExpression::OR(l) => json!(["or", l.iter().map(state).collect::<Vec<_>>()]),
        StateExpression::Location(v) => variable(v),
        StateExpression::NOT(t) => json!(["not", state(t)]),
        StateExpression::Bool(b) => json!([b.to_string()]),
    }
}

fn query(q: &QueryExpression) -> Value {
    let save = |k: &str, s: &SaveExpression| json!([k, system(&s.system), s.name.clone().unwrap_or_default()]);
    match q {
        QueryExpression::Refinement(l, r) => json!(["refinement:", system(l), system(r)]),
        QueryExpression::Consistency(s) => json!(["consistency:", system(s)]),
        QueryExpression::Reachability { system: s, from, to } => {
            json!(["reachability:", system(s), from.as_ref().map_or(json!(["init"]), state), state(to)])
        }
        QueryExpression::Implementation(s) => json!(["implementation:", system(s)]),
        QueryExpression::Determinism(s) => json!(["determinism:", system(s)]),
        QueryExpression::Specification(s) => json!(["specification:", system(s)]),
        QueryExpression::GetComponent(s) => save("get-component:", s),
        QueryExpression::Prune(s) => save("prune:", s),
        QueryExpression::BisimMinim(s) => save("bisim-minim:", s),
    }
}

/// {"texts"}: the trees of every text's queries.
pub fn parse(case: &Value) -> Value {
    let answers: Vec<Value> = case["texts"].as_array().unwrap().iter().map(|t| {
        safely(|| match parse_to_expression_tree(t.as_str().unwrap()) {
            Ok(qs) => json!({"r": "query", "t": qs.iter().map(query).collect::<Vec<_>>()}),
            Err(_) => json!({"r": "refused"}),
        })
    }).collect();
    json!({ "answers": answers })
}

/// {"comp", "names", "ints", "side"}: the component once written to its file format and read back.
/// Guards and invariants are told by the points they admit, the points by the clocks' names.
pub fn roundtrip(case: &Value) -> Value {
    let c = crate::model::component(&case["comp"]);
    let w = component_to_json(&c);
    let c = match json_to_component(&w) {
        Ok(c) => c,
        Err(e) => return json!({"r": "unreadable", "why": e.to_string(), "written": w}),
    };
    let names: Vec<String> = case["names"].as_array().unwrap().iter().map(|n| n.as_str().unwrap().into()).collect();
    // Every clock must have a place of its own; the places need not be the ones it had.
    let mut places: Vec<usize> = c.declarations.clocks.values().cloned().collect();
    places.sort();
    let mut clocks: Vec<&String> = c.declarations.clocks.keys().collect();
    clocks.sort();
    let mut ints: Vec<&String> = c.declarations.ints.keys().collect();
    ints.sort();
    let d = Declarations {
        clocks: names.iter().enumerate().map(|(i, n)| (n.clone(), i + 1)).collect(),
        ints: c.declarations.ints.clone(),
    };
    let side = case["side"].as_i64().unwrap();
    let m = |g: &Option<BoolExpression>| g.as_ref().map(|g| meaning(g, &d, side));
    json!({
        "r": "ok",
        "name": c.name,
        "clocks": clocks,
        "places": places,
        "ints": ints,
        "locations": c.locations.iter().map(|l| json!([l.id, format!("{:?}", l.location_type), l.urgency, m(&l.invariant)])).collect::<Vec<_>>(),
        "edges": c.edges.iter().map(|e| json!([e.id, e.source_location, e.target_location, e.sync, format!("{:?}", e.sync_type), m(&e.guard),
            e.update.as_ref().map(|us| us.iter().map(|u| json!([u.get_variable_name(), u.get_expression().encode_expr()])).collect::<Vec<_>>())])).collect::<Vec<_>>(),
        "written": w,
    })
}
