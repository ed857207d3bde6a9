//! A simulation, as a client runs it: a start, and then steps that each take one of the offered decisions.
use crate::model::*;
use crate::query::components_info;
use reveaal::DataReader::component_loader::ModelCache;
use reveaal::ProtobufServer::services as pb;
use reveaal::ProtobufServer::ConcreteEcdarBackend;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn info(case: &Value, composition: &str, user: i32, hash: u32) -> pb::SimulationInfo {
    pb::SimulationInfo {
        user_id: user,
        component_composition: composition.to_string(),
        components_info: Some(components_info(case, hash)),
    }
}

/// {"comps", "composition", "choices": [number, ...]}
pub fn sim(case: &Value) -> Value {
    let composition = case["composition"].as_str().unwrap();
    let inf = || Some(info(case, composition, 1, 0));
    let mut steps = vec![];
    let mut chosen: Option<pb::Decision> = None;
    let mut choices = case["choices"].as_array().unwrap().iter();
    loop {
        let c = chosen.take();
        let r = catch_unwind(AssertUnwindSafe(|| match c {
            None => ConcreteEcdarBackend::handle_start_simulation(
                pb::SimulationStartRequest { simulation_info: inf() },
                ModelCache::default(),
            ),
            Some(d) => ConcreteEcdarBackend::handle_take_simulation_step(
                pb::SimulationStepRequest { simulation_info: inf(), chosen_decision: Some(d) },
                ModelCache::default(),
            ),
        }));
        let r = match r {
            Ok(Ok(r)) => r,
            Ok(Err(s)) => return json!({"steps": steps, "end": format!("status {s:?}")}),
            Err(e) => return json!({"steps": steps, "end": format!("panic {}", crate::message(&e))}),
        };
        let mut ds: Vec<(String, Value, pb::Decision)> = r
            .new_decision_points
            .into_iter()
            .map(|d| {
                let v = proto_decision(&d);
                (v.to_string(), v, d)
            })
            .collect();
        ds.sort_by(|a, b| a.0.cmp(&b.0));
        let mut step = json!({
            "full": proto_state(&r.full_state),
            "decisions": ds.iter().map(|d| d.1.clone()).collect::<Vec<_>>(),
        });
        if let Some(n) = choices.next() {
            if !ds.is_empty() {
                let i = n.as_u64().unwrap() as usize % ds.len();
                step["choice"] = json!(i);
                chosen = Some(ds.swap_remove(i).2);
            }
        }
        steps.push(step);
        if chosen.is_none() {
            return json!({ "steps": steps });
        }
    }
}
