//! One query, asked the way a client asks it.
use crate::model::*;
use reveaal::DataReader::component_loader::ModelCache;
use reveaal::ProtobufServer::services as pb;
use reveaal::ProtobufServer::services::query_request::Settings;
use reveaal::ProtobufServer::services::query_response as qr;
use reveaal::ProtobufServer::ConcreteEcdarBackend;
use serde_json::{json, Value};

pub fn components_info(case: &Value, hash: u32) -> pb::ComponentsInfo {
    pb::ComponentsInfo {
        components: case["comps"]
            .as_array()
            .unwrap()
            .iter()
            .map(|c| pb::Component {
                rep: Some(match c {
                    Value::String(s) if s.trim_start().starts_with('<') => {
                        pb::component::Rep::Xml(s.clone())
                    }
                    Value::String(s) => pb::component::Rep::Json(s.clone()),
                    c => pb::component::Rep::Json(c.to_string()),
                }),
            })
            .collect(),
        components_hash: hash,
    }
}

pub fn request(case: &Value, query: &str, reduce: bool, user: i32, id: i32, hash: u32) -> pb::QueryRequest {
    pb::QueryRequest {
        user_id: user,
        query_id: id,
        query: query.to_string(),
        components_info: Some(components_info(case, hash)),
        settings: Some(Settings { disable_clock_reduction: !reduce }),
    }
}

fn actions(a: &pb::ActionFailure) -> Value {
    json!({"kind": a.failure, "sets": a.action_sets.iter().map(|s| {
        let mut v = s.actions.clone();
        v.sort();
        json!({"actions": v, "system": s.system, "is_input": s.is_input})
    }).collect::<Vec<_>>()})
}

fn state_action(s: &Option<pb::StateAction>) -> Value {
    match s {
        None => json!(null),
        Some(s) => json!({"state": proto_state(&s.state), "action": s.action}),
    }
}

fn determinism(f: &qr::DeterminismFailure) -> Value {
    json!({"r": "determinism", "system": f.system, "at": state_action(&f.failure_state)})
}

fn consistency(f: &qr::ConsistencyFailure) -> Value {
    use qr::consistency_failure::Failure::*;
    let why = match &f.failure {
        Some(NoInitialState(_)) => json!({"why": "noinit"}),
        Some(Determinism(d)) => json!({"why": "determinism", "det": determinism(d)}),
        Some(FailureState(s)) => json!({"why": "state", "state": proto_state(&Some(s.clone()))}),
        None => json!({"why": "none"}),
    };
    json!({"r": "consistency", "system": f.system, "f": why})
}

pub fn result(r: &Option<qr::Result>) -> Value {
    use qr::Result::*;
    match r {
        None => json!({"r": "none"}),
        Some(Success(_)) => json!({"r": "ok"}),
        Some(Refinement(f)) => {
            use qr::refinement_failure::Failure::*;
            let why = match &f.failure {
                Some(RefinementState(s)) => {
                    json!({"why": if s.unmatched == 0 {"match"} else {"delay"}, "at": state_action(&s.state)})
                }
                Some(EmptySystem(s)) => json!({"why": "empty", "child": s}),
                Some(NoInitialState(_)) => json!({"why": "noinit"}),
                Some(InconsistentChild(c)) => json!({"why": "child", "child": consistency(c)}),
                Some(ActionMismatch(a)) => json!({"why": "actions", "actions": actions(a)}),
                None => json!({"why": "none"}),
            };
            json!({"r": "refinement", "system": f.system, "f": why})
        }
        Some(Consistency(f)) => consistency(f),
        Some(Determinism(f)) => determinism(f),
        Some(Reachability(_)) => json!({"r": "unreachable"}),
        Some(ReachabilityPath(p)) => json!({"r": "path", "path": p.path.as_ref().map(|p| {
            p.decisions.iter().map(proto_decision).collect::<Vec<_>>()
        })}),
        Some(Component(c)) => match &c.rep {
            Some(pb::component::Rep::Json(s)) => {
                json!({"r": "component", "component": serde_json::from_str::<Value>(s).unwrap_or(json!(null))})
            }
            _ => json!({"r": "component", "component": null}),
        },
        Some(Model(m)) => {
            use qr::model_failure::Failure::*;
            let why = match &m.failure {
                Some(ActionMismatch(a)) => json!({"why": "actions", "actions": actions(a)}),
                Some(InconsistentConjunction(c)) => json!({"why": "child", "child": consistency(c)}),
                None => json!({"why": "none"}),
            };
            json!({"r": "model", "system": m.system, "f": why})
        }
        Some(Error(e)) => json!({"r": "error", "error": e.error}),
    }
}

pub fn response(r: Result<pb::QueryResponse, tonic::Status>) -> Value {
    match r {
        Ok(r) => {
            let mut v = result(&r.result);
            v["query_id"] = json!(r.query_id);
            v
        }
        Err(s) => json!({"r": "status", "status": format!("{:?}", s)}),
    }
}

/// {"comps", "queries": [[text, reduce], ...]}
pub fn query(case: &Value) -> Value {
    let answers: Vec<Value> = case["queries"]
        .as_array()
        .unwrap()
        .iter()
        .enumerate()
        .map(|(i, q)| {
            let r = request(case, q[0].as_str().unwrap(), q[1].as_bool().unwrap(), 1, i as i32, 0);
            let a = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                response(ConcreteEcdarBackend::handle_send_query(r, ModelCache::default()))
            }));
            match a {
                Ok(v) => v,
                Err(e) => json!({"r": "panic", "panic": crate::message(&e)}),
            }
        })
        .collect();
    json!({ "answers": answers })
}
