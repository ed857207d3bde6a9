//! A server, asked by clients in several threads; requests may be ill-formed in any way.
use crate::query::{components_info, response};
use crate::model::*;
use reveaal::ProtobufServer::services as pb;
use reveaal::ProtobufServer::services::ecdar_backend_server::EcdarBackend;
use reveaal::ProtobufServer::services::query_request::Settings;
use reveaal::ProtobufServer::ConcreteEcdarBackend;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier};
use tonic::Request;

fn instance(v: &Value) -> Option<pb::ComponentInstance> {
    v[2].as_str().map(|n| pb::ComponentInstance {
        component_name: n.to_string(),
        component_index: v[3].as_u64().unwrap_or(0) as u32,
    })
}

/// ["c", id, component, index] | ["n", left, right, operator] | ["u"] | ["e"] | ["s", number] | ["?"]
fn location(v: &Value) -> pb::LocationTree {
    use pb::location_tree::NodeType::*;
    let node_type = match v[0].as_str().unwrap_or("") {
        "c" => Some(LeafLocation(pb::LeafLocation {
            id: v[1].as_str().unwrap_or("").to_string(),
            component_instance: instance(v),
        })),
        "n" => Some(BinaryLocationOp(Box::new(pb::BinaryLocationOperator {
            left: (!v[1].is_null()).then(|| Box::new(location(&v[1]))),
            right: (!v[2].is_null()).then(|| Box::new(location(&v[2]))),
            operator: v[3].as_i64().unwrap_or(0) as i32,
        }))),
        "u" => Some(SpecialLocation(0)),
        "e" => Some(SpecialLocation(1)),
        "s" => Some(SpecialLocation(v[1].as_i64().unwrap() as i32)),
        _ => None,
    };
    pb::LocationTree { node_type }
}

/// 0 | ["k", name, component, index] | ["sys", number] | null
fn clock(v: &Value) -> Option<pb::Clock> {
    if v.is_null() {
        return None;
    }
    Some(pb::Clock {
        clock: match v[0].as_str() {
            Some("?") => None,
            None => v.is_number().then_some(pb::clock::Clock::ZeroClock(0)),
            Some("sys") => Some(pb::clock::Clock::SystemClock(pb::clock::SystemClock {
                clock_index: v[1].as_u64().unwrap() as u32,
            })),
            _ => Some(pb::clock::Clock::ComponentClock(pb::clock::ComponentClock {
                component_instance: instance(v),
                clock_name: v[1].as_str().unwrap().to_string(),
            })),
        },
    })
}

fn state(v: &Value) -> Option<pb::State> {
    v.is_object().then(|| pb::State {
        location_tree: v["loc"].is_array().then(|| location(&v["loc"])),
        zone: v["zone"].as_array().map(|cs| pb::Disjunction {
            conjunctions: cs
                .iter()
                .map(|c| pb::Conjunction {
                    constraints: c
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|k| pb::Constraint {
                            x: clock(&k[0]),
                            y: clock(&k[1]),
                            strict: k[2].as_bool().unwrap(),
                            c: k[3].as_i64().unwrap() as i32,
                        })
                        .collect(),
                })
                .collect(),
        }),
    })
}

fn decision(v: &Value) -> Option<pb::Decision> {
    v.is_object().then(|| pb::Decision {
        source: state(&v["source"]),
        action: v["action"].as_str().unwrap_or("").to_string(),
        edges: vec![],
        destination: state(&v["destination"]),
    })
}

/// "comps": null stands for a request without any components info, and a null in it for a component without content.
fn comps(r: &Value) -> Option<pb::ComponentsInfo> {
    r["comps"].as_array().map(|cs| {
        let given: Vec<Value> = cs.iter().filter(|c| !c.is_null()).cloned().collect();
        let mut i = components_info(&json!({ "comps": given }), r["h"].as_u64().unwrap_or(0) as u32);
        for (k, c) in cs.iter().enumerate() {
            if c.is_null() {
                i.components.insert(k, pb::Component { rep: None });
            }
        }
        i
    })
}

fn info(r: &Value) -> Option<pb::SimulationInfo> {
    r["composition"].as_str().map(|c| pb::SimulationInfo {
        user_id: r["u"].as_i64().unwrap_or(0) as i32,
        component_composition: c.to_string(),
        components_info: comps(r),
    })
}

fn step(r: Result<tonic::Response<pb::SimulationStepResponse>, tonic::Status>) -> Value {
    match r {
        Err(s) => json!({"r": "status", "status": format!("{s:?}")}),
        Ok(r) => {
            let r = r.into_inner();
            let mut ds: Vec<Value> = r.new_decision_points.iter().map(proto_decision).collect();
            ds.sort_by_key(|d| d.to_string());
            json!({"r": "step", "full": proto_state(&r.full_state), "decisions": ds})
        }
    }
}

pub fn ask(b: &ConcreteEcdarBackend, r: &Value) -> Value {
    use futures::executor::block_on;
    let a = catch_unwind(AssertUnwindSafe(|| match r["k"].as_str().unwrap() {
        "token" => match block_on(b.get_user_token(Request::new(()))) {
            Ok(t) => json!({"r": "token", "token": t.into_inner().user_id}),
            Err(s) => json!({"r": "status", "status": format!("{s:?}")}),
        },
        "query" => response(
            block_on(b.send_query(Request::new(pb::QueryRequest {
                user_id: r["u"].as_i64().unwrap_or(0) as i32,
                query_id: r["i"].as_i64().unwrap_or(0) as i32,
                query: r["query"].as_str().unwrap_or("").to_string(),
                components_info: comps(r),
                settings: r["settings"].as_bool().map(|d| Settings { disable_clock_reduction: d }),
            })))
            .map(|r| r.into_inner()),
        ),
        "start" => step(block_on(b.start_simulation(Request::new(pb::SimulationStartRequest {
            simulation_info: info(r),
        })))),
        "step" => step(block_on(b.take_simulation_step(Request::new(pb::SimulationStepRequest {
            simulation_info: info(r),
            chosen_decision: decision(&r["decision"]),
        })))),
        k => panic!("unknown request {k}"),
    }));
    // A panic that reaches the caller has escaped from the server.
    a.unwrap_or_else(|e| json!({"r": "escaped", "panic": crate::message(&e)}))
}

/// As `serve`, but gives up on a server that does not answer.
pub fn server(case: &Value) -> Value {
    let (tx, rx) = std::sync::mpsc::channel();
    let c = case.clone();
    std::thread::spawn(move || {
        let _ = tx.send(serve(&c));
    });
    match rx.recv_timeout(std::time::Duration::from_secs(case["patience"].as_u64().unwrap_or(60))) {
        Ok(v) => v,
        Err(e) => json!({ "hangs": e.to_string() }),
    }
}

/// {"pool", "cache", "clients": [[request, ...], ...]}: answers, with the order of calls and returns.
fn serve(case: &Value) -> Value {
    let b = Arc::new(ConcreteEcdarBackend::new(
        case["pool"].as_u64().unwrap_or(1) as usize,
        case["cache"].as_u64().unwrap_or(100) as usize,
    ));
    let clients = case["clients"].as_array().unwrap();
    let now = Arc::new(AtomicUsize::new(0));
    let run = |rs: &[Value], b: &ConcreteEcdarBackend, now: &AtomicUsize| -> Vec<Value> {
        rs.iter()
            .map(|r| {
                let c = now.fetch_add(1, Ordering::SeqCst);
                let a = ask(b, r);
                json!([c, now.fetch_add(1, Ordering::SeqCst), a])
            })
            .collect()
    };
    if clients.len() == 1 {
        return json!({"answers": [run(clients[0].as_array().unwrap(), &b, &now)]});
    }
    let gate = Arc::new(Barrier::new(clients.len()));
    let out: Vec<Vec<Value>> = std::thread::scope(|s| {
        let hs: Vec<_> = clients
            .iter()
            .map(|rs| {
                let (b, now, gate) = (b.clone(), now.clone(), gate.clone());
                s.spawn(move || {
                    gate.wait();
                    run(rs.as_array().unwrap(), &b, &now)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    json!({ "answers": out })
}

/// {"threads", "each"}: the tokens that each thread gets.
pub fn tokens(case: &Value) -> Value {
    use futures::executor::block_on;
    let n = case["threads"].as_u64().unwrap() as usize;
    let each = case["each"].as_u64().unwrap();
    let b = ConcreteEcdarBackend::new(1, 1);
    let gate = Barrier::new(n);
    let out: Vec<Vec<i32>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|_| {
                s.spawn(|| {
                    gate.wait();
                    (0..each)
                        .map(|_| block_on(b.get_user_token(Request::new(()))).unwrap().into_inner().user_id)
                        .collect::<Vec<i32>>()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    json!({ "tokens": out })
}
