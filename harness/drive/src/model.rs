//! Cases to components and systems; locations and states to JSON.
use reveaal::DataReader::component_loader::ComponentContainer;
use reveaal::DataReader::json_reader::json_to_component;
use reveaal::ModelObjects::Component;
use reveaal::ProtobufServer::services as pb;
use reveaal::System::specifics::SpecialLocation;
use reveaal::parse_queries::parse_to_system_expr;
use reveaal::System::extract_system_rep::get_system_recipe;
use reveaal::TransitionSystems::{LocationID, TransitionSystemPtr};
use serde_json::{json, Value};

pub fn component(v: &Value) -> Component {
    json_to_component(&v.to_string()).expect("component json")
}

pub fn components(case: &Value) -> Vec<Component> {
    case["comps"].as_array().unwrap().iter().map(component).collect()
}

pub fn container(case: &Value) -> ComponentContainer {
    ComponentContainer::from(components(case))
}

/// The system of the case, or the reason why it is refused.
pub fn system(case: &Value) -> Result<TransitionSystemPtr, String> {
    let mut loader = container(case);
    let expr = parse_to_system_expr(case["system"].as_str().unwrap()).expect("system text");
    let mut dimension = 0;
    get_system_recipe(&expr, &mut loader, &mut dimension, &mut None)
        .compile(dimension)
        .map_err(|e| format!("{e}"))
}

/// A location as the specification writes it.
pub fn loc_json(id: &LocationID) -> Value {
    match id {
        LocationID::Conjunction(a, b)
        | LocationID::Composition(a, b)
        | LocationID::Quotient(a, b) => json!(["n", loc_json(a), loc_json(b)]),
        LocationID::Simple(s) => json!(["c", s]),
        LocationID::Special(SpecialLocation::Universal) => json!(["u"]),
        LocationID::Special(SpecialLocation::Error) => json!(["e"]),
        LocationID::AnyLocation => json!(["any"]),
    }
}

pub fn proto_loc(t: &pb::LocationTree) -> Value {
    use pb::location_tree::NodeType::*;
    match t.node_type.as_ref() {
        Some(LeafLocation(l)) => {
            let c = l.component_instance.as_ref();
            json!(["c", l.id, c.map(|c| c.component_name.clone()), c.map(|c| c.component_index)])
        }
        Some(BinaryLocationOp(b)) => json!([
            "n",
            proto_loc(b.left.as_ref().unwrap()),
            proto_loc(b.right.as_ref().unwrap()),
            b.operator
        ]),
        Some(SpecialLocation(0)) => json!(["u"]),
        Some(SpecialLocation(_)) => json!(["e"]),
        None => json!(null),
    }
}

fn proto_clock(c: &Option<pb::Clock>) -> Value {
    use pb::clock::Clock::*;
    match c.as_ref().and_then(|c| c.clock.as_ref()) {
        Some(ZeroClock(_)) => json!(0),
        Some(ComponentClock(c)) => {
            let i = c.component_instance.as_ref();
            json!([i.map(|c| c.component_index), c.clock_name])
        }
        Some(SystemClock(s)) => json!(["sys", s.clock_index]),
        None => json!(null),
    }
}

pub fn proto_zone(z: &Option<pb::Disjunction>) -> Value {
    json!(z.as_ref().map(|z| z
        .conjunctions
        .iter()
        .map(|c| c
            .constraints
            .iter()
            .map(|k| json!([proto_clock(&k.x), proto_clock(&k.y), k.strict, k.c]))
            .collect::<Vec<_>>())
        .collect::<Vec<_>>()))
}

pub fn proto_state(s: &Option<pb::State>) -> Value {
    match s {
        None => json!(null),
        Some(s) => json!({
            "loc": s.location_tree.as_ref().map(proto_loc),
            "zone": proto_zone(&s.zone)
        }),
    }
}

pub fn proto_edges(e: &[pb::Edge]) -> Value {
    json!(e
        .iter()
        .map(|e| {
            let c = e.component_instance.as_ref();
            json!([c.map(|c| c.component_index), e.id, c.map(|c| c.component_name.clone())])
        })
        .collect::<Vec<_>>())
}

pub fn proto_decision(d: &pb::Decision) -> Value {
    json!({
        "source": proto_state(&d.source),
        "action": d.action,
        "edges": proto_edges(&d.edges),
        "destination": proto_state(&d.destination)
    })
}
