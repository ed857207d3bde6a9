// Stand-in for what prost and tonic generate from Ecdar-ProtoBuf/services.proto.
macro_rules! messages {
    ($($(#[$m:meta])* $n:ident { $($f:ident : $t:ty),* $(,)? })*) => {
        $($(#[$m])* #[derive(Clone, PartialEq, Debug, Default)] pub struct $n { $(pub $f: $t),* })*
    };
}
messages! {
    UserTokenResponse { user_id: i32 }
    ComponentsInfo { components: Vec<Component>, components_hash: u32 }
    QueryRequest {
        user_id: i32, query_id: i32, query: String, components_info: Option<ComponentsInfo>,
        settings: Option<query_request::Settings>,
    }
    QueryResponse { query_id: i32, info: Vec<query_response::Information>, result: Option<query_response::Result> }
    SimulationInfo { component_composition: String, components_info: Option<ComponentsInfo>, user_id: i32 }
    SimulationStartRequest { simulation_info: Option<SimulationInfo> }
    SimulationStepRequest { simulation_info: Option<SimulationInfo>, chosen_decision: Option<Decision> }
    SimulationStepResponse { full_state: Option<State>, new_decision_points: Vec<Decision> }
    Component { rep: Option<component::Rep> }
    ComponentInstance { component_name: String, component_index: u32 }
    State { location_tree: Option<LocationTree>, zone: Option<Disjunction> }
    LocationTree { node_type: Option<location_tree::NodeType> }
    LeafLocation { id: String, component_instance: Option<ComponentInstance> }
    BinaryLocationOperator { left: Option<Box<LocationTree>>, right: Option<Box<LocationTree>>, operator: i32 }
    Disjunction { conjunctions: Vec<Conjunction> }
    Conjunction { constraints: Vec<Constraint> }
    Constraint { x: Option<Clock>, y: Option<Clock>, strict: bool, c: i32 }
    Clock { clock: Option<clock::Clock> }
    Edge { id: String, component_instance: Option<ComponentInstance> }
    Decision { source: Option<State>, action: String, edges: Vec<Edge>, destination: Option<State> }
    Path { decisions: Vec<Decision> }
    StateAction { state: Option<State>, action: String }
    ActionFailure { failure: i32, action_sets: Vec<action_failure::ActionSet> }
}
impl BinaryLocationOperator {
    pub fn operator(&self) -> binary_location_operator::Operator {
        use binary_location_operator::Operator::*;
        match self.operator { 1 => Composition, 2 => Quotient, 3 => Refinement, _ => Conjunction }
    }
}
pub mod binary_location_operator {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    #[repr(i32)]
    pub enum Operator { Conjunction = 0, Composition = 1, Quotient = 2, Refinement = 3 }
}
pub mod location_tree {
    #[derive(Clone, PartialEq, Debug)]
    pub enum NodeType {
        LeafLocation(super::LeafLocation),
        BinaryLocationOp(Box<super::BinaryLocationOperator>),
        SpecialLocation(i32),
    }
}
pub mod component {
    #[derive(Clone, PartialEq, Debug)]
    pub enum Rep { Json(String), Xml(String) }
}
pub mod clock {
    messages! {
        ComponentClock { component_instance: Option<super::ComponentInstance>, clock_name: String }
        SystemClock { clock_index: u32 }
    }
    #[derive(Clone, PartialEq, Debug)]
    pub enum Clock { ZeroClock(i32), ComponentClock(ComponentClock), SystemClock(SystemClock) }
}
pub mod action_failure {
    messages! { ActionSet { actions: Vec<String>, system: String, is_input: bool } }
}
pub mod query_request {
    messages! { Settings { disable_clock_reduction: bool } }
}
pub mod query_response {
    messages! {
        Information { subject: String, message: String }
        Success {}
        Error { error: String }
        ModelFailure { system: String, failure: Option<model_failure::Failure> }
        RefinementFailure { system: String, failure: Option<refinement_failure::Failure> }
        ConsistencyFailure { system: String, failure: Option<consistency_failure::Failure> }
        DeterminismFailure { system: String, failure_state: Option<super::StateAction> }
        ReachabilityFailure { failure: i32 }
        ReachabilityPath { path: Option<super::Path> }
    }
    pub mod model_failure {
        #[derive(Clone, PartialEq, Debug)]
        pub enum Failure { ActionMismatch(super::super::ActionFailure), InconsistentConjunction(super::ConsistencyFailure) }
    }
    pub mod refinement_failure {
        messages! { RefinementStateFailure { unmatched: i32, state: Option<super::super::StateAction> } }
        #[derive(Clone, PartialEq, Debug)]
        pub enum Failure {
            RefinementState(RefinementStateFailure),
            EmptySystem(String),
            NoInitialState(i32),
            InconsistentChild(super::ConsistencyFailure),
            ActionMismatch(super::super::ActionFailure),
        }
    }
    pub mod consistency_failure {
        #[derive(Clone, PartialEq, Debug)]
        pub enum Failure { NoInitialState(i32), Determinism(super::DeterminismFailure), FailureState(super::super::State) }
    }
    #[derive(Clone, PartialEq, Debug)]
    pub enum Result {
        Success(Success), Refinement(RefinementFailure), Consistency(ConsistencyFailure),
        Determinism(DeterminismFailure), Reachability(ReachabilityFailure),
        ReachabilityPath(ReachabilityPath), Component(super::Component), Model(ModelFailure), Error(Error),
    }
}
pub mod ecdar_backend_server {
    use super::*;
    #[allow(async_fn_in_trait)]
    pub trait EcdarBackend: Send + Sync + 'static {
        async fn get_user_token(&self, request: tonic::Request<()>) -> Result<tonic::Response<UserTokenResponse>, tonic::Status>;
        async fn send_query(&self, request: tonic::Request<QueryRequest>) -> Result<tonic::Response<QueryResponse>, tonic::Status>;
        async fn start_simulation(&self, request: tonic::Request<SimulationStartRequest>) -> Result<tonic::Response<SimulationStepResponse>, tonic::Status>;
        async fn take_simulation_step(&self, request: tonic::Request<SimulationStepRequest>) -> Result<tonic::Response<SimulationStepResponse>, tonic::Status>;
    }
    pub struct EcdarBackendServer<T>(pub T);
    impl<T: EcdarBackend> EcdarBackendServer<T> { pub fn new(inner: T) -> Self { EcdarBackendServer(inner) } }
}
