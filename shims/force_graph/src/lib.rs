//! Stand-in for force_graph: keeps the nodes where they were put.
pub type DefaultNodeIdx = usize;
pub struct NodeData<U = ()> { pub x: f32, pub y: f32, pub mass: f32, pub is_anchor: bool, pub user_data: U }
pub struct Node<U = ()> { pub data: NodeData<U> }
impl<U> Node<U> { pub fn x(&self) -> f32 { self.data.x } pub fn y(&self) -> f32 { self.data.y } }
#[derive(Default, Clone)]
pub struct EdgeData<E = ()> { pub user_data: E }
#[derive(Default, Clone)]
pub struct SimulationParameters;
pub struct ForceGraph<U = (), E = ()> { nodes: Vec<Node<U>>, edges: Vec<(usize, usize, EdgeData<E>)> }
impl<U, E> ForceGraph<U, E> {
    pub fn new(_: SimulationParameters) -> Self { ForceGraph { nodes: vec![], edges: vec![] } }
    pub fn add_node(&mut self, data: NodeData<U>) -> usize { self.nodes.push(Node { data }); self.nodes.len() - 1 }
    pub fn add_edge(&mut self, a: usize, b: usize, e: EdgeData<E>) { self.edges.push((a, b, e)); }
    pub fn update(&mut self, _dt: f32) {}
    pub fn visit_nodes<F: FnMut(&Node<U>)>(&self, mut f: F) { for n in &self.nodes { f(n) } }
}
