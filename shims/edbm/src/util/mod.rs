pub mod bounds;
pub mod constraints;
