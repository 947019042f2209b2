pub mod boost;
pub mod cases;
pub mod engine;
pub mod model;
