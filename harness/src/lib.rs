pub mod big;
pub mod gen;
pub mod iters;
pub mod meter;
pub mod model;
pub mod objects;
pub mod probe;
pub mod rng;
pub mod run;
pub mod treemodel;
pub mod wmodel;
pub use run::{Ctx, Scenario, R};
