pub mod alloc;
pub mod fw;
pub mod gen;
pub mod json;
pub mod model;
pub mod rng;
