pub mod algebra;
pub mod driver;
pub mod field;
pub mod gen;
pub mod labels;
pub mod mon;
pub mod read;
pub mod red;
pub mod rips;
pub mod rng;
pub use driver::{skip, viol, Ctx};
pub use rng::Rng;
pub mod spec;
pub mod stack;
pub mod ripslib;
