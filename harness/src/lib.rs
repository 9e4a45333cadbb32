pub mod flat;
pub mod flt;
pub mod gen;
pub mod guard;
pub mod rng;
pub mod run;
pub mod term;
pub mod docs;
pub mod model;
pub mod probe;
pub mod texts;
