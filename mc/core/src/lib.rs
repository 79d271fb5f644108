pub mod check;
pub mod driver;
pub mod explore;
pub mod relevance;
pub mod scen;
pub mod spec;
pub mod svm;
pub mod world;
