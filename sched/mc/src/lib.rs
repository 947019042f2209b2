//! Stateless model checking of the library under the scheduler in rayon-core.
pub mod explore;
pub mod hooks;
pub mod scen;
