//! Programs of several threads that use handles of one value, and the search over all of them.

pub mod prog;
pub mod run;
pub mod litmus;
