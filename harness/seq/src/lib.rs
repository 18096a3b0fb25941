pub mod elem;
pub mod engine;
pub mod mem;
pub mod seqvec;
pub mod run;
pub mod seqstr;
pub mod ptrs;
pub mod boxes;
pub mod scopes;
pub mod longs;
#[macro_use]
pub mod marks;
pub mod fwd;
