pub mod alloc;
pub mod bufops;
pub mod cpu;
pub mod fork;
pub mod input;
pub mod model;
pub mod run;
pub mod sched;
