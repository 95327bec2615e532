#[path = "../../mc/src/kit/cpu.rs"]
pub mod cpu;
#[path = "../../mc/src/kit/model.rs"]
pub mod model;
#[path = "../../mc/src/kit/run.rs"]
pub mod run;
/// The counting and guarding allocator is not used here.
pub mod alloc {
    use std::cell::Cell;
    thread_local! { pub static IN_ALLOC: Cell<bool> = const { Cell::new(false) }; }
    pub fn set_mode(_: u8) {}
    pub fn take_error() -> Option<&'static str> {
        None
    }
    pub fn off<R>(f: impl FnOnce() -> R) -> R {
        f()
    }
}
