//! Stand-in: the simulator keeps its own panic hook.
pub fn set_once() {}
pub fn hook(_: &std::panic::PanicHookInfo) {}
