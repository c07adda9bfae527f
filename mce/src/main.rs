#[path = "../../mc/src/engine.rs"]
mod engine;
mod guard;
#[path = "../../mc/src/model.rs"]
mod model;
mod props;
#[path = "../../mc/src/origin.rs"]
mod origin;
#[path = "../../mc/src/report.rs"]
mod report;
mod sched;
fn main() {
    // one case at a time: the native library keeps process-wide state
    std::env::set_var("MC_THREADS", "1");
    std::env::set_var("MC_HANG", "200");
    report::main()
}
