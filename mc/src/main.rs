mod engine;
mod model;
mod origin;
mod gen;
mod props;
mod report;
fn main() { report::main() }
