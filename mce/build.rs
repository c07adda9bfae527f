fn main() {
    // every call of the native iteration goes through the scheduler in sched.rs
    println!("cargo:rustc-link-arg=-Wl,--wrap=dnaupd_");
    println!("cargo:rustc-link-arg=-Wl,--wrap=dneupd_");
}
