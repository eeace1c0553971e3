#![allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
mod disk;
mod driver;
mod exec;
mod frame;
mod gen;
mod minimise;
mod ops;
mod props;
mod refqr;
mod rng;
mod sim;

#[global_allocator]
static ALLOC: sim::SimAlloc = sim::SimAlloc;

/// The same addresses in every process: start over without address space randomisation.
fn fixed_addresses() {
    unsafe {
        let now = libc::personality(0xffff_ffff);
        if now < 0 || now & libc::ADDR_NO_RANDOMIZE != 0 {
            return;
        }
        if libc::personality((now | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) < 0 {
            return;
        }
    }
    use std::os::unix::process::CommandExt;
    let mut a = std::env::args_os();
    let _ = a.next();
    let e = std::process::Command::new("/proc/self/exe").args(a).exec();
    eprintln!("re-exec: {}", e);
}

fn main() {
    if std::env::var_os("RUST_BACKTRACE").is_some() {
        std::env::remove_var("RUST_BACKTRACE");
    }
    fixed_addresses();
    exec::init_process();
    std::process::exit(driver::main(std::env::args().skip(1).collect()));
}
