//! Deterministic simulation of callers, operating system and storage around scilla-parser.

mod alloc;
mod exec;
mod gen;
mod minimise;
mod plan;
mod props;
mod report;
mod rng;
mod rt;
mod runner;
mod sys;
mod visit;

#[global_allocator]
static A: alloc::Tagging = alloc::Tagging;

/// The same addresses in every run, where the system lets us
fn fixed_addresses() {
    unsafe {
        let p = libc::personality(0xffffffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var("SIM_REEXEC").is_err() {
            if libc::personality(p as libc::c_ulong | libc::ADDR_NO_RANDOMIZE as libc::c_ulong) < 0 {
                return;
            }
            use std::os::unix::process::CommandExt;
            let mut a = std::env::args_os();
            let _ = a.next();
            if let Ok(exe) = std::env::current_exe() {
                let _ = std::process::Command::new(exe).args(a).env("SIM_REEXEC", "1").exec();
            }
        }
    }
}

fn main() {
    fixed_addresses();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    exec::install_hook();
    let code = match arg(0) {
        "check" => {
            let tier = match arg(2) {
                "thorough" => 1,
                "quick" | "" => 0,
                x => {
                    eprintln!("tier {}?", x);
                    std::process::exit(2)
                }
            };
            if !props::CLAIMED.contains(&arg(1)) {
                eprintln!("no check for property {:?}", arg(1));
                std::process::exit(2);
            }
            runner::check(arg(1), tier, arg(3).parse().ok())
        }
        "replay" => runner::replay(arg(1)),
        "selftest" => runner::selftest(arg(1).parse().unwrap_or(60)),
        "acceptance" => runner::acceptance(arg(1).parse().unwrap_or(200)),
        "show" => {
            let mut ctx = runner::Ctx::new();
            let i: u64 = arg(2).parse().unwrap_or(0);
            let mut r = rng::Rng::new(rng::derive(runner::seed(), arg(1), i));
            let p = props::generate(arg(1), &mut r, i, 0, &mut ctx);
            print!("{}", plan::to_text(&p));
            0
        }
        _ => {
            eprintln!("usage: simscilla check <property> [quick|thorough] [runs] | replay <file> | show <property> <run> | selftest [n] | acceptance [n]");
            2
        }
    };
    std::process::exit(code);
}
