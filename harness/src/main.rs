#![feature(alloc_error_hook)]
#![allow(clippy::needless_range_loop)]

mod alloc;
mod dd;
mod model;
mod rng;
mod rt;
mod run;
mod scn;
mod sys;
mod world;

fn main() {
    // the same address space layout every time
    unsafe {
        const NO_RANDOM: u64 = 0x0040000;
        let p = sys::personality(0xffff_ffff) as u64;
        if p & NO_RANDOM == 0 && std::env::var_os("BSIM_EXEC").is_none() && sys::personality(p | NO_RANDOM) != -1 {
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new("/proc/self/exe")
                .args(std::env::args_os().skip(1))
                .env("BSIM_EXEC", "1")
                .exec();
            eprintln!("re-exec: {}", e);
        }
    }
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["check", prop, rest @ ..] => run::check(prop, rest),
        ["replay", file] => run::replay(file),
        ["determinism", rest @ ..] => run::determinism(rest),
        ["show", prop, seed, i] => {
            print!("{}", scn::generate(prop, seed.parse().unwrap(), i.parse().unwrap()).show());
            0
        }
        _ => {
            eprintln!("usage: bsim check PROP [--seed N] [--runs N] [--seconds N] [--out DIR] | replay FILE | determinism [N] | show PROP SEED RUN");
            2
        }
    };
    std::process::exit(code)
}
