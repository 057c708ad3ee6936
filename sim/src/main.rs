//! gsim: deterministic simulation of giron with fault injection.
mod case;
mod corpus;
mod deliver;
mod exec;
mod gen;
mod growth;
mod orch;
mod p_binding;
mod p_conc;
mod p_group;
mod p_hist;
mod p_layout;
mod p_mem;
mod p_sink;
mod p_source;
mod p_text;
mod p_semi;
mod p_span;
mod p_volume;
mod proc;
mod rng;
mod rt;
mod sched;

use case::{Ctx, Prop};

fn main() {
    fixed_layout();
    exec::install_panic_hook();
    rt::find_statics();
    let props: [&dyn Prop; 19] = [
        &p_source::C01, &p_source::C02, &p_mem::C03, &p_mem::C04, &p_conc::C05, &p_hist::C06, &p_hist::C07, &p_text::C08,
        &p_text::C09, &p_text::C10, &p_sink::C11, &p_span::C15, &p_binding::C16, &p_layout::C17, &p_layout::C18, &p_layout::C19, &p_volume::C20, &p_semi::C21, &p_group::C22,
    ];
    let args: Vec<String> = std::env::args().skip(1).collect();
    let env = |n: &str| std::env::var(n).ok();
    let tier = env("VERIF_TIER").unwrap_or("quick".into());
    let seed = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
    let repo = env("GSIM_REPO").unwrap_or("/repo".into());
    let base = env("GSIM_BASE").map(Into::into).unwrap_or_else(|| std::path::Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf());
    let workers = env("GSIM_WORKERS").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 16));
    let cx = Ctx { seed, thorough: tier == "thorough", mined: corpus::mine(&repo) };
    proc::setup_shared();
    let st = orch::Setup { base, workers, tier };
    if args.iter().any(|a| a == "C16") && !p_binding::BUILT {
        eprintln!("gsim: the wasm package does not build in the simulated host");
        std::process::exit(2);
    }
    let code = match args.iter().map(|s| s.as_str()).collect::<Vec<_>>()[..] {
        ["check", id] => match props.iter().find(|p| p.id() == id) {
            Some(p) => orch::check(*p, &cx, &st),
            None => {
                eprintln!("gsim: no property {}", id);
                2
            }
        },
        ["replay", path] => orch::replay(&props, &cx, path),
        ["show", id, n] => {
            let p = props.iter().find(|p| p.id() == id).expect("property");
            println!("{}", serde_json::to_string_pretty(&p.gen(&cx, n.parse().unwrap())).unwrap());
            0
        }
        ["try", ref texts @ ..] => {
            for t in texts {
                for g in [exec::Goal::Module, exec::Goal::Script] {
                    println!("{:?} {:?} => {}", g, t, exec::describe(&exec::canon(exec::call(&exec::Call::new(g, t)))));
                }
            }
            0
        }
        _ => {
            eprintln!("usage: gsim check <property> | replay <file> | show <property> <case> | try <source>...");
            2
        }
    };
    std::process::exit(code);
}

/// Switches address randomisation off for this program, where that is allowed,
/// so that a run does not depend on it (C07 varies the layout deliberately).
fn fixed_layout() {
    const NO_RANDOMIZE: i64 = 0x0040000;
    unsafe {
        let p = rt::raw(135, 0xffff_ffff, 0, 0, 0, 0, 0);
        if p < 0 || p & NO_RANDOMIZE != 0 || std::env::var("GSIM_ASLR").is_ok() {
            return;
        }
        if rt::raw(135, p | NO_RANDOMIZE, 0, 0, 0, 0, 0) < 0 {
            return;
        }
    }
    use std::os::unix::process::CommandExt;
    if let Ok(me) = std::env::current_exe() {
        let _ = std::process::Command::new(me).args(std::env::args_os().skip(1)).env("GSIM_ASLR", "tried").exec();
    }
}
