//! Work that the parser has done by precompiled functions of core would not show
//! as basic-block steps. The ones whose cost depends on the length of a text are
//! wrapped at link time (`--wrap`), and the bytes they look at are counted.
use std::process::Command;

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let out = std::env::var("OUT_DIR").unwrap();
    let rustc = std::env::var("RUSTC").unwrap_or("rustc".into());
    let mut code = String::new();
    for s in symbols(&rustc) {
        let (sig, call, ret, cost) = if s.ends_with("3str5count14do_count_chars") || s.ends_with("3str5count23char_count_general_case") {
            ("a: &[u8]", "a", "usize", "a.len()")
        } else if s.ends_with("6memchr14memchr_aligned") {
            ("x: u8, a: &[u8]", "x, a", "Option<usize>", "r.map_or(a.len(), |i| i + 1)")
        } else if s.ends_with("6memchr15memrchr_aligned") || s.ends_with("5slice6memchr7memrchr") {
            ("x: u8, a: &[u8]", "x, a", "Option<usize>", "a.len() - r.unwrap_or(0)")
        } else if s.ends_with("3str8converts9from_utf8") {
            ("a: &[u8]", "a", "Result<&str, std::str::Utf8Error>", "a.len()")
        } else if s.contains("3num11float_parsed") && s.ends_with("8from_str") {
            ("a: &str", "a", "Result<f64, std::num::ParseFloatError>", "a.len()")
        } else {
            continue;
        };
        let n = code.lines().count();
        println!("cargo:rustc-link-arg-bins=-Wl,--wrap={}", s);
        code.push_str(&format!(
            "extern \"Rust\" {{ #[link_name = \"__real_{s}\"] fn real{n}({sig}) -> {ret}; }} #[export_name = \"__wrap_{s}\"] fn wrap{n}({sig}) -> {ret} {{ let r = unsafe {{ real{n}({call}) }}; unsafe {{ crate::rt::SCANNED += ({cost}) as u64 }}; r }}\n"
        ));
    }
    println!("cargo:rustc-env=GSIM_WRAPS={}", code.lines().count());
    std::fs::write(format!("{}/wraps.rs", out), code).unwrap();
}

/// The global functions of core.
fn symbols(rustc: &str) -> Vec<String> {
    let text = |c: &mut Command| c.output().ok().map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
    let dir = text(Command::new(rustc).args(["--print", "target-libdir"]));
    let Ok(list) = std::fs::read_dir(dir.trim()) else { return vec![] };
    let mut out = vec![];
    for f in list.flatten() {
        let name = f.file_name().to_string_lossy().into_owned();
        if name.starts_with("libcore-") && name.ends_with(".rlib") {
            for l in text(Command::new("nm").args(["-g", "--defined-only"]).arg(f.path())).lines() {
                if let Some(s) = l.split(" T ").nth(1) {
                    out.push(s.trim().to_string());
                }
            }
        }
    }
    out.sort();
    out.dedup();
    out
}
