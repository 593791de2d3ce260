//! With the feature `gen`: the sources of the instance generator of the repository, with the
//! program arguments of the harness in the place of those of the process.
use std::{env, fs, path::Path};

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    if env::var("CARGO_FEATURE_GEN").is_err() {
        return;
    }
    let toml = fs::read_to_string("Cargo.toml").unwrap();
    let repo = toml.lines().find_map(|l| l.strip_prefix("walky = { path = \"")).unwrap().split('"').next().unwrap().to_string();
    let dir = format!("{repo}/utils/gen_matrix_fast/src");
    println!("cargo:rerun-if-changed={dir}");
    let out = env::var("OUT_DIR").unwrap();
    for f in fs::read_dir(&dir).unwrap() {
        let f = f.unwrap().path();
        if f.extension().map_or(false, |e| e == "rs") {
            let s = fs::read_to_string(&f).unwrap().replace("::std::", "std::").replace("std::", "crate::h_gen::std_::");
            fs::write(Path::new(&out).join(f.file_name().unwrap()), s).unwrap();
        }
    }
    println!("cargo:rustc-env=GENERATOR={out}/main.rs");
}
