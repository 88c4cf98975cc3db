//! Takes /repo/remote-ffi's current sources as they are; its generated ffi.rs, which nothing here
//! needs, is replaced by an empty module.
use std::{env, fs, path::Path};

fn main() {
    let out = env::var("OUT_DIR").unwrap();
    let src = Path::new("/repo/remote-ffi/src");
    println!("cargo:rerun-if-changed=/repo/remote-ffi/src");
    println!("cargo:rerun-if-changed=build.rs");
    for e in fs::read_dir(src).unwrap() {
        let p = e.unwrap().path();
        if p.extension().map_or(false, |x| x == "rs") {
            fs::copy(&p, Path::new(&out).join(p.file_name().unwrap())).unwrap();
        }
    }
    fs::write(Path::new(&out).join("ffi.rs"), "").unwrap();
}
