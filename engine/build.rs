// Link against the newest Z3 shared library present on the machine.
fn main() {
    let cands = [
        "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib",
        "/usr/lib/x86_64-linux-gnu",
    ];
    let forced = std::env::var("LSX_Z3_DIR").ok();
    println!("cargo:rerun-if-env-changed=LSX_Z3_DIR");
    let dir = forced.unwrap_or_else(|| {
        cands
            .iter()
            .find(|d| std::path::Path::new(d).join("libz3.so").exists())
            .expect("no libz3.so found")
            .to_string()
    });
    println!("cargo:rustc-link-search=native={dir}");
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rustc-link-arg=-Wl,-rpath,{dir}");
}
