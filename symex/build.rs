fn main() {
    // the libz3 shipped with the Python bindings is newer and faster; fall back to the system one
    let p = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib";
    if std::path::Path::new(&format!("{}/libz3.so", p)).exists() && std::env::var("SYMEX_SYSTEM_Z3").is_err() {
        println!("cargo:rustc-link-search=native={}", p);
        println!("cargo:rustc-link-arg=-Wl,-rpath,{}", p);
    }
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-env-changed=SYMEX_SYSTEM_Z3");
}
