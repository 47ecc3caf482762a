fn main() {
    println!("cargo::rerun-if-changed=build.rs");
    #[cfg(feature = "c05")]
    {
        let f = std::path::Path::new(&std::env::var_os("OUT_DIR").unwrap()).join("c05_gen.rs");
        std::fs::write(f, fzgen::write()).unwrap();
    }
}
