fn main() {
    for g in ["", "_query", "_fft", "_trace", "_vdf", "_fp2", "_tensor"] { println!("cargo::rustc-check-cfg=cfg(hodor_verif{})", g) }
    println!("cargo::rerun-if-changed=build.rs");
}
