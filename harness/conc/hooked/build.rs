fn main() {
    println!("cargo:rustc-cfg=lokky_verif");
    println!("cargo:rerun-if-changed=/repo/src");
}
