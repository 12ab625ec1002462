fn main() {
    println!("cargo:rerun-if-changed=src/vsim.c");
    println!("cargo:rerun-if-changed=src/fft.c");
    cc::Build::new()
        .files(["src/vsim.c", "src/fft.c"])
        .opt_level(2)
        .flag("-fno-builtin-write")
        .flag("-ffp-contract=off")
        .warnings(false)
        .compile("fftw3");
}
