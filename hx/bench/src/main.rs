fn main() {
    #[cfg(not(target_arch = "riscv64"))]
    sym::native_main(&[hx_bench::TABLE]);
}
