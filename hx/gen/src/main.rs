fn main() {
    #[cfg(not(target_arch = "riscv64"))]
    sym::native_main(&[hx_gen::corpus::TABLE, hx_gen::random::TABLE, hx_gen::corpus::EQ, hx_gen::corpus::CHARS]);
}
