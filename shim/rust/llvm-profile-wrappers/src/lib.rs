//! Stand-in: coverage collection is never enabled.
pub fn llvm_profile_enabled() -> u8 {
    0
}
pub fn llvm_profile_set_filename(_filename: Option<&std::ffi::c_char>) {}
pub fn llvm_profile_write_file() {}
pub fn llvm_profile_reset_counters() {}
