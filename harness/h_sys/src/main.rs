#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
mod crypto;
mod storage;
mod sysrec;
mod vfs;

fn main() {
    vcore::main_with(vec![storage::c10(), vfs::c11(), crypto::c31()]);
}
