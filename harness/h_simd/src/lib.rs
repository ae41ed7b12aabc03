//! The lane operations as compiled with the vector instruction sets statically enabled, behind a C
//! entry point so that one check can compare them with the portable build of the same source.
mod lane_ops;

/// 0: value written to `out`; 1: the operation is not defined; 2: panicked.
#[no_mangle]
pub extern "C" fn lane_apply(op: u32, via: u32, a: *const u8, b: *const u8, q: u32, qinv: u32, n: u32, out: *mut u8) -> i32 {
    let r = std::panic::catch_unwind(|| unsafe {
        let a: [u8; 32] = std::slice::from_raw_parts(a, 32).try_into().unwrap();
        let b: [u8; 32] = std::slice::from_raw_parts(b, 32).try_into().unwrap();
        lane_ops::apply(op, via, a, b, q, qinv, n)
    });
    match r {
        Ok(Some(v)) => {
            unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), out, 32) };
            0
        }
        Ok(None) => 1,
        Err(_) => 2,
    }
}

/// Which vector paths this build selected.
#[no_mangle]
pub extern "C" fn lane_features() -> u32 {
    cfg!(target_feature = "avx2") as u32 | (cfg!(target_feature = "sha") as u32) << 1 | (cfg!(target_feature = "ssse3") as u32) << 2
}
