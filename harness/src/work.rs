//! Counts, for each thread, the steps that are executed: basic blocks (reported
//! by the compiler's instrumentation), blocks of 16 bytes that are copied,
//! filled or compared, and allocations. Only in the build for that.

#[cfg(rescan_mc_work)]
mod counting {
    use std::arch::asm;

    #[thread_local]
    pub static mut STEPS: u64 = 0;

    #[no_mangle]
    unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {
        STEPS += 1;
    }

    #[no_mangle]
    unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}

    #[no_mangle]
    unsafe extern "C" fn memcpy(to: *mut u8, from: *const u8, n: usize) -> *mut u8 {
        STEPS += n as u64 / 16;
        asm!("rep movsb", inout("rcx") n => _, inout("rdi") to => _, inout("rsi") from => _);
        to
    }

    #[no_mangle]
    unsafe extern "C" fn memmove(to: *mut u8, from: *const u8, n: usize) -> *mut u8 {
        STEPS += n as u64 / 16;
        if (to as usize).wrapping_sub(from as usize) >= n {
            asm!("rep movsb", inout("rcx") n => _, inout("rdi") to => _, inout("rsi") from => _);
        } else {
            asm!(
                "std",
                "rep movsb",
                "cld",
                inout("rcx") n => _,
                inout("rdi") to.wrapping_add(n).wrapping_sub(1) => _,
                inout("rsi") from.wrapping_add(n).wrapping_sub(1) => _,
            );
        }
        to
    }

    #[no_mangle]
    unsafe extern "C" fn memset(to: *mut u8, c: i32, n: usize) -> *mut u8 {
        STEPS += n as u64 / 16;
        asm!("rep stosb", inout("rcx") n => _, inout("rdi") to => _, in("al") c as u8);
        to
    }

    #[no_mangle]
    unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        let mut i = 0;
        while i < n {
            if *a.add(i) != *b.add(i) {
                STEPS += i as u64 / 16;
                return i32::from(*a.add(i)) - i32::from(*b.add(i));
            }
            i += 1;
        }
        0
    }

    #[no_mangle]
    unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        memcmp(a, b, n)
    }
}

/// The steps of this thread so far.
#[cfg(rescan_mc_work)]
pub fn steps() -> i64 {
    unsafe { counting::STEPS as i64 }
}

#[cfg(not(rescan_mc_work))]
pub fn steps() -> i64 {
    panic!("not in this build")
}
