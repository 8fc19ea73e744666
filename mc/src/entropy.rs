//! The operating system's randomness, replaced for threads that ask for it.

use std::{cell::Cell, ffi::{c_long, c_uint}};

thread_local!(static STREAM: Cell<u64> = const { Cell::new(0) });

/// From now on this thread reads the stream `k`.
#[allow(dead_code)]
pub fn set(k: u64) { STREAM.with(|s| s.set(k.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1)) }

fn raw(n: c_long, a: [c_long; 6]) -> c_long {
    let mut r = n;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
            lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    r
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

unsafe fn random(p: *mut u8, n: usize, flags: c_long) -> c_long {
    let mut x = STREAM.with(|s| s.get());
    if x == 0 {
        return known(raw(318, [p as c_long, n as c_long, flags, 0, 0, 0]));
    }
    for i in 0..n {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        *p.add(i) = (x >> 56) as u8;
    }
    STREAM.with(|s| s.set(x | 1));
    n as c_long
}

unsafe fn known(r: c_long) -> c_long {
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

/// std and the crates of rand call these instead of libc's.
#[no_mangle]
unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: c_uint) -> isize { random(p, n, flags as c_long) as isize }

#[no_mangle]
unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == 318 {
        return random(a as *mut u8, b as usize, c);
    }
    known(raw(n, [a, b, c, d, e, f]))
}
