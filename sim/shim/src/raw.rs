//! Raw system calls: the simulator itself never goes through the C library
//! entry points it replaces.
use std::arch::asm;

#[inline]
pub unsafe fn sys6(n: i64, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> i64 {
    let ret: i64;
    asm!("syscall",
        inlateout("rax") n => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack));
    ret
}
#[inline]
pub unsafe fn sys3(n: i64, a: u64, b: u64, c: u64) -> i64 {
    sys6(n, a, b, c, 0, 0, 0)
}
pub unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
/// C library convention: -1 and errno
pub unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
pub unsafe fn fail(e: i32) -> i64 {
    set_errno(e);
    -1
}
pub unsafe fn futex_wait(w: *const u32, val: u32) {
    sys6(libc::SYS_futex, w as u64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as u64, val as u64, 0, 0, 0);
}
pub unsafe fn futex_wake(w: *const u32) {
    sys6(libc::SYS_futex, w as u64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as u64, 1, 0, 0, 0);
}
pub unsafe fn exit_group(code: i32) -> ! {
    sys3(libc::SYS_exit_group, code as u64, 0, 0);
    loop {}
}
