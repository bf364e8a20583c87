//! A clock that a scenario can put forward for the threads of one server.  The standard library asks clock_gettime for the
//! time, and the definition here takes the place of libc's: threads that were not enrolled see the system's clocks.
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering};

thread_local! {
    static AHEAD: Cell<Option<&'static AtomicI64>> = const { Cell::new(None) };
}

/// From now on this thread's clocks are ahead by the given number of milliseconds.
pub fn enrol(ahead: &'static AtomicI64) {
    AHEAD.with(|a| a.set(Some(ahead)));
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
#[cfg(target_arch = "x86_64")]
const CLOCK_GETTIME: i64 = 228;
#[cfg(target_arch = "aarch64")]
const CLOCK_GETTIME: i64 = 113;

/// # Safety
/// As clock_gettime(2).
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
    let r = syscall(CLOCK_GETTIME, id as i64, ts) as i32;
    if r == 0 && matches!(id, 0 | 1 | 4 | 5 | 6 | 7) {
        if let Ok(Some(a)) = AHEAD.try_with(|a| a.get()) {
            let ms = a.load(Ordering::SeqCst);
            let n = (*ts).nsec + ms % 1000 * 1_000_000;
            (*ts).sec += ms / 1000 + n / 1_000_000_000;
            (*ts).nsec = n % 1_000_000_000;
        }
    }
    r
}
