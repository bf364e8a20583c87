//! Sees the datagrams that this process sends: the definitions of send, sendto and sendmsg here take the place of libc's and
//! tell the tap of a destination, if one is set, what was sent there.  The definition of connect lets a hook act between the
//! making of a socket and its being connected.
use std::collections::HashMap;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::sync::{Arc, Mutex};

pub type Tap = Arc<dyn Fn(&[u8]) + Send + Sync>;
/// Told of a socket of this process, by its own port, that is about to be connected.
pub type Hook = Arc<dyn Fn(u16) + Send + Sync>;
static HOOKS: Mutex<Option<HashMap<SocketAddr, Hook>>> = Mutex::new(None);
static TAPS: Mutex<Option<HashMap<SocketAddr, Tap>>> = Mutex::new(None);

pub fn set(to: SocketAddr, tap: Tap) {
    TAPS.lock().unwrap().get_or_insert_with(HashMap::new).insert(to, tap);
}
pub fn unset(to: &SocketAddr) {
    TAPS.lock().unwrap().get_or_insert_with(HashMap::new).remove(to);
}
pub fn before_connect(to: SocketAddr, hook: Option<Hook>) {
    let mut g = HOOKS.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    match hook {
        Some(h) => m.insert(to, h),
        None => m.remove(&to),
    };
}

extern "C" {
    fn getsockname(fd: i32, addr: *mut u8, len: *mut u32) -> i32;
    fn syscall(n: i64, ...) -> i64;
    fn getpeername(fd: i32, addr: *mut u8, len: *mut u32) -> i32;
}
#[cfg(target_arch = "x86_64")]
const CALLS: (i64, i64, i64) = (44, 46, 42);
#[cfg(target_arch = "aarch64")]
const CALLS: (i64, i64, i64) = (206, 211, 203);

fn address(a: &[u8]) -> Option<SocketAddr> {
    if a.len() < 8 {
        return None;
    }
    let port = u16::from_be_bytes([a[2], a[3]]);
    match u16::from_ne_bytes([a[0], a[1]]) {
        2 => Some(SocketAddr::new(IpAddr::V4(Ipv4Addr::new(a[4], a[5], a[6], a[7])), port)),
        10 if a.len() >= 24 => Some(SocketAddr::new(IpAddr::V6(Ipv6Addr::from(<[u8; 16]>::try_from(&a[8..24]).unwrap())), port)),
        _ => None,
    }
}
unsafe fn seen(fd: i32, to: *const u8, tolen: u32, b: &[u8]) {
    let mut name = [0u8; 128];
    let mut n = tolen.min(128);
    if to.is_null() {
        n = 128;
        if getpeername(fd, name.as_mut_ptr(), &mut n) != 0 {
            return;
        }
    } else {
        name[..n as usize].copy_from_slice(std::slice::from_raw_parts(to, n as usize));
    }
    if let Some(a) = address(&name[..n.min(128) as usize]) {
        let tap = TAPS.lock().unwrap().as_ref().and_then(|t| t.get(&a).cloned());
        if let Some(t) = tap {
            t(b)
        }
    }
}
unsafe fn keep_errno<T>(f: impl FnOnce() -> T) -> T {
    extern "C" {
        fn __errno_location() -> *mut i32;
    }
    let e = *__errno_location();
    let r = f();
    *__errno_location() = e;
    r
}

/// # Safety
/// As sendto(2).
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: i32, b: *const u8, len: usize, flags: i32, to: *const u8, tolen: u32) -> isize {
    let r = syscall(CALLS.0, fd as i64, b, len, flags as i64, to, tolen as i64);
    keep_errno(|| {
        if r >= 0 {
            seen(fd, to, tolen, std::slice::from_raw_parts(if len == 0 { [].as_ptr() } else { b }, len))
        }
    });
    r as isize
}
/// # Safety
/// As send(2).
#[no_mangle]
pub unsafe extern "C" fn send(fd: i32, b: *const u8, len: usize, flags: i32) -> isize {
    sendto(fd, b, len, flags, std::ptr::null(), 0)
}
#[repr(C)]
pub struct Msg {
    name: *const u8,
    namelen: u32,
    iov: *const (*const u8, usize),
    iovlen: usize,
}
/// # Safety
/// As sendmsg(2).
#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: i32, m: *const Msg, flags: i32) -> isize {
    let r = syscall(CALLS.1, fd as i64, m, flags as i64);
    keep_errno(|| {
        if r >= 0 && !m.is_null() {
            let mut all = vec![];
            for k in 0..(*m).iovlen {
                let (p, n) = *(*m).iov.add(k);
                if n > 0 {
                    all.extend_from_slice(std::slice::from_raw_parts(p, n));
                }
            }
            seen(fd, (*m).name, (*m).namelen, &all)
        }
    });
    r as isize
}
/// # Safety
/// As connect(2).
#[no_mangle]
pub unsafe extern "C" fn connect(fd: i32, to: *const u8, tolen: u32) -> i32 {
    if !to.is_null() {
        let hook = address(std::slice::from_raw_parts(to, tolen as usize)).and_then(|a| HOOKS.lock().unwrap().as_ref().and_then(|h| h.get(&a).cloned()));
        let (mut name, mut n) = ([0u8; 128], 128u32);
        if let (Some(h), 0) = (hook, getsockname(fd, name.as_mut_ptr(), &mut n)) {
            if let Some(own) = address(&name[..n as usize]) {
                h(own.port())
            }
        }
    }
    syscall(CALLS.2, fd as i64, to, tolen as i64) as i32
}
