//! Ports that nothing else in this process is given, now or later: a datagram that is still under way to a socket that has
//! been closed reaches nobody else.  They lie below the range the system chooses from.
use std::collections::HashSet;
use std::net::{IpAddr, UdpSocket};
use std::sync::Mutex;

struct State {
    next: u16,
    low: u16,
    high: u16,
    used: HashSet<u16>,
}
static STATE: Mutex<Option<State>> = Mutex::new(None);

fn start() -> State {
    let range = std::fs::read_to_string("/proc/sys/net/ipv4/ip_local_port_range").unwrap_or_default();
    let first: u16 = range.split_whitespace().next().and_then(|x| x.parse().ok()).unwrap_or(32768);
    let (low, high) = if first >= 12000 { (4000, first - 1) } else { (4000, 32767) };
    let seed = std::process::id().wrapping_mul(7919) as u64 ^ std::time::UNIX_EPOCH.elapsed().map_or(0, |d| d.as_nanos() as u64 >> 16);
    State { next: low + (seed % (high - low) as u64) as u16, low, high, used: HashSet::new() }
}
fn fresh() -> u16 {
    let mut g = STATE.lock().unwrap();
    let s = g.get_or_insert_with(start);
    for _ in 0..s.high {
        let p = s.next;
        s.next = if p > s.high - 7 { s.low + p % 7 } else { p + 7 }; // neighbours stay free
        if s.used.insert(p) {
            return p;
        }
    }
    s.used.clear(); // all have been used: from the oldest one again
    s.next
}
/// Takes this very port, if it has not been used.
pub fn bind_at(ip: IpAddr, port: u16) -> Option<UdpSocket> {
    let u = UdpSocket::bind((ip, port)).ok()?;
    STATE.lock().unwrap().get_or_insert_with(start).used.insert(port);
    Some(u)
}
pub fn bind(ip: IpAddr) -> UdpSocket {
    for _ in 0..20000 {
        if let Ok(u) = UdpSocket::bind((ip, fresh())) {
            return u;
        }
    }
    panic!("no port is free");
}
/// The same for tokio.
pub fn bind_tokio(ip: IpAddr) -> tokio::net::UdpSocket {
    let u = bind(ip);
    u.set_nonblocking(true).unwrap();
    tokio::net::UdpSocket::from_std(u).unwrap()
}
