//! Captures what the radius crate logs.
use crate::util::hex;

/// Log records of the radius crate, if LOG_TO names a file for them.
struct Records(std::sync::Mutex<std::fs::File>);
impl log::Log for Records {
    fn enabled(&self, m: &log::Metadata) -> bool {
        m.target().starts_with("radius")
    }
    fn log(&self, r: &log::Record) {
        if self.enabled(r.metadata()) {
            use std::io::Write;
            let text = format!("{} {} {}", r.level(), r.target(), r.args());
            let _ = writeln!(self.0.lock().unwrap(), "{}", hex(text.as_bytes()));
        }
    }
    fn flush(&self) {}
}
pub fn capture_logs() {
    if let Ok(path) = std::env::var("LOG_TO") {
        let f = std::fs::File::create(path).unwrap();
        let _ = log::set_logger(Box::leak(Box::new(Records(std::sync::Mutex::new(f)))));
        log::set_max_level(log::LevelFilter::Trace);
    }
}
