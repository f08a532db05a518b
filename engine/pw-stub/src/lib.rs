//! Stand-in for the Kuadrant fork of the proxy-wasm Rust SDK.
//! The API mirrors what a wasm filter sees; every hostcall goes to `sim`, which
//! plays Envoy and records an ordered event log.
pub mod hostcalls;
pub mod sim;
pub mod traits;
pub mod types;

use std::cell::RefCell;

thread_local! {
    static ROOT: RefCell<Option<types::NewRootContext>> = const { RefCell::new(None) };
}

struct HostLogger;
impl log::Log for HostLogger {
    fn enabled(&self, m: &log::Metadata) -> bool {
        m.level() <= log::max_level()
    }
    fn log(&self, r: &log::Record) {
        if self.enabled(r.metadata()) {
            let lvl = match r.level() {
                log::Level::Trace => types::LogLevel::Trace,
                log::Level::Debug => types::LogLevel::Debug,
                log::Level::Info => types::LogLevel::Info,
                log::Level::Warn => types::LogLevel::Warn,
                log::Level::Error => types::LogLevel::Error,
            };
            let _ = hostcalls::log(lvl, &r.args().to_string());
        }
    }
    fn flush(&self) {}
}
static LOGGER: HostLogger = HostLogger;

pub fn set_log_level(level: types::LogLevel) {
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(match level {
        types::LogLevel::Trace => log::LevelFilter::Trace,
        types::LogLevel::Debug => log::LevelFilter::Debug,
        types::LogLevel::Info => log::LevelFilter::Info,
        types::LogLevel::Warn => log::LevelFilter::Warn,
        types::LogLevel::Error | types::LogLevel::Critical => log::LevelFilter::Error,
    });
}

pub fn set_root_context(callback: types::NewRootContext) {
    ROOT.with(|r| *r.borrow_mut() = Some(callback));
}

/// Used by the harness: what the module registered through `set_root_context`.
pub fn registered_root() -> Option<types::NewRootContext> {
    ROOT.with(|r| *r.borrow())
}
