//! A `log` backend that always formats (so that every Display/Debug implementation reachable from
//! log statements runs) and optionally captures the lines of the current thread.
use std::cell::{Cell, RefCell};
use std::fmt::Write;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static CAP: RefCell<Option<Vec<(log::Level, String)>>> = const { RefCell::new(None) };
    static BUF: RefCell<String> = const { RefCell::new(String::new()) };
}
struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool {
        ON.with(|x| x.get())
    }
    fn log(&self, r: &log::Record) {
        if !ON.with(|x| x.get()) {
            return;
        }
        let cap = CAP.with(|c| c.borrow().is_some());
        if cap {
            let line = r.args().to_string();
            CAP.with(|c| c.borrow_mut().as_mut().unwrap().push((r.level(), line)));
        } else {
            BUF.with(|b| {
                let mut b = b.take();
                b.clear();
                let _ = write!(b, "{}", r.args());
                BUF.with(|x| x.replace(b));
            });
        }
    }
    fn flush(&self) {}
}
static LOGGER: L = L;
pub fn install() {
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(log::LevelFilter::Trace);
}
/// Turns formatting of log statements on or off for this thread.
pub fn enable(on: bool) {
    ON.with(|x| x.set(on));
}
pub fn start_capture() {
    enable(true);
    CAP.with(|c| *c.borrow_mut() = Some(Vec::new()));
}
pub fn take_capture() -> Vec<(log::Level, String)> {
    enable(false);
    CAP.with(|c| c.borrow_mut().take()).unwrap_or_default()
}
pub fn reset() {
    enable(false);
    CAP.with(|c| *c.borrow_mut() = None);
}
