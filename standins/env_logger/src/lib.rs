//! Stand-in for env_logger: everything goes to standard error.
struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        eprintln!("[{}] {}", r.level(), r.args())
    }
    fn flush(&self) {}
}
pub fn init() {
    let _ = log::set_logger(&L);
    log::set_max_level(log::LevelFilter::Trace);
}
