mod call_props;
mod calllink_props;
mod crypto_props;
mod gkeys;
mod gmodel;
mod endo;
mod warn;
mod group;
mod group_props;
mod model;
mod mrp_props;
mod plat;
mod rings;
mod sfu_props;
mod summary_props;
mod support_props;
mod wire_props;
mod world;

/// For looking into failures: RR_LOG=1.
struct Log;
impl log::Log for Log {
    fn enabled(&self, m: &log::Metadata) -> bool {
        m.target().starts_with("ringrtc")
    }
    fn log(&self, r: &log::Record) {
        if self.enabled(r.metadata()) {
            eprintln!("{:?} {} {}", std::thread::current().id(), r.level(), r.args());
        }
    }
    fn flush(&self) {}
}

fn main() {
    if std::env::var("RR_LOG").is_ok() {
        let _ = log::set_logger(&Log).map(|()| log::set_max_level(log::LevelFilter::Info));
    }
    // How long a group ring rings; read once.
    unsafe { std::env::set_var("INCOMING_GROUP_CALL_RING_SECS", "1") };
    harness::main(&[
        ("C01", mrp_props::c01),
        ("C02", mrp_props::c02),
        ("C03", crypto_props::c03),
        ("C04", crypto_props::c04),
        ("C05", calllink_props::c05),
        ("C06", calllink_props::c06),
        ("C07", sfu_props::c07),
        ("C08", sfu_props::c08),
        ("C09", support_props::c09),
        ("C10", support_props::c10),
        ("C11", support_props::c11),
        ("C12", support_props::c12),
        ("C13", wire_props::c13),
        ("C14", summary_props::c14),
        ("C15", call_props::c15),
        ("C16", call_props::c16),
        ("C17", call_props::c17),
        ("C18", call_props::c18),
        ("C19", call_props::c19),
        ("C20", world::c20),
        ("C21", call_props::c21),
        ("C22", group_props::c22),
        ("C23", group_props::c23),
        ("C24", group_props::c24),
        ("C25", group_props::c25),
        ("C26", rings::c26),
        ("C27", endo::c27),
        ("C28", warn::c28),
    ]);
}
