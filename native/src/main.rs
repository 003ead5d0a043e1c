mod audio_props;
mod fake;
mod fake_cubeb;
mod native_props;
mod stats_props;
mod wrap_props;

fn main() {
    harness::main(&[
        ("N01", wrap_props::n01),
        ("N02", wrap_props::n02),
        ("N03", wrap_props::n03),
        ("N04", wrap_props::n04),
        ("N05", audio_props::n05),
        ("N06", audio_props::n06),
        ("N07", native_props::n07),
        ("N08", stats_props::n08),
        ("N09", audio_props::n09),
    ]);
}
