fn main() {
    let cfg = engine::Config {
        verif_dir: std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()),
        build_tag: if cfg!(debug_assertions) { "release+overflow-checks".into() } else { "release".into() },
        guided: harness::props::guided,
    };
    std::process::exit(engine::main_with(harness::props::find, harness::props::IDS, cfg));
}
