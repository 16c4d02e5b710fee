//! C31, C32: the private packed arrays, seen through the `pcrs_verif` re-export.
mod bits;
#[allow(dead_code)]
#[path = "../../harness/src/heap.rs"]
mod heap;
mod ints;

const IDS: &[&str] = &["C31", "C32"];
fn find(id: &str) -> Option<engine::Prop> {
    Some(match id {
        "C31" => bits::c31(),
        "C32" => ints::c32(),
        _ => return None,
    })
}

fn main() {
    let cfg = engine::Config {
        verif_dir: std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()),
        build_tag: if cfg!(debug_assertions) { "release+overflow-checks+pcrs_verif".into() } else { "release".into() },
        guided: |_| vec![("history", 40000)],
    };
    std::process::exit(engine::main_with(find, IDS, cfg));
}
