use engine::Prop;
mod bloom;
mod common;
mod contract;
mod counting;
mod cuckoo;
mod general;
mod quotient;
mod similarity;
mod streams;

macro_rules! props {
    ($($id:literal => $f:path),* $(,)?) => {
        pub const IDS: &[&str] = &[$($id),*];
        pub fn find(id: &str) -> Option<Prop> {
            Some(match id { $($id => $f(),)* _ => return None })
        }
    };
}
props! {
    "C01" => bloom::c01, "C02" => bloom::c02, "C03" => bloom::c03, "C04" => bloom::c04,
    "C05" => cuckoo::c05, "C06" => cuckoo::c06, "C07" => cuckoo::c07, "C08" => cuckoo::c08,
    "C09" => cuckoo::c09, "C10" => cuckoo::c10,
    "C11" => quotient::c11, "C12" => quotient::c12, "C13" => quotient::c13,
    "C14" => counting::c14, "C15" => counting::c15, "C16" => counting::c16, "C17" => counting::c17, "C18" => counting::c18,
    "C19" => streams::c19, "C20" => streams::c20,
    "C21" => similarity::c21, "C22" => similarity::c22, "C23" => similarity::c23, "C24" => similarity::c24,
    "C25" => general::c25, "C26" => general::c26, "C27" => general::c27, "C28" => general::c28, "C29" => contract::c29, "C30" => general::c30,
    "C33" => common::c33, "C34" => common::c34, "C35" => common::c35,
}

/// Scenarios with an exact oracle, for coverage-guided search: (scenario, cases in the quick tier).
/// Statistical scenarios stay out: their error rates are set for a fixed number of draws.
pub fn guided(id: &str) -> Vec<(&'static str, u64)> {
    match id {
        "C01" => vec![("history", 16000)],
        "C02" => vec![("relations", 12000)],
        "C04" => vec![("schedule", 8000)],
        "C05" => vec![("history", 16000), ("borrowed", 2000)],
        "C06" => vec![("classes", 16000)],
        "C07" => vec![("geometry", 6000), ("width", 4000)],
        "C08" => vec![("tiny", 8000)],
        "C09" => vec![("history", 16000)],
        "C10" => vec![("schedule", 8000)],
        "C11" => vec![("history", 16000)],
        "C12" => vec![("full", 8000)],
        "C13" => vec![("sizing", 6000)],
        "C14" => vec![("history", 12000)],
        "C15" => vec![("sizing", 6000)],
        "C16" => vec![("history", 12000)],
        "C18" => vec![("sets", 16000), ("mismatch", 3000)],
        "C19" => vec![("bits", 6000), ("history", 12000), ("stream", 1000)],
        "C21" => vec![("jaccard", 8000), ("shingles", 8000)],
        "C22" => vec![("algebra", 12000)],
        "C23" => vec![("majority", 12000)],
        "C24" => vec![("window", 5000)],
        "C25" => vec![("roundtrip", 16000), ("default", 3000)],
        "C26" => vec![("reproducible", 12000), ("borrowed", 4000)],
        "C27" => vec![("clear", 12000)],
        "C28" => vec![("clone", 16000), ("equality", 3000)],
        "C29" => vec![("quotient", 3000), ("quotient_fpp", 3000), ("cuckoo", 6000), ("similarity", 3000), ("others", 4000)],
        "C30" => vec![("size", 8000), ("heap", 3000)],
        "C33" => vec![("bloom", 8000), ("cuckoo", 8000)],
        "C34" => vec![("queries", 8000)],
        "C35" => vec![("bits", 4000), ("counts", 4000), ("fingerprints", 6000), ("registers", 1500)],
        _ => vec![],
    }
}
