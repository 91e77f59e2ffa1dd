//! C24: invisible groups in token streams.
#[allow(dead_code)]
#[path = "../common/types.rs"]
mod types;
use types::*;
use vh::engine::*;
use vh::run::*;

/// items that take raw token trees see the groups themselves
fn without_raw(ts: Vec<Typ>) -> Vec<Typ> {
    ts.into_iter().filter(|t| !t.ops.name.contains("Wide<") && !t.ops.name.contains("Wides") && !t.ops.name.contains("WideIn")).collect()
}

fn main() {
    vh::run::main(Prop {
        id: "C24",
        rule: "at least one invisible group; distinct = different (type, stream) pairs",
        subs: vec![
            types_sub("derived", without_raw(derived_types()), 200_000, 10_000_000, veiled),
            types_sub("helpers", without_raw(helper_types()), 250_000, 10_000_000, veiled),
            types_sub("lookahead", without_raw(lookahead_types()), 100_000, 5_000_000, veiled),
        ],
        probe: None,
        assumptions: vec!["the invisible groups are put around whole tokens and visible groups, and are not empty"],
    })
}
