//! C04: consumption.
#[allow(dead_code)]
#[path = "../common/types.rs"]
mod types;
use types::*;
use vh::engine::*;
use vh::run::*;

fn main() {
    vh::run::main(Prop {
        id: "C04",
        rule: "tokens remain after the node, or an attempt failed after having read tokens; distinct = different (type, text) pairs",
        subs: vec![
            types_sub("lookahead", lookahead_types(), 400_000, 20_000_000, consumption),
            types_sub("helpers", helper_types(), 200_000, 10_000_000, consumption),
            types_sub("derived", derived_types(), 200_000, 10_000_000, consumption),
            long_sub("long sequences", all_types(), 3000, 5_000, 250_000, consumption_on),
            text_sub("deep nesting", derived_types(), 5_000, 250_000, deep_text, consumption_on),
        ],
        probe: None,
        assumptions: vec![],
    })
}
