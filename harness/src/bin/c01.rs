//! C01: accepted language and value of derived parsers.
#[allow(dead_code)]
#[path = "../common/types.rs"]
mod types;
use types::*;
use vh::engine::*;
use vh::run::*;

fn main() {
    vh::run::main(Prop {
        id: "C01",
        rule: "the input has at least one token; distinct = different (type, text) pairs",
        subs: vec![
            types_sub("derived", derived_types(), 400_000, 20_000_000, accept),
            types_sub("choices", choice_types(), 200_000, 10_000_000, accept),
            types_sub("helpers", helper_types(), 200_000, 10_000_000, accept),
            types_sub("lookahead", lookahead_types(), 200_000, 10_000_000, accept),
            long_sub("long sequences", all_types(), 3000, 8_000, 400_000, accept_on),
            text_sub("deep nesting", derived_types(), 8_000, 400_000, deep_text, accept_on),
        ],
        probe: None,
        assumptions: vec![],
    })
}
