//! C02: tokens in, tokens out; text out, equal value back in.
#[allow(dead_code)]
#[path = "../common/types.rs"]
mod types;
use types::*;
use vh::engine::*;
use vh::run::*;

fn main() {
    vh::run::main(Prop {
        id: "C02",
        rule: "the parsed node has at least one token; distinct = different (type, text) pairs",
        subs: vec![
            types_sub("derived", derived_types(), 150_000, 8_000_000, print),
            types_sub("choices", choice_types(), 80_000, 4_000_000, print),
            types_sub("helpers", helper_types(), 150_000, 8_000_000, print),
            types_sub("lookahead", lookahead_types(), 50_000, 2_000_000, print),
            long_sub("long sequences", all_types(), 3000, 3_000, 150_000, print_on),
            text_sub("deep nesting", derived_types(), 3_000, 150_000, deep_text, print_on),
        ],
        probe: None,
        assumptions: vec![
            "the canonical spelling of a literal is compared by kind and value (syn's reading of the spelling)",
            "a printed text which the reference interpreter itself reads as something else (re-glued punctuation, '-0' as Lit) is excluded",
        ],
    })
}
