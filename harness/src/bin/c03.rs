//! C03: which error a failed choice reports.
#[allow(dead_code)]
#[path = "../common/types.rs"]
mod types;
use types::*;
use vh::engine::*;
use vh::genum;
use vh::run::*;

genum! { EofA { A(a: parsel::ast::Ident, b: syn::Token![+], c: parsel::ast::LitInt), B(a: parsel::ast::LitStr) } }

/// `x +`: alternative A reads everything and then lacks a number; B fails at the first token. The
/// error of B is reported.
fn probe(key: &str) -> bool {
    match key {
        "eof-alternative" => {
            let e = parsel::parse_str::<EofA>("x +").unwrap_err().to_string();
            e.contains("EofA::B::0")
        }
        _ => false,
    }
}

fn main() {
    vh::run::main(Prop {
        id: "C03",
        rule: "the input is rejected and at least two alternatives were tried; distinct = different (type, text) pairs",
        subs: vec![
            types_sub("choices", choice_types(), 400_000, 20_000_000, errors),
            types_sub("derived", derived_types(), 200_000, 10_000_000, errors),
            types_sub("lookahead", lookahead_types(), 100_000, 5_000_000, errors),
            types_sub("helpers", helper_types(), 100_000, 5_000_000, errors),
            long_sub("long sequences", all_types(), 1000, 4_000, 200_000, errors_on),
            text_sub("deep nesting", derived_types(), 6_000, 300_000, deep_text, errors_on),
        ],
        probe: Some(probe),
        assumptions: vec![],
    })
}
