//! Support library of the property-based checks for parsel: choice decoder, proptest runner,
//! reference grammar interpreter, generators of sentences and literals.
#![allow(clippy::all)]

pub mod ch;
pub mod engine;
pub mod gen;
pub mod genprog;
pub mod gram;
pub mod inside;
pub mod kws;
pub mod lits;
pub mod node;
pub mod progen;
pub mod rt;
pub mod run;
pub mod tok;

pub use ch::Ch;
pub use run::{Ob, Sub, R};

/// Fails the case with a message unless the condition holds.
#[macro_export]
macro_rules! ck {
    ($c:expr, $($t:tt)*) => {
        if !$c { return ::std::result::Result::Err(::std::format!($($t)*)); }
    };
}

/// Fails the case unless both sides are equal.
#[macro_export]
macro_rules! ck_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(a == b) {
            return ::std::result::Result::Err(::std::format!("{}: got {:?}, expected {:?}", ::std::format!($($t)*), a, b));
        }
    }};
}
