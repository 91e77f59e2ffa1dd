//! C06: repetition helpers.
#[allow(dead_code)]
#[path = "../common/types.rs"]
mod types;
use parsel::ast::*;
use types::*;
use vh::engine::*;
use vh::node::{fuel, used, Fu, Ops};
use vh::run::*;
use vh::{ck, ck_eq, ops_list, Ch};

fn list() -> Vec<Ops> {
    ops_list![
        Punctuated<Ident, Comma>, Punctuated<LitInt, Semi>, Punctuated<Lit, Arrow>, Punctuated<Separated<Ident, Dot>, Comma>, Punctuated<Paren<Any<Word>>, Comma>,
        Punctuated<Maybe<Plus, Ident>, Comma>, Punctuated<Either<LitInt, Ident>, Either<Comma, Semi>>, Punctuated<Word, kw::If>, Punctuated<Id, kw::Select>,
        Punctuated<Pre3, Sep2>, Punctuated<Ident, SepAlt>, Punctuated<Far, Comma>,
        Many<Lit>, Many<Id>, Many<Paren<Word>>, Many<Either<Separated<Ident, Plus>, LitInt>>, Many<Pre3>, Many<Named>,
        Separated<Ident, Comma>, Separated<LitInt, Plus>, Separated<Lit, Colon2>, Separated<Word, NotEof>, Separated<Separated<Ident, Dot>, Comma>,
        Separated<Paren<Ident>, Either<Comma, Semi>>, Separated<Ident, Sep2>, Separated<LitInt, SepAlt>, Separated<Pre3, Comma>, Separated<Id, kw::From>, Separated<Ident, Minus>,
        Any<Ident>, Any<LitInt>, Any<Paren<Ident>>, Any<Separated<Ident, Comma>>, Any<Either<LitInt, Ident>>, Any<Pre3>, Any<Sep2>, Any<Id>, Any<Named>, Any<One>, Any<MbItem>,
        Any<Bracket<Maybe<Plus, Ident>>>, Any<Maybe1>, Any<Plus>,
        Paren<Punctuated<Ident, Comma>>, Bracket<Many<Lit>>, Brace<Separated<Ident, Semi>>, Paren<Any<Ident>>, Paren<Any<Paren<Any<Bracket<Punctuated<Lit, Comma>>>>>>,
        // separators that can be empty
        Separated<Ident, Maybe<Comma>>, Separated<Ident, Empty>, Separated<LitInt, Either<Semi, Empty>>, Paren<Separated<Ident, Maybe<Plus, Ident>>>, Punctuated<Ident, Maybe<Comma>>,
        Punctuated<LitInt, Empty>, Paren<Punctuated<Ident, Maybe<Plus, LitInt>>>, Either<Separated<Ident, Maybe<Comma>>, Any<Ident>>,
        Seq, Seq2, Any<Paren<Punctuated<Separated<Any1, Comma>, Semi>>>,
    ]
}
vh::gtuple!(MbItem(a: Ident, b: Maybe<Plus, LitInt>));
vh::gtuple!(Any1(a: Ident, b: Any<LitInt>));
vh::gtuple!(Seq(a: Any<Ident>, b: Any<LitInt>, c: Separated<Ident, Comma>, d: Any<Comma>, e: Any<Pre3>, f: Many<Lit>));
vh::gtuple!(Seq2(a: Separated<Pre3, Sep2>, b: Any<Sep2>, c: Maybe<Comma>, d: Punctuated<Pre3, Comma>));

/// long sequences of counted items: every item and separator is attempted a constant number of times
fn linear(ch: &mut Ch, ob: &mut Ob) -> R {
    let n = long_n(ch, 3000).max(1);
    let k = ch.below(6);
    let trailing = ch.chance(1, 4);
    let junk = ch.chance(1, 4);
    let mut s = String::with_capacity(n * 6);
    for i in 0..n {
        s.push_str(&format!("a{} ", i % 97));
        if matches!(k, 1 | 2 | 4 | 5) && (i + 1 < n || (trailing && k == 1)) {
            s.push_str(", ");
        }
    }
    if junk {
        s.push_str("; ;");
    }
    ob.case(true, format!("{k} n={n} trailing={trailing} junk={junk}"));
    ob.class_if(n >= 256, "256+ items");
    let bound = 4 * (2 * n as u64 + 4);
    fuel(bound);
    type I = Fu<Ident>;
    type C = Fu<Token![,]>;
    macro_rules! run {
        ($t:ty, |$v:ident| $items:expr) => {{
            // prefix parse: what follows the sequence is left alone
            let f = |input: syn::parse::ParseStream<'_>| -> syn::Result<(syn::Result<$t>, proc_macro2::TokenStream)> {
                let r = input.parse::<$t>();
                Ok((r, input.parse()?))
            };
            let (r, _rest) = syn::parse::Parser::parse_str(f, &s).map_err(|e| e.to_string())?;
            let u = used();
            ck!(u <= bound, "{} attempts for {n} items", u);
            ob.add("attempts", u);
            match r {
                Ok($v) => {
                    let got: Vec<String> = $items;
                    let want: Vec<String> = (0..n).map(|i| format!("a{}", i % 97)).collect();
                    ck!(got == want, "{} items, in another order or with others, for {n}: {:?}…", got.len(), got.iter().zip(&want).position(|(a, b)| a != b));
                }
                Err(e) => ck!(junk && k <= 2, "rejected: {e}"),
            }
            drop(_rest);
        }};
    }
    match k {
        0 => run!(Many<I>, |v| v.iter().map(|x| x.0.to_string()).collect()),
        1 | 2 => run!(Punctuated<I, C>, |v| v.iter().map(|x| x.0.to_string()).collect()),
        3 => run!(Any<I>, |v| v.iter().map(|x| x.0.to_string()).collect()),
        4 => run!(Separated<I, C>, |v| v.iter().map(|x| x.0.to_string()).collect()),
        _ => run!(Separated<I, C>, |v| {
            let (f, rest) = v.into_first_rest();
            std::iter::once(f).chain(rest.into_iter().map(|x| x.1)).map(|x| x.0.to_string()).collect()
        }),
    }
    fuel(u64::MAX);
    Ok(())
}

/// nested repetitions stay linear in the number of tokens
fn nested_linear(ch: &mut Ch, ob: &mut Ob) -> R {
    type I = Fu<LitInt>;
    type Row = Bracket<Punctuated<I, Fu<Comma>>>;
    let rows = ch.size(200);
    let mut s = String::new();
    let mut n = 0u64;
    for _ in 0..rows {
        let c = ch.size(30);
        n += 2 * c as u64 + 4;
        s.push('[');
        for i in 0..c {
            s.push_str(&format!("{i}, "));
        }
        s.push_str("]; ");
    }
    ob.case(rows > 0, format!("{rows} rows {n}"));
    let bound = 6 * n + 16;
    fuel(bound);
    let r = s.parse::<Punctuated<Row, Semi>>();
    let u = used();
    fuel(bound);
    let r2 = format!("{{{}}}", s.replace("; ", " ")).parse::<Brace<Any<Row>>>();
    fuel(u64::MAX);
    ob.add("attempts", u);
    ck_eq!(r.map_err(|e| e.to_string())?.len(), rows, "rows");
    ck_eq!(r2.map_err(|e| e.to_string())?.len(), rows, "rows in any");
    Ok(())
}

/// far more items than fit in 16 bits
fn very_long(i: u64, ob: &mut Ob) -> R {
    let n = [65_534, 65_537, 70_001, 131_073, 200_000][(i / 4) as usize];
    let k = i % 4;
    let s = match k {
        0 | 1 => "a ".repeat(n),
        2 => "a, ".repeat(n - 1) + "a",
        _ => "a, ".repeat(n),
    };
    ob.case(true, format!("{k} n={n}"));
    ob.add("items", n as u64);
    let e = |e: syn::Error| format!("{n} items: {e}");
    // the usual stack of a main thread
    let len = on_stack(8 << 20, || {
        Ok(match k {
            0 => s.parse::<Any<Ident>>().map_err(e)?.len(),
            1 => s.parse::<Many<Ident>>().map_err(e)?.len(),
            2 => s.parse::<Separated<Ident, Comma>>().map_err(e)?.len().get(),
            _ => s.parse::<Punctuated<Ident, Comma>>().map_err(e)?.len(),
        })
    })?;
    ck_eq!(len, n, "items");
    Ok(())
}

/// repetitions inside each other: the work is linear in the number of tokens at any depth
macro_rules! nest {
    ($n:ident, $f:ty) => {
        #[derive(Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr)]
        pub struct $n(#[parsel(recursive)] $f);
    };
}
nest!(NestAny, Any<Either<Fu<LitInt>, Box<Paren<NestAny>>>>);
nest!(NestSep, Separated<Either<Fu<LitInt>, Box<Paren<NestSep>>>, Fu<Comma>>);
nest!(NestPunct, Punctuated<Either<Fu<LitInt>, Box<Paren<NestPunct>>>, Fu<Comma>>);
nest!(NestMany, Many<Either<Fu<LitInt>, Box<Paren<NestMany>>>>);
nest!(NestMaybe, Any<Maybe1st>);
nest!(Maybe1st, Either<Fu<LitInt>, Box<Paren<Maybe<Fu<Plus>, NestMaybe>>>>);
nest!(NestLeft, LeftAssoc<Fu<Comma>, Either<Fu<LitInt>, Box<Paren<NestLeft>>>>);
nest!(NestRight, RightAssoc<Fu<Comma>, Either<Fu<LitInt>, Box<Paren<NestRight>>>>);

fn nest(ch: &mut Ch, d: usize, sep: &str, open: &str, n: &mut u64, out: &mut String) {
    let k = 1 + ch.below(4);
    let at = ch.below(k);
    for i in 0..k {
        if i > 0 {
            out.push_str(sep);
        }
        *n += 2;
        if i == at && d > 0 {
            out.push_str(open);
            nest(ch, d - 1, sep, open, n, out);
            out.push(')');
        } else {
            out.push_str(&format!("{} ", i + 1));
        }
    }
}

fn deep_linear(ch: &mut Ch, ob: &mut Ob) -> R {
    let d = match ch.weighted(&[2, 3, 1]) {
        0 => ch.range(0, 8),
        1 => ch.range(8, 40),
        _ => ch.range(40, 120),
    } as usize;
    let k = ch.below(7);
    let sep = if matches!(k, 0 | 3 | 4) { "" } else { ", " };
    let (mut s, mut n) = (String::new(), 0);
    nest(ch, d, sep, if k == 4 { "(+" } else { "(" }, &mut n, &mut s);
    let broken = ch.chance(1, 4);
    if broken {
        // junk in the innermost group: everything around it is abandoned
        let i = s.find(')').unwrap_or(s.len());
        s.insert_str(i, " ; ");
    }
    ob.case(d > 0, format!("{k} {s}"));
    ob.class_if(d >= 20, "20+ levels");
    let bound = 6 * n + 16;
    fuel(bound);
    let ok = match k {
        0 => s.parse::<NestAny>().is_ok(),
        1 => s.parse::<NestSep>().is_ok(),
        2 => s.parse::<NestPunct>().is_ok(),
        3 => s.parse::<NestMany>().is_ok(),
        4 => s.parse::<NestMaybe>().is_ok(),
        5 => s.parse::<NestLeft>().is_ok(),
        _ => s.parse::<NestRight>().is_ok(),
    };
    let u = used();
    fuel(u64::MAX);
    ob.add("attempts", u);
    ck!(u <= bound, "{u} attempts for {n} tokens, {d} levels");
    ck_eq!(ok, !broken, "accepted");
    Ok(())
}

fn main() {
    vh::run::main(Prop {
        id: "C06",
        rule: "parsing: at least one token; consumption: tokens remain or an attempt failed midway; linear: every case (n >= 1); distinct = different (type, text) or parameters",
        subs: vec![
            types_sub("sequences", Typ::all(list()), 250_000, 12_000_000, accept),
            types_sub("end of sequence", Typ::all(list()), 200_000, 10_000_000, consumption),
            long_sub("long sequences", Typ::all(list()), 4000, 8_000, 400_000, accept_on),
            long_sub("end of long sequence", Typ::all(list()), 4000, 4_000, 200_000, consumption_on),
            sub("attempts", 4_000, 200_000, (0, 30), linear),
            sub("nested attempts", 1_500, 80_000, (0, 600), nested_linear),
            sub("deeply nested attempts", 4_000, 200_000, (0, 300), deep_linear),
            exh("very long", 20, very_long),
        ],
        probe: None,
        assumptions: vec!["linear = at most 4 attempts per item and separator (the code needs about one)"],
    })
}
