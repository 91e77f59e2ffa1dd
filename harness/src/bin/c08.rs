//! C08: infix operator chains.
#[allow(dead_code)]
#[path = "../common/types.rs"]
mod types;
use parsel::ast::*;
use parsel::ToTokens;
use types::*;
use vh::engine::*;
use vh::node::Ops;
use vh::run::*;
use vh::{ck, ck_eq, genum, gtuple, ops_list, Ch};

gtuple!(Chains(a: LeftAssoc<Plus, Ident>, b: Any<Plus>, c: Any<Ident>, d: RightAssoc<Eq_, LitInt>, e: Any<Eq_>));
gtuple!(Chain3(a: RightAssoc<SepAlt, Ident>, b: Any<Comma>, c: Maybe<Semi, LeftAssoc<Sep2, Ident>>));
genum!(ChainAlt { A(a: LeftAssoc<Plus, Ident>, b: Semi), B(a: RightAssoc<Plus, Ident>, b: Comma), C(a: LeftAssoc<Minus, Ident>), D(a: RightAssoc<Star, Word>, b: Eof) });

fn list() -> Vec<Ops> {
    ops_list![
        LeftAssoc<Plus, Ident>, LeftAssoc<Either<Plus, Minus>, LitUint>, LeftAssoc<Dot, Paren<Lit>>, LeftAssoc<Plus, LeftAssoc<Star, Ident>>, LeftAssoc<Minus, LitInt>,
        LeftAssoc<Sep2, Ident>, LeftAssoc<SepAlt, Far>, LeftAssoc<Inner, Named>, LeftAssoc<Comma, Named>, LeftAssoc<kw::If, Id>, LeftAssoc<Empty, Paren<Ident>>,
        RightAssoc<Plus, Ident>, RightAssoc<Either<Plus, Shl>, LitUint>, RightAssoc<Eq_, Bracket<Lit>>, RightAssoc<Arrow, LeftAssoc<Plus, RightAssoc<Star, Ident>>>,
        RightAssoc<SepAlt, Ident>, RightAssoc<Comma, Kws>, RightAssoc<kw::If, Id>, RightAssoc<Minus, LitInt>, RightAssoc<Pre3, LitStr>,
        Expr, Assign, Chains, Chain3, ChainAlt, Paren<LeftAssoc<Plus, Ident>>, Bracket<RightAssoc<Plus, Ident>>, Any<Paren<LeftAssoc<Plus, RightAssoc<Star, Ident>>>>,
        LeftAssoc<Plus, Maybe<Minus, Ident>>, RightAssoc<Comma, Any<LitInt>>,
    ]
}

type Op = Either<Either<Plus, Minus>, Either<Star, Token![/]>>;
const OPS: [&str; 4] = ["+", "-", "*", "/"];

fn op_idx(o: &Op) -> usize {
    match o {
        Either::Left(Either::Left(_)) => 0,
        Either::Left(Either::Right(_)) => 1,
        Either::Right(Either::Left(_)) => 2,
        Either::Right(Either::Right(_)) => 3,
    }
}

/// the tree is checked from the root, operand by operand, against the generated chain
fn shape(ch: &mut Ch, ob: &mut Ob) -> R {
    let n = long_n(ch, 3000).max(1);
    let ops: Vec<usize> = (0..n - 1).map(|_| ch.idx(4)).collect();
    let mut s = String::from("0");
    for (i, o) in ops.iter().enumerate() {
        s.push_str(&format!(" {} {}", OPS[*o], i + 1));
    }
    ob.case(n > 1, s.clone());
    ob.class_if(n >= 256, "256+ operands");
    ob.class_if(n == 1, "lone operand");
    let l = s.parse::<LeftAssoc<Op, LitUint>>().map_err(|e| format!("LeftAssoc rejected: {e}"))?;
    let r = s.parse::<RightAssoc<Op, LitUint>>().map_err(|e| format!("RightAssoc rejected: {e}"))?;
    let want = s.parse::<proc_macro2::TokenStream>().unwrap().to_string();
    ck_eq!(l.to_token_stream().to_string(), want, "LeftAssoc prints");
    ck_eq!(r.to_token_stream().to_string(), want, "RightAssoc prints");
    ck!(l == l.clone() && r == r.clone(), "clone differs");
    let mut at = &l;
    let mut k = n - 1;
    loop {
        match at {
            LeftAssoc::Binary { lhs, op, rhs } => {
                ck!(k > 0, "LeftAssoc: tree too deep");
                ck_eq!(rhs.value(), k as u64, "LeftAssoc: right operand {} from the root", n - 1 - k);
                ck_eq!(op_idx(op), ops[k - 1], "LeftAssoc: operator before operand {k}");
                at = lhs;
                k -= 1;
            }
            LeftAssoc::Rhs(x) => {
                ck_eq!(k, 0, "LeftAssoc: operands left over");
                ck_eq!(x.value(), 0, "LeftAssoc: leftmost leaf");
                break;
            }
        }
    }
    let mut at = &r;
    let mut k = 0;
    loop {
        match at {
            RightAssoc::Binary { lhs, op, rhs } => {
                ck!(k < n - 1, "RightAssoc: tree too deep");
                ck_eq!(lhs.value(), k as u64, "RightAssoc: left operand");
                ck_eq!(op_idx(op), ops[k], "RightAssoc: operator after operand {k}");
                at = rhs;
                k += 1;
            }
            RightAssoc::Lhs(x) => {
                ck_eq!(k, n - 1, "RightAssoc: operands left over");
                ck_eq!(x.value(), k as u64, "RightAssoc: rightmost leaf");
                break;
            }
        }
    }
    let x = LitUint::from(n as u64);
    ck!(matches!(LeftAssoc::<Op, LitUint>::from(x), LeftAssoc::Rhs(y) if y == x), "LeftAssoc::from is not a leaf");
    ck!(matches!(RightAssoc::<Op, LitUint>::from(x), RightAssoc::Lhs(y) if y == x), "RightAssoc::from is not a leaf");
    Ok(())
}

/// Parses a long chain on a small stack, in a process of its own: a stack overflow ends it.
fn child(left: bool, n: usize, bad: bool) -> ! {
    let h = std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(move || {
            let mut s = String::with_capacity(n * 4);
            for i in 0..n {
                if i > 0 {
                    s.push_str(OPS[i % 2]);
                    s.push(' ');
                }
                s.push_str("a ");
            }
            if bad {
                s.push('+');
            }
            let f = |input: syn::parse::ParseStream<'_>| -> syn::Result<bool> {
                type O = Either<Plus, Minus>;
                if left {
                    match input.parse::<LeftAssoc<O, Ident>>() {
                        Ok(t) => {
                            std::mem::forget(t);
                            Ok(true)
                        }
                        Err(_) => {
                            let _: proc_macro2::TokenStream = input.parse()?;
                            Ok(false)
                        }
                    }
                } else {
                    match input.parse::<RightAssoc<O, Ident>>() {
                        Ok(t) => {
                            std::mem::forget(t);
                            Ok(true)
                        }
                        Err(_) => {
                            let _: proc_macro2::TokenStream = input.parse()?;
                            Ok(false)
                        }
                    }
                }
            };
            syn::parse::Parser::parse_str(f, &s).map_err(|e| e.to_string())
        })
        .unwrap()
        .join();
    match h {
        Ok(Ok(parsed)) => std::process::exit(if parsed { 10 } else { 11 }),
        _ => std::process::exit(12),
    }
}

fn small_stack(ch: &mut Ch, ob: &mut Ob) -> R {
    let left = ch.flag();
    let bad = ch.chance(1, 4);
    let n = ch.range(30_000, 70_000);
    ob.case(true, format!("left={left} n={n} dangling={bad}"));
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let st = std::process::Command::new(exe)
        .args(["--small-stack", if left { "l" } else { "r" }, &n.to_string(), if bad { "bad" } else { "ok" }])
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .map_err(|e| e.to_string())?;
    let want = if bad { 11 } else { 10 };
    ck!(st.code() == Some(want), "parsing {n} operands on a stack of 1 MB ends with {st} (expected exit {want}): recursion per operator?");
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map_or(false, |x| x == "--small-stack") {
        child(a[2] == "l", a[3].parse().unwrap(), a[4] == "bad");
    }
    vh::run::main(Prop {
        id: "C08",
        rule: "shape: chains of two or more operands; otherwise: at least one token (consumption: tokens remain after the chain or an attempt failed midway); distinct = different (type, text)",
        subs: vec![
            types_sub("trees", Typ::all(list()), 150_000, 8_000_000, accept),
            types_sub("end of chain", Typ::all(list()), 120_000, 6_000_000, consumption),
            types_sub("printing", Typ::all(list()), 60_000, 3_000_000, print),
            long_sub("long trees", Typ::all(list()), 2500, 5_000, 250_000, accept_on),
            long_sub("end of long chain", Typ::all(list()), 2500, 3_000, 150_000, consumption_on),
            sub("shape", 6_000, 300_000, (0, 300), shape),
            sub("small stack", 32, 1_000, (3, 4), small_stack),
        ],
        probe: None,
        assumptions: vec!["no recursion per operator: 30 000 to 70 000 operands parse on a stack of 1 MB (at most 35 bytes per operand)"],
    })
}
