//! A procedural macro that serves requests while the compiler expands it: each names a node type
//! and a text, which is lexed by the compiler, and is answered by what parsing and printing do.
extern crate proc_macro;

#[allow(dead_code)]
#[path = "../../src/common/types.rs"]
mod types;
mod say;
use proc_macro2::{Group, Span, TokenStream, TokenTree};
use std::io::{BufReader, BufWriter, Read, Write};
use std::os::unix::net::UnixStream;
use std::str::FromStr;
use vh::engine::{veil, Typ, FUEL};
use vh::node::fuel;
use vh::run::guard;
use vh::tok::{canon_of, toks, Sp};
use vh::Ch;

fn flat(ts: TokenStream, o: &mut Vec<Span>) {
    for t in ts {
        o.push(t.span());
        if let TokenTree::Group(g) = t {
            flat(g.stream(), o);
        }
    }
}

/// gives the tokens, in order, the locations of the pool
fn place(ts: TokenStream, pool: &mut std::slice::Iter<'_, Span>) -> TokenStream {
    ts.into_iter()
        .map(|mut t| {
            let s = *pool.next().unwrap_or(&Span::call_site());
            if let TokenTree::Group(g) = t {
                t = Group::new(g.delimiter(), place(g.stream(), pool)).into();
            }
            t.set_span(s);
            t
        })
        .collect()
}

fn sp(s: Span) -> String {
    let s = Sp::of(s);
    format!("{} {} {} {}", s.sl, s.sc, s.el, s.ec)
}

fn formats(ts: &TokenStream) -> [String; 2] {
    let mut o = [String::new(), String::new()];
    parsel::util::format_tokens_compact(ts.clone(), &mut o[0]).expect("format");
    parsel::util::format_tokens_pretty(ts.clone(), &mut o[1]).expect("format");
    o
}

fn answer(t: &Typ, how: u32, veils: &[u32], text: &str, ts: TokenStream, file: &str) -> Vec<String> {
    let mut o = vec![canon_of(&toks(ts.clone()), true).join(" ")];
    let ts = match veils {
        [] => ts,
        v => veil(ts, &mut Ch::new(v), 4, &mut [0; 4]),
    };
    o.extend(formats(&ts));
    fuel(FUEL);
    let r = match how {
        0 => (t.ops.parse2)(ts),
        1 => (t.ops.quoted)(ts),
        2 => (t.ops.quoted_spanned)(Span::call_site(), ts),
        3 => (t.ops.from_str)(text),
        _ => (t.ops.parse_str)(text),
    };
    match r {
        Ok(a) => {
            o.push("accepted".into());
            o.push(a.v().show());
            o.push(vh::inside::spans(&a.v()).iter().map(|s| format!("{} {} {} {}", s.sl, s.sc, s.el, s.ec)).collect::<Vec<_>>().join(";"));
            let p = a.toks();
            o.push(canon_of(&toks(p.clone()), true).join(" "));
            o.extend(formats(&p));
            o.push(a.display());
            o.push(a.alternate());
            o.push(sp(a.span()));
            let w = a.places(file);
            o.push(format!("{w:?}"));
            a.debug();
            fuel(FUEL);
            o.push(match (t.ops.parse2)(p) {
                Ok(b) => format!("{}", a.same(&*b) && b.same(&*a.dup())),
                Err(e) => format!("rejected: {e}"),
            });
        }
        Err(e) => {
            o.push("rejected".into());
            o.push(e.to_string());
            o.push(sp(e.span()));
            o.push(e.to_compile_error().is_empty().to_string());
        }
    }
    o
}

fn num(r: &mut impl Read) -> Option<u32> {
    let mut b = [0; 4];
    r.read_exact(&mut b).ok()?;
    Some(u32::from_le_bytes(b))
}

fn serve_all(input: TokenStream) -> Option<()> {
    let mut pool = vec![];
    flat(input.clone(), &mut pool);
    let own: Vec<TokenStream> = input.into_iter().map(|t| if let TokenTree::Group(g) = t { g.stream() } else { TokenStream::new() }).collect();
    let file = std::fs::read_to_string(std::env::var("VH_FILE").ok()?).ok()?;
    let s = UnixStream::connect(std::env::var("VH_SOCK").ok()?).ok()?;
    let mut r = BufReader::new(s.try_clone().ok()?);
    let mut w = BufWriter::new(s);
    let ts = types::all_types();
    loop {
        let (t, how, veils) = (num(&mut r)?, num(&mut r)?, num(&mut r)?);
        let veils: Vec<u32> = (0..veils).map(|_| num(&mut r)).collect::<Option<_>>()?;
        let mut text = vec![0; num(&mut r)? as usize];
        r.read_exact(&mut text).ok()?;
        let text = String::from_utf8(text).ok()?;
        if how >= vh::inside::OWN {
            // one of the texts of the program, with its own locations
            w.write_all(&[1]).ok()?;
            let x = own[text.parse::<usize>().ok()?].clone();
            let o = guard(|| answer(&ts[t as usize], how - vh::inside::OWN, &[], "", x, &file));
            reply(&mut w, o)?;
            continue;
        }
        let lexed = guard(|| TokenStream::from_str(&text).ok());
        let Ok(Some(x)) = lexed else {
            w.write_all(&[0]).ok()?;
            w.flush().ok()?;
            continue;
        };
        w.write_all(&[1]).ok()?;
        w.flush().ok()?;
        let o = guard(|| answer(&ts[t as usize], how, &veils, &text, place(x, &mut pool.iter()), &file));
        reply(&mut w, o)?;
    }
}

fn reply(w: &mut impl Write, o: Result<Vec<String>, String>) -> Option<()> {
    let o = o.unwrap_or_else(|e| vec![e]);
    w.write_all(&(o.len() as u32).to_le_bytes()).ok()?;
    for s in o {
        w.write_all(&(s.len() as u32).to_le_bytes()).ok()?;
        w.write_all(s.as_bytes()).ok()?;
    }
    w.flush().ok()
}

#[proc_macro]
pub fn serve(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    vh::run::quiet_panics();
    serve_all(input.into());
    proc_macro::TokenStream::new()
}

fn expansion(f: impl FnOnce() -> parsel::Result<TokenStream>) -> proc_macro::TokenStream {
    f().unwrap_or_else(parsel::Error::into_compile_error).into()
}

/// `say!(how expression)`: the expression as AST nodes, and back
#[proc_macro]
pub fn say(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    expansion(|| say::say(input.into()))
}

/// `lit!(type how literal)`
#[proc_macro]
pub fn lit(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    expansion(|| say::lit(input.into()))
}
