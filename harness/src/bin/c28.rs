//! C28: what Debug shows of helper types.
use parsel::ast::*;
use parsel::{Span, ToTokens};
use proc_macro2::Ident as PIdent;
use std::fmt::{Debug, Formatter, Result as FR, Write};
use std::rc::Rc;
use syn::punctuated::Punctuated as SP;
use vh::run::*;
use vh::{ck, ck_eq, lits, Ch};

mod kw {
    parsel::define_keywords! {
        pub mod k { select => Select; from => From; größe => Size; _ => Blank; }
    }
}
use kw::k::{Blank, From as FromKw, Keywords, Select, Size};
type Id = CustomIdent<Keywords>;

/// what has to be shown
#[derive(Clone)]
enum Sh {
    Leaf(Rc<dyn Debug>),
    Word(&'static str),
    List(Vec<Sh>),
    Opt(Option<Box<(Sh, Sh)>>),
    Bin(Box<(Sh, Sh, Sh)>),
}
struct Pair<'a>(&'a Sh, &'a Sh);
impl Debug for Pair<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> FR {
        f.debug_tuple("").field(self.0).field(self.1).finish()
    }
}
impl Debug for Sh {
    fn fmt(&self, f: &mut Formatter<'_>) -> FR {
        match self {
            Sh::Leaf(x) => x.fmt(f),
            Sh::Word(w) => f.pad(w),
            Sh::List(v) => f.debug_list().entries(v).finish(),
            Sh::Opt(None) => f.write_str("None"),
            Sh::Opt(Some(p)) => f.debug_tuple("Some").field(&Pair(&p.0, &p.1)).finish(),
            Sh::Bin(b) => f.debug_struct(&format!("Binary<{:?}>", b.1)).field("lhs", &b.0).field("rhs", &b.2).finish(),
        }
    }
}
fn leaf<T: Debug + Clone + 'static>(x: &T) -> Sh {
    Sh::Leaf(Rc::new(x.clone()))
}

trait M: Sized + Clone + Debug {
    fn make(ch: &mut Ch) -> (Self, Sh);
}
macro_rules! plain { ($($t:ty => |$ch:ident| $e:expr;)*) => {$(
    impl M for $t {
        fn make($ch: &mut Ch) -> (Self, Sh) {
            let x: $t = $e;
            let s = leaf(&x);
            (x, s)
        }
    }
)*} }
plain! {
    u32 => |ch| ch.raw();
    i64 => |ch| ch.u64() as i64;
    f64 => |ch| f64::from_bits(ch.u64());
    char => |ch| *ch.pick(&['a', '\'', '"', '\n', '\u{301}', 'é', '\0']);
    String => |ch| lits::string(ch, 5);
    () => |_ch| ();
    Option<u8> => |ch| if ch.flag() { Some(ch.below(256) as u8) } else { None };
    token::Plus => |_ch| token::Plus::default();
    token::Comma => |_ch| token::Comma::default();
    LitStr => |ch| LitStr::from(lits::string(ch, 5));
    Empty => |_ch| Empty;
}
impl M for Select {
    fn make(_: &mut Ch) -> (Self, Sh) {
        (Select::default(), Sh::Word("select"))
    }
}
impl M for FromKw {
    fn make(_: &mut Ch) -> (Self, Sh) {
        (FromKw::new(Span::call_site()), Sh::Word("from"))
    }
}
impl M for Size {
    fn make(_: &mut Ch) -> (Self, Sh) {
        (Size::default(), Sh::Word("größe"))
    }
}
impl M for Blank {
    fn make(_: &mut Ch) -> (Self, Sh) {
        (Blank::default(), Sh::Word("_"))
    }
}
fn word(ch: &mut Ch) -> PIdent {
    let w = *ch.pick(&["a", "x1", "foo", "naïve", "_y"]);
    let span = Span::call_site();
    if ch.flag() {
        PIdent::new(w, span)
    } else {
        PIdent::new_raw(w, span)
    }
}
impl M for Word {
    fn make(ch: &mut Ch) -> (Self, Sh) {
        let i = word(ch);
        (Word::try_from(i.clone()).unwrap(), leaf(&i))
    }
}
impl M for Id {
    fn make(ch: &mut Ch) -> (Self, Sh) {
        let i = word(ch);
        (Id::try_from(i.clone()).unwrap(), leaf(&i))
    }
}
impl M for Lit {
    fn make(ch: &mut Ch) -> (Self, Sh) {
        macro_rules! l { ($t:ty, $v:expr) => {{
            let l: $t = $v;
            let s = leaf(&l);
            (Lit::from(l), s)
        }} }
        match ch.below(8) {
            0 => l!(LitBool, LitBool::from(ch.flag())),
            1 => l!(LitByte, LitByte::from(ch.below(256) as u8)),
            2 => l!(LitInt, LitInt::from(ch.u64() as i64)),
            3 => l!(LitUint, LitUint::from(ch.u64())),
            4 => l!(LitFloat, LitFloat::try_from(f64::from(ch.raw()) / 8.0).unwrap()),
            5 => l!(LitChar, LitChar::from('q')),
            6 => l!(LitStr, LitStr::from(lits::string(ch, 4))),
            _ => l!(LitByteStr, LitByteStr::from(vec![ch.below(256) as u8; ch.size(4)])),
        }
    }
}
impl<T: M> M for Any<T> {
    fn make(ch: &mut Ch) -> (Self, Sh) {
        let (mut v, mut s) = (vec![], vec![]);
        for _ in 0..ch.size(5) {
            let (a, b) = T::make(ch);
            v.push(a);
            s.push(b);
        }
        (Any::from(v), Sh::List(s))
    }
}
fn list<T: M, P: M>(ch: &mut Ch, min: usize, trailing: bool) -> (SP<T, P>, Sh) {
    let n = min + ch.size(5);
    let (mut v, mut s) = (SP::new(), vec![]);
    for k in 0..n {
        let (a, b) = T::make(ch);
        v.push_value(a);
        s.push(b);
        if k + 1 < n || trailing && ch.flag() {
            let (a, b) = P::make(ch);
            v.push_punct(a);
            s.push(b);
        }
    }
    (v, Sh::List(s))
}
impl<T: M, P: M> M for Punctuated<T, P> {
    fn make(ch: &mut Ch) -> (Self, Sh) {
        let (v, s) = list(ch, 0, true);
        (Punctuated::from(v), s)
    }
}
impl<T: M + ToTokens, P: M + ToTokens> M for Separated<T, P> {
    fn make(ch: &mut Ch) -> (Self, Sh) {
        let (v, s) = list(ch, 1, false);
        (Separated::try_from(v).unwrap(), s)
    }
}
impl<P: M, T: M> M for Maybe<P, T> {
    fn make(ch: &mut Ch) -> (Self, Sh) {
        if ch.chance(1, 4) {
            return (Maybe::default(), Sh::Opt(None));
        }
        let ((p, ps), (t, ts)) = (P::make(ch), T::make(ch));
        (Maybe::from((p, t)), Sh::Opt(Some(Box::new((ps, ts)))))
    }
}
impl<L: M, R: M> M for Either<L, R> {
    fn make(ch: &mut Ch) -> (Self, Sh) {
        if ch.flag() {
            let (r, s) = R::make(ch);
            (Either::Right(r), s)
        } else {
            let (l, s) = L::make(ch);
            (Either::Left(l), s)
        }
    }
}
impl<O: M, T: M> M for LeftAssoc<O, T> {
    fn make(ch: &mut Ch) -> (Self, Sh) {
        let (t, mut s) = T::make(ch);
        let mut e = LeftAssoc::Rhs(t);
        for _ in 0..ch.size(3) {
            let ((op, os), (rhs, rs)) = (O::make(ch), T::make(ch));
            e = LeftAssoc::Binary { lhs: Box::new(e), op, rhs };
            s = Sh::Bin(Box::new((s, os, rs)));
        }
        (e, s)
    }
}
impl<O: M, T: M> M for RightAssoc<O, T> {
    fn make(ch: &mut Ch) -> (Self, Sh) {
        let (t, mut s) = T::make(ch);
        let mut e = RightAssoc::Lhs(t);
        for _ in 0..ch.size(3) {
            let ((op, os), (lhs, ls)) = (O::make(ch), T::make(ch));
            e = RightAssoc::Binary { lhs, op, rhs: Box::new(e) };
            s = Sh::Bin(Box::new((ls, os, s)));
        }
        (e, s)
    }
}

/// takes so much text and no more
struct Full(String, usize);
impl Write for Full {
    fn write_str(&mut self, s: &str) -> FR {
        if self.0.len() + s.len() > self.1 {
            return Err(std::fmt::Error);
        }
        self.0 += s;
        Ok(())
    }
}

fn check<T: M>(ch: &mut Ch, ob: &mut Ob) -> R {
    let (x, s) = T::make(ch);
    let name = std::any::type_name::<T>();
    macro_rules! styles { ($($f:literal)*) => {$( ck_eq!(format!($f, x), format!($f, s), "{} of {name}", $f); )*} }
    styles!("{:?}" "{:#?}" "{:x?}" "{:#X?}" "{:9?}" "{:<7.2?}" "{:^+12?}" "{:*>6?}" "{:#06.1?}");
    let plain = format!("{x:?}");
    ck_eq!(format!("{:?}", x.clone()), plain, "a clone");
    ck_eq!(format!("{:?}", Any::from(vec![&x, &x])), format!("[{plain}, {plain}]"), "two of them, lent");
    ck_eq!(format!("{:?}", Box::new(x.clone())), plain, "boxed");
    // a full sink
    let at = ch.idx(plain.len() + 2);
    let mut w = Full(String::new(), at);
    let r = write!(w, "{x:?}");
    ck_eq!(r.is_ok(), at >= plain.len(), "with room for {at} bytes ({plain})");
    ck!(plain.starts_with(&w.0), "{} written of {plain}", w.0);
    // inside of a delimited node
    let paren: Paren<T> = Paren::new(x.clone(), Span::call_site());
    let bracket: Bracket<T> = Bracket::new(x.clone(), Span::call_site());
    let brace: Brace<T> = Brace::new(x, Span::call_site());
    for (what, text) in [("Paren", format!("{paren:?}")), ("Bracket", format!("{bracket:?}")), ("Brace", format!("{brace:?}"))] {
        ck!(text.contains(&plain), "{what} does not show its content {plain}: {text}");
    }
    ob.case(plain.len() > 8, format!("{name} {plain}"));
    Ok(())
}

fn debug(ch: &mut Ch, ob: &mut Ob) -> R {
    use token::{Comma, Plus};
    match ch.below(24) {
        0 => check::<Any<u32>>(ch, ob),
        1 => check::<Any<Any<String>>>(ch, ob),
        2 => check::<Any<Maybe<char, f64>>>(ch, ob),
        3 => check::<Punctuated<i64, char>>(ch, ob),
        4 => check::<Punctuated<Either<Word, Lit>, Comma>>(ch, ob),
        5 => check::<Separated<Lit, Plus>>(ch, ob),
        6 => check::<Separated<Word, Select>>(ch, ob),
        7 => check::<Maybe<Plus, Any<f64>>>(ch, ob),
        8 => check::<Maybe<Option<u8>, Maybe<u32, String>>>(ch, ob),
        9 => check::<Maybe<FromKw, Id>>(ch, ob),
        10 => check::<Either<u32, String>>(ch, ob),
        11 => check::<Either<Either<f64, Lit>, Any<Either<char, Blank>>>>(ch, ob),
        12 => check::<LeftAssoc<Plus, u32>>(ch, ob),
        13 => check::<LeftAssoc<String, f64>>(ch, ob),
        14 => check::<LeftAssoc<Either<Select, Comma>, LeftAssoc<char, Lit>>>(ch, ob),
        15 => check::<RightAssoc<Plus, u32>>(ch, ob),
        16 => check::<RightAssoc<FromKw, Maybe<u32, f64>>>(ch, ob),
        17 => check::<RightAssoc<Option<u8>, RightAssoc<i64, Any<char>>>>(ch, ob),
        18 => check::<Lit>(ch, ob),
        19 => check::<Either<Size, Blank>>(ch, ob),
        20 => check::<Either<Word, Id>>(ch, ob),
        21 => check::<Any<Either<Empty, ()>>>(ch, ob),
        22 => check::<Punctuated<Separated<LitStr, Comma>, Any<Plus>>>(ch, ob),
        _ => check::<Any<Either<LeftAssoc<u32, Id>, RightAssoc<char, Punctuated<f64, Size>>>>>(ch, ob),
    }
}

fn main() {
    vh::run::main(Prop {
        id: "C28",
        rule: "the text is longer than eight characters; distinct = different types and texts",
        subs: vec![sub("debug texts", 150_000, 4_000_000, (0, 120), debug)],
        probe: None,
        assumptions: vec![],
    })
}
