#![allow(warnings)]
//! Long inputs: lists and nests far longer than any power of two a parser might count to, tokens with every
//! kind of size hint. Values are counted, not built, so that depth costs nothing here.
use rt::find;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub mod g {
    #[derive(Debug, Clone, PartialEq)]
    pub enum Tok {
        A(u64),
        Open,
        Close,
        X,
    }
    parsegen::parser! {
        enum Tok {
            "a" => Tok::A(<u64>),
            "(" => Tok::Open,
            ")" => Tok::Close,
            "x" => Tok::X,
        }
        // a list, built from the left
        pub Left: (u64, u64) = {
            => (0, 0),
            <l:Left> <a:"a"> => (l.0 + 1, l.1.wrapping_mul(31).wrapping_add(a)),
        };
        // a list, built from the right: all of it is on the stack at the end
        pub Right: (u64, u64) = {
            "x" => (0, 7),
            <a:"a"> <r:Right> => (r.0 + 1, r.1.wrapping_mul(31).wrapping_add(a)),
        };
        pub Nest: (u64, u64) = {
            <a:"a"> => (0, a),
            "(" <n:Nest> ")" => (n.0 + 1, n.1),
        };
        // an empty production before every element
        pub Marked: (u64, u64) = {
            "x" => (0, 0),
            <m:Mark> <a:"a"> <r:Marked> => (r.0 + m, r.1 + a),
        };
        Mark: u64 = { => 1, };
    }
}
use g::Tok;

thread_local! { static POLLS: Cell<usize> = Cell::new(0); static BAD: Cell<bool> = Cell::new(false); }
#[derive(Clone, Copy, Debug)]
enum Hint {
    None,
    Exact,
    Low,
    Huge,
}
struct Src<F: Fn(usize) -> Option<Result<Tok, u32>>> {
    f: F,
    i: usize,
    n: usize,
    hint: Hint,
    over: bool,
}
impl<F: Fn(usize) -> Option<Result<Tok, u32>>> Iterator for Src<F> {
    type Item = Result<Tok, u32>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.over {
            BAD.with(|b| b.set(true));
            return None;
        }
        POLLS.with(|p| p.set(p.get() + 1));
        let x = (self.f)(self.i);
        self.i += 1;
        if !matches!(x, Some(Ok(_))) {
            self.over = true;
        }
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.n.saturating_sub(self.i);
        match self.hint {
            Hint::None => (0, None),
            Hint::Exact => (left, Some(left)),
            Hint::Low => (left.min(200), None),
            Hint::Huge => (usize::MAX, None),
        }
    }
}

#[derive(Debug, PartialEq)]
enum R {
    Ok(u64, u64),
    Lex(u32),
    Syn(String, String),
    Panic(String),
}
macro_rules! parse {
    ($nt:ident, $n:expr, $hint:expr, $f:expr) => {{
        POLLS.with(|p| p.set(0));
        BAD.with(|p| p.set(false));
        match catch_unwind(AssertUnwindSafe(|| g::$nt::parse(Src { f: $f, i: 0, n: $n, hint: $hint, over: false }))) {
            Ok(Ok((a, b))) => R::Ok(a, b),
            Ok(Err(g::ParseError::LexerError(e))) => R::Lex(e),
            Ok(Err(g::ParseError::ParserError { found, expected })) => R::Syn(found.into(), expected.into()),
            Err(e) => R::Panic(e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
        }
    }};
}
fn check(what: &str, got: R, want: R, polls: usize) {
    let p = POLLS.with(|p| p.get());
    let s = |r: &R| format!("{:?}", r);
    if got != want {
        let mut props: Vec<&str> = match (&got, &want) {
            (R::Panic(_), _) => vec!["C07"],
            (R::Ok(..), R::Ok(..)) => vec!["C03"],
            (R::Ok(..), R::Syn(..)) => vec!["C01", "C05"],
            (R::Ok(..), _) => vec!["C01", "C06"],
            (_, R::Ok(..)) => vec!["C02", "C05"],
            (_, R::Syn(..)) => vec!["C05"],
            _ => vec!["C06"],
        };
        if matches!(want, R::Lex(_)) || matches!(got, R::Lex(_)) {
            props.push("C06");
        }
        if matches!(want, R::Ok(..)) && matches!(got, R::Panic(_)) {
            props.extend(["C02", "C03"]);
        }
        // the parser came to its result without having seen what it had to see, or having seen more
        if p != polls && matches!(want, R::Ok(..) | R::Syn(..)) {
            props.push("C06");
        }
        for p in props {
            find(p, "engine/e2e/long.rs", what, &format!("result {} instead of {}", s(&got), s(&want)));
        }
    } else if p != polls || BAD.with(|b| b.get()) {
        find("C06", "engine/e2e/long.rs", what, &format!("{} items pulled instead of {}{}", p, polls, if BAD.with(|b| b.get()) { ", and the input asked again after its end" } else { "" }));
    }
}
fn tok(i: usize) -> u64 {
    (i as u64).wrapping_mul(0x9E3779B97F4A7C15) >> 40
}
fn syn(f: &str, e: &str) -> R {
    R::Syn(f.into(), e.into())
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut runs = 0;
    let mut k = 0;
    for n in [0usize, 1, 2, 9, 64, 127, 128, 129, 255, 256, 257, 300, 1000, 1024, 4096, 10_000, 32_768, 65_534, 65_535, 65_536, 65_537, 70_000, 150_000] {
        println!("BEGIN {} length {}", k, n);
        k += 1;
        for hint in [Hint::None, Hint::Exact, Hint::Low, Hint::Huge] {
            if n > 2000 && matches!(hint, Hint::Low | Hint::Huge) && n != 70_000 {
                continue;
            }
            let w = |m: &str| format!("{} of {} elements, size hint {:?}", m, n, hint);
            runs += 16;
            let fold = (0..n).fold(0u64, |h, i| h.wrapping_mul(31).wrapping_add(tok(i)));
            let back = (0..n).rev().fold(7u64, |h, i| h.wrapping_mul(31).wrapping_add(tok(i)));
            let sum: u64 = (0..n).map(tok).sum();
            let a = |i: usize| Some(Ok(Tok::A(tok(i))));
            // sentences
            check(&w("left list"), parse!(Left, n, hint, |i| if i < n { a(i) } else { None }), R::Ok(n as u64, fold), n + 1);
            check(&w("right list"), parse!(Right, n + 1, hint, |i| if i < n { a(i) } else if i == n { Some(Ok(Tok::X)) } else { None }), R::Ok(n as u64, back), n + 2);
            check(&w("list with marks"), parse!(Marked, n + 1, hint, |i| if i < n { a(i) } else if i == n { Some(Ok(Tok::X)) } else { None }), R::Ok(n as u64, sum), n + 2);
            check(
                &w("nest"),
                parse!(Nest, 2 * n + 1, hint, |i| if i < n { Some(Ok(Tok::Open)) } else if i == n { a(3) } else if i <= 2 * n { Some(Ok(Tok::Close)) } else { None }),
                R::Ok(n as u64, tok(3)),
                2 * n + 2,
            );
            // one token too many, one missing, a wrong one
            check(&w("left list and an x"), parse!(Left, n + 1, hint, |i| if i < n { a(i) } else if i == n { Some(Ok(Tok::X)) } else { None }), syn("x", "a"), n + 1);
            check(&w("left list, an x and more"), parse!(Left, 2 * n + 1, hint, |i| if i == n { Some(Ok(Tok::X)) } else if i < 2 * n + 1 { a(i) } else { None }), syn("x", "a"), n + 1);
            check(&w("right list without its end"), parse!(Right, n, hint, |i| if i < n { a(i) } else { None }), syn("end-of-input", "a, x"), n + 1);
            check(&w("right list and one more"), parse!(Right, n + 2, hint, |i| if i == n { Some(Ok(Tok::X)) } else if i < n + 2 { a(i) } else { None }), syn("a", ""), n + 2);
            check(
                &w("nest short of a bracket"),
                parse!(Nest, 2 * n + 2, hint, |i| if i <= n { Some(Ok(Tok::Open)) } else if i == n + 1 { a(3) } else if i < 2 * n + 2 { Some(Ok(Tok::Close)) } else { None }),
                syn("end-of-input", ")"),
                2 * n + 3,
            );
            check(
                &w("nest with a bracket too many"),
                parse!(Nest, 2 * n + 2, hint, |i| if i < n { Some(Ok(Tok::Open)) } else if i == n { a(3) } else if i < 2 * n + 2 { Some(Ok(Tok::Close)) } else { None }),
                syn(")", ""),
                2 * n + 2,
            );
            // lexer errors, at the end and before more; after a syntax error
            check(&w("left list and a lexer error"), parse!(Left, n + 1, hint, |i| if i < n { a(i) } else { Some(Err(5)) }), R::Lex(5), n + 1);
            check(&w("right list with a lexer error"), parse!(Right, n + 9, hint, |i| if i == n { Some(Err(6)) } else if i < n + 8 { a(i) } else { None }), R::Lex(6), n + 1);
            check(&w("lexer error at the end of a right list"), parse!(Right, n + 2, hint, |i| if i < n { a(i) } else if i == n { Some(Ok(Tok::X)) } else { Some(Err(8)) }), R::Lex(8), n + 2);
            check(
                &w("nest with a lexer error"),
                parse!(Nest, 2 * n + 2, hint, |i| if i < n { Some(Ok(Tok::Open)) } else if i == n { a(3) } else if i < 2 * n + 1 { Some(Ok(Tok::Close)) } else { Some(Err(9)) }),
                R::Lex(9),
                2 * n + 2,
            );
            check(&w("syntax error before a lexer error"), parse!(Left, n + 2, hint, |i| if i < n { a(i) } else if i == n { Some(Ok(Tok::Close)) } else { Some(Err(7)) }), syn(")", "a"), n + 1);
            check(&w("marks without an end"), parse!(Marked, n, hint, |i| if i < n { a(i) } else { None }), syn("end-of-input", "a, x"), n + 1);
        }
    }
    println!("STATS {{\"long_runs\":{}}}", runs);
    println!("DONE");
}
