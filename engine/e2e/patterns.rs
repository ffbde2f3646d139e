#![allow(warnings)]
//! Token declarations with every kind of pattern: classification and payload against a hand-written
//! reference (first matching arm, selected values in written order).
use rt::find;

#[derive(Debug, Clone, PartialEq)]
pub enum P {
    U(u64),
    S(String),
    C(char),
    B(bool),
}
fn u(x: u64) -> P {
    P::U(x)
}
type Ev = (usize, Vec<P>);

/// run one parser over tokens, compare the list of (terminal, payload)
fn compare<T: std::fmt::Debug>(name: &str, toks: &[T], got: Result<Vec<Ev>, String>, reference: impl Fn(&T) -> Ev) -> usize {
    let want: Vec<Ev> = toks.iter().map(|t| reference(t)).collect();
    let inp = format!("{:?}", toks);
    match got {
        Err(e) => {
            find("C08", name, &inp, &format!("no result: {}", e));
            if e.starts_with("panic") {
                find("C07", name, &inp, &format!("the generated parser panics: {}", e));
            }
        }
        Ok(g) if g != want => {
            let i = (0..want.len().max(g.len())).find(|i| want.get(*i) != g.get(*i)).unwrap();
            find("C08", name, &inp, &format!("token {:?}: classified as (terminal, payload) {:?}, first matching pattern gives {:?}", toks.get(i), g.get(i), want.get(i)))
        }
        _ => {}
    }
    toks.len()
}
macro_rules! run {
    ($m:ident, $toks:expr) => {{
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            $m::L::parse($toks.into_iter().map(|t| Ok::<_, ()>(t)))
        }));
        match r {
            Ok(Ok(v)) => Ok(v),
            Ok(Err(e)) => Err(format!("{:?}", e)),
            Err(e) => Err(format!("panic: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
        }
    }};
}

// ---- overlapping patterns, literals, wildcards
pub mod overlap {
    use super::*;
    #[derive(Debug, Clone, PartialEq)]
    pub enum Tok {
        Num(u64),
        Pair(u64, u64),
        Ch(char),
        Bool(bool),
        Unit,
    }
    parsegen::parser! {
        enum Tok {
            "zero" => Tok::Num(0),
            "one" => Tok::Num(1u64),
            "num" => Tok::Num(<u64>),
            "origin" => Tok::Pair(0, 0),
            "yaxis" => Tok::Pair(0, <u64>),
            "xaxis" => Tok::Pair(<u64>, 0),
            "onefirst" => Tok::Pair(1, _),
            "pair" => Tok::Pair(<u64>, <u64>),
            "a" => Tok::Ch('a'),
            "ch" => Tok::Ch(<char>),
            "true" => Tok::Bool(true),
            "bool" => Tok::Bool(_),
            "unit" => Tok::Unit,
        }
        pub L: Vec<Ev> = {
            => vec![],
            <mut l:L> <e:E> => { l.push(e); l },
        };
        E: Ev = {
            "zero" => (0, vec![]),
            "one" => (1, vec![]),
            <x:"num"> => (2, vec![u(x)]),
            "origin" => (3, vec![]),
            <x:"yaxis"> => (4, vec![u(x)]),
            <x:"xaxis"> => (5, vec![u(x)]),
            <x:"onefirst"> => { let () = x; (6, vec![]) },
            <x:"pair"> => (7, vec![u(x.0), u(x.1)]),
            "a" => (8, vec![]),
            <x:"ch"> => (9, vec![P::C(x)]),
            "true" => (10, vec![]),
            "bool" => (11, vec![]),
            "unit" => (12, vec![]),
        };
    }
    pub fn reference(t: &Tok) -> Ev {
        match *t {
            Tok::Num(0) => (0, vec![]),
            Tok::Num(1) => (1, vec![]),
            Tok::Num(x) => (2, vec![u(x)]),
            Tok::Pair(0, 0) => (3, vec![]),
            Tok::Pair(0, y) => (4, vec![u(y)]),
            Tok::Pair(x, 0) => (5, vec![u(x)]),
            Tok::Pair(1, _) => (6, vec![]),
            Tok::Pair(x, y) => (7, vec![u(x), u(y)]),
            Tok::Ch('a') => (8, vec![]),
            Tok::Ch(c) => (9, vec![P::C(c)]),
            Tok::Bool(true) => (10, vec![]),
            Tok::Bool(_) => (11, vec![]),
            Tok::Unit => (12, vec![]),
        }
    }
    pub fn toks() -> Vec<Tok> {
        let mut v = vec![];
        for a in [0u64, 1, 2, 7, u64::MAX] {
            v.push(Tok::Num(a));
            for b in [0u64, 1, 2, 9] {
                v.push(Tok::Pair(a, b));
            }
        }
        v.extend("abz".chars().map(Tok::Ch));
        v.push(Tok::Bool(true));
        v.push(Tok::Bool(false));
        v.push(Tok::Unit);
        v
    }
}

// ---- struct patterns, field order, trailing dots, nesting
pub mod structs {
    use super::*;
    #[derive(Debug, Clone, PartialEq)]
    pub struct Pos {
        pub line: u64,
        pub col: u64,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub enum K {
        Id(String),
        Op { sym: char, prec: u64, left: bool },
        Nest(Box0, (u64, (char, u64))),
        End,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub enum Box0 {
        Some(u64, u64, u64),
        None,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct Tok {
        pub kind: K,
        pub pos: Pos,
        pub extra: u64,
    }
    parsegen::parser! {
        enum Tok {
            "plus1" => Tok { kind: K::Op { sym: '+', prec: <u64>, .. }, extra: 1, .. },
            "plus" => Tok { kind: K::Op { sym: '+', prec: _, left: <bool>, }, pos: Pos { col: <u64>, line: <u64>, }, extra: <u64>, },
            "op" => Tok { extra: <u64>, kind: K::Op { left: <bool>, sym: <char>, prec: <u64>, }, .. },
            "id" => Tok { pos: Pos { line: <u64>, .. }, kind: K::Id(<String>), extra: _, },
            "deep" => Tok { kind: K::Nest(Box0::Some(<u64>, _, <u64>), (<u64>, (<char>, <u64>))), .. },
            "deep0" => Tok { kind: K::Nest(Box0::None, (5, (_, <u64>))), .. },
            "deeprest" => Tok { kind: K::Nest(..), extra: <u64>, .. },
            "end" => Tok { kind: K::End, pos: _, extra: _, },
        }
        pub L: Vec<Ev> = {
            => vec![],
            <mut l:L> <e:E> => { l.push(e); l },
        };
        E: Ev = {
            <p:"plus1"> => (0, vec![u(p)]),
            <p:"plus"> => (1, vec![P::B(p.0), u(p.1), u(p.2), u(p.3)]),
            <p:"op"> => (2, vec![u(p.0), P::B(p.1), P::C(p.2), u(p.3)]),
            <p:"id"> => (3, vec![u(p.0), P::S(p.1)]),
            <p:"deep"> => (4, vec![u(p.0), u(p.1), u(p.2), P::C(p.3), u(p.4)]),
            <p:"deep0"> => (5, vec![u(p)]),
            <p:"deeprest"> => (6, vec![u(p)]),
            "end" => (7, vec![]),
        };
    }
    pub fn reference(t: &Tok) -> Ev {
        let e = t.extra;
        match &t.kind {
            K::Op { sym: '+', prec, .. } if e == 1 => (0, vec![u(*prec)]),
            K::Op { sym: '+', left, .. } => (1, vec![P::B(*left), u(t.pos.col), u(t.pos.line), u(e)]),
            K::Op { sym, prec, left } => (2, vec![u(e), P::B(*left), P::C(*sym), u(*prec)]),
            K::Id(s) => (3, vec![u(t.pos.line), P::S(s.clone())]),
            K::Nest(Box0::Some(a, _, c), (d, (f, g))) => (4, vec![u(*a), u(*c), u(*d), P::C(*f), u(*g)]),
            K::Nest(Box0::None, (5, (_, x))) => (5, vec![u(*x)]),
            K::Nest(..) => (6, vec![u(e)]),
            K::End => (7, vec![]),
        }
    }
    pub fn toks() -> Vec<Tok> {
        let mut v = vec![];
        let mut n = 100;
        for extra in [0u64, 1, 2] {
            let mut ks = vec![K::Id("foo".into()), K::Id("".into()), K::End];
            for sym in ['+', '-'] {
                for left in [true, false] {
                    n += 1;
                    ks.push(K::Op { sym, prec: n, left });
                }
            }
            ks.push(K::Nest(Box0::Some(11, 12, 13), (14, ('x', 15))));
            ks.push(K::Nest(Box0::None, (5, ('y', 16))));
            ks.push(K::Nest(Box0::None, (6, ('y', 16))));
            for k in ks {
                n += 2;
                v.push(Tok { kind: k, pos: Pos { line: n, col: n + 1 }, extra });
            }
        }
        v
    }
}

// ---- tuple token type, dots in tuples
pub mod tuples {
    use super::*;
    pub type Tup = (u64, char, (bool, u64, u64));
    parsegen::parser! {
        enum Tup {
            "first" => (0, <char>, _),
            "b" => (_, 'b', (true, ..)),
            "mid" => (<u64>, 'c', (_, <u64>, _)),
            "dots" => (7, ..),
            "dotsend" => (.., (true, .., <u64>)),
            "rest" => (<u64>, <char>, (<bool>, <u64>, <u64>)),
        }
        pub L: Vec<Ev> = {
            => vec![],
            <mut l:L> <e:E> => { l.push(e); l },
        };
        E: Ev = {
            <x:"first"> => (0, vec![P::C(x)]),
            "b" => (1, vec![]),
            <x:"mid"> => (2, vec![u(x.0), u(x.1)]),
            "dots" => (3, vec![]),
            <x:"dotsend"> => (4, vec![u(x)]),
            <x:"rest"> => (5, vec![u(x.0), P::C(x.1), P::B(x.2), u(x.3), u(x.4)]),
        };
    }
    pub fn reference(t: &Tup) -> Ev {
        match *t {
            (0, c, _) => (0, vec![P::C(c)]),
            (_, 'b', (true, ..)) => (1, vec![]),
            (x, 'c', (_, y, _)) => (2, vec![u(x), u(y)]),
            (7, ..) => (3, vec![]),
            (.., (true, .., x)) => (4, vec![u(x)]),
            (a, b, (c, d, e)) => (5, vec![u(a), P::C(b), P::B(c), u(d), u(e)]),
        }
    }
    pub fn toks() -> Vec<Tup> {
        let mut v = vec![];
        let mut n = 10;
        for a in [0u64, 3, 7] {
            for c in ['a', 'b', 'c'] {
                for b in [true, false] {
                    n += 2;
                    v.push((a, c, (b, n, n + 1)));
                }
            }
        }
        v
    }
}

// ---- tuples of one element
pub mod onetuple {
    use super::*;
    #[derive(Debug, Clone, PartialEq)]
    pub enum Tok {
        A((u64,)),
        B((u64,), char),
        C(((u64, bool),)),
    }
    parsegen::parser! {
        enum Tok {
            "zero" => Tok::A((0,)),
            "a" => Tok::A((<u64>,)),
            "b1" => Tok::B((1,), <char>),
            "b" => Tok::B((_,), 'x'),
            "bb" => Tok::B((<u64>,), _),
            "ct" => Tok::C(((<u64>, true),)),
            "c" => Tok::C(((_, <bool>),)),
        }
        pub L: Vec<Ev> = {
            => vec![],
            <mut l:L> <e:E> => { l.push(e); l },
        };
        E: Ev = {
            "zero" => (0, vec![]),
            <x:"a"> => (1, vec![u(x)]),
            <x:"b1"> => (2, vec![P::C(x)]),
            "b" => (3, vec![]),
            <x:"bb"> => (4, vec![u(x)]),
            <x:"ct"> => (5, vec![u(x)]),
            <x:"c"> => (6, vec![P::B(x)]),
        };
    }
    pub fn reference(t: &Tok) -> Ev {
        match *t {
            Tok::A((0,)) => (0, vec![]),
            Tok::A((x,)) => (1, vec![u(x)]),
            Tok::B((1,), c) => (2, vec![P::C(c)]),
            Tok::B(_, 'x') => (3, vec![]),
            Tok::B((x,), _) => (4, vec![u(x)]),
            Tok::C(((x, true),)) => (5, vec![u(x)]),
            Tok::C(((_, b),)) => (6, vec![P::B(b)]),
        }
    }
    pub fn toks() -> Vec<Tok> {
        let mut v = vec![];
        for n in [0u64, 1, 9] {
            v.push(Tok::A((n,)));
            for c in ['x', 'y'] {
                v.push(Tok::B((n,), c));
            }
            v.push(Tok::C(((n, true),)));
            v.push(Tok::C(((n, false),)));
        }
        v
    }
}

// ---- lifetimes, string literals
pub mod lifetimes {
    use super::*;
    #[derive(Debug, Clone, PartialEq)]
    pub enum Tok<'input, 'b> {
        Word(&'input str),
        Two(&'input str, &'b str),
        Lit { text: &'b str, n: u64 },
        Nl,
    }
    parsegen::parser! {
        enum Tok<'input, 'b> {
            "if" => Tok::Word("if"),
            "else" => Tok::Word("else"),
            "word" => Tok::Word(<&'input str>),
            "twokey" => Tok::Two(<&'input str>, "key"),
            "two" => Tok::Two(<&'input str>, <&'b str>),
            "empty" => Tok::Lit { text: "", n: <u64>, },
            "lit" => Tok::Lit { n: <u64>, text: <&'b str>, },
            "nl" => Tok::Nl,
        }
        pub L: Vec<Ev> = {
            => vec![],
            <mut l:L> <e:E> => { l.push(e); l },
        };
        E: Ev = {
            "if" => (0, vec![]),
            "else" => (1, vec![]),
            <w:W> => (2, vec![P::S(w.to_string())]),
            <x:"twokey"> => (3, vec![P::S(x.to_string())]),
            <x:"two"> => (4, vec![P::S(x.0.to_string()), P::S(x.1.to_string())]),
            <x:"empty"> => (5, vec![u(x)]),
            <x:"lit"> => (6, vec![u(x.0), P::S(x.1.to_string())]),
            "nl" => (7, vec![]),
        };
        W: &'input str = { <w:"word"> => w, };
    }
    pub fn reference(t: &Tok) -> Ev {
        let s = |x: &str| P::S(x.to_string());
        match t {
            Tok::Word("if") => (0, vec![]),
            Tok::Word("else") => (1, vec![]),
            Tok::Word(w) => (2, vec![s(w)]),
            Tok::Two(a, "key") => (3, vec![s(a)]),
            Tok::Two(a, b) => (4, vec![s(a), s(b)]),
            Tok::Lit { text: "", n } => (5, vec![u(*n)]),
            Tok::Lit { text, n } => (6, vec![u(*n), s(text)]),
            Tok::Nl => (7, vec![]),
        }
    }
    pub fn toks() -> Vec<Tok<'static, 'static>> {
        let mut v = vec![Tok::Nl];
        for a in ["if", "else", "iff", "", "key"] {
            v.push(Tok::Word(a));
            v.push(Tok::Lit { text: a, n: a.len() as u64 + 40 });
            for b in ["key", "kex", ""] {
                v.push(Tok::Two(a, b));
            }
        }
        v
    }
}

// ---- a wildcard arm at the end, general pattern first shadows the rest
pub mod shadow {
    use super::*;
    #[derive(Debug, Clone, PartialEq)]
    pub enum Tok {
        A(u64),
        B(u64),
        C(u64),
        D,
    }
    parsegen::parser! {
        enum Tok {
            "any_a" => Tok::A(<u64>),
            "a5" => Tok::A(5),
            "b" => Tok::B(_),
            "b5" => Tok::B(<u64>),
            "other" => _,
            "c" => Tok::C(<u64>),
            "d" => Tok::D,
            "d2" => Tok::D,
        }
        pub L: Vec<Ev> = {
            => vec![],
            <mut l:L> <e:E> => { l.push(e); l },
        };
        E: Ev = {
            "d2" => (7, vec![]),
            "d" => (6, vec![]),
            <x:"any_a"> => (0, vec![u(x)]),
            "a5" => (1, vec![]),
            "b" => (2, vec![]),
            <x:"b5"> => (3, vec![u(x)]),
            "other" => (4, vec![]),
            <x:"c"> => (5, vec![u(x)]),
        };
    }
    pub fn reference(t: &Tok) -> Ev {
        match t {
            Tok::A(x) => (0, vec![u(*x)]),
            Tok::B(_) => (2, vec![]),
            _ => (4, vec![]),
        }
    }
    pub fn toks() -> Vec<Tok> {
        vec![Tok::A(5), Tok::A(6), Tok::B(5), Tok::B(6), Tok::C(1), Tok::D]
    }
}

// ---- patterns that are declared again, bare paths, constants and literals behind general ones
pub mod again {
    use super::*;
    #[derive(Debug, Clone, PartialEq)]
    pub enum Tok {
        A(u64),
        B { x: u64, y: bool },
        C,
        D,
    }
    pub const FIVE: u64 = 5;
    parsegen::parser! {
        enum Tok {
            "five" => Tok::A(FIVE),
            "a" => Tok::A(<u64>),
            "a5" => Tok::A(5),
            "by" => Tok::B { y: true, .. },
            "b" => Tok::B { x: <u64>, y: <bool> },
            "b7" => Tok::B { x: 7, y: _ },
            "c" => Tok::C,
            "c2" => Tok::C,
            "any" => _,
            "d" => Tok::D,
            "lit" => Tok::A(6),
        }
        pub L: Vec<Ev> = {
            => vec![],
            <mut l:L> <e:E> => { l.push(e); l },
        };
        E: Ev = {
            "lit" => (10, vec![]),
            "d" => (9, vec![]),
            "any" => (8, vec![]),
            "c2" => (7, vec![]),
            "c" => (6, vec![]),
            "b7" => (5, vec![]),
            <x:"b"> => (4, vec![u(x.0), P::B(x.1)]),
            "by" => (3, vec![]),
            "a5" => (2, vec![]),
            <x:"a"> => (1, vec![u(x)]),
            "five" => (0, vec![]),
        };
    }
    pub fn reference(t: &Tok) -> Ev {
        match t {
            Tok::A(5) => (0, vec![]),
            Tok::A(x) => (1, vec![u(*x)]),
            Tok::B { y: true, .. } => (3, vec![]),
            Tok::B { x, y } => (4, vec![u(*x), P::B(*y)]),
            Tok::C => (6, vec![]),
            Tok::D => (8, vec![]),
        }
    }
    pub fn toks() -> Vec<Tok> {
        vec![Tok::A(5), Tok::A(6), Tok::B { x: 7, y: true }, Tok::B { x: 7, y: false }, Tok::B { x: 1, y: false }, Tok::C, Tok::D]
    }
}

// ---- many terminals with one payload type: token numbers beyond 10
pub mod many {
    use super::*;
    #[derive(Debug, Clone, PartialEq)]
    pub struct Tok(pub u64, pub u64);
    parsegen::parser! {
        enum Tok {
            "t0" => Tok(0, <u64>), "t1" => Tok(1, _), "t2" => Tok(2, <u64>), "t3" => Tok(3, <u64>),
            "t4" => Tok(4, <u64>), "t5" => Tok(5, <u64>), "t6" => Tok(6, _), "t7" => Tok(7, <u64>),
            "t8" => Tok(8, <u64>), "t9" => Tok(9, <u64>), "t10" => Tok(10, <u64>), "t11" => Tok(11, <u64>),
            "t12" => Tok(<u64>, 0), "t13" => Tok(<u64>, <u64>),
        }
        pub L: Vec<Ev> = {
            => vec![],
            <mut l:L> <e:E> => { l.push(e); l },
        };
        E: Ev = {
            <x:"t13"> => (13, vec![u(x.0), u(x.1)]), <x:"t12"> => (12, vec![u(x)]),
            <x:"t11"> => (11, vec![u(x)]), <x:"t10"> => (10, vec![u(x)]), <x:"t9"> => (9, vec![u(x)]),
            <x:"t8"> => (8, vec![u(x)]), <x:"t7"> => (7, vec![u(x)]), "t6" => (6, vec![]),
            <x:"t5"> => (5, vec![u(x)]), <x:"t4"> => (4, vec![u(x)]), <x:"t3"> => (3, vec![u(x)]),
            <x:"t2"> => (2, vec![u(x)]), "t1" => (1, vec![]), <x:"t0"> => (0, vec![u(x)]),
        };
    }
    pub fn reference(t: &Tok) -> Ev {
        match *t {
            Tok(k, _) if k == 1 || k == 6 => (k as usize, vec![]),
            Tok(k, x) if k < 12 => (k as usize, vec![u(x)]),
            Tok(k, 0) => (12, vec![u(k)]),
            Tok(k, x) => (13, vec![u(k), u(x)]),
        }
    }
    pub fn toks() -> Vec<Tok> {
        (0..20).flat_map(|k| [Tok(k, 0), Tok(k, k * 3 + 1)]).collect()
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    println!("BEGIN 0 patterns");
    let mut n = 0;
    macro_rules! all { ($($m:ident),*) => { $(
        // all tokens at once, then one by one
        let t = $m::toks();
        n += compare(stringify!($m), &t, run!($m, t.clone()), |t| $m::reference(t));
        for x in &t {
            n += compare(stringify!($m), &[x.clone()], run!($m, vec![x.clone()]), |t| $m::reference(t));
        }
        let mut r = t.clone();
        r.reverse();
        n += compare(stringify!($m), &r, run!($m, r.clone()), |t| $m::reference(t));
    )* } }
    all!(overlap, structs, tuples, onetuple, lifetimes, again, shadow, many);
    println!("STATS {{\"pattern_tokens\":{}}}", n);
    println!("DONE");
}
