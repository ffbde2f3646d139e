"""token declarations with generated patterns, with a hand-written match over the same patterns as reference"""
import random

WORLD = r'''
pub mod world {
    use super::*;
    #[derive(Debug, Clone, PartialEq)]
    pub enum W { X(i64, i64), Y { f: i64, g: bool }, Z }
    #[derive(Debug, Clone, PartialEq)]
    pub enum V { Unit, A(i64, i64, i64), N { a: i64, b: char, c: bool }, Q(W, i64), R { w: W, t: (i64, char) }, S(&'static str, (i64, (bool, i64))), L { c: char, y: u8, s: &'static str, b: &'static [u8], f: f64 }, C(char, u8, &'static [u8]) }
    pub fn toks() -> Vec<V> {
        let ints = [-1i64, 0, 1, 2];
        let mut ws = vec![W::Z];
        for a in ints { for b in ints { ws.push(W::X(a, b)); } for g in [true, false] { ws.push(W::Y { f: a, g }); } }
        let mut v = vec![V::Unit];
        for a in ints {
            for b in ints { for c in ints { v.push(V::A(a, b, c)); } }
            for b in ['a', 'b'] { for c in [true, false] { v.push(V::N { a, b, c }); } }
            for w in &ws { v.push(V::Q(w.clone(), a)); for c in ['a', 'b'] { v.push(V::R { w: w.clone(), t: (a, c) }); } }
            for s in ["", "s", "a"] { for g in [true, false] { for b in ints { v.push(V::S(s, (a, (g, b)))); } } }
        }
        let chars = ['a', '\u{e9}', '\u{5b57}', '\n', '\'', '"', '\u{1f600}', '\0'];
        let bytes = [b'a', b'\'', 0u8, 255, 10];
        let bs: [&'static [u8]; 4] = [b"", b"ab", b"a\"b", b"\xff"];
        for c in chars { for y in bytes { for b in bs { v.push(V::C(c, y, b)); } } }
        for c in [chars[0], chars[1], chars[4]] { for y in [bytes[0], bytes[3]] { for s in ["", "\u{e9}", "a\"b", "a\\nb", "a\nb", "-1"] { for b in [bs[1], bs[2]] { for f in [0.0, -1.5, 1.5] {
            v.push(V::L { c, y, s, b, f });
        } } } } }
        v
    }
    pub fn py(x: u8) -> P { P::U(x as u64) }
    pub fn pz(x: &[u8]) -> P { P::S(format!("{:?}", x)) }
    pub fn pf(x: f64) -> P { P::S(format!("{:?}", x)) }
    pub fn pi(x: i64) -> P { P::U(x as u64) }
    pub fn pc(x: char) -> P { P::C(x) }
    pub fn pb(x: bool) -> P { P::B(x) }
    pub fn ps(x: &str) -> P { P::S(x.to_string()) }
    pub fn pw(x: W) -> P { P::S(format!("{:?}", x)) }
    pub fn pt(x: (i64, char)) -> P { P::S(format!("{:?}", x)) }
    pub fn pu(x: (bool, i64)) -> P { P::S(format!("{:?}", x)) }
    pub fn pv(x: (i64, (bool, i64))) -> P { P::S(format!("{:?}", x)) }
}
'''
TY = {"y": "u8", "z": "&'static [u8]", "f": "f64", "i": "i64", "c": "char", "b": "bool", "s": "&'static str", "w": "W", "t": "(i64, char)", "u": "(bool, i64)", "v": "(i64, (bool, i64))"}
LIT = {"y": ["b'a'", "97u8", "0x61", "b'\\''", "255", "0b1010", "b'\\xff'", "b'\\n'"], "z": ['b""', 'b"ab"', 'b"a\\"b"', 'br"ab"', 'b"\\xff"'], "f": ["0.0", "-1.5", "1.5f64", "15e-1"],
       "i": ["-1", "0", "1", "2", "1i64", "0x2", "0_2", "-1i64"], "c": ["'a'", "'b'", "'\\x61'", "'\u00e9'", "'\\u{e9}'", "'\u5b57'", "'\\n'", "'\\''", "'\"'", "'\U0001f600'", "'\\0'"], "b": ["true", "false"], "s": ['""', '"s"', '"a"', 'r"s"', '"\u00e9"', '"\\u{e9}"', '"a\\"b"', 'r#"a"b"#', '"a\\nb"', 'r"a\\nb"', '"-1"']}

class Gen:
    def __init__(self, rng):
        self.r = rng
        self.n = 0
    def hole(self, k, out):
        v = "h%d" % len(out)
        out.append((v, k))
        return "<%s>" % TY[k], v
    def pat(self, k, out, depth):
        """(declared text, reference text) of a pattern of kind k"""
        r = self.r
        x = r.random()
        if k in "icbsyzf":
            if x < .35: return self.hole(k, out)
            if x < .55: return "_", "_"
            l = r.choice(LIT[k])
            return l, l
        if x < .12: return self.hole(k, out)
        if x < .25: return "_", "_"
        if k == "w":
            return r.choice([self.tup("W::X", "ii", out, depth), self.rec("W::Y", [("f", "i"), ("g", "b")], out, depth), ("W::Z", "W::Z")]) if False else \
                [lambda: self.tup("W::X", "ii", out, depth), lambda: self.rec("W::Y", [("f", "i"), ("g", "b")], out, depth), lambda: ("W::Z", "W::Z")][r.randrange(3)]()
        return self.tup("", {"t": "ic", "u": "bi", "v": "iu"}[k], out, depth)
    def tup(self, head, kinds, out, depth):
        r = self.r
        a, b = [], []
        lo, hi = len(kinds), len(kinds)
        if r.random() < .35:
            lo = r.randrange(len(kinds) + 1)
            hi = r.randrange(lo, len(kinds) + 1)
            cut = True
            skip = (lo, hi)
        else:
            cut = False
            skip = None
        for i, k in enumerate(kinds):
            if cut and i == skip[0]:
                a.append(".."); b.append("..")
            if cut and skip[0] <= i < skip[1]:
                continue
            x, y = self.pat(k, out, depth + 1)
            a.append(x); b.append(y)
        if cut and skip[0] == len(kinds):
            a.append(".."); b.append("..")
        c = "," if r.random() < .3 and a else ""
        return "%s(%s%s)" % (head, ", ".join(a), c), "%s(%s)" % (head, ", ".join(b))
    def rec(self, head, fs, out, depth):
        r = self.r
        fs = list(fs)
        r.shuffle(fs)
        n = r.randrange(len(fs) + 1) if r.random() < .5 else len(fs)
        a, b = [], []
        for f, k in fs[:n]:
            x, y = self.pat(k, out, depth + 1)
            a.append("%s: %s" % (f, x)); b.append("%s: %s" % (f, y))
        dots = n < len(fs) or r.random() < .3
        c = "," if a and not dots and r.random() < .5 else ""
        return ("%s { %s%s%s }" % (head, ", ".join(a), c, (", .." if a else "..") if dots else ""),
                "%s { %s }" % (head, ", ".join(b + ["..."[:2]] if dots else b)))
    def top(self):
        out = []
        k = self.r.randrange(18)
        if k == 0: p = ("V::Unit", "V::Unit")
        elif k < 4: p = self.tup("V::A", "iii", out, 0)
        elif k < 6: p = self.rec("V::N", [("a", "i"), ("b", "c"), ("c", "b")], out, 0)
        elif k < 9: p = self.tup("V::Q", "wi", out, 0)
        elif k < 11: p = self.rec("V::R", [("w", "w"), ("t", "t")], out, 0)
        elif k < 13: p = self.tup("V::S", "sv", out, 0)
        elif k < 16: p = self.tup("V::C", "cyz", out, 0)
        else: p = self.rec("V::L", [("c", "c"), ("y", "y"), ("s", "s"), ("b", "z"), ("f", "f")], out, 0)
        return p, out

def module(name, rng, n):
    decl, prods, arms = [], [], []
    wild = n - 1 if rng.random() < .4 else n - 3
    for i in range(n):
        if i == wild:
            p, h = ("_", "_"), []
        elif i > wild and i == n - 1:
            # behind the wildcard: never chosen
            p, h = ("V::Unit", "V::Unit"), []
        else:
            p, h = Gen(rng).top()
        decl.append('"t%d" => %s,' % (i, p[0]))
        arms.append("%s => (%d, vec![%s])," % (p[1], i, ", ".join("p%s(%s)" % (k, v) for v, k in h)))
        if not h: prods.append('"t%d" => (%d, vec![]),' % (i, i))
        elif len(h) == 1: prods.append('<x:"t%d"> => (%d, vec![p%s(x)]),' % (i, i, h[0][1]))
        else: prods.append('<x:"t%d"> => (%d, vec![%s]),' % (i, i, ", ".join("p%s(x.%d)" % (k, j) for j, (_, k) in enumerate(h))))
    rng.shuffle(prods)
    return '''
pub mod %s {
    use super::*;
    use super::world::*;
    parsegen::parser! {
        enum V { %s }
        pub L: Vec<Ev> = {
            => vec![],
            <mut l:L> <e:E> => { l.push(e); l },
        };
        E: Ev = { %s };
    }
    pub fn reference(t: &V) -> Ev {
        match t.clone() { %s }
    }
    pub fn toks() -> Vec<V> { super::world::toks() }
}
''' % (name, "\n            ".join(decl), "\n            ".join(prods), "\n            ".join(arms))

# every way of writing a literal, each its own terminal; the tokens are the values written so, and their neighbours
WRITTEN = {
    "S": ['""', '" "', '"a"', '" a"', '"a "', '"A"', '"aa"', '"\\t"', '"a\\tb"', '"a b"', '"ab"', '"\\n"', '"\\r\\n"', '"\\r"', '"\\0"', '"\\\\"', '"\\\\n"', '"\\\\t"', '"\\""', '"\'"', '"{}"', '"{"', '"{0}"', '"%s"', '"#"', '"//"',
          'r"\\t"', 'r"a\\b"', 'r#"""#', 'r##"a"#b"##', '"\\x41B"', '"\\u{e9}"', '"e\\u{301}"', '"\\u{1f600}"', '"\\u{200b}"', '"\\u{feff}x"', '"\u65e5\u672c"', '"0"', '"-1"', '"1u8"', '"true"', '"a string that is rather long, longer than one would think a token can be, with more than a hundred characters"',
          '"a string that is rather long, longer than one would think a token can be, with more than a hundred characterz"'],
    "C": ["'a'", "'A'", "' '", "'\\t'", "'\\n'", "'\\r'", "'\\0'", "'\\\\'", "'\\''", "'\"'", "'0'", "'9'", "'\\x7f'", "'\\u{e9}'", "'\\u{301}'", "'\\u{200b}'", "'\\u{ffff}'", "'\\u{10ffff}'", "'{'", "'_'"],
    "Y": ["b'a'", "b' '", "b'\\t'", "b'\\0'", "b'\\\\'", "b'\\''", "b'\"'", "b'\\xff'", "b'\\x80'", "1", "2u8", "0xFE", "0b11", "0o17", "1_00"],
    "B": ['b""', 'b" "', 'b"a"', 'b"a\\tb"', 'b"a b"', 'b"\\0"', 'b"\\xff\\x00"', 'b"\\\\"', 'b"\\""', 'br"\\t"', 'br#"a"b"#', 'b"\\n"'],
    "F": ["0.0", "1.0", "1.5", "-1.5", "1e3", "1e-3", "2.5E2", "1_0.0_1", "3f64", "4.0f64", "-0.25f64", "123456789.125", "1e300"],
    "I": ["0", "1", "-1", "10", "1_1", "0x10", "0x1F", "0o20", "0b101", "7i64", "-7i64", "0x7fi64", "9223372036854775807", "-9223372036854775808", "1000000", "1_000_001i64", "-255"],
    "U": ["0", "1u128", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211455", "0xffff_ffff_ffff_ffff_ffff", "255u128"],
    "T": ["true", "false"],
}
RUST = {"S": "&'static str", "C": "char", "Y": "u8", "B": "&'static [u8]", "F": "f64", "I": "i64", "U": "u128", "T": "bool"}
def literals(name, rng):
    decl, prods, arms, toks = [], [], [], []
    n = 0
    shapes = [("V::%s(%s)", "V::%s(%s)"), ("V::%s2(_, %s)", "V::%s2(_, %s)"), ("V::%s3 { v: (%s,), .. }", "V::%s3 { v: (%s,), .. }")]
    for k, ls in WRITTEN.items():
        ls = list(ls)
        rng.shuffle(ls)
        for j, l in enumerate(ls):
            a, b = shapes[j % 3]
            decl.append('"t%d" => %s,' % (n, a % (k, l)))
            arms.append("%s => (%d, vec![])," % (b % (k, l), n))
            prods.append('"t%d" => (%d, vec![]),' % (n, n))
            n += 1
            for f in ("V::%s(%s)", "V::%s2(1, %s)", "V::%s3 { v: (%s,), w: 2 }"):
                toks.append("v.push(" + f % (k, l) + ");")
    decl.append('"t%d" => _,' % n)
    arms.append("_ => (%d, vec![])," % n)
    prods.append('"t%d" => (%d, vec![]),' % (n, n))
    enum = " ".join("%s(%s), %s2(u8, %s), %s3 { v: (%s,), w: u8 }," % (k, t, k, t, k, t) for k, t in RUST.items())
    return '''
pub mod %s {
    use super::*;
    #[derive(Debug, Clone, PartialEq)]
    pub enum V { %s }
    parsegen::parser! {
        enum V { %s }
        pub L: Vec<Ev> = {
            => vec![],
            <mut l:L> <e:E> => { l.push(e); l },
        };
        E: Ev = { %s };
    }
    pub fn reference(t: &V) -> Ev {
        match t.clone() { %s }
    }
    pub fn toks() -> Vec<V> { let mut v = vec![]; %s v }
}
''' % (name, enum, "\n            ".join(decl), "\n            ".join(prods), "\n            ".join(arms), "\n        ".join(toks))

# more values in one token than there are digits, and several lifetimes
EXTRA = r'''
pub mod wide {
    use super::*;
    use super::world::*;
    #[derive(Debug, Clone, PartialEq)]
    pub enum Tok { T(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64), N { a: (i64, char), b: [u8; 2], c: (char, (i64, (char, i64))), d: (i64, i64, i64, i64, i64), e: (char, char, char, char) }, M(i64, char, bool, i64, char, bool, i64, char, bool, i64, char, bool) }
    parsegen::parser! {
        enum Tok {
            "t" => Tok::T(<i64>, <i64>, <i64>, <i64>, <i64>, <i64>, <i64>, <i64>, <i64>, <i64>, <i64>, <i64>, <i64>),
            "n" => Tok::N { d: (<i64>, <i64>, <i64>, <i64>, <i64>), a: (<i64>, <char>), c: (<char>, (<i64>, (<char>, <i64>))), e: (<char>, <char>, <char>, <char>), .. },
            "m0" => Tok::M(0, <char>, <bool>, <i64>, <char>, _, <i64>, <char>, <bool>, <i64>, <char>, <bool>),
            "m" => Tok::M(<i64>, <char>, <bool>, <i64>, <char>, <bool>, <i64>, <char>, <bool>, <i64>, <char>, <bool>),
        }
        pub L: Vec<Ev> = {
            => vec![],
            <mut l:L> <e:E> => { l.push(e); l },
        };
        E: Ev = {
            <x:"t"> => (0, vec![pi(x.0), pi(x.1), pi(x.2), pi(x.3), pi(x.4), pi(x.5), pi(x.6), pi(x.7), pi(x.8), pi(x.9), pi(x.10), pi(x.11), pi(x.12)]),
            <x:"n"> => (1, vec![pi(x.0), pi(x.1), pi(x.2), pi(x.3), pi(x.4), pi(x.5), pc(x.6), pc(x.7), pi(x.8), pc(x.9), pi(x.10), pc(x.11), pc(x.12), pc(x.13), pc(x.14)]),
            <x:"m0"> => (2, vec![pc(x.0), pb(x.1), pi(x.2), pc(x.3), pi(x.4), pc(x.5), pb(x.6), pi(x.7), pc(x.8), pb(x.9)]),
            <x:"m"> => (3, vec![pi(x.0), pc(x.1), pb(x.2), pi(x.3), pc(x.4), pb(x.5), pi(x.6), pc(x.7), pb(x.8), pi(x.9), pc(x.10), pb(x.11)]),
        };
    }
    pub fn reference(t: &Tok) -> Ev {
        match t.clone() {
            Tok::T(a, b, c, d, e, f, g, h, i, j, k, l, m) => (0, [a, b, c, d, e, f, g, h, i, j, k, l, m].iter().map(|x| pi(*x)).collect()),
            Tok::N { a, b: _, c, d, e } => (1, vec![pi(d.0), pi(d.1), pi(d.2), pi(d.3), pi(d.4), pi(a.0), pc(a.1), pc(c.0), pi((c.1).0), pc(((c.1).1).0), pi(((c.1).1).1), pc(e.0), pc(e.1), pc(e.2), pc(e.3)]),
            Tok::M(0, b, c, d, e, _, g, h, i, j, k, l) => (2, vec![pc(b), pb(c), pi(d), pc(e), pi(g), pc(h), pb(i), pi(j), pc(k), pb(l)]),
            Tok::M(a, b, c, d, e, f, g, h, i, j, k, l) => (3, vec![pi(a), pc(b), pb(c), pi(d), pc(e), pb(f), pi(g), pc(h), pb(i), pi(j), pc(k), pb(l)]),
        }
    }
    pub fn toks() -> Vec<Tok> {
        let c = |k: i64| (b'a' + (k % 26) as u8) as char;
        let mut v = vec![];
        for k in 0..5i64 {
            v.push(Tok::T(k, k + 1, k + 2, k + 3, k + 4, k + 5, k + 6, k + 7, k + 8, k + 9, k + 10, k + 11, k + 12));
            v.push(Tok::N { a: (k, c(k)), b: [1, 2], c: (c(k + 1), (k + 2, (c(k + 3), k + 4))), d: (k + 5, k + 6, k + 7, k + 8, k + 9), e: (c(k + 10), c(k + 11), c(k + 12), c(k + 13)) });
            v.push(Tok::M(k % 2, c(k), k % 3 == 0, k + 20, c(k + 5), k % 2 == 0, k + 30, c(k + 6), k % 4 == 1, k + 40, c(k + 7), true));
        }
        v
    }
}
pub mod lives {
    use super::*;
    use super::world::*;
    #[derive(Debug, Clone, PartialEq)]
    pub enum Tok<'a, 'b, 'c, 'd> { A(&'a str), B(&'b str), C(&'c str), D(&'d [u8]), M(&'a str, &'c str, &'b str, u8, &'d [u8]) }
    parsegen::parser! {
        enum Tok<'a, 'b, 'c, 'd> {
            "a" => Tok::A(<&'a str>),
            "b" => Tok::B(<&'b str>),
            "c" => Tok::C(<&'c str>),
            "d" => Tok::D(<&'d [u8]>),
            "m" => Tok::M(<&'a str>, <&'c str>, <&'b str>, _, <&'d [u8]>),
        }
        pub L: Vec<Ev> = {
            => vec![],
            <mut l:L> <e:E> => { l.push(e); l },
        };
        E: Ev = {
            <x:A> => (0, vec![ps(x)]),
            <x:B> => (1, vec![ps(x)]),
            <x:C> => (2, vec![ps(x)]),
            <x:D> => (3, vec![pz(x)]),
            <x:M> => (4, vec![ps(x.0), ps(x.1), ps(x.2), pz(x.3)]),
        };
        pub A: &'a str = { <x:"a"> => x, };
        pub B: &'b str = { <x:"b"> => x, };
        pub C: &'c str = { <x:"c"> => x, };
        pub D: &'d [u8] = { <x:"d"> => x, };
        pub M: (&'a str, &'c str, &'b str, &'d [u8]) = { <x:"m"> => x, };
        pub All: (&'a str, &'b str, &'c str, &'d [u8]) = { <a:A> <b:B> <c:C> <d:D> => (a, b, c, d), };
    }
    // what each parser returns lives as long as what it was given
    pub fn a<'a, 'b, 'c, 'd>(t: Vec<Tok<'a, 'b, 'c, 'd>>) -> Option<&'a str> { A::parse(t.into_iter().map(|t| Ok::<_, ()>(t))).ok() }
    pub fn b<'a, 'b, 'c, 'd>(t: Vec<Tok<'a, 'b, 'c, 'd>>) -> Option<&'b str> { B::parse(t.into_iter().map(|t| Ok::<_, ()>(t))).ok() }
    pub fn c<'a, 'b, 'c, 'd>(t: Vec<Tok<'a, 'b, 'c, 'd>>) -> Option<&'c str> { C::parse(t.into_iter().map(|t| Ok::<_, ()>(t))).ok() }
    pub fn d<'a, 'b, 'c, 'd>(t: Vec<Tok<'a, 'b, 'c, 'd>>) -> Option<&'d [u8]> { D::parse(t.into_iter().map(|t| Ok::<_, ()>(t))).ok() }
    pub fn m<'a, 'b, 'c, 'd>(t: Vec<Tok<'a, 'b, 'c, 'd>>) -> Option<(&'a str, &'c str, &'b str, &'d [u8])> { M::parse(t.into_iter().map(|t| Ok::<_, ()>(t))).ok() }
    pub fn all<'a, 'b, 'c, 'd>(t: Vec<Tok<'a, 'b, 'c, 'd>>) -> Option<(&'a str, &'b str, &'c str, &'d [u8])> { All::parse(t.into_iter().map(|t| Ok::<_, ()>(t))).ok() }
    pub fn reference(t: &Tok) -> Ev {
        match t {
            Tok::A(x) => (0, vec![ps(x)]),
            Tok::B(x) => (1, vec![ps(x)]),
            Tok::C(x) => (2, vec![ps(x)]),
            Tok::D(x) => (3, vec![pz(x)]),
            Tok::M(a, c, b, _, d) => (4, vec![ps(a), ps(c), ps(b), pz(d)]),
        }
    }
    pub fn toks() -> Vec<Tok<'static, 'static, 'static, 'static>> {
        vec![Tok::A("x"), Tok::B("y"), Tok::C("z"), Tok::D(b"w"), Tok::M("1", "2", "3", 4, b"5"), Tok::A(""), Tok::M("", "", "q", 0, b"")]
    }
}
'''
def generate(seed, n):
    rng = random.Random(seed)
    names = ["gen%d" % i for i in range(n)]
    mods = WORLD + "".join(module(m, rng, 18) for m in names)
    return mods + literals("lits", rng) + EXTRA, names + ["lits", "wide", "lives"]
