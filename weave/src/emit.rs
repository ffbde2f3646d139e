//! Token printer. `__wvs ! ( N ) ;` as the first statement of a brace group prints text N before
//! the brace; `__wvi ! ( N ) ;` prints text N in place.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Emitter {
    pub out: String,
    pub line: usize,
    pub attr_next: bool,
    indent: usize,
}

impl Emitter {
    pub fn new() -> Self {
        Emitter { out: String::new(), line: 1, attr_next: false, indent: 0 }
    }
    pub fn raw(&mut self, s: &str) {
        self.line += s.matches('\n').count();
        self.out.push_str(s);
    }
    fn nl(&mut self) {
        self.out.push('\n');
        self.line += 1;
        for _ in 0..self.indent {
            self.out.push_str("  ");
        }
    }
    fn marker(tts: &[TokenTree], i: usize) -> Option<(&'static str, usize)> {
        if let TokenTree::Ident(id) = &tts[i] {
            let k = if id == "__wvs" {
                "s"
            } else if id == "__wvi" {
                "i"
            } else {
                return None;
            };
            if let Some(TokenTree::Group(g)) = tts.get(i + 2) {
                let n: usize = g.stream().to_string().trim().parse().unwrap();
                return Some((k, n));
            }
        }
        None
    }
    pub fn tokens(&mut self, ts: TokenStream, texts: &[String]) {
        let tts: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        let mut prev_joint = false;
        let mut need_space = false;
        while i < tts.len() {
            if let Some((k, n)) = Self::marker(&tts, i) {
                if k == "i" {
                    self.nl();
                    let t = texts[n].clone();
                    self.raw(&t);
                    self.nl();
                }
                i += 3;
                if let Some(TokenTree::Punct(p)) = tts.get(i) {
                    if p.as_char() == ';' {
                        i += 1;
                    }
                }
                need_space = false;
                continue;
            }
            match &tts[i] {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::None => ("", ""),
                    };
                    if g.delimiter() == Delimiter::Brace {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        if !inner.is_empty() {
                            if let Some(("s", n)) = Self::marker(&inner, 0) {
                                self.nl();
                                let t = texts[n].clone();
                                self.raw(&t);
                            }
                        }
                        self.out.push_str(" {");
                        self.indent += 1;
                        self.nl();
                        self.tokens(g.stream(), texts);
                        self.indent -= 1;
                        self.nl();
                        self.out.push('}');
                        need_space = true;
                    } else {
                        if need_space && g.delimiter() == Delimiter::None {
                            self.out.push(' ');
                        }
                        self.out.push_str(a);
                        self.tokens(g.stream(), texts);
                        self.out.push_str(b);
                        need_space = true;
                    }
                    prev_joint = false;
                }
                TokenTree::Punct(p) => {
                    if !prev_joint && need_space && !matches!(p.as_char(), ';' | ',' | '.') {
                        self.out.push(' ');
                    }
                    self.out.push(p.as_char());
                    prev_joint = p.spacing() == Spacing::Joint;
                    need_space = !matches!(p.as_char(), '.' | '\'' | '&');
                    if p.as_char() == ';' {
                        self.nl();
                        need_space = false;
                    }
                }
                t => {
                    if need_space && !prev_joint {
                        self.out.push(' ');
                    }
                    if prev_joint {
                        // joint punct then ident (lifetime quote)
                    }
                    self.out.push_str(&t.to_string());
                    prev_joint = false;
                    need_space = true;
                }
            }
            i += 1;
        }
    }
}
