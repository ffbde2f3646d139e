#!/usr/bin/env python3
"""Copy /repo/src into a plain library crate (the proc-macro entry point becomes a function) and
append read-only probes to the copy. Each probe is a feature, so that a probe that no longer fits the
code can be left out."""
import os, re, sys

PROBES = {
"lowered": ("lib.rs", """
#[cfg(feature = "lowered")]
pub mod probe_lowered {
    use quote::ToTokens;
    /// name, public, productions: (symbols: (is_nt, index, binder, mutable), action text)
    pub fn lowered(input: proc_macro2::TokenStream) -> (Vec<(String, bool, Vec<(Vec<(bool, usize, Option<String>, bool)>, String)>)>, Vec<String>) {
        let g = crate::probe_common::grammar(input);
        let nts = g.non_terminals().iter().map(|nt| {
            let ps = nt.productions().iter().map(|p| {
                let ss = p.symbols().iter().map(|s| {
                    let (b, m) = match &s.binder { Some(n) => (Some(n.name.to_string()), n.mutable), None => (None, false) };
                    match &s.symbol {
                        crate::grammar::Symbol::NonTerminal(n) => (true, n.as_usize(), b, m),
                        crate::grammar::Symbol::Terminal(t) => (false, t.as_usize(), b, m),
                    }
                }).collect();
                (ss, p.action.to_token_stream().to_string())
            }).collect();
            (nt.non_terminal.clone(), nt.public, ps)
        }).collect();
        let n = g.n_terminals();
        (nts, (0..n).map(|i| g.get_terminal(crate::grammar::TerminalIdx::from_usize(i)).to_string()).collect())
    }
}
"""),
"ast": ("lib.rs", """
#[cfg(feature = "ast")]
pub mod probe_ast {
    use crate::ast::*;
    use quote::ToTokens;
    fn t<T: ToTokens>(x: &T) -> String { x.to_token_stream().to_string() }
    fn pat(p: &Pattern) -> String {
        match p {
            Pattern::Enum(c, v) => format!("{} ( {} )", t(c), v.iter().map(pat).collect::<Vec<_>>().join(" , ")),
            Pattern::Struct(c, v, d) => format!("{} {{ {} {} }}", t(c), v.iter().map(|f| format!("{} : {}", f.field_name, pat(&f.pattern))).collect::<Vec<_>>().join(" , "), if *d { ".." } else { "" }),
            Pattern::Tuple(v) => format!("( {} )", v.iter().map(pat).collect::<Vec<_>>().join(" , ")),
            Pattern::Path(c) => t(c),
            Pattern::Underscore => "_".into(),
            Pattern::DotDot => "..".into(),
            Pattern::Lit(l) => t(l),
            Pattern::Choose(y) => format!("< {} >", t(y)),
        }
    }
    fn sym(s: &Symbol) -> String {
        match s {
            Symbol::Terminal(l) => t(l),
            Symbol::NonTerminal(n) => n.to_string(),
            Symbol::Repeat(r) => format!("{} {}", sym(&r.symbol), match r.op { RepeatOp::Plus => "+", RepeatOp::Star => "*", RepeatOp::Question => "?" }),
            Symbol::NamedSymbol(n, s) => format!("< {} {} : {} >", if n.mutable { "mut" } else { "" }, n.name, sym(s)),
        }
    }
    /// the grammar that was read, written down again
    pub fn unparse(input: proc_macro2::TokenStream) -> syn::Result<String> {
        let p = syn::parse2::<Parser>(input)?;
        let mut o = String::new();
        for i in &p.items {
            match i {
                GrammarItem::TypeDef(d) => o.push_str(&format!("type {} = {} ;", match d.kind { TypeDefKind::State => "State" }, t(&d.ty))),
                GrammarItem::TokenEnum(e) => {
                    let l = e.type_lifetimes.iter().map(t).collect::<Vec<_>>().join(" , ");
                    o.push_str(&format!("enum {} {} {{ {} }}", e.type_name, if l.is_empty() { l } else { format!("< {} >", l) },
                        e.conversions.iter().map(|c| format!("{:?} => {} ,", c.from, pat(&c.to))).collect::<String>()));
                }
                GrammarItem::NonTerminal(n) => o.push_str(&format!("{} {} : {} = {{ {} }} ;", if n.visibility.is_pub() { "pub" } else { "" }, n.name, t(&n.type_decl),
                    n.productions.iter().map(|p| format!("{} {} ,", p.symbols.iter().map(|s| sym(s) + " ").collect::<String>(), match &p.action {
                        Action::Infallible(e) => format!("=> {}", t(e)), Action::Fallible(e) => format!("=> ? {}", t(e)) })).collect::<String>())),
            }
            o.push('\\n');
        }
        Ok(o)
    }
}
"""),
"first": ("lib.rs", """
#[cfg(feature = "first")]
pub mod probe_first {
    /// (non-terminal name, public, may be empty, first terminals by name)
    pub fn first_sets(input: proc_macro2::TokenStream) -> Vec<(String, bool, bool, Vec<String>)> {
        let g = crate::probe_common::grammar(input);
        let f = crate::first::generate_first_table(&g);
        let mut out = vec![];
        for (i, nt) in g.non_terminal_indices() {
            let s = f.get_first(i);
            let mut ts: Vec<String> = s.terminals().iter().map(|t| g.get_terminal(*t).to_string()).collect();
            ts.sort();
            out.push((nt.non_terminal.clone(), nt.public, s.has_empty(), ts));
        }
        out
    }
}
"""),
"automaton": ("lr1.rs", """
#[cfg(feature = "automaton")]
/// states: items (nt, prod, cursor, lookahead), transitions (is_nt, index, target); starts
pub fn probe_automaton(input: proc_macro2::TokenStream)
    -> (Vec<(Vec<(usize, usize, usize, Option<usize>)>, Vec<(bool, usize, usize)>)>, Vec<(usize, usize)>)
{
    let g = crate::probe_common::grammar(input);
    let f = crate::first::generate_first_table(&g);
    let (a, starts) = generate_lr1_automaton(&g, &f);
    let states = a.states.iter().map(|s| {
        let items = s.items.iter().map(|i| (i.non_terminal_idx.as_usize(), i.production_idx.as_usize(), i.cursor, i.lookahead.map(|t| t.as_usize()))).collect();
        let gotos = s.goto.iter().map(|(x, j)| match x {
            Symbol::NonTerminal(n) => (true, n.as_usize(), j.as_usize()),
            Symbol::Terminal(t) => (false, t.as_usize(), j.as_usize()),
        }).collect();
        (items, gotos)
    }).collect();
    (states, starts.into_iter().map(|(n, s)| (n.as_usize(), s.as_usize())).collect())
}
"""),
"table": ("lr1.rs", """
#[cfg(feature = "table")]
/// per state: actions (terminal or None, kind 0 shift/1 reduce/2 accept, a, b), gotos (nt, target)
pub fn probe_table(input: proc_macro2::TokenStream)
    -> Vec<(Vec<(Option<usize>, u8, usize, usize)>, Vec<(usize, usize)>)>
{
    let g = crate::probe_common::grammar(input);
    let f = crate::first::generate_first_table(&g);
    let (a, _) = generate_lr1_automaton(&g, &f);
    let t = build_lr1_table(&g, &a);
    (0..t.n_states()).map(|i| {
        let s = StateIdx(i);
        let acts = t.get_action_table().get(&s).map(|m| m.iter().map(|(k, v)| {
            let k = k.map(|t| t.as_usize());
            match v {
                crate::lr_common::LRAction::Shift(n) => (k, 0u8, n.as_usize(), 0),
                crate::lr_common::LRAction::Reduce(n, p, _) => (k, 1, n.as_usize(), p.as_usize()),
                crate::lr_common::LRAction::Accept => (k, 2, 0, 0),
            }
        }).collect()).unwrap_or_default();
        let gotos = t.get_goto_table().get(&s).map(|m| m.iter().map(|(n, j)| (n.as_usize(), j.as_usize())).collect()).unwrap_or_default();
        (acts, gotos)
    }).collect()
}
"""),
}
COMMON = """
#[cfg(any(feature = "lowered", feature = "first", feature = "automaton", feature = "table"))]
pub mod probe_common {
    pub fn grammar(input: proc_macro2::TokenStream) -> crate::grammar::Grammar<syn::Expr> {
        let parser = syn::parse2::<crate::ast::Parser>(input).unwrap();
        let mut nts = vec![];
        let mut tok = None;
        for item in parser.items {
            match item {
                crate::ast::GrammarItem::NonTerminal(nt) => nts.push(nt),
                crate::ast::GrammarItem::TokenEnum(t) => tok = Some(t),
                _ => {}
            }
        }
        crate::lower::lower(nts, &tok.unwrap().conversions)
    }
}
"""

def mkgen(repo, dst):
    src = os.path.join(repo, "src")
    os.makedirs(os.path.join(dst, "src"), exist_ok=True)
    want = {}
    for root, _, files in os.walk(src):
        for f in files:
            if f.endswith(".rs"):
                p = os.path.join(root, f)
                want[os.path.relpath(p, src)] = open(p).read()
    lib = want["lib.rs"]
    lib = lib.replace("#[proc_macro]", "")
    lib = re.sub(r"\bproc_macro::", "proc_macro2::", lib)
    lib = re.sub(r"(syn::)?parse_macro_input!", "crate::pmi!", lib)
    pre = """#![allow(warnings)]
#[macro_export]
macro_rules! pmi {
    ($t:ident as $ty:ty) => { match syn::parse2::<$ty>($t) { Ok(x) => x, Err(e) => return e.to_compile_error().into() } };
    ($t:ident) => { match syn::parse2($t) { Ok(x) => x, Err(e) => return e.to_compile_error().into() } };
}
"""
    lib = re.sub(r"^((?:pub(?:\([a-z]+\))? )?)mod (lr1);", r"pub mod \2;", lib, flags=re.M)
    want["lib.rs"] = pre + lib + COMMON
    for name, (f, text) in PROBES.items():
        if f in want:
            want[f] += text
    for rel, text in want.items():
        p = os.path.join(dst, "src", rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p) or open(p).read() != text:
            open(p, "w").write(text)
    for root, _, files in os.walk(os.path.join(dst, "src")):
        for f in files:
            rel = os.path.relpath(os.path.join(root, f), os.path.join(dst, "src"))
            if rel not in want:
                os.remove(os.path.join(root, f))
    toml = """[package]
name = "gen"
version = "0.1.0"
edition = "2021"
[features]
""" + "".join("%s = []\n" % n for n in PROBES) + """[dependencies]
fxhash = { path = "%s" }
proc-macro2 = "1.0"
quote = "1.0"
syn = { version = "1.0", features = ["full", "derive", "parsing", "printing", "extra-traits"] }
""" % os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine/fxhash")
    p = os.path.join(dst, "Cargo.toml")
    if not os.path.exists(p) or open(p).read() != toml:
        open(p, "w").write(toml)

def stub(dst):
    """used when the generator cannot be built as a library: only the end-to-end sources are needed"""
    for root, _, files in os.walk(os.path.join(dst, "src")):
        for f in files:
            os.remove(os.path.join(root, f))
    open(os.path.join(dst, "src/lib.rs"), "w").write("pub fn parser(t: proc_macro2::TokenStream) -> proc_macro2::TokenStream { t }\n")

if __name__ == "__main__":
    mkgen(sys.argv[1], sys.argv[2])
