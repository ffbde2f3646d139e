//! Code that the generator emits from `quote!` templates.
//! `driver_file`: the items written inside the `quote!` templates of one function, as a Rust file:
//! interpolations named in the contract's `subst` directives are replaced by the given text, lists of
//! lifetimes and everything else interpolated are dropped.
use crate::rewrite::Rewriter;
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::BTreeMap;
use syn::visit::Visit;
use syn::Expr;

/// Denotation of a quoted template: the contract lists, for every `quote!` of the module, the template
/// text and what the code it stands for means (an expression over the interpolated variables `$x`).
/// A template that is not on the list is not understood (the function is then reported as not proved).
pub fn template(rw: &mut Rewriter, kind: &str, ts: TokenStream) -> Option<Expr> {
    if kind == "format" {
        return format(rw, ts);
    }
    let mut actual = vec![];
    crate::flat(ts, &mut actual);
    normal(&mut actual);
    for (pat, rhs) in rw.quotes.clone() {
        let mut p = vec![];
        match pat.parse::<TokenStream>() {
            Ok(t) => crate::flat(t, &mut p),
            Err(_) => panic!("weave: bad quote pattern {}", pat),
        }
        normal(&mut p);
        let mut b = BTreeMap::new();
        if unify(&p, &actual, &mut b) {
            let mut r = rhs.clone();
            let mut ks: Vec<_> = b.iter().collect();
            ks.sort_by_key(|(k, _)| std::cmp::Reverse(k.len()));
            for (k, v) in ks {
                r = r.replace(&format!("${}", k), v);
            }
            return Some(syn::parse_str(&r).unwrap_or_else(|e| panic!("weave: quote meaning {}: {}", r, e)));
        }
    }
    rw.notes.push("quoted template without a meaning".into());
    None
}

fn format(rw: &mut Rewriter, ts: TokenStream) -> Option<Expr> {
    use syn::parse::Parser;
    let p = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
    let args: Vec<Expr> = p.parse2(ts).ok()?.into_iter().collect();
    let lit = match args.first() {
        Some(Expr::Lit(l)) => quote::ToTokens::to_token_stream(l).to_string(),
        _ => return None,
    };
    let n = args.len() - 1;
    if n == 0 || n > 2 {
        rw.notes.push(format!("format!({}) without a meaning", lit));
        return None;
    }
    let f = quote::format_ident!("fmt{}", n);
    let mut rest = args[1..].to_vec();
    rest.iter_mut().for_each(|a| syn::visit_mut::VisitMut::visit_expr_mut(rw, a));
    let l = &args[0];
    syn::parse2(quote::quote!(crate::syn::#f(#l, #(#rest),*))).ok()
}

/// drops `let _ = <literal>;` and trailing commas in brackets and braces
fn normal(t: &mut Vec<String>) {
    let mut i = 0;
    while i < t.len() {
        if t[i] == "let" && i + 4 < t.len() && t[i + 1] == "_" && t[i + 2] == "=" && t[i + 4] == ";" {
            t.drain(i..i + 5);
            continue;
        }
        if t[i] == "," && i + 1 < t.len() && (t[i + 1] == "]" || t[i + 1] == "}") {
            t.remove(i);
            continue;
        }
        i += 1;
    }
}

/// `#x` in the pattern matches `#y` (consistently); `__skip` matches any run of tokens
fn unify(p: &[String], a: &[String], b: &mut BTreeMap<String, String>) -> bool {
    if p.is_empty() {
        return a.is_empty();
    }
    if p[0] == "__skip" {
        for k in 0..=a.len() {
            let mut c = b.clone();
            if unify(&p[1..], &a[k..], &mut c) {
                *b = c;
                return true;
            }
        }
        return false;
    }
    if a.is_empty() {
        return false;
    }
    if p[0] == "#" && a[0] == "#" && p.len() > 1 && a.len() > 1 && p[1] != "(" && a[1] != "(" {
        match b.get(&p[1]) {
            Some(v) if *v != a[1] => return false,
            _ => {
                b.insert(p[1].clone(), a[1].clone());
            }
        }
        return unify(&p[2..], &a[2..], b);
    }
    p[0] == a[0] && unify(&p[1..], &a[1..], b)
}

fn subst(ts: TokenStream, sub: &BTreeMap<String, String>, dropped: &mut Vec<String>) -> TokenStream {
    let tts: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < tts.len() {
        if let TokenTree::Punct(p) = &tts[i] {
            if p.as_char() == '#' {
                match tts.get(i + 1) {
                    Some(TokenTree::Ident(id)) => {
                        match sub.get(&id.to_string()) {
                            Some(t) => out.extend(t.parse::<TokenStream>().unwrap()),
                            None => dropped.push(format!("#{}", id)),
                        }
                        i += 2;
                        continue;
                    }
                    Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => {
                        let star = |k: usize| matches!(tts.get(k), Some(TokenTree::Punct(p)) if p.as_char() == '*');
                        let n = if star(i + 2) {
                            Some(3)
                        } else if star(i + 3) {
                            Some(4)
                        } else {
                            None
                        };
                        if let Some(n) = n {
                            dropped.push(format!("#({})", g.stream()));
                            i += n;
                            continue;
                        }
                    }
                    _ => {}
                }
            }
        }
        match &tts[i] {
            TokenTree::Group(g) => {
                let mut h = Group::new(g.delimiter(), subst(g.stream(), sub, dropped));
                h.set_span(g.span());
                out.push(TokenTree::Group(h));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}

pub fn driver_file(file: &syn::File, func: &str, sub: &BTreeMap<String, String>, dropped: &mut Vec<String>) -> Result<syn::File, String> {
    struct V(Vec<TokenStream>);
    impl<'ast> Visit<'ast> for V {
        fn visit_macro(&mut self, m: &'ast syn::Macro) {
            if m.path.segments.last().map(|s| s.ident == "quote").unwrap_or(false) {
                self.0.push(m.tokens.clone());
            }
        }
    }
    let mut v = V(vec![]);
    for it in &file.items {
        if let syn::Item::Fn(f) = it {
            let has = f.sig.ident == func || {
                let mut w = V(vec![]);
                w.visit_item_fn(f);
                w.0.iter().any(|t| t.to_string().contains("fn parse_generic"))
            };
            if has {
                v.visit_item_fn(f);
            }
        }
    }
    let mut items: Vec<syn::Item> = vec![];
    let mut errs = vec![];
    for t in v.0 {
        let s = subst(t, sub, dropped);
        let text = s.to_string();
        match syn::parse2::<syn::File>(s) {
            Ok(f) => items.extend(f.items),
            Err(e) => {
                if text.contains("fn parse_generic") {
                    errs.push(format!("driver template: {}", e));
                }
            }
        }
    }
    if let Some(e) = errs.pop() {
        return Err(e);
    }
    Ok(syn::File { shebang: None, attrs: vec![], items })
}
