//! The mechanical rewrite rules (see DESIGN.md, "What the extraction changes").
use crate::contract::FnContract;
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::BTreeSet;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Rewriter<'a> {
    pub fc: &'a FnContract,
    pub texts: Vec<String>,
    pub notes: Vec<String>,
    used: BTreeSet<usize>,
    n_loops: usize,
    n_panics: usize,
    /// (label, number)
    stack: Vec<(Option<String>, usize)>,
    owner: Option<String>,
    pub tmpl_count: usize,
    /// rewriting emitted code (the driver template)
    pub tmpl: bool,
    /// (template, meaning) of quote! and format!
    pub quotes: Vec<(String, String)>,
    bound: BTreeSet<String>,
    pub ret_ty: Option<Type>,
    /// a function on a parse buffer (a shared reference with interior mutability, here a mutable one)
    pbuf: bool,
    /// the parse buffers it makes of groups
    contents: BTreeSet<String>,
    /// the types with a `parse` under contract: `x.parse::<T>()` is `T::parse(x)`, as in syn
    pub parsers: BTreeSet<String>,
}

/// remove statements `let _ = <literal or path>;` and `();`
pub fn strip_noops(b: &mut Block) {
    struct S;
    impl VisitMut for S {
        fn visit_block_mut(&mut self, b: &mut Block) {
            b.stmts.retain(|s| match s {
                Stmt::Local(l) => {
                    !(matches!(l.pat, Pat::Wild(_))
                        && matches!(l.init.as_ref().map(|x| &*x.1), Some(Expr::Lit(_)) | Some(Expr::Path(_))))
                }
                Stmt::Semi(Expr::Tuple(t), _) => !t.elems.is_empty(),
                _ => true,
            });
            visit_mut::visit_block_mut(self, b);
        }
    }
    S.visit_block_mut(b);
}

pub fn rewrite_type(_t: &mut Type) {}

fn nospace<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

/// parameters of emitted functions: `impl Iterator<Item = Result<T, E>>` by value becomes
/// `&mut VInput<E>` (the caller keeps the iterator, so that what was pulled can be stated);
/// `fn(A) -> R` becomes `FnPtr<R>`
fn tmpl_param(t: &mut PatType) {
    let s = nospace(&t.ty);
    if s.starts_with("implIterator<Item=Result<") {
        if let Pat::Ident(p) = &mut *t.pat {
            p.mutability = None;
        }
        *t.ty = parse_quote!(&mut VInput<E>);
    } else if let Type::BareFn(f) = &*t.ty {
        if let ReturnType::Type(_, r) = &f.output {
            let r = r.clone();
            *t.ty = parse_quote!(FnPtr<#r>);
        }
    }
}
fn is_parse_buffer(t: &Type) -> bool {
    let s = nospace(t);
    let s = s.trim_end_matches("<'_>");
    let b = s.strip_prefix('&').map(|x| x.ends_with("ParseBuffer")).unwrap_or(false);
    b || s == "ParseStream" || s.ends_with("::ParseStream")
}

/// `parenthesized!(x in y)`, `braced!`, `bracketed!`
fn group_macro(m: &Macro) -> Option<(String, Ident, Expr)> {
    let n = m.path.segments.last()?.ident.to_string();
    if !matches!(n.as_str(), "parenthesized" | "braced" | "bracketed") {
        return None;
    }
    struct GM(Ident, Expr);
    impl parse::Parse for GM {
        fn parse(i: parse::ParseStream) -> Result<Self> {
            let a = i.parse()?;
            i.parse::<Token![in]>()?;
            Ok(GM(a, i.parse()?))
        }
    }
    let GM(a, e) = m.parse_body().ok()?;
    Some((n, a, e))
}

/// the parse buffers made of groups, `let x;` .. `parenthesized!(x in y)`: their declarations are removed
fn group_buffers(b: &mut Block) -> BTreeSet<String> {
    struct C(BTreeSet<String>);
    impl<'ast> Visit<'ast> for C {
        fn visit_macro(&mut self, m: &'ast Macro) {
            if let Some((_, i, _)) = group_macro(m) {
                self.0.insert(i.to_string());
            }
        }
    }
    let mut c = C(BTreeSet::new());
    c.visit_block(b);
    struct D<'x>(&'x BTreeSet<String>);
    impl<'x> VisitMut for D<'x> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            b.stmts.retain(|s| match s {
                Stmt::Local(l) if l.init.is_none() => !pat_idents(&l.pat).iter().any(|i| self.0.contains(i)),
                _ => true,
            });
            visit_mut::visit_block_mut(self, b);
        }
    }
    D(&c.0).visit_block_mut(b);
    c.0
}

/// every arm a string literal, but the last one
fn str_match(m: &ExprMatch) -> bool {
    let n = m.arms.len();
    n > 0
        && m.arms.iter().all(|a| a.guard.is_none())
        && m.arms[..n - 1].iter().all(|a| match &a.pat {
            Pat::Lit(l) => matches!(&*l.expr, Expr::Lit(ExprLit { lit: Lit::Str(_), .. })),
            _ => false,
        })
        && n > 1
        && match &m.arms[n - 1].pat {
            Pat::Wild(_) => true,
            Pat::Ident(i) => i.subpat.is_none(),
            _ => false,
        }
}
fn is_vstack(t: &Type) -> bool {
    let s = nospace(t);
    s == "Vec<SemanticActionResult<>>" || s == "Vec<SemanticActionResult>"
}

pub fn subst_self_item(sig: &mut Signature, item: &Type) {
    struct S<'a>(&'a Type);
    impl<'a> VisitMut for S<'a> {
        fn visit_type_mut(&mut self, t: &mut Type) {
            if t.to_token_stream().to_string().replace(' ', "") == "Self::Item" {
                *t = self.0.clone();
            } else {
                visit_mut::visit_type_mut(self, t);
            }
        }
    }
    if let ReturnType::Type(_, t) = &mut sig.output {
        S(item).visit_type_mut(t);
    }
}

fn parse_e(ts: TokenStream) -> Expr {
    match parse2::<Expr>(ts.clone()) {
        Ok(e) => e,
        Err(er) => panic!("weave: internal: cannot parse generated expr: {} in {}", er, ts),
    }
}

fn call_names(s: &Stmt) -> Vec<String> {
    struct C(Vec<String>);
    impl<'ast> Visit<'ast> for C {
        fn visit_block(&mut self, _: &'ast Block) {}
        fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
            self.0.push(m.method.to_string());
            visit::visit_expr_method_call(self, m);
        }
        fn visit_expr_call(&mut self, c: &'ast ExprCall) {
            if let Expr::Path(p) = &*c.func {
                self.0.push(p.path.segments.last().unwrap().ident.to_string());
            }
            visit::visit_expr_call(self, c);
        }
        fn visit_expr_match(&mut self, m: &'ast ExprMatch) {
            self.visit_expr(&m.expr);
        }
        fn visit_expr_for_loop(&mut self, m: &'ast ExprForLoop) {
            self.visit_expr(&m.expr);
        }
    }
    let mut c = C(vec![]);
    match s {
        Stmt::Local(l) => {
            if let Some((_, e)) = &l.init {
                c.visit_expr(e)
            }
        }
        Stmt::Expr(e) | Stmt::Semi(e, _) => c.visit_expr(e),
        _ => {}
    }
    c.0
}

fn pat_idents(p: &Pat) -> Vec<String> {
    struct C(Vec<String>);
    impl<'ast> Visit<'ast> for C {
        fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
            self.0.push(p.ident.to_string());
            visit::visit_pat_ident(self, p);
        }
    }
    let mut c = C(vec![]);
    c.visit_pat(p);
    c.0
}

fn has_break(b: &Block, label: &Option<String>) -> bool {
    struct C {
        depth: usize,
        label: Option<String>,
        found: bool,
    }
    impl<'ast> Visit<'ast> for C {
        fn visit_expr_break(&mut self, b: &'ast ExprBreak) {
            match &b.label {
                None => {
                    if self.depth == 0 {
                        self.found = true
                    }
                }
                Some(l) => {
                    if Some(l.ident.to_string()) == self.label {
                        self.found = true
                    }
                }
            }
        }
        fn visit_expr_for_loop(&mut self, e: &'ast ExprForLoop) {
            self.depth += 1;
            visit::visit_expr_for_loop(self, e);
            self.depth -= 1;
        }
        fn visit_expr_while(&mut self, e: &'ast ExprWhile) {
            self.depth += 1;
            visit::visit_expr_while(self, e);
            self.depth -= 1;
        }
        fn visit_expr_loop(&mut self, e: &'ast ExprLoop) {
            self.depth += 1;
            visit::visit_expr_loop(self, e);
            self.depth -= 1;
        }
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    }
    let mut c = C { depth: 0, label: label.clone(), found: false };
    c.visit_block(b);
    c.found
}

fn is_table(s: &str) -> bool {
    s.len() > 1 && s.chars().all(|c| c.is_ascii_uppercase() || c == '_' || c.is_ascii_digit())
}

const ITER_METHODS: &[&str] = &[
    "iter", "into_iter", "chars", "enumerate", "rev", "chain", "cloned", "filter", "zip", "v_iter", "v_into_iter",
    "non_terminal_indices", "terminal_indices", "production_indices", "non_terminal_production_indices",
    "state_indices", "items", "gotos", "into_pairs",
];

pub fn is_iter(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => is_iter(&p.expr),
        Expr::Range(_) => true,
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            ITER_METHODS.contains(&n.as_str()) || (n == "map" && is_iter(&m.receiver))
        }
        _ => false,
    }
}

impl<'a> Rewriter<'a> {
    pub fn new(fc: &'a FnContract, owner: Option<String>) -> Self {
        Rewriter {
            fc,
            texts: vec![],
            notes: vec![],
            used: BTreeSet::new(),
            n_loops: 0,
            n_panics: 0,
            stack: vec![],
            owner,
            tmpl_count: 0,
            tmpl: false,
            quotes: vec![],
            bound: BTreeSet::new(),
            ret_ty: None,
            pbuf: false,
            contents: BTreeSet::new(),
            parsers: BTreeSet::new(),
        }
    }

    pub fn expand(&self, s: &str) -> String {
        s.to_string()
    }

    pub fn lost(&self) -> Vec<String> {
        if self.fc.opts.iter().any(|o| o == "trusted") {
            return vec![];
        }
        self.fc
            .anchors
            .iter()
            .enumerate()
            .filter(|(i, _)| !self.used.contains(i))
            .map(|(_, a)| a.0.clone())
            .collect()
    }

    fn anchor(&mut self, key: &str) -> Option<String> {
        let mut r: Option<String> = None;
        for (i, (k, t)) in self.fc.anchors.iter().enumerate() {
            if k == key {
                self.used.insert(i);
                r.get_or_insert_with(String::new).push_str(t);
            }
        }
        r
    }

    fn text(&mut self, t: String) -> usize {
        self.texts.push(t);
        self.texts.len() - 1
    }

    fn mark_i(&mut self, t: String) -> TokenStream {
        let n = proc_macro2::Literal::usize_unsuffixed(self.text(t));
        quote!(__wvi!(#n);)
    }

    fn mark_s(&mut self, t: String) -> TokenStream {
        let n = proc_macro2::Literal::usize_unsuffixed(self.text(t));
        quote!(__wvs!(#n);)
    }

    fn anchor_i(&mut self, key: &str, n: usize) -> TokenStream {
        match self.anchor(key) {
            Some(t) => {
                let t = t
                    .replace("$it", &format!("__it_{}", n))
                    .replace("$sq", &format!("__sq_{}", n))
                    .replace("$out", &format!("__v_{}", n));
                self.mark_i(t)
            }
            None => quote!(),
        }
    }

    fn note(&mut self, s: String) {
        self.notes.push(s);
    }

    pub fn rewrite_sig(&mut self, sig: &mut Signature) {
        if let ReturnType::Type(_, t) = &sig.output {
            if !matches!(**t, Type::ImplTrait(_)) && self.fc.rettype.is_none() {
                self.ret_ty = Some((**t).clone());
            }
        }
        sig.inputs.iter_mut().for_each(|a| match a {
            FnArg::Receiver(r) => r.attrs.clear(),
            FnArg::Typed(t) => {
                t.attrs.clear();
                if is_parse_buffer(&t.ty) {
                    self.pbuf = true;
                    *t.ty = parse_quote!(&mut crate::syn::ParseBuffer);
                }
                if self.tmpl {
                    for i in pat_idents(&t.pat) {
                        self.bound.insert(i);
                    }
                    tmpl_param(t);
                }
            }
        });
    }

    pub fn rewrite_fn_block(&mut self, b: &mut Block) {
        if self.pbuf {
            self.contents = group_buffers(b);
        }
        if self.tmpl {
            struct C<'b>(&'b mut BTreeSet<String>);
            impl<'b, 'ast> Visit<'ast> for C<'b> {
                fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
                    self.0.insert(p.ident.to_string());
                    visit::visit_pat_ident(self, p);
                }
            }
            C(&mut self.bound).visit_block(b);
        }
        self.visit_block_mut(b);
        if let Some(t) = self.anchor("begin") {
            let m = self.mark_i(t);
            let mut st: Vec<Stmt> = parse2::<Block>(quote!({ #m })).unwrap().stmts;
            st.append(&mut b.stmts);
            b.stmts = st;
        }
        if let Some(t) = self.anchor("end") {
            if let Some(Stmt::Expr(_)) = b.stmts.last() {
                if let Some(Stmt::Expr(e)) = b.stmts.pop() {
                    let m = self.mark_i(t.replace("$ret", "__ret"));
                    let ty = match &self.ret_ty {
                        Some(t) => quote!(: #t),
                        None => quote!(),
                    };
                    let nb: Block = parse2(quote!({ let __ret #ty = #e; #m __ret })).unwrap();
                    b.stmts.extend(nb.stmts);
                }
            } else {
                let m = self.mark_i(t);
                let nb: Block = parse2(quote!({ #m })).unwrap();
                b.stmts.extend(nb.stmts);
            }
        }
    }

    fn loop_spec(&mut self, n: usize, auto: bool, auto_ensures: bool) -> TokenStream {
        let it = format!("__it_{}", n);
        let sq = format!("__sq_{}", n);
        let out = format!("__v_{}", n);
        let mut s = String::new();
        let sub = |t: String| t.replace("$it", &it).replace("$sq", &sq).replace("$out", &out);
        if let Some(t) = self.anchor(&format!("loop {} except_break", n)) {
            s.push_str("invariant_except_break\n");
            s.push_str(&sub(t));
        }
        let inv = self.anchor(&format!("loop {}", n));
        let custom = inv.as_ref().map(|t| t.contains("$custom")).unwrap_or(false);
        let auto = auto && !custom;
        if auto || inv.is_some() {
            s.push_str("invariant\n");
            if auto {
                s.push_str(&format!("  {it}.seq() == {sq}, 0 <= {it}.pos() <= {sq}.len(),\n"));
            }
            if let Some(t) = inv {
                s.push_str(&sub(t.replace("$custom", "")));
            }
        }
        let ens = self.anchor(&format!("loop {} ensures", n));
        if (auto && auto_ensures) || ens.is_some() {
            s.push_str("ensures\n");
            if auto && auto_ensures {
                s.push_str(&format!("  {it}.pos() == {sq}.len(),\n"));
            }
            if let Some(t) = ens {
                s.push_str(&sub(t));
            }
        }
        let dec = self.anchor(&format!("loop {} decreases", n));
        if let Some(t) = dec {
            s.push_str("decreases\n");
            s.push_str(&sub(t));
        } else if auto {
            s.push_str(&format!("decreases {sq}.len() - {it}.pos()\n"));
        }
        if s.is_empty() {
            quote!()
        } else {
            self.mark_s(s)
        }
    }

    /// `for PAT in E BODY`, or a materialised `.map` (then `push` wraps the body)
    fn build_loop(&mut self, n: usize, label: Option<Label>, pat: &Pat, header: Expr, body: TokenStream, brk: bool, pre: TokenStream) -> TokenStream {
        let it = quote::format_ident!("__it_{}", n);
        let before = self.anchor_i(&format!("loop {} before", n), n);
        let custom = self
            .fc
            .anchors
            .iter()
            .any(|(k, t)| k == &format!("loop {}", n) && t.contains("$custom"));
        let ghost = if custom {
            quote!()
        } else {
            self.mark_i(format!("let ghost __sq_{n} = __it_{n}.seq();"))
        };
        let start = self.anchor_i(&format!("loop {} start", n), n);
        let spec = self.loop_spec(n, true, !brk);
        let begin = self.anchor_i(&format!("loop {} begin", n), n);
        let end = self.anchor_i(&format!("loop {} end", n), n);
        let exit = self.anchor_i(&format!("loop {} exit", n), n);
        let after = self.anchor_i(&format!("loop {} after", n), n);
        quote!(
            #pre
            #before
            let mut #it = (#header).v_into_iter();
            #ghost
            #start
            #label loop {
                #spec
                match #it.next() {
                    None => { #exit break; }
                    Some(#pat) => { #begin #body #end }
                }
            }
            #after
        )
    }

    fn closure_parts(&mut self, f: &Expr) -> Option<(Pat, Expr)> {
        match f {
            Expr::Closure(c) => {
                if c.inputs.len() == 1 {
                    let p = match &c.inputs[0] {
                        Pat::Type(t) => (*t.pat).clone(),
                        p => p.clone(),
                    };
                    Some((p, (*c.body).clone()))
                } else {
                    None
                }
            }
            Expr::Path(p) => {
                let x: Pat = parse_quote!(__x);
                let b: Expr = parse_quote!(#p(__x));
                Some((x, b))
            }
            _ => None,
        }
    }

    fn panic_expr(&mut self, stmt: bool) -> Expr {
        let n = self.n_panics;
        self.n_panics += 1;
        let mut t = String::new();
        if let Some(x) = self.anchor("before panic") {
            t.push_str(&x);
        }
        if let Some(x) = self.anchor(&format!("before panic {}", n)) {
            t.push_str(&x);
        }
        let f = if self.fc.opts.iter().any(|o| o == "nopanic") {
            quote!(crate::prelude::abort_never)
        } else if self.fc.opts.iter().any(|o| o == "rejects") {
            quote!(crate::prelude::abort_reject)
        } else {
            quote!(crate::prelude::abort)
        };
        let c = if stmt { quote!(#f::<()>()) } else { quote!(#f()) };
        if t.is_empty() {
            parse_e(c)
        } else {
            let m = self.mark_i(t);
            parse_e(quote!({ #m #c }))
        }
    }

    fn macro_expr(&mut self, m: &Macro, stmt: bool) -> Option<Expr> {
        let n = m.path.segments.last().unwrap().ident.to_string();
        match n.as_str() {
            "panic" | "todo" | "unreachable" | "unimplemented" => Some(self.panic_expr(stmt)),
            "assert" | "debug_assert" => {
                let args: punctuated::Punctuated<Expr, Token![,]> =
                    m.parse_body_with(punctuated::Punctuated::parse_terminated).ok()?;
                let mut c = args[0].clone();
                self.visit_expr_mut(&mut c);
                let p = self.panic_expr(true);
                Some(parse_e(quote!(if !(#c) { #p; })))
            }
            "assert_eq" | "debug_assert_eq" => {
                let args: punctuated::Punctuated<Expr, Token![,]> =
                    m.parse_body_with(punctuated::Punctuated::parse_terminated).ok()?;
                let mut a = args[0].clone();
                let mut b = args[1].clone();
                self.visit_expr_mut(&mut a);
                self.visit_expr_mut(&mut b);
                let p = self.panic_expr(true);
                Some(parse_e(quote!(if !((#a) == (#b)) { #p; })))
            }
            // syn's macro: the parsed input, or return the error's tokens
            "parse_macro_input" => {
                struct PM(Ident, Type);
                impl parse::Parse for PM {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let a = i.parse()?;
                        i.parse::<Token![as]>()?;
                        Ok(PM(a, i.parse()?))
                    }
                }
                let PM(a, t) = m.parse_body().ok()?;
                Some(parse_e(quote!(match crate::syn::v_parse_input::<#t>(#a) {
                    Ok(__x) => __x,
                    Err(__e) => return crate::syn::v_compile_error(__e),
                })))
            }
            "matches" => {
                struct MA(Expr, Pat, Option<Expr>);
                impl parse::Parse for MA {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let e = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = i.parse()?;
                        let g = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Token![,]>();
                        Ok(MA(e, p, g))
                    }
                }
                let MA(mut e, p, g) = m.parse_body().ok()?;
                self.visit_expr_mut(&mut e);
                let g = g.map(|g| quote!(if #g));
                Some(parse_e(quote!(match #e { #p #g => true, _ => false })))
            }
            "vec" => {
                let args: punctuated::Punctuated<Expr, Token![,]> =
                    m.parse_body_with(punctuated::Punctuated::parse_terminated).ok()?;
                let mut out = vec![];
                for a in args {
                    let mut a = a;
                    self.visit_expr_mut(&mut a);
                    out.push(a);
                }
                if out.is_empty() {
                    Some(parse_e(quote!(Vec::new())))
                } else {
                    Some(parse_e(quote!(vec![#(#out),*])))
                }
            }
            "hashset" => {
                let args: punctuated::Punctuated<Expr, Token![,]> =
                    m.parse_body_with(punctuated::Punctuated::parse_terminated).ok()?;
                let args: Vec<Expr> = args.into_iter().collect();
                Some(parse_e(quote!({ let mut __s = crate::prelude::HSet::new(); #(__s.insert(#args);)* __s })))
            }
            "println" | "eprintln" => Some(parse_e(quote!({}))),
            "quote" | "format" => crate::tmpl::template(self, &n, m.tokens.clone()),
            _ => {
                self.note(format!("unsupported macro {}!", n));
                None
            }
        }
    }

    fn method(&mut self, m: &mut ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        match (name.as_str(), m.args.len()) {
            ("parse", 0) if self.pbuf => {
                let t = m.turbofish.as_ref()?.to_token_stream().to_string();
                let t = t.trim_start_matches("::").trim().trim_start_matches('<').trim_end_matches('>').trim().to_string();
                if let (true, Expr::Path(r)) = (self.parsers.contains(&t), &*m.receiver) {
                    let t = quote::format_ident!("{}", t);
                    let own = r.path.get_ident().map(|i| self.contents.contains(&i.to_string())).unwrap_or(false);
                    return Some(parse_e(if own { quote!(#t::parse(&mut #r)) } else { quote!(#t::parse(#r)) }));
                }
                None
            }
            // a peek's argument names a type
            ("peek", 1) if self.pbuf => {
                if let Expr::Path(p) = &m.args[0] {
                    let (r, p) = (&m.receiver, &p.path);
                    return Some(parse_e(quote!(#r.peek::<#p>())));
                }
                None
            }
            ("map", 1) if is_iter(&m.receiver) => {
                let n = self.n_loops;
                self.n_loops += 1;
                let (pat, mut body) = self.closure_parts(&m.args[0])?;
                let mut recv = (*m.receiver).clone();
                self.visit_expr_mut(&mut recv);
                self.stack.push((None, n));
                self.visit_expr_mut(&mut body);
                self.stack.pop();
                let v = quote::format_ident!("__v_{}", n);
                let vt = if let Some(t) = self.anchor(&format!("loop {} elem", n)) {
                    let t: TokenStream = t.parse().unwrap();
                    quote!(: Vec<#t>)
                } else {
                    quote!()
                };
                let l = self.build_loop(
                    n,
                    None,
                    &pat,
                    recv,
                    quote!(let __e = #body; #v.push(__e);),
                    false,
                    quote!(let mut #v #vt = Vec::new();),
                );
                Some(parse_e(quote!({ #l crate::prelude::VIter::from_vec(#v) })))
            }
            ("map", 1) => {
                let (pat, mut body) = self.closure_parts(&m.args[0])?;
                self.visit_expr_mut(&mut m.receiver);
                self.visit_expr_mut(&mut body);
                let r = &m.receiver;
                Some(parse_e(quote!(match #r { Some(#pat) => Some(#body), None => None })))
            }
            ("and_then", 1) => {
                let (pat, mut body) = self.closure_parts(&m.args[0])?;
                self.visit_expr_mut(&mut m.receiver);
                self.visit_expr_mut(&mut body);
                let r = &m.receiver;
                Some(parse_e(quote!(match #r { Some(#pat) => #body, None => None })))
            }
            ("copied", 0) | ("cloned", 0) if !is_iter(&m.receiver) => {
                self.visit_expr_mut(&mut m.receiver);
                let r = &m.receiver;
                Some(parse_e(quote!(match #r { Some(__x) => Some(*__x), None => None })))
            }
            ("unwrap_or_else", 1) => {
                let body = match &m.args[0] {
                    Expr::Closure(c) if c.inputs.is_empty() => (*c.body).clone(),
                    _ => return None,
                };
                let mut body = body;
                self.visit_expr_mut(&mut m.receiver);
                self.visit_expr_mut(&mut body);
                let r = &m.receiver;
                Some(parse_e(quote!(match #r { Some(__x) => __x, None => #body })))
            }
            ("unwrap", 0) | ("expect", 1) => {
                // integer conversions
                if let Expr::Call(c) = &mut *m.receiver {
                    if let Expr::Path(p) = &*c.func {
                        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                        if segs.len() == 2 && segs[1] == "try_from" {
                            let f = quote::format_ident!("try_{}", segs[0]);
                            let mut a = c.args[0].clone();
                            self.visit_expr_mut(&mut a);
                            return Some(parse_e(quote!(crate::prelude::#f(#a))));
                        }
                    }
                }
                self.visit_expr_mut(&mut m.receiver);
                let r = &m.receiver;
                if self.fc.opts.iter().any(|o| o == "nopanic") {
                    return Some(parse_e(quote!(#r.unwrap())));
                }
                let p = self.panic_expr(false);
                Some(parse_e(quote!(match #r { Some(__x) => __x, None => #p })))
            }
            ("or_default", 0) => {
                if let Expr::MethodCall(en) = &mut *m.receiver {
                    if en.method == "entry" && en.args.len() == 1 {
                        self.visit_expr_mut(&mut en.receiver);
                        self.visit_expr_mut(&mut en.args[0]);
                        let (r, k) = (&en.receiver, &en.args[0]);
                        return Some(parse_e(quote!(#r.entry_or_default(#k))));
                    }
                }
                None
            }
            ("iter", 0) => {
                self.visit_expr_mut(&mut m.receiver);
                let r = &m.receiver;
                Some(parse_e(quote!(#r.v_iter())))
            }
            ("into_iter", 0) => {
                self.visit_expr_mut(&mut m.receiver);
                let r = &m.receiver;
                Some(parse_e(quote!(#r.v_into_iter())))
            }
            ("chain", 1) => {
                self.visit_expr_mut(&mut m.receiver);
                self.visit_expr_mut(&mut m.args[0]);
                let (r, a) = (&m.receiver, &m.args[0]);
                Some(parse_e(quote!(#r.chain((#a).v_into_iter()))))
            }
            ("to_lowercase", 0) => {
                self.visit_expr_mut(&mut m.receiver);
                let r = &m.receiver;
                Some(parse_e(quote!(crate::prelude::v_lower(&#r))))
            }
            ("join", 1) => {
                self.visit_expr_mut(&mut m.receiver);
                let (r, a) = (&m.receiver, &m.args[0]);
                Some(parse_e(quote!(crate::prelude::v_join(&#r, #a))))
            }
            ("extend", 1) => {
                self.visit_expr_mut(&mut m.receiver);
                self.visit_expr_mut(&mut m.args[0]);
                let (r, a) = (&m.receiver, &m.args[0]);
                Some(parse_e(quote!(crate::prelude::vec_extend(&mut #r, #a))))
            }
            _ => None,
        }
    }
}

/// `let P = e else { .. };` as `let (xs) = match e { P => (xs), _ => { .. } };`
fn let_else(s: &Stmt) -> Option<Stmt> {
    struct LE(Pat, Expr, Block);
    impl parse::Parse for LE {
        fn parse(i: parse::ParseStream) -> Result<Self> {
            i.parse::<Token![let]>()?;
            let p = i.parse()?;
            i.parse::<Token![=]>()?;
            let e = i.parse()?;
            i.parse::<Token![else]>()?;
            let b = i.parse()?;
            let _ = i.parse::<Option<Token![;]>>();
            Ok(LE(p, e, b))
        }
    }
    let ts = match s {
        Stmt::Semi(Expr::Verbatim(t), _) | Stmt::Expr(Expr::Verbatim(t)) => t.clone(),
        _ => return None,
    };
    let LE(p, e, b) = parse2(ts).ok()?;
    struct V(Vec<(Ident, bool)>);
    impl<'ast> Visit<'ast> for V {
        fn visit_pat_ident(&mut self, i: &'ast PatIdent) {
            let n = i.ident.to_string();
            if n.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
                self.0.push((i.ident.clone(), i.mutability.is_some() && i.by_ref.is_none()));
            }
            visit::visit_pat_ident(self, i);
        }
    }
    let mut v = V(vec![]);
    v.visit_pat(&p);
    let xs: Vec<&Ident> = v.0.iter().map(|x| &x.0).collect();
    let bs = v.0.iter().map(|(x, m)| if *m { quote!(mut #x) } else { quote!(#x) });
    let st = if xs.len() == 1 {
        let b1 = bs.collect::<Vec<_>>();
        let b1 = &b1[0];
        let x = xs[0];
        quote!({ let #b1 = match #e { #p => #x, _ => #b }; })
    } else {
        quote!({ let (#(#bs),*) = match #e { #p => (#(#xs),*), _ => #b }; })
    };
    Some(parse2::<Block>(st).ok()?.stmts.remove(0))
}

impl<'a> VisitMut for Rewriter<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let mut out: Vec<Stmt> = vec![];
        let last = stmts.len().wrapping_sub(1);
        for (si, mut s) in stmts.into_iter().enumerate() {
            if let Some(x) = let_else(&s) {
                s = x;
            }
            let mut before = String::new();
            let mut after = String::new();
            for c in call_names(&s) {
                if let Some(t) = self.anchor(&format!("before call {}", c)) {
                    before.push_str(&t);
                }
                if let Some(t) = self.anchor(&format!("after call {}", c)) {
                    after.push_str(&t);
                }
            }
            if let Stmt::Local(l) = &s {
                for i in pat_idents(&l.pat) {
                    if let Some(t) = self.anchor(&format!("before let {}", i)) {
                        before.push_str(&t);
                    }
                    if let Some(t) = self.anchor(&format!("after let {}", i)) {
                        after.push_str(&t);
                    }
                }
            }
            if !before.is_empty() {
                let m = self.mark_i(before);
                out.extend(parse2::<Block>(quote!({ #m })).unwrap().stmts);
            }
            // statement-level macros that abort
            let mut done = false;
            if let (true, Stmt::Semi(Expr::Macro(ExprMacro { mac, .. }), _) | Stmt::Item(Item::Macro(ItemMacro { mac, .. }))) = (self.pbuf, &s) {
                if let Some((n, x, e)) = group_macro(mac) {
                    let f = quote::format_ident!("v_{}", n);
                    s = parse2::<Block>(quote!({ let mut #x = match #e.#f() { Ok(__x) => __x, Err(__e) => return Err(__e) }; }))
                        .unwrap()
                        .stmts
                        .remove(0);
                    done = true;
                }
            }
            if let Stmt::Semi(Expr::Macro(ExprMacro { mac, .. }), _) | Stmt::Item(Item::Macro(ItemMacro { mac, .. })) = &s {
                let mac = mac.clone();
                // a last statement that aborts is the block's value, of whatever type
                let n = mac.path.segments.last().unwrap().ident.to_string();
                let aborts = ["panic", "todo", "unreachable", "unimplemented"].contains(&n.as_str());
                let tail = si == last && aborts && after.is_empty();
                if let Some(e) = self.macro_expr(&mac, !tail) {
                    let q = if tail { quote!({ #e }) } else { quote!({ #e; }) };
                    s = parse2::<Block>(q).unwrap().stmts.remove(0);
                    done = true;
                }
            }
            if !done {
                self.visit_stmt_mut(&mut s);
            }
            if !after.is_empty() {
                let m = self.mark_i(after);
                let ms = parse2::<Block>(quote!({ #m })).unwrap().stmts;
                if let Stmt::Expr(e) = &s {
                    let nb: Block = parse2(quote!({ let __tail = #e; #m __tail })).unwrap();
                    out.extend(nb.stmts);
                } else {
                    out.push(s);
                    out.extend(ms);
                }
            } else {
                out.push(s);
            }
        }
        b.stmts = out;
    }

    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        let pi = if let Pat::Ident(pi) = &l.pat { Some(pi.clone()) } else { None };
        if let Some(pi) = pi {
            if let Some(t) = self.anchor(&format!("lettype {}", pi.ident)) {
                let ty: Type = parse_str(&t).unwrap();
                l.pat = Pat::Type(PatType { attrs: vec![], pat: Box::new(Pat::Ident(pi)), colon_token: Default::default(), ty: Box::new(ty) });
            }
        }
        if let Pat::Type(t) = &mut l.pat {
            if let Pat::Ident(pi) = &*t.pat {
                if let Some(x) = self.anchor(&format!("lettype {}", pi.ident)) {
                    *t.ty = parse_str(&x).unwrap();
                }
            }
        }
        if self.tmpl {
            if let Pat::Type(t) = &mut l.pat {
                if is_vstack(&t.ty) {
                    *t.ty = parse_quote!(VStack);
                    if let Some((_, e)) = &mut l.init {
                        let s = nospace(e);
                        let cap = s.strip_prefix("Vec::with_capacity(").and_then(|c| c.strip_suffix(")"));
                        if s == "vec![]" || s == "Vec::new()" || cap.map_or(false, |c| c.parse::<u16>().is_ok()) {
                            **e = parse_quote!(VStack::new());
                            return;
                        }
                    }
                }
            }
        }
        if let Some((_, e)) = &mut l.init {
            self.visit_expr_mut(e);
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                let n = self.n_loops;
                self.n_loops += 1;
                let mut header = (*f.expr).clone();
                let brk;
                let label = f.label.as_ref().map(|l| l.name.ident.to_string());
                brk = has_break(&f.body, &label);
                // `for (a, b) in x.iter().enumerate()` etc. need no special case
                self.visit_expr_mut(&mut header);
                self.stack.push((label, n));
                let mut body = f.body.clone();
                self.visit_block_mut(&mut body);
                self.stack.pop();
                let stmts = &body.stmts;
                // a tail expression of the body has type ()
                let body = if let Some(Stmt::Expr(_)) = stmts.last() { quote!({ #(#stmts)* }) } else { quote!(#(#stmts)*) };
                let l = self.build_loop(n, f.label.clone(), &f.pat.clone(), header, body, brk, quote!());
                *e = parse_e(quote!({ #l }));
            }
            Expr::While(w) => {
                let n = self.n_loops;
                self.n_loops += 1;
                self.visit_expr_mut(&mut w.cond);
                self.stack.push((w.label.as_ref().map(|l| l.name.ident.to_string()), n));
                self.visit_block_mut(&mut w.body);
                self.stack.pop();
                let before = self.anchor_i(&format!("loop {} before", n), n);
                let spec = self.loop_spec(n, false, false);
                let begin = self.anchor_i(&format!("loop {} begin", n), n);
                let end = self.anchor_i(&format!("loop {} end", n), n);
                let after = self.anchor_i(&format!("loop {} after", n), n);
                let stmts = &w.body.stmts;
                let (label, cond) = (&w.label, &w.cond);
                *e = parse_e(quote!({ #before #label while #cond { #spec #begin #(#stmts)* #end } #after }));
            }
            Expr::Loop(w) => {
                let n = self.n_loops;
                self.n_loops += 1;
                self.stack.push((w.label.as_ref().map(|l| l.name.ident.to_string()), n));
                self.visit_block_mut(&mut w.body);
                self.stack.pop();
                let before = self.anchor_i(&format!("loop {} before", n), n);
                let spec = self.loop_spec(n, false, false);
                let begin = self.anchor_i(&format!("loop {} begin", n), n);
                let end = self.anchor_i(&format!("loop {} end", n), n);
                let after = self.anchor_i(&format!("loop {} after", n), n);
                let stmts = &w.body.stmts;
                let label = &w.label;
                if before.is_empty() && after.is_empty() {
                    *e = parse_e(quote!(#label loop { #spec #begin #(#stmts)* #end }));
                } else {
                    *e = parse_e(quote!({ #before #label loop { #spec #begin #(#stmts)* #end } #after }));
                }
            }
            Expr::Continue(c) => {
                let lab = c.label.as_ref().map(|l| l.ident.to_string());
                let n = match &lab {
                    None => self.stack.last().map(|x| x.1),
                    Some(l) => self.stack.iter().rev().find(|x| x.0.as_ref() == Some(l)).map(|x| x.1),
                };
                if let Some(n) = n {
                    let end = self.anchor_i(&format!("loop {} end", n), n);
                    if !end.is_empty() {
                        *e = parse_e(quote!({ #end #c; }));
                    }
                }
            }
            Expr::AssignOp(a) => {
                self.visit_expr_mut(&mut a.right);
                if let BinOp::BitOrEq(_) = a.op {
                    let (l, r) = (&a.left, &a.right);
                    *e = parse_e(quote!({ let __t = #r; #l = #l || __t; }));
                } else {
                    self.visit_expr_mut(&mut a.left);
                }
            }
            Expr::Macro(m) => {
                let mac = m.mac.clone();
                if let Some(n) = self.macro_expr(&mac, false) {
                    *e = n;
                }
            }
            Expr::Try(t) if self.pbuf => {
                self.visit_expr_mut(&mut t.expr);
                let x = &t.expr;
                *e = parse_e(quote!(match #x { Ok(__x) => __x, Err(__e) => return Err(__e) }));
            }
            Expr::Reference(r) if r.mutability.is_none() && match &*r.expr {
                Expr::Path(p) => p.path.get_ident().map(|i| self.contents.contains(&i.to_string())).unwrap_or(false),
                _ => false,
            } => {
                r.mutability = Some(Default::default());
            }
            Expr::Match(m) if str_match(m) => {
                let mut x = (*m.expr).clone();
                self.visit_expr_mut(&mut x);
                let mut out = quote!();
                for a in m.arms.iter_mut().rev() {
                    self.visit_expr_mut(&mut a.body);
                    let (p, b) = (&a.pat, &a.body);
                    out = if let Pat::Lit(l) = p {
                        let l = &l.expr;
                        quote!(if crate::prelude::v_str_eq(__m, #l) { #b } else { #out })
                    } else {
                        quote!(let #p = __m; #b)
                    };
                }
                *e = parse_e(quote!({ let __m = #x; #out }));
            }
            Expr::Reference(r) => {
                if let Expr::Index(ix) = &*r.expr {
                    if let Expr::Range(rg) = &*ix.index {
                        if let (Some(from), None) = (&rg.from, &rg.to) {
                            let mut b = (*ix.expr).clone();
                            let mut f = (**from).clone();
                            self.visit_expr_mut(&mut b);
                            self.visit_expr_mut(&mut f);
                            *e = parse_e(quote!(crate::prelude::slice_from(#b, #f)));
                            return;
                        }
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Path(p) if self.tmpl && p.path.get_ident().map(|i| is_table(&i.to_string())).unwrap_or(false) => {
                let i = p.path.get_ident().unwrap().clone();
                *e = parse_e(quote!(#i()));
            }
            Expr::Call(c) => {
                if self.tmpl {
                    let mut f = (*c.func).clone();
                    while let Expr::Paren(p) = f {
                        f = *p.expr;
                    }
                    let indirect = match &f {
                        Expr::Index(_) => true,
                        Expr::Path(p) => p.path.get_ident().map(|i| self.bound.contains(&i.to_string())).unwrap_or(false),
                        _ => false,
                    };
                    if indirect {
                        self.visit_expr_mut(&mut f);
                        c.args.iter_mut().for_each(|a| self.visit_expr_mut(a));
                        let args = &c.args;
                        *e = parse_e(quote!(#f.call(#args)));
                        return;
                    }
                    let s = nospace(&c.func);
                    if matches!(s.as_str(), "::std::mem::replace" | "std::mem::replace" | "::core::mem::replace" | "core::mem::replace") {
                        c.args.iter_mut().for_each(|a| self.visit_expr_mut(a));
                        let args = &c.args;
                        *e = parse_e(quote!(crate::prelude::mem_replace(#args)));
                        return;
                    }
                }
                let s = c.func.to_token_stream().to_string().replace(' ', "");
                if s == "Default::default" {
                    *e = parse_e(quote!(VDefault::default()));
                    return;
                }
                if matches!(s.as_str(), "std::iter::once" | "::std::iter::once" | "iter::once") {
                    c.args.iter_mut().for_each(|a| self.visit_expr_mut(a));
                    let a = &c.args[0];
                    *e = parse_e(quote!(crate::prelude::v_once(#a)));
                    return;
                }
                if s == "usize::from" {
                    let mut a = c.args[0].clone();
                    self.visit_expr_mut(&mut a);
                    *e = parse_e(quote!(((#a) as usize)));
                    return;
                }
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::MethodCall(m) => {
                if let Some(n) = self.method(m) {
                    *e = n;
                } else {
                    visit_mut::visit_expr_mut(self, e);
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Add(_)) && matches!(&*b.right, Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) => {
                // String + "literal"
                self.visit_expr_mut(&mut b.left);
                let (l, r) = (&b.left, &b.right);
                *e = parse_e(quote!(crate::prelude::v_concat(#l, #r)));
            }
            Expr::Closure(_) => {
                self.note("unsupported closure".into());
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
