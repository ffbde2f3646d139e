//@ module source
//@ header
use vstd::prelude::*;
use vstd::pervasive::cloned;
use crate::prelude::*;
use crate::theory::*;
use crate::items::*;
use crate::automaton::*;
use crate::table::*;
use crate::parser::*;
use crate::sim::*;
use crate::term::*;
use crate::viable::*;
use crate::link::*;
use crate::eval::*;
use crate::exact::*;
use crate::emitted::*;
use crate::emission::*;
use crate::lower::*;
use crate::driver::{ParseError, driven};
use crate::grammar::*;
use crate::lr_common::StateIdx;
use crate::{ast, syn};
use crate::syn::EId;
//@ raw
// ------------------------------------------------------------------ the written grammar: language and values
// A tree's NonTerminalIdx is here the position of the non-terminal in the text. Visibility is not
// mentioned: which non-terminals are public does not change any language or value (C09).
pub type Nts = Seq<ast::NonTerminal>;
pub type Convs = Seq<ast::Conversion>;
/// s is a reference to x
pub open spec fn w_sym(nts: Nts, convs: Convs, s: ast::Symbol, x: Symbol) -> bool
    decreases s
{
    match s {
        ast::Symbol::Terminal(l) => x is Terminal && names_t(convs, l.text(), x->Terminal_0.0 as int),
        ast::Symbol::NonTerminal(n) => x is NonTerminal && names_nt(nts, syn::id_text(n.id()), x->NonTerminal_0.0 as int),
        ast::Symbol::Repeat(_) => false,
        ast::Symbol::NamedSymbol(_, y) => w_sym(nts, convs, *y, x),
    }
}
/// the variable for the symbol's value (b: the one seen so far)
pub open spec fn w_binder(s: ast::Symbol, b: Option<ast::Name>) -> Option<ast::Name>
    decreases s
{
    match s { ast::Symbol::NamedSymbol(n, y) => w_binder(*y, Some(n)), _ => b }
}
pub open spec fn w_env(ss: Seq<ast::Symbol>, args: Seq<Sar>, i: int) -> Env
    decreases ss.len() - i
{
    if i >= ss.len() || i < 0 { SMap::empty() }
    else {
        let env = w_env(ss, args, i + 1);
        match w_binder(ss[i], None) { None => env, Some(nm) => env.insert(nm.name, args[i]) }
    }
}
/// a parse tree
pub open spec fn w_tree(nts: Nts, convs: Convs, t: Tree) -> bool
    decreases t
{
    match t {
        Tree::Leaf(_, _) => true,
        Tree::Node(i, q, ch) => {
            &&& (i.0 as int) < nts.len() && (q.0 as int) < nts[i.0 as int].productions@.len()
            &&& ch.len() == nts[i.0 as int].productions@[q.0 as int].symbols@.len()
            &&& forall |j: int| 0 <= j < ch.len() ==> w_sym(nts, convs, nts[i.0 as int].productions@[q.0 as int].symbols@[j], root(#[trigger] ch[j])) && w_tree(nts, convs, ch[j])
        }
    }
}
/// C03: v is the value of the tree on the tokens w, evaluated bottom up
pub open spec fn w_val(nts: Nts, t: Tree, v: Sar, w: spec_fn(int) -> Tok) -> bool
    decreases t
{
    match t {
        Tree::Leaf(c, i) => tok_term(w(i)) == c && v == tok_val(w(i)),
        Tree::Node(i, q, ch) => {
            let p = nts[i.0 as int].productions@[q.0 as int];
            tag(v) is N && exists |args: Seq<Sar>| args.len() == ch.len() && #[trigger] expr_rel(p.action->Infallible_0, w_env(p.symbols@, args, 0), v)
                && forall |j: int| 0 <= j < ch.len() ==> w_val(nts, #[trigger] ch[j], args[j], w)
        }
    }
}
/// the position in the text, as a root
pub open spec fn w_root(i: int) -> Symbol { Symbol::NonTerminal(NonTerminalIdx(i as u32)) }
/// the language of the non-terminal written at i
pub open spec fn w_derives(nts: Nts, convs: Convs, i: int, w: Seq<TerminalIdx>) -> bool {
    exists |t: Tree| #[trigger] w_tree(nts, convs, t) && root(t) == w_root(i) && yld(t) == w
}
pub open spec fn w_goes_on(nts: Nts, convs: Convs, i: int, w: Seq<TerminalIdx>, u: Option<TerminalIdx>) -> bool {
    exists |v: Seq<TerminalIdx>| head(v) == u && #[trigger] w_derives(nts, convs, i, w + v)
}
/// the declared names of the terminals below k with which a sentence that begins with w goes on
pub open spec fn w_names_to(nts: Nts, convs: Convs, i: int, w: Seq<TerminalIdx>, k: nat) -> Seq<Seq<char>>
    decreases k
{
    if k == 0 { Seq::empty() }
    else {
        let r = w_names_to(nts, convs, i, w, (k - 1) as nat);
        if w_goes_on(nts, convs, i, w, Some(TerminalIdx((k - 1) as u32))) { r.push(convs[k - 1].from@) } else { r }
    }
}
/// every non-terminal derives something
pub open spec fn w_productive(nts: Nts, convs: Convs) -> bool {
    forall |i: int| 0 <= i < nts.len() ==> #[trigger] w_some(nts, convs, i)
}
pub open spec fn w_some(nts: Nts, convs: Convs, i: int) -> bool { exists |w: Seq<TerminalIdx>| #[trigger] w_derives(nts, convs, i, w) }
pub open spec fn w_sentence<E>(nts: Nts, convs: Convs, i: int, at: Inp<E>, n: int) -> bool {
    n >= 0 && toks_to(at, n) && at(n) is None && w_derives(nts, convs, i, terms(tk(at), n))
}
/// what a parser for the non-terminal written at i returns when it is given the iterator at and has asked for
/// the items 0..=k. sr: no shift-reduce choice was made for the grammar
pub open spec fn meets<R, E: Clone>(nts: Nts, convs: Convs, sr: bool, i: int, at: Inp<E>, k: int, r: Result<R, ParseError<E>>) -> bool {
    let w = tk(at);
    let ts = terms(w, k);
    &&& k >= 0
    &&& toks_to(at, k)
    &&& match r {
        // C01, C03, C09
        Ok(v) => at(k) is None && exists |t: Tree, x: Sar| #[trigger] w_tree(nts, convs, t) && root(t) == w_root(i) && yld(t) == ts
            && #[trigger] w_val(nts, t, x, w) && v == extract::<R>(tag(x)->N_0, x),
        // C06
        Err(ParseError::LexerError(e)) => at(k) is Some && at(k)->0 is Err && cloned(at(k)->0->Err_0, e),
        // C05
        Err(ParseError::ParserError { found, expected }) => {
            &&& at(k) is None || is_tok(at(k))
            &&& found@ == (match la_of(at(k)) { Some(t) => convs[t.0 as int].from@, None => eoi() })
            &&& sr ==> !w_goes_on(nts, convs, i, ts, la_of(at(k)))
            &&& w_productive(nts, convs) ==> exists |v: Seq<TerminalIdx>| #[trigger] w_derives(nts, convs, i, ts + v)
            &&& sr && w_productive(nts, convs) ==> expected@ == join(w_names_to(nts, convs, i, ts, convs.len()))
        }
    }
    // C02
    &&& sr && (exists |n: int| #[trigger] w_sentence(nts, convs, i, at, n)) ==> r is Ok
}

// ------------------------------------------------------------------ written and lowered trees
pub type Ren = spec_fn(NonTerminalIdx) -> NonTerminalIdx;
pub open spec fn ren(m: Ren, t: Tree) -> Tree
    decreases t
{
    match t { Tree::Leaf(_, _) => t, Tree::Node(n, q, ch) => Tree::Node(m(n), q, rens(m, ch)) }
}
pub open spec fn rens(m: Ren, f: Seq<Tree>) -> Seq<Tree>
    decreases f
{
    if f.len() == 0 { Seq::empty() } else { rens(m, f.drop_last()).push(ren(m, f.last())) }
}
pub proof fn lemma_rens(m: Ren, f: Seq<Tree>)
    ensures
        rens(m, f).len() == f.len(), forall |j: int| 0 <= j < f.len() ==> #[trigger] rens(m, f)[j] == ren(m, f[j]),
        ylds(rens(m, f)) == ylds(f),
    decreases f
{
    if f.len() > 0 {
        lemma_rens(m, f.drop_last());
        lemma_ren(m, f.last());
        let r = rens(m, f.drop_last());
        assert(r.push(ren(m, f.last())).drop_last() =~= r);
    }
}
pub proof fn lemma_ren(m: Ren, t: Tree)
    ensures yld(ren(m, t)) == yld(t)
    decreases t
{
    match t { Tree::Leaf(_, _) => {}, Tree::Node(n, q, ch) => { lemma_rens(m, ch); } }
}
/// the place of a written non-terminal, and back
pub open spec fn down(nts: Nts) -> Ren { |i: NonTerminalIdx| NonTerminalIdx(place(nts, i.0 as int) as u32) }
pub open spec fn at_place(nts: Nts, n: int, i: int) -> bool { 0 <= i < nts.len() && place(nts, i) == n }
pub open spec fn up(nts: Nts) -> Ren { |n: NonTerminalIdx| NonTerminalIdx((choose |i: int| at_place(nts, n.0 as int, i)) as u32) }
pub proof fn lemma_up(nts: Nts, i: int)
    requires 0 <= i < nts.len(), place(nts, nts.len() as int) < u32::MAX
    ensures up(nts)(NonTerminalIdx(place(nts, i) as u32)) == NonTerminalIdx(i as u32), i <= place(nts, i) < place(nts, nts.len() as int)
{
    lemma_place_mono(nts, i, nts.len() as int);
    lemma_place_bound(nts, i);
    let n = place(nts, i);
    assert(at_place(nts, n, i));
    let j = choose |j: int| at_place(nts, n, j);
    if j < i { lemma_place_mono(nts, j, i); }
    if i < j { lemma_place_mono(nts, i, j); }
}
pub proof fn lemma_sym(nts: Nts, convs: Convs, s: ast::Symbol, b0: Option<ast::Name>, b: BoundSymbol)
    requires sym_same(nts, convs, s, b0, b), place(nts, nts.len() as int) < u32::MAX
    ensures
        b.binder == w_binder(s, b0),
        b.symbol is Terminal ==> w_sym(nts, convs, s, b.symbol),
        b.symbol is NonTerminal ==> w_sym(nts, convs, s, Symbol::NonTerminal(up(nts)(b.symbol->NonTerminal_0)))
            && exists |i: int| 0 <= i < nts.len() && b.symbol->NonTerminal_0.0 as int == #[trigger] place(nts, i),
    decreases s
{
    match s {
        ast::Symbol::NamedSymbol(n, y) => { lemma_sym(nts, convs, *y, Some(n), b); }
        ast::Symbol::NonTerminal(n) => {
            let i = choose |i: int| names_nt(nts, syn::id_text(n.id()), i) && b.symbol->NonTerminal_0.0 as int == #[trigger] place(nts, i);
            lemma_up(nts, i);
            assert(0 <= i < nts.len() && b.symbol->NonTerminal_0.0 as int == place(nts, i));
        }
        _ => {}
    }
}
/// names are declared once: a reference determines what it refers to
pub proof fn lemma_sym_one(nts: Nts, convs: Convs, s: ast::Symbol, x: Symbol, y: Symbol)
    requires acceptable(nts, convs), w_sym(nts, convs, s, x), w_sym(nts, convs, s, y)
    ensures x == y
    decreases s
{
    reveal(acceptable);
    match s {
        ast::Symbol::NamedSymbol(_, z) => { lemma_sym_one(nts, convs, *z, x, y); }
        ast::Symbol::Terminal(l) => {
            let (a, b) = (x->Terminal_0.0 as int, y->Terminal_0.0 as int);
            assert(convs[a].from@ == convs[b].from@);
        }
        ast::Symbol::NonTerminal(n) => {
            let (a, b) = (x->NonTerminal_0.0 as int, y->NonTerminal_0.0 as int);
            assert(nt_name(nts[a]) == nt_name(nts[b]));
        }
        _ => {}
    }
}
/// a parse tree of the lowered grammar below a written non-terminal is one of the written grammar, with the same value
pub proof fn lemma_tree_up(nts: Nts, convs: Convs, g: Grammar<syn::Expr>, t: Tree)
    requires
        lowered(nts, convs, g), g.wf(), tree_ok(g.gv(), t),
        t is Node ==> exists |i: int| 0 <= i < nts.len() && t->Node_0.0 as int == #[trigger] place(nts, i),
    ensures
        w_tree(nts, convs, ren(up(nts), t)),
        root(ren(up(nts), t)) == (match root(t) { Symbol::NonTerminal(n) => Symbol::NonTerminal(up(nts)(n)), s => s }),
    decreases t
{
    match t {
        Tree::Leaf(_, _) => {}
        Tree::Node(n, q, ch) => {
            let i = choose |i: int| 0 <= i < nts.len() && n.0 as int == #[trigger] place(nts, i);
            lemma_up(nts, i);
            assert(nt_same(nts, convs, g.non_terminals@, i));
            let p = nts[i].productions@[q.0 as int];
            let r = g.non_terminals@[n.0 as int].productions@[q.0 as int];
            assert(prod_same(nts, convs, p, r));
            lemma_rens(up(nts), ch);
            let c2 = rens(up(nts), ch);
            assert(roots(ch) == g.gv().prods[n.0 as int][q.0 as int]);
            assert forall |j: int| 0 <= j < ch.len() implies w_sym(nts, convs, p.symbols@[j], root(#[trigger] c2[j])) && w_tree(nts, convs, c2[j]) by {
                assert(roots(ch)[j] == root(ch[j]));
                assert(sym_same(nts, convs, p.symbols@[j], None, r.symbols@[j]));
                lemma_sym(nts, convs, p.symbols@[j], None, r.symbols@[j]);
                lemma_tree_up(nts, convs, g, ch[j]);
            }
        }
    }
}
pub proof fn lemma_env(nts: Nts, convs: Convs, p: ast::Production, r: Production<syn::Expr>, args: Seq<Sar>, i: int)
    requires prod_same(nts, convs, p, r), place(nts, nts.len() as int) < u32::MAX, 0 <= i <= p.symbols@.len()
    ensures env_from(r.symbols@, args, i) == w_env(p.symbols@, args, i)
    decreases p.symbols@.len() - i
{
    if i < p.symbols@.len() {
        lemma_env(nts, convs, p, r, args, i + 1);
        assert(sym_same(nts, convs, p.symbols@[i], None, r.symbols@[i]));
        lemma_sym(nts, convs, p.symbols@[i], None, r.symbols@[i]);
    }
}
pub proof fn lemma_val_up(nts: Nts, convs: Convs, g: Grammar<syn::Expr>, m: Build, t: Tree, v: Sar, w: spec_fn(int) -> Tok)
    requires
        lowered(nts, convs, g), g.wf(), m.gram.gv() == g.gv(), tree_ok(g.gv(), t), ev(built(&g, m), t, v, w),
        t is Node ==> exists |i: int| 0 <= i < nts.len() && t->Node_0.0 as int == #[trigger] place(nts, i),
    ensures w_val(nts, ren(up(nts), t), v, w)
    decreases t
{
    let d = built(&g, m);
    match t {
        Tree::Leaf(_, _) => {}
        Tree::Node(n, q, ch) => {
            let i = choose |i: int| 0 <= i < nts.len() && n.0 as int == #[trigger] place(nts, i);
            lemma_up(nts, i);
            assert(nt_same(nts, convs, g.non_terminals@, i));
            let p = nts[i].productions@[q.0 as int];
            let r = g.non_terminals@[n.0 as int].productions@[q.0 as int];
            assert(prod_same(nts, convs, p, r));
            lemma_rens(up(nts), ch);
            let c2 = rens(up(nts), ch);
            assert(roots(ch) == g.gv().prods[n.0 as int][q.0 as int]);
            let args = choose |args: Seq<Sar>| args.len() == ch.len() && #[trigger] act_rel(d, n.0 as int, q.0 as int, args, v)
                && forall |i: int| 0 <= i < ch.len() ==> ev(d, #[trigger] ch[i], args[i], w);
            reveal(act_rel);
            lemma_env(nts, convs, p, r, args, 0);
            assert(expr_rel(p.action->Infallible_0, w_env(p.symbols@, args, 0), v));
            assert forall |j: int| 0 <= j < c2.len() implies w_val(nts, #[trigger] c2[j], args[j], w) by {
                assert(roots(ch)[j] == root(ch[j]));
                assert(sym_same(nts, convs, p.symbols@[j], None, r.symbols@[j]));
                lemma_sym(nts, convs, p.symbols@[j], None, r.symbols@[j]);
                assert(ev(d, ch[j], args[j], w));
                lemma_val_up(nts, convs, g, m, ch[j], args[j], w);
            }
        }
    }
}
/// and the other way round
pub proof fn lemma_tree_down(nts: Nts, convs: Convs, g: Grammar<syn::Expr>, t: Tree)
    requires lowered(nts, convs, g), g.wf(), w_tree(nts, convs, t)
    ensures
        tree_ok(g.gv(), ren(down(nts), t)),
        root(ren(down(nts), t)) == (match root(t) { Symbol::NonTerminal(n) => Symbol::NonTerminal(down(nts)(n)), s => s }),
    decreases t
{
    match t {
        Tree::Leaf(_, _) => {}
        Tree::Node(i0, q, ch) => {
            let i = i0.0 as int;
            let n = place(nts, i);
            lemma_up(nts, i);
            assert(nt_same(nts, convs, g.non_terminals@, i));
            let p = nts[i].productions@[q.0 as int];
            let r = g.non_terminals@[n].productions@[q.0 as int];
            assert(prod_same(nts, convs, p, r));
            lemma_rens(down(nts), ch);
            let c2 = rens(down(nts), ch);
            assert forall |j: int| 0 <= j < ch.len() implies root(#[trigger] c2[j]) == r.symbols@[j].symbol && tree_ok(g.gv(), c2[j]) by {
                let x = root(ch[j]);
                assert(w_sym(nts, convs, p.symbols@[j], x) && w_tree(nts, convs, ch[j]));
                lemma_tree_down(nts, convs, g, ch[j]);
                let b = r.symbols@[j];
                assert(sym_same(nts, convs, p.symbols@[j], None, b));
                lemma_sym(nts, convs, p.symbols@[j], None, b);
                match b.symbol {
                    Symbol::Terminal(_) => { lemma_sym_one(nts, convs, p.symbols@[j], x, b.symbol); }
                    Symbol::NonTerminal(k) => {
                        lemma_sym_one(nts, convs, p.symbols@[j], x, Symbol::NonTerminal(up(nts)(k)));
                        let i1 = choose |i: int| 0 <= i < nts.len() && k.0 as int == #[trigger] place(nts, i);
                        lemma_up(nts, i1);
                    }
                }
            }
            assert(roots(c2) =~= g.gv().prods[n][q.0 as int]);
            assert(g.gv().has(n, q.0 as int));
        }
    }
}
/// the two grammars have the same languages
pub proof fn lemma_language(nts: Nts, convs: Convs, g: Grammar<syn::Expr>, i: int, w: Seq<TerminalIdx>)
    requires lowered(nts, convs, g), g.wf(), 0 <= i < nts.len()
    ensures w_derives(nts, convs, i, w) <==> derives(g.gv(), NonTerminalIdx(place(nts, i) as u32), w)
{
    let n = NonTerminalIdx(place(nts, i) as u32);
    lemma_up(nts, i);
    if w_derives(nts, convs, i, w) {
        let t = choose |t: Tree| #[trigger] w_tree(nts, convs, t) && root(t) == w_root(i) && yld(t) == w;
        lemma_tree_down(nts, convs, g, t);
        lemma_ren(down(nts), t);
    }
    if derives(g.gv(), n, w) {
        let t = choose |t: Tree| #[trigger] tree_ok(g.gv(), t) && root(t) == Symbol::NonTerminal(n) && yld(t) == w;
        assert(t->Node_0.0 as int == place(nts, i));
        lemma_tree_up(nts, convs, g, t);
        lemma_ren(up(nts), t);
    }
}
/// n is the entry point of the non-terminal written at i
pub open spec fn entry_of(nts: Nts, n: NonTerminalIdx, i: int) -> bool {
    0 <= i < nts.len() && nts[i].visibility is Pub && n.0 as int == place(nts, i) + 1
}
pub proof fn lemma_entry_of(nts: Nts, convs: Convs, g: Grammar<syn::Expr>, n: NonTerminalIdx) -> (i: int)
    requires lowered(nts, convs, g), g.wf(), (n.0 as int) < g.gv().prods.len(), g.gv().public[n.0 as int]
    ensures
        entry_of(nts, n, i), entry_same(g.non_terminals@[n.0 as int], nts[i], place(nts, i)),
        entry_sym(g.gv(), n).0 as int == place(nts, i),
{
    let i = lemma_place_inv(nts, n.0 as int, nts.len() as int);
    assert(nt_same(nts, convs, g.non_terminals@, i));
    assert(g.gv().prods[n.0 as int] == g.non_terminals@[n.0 as int].prods());
    assert(g.gv().prods[n.0 as int][0] == g.non_terminals@[n.0 as int].productions@[0].syms());
    i
}
pub proof fn lemma_goes_on(nts: Nts, convs: Convs, g: Grammar<syn::Expr>, n: NonTerminalIdx, i: int, w: Seq<TerminalIdx>, u: Option<TerminalIdx>)
    requires lowered(nts, convs, g), g.wf(), 0 <= i < nts.len(), entry_sym(g.gv(), n).0 as int == place(nts, i)
    ensures w_goes_on(nts, convs, i, w, u) == goes_on(g.gv(), n, w, u)
{
    let e = entry_sym(g.gv(), n);
    assert(e == NonTerminalIdx(place(nts, i) as u32));
    if w_goes_on(nts, convs, i, w, u) {
        let v = choose |v: Seq<TerminalIdx>| head(v) == u && #[trigger] w_derives(nts, convs, i, w + v);
        lemma_language(nts, convs, g, i, w + v);
        assert(derives(g.gv(), e, w + v));
    }
    if goes_on(g.gv(), n, w, u) {
        let v = choose |v: Seq<TerminalIdx>| head(v) == u && #[trigger] derives(g.gv(), e, w + v);
        lemma_language(nts, convs, g, i, w + v);
        assert(w_derives(nts, convs, i, w + v));
    }
}
pub proof fn lemma_names_to(nts: Nts, convs: Convs, g: Grammar<syn::Expr>, m: Build, n: NonTerminalIdx, i: int, w: Seq<TerminalIdx>, k: nat)
    requires
        lowered(nts, convs, g), g.wf(), 0 <= i < nts.len(), m.gram.gv() == g.gv(), entry_sym(g.gv(), n).0 as int == place(nts, i), k <= convs.len(),
    ensures w_names_to(nts, convs, i, w, k) == names_to(built(&g, m), n, w, k)
    decreases k
{
    if k > 0 {
        lemma_names_to(nts, convs, g, m, n, i, w, (k - 1) as nat);
        lemma_goes_on(nts, convs, g, n, i, w, Some(TerminalIdx((k - 1) as u32)));
        assert(g.terminals@[k - 1]@ == convs[k - 1].from@);
    }
}
pub proof fn lemma_productive(nts: Nts, convs: Convs, g: Grammar<syn::Expr>)
    requires lowered(nts, convs, g), g.wf(), entries_ok(g.gv()), w_productive(nts, convs)
    ensures productive(g.gv())
{
    let v = g.gv();
    assert forall |s: Symbol| v.sym_ok(s) implies #[trigger] has_tree(v, s) by {
        match s {
            Symbol::Terminal(c) => { let t = Tree::Leaf(c, 0); assert(tree_ok(v, t) && root(t) == s); }
            Symbol::NonTerminal(n) => {
                let i = lemma_place_inv(nts, n.0 as int, nts.len() as int);
                assert(w_some(nts, convs, i));
                let w = choose |w: Seq<TerminalIdx>| #[trigger] w_derives(nts, convs, i, w);
                assert(w_derives(nts, convs, i, w));
                lemma_language(nts, convs, g, i, w);
                let k = NonTerminalIdx(place(nts, i) as u32);
                lemma_up(nts, i);
                let t = choose |t: Tree| #[trigger] tree_ok(v, t) && root(t) == Symbol::NonTerminal(k) && yld(t) == w;
                if n.0 as int == place(nts, i) {
                    assert(tree_ok(v, t) && root(t) == s);
                } else {
                    assert(nt_same(nts, convs, g.non_terminals@, i));
                    let j = lemma_entry_of(nts, convs, g, n);
                    assert(g.non_terminals@[n.0 as int].productions@[0].symbols@[0].symbol == Symbol::NonTerminal(k));
                    let ch = seq![t];
                    let t2 = Tree::Node(n, ProductionIdx(0), ch);
                    assert(roots(ch) =~= v.prods[n.0 as int][0]);
                    assert(v.has(n.0 as int, 0));
                    assert(tree_ok(v, t2) && root(t2) == s);
                }
            }
        }
    }
}
// ------------------------------------------------------------------ the entry point hands its value on
/// meaning of the expression `x`: what the variable holds
#[verifier::external_body]
pub proof fn axiom_var<R>(e: syn::Expr, x: syn::Ident, v: Sar, r: Sar)
    requires is_var(e, x.id()), expr_rel(e, SMap::empty().insert(x, v), r), tag(r) is N, tag(v) is N
    ensures extract::<R>(tag(r)->N_0, r) == extract::<R>(tag(v)->N_0, v)
{ unimplemented!() }

// ------------------------------------------------------------------ the whole
/// C01-C03, C05, C06, C09: what an emitted parser returns, in terms of the grammar as it is written
pub proof fn theorem_parser<R, E: Clone>(nts: Nts, g: Grammar<syn::Expr>, tokens: ast::TokenEnum, e: Emitted, m: Build, i: int, at: Inp<E>, k: int, r: Result<R, ParseError<E>>) -> (j: int)
    requires
        lowered(nts, tokens.conversions@, g), g.wf(), entries_ok(g.gv()), emitted_ok(&g, &tokens, e, m), 0 <= i < e.entries@.len(),
        // the driver's contract
        forall |n: NonTerminalIdx| #[trigger] entry_ok(&g, m, n, e.entries@[i]) ==> driven(built(&g, m), n, at, k, r),
    ensures
        0 <= j < nts.len(), nts[j].visibility is Pub,
        e.entries@[i].name.id() == EId::Text(nt_name(nts[j])), e.entries@[i].ret == nts[j].type_decl,
        meets(nts, tokens.conversions@, no_sr(machine(&m.gram, m.a, m.starts, m.t)), j, at, k, r),
{
//@ if det
    hide(crate::det::ordered); hide(crate::emitted::one_each); hide(crate::det::vns_det); hide(crate::det::numbered_to);
//@ endif
    let convs = tokens.conversions@;
    let d = built(&g, m);
    let v = g.gv();
    let n = lemma_entry(&g, &tokens, e, m, i);
    let j = lemma_entry_of(nts, convs, g, n);
    let w = tk(at);
    let ts = terms(w, k);
    let es = entry_sym(v, n);
    assert(es == NonTerminalIdx(place(nts, j) as u32));
    lemma_up(nts, j);
    if w_productive(nts, convs) { lemma_productive(nts, convs, g); }
    match r {
        Ok(val) => {
            let (t, x, y) = choose |t: Tree, x: Sar, y: Sar| #[trigger] tree_ok(v, t) && root(t) == Symbol::NonTerminal(es)
                && yld(t) == ts && #[trigger] ev(d, t, x, w) && #[trigger] act_rel(d, n.0 as int, 0, seq![x], y) && tag(y) == Tag::N((d.vn)(n.0 as int))
                && val == extract::<R>((d.vn)(n.0 as int), y);
            assert(t->Node_0.0 as int == place(nts, j));
            let t2 = ren(up(nts), t);
            lemma_tree_up(nts, convs, g, t);
            lemma_val_up(nts, convs, g, m, t, x, w);
            lemma_ren(up(nts), t);
            reveal(act_rel);
            let p = g.non_terminals@[n.0 as int].productions@[0];
            let b = p.symbols@[0].binder->0;
            let env = env_from(p.symbols@, seq![x], 0);
            assert(env_from(p.symbols@, seq![x], 1) == SMap::<syn::Ident, Sar>::empty());
            assert(env == SMap::<syn::Ident, Sar>::empty().insert(b.name, x));
            axiom_var::<R>(p.action, b.name, x, y);
            assert(w_tree(nts, convs, t2) && root(t2) == w_root(j) && yld(t2) == ts && w_val(nts, t2, x, w));
        }
        Err(ParseError::LexerError(_)) => {}
        Err(ParseError::ParserError { found, expected }) => {
            let la = la_of(at(k));
            lemma_goes_on(nts, convs, g, n, j, ts, la);
            if la is Some { let c = la->0; assert(g.terminals@[c.0 as int]@ == convs[c.0 as int].from@); }
            lemma_names_to(nts, convs, g, m, n, j, ts, convs.len());
            if w_productive(nts, convs) {
                let u = choose |u: Seq<TerminalIdx>| #[trigger] derives(v, es, ts + u);
                lemma_language(nts, convs, g, j, ts + u);
                assert(w_derives(nts, convs, j, ts + u));
            }
        }
    }
    if exists |l: int| #[trigger] w_sentence(nts, convs, j, at, l) {
        let l = choose |l: int| #[trigger] w_sentence(nts, convs, j, at, l);
        lemma_language(nts, convs, g, j, terms(w, l));
        assert(sentence(d, n, at, l));
    }
    j
}
/// C09: each public non-terminal, and no other one, has a parser
pub proof fn theorem_entries(nts: Nts, g: Grammar<syn::Expr>, tokens: ast::TokenEnum, e: Emitted, m: Build, j: int) -> (i: int)
    requires
        lowered(nts, tokens.conversions@, g), g.wf(), entries_ok(g.gv()), emitted_ok(&g, &tokens, e, m),
        0 <= j < nts.len(), nts[j].visibility is Pub,
    ensures 0 <= i < e.entries@.len(), e.entries@[i].name.id() == EId::Text(nt_name(nts[j])), e.entries@[i].ret == nts[j].type_decl
{
//@ if det
    hide(crate::det::ordered); hide(crate::emitted::one_each); hide(crate::det::vns_det); hide(crate::det::numbered_to);
//@ endif
    let convs = tokens.conversions@;
    assert(nt_same(nts, convs, g.non_terminals@, j));
    lemma_place_mono(nts, j, nts.len() as int);
    let n = NonTerminalIdx((place(nts, j) + 1) as u32);
    assert(g.gv().public[n.0 as int]);
    assert(m.starts.dom().contains(n));
    assert(has_entry(&g, m, n, e.entries@));
    choose |i: int| 0 <= i < e.entries@.len() && entry_ok(&g, m, n, #[trigger] e.entries@[i])
}
