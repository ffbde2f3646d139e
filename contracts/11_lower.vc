//@ module lower file=lower.rs
//@ header
use vstd::prelude::*;
use crate::prelude::*;
use crate::theory::*;
use crate::automaton::entries_ok;
use crate::collections::Map;
use crate::grammar::*;
use crate::{ast, syn};
use crate::syn::Span;
//@ raw
// ------------------------------------------------------------------ what is written
pub open spec fn nt_name(n: ast::NonTerminal) -> Seq<char> { syn::id_text(n.name.id()) }
/// where the non-terminal written at i goes: a public one takes up two places, itself and its entry point
pub open spec fn place(nts: Seq<ast::NonTerminal>, i: int) -> int
    decreases i
{
    if i <= 0 { 0 } else { place(nts, i - 1) + (if nts[i - 1].visibility is Pub { 2int } else { 1 }) }
}
/// the non-terminal of that name is the i'th written one
pub open spec fn names_nt(nts: Seq<ast::NonTerminal>, s: Seq<char>, i: int) -> bool { 0 <= i < nts.len() && nt_name(nts[i]) == s }
pub open spec fn names_t(convs: Seq<ast::Conversion>, s: Seq<char>, t: int) -> bool { 0 <= t < convs.len() && convs[t].from@ == s }
pub open spec fn declared_nt(nts: Seq<ast::NonTerminal>, s: Seq<char>) -> bool { exists |i: int| names_nt(nts, s, i) }
pub open spec fn declared_t(convs: Seq<ast::Conversion>, s: Seq<char>) -> bool { exists |t: int| names_t(convs, s, t) }
/// a symbol that can be lowered: no repetition, and its name is declared
pub open spec fn sym_known(nts: Seq<ast::NonTerminal>, convs: Seq<ast::Conversion>, s: ast::Symbol) -> bool
    decreases s
{
    match s {
        ast::Symbol::Terminal(l) => declared_t(convs, l.text()),
        ast::Symbol::NonTerminal(n) => declared_nt(nts, syn::id_text(n.id())),
        ast::Symbol::Repeat(_) => false,
        ast::Symbol::NamedSymbol(_, b) => sym_known(nts, convs, *b),
    }
}
pub open spec fn prod_known(nts: Seq<ast::NonTerminal>, convs: Seq<ast::Conversion>, p: ast::Production) -> bool {
    &&& p.action is Infallible
    &&& forall |i: int| 0 <= i < p.symbols@.len() ==> sym_known(nts, convs, #[trigger] p.symbols@[i])
}
/// the grammars that are not rejected: names are declared once, every reference is to a declared name,
/// nothing that is not supported is used
#[verifier::opaque]
pub open spec fn acceptable(nts: Seq<ast::NonTerminal>, convs: Seq<ast::Conversion>) -> bool {
    &&& forall |i: int, j: int| 0 <= i < j < nts.len() ==> nt_name(#[trigger] nts[i]) != nt_name(#[trigger] nts[j])
    &&& forall |i: int, j: int| 0 <= i < j < convs.len() ==> (#[trigger] convs[i]).from@ != (#[trigger] convs[j]).from@
    &&& forall |i: int, q: int| 0 <= i < nts.len() && 0 <= q < nts[i].productions@.len() ==> prod_known(nts, convs, #[trigger] nts[i].productions@[q])
}
// ------------------------------------------------------------------ what comes out
/// a lowered symbol is the written one: same name, same binder (the innermost of nested ones)
pub open spec fn sym_same(nts: Seq<ast::NonTerminal>, convs: Seq<ast::Conversion>, s: ast::Symbol, binder: Option<ast::Name>, b: BoundSymbol) -> bool
    decreases s
{
    match s {
        ast::Symbol::Terminal(l) => b.binder == binder && b.symbol is Terminal && names_t(convs, l.text(), b.symbol->Terminal_0.0 as int),
        ast::Symbol::NonTerminal(n) => b.binder == binder && b.symbol is NonTerminal
            && exists |i: int| names_nt(nts, syn::id_text(n.id()), i) && b.symbol->NonTerminal_0.0 as int == #[trigger] place(nts, i),
        ast::Symbol::Repeat(_) => false,
        ast::Symbol::NamedSymbol(n, x) => sym_same(nts, convs, *x, Some(n), b),
    }
}
/// a lowered production is the written one: same symbols in the same order, same action
pub open spec fn prod_same(nts: Seq<ast::NonTerminal>, convs: Seq<ast::Conversion>, p: ast::Production, r: Production<syn::Expr>) -> bool {
    &&& p.action is Infallible && r.action == p.action->Infallible_0
    &&& r.symbols@.len() == p.symbols@.len()
    &&& forall |i: int| 0 <= i < p.symbols@.len() ==> sym_same(nts, convs, #[trigger] p.symbols@[i], None, r.symbols@[i])
}
/// the expression `x`
pub open spec fn is_var(e: syn::Expr, x: syn::EId) -> bool {
    &&& e is Path && e->Path_0.attrs@.len() == 0 && e->Path_0.qself is None && e->Path_0.path.leading_colon is None
    &&& e->Path_0.path.segments.items().len() == 1
    &&& e->Path_0.path.segments.items()[0].ident.id() == x
    &&& e->Path_0.path.segments.items()[0].arguments is None
}
/// the entry point of the non-terminal at k: `<x:K> => x`, private name's type
pub open spec fn entry_same(r: NonTerminal<syn::Expr>, n: ast::NonTerminal, k: int) -> bool {
    &&& r.public && r.non_terminal@ == nt_name(n) && r.return_ty == n.type_decl
    &&& r.productions@.len() == 1
    &&& r.productions@[0].symbols@.len() == 1
    &&& r.productions@[0].symbols@[0].symbol is NonTerminal
    &&& r.productions@[0].symbols@[0].symbol->NonTerminal_0.0 as int == k
    &&& r.productions@[0].symbols@[0].binder is Some
    &&& !r.productions@[0].symbols@[0].binder->0.mutable
    &&& is_var(r.productions@[0].action, r.productions@[0].symbols@[0].binder->0.name.id())
//@ if det
    &&& r.productions@[0].symbols@[0].binder->0.name.id() == syn::EId::Text("x"@)
//@ endif
}
pub open spec fn head_same(r: NonTerminal<syn::Expr>, n: ast::NonTerminal) -> bool {
    &&& !r.public && r.return_ty == n.type_decl
    &&& r.non_terminal@ == (if n.visibility is Pub { nt_name(n) + "1"@ } else { nt_name(n) })
}
pub open spec fn nt_same(nts: Seq<ast::NonTerminal>, convs: Seq<ast::Conversion>, g: Seq<NonTerminal<syn::Expr>>, i: int) -> bool {
    let k = place(nts, i);
    &&& head_same(g[k], nts[i])
    &&& g[k].productions@.len() == nts[i].productions@.len()
    &&& forall |q: int| 0 <= q < nts[i].productions@.len() ==> prod_same(nts, convs, #[trigger] nts[i].productions@[q], g[k].productions@[q])
    &&& nts[i].visibility is Pub ==> entry_same(g[k + 1], nts[i], k)
}
/// the lowered grammar is the written one
pub open spec fn lowered(nts: Seq<ast::NonTerminal>, convs: Seq<ast::Conversion>, g: Grammar<syn::Expr>) -> bool {
    &&& acceptable(nts, convs)
    &&& g.terminals@.len() == convs.len()
    &&& forall |t: int| 0 <= t < convs.len() ==> (#[trigger] g.terminals@[t])@ == convs[t].from@
    &&& g.non_terminals@.len() == place(nts, nts.len() as int)
    &&& forall |i: int| 0 <= i < nts.len() ==> #[trigger] nt_same(nts, convs, g.non_terminals@, i)
}
/// sizes for which no index wraps
#[verifier::opaque]
pub open spec fn sizes_ok(nts: Seq<ast::NonTerminal>, convs: Seq<ast::Conversion>) -> bool {
    &&& 2 * nts.len() < u32::MAX
    &&& convs.len() < u32::MAX
    &&& forall |i: int| 0 <= i < nts.len() ==> (#[trigger] nts[i]).productions@.len() < u32::MAX
    &&& forall |i: int, q: int| 0 <= i < nts.len() && 0 <= q < nts[i].productions@.len() ==> (#[trigger] nts[i].productions@[q]).symbols@.len() < usize::MAX
}
// ------------------------------------------------------------------ the maps from names to indices
#[verifier::opaque]
pub open spec fn t_map_ok(m: SMap<Seq<char>, TerminalIdx>, convs: Seq<ast::Conversion>, n: int) -> bool {
    &&& forall |s: Seq<char>| #[trigger] m.dom().contains(s) ==> (m[s].0 as int) < n && names_t(convs, s, m[s].0 as int)
    &&& forall |t: int| 0 <= t < n ==> m.dom().contains((#[trigger] convs[t]).from@) && m[convs[t].from@].0 as int == t
}
#[verifier::opaque]
pub open spec fn nt_map_ok(m: SMap<Seq<char>, NonTerminalIdx>, nts: Seq<ast::NonTerminal>, n: int) -> bool {
    &&& forall |s: Seq<char>| #[trigger] m.dom().contains(s) ==> exists |i: int| 0 <= i < n && names_nt(nts, s, i) && m[s].0 as int == #[trigger] place(nts, i)
    &&& forall |i: int| 0 <= i < n ==> m.dom().contains(nt_name(#[trigger] nts[i])) && m[nt_name(nts[i])].0 as int == place(nts, i)
}
pub proof fn lemma_place_bound(nts: Seq<ast::NonTerminal>, i: int)
    requires 0 <= i <= nts.len()
    ensures i <= place(nts, i) <= 2 * i
    decreases i
{ if i > 0 { lemma_place_bound(nts, i - 1); } }
pub proof fn lemma_place_mono(nts: Seq<ast::NonTerminal>, i: int, j: int)
    requires 0 <= i < j <= nts.len()
    ensures place(nts, i) + (if nts[i].visibility is Pub { 2int } else { 1 }) <= place(nts, j)
    decreases j
{ if i < j - 1 { lemma_place_mono(nts, i, j - 1); } }
/// the place k belongs to the written non-terminal i: itself, or its entry point
pub proof fn lemma_place_inv(nts: Seq<ast::NonTerminal>, k: int, n: int) -> (i: int)
    requires 0 <= k < place(nts, n), 0 <= n <= nts.len()
    ensures 0 <= i < n, k == place(nts, i) || (nts[i].visibility is Pub && k == place(nts, i) + 1)
    decreases n
{
    if k >= place(nts, n - 1) { n - 1 } else { lemma_place_inv(nts, k, n - 1) }
}
/// a lowered symbol refers to a declared terminal or to a written non-terminal (not an entry point)
pub proof fn lemma_sym_same(nts: Seq<ast::NonTerminal>, convs: Seq<ast::Conversion>, s: ast::Symbol, binder: Option<ast::Name>, b: BoundSymbol)
    requires sym_same(nts, convs, s, binder, b)
    ensures match b.symbol {
        Symbol::Terminal(t) => (t.0 as int) < convs.len(),
        Symbol::NonTerminal(k) => exists |i: int| 0 <= i < nts.len() && k.0 as int == #[trigger] place(nts, i),
    }
    decreases s
{
    match s {
        ast::Symbol::NamedSymbol(n, x) => { lemma_sym_same(nts, convs, *x, Some(n), b); }
        ast::Symbol::NonTerminal(n) => {
            let i = choose |i: int| names_nt(nts, syn::id_text(n.id()), i) && b.symbol->NonTerminal_0.0 as int == #[trigger] place(nts, i);
            assert(0 <= i < nts.len() && b.symbol->NonTerminal_0.0 as int == place(nts, i));
        }
        _ => {}
    }
}
/// what the automaton's construction asks of a grammar, lowering gives
pub proof fn lemma_lowered(nts: Seq<ast::NonTerminal>, convs: Seq<ast::Conversion>, g: Grammar<syn::Expr>)
    requires lowered(nts, convs, g), sizes_ok(nts, convs)
    ensures g.wf(), entries_ok(g.gv())
{
    reveal(sizes_ok);
    let v = g.gv();
    lemma_place_bound(nts, nts.len() as int);
    assert forall |n: int| 0 <= n < v.prods.len() implies (#[trigger] v.prods[n]).len() < u32::MAX by {
        let i = lemma_place_inv(nts, n, nts.len() as int);
        assert(nt_same(nts, convs, g.non_terminals@, i));
    }
    assert forall |n: int, p: int| #[trigger] v.has(n, p) implies v.prods[n][p].len() < usize::MAX by {
        let i = lemma_place_inv(nts, n, nts.len() as int);
        assert(nt_same(nts, convs, g.non_terminals@, i));
        if n == place(nts, i) { assert(prod_same(nts, convs, nts[i].productions@[p], g.non_terminals@[n].productions@[p])); }
    }
    assert forall |n: int, p: int, q: int| 0 <= n < v.prods.len() && 0 <= p < v.prods[n].len() && 0 <= q < v.prods[n][p].len()
        implies v.sym_ok(#[trigger] v.prods[n][p][q]) && (v.prods[n][p][q] is NonTerminal ==> !v.public[v.prods[n][p][q]->NonTerminal_0.0 as int]) by {
        lemma_lowered_sym(nts, convs, g, n, p, q);
    }
    assert forall |n: int| 0 <= n < v.prods.len() && #[trigger] v.public[n] implies v.prods[n].len() == 1 && v.prods[n][0].len() == 1
        && v.prods[n][0][0] is NonTerminal by {
        let i = lemma_place_inv(nts, n, nts.len() as int);
        assert(nt_same(nts, convs, g.non_terminals@, i));
    }
    assert forall |n: int, p: int, i: int| #[trigger] v.at(n, p, i) && v.prods[n][p][i] is NonTerminal
        implies !v.public[v.prods[n][p][i]->NonTerminal_0.0 as int] by { lemma_lowered_sym(nts, convs, g, n, p, i); }
}
pub proof fn lemma_lowered_sym(nts: Seq<ast::NonTerminal>, convs: Seq<ast::Conversion>, g: Grammar<syn::Expr>, n: int, p: int, q: int)
    requires lowered(nts, convs, g), sizes_ok(nts, convs), g.gv().at(n, p, q)
    ensures ({
        let v = g.gv();
        v.sym_ok(v.prods[n][p][q]) && (v.prods[n][p][q] is NonTerminal ==> !v.public[v.prods[n][p][q]->NonTerminal_0.0 as int])
    })
{
    reveal(sizes_ok);
    let v = g.gv();
    let i = lemma_place_inv(nts, n, nts.len() as int);
    lemma_place_bound(nts, nts.len() as int);
    assert(nt_same(nts, convs, g.non_terminals@, i));
    let b = g.non_terminals@[n].productions@[p].symbols@[q];
    assert(v.prods[n][p][q] == b.symbol);
    if n == place(nts, i) {
        let w = nts[i].productions@[p];
        assert(prod_same(nts, convs, w, g.non_terminals@[n].productions@[p]));
        assert(sym_same(nts, convs, w.symbols@[q], None, b));
        lemma_sym_same(nts, convs, w.symbols@[q], None, b);
        if b.symbol is NonTerminal {
            let j = choose |j: int| 0 <= j < nts.len() && b.symbol->NonTerminal_0.0 as int == #[trigger] place(nts, j);
            assert(nt_same(nts, convs, g.non_terminals@, j));
            lemma_place_mono(nts, j, nts.len() as int);
        }
    }
}
/// add_symbol's contract is stated over the maps from names to indices
pub open spec fn known_m(nm: SMap<Seq<char>, NonTerminalIdx>, tm: SMap<Seq<char>, TerminalIdx>, s: ast::Symbol) -> bool
    decreases s
{
    match s {
        ast::Symbol::Terminal(l) => tm.dom().contains(l.text()),
        ast::Symbol::NonTerminal(n) => nm.dom().contains(syn::id_text(n.id())),
        ast::Symbol::Repeat(_) => false,
        ast::Symbol::NamedSymbol(_, b) => known_m(nm, tm, *b),
    }
}
pub open spec fn same_m(nm: SMap<Seq<char>, NonTerminalIdx>, tm: SMap<Seq<char>, TerminalIdx>, s: ast::Symbol, binder: Option<ast::Name>, b: BoundSymbol) -> bool
    decreases s
{
    match s {
        ast::Symbol::Terminal(l) => b == (BoundSymbol { binder, symbol: Symbol::Terminal(tm[l.text()]) }),
        ast::Symbol::NonTerminal(n) => b == (BoundSymbol { binder, symbol: Symbol::NonTerminal(nm[syn::id_text(n.id())]) }),
        ast::Symbol::Repeat(_) => false,
        ast::Symbol::NamedSymbol(n, x) => same_m(nm, tm, *x, Some(n), b),
    }
}
pub proof fn lemma_known(nts: Seq<ast::NonTerminal>, convs: Seq<ast::Conversion>, nm: SMap<Seq<char>, NonTerminalIdx>, tm: SMap<Seq<char>, TerminalIdx>, s: ast::Symbol)
    requires nt_map_ok(nm, nts, nts.len() as int), t_map_ok(tm, convs, convs.len() as int)
    ensures known_m(nm, tm, s) == sym_known(nts, convs, s)
    decreases s
{
    reveal(t_map_ok); reveal(nt_map_ok); reveal(acceptable);
    match s {
        ast::Symbol::NamedSymbol(_, b) => { lemma_known(nts, convs, nm, tm, *b); }
        ast::Symbol::Terminal(l) => {
            if tm.dom().contains(l.text()) { assert(names_t(convs, l.text(), tm[l.text()].0 as int)); }
        }
        _ => {}
    }
}
pub proof fn lemma_same(nts: Seq<ast::NonTerminal>, convs: Seq<ast::Conversion>, nm: SMap<Seq<char>, NonTerminalIdx>, tm: SMap<Seq<char>, TerminalIdx>, s: ast::Symbol, binder: Option<ast::Name>, b: BoundSymbol)
    requires nt_map_ok(nm, nts, nts.len() as int), t_map_ok(tm, convs, convs.len() as int), known_m(nm, tm, s), same_m(nm, tm, s, binder, b)
    ensures sym_same(nts, convs, s, binder, b)
    decreases s
{
    reveal(t_map_ok); reveal(nt_map_ok);
    match s {
        ast::Symbol::NamedSymbol(n, x) => { lemma_same(nts, convs, nm, tm, *x, Some(n), b); }
        _ => {}
    }
}
/// the non-terminals before n are there, without productions, and their entry points
#[verifier::opaque]
pub open spec fn heads(nts: Seq<ast::NonTerminal>, g: Seq<NonTerminal<syn::Expr>>, n: int) -> bool {
    &&& g.len() == place(nts, n)
    &&& forall |i: int| 0 <= i < n ==> #[trigger] head_at(nts, g, i, 0)
}
pub open spec fn head_at(nts: Seq<ast::NonTerminal>, g: Seq<NonTerminal<syn::Expr>>, i: int, c: int) -> bool {
    let k = place(nts, i);
    &&& head_same(g[k], nts[i])
    &&& g[k].productions@.len() == c
    &&& nts[i].visibility is Pub ==> entry_same(g[k + 1], nts[i], k)
}
/// ... and the first c productions of i are
pub open spec fn part(nts: Seq<ast::NonTerminal>, convs: Seq<ast::Conversion>, g: Seq<NonTerminal<syn::Expr>>, i: int, c: int) -> bool {
    &&& head_at(nts, g, i, c)
    &&& forall |q: int| 0 <= q < c ==> prod_known(nts, convs, #[trigger] nts[i].productions@[q])
            && prod_same(nts, convs, nts[i].productions@[q], g[place(nts, i)].productions@[q])
}
pub open spec fn parts(nts: Seq<ast::NonTerminal>, convs: Seq<ast::Conversion>, g: Seq<NonTerminal<syn::Expr>>, n: int) -> bool {
    &&& g.len() == place(nts, nts.len() as int)
    &&& forall |i: int| 0 <= i < n ==> #[trigger] part(nts, convs, g, i, nts[i].productions@.len() as int)
    &&& forall |i: int| n <= i < nts.len() ==> #[trigger] head_at(nts, g, i, 0)
}
/// one more production of the non-terminal i0: everything else stays
pub proof fn lemma_part(nts: Seq<ast::NonTerminal>, convs: Seq<ast::Conversion>, g0: Seq<NonTerminal<syn::Expr>>, g1: Seq<NonTerminal<syn::Expr>>, i0: int, c: int)
    requires
        0 <= i0 < nts.len(), 0 <= c < nts[i0].productions@.len(),
        g0.len() == place(nts, nts.len() as int), g1.len() == g0.len(),
        forall |i: int| 0 <= i < i0 ==> #[trigger] part(nts, convs, g0, i, nts[i].productions@.len() as int),
        part(nts, convs, g0, i0, c),
        forall |i: int| i0 < i < nts.len() ==> #[trigger] head_at(nts, g0, i, 0),
        forall |k: int| 0 <= k < g0.len() && k != place(nts, i0) ==> #[trigger] g1[k] == g0[k],
        ({
            let (x, y) = (g0[place(nts, i0)], g1[place(nts, i0)]);
            &&& x.non_terminal == y.non_terminal && x.return_ty == y.return_ty && x.public == y.public
            &&& y.productions@.len() == c + 1 && y.productions@.drop_last() == x.productions@
            &&& prod_known(nts, convs, nts[i0].productions@[c])
            &&& prod_same(nts, convs, nts[i0].productions@[c], y.productions@.last())
        }),
    ensures
        forall |i: int| 0 <= i < i0 ==> #[trigger] part(nts, convs, g1, i, nts[i].productions@.len() as int),
        part(nts, convs, g1, i0, c + 1),
        forall |i: int| i0 < i < nts.len() ==> #[trigger] head_at(nts, g1, i, 0),
{
    assert forall |i: int| 0 <= i < nts.len() && i != i0 implies g1[#[trigger] place(nts, i)] == g0[place(nts, i)]
        && (nts[i].visibility is Pub ==> g1[place(nts, i) + 1] == g0[place(nts, i) + 1]) by {
        lemma_place_bound(nts, i);
        lemma_place_bound(nts, i0);
        lemma_place_mono(nts, i, nts.len() as int);
        if i < i0 { lemma_place_mono(nts, i, i0); } else { lemma_place_mono(nts, i0, i); }
    }
    lemma_place_bound(nts, i0);
    lemma_place_mono(nts, i0, nts.len() as int);
    assert forall |i: int| 0 <= i < i0 implies #[trigger] part(nts, convs, g1, i, nts[i].productions@.len() as int) by {
        assert(part(nts, convs, g0, i, nts[i].productions@.len() as int));
    }
    assert forall |i: int| i0 < i < nts.len() implies #[trigger] head_at(nts, g1, i, 0) by { assert(head_at(nts, g0, i, 0)); }
    let (x, y) = (g0[place(nts, i0)], g1[place(nts, i0)]);
    assert forall |q: int| 0 <= q < c + 1 implies prod_known(nts, convs, #[trigger] nts[i0].productions@[q])
        && prod_same(nts, convs, nts[i0].productions@[q], y.productions@[q]) by {
        if q < c {
            assert(y.productions@[q] == y.productions@.drop_last()[q]);
            assert(prod_known(nts, convs, nts[i0].productions@[q]));
        }
    }
}
#[verifier::opaque]
pub open spec fn t_distinct(convs: Seq<ast::Conversion>, n: int) -> bool {
    forall |i: int, j: int| 0 <= i < j < n ==> (#[trigger] convs[i]).from@ != (#[trigger] convs[j]).from@
}
#[verifier::opaque]
pub open spec fn nt_distinct(nts: Seq<ast::NonTerminal>, n: int) -> bool {
    forall |i: int, j: int| 0 <= i < j < n ==> nt_name(#[trigger] nts[i]) != nt_name(#[trigger] nts[j])
}
pub proof fn lemma_t_dup(nts: Seq<ast::NonTerminal>, convs: Seq<ast::Conversion>, m: SMap<Seq<char>, TerminalIdx>, t0: int)
    requires t_map_ok(m, convs, t0), 0 <= t0 < convs.len(), m.dom().contains(convs[t0].from@)
    ensures !acceptable(nts, convs)
{
    reveal(t_map_ok); reveal(acceptable);
    let t = m[convs[t0].from@].0 as int;
    assert(names_t(convs, convs[t0].from@, t));
    assert(convs[t].from@ == convs[t0].from@ && t < t0);
}
pub proof fn lemma_t_step(convs: Seq<ast::Conversion>, m: SMap<Seq<char>, TerminalIdx>, t0: int, x: TerminalIdx)
    requires t_map_ok(m, convs, t0), t_distinct(convs, t0), 0 <= t0 < convs.len(), !m.dom().contains(convs[t0].from@), x.0 as int == t0
    ensures t_map_ok(m.insert(convs[t0].from@, x), convs, t0 + 1), t_distinct(convs, t0 + 1)
{
    reveal(t_map_ok); reveal(t_distinct);
    let m1 = m.insert(convs[t0].from@, x);
    assert forall |s: Seq<char>| #[trigger] m1.dom().contains(s) implies (m1[s].0 as int) < t0 + 1 && names_t(convs, s, m1[s].0 as int) by {
        if s != convs[t0].from@ { assert(m.dom().contains(s)); }
    }
    assert forall |i: int, j: int| 0 <= i < j < t0 + 1 implies (#[trigger] convs[i]).from@ != (#[trigger] convs[j]).from@ by {
        if j == t0 { assert(m.dom().contains(convs[i].from@)); }
    }
    assert forall |t: int| 0 <= t < t0 + 1 implies m1.dom().contains((#[trigger] convs[t]).from@) && m1[convs[t].from@].0 as int == t by {
        if t < t0 { assert(convs[t].from@ != convs[t0].from@); }
    }
}
pub proof fn lemma_nt_dup(nts: Seq<ast::NonTerminal>, convs: Seq<ast::Conversion>, m: SMap<Seq<char>, NonTerminalIdx>, i0: int)
    requires nt_map_ok(m, nts, i0), 0 <= i0 < nts.len(), m.dom().contains(nt_name(nts[i0]))
    ensures !acceptable(nts, convs)
{
    reveal(nt_map_ok); reveal(acceptable);
    let i = choose |i: int| 0 <= i < i0 && names_nt(nts, nt_name(nts[i0]), i) && m[nt_name(nts[i0])].0 as int == #[trigger] place(nts, i);
    assert(nt_name(nts[i]) == nt_name(nts[i0]));
}
pub proof fn lemma_nt_step(nts: Seq<ast::NonTerminal>, m: SMap<Seq<char>, NonTerminalIdx>, i0: int, x: NonTerminalIdx)
    requires nt_map_ok(m, nts, i0), nt_distinct(nts, i0), 0 <= i0 < nts.len(), !m.dom().contains(nt_name(nts[i0])), x.0 as int == place(nts, i0)
    ensures nt_map_ok(m.insert(nt_name(nts[i0]), x), nts, i0 + 1), nt_distinct(nts, i0 + 1)
{
    reveal(nt_map_ok); reveal(nt_distinct);
    let nm = nt_name(nts[i0]);
    let m1 = m.insert(nm, x);
    assert forall |i: int, j: int| 0 <= i < j < i0 + 1 implies nt_name(#[trigger] nts[i]) != nt_name(#[trigger] nts[j]) by {
        if j == i0 { assert(m.dom().contains(nt_name(nts[i]))); }
    }
    assert forall |s: Seq<char>| #[trigger] m1.dom().contains(s) implies
        exists |i: int| 0 <= i < i0 + 1 && names_nt(nts, s, i) && m1[s].0 as int == #[trigger] place(nts, i) by {
        if s == nm { assert(names_nt(nts, s, i0) && m1[s].0 as int == place(nts, i0)); }
        else {
            assert(m.dom().contains(s));
            let i = choose |i: int| 0 <= i < i0 && names_nt(nts, s, i) && m[s].0 as int == #[trigger] place(nts, i);
            assert(0 <= i < i0 + 1 && names_nt(nts, s, i) && m1[s].0 as int == place(nts, i));
        }
    }
    assert forall |i: int| 0 <= i < i0 + 1 implies m1.dom().contains(nt_name(#[trigger] nts[i])) && m1[nt_name(nts[i])].0 as int == place(nts, i) by {
        if i < i0 { assert(nt_name(nts[i]) != nt_name(nts[i0])); }
    }
}
/// one more non-terminal (and its entry point)
pub proof fn lemma_heads_step(nts: Seq<ast::NonTerminal>, g0: Seq<NonTerminal<syn::Expr>>, g1: Seq<NonTerminal<syn::Expr>>, i0: int)
    requires
        heads(nts, g0, i0), 0 <= i0 < nts.len(),
        g1.len() == g0.len() + (if nts[i0].visibility is Pub { 2int } else { 1 }),
        forall |k: int| 0 <= k < g0.len() ==> #[trigger] g1[k] == g0[k],
        head_same(g1[g0.len() as int], nts[i0]),
        g1[g0.len() as int].productions@.len() == 0,
        nts[i0].visibility is Pub ==> entry_same(g1[g0.len() as int + 1], nts[i0], g0.len() as int),
    ensures heads(nts, g1, i0 + 1)
{
    reveal(heads);
    assert forall |i: int| 0 <= i < i0 + 1 implies #[trigger] head_at(nts, g1, i, 0) by {
        lemma_place_bound(nts, i);
        if i < i0 { lemma_place_mono(nts, i, i0); assert(head_at(nts, g0, i, 0)); }
    }
}
//@ fn lower ret=r rejects
    requires
        sizes_ok(non_terminals@, terminals@),
        !acceptable(non_terminals@, terminals@) ==> may_reject(),
    ensures
        lowered(non_terminals@, terminals@, r),
        r.wf(), entries_ok(r.gv()),
//@ begin
    let ghost nts = non_terminals@;
    let ghost convs = terminals@;
//@ before let nt_indices
    proof {
        assert(t_map_ok(SMap::empty(), convs, 0)) by { reveal(t_map_ok); }
        assert(nt_map_ok(SMap::empty(), nts, 0)) by { reveal(nt_map_ok); }
        assert(t_distinct(convs, 0)) by { reveal(t_distinct); }
        assert(nt_distinct(nts, 0)) by { reveal(nt_distinct); }
        assert(heads(nts, Seq::empty(), 0)) by { reveal(heads); }
        assert(2 * nts.len() < u32::MAX && convs.len() < u32::MAX) by { reveal(sizes_ok); }
        assert(grammar.non_terminals@ =~= Seq::empty());
    }
//@ loop 0
    grammar.non_terminals@ == Seq::<NonTerminal<syn::Expr>>::empty(),
    grammar.terminals@.len() == $it.pos(),
    forall |t: int| 0 <= t < $it.pos() ==> (#[trigger] grammar.terminals@[t])@ == convs[t].from@,
    t_map_ok(t_indices@, convs, $it.pos()),
    t_distinct(convs, $it.pos()),
//@ loop 0 begin
    let ghost t0 = $it.pos() - 1;
    let ghost m0 = t_indices@;
    proof {
        assert(*conv == convs[t0]);
        if m0.dom().contains(conv.from@) { lemma_t_dup(nts, convs, m0, t0); }
        else { lemma_t_step(convs, m0, t0, TerminalIdx(t0 as u32)); }
    }
//@ loop 1
    grammar.terminals@.len() == convs.len(),
    forall |t: int| 0 <= t < convs.len() ==> (#[trigger] grammar.terminals@[t])@ == convs[t].from@,
    grammar.non_terminals@.len() == place(nts, $it.pos()),
    heads(nts, grammar.non_terminals@, $it.pos()),
    nt_map_ok(nt_indices@, nts, $it.pos()),
    nt_distinct(nts, $it.pos()),
//@ loop 1 begin
    let ghost i0 = $it.pos() - 1;
    let ghost m0 = nt_indices@;
    let ghost g0 = grammar.non_terminals@;
    proof {
        lemma_place_bound(nts, i0);
        assert(*nt == nts[i0]);
        if m0.dom().contains(nt_name(*nt)) { lemma_nt_dup(nts, convs, m0, i0); }
        else { lemma_nt_step(nts, m0, i0, NonTerminalIdx(place(nts, i0) as u32)); }
    }
//@ loop 1 end
    proof { lemma_heads_step(nts, g0, grammar.non_terminals@, i0); }
//@ loop 1 after
    proof {
        assert(parts(nts, convs, grammar.non_terminals@, 0)) by { reveal(heads); }
    }
//@ loop 2
    grammar.terminals@.len() == convs.len(),
    forall |t: int| 0 <= t < convs.len() ==> (#[trigger] grammar.terminals@[t])@ == convs[t].from@,
    parts(nts, convs, grammar.non_terminals@, $it.pos()),
//@ loop 2 begin
    let ghost i0 = $it.pos() - 1;
    proof {
        lemma_place_bound(nts, i0);
        lemma_place_mono(nts, i0, nts.len() as int);
        assert(head_at(nts, grammar.non_terminals@, i0, 0));
        assert(nt_indices@.dom().contains(nt_name(nts[i0])) && nt_indices@[nt_name(nts[i0])].0 as int == place(nts, i0)) by { reveal(nt_map_ok); }
        assert(nts[i0].productions@.len() < u32::MAX) by { reveal(sizes_ok); }
    }
//@ loop 3
    grammar.terminals@.len() == convs.len(),
    forall |t: int| 0 <= t < convs.len() ==> (#[trigger] grammar.terminals@[t])@ == convs[t].from@,
    grammar.non_terminals@.len() == place(nts, nts.len() as int),
    forall |i: int| 0 <= i < i0 ==> #[trigger] part(nts, convs, grammar.non_terminals@, i, nts[i].productions@.len() as int),
    part(nts, convs, grammar.non_terminals@, i0, $it.pos()),
    forall |i: int| i0 < i < nts.len() ==> #[trigger] head_at(nts, grammar.non_terminals@, i, 0),
//@ loop 3 begin
    let ghost q0 = $it.pos() - 1;
    let ghost w = prod;
    let ghost g1 = grammar.non_terminals@;
    proof {
        assert(w == nts[i0].productions@[q0]);
        if !prod_known(nts, convs, w) { reveal(acceptable); assert(!acceptable(nts, convs)); }
    }
//@ loop 4
    symbols@.len() == $it.pos(),
    forall |j: int| 0 <= j < $it.pos() ==> sym_known(nts, convs, #[trigger] w.symbols@[j]) && sym_same(nts, convs, w.symbols@[j], None, symbols@[j]),
//@ loop 4 begin
    let ghost j0 = $it.pos() - 1;
    let ghost s0 = symbols@;
    let ghost y = sym;
    proof {
        assert(y == w.symbols@[j0]);
        lemma_known(nts, convs, nt_indices@, t_indices@, y);
        if !sym_known(nts, convs, y) { assert(!prod_known(nts, convs, w)); }
    }
//@ loop 4 end
    proof {
        lemma_known(nts, convs, nt_indices@, t_indices@, y);
        lemma_same(nts, convs, nt_indices@, t_indices@, y, None, symbols@.last());
        assert forall |j: int| 0 <= j < j0 + 1 implies sym_known(nts, convs, #[trigger] w.symbols@[j]) && sym_same(nts, convs, w.symbols@[j], None, symbols@[j]) by {
            if j < j0 { assert(symbols@[j] == symbols@.drop_last()[j]); assert(sym_known(nts, convs, w.symbols@[j])); }
        }
    }
//@ loop 3 end
    proof {
        assert(prod_known(nts, convs, w));
        assert(grammar.non_terminals@[place(nts, i0)].productions@.drop_last() =~= g1[place(nts, i0)].productions@);
        lemma_part(nts, convs, g1, grammar.non_terminals@, i0, q0);
    }
//@ end
    proof {
        reveal(acceptable); reveal(t_distinct); reveal(nt_distinct);
        assert forall |i: int, q: int| 0 <= i < nts.len() && 0 <= q < nts[i].productions@.len() implies prod_known(nts, convs, #[trigger] nts[i].productions@[q]) by {
            assert(part(nts, convs, grammar.non_terminals@, i, nts[i].productions@.len() as int));
        }
        assert forall |i: int| 0 <= i < nts.len() implies #[trigger] nt_same(nts, convs, grammar.non_terminals@, i) by {
            assert(part(nts, convs, grammar.non_terminals@, i, nts[i].productions@.len() as int));
        }
        lemma_lowered(nts, convs, grammar);
    }
//@ fn add_symbol rejects
    requires
        !known_m(nt_indices@, t_indices@, symbol) ==> may_reject(),
    ensures
        known_m(nt_indices@, t_indices@, symbol),
        final(symbols)@.len() == old(symbols)@.len() + 1,
        final(symbols)@.drop_last() == old(symbols)@,
        same_m(nt_indices@, t_indices@, symbol, binder, final(symbols)@.last()),
    decreases symbol,
