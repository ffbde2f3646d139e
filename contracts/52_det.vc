//@ if det
//@ module det
//@ header
use vstd::prelude::*;
use vstd::pervasive::cloned;
use crate::prelude::*;
use crate::theory::*;
use crate::items::*;
use crate::automaton::*;
use crate::table::*;
use crate::parser::*;
use crate::link::*;
use crate::eval::*;
use crate::emitted::*;
use crate::lower::*;
use crate::grammar::*;
use crate::lr1::LR1Item;
use crate::lr_common::{StateIdx, LRAction, LRTable};
use crate::codegen::SemanticActionIdx;
use crate::{ast, syn};
use crate::ast::{Pattern, FieldPattern};
use crate::syn::EId;
use crate::macro_entry::{emits, nts_of, enums_of};
//@ raw
// C16. The contracts of the hash containers leave the order in which they are iterated open. A contract that
// fixes a function's result therefore holds only if no such order can influence it.
// ------------------------------------------------------------------ the numbers of the states
/// the place of a symbol in the order in which transitions are looked for
pub open spec fn sx(g: G, x: Symbol) -> int {
    match x { Symbol::NonTerminal(n) => n.0 as int, Symbol::Terminal(t) => g.prods.len() + t.0 }
}
/// how many of the first n non-terminals are public
pub open spec fn pubs(g: G, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { pubs(g, n - 1) + (if g.public[n - 1] { 1int } else { 0 }) }
}
/// the transition on y from a leads to a state before j
pub open spec fn before(g: G, items: Seq<Items>, a: int, y: Symbol, j: int) -> bool { exists |b: int| 0 <= b < j && #[trigger] trans(g, items, a, y, b) }
pub open spec fn earlier(g: G, a: int, y: Symbol, i: int, x: Symbol) -> bool { a < i || (a == i && sx(g, y) < sx(g, x)) }
/// j is the state found first by the transition on x from i
pub open spec fn disc(g: G, items: Seq<Items>, i: int, x: Symbol, j: int) -> bool {
    &&& 0 <= i < j && trans(g, items, i, x, j)
    &&& forall |a: int, y: Symbol| 0 <= a && #[trigger] earlier(g, a, y, i, x) && #[trigger] has_next(g, items[a], y) ==> before(g, items, a, y, j)
}
pub open spec fn has_disc(g: G, items: Seq<Items>, j: int) -> bool { exists |i: int, x: Symbol| #[trigger] disc(g, items, i, x, j) }
/// the states are numbered: first the start states, in the order of their non-terminals, then the others, in the order in
/// which they are found by going through the states and, for each, through the symbols in the order of their declarations
pub open spec fn ordered(g: G, items: Seq<Items>, starts: SMap<NonTerminalIdx, StateIdx>) -> bool {
    &&& pubs(g, g.prods.len() as int) <= items.len()
    &&& forall |n: NonTerminalIdx| #[trigger] starts.dom().contains(n) ==> starts[n].0 == pubs(g, n.0 as int)
    &&& forall |j: int| pubs(g, g.prods.len() as int) <= j < items.len() ==> #[trigger] has_disc(g, items, j)
}
pub proof fn lemma_pubs_mono(g: G, n: int, m: int)
    requires 0 <= n <= m
    ensures 0 <= pubs(g, n) <= pubs(g, m)
    decreases m
{
    if n < m { lemma_pubs_mono(g, n, m - 1); } else if n > 0 { lemma_pubs_mono(g, n - 1, n - 1); }
}
pub proof fn lemma_pubs_at(g: G, j: int, n: int) -> (m: int)
    requires 0 <= j < pubs(g, n)
    ensures 0 <= m < n, g.public[m], pubs(g, m) == j
    decreases n
{
    if n <= 0 { 0 } else if j < pubs(g, n - 1) { lemma_pubs_at(g, j, n - 1) } else { n - 1 }
}
pub proof fn lemma_disc_mono(g: G, items: Seq<Items>, gs: Items, j: int)
    requires has_disc(g, items, j), j < items.len()
    ensures has_disc(g, items.push(gs), j)
{
    let (i, x) = choose |i: int, x: Symbol| #[trigger] disc(g, items, i, x, j);
    let it2 = items.push(gs);
    assert(it2[i] == items[i] && it2[j] == items[j]);
    assert(trans(g, it2, i, x, j));
    assert forall |a: int, y: Symbol| 0 <= a && #[trigger] earlier(g, a, y, i, x) && #[trigger] has_next(g, it2[a], y) implies before(g, it2, a, y, j) by {
        assert(it2[a] == items[a]);
        assert(has_next(g, items[a], y));
        let b = choose |b: int| 0 <= b < j && #[trigger] trans(g, items, a, y, b);
        assert(it2[b] == items[b]);
        assert(trans(g, it2, a, y, b));
    }
    assert(disc(g, it2, i, x, j));
}
pub proof fn lemma_ordered_push(g: G, items: Seq<Items>, starts: SMap<NonTerminalIdx, StateIdx>, i: int, x: Symbol, gs: Items)
    requires
        ordered(g, items, starts), 0 <= i < items.len(), has_next(g, items[i], x), is_clo(g, kernel_of(g, items[i], x), gs),
        forall |a: int, y: Symbol| 0 <= a && #[trigger] earlier(g, a, y, i, x) && #[trigger] has_next(g, items[a], y) ==> before(g, items, a, y, items.len() as int),
    ensures ordered(g, items.push(gs), starts)
{
    let it2 = items.push(gs);
    let j = items.len() as int;
    assert(it2[i] == items[i] && it2[j] == gs);
    assert(trans(g, it2, i, x, j));
    assert forall |a: int, y: Symbol| 0 <= a && #[trigger] earlier(g, a, y, i, x) && #[trigger] has_next(g, it2[a], y) implies before(g, it2, a, y, j) by {
        assert(it2[a] == items[a]);
        assert(has_next(g, items[a], y));
        let b = choose |b: int| 0 <= b < j && #[trigger] trans(g, items, a, y, b);
        assert(it2[b] == items[b]);
        assert(trans(g, it2, a, y, b));
    }
    assert(disc(g, it2, i, x, j));
    assert forall |k: int| pubs(g, g.prods.len() as int) <= k < it2.len() implies #[trigger] has_disc(g, it2, k) by {
        if k < j { assert(has_disc(g, items, k)); lemma_disc_mono(g, items, gs, k); }
    }
}
/// the first j states being the same, so is the next one
pub proof fn lemma_next_state(g: G, a: Aut, sa: SMap<NonTerminalIdx, StateIdx>, b: Aut, sb: SMap<NonTerminalIdx, StateIdx>, j: int)
    requires
        g.wf(), aut_exact(g, a, sa), aut_exact(g, b, sb), ordered(g, a.items, sa), ordered(g, b.items, sb),
        0 <= j < a.items.len(), j <= b.items.len(), a.items.take(j) == b.items.take(j),
    ensures j < b.items.len(), a.items[j] == b.items[j],
{
    let s = pubs(g, g.prods.len() as int);
    assert forall |k: int| 0 <= k < j implies a.items[k] == b.items[k] by { assert(a.items.take(j)[k] == b.items.take(j)[k]); }
    if j < s {
        let m = lemma_pubs_at(g, j, g.prods.len() as int);
        let n = NonTerminalIdx(m as u32);
        assert(n.0 as int == m);
        assert(sa.dom().contains(n) && sb.dom().contains(n));
        assert(start_ok(g, sa, a.items, n) && start_ok(g, sb, b.items, n));
        lemma_clo_unique(g, start_kernel(m), a.items[j], b.items[j]);
    } else {
        assert(has_disc(g, a.items, j));
        let (i, x) = choose |i: int, x: Symbol| #[trigger] disc(g, a.items, i, x, j);
        if j == b.items.len() {
            assert(has_next(g, b.items[i], x));
            assert(b.goto[i].dom().contains(x));
            let k = b.goto[i][x].0 as int;
            assert(trans(g, b.items, i, x, k));
            lemma_clo_unique(g, kernel_of(g, a.items[i], x), a.items[j], b.items[k]);
            assert(a.items[k] == a.items[j]);
        } else {
            assert(has_disc(g, b.items, j));
            let (h, y) = choose |h: int, y: Symbol| #[trigger] disc(g, b.items, h, y, j);
            if earlier(g, i, x, h, y) { lemma_not_earlier(g, a, sa, b, sb, j, i, x, h, y); }
            else if earlier(g, h, y, i, x) { lemma_not_earlier(g, b, sb, a, sa, j, h, y, i, x); }
            else {
                assert(i == h && sx(g, x) == sx(g, y));
                lemma_sx(g, a.items[i], x);
                lemma_sx(g, a.items[i], y);
                assert(x == y);
                lemma_clo_unique(g, kernel_of(g, a.items[i], x), a.items[j], b.items[j]);
            }
        }
    }
}
pub proof fn lemma_sx(g: G, s: Items, x: Symbol)
    requires g.wf(), items_ok(g, s), has_next(g, s, x)
    ensures match x { Symbol::NonTerminal(n) => sx(g, x) < g.prods.len(), Symbol::Terminal(_) => sx(g, x) >= g.prods.len() }
{
    let a = choose |a: LR1Item| #[trigger] s.contains(a) && it_next(g, a) == Some(x);
    assert(item_ok(g, a));
    assert(g.sym_ok(g.prods[a.n()][a.p()][a.c()]));
}
proof fn lemma_not_earlier(g: G, a: Aut, sa: SMap<NonTerminalIdx, StateIdx>, b: Aut, sb: SMap<NonTerminalIdx, StateIdx>, j: int, i: int, x: Symbol, h: int, y: Symbol)
    requires
        g.wf(), aut_exact(g, a, sa), aut_exact(g, b, sb),
        0 <= j < a.items.len(), j < b.items.len(), forall |k: int| 0 <= k < j ==> a.items[k] == b.items[k],
        disc(g, a.items, i, x, j), disc(g, b.items, h, y, j), earlier(g, i, x, h, y),
    ensures false
{
    assert(a.items[i] == b.items[i]);
    assert(has_next(g, b.items[i], x));
    assert(before(g, b.items, i, x, j));
    let k = choose |k: int| 0 <= k < j && #[trigger] trans(g, b.items, i, x, k);
    lemma_clo_unique(g, kernel_of(g, a.items[i], x), a.items[j], b.items[k]);
    assert(a.items[k] == a.items[j]);
}
pub proof fn lemma_prefix_same(g: G, a: Aut, sa: SMap<NonTerminalIdx, StateIdx>, b: Aut, sb: SMap<NonTerminalIdx, StateIdx>, j: int)
    requires
        g.wf(), aut_exact(g, a, sa), aut_exact(g, b, sb), ordered(g, a.items, sa), ordered(g, b.items, sb),
        0 <= j <= a.items.len(),
    ensures j <= b.items.len(), a.items.take(j) == b.items.take(j),
    decreases j
{
    if j > 0 {
        lemma_prefix_same(g, a, sa, b, sb, j - 1);
        lemma_next_state(g, a, sa, b, sb, j - 1);
        assert(a.items.take(j) =~= a.items.take(j - 1).push(a.items[j - 1]));
        assert(b.items.take(j) =~= b.items.take(j - 1).push(b.items[j - 1]));
    } else { assert(a.items.take(0) =~= b.items.take(0)); }
}
/// a grammar has one automaton, numbers of states included
pub proof fn lemma_one_automaton(g: G, a: Aut, sa: SMap<NonTerminalIdx, StateIdx>, b: Aut, sb: SMap<NonTerminalIdx, StateIdx>)
    requires g.wf(), aut_exact(g, a, sa), aut_exact(g, b, sb), ordered(g, a.items, sa), ordered(g, b.items, sb)
    ensures a == b, sa == sb
{
    lemma_prefix_same(g, a, sa, b, sb, a.items.len() as int);
    lemma_prefix_same(g, b, sb, a, sa, b.items.len() as int);
    assert(a.items.take(a.items.len() as int) =~= a.items);
    assert(b.items.take(b.items.len() as int) =~= b.items);
    assert(a.items == b.items);
    assert forall |i: int| 0 <= i < a.items.len() implies #[trigger] a.goto[i] == b.goto[i] by {
        assert forall |x: Symbol| a.goto[i].dom().contains(x) <==> b.goto[i].dom().contains(x) by {
            if a.goto[i].dom().contains(x) { assert(trans(g, a.items, i, x, a.goto[i][x].0 as int)); assert(has_next(g, b.items[i], x)); }
            if b.goto[i].dom().contains(x) { assert(trans(g, b.items, i, x, b.goto[i][x].0 as int)); assert(has_next(g, a.items[i], x)); }
        }
        assert forall |x: Symbol| a.goto[i].dom().contains(x) implies a.goto[i][x] == b.goto[i][x] by {
            assert(trans(g, a.items, i, x, a.goto[i][x].0 as int));
            assert(trans(g, b.items, i, x, b.goto[i][x].0 as int));
            lemma_clo_unique(g, kernel_of(g, a.items[i], x), a.items[a.goto[i][x].0 as int], a.items[b.goto[i][x].0 as int]);
        }
        assert(a.goto[i] =~= b.goto[i]);
    }
    assert(a.goto =~= b.goto);
    assert forall |n: NonTerminalIdx| sa.dom().contains(n) <==> sb.dom().contains(n) by {}
    assert(sa =~= sb);
}
// ------------------------------------------------------------------ the table
/// a state's actions are fixed by its items (m: the actions' numbers)
pub proof fn lemma_one_cell(g1: &Grammar<SemanticActionIdx>, t1: LRTable<SemanticActionIdx>, g2: &Grammar<SemanticActionIdx>, t2: LRTable<SemanticActionIdx>, a: Aut, i: StateIdx, la: Option<TerminalIdx>)
    requires
        table_ok(g1, a, t1), table_ok(g2, a, t2), g1.gv() == g2.gv(), (i.0 as int) < a.items.len(),
        all_ok(g1.gv(), a.items), goto_ok(g1.gv(), a.items, a.goto), a.goto.len() == a.items.len(),
        same_numbers(g1, g2),
    ensures t1.at(i, la) == t2.at(i, la)
{
    let s = a.items[i.0 as int];
    let goto = a.goto[i.0 as int];
    assert(row_ok(g1, s, goto, t1, i));
    assert(row_ok(g2, s, goto, t2, i));
    lemma_cell_to(g1, t1, g2, t2, a, i, la);
    lemma_cell_to(g2, t2, g1, t1, a, i, la);
}
pub open spec fn same_numbers(g1: &Grammar<SemanticActionIdx>, g2: &Grammar<SemanticActionIdx>) -> bool {
    forall |n: int, q: int| #[trigger] g1.gv().has(n, q) ==> g1.non_terminals@[n].productions@[q].action == g2.non_terminals@[n].productions@[q].action
}
proof fn lemma_cell_to(g1: &Grammar<SemanticActionIdx>, t1: LRTable<SemanticActionIdx>, g2: &Grammar<SemanticActionIdx>, t2: LRTable<SemanticActionIdx>, a: Aut, i: StateIdx, la: Option<TerminalIdx>)
    requires
        table_ok(g1, a, t1), table_ok(g2, a, t2), g1.gv() == g2.gv(), (i.0 as int) < a.items.len(),
        all_ok(g1.gv(), a.items), goto_ok(g1.gv(), a.items, a.goto), a.goto.len() == a.items.len(),
        same_numbers(g1, g2) || same_numbers(g2, g1),
    ensures t1.at(i, la) is Some ==> t1.at(i, la) == t2.at(i, la)
{
    let g = g1.gv();
    let s = a.items[i.0 as int];
    let goto = a.goto[i.0 as int];
    assert(row_ok(g1, s, goto, t1, i));
    assert(row_ok(g2, s, goto, t2, i));
    match t1.at(i, la) {
        Some(LRAction::Shift(j)) => {
            let x = Symbol::Terminal(la->0);
            assert(trans(g, a.items, i.0 as int, x, goto[x].0 as int));
            let b = choose |b: LR1Item| #[trigger] s.contains(b) && it_next(g, b) == Some(x);
            assert(t2.at(i, Some(it_next(g, b)->0->Terminal_0)) is Some);
        }
        Some(LRAction::Reduce(n, q, x)) => {
            let b = choose |b: LR1Item| #[trigger] s.contains(b) && red(g, b) && b.lookahead == la && b.non_terminal_idx == n && b.production_idx == q;
            assert(item_ok(g, b));
            assert(g.has(n.0 as int, q.0 as int));
            match t2.at(i, la) {
                Some(LRAction::Shift(j)) => {
                    let x = Symbol::Terminal(la->0);
                    assert(trans(g, a.items, i.0 as int, x, goto[x].0 as int));
                    let c = choose |c: LR1Item| #[trigger] s.contains(c) && it_next(g, c) == Some(x);
                    assert(t1.at(i, Some(it_next(g, c)->0->Terminal_0))->0 is Shift);
                }
                _ => {}
            }
        }
        Some(LRAction::Accept) => { assert(accepts(g, s)); }
        None => {}
    }
}
// ------------------------------------------------------------------ the numbers of the actions
/// how many productions the first n non-terminals have
pub open spec fn base(g: G, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { base(g, n - 1) + g.prods[n - 1].len() }
}
/// productions are numbered in the order in which they stand
pub open spec fn numbered_to(g: G, nts: Seq<NonTerminal<SemanticActionIdx>>, m: int) -> bool {
    forall |n: int, q: int| 0 <= n < m && #[trigger] g.has(n, q) ==> nts[n].productions@[q].action.0 as int == base(g, n) + q
}
pub proof fn lemma_unbase(g: G, k: int, n: int) -> (r: (int, int))
    requires 0 <= k < base(g, n), 0 <= n <= g.prods.len()
    ensures 0 <= r.0 < n, g.has(r.0, r.1), base(g, r.0) + r.1 == k
    decreases n
{
    if k < base(g, n - 1) { lemma_unbase(g, k, n - 1) } else { (n - 1, k - base(g, n - 1)) }
}
// ------------------------------------------------------------------ the numbers of the types
/// the types of the first n non-terminals, each once, in the order in which they occur
pub open spec fn types_to<A>(g: &Grammar<A>, n: int) -> Seq<syn::Type>
    decreases n
{
    if n <= 0 { Seq::empty() }
    else {
        let r = types_to(g, n - 1);
        let t = g.non_terminals@[n - 1].return_ty;
        if r.contains(t) { r } else { r.push(t) }
    }
}
pub open spec fn vn_det(ts: Seq<syn::Type>, t: syn::Type, k: int) -> bool { 0 <= k < ts.len() && ts[k] == t }
pub open spec fn vns_det<A>(g: &Grammar<A>, ts: Seq<syn::Type>, vn: Seq<usize>) -> bool {
    forall |n: int| 0 <= n < vn.len() ==> vn_det(ts, g.non_terminals@[n].return_ty, #[trigger] vn[n] as int)
}
pub proof fn lemma_types_step<A>(g: &Grammar<A>, n: int)
    requires n > 0
    ensures forall |t: syn::Type| #[trigger] types_to(g, n).contains(t) <==> types_to(g, n - 1).contains(t) || t == g.non_terminals@[n - 1].return_ty
{
    let r = types_to(g, n - 1);
    let u = g.non_terminals@[n - 1].return_ty;
    assert forall |t: syn::Type| #[trigger] types_to(g, n).contains(t) <==> r.contains(t) || t == u by {
        if !r.contains(u) { assert(r.push(u)[r.len() as int] == u); if r.contains(t) { assert(r.push(u)[r.index_of(t)] == t); } }
    }
}
pub proof fn lemma_types_nodup<A>(g: &Grammar<A>, n: int)
    ensures types_to(g, n).no_duplicates()
    decreases n
{
    if n > 0 { lemma_types_nodup(g, n - 1); }
}
/// where a type stands is a type of a non-terminal
pub proof fn lemma_types_src<A>(g: &Grammar<A>, k: int, n: int) -> (r: int)
    requires 0 <= k < types_to(g, n).len(), 0 <= n <= g.non_terminals@.len()
    ensures 0 <= r < n, types_to(g, n)[k] == g.non_terminals@[r].return_ty
    decreases n
{
    if k < types_to(g, n - 1).len() { lemma_types_src(g, k, n - 1) } else { n - 1 }
}
// ------------------------------------------------------------------ the lowered grammar
pub open spec fn same_expr(a: syn::Expr, b: syn::Expr) -> bool { a == b || exists |x: EId| #[trigger] is_var(a, x) && is_var(b, x) }
pub open spec fn same_binder(a: Option<ast::Name>, b: Option<ast::Name>) -> bool {
    match (a, b) { (None, None) => true, (Some(x), Some(y)) => x.mutable == y.mutable && x.name.id() == y.name.id(), _ => false }
}
pub open spec fn same_symbol(a: BoundSymbol, b: BoundSymbol) -> bool { a.symbol == b.symbol && same_binder(a.binder, b.binder) }
pub open spec fn same_prod(a: Production<syn::Expr>, b: Production<syn::Expr>) -> bool {
    &&& a.symbols@.len() == b.symbols@.len() && same_expr(a.action, b.action)
    &&& forall |i: int| 0 <= i < a.symbols@.len() ==> same_symbol(#[trigger] a.symbols@[i], b.symbols@[i])
}
pub open spec fn same_nt(a: NonTerminal<syn::Expr>, b: NonTerminal<syn::Expr>) -> bool {
    &&& a.non_terminal@ == b.non_terminal@ && a.return_ty == b.return_ty && a.public == b.public
    &&& a.productions@.len() == b.productions@.len()
    &&& forall |q: int| 0 <= q < a.productions@.len() ==> same_prod(#[trigger] a.productions@[q], b.productions@[q])
}
pub open spec fn same_gram(a: &Grammar<syn::Expr>, b: &Grammar<syn::Expr>) -> bool {
    &&& a.terminals@.len() == b.terminals@.len()
    &&& forall |t: int| 0 <= t < a.terminals@.len() ==> (#[trigger] a.terminals@[t])@ == b.terminals@[t]@
    &&& a.non_terminals@.len() == b.non_terminals@.len()
    &&& forall |n: int| 0 <= n < a.non_terminals@.len() ==> same_nt(#[trigger] a.non_terminals@[n], b.non_terminals@[n])
}
pub proof fn lemma_one_symbol(nts: Seq<ast::NonTerminal>, convs: Seq<ast::Conversion>, s: ast::Symbol, binder: Option<ast::Name>, a: BoundSymbol, b: BoundSymbol)
    requires acceptable(nts, convs), sym_same(nts, convs, s, binder, a), sym_same(nts, convs, s, binder, b)
    ensures a == b
    decreases s
{
    reveal(acceptable);
    match s {
        ast::Symbol::NamedSymbol(n, x) => { lemma_one_symbol(nts, convs, *x, Some(n), a, b); }
        ast::Symbol::NonTerminal(n) => {
            let nm = syn::id_text(n.id());
            let i = choose |i: int| names_nt(nts, nm, i) && a.symbol->NonTerminal_0.0 as int == #[trigger] place(nts, i);
            let j = choose |j: int| names_nt(nts, nm, j) && b.symbol->NonTerminal_0.0 as int == #[trigger] place(nts, j);
            assert(nt_name(nts[i]) == nm && nt_name(nts[j]) == nm);
            if i < j { assert(nt_name(nts[i]) != nt_name(nts[j])); } else if j < i { assert(nt_name(nts[j]) != nt_name(nts[i])); }
        }
        ast::Symbol::Terminal(l) => {
            let i = a.symbol->Terminal_0.0 as int;
            let j = b.symbol->Terminal_0.0 as int;
            assert(convs[i].from@ == l.text() && convs[j].from@ == l.text());
            if i < j { assert(convs[i].from@ != convs[j].from@); } else if j < i { assert(convs[j].from@ != convs[i].from@); }
        }
        _ => {}
    }
}
pub proof fn lemma_one_grammar(nts: Seq<ast::NonTerminal>, convs: Seq<ast::Conversion>, a: &Grammar<syn::Expr>, b: &Grammar<syn::Expr>)
    requires lowered(nts, convs, *a), lowered(nts, convs, *b)
    ensures same_gram(a, b)
{
    assert forall |n: int| 0 <= n < a.non_terminals@.len() implies same_nt(#[trigger] a.non_terminals@[n], b.non_terminals@[n]) by {
        let i = lemma_place_inv(nts, n, nts.len() as int);
        assert(nt_same(nts, convs, a.non_terminals@, i) && nt_same(nts, convs, b.non_terminals@, i));
        let (x, y) = (a.non_terminals@[n], b.non_terminals@[n]);
        if n == place(nts, i) {
            assert forall |q: int| 0 <= q < x.productions@.len() implies same_prod(#[trigger] x.productions@[q], y.productions@[q]) by {
                let p = nts[i].productions@[q];
                assert(prod_same(nts, convs, p, x.productions@[q]) && prod_same(nts, convs, p, y.productions@[q]));
                assert forall |j: int| 0 <= j < x.productions@[q].symbols@.len() implies same_symbol(#[trigger] x.productions@[q].symbols@[j], y.productions@[q].symbols@[j]) by {
                    assert(sym_same(nts, convs, p.symbols@[j], None, x.productions@[q].symbols@[j]));
                    lemma_one_symbol(nts, convs, p.symbols@[j], None, x.productions@[q].symbols@[j], y.productions@[q].symbols@[j]);
                }
            }
        } else {
            assert(entry_same(x, nts[i], n - 1) && entry_same(y, nts[i], n - 1));
            assert(is_var(x.productions@[0].action, EId::Text("x"@)) && is_var(y.productions@[0].action, EId::Text("x"@)));
        }
    }
}
pub proof fn lemma_one_gv(a: &Grammar<syn::Expr>, b: &Grammar<syn::Expr>)
    requires same_gram(a, b)
    ensures a.gv() == b.gv()
{
    let (g, h) = (a.gv(), b.gv());
    assert forall |n: int| 0 <= n < g.prods.len() implies #[trigger] g.prods[n] == h.prods[n] && g.public[n] == h.public[n] by {
        assert(same_nt(a.non_terminals@[n], b.non_terminals@[n]));
        assert forall |q: int| 0 <= q < g.prods[n].len() implies #[trigger] g.prods[n][q] == h.prods[n][q] by {
            let (x, y) = (a.non_terminals@[n].productions@[q], b.non_terminals@[n].productions@[q]);
            assert(same_prod(x, y));
            assert forall |j: int| 0 <= j < g.prods[n][q].len() implies #[trigger] g.prods[n][q][j] == h.prods[n][q][j] by { assert(same_symbol(x.symbols@[j], y.symbols@[j])); }
            assert(g.prods[n][q] =~= h.prods[n][q]);
        }
        assert(g.prods[n] =~= h.prods[n]);
    }
    assert(g.prods =~= h.prods);
    assert(g.public =~= h.public);
}
pub proof fn lemma_one_types<A>(a: &Grammar<A>, b: &Grammar<A>, n: int)
    requires 0 <= n <= a.non_terminals@.len(), n <= b.non_terminals@.len(), forall |i: int| 0 <= i < n ==> (#[trigger] a.non_terminals@[i]).return_ty == b.non_terminals@[i].return_ty
    ensures types_to(a, n) == types_to(b, n)
    decreases n
{
    if n > 0 { lemma_one_types(a, b, n - 1); assert(a.non_terminals@[n - 1].return_ty == b.non_terminals@[n - 1].return_ty); }
}
// ------------------------------------------------------------------ the emitted code
pub open spec fn same_pat(a: RPat, b: RPat) -> bool
    decreases a
{
    match (a, b) {
        (RPat::Enum(p, v), RPat::Enum(q, w)) => p == q && v.len() == w.len() && forall |i: int| 0 <= i < v.len() ==> same_pat(#[trigger] v[i], w[i]),
        (RPat::Struct(p, v), RPat::Struct(q, w)) => p == q && v.len() == w.len() && forall |i: int| 0 <= i < v.len() ==> same_pat(#[trigger] v[i], w[i]),
        (RPat::Tuple(v), RPat::Tuple(w)) => v.len() == w.len() && forall |i: int| 0 <= i < v.len() ==> same_pat(#[trigger] v[i], w[i]),
        (RPat::Field(f, x), RPat::Field(g, y)) => f == g && same_pat(*x, *y),
        (RPat::Bind(f), RPat::Bind(g)) => f.id() == g.id(),
        _ => a == b,
    }
}
pub proof fn lemma_one_pat(p: Pattern, bind: bool, k: int, a: RPat, b: RPat)
    requires pat_ok(p, bind, k, a), pat_ok(p, bind, k, b)
    ensures same_pat(a, b)
    decreases p
{
    match p {
        Pattern::Enum(_, v) => {
            let (x, y) = (a->Enum_1, b->Enum_1);
            assert forall |i: int| 0 <= i < x.len() implies same_pat(#[trigger] x[i], y[i]) by {
                assert(pat_ok(v[i], bind, k + tys_to(v, i as nat).len(), x@[i]) && pat_ok(v[i], bind, k + tys_to(v, i as nat).len(), y@[i]));
                lemma_one_pat(v[i], bind, k + tys_to(v, i as nat).len(), x[i], y[i]);
            }
        }
        Pattern::Tuple(v) => {
            let (x, y) = (a->Tuple_0, b->Tuple_0);
            assert forall |i: int| 0 <= i < x.len() implies same_pat(#[trigger] x[i], y[i]) by {
                assert(pat_ok(v[i], bind, k + tys_to(v, i as nat).len(), x@[i]) && pat_ok(v[i], bind, k + tys_to(v, i as nat).len(), y@[i]));
                lemma_one_pat(v[i], bind, k + tys_to(v, i as nat).len(), x[i], y[i]);
            }
        }
        Pattern::Struct(_, v, dots) => {
            let (x, y) = (a->Struct_1, b->Struct_1);
            assert forall |i: int| 0 <= i < x.len() implies same_pat(#[trigger] x[i], y[i]) by {
                if i < v.len() {
                    assert(x@[i] is Field && y@[i] is Field);
                    lemma_one_pat(v[i].pattern, bind, k + ftys_to(v, i as nat).len(), *x[i]->Field_1, *y[i]->Field_1);
                } else { assert(x@.last() == RPat::Rest && y@.last() == RPat::Rest); }
            }
        }
        _ => {}
    }
}
pub open spec fn same_idx_fn(a: IdxFn, b: IdxFn) -> bool {
    &&& a.name.id() == b.name.id() && a.arg.id() == b.arg.id() && a.ty == b.ty && a.arms@.len() == b.arms@.len()
    &&& forall |i: int| 0 <= i < a.arms@.len() ==> same_pat((#[trigger] a.arms@[i]).pat, b.arms@[i].pat) && a.arms@[i].idx == b.arms@[i].idx
}
pub open spec fn same_ids(a: Seq<syn::Ident>, b: Seq<syn::Ident>) -> bool { a.len() == b.len() && forall |i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).id() == b[i].id() }
pub open spec fn same_val_arm(a: ValArm, b: ValArm) -> bool {
    same_pat(a.pat, b.pat) && a.ty.id() == b.ty.id() && a.variant.id() == b.variant.id() && same_ids(a.idents@, b.idents@)
}
pub open spec fn same_val_fn(a: ValFn, b: ValFn) -> bool {
    &&& a.name.id() == b.name.id() && a.ty == b.ty && a.result.id() == b.result.id() && a.arms@.len() == b.arms@.len()
    &&& forall |i: int| 0 <= i < a.arms@.len() ==> same_val_arm(#[trigger] a.arms@[i], b.arms@[i])
}
pub open spec fn same_result(a: ResultTy, b: ResultTy) -> bool {
    &&& a.name.id() == b.name.id() && a.variants@.len() == b.variants@.len() && a.fns@.len() == b.fns@.len() && a.fns@.len() == a.variants@.len()
    &&& forall |i: int| 0 <= i < a.variants@.len() ==> #[trigger] same_variant(a, b, i)
}
pub open spec fn same_variant(a: ResultTy, b: ResultTy, i: int) -> bool {
    let (v, w) = (a.variants@[i], b.variants@[i]);
    let (f, g) = (a.fns@[i], b.fns@[i]);
    v.id.id() == w.id.id() && v.tys@ == w.tys@ && f.method.id() == g.method.id() && f.tys@ == g.tys@ && f.variant.id() == g.variant.id()
}
pub open spec fn same_pop(a: PopStmt, b: PopStmt) -> bool {
    match (a, b) {
        (PopStmt::Pop, PopStmt::Pop) => true,
        (PopStmt::Bind { mutable: m1, name: n1, method: e1 }, PopStmt::Bind { mutable: m2, name: n2, method: e2 }) => m1 == m2 && n1.id() == n2.id() && e1.id() == e2.id(),
        _ => false,
    }
}
pub open spec fn same_decl(a: Decl, b: Decl) -> bool {
    match (a, b) {
        (Decl::Action(f), Decl::Action(g)) => f.name.id() == g.name.id() && f.variant.id() == g.variant.id() && same_expr(f.action, g.action)
            && f.pops@.len() == g.pops@.len() && forall |j: int| 0 <= j < f.pops@.len() ==> same_pop(#[trigger] f.pops@[j], g.pops@[j]),
        (Decl::Table { n: x, names: v }, Decl::Table { n: y, names: w }) => x == y && same_ids(v@, w@),
        _ => false,
    }
}
pub open spec fn same_sem(a: Seq<Decl>, b: Seq<Decl>) -> bool { a.len() == b.len() && forall |k: int| 0 <= k < a.len() ==> same_decl(#[trigger] a[k], b[k]) }
pub open spec fn same_table<T>(a: Table2<T>, b: Table2<T>) -> bool {
    &&& a.outer == b.outer && a.inner == b.inner && a.fits() && b.fits()
    &&& forall |i: int| 0 <= i < a.outer ==> (#[trigger] a.rows@[i])@ == b.rows@[i]@
}
pub open spec fn same_texts(a: Table1<String>, b: Table1<String>) -> bool {
    &&& a.n == b.n && a.fits() && b.fits()
    &&& forall |i: int| 0 <= i < a.n ==> (#[trigger] a.items@[i])@ == b.items@[i]@
}
pub open spec fn same_entry(a: EntryFn, b: EntryFn) -> bool {
    a.name.id() == b.name.id() && a.ret == b.ret && a.extract.id() == b.extract.id() && a.state == b.state && a.action == b.action
}
/// b's parsers are a's, in the order p
pub open spec fn arranged(a: Seq<EntryFn>, b: Seq<EntryFn>, p: Seq<int>) -> bool {
    &&& p.len() == a.len() && p.no_duplicates()
    &&& forall |i: int| 0 <= i < a.len() ==> 0 <= #[trigger] p[i] < b.len() && same_entry(a[i], b[p[i]])
}
pub open spec fn same_entries(a: Seq<EntryFn>, b: Seq<EntryFn>) -> bool { a.len() == b.len() && exists |p: Seq<int>| #[trigger] arranged(a, b, p) }
/// the same code: same names, types, patterns, expressions, tables and numbers everywhere, and the same parsers (their
/// order, which the iteration order of a map gives, left open)
pub open spec fn same_code(a: Emitted, b: Emitted) -> bool {
    &&& a.n_terminals == b.n_terminals && a.idx_name.id() == b.idx_name.id() && a.val_name.id() == b.val_name.id()
    &&& same_table(a.action, b.action) && same_table(a.goto, b.goto)
    &&& same_idx_fn(a.idx_fn, b.idx_fn) && same_val_fn(a.val_fn, b.val_fn) && same_result(a.result, b.result)
    &&& same_sem(a.sem@, b.sem@)
    &&& same_texts(a.expected, b.expected) && same_texts(a.strs, b.strs)
    &&& same_entries(a.entries@, b.entries@)
}
pub proof fn lemma_one_idx_fn(t: &ast::TokenEnum, a: IdxFn, b: IdxFn)
    requires idx_fn_ok(t, a), idx_fn_ok(t, b)
    ensures same_idx_fn(a, b)
{
    assert forall |i: int| 0 <= i < a.arms@.len() implies same_pat((#[trigger] a.arms@[i]).pat, b.arms@[i].pat) && a.arms@[i].idx == b.arms@[i].idx by {
        assert(idx_arm_ok(t.conversions@[i].to, i, a.arms@[i]) && idx_arm_ok(t.conversions@[i].to, i, b.arms@[i]));
        lemma_one_pat(t.conversions@[i].to, false, 0, a.arms@[i].pat, b.arms@[i].pat);
    }
}
pub proof fn lemma_one_val_fn(t: &ast::TokenEnum, s1: syn::Ident, a: ValFn, s2: syn::Ident, b: ValFn)
    requires val_fn_ok(t, s1, a), val_fn_ok(t, s2, b), s1.id() == s2.id()
    ensures same_val_fn(a, b)
{
    assert forall |i: int| 0 <= i < a.arms@.len() implies same_val_arm(#[trigger] a.arms@[i], b.arms@[i]) by {
        assert(val_arm_ok(t.conversions@[i].to, i, s1, a.arms@[i]) && val_arm_ok(t.conversions@[i].to, i, s2, b.arms@[i]));
        lemma_one_pat(t.conversions@[i].to, true, 0, a.arms@[i].pat, b.arms@[i].pat);
    }
}
pub proof fn lemma_one_vn(g1: &Grammar<syn::Expr>, vn1: Seq<usize>, g2: &Grammar<syn::Expr>, vn2: Seq<usize>)
    requires
        same_gram(g1, g2), vn1.len() == g1.non_terminals@.len(), vn2.len() == g2.non_terminals@.len(),
        vns_det(g1, types_to(g1, g1.non_terminals@.len() as int), vn1), vns_det(g2, types_to(g2, g2.non_terminals@.len() as int), vn2),
    ensures vn1 == vn2, types_to(g1, g1.non_terminals@.len() as int) == types_to(g2, g2.non_terminals@.len() as int)
{
    let n = g1.non_terminals@.len() as int;
    assert forall |i: int| 0 <= i < n implies (#[trigger] g1.non_terminals@[i]).return_ty == g2.non_terminals@[i].return_ty by { assert(same_nt(g1.non_terminals@[i], g2.non_terminals@[i])); }
    lemma_one_types(g1, g2, n);
    lemma_types_nodup(g1, n);
    let ts = types_to(g1, n);
    assert forall |i: int| 0 <= i < n implies #[trigger] vn1[i] == vn2[i] by {
        assert(g1.non_terminals@[i].return_ty == g2.non_terminals@[i].return_ty);
        assert(vn_det(ts, g1.non_terminals@[i].return_ty, vn1[i] as int) && vn_det(ts, g2.non_terminals@[i].return_ty, vn2[i] as int));
    }
    assert(vn1 =~= vn2);
}
/// the variant of the k'th type
pub proof fn lemma_kth(g: &Grammar<syn::Expr>, tokens: Seq<ast::Conversion>, r: ResultTy, vn: Seq<usize>, k: int)
    requires result_ok(g, tokens, r, vn), 0 <= k < types_to(g, g.non_terminals@.len() as int).len()
    ensures nt_entry(types_to(g, g.non_terminals@.len() as int)[k], k, r.variants@[tokens.len() + k], r.fns@[tokens.len() + k])
{
    let l = g.non_terminals@.len() as int;
    let ts = types_to(g, l);
    let n = lemma_types_src(g, k, l);
    lemma_types_nodup(g, l);
    assert(vn_det(ts, g.non_terminals@[n].return_ty, vn[n] as int));
    assert(vn_ok(tokens.len() as int, g.non_terminals@[n].return_ty, vn[n] as int, r.variants@, r.fns@));
}
pub proof fn lemma_one_result(g1: &Grammar<syn::Expr>, a: ResultTy, vn1: Seq<usize>, g2: &Grammar<syn::Expr>, b: ResultTy, vn2: Seq<usize>, tokens: Seq<ast::Conversion>)
    requires same_gram(g1, g2), result_ok(g1, tokens, a, vn1), result_ok(g2, tokens, b, vn2), a.name.id() == b.name.id()
    ensures same_result(a, b), vn1 == vn2
{
    lemma_one_vn(g1, vn1, g2, vn2);
    assert forall |i: int| 0 <= i < a.variants@.len() implies #[trigger] same_variant(a, b, i) by {
        let nt = tokens.len() as int;
        if i < nt {
            assert(tok_entry(tokens[i].to, i, a.variants@[i], a.fns@[i]) && tok_entry(tokens[i].to, i, b.variants@[i], b.fns@[i]));
        } else {
            lemma_kth(g1, tokens, a, vn1, i - nt);
            lemma_kth(g2, tokens, b, vn2, i - nt);
            assert(a.variants@[i].tys@ =~= b.variants@[i].tys@ && a.fns@[i].tys@ =~= b.fns@[i].tys@);
        }
    }
}
/// the function of the k'th production
pub proof fn lemma_kth_action(gram: &Grammar<syn::Expr>, m: Build, sem: Seq<Decl>, n: int, q: int)
    requires sem_ok(gram, m, sem), gram.gv().has(n, q)
    ensures ({
        let k = base(gram.gv(), n) + q;
        &&& 0 <= k < sem.len() - 1 && sem[k] is Action && fn_ok(m.vn, n, q, gram.non_terminals@[n].productions@[q], sem[k]->Action_0)
        &&& m.gram.non_terminals@[n].productions@[q].action.0 as int == k
    })
{
    assert(nt_ok(m.vn, n, gram.non_terminals@[n], m.gram.non_terminals@[n], sem.drop_last()));
    assert(decl_ok(m.vn, n, q, gram.non_terminals@[n].productions@[q], m.gram.non_terminals@[n].productions@[q], sem.drop_last()));
    assert(m.gram.non_terminals@[n].productions@[q].action.0 as int == base(gram.gv(), n) + q);
}
pub proof fn lemma_one_sem(g1: &Grammar<syn::Expr>, m1: Build, a: Seq<Decl>, g2: &Grammar<syn::Expr>, m2: Build, b: Seq<Decl>)
    requires same_gram(g1, g2), g1.gv() == g2.gv(), m1.vn == m2.vn, sem_ok(g1, m1, a), sem_ok(g2, m2, b)
    ensures same_sem(a, b)
{
    let g = g1.gv();
    let e = a.len() - 1;
    assert forall |k: int| 0 <= k < e implies same_decl(#[trigger] a[k], b[k]) by {
        let (n, q) = lemma_unbase(g, k, g.prods.len() as int);
        lemma_kth_action(g1, m1, a, n, q);
        lemma_kth_action(g2, m2, b, n, q);
        let (p1, p2) = (g1.non_terminals@[n].productions@[q], g2.non_terminals@[n].productions@[q]);
        assert(same_nt(g1.non_terminals@[n], g2.non_terminals@[n]));
        assert(same_prod(p1, p2));
        let (f1, f2) = (a[k]->Action_0, b[k]->Action_0);
        assert forall |j: int| 0 <= j < f1.pops@.len() implies same_pop(#[trigger] f1.pops@[j], f2.pops@[j]) by {
            let h = p1.symbols@.len() - 1 - j;
            assert(same_symbol(p1.symbols@[h], p2.symbols@[h]));
            assert(pop_ok(m1.vn, p1.symbols@[h], f1.pops@[j]) && pop_ok(m2.vn, p2.symbols@[h], f2.pops@[j]));
        }
    }
    assert(a.last() == a[e] && b.last() == b[e]);
    assert forall |i: int| 0 <= i < a.last()->names@.len() implies (#[trigger] a.last()->names@[i]).id() == b.last()->names@[i].id() by {
        assert(a.drop_last()[i] == a[i] && b.drop_last()[i] == b[i]);
        assert(same_decl(a[i], b[i]));
    }
    assert(same_decl(a[e], b[e]));
}
pub proof fn lemma_same_numbers(g1: &Grammar<syn::Expr>, m1: Build, a: Seq<Decl>, g2: &Grammar<syn::Expr>, m2: Build, b: Seq<Decl>)
    requires same_gram(g1, g2), g1.gv() == g2.gv(), m1.gram.gv() == g1.gv(), m2.gram.gv() == g1.gv(), sem_ok(g1, m1, a), sem_ok(g2, m2, b)
    ensures same_numbers(&m1.gram, &m2.gram)
{
    assert forall |n: int, q: int| #[trigger] m1.gram.gv().has(n, q) implies m1.gram.non_terminals@[n].productions@[q].action == m2.gram.non_terminals@[n].productions@[q].action by {
        lemma_kth_action(g1, m1, a, n, q);
        lemma_kth_action(g2, m2, b, n, q);
    }
}
pub open spec fn same_cells(t1: LRTable<SemanticActionIdx>, t2: LRTable<SemanticActionIdx>, n: int) -> bool {
    forall |i: StateIdx, la: Option<TerminalIdx>| (i.0 as int) < n ==> #[trigger] t1.at(i, la) == t2.at(i, la)
}
pub proof fn lemma_one_action(m1: Build, a: Table2<ECell>, m2: Build, b: Table2<ECell>)
    requires m1.a == m2.a, m1.a.items.len() <= usize::MAX, m1.gram.gv() == m2.gram.gv(), m1.gram.gv().nt < u32::MAX, aut_exact(m1.gram.gv(), m1.a, m1.starts), table_ok(&m1.gram, m1.a, m1.t), same_cells(m1.t, m2.t, m1.a.items.len() as int), action_tab_ok(m1, a), action_tab_ok(m2, b)
    ensures same_table(a, b)
{
    assert forall |i: int| 0 <= i < a.outer implies (#[trigger] a.rows@[i])@ == b.rows@[i]@ by {
        assert(a.rows@[i]@.len() == a.inner && b.rows@[i]@.len() == b.inner);
        assert forall |c: int| 0 <= c < a.inner implies #[trigger] a.rows@[i]@[c] == b.rows@[i]@[c] by {
            let n = m1.gram.terminals@.len();
            let la = if c < n { Some(TerminalIdx(c as u32)) } else { None };
            let s = StateIdx(i as usize);
            assert(nt_cols(&m1.gram, la) == c && nt_cols(&m2.gram, la) == c);
            assert(la_ok(m1.gram.gv(), la));
            assert(m1.t.at(s, la) == m2.t.at(s, la));
            lemma_ered(&m1, i, la);
            assert(ecell_ok(&m1.gram, m1.t.at(s, la), a.rows@[i]@[c]));
            assert(ecell_ok(&m2.gram, m2.t.at(s, la), b.rows@[i]@[c]));
            match m1.t.at(s, la) {
                Some(LRAction::Reduce(x, q, _)) => {
                    let g = m1.gram.gv();
                    assert(g.prods[x.0 as int][q.0 as int] == m2.gram.gv().prods[x.0 as int][q.0 as int]);
                    assert(m1.gram.gv().prods[x.0 as int][q.0 as int].len() == m1.gram.non_terminals@[x.0 as int].productions@[q.0 as int].symbols@.len());
                    assert(m2.gram.gv().prods[x.0 as int][q.0 as int].len() == m2.gram.non_terminals@[x.0 as int].productions@[q.0 as int].symbols@.len());
                }
                _ => {}
            }
        }
        assert(a.rows@[i]@ =~= b.rows@[i]@);
    }
}
pub proof fn lemma_one_goto(m1: Build, a: Table2<Option<u32>>, m2: Build, b: Table2<Option<u32>>)
    requires m1.a == m2.a, m1.a.items.len() <= usize::MAX, m1.gram.gv() == m2.gram.gv(), m1.gram.gv().prods.len() <= u32::MAX, table_ok(&m1.gram, m1.a, m1.t), table_ok(&m2.gram, m2.a, m2.t), goto_tab_ok(m1, a), goto_tab_ok(m2, b)
    ensures same_table(a, b)
{
    assert(m1.gram.gv().prods.len() == m1.gram.non_terminals@.len() && m2.gram.gv().prods.len() == m2.gram.non_terminals@.len());
    assert forall |i: int| 0 <= i < a.outer implies (#[trigger] a.rows@[i])@ == b.rows@[i]@ by {
        assert(a.rows@[i]@.len() == a.inner && b.rows@[i]@.len() == b.inner);
        let s = StateIdx(i as usize);
        assert(goto_row_ok(m1.a.goto[s.0 as int], m1.t, s));
        assert(goto_row_ok(m2.a.goto[s.0 as int], m2.t, s));
        assert forall |c: int| 0 <= c < a.inner implies #[trigger] a.rows@[i]@[c] == b.rows@[i]@[c] by {
            let n = NonTerminalIdx(c as u32);
            assert(n.0 as int == c);
            assert(m1.t.gt(s, n) == m2.t.gt(s, n));
        }
        assert(a.rows@[i]@ =~= b.rows@[i]@);
    }
}
pub proof fn lemma_one_expected(m1: Build, m2: Build, i: int, k: nat)
    requires same_cells(m1.t, m2.t, m1.a.items.len() as int), 0 <= i < m1.a.items.len(), i <= usize::MAX, k <= m1.gram.terminals@.len(),
        forall |t: int| 0 <= t < k ==> (#[trigger] m1.gram.terminals@[t])@ == m2.gram.terminals@[t]@,
    ensures exp_to(&m1.gram, m1.t, i, k) == exp_to(&m2.gram, m2.t, i, k)
    decreases k
{
    if k > 0 {
        lemma_one_expected(m1, m2, i, (k - 1) as nat);
        let s = StateIdx(i as usize);
        let la = Some(TerminalIdx((k - 1) as u32));
        assert(m1.t.at(s, la) == m2.t.at(s, la));
        assert(m1.gram.terminals@[k - 1]@ == m2.gram.terminals@[k - 1]@);
    }
}
pub proof fn lemma_one_texts(g1: &Grammar<syn::Expr>, m1: Build, e1: Emitted, g2: &Grammar<syn::Expr>, m2: Build, e2: Emitted)
    requires
        same_gram(g1, g2), m1.gram.terminals == g1.terminals, m2.gram.terminals == g2.terminals, m1.a == m2.a, m1.a.items.len() <= usize::MAX,
        same_cells(m1.t, m2.t, m1.a.items.len() as int),
        expected_ok(m1, e1.expected), names_ok(m1, e1.strs), expected_ok(m2, e2.expected), names_ok(m2, e2.strs),
    ensures same_texts(e1.expected, e2.expected), same_texts(e1.strs, e2.strs)
{
    assert forall |t: int| 0 <= t < m1.gram.terminals@.len() implies (#[trigger] m1.gram.terminals@[t])@ == m2.gram.terminals@[t]@ by { assert(g1.terminals@[t]@ == g2.terminals@[t]@); }
    assert forall |i: int| 0 <= i < e1.expected.n implies (#[trigger] e1.expected.items@[i])@ == e2.expected.items@[i]@ by {
        lemma_one_expected(m1, m2, i, m1.gram.terminals@.len());
    }
    assert forall |i: int| 0 <= i < e1.strs.n implies (#[trigger] e1.strs.items@[i])@ == e2.strs.items@[i]@ by {
        if i < m1.gram.terminals@.len() { assert(m1.gram.terminals@[i]@ == m2.gram.terminals@[i]@); assert(e1.strs.items@[i]@ == m1.gram.terminals@[i]@); assert(e2.strs.items@[i]@ == m2.gram.terminals@[i]@); }
    }
}
pub open spec fn index_in(ns: Seq<NonTerminalIdx>, n: NonTerminalIdx) -> int { choose |j: int| 0 <= j < ns.len() && ns[j] == n }
pub proof fn lemma_one_entries(g1: &Grammar<syn::Expr>, m1: Build, a: Seq<EntryFn>, g2: &Grammar<syn::Expr>, m2: Build, b: Seq<EntryFn>)
    requires
        same_gram(g1, g2), m1.starts == m2.starts, m1.vn == m2.vn, same_numbers(&m1.gram, &m2.gram), entries_in(g1, m1),
        one_each(g1, m1, a), one_each(g2, m2, b),
    ensures same_entries(a, b)
{
    let x = choose |ns: Seq<NonTerminalIdx>| #[trigger] of_each(g1, m1, a, ns);
    let y = choose |ns: Seq<NonTerminalIdx>| #[trigger] of_each(g2, m2, b, ns);
    x.unique_seq_to_set();
    y.unique_seq_to_set();
    assert(x.to_set() =~= y.to_set()) by {
        assert forall |n: NonTerminalIdx| x.to_set().contains(n) <==> y.to_set().contains(n) by {
            assert(m1.starts.dom().contains(n) <==> x.contains(n));
            assert(m2.starts.dom().contains(n) <==> y.contains(n));
        }
    }
    let p = Seq::new(a.len(), |i: int| index_in(y, x[i]));
    assert forall |i: int| 0 <= i < a.len() implies 0 <= #[trigger] p[i] < b.len() && y[p[i]] == x[i] by {
        assert(x.contains(x[i]));
        assert(m1.starts.dom().contains(x[i]));
        assert(y.contains(x[i]));
    }
    assert forall |i: int| 0 <= i < a.len() implies 0 <= #[trigger] p[i] < b.len() && same_entry(a[i], b[p[i]]) by {
        let n = x[i];
        assert(entry_ok(g1, m1, n, a[i]));
        assert(y[p[i]] == n);
        assert(entry_ok(g2, m2, n, b[p[i]]));
        assert(entry_in(g1, m1, n));
        assert(same_nt(g1.non_terminals@[n.0 as int], g2.non_terminals@[n.0 as int]));
        assert(m1.gram.gv().has(n.0 as int, 0));
    }
    assert(p.no_duplicates()) by {
        assert forall |i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies p[i] != p[j] by { assert(x[i] != x[j]); assert(y[p[i]] == x[i] && y[p[j]] == x[j]); }
    }
    assert(arranged(a, b, p));
}
/// an entry point is a non-terminal with a production
pub open spec fn entry_in(g: &Grammar<syn::Expr>, m: Build, n: NonTerminalIdx) -> bool { (n.0 as int) < g.non_terminals@.len() && m.gram.gv().has(n.0 as int, 0) }
pub open spec fn entries_in(g: &Grammar<syn::Expr>, m: Build) -> bool { forall |n: NonTerminalIdx| m.starts.dom().contains(n) ==> #[trigger] entry_in(g, m, n) }
/// C16
pub proof fn theorem_one_code(items: Seq<ast::GrammarItem>, a: Emitted, b: Emitted)
    requires emits(items, a), emits(items, b)
    ensures same_code(a, b)
{
    let t = enums_of(items)[0];
    let nts = nts_of(items);
    let (g1, t1, m1) = choose |g: Grammar<syn::Expr>, t: ast::TokenEnum, m: Build| t == enums_of(items)[0]
        && lowered(nts_of(items), t.conversions@, g) && g.wf() && crate::automaton::entries_ok(g.gv()) && #[trigger] emitted_ok(&g, &t, a, m);
    let (g2, t2, m2) = choose |g: Grammar<syn::Expr>, t: ast::TokenEnum, m: Build| t == enums_of(items)[0]
        && lowered(nts_of(items), t.conversions@, g) && g.wf() && crate::automaton::entries_ok(g.gv()) && #[trigger] emitted_ok(&g, &t, b, m);
    lemma_one_grammar(nts, t.conversions@, &g1, &g2);
    lemma_one_gv(&g1, &g2);
    theorem_one_emission(&g1, m1, &g2, m2, &t, a, b);
}
pub open spec fn built(g1: &Grammar<syn::Expr>, m1: Build, g2: &Grammar<syn::Expr>, m2: Build, t: &ast::TokenEnum, a: Emitted, b: Emitted) -> bool {
    &&& g1.wf() && g2.wf() && crate::automaton::entries_ok(g1.gv()) && same_gram(g1, g2) && g1.gv() == g2.gv()
    &&& emitted_ok(g1, t, a, m1) && emitted_ok(g2, t, b, m2)
}
pub proof fn lemma_one_build(g1: &Grammar<syn::Expr>, m1: Build, g2: &Grammar<syn::Expr>, m2: Build, t: &ast::TokenEnum, a: Emitted, b: Emitted)
    requires built(g1, m1, g2, m2, t, a, b)
    ensures m1.a == m2.a, m1.starts == m2.starts, same_result(a.result, b.result), m1.vn == m2.vn
{
    hide(ordered); hide(result_ok); hide(sem_ok); hide(action_tab_ok); hide(goto_tab_ok); hide(parsers_ok); hide(idx_fn_ok); hide(val_fn_ok); hide(expected_ok); hide(names_ok);
    hide(aut_exact); hide(same_result); hide(same_gram); hide(table_ok);
    lemma_one_automaton(g1.gv(), m1.a, m1.starts, m2.a, m2.starts);
    lemma_one_result(g1, a.result, m1.vn, g2, b.result, m2.vn, t.conversions@);
}
pub proof fn lemma_one_rest(g1: &Grammar<syn::Expr>, m1: Build, g2: &Grammar<syn::Expr>, m2: Build, t: &ast::TokenEnum, a: Emitted, b: Emitted)
    requires built(g1, m1, g2, m2, t, a, b), m1.vn == m2.vn
    ensures same_sem(a.sem@, b.sem@), same_numbers(&m1.gram, &m2.gram), same_idx_fn(a.idx_fn, b.idx_fn), same_val_fn(a.val_fn, b.val_fn)
{
    hide(ordered); hide(result_ok); hide(sem_ok); hide(action_tab_ok); hide(goto_tab_ok); hide(parsers_ok); hide(idx_fn_ok); hide(val_fn_ok); hide(expected_ok); hide(names_ok);
    hide(aut_exact); hide(same_result); hide(same_gram); hide(table_ok); hide(same_sem); hide(same_idx_fn); hide(same_val_fn); hide(same_numbers);
    lemma_one_sem(g1, m1, a.sem@, g2, m2, b.sem@);
    lemma_same_numbers(g1, m1, a.sem@, g2, m2, b.sem@);
    lemma_one_idx_fn(t, a.idx_fn, b.idx_fn);
    lemma_one_val_fn(t, a.result.name, a.val_fn, b.result.name, b.val_fn);
}
pub proof fn lemma_one_tables(g1: &Grammar<syn::Expr>, m1: Build, g2: &Grammar<syn::Expr>, m2: Build, t: &ast::TokenEnum, a: Emitted, b: Emitted)
    requires built(g1, m1, g2, m2, t, a, b), m1.a == m2.a, same_numbers(&m1.gram, &m2.gram)
    ensures same_table(a.action, b.action), same_table(a.goto, b.goto), same_cells(m1.t, m2.t, m1.a.items.len() as int)
{
    hide(ordered); hide(result_ok); hide(sem_ok); hide(action_tab_ok); hide(goto_tab_ok); hide(parsers_ok); hide(idx_fn_ok); hide(val_fn_ok); hide(expected_ok); hide(names_ok);
    hide(same_gram); hide(table_ok); hide(same_table); hide(same_numbers);
    assert forall |i: StateIdx, la: Option<TerminalIdx>| (i.0 as int) < m1.a.items.len() implies #[trigger] m1.t.at(i, la) == m2.t.at(i, la) by {
        lemma_one_cell(&m1.gram, m1.t, &m2.gram, m2.t, m1.a, i, la);
    }
    lemma_one_action(m1, a.action, m2, b.action);
    lemma_one_goto(m1, a.goto, m2, b.goto);
}
pub proof fn lemma_entries_in(g: &Grammar<syn::Expr>, m: Build)
    requires g.wf(), m.gram.gv() == g.gv(), aut_exact(g.gv(), m.a, m.starts), crate::automaton::entries_ok(g.gv())
    ensures entries_in(g, m)
{
    assert forall |n: NonTerminalIdx| m.starts.dom().contains(n) implies #[trigger] entry_in(g, m, n) by {
        assert(g.gv().public[n.0 as int]);
    }
}
/// the code emitted for one grammar and one token declaration is one
pub proof fn theorem_one_emission(g1: &Grammar<syn::Expr>, m1: Build, g2: &Grammar<syn::Expr>, m2: Build, t: &ast::TokenEnum, a: Emitted, b: Emitted)
    requires built(g1, m1, g2, m2, t, a, b)
    ensures same_code(a, b)
{
    hide(ordered); hide(result_ok); hide(sem_ok); hide(action_tab_ok); hide(goto_tab_ok); hide(expected_ok); hide(names_ok);
    hide(aut_exact); hide(same_gram); hide(table_ok); hide(same_numbers); hide(same_cells); hide(entries_in);
    hide(same_table); hide(same_val_fn); hide(same_result); hide(same_sem); hide(same_texts); hide(same_entries);
    lemma_one_build(g1, m1, g2, m2, t, a, b);
    lemma_one_rest(g1, m1, g2, m2, t, a, b);
    lemma_one_tables(g1, m1, g2, m2, t, a, b);
    assert(m1.gram.terminals == g1.terminals && m2.gram.terminals == g2.terminals) by { reveal(sem_ok); }
    lemma_one_texts(g1, m1, a, g2, m2, b);
    lemma_entries_in(g1, m1);
    lemma_one_entries(g1, m1, a.entries@, g2, m2, b.entries@);
    assert(g1.terminals@.len() == g2.terminals@.len()) by { reveal(same_gram); }
    assert(a.idx_name.id() == b.idx_name.id());
}
//@ endif
