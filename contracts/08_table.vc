//@ module table
//@ header
use vstd::prelude::*;
use vstd::pervasive::cloned;
use crate::prelude::*;
use crate::theory::*;
use crate::items::*;
use crate::automaton::*;
use crate::grammar::{Grammar, Symbol, NonTerminalIdx, TerminalIdx, ProductionIdx};
use crate::lr1::LR1Item;
use crate::lr_common::{StateIdx, LRAction, LRTable};
//@ raw
/// the item calls for a reduction / acceptance on its lookahead
pub open spec fn red(g: G, it: LR1Item) -> bool { it.c() == rhs(g, it).len() && !g.public[it.n()] }
pub open spec fn acc(g: G, it: LR1Item) -> bool { g.public[it.n()] && it.c() == 1 && it.lookahead is None }
/// two different reductions, or a reduction and acceptance, on the same lookahead
pub open spec fn rr_clash(g: G, a: LR1Item, b: LR1Item) -> bool {
    a != b && a.lookahead == b.lookahead && red(g, a) && (red(g, b) || acc(g, b))
}
/// a reduction on a terminal that can also be shifted
pub open spec fn sr_clash(g: G, a: LR1Item, b: LR1Item) -> bool {
    red(g, a) && a.lookahead is Some && it_next(g, b) == Some(Symbol::Terminal(a.lookahead->0))
}
pub open spec fn no_rr(g: G, s: Items) -> bool {
    forall |a: LR1Item, b: LR1Item| #[trigger] s.contains(a) && #[trigger] s.contains(b) ==> !rr_clash(g, a, b)
}
/// the grammar has an LR(1) conflict
pub open spec fn conflicted(g: G, items: Seq<Items>) -> bool {
    exists |s: int, a: LR1Item, b: LR1Item| 0 <= s < items.len() && #[trigger] items[s].contains(a) && #[trigger] items[s].contains(b)
        && (rr_clash(g, a, b) || sr_clash(g, a, b))
}
pub open spec fn reduces<A>(gram: &Grammar<A>, s: Items, la: Option<TerminalIdx>, n: NonTerminalIdx, p: ProductionIdx) -> bool {
    exists |it: LR1Item| #[trigger] s.contains(it) && red(gram.gv(), it) && it.lookahead == la && it.non_terminal_idx == n && it.production_idx == p
}
pub open spec fn accepts(g: G, s: Items) -> bool { exists |it: LR1Item| #[trigger] s.contains(it) && acc(g, it) }
pub open spec fn row_ok<A: Clone>(gram: &Grammar<A>, s: Items, goto: SMap<Symbol, StateIdx>, t: LRTable<A>, i: StateIdx) -> bool {
    let g = gram.gv();
    &&& forall |la: Option<TerminalIdx>| match #[trigger] t.at(i, la) {
            Some(LRAction::Shift(j)) => la is Some && goto.dom().contains(Symbol::Terminal(la->0)) && goto[Symbol::Terminal(la->0)] == j,
            Some(LRAction::Reduce(n, p, a)) => reduces(gram, s, la, n, p)
                && cloned(gram.non_terminals@[n.0 as int].productions@[p.0 as int].action, a),
            Some(LRAction::Accept) => la is None && accepts(g, s),
            None => true,
        }
    &&& forall |it: LR1Item| #[trigger] s.contains(it) && red(g, it) ==> match t.at(i, it.lookahead) {
            Some(LRAction::Shift(_)) => true,
            Some(LRAction::Reduce(n, p, _)) => n == it.non_terminal_idx && p == it.production_idx,
            _ => false,
        }
    &&& accepts(g, s) ==> t.at(i, None) == Some(LRAction::<A>::Accept)
    &&& forall |it: LR1Item| #[trigger] s.contains(it) && it_next(g, it) is Some && it_next(g, it)->0 is Terminal
            ==> t.at(i, Some(it_next(g, it)->0->Terminal_0)) is Some && t.at(i, Some(it_next(g, it)->0->Terminal_0))->0 is Shift
    &&& no_rr(g, s)
}
pub open spec fn goto_row_ok<A>(goto: SMap<Symbol, StateIdx>, t: LRTable<A>, i: StateIdx) -> bool {
    forall |n: NonTerminalIdx| #[trigger] t.gt(i, n) == (if goto.dom().contains(Symbol::NonTerminal(n)) { Some(goto[Symbol::NonTerminal(n)]) } else { None })
}
pub open spec fn no_row<A>(t: LRTable<A>, i: StateIdx) -> bool {
    &&& forall |la: Option<TerminalIdx>| #[trigger] t.at(i, la) is None
    &&& forall |n: NonTerminalIdx| #[trigger] t.gt(i, n) is None
}
/// C04: what table construction guarantees
pub open spec fn table_ok<A: Clone>(gram: &Grammar<A>, a: Aut, t: LRTable<A>) -> bool {
    &&& t.n_states == a.items.len()
    &&& forall |i: StateIdx| (i.0 as int) < a.items.len() ==> #[trigger] row_ok(gram, a.items[i.0 as int], a.goto[i.0 as int], t, i)
    &&& forall |i: StateIdx| (i.0 as int) < a.items.len() ==> #[trigger] goto_row_ok(a.goto[i.0 as int], t, i)
    &&& forall |i: StateIdx| (i.0 as int) >= a.items.len() ==> #[trigger] no_row(t, i)
}
pub proof fn lemma_state_nonempty(g: G, a: Aut, starts: SMap<NonTerminalIdx, StateIdx>, j: int)
    requires aut_exact(g, a, starts), 0 <= j < a.items.len()
    ensures a.items[j] != SSet::<LR1Item>::empty()
{
    assert(reached(g, starts, a.items, j));
    if is_start(starts, j) {
        let n = choose |n: NonTerminalIdx| #[trigger] starts.dom().contains(n) && starts[n].0 == j;
        assert(start_ok(g, starts, a.items, n));
        lemma_clo_empty(g, start_kernel(n.0 as int), a.items[j]);
        assert(start_kernel(n.0 as int).contains(start_item(n.0 as int)));
    } else {
        let (i, x) = choose |i: int, x: Symbol| i < j && #[trigger] trans(g, a.items, i, x, j);
        lemma_kernel(g, a.items[i], x);
        lemma_clo_empty(g, kernel_of(g, a.items[i], x), a.items[j]);
    }
}
