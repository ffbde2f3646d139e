//@ module automaton
//@ header
use vstd::prelude::*;
use crate::prelude::*;
use crate::theory::*;
use crate::items::*;
use crate::grammar::{Symbol, NonTerminalIdx, TerminalIdx, ProductionIdx};
use crate::lr1::LR1Item;
use crate::lr_common::StateIdx;
//@ raw
pub type Items = SSet<LR1Item>;
/// abstract automaton
pub struct Aut { pub items: Seq<Items>, pub goto: Seq<SMap<Symbol, StateIdx>> }

/// what lowering guarantees about entry points: each public non-terminal has the single production
/// `X -> Y`, Y is not public, and no production refers to a public non-terminal
pub open spec fn entries_ok(g: G) -> bool {
    &&& forall |n: int| 0 <= n < g.prods.len() && #[trigger] g.public[n] ==> g.prods[n].len() == 1 && g.prods[n][0].len() == 1
            && g.prods[n][0][0] is NonTerminal
    &&& forall |n: int, p: int, i: int| #[trigger] g.at(n, p, i) && g.prods[n][p][i] is NonTerminal
            ==> !g.public[g.prods[n][p][i]->NonTerminal_0.0 as int]
}
pub open spec fn start_item(n: int) -> LR1Item { mk(n, 0, 0, None) }
pub open spec fn start_kernel(n: int) -> Items { SSet::<LR1Item>::empty().insert(start_item(n)) }

pub open spec fn trans(g: G, items: Seq<Items>, i: int, x: Symbol, j: int) -> bool {
    &&& 0 <= i < items.len() && 0 <= j < items.len()
    &&& has_next(g, items[i], x)
    &&& is_clo(g, kernel_of(g, items[i], x), items[j])
}
pub open spec fn map_ok(m: SMap<Items, StateIdx>, items: Seq<Items>) -> bool {
    &&& forall |j: int| 0 <= j < items.len() ==> m.dom().contains(#[trigger] items[j]) && m[items[j]].0 == j
    &&& forall |s: Items| #[trigger] m.dom().contains(s) ==> (m[s].0 as int) < items.len() && items[m[s].0 as int] == s
}
pub open spec fn all_ok(g: G, items: Seq<Items>) -> bool { forall |j: int| 0 <= j < items.len() ==> items_ok(g, #[trigger] items[j]) }
pub open spec fn is_start(starts: SMap<NonTerminalIdx, StateIdx>, j: int) -> bool {
    exists |n: NonTerminalIdx| #[trigger] starts.dom().contains(n) && starts[n].0 == j
}
pub open spec fn start_ok(g: G, starts: SMap<NonTerminalIdx, StateIdx>, items: Seq<Items>, n: NonTerminalIdx) -> bool {
    (starts[n].0 as int) < items.len() && is_clo(g, start_kernel(n.0 as int), items[starts[n].0 as int])
}
/// starts of the public non-terminals below m
pub open spec fn starts_ok(g: G, starts: SMap<NonTerminalIdx, StateIdx>, items: Seq<Items>, m: int) -> bool {
    forall |n: NonTerminalIdx| (#[trigger] starts.dom().contains(n) <==> (n.0 as int) < m && g.public[n.0 as int])
        && (starts.dom().contains(n) ==> start_ok(g, starts, items, n))
}
/// every state is a start state or is reached from an earlier state
pub open spec fn reach_ok(g: G, starts: SMap<NonTerminalIdx, StateIdx>, items: Seq<Items>) -> bool {
    forall |j: int| 0 <= j < items.len() ==> #[trigger] reached(g, starts, items, j)
}
pub open spec fn reached(g: G, starts: SMap<NonTerminalIdx, StateIdx>, items: Seq<Items>, j: int) -> bool {
    is_start(starts, j) || exists |i: int, x: Symbol| i < j && #[trigger] trans(g, items, i, x, j)
}
pub open spec fn goto_ok(g: G, items: Seq<Items>, goto: Seq<SMap<Symbol, StateIdx>>) -> bool {
    &&& goto.len() <= items.len()
    &&& forall |i: int, x: Symbol| 0 <= i < goto.len() && #[trigger] goto[i].dom().contains(x) ==> trans(g, items, i, x, goto[i][x].0 as int)
}
pub open spec fn goto_complete(g: G, items: Seq<Items>, goto: Seq<SMap<Symbol, StateIdx>>) -> bool {
    forall |i: int, x: Symbol| 0 <= i < items.len() && #[trigger] has_next(g, items[i], x) ==> goto[i].dom().contains(x)
}
pub open spec fn distinct(items: Seq<Items>) -> bool {
    forall |i: int, j: int| 0 <= i < items.len() && 0 <= j < items.len() && items[i] == items[j] ==> i == j
}
/// C11: the canonical LR(1) collection
pub open spec fn aut_exact(g: G, a: Aut, starts: SMap<NonTerminalIdx, StateIdx>) -> bool {
    &&& a.goto.len() == a.items.len()
    &&& all_ok(g, a.items)
    &&& distinct(a.items)
    &&& starts_ok(g, starts, a.items, g.prods.len() as int)
    &&& goto_ok(g, a.items, a.goto)
    &&& goto_complete(g, a.items, a.goto)
    &&& reach_ok(g, starts, a.items)
}
/// what holds of the automaton while it is being built
pub open spec fn aut_inv(g: G, items: Seq<Items>, goto: Seq<SMap<Symbol, StateIdx>>, starts: SMap<NonTerminalIdx, StateIdx>, m: SMap<Items, StateIdx>) -> bool {
    &&& all_ok(g, items)
    &&& map_ok(m, items)
    &&& starts_ok(g, starts, items, g.prods.len() as int)
    &&& goto_ok(g, items, goto)
    &&& reach_ok(g, starts, items)
}

/// of the items with a public non-terminal, only the start item itself is in its closure
pub proof fn lemma_start_only(g: G, n: int, it: LR1Item, k: nat)
    requires g.wf(), entries_ok(g), 0 <= n < g.prods.len(), g.public[n], in_clo(g, start_kernel(n), it, k), g.public[it.n()]
    ensures it == start_item(n)
    decreases k
{
    if !start_kernel(n).contains(it) {
        let a = choose |a: LR1Item| #[trigger] item_step(g, a, it) && in_clo(g, start_kernel(n), a, (k - 1) as nat);
        assert(items_ok(g, start_kernel(n)));
        lemma_clo_ok(g, start_kernel(n), a, (k - 1) as nat);
        assert(g.at(a.n(), a.p(), a.c()));
    }
}
pub proof fn lemma_new_start(g: G, starts: SMap<NonTerminalIdx, StateIdx>, items: Seq<Items>, m: SMap<Items, StateIdx>, n: NonTerminalIdx, c: Items)
    requires
        g.wf(), entries_ok(g), (n.0 as int) < g.prods.len(), g.public[n.0 as int],
        map_ok(m, items), all_ok(g, items), starts_ok(g, starts, items, n.0 as int),
        forall |j: int| 0 <= j < items.len() ==> #[trigger] is_start(starts, j),
        is_clo(g, start_kernel(n.0 as int), c), items_ok(g, c), items.len() <= usize::MAX,
    ensures ({
        let s2 = starts.insert(n, StateIdx(items.len() as usize));
        let i2 = items.push(c);
        &&& map_ok(m.insert(c, StateIdx(items.len() as usize)), i2)
        &&& all_ok(g, i2)
        &&& starts_ok(g, s2, i2, n.0 + 1)
        &&& forall |j: int| 0 <= j < i2.len() ==> #[trigger] is_start(s2, j)
    }),
{
    let s2 = starts.insert(n, StateIdx(items.len() as usize));
    let i2 = items.push(c);
    let m2 = m.insert(c, StateIdx(items.len() as usize));
    // c is new: it contains the start item of n, the others do not
    assert forall |j: int| 0 <= j < items.len() implies #[trigger] items[j] != c by {
        assert(is_start(starts, j));
        let q = choose |q: NonTerminalIdx| #[trigger] starts.dom().contains(q) && starts[q].0 == j;
        assert(start_ok(g, starts, items, q));
        lemma_clo_base(g, start_kernel(n.0 as int), start_item(n.0 as int));
        assert(c.contains(start_item(n.0 as int)));
        if items[j] == c {
            let k = choose |k: nat| in_clo(g, start_kernel(q.0 as int), start_item(n.0 as int), k);
            lemma_start_only(g, q.0 as int, start_item(n.0 as int), k);
            assert(start_item(n.0 as int).n() == n.0 && start_item(q.0 as int).n() == q.0);
        }
    }
    assert forall |q: NonTerminalIdx| (#[trigger] s2.dom().contains(q) <==> (q.0 as int) < n.0 + 1 && g.public[q.0 as int])
        && (s2.dom().contains(q) ==> start_ok(g, s2, i2, q)) by {
        assert(starts.dom().contains(q) <==> (q.0 as int) < n.0 as int && g.public[q.0 as int]);
        if starts.dom().contains(q) { assert(start_ok(g, starts, items, q)); }
        if q.0 == n.0 { assert(q == n); }
    }
    assert forall |j: int| 0 <= j < i2.len() implies #[trigger] is_start(s2, j) by {
        if j < items.len() {
            assert(is_start(starts, j));
            let q = choose |q: NonTerminalIdx| #[trigger] starts.dom().contains(q) && starts[q].0 == j;
            assert(s2.dom().contains(q) && s2[q].0 == j);
        } else {
            assert(s2.dom().contains(n));
        }
    }
}
/// adding a state reached from an existing one
pub proof fn lemma_new_state(g: G, items: Seq<Items>, goto: Seq<SMap<Symbol, StateIdx>>, starts: SMap<NonTerminalIdx, StateIdx>, m: SMap<Items, StateIdx>,
    i: int, x: Symbol, c: Items)
    requires
        aut_inv(g, items, goto, starts, m),
        0 <= i < items.len(), has_next(g, items[i], x), is_clo(g, kernel_of(g, items[i], x), c), items_ok(g, c), !m.dom().contains(c),
        items.len() <= usize::MAX,
    ensures
        aut_inv(g, items.push(c), goto, starts, m.insert(c, StateIdx(items.len() as usize))),
        trans(g, items.push(c), i, x, items.len() as int),
        forall |a: int, y: Symbol, b: int| #[trigger] trans(g, items, a, y, b) ==> trans(g, items.push(c), a, y, b),
{
    let i2 = items.push(c);
    let m2 = m.insert(c, StateIdx(items.len() as usize));
    assert(trans(g, i2, i, x, items.len() as int));
    assert forall |a: int, y: Symbol, b: int| #[trigger] trans(g, items, a, y, b) implies trans(g, i2, a, y, b) by {}
    assert forall |j: int| 0 <= j < i2.len() implies m2.dom().contains(#[trigger] i2[j]) && m2[i2[j]].0 == j by {
        if j < items.len() { assert(i2[j] == items[j]); }
    }
    assert forall |n: NonTerminalIdx| (#[trigger] starts.dom().contains(n) <==> (n.0 as int) < g.prods.len() && g.public[n.0 as int])
        && (starts.dom().contains(n) ==> start_ok(g, starts, i2, n)) by {
        if starts.dom().contains(n) { assert(start_ok(g, starts, items, n)); }
    }
    assert forall |j: int| 0 <= j < i2.len() implies #[trigger] reached(g, starts, i2, j) by {
        if j < items.len() {
            assert(reached(g, starts, items, j));
            if !is_start(starts, j) {
                let (a, y) = choose |a: int, y: Symbol| a < j && #[trigger] trans(g, items, a, y, j);
                assert(trans(g, i2, a, y, j));
            }
        } else {
            assert(trans(g, i2, i, x, j) && i < j);
        }
    }
}
/// recording a transition
pub proof fn lemma_new_goto(g: G, items: Seq<Items>, goto: Seq<SMap<Symbol, StateIdx>>, i: int, x: Symbol, j: StateIdx)
    requires goto_ok(g, items, goto), 0 <= i < goto.len(), trans(g, items, i, x, j.0 as int)
    ensures
        goto_ok(g, items, goto.update(i, goto[i].insert(x, j))),
        forall |a: int, y: Symbol| 0 <= a < goto.len() && #[trigger] goto[a].dom().contains(y) ==> goto.update(i, goto[i].insert(x, j))[a].dom().contains(y),
        goto.update(i, goto[i].insert(x, j))[i].dom().contains(x),
{
    let g2 = goto.update(i, goto[i].insert(x, j));
    assert forall |a: int, y: Symbol| 0 <= a < g2.len() && #[trigger] g2[a].dom().contains(y) implies trans(g, items, a, y, g2[a][y].0 as int) by {
        if a == i { if y != x { assert(goto[i].dom().contains(y)); } } else { assert(goto[a].dom().contains(y)); }
    }
}

// ------------------------------------------------------------------ there are finitely many states
pub open spec fn pow(s: Items) -> SSet<Items>
    decreases s.len() via pow_dec
{
    if s.len() == 0 { SSet::<Items>::empty().insert(SSet::<LR1Item>::empty()) }
    else {
        let x = s.choose();
        let p = pow(s.remove(x));
        p.union(p.map(|q: Items| q.insert(x)))
    }
}
#[via_fn]
proof fn pow_dec(s: Items) {
    if s.len() != 0 { assert(s.contains(s.choose())); }
}
pub proof fn lemma_pow(s: Items, t: Items)
    requires t.subset_of(s)
    ensures pow(s).contains(t)
    decreases s.len()
{
    if s.len() == 0 {
        assert(s =~= SSet::<LR1Item>::empty());
        assert(t =~= SSet::<LR1Item>::empty());
    } else {
        let x = s.choose();
        assert(s.contains(x));
        let p = pow(s.remove(x));
        lemma_pow(s.remove(x), t.remove(x));
        if t.contains(x) {
            assert(t.remove(x).insert(x) =~= t);
            assert(p.map(|q: Items| q.insert(x)).contains(t));
        } else {
            assert(t.remove(x) =~= t);
        }
    }
}
pub open spec fn max_states(g: G) -> nat { pow(universe(g)).len() }
pub proof fn lemma_states_bound(g: G, items: Seq<Items>, m: SMap<Items, StateIdx>)
    requires g.wf(), all_ok(g, items), map_ok(m, items)
    ensures items.len() <= max_states(g), distinct(items)
{
    assert(items.no_duplicates());
    items.unique_seq_to_set();
    assert forall |s: Items| items.to_set().contains(s) implies pow(universe(g)).contains(s) by {
        let j = choose |j: int| 0 <= j < items.len() && items[j] == s;
        assert(items_ok(g, items[j]));
        lemma_universe(g, s);
        lemma_pow(universe(g), s);
    }
    vstd::set_lib::lemma_len_subset(items.to_set(), pow(universe(g)));
}
