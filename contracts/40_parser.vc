//@ module parser
//@ header
use vstd::prelude::*;
use crate::prelude::*;
use crate::theory::*;
use crate::items::*;
use crate::automaton::*;
use crate::grammar::{Symbol, NonTerminalIdx, TerminalIdx, ProductionIdx};
use crate::lr1::LR1Item;
use crate::lr_common::StateIdx;
//@ raw
// ------------------------------------------------------------------ derivation trees
/// derivation trees; a leaf carries the position of its token in the input
pub enum Tree { Leaf(TerminalIdx, int), Node(NonTerminalIdx, ProductionIdx, Seq<Tree>) }
pub open spec fn root(t: Tree) -> Symbol {
    match t { Tree::Leaf(c, _) => Symbol::Terminal(c), Tree::Node(n, _, _) => Symbol::NonTerminal(n) }
}
pub open spec fn roots(f: Seq<Tree>) -> Seq<Symbol> { Seq::new(f.len(), |i: int| root(f[i])) }
pub open spec fn tree_ok(g: G, t: Tree) -> bool
    decreases t
{
    match t {
        Tree::Leaf(c, _) => true,
        Tree::Node(n, p, ch) => {
            &&& g.has(n.0 as int, p.0 as int)
            &&& roots(ch) == g.prods[n.0 as int][p.0 as int]
            &&& forall |i: int| 0 <= i < ch.len() ==> tree_ok(g, #[trigger] ch[i])
        }
    }
}
pub open spec fn trees_ok(g: G, f: Seq<Tree>) -> bool { forall |i: int| 0 <= i < f.len() ==> tree_ok(g, #[trigger] f[i]) }
pub open spec fn yld(t: Tree) -> Seq<TerminalIdx>
    decreases t
{
    match t { Tree::Leaf(c, _) => seq![c], Tree::Node(_, _, ch) => ylds(ch) }
}
pub open spec fn ylds(f: Seq<Tree>) -> Seq<TerminalIdx>
    decreases f
{
    if f.len() == 0 { Seq::empty() } else { ylds(f.drop_last()) + yld(f.last()) }
}
pub proof fn lemma_ylds_add(a: Seq<Tree>, b: Seq<Tree>)
    ensures ylds(a + b) == ylds(a) + ylds(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(ylds(a) + ylds(b) =~= ylds(a)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        lemma_ylds_add(a, b.drop_last());
        assert(ylds(a + b) =~= ylds(a) + ylds(b));
    }
}
pub proof fn lemma_ylds_cons(f: Seq<Tree>)
    requires f.len() > 0
    ensures ylds(f) == yld(f[0]) + ylds(f.skip(1))
{
    let a = seq![f[0]];
    assert(a + f.skip(1) =~= f);
    lemma_ylds_add(a, f.skip(1));
    assert(a.drop_last() =~= Seq::<Tree>::empty());
    assert(ylds(a.drop_last()) =~= Seq::<TerminalIdx>::empty());
    assert(a.last() == f[0]);
    assert(ylds(a) =~= yld(f[0]));
}
/// the sequence of terminals is derivable from the non-terminal
pub open spec fn derives(g: G, n: NonTerminalIdx, w: Seq<TerminalIdx>) -> bool {
    exists |t: Tree| #[trigger] tree_ok(g, t) && root(t) == Symbol::NonTerminal(n) && yld(t) == w
}

// ------------------------------------------------------------------ the parsing machine
pub enum Act { Shift(int), Reduce(NonTerminalIdx, ProductionIdx), Accept }
pub struct P {
    pub g: G,
    pub a: Aut,
    pub starts: SMap<NonTerminalIdx, StateIdx>,
    pub act: spec_fn(int, Option<TerminalIdx>) -> Option<Act>,
}
pub open spec fn p_red(g: G, it: LR1Item) -> bool { it.c() == rhs(g, it).len() && !g.public[it.n()] }
pub open spec fn p_acc(g: G, it: LR1Item) -> bool { g.public[it.n()] && it.c() == 1 && it.lookahead is None }
pub open spec fn p_row_ok(p: P, i: int) -> bool {
    let s = p.a.items[i];
    let goto = p.a.goto[i];
    let g = p.g;
    &&& forall |la: Option<TerminalIdx>| match #[trigger] (p.act)(i, la) {
            Some(Act::Shift(j)) => la is Some && goto.dom().contains(Symbol::Terminal(la->0)) && goto[Symbol::Terminal(la->0)].0 == j,
            Some(Act::Reduce(n, q)) => exists |it: LR1Item| #[trigger] s.contains(it) && p_red(g, it) && it.lookahead == la
                && it.non_terminal_idx == n && it.production_idx == q,
            Some(Act::Accept) => la is None && exists |it: LR1Item| #[trigger] s.contains(it) && p_acc(g, it),
            None => true,
        }
    &&& forall |it: LR1Item| #[trigger] s.contains(it) && p_red(g, it) ==> match (p.act)(i, it.lookahead) {
            Some(Act::Shift(_)) => true,
            Some(Act::Reduce(n, q)) => n == it.non_terminal_idx && q == it.production_idx,
            _ => false,
        }
    &&& forall |it: LR1Item| #[trigger] s.contains(it) && p_acc(g, it) ==> (p.act)(i, None) == Some(Act::Accept)
    &&& forall |it: LR1Item| #[trigger] s.contains(it) && it_next(g, it) is Some && it_next(g, it)->0 is Terminal
            ==> (p.act)(i, Some(it_next(g, it)->0->Terminal_0)) is Some && (p.act)(i, Some(it_next(g, it)->0->Terminal_0))->0 is Shift
}
pub open spec fn p_ok(p: P) -> bool {
    &&& p.g.wf()
    &&& entries_ok(p.g)
    &&& aut_exact(p.g, p.a, p.starts)
    &&& forall |i: int| 0 <= i < p.a.items.len() ==> #[trigger] p_row_ok(p, i)
}
/// no shift/reduce conflict (the builder excludes the others)
pub open spec fn no_sr(p: P) -> bool {
    forall |i: int, a: LR1Item, b: LR1Item| 0 <= i < p.a.items.len() && #[trigger] p.a.items[i].contains(a) && #[trigger] p.a.items[i].contains(b)
        ==> !(p_red(p.g, a) && a.lookahead is Some && it_next(p.g, b) == Some(Symbol::Terminal(a.lookahead->0)))
}

/// the state stack is the path from the start state of n0 that spells xs
pub open spec fn edge(p: P, i: int, x: Symbol, j: int) -> bool {
    &&& 0 <= i < p.a.items.len()
    &&& p.a.goto[i].dom().contains(x)
    &&& p.a.goto[i][x].0 as int == j
}
pub open spec fn path(p: P, n0: NonTerminalIdx, st: Seq<int>, xs: Seq<Symbol>) -> bool {
    &&& st.len() == xs.len() + 1
    &&& p.starts.dom().contains(n0)
    &&& st[0] == p.starts[n0].0
    &&& forall |i: int| 0 <= i < xs.len() ==> edge(p, st[i], #[trigger] xs[i], st[i + 1])
}
pub open spec fn kern(p: P, n0: NonTerminalIdx, st: Seq<int>, xs: Seq<Symbol>) -> Items {
    if xs.len() == 0 { start_kernel(n0.0 as int) } else { kernel_of(p.g, p.a.items[st[st.len() - 2]], xs.last()) }
}
pub open spec fn top_items(p: P, st: Seq<int>) -> Items { p.a.items[st.last()] }
pub open spec fn at0(it: LR1Item) -> LR1Item { LR1Item { cursor: 0, ..it } }
pub open spec fn gt(p: P, i: int, n: NonTerminalIdx) -> int { p.a.goto[i][Symbol::NonTerminal(n)].0 as int }
/// the stack after popping k states and going to n
pub open spec fn popgo(p: P, st: Seq<int>, k: int, n: NonTerminalIdx) -> Seq<int> {
    st.take(st.len() - k).push(gt(p, st[st.len() - k - 1], n))
}
pub open spec fn red_to(p: P, st: Seq<int>, n: NonTerminalIdx, q: ProductionIdx) -> Seq<int> {
    popgo(p, st, p.g.prods[n.0 as int][q.0 as int].len() as int, n)
}

pub proof fn lemma_path_states(p: P, n0: NonTerminalIdx, st: Seq<int>, xs: Seq<Symbol>)
    requires p_ok(p), path(p, n0, st, xs)
    ensures forall |i: int| 0 <= i < st.len() ==> 0 <= #[trigger] st[i] < p.a.items.len()
{
    assert forall |i: int| 0 <= i < st.len() implies 0 <= #[trigger] st[i] < p.a.items.len() by {
        if i == 0 { assert(start_ok(p.g, p.starts, p.a.items, n0)); }
        else {
            assert(edge(p, st[i - 1], xs[i - 1], st[i - 1 + 1]));
            assert(trans(p.g, p.a.items, st[i - 1], xs[i - 1], p.a.goto[st[i - 1]][xs[i - 1]].0 as int));
        }
    }
}
pub proof fn lemma_path_take(p: P, n0: NonTerminalIdx, st: Seq<int>, xs: Seq<Symbol>, m: int)
    requires path(p, n0, st, xs), 0 <= m <= xs.len()
    ensures path(p, n0, st.take(m + 1), xs.take(m))
{
    assert forall |i: int| 0 <= i < m implies edge(p, st.take(m + 1)[i], #[trigger] xs.take(m)[i], st.take(m + 1)[i + 1]) by {
        assert(xs.take(m)[i] == xs[i]);
        assert(edge(p, st[i], xs[i], st[i + 1]));
    }
}
pub proof fn lemma_path_push(p: P, n0: NonTerminalIdx, st: Seq<int>, xs: Seq<Symbol>, x: Symbol)
    requires p_ok(p), path(p, n0, st, xs), p.a.goto[st.last()].dom().contains(x)
    ensures path(p, n0, st.push(p.a.goto[st.last()][x].0 as int), xs.push(x))
{
    lemma_path_states(p, n0, st, xs);
    let s2 = st.push(p.a.goto[st.last()][x].0 as int);
    let x2 = xs.push(x);
    assert forall |i: int| 0 <= i < x2.len() implies edge(p, s2[i], #[trigger] x2[i], s2[i + 1]) by {
        if i < xs.len() { assert(x2[i] == xs[i]); assert(edge(p, st[i], xs[i], st[i + 1])); }
    }
}
/// the items of the top state are the closure of the stack's kernel
pub proof fn lemma_top(p: P, n0: NonTerminalIdx, st: Seq<int>, xs: Seq<Symbol>)
    requires p_ok(p), path(p, n0, st, xs)
    ensures
        0 <= st.last() < p.a.items.len(),
        is_clo(p.g, kern(p, n0, st, xs), top_items(p, st)),
        items_ok(p.g, top_items(p, st)),
        p_row_ok(p, st.last()),
{
    lemma_path_states(p, n0, st, xs);
    if xs.len() == 0 { assert(start_ok(p.g, p.starts, p.a.items, n0)); }
    else {
        let m = xs.len() - 1;
        assert(edge(p, st[m], xs[m], st[m + 1]));
        assert(trans(p.g, p.a.items, st[m], xs[m], p.a.goto[st[m]][xs[m]].0 as int));
    }
}
/// an item of the kernel with its dot after something comes from an item of the state below
pub proof fn lemma_kern_back(p: P, n0: NonTerminalIdx, st: Seq<int>, xs: Seq<Symbol>, it: LR1Item) -> (a: LR1Item)
    requires p_ok(p), path(p, n0, st, xs), top_items(p, st).contains(it), it.c() > 0
    ensures
        xs.len() > 0, top_items(p, st.drop_last()).contains(a), it_next(p.g, a) == Some(xs.last()), it == adv(a), a.c() + 1 == it.c(),
        a.non_terminal_idx == it.non_terminal_idx, a.production_idx == it.production_idx, a.lookahead == it.lookahead,
{
    lemma_top(p, n0, st, xs);
    let kn = kern(p, n0, st, xs);
    assert(clo(p.g, kn, it));
    let k = choose |k: nat| in_clo(p.g, kn, it, k);
    assert(kn.contains(it));
    if xs.len() == 0 { assert(it == start_item(n0.0 as int)); }
    let s = p.a.items[st[st.len() - 2]];
    lemma_kernel(p.g, s, xs.last());
    let a = choose |a: LR1Item| #[trigger] s.contains(a) && it_next(p.g, a) == Some(xs.last()) && it == adv(a);
    assert(st.drop_last().last() == st[st.len() - 2]);
    a
}
/// an item with its dot after c symbols: the top c symbols are those, and the state below them has the item with its dot in front
pub proof fn lemma_back(p: P, n0: NonTerminalIdx, st: Seq<int>, xs: Seq<Symbol>, it: LR1Item)
    requires p_ok(p), path(p, n0, st, xs), top_items(p, st).contains(it)
    ensures
        it.c() <= xs.len(), it.c() <= rhs(p.g, it).len(),
        xs.skip(xs.len() - it.c()) == rhs(p.g, it).take(it.c()),
        top_items(p, st.take(st.len() - it.c())).contains(at0(it)),
        path(p, n0, st.take(st.len() - it.c()), xs.take(xs.len() - it.c())),
    decreases xs.len()
{
    if it.c() == 0 {
        assert(at0(it) == it);
        assert(st.take(st.len() as int) =~= st);
        assert(xs.take(xs.len() as int) =~= xs);
        assert(xs.skip(xs.len() as int) =~= rhs(p.g, it).take(0));
    } else {
        let a = lemma_kern_back(p, n0, st, xs, it);
        let m = xs.len() - 1;
        lemma_path_take(p, n0, st, xs, m);
        assert(st.take(m + 1) =~= st.drop_last());
        assert(xs.take(m) =~= xs.drop_last());
        lemma_back(p, n0, st.drop_last(), xs.drop_last(), a);
        assert(at0(a) == at0(it));
        assert(st.drop_last().take(st.len() - 1 - a.c()) =~= st.take(st.len() - it.c()));
        assert(xs.drop_last().take(xs.len() - 1 - a.c()) =~= xs.take(xs.len() - it.c()));
        let l = xs.skip(xs.len() - it.c());
        let r = rhs(p.g, it).take(it.c());
        assert(l.len() == r.len());
        assert forall |i: int| 0 <= i < l.len() implies l[i] == r[i] by {
            if i < a.c() {
                assert(l[i] == xs.drop_last().skip(xs.len() - 1 - a.c())[i]);
                assert(r[i] == rhs(p.g, a).take(a.c())[i]);
            }
        }
        assert(l =~= r);
    }
}
/// an item with its dot in front, other than the start item, was called for by another item of the state
pub proof fn lemma_parent(p: P, n0: NonTerminalIdx, st: Seq<int>, xs: Seq<Symbol>, it: LR1Item, k: nat) -> (a: LR1Item)
    requires p_ok(p), path(p, n0, st, xs), in_clo(p.g, kern(p, n0, st, xs), it, k), it.c() == 0, !p.g.public[it.n()], item_ok(p.g, it),
    ensures
        k > 0, top_items(p, st).contains(a), item_step(p.g, a, it), in_clo(p.g, kern(p, n0, st, xs), a, (k - 1) as nat),
        p.a.goto[st.last()].dom().contains(Symbol::NonTerminal(it.non_terminal_idx)),
{
    lemma_top(p, n0, st, xs);
    let kn = kern(p, n0, st, xs);
    if kn.contains(it) {
        if xs.len() == 0 {
            assert(it == start_item(n0.0 as int));
            assert(p.starts.dom().contains(n0));
            assert(it.n() == n0.0);
            assert(false);
        } else {
            let s = p.a.items[st[st.len() - 2]];
            lemma_kernel(p.g, s, xs.last());
            let a = choose |a: LR1Item| #[trigger] s.contains(a) && it_next(p.g, a) == Some(xs.last()) && it == adv(a);
            lemma_path_states(p, n0, st, xs);
            assert(items_ok(p.g, p.a.items[st[st.len() - 2]]));
            assert(p.g.has(a.n(), a.p()));
            assert(false);
        }
    }
    let a = choose |a: LR1Item| #[trigger] item_step(p.g, a, it) && in_clo(p.g, kn, a, (k - 1) as nat);
    assert(clo(p.g, kn, a));
    assert(top_items(p, st).contains(a));
    assert(it_next(p.g, a) == Some(Symbol::NonTerminal(it.non_terminal_idx)));
    assert(has_next(p.g, top_items(p, st), Symbol::NonTerminal(it.non_terminal_idx)));
    a
}
/// an item whose dot stands before x: the advanced item is in the state that x leads to
pub proof fn lemma_adv(p: P, n0: NonTerminalIdx, st: Seq<int>, xs: Seq<Symbol>, it: LR1Item, x: Symbol)
    requires p_ok(p), path(p, n0, st, xs), top_items(p, st).contains(it), it_next(p.g, it) == Some(x)
    ensures ({
        let s2 = st.push(p.a.goto[st.last()][x].0 as int);
        &&& p.a.goto[st.last()].dom().contains(x)
        &&& path(p, n0, s2, xs.push(x))
        &&& top_items(p, s2).contains(adv(it))
        &&& adv(it).c() == it.c() + 1
    }),
{
    lemma_top(p, n0, st, xs);
    assert(has_next(p.g, p.a.items[st.last()], x));
    lemma_path_push(p, n0, st, xs, x);
    let s2 = st.push(p.a.goto[st.last()][x].0 as int);
    lemma_top(p, n0, s2, xs.push(x));
    assert(s2[s2.len() - 2] == st.last());
    lemma_kernel(p.g, p.a.items[st.last()], x);
    assert(xs.push(x).last() == x);
    lemma_clo_closed(p.g, kern(p, n0, s2, xs.push(x)), top_items(p, s2));
    assert(p.g.has(it.n(), it.p()));
}
