//@ module viable
//@ header
use vstd::prelude::*;
use crate::prelude::*;
use crate::theory::*;
use crate::items::*;
use crate::automaton::*;
use crate::parser::*;
use crate::sim::*;
use crate::term::*;
use crate::grammar::{Symbol, NonTerminalIdx, TerminalIdx, ProductionIdx};
use crate::lr1::LR1Item;
use crate::lr_common::StateIdx;
//@ raw
// ------------------------------------------------------------------ C05: what is on the stack begins a sentence
/// some sentence of the entry point's own non-terminal is w followed by something that starts with u
/// (None: by nothing)
pub open spec fn goes_on(g: G, n0: NonTerminalIdx, w: Seq<TerminalIdx>, u: Option<TerminalIdx>) -> bool {
    exists |v: Seq<TerminalIdx>| head(v) == u && #[trigger] derives(g, entry_sym(g, n0), w + v)
}
/// an item, trees f for the stack and h for the rest of the item's right-hand side: a sentence goes
/// through here, and continues with the item's lookahead
pub proof fn lemma_sentence(p: P, n0: NonTerminalIdx, st: Seq<int>, f: Seq<Tree>, it: LR1Item, h: Seq<Tree>, lev: nat) -> (v: Seq<TerminalIdx>)
    requires
        p_ok(p), productive(p.g), path(p, n0, st, roots(f)), trees_ok(p.g, f), top_items(p, st).contains(it), trees_ok(p.g, h),
        it.c() <= rhs(p.g, it).len(), roots(h) == rhs(p.g, it).skip(it.c()),
        in_clo(p.g, kern(p, n0, st.take(st.len() - it.c()), roots(f).take(roots(f).len() - it.c())), at0(it), lev),
    ensures
        head(v) == it.lookahead,
        derives(p.g, entry_sym(p.g, n0), ylds(f) + ylds(h) + v),
    decreases f.len() - it.c(), lev
{
    let xs = roots(f);
    lemma_top(p, n0, st, xs);
    lemma_back(p, n0, st, xs, it);
    let l = f.len() - it.c();
    let st0 = st.take(st.len() - it.c());
    let xs0 = xs.take(l);
    let f0 = f.take(l);
    let fc = f.skip(l);
    assert(f0 + fc =~= f);
    lemma_ylds_add(f0, fc);
    assert(roots(f0) =~= xs0);
    assert forall |i: int| 0 <= i < f0.len() implies tree_ok(p.g, #[trigger] f0[i]) by { assert(f0[i] == f[i]); }
    assert forall |i: int| 0 <= i < fc.len() implies tree_ok(p.g, #[trigger] fc[i]) by { assert(fc[i] == f[l + i]); }
    lemma_top(p, n0, st0, xs0);
    if p.g.public[it.n()] {
        lemma_public_item(p, n0, st, xs, it);
        let all = f + h;
        lemma_forest_add(p.g, f, h);
        let r = rhs(p.g, it);
        assert(roots(all) =~= r) by {
            assert(xs.skip(0) =~= xs);
            assert(r.take(it.c()) + r.skip(it.c()) =~= r);
        }
        assert(all.len() == roots(all).len());
        let t = all[0];
        assert(tree_ok(p.g, all[0]));
        assert(roots(all)[0] == root(t));
        lemma_ylds_cons(all);
        assert(all.skip(1) =~= Seq::<Tree>::empty());
        assert(ylds(all.skip(1)) =~= Seq::<TerminalIdx>::empty());
        assert(ylds(all) =~= yld(t));
        let v = Seq::<TerminalIdx>::empty();
        assert(ylds(f) + ylds(h) + v =~= yld(t));
        assert(p.g.public[n0.0 as int]);
        v
    } else {
        let a = lemma_parent(p, n0, st0, xs0, at0(it), lev);
        let n = it.non_terminal_idx;
        lemma_rest_ok(p.g, a);
        let h2 = lemma_la_trees(p.g, it_rest(p.g, a), a.lookahead, it.lookahead);
        let ch = fc + h;
        lemma_forest_add(p.g, fc, h);
        let r = rhs(p.g, it);
        assert(roots(fc) =~= xs.skip(l));
        assert(roots(ch) =~= r) by {
            assert(r.take(it.c()) + r.skip(it.c()) =~= r);
        }
        let t = Tree::Node(n, it.production_idx, ch);
        assert(p.g.has(it.n(), it.p()));
        assert forall |i: int| 0 <= i < ch.len() implies tree_ok(p.g, #[trigger] ch[i]) by {}
        assert(tree_ok(p.g, t));
        assert(yld(t) == ylds(ch));
        let one = Seq::<Tree>::empty().push(t);
        lemma_forest_push(p.g, Seq::<Tree>::empty(), t);
        let h3 = one + h2;
        lemma_forest_add(p.g, one, h2);
        assert(ylds(Seq::<Tree>::empty()) =~= Seq::<TerminalIdx>::empty());
        assert(ylds(one) =~= yld(t));
        assert(roots(h3) =~= rhs(p.g, a).skip(a.c())) by {
            assert(roots(Seq::<Tree>::empty()) =~= Seq::<Symbol>::empty());
            assert(it_next(p.g, a) == Some(Symbol::NonTerminal(n)));
            assert(rhs(p.g, a).skip(a.c())[0] == rhs(p.g, a)[a.c()]);
            assert(roots(one) =~= seq![root(t)]);
            assert(seq![rhs(p.g, a)[a.c()]] + it_rest(p.g, a) =~= rhs(p.g, a).skip(a.c()));
        }
        lemma_back(p, n0, st0, xs0, a);
        let st1 = st0.take(st0.len() - a.c());
        let xs1 = xs0.take(xs0.len() - a.c());
        let mut l2: nat = (lev - 1) as nat;
        if a.c() == 0 {
            assert(st1 =~= st0);
            assert(xs1 =~= xs0);
            assert(at0(a) == a);
        } else {
            lemma_top(p, n0, st1, xs1);
            assert(clo(p.g, kern(p, n0, st1, xs1), at0(a)));
            l2 = choose |j: nat| in_clo(p.g, kern(p, n0, st1, xs1), at0(a), j);
        }
        let v2 = lemma_sentence(p, n0, st0, f0, a, h3, l2);
        let v = ylds(h2) + v2;
        assert(ylds(f0) + ylds(h3) + v2 =~= ylds(f) + ylds(h) + v);
        v
    }
}
/// the rest of an item can be completed by trees that begin (followed by the item's lookahead) with a
/// terminal after its dot, or anyhow
pub proof fn lemma_item_goes_on(p: P, n0: NonTerminalIdx, st: Seq<int>, f: Seq<Tree>, it: LR1Item, u: Option<TerminalIdx>)
    requires
        p_ok(p), productive(p.g), path(p, n0, st, roots(f)), trees_ok(p.g, f), top_items(p, st).contains(it),
        (it.c() == rhs(p.g, it).len() && it.lookahead == u) || (u is Some && it_next(p.g, it) == Some(Symbol::Terminal(u->0))),
    ensures goes_on(p.g, n0, ylds(f), u)
{
    let xs = roots(f);
    lemma_top(p, n0, st, xs);
    lemma_back(p, n0, st, xs, it);
    let st0 = st.take(st.len() - it.c());
    let xs0 = xs.take(xs.len() - it.c());
    lemma_top(p, n0, st0, xs0);
    assert(clo(p.g, kern(p, n0, st0, xs0), at0(it)));
    let lev = choose |j: nat| in_clo(p.g, kern(p, n0, st0, xs0), at0(it), j);
    let r = rhs(p.g, it);
    if it.c() == r.len() {
        let h = Seq::<Tree>::empty();
        assert(roots(h) =~= r.skip(it.c()));
        let v = lemma_sentence(p, n0, st, f, it, h, lev);
        assert(ylds(h) =~= Seq::<TerminalIdx>::empty());
        assert(ylds(f) + ylds(h) + v =~= ylds(f) + v);
    } else {
        lemma_rest_ok(p.g, it);
        let h2 = lemma_any_forest(p.g, it_rest(p.g, it));
        let t = Tree::Leaf(u->0, 0);
        let e = Seq::<Tree>::empty();
        lemma_forest_push(p.g, e, t);
        lemma_forest_add(p.g, e.push(t), h2);
        let h = e.push(t) + h2;
        assert(yld(t) =~= seq![u->0]);
        assert(ylds(e) =~= Seq::<TerminalIdx>::empty());
        assert(roots(h) =~= r.skip(it.c())) by {
            assert(r.skip(it.c())[0] == r[it.c()]);
            assert(roots(e) =~= Seq::<Symbol>::empty());
            assert(roots(e.push(t)) =~= seq![root(t)]);
            assert(seq![r[it.c()]] + it_rest(p.g, it) =~= r.skip(it.c()));
        }
        let v = lemma_sentence(p, n0, st, f, it, h, lev);
        let v2 = ylds(h) + v;
        assert(v2[0] == u->0);
        assert(ylds(f) + ylds(h) + v =~= ylds(f) + v2);
    }
}
/// C05: if the machine has an action on u, a sentence goes on with u
pub proof fn lemma_act_goes_on(p: P, n0: NonTerminalIdx, st: Seq<int>, f: Seq<Tree>, u: Option<TerminalIdx>)
    requires p_ok(p), productive(p.g), path(p, n0, st, roots(f)), trees_ok(p.g, f), (p.act)(st.last(), u) is Some
    ensures goes_on(p.g, n0, ylds(f), u)
{
    let xs = roots(f);
    lemma_top(p, n0, st, xs);
    match (p.act)(st.last(), u)->0 {
        Act::Shift(j) => {
            let x = Symbol::Terminal(u->0);
            assert(trans(p.g, p.a.items, st.last(), x, p.a.goto[st.last()][x].0 as int));
            let it = choose |b: LR1Item| #[trigger] top_items(p, st).contains(b) && it_next(p.g, b) == Some(x);
            lemma_item_goes_on(p, n0, st, f, it, u);
        }
        Act::Reduce(n, q) => {
            let it = choose |it: LR1Item| #[trigger] top_items(p, st).contains(it) && p_red(p.g, it) && it.lookahead == u
                && it.non_terminal_idx == n && it.production_idx == q;
            lemma_item_goes_on(p, n0, st, f, it, u);
        }
        Act::Accept => {
            let it = choose |it: LR1Item| #[trigger] top_items(p, st).contains(it) && p_acc(p.g, it);
            lemma_public_item(p, n0, st, xs, it);
            lemma_item_goes_on(p, n0, st, f, it, u);
        }
    }
}
/// C05: what is on the stack begins some sentence
pub proof fn lemma_stack_goes_on(p: P, n0: NonTerminalIdx, st: Seq<int>, f: Seq<Tree>) -> (v: Seq<TerminalIdx>)
    requires p_ok(p), productive(p.g), path(p, n0, st, roots(f)), trees_ok(p.g, f)
    ensures derives(p.g, entry_sym(p.g, n0), ylds(f) + v)
{
    let xs = roots(f);
    lemma_top(p, n0, st, xs);
    lemma_top_some(p, n0, st, xs);
    let it = choose |it: LR1Item| #[trigger] top_items(p, st).contains(it);
    lemma_back(p, n0, st, xs, it);
    let st0 = st.take(st.len() - it.c());
    let xs0 = xs.take(xs.len() - it.c());
    lemma_top(p, n0, st0, xs0);
    assert(clo(p.g, kern(p, n0, st0, xs0), at0(it)));
    let lev = choose |j: nat| in_clo(p.g, kern(p, n0, st0, xs0), at0(it), j);
    lemma_rest_ok(p.g, it);
    let h = lemma_any_forest(p.g, rhs(p.g, it).skip(it.c()));
    let v = lemma_sentence(p, n0, st, f, it, h, lev);
    assert(ylds(f) + ylds(h) + v =~= ylds(f) + (ylds(h) + v));
    ylds(h) + v
}
pub proof fn lemma_top_some(p: P, n0: NonTerminalIdx, st: Seq<int>, xs: Seq<Symbol>)
    requires p_ok(p), path(p, n0, st, xs)
    ensures exists |it: LR1Item| #[trigger] top_items(p, st).contains(it)
{
    lemma_top(p, n0, st, xs);
    let kn = kern(p, n0, st, xs);
    lemma_clo_closed(p.g, kn, top_items(p, st));
    if xs.len() == 0 { assert(kn.contains(start_item(n0.0 as int))); }
    else {
        let m = xs.len() - 1;
        assert(edge(p, st[m], xs[m], st[m + 1]));
        assert(trans(p.g, p.a.items, st[m], xs[m], p.a.goto[st[m]][xs[m]].0 as int));
        let s = p.a.items[st[m]];
        lemma_kernel(p.g, s, xs[m]);
        let a = choose |a: LR1Item| #[trigger] s.contains(a) && it_next(p.g, a) == Some(xs[m]);
        assert(kn.contains(adv(a)));
    }
}
