//@ module sim
//@ header
use vstd::prelude::*;
use crate::prelude::*;
use crate::theory::*;
use crate::items::*;
use crate::automaton::*;
use crate::parser::*;
use crate::grammar::{Symbol, NonTerminalIdx, TerminalIdx, ProductionIdx};
use crate::lr1::LR1Item;
use crate::lr_common::StateIdx;
//@ raw
// ------------------------------------------------------------------ C02: sentences are accepted
pub open spec fn head(z: Seq<TerminalIdx>) -> Option<TerminalIdx> { if z.len() > 0 { Some(z[0]) } else { None } }

pub proof fn lemma_tree_first(g: G, t: Tree)
    requires tree_ok(g, t)
    ensures
        yld(t).len() > 0 ==> firsts(g, root(t), yld(t)[0]),
        yld(t).len() == 0 ==> nullable_sym(g, root(t)),
    decreases t
{
    match t {
        Tree::Leaf(c, _) => { assert(first_sym(g, root(t), c, 0)); }
        Tree::Node(n, q, ch) => {
            lemma_forest_first(g, ch);
            let r = g.prods[n.0 as int][q.0 as int];
            if yld(t).len() > 0 {
                let c = yld(t)[0];
                let i = choose |i: int| 0 <= i < ch.len() && #[trigger] pf_at(g, roots(ch), i, c);
                lemma_first_intro(g, n.0 as int, q.0 as int, i, c);
                let k = choose |k: nat| first_nt(g, n.0 as int, c, k);
                assert(first_sym(g, root(t), c, k));
            } else {
                lemma_nullable_intro(g, n.0 as int, q.0 as int);
                let k = choose |k: nat| null_nt(g, n.0 as int, k);
                assert(null_sym(g, root(t), k));
            }
        }
    }
}
pub proof fn lemma_forest_first(g: G, f: Seq<Tree>)
    requires trees_ok(g, f)
    ensures
        ylds(f).len() > 0 ==> pf(g, roots(f), f.len() as int, ylds(f)[0]),
        ylds(f).len() == 0 ==> nullable_seq(g, roots(f)),
    decreases f
{
    if f.len() > 0 {
        let d = f.drop_last();
        assert forall |i: int| 0 <= i < d.len() implies tree_ok(g, #[trigger] d[i]) by { assert(d[i] == f[i]); }
        lemma_forest_first(g, d);
        assert(tree_ok(g, f[f.len() - 1]));
        lemma_tree_first(g, f.last());
        assert(roots(d) =~= roots(f).take(d.len() as int));
        if ylds(d).len() > 0 {
            let c = ylds(d)[0];
            let i = choose |i: int| 0 <= i < d.len() && #[trigger] pf_at(g, roots(d), i, c);
            assert(roots(d).take(i) =~= roots(f).take(i));
            assert(pf_at(g, roots(f), i, c));
        } else if ylds(f).len() > 0 {
            assert(ylds(f)[0] == yld(f.last())[0]);
            assert(pf_at(g, roots(f), d.len() as int, ylds(f)[0]));
        } else {
            assert forall |i: int| 0 <= i < roots(f).len() implies nullable_sym(g, #[trigger] roots(f)[i]) by {
                if i < d.len() { assert(roots(f)[i] == roots(d)[i]); }
            }
        }
    }
}
/// what follows a forest whose continuation is z can be predicted from z's first terminal
pub proof fn lemma_la_forest(g: G, f: Seq<Tree>, la: Option<TerminalIdx>, z: Seq<TerminalIdx>)
    requires trees_ok(g, f), la == head(z)
    ensures la_first(g, roots(f), la, head(ylds(f) + z))
{
    lemma_forest_first(g, f);
    if ylds(f).len() > 0 { assert((ylds(f) + z)[0] == ylds(f)[0]); }
    else { assert(ylds(f) + z =~= z); }
}

/// the machine, run on stack st and remaining input z, accepts within k steps
pub open spec fn acc_in(p: P, st: Seq<int>, z: Seq<TerminalIdx>, k: nat) -> bool
    decreases k
{
    match (p.act)(st.last(), head(z)) {
        Some(Act::Shift(j)) => k > 0 && z.len() > 0 && acc_in(p, st.push(j), z.skip(1), (k - 1) as nat),
        Some(Act::Reduce(n, q)) => k > 0 && acc_in(p, red_to(p, st, n, q), z, (k - 1) as nat),
        Some(Act::Accept) => z.len() == 0,
        None => false,
    }
}
pub open spec fn accepts_rest(p: P, st: Seq<int>, z: Seq<TerminalIdx>) -> bool { exists |k: nat| acc_in(p, st, z, k) }

/// no referenced non-terminal is public
pub proof fn lemma_ref_private(p: P, it: LR1Item)
    requires p_ok(p), item_ok(p.g, it), it_next(p.g, it) is Some, it_next(p.g, it)->0 is NonTerminal
    ensures !p.g.public[it_next(p.g, it)->0->NonTerminal_0.0 as int], (it_next(p.g, it)->0->NonTerminal_0.0 as int) < p.g.prods.len()
{
    assert(p.g.at(it.n(), it.p(), it.c()));
    assert(p.g.sym_ok(p.g.prods[it.n()][it.p()][it.c()]));
}
pub proof fn lemma_complete_reduces(p: P, n0: NonTerminalIdx, st: Seq<int>, xs: Seq<Symbol>, it: LR1Item)
    requires p_ok(p), no_sr(p), path(p, n0, st, xs), top_items(p, st).contains(it), p_red(p.g, it)
    ensures (p.act)(st.last(), it.lookahead) == Some(Act::Reduce(it.non_terminal_idx, it.production_idx))
{
    lemma_top(p, n0, st, xs);
    let s = top_items(p, st);
    if let Some(Act::Shift(j)) = (p.act)(st.last(), it.lookahead) {
        let x = Symbol::Terminal(it.lookahead->0);
        assert(p.a.goto[st.last()].dom().contains(x));
        assert(trans(p.g, p.a.items, st.last(), x, p.a.goto[st.last()][x].0 as int));
        let b = choose |b: LR1Item| #[trigger] s.contains(b) && it_next(p.g, b) == Some(x);
        assert(s.contains(b) && s.contains(it));
    }
}
pub proof fn lemma_sim_tree(p: P, n0: NonTerminalIdx, st: Seq<int>, xs: Seq<Symbol>, it: LR1Item, t: Tree, z: Seq<TerminalIdx>, m: nat) -> (k: nat)
    requires
        p_ok(p), no_sr(p), path(p, n0, st, xs), top_items(p, st).contains(it), tree_ok(p.g, t), it_next(p.g, it) == Some(root(t)),
        la_first(p.g, it_rest(p.g, it), it.lookahead, head(z)),
        acc_in(p, st.push(p.a.goto[st.last()][root(t)].0 as int), z, m),
    ensures acc_in(p, st, yld(t) + z, k)
    decreases t
{
    lemma_top(p, n0, st, xs);
    match t {
        Tree::Leaf(c, _) => {
            let w = yld(t) + z;
            assert(w[0] == c);
            assert(w.skip(1) =~= z);
            m + 1
        }
        Tree::Node(n, q, ch) => {
            let b = LR1Item { non_terminal_idx: n, production_idx: q, cursor: 0, lookahead: head(z) };
            assert(item_step(p.g, it, b));
            lemma_clo_closed(p.g, kern(p, n0, st, xs), top_items(p, st));
            assert(step_closed(p.g, top_items(p, st), it));
            lemma_ref_private(p, it);
            assert(roots(ch) =~= rhs(p.g, b).skip(0));
            assert(st.take(st.len() - 0) =~= st);
            assert(popgo(p, st, 0, n) =~= st.push(p.a.goto[st.last()][root(t)].0 as int));
            lemma_sim_forest(p, n0, st, xs, b, ch, z, m)
        }
    }
}
pub proof fn lemma_sim_forest(p: P, n0: NonTerminalIdx, st: Seq<int>, xs: Seq<Symbol>, b: LR1Item, f: Seq<Tree>, z: Seq<TerminalIdx>, m: nat) -> (k: nat)
    requires
        p_ok(p), no_sr(p), path(p, n0, st, xs), top_items(p, st).contains(b), trees_ok(p.g, f), b.lookahead == head(z),
        !p.g.public[b.n()], b.c() <= rhs(p.g, b).len(), roots(f) == rhs(p.g, b).skip(b.c()),
        acc_in(p, popgo(p, st, b.c(), b.non_terminal_idx), z, m),
    ensures acc_in(p, st, ylds(f) + z, k)
    decreases f
{
    if f.len() == 0 {
        assert(roots(f).len() == 0);
        lemma_complete_reduces(p, n0, st, xs, b);
        assert(ylds(f) + z =~= z);
        m + 1
    } else {
        let t = f[0];
        let r = f.skip(1);
        assert(roots(f)[0] == root(t));
        assert(roots(f).len() == rhs(p.g, b).skip(b.c()).len());
        assert(rhs(p.g, b).skip(b.c())[0] == rhs(p.g, b)[b.c()]);
        assert(it_next(p.g, b) == Some(root(t)));
        lemma_back(p, n0, st, xs, b);
        lemma_adv(p, n0, st, xs, b, root(t));
        let s2 = st.push(p.a.goto[st.last()][root(t)].0 as int);
        let b2 = adv(b);
        assert(roots(r) =~= rhs(p.g, b2).skip(b2.c())) by {
            assert forall |i: int| 0 <= i < roots(r).len() implies roots(r)[i] == rhs(p.g, b2).skip(b2.c())[i] by {
                assert(roots(f)[i + 1] == rhs(p.g, b).skip(b.c())[i + 1]);
                assert(rhs(p.g, b).skip(b.c())[i + 1] == rhs(p.g, b)[b.c() + i + 1]);
                assert(rhs(p.g, b2).skip(b2.c())[i] == rhs(p.g, b2)[b2.c() + i]);
            }
            assert(roots(f).len() == rhs(p.g, b).skip(b.c()).len());
        }
        assert(s2.take(s2.len() - b2.c()) =~= st.take(st.len() - b.c()));
        assert(s2[s2.len() - b2.c() - 1] == st[st.len() - b.c() - 1]);
        assert forall |i: int| 0 <= i < r.len() implies tree_ok(p.g, #[trigger] r[i]) by { assert(r[i] == f[i + 1]); }
        let k1 = lemma_sim_forest(p, n0, s2, xs.push(root(t)), b2, r, z, m);
        lemma_la_forest(p.g, r, b.lookahead, z);
        assert(it_rest(p.g, b) =~= roots(r));
        assert(tree_ok(p.g, f[0]));
        let k = lemma_sim_tree(p, n0, st, xs, b, t, ylds(r) + z, k1);
        lemma_ylds_cons(f);
        assert(yld(t) + (ylds(r) + z) =~= ylds(f) + z);
        k
    }
}
/// C02: the machine accepts every sentence of the entry point's own non-terminal
pub open spec fn entry_sym(g: G, n0: NonTerminalIdx) -> NonTerminalIdx { g.prods[n0.0 as int][0][0]->NonTerminal_0 }
pub proof fn lemma_accepts_sentences(p: P, n0: NonTerminalIdx, w: Seq<TerminalIdx>)
    requires p_ok(p), no_sr(p), p.starts.dom().contains(n0), derives(p.g, entry_sym(p.g, n0), w)
    ensures accepts_rest(p, seq![p.starts[n0].0 as int], w)
{
    let st = seq![p.starts[n0].0 as int];
    let xs = Seq::<Symbol>::empty();
    let n = n0.0 as int;
    assert(p.g.public[n]);
    assert(path(p, n0, st, xs));
    lemma_top(p, n0, st, xs);
    let it = start_item(n);
    lemma_clo_closed(p.g, kern(p, n0, st, xs), top_items(p, st));
    assert(kern(p, n0, st, xs).contains(it));
    let t = choose |t: Tree| #[trigger] tree_ok(p.g, t) && root(t) == Symbol::NonTerminal(entry_sym(p.g, n0)) && yld(t) == w;
    assert(it_next(p.g, it) == Some(root(t)));
    lemma_adv(p, n0, st, xs, it, root(t));
    let s2 = st.push(p.a.goto[st.last()][root(t)].0 as int);
    let z = Seq::<TerminalIdx>::empty();
    lemma_top(p, n0, s2, xs.push(root(t)));
    assert(p_acc(p.g, adv(it)));
    assert(acc_in(p, s2, z, 0));
    assert(it_rest(p.g, it).len() == 0);
    assert(nullable_seq(p.g, it_rest(p.g, it)));
    let k = lemma_sim_tree(p, n0, st, xs, it, t, z, 0);
    assert(yld(t) + z =~= w);
}
