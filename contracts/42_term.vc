//@ module term
//@ header
use vstd::prelude::*;
use crate::prelude::*;
use crate::theory::*;
use crate::items::*;
use crate::automaton::*;
use crate::parser::*;
use crate::sim::*;
use crate::grammar::{Symbol, NonTerminalIdx, TerminalIdx, ProductionIdx};
use crate::lr1::LR1Item;
use crate::lr_common::StateIdx;
//@ raw
// ------------------------------------------------------------------ trees from productivity, nullability and FIRST
pub open spec fn has_tree(g: G, s: Symbol) -> bool { exists |t: Tree| #[trigger] tree_ok(g, t) && root(t) == s }
/// every non-terminal derives some sequence of terminals
pub open spec fn productive(g: G) -> bool { forall |s: Symbol| g.sym_ok(s) ==> #[trigger] has_tree(g, s) }
pub open spec fn syms_ok(g: G, r: Seq<Symbol>) -> bool { forall |i: int| 0 <= i < r.len() ==> g.sym_ok(#[trigger] r[i]) }
pub open spec fn zof(la: Option<TerminalIdx>) -> Seq<TerminalIdx> { match la { Some(t) => seq![t], None => Seq::empty() } }

pub proof fn lemma_forest_push(g: G, f: Seq<Tree>, t: Tree)
    requires trees_ok(g, f), tree_ok(g, t)
    ensures trees_ok(g, f.push(t)), roots(f.push(t)) == roots(f).push(root(t)), ylds(f.push(t)) == ylds(f) + yld(t)
{
    let f2 = f.push(t);
    assert forall |i: int| 0 <= i < f2.len() implies tree_ok(g, #[trigger] f2[i]) by { if i < f.len() { assert(f2[i] == f[i]); } }
    assert(f2.drop_last() =~= f);
    assert(f2.last() == t);
    assert(roots(f2) =~= roots(f).push(root(t)));
}
pub proof fn lemma_forest_add(g: G, a: Seq<Tree>, b: Seq<Tree>)
    requires trees_ok(g, a), trees_ok(g, b)
    ensures trees_ok(g, a + b), roots(a + b) == roots(a) + roots(b), ylds(a + b) == ylds(a) + ylds(b)
{
    lemma_ylds_add(a, b);
    assert forall |i: int| 0 <= i < (a + b).len() implies tree_ok(g, #[trigger] (a + b)[i]) by {
        if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); }
    }
    assert(roots(a + b) =~= roots(a) + roots(b));
}
pub proof fn lemma_any_forest(g: G, r: Seq<Symbol>) -> (f: Seq<Tree>)
    requires productive(g), syms_ok(g, r)
    ensures trees_ok(g, f), roots(f) == r
    decreases r.len()
{
    if r.len() == 0 { let f = Seq::<Tree>::empty(); assert(roots(f) =~= r); f }
    else {
        let d = r.drop_last();
        assert forall |i: int| 0 <= i < d.len() implies g.sym_ok(#[trigger] d[i]) by { assert(d[i] == r[i]); }
        let f = lemma_any_forest(g, d);
        assert(g.sym_ok(r[r.len() - 1]));
        assert(has_tree(g, r.last()));
        let t = choose |t: Tree| #[trigger] tree_ok(g, t) && root(t) == r.last();
        lemma_forest_push(g, f, t);
        assert(d.push(r.last()) =~= r);
        f.push(t)
    }
}
pub proof fn lemma_null_tree(g: G, s: Symbol, k: nat) -> (t: Tree)
    requires g.wf(), null_sym(g, s, k), g.sym_ok(s)
    ensures tree_ok(g, t), root(t) == s, yld(t).len() == 0
    decreases k, 0nat
{
    match s {
        Symbol::NonTerminal(n) => {
            let q = choose |p: int| #[trigger] g.has(n.0 as int, p) && null_seq(g, g.prods[n.0 as int][p], (k - 1) as nat);
            let r = g.prods[n.0 as int][q];
            assert forall |i: int| 0 <= i < r.len() implies g.sym_ok(#[trigger] r[i]) by { assert(g.sym_ok(g.prods[n.0 as int][q][i])); }
            let f = lemma_null_forest_k(g, r, (k - 1) as nat);
            Tree::Node(n, ProductionIdx(q as u32), f)
        }
        Symbol::Terminal(c) => { Tree::Leaf(c, 0) }
    }
}
pub proof fn lemma_null_forest_k(g: G, r: Seq<Symbol>, k: nat) -> (f: Seq<Tree>)
    requires g.wf(), null_seq(g, r, k), syms_ok(g, r)
    ensures trees_ok(g, f), roots(f) == r, ylds(f).len() == 0
    decreases k, r.len() + 1
{
    if r.len() == 0 { let f = Seq::<Tree>::empty(); assert(roots(f) =~= r); assert(ylds(f).len() == 0); f }
    else {
        let d = r.drop_last();
        assert forall |i: int| 0 <= i < d.len() implies g.sym_ok(#[trigger] d[i]) by { assert(d[i] == r[i]); }
        assert forall |i: int| 0 <= i < d.len() implies null_sym(g, #[trigger] d[i], k) by { assert(d[i] == r[i]); }
        let f = lemma_null_forest_k(g, d, k);
        assert(g.sym_ok(r[r.len() - 1]));
        assert(null_sym(g, r[r.len() - 1], k));
        let t = lemma_null_tree(g, r.last(), k);
        lemma_forest_push(g, f, t);
        assert(d.push(r.last()) =~= r);
        f.push(t)
    }
}
pub proof fn lemma_null_forest(g: G, r: Seq<Symbol>) -> (f: Seq<Tree>)
    requires g.wf(), nullable_seq(g, r), syms_ok(g, r)
    ensures trees_ok(g, f), roots(f) == r, ylds(f).len() == 0
{
    let k = lemma_null_common(g, r);
    lemma_null_forest_k(g, r, k)
}
/// a forest for r that begins with t, given that symbol i can and the ones before it are nullable
pub proof fn lemma_first_forest(g: G, r: Seq<Symbol>, i: int, ti: Tree) -> (f: Seq<Tree>)
    requires g.wf(), productive(g), syms_ok(g, r), 0 <= i < r.len(), nullable_seq(g, r.take(i)), tree_ok(g, ti), root(ti) == r[i], yld(ti).len() > 0
    ensures trees_ok(g, f), roots(f) == r, ylds(f).len() > 0, ylds(f)[0] == yld(ti)[0]
{
    let a = r.take(i);
    let b = r.skip(i + 1);
    assert forall |j: int| 0 <= j < a.len() implies g.sym_ok(#[trigger] a[j]) by { assert(a[j] == r[j]); }
    assert forall |j: int| 0 <= j < b.len() implies g.sym_ok(#[trigger] b[j]) by { assert(b[j] == r[i + 1 + j]); }
    let fa = lemma_null_forest(g, a);
    let fb = lemma_any_forest(g, b);
    lemma_forest_push(g, fa, ti);
    lemma_forest_add(g, fa.push(ti), fb);
    assert(a.push(r[i]) + b =~= r);
    fa.push(ti) + fb
}
pub proof fn lemma_first_tree(g: G, s: Symbol, c: TerminalIdx, k: nat) -> (t: Tree)
    requires g.wf(), productive(g), g.sym_ok(s), first_sym(g, s, c, k)
    ensures tree_ok(g, t), root(t) == s, yld(t).len() > 0, yld(t)[0] == c
    decreases k
{
    match s {
        Symbol::Terminal(u) => { Tree::Leaf(u, 0) }
        Symbol::NonTerminal(n) => {
            let (q, i) = choose |p: int, i: int| #[trigger] g.at(n.0 as int, p, i) && first_at(g, n.0 as int, p, i, c, (k - 1) as nat);
            let r = g.prods[n.0 as int][q];
            assert forall |j: int| 0 <= j < r.len() implies g.sym_ok(#[trigger] r[j]) by { assert(g.sym_ok(g.prods[n.0 as int][q][j])); }
            let ti = lemma_first_tree(g, r[i], c, (k - 1) as nat);
            let f = lemma_first_forest(g, r, i, ti);
            assert(g.has(n.0 as int, q));
            Tree::Node(n, ProductionIdx(q as u32), f)
        }
    }
}
/// what la_first predicts can be realised by trees
pub proof fn lemma_la_trees(g: G, r: Seq<Symbol>, la: Option<TerminalIdx>, u: Option<TerminalIdx>) -> (f: Seq<Tree>)
    requires g.wf(), productive(g), syms_ok(g, r), la_first(g, r, la, u)
    ensures
        trees_ok(g, f), roots(f) == r,
        forall |z: Seq<TerminalIdx>| head(z) == la ==> head(ylds(f) + z) == u,
{
    if u is Some && pf(g, r, r.len() as int, u->0) {
        let i = choose |i: int| 0 <= i < r.len() && #[trigger] pf_at(g, r, i, u->0);
        let k = choose |k: nat| first_sym(g, r[i], u->0, k);
        let ti = lemma_first_tree(g, r[i], u->0, k);
        lemma_first_forest(g, r, i, ti)
    } else {
        let f = lemma_null_forest(g, r);
        assert forall |z: Seq<TerminalIdx>| head(z) == la implies head(ylds(f) + z) == u by { assert(ylds(f) + z =~= z); }
        f
    }
}
pub proof fn lemma_rest_ok(g: G, it: LR1Item)
    requires g.wf(), item_ok(g, it)
    ensures syms_ok(g, rhs(g, it).skip(it.c())), it_next(g, it) is Some ==> syms_ok(g, it_rest(g, it)) && it_rest(g, it) == rhs(g, it).skip(it.c() + 1)
{
    assert forall |i: int| 0 <= i < rhs(g, it).skip(it.c()).len() implies g.sym_ok(#[trigger] rhs(g, it).skip(it.c())[i]) by {
        assert(g.sym_ok(g.prods[it.n()][it.p()][it.c() + i]));
    }
    if it_next(g, it) is Some {
        assert(it_rest(g, it) =~= rhs(g, it).skip(it.c() + 1));
        assert forall |i: int| 0 <= i < it_rest(g, it).len() implies g.sym_ok(#[trigger] it_rest(g, it)[i]) by {
            assert(g.sym_ok(g.prods[it.n()][it.p()][it.c() + 1 + i]));
        }
    }
}

// ------------------------------------------------------------------ C15: finitely many reductions between two tokens
/// with lookahead la, after at most k reductions the machine shifts, accepts or reports an error
pub open spec fn ws(p: P, st: Seq<int>, la: Option<TerminalIdx>, k: nat) -> bool
    decreases k
{
    match (p.act)(st.last(), la) {
        Some(Act::Reduce(n, q)) => k > 0 && ws(p, red_to(p, st, n, q), la, (k - 1) as nat),
        _ => true,
    }
}
pub proof fn lemma_ws_tree(p: P, n0: NonTerminalIdx, st: Seq<int>, xs: Seq<Symbol>, it: LR1Item, t: Tree, z: Seq<TerminalIdx>, m: nat) -> (k: nat)
    requires
        p_ok(p), path(p, n0, st, xs), top_items(p, st).contains(it), tree_ok(p.g, t), it_next(p.g, it) == Some(root(t)),
        la_first(p.g, it_rest(p.g, it), it.lookahead, head(z)),
        yld(t).len() == 0 ==> ws(p, st.push(p.a.goto[st.last()][root(t)].0 as int), head(z), m),
    ensures ws(p, st, head(yld(t) + z), k)
    decreases t
{
    lemma_top(p, n0, st, xs);
    match t {
        Tree::Leaf(c, _) => {
            let w = yld(t) + z;
            assert(w[0] == c);
            assert(head(w) == Some(c));
            assert((p.act)(st.last(), Some(c)) is Some && (p.act)(st.last(), Some(c))->0 is Shift);
            0
        }
        Tree::Node(n, q, ch) => {
            let b = LR1Item { non_terminal_idx: n, production_idx: q, cursor: 0, lookahead: head(z) };
            assert(item_step(p.g, it, b));
            lemma_clo_closed(p.g, kern(p, n0, st, xs), top_items(p, st));
            assert(step_closed(p.g, top_items(p, st), it));
            lemma_ref_private(p, it);
            assert(roots(ch) =~= rhs(p.g, b).skip(0));
            assert(st.take(st.len() - 0) =~= st);
            assert(popgo(p, st, 0, n) =~= st.push(p.a.goto[st.last()][root(t)].0 as int));
            lemma_ws_forest(p, n0, st, xs, b, ch, z, m)
        }
    }
}
pub proof fn lemma_ws_forest(p: P, n0: NonTerminalIdx, st: Seq<int>, xs: Seq<Symbol>, b: LR1Item, f: Seq<Tree>, z: Seq<TerminalIdx>, m: nat) -> (k: nat)
    requires
        p_ok(p), path(p, n0, st, xs), top_items(p, st).contains(b), trees_ok(p.g, f), b.lookahead == head(z),
        !p.g.public[b.n()], b.c() <= rhs(p.g, b).len(), roots(f) == rhs(p.g, b).skip(b.c()),
        ylds(f).len() == 0 ==> ws(p, popgo(p, st, b.c(), b.non_terminal_idx), head(z), m),
    ensures ws(p, st, head(ylds(f) + z), k)
    decreases f
{
    if f.len() == 0 {
        assert(roots(f).len() == 0);
        lemma_top(p, n0, st, xs);
        assert(p_red(p.g, b));
        assert(ylds(f) + z =~= z);
        m + 1
    } else {
        let t = f[0];
        let r = f.skip(1);
        assert(roots(f)[0] == root(t));
        assert(roots(f).len() == rhs(p.g, b).skip(b.c()).len());
        assert(rhs(p.g, b).skip(b.c())[0] == rhs(p.g, b)[b.c()]);
        assert(it_next(p.g, b) == Some(root(t)));
        lemma_back(p, n0, st, xs, b);
        lemma_adv(p, n0, st, xs, b, root(t));
        let s2 = st.push(p.a.goto[st.last()][root(t)].0 as int);
        let b2 = adv(b);
        assert(roots(r) =~= rhs(p.g, b2).skip(b2.c())) by {
            assert forall |i: int| 0 <= i < roots(r).len() implies roots(r)[i] == rhs(p.g, b2).skip(b2.c())[i] by {
                assert(roots(f)[i + 1] == rhs(p.g, b).skip(b.c())[i + 1]);
                assert(rhs(p.g, b).skip(b.c())[i + 1] == rhs(p.g, b)[b.c() + i + 1]);
                assert(rhs(p.g, b2).skip(b2.c())[i] == rhs(p.g, b2)[b2.c() + i]);
            }
            assert(roots(f).len() == rhs(p.g, b).skip(b.c()).len());
        }
        assert(s2.take(s2.len() - b2.c()) =~= st.take(st.len() - b.c()));
        assert(s2[s2.len() - b2.c() - 1] == st[st.len() - b.c() - 1]);
        assert forall |i: int| 0 <= i < r.len() implies tree_ok(p.g, #[trigger] r[i]) by { assert(r[i] == f[i + 1]); }
        lemma_ylds_cons(f);
        lemma_la_forest(p.g, r, b.lookahead, z);
        assert(it_rest(p.g, b) =~= roots(r));
        assert(tree_ok(p.g, f[0]));
        assert(yld(t) + (ylds(r) + z) =~= ylds(f) + z);
        let mut k1: nat = 0;
        if yld(t).len() == 0 {
            k1 = lemma_ws_forest(p, n0, s2, xs.push(root(t)), b2, r, z, m);
        }
        lemma_ws_tree(p, n0, st, xs, b, t, ylds(r) + z, k1)
    }
}
/// an item whose remaining right-hand side has the trees f, the lookahead being what these and the item's own lookahead predict
pub proof fn lemma_ws_item(p: P, n0: NonTerminalIdx, st: Seq<int>, xs: Seq<Symbol>, it: LR1Item, f: Seq<Tree>, lev: nat) -> (k: nat)
    requires
        p_ok(p), productive(p.g), path(p, n0, st, xs), top_items(p, st).contains(it), trees_ok(p.g, f),
        it.c() <= rhs(p.g, it).len(), roots(f) == rhs(p.g, it).skip(it.c()),
        in_clo(p.g, kern(p, n0, st.take(st.len() - it.c()), xs.take(xs.len() - it.c())), at0(it), lev),
    ensures ws(p, st, head(ylds(f) + zof(it.lookahead)), k)
    decreases xs.len() - it.c(), lev
{
    let z = zof(it.lookahead);
    lemma_top(p, n0, st, xs);
    lemma_back(p, n0, st, xs, it);
    let l = xs.len() - it.c();
    let st0 = st.take(st.len() - it.c());
    let xs0 = xs.take(l);
    lemma_top(p, n0, st0, xs0);
    if p.g.public[it.n()] {
        // the start item: X -> . Y  or  X -> Y .
        lemma_public_item(p, n0, st, xs, it);
        if it.c() == 0 {
            let t = f[0];
            assert(f.len() == roots(f).len());
            assert(f.len() == 1);
            assert(roots(f)[0] == root(t));
            assert(it_next(p.g, it) == Some(root(t)));
            lemma_adv(p, n0, st, xs, it, root(t));
            let s2 = st.push(p.a.goto[st.last()][root(t)].0 as int);
            lemma_top(p, n0, s2, xs.push(root(t)));
            assert(p_acc(p.g, adv(it)));
            assert((p.act)(s2.last(), None) == Some(Act::Accept));
            assert(it_rest(p.g, it).len() == 0);
            assert(nullable_seq(p.g, it_rest(p.g, it)));
            assert(tree_ok(p.g, f[0]));
            lemma_ylds_cons(f);
            assert(f.skip(1) =~= Seq::<Tree>::empty());
            assert(ylds(f.skip(1)) =~= Seq::<TerminalIdx>::empty());
            assert(ylds(f) =~= yld(t));
            lemma_ws_tree(p, n0, st, xs, it, t, z, 0)
        } else {
            assert(f.len() == roots(f).len());
            assert(f.len() == 0);
            assert(ylds(f) + z =~= Seq::<TerminalIdx>::empty());
            assert(p_acc(p.g, it));
            0
        }
    } else {
        let mut m: nat = 0;
        if ylds(f).len() == 0 {
            let a = lemma_parent(p, n0, st0, xs0, at0(it), lev);
            let n = it.non_terminal_idx;
            let x = Symbol::NonTerminal(n);
            lemma_rest_ok(p.g, a);
            let h = lemma_la_trees(p.g, it_rest(p.g, a), a.lookahead, it.lookahead);
            lemma_adv(p, n0, st0, xs0, a, x);
            lemma_back(p, n0, st0, xs0, a);
            let s2 = st0.push(p.a.goto[st0.last()][x].0 as int);
            let x2 = xs0.push(x);
            let b = adv(a);
            assert(st0.last() == st[st.len() - it.c() - 1]);
            assert(popgo(p, st, it.c(), n) == s2);
            assert(it_rest(p.g, a) =~= rhs(p.g, b).skip(b.c()));
            assert(s2.take(s2.len() - b.c()) =~= st0.take(st0.len() - a.c()));
            assert(x2.take(x2.len() - b.c()) =~= xs0.take(xs0.len() - a.c()));
            assert(at0(b) == at0(a));
            let mut l2: nat = (lev - 1) as nat;
            if a.c() == 0 {
                assert(st0.take(st0.len() as int) =~= st0);
                assert(xs0.take(xs0.len() as int) =~= xs0);
                assert(at0(a) == a);
            } else {
                let st1 = st0.take(st0.len() - a.c());
                let xs1 = xs0.take(xs0.len() - a.c());
                lemma_top(p, n0, st1, xs1);
                assert(clo(p.g, kern(p, n0, st1, xs1), at0(a)));
                l2 = choose |j: nat| in_clo(p.g, kern(p, n0, st1, xs1), at0(a), j);
            }
            m = lemma_ws_item(p, n0, s2, x2, b, h, l2);
            assert(head(zof(a.lookahead)) == a.lookahead);
            assert(head(z) == it.lookahead);
        }
        lemma_ws_forest(p, n0, st, xs, it, f, z, m)
    }
}
/// an item of a public non-terminal is the entry point's start item, not or completely read
pub proof fn lemma_public_item(p: P, n0: NonTerminalIdx, st: Seq<int>, xs: Seq<Symbol>, it: LR1Item)
    requires p_ok(p), path(p, n0, st, xs), top_items(p, st).contains(it), p.g.public[it.n()]
    ensures it.n() == n0.0, it.p() == 0, it.lookahead is None, xs.len() == it.c(), it.c() <= 1, rhs(p.g, it).len() == 1, item_ok(p.g, it),
        rhs(p.g, it) == p.g.prods[n0.0 as int][0],
{
    lemma_top(p, n0, st, xs);
    lemma_back(p, n0, st, xs, it);
    let st1 = st.take(st.len() - it.c());
    let x1 = xs.take(xs.len() - it.c());
    lemma_top(p, n0, st1, x1);
    let kn = kern(p, n0, st1, x1);
    let i0 = at0(it);
    assert(clo(p.g, kn, i0));
    let j = choose |j: nat| in_clo(p.g, kn, i0, j);
    if x1.len() > 0 {
        let s = p.a.items[st1[st1.len() - 2]];
        lemma_kernel(p.g, s, x1.last());
        lemma_path_states(p, n0, st1, x1);
        if kn.contains(i0) {
            let a = choose |a: LR1Item| #[trigger] s.contains(a) && it_next(p.g, a) == Some(x1.last()) && i0 == adv(a);
            assert(items_ok(p.g, p.a.items[st1[st1.len() - 2]]));
            assert(p.g.has(a.n(), a.p()));
            assert(false);
        }
        let a = choose |a: LR1Item| #[trigger] item_step(p.g, a, i0) && in_clo(p.g, kn, a, (j - 1) as nat);
        assert(clo(p.g, kn, a));
        assert(top_items(p, st1).contains(a));
        lemma_ref_private(p, a);
        assert(false);
    }
    assert(p.starts.dom().contains(n0));
    lemma_start_only(p.g, n0.0 as int, i0, j);
    assert(i0.n() == n0.0 && i0.p() == 0);
}
/// C15: from every configuration finitely many reductions lead to a shift, acceptance or an error
pub proof fn lemma_ws(p: P, n0: NonTerminalIdx, st: Seq<int>, xs: Seq<Symbol>, la: Option<TerminalIdx>) -> (k: nat)
    requires p_ok(p), productive(p.g), path(p, n0, st, xs)
    ensures ws(p, st, la, k)
{
    lemma_top(p, n0, st, xs);
    match (p.act)(st.last(), la) {
        Some(Act::Reduce(n, q)) => {
            let it = choose |it: LR1Item| #[trigger] top_items(p, st).contains(it) && p_red(p.g, it) && it.lookahead == la
                && it.non_terminal_idx == n && it.production_idx == q;
            lemma_back(p, n0, st, xs, it);
            let st0 = st.take(st.len() - it.c());
            let xs0 = xs.take(xs.len() - it.c());
            lemma_top(p, n0, st0, xs0);
            assert(clo(p.g, kern(p, n0, st0, xs0), at0(it)));
            let lev = choose |j: nat| in_clo(p.g, kern(p, n0, st0, xs0), at0(it), j);
            let f = Seq::<Tree>::empty();
            assert(roots(f) =~= rhs(p.g, it).skip(it.c()));
            assert(ylds(f) + zof(la) =~= zof(la));
            assert(head(zof(la)) == la);
            lemma_ws_item(p, n0, st, xs, it, f, lev)
        }
        _ => 0,
    }
}
