//@ module items
//@ header
use vstd::prelude::*;
use crate::prelude::*;
use crate::theory::*;
use crate::grammar::{Symbol, NonTerminalIdx, TerminalIdx, ProductionIdx};
use crate::lr1::LR1Item;
use crate::lr_common::StateIdx;
//@ raw
// ------------------------------------------------------------------ LR(1) items
pub open spec fn mk(n: int, p: int, c: int, la: Option<TerminalIdx>) -> LR1Item {
    LR1Item { non_terminal_idx: NonTerminalIdx(n as u32), production_idx: ProductionIdx(p as u32), cursor: c as usize, lookahead: la }
}
impl LR1Item {
    pub open spec fn n(&self) -> int { self.non_terminal_idx.0 as int }
    pub open spec fn p(&self) -> int { self.production_idx.0 as int }
    pub open spec fn c(&self) -> int { self.cursor as int }
}
pub open spec fn la_ok(g: G, la: Option<TerminalIdx>) -> bool {
    match la { Some(t) => (t.0 as int) < g.nt, None => true }
}
pub open spec fn rhs(g: G, it: LR1Item) -> Seq<Symbol> { g.prods[it.n()][it.p()] }
pub open spec fn item_ok(g: G, it: LR1Item) -> bool {
    &&& g.has(it.n(), it.p())
    &&& it.c() <= rhs(g, it).len()
    &&& la_ok(g, it.lookahead)
}
pub open spec fn items_ok(g: G, s: SSet<LR1Item>) -> bool { forall |it: LR1Item| #[trigger] s.contains(it) ==> item_ok(g, it) }
pub open spec fn it_next(g: G, it: LR1Item) -> Option<Symbol> {
    if it.c() < rhs(g, it).len() { Some(rhs(g, it)[it.c()]) } else { None }
}
pub open spec fn it_rest(g: G, it: LR1Item) -> Seq<Symbol> { rhs(g, it).subrange(it.c() + 1, rhs(g, it).len() as int) }
pub open spec fn adv(it: LR1Item) -> LR1Item { LR1Item { cursor: (it.c() + 1) as usize, ..it } }

/// t (None: end of input) can begin `beta` followed by `la`
pub open spec fn pf(g: G, beta: Seq<Symbol>, k: int, t: TerminalIdx) -> bool {
    exists |i: int| 0 <= i < k && #[trigger] pf_at(g, beta, i, t)
}
pub open spec fn pf_at(g: G, beta: Seq<Symbol>, i: int, t: TerminalIdx) -> bool {
    nullable_seq(g, beta.take(i)) && firsts(g, beta[i], t)
}
pub open spec fn la_first(g: G, beta: Seq<Symbol>, la: Option<TerminalIdx>, t: Option<TerminalIdx>) -> bool {
    ||| (t is Some && pf(g, beta, beta.len() as int, t->0))
    ||| (nullable_seq(g, beta) && t == la)
}
/// b is an item that a, having its dot before b's non-terminal, calls for
pub open spec fn item_step(g: G, a: LR1Item, b: LR1Item) -> bool {
    &&& it_next(g, a) == Some(Symbol::NonTerminal(b.non_terminal_idx))
    &&& g.has(b.n(), b.p())
    &&& b.c() == 0
    &&& la_first(g, it_rest(g, a), a.lookahead, b.lookahead)
}
pub open spec fn in_clo(g: G, kernel: SSet<LR1Item>, it: LR1Item, k: nat) -> bool
    decreases k
{
    kernel.contains(it) || (k > 0 && exists |a: LR1Item| #[trigger] item_step(g, a, it) && in_clo(g, kernel, a, (k - 1) as nat))
}
pub open spec fn clo(g: G, kernel: SSet<LR1Item>, it: LR1Item) -> bool { exists |k: nat| in_clo(g, kernel, it, k) }
/// c is the closure of the kernel: the least set that contains it and is closed under item_step
pub open spec fn is_clo(g: G, kernel: SSet<LR1Item>, c: SSet<LR1Item>) -> bool {
    forall |it: LR1Item| #[trigger] c.contains(it) <==> clo(g, kernel, it)
}
pub open spec fn step_closed(g: G, c: SSet<LR1Item>, a: LR1Item) -> bool {
    forall |b: LR1Item| #[trigger] item_step(g, a, b) ==> c.contains(b)
}
pub open spec fn kernel_of(g: G, s: SSet<LR1Item>, x: Symbol) -> SSet<LR1Item> {
    s.filter(|a: LR1Item| it_next(g, a) == Some(x)).map(|a: LR1Item| adv(a))
}
/// some item of s has x after its dot
pub open spec fn has_next(g: G, s: SSet<LR1Item>, x: Symbol) -> bool {
    exists |a: LR1Item| #[trigger] s.contains(a) && it_next(g, a) == Some(x)
}

pub proof fn lemma_clo_base(g: G, kernel: SSet<LR1Item>, it: LR1Item)
    requires kernel.contains(it)
    ensures clo(g, kernel, it)
{
    assert(in_clo(g, kernel, it, 0));
}
pub proof fn lemma_clo_step(g: G, kernel: SSet<LR1Item>, a: LR1Item, b: LR1Item)
    requires clo(g, kernel, a), item_step(g, a, b)
    ensures clo(g, kernel, b)
{
    let k = choose |k: nat| in_clo(g, kernel, a, k);
    assert(in_clo(g, kernel, a, ((k + 1) - 1) as nat));
    assert(in_clo(g, kernel, b, k + 1));
}
pub proof fn lemma_in_clo_closed(g: G, kernel: SSet<LR1Item>, c: SSet<LR1Item>, it: LR1Item, k: nat)
    requires kernel.subset_of(c), forall |a: LR1Item| #[trigger] c.contains(a) ==> step_closed(g, c, a), in_clo(g, kernel, it, k)
    ensures c.contains(it)
    decreases k
{
    if !kernel.contains(it) {
        let a = choose |a: LR1Item| #[trigger] item_step(g, a, it) && in_clo(g, kernel, a, (k - 1) as nat);
        lemma_in_clo_closed(g, kernel, c, a, (k - 1) as nat);
        assert(step_closed(g, c, a));
    }
}
pub proof fn lemma_is_clo(g: G, kernel: SSet<LR1Item>, c: SSet<LR1Item>)
    requires
        kernel.subset_of(c),
        forall |a: LR1Item| #[trigger] c.contains(a) ==> step_closed(g, c, a),
        forall |a: LR1Item| #[trigger] c.contains(a) ==> clo(g, kernel, a),
    ensures is_clo(g, kernel, c)
{
    assert forall |it: LR1Item| #[trigger] c.contains(it) <==> clo(g, kernel, it) by {
        if clo(g, kernel, it) {
            let k = choose |k: nat| in_clo(g, kernel, it, k);
            lemma_in_clo_closed(g, kernel, c, it, k);
        }
    }
}
pub proof fn lemma_clo_closed(g: G, kernel: SSet<LR1Item>, c: SSet<LR1Item>)
    requires is_clo(g, kernel, c)
    ensures
        kernel.subset_of(c),
        forall |a: LR1Item| #[trigger] c.contains(a) ==> step_closed(g, c, a),
{
    assert forall |a: LR1Item| kernel.contains(a) implies #[trigger] c.contains(a) by { lemma_clo_base(g, kernel, a); }
    assert forall |a: LR1Item| #[trigger] c.contains(a) implies step_closed(g, c, a) by {
        assert forall |b: LR1Item| #[trigger] item_step(g, a, b) implies c.contains(b) by { lemma_clo_step(g, kernel, a, b); }
    }
}
/// the closure of a kernel is unique
pub proof fn lemma_clo_unique(g: G, kernel: SSet<LR1Item>, c: SSet<LR1Item>, d: SSet<LR1Item>)
    requires is_clo(g, kernel, c), is_clo(g, kernel, d)
    ensures c == d
{
    assert forall |it: LR1Item| c.contains(it) <==> d.contains(it) by {}
    assert(c =~= d);
}
pub proof fn lemma_clo_empty(g: G, kernel: SSet<LR1Item>, c: SSet<LR1Item>)
    requires is_clo(g, kernel, c)
    ensures c == SSet::<LR1Item>::empty() <==> kernel == SSet::<LR1Item>::empty()
{
    lemma_clo_closed(g, kernel, c);
    if kernel == SSet::<LR1Item>::empty() {
        lemma_is_clo(g, kernel, SSet::<LR1Item>::empty());
        lemma_clo_unique(g, kernel, c, SSet::<LR1Item>::empty());
    } else if c == SSet::<LR1Item>::empty() {
        assert(kernel =~= SSet::<LR1Item>::empty());
    }
}
pub proof fn lemma_kernel(g: G, s: SSet<LR1Item>, x: Symbol)
    ensures
        forall |a: LR1Item| #[trigger] s.contains(a) && it_next(g, a) == Some(x) ==> kernel_of(g, s, x).contains(adv(a)),
        forall |b: LR1Item| #[trigger] kernel_of(g, s, x).contains(b) ==> exists |a: LR1Item| #[trigger] s.contains(a) && it_next(g, a) == Some(x) && b == adv(a),
        kernel_of(g, s, x) == SSet::<LR1Item>::empty() <==> !has_next(g, s, x),
{
    let f = s.filter(|a: LR1Item| it_next(g, a) == Some(x));
    assert forall |a: LR1Item| #[trigger] s.contains(a) && it_next(g, a) == Some(x) implies kernel_of(g, s, x).contains(adv(a)) by {
        assert(f.contains(a));
    }
    assert forall |b: LR1Item| #[trigger] kernel_of(g, s, x).contains(b) implies exists |a: LR1Item| #[trigger] s.contains(a) && it_next(g, a) == Some(x) && b == adv(a) by {
        let a = choose |a: LR1Item| f.contains(a) && b == adv(a);
        assert(s.contains(a));
    }
    if !has_next(g, s, x) { assert(kernel_of(g, s, x) =~= SSet::<LR1Item>::empty()); }
    else {
        let a = choose |a: LR1Item| #[trigger] s.contains(a) && it_next(g, a) == Some(x);
        assert(kernel_of(g, s, x).contains(adv(a)));
    }
}

pub proof fn lemma_step_ok(g: G, a: LR1Item, b: LR1Item)
    requires g.wf(), item_ok(g, a), item_step(g, a, b)
    ensures item_ok(g, b)
{
    let beta = it_rest(g, a);
    if b.lookahead is Some && pf(g, beta, beta.len() as int, b.lookahead->0) {
        let t = b.lookahead->0;
        let i = choose |i: int| 0 <= i < beta.len() && #[trigger] pf_at(g, beta, i, t);
        let k = choose |k: nat| first_sym(g, beta[i], t, k);
        assert(beta[i] == g.prods[a.n()][a.p()][a.c() + 1 + i]);
        assert(g.sym_ok(g.prods[a.n()][a.p()][a.c() + 1 + i]));
        lemma_first_in_range(g, beta[i], t, k);
    }
}
pub proof fn lemma_clo_ok(g: G, kernel: SSet<LR1Item>, it: LR1Item, k: nat)
    requires g.wf(), items_ok(g, kernel), in_clo(g, kernel, it, k)
    ensures item_ok(g, it)
    decreases k
{
    if !kernel.contains(it) {
        let a = choose |a: LR1Item| #[trigger] item_step(g, a, it) && in_clo(g, kernel, a, (k - 1) as nat);
        lemma_clo_ok(g, kernel, a, (k - 1) as nat);
        lemma_step_ok(g, a, it);
    }
}

// ------------------------------------------------------------------ there are finitely many items
pub open spec fn uni_la(n: int, p: int, c: int, k: nat) -> SSet<LR1Item>
    decreases k
{
    if k == 0 { SSet::<LR1Item>::empty().insert(mk(n, p, c, None)) }
    else { uni_la(n, p, c, (k - 1) as nat).insert(mk(n, p, c, Some(TerminalIdx((k - 1) as u32)))) }
}
pub open spec fn uni_c(g: G, n: int, p: int, c: nat) -> SSet<LR1Item>
    decreases c
{
    if c == 0 { SSet::<LR1Item>::empty() } else { uni_c(g, n, p, (c - 1) as nat).union(uni_la(n, p, c - 1, g.nt)) }
}
pub open spec fn uni_p(g: G, n: int, p: nat) -> SSet<LR1Item>
    decreases p
{
    if p == 0 { SSet::<LR1Item>::empty() } else { uni_p(g, n, (p - 1) as nat).union(uni_c(g, n, p - 1, (g.prods[n][p - 1].len() + 1) as nat)) }
}
pub open spec fn uni_n(g: G, n: nat) -> SSet<LR1Item>
    decreases n
{
    if n == 0 { SSet::<LR1Item>::empty() } else { uni_n(g, (n - 1) as nat).union(uni_p(g, n - 1, g.prods[n - 1].len())) }
}
pub open spec fn universe(g: G) -> SSet<LR1Item> { uni_n(g, g.prods.len()) }

pub proof fn lemma_uni_la(n: int, p: int, c: int, k: nat, la: Option<TerminalIdx>)
    requires la is Some ==> (la->0).0 < k
    ensures uni_la(n, p, c, k).contains(mk(n, p, c, la))
    decreases k
{
    if k > 0 {
        if la is Some && (la->0).0 == k - 1 { assert(la == Some(TerminalIdx((k - 1) as u32))); }
        else { lemma_uni_la(n, p, c, (k - 1) as nat, la); }
    }
}
pub proof fn lemma_uni_c(g: G, n: int, p: int, c: nat, it: LR1Item)
    requires g.has(n, p), 0 <= n < u32::MAX, 0 <= p < u32::MAX, it.n() == n, it.p() == p, it.c() < c, la_ok(g, it.lookahead)
    ensures uni_c(g, n, p, c).contains(it)
    decreases c
{
    if it.c() == c - 1 {
        lemma_uni_la(n, p, c - 1, g.nt, it.lookahead);
        assert(it == mk(n, p, c - 1, it.lookahead));
    } else { lemma_uni_c(g, n, p, (c - 1) as nat, it); }
}
pub proof fn lemma_uni_p(g: G, n: int, p: nat, it: LR1Item)
    requires g.wf(), item_ok(g, it), it.n() == n, it.p() < p, p <= g.prods[n].len()
    ensures uni_p(g, n, p).contains(it)
    decreases p
{
    if it.p() == p - 1 { lemma_uni_c(g, n, p - 1, (g.prods[n][p - 1].len() + 1) as nat, it); }
    else { lemma_uni_p(g, n, (p - 1) as nat, it); }
}
pub proof fn lemma_uni_n(g: G, n: nat, it: LR1Item)
    requires g.wf(), item_ok(g, it), it.n() < n, n <= g.prods.len()
    ensures uni_n(g, n).contains(it)
    decreases n
{
    if it.n() == n - 1 { lemma_uni_p(g, n - 1, g.prods[n - 1].len(), it); }
    else { lemma_uni_n(g, (n - 1) as nat, it); }
}
pub proof fn lemma_universe(g: G, s: SSet<LR1Item>)
    requires g.wf(), items_ok(g, s)
    ensures s.subset_of(universe(g)), s.len() <= universe(g).len()
{
    assert forall |it: LR1Item| s.contains(it) implies universe(g).contains(it) by { lemma_uni_n(g, g.prods.len(), it); }
    vstd::set_lib::lemma_len_subset(s, universe(g));
}

// ------------------------------------------------------------------ work lists
pub proof fn lemma_push_contains<T>(w: Seq<T>, b: T)
    ensures
        w.push(b).contains(b),
        forall |a: T| #[trigger] w.contains(a) ==> w.push(b).contains(a),
        forall |a: T| #[trigger] w.push(b).contains(a) ==> a == b || w.contains(a),
{
    assert(w.push(b)[w.len() as int] == b);
    assert forall |a: T| #[trigger] w.contains(a) implies w.push(b).contains(a) by {
        let i = choose |i: int| 0 <= i < w.len() && w[i] == a;
        assert(w.push(b)[i] == a);
    }
    assert forall |a: T| #[trigger] w.push(b).contains(a) implies a == b || w.contains(a) by {
        let i = choose |i: int| 0 <= i < w.push(b).len() && w.push(b)[i] == a;
        if i < w.len() { assert(w[i] == a); }
    }
}
pub open spec fn deref_seq<'a, T>(s: Seq<&'a T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
pub proof fn lemma_enum_ref<'a, T>(s: Seq<&'a T>, d: Seq<T>, set: SSet<T>)
    requires enumerates_ref(s, set), d == deref_seq(s)
    ensures forall |x: T| #[trigger] set.contains(x) <==> d.contains(x)
{
    assert forall |x: T| #[trigger] set.contains(x) <==> d.contains(x) by {
        if set.contains(x) { let i = choose |i: int| 0 <= i < s.len() && *#[trigger] s[i] == x; assert(d[i] == x); }
        if d.contains(x) { let i = choose |i: int| 0 <= i < d.len() && d[i] == x; assert(*s[i] == x); }
    }
}

/// symbols before k are nullable except possibly the last one
pub proof fn lemma_pf_stop(g: G, beta: Seq<Symbol>, k: int)
    requires 0 < k <= beta.len(), !nullable_sym(g, beta[k - 1])
    ensures
        !nullable_seq(g, beta),
        forall |t: TerminalIdx| #[trigger] pf(g, beta, k, t) <==> pf(g, beta, beta.len() as int, t),
{
    assert forall |t: TerminalIdx| #[trigger] pf(g, beta, k, t) <==> pf(g, beta, beta.len() as int, t) by {
        if pf(g, beta, k, t) {
            let i = choose |i: int| 0 <= i < k && #[trigger] pf_at(g, beta, i, t);
            assert(pf_at(g, beta, i, t));
        }
        if pf(g, beta, beta.len() as int, t) {
            let i = choose |i: int| 0 <= i < beta.len() && #[trigger] pf_at(g, beta, i, t);
            if i >= k { assert(beta.take(i)[k - 1] == beta[k - 1]); }
            assert(pf_at(g, beta, i, t));
        }
    }
}
pub proof fn lemma_pf_step(g: G, beta: Seq<Symbol>, k: int)
    requires 0 <= k < beta.len(), nullable_seq(g, beta.take(k))
    ensures
        forall |t: TerminalIdx| #[trigger] pf(g, beta, k + 1, t) <==> pf(g, beta, k, t) || firsts(g, beta[k], t),
        nullable_sym(g, beta[k]) ==> nullable_seq(g, beta.take(k + 1)),
{
    assert forall |t: TerminalIdx| #[trigger] pf(g, beta, k + 1, t) <==> pf(g, beta, k, t) || firsts(g, beta[k], t) by {
        if pf(g, beta, k + 1, t) {
            let i = choose |i: int| 0 <= i < k + 1 && #[trigger] pf_at(g, beta, i, t);
            if i < k { assert(pf_at(g, beta, i, t)); }
        }
        if pf(g, beta, k, t) {
            let i = choose |i: int| 0 <= i < k && #[trigger] pf_at(g, beta, i, t);
            assert(pf_at(g, beta, i, t));
        }
        if firsts(g, beta[k], t) { assert(pf_at(g, beta, k, t)); }
    }
    if nullable_sym(g, beta[k]) {
        assert forall |j: int| 0 <= j < k + 1 implies nullable_sym(g, #[trigger] beta.take(k + 1)[j]) by {
            if j < k { assert(beta.take(k)[j] == beta[j]); }
        }
    }
}
/// exactness of a first table, per symbol
pub proof fn lemma_exact_sym(g: G, f: FT, s: Symbol)
    requires ft_exact(g, f), g.sym_ok(s)
    ensures
        ft_null(f, s) <==> nullable_sym(g, s),
        forall |t: TerminalIdx| #[trigger] ft_first(f, s, t) <==> firsts(g, s, t),
{
    match s {
        Symbol::Terminal(u) => {
            assert forall |t: TerminalIdx| #[trigger] ft_first(f, s, t) <==> firsts(g, s, t) by {
                if u == t { assert(first_sym(g, s, t, 0)); }
            }
        }
        Symbol::NonTerminal(n) => {
            assert(f.empty[n.0 as int] <==> nullable(g, n.0 as int));
            if nullable(g, n.0 as int) {
                let k = choose |k: nat| null_nt(g, n.0 as int, k);
                assert(null_sym(g, s, k));
            }
            if nullable_sym(g, s) {
                let k = choose |k: nat| null_sym(g, s, k);
                assert(null_nt(g, n.0 as int, k));
            }
            assert forall |t: TerminalIdx| #[trigger] ft_first(f, s, t) <==> firsts(g, s, t) by {
                assert(f.terms[n.0 as int].contains(t) <==> first(g, n.0 as int, t));
                if first(g, n.0 as int, t) {
                    let k = choose |k: nat| first_nt(g, n.0 as int, t, k);
                    assert(first_sym(g, s, t, k));
                }
                if firsts(g, s, t) {
                    let k = choose |k: nat| first_sym(g, s, t, k);
                    assert(first_nt(g, n.0 as int, t, k));
                }
            }
        }
    }
}

// ------------------------------------------------------------------ the closure work list
pub open spec fn work_inv(g: G, kernel: SSet<LR1Item>, cur: Option<LR1Item>, c: SSet<LR1Item>, w: Seq<LR1Item>) -> bool {
    &&& kernel.subset_of(c)
    &&& items_ok(g, c)
    &&& forall |a: LR1Item| #[trigger] c.contains(a) ==> clo(g, kernel, a)
    &&& forall |a: LR1Item| #[trigger] c.contains(a) ==> Some(a) == cur || w.contains(a) || step_closed(g, c, a)
    &&& forall |a: LR1Item| #[trigger] w.contains(a) ==> c.contains(a)
}
pub proof fn lemma_work_init(g: G, kernel: SSet<LR1Item>, w: Seq<LR1Item>)
    requires items_ok(g, kernel), forall |a: LR1Item| #[trigger] kernel.contains(a) <==> w.contains(a)
    ensures work_inv(g, kernel, None, kernel, w)
{
    assert forall |a: LR1Item| #[trigger] kernel.contains(a) implies clo(g, kernel, a) by { lemma_clo_base(g, kernel, a); }
}
pub proof fn lemma_work_pop(g: G, kernel: SSet<LR1Item>, c: SSet<LR1Item>, w: Seq<LR1Item>, item: LR1Item)
    requires work_inv(g, kernel, None, c, w.push(item))
    ensures work_inv(g, kernel, Some(item), c, w), c.contains(item), item_ok(g, item), clo(g, kernel, item)
{
    lemma_push_contains(w, item);
}
pub proof fn lemma_work_add(g: G, kernel: SSet<LR1Item>, cur: LR1Item, c: SSet<LR1Item>, w: Seq<LR1Item>, b: LR1Item)
    requires g.wf(), work_inv(g, kernel, Some(cur), c, w), c.contains(cur), item_step(g, cur, b)
    ensures
        c.contains(b) ==> c.insert(b) == c,
        !c.contains(b) ==> work_inv(g, kernel, Some(cur), c.insert(b), w.push(b)) && c.insert(b).len() == c.len() + 1,
{
    if c.contains(b) { assert(c.insert(b) =~= c); }
    else {
        lemma_clo_step(g, kernel, cur, b);
        lemma_step_ok(g, cur, b);
        lemma_push_contains(w, b);
        assert forall |a: LR1Item| #[trigger] c.insert(b).contains(a) implies Some(a) == Some(cur) || w.push(b).contains(a) || step_closed(g, c.insert(b), a) by {
            if a != b && a != cur && !w.contains(a) {
                assert(step_closed(g, c, a));
                assert forall |d: LR1Item| #[trigger] item_step(g, a, d) implies c.insert(b).contains(d) by {}
            }
        }
    }
}
pub proof fn lemma_work_done(g: G, kernel: SSet<LR1Item>, cur: LR1Item, c: SSet<LR1Item>, w: Seq<LR1Item>)
    requires work_inv(g, kernel, Some(cur), c, w), step_closed(g, c, cur)
    ensures work_inv(g, kernel, None, c, w)
{
}
