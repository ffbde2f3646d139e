//@ module theory
//@ header
use vstd::prelude::*;
use crate::prelude::*;
use crate::grammar::{Symbol, NonTerminalIdx, TerminalIdx, ProductionIdx};
//@ raw
/// Abstract grammar: productions[nt][p] is a right-hand side.
pub struct G {
    pub prods: Seq<Seq<Seq<Symbol>>>,
    pub public: Seq<bool>,
    pub nt: nat,
}
impl G {
    pub open spec fn sym_ok(&self, s: Symbol) -> bool {
        match s {
            Symbol::NonTerminal(n) => (n.0 as int) < self.prods.len(),
            Symbol::Terminal(t) => (t.0 as int) < self.nt,
        }
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.prods.len() < u32::MAX
        &&& self.nt < u32::MAX
        &&& self.public.len() == self.prods.len()
        &&& forall |n: int| 0 <= n < self.prods.len() ==> (#[trigger] self.prods[n]).len() < u32::MAX
        &&& forall |n: int, p: int| #[trigger] self.has(n, p) ==> self.prods[n][p].len() < usize::MAX
        &&& forall |n: int, p: int, i: int| 0 <= n < self.prods.len() && 0 <= p < self.prods[n].len()
                && 0 <= i < self.prods[n][p].len() ==> self.sym_ok(#[trigger] self.prods[n][p][i])
    }
    pub open spec fn has(&self, n: int, p: int) -> bool {
        0 <= n < self.prods.len() && 0 <= p < self.prods[n].len()
    }
}
impl G {
    pub open spec fn at(&self, n: int, p: int, i: int) -> bool {
        self.has(n, p) && 0 <= i < self.prods[n][p].len()
    }
}

// ------------------------------------------------------------------ nullability and FIRST
/// the symbol derives the empty sequence by a derivation tree of height at most k
pub open spec fn null_sym(g: G, s: Symbol, k: nat) -> bool
    decreases k, 1nat
{
    match s {
        Symbol::NonTerminal(n) => null_nt(g, n.0 as int, k),
        Symbol::Terminal(_) => false,
    }
}
pub open spec fn null_nt(g: G, n: int, k: nat) -> bool
    decreases k, 0nat
{
    k > 0 && exists |p: int| #[trigger] g.has(n, p) && null_seq(g, g.prods[n][p], (k - 1) as nat)
}
pub open spec fn null_seq(g: G, s: Seq<Symbol>, k: nat) -> bool
    decreases k, 2nat
{
    forall |i: int| 0 <= i < s.len() ==> null_sym(g, #[trigger] s[i], k)
}
pub open spec fn nullable(g: G, n: int) -> bool { exists |k: nat| null_nt(g, n, k) }
pub open spec fn nullable_sym(g: G, s: Symbol) -> bool { exists |k: nat| null_sym(g, s, k) }
pub open spec fn nullable_seq(g: G, s: Seq<Symbol>) -> bool { forall |i: int| 0 <= i < s.len() ==> nullable_sym(g, #[trigger] s[i]) }

/// a sentential form derived from the symbol (by a tree whose leftmost spine has height at most k)
/// begins with terminal t
pub open spec fn first_sym(g: G, s: Symbol, t: TerminalIdx, k: nat) -> bool
    decreases k, 1nat
{
    match s {
        Symbol::NonTerminal(n) => first_nt(g, n.0 as int, t, k),
        Symbol::Terminal(u) => u == t,
    }
}
pub open spec fn first_nt(g: G, n: int, t: TerminalIdx, k: nat) -> bool
    decreases k, 0nat
{
    k > 0 && exists |p: int, i: int| #[trigger] g.at(n, p, i) && first_at(g, n, p, i, t, (k - 1) as nat)
}
pub open spec fn first_at(g: G, n: int, p: int, i: int, t: TerminalIdx, k: nat) -> bool
    decreases k, 2nat
{
    &&& g.at(n, p, i)
    &&& nullable_seq(g, g.prods[n][p].take(i))
    &&& first_sym(g, g.prods[n][p][i], t, k)
}
pub open spec fn first(g: G, n: int, t: TerminalIdx) -> bool { exists |k: nat| first_nt(g, n, t, k) }
pub open spec fn firsts(g: G, s: Symbol, t: TerminalIdx) -> bool { exists |k: nat| first_sym(g, s, t, k) }

pub proof fn lemma_null_mono(g: G, s: Symbol, k: nat, m: nat)
    requires null_sym(g, s, k), k <= m
    ensures null_sym(g, s, m)
    decreases k
{
    match s {
        Symbol::NonTerminal(n) => {
            let p = choose |p: int| #[trigger] g.has(n.0 as int, p) && null_seq(g, g.prods[n.0 as int][p], (k - 1) as nat);
            let r = g.prods[n.0 as int][p];
            assert forall |i: int| 0 <= i < r.len() implies null_sym(g, #[trigger] r[i], (m - 1) as nat) by {
                lemma_null_mono(g, r[i], (k - 1) as nat, (m - 1) as nat);
            }
            assert(g.has(n.0 as int, p) && null_seq(g, r, (m - 1) as nat));
        }
        _ => {}
    }
}

/// a sequence of nullable symbols is nullable at one common height
pub proof fn lemma_null_common(g: G, s: Seq<Symbol>) -> (k: nat)
    requires nullable_seq(g, s)
    ensures null_seq(g, s, k)
    decreases s.len()
{
    if s.len() == 0 {
        0
    } else {
        let t = s.drop_last();
        assert forall |i: int| 0 <= i < t.len() implies nullable_sym(g, #[trigger] t[i]) by { assert(s[i] == t[i]); }
        let k1 = lemma_null_common(g, t);
        assert(nullable_sym(g, s[s.len() - 1]));
        let k2 = choose |k: nat| null_sym(g, s.last(), k);
        let k = if k1 < k2 { k2 } else { k1 };
        assert forall |i: int| 0 <= i < s.len() implies null_sym(g, #[trigger] s[i], k) by {
            if i < t.len() { assert(s[i] == t[i]); assert(null_sym(g, t[i], k1)); lemma_null_mono(g, s[i], k1, k); }
            else { lemma_null_mono(g, s[i], k2, k); }
        }
        k
    }
}

pub proof fn lemma_nullable_intro(g: G, n: int, p: int)
    requires g.has(n, p), nullable_seq(g, g.prods[n][p])
    ensures nullable(g, n)
{
    let k = lemma_null_common(g, g.prods[n][p]);
    assert(null_nt(g, n, k + 1)) by {
        assert(g.has(n, p) && null_seq(g, g.prods[n][p], ((k + 1) - 1) as nat));
    }
}

pub proof fn lemma_first_intro(g: G, n: int, p: int, i: int, t: TerminalIdx)
    requires g.has(n, p), 0 <= i < g.prods[n][p].len(), nullable_seq(g, g.prods[n][p].take(i)),
        firsts(g, g.prods[n][p][i], t),
    ensures first(g, n, t)
{
    let k = choose |k: nat| first_sym(g, g.prods[n][p][i], t, k);
    assert(first_at(g, n, p, i, t, k));
    assert(first_nt(g, n, t, k + 1)) by { assert(g.at(n, p, i) && first_at(g, n, p, i, t, ((k + 1) - 1) as nat)); }
}

// ------------------------------------------------------------------ a table of first sets
pub struct FT { pub empty: Seq<bool>, pub terms: Seq<SSet<TerminalIdx>> }

pub open spec fn ft_null(f: FT, s: Symbol) -> bool {
    match s { Symbol::NonTerminal(n) => f.empty[n.0 as int], Symbol::Terminal(_) => false }
}
pub open spec fn ft_null_seq(f: FT, s: Seq<Symbol>) -> bool { forall |i: int| 0 <= i < s.len() ==> ft_null(f, #[trigger] s[i]) }
pub open spec fn ft_first(f: FT, s: Symbol, t: TerminalIdx) -> bool {
    match s { Symbol::NonTerminal(n) => f.terms[n.0 as int].contains(t), Symbol::Terminal(u) => u == t }
}
pub open spec fn ft_wf(g: G, f: FT) -> bool { f.empty.len() == g.prods.len() && f.terms.len() == g.prods.len() }
pub open spec fn ft_sound(g: G, f: FT) -> bool {
    &&& ft_wf(g, f)
    &&& forall |n: int| 0 <= n < g.prods.len() && #[trigger] f.empty[n] ==> nullable(g, n)
    &&& forall |n: int, t: TerminalIdx| 0 <= n < g.prods.len() && #[trigger] f.terms[n].contains(t) ==> first(g, n, t)
}
/// production p of n adds nothing to the table
pub open spec fn ft_closed1(g: G, f: FT, n: int, p: int) -> bool {
    let r = g.prods[n][p];
    &&& ft_null_seq(f, r) ==> f.empty[n]
    &&& forall |i: int, t: TerminalIdx| 0 <= i < r.len() && ft_null_seq(f, r.take(i)) && #[trigger] ft_first(f, r[i], t)
            ==> f.terms[n].contains(t)
}
pub open spec fn ft_closed(g: G, f: FT) -> bool {
    forall |n: int, p: int| #[trigger] g.has(n, p) ==> ft_closed1(g, f, n, p)
}
/// C10: the table is exact
pub open spec fn ft_exact(g: G, f: FT) -> bool {
    &&& ft_wf(g, f)
    &&& forall |n: int| 0 <= n < g.prods.len() ==> (#[trigger] f.empty[n] <==> nullable(g, n))
    &&& forall |n: int, t: TerminalIdx| 0 <= n < g.prods.len() ==> (#[trigger] f.terms[n].contains(t) <==> first(g, n, t))
}

pub proof fn lemma_closed_null(g: G, f: FT, s: Symbol, k: nat)
    requires g.wf(), ft_wf(g, f), ft_closed(g, f), g.sym_ok(s), null_sym(g, s, k)
    ensures ft_null(f, s)
    decreases k
{
    match s {
        Symbol::NonTerminal(nn) => {
            let n = nn.0 as int;
            let p = choose |p: int| #[trigger] g.has(n, p) && null_seq(g, g.prods[n][p], (k - 1) as nat);
            let r = g.prods[n][p];
            assert forall |i: int| 0 <= i < r.len() implies ft_null(f, #[trigger] r[i]) by {
                assert(g.sym_ok(g.prods[n][p][i]));
                lemma_closed_null(g, f, r[i], (k - 1) as nat);
            }
            assert(ft_closed1(g, f, n, p));
        }
        _ => {}
    }
}
pub proof fn lemma_closed_first(g: G, f: FT, s: Symbol, t: TerminalIdx, k: nat)
    requires g.wf(), ft_wf(g, f), ft_closed(g, f), g.sym_ok(s), first_sym(g, s, t, k)
    ensures ft_first(f, s, t)
    decreases k
{
    match s {
        Symbol::NonTerminal(nn) => {
            let n = nn.0 as int;
            let (p, i) = choose |p: int, i: int| #[trigger] g.at(n, p, i) && first_at(g, n, p, i, t, (k - 1) as nat);
            let r = g.prods[n][p];
            assert forall |j: int| 0 <= j < r.take(i).len() implies ft_null(f, #[trigger] r.take(i)[j]) by {
                assert(nullable_sym(g, r.take(i)[j]));
                let m = choose |m: nat| null_sym(g, r.take(i)[j], m);
                assert(r.take(i)[j] == g.prods[n][p][j]);
                assert(g.sym_ok(g.prods[n][p][j]));
                lemma_closed_null(g, f, r[j], m);
            }
            assert(g.sym_ok(g.prods[n][p][i]));
            lemma_closed_first(g, f, r[i], t, (k - 1) as nat);
            assert(g.has(n, p));
            assert(ft_closed1(g, f, n, p));
        }
        _ => {}
    }
}
pub proof fn lemma_ft_exact(g: G, f: FT)
    requires g.wf(), ft_sound(g, f), ft_closed(g, f)
    ensures ft_exact(g, f)
{
    assert forall |n: int| 0 <= n < g.prods.len() implies (#[trigger] f.empty[n] <==> nullable(g, n)) by {
        if nullable(g, n) {
            let k = choose |k: nat| null_nt(g, n, k);
            let s = Symbol::NonTerminal(NonTerminalIdx(n as u32));
            assert(null_sym(g, s, k));
            lemma_closed_null(g, f, s, k);
        }
    }
    assert forall |n: int, t: TerminalIdx| 0 <= n < g.prods.len() implies (#[trigger] f.terms[n].contains(t) <==> first(g, n, t)) by {
        if first(g, n, t) {
            let k = choose |k: nat| first_nt(g, n, t, k);
            let s = Symbol::NonTerminal(NonTerminalIdx(n as u32));
            assert(first_sym(g, s, t, k));
            lemma_closed_first(g, f, s, t, k);
        }
    }
}

pub open spec fn ft_add(f: FT, n: int, t: TerminalIdx) -> FT {
    FT { empty: f.empty, terms: f.terms.update(n, f.terms[n].insert(t)) }
}
pub open spec fn ft_set_empty(f: FT, n: int) -> FT {
    FT { empty: f.empty.update(n, true), terms: f.terms }
}
/// what one step over symbol i of a production, all earlier symbols being nullable, may add
pub proof fn lemma_ft_step(g: G, f: FT, n: int, p: int, i: int)
    requires g.wf(), ft_sound(g, f), g.at(n, p, i), nullable_seq(g, g.prods[n][p].take(i))
    ensures
        forall |t: TerminalIdx| #[trigger] ft_first(f, g.prods[n][p][i], t) ==> first(g, n, t),
        ft_null(f, g.prods[n][p][i]) ==> nullable_seq(g, g.prods[n][p].take(i + 1)),
        ft_null_seq(f, g.prods[n][p].take(i)) && ft_null(f, g.prods[n][p][i]) ==> ft_null_seq(f, g.prods[n][p].take(i + 1)),
{
    let r = g.prods[n][p];
    let s = r[i];
    assert(g.sym_ok(g.prods[n][p][i]));
    assert forall |t: TerminalIdx| #[trigger] ft_first(f, s, t) implies first(g, n, t) by {
        assert(firsts(g, s, t)) by {
            match s {
                Symbol::Terminal(u) => { assert(first_sym(g, s, t, 0)); }
                Symbol::NonTerminal(m) => {
                    let k = choose |k: nat| first_nt(g, m.0 as int, t, k);
                    assert(first_sym(g, s, t, k));
                }
            }
        }
        lemma_first_intro(g, n, p, i, t);
    }
    if ft_null(f, s) {
        match s {
            Symbol::Terminal(u) => {}
            Symbol::NonTerminal(m) => {
                let k = choose |k: nat| null_nt(g, m.0 as int, k);
                assert(null_sym(g, s, k));
            }
        }
        assert(nullable_sym(g, s));
        assert forall |j: int| 0 <= j < i + 1 implies nullable_sym(g, #[trigger] r.take(i + 1)[j]) by {
            if j < i { assert(r.take(i)[j] == r[j]); }
        }
        if ft_null_seq(f, r.take(i)) {
            assert forall |j: int| 0 <= j < i + 1 implies ft_null(f, #[trigger] r.take(i + 1)[j]) by {
                if j < i { assert(r.take(i)[j] == r[j]); }
            }
        }
    }
}

/// symbols before k are accounted for, and either k is the end or symbol k-1 is not nullable
pub proof fn lemma_ft_closed1(g: G, f: FT, n: int, p: int, k: int)
    requires
        g.has(n, p), 0 <= k <= g.prods[n][p].len(),
        forall |i: int, t: TerminalIdx| 0 <= i < k && #[trigger] ft_first(f, g.prods[n][p][i], t) ==> f.terms[n].contains(t),
        (k == g.prods[n][p].len() && f.empty[n]) || (k > 0 && !ft_null(f, g.prods[n][p][k - 1])),
    ensures ft_closed1(g, f, n, p)
{
    let r = g.prods[n][p];
    if k > 0 && !ft_null(f, r[k - 1]) {
        assert(!ft_null_seq(f, r));
        assert forall |i: int, t: TerminalIdx| 0 <= i < r.len() && ft_null_seq(f, r.take(i)) && #[trigger] ft_first(f, r[i], t)
            implies f.terms[n].contains(t) by {
            if i >= k { assert(r.take(i)[k - 1] == r[k - 1]); }
        }
    }
}

// every terminal of a first set is in range
pub proof fn lemma_first_in_range(g: G, s: Symbol, t: TerminalIdx, k: nat)
    requires g.wf(), g.sym_ok(s), first_sym(g, s, t, k)
    ensures (t.0 as int) < g.nt
    decreases k
{
    match s {
        Symbol::Terminal(_) => {}
        Symbol::NonTerminal(n) => {
            let (p, i) = choose |p: int, i: int| #[trigger] g.at(n.0 as int, p, i) && first_at(g, n.0 as int, p, i, t, (k - 1) as nat);
            assert(g.sym_ok(g.prods[n.0 as int][p][i]));
            lemma_first_in_range(g, g.prods[n.0 as int][p][i], t, (k - 1) as nat);
        }
    }
}

// ------------------------------------------------------------------ first tables cannot grow forever
pub open spec fn cell_size(f: FT, n: int) -> nat { f.terms[n].len() + (if f.empty[n] { 1nat } else { 0nat }) }
pub open spec fn fsize_to(f: FT, n: nat) -> nat
    decreases n
{
    if n == 0 { 0 } else { fsize_to(f, (n - 1) as nat) + cell_size(f, n - 1) }
}
pub open spec fn fsize(f: FT) -> nat { fsize_to(f, f.terms.len()) }
pub proof fn lemma_fsize_update(f: FT, f2: FT, m: int, n: nat)
    requires n <= f.terms.len(), forall |i: int| 0 <= i < n && i != m ==> cell_size(f2, i) == #[trigger] cell_size(f, i)
    ensures fsize_to(f2, n) == fsize_to(f, n) + (if 0 <= m < n { cell_size(f2, m) - cell_size(f, m) } else { 0 })
    decreases n
{
    if n > 0 {
        lemma_fsize_update(f, f2, m, (n - 1) as nat);
        assert(n - 1 != m ==> cell_size(f2, n - 1) == cell_size(f, n - 1));
    }
}
pub proof fn lemma_fsize_add(f: FT, m: int, t: TerminalIdx)
    requires 0 <= m < f.terms.len(), f.empty.len() == f.terms.len()
    ensures fsize(ft_add(f, m, t)) == fsize(f) + (if f.terms[m].contains(t) { 0int } else { 1 })
{
    if f.terms[m].contains(t) { assert(f.terms[m].insert(t) =~= f.terms[m]); }
    lemma_fsize_update(f, ft_add(f, m, t), m, f.terms.len());
}
pub proof fn lemma_fsize_empty(f: FT, m: int)
    requires 0 <= m < f.terms.len(), f.empty.len() == f.terms.len()
    ensures fsize(ft_set_empty(f, m)) == fsize(f) + (if f.empty[m] { 0int } else { 1 })
{
    lemma_fsize_update(f, ft_set_empty(f, m), m, f.terms.len());
}
pub open spec fn tset(k: nat) -> SSet<TerminalIdx>
    decreases k
{
    if k == 0 { SSet::<TerminalIdx>::empty() } else { tset((k - 1) as nat).insert(TerminalIdx((k - 1) as u32)) }
}
pub proof fn lemma_tset(k: nat)
    requires k <= u32::MAX
    ensures tset(k).len() <= k, forall |t: TerminalIdx| (t.0 as int) < k ==> #[trigger] tset(k).contains(t)
    decreases k
{
    if k > 0 { lemma_tset((k - 1) as nat); }
}
pub open spec fn max_fsize(g: G) -> nat { g.prods.len() * (g.nt + 1) }
pub proof fn lemma_fsize_bound(g: G, f: FT, n: nat)
    requires g.wf(), ft_sound(g, f), n <= g.prods.len()
    ensures fsize_to(f, n) <= n * (g.nt + 1)
    decreases n
{
    if n > 0 {
        lemma_fsize_bound(g, f, (n - 1) as nat);
        lemma_tset(g.nt);
        let m = n - 1;
        let s = Symbol::NonTerminal(NonTerminalIdx(m as u32));
        assert forall |t: TerminalIdx| f.terms[m].contains(t) implies tset(g.nt).contains(t) by {
            assert(first(g, m, t));
            let k = choose |k: nat| first_nt(g, m, t, k);
            assert(first_sym(g, s, t, k));
            lemma_first_in_range(g, s, t, k);
        }
        vstd::set_lib::lemma_len_subset(f.terms[m], tset(g.nt));
        assert(n * (g.nt + 1) == (n - 1) * (g.nt + 1) + g.nt + 1) by (nonlinear_arith) requires n > 0;
    }
}
