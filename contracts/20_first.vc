//@ module first file=first.rs
//@ header
use vstd::prelude::*;
use crate::prelude::*;
use crate::theory::*;
use crate::grammar::*;
pub use crate::prelude::HSet as FxHashSet;
//@ type FirstTable
//@ type FirstSet
//@ raw
impl FirstTable {
    pub open spec fn ft(&self) -> FT {
        FT {
            empty: Seq::new(self.0@.len(), |i: int| self.0@[i].empty),
            terms: Seq::new(self.0@.len(), |i: int| self.0@[i].terminals@),
        }
    }
}
//@ fn FirstSet::add
    ensures
        final(self).empty == old(self).empty,
        final(self).terminals@ == old(self).terminals@.insert(terminal),
//@ fn FirstSet::set_empty
    ensures
        final(self).empty,
        final(self).terminals@ == old(self).terminals@,
//@ fn FirstSet::terminals ret=r
    ensures r@ == self.terminals@,
//@ fn FirstSet::has_empty ret=r
    ensures r == self.empty,
//@ fn FirstTable::new ret=r
    ensures
        r.0@.len() == n_non_terminals,
        forall |i: int| 0 <= i < n_non_terminals ==> (#[trigger] r.0@[i]).is_default(),
//@ lettype sets Vec<FirstSet>
//@ loop 0
    sets@.len() == $it.pos(),
    forall |i: int| 0 <= i < sets@.len() ==> (#[trigger] sets@[i]).is_default(),
//@ fn FirstTable::add_first ret=r
    requires (non_terminal_idx.0 as int) < old(self).0@.len(),
    ensures
        final(self).ft() == ft_add(old(self).ft(), non_terminal_idx.0 as int, terminal),
        r == !old(self).ft().terms[non_terminal_idx.0 as int].contains(terminal),
        fsize(final(self).ft()) == fsize(old(self).ft()) + (if r { 1int } else { 0 }),
        !r ==> final(self).ft() == old(self).ft(),
//@ end
    proof {
        lemma_fsize_add(old(self).ft(), non_terminal_idx.0 as int, terminal);
        assert(self.ft().empty =~= old(self).ft().empty);
        assert(self.ft().terms =~= ft_add(old(self).ft(), non_terminal_idx.0 as int, terminal).terms);
        if !$ret {
            assert(old(self).ft().terms[non_terminal_idx.0 as int].insert(terminal) =~= old(self).ft().terms[non_terminal_idx.0 as int]);
            assert(self.ft().terms =~= old(self).ft().terms);
        }
    }
//@ fn FirstTable::set_empty ret=r
    requires (non_terminal_idx.0 as int) < old(self).0@.len(),
    ensures
        final(self).ft() == ft_set_empty(old(self).ft(), non_terminal_idx.0 as int),
        r == !old(self).ft().empty[non_terminal_idx.0 as int],
        fsize(final(self).ft()) == fsize(old(self).ft()) + (if r { 1int } else { 0 }),
        !r ==> final(self).ft() == old(self).ft(),
//@ end
    proof {
        lemma_fsize_empty(old(self).ft(), non_terminal_idx.0 as int);
        assert(self.ft().terms =~= old(self).ft().terms);
        assert(self.ft().empty =~= ft_set_empty(old(self).ft(), non_terminal_idx.0 as int).empty);
        if !$ret { assert(self.ft().empty =~= old(self).ft().empty); }
    }
//@ fn FirstTable::get_first ret=r
    requires (non_terminal_idx.0 as int) < self.0@.len(),
    ensures *r == self.0@[non_terminal_idx.0 as int],

//@ fn generate_first_table ret=r
    requires grammar.wf(),
    ensures ft_exact(grammar.gv(), r.ft()),
//@ begin
    let ghost g = grammar.gv();
//@ loop 0
    ft_sound(g, table.ft()),
    !updated ==> ft_closed(g, table.ft()),
//@ loop 0 decreases
    max_fsize(g) - fsize(table.ft()), (if updated { 1int } else { 0 })
//@ loop 0 begin
    let ghost t0 = table.ft();
    proof { lemma_fsize_bound(g, table.ft(), g.prods.len()); }
//@ loop 0 end
    proof { lemma_fsize_bound(g, table.ft(), g.prods.len()); }
//@ loop 0 after
    proof { lemma_ft_exact(g, table.ft()); }
//@ loop 1
    $custom
    $it.grammar == grammar,
    $it.non_terminal_idx.0 as int <= g.prods.len(),
    ft_sound(g, table.ft()),
    fsize(table.ft()) >= fsize(t0) + (if updated { 1int } else { 0 }),
    !updated ==> table.ft() == t0,
    !updated ==> forall |n: int, p: int| g.has(n, p) && n < $it.non_terminal_idx.0 ==> #[trigger] ft_closed1(g, t0, n, p),
//@ loop 1 ensures
    $it.non_terminal_idx.0 as int == g.prods.len(),
//@ loop 1 decreases
    g.prods.len() - $it.non_terminal_idx.0
//@ loop 1 begin
    let ghost n = $it.non_terminal_idx.0 - 1;
//@ loop 2
    ft_sound(g, table.ft()),
    fsize(table.ft()) >= fsize(t0) + (if updated { 1int } else { 0 }),
    !updated ==> table.ft() == t0,
    !updated ==> forall |m: int, p: int| g.has(m, p) && m < n ==> #[trigger] ft_closed1(g, t0, m, p),
    !updated ==> forall |p: int| g.has(n, p) && p < $it.pos() ==> #[trigger] ft_closed1(g, t0, n, p),
//@ loop 2 begin
    let ghost p = $it.pos() - 1;
    let ghost rhs = g.prods[n][p];
    proof {
        assert(g.has(n, p));
        if rhs.len() == 0 { lemma_nullable_intro(g, n, p); }
    }
    let ghost mut k: int = 0;
    let ghost u2 = updated;
//@ loop 2 end
    proof { if !updated { lemma_ft_closed1(g, t0, n, p, k); } }
//@ loop 3
    u2 ==> updated,
    k == $it.pos(),
    ft_sound(g, table.ft()),
    fsize(table.ft()) >= fsize(t0) + (if updated { 1int } else { 0 }),
    !updated ==> table.ft() == t0,
    nullable_seq(g, rhs.take($it.pos())),
    !updated ==> ft_null_seq(t0, rhs.take($it.pos())),
    !updated ==> forall |i: int, t: TerminalIdx| 0 <= i < $it.pos() && #[trigger] ft_first(t0, rhs[i], t) ==> t0.terms[n].contains(t),
//@ loop 3 begin
    let ghost i = $it.pos() - 1;
    let ghost u3 = updated;
    proof {
        k = i + 1;
        assert(g.sym_ok(g.prods[n][p][i]));
        lemma_ft_step(g, table.ft(), n, p, i);
        if let Symbol::Terminal(t) = rhs[i] { assert(ft_first(table.ft(), rhs[i], t)); }
    }
//@ loop 3 after
    proof {
        assert(rhs.take(rhs.len() as int) =~= rhs);
        lemma_nullable_intro(g, n, p);
    }
//@ loop 4 after
    proof {
        if !updated {
            assert forall |t: TerminalIdx| #[trigger] ft_first(t0, rhs[i], t) implies t0.terms[n].contains(t) by {}
        }
    }
//@ loop 4 start
    proof {
        assert forall |j: int| 0 <= j < $sq.len() implies first(g, n, #[trigger] $sq[j]) by {
            assert(ft_first(table.ft(), rhs[i], $sq[j]));
        }
    }
//@ loop 4
    u3 ==> updated,
    ft_sound(g, table.ft()),
    fsize(table.ft()) >= fsize(t0) + (if updated { 1int } else { 0 }),
    !updated ==> table.ft() == t0,
    !updated ==> forall |j: int| 0 <= j < $it.pos() ==> t0.terms[n].contains(#[trigger] $sq[j]),
    forall |j: int| 0 <= j < $sq.len() ==> first(g, n, #[trigger] $sq[j]),
