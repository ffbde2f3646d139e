//@ module grammar file=grammar.rs
//@ header
use vstd::prelude::*;
use crate::prelude::*;
use crate::theory::*;
use crate::{ast, syn};
//@ type Grammar
//@ type NonTerminalIdx
//@ type TerminalIdx
//@ type ProductionIdx
//@ type NonTerminal
//@ type Production
//@ type BoundSymbol
//@ type Symbol
//@ type ProductionIndicesIter
//@ type NonTerminalIndicesIter
//@ type NonTerminalProductionIndicesIter
//@ raw
impl Key for NonTerminalIdx { type KV = NonTerminalIdx; open spec fn key(&self) -> NonTerminalIdx { *self } }
impl Key for TerminalIdx { type KV = TerminalIdx; open spec fn key(&self) -> TerminalIdx { *self } }
impl Key for Symbol { type KV = Symbol; open spec fn key(&self) -> Symbol { *self } }
impl<A> NonZst for NonTerminal<A> {}

impl<A> Production<A> {
    pub open spec fn syms(&self) -> Seq<Symbol> { Seq::new(self.symbols@.len(), |i: int| self.symbols@[i].symbol) }
}
impl<A> NonTerminal<A> {
    pub open spec fn prods(&self) -> Seq<Seq<Symbol>> { Seq::new(self.productions@.len(), |i: int| self.productions@[i].syms()) }
}
impl<A> Grammar<A> {
    /// the abstract grammar
    pub open spec fn gv(&self) -> G {
        G {
            prods: Seq::new(self.non_terminals@.len(), |i: int| self.non_terminals@[i].prods()),
            public: Seq::new(self.non_terminals@.len(), |i: int| self.non_terminals@[i].public),
            nt: self.terminals@.len(),
        }
    }
    pub open spec fn wf(&self) -> bool { self.gv().wf() }
}

//@ fn NonTerminalIdx::as_usize ret=r
    ensures r == self.0 as usize,
//@ fn NonTerminalIdx::from_usize ret=r
    ensures r.0 as int == i as int,
//@ fn TerminalIdx::as_usize ret=r
    ensures r == self.0 as usize,
//@ fn TerminalIdx::from_usize ret=r
    ensures r.0 as int == i as int,
//@ fn ProductionIdx::as_usize ret=r
    ensures r == self.0 as usize,

//@ fn Grammar::new ret=r
    ensures
        r.non_terminals@.len() == 0,
        r.terminals@.len() == 0,
//@ fn Grammar::add_non_terminal ret=r
    requires old(self).non_terminals@.len() < u32::MAX,
    ensures
        r.0 as int == old(self).non_terminals@.len(),
        final(self).terminals@ == old(self).terminals@,
        final(self).non_terminals@.len() == old(self).non_terminals@.len() + 1,
        forall |i: int| 0 <= i < old(self).non_terminals@.len() ==> final(self).non_terminals@[i] == old(self).non_terminals@[i],
        final(self).non_terminals@.last().non_terminal == non_terminal,
        final(self).non_terminals@.last().productions@.len() == 0,
        final(self).non_terminals@.last().return_ty == return_ty,
        final(self).non_terminals@.last().public == public,
//@ fn Grammar::new_terminal ret=r
    ensures
        r.0 as int == old(self).terminals@.len(),
        final(self).non_terminals@ == old(self).non_terminals@,
        final(self).terminals@ == old(self).terminals@.push(str),
//@ fn Grammar::get_non_terminal ret=r
    requires (idx.0 as int) < self.non_terminals@.len(),
    ensures *r == self.non_terminals@[idx.0 as int],
//@ fn Grammar::get_terminal ret=r
    requires (idx.0 as int) < self.terminals@.len(),
    ensures r@ == self.terminals@[idx.0 as int]@,
//@ fn Grammar::n_non_terminals ret=r
    ensures r == self.non_terminals@.len(),
//@ fn Grammar::n_terminals ret=r
    ensures r == self.terminals@.len(),
//@ fn Grammar::add_production ret=r
    requires
        (non_terminal.0 as int) < old(self).non_terminals@.len(),
        old(self).non_terminals@[non_terminal.0 as int].productions@.len() < u32::MAX,
    ensures
        r.0 as int == old(self).non_terminals@[non_terminal.0 as int].productions@.len(),
        final(self).terminals@ == old(self).terminals@,
        final(self).non_terminals@.len() == old(self).non_terminals@.len(),
        forall |i: int| 0 <= i < old(self).non_terminals@.len() && i != non_terminal.0 as int ==> final(self).non_terminals@[i] == old(self).non_terminals@[i],
        final(self).non_terminals@[non_terminal.0 as int].non_terminal == old(self).non_terminals@[non_terminal.0 as int].non_terminal,
        final(self).non_terminals@[non_terminal.0 as int].return_ty == old(self).non_terminals@[non_terminal.0 as int].return_ty,
        final(self).non_terminals@[non_terminal.0 as int].public == old(self).non_terminals@[non_terminal.0 as int].public,
        final(self).non_terminals@[non_terminal.0 as int].productions@
            == old(self).non_terminals@[non_terminal.0 as int].productions@.push(Production { symbols, action }),
//@ fn Grammar::get_production ret=r
    requires
        (nt_idx.0 as int) < self.non_terminals@.len(),
        (prod_idx.0 as int) < self.non_terminals@[nt_idx.0 as int].productions@.len(),
    ensures *r == self.non_terminals@[nt_idx.0 as int].productions@[prod_idx.0 as int],

//@ fn NonTerminal::productions ret=r
    ensures r@ == self.productions@,
//@ fn NonTerminal::get_production ret=r
    requires (production_idx.0 as int) < self.productions@.len(),
    ensures *r == self.productions@[production_idx.0 as int],
//@ fn Production::symbols ret=r
    ensures r@ == self.symbols@,

//@ fn ProductionIndicesIter::next drop
//@ fn NonTerminalIndicesIter::next ret=r
    requires old(self).grammar.non_terminals@.len() < u32::MAX,
    ensures
        final(self).grammar == old(self).grammar,
        match r {
            Some((i, n)) => (old(self).non_terminal_idx.0 as int) < old(self).grammar.non_terminals@.len()
                && i == old(self).non_terminal_idx && *n == old(self).grammar.non_terminals@[i.0 as int]
                && final(self).non_terminal_idx.0 == i.0 + 1,
            None => (old(self).non_terminal_idx.0 as int) >= old(self).grammar.non_terminals@.len()
                && final(self).non_terminal_idx == old(self).non_terminal_idx,
        },
//@ fn NonTerminalProductionIndicesIter::next ret=r
    requires
        (old(self).non_terminal_idx.0 as int) < old(self).grammar.non_terminals@.len(),
        old(self).grammar.non_terminals@[old(self).non_terminal_idx.0 as int].productions@.len() < u32::MAX,
    ensures
        final(self).grammar == old(self).grammar,
        final(self).non_terminal_idx == old(self).non_terminal_idx,
        match r {
            Some((i, n)) => (i.0 as int) < old(self).grammar.non_terminals@[old(self).non_terminal_idx.0 as int].productions@.len()
                && i == old(self).production_idx
                && *n == old(self).grammar.non_terminals@[old(self).non_terminal_idx.0 as int].productions@[i.0 as int]
                && final(self).production_idx.0 == i.0 + 1,
            None => (old(self).production_idx.0 as int) >= old(self).grammar.non_terminals@[old(self).non_terminal_idx.0 as int].productions@.len()
                && final(self).production_idx == old(self).production_idx,
        },

//@ fn Grammar::non_terminals ret=r
    ensures r@ == self.non_terminals@,
//@ fn Grammar::non_terminal_indices ret=r
//@ rettype NonTerminalIndicesIter<'_, A>
    ensures r.grammar == self, r.non_terminal_idx.0 == 0,
//@ fn Grammar::non_terminal_production_indices ret=r
//@ rettype NonTerminalProductionIndicesIter<'_, A>
    ensures r.grammar == self, r.non_terminal_idx == non_terminal, r.production_idx.0 == 0,
//@ fn Grammar::terminal_indices ret=r
//@ rettype VIter<TerminalIdx>
    ensures
        r.pos() == 0,
        r.seq().len() == self.terminals@.len(),
        forall |i: int| 0 <= i < r.seq().len() ==> (#[trigger] r.seq()[i]).0 as int == i,
//@ loop 0 elem
TerminalIdx
//@ loop 0
    $out@.len() == $it.pos(),
    forall |i: int| 0 <= i < $out@.len() ==> (#[trigger] $out@[i]).0 as int == i,
