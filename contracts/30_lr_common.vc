//@ module lr_common file=lr_common.rs
//@ header
use vstd::prelude::*;
use crate::prelude::*;
use crate::collections::{Map, Set};
use crate::grammar::*;
//@ type StateIdx
//@ type LRAction
//@ type LRTable
//@ type LRTableBuilder
//@ raw
impl Key for StateIdx { type KV = StateIdx; open spec fn key(&self) -> StateIdx { *self } }
impl<A> LRTable<A> {
    pub open spec fn at(&self, s: StateIdx, la: Option<TerminalIdx>) -> Option<LRAction<A>> {
        if self.action@.dom().contains(s) && self.action@[s]@.dom().contains(la) { Some(self.action@[s]@[la]) } else { None }
    }
    pub open spec fn gt(&self, s: StateIdx, n: NonTerminalIdx) -> Option<StateIdx> {
        if self.goto@.dom().contains(s) && self.goto@[s]@.dom().contains(n) { Some(self.goto@[s]@[n]) } else { None }
    }
    /// the action of one cell changed, nothing else
    pub open spec fn set_at(&self, old: LRTable<A>, s: StateIdx, la: Option<TerminalIdx>) -> bool {
        &&& forall |i: StateIdx, l: Option<TerminalIdx>| !(i == s && l == la) ==> #[trigger] self.at(i, l) == old.at(i, l)
        &&& forall |i: StateIdx, n: NonTerminalIdx| #[trigger] self.gt(i, n) == old.gt(i, n)
        &&& self.n_states == old.n_states
    }
}
//@ fn StateIdx::as_usize ret=r
    ensures r == self.0,
//@ fn LRTableBuilder::new ret=r nopanic
    ensures
        forall |s: StateIdx, la: Option<TerminalIdx>| #[trigger] r.table.at(s, la) is None,
        forall |s: StateIdx, n: NonTerminalIdx| #[trigger] r.table.gt(s, n) is None,
        r.table.n_states == n_states,
//@ fn LRTableBuilder::build ret=r nopanic
    ensures r == self.table,
//@ fn LRTableBuilder::add_shift rejects
    requires
        (token.0 as int) < grammar.terminals@.len(),
        (match old(self).table.at(state, Some(token)) {
            Some(LRAction::Shift(s)) => s != next_state,
            Some(LRAction::Accept) => true,
            _ => false,
        }) ==> may_reject(),
    ensures
        final(self).table.at(state, Some(token)) == Some(LRAction::<A>::Shift(next_state)),
        final(self).table.set_at(old(self).table, state, Some(token)),
//@ fn LRTableBuilder::add_reduce rejects
    requires
        token is Some ==> ((token->0).0 as int) < grammar.terminals@.len(),
        old(self).table.at(state, token) is Some ==> may_reject(),
    ensures
        old(self).table.at(state, token) is None,
        final(self).table.at(state, token) == Some(LRAction::Reduce(non_terminal_idx, production_idx, semantic_action)),
        final(self).table.set_at(old(self).table, state, token),
//@ fn LRTableBuilder::add_accept rejects
    requires
        old(self).table.at(state, None) is Some && old(self).table.at(state, None)->0 is Reduce ==> may_reject(),
    ensures
        old(self).table.at(state, None) is None || !(old(self).table.at(state, None)->0 is Reduce),
        final(self).table.at(state, None) == Some(LRAction::<A>::Accept),
        final(self).table.set_at(old(self).table, state, None),
//@ fn LRTableBuilder::add_goto nopanic
    ensures
        final(self).table.gt(state, non_terminal_idx) == Some(next),
        forall |i: StateIdx, n: NonTerminalIdx| !(i == state && n == non_terminal_idx) ==> #[trigger] final(self).table.gt(i, n) == old(self).table.gt(i, n),
        forall |i: StateIdx, l: Option<TerminalIdx>| #[trigger] final(self).table.at(i, l) == old(self).table.at(i, l),
        final(self).table.n_states == old(self).table.n_states,
//@ fn LRTable::get_action ret=r
    ensures
        match r { Some(a) => self.at(state, non_terminal) == Some(*a), None => self.at(state, non_terminal) is None },
//@ fn LRTable::get_action_table ret=r
    ensures r@ == self.action@,
//@ fn LRTable::get_goto_table ret=r
    ensures r@ == self.goto@,
//@ fn LRTable::n_states ret=r
    ensures r == self.n_states,
