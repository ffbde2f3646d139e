//@ module link
//@ header
use vstd::prelude::*;
use vstd::pervasive::cloned;
use crate::prelude::*;
use crate::theory::*;
use crate::items::*;
use crate::automaton::*;
use crate::table::*;
use crate::parser::*;
use crate::grammar::{Grammar, Symbol, NonTerminalIdx, TerminalIdx, ProductionIdx};
use crate::lr1::LR1Item;
use crate::lr_common::{StateIdx, LRAction, LRTable};
//@ raw
// ------------------------------------------------------------------ the finished table is the machine of the proofs
pub open spec fn act_of<A>(c: Option<LRAction<A>>) -> Option<Act> {
    match c {
        None => None,
        Some(LRAction::Shift(j)) => Some(Act::Shift(j.0 as int)),
        Some(LRAction::Reduce(n, q, _)) => Some(Act::Reduce(n, q)),
        Some(LRAction::Accept) => Some(Act::Accept),
    }
}
pub open spec fn machine<A>(gram: &Grammar<A>, a: Aut, starts: SMap<NonTerminalIdx, StateIdx>, t: LRTable<A>) -> P {
    P { g: gram.gv(), a, starts, act: |i: int, la: Option<TerminalIdx>| act_of(t.at(StateIdx(i as usize), la)) }
}
/// the automaton and table that the (verified) builders return satisfy what the driver's proof asks of its machine
pub proof fn lemma_machine_ok<A: Clone>(gram: &Grammar<A>, a: Aut, starts: SMap<NonTerminalIdx, StateIdx>, t: LRTable<A>)
    requires
        gram.wf(), entries_ok(gram.gv()), aut_exact(gram.gv(), a, starts), table_ok(gram, a, t),
        a.items.len() <= usize::MAX, gram.gv().wf(),
    ensures p_ok(machine(gram, a, starts, t))
{
    let p = machine(gram, a, starts, t);
    assert forall |i: int| 0 <= i < p.a.items.len() implies #[trigger] p_row_ok(p, i) by {
        let si = StateIdx(i as usize);
        let s = a.items[i];
        let goto = a.goto[i];
        let g = p.g;
        assert(row_ok(gram, a.items[si.0 as int], a.goto[si.0 as int], t, si));
        assert forall |la: Option<TerminalIdx>| match #[trigger] (p.act)(i, la) {
            Some(Act::Shift(j)) => la is Some && goto.dom().contains(Symbol::Terminal(la->0)) && goto[Symbol::Terminal(la->0)].0 == j,
            Some(Act::Reduce(n, q)) => exists |it: LR1Item| #[trigger] s.contains(it) && p_red(g, it) && it.lookahead == la
                && it.non_terminal_idx == n && it.production_idx == q,
            Some(Act::Accept) => la is None && exists |it: LR1Item| #[trigger] s.contains(it) && p_acc(g, it),
            None => true,
        } by {
            assert((p.act)(i, la) == act_of(t.at(si, la)));
            match t.at(si, la) {
                Some(LRAction::Reduce(n, q, _)) => { assert(reduces(gram, s, la, n, q)); }
                Some(LRAction::Accept) => { assert(accepts(g, s)); }
                _ => {}
            }
        }
        assert forall |it: LR1Item| #[trigger] s.contains(it) && p_red(g, it) implies match (p.act)(i, it.lookahead) {
            Some(Act::Shift(_)) => true,
            Some(Act::Reduce(n, q)) => n == it.non_terminal_idx && q == it.production_idx,
            _ => false,
        } by {
            assert(red(g, it));
            assert((p.act)(i, it.lookahead) == act_of(t.at(si, it.lookahead)));
        }
        assert forall |it: LR1Item| #[trigger] s.contains(it) && p_acc(g, it) implies (p.act)(i, None) == Some(Act::Accept) by {
            assert(acc(g, it));
            assert(accepts(g, s));
        }
        assert forall |it: LR1Item| #[trigger] s.contains(it) && it_next(g, it) is Some && it_next(g, it)->0 is Terminal
            implies (p.act)(i, Some(it_next(g, it)->0->Terminal_0)) is Some && (p.act)(i, Some(it_next(g, it)->0->Terminal_0))->0 is Shift by {
            assert(t.at(si, Some(it_next(g, it)->0->Terminal_0)) is Some);
        }
    }
}
/// no_sr is what "conflict-free" leaves to ask of an accepted grammar
pub proof fn lemma_no_sr<A: Clone>(gram: &Grammar<A>, a: Aut, starts: SMap<NonTerminalIdx, StateIdx>, t: LRTable<A>)
    requires !conflicted(gram.gv(), a.items)
    ensures no_sr(machine(gram, a, starts, t))
{
    let p = machine(gram, a, starts, t);
    assert forall |i: int, x: LR1Item, b: LR1Item| 0 <= i < p.a.items.len() && #[trigger] p.a.items[i].contains(x) && #[trigger] p.a.items[i].contains(b)
        implies !(p_red(p.g, x) && x.lookahead is Some && it_next(p.g, b) == Some(Symbol::Terminal(x.lookahead->0))) by {
        assert(sr_clash(p.g, x, b) ==> conflicted(p.g, a.items));
    }
}
