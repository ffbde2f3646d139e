//@ module lr1 file=lr1.rs
//@ header
use vstd::prelude::*;
use crate::prelude::*;
use crate::theory::*;
use crate::items::*;
use crate::automaton::*;
use crate::table::*;
//@ if det
use crate::det::*;
//@ endif
use vstd::pervasive::cloned;
use crate::collections::{Map, Set};
use crate::first::*;
use crate::grammar::*;
use crate::lr_common::*;
//@ type LR1Item
//@ type LR1State
//@ type LR1Automaton
//@ type LR1AutomatonStateIndicesIter
//@ raw
// has a set and a map in it
impl NonZst for LR1State {}
impl Key for LR1Item { type KV = LR1Item; open spec fn key(&self) -> LR1Item { *self } }
pub open spec fn st_items(v: Seq<LR1State>) -> Seq<Items> { Seq::new(v.len(), |i: int| v[i].items@) }
pub open spec fn st_goto(v: Seq<LR1State>) -> Seq<SMap<Symbol, StateIdx>> { Seq::new(v.len(), |i: int| v[i].goto@) }
impl LR1Automaton {
    pub open spec fn av(&self) -> Aut { Aut { items: st_items(self.states@), goto: st_goto(self.states@) } }
}
/// the transitions found in one pass
pub open spec fn ng_ok(g: G, items: Seq<Items>, n: int, v: Seq<(StateIdx, Symbol, StateIdx)>) -> bool {
    forall |k: int| 0 <= k < v.len() ==> ((#[trigger] v[k]).0.0 as int) < n && trans(g, items, v[k].0.0 as int, v[k].1, v[k].2.0 as int)
}
pub open spec fn ng_has(v: Seq<(StateIdx, Symbol, StateIdx)>, i: int, x: Symbol) -> bool {
    exists |k: int| 0 <= k < v.len() && (#[trigger] v[k]).0.0 == i && v[k].1 == x
}
pub proof fn lemma_ng_push(v: Seq<(StateIdx, Symbol, StateIdx)>, e: (StateIdx, Symbol, StateIdx))
    ensures
        ng_has(v.push(e), e.0.0 as int, e.1),
        forall |i: int, x: Symbol| #[trigger] ng_has(v, i, x) ==> ng_has(v.push(e), i, x),
{
    assert(v.push(e)[v.len() as int] == e);
    assert forall |i: int, x: Symbol| #[trigger] ng_has(v, i, x) implies ng_has(v.push(e), i, x) by {
        let k = choose |k: int| 0 <= k < v.len() && (#[trigger] v[k]).0.0 == i && v[k].1 == x;
        assert(v.push(e)[k] == v[k]);
    }
}
pub open spec fn fs_has(f: FirstSet, la: Option<TerminalIdx>) -> bool {
    match la { Some(t) => f.terminals@.contains(t), None => f.empty }
}
//@ fn LR1Item::next_symbol ret=r
    requires grammar.gv().has(self.n(), self.p()),
    ensures
        (r is Some) == (it_next(grammar.gv(), *self) is Some),
        r is Some ==> Some(*r->0) == it_next(grammar.gv(), *self),
//@ fn LR1Item::next_non_terminal ret=r
    requires grammar.gv().has(self.n(), self.p()),
    ensures
        r is Some ==> it_next(grammar.gv(), *self) == Some(Symbol::NonTerminal(r->0)),
        r is None ==> it_next(grammar.gv(), *self) is None || it_next(grammar.gv(), *self)->0 is Terminal,
//@ fn LR1Item::next_terminal ret=r
    requires grammar.gv().has(self.n(), self.p()),
    ensures
        r is Some ==> it_next(grammar.gv(), *self) == Some(Symbol::Terminal(r->0)),
        r is None ==> it_next(grammar.gv(), *self) is None || it_next(grammar.gv(), *self)->0 is NonTerminal,
//@ fn LR1Item::get_production ret=r
    requires grammar.gv().has(self.n(), self.p()),
    ensures *r == grammar.non_terminals@[self.n()].productions@[self.p()],
//@ fn LR1Item::advance ret=r
    requires self.cursor < usize::MAX,
    ensures r == adv(*self),
//@ fn LR1Item::is_complete ret=r
    requires grammar.gv().has(self.n(), self.p()),
    ensures self.c() <= rhs(grammar.gv(), *self).len() ==> r == (self.c() == rhs(grammar.gv(), *self).len()),

//@ fn compute_lr1_closure ret=r
    requires
        grammar.wf(),
        ft_exact(grammar.gv(), first_table.ft()),
        items_ok(grammar.gv(), items@),
    ensures
        is_clo(grammar.gv(), items@, r@),
        items_ok(grammar.gv(), r@),
//@ begin
    let ghost g = grammar.gv();
    let ghost kernel = items@;
    let ghost mut cf = items@;
//@ loop 0 before
    proof {
        lemma_collect_refs(closure@, work_list@);
        lemma_work_init(g, kernel, work_list@);
    }
//@ loop 0
    work_inv(g, kernel, None, closure@, work_list@),
//@ loop 0 decreases
    universe(g).len() - closure@.len(), work_list@.len()
//@ loop 0 begin
    let ghost it0 = item;
    let ghost c0 = closure@;
    let ghost w0 = work_list@;
    proof {
        assert forall |w: Seq<LR1Item>| #[trigger] work_inv(g, kernel, None, c0, w) && w.len() > 0 implies w.drop_last().push(w.last()) == w by {
            assert(w.drop_last().push(w.last()) =~= w);
        }
        lemma_work_pop(g, kernel, c0, w0, it0);
        lemma_universe(g, c0);
    }
    let ghost beta = it_rest(g, item);
    let ghost la0 = item.lookahead;
    let ghost mut k: int = 0;
    proof { lemma_vec_len(&grammar.non_terminals@[item.n()].productions@[item.p()].symbols); }
//@ loop 0 end
    proof {
        if it_next(g, it0) is None || it_next(g, it0)->0 is Terminal {
            assert(step_closed(g, closure@, it0));
        }
        lemma_work_done(g, kernel, it0, closure@, work_list@);
        lemma_universe(g, closure@);
    }
//@ loop 0 after
    proof { cf = closure@; lemma_is_clo(g, kernel, closure@); }
//@ end
    proof { assert($ret@ =~= cf); }
//@ loop 1
    k == $it.pos(),
    !first.empty,
    forall |t: TerminalIdx| #[trigger] first.terminals@.contains(t) <==> pf(g, beta, k, t),
    end_allowed ==> nullable_seq(g, beta.take(k)),
    !end_allowed ==> k > 0 && !nullable_sym(g, beta[k - 1]),
//@ loop 1 except_break
    end_allowed,
//@ loop 1 ensures
    end_allowed ==> k == beta.len(),
//@ loop 1 start
    proof {
        assert($sq.len() == beta.len());
        assert forall |i: int| 0 <= i < beta.len() implies (#[trigger] $sq[i]).symbol == beta[i] by {}
    }
//@ loop 1 begin
    let ghost i = $it.pos() - 1;
    proof {
        k = i + 1;
        assert(g.sym_ok(g.prods[item.n()][item.p()][item.c() + 1 + i]));
        assert(symbol.symbol == beta[i]);
        lemma_pf_step(g, beta, i);
        lemma_exact_sym(g, first_table.ft(), beta[i]);
        if let Symbol::Terminal(u) = beta[i] {
            assert forall |t: TerminalIdx| firsts(g, beta[i], t) <==> t == u by { assert(ft_first(first_table.ft(), beta[i], t) <==> t == u); }
        }
    }
//@ loop 1 after
    proof {
        if end_allowed { assert(beta.take(beta.len() as int) =~= beta); } else { lemma_pf_stop(g, beta, k); }
        assert(end_allowed <==> nullable_seq(g, beta));
        assert(end_allowed ==> k == beta.len());
        assert forall |t: TerminalIdx| #[trigger] first.terminals@.contains(t) <==> pf(g, beta, beta.len() as int, t) by {
            assert(first.terminals@.contains(t) <==> pf(g, beta, k, t));
            if end_allowed { } else { assert(pf(g, beta, k, t) <==> pf(g, beta, beta.len() as int, t)); }
        }
    }
//@ loop 2
    !first.empty,
    end_allowed,
    forall |t: TerminalIdx| #[trigger] first.terminals@.contains(t) <==> pf(g, beta, i, t) || deref_seq($sq).take($it.pos()).contains(t),
//@ loop 2 begin
    let ghost j = $it.pos() - 1;
    let ghost f1 = first.terminals@;
//@ loop 2 end
    proof {
        assert(deref_seq($sq).take(j + 1) =~= deref_seq($sq).take(j).push(*t));
        lemma_push_contains(deref_seq($sq).take(j), *t);
    }
//@ loop 2 after
    proof {
        assert(deref_seq($sq).take($sq.len() as int) =~= deref_seq($sq));
        lemma_enum_ref($sq, deref_seq($sq), nt_first.terminals@);
        assert forall |t: TerminalIdx| #[trigger] first.terminals@.contains(t) <==> pf(g, beta, i + 1, t) by {
            assert(ft_first(first_table.ft(), beta[i], t) <==> nt_first.terminals@.contains(t));
        }
    }
//@ loop 3 before
    proof {
        assert forall |la: Option<TerminalIdx>| #[trigger] fs_has(first, la) <==> la_first(g, beta, la0, la) by {
            if let Some(t) = la {
                assert(first.terminals@.contains(t) <==> pf(g, beta, beta.len() as int, t) || (nullable_seq(g, beta) && la == la0));
            } else {
                assert(first.empty <==> nullable_seq(g, beta) && la == la0);
            }
        }
    }
//@ loop 3
    $custom
    $it.grammar == grammar,
    $it.non_terminal_idx == next,
    $it.production_idx.0 as int <= g.prods[next.0 as int].len(),
    work_inv(g, kernel, Some(it0), closure@, work_list@),
    closure@.contains(it0),
    closure@.len() >= c0.len(),
    closure@.len() == c0.len() ==> work_list@ == w0,
    forall |p: int, la: Option<TerminalIdx>| 0 <= p < $it.production_idx.0 && #[trigger] fs_has(first, la)
        ==> closure@.contains(#[trigger] mk(next.0 as int, p, 0, la)),
//@ loop 3 ensures
    $it.production_idx.0 as int == g.prods[next.0 as int].len(),
//@ loop 3 decreases
    g.prods[next.0 as int].len() - $it.production_idx.0
//@ loop 3 begin
    let ghost p = production_idx.0 as int;
    let ghost c3 = closure@;
    proof { assert(g.has(next.0 as int, p)); }
//@ loop 3 end
    proof {
        assert forall |la: Option<TerminalIdx>| #[trigger] fs_has(first, la) implies closure@.contains(mk(next.0 as int, p, 0, la)) by {}
    }
//@ loop 3 after
    proof {
        assert forall |b: LR1Item| #[trigger] item_step(g, it0, b) implies closure@.contains(b) by {
            assert(fs_has(first, b.lookahead));
            assert(b == mk(next.0 as int, b.p(), 0, b.lookahead));
        }
        assert(step_closed(g, closure@, it0));
    }
//@ loop 4 before
    let ghost c3b = closure@;
//@ loop 4
    c3b.subset_of(closure@),
    work_inv(g, kernel, Some(it0), closure@, work_list@),
    closure@.contains(it0),
    closure@.len() >= c0.len(),
    closure@.len() == c0.len() ==> work_list@ == w0,
    forall |j: int| 0 <= j < $it.pos() ==> closure@.contains(mk(next.0 as int, p, 0, Some(*#[trigger] $sq[j]))),
//@ loop 4 begin
    proof { assert(fs_has(first, Some(*t))); }
//@ loop 4 after
    let ghost c4 = closure@;
    proof {
        assert forall |t: TerminalIdx| #[trigger] first.terminals@.contains(t) implies c4.contains(mk(next.0 as int, p, 0, Some(t))) by {
            let j = choose |j: int| 0 <= j < $sq.len() && *#[trigger] $sq[j] == t;
            assert(c4.contains(mk(next.0 as int, p, 0, Some(*$sq[j]))));
        }
    }
//@ before call insert
    proof {
        assert(item == mk(next.0 as int, p, 0, item.lookahead));
        assert(fs_has(first, item.lookahead));
        assert(item_step(g, it0, item));
        lemma_work_add(g, kernel, it0, closure@, work_list@, item);
    }

//@ fn compute_lr1_goto ret=r
    requires
        grammar.wf(),
        ft_exact(grammar.gv(), first.ft()),
        items_ok(grammar.gv(), state@),
    ensures
        is_clo(grammar.gv(), kernel_of(grammar.gv(), state@, *symbol), r@),
        items_ok(grammar.gv(), r@),
//@ begin
    let ghost g = grammar.gv();
    proof { lemma_kernel(g, state@, *symbol); }
//@ loop 0
    forall |b: LR1Item| #[trigger] goto@.contains(b) ==> kernel_of(g, state@, *symbol).contains(b) && item_ok(g, b),
    forall |j: int| 0 <= j < $it.pos() && it_next(g, *#[trigger] $sq[j]) == Some(*symbol) ==> goto@.contains(adv(*$sq[j])),
//@ loop 0 begin
    proof {
        assert(state@.contains(*item));
        lemma_vec_len(&grammar.non_terminals@[item.n()].productions@[item.p()].symbols);
    }
//@ loop 0 after
    proof {
        assert forall |b: LR1Item| goto@.contains(b) <==> kernel_of(g, state@, *symbol).contains(b) by {
            if kernel_of(g, state@, *symbol).contains(b) {
                let a = choose |a: LR1Item| #[trigger] state@.contains(a) && it_next(g, a) == Some(*symbol) && b == adv(a);
                let j = choose |j: int| 0 <= j < $sq.len() && *#[trigger] $sq[j] == a;
                assert(goto@.contains(adv(*$sq[j])));
            }
        }
        assert(goto@ =~= kernel_of(g, state@, *symbol));
    }

//@ fn LR1State::items ret=r
//@ rettype VIter<&LR1Item>
    ensures r.pos() == 0, enumerates_ref(r.seq(), self.items@), r.seq() == btree_order(self.items@),
//@ fn LR1State::gotos ret=r
//@ rettype VIter<(&Symbol, &StateIdx)>
    ensures r.pos() == 0, enumerates_map(r.seq(), self.goto@),
//@ fn LR1AutomatonStateIndicesIter::next ret=r
    requires old(self).automaton.states@.len() < usize::MAX,
    ensures
        final(self).automaton == old(self).automaton,
        match r {
            Some((i, s)) => (old(self).idx.0 as int) < old(self).automaton.states@.len()
                && i == old(self).idx && *s == old(self).automaton.states@[i.0 as int]
                && final(self).idx.0 == i.0 + 1,
            None => (old(self).idx.0 as int) >= old(self).automaton.states@.len() && final(self).idx == old(self).idx,
        },
//@ fn LR1Automaton::state_indices ret=r
//@ rettype LR1AutomatonStateIndicesIter<'_>
    ensures r.automaton == self, r.idx.0 == 0,

//@ fn generate_lr1_automaton ret=r nopanic
    requires
        grammar.wf(),
        entries_ok(grammar.gv()),
        ft_exact(grammar.gv(), first_table.ft()),
    ensures
        aut_exact(grammar.gv(), r.0.av(), r.1@),
//@ if det
        ordered(grammar.gv(), r.0.av().items, r.1@),
//@ endif
//@ begin
    let ghost g = grammar.gv();
    let ghost mut complete = false;
    let ghost mut starts: SMap<NonTerminalIdx, StateIdx> = SMap::empty();
//@ loop 0
    $custom
    $it.grammar == grammar,
    $it.non_terminal_idx.0 as int <= g.prods.len(),
    forall |i: int| 0 <= i < automaton.states@.len() ==> (#[trigger] automaton.states@[i]).goto@ == SMap::<Symbol, StateIdx>::empty(),
    map_ok(state_indices@, st_items(automaton.states@)),
    all_ok(g, st_items(automaton.states@)),
    starts_ok(g, non_terminal_state_indices@, st_items(automaton.states@), $it.non_terminal_idx.0 as int),
    forall |j: int| 0 <= j < automaton.states@.len() ==> #[trigger] is_start(non_terminal_state_indices@, j),
//@ if det
    automaton.states@.len() == pubs(g, $it.non_terminal_idx.0 as int),
    forall |n: NonTerminalIdx| #[trigger] non_terminal_state_indices@.dom().contains(n) ==> non_terminal_state_indices@[n].0 == pubs(g, n.0 as int),
//@ endif
//@ loop 0 ensures
    $it.non_terminal_idx.0 as int == g.prods.len(),
//@ loop 0 decreases
    g.prods.len() - $it.non_terminal_idx.0
//@ loop 0 begin
    let ghost a0 = automaton.states@;
    let ghost m0 = state_indices@;
    let ghost s0 = non_terminal_state_indices@;
    proof { lemma_vec_len(&automaton.states); assert(non_terminal.public == g.public[non_terminal_idx.0 as int]); }
//@ before let i0_state_idx
    proof {
        lemma_new_start(g, s0, st_items(a0), m0, non_terminal_idx, i0_items@);
    }
    let ghost c = i0_items@;
//@ loop 0 end
    proof {
        if non_terminal.public { assert(st_items(automaton.states@) =~= st_items(a0).push(automaton.states@.last().items@)); }
    }
//@ loop 0 after
    proof {
        starts = non_terminal_state_indices@;
        assert forall |j: int| 0 <= j < automaton.states@.len() implies #[trigger] reached(g, starts, st_items(automaton.states@), j) by { assert(is_start(starts, j)); }
        assert forall |i: int, x: Symbol| 0 <= i < st_goto(automaton.states@).len() implies !(#[trigger] st_goto(automaton.states@)[i].dom().contains(x)) by {}
    }
//@ loop 1
    starts == non_terminal_state_indices@,
    aut_inv(g, st_items(automaton.states@), st_goto(automaton.states@), starts, state_indices@),
//@ if det
    ordered(g, st_items(automaton.states@), starts),
//@ endif
    complete ==> goto_complete(g, st_items(automaton.states@), st_goto(automaton.states@)),
    !updated ==> complete,
//@ loop 1 decreases
    max_states(g) - automaton.states@.len(), (if complete { 0int } else { 1 }) + (if updated { 1int } else { 0 })
//@ loop 1 begin
    let ghost st0 = automaton.states@;
    let ghost n = st0.len() as int;
    let ghost items0 = st_items(st0);
    let ghost goto0 = st_goto(st0);
    let ghost complete0 = complete;
    let ghost mut full = items0;
    proof {
        axiom_vec_alloc(&automaton.states);
        lemma_states_bound(g, items0, state_indices@);
    }
//@ before let new_gotos
    proof { assert(items0 + st_items(new_states@) =~= items0); }
//@ loop 2
    $custom
    $it.automaton.states@ == st0,
    $it.idx.0 <= n,
    n <= isize::MAX,
    automaton.states@ == st0,
    full == items0 + st_items(new_states@),
    aut_inv(g, full, goto0, starts, state_indices@),
//@ if det
    ordered(g, full, starts),
//@ endif
    forall |k: int| 0 <= k < new_states@.len() ==> (#[trigger] new_states@[k]).goto@ == SMap::<Symbol, StateIdx>::empty(),
    next_state_idx.0 == full.len(),
    ng_ok(g, full, n, new_gotos@),
    forall |i: int, x: Symbol| 0 <= i < $it.idx.0 && #[trigger] has_next(g, items0[i], x) ==> ng_has(new_gotos@, i, x),
//@ loop 2 ensures
    $it.idx.0 == n,
//@ loop 2 decreases
    n - $it.idx.0
//@ loop 2 begin
    let ghost i = state_idx.0 as int;
    proof {
        assert(items0[i] == state.items@);
        assert(items_ok(g, items0[i]));
    }
//@ loop 2 end
    proof {
        assert forall |a: int, x: Symbol| 0 <= a < i + 1 && #[trigger] has_next(g, items0[a], x) implies ng_has(new_gotos@, a, x) by {}
    }
//@ loop 3
    full == items0 + st_items(new_states@),
    aut_inv(g, full, goto0, starts, state_indices@),
//@ if det
    ordered(g, full, starts),
//@ endif
    forall |k: int| 0 <= k < new_states@.len() ==> (#[trigger] new_states@[k]).goto@ == SMap::<Symbol, StateIdx>::empty(),
    next_state_idx.0 == full.len(),
    ng_ok(g, full, n, new_gotos@),
    forall |a: int, x: Symbol| 0 <= a < i && #[trigger] has_next(g, items0[a], x) ==> ng_has(new_gotos@, a, x),
    forall |j: int| 0 <= j < $it.pos() && has_next(g, items0[i], #[trigger] $sq[j]) ==> ng_has(new_gotos@, i, $sq[j]),
//@ loop 3 begin
    let ghost ng3 = new_gotos@;
    let ghost full3 = full;
    let ghost ns3 = new_states@;
    let ghost m3 = state_indices@;
    let ghost nx3 = next_state_idx;
    let ghost mut gs: Items = SSet::empty();
    proof {
        axiom_vec_alloc(&new_states);
        lemma_kernel(g, items0[i], symbol);
        lemma_ng_push(ng3, (state_idx, symbol, nx3));
        assert(full3[i] == items0[i]);
    }
//@ after let goto
    proof { gs = goto@; lemma_clo_empty(g, kernel_of(g, items0[i], symbol), goto@); }
//@ loop 3 end
    proof {
        if !has_next(g, items0[i], symbol) {
        } else if m3.dom().contains(gs) {
            lemma_ng_push(ng3, new_gotos@.last());
            assert(new_gotos@ == ng3.push(new_gotos@.last()));
            assert(trans(g, full3, i, symbol, m3[gs].0 as int));
        } else {
            lemma_ng_push(ng3, new_gotos@.last());
            assert(new_gotos@ == ng3.push(new_gotos@.last()));
            axiom_vec_alloc(&new_states);
//@ if det
            assert forall |a: int, y: Symbol| 0 <= a && #[trigger] earlier(g, a, y, i, symbol) && #[trigger] has_next(g, full3[a], y)
                implies before(g, full3, a, y, full3.len() as int) by {
                assert(full3[a] == items0[a]);
                if a == i {
                    let c = choose |c: LR1Item| #[trigger] items0[i].contains(c) && it_next(g, c) == Some(y);
                    assert(item_ok(g, c));
                    assert(g.sym_ok(g.prods[c.n()][c.p()][c.c()]));
                    assert($sq[sx(g, y)] == y);
                }
                assert(ng_has(ng3, a, y));
                let k = choose |k: int| 0 <= k < ng3.len() && (#[trigger] ng3[k]).0.0 == a && ng3[k].1 == y;
                assert(trans(g, full3, a, y, ng3[k].2.0 as int));
            }
            lemma_ordered_push(g, full3, starts, i, symbol, gs);
//@ endif
            full = full3.push(gs);
            assert(items0 + st_items(new_states@) =~= full);
            lemma_new_state(g, full3, goto0, starts, m3, i, symbol, gs);
        }
    }
//@ loop 3 after
    proof {
        assert forall |x: Symbol| #[trigger] has_next(g, items0[i], x) implies ng_has(new_gotos@, i, x) by {
            let a = choose |a: LR1Item| #[trigger] items0[i].contains(a) && it_next(g, a) == Some(x);
            assert(item_ok(g, a));
            assert(g.sym_ok(g.prods[a.n()][a.p()][a.c()]));
            match x {
                Symbol::NonTerminal(q) => { assert($sq[q.0 as int] == x); }
                Symbol::Terminal(t) => { assert($sq[g.prods.len() + t.0 as int] == x); }
            }
        }
    }
//@ loop 4
    $custom
    $it.grammar == grammar,
    $it.non_terminal_idx.0 as int <= g.prods.len(),
    $out@.len() == $it.non_terminal_idx.0,
    forall |k: int| 0 <= k < $out@.len() ==> #[trigger] $out@[k] == Symbol::NonTerminal(NonTerminalIdx(k as u32)),
//@ loop 4 elem
    Symbol
//@ loop 4 ensures
    $it.non_terminal_idx.0 as int == g.prods.len(),
//@ loop 4 decreases
    g.prods.len() - $it.non_terminal_idx.0
//@ loop 5
    $out@.len() == $it.pos(),
    forall |k: int| 0 <= k < $out@.len() ==> #[trigger] $out@[k] == Symbol::Terminal(TerminalIdx(k as u32)),
//@ loop 5 elem
    Symbol
//@ loop 6 before
    let ghost full1 = full;
    let ghost goto1 = st_goto(automaton.states@);
    let ghost u0 = updated;
    proof {
        assert(st_items(automaton.states@) =~= full);
        assert forall |a: int| 0 <= a < goto0.len() implies #[trigger] goto1[a] == goto0[a] by {}
        assert forall |a: int, x: Symbol| 0 <= a < goto1.len() && #[trigger] goto1[a].dom().contains(x) implies trans(g, full1, a, x, goto1[a][x].0 as int) by {
            if a < n { assert(goto0[a].dom().contains(x)); }
        }
        assert(goto_ok(g, full1, goto1));
    }
//@ loop 6
    st_items(automaton.states@) == full1,
    goto_ok(g, full1, st_goto(automaton.states@)),
    forall |a: int, x: Symbol| 0 <= a < goto1.len() && #[trigger] goto1[a].dom().contains(x) ==> st_goto(automaton.states@)[a].dom().contains(x),
    forall |k: int| 0 <= k < $it.pos() ==> st_goto(automaton.states@)[(#[trigger] $sq[k]).0.0 as int].dom().contains($sq[k].1),
    u0 ==> updated,
    complete0 && !u0 ==> !updated,
//@ loop 6 begin
    let ghost st6 = automaton.states@;
    proof {
        let k = $it.pos() - 1;
        assert($sq[k] == (state, symbol, next));
        assert(trans(g, full1, state.0 as int, symbol, next.0 as int));
        lemma_new_goto(g, full1, st_goto(st6), state.0 as int, symbol, next);
        if complete0 && !u0 {
            assert(full1 =~= items0);
            assert(goto1 =~= goto0);
            assert(has_next(g, items0[state.0 as int], symbol));
            assert(goto1[state.0 as int].dom().contains(symbol));
            assert(st_goto(st6)[state.0 as int].dom().contains(symbol));
        }
    }
//@ loop 6 end
    proof {
        assert(st_items(automaton.states@) =~= full1);
        assert(st_goto(automaton.states@) =~= st_goto(st6).update(state.0 as int, st_goto(st6)[state.0 as int].insert(symbol, next)));
    }
//@ loop 6 after
    proof {
        complete = !u0;
        if !u0 {
            assert(full1 =~= items0);
            assert forall |a: int, x: Symbol| 0 <= a < full1.len() && #[trigger] has_next(g, full1[a], x) implies st_goto(automaton.states@)[a].dom().contains(x) by {
                assert(ng_has(new_gotos@, a, x));
            }
        }
        lemma_states_bound(g, full1, state_indices@);
    }
//@ end
    proof { lemma_states_bound(g, st_items(automaton.states@), state_indices@); }

//@ fn build_lr1_table ret=r rejects
    requires
        grammar.wf(),
        entries_ok(grammar.gv()),
        exists |starts: SMap<NonTerminalIdx, StateIdx>| #[trigger] aut_exact(grammar.gv(), automaton.av(), starts),
        conflicted(grammar.gv(), automaton.av().items) ==> may_reject(),
    ensures
        table_ok(grammar, automaton.av(), r),
//@ begin
    let ghost g = grammar.gv();
    let ghost a = automaton.av();
    let ghost starts = choose |starts: SMap<NonTerminalIdx, StateIdx>| #[trigger] aut_exact(g, a, starts);
    proof { axiom_vec_alloc(&automaton.states); }
//@ loop 0
    $custom
    $it.automaton == automaton,
    $it.idx.0 <= a.items.len(),
    table.table.n_states == a.items.len(),
    forall |i: StateIdx| i.0 < $it.idx.0 ==> #[trigger] row_ok(grammar, a.items[i.0 as int], a.goto[i.0 as int], table.table, i),
    forall |i: StateIdx| i.0 < $it.idx.0 ==> #[trigger] goto_row_ok(a.goto[i.0 as int], table.table, i),
    forall |i: StateIdx| i.0 >= $it.idx.0 ==> #[trigger] no_row(table.table, i),
//@ loop 0 ensures
    $it.idx.0 == a.items.len(),
//@ loop 0 decreases
    a.items.len() - $it.idx.0
//@ loop 0 begin
    let ghost si = state_idx;
    let ghost its = state.items@;
    let ghost gt = state.goto@;
    let ghost mut done: Items = SSet::empty();
    proof {
        assert(a.items[si.0 as int] == its);
        assert(a.goto[si.0 as int] == gt);
        assert(items_ok(g, a.items[si.0 as int]));
        lemma_state_nonempty(g, a, starts, si.0 as int);
        assert(no_row(table.table, si));
    }
//@ loop 1
    table.table.n_states == a.items.len(),
    forall |i: StateIdx| i.0 < si.0 ==> #[trigger] row_ok(grammar, a.items[i.0 as int], a.goto[i.0 as int], table.table, i),
    forall |i: StateIdx| i.0 < si.0 ==> #[trigger] goto_row_ok(a.goto[i.0 as int], table.table, i),
    forall |i: StateIdx| i.0 > si.0 ==> #[trigger] no_row(table.table, i),
    done.subset_of(its),
    forall |j: int| 0 <= j < $sq.len() ==> (done.contains(*#[trigger] $sq[j]) <==> j < $it.pos()),
    row_ok(grammar, done, gt, table.table, si),
    $it.pos() == 0 ==> (forall |n: NonTerminalIdx| #[trigger] table.table.gt(si, n) is None),
    $it.pos() > 0 ==> goto_row_ok(gt, table.table, si),
//@ loop 1 begin
    let ghost t0 = table.table;
    let ghost it = *item;
    let ghost done0 = done;
    proof {
        assert(its.contains(it));
        assert(item_ok(g, it));
        assert(!done.contains(it));
        if it_next(g, it) is Some {
            assert(g.sym_ok(rhs(g, it)[it.c()]));
            assert(has_next(g, a.items[si.0 as int], it_next(g, it)->0));
        }
        lemma_vec_len(&grammar.non_terminals@[item.n()].productions@[item.p()].symbols);
        if g.public[it.n()] {
            assert(g.prods[it.n()].len() == 1 && g.prods[it.n()][0].len() == 1);
            assert(grammar.non_terminals@[it.n()].productions@.len() == 1);
        }
    }
//@ before call add_reduce
    proof {
        assert(red(g, it));
        assert(table.table == t0);
        match t0.at(si, it.lookahead) {
            Some(LRAction::Shift(j)) => {
                let x = Symbol::Terminal(it.lookahead->0);
                assert(a.goto[si.0 as int].dom().contains(x));
                assert(has_next(g, a.items[si.0 as int], x));
                let b = choose |b: LR1Item| #[trigger] its.contains(b) && it_next(g, b) == Some(x);
                assert(sr_clash(g, it, b));
                assert(a.items[si.0 as int].contains(it) && a.items[si.0 as int].contains(b));
            }
            Some(LRAction::Reduce(n, p, _)) => {
                let b = choose |b: LR1Item| #[trigger] done.contains(b) && red(g, b) && b.lookahead == it.lookahead && b.non_terminal_idx == n && b.production_idx == p;
                assert(rr_clash(g, it, b));
                assert(a.items[si.0 as int].contains(it) && a.items[si.0 as int].contains(b));
            }
            Some(LRAction::Accept) => {
                let b = choose |b: LR1Item| #[trigger] done.contains(b) && acc(g, b);
                assert(rr_clash(g, it, b));
                assert(a.items[si.0 as int].contains(it) && a.items[si.0 as int].contains(b));
            }
            None => {}
        }
    }
//@ before call add_accept
    proof {
        assert(acc(g, it));
        assert(g.prods[it.n()].len() == 1 && g.prods[it.n()][0].len() == 1);
        assert(table.table == t0);
        if let Some(LRAction::Reduce(n, p, _)) = t0.at(si, None) {
            let b = choose |b: LR1Item| #[trigger] done.contains(b) && red(g, b) && b.lookahead == None::<TerminalIdx> && b.non_terminal_idx == n && b.production_idx == p;
            assert(rr_clash(g, b, it));
            assert(a.items[si.0 as int].contains(it) && a.items[si.0 as int].contains(b));
        }
    }
//@ loop 2 before
    let ghost t3 = table.table;
    proof {
        if g.public[it.n()] { assert(g.prods[it.n()].len() == 1 && g.prods[it.n()][0].len() == 1); }
        let d = done0.insert(it);
        assert(row_ok(grammar, d, gt, t3, si)) by {
            assert forall |la: Option<TerminalIdx>| match #[trigger] t3.at(si, la) {
                    Some(LRAction::Shift(j)) => la is Some && gt.dom().contains(Symbol::Terminal(la->0)) && gt[Symbol::Terminal(la->0)] == j,
                    Some(LRAction::Reduce(n, p, x)) => reduces(grammar, d, la, n, p)
                        && cloned(grammar.non_terminals@[n.0 as int].productions@[p.0 as int].action, x),
                    Some(LRAction::Accept) => la is None && accepts(g, d),
                    None => true,
                } by {
                if t3.at(si, la) == t0.at(si, la) {
                    match t0.at(si, la) {
                        Some(LRAction::Reduce(n, p, x)) => {
                            let b = choose |b: LR1Item| #[trigger] done0.contains(b) && red(g, b) && b.lookahead == la && b.non_terminal_idx == n && b.production_idx == p;
                            assert(d.contains(b));
                        }
                        Some(LRAction::Accept) => {
                            let b = choose |b: LR1Item| #[trigger] done0.contains(b) && acc(g, b);
                            assert(d.contains(b));
                        }
                        _ => {}
                    }
                } else {
                    assert(d.contains(it));
                }
            }
            if accepts(g, d) {
                let b = choose |b: LR1Item| #[trigger] d.contains(b) && acc(g, b);
                if b != it { assert(done0.contains(b)); assert(accepts(g, done0)); }
            }
            assert forall |x: LR1Item, y: LR1Item| #[trigger] d.contains(x) && #[trigger] d.contains(y) implies !rr_clash(g, x, y) by {
                if x != it { assert(done0.contains(x)); }
                if y != it { assert(done0.contains(y)); if acc(g, y) { assert(accepts(g, done0)); } }
            }
        }
    }
//@ loop 2
    table.table.n_states == t3.n_states,
    forall |i: StateIdx, l: Option<TerminalIdx>| #[trigger] table.table.at(i, l) == t3.at(i, l),
    forall |i: StateIdx, n: NonTerminalIdx| i != si ==> #[trigger] table.table.gt(i, n) == t3.gt(i, n),
    forall |n: NonTerminalIdx| (#[trigger] table.table.gt(si, n)) is Some ==> gt.dom().contains(Symbol::NonTerminal(n)) && table.table.gt(si, n) == Some(gt[Symbol::NonTerminal(n)]),
    forall |k: int| 0 <= k < $it.pos() && *(#[trigger] $sq[k]).0 is NonTerminal ==> table.table.gt(si, $sq[k].0->NonTerminal_0) is Some,
//@ loop 2 after
    proof {
        assert(goto_row_ok(gt, table.table, si)) by {
            assert forall |n: NonTerminalIdx| #[trigger] table.table.gt(si, n) == (if gt.dom().contains(Symbol::NonTerminal(n)) { Some(gt[Symbol::NonTerminal(n)]) } else { None }) by {
                if gt.dom().contains(Symbol::NonTerminal(n)) {
                    let k = choose |k: int| 0 <= k < $sq.len() && (#[trigger] $sq[k]).0.key() == Symbol::NonTerminal(n);
                    assert(*$sq[k].0 == Symbol::NonTerminal(n));
                }
            }
        }
    }
//@ loop 1 end
    proof {
        done = done0.insert(it);
        assert(row_ok(grammar, done, gt, table.table, si));
        assert forall |i: StateIdx| i.0 < si.0 implies #[trigger] row_ok(grammar, a.items[i.0 as int], a.goto[i.0 as int], table.table, i) by {
            assert(row_ok(grammar, a.items[i.0 as int], a.goto[i.0 as int], t0, i));
        }
        assert forall |i: StateIdx| i.0 < si.0 implies #[trigger] goto_row_ok(a.goto[i.0 as int], table.table, i) by {
            assert(goto_row_ok(a.goto[i.0 as int], t0, i));
        }
        assert forall |i: StateIdx| i.0 > si.0 implies #[trigger] no_row(table.table, i) by {
            assert(no_row(t0, i));
        }
    }
//@ loop 1 after
    proof {
        assert forall |x: LR1Item| done.contains(x) <==> its.contains(x) by {
            if its.contains(x) {
                let j = choose |j: int| 0 <= j < $sq.len() && *#[trigger] $sq[j] == x;
                assert(done.contains(*$sq[j]));
            }
        }
        assert(done =~= its);
    }
