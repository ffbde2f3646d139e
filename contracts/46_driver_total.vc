//@ module driver_total file=lr_codegen.rs template=generate_lr1_parser ignore_new
//@ subst n_terminals n_terminals()
//@ subst token_type Tok
//@ subst token_terminal_idx_fn_name token_terminal_idx
//@ subst token_value_fn_name token_value
//@ header
use vstd::prelude::*;
use vstd::pervasive::cloned;
use crate::prelude::*;
use crate::theory::*;
use crate::items::*;
use crate::automaton::*;
use crate::parser::*;
use crate::sim::*;
use crate::eval::*;
use crate::term::*;
use crate::grammar::{Symbol, NonTerminalIdx, TerminalIdx, ProductionIdx};
use crate::lr1::LR1Item;
use crate::driver::{LRAction, ParseError, n_terminals};
//@ type LRAction drop
//@ type ParseError drop
//@ raw
/// the input has at most b tokens
pub open spec fn ends<E>(at: Inp<E>, b: int) -> bool { !is_tok(at(b)) }
//@ fn parse_generic ret=r nopanic
// C15: the same emitted function, on a finite input: it returns (every loop has a measure)
requires
    tabs_ok(the()),
    productive(the().p.g),
    exists |b: int| b >= 0 && #[trigger] ends(old(input).at(), b),
    the().p.starts.dom().contains(entry()),
    init_state == the().p.starts[entry()].0,
    action_idx == (the().aidx)(entry().0 as int, 0),
    extract_value.k() == (the().vn)(entry().0 as int),
    old(input).pulled() == 0,
ensures
    true,
//@ begin
let ghost mut fo: Seq<Tree> = Seq::empty();
let ghost mut k: int = 0;
let ghost at = input.at();
let ghost d = the();
let ghost n0 = entry();
let ghost w = tk(at);
let ghost last = choose |b: int| b >= 0 && #[trigger] ends(at, b);
let ghost mut fuel: nat = 0;
//@ loop 0 before
proof {
    lemma_run_start(d, n0, w, init_state);
    fuel = lemma_ws(d.p, n0, ints(state_stack@), roots(fo), la_of(token));
}
//@ loop 0
    input.at() == at, input.pulled() == k + 1, token == at(k), toks_to(at, k), 0 <= k <= last,
    run_inv(d, n0, w, ints(state_stack@), fo, value_stack@, value_stack.log(), k),
    ws(d.p, ints(state_stack@), la_of(token), fuel),
//@ loop 0 ensures
    at(k) is None,
    (d.p.act)(ints(state_stack@).last(), None) == Some(Act::Accept),
//@ loop 0 decreases
    last - k, fuel
//@ loop 0 begin
let ghost st = ints(state_stack@);
let ghost ss = state_stack@;
let ghost vs = value_stack@;
let ghost lg = value_stack.log();
let ghost la = la_of(token);
let ghost a = (d.p.act)(st.last(), la);
proof {
    lemma_top(d.p, n0, st, roots(fo));
    assert(act_row_ok(d, st.last()));
    assert(goto_tab_row_ok(d, st.last()));
    if a is Some && a->0 is Reduce {
        lemma_run_pre_reduce(d, n0, w, st, fo, vs, lg, k, la);
        let l = fo.len() - d.p.g.prods[a->0->Reduce_0.0 as int][a->0->Reduce_1.0 as int].len();
        assert(goto_tab_row_ok(d, st[l]));
    }
}
//@ loop 1
    state_stack@ =~= ss.take(ss.len() - $it.pos()),
//@ loop 0 end
proof {
    if a is Some && a->0 is Reduce {
        fo = lemma_run_reduce(d, n0, w, st, fo, vs, lg, k, la, value_stack@, value_stack.log());
        assert(ints(state_stack@) =~= red_to(d.p, st, a->0->Reduce_0, a->0->Reduce_1));
        fuel = (fuel - 1) as nat;
    } else if a is Some && a->0 is Shift {
        fo = lemma_run_shift(d, n0, w, st, fo, vs, lg, k, la->0);
        assert(ints(state_stack@) =~= st.push(a->0->Shift_0));
        k = k + 1;
        fuel = lemma_ws(d.p, n0, ints(state_stack@), roots(fo), la_of(token));
    }
}
//@ loop 0 after
proof {
    lemma_run_accept(d, n0, w, ints(state_stack@), fo, value_stack@, value_stack.log(), k);
}
