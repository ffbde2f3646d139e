//@ module driver file=lr_codegen.rs template=generate_lr1_parser ignore_new
//@ subst n_terminals n_terminals()
//@ subst token_type Tok
//@ subst token_terminal_idx_fn_name token_terminal_idx
//@ subst token_value_fn_name token_value
//@ header
use vstd::prelude::*;
use vstd::pervasive::cloned;
use crate::prelude::*;
use crate::theory::*;
use crate::items::*;
use crate::automaton::*;
use crate::parser::*;
use crate::sim::*;
use crate::eval::*;
use crate::term::*;
use crate::viable::*;
use crate::exact::*;
use crate::grammar::{Symbol, NonTerminalIdx, TerminalIdx, ProductionIdx};
use crate::lr1::LR1Item;
//@ type LRAction
//@ type ParseError noeq noclone
//@ raw
/// the number of terminals, a literal in the emitted code
#[verifier::external_body]
pub fn n_terminals() -> (r: usize) ensures r == the().p.g.nt { unimplemented!() }
/// what the driver returns for the entry point n0, given the iterator at and having asked for the items 0..=k
pub open spec fn driven<R, E: Clone>(d: D, n0: NonTerminalIdx, at: Inp<E>, k: int, r: Result<R, ParseError<E>>) -> bool {
    let n = n0.0 as int;
    // C06: everything before the last item pulled is a token
    &&& k >= 0
    &&& toks_to(at, k)
    &&& match r {
        // C01, C03, C09
        Ok(v) => at(k) is None && exists |t: Tree, x: Sar, y: Sar| #[trigger] tree_ok(d.p.g, t) && root(t) == Symbol::NonTerminal(entry_sym(d.p.g, n0))
            && yld(t) == terms(tk(at), k) && #[trigger] ev(d, t, x, tk(at)) && #[trigger] act_rel(d, n, 0, seq![x], y) && tag(y) == Tag::N((d.vn)(n))
            && v == extract::<R>((d.vn)(n), y),
        // C06
        Err(ParseError::LexerError(e)) => at(k) is Some && at(k)->0 is Err && cloned(at(k)->0->Err_0, e),
        Err(ParseError::ParserError { found, expected }) => {
            // C05: what was found, where, and what else could have followed
            let ts = terms(tk(at), k);
            &&& at(k) is None || is_tok(at(k))
            &&& la_ok(d.p.g, la_of(at(k)))
            &&& found@ == found_text(d, la_of(at(k)))
            &&& no_sr(d.p) ==> !goes_on(d.p.g, n0, ts, la_of(at(k)))
            &&& productive(d.p.g) ==> exists |v: Seq<TerminalIdx>| #[trigger] derives(d.p.g, entry_sym(d.p.g, n0), ts + v)
            &&& no_sr(d.p) && productive(d.p.g) ==> expected@ == join(names_to(d, n0, ts, d.p.g.nt))
        }
    }
    // C02
    &&& no_sr(d.p) && (exists |m: int| #[trigger] sentence(d, n0, at, m)) ==> r is Ok
}
//@ fn parse_generic ret=r nopanic
//@ attr #[verifier::exec_allows_no_decreases_clause]
requires
    tabs_ok(the()),
    the().p.starts.dom().contains(entry()),
    init_state == the().p.starts[entry()].0,
    action_idx == (the().aidx)(entry().0 as int, 0),
    extract_value.k() == (the().vn)(entry().0 as int),
    old(input).pulled() == 0,
ensures
    final(input).at() == old(input).at(),
    driven(the(), entry(), final(input).at(), final(input).pulled() - 1, r),
//@ begin
let ghost mut fo: Seq<Tree> = Seq::empty();
let ghost mut k: int = 0;
let ghost mut vs1: Seq<Sar> = Seq::empty();
let ghost at = input.at();
let ghost d = the();
let ghost n0 = entry();
let ghost w = tk(at);
let ghost s0 = init_state as int;
let ghost mut fresh: bool = true;
let ghost mut ts: Seq<TerminalIdx> = Seq::empty();
//@ loop 0 before
proof {
    lemma_run_start(d, n0, w, init_state);
    assert(ints(state_stack@) =~= seq![s0]);
    assert(ts =~= terms(w, 0));
    lemma_keeps_start(d.p, s0);
}
//@ loop 0
    input.at() == at, input.pulled() == k + 1, token == at(k), toks_to(at, k), k >= 0,
    run_inv(d, n0, w, ints(state_stack@), fo, value_stack@, value_stack.log(), k),
    ts == terms(w, k),
    keeps(d.p, s0, ints(state_stack@), ts, la_of(token)),
    fresh ==> keeps_all(d.p, s0, ints(state_stack@), ts),
    !fresh && productive(d.p.g) ==> goes_on(d.p.g, n0, ts, la_of(token)),
//@ loop 0 ensures
    at(k) is None,
    (d.p.act)(ints(state_stack@).last(), None) == Some(Act::Accept),
//@ loop 0 begin
let ghost st = ints(state_stack@);
let ghost ss = state_stack@;
let ghost vs = value_stack@;
let ghost lg = value_stack.log();
let ghost la = la_of(token);
let ghost a = (d.p.act)(st.last(), la);
proof {
    lemma_top(d.p, n0, st, roots(fo));
    if no_sr(d.p) && a is None { lemma_stuck(d.p, n0, st, ts, la); }
    if productive(d.p.g) {
        let v = lemma_stack_goes_on(d.p, n0, st, fo);
        if a is Some { lemma_act_goes_on(d.p, n0, st, fo, la); }
        if fresh && no_sr(d.p) { lemma_names(d, n0, st, fo, d.p.g.nt); }
    }
    if exists |m: int| #[trigger] sentence(d, n0, at, m) {
        let m = choose |m: int| #[trigger] sentence(d, n0, at, m);
        lemma_no_sentence(d, n0, at, k, m);
    }
    assert(act_row_ok(d, st.last()));
    assert(goto_tab_row_ok(d, st.last()));
    if a is Some && a->0 is Reduce {
        lemma_run_pre_reduce(d, n0, w, st, fo, vs, lg, k, la);
        let l = fo.len() - d.p.g.prods[a->0->Reduce_0.0 as int][a->0->Reduce_1.0 as int].len();
        assert(goto_tab_row_ok(d, st[l]));
    }
}
//@ loop 1
    state_stack@ =~= ss.take(ss.len() - $it.pos()),
//@ loop 0 end
proof {
    if a is Some && a->0 is Reduce {
        fo = lemma_run_reduce(d, n0, w, st, fo, vs, lg, k, la, value_stack@, value_stack.log());
        assert(ints(state_stack@) =~= red_to(d.p, st, a->0->Reduce_0, a->0->Reduce_1));
        lemma_keeps_reduce(d.p, s0, st, ts, la);
        fresh = false;
    } else if a is Some && a->0 is Shift {
        fo = lemma_run_shift(d, n0, w, st, fo, vs, lg, k, la->0);
        assert(ints(state_stack@) =~= st.push(a->0->Shift_0));
        k = k + 1;
        lemma_keeps_shift(d.p, s0, st, ts, la->0);
        ts = ts.push(la->0);
        assert(ts =~= terms(w, k));
        fresh = true;
        assert(keeps(d.p, s0, ints(state_stack@), ts, la_of(token)));
    }
}
//@ loop 0 after
proof {
    vs1 = value_stack@;
    lemma_run_accept(d, n0, w, ints(state_stack@), fo, vs1, value_stack.log(), k);
}
//@ end
proof {
    assert(tree_ok(d.p.g, fo[0]) && ev(d, fo[0], vs1[0], w));
    assert(vs1.skip(0) =~= seq![vs1[0]]);
    // C03: every node's action ran exactly once, children before parents, left to right, the entry point's own last
    assert(value_stack.log() == post(fo[0]).push((n0.0 as int, 0int)));
}
