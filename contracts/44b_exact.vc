//@ module exact
//@ header
use vstd::prelude::*;
use crate::prelude::*;
use crate::theory::*;
use crate::items::*;
use crate::automaton::*;
use crate::parser::*;
use crate::sim::*;
use crate::term::*;
use crate::viable::*;
use crate::eval::*;
use crate::grammar::{Symbol, NonTerminalIdx, TerminalIdx, ProductionIdx};
use crate::lr1::LR1Item;
//@ raw
// ------------------------------------------------------------------ C02, C05: nothing acceptable is lost
/// whatever the machine accepted from the start after w, starting with la, it accepts from st
pub open spec fn keeps(p: P, s0: int, st: Seq<int>, w: Seq<TerminalIdx>, la: Option<TerminalIdx>) -> bool {
    forall |z: Seq<TerminalIdx>| head(z) == la && accepts_rest(p, seq![s0], #[trigger] (w + z)) ==> accepts_rest(p, st, z)
}
pub open spec fn keeps_all(p: P, s0: int, st: Seq<int>, w: Seq<TerminalIdx>) -> bool {
    forall |la: Option<TerminalIdx>| #[trigger] keeps(p, s0, st, w, la)
}
pub proof fn lemma_keeps_start(p: P, s0: int)
    ensures keeps_all(p, s0, seq![s0], Seq::empty())
{
    assert forall |la: Option<TerminalIdx>| #[trigger] keeps(p, s0, seq![s0], Seq::empty(), la) by {
        assert forall |z: Seq<TerminalIdx>| head(z) == la && accepts_rest(p, seq![s0], #[trigger] (Seq::<TerminalIdx>::empty() + z)) implies accepts_rest(p, seq![s0], z) by {
            assert(Seq::<TerminalIdx>::empty() + z =~= z);
        }
    }
}
pub proof fn lemma_keeps_reduce(p: P, s0: int, st: Seq<int>, w: Seq<TerminalIdx>, la: Option<TerminalIdx>)
    requires keeps(p, s0, st, w, la), (p.act)(st.last(), la) is Some, (p.act)(st.last(), la)->0 is Reduce
    ensures keeps(p, s0, red_to(p, st, (p.act)(st.last(), la)->0->Reduce_0, (p.act)(st.last(), la)->0->Reduce_1), w, la)
{
    let n = (p.act)(st.last(), la)->0->Reduce_0;
    let q = (p.act)(st.last(), la)->0->Reduce_1;
    let s2 = red_to(p, st, n, q);
    assert forall |z: Seq<TerminalIdx>| head(z) == la && accepts_rest(p, seq![s0], #[trigger] (w + z)) implies accepts_rest(p, s2, z) by {
        let k = choose |k: nat| acc_in(p, st, z, k);
        assert(acc_in(p, s2, z, (k - 1) as nat));
    }
}
pub proof fn lemma_keeps_shift(p: P, s0: int, st: Seq<int>, w: Seq<TerminalIdx>, c: TerminalIdx)
    requires keeps(p, s0, st, w, Some(c)), (p.act)(st.last(), Some(c)) is Some, (p.act)(st.last(), Some(c))->0 is Shift
    ensures keeps_all(p, s0, st.push((p.act)(st.last(), Some(c))->0->Shift_0), w.push(c))
{
    let s2 = st.push((p.act)(st.last(), Some(c))->0->Shift_0);
    assert forall |la: Option<TerminalIdx>| #[trigger] keeps(p, s0, s2, w.push(c), la) by {
        assert forall |z: Seq<TerminalIdx>| head(z) == la && accepts_rest(p, seq![s0], #[trigger] (w.push(c) + z)) implies accepts_rest(p, s2, z) by {
            let y = seq![c] + z;
            assert(w + y =~= w.push(c) + z);
            assert(head(y) == Some(c));
            assert(accepts_rest(p, st, y));
            let k = choose |k: nat| acc_in(p, st, y, k);
            assert(y.skip(1) =~= z);
            assert(acc_in(p, s2, z, (k - 1) as nat));
        }
    }
}
/// the machine has no action on la: no sentence goes on with la
pub proof fn lemma_stuck(p: P, n0: NonTerminalIdx, st: Seq<int>, w: Seq<TerminalIdx>, la: Option<TerminalIdx>)
    requires
        p_ok(p), no_sr(p), p.starts.dom().contains(n0), keeps(p, p.starts[n0].0 as int, st, w, la),
        (p.act)(st.last(), la) is None,
    ensures !goes_on(p.g, n0, w, la)
{
    if goes_on(p.g, n0, w, la) {
        let v = choose |v: Seq<TerminalIdx>| head(v) == la && #[trigger] derives(p.g, entry_sym(p.g, n0), w + v);
        lemma_accepts_sentences(p, n0, w + v);
        assert(accepts_rest(p, st, v));
        let k = choose |k: nat| acc_in(p, st, v, k);
        assert(false);
    }
}
/// the names of the terminals below k with which a sentence that begins with w goes on
pub open spec fn names_to(d: D, n0: NonTerminalIdx, w: Seq<TerminalIdx>, k: nat) -> Seq<Seq<char>>
    decreases k
{
    if k == 0 { Seq::empty() }
    else {
        let r = names_to(d, n0, w, (k - 1) as nat);
        if goes_on(d.p.g, n0, w, Some(TerminalIdx((k - 1) as u32))) { r.push((d.name)(k - 1)) } else { r }
    }
}
pub proof fn lemma_names(d: D, n0: NonTerminalIdx, st: Seq<int>, f: Seq<Tree>, k: nat)
    requires
        p_ok(d.p), no_sr(d.p), productive(d.p.g), path(d.p, n0, st, roots(f)), trees_ok(d.p.g, f),
        keeps_all(d.p, d.p.starts[n0].0 as int, st, ylds(f)),
    ensures names_to(d, n0, ylds(f), k) == expected_to(d, st.last(), k)
    decreases k
{
    if k > 0 {
        lemma_names(d, n0, st, f, (k - 1) as nat);
        let u = Some(TerminalIdx((k - 1) as u32));
        if (d.p.act)(st.last(), u) is Some {
            lemma_act_goes_on(d.p, n0, st, f, u);
        } else {
            assert(keeps(d.p, d.p.starts[n0].0 as int, st, ylds(f), u));
            lemma_stuck(d.p, n0, st, ylds(f), u);
        }
    }
}
/// C02: the tokens are a sentence of the entry point's own non-terminal
pub open spec fn sentence<E>(d: D, n0: NonTerminalIdx, at: Inp<E>, n: int) -> bool {
    n >= 0 && toks_to(at, n) && at(n) is None && derives(d.p.g, entry_sym(d.p.g, n0), terms(tk(at), n))
}
/// C05: an error is reported only where no sentence goes on
pub proof fn lemma_no_sentence<E>(d: D, n0: NonTerminalIdx, at: Inp<E>, k: int, n: int)
    requires k >= 0, toks_to(at, k), sentence(d, n0, at, n)
    ensures
        at(k) is None ==> k == n,
        at(k) is None || is_tok(at(k)),
        goes_on(d.p.g, n0, terms(tk(at), k), la_of(at(k))),
{
    if n < k { assert(is_tok(at(n))); }
    if k < n { assert(is_tok(at(k))); }
    let w = terms(tk(at), n);
    let v = w.skip(k);
    assert(terms(tk(at), k) + v =~= w);
    assert(head(v) == la_of(at(k)));
}
