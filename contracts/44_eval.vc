//@ module eval
//@ header
use vstd::prelude::*;
use vstd::pervasive::cloned;
use crate::prelude::*;
use crate::theory::*;
use crate::items::*;
use crate::automaton::*;
use crate::parser::*;
use crate::sim::*;
use crate::grammar::{Symbol, NonTerminalIdx, TerminalIdx, ProductionIdx};
use crate::grammar::BoundSymbol;
use crate::lr1::LR1Item;
use crate::syn;
use crate::driver::LRAction;
//@ raw
// ------------------------------------------------------------------ what the emitted driver works with
/// the user's token type
#[verifier::external_body]
pub struct Tok { x: u8 }
/// SemanticActionResult
#[verifier::external_body]
pub struct Sar { x: u8 }
/// which variant of SemanticActionResult
pub enum Tag { T(int), N(int) }
/// the terminal of a token (its first matching pattern), the value a token puts on the value stack
pub uninterp spec fn tok_term(t: Tok) -> TerminalIdx;
pub uninterp spec fn tok_val(t: Tok) -> Sar;
pub uninterp spec fn tag(v: Sar) -> Tag;
/// r is a value that the (user's) expression can have with these variables
pub uninterp spec fn expr_rel(e: syn::Expr, env: Env, r: Sar) -> bool;
/// variables: each stands for what a value holds
pub type Env = SMap<syn::Ident, Sar>;
/// C03: the variables of a production's action: each binder names the value of its symbol (of two
/// equal ones the left one counts)
pub open spec fn env_from(bs: Seq<BoundSymbol>, args: Seq<Sar>, i: int) -> Env
    decreases bs.len() - i
{
    if i >= bs.len() || i < 0 { SMap::empty() }
    else {
        let env = env_from(bs, args, i + 1);
        match bs[i].binder { None => env, Some(nm) => env.insert(nm.name, args[i]) }
    }
}
/// r is a value of the action of production q of n on these right-hand-side values
#[verifier::opaque]
pub open spec fn act_rel(d: D, n: int, q: int, args: Seq<Sar>, r: Sar) -> bool {
    let (bs, action) = (d.acts)(n, q);
    expr_rel(action, env_from(bs, args, 0), r)
}
/// the payload of a value of variant NonTerminal<k>
pub uninterp spec fn extract<R>(k: int, v: Sar) -> R;

/// the grammar, automaton and numbering the parser was emitted for
pub struct D {
    pub p: P,
    /// right-hand side with binders, and action, of a production
    pub acts: spec_fn(int, int) -> (Seq<BoundSymbol>, syn::Expr),
    /// number of the action of a production
    pub aidx: spec_fn(int, int) -> int,
    /// number of the variant that holds a non-terminal's value
    pub vn: spec_fn(int) -> int,
    /// the declared names of the terminals
    pub name: spec_fn(int) -> Seq<char>,
}
/// an arbitrary one, and an arbitrary entry point of it
pub uninterp spec fn the() -> D;
pub uninterp spec fn entry() -> NonTerminalIdx;
pub uninterp spec fn ACTION_v() -> Vec<Vec<Option<LRAction>>>;
pub uninterp spec fn GOTO_v() -> Vec<Vec<Option<u32>>>;
pub uninterp spec fn SEMANTIC_ACTIONS_v() -> Vec<ActFn>;
pub uninterp spec fn TERMINAL_STRS_v() -> Vec<&'static str>;
pub uninterp spec fn EXPECTED_TERMINALS_v() -> Vec<&'static str>;
#[verifier::external_body]
pub fn ACTION() -> (r: &'static Vec<Vec<Option<LRAction>>>) ensures *r == ACTION_v() { unimplemented!() }
#[verifier::external_body]
pub fn GOTO() -> (r: &'static Vec<Vec<Option<u32>>>) ensures *r == GOTO_v() { unimplemented!() }
#[verifier::external_body]
pub fn SEMANTIC_ACTIONS() -> (r: &'static Vec<ActFn>) ensures *r == SEMANTIC_ACTIONS_v() { unimplemented!() }
#[verifier::external_body]
pub fn TERMINAL_STRS() -> (r: &'static Vec<&'static str>) ensures *r == TERMINAL_STRS_v() { unimplemented!() }
#[verifier::external_body]
pub fn EXPECTED_TERMINALS() -> (r: &'static Vec<&'static str>) ensures *r == EXPECTED_TERMINALS_v() { unimplemented!() }

/// the emitted classification and value functions (user patterns)
#[verifier::external_body]
pub fn token_terminal_idx(t: &Tok) -> (r: usize)
    ensures r == tok_term(*t).0, (tok_term(*t).0 as int) < the().p.g.nt
{ unimplemented!() }
#[verifier::external_body]
pub fn token_value(t: Tok) -> (r: Sar)
    ensures r == tok_val(t), tag(r) == Tag::T(tok_term(t).0 as int)
{ unimplemented!() }

/// Vec<SemanticActionResult>, with a ghost record of the actions run on it
#[verifier::external_body]
pub struct VStack { v: Vec<Sar> }
impl VStack {
    pub uninterp spec fn view(&self) -> Seq<Sar>;
    pub uninterp spec fn log(&self) -> Seq<(int, int)>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<Sar>::empty(), r.log() == Seq::<(int, int)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: Sar) ensures final(self)@ == old(self)@.push(x), final(self).log() == old(self).log() { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<Sar>)
        ensures
            final(self).log() == old(self).log(),
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
/// an element of SEMANTIC_ACTIONS: an emitted action function, for production q of n
#[verifier::external_body]
pub struct ActFn { x: u8 }
impl ActFn {
    pub uninterp spec fn n(&self) -> int;
    pub uninterp spec fn q(&self) -> int;
    /// Pops one value per right-hand-side symbol (extracting the bound ones) and pushes the action's value.
    #[verifier::external_body]
    pub fn call(&self, vs: &mut VStack)
        requires
            the().p.g.has(self.n(), self.q()),
            args_ok(the(), the().p.g.prods[self.n()][self.q()], old(vs)@),
        ensures ({
            let m = the().p.g.prods[self.n()][self.q()].len() as int;
            let l = old(vs)@.len() - m;
            &&& final(vs)@.len() == l + 1
            &&& final(vs)@.take(l) == old(vs)@.take(l)
            &&& act_rel(the(), self.n(), self.q(), old(vs)@.skip(l), final(vs)@[l])
            &&& tag(final(vs)@[l]) == Tag::N((the().vn)(self.n()))
            &&& final(vs).log() == old(vs).log().push((self.n(), self.q()))
        })
    { unimplemented!() }
}
impl Clone for ActFn {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Copy for ActFn {}
/// an emitted extraction method `non_terminal_<k>`: panics on a value of any other variant
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct FnPtr<R> { x: R }
impl<R> FnPtr<R> {
    pub uninterp spec fn k(&self) -> int;
    #[verifier::external_body]
    pub fn call(&self, v: Sar) -> (r: R)
        requires tag(v) == Tag::N(self.k()),
        ensures r == extract::<R>(self.k(), v)
    { unimplemented!() }
}
/// the caller's token iterator: at(i) is what the i-th call of next yields
#[verifier::external_body]
#[verifier::reject_recursive_types(E)]
pub struct VInput<E> { x: E }
pub type Inp<E> = spec_fn(int) -> Option<Result<Tok, E>>;
impl<E> VInput<E> {
    pub uninterp spec fn at(&self) -> Inp<E>;
    pub uninterp spec fn pulled(&self) -> int;
    /// C06: never asked again after the end of the input or an error
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Result<Tok, E>>)
        requires toks_to(old(self).at(), old(self).pulled()), old(self).pulled() >= 0,
        ensures final(self).at() == old(self).at(), final(self).pulled() == old(self).pulled() + 1, r == (old(self).at())(old(self).pulled()),
    { unimplemented!() }
}
pub open spec fn is_tok<E>(x: Option<Result<Tok, E>>) -> bool { x is Some && x->0 is Ok }
pub open spec fn toks_to<E>(at: Inp<E>, k: int) -> bool { forall |i: int| 0 <= i < k ==> is_tok(#[trigger] at(i)) }
pub open spec fn tk<E>(at: Inp<E>) -> spec_fn(int) -> Tok { |i: int| at(i)->0->Ok_0 }
pub open spec fn la_of<E>(x: Option<Result<Tok, E>>) -> Option<TerminalIdx> { if is_tok(x) { Some(tok_term(x->0->Ok_0)) } else { None } }
/// the terminals of the first k tokens
pub open spec fn terms(t: spec_fn(int) -> Tok, k: int) -> Seq<TerminalIdx> { Seq::new(k as nat, |i: int| tok_term(t(i))) }

pub open spec fn sym_tag(d: D, s: Symbol) -> Tag {
    match s { Symbol::Terminal(t) => Tag::T(t.0 as int), Symbol::NonTerminal(n) => Tag::N((d.vn)(n.0 as int)) }
}
/// the top values are values of the right-hand side's symbols
pub open spec fn args_ok(d: D, r: Seq<Symbol>, vs: Seq<Sar>) -> bool {
    &&& r.len() <= vs.len()
    &&& forall |i: int| 0 <= i < r.len() ==> tag(vs[vs.len() - r.len() + i]) == sym_tag(d, #[trigger] r[i])
}

// ------------------------------------------------------------------ C12: what the emitted tables must hold
pub open spec fn cell_ok(d: D, c: Option<LRAction>, a: Option<Act>) -> bool {
    match a {
        None => c is None,
        Some(Act::Accept) => c is Some && c->0 is Accept,
        Some(Act::Shift(j)) => c is Some && match c->0 { LRAction::Shift { next_state } => next_state as int == j, _ => false },
        Some(Act::Reduce(n, q)) => c is Some && match c->0 {
            LRAction::Reduce { non_terminal_idx, n_symbols, semantic_action_idx } =>
                non_terminal_idx as int == n.0 as int && n_symbols as int == d.p.g.prods[n.0 as int][q.0 as int].len()
                && semantic_action_idx as int == (d.aidx)(n.0 as int, q.0 as int),
            _ => false,
        },
    }
}
pub open spec fn col(g: G, la: Option<TerminalIdx>) -> int { match la { Some(t) => t.0 as int, None => g.nt as int } }
pub open spec fn act_row_ok(d: D, i: int) -> bool {
    let row = ACTION_v()@[i]@;
    &&& row.len() == d.p.g.nt + 1
    &&& forall |la: Option<TerminalIdx>| la_ok(d.p.g, la) ==> cell_ok(d, row[col(d.p.g, la)], #[trigger] (d.p.act)(i, la))
}
pub open spec fn goto_tab_row_ok(d: D, i: int) -> bool {
    let row = GOTO_v()@[i]@;
    let goto = d.p.a.goto[i];
    &&& row.len() == d.p.g.prods.len()
    &&& forall |n: NonTerminalIdx| (n.0 as int) < d.p.g.prods.len() && #[trigger] goto.dom().contains(Symbol::NonTerminal(n))
            ==> row[n.0 as int] is Some && row[n.0 as int]->0 as int == goto[Symbol::NonTerminal(n)].0
}
pub open spec fn actions_ok(d: D) -> bool {
    forall |n: int, q: int| #[trigger] d.p.g.has(n, q) ==> 0 <= (d.aidx)(n, q) < SEMANTIC_ACTIONS_v()@.len()
        && SEMANTIC_ACTIONS_v()@[(d.aidx)(n, q)].n() == n && SEMANTIC_ACTIONS_v()@[(d.aidx)(n, q)].q() == q
}
/// the names of the terminals below k that have an action, separated by comma and space
pub open spec fn expected_to(d: D, i: int, k: nat) -> Seq<Seq<char>>
    decreases k
{
    if k == 0 { Seq::empty() }
    else {
        let r = expected_to(d, i, (k - 1) as nat);
        if (d.p.act)(i, Some(TerminalIdx((k - 1) as u32))) is Some { r.push((d.name)(k - 1)) } else { r }
    }
}
pub open spec fn join(s: Seq<Seq<char>>) -> Seq<char> { join_sep(s, ", "@) }
pub open spec fn eoi() -> Seq<char> { "end-of-input"@ }
pub open spec fn found_text(d: D, la: Option<TerminalIdx>) -> Seq<char> { match la { Some(t) => (d.name)(t.0 as int), None => eoi() } }
pub open spec fn strs_ok(d: D) -> bool {
    &&& TERMINAL_STRS_v()@.len() == d.p.g.nt + 1
    &&& forall |la: Option<TerminalIdx>| la_ok(d.p.g, la) ==> TERMINAL_STRS_v()@[#[trigger] col(d.p.g, la)]@ == found_text(d, la)
    &&& EXPECTED_TERMINALS_v()@.len() == d.p.a.items.len()
    &&& forall |i: int| 0 <= i < d.p.a.items.len() ==> (#[trigger] EXPECTED_TERMINALS_v()@[i])@ == join(expected_to(d, i, d.p.g.nt))
}
pub open spec fn tabs_ok(d: D) -> bool {
    &&& p_ok(d.p)
    &&& d.p.a.items.len() <= usize::MAX
    &&& ACTION_v()@.len() == d.p.a.items.len()
    &&& forall |i: int| 0 <= i < d.p.a.items.len() ==> #[trigger] act_row_ok(d, i)
    &&& GOTO_v()@.len() == d.p.a.items.len()
    &&& forall |i: int| 0 <= i < d.p.a.items.len() ==> #[trigger] goto_tab_row_ok(d, i)
    &&& actions_ok(d)
    &&& strs_ok(d)
}

// ------------------------------------------------------------------ evaluation of trees
/// the tree's leaves' positions, its nodes in the order in which they are evaluated
pub open spec fn poss(t: Tree) -> Seq<int>
    decreases t
{
    match t { Tree::Leaf(_, i) => seq![i], Tree::Node(_, _, ch) => posss(ch) }
}
pub open spec fn posss(f: Seq<Tree>) -> Seq<int>
    decreases f
{
    if f.len() == 0 { Seq::empty() } else { posss(f.drop_last()) + poss(f.last()) }
}
pub open spec fn post(t: Tree) -> Seq<(int, int)>
    decreases t
{
    match t { Tree::Leaf(_, _) => Seq::empty(), Tree::Node(n, q, ch) => posts(ch).push((n.0 as int, q.0 as int)) }
}
pub open spec fn posts(f: Seq<Tree>) -> Seq<(int, int)>
    decreases f
{
    if f.len() == 0 { Seq::empty() } else { posts(f.drop_last()) + post(f.last()) }
}
/// v is the value of t, evaluated bottom up
pub open spec fn ev(d: D, t: Tree, v: Sar, w: spec_fn(int) -> Tok) -> bool
    decreases t
{
    &&& tag(v) == sym_tag(d, root(t))
    &&& match t {
            Tree::Leaf(c, i) => tok_term(w(i)) == c && v == tok_val(w(i)),
            Tree::Node(n, q, ch) => exists |args: Seq<Sar>| args.len() == ch.len() && #[trigger] act_rel(d, n.0 as int, q.0 as int, args, v)
                && forall |i: int| 0 <= i < ch.len() ==> ev(d, #[trigger] ch[i], args[i], w),
        }
}
pub open spec fn evs(d: D, f: Seq<Tree>, vs: Seq<Sar>, w: spec_fn(int) -> Tok) -> bool {
    vs.len() == f.len() && forall |i: int| 0 <= i < f.len() ==> ev(d, #[trigger] f[i], vs[i], w)
}
pub proof fn lemma_posss_add(a: Seq<Tree>, b: Seq<Tree>)
    ensures posss(a + b) == posss(a) + posss(b), posts(a + b) == posts(a) + posts(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(posss(a) + posss(b) =~= posss(a)); assert(posts(a) + posts(b) =~= posts(a)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        lemma_posss_add(a, b.drop_last());
        assert(posss(a + b) =~= posss(a) + posss(b));
        assert(posts(a + b) =~= posts(a) + posts(b));
    }
}
pub proof fn lemma_f_push(f: Seq<Tree>, t: Tree)
    ensures
        ylds(f.push(t)) == ylds(f) + yld(t), posss(f.push(t)) == posss(f) + poss(t), posts(f.push(t)) == posts(f) + post(t),
{
    assert(f.push(t).drop_last() =~= f);
    assert(f.push(t).last() == t);
}
pub proof fn lemma_leaf(c: TerminalIdx, k: int)
    ensures yld(Tree::Leaf(c, k)) == seq![c], poss(Tree::Leaf(c, k)) == seq![k], post(Tree::Leaf(c, k)) == Seq::<(int, int)>::empty()
{
    reveal_with_fuel(yld, 2); reveal_with_fuel(poss, 2); reveal_with_fuel(post, 2);
}
pub proof fn lemma_node(n: NonTerminalIdx, q: ProductionIdx, ch: Seq<Tree>)
    ensures
        yld(Tree::Node(n, q, ch)) == ylds(ch), poss(Tree::Node(n, q, ch)) == posss(ch),
        post(Tree::Node(n, q, ch)) == posts(ch).push((n.0 as int, q.0 as int)),
{
}

// ------------------------------------------------------------------ the driver's invariant
/// having consumed k tokens, the stacks hold the forest f
pub open spec fn run_inv(d: D, n0: NonTerminalIdx, w: spec_fn(int) -> Tok, st: Seq<int>, f: Seq<Tree>, vs: Seq<Sar>, log: Seq<(int, int)>, k: int) -> bool {
    &&& path(d.p, n0, st, roots(f))
    &&& trees_ok(d.p.g, f)
    &&& ylds(f) == terms(w, k)
    &&& posss(f) == Seq::new(k as nat, |i: int| i)
    &&& evs(d, f, vs, w)
    &&& log == posts(f)
    &&& k >= 0
}
pub open spec fn ints(s: Seq<u32>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
pub proof fn lemma_run_start(d: D, n0: NonTerminalIdx, w: spec_fn(int) -> Tok, s: u32)
    requires tabs_ok(d), d.p.starts.dom().contains(n0), d.p.starts[n0].0 == s
    ensures run_inv(d, n0, w, ints(seq![s]), Seq::empty(), Seq::empty(), Seq::empty(), 0)
{
    assert(ylds(Seq::<Tree>::empty()) =~= terms(w, 0));
    assert(posss(Seq::<Tree>::empty()) =~= Seq::new(0, |i: int| i));
    assert(roots(Seq::<Tree>::empty()) =~= Seq::<Symbol>::empty());
}
/// before a reduction: the right-hand side is on the stack and the state below it has a transition
pub proof fn lemma_run_pre_reduce(d: D, n0: NonTerminalIdx, w: spec_fn(int) -> Tok, st: Seq<int>, f: Seq<Tree>, vs: Seq<Sar>, log: Seq<(int, int)>, k: int, la: Option<TerminalIdx>)
    requires tabs_ok(d), run_inv(d, n0, w, st, f, vs, log, k), (d.p.act)(st.last(), la) is Some, (d.p.act)(st.last(), la)->0 is Reduce
    ensures ({
        let n = (d.p.act)(st.last(), la)->0->Reduce_0;
        let q = (d.p.act)(st.last(), la)->0->Reduce_1;
        let r = d.p.g.prods[n.0 as int][q.0 as int];
        let l = f.len() - r.len();
        &&& d.p.g.has(n.0 as int, q.0 as int)
        &&& l >= 0
        &&& roots(f).skip(l) == r
        &&& roots(f.skip(l)) == r
        &&& args_ok(d, r, vs)
        &&& 0 <= st[l] < d.p.a.items.len()
        &&& d.p.a.goto[st[l]].dom().contains(Symbol::NonTerminal(n))
        &&& path(d.p, n0, st.take(l + 1), roots(f).take(l))
        &&& red_to(d.p, st, n, q) == st.take(l + 1).push(gt(d.p, st[l], n))
        &&& exists |it: LR1Item| #[trigger] top_items(d.p, st).contains(it) && p_red(d.p.g, it) && it.lookahead == la
                && it.non_terminal_idx == n && it.production_idx == q
    })
{
    let n = (d.p.act)(st.last(), la)->0->Reduce_0;
    let q = (d.p.act)(st.last(), la)->0->Reduce_1;
    let g = d.p.g;
    lemma_top(d.p, n0, st, roots(f));
    let it = choose |it: LR1Item| #[trigger] top_items(d.p, st).contains(it) && p_red(g, it) && it.lookahead == la
                && it.non_terminal_idx == n && it.production_idx == q;
    let r = rhs(g, it);
    lemma_back(d.p, n0, st, roots(f), it);
    let l = f.len() - r.len();
    assert(it.c() == r.len());
    assert(r.take(r.len() as int) =~= r);
    let st1 = st.take(l + 1);
    let x1 = roots(f).take(l);
    lemma_top(d.p, n0, st1, x1);
    let kn = kern(d.p, n0, st1, x1);
    assert(clo(g, kn, at0(it)));
    let j = choose |j: nat| in_clo(g, kn, at0(it), j);
    let _a = lemma_parent(d.p, n0, st1, x1, at0(it), j);
    assert(roots(f.skip(l)) =~= roots(f).skip(l));
    assert forall |i: int| 0 <= i < r.len() implies tag(vs[vs.len() - r.len() + i]) == sym_tag(d, #[trigger] r[i]) by {
        assert(r[i] == roots(f).skip(l)[i]);
        assert(r[i] == root(f[l + i]));
        assert(ev(d, f[l + i], vs[l + i], w));
    }
    assert(st1.last() == st[l]);
}
pub proof fn lemma_run_reduce(d: D, n0: NonTerminalIdx, w: spec_fn(int) -> Tok, st: Seq<int>, f: Seq<Tree>, vs: Seq<Sar>, log: Seq<(int, int)>, k: int, la: Option<TerminalIdx>,
    vs2: Seq<Sar>, log2: Seq<(int, int)>) -> (f2: Seq<Tree>)
    requires
        tabs_ok(d), run_inv(d, n0, w, st, f, vs, log, k), (d.p.act)(st.last(), la) is Some, (d.p.act)(st.last(), la)->0 is Reduce,
        ({
            let n = (d.p.act)(st.last(), la)->0->Reduce_0;
            let q = (d.p.act)(st.last(), la)->0->Reduce_1;
            let r = d.p.g.prods[n.0 as int][q.0 as int];
            let l = f.len() - r.len();
            &&& vs2.len() == l + 1
            &&& vs2.take(l) == vs.take(l)
            &&& act_rel(d, n.0 as int, q.0 as int, vs.skip(l), vs2[l])
            &&& tag(vs2[l]) == Tag::N((d.vn)(n.0 as int))
            &&& log2 == log.push((n.0 as int, q.0 as int))
        }),
    ensures
        run_inv(d, n0, w, red_to(d.p, st, (d.p.act)(st.last(), la)->0->Reduce_0, (d.p.act)(st.last(), la)->0->Reduce_1), f2, vs2, log2, k),
{
    let n = (d.p.act)(st.last(), la)->0->Reduce_0;
    let q = (d.p.act)(st.last(), la)->0->Reduce_1;
    let r = d.p.g.prods[n.0 as int][q.0 as int];
    let l = f.len() - r.len();
    lemma_run_pre_reduce(d, n0, w, st, f, vs, log, k, la);
    let ch = f.skip(l);
    let t = Tree::Node(n, q, ch);
    let f1 = f.take(l);
    let f2 = f1.push(t);
    assert forall |i: int| 0 <= i < ch.len() implies tree_ok(d.p.g, #[trigger] ch[i]) by { assert(ch[i] == f[l + i]); }
    assert(tree_ok(d.p.g, t));
    assert forall |i: int| 0 <= i < f2.len() implies tree_ok(d.p.g, #[trigger] f2[i]) by { if i < l { assert(f2[i] == f[i]); } }
    lemma_ylds_add(f1, ch);
    lemma_posss_add(f1, ch);
    assert(f1 + ch =~= f);
    lemma_f_push(f1, t);
    lemma_node(n, q, ch);
    assert(ylds(f2) =~= ylds(f));
    assert(posss(f2) =~= posss(f));
    assert(posts(f2) =~= log2);
    let x1 = roots(f).take(l);
    assert(roots(f2) =~= x1.push(Symbol::NonTerminal(n)));
    assert(st.take(l + 1).last() == st[l]);
    lemma_path_push(d.p, n0, st.take(l + 1), x1, Symbol::NonTerminal(n));
    assert(ev(d, t, vs2[l], w)) by {
        let args = vs.skip(l);
        assert forall |i: int| 0 <= i < ch.len() implies ev(d, #[trigger] ch[i], args[i], w) by { assert(ch[i] == f[l + i]); assert(ev(d, f[l + i], vs[l + i], w)); }
        assert(args.len() == ch.len() && act_rel(d, n.0 as int, q.0 as int, args, vs2[l]));
    }
    assert forall |i: int| 0 <= i < f2.len() implies ev(d, #[trigger] f2[i], vs2[i], w) by {
        if i < l { assert(f2[i] == f[i]); assert(vs2[i] == vs2.take(l)[i]); assert(vs[i] == vs.take(l)[i]); assert(ev(d, f[i], vs[i], w)); }
    }
    f2
}
pub proof fn lemma_run_shift(d: D, n0: NonTerminalIdx, w: spec_fn(int) -> Tok, st: Seq<int>, f: Seq<Tree>, vs: Seq<Sar>, log: Seq<(int, int)>, k: int, c: TerminalIdx) -> (f2: Seq<Tree>)
    requires
        tabs_ok(d), run_inv(d, n0, w, st, f, vs, log, k), (d.p.act)(st.last(), Some(c)) is Some, (d.p.act)(st.last(), Some(c))->0 is Shift,
        tok_term(w(k)) == c, tag(tok_val(w(k))) == Tag::T(c.0 as int),
    ensures
        run_inv(d, n0, w, st.push((d.p.act)(st.last(), Some(c))->0->Shift_0), f2, vs.push(tok_val(w(k))), log, k + 1),
{
    lemma_top(d.p, n0, st, roots(f));
    let t = Tree::Leaf(c, k);
    let f2 = f.push(t);
    let vs2 = vs.push(tok_val(w(k)));
    assert(tree_ok(d.p.g, t));
    assert forall |i: int| 0 <= i < f2.len() implies tree_ok(d.p.g, #[trigger] f2[i]) by { if i < f.len() { assert(f2[i] == f[i]); } }
    lemma_f_push(f, t);
    lemma_leaf(c, k);
    assert(ylds(f2) =~= terms(w, k + 1));
    assert(posss(f2) =~= Seq::new((k + 1) as nat, |i: int| i));
    assert(posts(f2) =~= log);
    assert(roots(f2) =~= roots(f).push(Symbol::Terminal(c)));
    lemma_path_push(d.p, n0, st, roots(f), Symbol::Terminal(c));
    assert forall |i: int| 0 <= i < f2.len() implies ev(d, #[trigger] f2[i], vs2[i], w) by {
        if i < f.len() { assert(f2[i] == f[i]); assert(ev(d, f[i], vs[i], w)); }
    }
    f2
}
/// at acceptance the forest is one tree of the entry point's own non-terminal
pub proof fn lemma_run_accept(d: D, n0: NonTerminalIdx, w: spec_fn(int) -> Tok, st: Seq<int>, f: Seq<Tree>, vs: Seq<Sar>, log: Seq<(int, int)>, k: int)
    requires tabs_ok(d), run_inv(d, n0, w, st, f, vs, log, k), (d.p.act)(st.last(), None) == Some(Act::Accept)
    ensures
        f.len() == 1, vs.len() == 1, root(f[0]) == Symbol::NonTerminal(entry_sym(d.p.g, n0)),
        tree_ok(d.p.g, f[0]), yld(f[0]) == terms(w, k), ev(d, f[0], vs[0], w), log == post(f[0]),
        poss(f[0]) == Seq::new(k as nat, |i: int| i),
        d.p.g.has(n0.0 as int, 0),
        args_ok(d, d.p.g.prods[n0.0 as int][0], vs),
        d.p.g.prods[n0.0 as int][0].len() == 1,
{
    let p = d.p;
    let xs = roots(f);
    lemma_top(p, n0, st, xs);
    let it = choose |it: LR1Item| #[trigger] top_items(p, st).contains(it) && p_acc(p.g, it);
    lemma_back(p, n0, st, xs, it);
    let st1 = st.take(st.len() - 1);
    let x1 = xs.take(xs.len() - 1);
    lemma_top(p, n0, st1, x1);
    let kn = kern(p, n0, st1, x1);
    let i0 = at0(it);
    assert(clo(p.g, kn, i0));
    let j = choose |j: nat| in_clo(p.g, kn, i0, j);
    if x1.len() > 0 {
        let s = p.a.items[st1[st1.len() - 2]];
        lemma_kernel(p.g, s, x1.last());
        lemma_path_states(p, n0, st1, x1);
        if kn.contains(i0) {
            let a = choose |a: LR1Item| #[trigger] s.contains(a) && it_next(p.g, a) == Some(x1.last()) && i0 == adv(a);
            assert(items_ok(p.g, p.a.items[st1[st1.len() - 2]]));
            assert(p.g.has(a.n(), a.p()));
            assert(false);
        }
        let a = choose |a: LR1Item| #[trigger] item_step(p.g, a, i0) && in_clo(p.g, kn, a, (j - 1) as nat);
        assert(clo(p.g, kn, a));
        assert(top_items(p, st1).contains(a));
        lemma_ref_private(p, a);
        assert(false);
    }
    assert(p.starts.dom().contains(n0));
    assert(kn == start_kernel(n0.0 as int));
    lemma_start_only(p.g, n0.0 as int, i0, j);
    assert(i0.n() == n0.0 && i0.p() == 0);
    assert(xs.len() == 1);
    let r = rhs(p.g, it);
    assert(r.take(1)[0] == r[0]);
    assert(xs.skip(0)[0] == xs[0]);
    assert(xs[0] == root(f[0]));
    let e = Seq::<Tree>::empty();
    lemma_f_push(e, f[0]);
    assert(e.push(f[0]) =~= f);
    assert(ylds(e) =~= Seq::empty());
    assert(posss(e) =~= Seq::empty());
    assert(posts(e) =~= Seq::empty());
    assert(ylds(f) =~= yld(f[0]));
    assert(posss(f) =~= poss(f[0]));
    assert(posts(f) =~= post(f[0]));
    assert(tree_ok(p.g, f[0]));
    assert(ev(d, f[0], vs[0], w));
}
