//@ module emission
//@ header
use vstd::prelude::*;
use vstd::pervasive::cloned;
use crate::prelude::*;
use crate::theory::*;
use crate::items::*;
use crate::automaton::*;
use crate::table::*;
use crate::parser::*;
use crate::link::*;
use crate::eval::*;
use crate::emitted::*;
use crate::grammar::*;
use crate::lr1::LR1Item;
use crate::lr_common::{StateIdx, LRAction, LRTable};
use crate::codegen::SemanticActionIdx;
use crate::{ast, syn};
use crate::ast::{Pattern, FieldPattern};
use crate::syn::EId;
//@ raw
// ------------------------------------------------------------------ from what is emitted to what the driver is proved on
/// the machine the parser is emitted for
pub open spec fn built(gram: &Grammar<syn::Expr>, m: Build) -> D {
    D {
        p: machine(&m.gram, m.a, m.starts, m.t),
        acts: |n: int, q: int| (gram.non_terminals@[n].productions@[q].symbols@, gram.non_terminals@[n].productions@[q].action),
        aidx: |n: int, q: int| m.gram.non_terminals@[n].productions@[q].action.0 as int,
        vn: |n: int| m.vn[n] as int,
        name: |t: int| gram.terminals@[t]@,
    }
}
pub open spec fn action_id(n: int, q: int) -> EId { EId::F2("nt{}p{}_action"@, n, q) }
/// meaning of the emitted statics: they hold what their initialisers say; an element of
/// SEMANTIC_ACTIONS is the function with the name that stands there
pub open spec fn statics_are(e: Emitted) -> bool {
    &&& ACTION_v()@.len() == e.action.rows@.len()
    &&& forall |i: int| 0 <= i < e.action.rows@.len() ==> (#[trigger] ACTION_v()@[i])@ == e.action.rows@[i]@
    &&& GOTO_v()@.len() == e.goto.rows@.len()
    &&& forall |i: int| 0 <= i < e.goto.rows@.len() ==> (#[trigger] GOTO_v()@[i])@ == e.goto.rows@[i]@
    &&& TERMINAL_STRS_v()@.len() == e.strs.items@.len()
    &&& forall |i: int| 0 <= i < e.strs.items@.len() ==> (#[trigger] TERMINAL_STRS_v()@[i])@ == e.strs.items@[i]@
    &&& EXPECTED_TERMINALS_v()@.len() == e.expected.items@.len()
    &&& forall |i: int| 0 <= i < e.expected.items@.len() ==> (#[trigger] EXPECTED_TERMINALS_v()@[i])@ == e.expected.items@[i]@
    &&& SEMANTIC_ACTIONS_v()@.len() == e.sem@.last()->names@.len()
    &&& forall |i: int, n: int, q: int| 0 <= i < e.sem@.last()->names@.len() && (#[trigger] e.sem@.last()->names@[i]).id() == #[trigger] action_id(n, q)
            ==> SEMANTIC_ACTIONS_v()@[i].n() == n && SEMANTIC_ACTIONS_v()@[i].q() == q
}
pub proof fn lemma_exp(gram: &Grammar<syn::Expr>, m: Build, i: int, k: nat)
    requires m.gram.terminals == gram.terminals, 0 <= i <= usize::MAX
    ensures exp_to(&m.gram, m.t, i, k) == expected_to(built(gram, m), i, k)
    decreases k
{
    if k > 0 {
        lemma_exp(gram, m, i, (k - 1) as nat);
        let la = Some(TerminalIdx((k - 1) as u32));
        assert((built(gram, m).p.act)(i, la) == act_of(m.t.at(StateIdx(i as usize), la)));
    }
}
/// C12: the machine that the driver is proved on is the one that is emitted
pub proof fn lemma_tabs_ok(gram: &Grammar<syn::Expr>, tokens: &ast::TokenEnum, e: Emitted, m: Build)
    requires gram.wf(), entries_ok(gram.gv()), emitted_ok(gram, tokens, e, m), statics_are(e)
    ensures tabs_ok(built(gram, m))
{
    let d = built(gram, m);
    let g = gram.gv();
    lemma_machine_ok(&m.gram, m.a, m.starts, m.t);
    assert forall |i: int| 0 <= i < d.p.a.items.len() implies #[trigger] act_row_ok(d, i) by {
        let row = ACTION_v()@[i]@;
        assert(e.action.rows@[i]@ == row);
        assert forall |la: Option<TerminalIdx>| la_ok(d.p.g, la) implies cell_ok(d, row[col(d.p.g, la)], #[trigger] (d.p.act)(i, la)) by {
            let c = m.t.at(StateIdx(i as usize), la);
            assert((d.p.act)(i, la) == act_of(c));
            assert(ecell_ok(&m.gram, c, e.action.rows@[i]@[nt_cols(&m.gram, la)]));
            if c is Some && c->0 is Reduce {
                lemma_ered(&m, i, la);
                let si = StateIdx(i as usize);
                assert(row_ok(&m.gram, m.a.items[si.0 as int], m.a.goto[si.0 as int], m.t, si));
                assert(g.prods[c->0->Reduce_0.0 as int][c->0->Reduce_1.0 as int].len() == m.gram.non_terminals@[c->0->Reduce_0.0 as int].productions@[c->0->Reduce_1.0 as int].symbols@.len());
            }
        }
    }
    assert forall |i: int| 0 <= i < d.p.a.items.len() implies #[trigger] goto_tab_row_ok(d, i) by {
        let row = GOTO_v()@[i]@;
        let si = StateIdx(i as usize);
        assert(e.goto.rows@[i]@ == row);
        assert(goto_row_ok(m.a.goto[si.0 as int], m.t, si));
        assert forall |n: NonTerminalIdx| (n.0 as int) < d.p.g.prods.len() && #[trigger] d.p.a.goto[i].dom().contains(Symbol::NonTerminal(n))
            implies row[n.0 as int] is Some && row[n.0 as int]->0 as int == d.p.a.goto[i][Symbol::NonTerminal(n)].0 by {
            assert(m.t.gt(si, n) == Some(m.a.goto[i][Symbol::NonTerminal(n)]));
        }
    }
    assert forall |n: int, q: int| #[trigger] d.p.g.has(n, q) implies 0 <= (d.aidx)(n, q) < SEMANTIC_ACTIONS_v()@.len()
        && SEMANTIC_ACTIONS_v()@[(d.aidx)(n, q)].n() == n && SEMANTIC_ACTIONS_v()@[(d.aidx)(n, q)].q() == q by {
        lemma_decl(gram, m, e.sem@, n, q);
    }
    assert forall |la: Option<TerminalIdx>| la_ok(d.p.g, la) implies TERMINAL_STRS_v()@[#[trigger] col(d.p.g, la)]@ == found_text(d, la) by {
        assert(TERMINAL_STRS_v()@[col(d.p.g, la)]@ == e.strs.items@[col(d.p.g, la)]@);
    }
    assert forall |i: int| 0 <= i < d.p.a.items.len() implies (#[trigger] EXPECTED_TERMINALS_v()@[i])@ == join(expected_to(d, i, d.p.g.nt)) by {
        lemma_exp(gram, m, i, d.p.g.nt);
        assert(e.expected.items@[i]@ == join_sep(exp_to(&m.gram, m.t, i, m.gram.terminals@.len()), ", "@));
    }
}
/// the function whose index is recorded for a production is that production's
pub proof fn lemma_decl(gram: &Grammar<syn::Expr>, m: Build, sem: Seq<Decl>, n: int, q: int)
    requires sem_ok(gram, m, sem), gram.gv().has(n, q)
    ensures ({
        let k = m.gram.non_terminals@[n].productions@[q].action.0 as int;
        &&& 0 <= k < sem.len() - 1
        &&& sem.last()->names@.len() == sem.len() - 1
        &&& sem[k] is Action
        &&& fn_ok(m.vn, n, q, gram.non_terminals@[n].productions@[q], sem[k]->Action_0)
        &&& sem.last()->names@[k].id() == action_id(n, q)
    }),
{
    assert(nt_ok(m.vn, n, gram.non_terminals@[n], m.gram.non_terminals@[n], sem.drop_last()));
    assert(decl_ok(m.vn, n, q, gram.non_terminals@[n].productions@[q], m.gram.non_terminals@[n].productions@[q], sem.drop_last()));
    let k = m.gram.non_terminals@[n].productions@[q].action.0 as int;
    assert(sem.drop_last()[k] is Action);
}
/// what a parser struct passes to the driver is what the driver requires for its entry point
pub proof fn lemma_entry(gram: &Grammar<syn::Expr>, tokens: &ast::TokenEnum, e: Emitted, m: Build, i: int) -> (n: NonTerminalIdx)
    requires gram.wf(), entries_ok(gram.gv()), emitted_ok(gram, tokens, e, m), 0 <= i < e.entries@.len()
    ensures ({
        let d = built(gram, m);
        let p = e.entries@[i];
        &&& entry_ok(gram, m, n, p)
        &&& d.p.starts.dom().contains(n)
        &&& p.state == d.p.starts[n].0
        &&& p.action == (d.aidx)(n.0 as int, 0)
        &&& p.extract.id() == EId::F1("non_terminal_{}"@, (d.vn)(n.0 as int))
        &&& d.p.g.public[n.0 as int]
    }),
{
//@ if det
    hide(crate::det::ordered); hide(crate::emitted::one_each); hide(crate::det::vns_det); hide(crate::det::numbered_to);
//@ endif
    assert(is_entry(gram, m, e.entries@[i]));
    let n = choose |n: NonTerminalIdx| #[trigger] entry_ok(gram, m, n, e.entries@[i]);
    assert(start_ok(gram.gv(), m.starts, m.a.items, n));
    n
}

// ------------------------------------------------------------------ emitted action functions, run
/// the variant that holds values with this tag
pub open spec fn tag_id(t: Tag) -> EId { match t { Tag::T(i) => EId::F1("Token{}"@, i), Tag::N(k) => EId::F1("NonTerminal{}"@, k) } }
/// the extraction method takes values with this tag apart (it panics on all others)
pub open spec fn takes(r: ResultTy, method: EId, t: Tag) -> bool {
    exists |j: int| 0 <= j < r.fns@.len() && #[trigger] r.fns@[j].method.id() == method && r.fns@[j].variant.id() == tag_id(t)
}
/// value stack and variables after the first j statements; None: panic
pub open spec fn run_pops(r: ResultTy, ps: Seq<PopStmt>, j: nat, vs: Seq<Sar>) -> Option<(Seq<Sar>, Env)>
    decreases j
{
    if j == 0 { Some((vs, SMap::empty())) }
    else {
        match run_pops(r, ps, (j - 1) as nat, vs) {
            None => None,
            Some((s, env)) => match ps[j - 1] {
                PopStmt::Pop => Some((if s.len() == 0 { s } else { s.drop_last() }, env)),
                PopStmt::Bind { mutable, name, method } =>
                    if s.len() > 0 && takes(r, method.id(), tag(s.last())) { Some((s.drop_last(), env.insert(name, s.last()))) }
                    else { None },
            },
        }
    }
}
pub proof fn lemma_takes(gram: &Grammar<syn::Expr>, tokens: &ast::TokenEnum, e: Emitted, m: Build, s: Symbol)
    requires emitted_ok(gram, tokens, e, m), gram.gv().sym_ok(s), tokens.conversions@.len() == gram.terminals@.len()
    ensures takes(e.result, method_id(m.vn, s), sym_tag(built(gram, m), s))
{
    let r = e.result;
    match s {
        Symbol::Terminal(t) => {
            assert(tok_entry(tokens.conversions@[t.0 as int].to, t.0 as int, r.variants@[t.0 as int], r.fns@[t.0 as int]));
            assert(r.fns@[t.0 as int].method.id() == method_id(m.vn, s));
        }
        Symbol::NonTerminal(n) => {
            let k = m.vn[n.0 as int] as int;
            assert(vn_ok(tokens.conversions@.len() as int, gram.non_terminals@[n.0 as int].return_ty, m.vn[n.0 as int] as int, r.variants@, r.fns@));
            assert(r.fns@[tokens.conversions@.len() + k].method.id() == method_id(m.vn, s));
        }
    }
}
/// running an emitted action function on a stack that ends in values of its production's symbols pops
/// exactly these, without a panic, and gives its action the variables of C03
pub proof fn lemma_run_action(gram: &Grammar<syn::Expr>, tokens: &ast::TokenEnum, e: Emitted, m: Build, n: int, q: int, f: ActionFn, vs: Seq<Sar>, j: nat)
    requires
        gram.wf(), emitted_ok(gram, tokens, e, m), tokens.conversions@.len() == gram.terminals@.len(), gram.gv().has(n, q),
        fn_ok(m.vn, n, q, gram.non_terminals@[n].productions@[q], f),
        args_ok(built(gram, m), gram.gv().prods[n][q], vs),
        j <= f.pops@.len(),
    ensures ({
        let bs = gram.non_terminals@[n].productions@[q].symbols@;
        let l = vs.len() - bs.len();
        run_pops(e.result, f.pops@, j, vs) == Some((vs.take(vs.len() - j), env_from(bs, vs.skip(l), bs.len() - j)))
    }),
    decreases j
{
    let bs = gram.non_terminals@[n].productions@[q].symbols@;
    let r = gram.gv().prods[n][q];
    let l = vs.len() - bs.len();
    if j == 0 { assert(vs.take(vs.len() as int) =~= vs); }
    else {
        lemma_run_action(gram, tokens, e, m, n, q, f, vs, (j - 1) as nat);
        let i = bs.len() - j;
        let s = vs.take(vs.len() - (j - 1));
        assert(s.last() == vs[l + i]);
        assert(vs.skip(l)[i] == vs[l + i]);
        assert(s.drop_last() =~= vs.take(vs.len() - j));
        assert(pop_ok(m.vn, bs[bs.len() - 1 - (j - 1)], f.pops@[j - 1]));
        assert(r[i] == bs[i].symbol);
        assert(gram.gv().sym_ok(r[i]));
        lemma_takes(gram, tokens, e, m, bs[i].symbol);
    }
}

/// what an emitted action function does to the value stack (None: it panics)
pub open spec fn fn_run(r: ResultTy, f: ActionFn, vs: Seq<Sar>, v: Sar) -> Option<Seq<Sar>> {
    match run_pops(r, f.pops@, f.pops@.len(), vs) { None => None, Some((s, env)) => Some(s.push(v)) }
}
/// the value it pushes is one that its action has, in its variant
pub open spec fn fn_val(r: ResultTy, f: ActionFn, vs: Seq<Sar>, v: Sar) -> bool {
    match run_pops(r, f.pops@, f.pops@.len(), vs) { None => false, Some((s, env)) => expr_rel(f.action, env, v) && f.variant.id() == tag_id(tag(v)) }
}
/// the contract of ActFn::call
pub proof fn lemma_action_call(gram: &Grammar<syn::Expr>, tokens: &ast::TokenEnum, e: Emitted, m: Build, n: int, q: int, vs: Seq<Sar>, v: Sar)
    requires
        gram.wf(), emitted_ok(gram, tokens, e, m), tokens.conversions@.len() == gram.terminals@.len(), gram.gv().has(n, q),
        args_ok(built(gram, m), gram.gv().prods[n][q], vs),
    ensures ({
        let d = built(gram, m);
        let k = (d.aidx)(n, q);
        let f = e.sem@[k]->Action_0;
        let l = vs.len() - d.p.g.prods[n][q].len();
        &&& 0 <= k < e.sem@.len() && e.sem@[k] is Action
        &&& fn_run(e.result, f, vs, v) is Some
        &&& fn_val(e.result, f, vs, v) ==> ({
            let vs2 = fn_run(e.result, f, vs, v)->0;
            &&& vs2.len() == l + 1
            &&& vs2.take(l) == vs.take(l)
            &&& act_rel(d, n, q, vs.skip(l), vs2[l])
            &&& tag(vs2[l]) == Tag::N((d.vn)(n))
        })
    }),
{
    let d = built(gram, m);
    let k = (d.aidx)(n, q);
    let l = vs.len() - d.p.g.prods[n][q].len();
    let bs = gram.non_terminals@[n].productions@[q].symbols@;
    lemma_decl(gram, m, e.sem@, n, q);
    let f = e.sem@[k]->Action_0;
    lemma_run_action(gram, tokens, e, m, n, q, f, vs, f.pops@.len());
    reveal(act_rel);
    let vs2 = fn_run(e.result, f, vs, v)->0;
    assert(vs2 == vs.take(l).push(v));
    assert(vs2.take(l) =~= vs.take(l));
    if fn_val(e.result, f, vs, v) {
        reveal_strlit("Token{}");
        reveal_strlit("NonTerminal{}");
        assert("Token{}"@.len() != "NonTerminal{}"@.len());
        assert(tag_id(tag(v)) == tag_id(Tag::N((d.vn)(n))));
    }
}

// ------------------------------------------------------------------ C08: emitted token functions, run
/// a token or a part of one
#[verifier::external_body]
pub struct Val { p: core::marker::PhantomData<()> }
pub uninterp spec fn tok_as(t: Tok) -> Val;
/// Rust's meaning of one level of a pattern. Constructor c (None: a tuple) with as many sub-patterns as dots
/// has elements, `..` standing where dots is true, can match v; part i is what its sub-pattern i is matched with
pub uninterp spec fn built_by(c: Option<syn::Path>, dots: Seq<bool>, v: Val) -> bool;
pub uninterp spec fn part(c: Option<syn::Path>, dots: Seq<bool>, i: int, v: Val) -> Val;
/// the same for c { names }, dots telling whether `..` follows
pub uninterp spec fn fielded(c: syn::Path, names: Seq<syn::Ident>, dots: bool, v: Val) -> bool;
pub uninterp spec fn field(c: syn::Path, name: syn::Ident, v: Val) -> Val;
pub uninterp spec fn is_const(c: syn::Path, v: Val) -> bool;
pub uninterp spec fn is_lit(l: syn::Lit, v: Val) -> bool;
pub open spec fn p_dots(v: Vec<Pattern>) -> Seq<bool> { Seq::new(v.len() as nat, |i: int| v[i] is DotDot) }
pub open spec fn r_dots(w: Vec<RPat>) -> Seq<bool> { Seq::new(w.len() as nat, |i: int| w[i] is Rest) }
pub open spec fn p_names(v: Vec<FieldPattern>) -> Seq<syn::Ident> { Seq::new(v.len() as nat, |i: int| v[i].field_name) }
/// a struct pattern's fields, without the `..` at the end
pub open spec fn r_open(w: Vec<RPat>) -> bool { w.len() > 0 && w[w.len() - 1] is Rest }
pub open spec fn r_fields(w: Vec<RPat>) -> nat { (w.len() - (if r_open(w) { 1int } else { 0 })) as nat }
pub open spec fn r_names(w: Vec<RPat>) -> Seq<syn::Ident> { Seq::new(r_fields(w), |i: int| w[i]->Field_0) }
/// v matches the declared pattern
pub open spec fn pmatch(p: Pattern, v: Val) -> bool
    decreases p
{
    match p {
        Pattern::Enum(c, s) => built_by(Some(c), p_dots(s), v) && forall |i: int| 0 <= i < s.len() ==> pmatch(s[i], #[trigger] part(Some(c), p_dots(s), i, v)),
        Pattern::Tuple(s) => built_by(None, p_dots(s), v) && forall |i: int| 0 <= i < s.len() ==> pmatch(s[i], #[trigger] part(None, p_dots(s), i, v)),
        Pattern::Struct(c, s, dots) => fielded(c, p_names(s), dots, v)
            && forall |i: int| 0 <= i < s.len() ==> pmatch((#[trigger] s[i]).pattern, field(c, s[i].field_name, v)),
        Pattern::Path(c) => is_const(c, v),
        Pattern::Lit(l) => is_lit(l, v),
        Pattern::Underscore => true,
        Pattern::DotDot => true,
        Pattern::Choose(_) => true,
    }
}
/// what the declared pattern's holes stand for in v, left to right
pub open spec fn holes(p: Pattern, v: Val) -> Seq<Val>
    decreases p, 0nat
{
    match p {
        Pattern::Enum(c, s) => holes_to(Some(c), s, s.len() as nat, v),
        Pattern::Tuple(s) => holes_to(None, s, s.len() as nat, v),
        Pattern::Struct(c, s, _) => fholes_to(c, s, s.len() as nat, v),
        Pattern::Choose(_) => seq![v],
        _ => Seq::empty(),
    }
}
pub open spec fn holes_to(c: Option<syn::Path>, s: Vec<Pattern>, i: nat, v: Val) -> Seq<Val>
    decreases s, i
{
    if i == 0 || i > s.len() { Seq::empty() } else { holes_to(c, s, (i - 1) as nat, v) + holes(s[i - 1], part(c, p_dots(s), i - 1, v)) }
}
pub open spec fn fholes_to(c: syn::Path, s: Vec<FieldPattern>, i: nat, v: Val) -> Seq<Val>
    decreases s, i
{
    if i == 0 || i > s.len() { Seq::empty() } else { fholes_to(c, s, (i - 1) as nat, v) + holes(s[i - 1].pattern, field(c, s[i - 1].field_name, v)) }
}
/// v matches the Rust pattern
pub open spec fn rmatch(r: RPat, v: Val) -> bool
    decreases r
{
    match r {
        RPat::Enum(c, w) => built_by(Some(c), r_dots(w), v) && forall |i: int| 0 <= i < w.len() ==> rmatch(w[i], #[trigger] part(Some(c), r_dots(w), i, v)),
        RPat::Tuple(w) => built_by(None, r_dots(w), v) && forall |i: int| 0 <= i < w.len() ==> rmatch(w[i], #[trigger] part(None, r_dots(w), i, v)),
        RPat::Struct(c, w) => fielded(c, r_names(w), r_open(w), v)
            && forall |i: int| 0 <= i < r_fields(w) ==> match #[trigger] w[i] { RPat::Field(f, q) => rmatch(*q, field(c, f, v)), _ => false },
        RPat::Field(_, _) => false,
        RPat::Path(c) => is_const(c, v),
        RPat::Lit(l) => is_lit(l, v),
        RPat::Wild => true,
        RPat::Rest => true,
        RPat::Bind(_) => true,
    }
}
/// the variables that the Rust pattern binds, left to right
pub open spec fn vars(r: RPat, v: Val) -> Seq<(EId, Val)>
    decreases r, 0nat
{
    match r {
        RPat::Enum(c, w) => vars_to(Some(c), w, w.len() as nat, v),
        RPat::Tuple(w) => vars_to(None, w, w.len() as nat, v),
        RPat::Struct(c, w) => fvars_to(c, w, r_fields(w), v),
        RPat::Bind(x) => seq![(x.id(), v)],
        _ => Seq::empty(),
    }
}
pub open spec fn vars_to(c: Option<syn::Path>, w: Vec<RPat>, i: nat, v: Val) -> Seq<(EId, Val)>
    decreases w, i
{
    if i == 0 || i > w.len() { Seq::empty() } else { vars_to(c, w, (i - 1) as nat, v) + vars(w[i - 1], part(c, r_dots(w), i - 1, v)) }
}
pub open spec fn fvars_to(c: syn::Path, w: Vec<RPat>, i: nat, v: Val) -> Seq<(EId, Val)>
    decreases w, i
{
    if i == 0 || i > w.len() { Seq::empty() }
    else { fvars_to(c, w, (i - 1) as nat, v) + match w[i - 1] { RPat::Field(f, q) => vars(*q, field(c, f, v)), _ => Seq::empty() } }
}
/// f<k>, f<k+1>, .. stand for hs
pub open spec fn numbered(k: int, hs: Seq<Val>) -> Seq<(EId, Val)> { Seq::new(hs.len(), |j: int| (f_id(k + j), hs[j])) }
pub proof fn lemma_holes_len(p: Pattern, v: Val)
    ensures holes(p, v).len() == tys(p).len()
    decreases p, 0nat
{
    match p {
        Pattern::Enum(c, s) => lemma_holes_to_len(Some(c), s, s.len() as nat, v),
        Pattern::Tuple(s) => lemma_holes_to_len(None, s, s.len() as nat, v),
        Pattern::Struct(c, s, _) => lemma_fholes_to_len(c, s, s.len() as nat, v),
        _ => {}
    }
}
pub proof fn lemma_holes_to_len(c: Option<syn::Path>, s: Vec<Pattern>, i: nat, v: Val)
    ensures holes_to(c, s, i, v).len() == tys_to(s, i).len()
    decreases s, i
{
    if !(i == 0 || i > s.len()) {
        lemma_holes_to_len(c, s, (i - 1) as nat, v);
        lemma_holes_len(s[i - 1], part(c, p_dots(s), i - 1, v));
    }
}
pub proof fn lemma_fholes_to_len(c: syn::Path, s: Vec<FieldPattern>, i: nat, v: Val)
    ensures fholes_to(c, s, i, v).len() == ftys_to(s, i).len()
    decreases s, i
{
    if !(i == 0 || i > s.len()) {
        lemma_fholes_to_len(c, s, (i - 1) as nat, v);
        lemma_holes_len(s[i - 1].pattern, field(c, s[i - 1].field_name, v));
    }
}
/// a declared pattern and the Rust pattern emitted for it match the same values, and the variables of the
/// latter are numbered left to right and stand for the former's holes
pub proof fn lemma_pattern(p: Pattern, bind: bool, k: int, r: RPat, v: Val)
    requires pat_ok(p, bind, k, r)
    ensures rmatch(r, v) == pmatch(p, v), vars(r, v) == (if bind { numbered(k, holes(p, v)) } else { Seq::empty() })
    decreases p, 0nat
{
    match p {
        Pattern::Enum(c, s) => {
            let w = r->Enum_1;
            assert(w@.len() == w.len());
            assert(p_dots(s) =~= r_dots(w)) by {
                assert forall |i: int| 0 <= i < s.len() implies (s[i] is DotDot) == (w[i] is Rest) by {
                    assert(pat_ok(s[i], bind, k + tys_to(s, i as nat).len(), w@[i]));
                }
            }
            assert forall |i: int| 0 <= i < s.len() implies pmatch(s[i], part(Some(c), p_dots(s), i, v)) == rmatch(w[i], #[trigger] part(Some(c), p_dots(s), i, v)) by {
                assert(pat_ok(s[i], bind, k + tys_to(s, i as nat).len(), w@[i]));
                lemma_pattern(s[i], bind, k + tys_to(s, i as nat).len(), w[i], part(Some(c), p_dots(s), i, v));
            }
            lemma_vars_to(Some(c), s, bind, k, w, s.len() as nat, v);
        }
        Pattern::Tuple(s) => {
            let w = r->Tuple_0;
            assert(w@.len() == w.len());
            assert(p_dots(s) =~= r_dots(w)) by {
                assert forall |i: int| 0 <= i < s.len() implies (s[i] is DotDot) == (w[i] is Rest) by {
                    assert(pat_ok(s[i], bind, k + tys_to(s, i as nat).len(), w@[i]));
                }
            }
            assert forall |i: int| 0 <= i < s.len() implies pmatch(s[i], part(None, p_dots(s), i, v)) == rmatch(w[i], #[trigger] part(None, p_dots(s), i, v)) by {
                assert(pat_ok(s[i], bind, k + tys_to(s, i as nat).len(), w@[i]));
                lemma_pattern(s[i], bind, k + tys_to(s, i as nat).len(), w[i], part(None, p_dots(s), i, v));
            }
            lemma_vars_to(None, s, bind, k, w, s.len() as nat, v);
        }
        Pattern::Struct(c, s, dots) => {
            let w = r->Struct_1;
            assert(w@.len() == w.len());
            assert(r_open(w) == dots) by {
                if !dots && w.len() > 0 { assert(w@[w.len() - 1] is Field); }
            }
            assert(r_fields(w) == s.len());
            assert forall |i: int| 0 <= i < s.len() implies w[i] is Field && w[i]->Field_0 == s[i].field_name
                && pmatch((#[trigger] s[i]).pattern, field(c, s[i].field_name, v)) == rmatch(*w[i]->Field_1, field(c, s[i].field_name, v)) by {
                assert(w@[i] is Field);
                lemma_pattern(s[i].pattern, bind, k + ftys_to(s, i as nat).len(), *w[i]->Field_1, field(c, s[i].field_name, v));
            }
            assert(p_names(s) =~= r_names(w));
            assert(pmatch(p, v) == rmatch(r, v)) by {
                if pmatch(p, v) {
                    assert forall |i: int| 0 <= i < r_fields(w) implies match #[trigger] w[i] { RPat::Field(f, q) => rmatch(*q, field(c, f, v)), _ => false } by {
                        assert(pmatch(s[i].pattern, field(c, s[i].field_name, v)));
                    }
                }
                if rmatch(r, v) {
                    assert forall |i: int| 0 <= i < s.len() implies pmatch((#[trigger] s[i]).pattern, field(c, s[i].field_name, v)) by {
                        assert(w[i] is Field);
                    }
                }
            }
            lemma_fvars_to(c, s, bind, k, w, s.len() as nat, v);
        }
        Pattern::Choose(_) => {
            if bind { assert(numbered(k, seq![v]) =~= seq![(f_id(k), v)]); assert(vars(r, v) =~= seq![(f_id(k), v)]); }
        }
        _ => { assert(numbered(k, holes(p, v)) =~= Seq::empty()); }
    }
}
pub proof fn lemma_vars_to(c: Option<syn::Path>, s: Vec<Pattern>, bind: bool, k: int, w: Vec<RPat>, i: nat, v: Val)
    requires
        w@.len() == s.len(), i <= s.len(), p_dots(s) == r_dots(w),
        forall |i: int| 0 <= i < s.len() ==> pat_ok(s[i], bind, k + tys_to(s, i as nat).len(), #[trigger] w@[i]),
    ensures vars_to(c, w, i, v) == (if bind { numbered(k, holes_to(c, s, i, v)) } else { Seq::empty() })
    decreases s, i
{
    if i == 0 { assert(vars_to(c, w, i, v) =~= numbered(k, holes_to(c, s, i, v))); }
    else {
        let j = (i - 1) as nat;
        let u = part(c, p_dots(s), j as int, v);
        lemma_vars_to(c, s, bind, k, w, j, v);
        lemma_holes_to_len(c, s, j, v);
        assert(pat_ok(s[j as int], bind, k + tys_to(s, j).len(), w@[j as int]));
        lemma_pattern(s[j as int], bind, k + tys_to(s, j).len(), w[j as int], u);
        assert(vars_to(c, w, i, v) == vars_to(c, w, j, v) + vars(w[j as int], u));
        if bind { assert(vars_to(c, w, i, v) =~= numbered(k, holes_to(c, s, i, v))); }
        else { assert(vars_to(c, w, i, v) =~= Seq::empty()); }
    }
}
pub proof fn lemma_fvars_to(c: syn::Path, s: Vec<FieldPattern>, bind: bool, k: int, w: Vec<RPat>, i: nat, v: Val)
    requires
        w@.len() >= s.len(), i <= s.len(),
        forall |i: int| 0 <= i < s.len() ==> match #[trigger] w@[i] {
            RPat::Field(f, q) => f == s[i].field_name && pat_ok(s[i].pattern, bind, k + ftys_to(s, i as nat).len(), *q),
            _ => false,
        },
    ensures fvars_to(c, w, i, v) == (if bind { numbered(k, fholes_to(c, s, i, v)) } else { Seq::empty() })
    decreases s, i
{
    if i == 0 { assert(fvars_to(c, w, i, v) =~= numbered(k, fholes_to(c, s, i, v))); }
    else {
        let j = (i - 1) as nat;
        let u = field(c, s[j as int].field_name, v);
        lemma_fvars_to(c, s, bind, k, w, j, v);
        lemma_fholes_to_len(c, s, j, v);
        assert(w@[j as int] is Field);
        lemma_pattern(s[j as int].pattern, bind, k + ftys_to(s, j).len(), *w[j as int]->Field_1, u);
        assert(fvars_to(c, w, i, v) == fvars_to(c, w, j, v) + vars(*w[j as int]->Field_1, u));
        if bind { assert(fvars_to(c, w, i, v) =~= numbered(k, fholes_to(c, s, i, v))); }
        else { assert(fvars_to(c, w, i, v) =~= Seq::empty()); }
    }
}
/// the value of the variable with this name (the last one, if several)
pub open spec fn lookup(vs: Seq<(EId, Val)>, x: EId) -> Option<Val>
    decreases vs.len()
{
    if vs.len() == 0 { None } else if vs.last().0 == x { Some(vs.last().1) } else { lookup(vs.drop_last(), x) }
}
pub proof fn lemma_lookup(k: int, hs: Seq<Val>, j: int)
    requires 0 <= j < hs.len()
    ensures lookup(numbered(k, hs), f_id(k + j)) == Some(hs[j])
    decreases hs.len()
{
    let vs = numbered(k, hs);
    assert(vs.last() == (f_id(k + hs.len() - 1), hs.last()));
    if j < hs.len() - 1 {
        assert(vs.drop_last() =~= numbered(k, hs.drop_last()));
        lemma_lookup(k, hs.drop_last(), j);
    }
}
/// what `ty::variant(idents)` holds in a value arm
pub open spec fn payload(a: ValArm, v: Val) -> Seq<Option<Val>> { Seq::new(a.idents@.len(), |j: int| lookup(vars(a.pat, v), a.idents@[j].id())) }
/// declaration i is the first one that the token matches
pub open spec fn first_match(tokens: &ast::TokenEnum, t: Tok, i: int) -> bool {
    0 <= i < tokens.conversions@.len() && pmatch(tokens.conversions@[i].to, tok_as(t))
    && forall |j: int| 0 <= j < i ==> !#[trigger] pmatch(tokens.conversions@[j].to, tok_as(t))
}
/// the arm that a match expression takes
pub open spec fn idx_arm(f: IdxFn, t: Tok, i: int) -> bool {
    0 <= i < f.arms@.len() && rmatch(f.arms@[i].pat, tok_as(t)) && forall |j: int| 0 <= j < i ==> !rmatch((#[trigger] f.arms@[j]).pat, tok_as(t))
}
pub open spec fn val_arm(f: ValFn, t: Tok, i: int) -> bool {
    0 <= i < f.arms@.len() && rmatch(f.arms@[i].pat, tok_as(t)) && forall |j: int| 0 <= j < i ==> !rmatch((#[trigger] f.arms@[j]).pat, tok_as(t))
}
/// a token is classified by the first declaration that it matches, and its value is of that
/// declaration's variant, made of what its holes match, left to right
pub proof fn lemma_token(gram: &Grammar<syn::Expr>, tokens: &ast::TokenEnum, e: Emitted, m: Build, t: Tok, i: int, j: int)
    requires emitted_ok(gram, tokens, e, m), idx_arm(e.idx_fn, t, i), val_arm(e.val_fn, t, j)
    ensures
        first_match(tokens, t, i),
        e.idx_fn.arms@[i].idx == i,
        j == i,
        e.val_fn.arms@[j].ty.id() == EId::Text("SemanticActionResult"@),
        e.val_fn.arms@[j].variant.id() == tag_id(Tag::T(i)),
        payload(e.val_fn.arms@[j], tok_as(t)).len() == holes(tokens.conversions@[i].to, tok_as(t)).len(),
        forall |x: int| 0 <= x < holes(tokens.conversions@[i].to, tok_as(t)).len() ==>
            #[trigger] payload(e.val_fn.arms@[j], tok_as(t))[x] == Some(holes(tokens.conversions@[i].to, tok_as(t))[x]),
        e.result.variants@[i].id.id() == tag_id(Tag::T(i)),
        e.result.variants@[i].tys@ == tys(tokens.conversions@[i].to),
{
    let cs = tokens.conversions@;
    let v = tok_as(t);
    assert forall |k: int| 0 <= k < cs.len() implies rmatch(e.idx_fn.arms@[k].pat, v) == #[trigger] pmatch(cs[k].to, v)
        && rmatch(e.val_fn.arms@[k].pat, v) == pmatch(cs[k].to, v) by {
        assert(idx_arm_ok(cs[k].to, k, e.idx_fn.arms@[k]));
        assert(val_arm_ok(cs[k].to, k, e.result.name, e.val_fn.arms@[k]));
        lemma_pattern(cs[k].to, false, 0, e.idx_fn.arms@[k].pat, v);
        lemma_pattern(cs[k].to, true, 0, e.val_fn.arms@[k].pat, v);
    }
    assert forall |k: int| 0 <= k < i implies !#[trigger] pmatch(cs[k].to, v) by { assert(!rmatch(e.idx_fn.arms@[k].pat, v)); }
    assert(pmatch(cs[i].to, v) && pmatch(cs[j].to, v));
    if j < i { assert(!pmatch(cs[j].to, v)); }
    if i < j { assert(!rmatch(e.val_fn.arms@[i].pat, v)); }
    assert(idx_arm_ok(cs[i].to, i, e.idx_fn.arms@[i]));
    assert(val_arm_ok(cs[i].to, i, e.result.name, e.val_fn.arms@[i]));
    assert(tok_entry(cs[i].to, i, e.result.variants@[i], e.result.fns@[i]));
    let hs = holes(cs[i].to, v);
    lemma_holes_len(cs[i].to, v);
    lemma_pattern(cs[i].to, true, 0, e.val_fn.arms@[i].pat, v);
    assert forall |x: int| 0 <= x < hs.len() implies #[trigger] payload(e.val_fn.arms@[i], v)[x] == Some(hs[x]) by {
        assert(e.val_fn.arms@[i].idents@[x].id() == f_id(x));
        lemma_lookup(0, hs, x);
    }
}
