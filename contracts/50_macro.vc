//@ module macro_entry file=lib.rs
//@ header
use vstd::prelude::*;
use crate::prelude::*;
use crate::theory::*;
use crate::automaton::*;
use crate::table::*;
use crate::emitted::*;
use crate::lower::*;
use crate::{ast, grammar, lower, lr1, lr_common, syn};
use crate::tables as lr_codegen;
use crate::syn::TokenStream;
//@ raw
/// the non-terminals, in the order in which they are written
pub open spec fn nts_of(items: Seq<ast::GrammarItem>) -> Seq<ast::NonTerminal>
    decreases items.len()
{
    if items.len() == 0 { Seq::empty() } else {
        match items.last() {
            ast::GrammarItem::NonTerminal(n) => nts_of(items.drop_last()).push(n),
            _ => nts_of(items.drop_last()),
        }
    }
}
/// the token declarations
pub open spec fn enums_of(items: Seq<ast::GrammarItem>) -> Seq<ast::TokenEnum>
    decreases items.len()
{
    if items.len() == 0 { Seq::empty() } else {
        match items.last() {
            ast::GrammarItem::TokenEnum(e) => enums_of(items.drop_last()).push(e),
            _ => enums_of(items.drop_last()),
        }
    }
}
pub open spec fn n_states_of(items: Seq<ast::GrammarItem>) -> nat
    decreases items.len()
{
    if items.len() == 0 { 0 } else { n_states_of(items.drop_last()) + (if items.last() is TypeDef { 1nat } else { 0 }) }
}
/// a grammar text that is not rejected by lowering: one token declaration, at most one state type, and a
/// grammar that can be lowered
pub open spec fn text_ok(items: Seq<ast::GrammarItem>) -> bool {
    &&& enums_of(items).len() == 1
    &&& n_states_of(items) <= 1
    &&& acceptable(nts_of(items), enums_of(items)[0].conversions@)
}
/// its automaton has an LR(1) conflict
pub open spec fn text_conflicted(items: Seq<ast::GrammarItem>) -> bool {
    exists |g: grammar::Grammar<syn::Expr>, a: Aut, s: SMap<grammar::NonTerminalIdx, lr_common::StateIdx>|
        lowered(nts_of(items), enums_of(items)[0].conversions@, g) && #[trigger] aut_exact(g.gv(), a, s) && conflicted(g.gv(), a.items)
}
pub open spec fn emits(items: Seq<ast::GrammarItem>, e: Emitted) -> bool {
    exists |g: grammar::Grammar<syn::Expr>, t: ast::TokenEnum, m: Build| t == enums_of(items)[0]
        && lowered(nts_of(items), t.conversions@, g) && g.wf() && entries_ok(g.gv()) && #[trigger] emitted_ok(&g, &t, e, m)
}
pub proof fn lemma_snoc(items: Seq<ast::GrammarItem>, i: int)
    requires 0 <= i < items.len()
    ensures items.take(i + 1).drop_last() == items.take(i), items.take(i + 1).last() == items[i]
{
    assert(items.take(i + 1).drop_last() =~= items.take(i));
}
pub proof fn lemma_counts(items: Seq<ast::GrammarItem>, i: int)
    requires 0 <= i <= items.len()
    ensures
        enums_of(items.take(i)).len() <= enums_of(items).len(),
        n_states_of(items.take(i)) <= n_states_of(items),
    decreases items.len() - i
{
    if i < items.len() {
        lemma_counts(items, i + 1);
        lemma_snoc(items, i);
    } else { assert(items.take(i) =~= items); }
}
//@ fn parser ret=r rejects
    requires
        match syn::parsed::<ast::Parser>(input) {
            Some(p) => {
                &&& enums_of(p.items@).len() > 0 ==> sizes_ok(nts_of(p.items@), enums_of(p.items@)[0].conversions@)
                &&& !text_ok(p.items@) || text_conflicted(p.items@) ==> may_reject()
            },
            None => true,
        },
    ensures
        match syn::parsed::<ast::Parser>(input) {
            Some(p) => syn::written(input, p) && text_ok(p.items@) && r.emitted() is Some && emits(p.items@, r.emitted()->0),
            None => r.emitted() is None,
        },
//@ after let parser
    let ghost items = parser.items@;
//@ loop 0
    non_terminals@ == nts_of(items.take($it.pos())),
    enums_of(items.take($it.pos())).len() == (if token_enum is Some { 1nat } else { 0 }),
    token_enum is Some ==> token_enum->0 == enums_of(items.take($it.pos()))[0],
    n_states_of(items.take($it.pos())) == (if state_type is Some { 1nat } else { 0 }),
//@ loop 0 begin
    proof {
        lemma_snoc(items, $it.pos() - 1);
        lemma_counts(items, $it.pos());
    }
//@ loop 0 after
    proof { assert(items.take(items.len() as int) =~= items); }
