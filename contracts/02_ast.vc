//@ module ast file=ast.rs
//@ header
use vstd::prelude::*;
use crate::prelude::*;
use crate::syn;
use crate::syn::{Span, Spelt, TT, Dl, ParseBuffer, token, leaf, tk, tk_opt, grp, sizes, commas, list_of, list_plain, items_opt};
//@ type Parser
//@ type GrammarItem
//@ type TypeDef
//@ type TypeDefKind
//@ type Visibility
//@ type NonTerminal
//@ type Production
//@ type Symbol
//@ type Repeat
//@ type RepeatOp
//@ type Action
//@ type Name
//@ type Pattern
//@ type FieldPattern
//@ type Conversion
//@ type TokenEnum
//@ raw
// ------------------------------------------------------------------ the concrete syntax: what a text from i to j spells
pub open spec fn r_field(s: Seq<TT>, i: int, j: int, f: FieldPattern) -> bool
    decreases f
{
    exists |a: int, b: int, n: syn::Ident| #![trigger leaf(s, i, a, n), tk::<token::Colon>(s, a, b)]
        n == f.field_name && leaf(s, i, a, n) && tk::<token::Colon>(s, a, b) && r_pat(s, b, j, f.pattern)
}
pub open spec fn r_pat(s: Seq<TT>, i: int, j: int, p: Pattern) -> bool
    decreases p
{
    match p {
        Pattern::DotDot => tk::<token::Dot2>(s, i, j),
        Pattern::Lit(l) => leaf(s, i, j, l),
        Pattern::Underscore => tk::<token::Underscore>(s, i, j),
        Pattern::Tuple(v) => exists |t: Seq<TT>, n: int, a: Seq<int>, b: Seq<int>| #![trigger grp(s, i, j, Dl::Paren, t), pats_at(t, n, a, b)]
            n == v.len() && grp(s, i, j, Dl::Paren, t) && pats_at(t, n, a, b) && forall |k: int| 0 <= k < v.len() ==> r_pat(t, a[k], #[trigger] b[k], v[k]),
        Pattern::Enum(c, v) => exists |m: int, d: syn::Path, t: Seq<TT>, n: int, a: Seq<int>, b: Seq<int>| #![trigger r_path(s, i, m, d), grp(s, m, j, Dl::Paren, t), pats_at(t, n, a, b)]
            c == d && n == v.len() && r_path(s, i, m, d) && grp(s, m, j, Dl::Paren, t) && pats_at(t, n, a, b) && forall |k: int| 0 <= k < v.len() ==> r_pat(t, a[k], #[trigger] b[k], v[k]),
        Pattern::Struct(c, v, dots) => exists |m: int, d: syn::Path, t: Seq<TT>, n: int, a: Seq<int>, b: Seq<int>, e: bool| #![trigger r_path(s, i, m, d), grp(s, m, j, Dl::Brace, t), fields_at(t, n, a, b, e)]
            c == d && n == v.len() && e == dots && r_path(s, i, m, d) && grp(s, m, j, Dl::Brace, t) && fields_at(t, n, a, b, e) && forall |k: int| 0 <= k < v.len() ==> r_field(t, a[k], #[trigger] b[k], v[k]),
        Pattern::Path(c) => r_path(s, i, j, c),
        Pattern::Choose(t) => exists |a: int, b: int, y: syn::Type| #![trigger tk::<token::Lt>(s, i, a), leaf(s, a, b, y)]
            y == t && tk::<token::Lt>(s, i, a) && leaf(s, a, b, t) && tk::<token::Gt>(s, b, j),
    }
}
pub open spec fn r_path(s: Seq<TT>, i: int, j: int, c: syn::Path) -> bool { exists |e: syn::ExprPath| #[trigger] leaf(s, i, j, e) && e.path == c }
/// n elements with commas between them, perhaps one at the end, fill the text
pub open spec fn pats_at(t: Seq<TT>, n: int, a: Seq<int>, b: Seq<int>) -> bool {
    &&& a.len() == n && b.len() == n
    &&& forall |k: int| 0 < k < n ==> tk::<token::Comma>(t, b[k - 1], #[trigger] a[k])
    &&& if n == 0 { t.len() == 0 } else { a[0] == 0 && tk_opt::<token::Comma>(t, b.last(), t.len() as int) }
}
/// n fields, each perhaps followed by a comma, from the beginning of the text
pub open spec fn fields_to(t: Seq<TT>, n: int, a: Seq<int>, b: Seq<int>) -> bool {
    &&& a.len() == n + 1 && b.len() == n && a[0] == 0
    &&& forall |k: int| 0 <= k < n ==> tk_opt::<token::Comma>(t, #[trigger] b[k], a[k + 1])
}
/// the same, and then the end, or `..` and the end
pub open spec fn fields_at(t: Seq<TT>, n: int, a: Seq<int>, b: Seq<int>, dots: bool) -> bool {
    fields_to(t, n, a, b) && if dots { tk::<token::Dot2>(t, a.last(), t.len() as int) } else { a.last() == t.len() }
}
pub open spec fn fields_upto(t: Seq<TT>, v: Seq<FieldPattern>, j: int) -> bool {
    exists |a: Seq<int>, b: Seq<int>| #[trigger] fields_to(t, v.len() as int, a, b) && a.last() == j && forall |k: int| 0 <= k < v.len() ==> r_field(t, a[k], #[trigger] b[k], v[k])
}
/// all of the text
pub open spec fn fields_all(t: Seq<TT>, v: Seq<FieldPattern>, dots: bool) -> bool {
    exists |a: Seq<int>, b: Seq<int>| #[trigger] fields_at(t, v.len() as int, a, b, dots) && forall |k: int| 0 <= k < v.len() ==> r_field(t, a[k], #[trigger] b[k], v[k])
}
/// .. and no comma yet after the last one
pub open spec fn fields_last(t: Seq<TT>, v: Seq<FieldPattern>, j: int) -> bool {
    v.len() > 0 && exists |m: int| fields_upto(t, v.drop_last(), m) && #[trigger] r_field(t, m, j, v.last())
}
proof fn lemma_fields_push(t: Seq<TT>, v: Seq<FieldPattern>, m: int, j: int, k: int, x: FieldPattern)
    requires fields_upto(t, v, m), r_field(t, m, j, x), tk_opt::<token::Comma>(t, j, k)
    ensures fields_upto(t, v.push(x), k)
{
    let (a, b) = choose |a: Seq<int>, b: Seq<int>| #[trigger] fields_to(t, v.len() as int, a, b) && a.last() == m && forall |k: int| 0 <= k < v.len() ==> r_field(t, a[k], #[trigger] b[k], v[k]);
    assert(fields_to(t, v.push(x).len() as int, a.push(k), b.push(j)));
}
pub broadcast proof fn lemma_fields0(t: Seq<TT>, v: Seq<FieldPattern>, j: int)
    requires v.len() == 0, j == 0
    ensures #[trigger] fields_upto(t, v, j)
{
    assert(fields_to(t, 0, seq![0int], Seq::empty()));
}
pub broadcast proof fn lemma_fields1(t: Seq<TT>, v: Seq<FieldPattern>, m: int, j: int, x: FieldPattern)
    requires fields_upto(t, v, m), r_field(t, m, j, x)
    ensures #![trigger fields_upto(t, v, m), r_field(t, m, j, x), v.push(x)]
        fields_last(t, v.push(x), j), fields_upto(t, v.push(x), j)
{
    lemma_fields_push(t, v, m, j, j, x);
    assert(v.push(x).drop_last() =~= v);
    assert(r_field(t, m, j, v.push(x).last()));
}
pub broadcast proof fn lemma_fields2(t: Seq<TT>, v: Seq<FieldPattern>, m: int, j: int)
    requires fields_last(t, v, m), tk::<token::Comma>(t, m, j)
    ensures #![trigger fields_last(t, v, m), tk::<token::Comma>(t, m, j)] fields_upto(t, v, j)
{
    let x = choose |x: int| fields_upto(t, v.drop_last(), x) && #[trigger] r_field(t, x, m, v.last());
    lemma_fields_push(t, v.drop_last(), x, m, j, v.last());
    assert(v.drop_last().push(v.last()) =~= v);
}
pub broadcast proof fn lemma_fields3(t: Seq<TT>, v: Seq<FieldPattern>, m: int)
    requires #[trigger] fields_upto(t, v, m)
    ensures m == t.len() ==> fields_all(t, v, false), tk::<token::Dot2>(t, m, t.len() as int) ==> fields_all(t, v, true)
{
    let (a, b) = choose |a: Seq<int>, b: Seq<int>| #[trigger] fields_to(t, v.len() as int, a, b) && a.last() == m && forall |k: int| 0 <= k < v.len() ==> r_field(t, a[k], #[trigger] b[k], v[k]);
    if m == t.len() { assert(fields_at(t, v.len() as int, a, b, false)); }
    if tk::<token::Dot2>(t, m, t.len() as int) { assert(fields_at(t, v.len() as int, a, b, true)); }
}
pub broadcast proof fn lemma_path(s: Seq<TT>, i: int, j: int, e: syn::ExprPath)
    requires #[trigger] leaf(s, i, j, e)
    ensures r_path(s, i, j, e.path)
{}
pub open spec fn r_pats(t: Seq<TT>, v: Seq<Pattern>) -> bool {
    exists |a: Seq<int>, b: Seq<int>| #[trigger] pats_at(t, v.len() as int, a, b) && forall |k: int| 0 <= k < v.len() ==> r_pat(t, a[k], #[trigger] b[k], v[k])
}
pub broadcast proof fn lemma_pats(t: Seq<TT>, v: Seq<Pattern>)
    requires #[trigger] list_of(t, v)
    ensures r_pats(t, v)
{
    let (a, b) = choose |a: Seq<int>, b: Seq<int>| #[trigger] commas(t, v, a, b);
    assert forall |k: int| 0 <= k < v.len() implies r_pat(t, a[k], #[trigger] b[k], v[k]) by { assert(<Pattern as Spelt>::reads(t, a[k], b[k], v[k])); }
    assert(pats_at(t, v.len() as int, a, b));
}
pub broadcast proof fn lemma_tuple(s: Seq<TT>, i: int, j: int, t: Seq<TT>, v: Vec<Pattern>)
    requires grp(s, i, j, Dl::Paren, t), r_pats(t, v@)
    ensures #![trigger grp(s, i, j, Dl::Paren, t), r_pats(t, v@)] r_pat(s, i, j, Pattern::Tuple(v))
{
    let (a, b) = choose |a: Seq<int>, b: Seq<int>| #[trigger] pats_at(t, v.len() as int, a, b) && forall |k: int| 0 <= k < v.len() ==> r_pat(t, a[k], #[trigger] b[k], v[k]);
    let p = Pattern::Tuple(v);
    assert forall |k: int| 0 <= k < v.len() implies r_pat(t, a[k], #[trigger] b[k], v[k]) by {}
    assert(r_pat(s, i, j, p));
}
pub broadcast proof fn lemma_enum(s: Seq<TT>, i: int, m: int, j: int, t: Seq<TT>, c: syn::Path, v: Vec<Pattern>)
    requires r_path(s, i, m, c), grp(s, m, j, Dl::Paren, t), r_pats(t, v@)
    ensures #![trigger r_path(s, i, m, c), grp(s, m, j, Dl::Paren, t), r_pats(t, v@)] r_pat(s, i, j, Pattern::Enum(c, v))
{
    let (a, b) = choose |a: Seq<int>, b: Seq<int>| #[trigger] pats_at(t, v.len() as int, a, b) && forall |k: int| 0 <= k < v.len() ==> r_pat(t, a[k], #[trigger] b[k], v[k]);
    assert forall |k: int| 0 <= k < v.len() implies r_pat(t, a[k], #[trigger] b[k], v[k]) by {}
    assert(r_pat(s, i, j, Pattern::Enum(c, v)));
}
pub broadcast proof fn lemma_struct(s: Seq<TT>, i: int, m: int, j: int, t: Seq<TT>, c: syn::Path, v: Vec<FieldPattern>, dots: bool)
    requires r_path(s, i, m, c), grp(s, m, j, Dl::Brace, t), fields_all(t, v@, dots)
    ensures #![trigger r_path(s, i, m, c), grp(s, m, j, Dl::Brace, t), fields_all(t, v@, dots)] r_pat(s, i, j, Pattern::Struct(c, v, dots))
{
    let (a, b) = choose |a: Seq<int>, b: Seq<int>| #[trigger] fields_at(t, v.len() as int, a, b, dots) && forall |k: int| 0 <= k < v.len() ==> r_field(t, a[k], #[trigger] b[k], v[k]);
    assert forall |k: int| 0 <= k < v.len() implies r_field(t, a[k], #[trigger] b[k], v[k]) by {}
    assert(r_pat(s, i, j, Pattern::Struct(c, v, dots)));
}
pub broadcast proof fn lemma_op_add(s: Seq<TT>, i: int, j: int)
    requires #[trigger] tk::<token::Add>(s, i, j)
    ensures r_op(s, i, j, RepeatOp::Plus)
{}
pub broadcast proof fn lemma_op_star(s: Seq<TT>, i: int, j: int)
    requires #[trigger] tk::<token::Star>(s, i, j)
    ensures r_op(s, i, j, RepeatOp::Star)
{}
pub broadcast proof fn lemma_op_question(s: Seq<TT>, i: int, j: int)
    requires #[trigger] tk::<token::Question>(s, i, j)
    ensures r_op(s, i, j, RepeatOp::Question)
{}
pub open spec fn r_conv(s: Seq<TT>, i: int, j: int, c: Conversion) -> bool {
    exists |a: int, b: int, l: syn::LitStr| #![trigger leaf(s, i, a, l), tk::<token::FatArrow>(s, a, b)]
        leaf(s, i, a, l) && l.text() == c.from@ && tk::<token::FatArrow>(s, a, b) && r_pat(s, b, j, c.to)
}
pub open spec fn r_enum(s: Seq<TT>, i: int, j: int, e: TokenEnum) -> bool {
    exists |a: int, b: int, c: int, n: syn::Ident, t: Seq<TT>|
        #![trigger tk::<token::Enum>(s, i, a), leaf(s, a, b, n), grp(s, c, j, Dl::Brace, t)]
        n == e.type_name && tk::<token::Enum>(s, i, a) && leaf(s, a, b, n) && r_lifetimes(s, b, c, e.type_lifetimes@)
        && grp(s, c, j, Dl::Brace, t) && list_of(t, e.conversions@)
}
/// nothing, or a list in `<` `>`
pub open spec fn r_lifetimes(s: Seq<TT>, i: int, j: int, v: Seq<syn::Lifetime>) -> bool {
    ||| i == j && v.len() == 0
    ||| exists |a: int, b: int| #![trigger tk::<token::Lt>(s, i, a), items_opt(s, a, b, v)]
            tk::<token::Lt>(s, i, a) && items_opt(s, a, b, v) && tk::<token::Gt>(s, b, j)
}
pub open spec fn r_typedef(s: Seq<TT>, i: int, j: int, d: TypeDef) -> bool {
    exists |a: int, b: int, c: int, e: int, y: syn::Type| #![trigger tk::<token::Type>(s, i, a), tk::<token::Eq>(s, b, c), leaf(s, c, e, y)]
        y == d.ty && tk::<token::Type>(s, i, a) && r_kind(s, a, b, d.kind) && tk::<token::Eq>(s, b, c) && leaf(s, c, e, y) && tk::<token::Semi>(s, e, j)
}
pub open spec fn r_kind(s: Seq<TT>, i: int, j: int, k: TypeDefKind) -> bool {
    exists |x: syn::Ident| #[trigger] leaf(s, i, j, x) && match k { TypeDefKind::State => syn::id_text(x.id()) == "State"@ }
}
pub open spec fn r_vis(s: Seq<TT>, i: int, j: int, v: Visibility) -> bool {
    match v { Visibility::Pub => tk::<token::Pub>(s, i, j), Visibility::Priv => i == j }
}
pub open spec fn r_nt(s: Seq<TT>, i: int, j: int, n: NonTerminal) -> bool {
    exists |a: int, b: int, c: int, d: int, e: int, x: syn::Ident, y: syn::Type|
        #![trigger leaf(s, a, b, x), tk::<token::Colon>(s, b, c), leaf(s, c, d, y), tk::<token::Eq>(s, d, e)]
        x == n.name && y == n.type_decl && r_vis(s, i, a, n.visibility) && leaf(s, a, b, x) && tk::<token::Colon>(s, b, c) && leaf(s, c, d, y)
        && tk::<token::Eq>(s, d, e) && r_prods(s, e, j, n.productions@)
}
/// `{ .. };` or one production and a comma
pub open spec fn r_prods(s: Seq<TT>, i: int, j: int, v: Seq<Production>) -> bool {
    ||| exists |a: int, t: Seq<TT>| #![trigger grp(s, i, a, Dl::Brace, t)]
            grp(s, i, a, Dl::Brace, t) && items_opt(t, 0, t.len() as int, v) && tk::<token::Semi>(s, a, j)
    ||| exists |a: int| v.len() == 1 && r_prod(s, i, a, v[0]) && #[trigger] tk::<token::Comma>(s, a, j)
}
pub open spec fn r_prod(s: Seq<TT>, i: int, j: int, p: Production) -> bool {
    exists |a: int| #![trigger r_action(s, a, j, p.action)] list_plain(s, i, a, p.symbols@) && r_action(s, a, j, p.action)
}
pub open spec fn r_action(s: Seq<TT>, i: int, j: int, c: Action) -> bool {
    match c {
        Action::Infallible(e) => exists |a: int| #[trigger] tk::<token::FatArrow>(s, i, a) && leaf(s, a, j, e),
        Action::Fallible(e) => exists |a: int, b: int| #![trigger tk::<token::FatArrow>(s, i, a), tk::<token::Question>(s, a, b)]
            tk::<token::FatArrow>(s, i, a) && tk::<token::Question>(s, a, b) && leaf(s, b, j, e),
    }
}
pub open spec fn r_sym(s: Seq<TT>, i: int, j: int, x: Symbol) -> bool
    decreases x
{
    match x {
        Symbol::Terminal(l) => leaf(s, i, j, l),
        Symbol::NonTerminal(n) => leaf(s, i, j, n),
        Symbol::Repeat(r) => exists |m: int| r_sym(s, i, m, r.symbol) && #[trigger] r_op(s, m, j, r.op),
        Symbol::NamedSymbol(n, y) => exists |a: int, b: int, c: int, d: int, e: int, z: syn::Ident|
            #![trigger tk::<token::Lt>(s, i, a), leaf(s, b, c, z), tk::<token::Colon>(s, c, d), tk::<token::Gt>(s, e, j)]
            z == n.name && tk::<token::Lt>(s, i, a) && r_mut(s, a, b, n.mutable) && leaf(s, b, c, z) && tk::<token::Colon>(s, c, d) && r_sym(s, d, e, *y) && tk::<token::Gt>(s, e, j),
    }
}
pub open spec fn r_mut(s: Seq<TT>, i: int, j: int, m: bool) -> bool { if m { tk::<token::Mut>(s, i, j) } else { i == j } }
pub open spec fn r_op(s: Seq<TT>, i: int, j: int, o: RepeatOp) -> bool {
    match o {
        RepeatOp::Plus => tk::<token::Add>(s, i, j),
        RepeatOp::Star => tk::<token::Star>(s, i, j),
        RepeatOp::Question => tk::<token::Question>(s, i, j),
    }
}
pub open spec fn r_item(s: Seq<TT>, i: int, j: int, x: GrammarItem) -> bool {
    match x {
        GrammarItem::TypeDef(d) => r_typedef(s, i, j, d),
        GrammarItem::TokenEnum(e) => r_enum(s, i, j, e),
        GrammarItem::NonTerminal(n) => r_nt(s, i, j, n),
    }
}
/// C13: the text spells exactly these items, in this order, and nothing else
pub open spec fn r_parser(s: Seq<TT>, i: int, j: int, p: Parser) -> bool { list_plain(s, i, j, p.items@) }
impl Spelt for FieldPattern { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { r_field(s, i, j, x) } open spec fn atomic() -> bool { false } }
impl Spelt for Pattern { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { r_pat(s, i, j, x) } open spec fn atomic() -> bool { false } }
impl Spelt for Conversion { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { r_conv(s, i, j, x) } open spec fn atomic() -> bool { false } }
impl Spelt for TokenEnum { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { r_enum(s, i, j, x) } open spec fn atomic() -> bool { false } }
impl Spelt for TypeDef { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { r_typedef(s, i, j, x) } open spec fn atomic() -> bool { false } }
impl Spelt for TypeDefKind { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { r_kind(s, i, j, x) } open spec fn atomic() -> bool { false } }
impl Spelt for Visibility { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { r_vis(s, i, j, x) } open spec fn atomic() -> bool { false } }
impl Spelt for NonTerminal { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { r_nt(s, i, j, x) } open spec fn atomic() -> bool { false } }
impl Spelt for Production { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { r_prod(s, i, j, x) } open spec fn atomic() -> bool { false } }
impl Spelt for Symbol { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { r_sym(s, i, j, x) } open spec fn atomic() -> bool { false } }
impl Spelt for Action { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { r_action(s, i, j, x) } open spec fn atomic() -> bool { false } }
impl Spelt for GrammarItem { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { r_item(s, i, j, x) } open spec fn atomic() -> bool { false } }
impl Spelt for Parser { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { r_parser(s, i, j, x) } open spec fn atomic() -> bool { false } }
//@ fn Visibility::is_pub ret=r
    ensures r == (*self is Pub),
//@ fn FieldPattern::parse ret=r
    requires 0 <= old(input).pos() <= old(input).src().len(),
    ensures
        final(input).here(old(input)),
        r is Ok ==> old(input).pos() < final(input).pos(),
        r is Ok ==> r_field(old(input).src(), old(input).pos(), final(input).pos(), r->Ok_0),
    decreases sizes(old(input).src(), old(input).pos()), 1nat
//@ begin
broadcast use {syn::lemma_sizes_less};
//@ fn Pattern::parse ret=r
    requires 0 <= old(input).pos() <= old(input).src().len(),
    ensures
        final(input).here(old(input)),
        r is Ok ==> old(input).pos() < final(input).pos(),
        r is Ok ==> r_pat(old(input).src(), old(input).pos(), final(input).pos(), r->Ok_0),
    decreases sizes(old(input).src(), old(input).pos()), 2nat
//@ begin
broadcast use {syn::lemma_sizes_less, syn::lemma_sizes_group, lemma_path, lemma_pats, lemma_tuple, lemma_enum, lemma_struct, lemma_fields0, lemma_fields1, lemma_fields2, lemma_fields3};
//@ loop 0
    fields@ == pats.items().take($it.pos()), $sq.len() == pats.items().len(),
    forall |k: int| 0 <= k < $sq.len() ==> (#[trigger] $sq[k]).item() == pats.items()[k],
//@ loop 0 after
assert(fields@ =~= pats.items());
//@ loop 1
    fields@ == pats.items().take($it.pos()), $sq.len() == pats.items().len(),
    forall |k: int| 0 <= k < $sq.len() ==> (#[trigger] $sq[k]).item() == pats.items()[k],
//@ loop 1 after
assert(fields@ =~= pats.items());
//@ loop 2 before
let ghost whole = contents.src();
//@ loop 2 decreases
whole.len() - contents.pos()
//@ loop 2 except_break
    contents.src() == whole, 0 <= contents.pos() <= whole.len(), fields_upto(whole, field_patterns@, contents.pos()), !trailing_dots,
//@ loop 2 ensures
    contents.src() == whole,
    trailing_dots || contents.pos() == whole.len(),
    fields_all(whole, field_patterns@, trailing_dots),
//@ fn Conversion::parse ret=r
    requires 0 <= old(input).pos() <= old(input).src().len(),
    ensures
        final(input).here(old(input)),
        r is Ok ==> old(input).pos() < final(input).pos(),
        r is Ok ==> r_conv(old(input).src(), old(input).pos(), final(input).pos(), r->Ok_0),
//@ fn TokenEnum::parse ret=r
    requires 0 <= old(input).pos() <= old(input).src().len(),
    ensures
        final(input).here(old(input)),
        r is Ok ==> old(input).pos() < final(input).pos(),
        r is Ok ==> r_enum(old(input).src(), old(input).pos(), final(input).pos(), r->Ok_0),
//@ begin
broadcast use {crate::syn::list::list_facts};
//@ loop 0 before
let ghost from = input.pos();
//@ loop 0
    input.src() == old(input).src(), old(input).pos() <= input.pos() <= input.src().len(),
    from <= input.pos(), items_opt(input.src(), from, input.pos(), lifetimes@),
//@ loop 0 decreases
input.src().len() - input.pos()
//@ loop 1
    $out@ == conversions.items().take($it.pos()), $sq.len() == conversions.items().len(),
    forall |k: int| 0 <= k < $sq.len() ==> (#[trigger] $sq[k]).item() == conversions.items()[k],
//@ loop 1 after
assert($out@ =~= conversions.items());
//@ fn TypeDef::parse ret=r
    requires 0 <= old(input).pos() <= old(input).src().len(),
    ensures
        final(input).here(old(input)),
        r is Ok ==> old(input).pos() < final(input).pos(),
        r is Ok ==> r_typedef(old(input).src(), old(input).pos(), final(input).pos(), r->Ok_0),
//@ fn TypeDefKind::parse ret=r
    requires 0 <= old(input).pos() <= old(input).src().len(),
    ensures
        final(input).here(old(input)),
        r is Ok ==> old(input).pos() < final(input).pos(),
        r is Ok ==> r_kind(old(input).src(), old(input).pos(), final(input).pos(), r->Ok_0),
//@ fn Visibility::parse ret=r
    requires 0 <= old(input).pos() <= old(input).src().len(),
    ensures
        final(input).here(old(input)),
        r is Ok ==> r_vis(old(input).src(), old(input).pos(), final(input).pos(), r->Ok_0),
//@ fn NonTerminal::parse ret=r
    requires 0 <= old(input).pos() <= old(input).src().len(),
    ensures
        final(input).here(old(input)),
        r is Ok ==> old(input).pos() < final(input).pos(),
        r is Ok ==> r_nt(old(input).src(), old(input).pos(), final(input).pos(), r->Ok_0),
//@ begin
broadcast use {crate::syn::list::list_facts};
//@ loop 0 before
let ghost whole = contents.src();
//@ loop 0
    contents.src() == whole, 0 <= contents.pos() <= whole.len(), items_opt(whole, 0, contents.pos(), productions@),
//@ loop 0 decreases
whole.len() - contents.pos()
//@ fn Production::parse ret=r
    requires 0 <= old(input).pos() <= old(input).src().len(),
    ensures
        final(input).here(old(input)),
        r is Ok ==> old(input).pos() < final(input).pos(),
        r is Ok ==> r_prod(old(input).src(), old(input).pos(), final(input).pos(), r->Ok_0),
        r is Ok ==> <Production as Spelt>::reads(old(input).src(), old(input).pos(), final(input).pos(), r->Ok_0),
//@ begin
broadcast use {crate::syn::list::list_facts};
//@ loop 0
    input.src() == old(input).src(), old(input).pos() <= input.pos() <= input.src().len(),
    list_plain(input.src(), old(input).pos(), input.pos(), symbols@),
//@ loop 0 decreases
input.src().len() - input.pos()
//@ fn Symbol::parse ret=r
    requires 0 <= old(input).pos() <= old(input).src().len(),
    ensures
        final(input).here(old(input)),
        r is Ok ==> old(input).pos() < final(input).pos(),
        r is Ok ==> r_sym(old(input).src(), old(input).pos(), final(input).pos(), r->Ok_0),
        r is Ok ==> <Symbol as Spelt>::reads(old(input).src(), old(input).pos(), final(input).pos(), r->Ok_0),
    decreases sizes(old(input).src(), old(input).pos()), 2nat
//@ begin
broadcast use {syn::lemma_sizes_less, lemma_op_add, lemma_op_star, lemma_op_question};
//@ loop 0
    input.src() == old(input).src(), old(input).pos() <= input.pos() <= input.src().len(),
    old(input).pos() < input.pos(), r_sym(input.src(), old(input).pos(), input.pos(), symbol),
//@ loop 0 decreases
input.src().len() - input.pos()
//@ fn Action::parse ret=r
    requires 0 <= old(input).pos() <= old(input).src().len(),
    ensures
        final(input).here(old(input)),
        r is Ok ==> old(input).pos() < final(input).pos(),
        r is Ok ==> r_action(old(input).src(), old(input).pos(), final(input).pos(), r->Ok_0),
//@ fn GrammarItem::parse ret=r
    requires 0 <= old(input).pos() <= old(input).src().len(),
    ensures
        final(input).here(old(input)),
        r is Ok ==> old(input).pos() < final(input).pos(),
        r is Ok ==> r_item(old(input).src(), old(input).pos(), final(input).pos(), r->Ok_0),
        r is Ok ==> <GrammarItem as Spelt>::reads(old(input).src(), old(input).pos(), final(input).pos(), r->Ok_0),
//@ fn Parser::parse ret=r
    requires 0 <= old(input).pos() <= old(input).src().len(),
    ensures
        final(input).here(old(input)),
        r is Ok ==> r_parser(old(input).src(), old(input).pos(), final(input).pos(), r->Ok_0),
//@ begin
broadcast use {crate::syn::list::list_facts};
//@ loop 0
    input.src() == old(input).src(), old(input).pos() <= input.pos() <= input.src().len(),
    list_plain(input.src(), old(input).pos(), input.pos(), items@),
//@ loop 0 decreases
input.src().len() - input.pos()
//@ fn symbol0 ret=r
    requires 0 <= old(input).pos() <= old(input).src().len(),
    ensures
        final(input).here(old(input)),
        r is Ok ==> old(input).pos() < final(input).pos(),
        r is Ok ==> r_sym(old(input).src(), old(input).pos(), final(input).pos(), r->Ok_0),
    decreases sizes(old(input).src(), old(input).pos()), 1nat
//@ begin
broadcast use {syn::lemma_sizes_less};
